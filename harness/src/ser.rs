//! Writes trees as HTML and XML, in randomly chosen equivalent spellings.
use crate::htmlref;
use crate::model::{K, M};
use crate::tape::Gen;
use std::collections::HashMap;
use std::sync::OnceLock;

/// Named references (with semicolon) by the character they stand for
fn names_of(c: char) -> &'static [&'static str] {
    static T: OnceLock<HashMap<char, Vec<&'static str>>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t: HashMap<char, Vec<&'static str>> = HashMap::new();
        for (n, e) in htmlref::entity_list() {
            let mut chars = e.chars();
            if let (Some(c), None, true) = (chars.next(), chars.next(), n.ends_with(';')) {
                t.entry(c).or_default().push(n);
            }
        }
        t
    });
    t.get(&c).map_or(&[], |v| v)
}

fn num_ref(g: &mut Gen, c: char) -> String {
    let zeros = ["", "", "0", "00"][g.below(4)];
    match g.below(4) {
        0 => format!("&#{zeros}{};", c as u32),
        1 => format!("&#x{zeros}{:x};", c as u32),
        2 => format!("&#x{zeros}{:X};", c as u32),
        _ => format!("&#X{zeros}{:x};", c as u32),
    }
}

fn html_ref(g: &mut Gen, c: char) -> String {
    let names = names_of(c);
    if !names.is_empty() && g.chance(60) {
        return format!("&{}", g.pick_of(names));
    }
    num_ref(g, c)
}

/// Text with the characters in `must` written as references. `percent`: how often
/// other characters are, too.
fn html_text(g: &mut Gen, s: &str, must: &[char], percent: usize) -> String {
    let chars: Vec<char> = s.chars().collect();
    let mut out = String::new();
    for (i, &c) in chars.iter().enumerate() {
        let amp_free = |c: Option<&char>| !c.is_some_and(|c| c.is_ascii_alphanumeric() || *c == '#');
        if must.contains(&c) {
            out.push_str(&html_ref(g, c));
        } else if c == '&' {
            if amp_free(chars.get(i + 1)) && g.chance(50) {
                out.push('&');
            } else {
                out.push_str(&html_ref(g, c));
            }
        } else if percent > 0 && htmlref::valid_ref(c as u32) && g.chance(percent) {
            out.push_str(&html_ref(g, c));
        } else {
            out.push(c);
        }
    }
    out
}

const WS: &[&str] = &["", " ", "\n", "\t", "  ", "\r\n", " \n\t"];

/// whitespace, at least one character if `some`
fn ws(g: &mut Gen, some: bool) -> &'static str {
    if g.chance(80) {
        return if some { " " } else { "" };
    }
    WS[if some { g.range(1, WS.len() - 1) } else { g.below(WS.len()) }]
}

fn mix_case(g: &mut Gen, s: &str) -> String {
    match g.weighted(&[80, 8, 6, 6]) {
        0 => s.into(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_ascii_lowercase(),
        _ => s
            .chars()
            .map(|c| if g.chance(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

const UNQUOTED_MUST: &[char] = &['\t', '\n', '\u{c}', ' ', '"', '\'', '=', '<', '>', '`'];

/// `name=value` in some spelling; the second is true if a space has to follow before `/>`
fn html_attr(g: &mut Gen, name: &str, value: &str) -> (String, bool) {
    if value.is_empty() && g.chance(40) {
        return (name.to_string(), false);
    }
    let eq = format!("{}={}", ws(g, false), ws(g, false));
    let percent = if g.chance(10) { 20 } else { 0 };
    let plain = !value.is_empty() && !value.contains(['\r', '\u{c}']);
    let cheap = !value.contains(UNQUOTED_MUST);
    if plain && g.chance(if cheap { 40 } else { 8 }) {
        return (format!("{name}{eq}{}", html_text(g, value, UNQUOTED_MUST, percent)), true);
    }
    let q = if value.contains('"') && !value.contains('\'') {
        if g.chance(20) { '"' } else { '\'' }
    } else if g.chance(30) {
        '\''
    } else {
        '"'
    };
    (format!("{name}{eq}{q}{}{q}", html_text(g, value, &[q], percent)), false)
}

/// Everything between `<` and the end of the start tag
pub fn html_start_tag(g: &mut Gen, m: &M, self_close: bool) -> String {
    let mut s = format!("<{}", m.name.as_deref().unwrap());
    let mut attrs: Vec<&(String, String)> = m.attrs.iter().flatten().collect();
    // any order
    if g.chance(50) {
        for i in (1..attrs.len()).rev() {
            let j = g.below(i + 1);
            attrs.swap(i, j);
        }
    }
    let mut space = false;
    for (k, v) in attrs {
        let (a, sp) = html_attr(g, k, v);
        s.push_str(ws(g, true));
        s.push_str(&a);
        space = sp;
    }
    s.push_str(ws(g, self_close && space));
    s.push_str(if self_close { "/>" } else { ">" });
    s
}

pub fn html_end_tag(g: &mut Gen, name: &str) -> String {
    format!("</{}{}>", mix_case(g, name), ws(g, false))
}

/// `h5`: only spellings that mean the same in HTML5
fn html_node(g: &mut Gen, m: &M, out: &mut String, h5: bool) {
    match m.kind {
        K::Text => {
            let percent = if g.chance(15) { 15 } else { 0 };
            out.push_str(&html_text(g, m.text.as_deref().unwrap(), &['<'], percent));
        }
        K::Comment => {
            out.push_str("<!--");
            out.push_str(m.data.as_deref().unwrap());
            out.push_str("-->");
        }
        K::Doctype => {
            out.push_str(&mix_case(g, "<!DOCTYPE "));
            out.push_str(m.data.as_deref().unwrap());
            out.push('>');
        }
        K::Void => {
            let sc = g.chance(30);
            out.push_str(&html_start_tag(g, m, sc));
        }
        K::Raw => {
            let content = m.data.as_deref().unwrap();
            if !h5 && content.is_empty() && g.chance(20) {
                out.push_str(&html_start_tag(g, m, true));
                return;
            }
            out.push_str(&html_start_tag(g, m, false));
            out.push_str(if h5 { "" } else { ws(g, false) });
            out.push_str(content);
            out.push_str(if h5 { "" } else { ws(g, false) });
            out.push_str(&html_end_tag(g, m.name.as_deref().unwrap()));
        }
        _ => {
            if !h5 && m.kids.is_empty() && g.chance(30) {
                out.push_str(&html_start_tag(g, m, true));
                return;
            }
            out.push_str(&html_start_tag(g, m, false));
            for k in &m.kids {
                html_node(g, k, out, h5);
            }
            out.push_str(&html_end_tag(g, m.name.as_deref().unwrap()));
        }
    }
}

pub fn html(g: &mut Gen, top: &[M]) -> String {
    let mut out = String::new();
    for m in top {
        html_node(g, m, &mut out, false);
    }
    out
}

pub fn html5(g: &mut Gen, top: &[M]) -> String {
    let mut out = String::new();
    for m in top {
        html_node(g, m, &mut out, true);
    }
    out
}

// ---- XML ----

fn xml_ref(g: &mut Gen, c: char) -> String {
    let named = match c {
        '<' => "&lt;",
        '>' => "&gt;",
        '&' => "&amp;",
        '"' => "&quot;",
        '\'' => "&apos;",
        _ => "",
    };
    if !named.is_empty() && g.chance(70) {
        return named.into();
    }
    match g.below(5) {
        0 | 1 => format!("&#{};", c as u32),
        2 => format!("&#x{:x};", c as u32),
        3 => format!("&#x{:X};", c as u32),
        _ => if g.chance(50) { format!("&#0{};", c as u32) } else { format!("&#x00{:x};", c as u32) },
    }
}

fn xml_text(g: &mut Gen, s: &str, must: &[char], percent: usize) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if must.contains(&c) || (percent > 0 && g.chance(percent)) {
            out.push_str(&xml_ref(g, c));
        } else if c == '>' && out.ends_with("]]") {
            out.push_str("&gt;");
        } else {
            out.push(c);
        }
    }
    out
}

fn xml_ws(g: &mut Gen, some: bool) -> &'static str {
    ws(g, some)
}

/// Attributes to be written on the element besides its own (namespace declarations)
pub type Decls<'a> = &'a dyn Fn(&M) -> Vec<(String, String)>;

/// The name the element is written with
fn qname(m: &M) -> String {
    let name = m.name.clone().unwrap();
    match m.ns.as_ref().and_then(|n| n.prefix.as_ref()) {
        Some(p) => format!("{p}:{name}"),
        None => name,
    }
}

fn xml_start(g: &mut Gen, m: &M, decls: Decls, close: bool) -> String {
    let mut s = format!("<{}", qname(m));
    let mut attrs = decls(m);
    attrs.extend(m.attrs.iter().flatten().cloned());
    if g.chance(50) {
        for i in (1..attrs.len()).rev() {
            let j = g.below(i + 1);
            attrs.swap(i, j);
        }
    }
    for (k, v) in attrs {
        let q = if g.chance(30) { '\'' } else { '"' };
        let percent = if g.chance(10) { 20 } else { 0 };
        let v = xml_text(g, &v, &['<', '&', '\t', '\n', '\r', q], percent);
        s.push_str(xml_ws(g, true));
        s.push_str(&format!("{k}{}={}{q}{v}{q}", xml_ws(g, false), xml_ws(g, false)));
    }
    s.push_str(xml_ws(g, false));
    s.push_str(if close { "/>" } else { ">" });
    s
}

fn xml_node(g: &mut Gen, m: &M, decls: Decls, out: &mut String) {
    match m.kind {
        K::Text => {
            let percent = if g.chance(15) { 15 } else { 0 };
            out.push_str(&xml_text(g, m.text.as_deref().unwrap(), &['<', '&', '\r'], percent));
        }
        K::Comment => out.push_str(&format!("<!--{}-->", m.data.as_deref().unwrap())),
        K::CData => out.push_str(&format!("<![CDATA[{}]]>", m.data.as_deref().unwrap())),
        K::Pi => {
            out.push_str(&format!("<?{}", m.target.as_deref().unwrap()));
            if let Some(d) = &m.data {
                out.push(' ');
                out.push_str(d);
            }
            out.push_str("?>");
        }
        _ => {
            if m.kids.is_empty() && g.chance(40) {
                out.push_str(&xml_start(g, m, decls, true));
                return;
            }
            out.push_str(&xml_start(g, m, decls, false));
            let (mut prev_text, mut prev_cdata) = (false, false);
            for k in &m.kids {
                let is_text = k.kind == K::Text;
                // blank text next to markup (other than CDATA) is left out by the parser
                let is_cdata = k.kind == K::CData;
                if !is_text && !prev_text && !is_cdata && !prev_cdata && g.chance(8) {
                    out.push_str(g.pick(&[" ", "\n  ", "\t"]));
                }
                xml_node(g, k, decls, out);
                prev_text = is_text;
                prev_cdata = is_cdata;
            }
            out.push_str(&format!("</{}{}>", qname(m), xml_ws(g, false)));
        }
    }
}

/// A whole document: prolog, nodes around the root (comments and instructions), the root.
pub fn xml(g: &mut Gen, top: &[M], decls: Decls) -> String {
    let mut out = String::new();
    match g.weighted(&[50, 20, 10, 10]) {
        0 => {}
        1 => out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>"),
        2 => out.push_str("<?xml version='1.0'?>\n"),
        _ => out.push_str("<?xml version=\"1.0\" standalone='yes'?>\n"),
    }
    if g.chance(15) {
        let root = top.iter().find(|m| m.is_el()).map_or_else(|| "a".into(), qname);
        out.push_str(&g.pick(&[
            "<!DOCTYPE R>",
            "<!DOCTYPE R >\n",
            "<!DOCTYPE R SYSTEM \"r.dtd\">",
            "<!DOCTYPE R PUBLIC '-//X//Y' 'http://e.org/r.dtd'>",
            "<!DOCTYPE R [<!ELEMENT R ANY><!ATTLIST R z CDATA #IMPLIED>]>",
            "<!DOCTYPE R [<!ENTITY ent 'unused'> <!-- c --> <?pi x?>]>",
        ]).replace('R', &root));
    }
    for m in top {
        if g.chance(20) {
            out.push('\n');
        }
        xml_node(g, m, decls, &mut out);
    }
    if g.chance(20) {
        out.push('\n');
    }
    out
}

/// The nodes only, without a prolog
pub fn xml_plain(g: &mut Gen, top: &[M]) -> String {
    let mut out = String::new();
    for m in top {
        xml_node(g, m, &no_decls, &mut out);
    }
    out
}

pub fn no_decls(_: &M) -> Vec<(String, String)> {
    vec![]
}
