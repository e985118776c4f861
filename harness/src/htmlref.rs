//! Reference for the strict HTML dialect, written from the statements of the
//! properties and the HTML standard. Three-valued: where the statements leave the
//! outcome open the verdict is `Unspecified`, and nothing is asserted.
use crate::model::{K, M};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Debug, PartialEq)]
pub enum Verdict {
    Valid(Vec<M>),
    Malformed(&'static str),
    Unspecified(&'static str),
}

pub const VOID_NAMES: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];

pub fn kind_of(name: &str) -> K {
    if VOID_NAMES.iter().any(|v| v.eq_ignore_ascii_case(name)) {
        K::Void
    } else if name.eq_ignore_ascii_case("script") || name.eq_ignore_ascii_case("style") {
        K::Raw
    } else {
        K::Elem
    }
}

/// name (with its semicolon, if any) → expansion
pub fn entities() -> &'static HashMap<&'static str, String> {
    static T: OnceLock<HashMap<&'static str, String>> = OnceLock::new();
    T.get_or_init(|| entity_list().iter().map(|(n, e)| (*n, e.clone())).collect())
}

pub fn entity_list() -> &'static Vec<(&'static str, String)> {
    static T: OnceLock<Vec<(&'static str, String)>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../data/entities.txt")
            .lines()
            .map(|l| {
                let mut p = l.split(' ');
                let name = p.next().unwrap();
                (name, p.map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect())
            })
            .collect()
    })
}

/// Whether the standard calls a numeric reference to this a reference to a valid character
pub fn valid_ref(code: u32) -> bool {
    match char::from_u32(code) {
        None => false,
        Some(c) => {
            let control = (c < ' ' && !matches!(c, '\t' | '\n')) || matches!(c, '\u{7f}'..='\u{9f}');
            let nonchar = code & 0xfffe == 0xfffe || (0xfdd0..=0xfdef).contains(&code);
            !control && !nonchar
        }
    }
}

/// Decodes the character references of a text or attribute value; `None` where unspecified.
pub fn decode(s: &str, attr: bool) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        let rest = &s[i..];
        if !rest.starts_with('&') {
            let end = rest.find('&').unwrap_or(rest.len());
            out.push_str(&rest[..end]);
            i += end;
            continue;
        }
        let after = &rest[1..];
        let run = |t: &str, f: fn(&char) -> bool| t.chars().take_while(f).map(char::len_utf8).sum::<usize>();
        if let Some(num) = after.strip_prefix('#') {
            let hex = num.starts_with(['x', 'X']);
            let digits = if hex { &num[1..] } else { num };
            let n = run(digits, if hex { char::is_ascii_hexdigit } else { char::is_ascii_digit });
            if n == 0 {
                out.push('&');
                i += 1;
                continue;
            }
            if !digits[n..].starts_with(';') {
                return None;
            }
            let code = u32::from_str_radix(&digits[..n], if hex { 16 } else { 10 }).ok()?;
            if !valid_ref(code) {
                return None;
            }
            out.push(char::from_u32(code).unwrap());
            i += 2 + usize::from(hex) + n + 1;
            continue;
        }
        let n = run(after, char::is_ascii_alphanumeric);
        let max = n + usize::from(after[n..].starts_with(';'));
        let hit = (2..=max).rev().find_map(|l| entities().get_key_value(&after[..l]));
        match hit {
            Some((name, exp)) => {
                let next = after[name.len()..].chars().next();
                if attr && !name.ends_with(';') && next.is_some_and(|c| c == '=' || c.is_ascii_alphanumeric()) {
                    out.push('&');
                    i += 1;
                } else {
                    out.push_str(exp);
                    i += 1 + name.len();
                }
            }
            None => {
                out.push('&');
                i += 1;
            }
        }
    }
    Some(out)
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

fn skip_ws(s: &str) -> &str {
    s.trim_start_matches(is_ws)
}

fn name_end(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\u{c}' | '\r' | ' ' | '"' | '\'' | '<' | '>' | '/' | '=')
}

enum Stop {
    Malformed(&'static str),
    Unspecified(&'static str),
}
use Stop::{Malformed, Unspecified};

struct Tag<'a> {
    name: &'a str,
    attrs: Vec<(String, String)>,
    closed: bool,
    rest: &'a str,
}

fn start_tag(s: &str) -> Result<Tag<'_>, Stop> {
    // s is behind the '<' and begins with a letter
    let n = s.find(name_end).ok_or(Malformed("tag not terminated"))?;
    let (name, mut s) = s.split_at(n);
    if s.starts_with(['"', '\'', '<', '=']) {
        return Err(Unspecified("odd character ends a name"));
    }
    let mut attrs: Vec<(String, String)> = vec![];
    loop {
        let t = skip_ws(s);
        let spaced = t.len() < s.len();
        s = t;
        match s.chars().next() {
            None => return Err(Malformed("tag not terminated")),
            Some('>') => return Ok(Tag { name, attrs, closed: false, rest: &s[1..] }),
            Some('/') if s.starts_with("/>") => return Ok(Tag { name, attrs, closed: true, rest: &s[2..] }),
            Some('/') if s == "/" => return Err(Malformed("tag not terminated")),
            Some('/' | '"' | '\'' | '=' | '<' | '\u{c}') => return Err(Unspecified("odd character in a tag")),
            Some(_) if !spaced => return Err(Unspecified("no space between attributes")),
            Some(_) => {}
        }
        let n = s.find(|c| name_end(c) && c != '<').ok_or(Malformed("tag not terminated"))?;
        let (an, t) = s.split_at(n);
        if an.contains('<') || t.starts_with(['"', '\'']) {
            return Err(Unspecified("odd character in an attribute name"));
        }
        if attrs.iter().any(|a| a.0 == an) {
            return Err(Unspecified("attribute repeated"));
        }
        let after = skip_ws(t);
        if after.starts_with('\u{c}') {
            return Err(Unspecified("form feed in a tag"));
        }
        let Some(v) = after.strip_prefix('=') else {
            attrs.push((an.into(), String::new()));
            s = t;
            continue;
        };
        let v = skip_ws(v);
        let value;
        match v.chars().next() {
            None => return Err(Malformed("tag not terminated")),
            Some('>') => return Err(Malformed("no value after '='")),
            Some(q @ ('"' | '\'')) => {
                let n = v[1..].find(q).ok_or(Malformed("quote not terminated"))?;
                value = &v[1..=n];
                s = &v[n + 2..];
            }
            Some('=' | '<' | '`' | '\u{c}') => return Err(Unspecified("odd unquoted value")),
            Some(_) => {
                let n = v
                    .find(|c| is_ws(c) || matches!(c, '\u{c}' | '"' | '\'' | '=' | '<' | '>' | '`'))
                    .ok_or(Malformed("tag not terminated"))?;
                value = &v[..n];
                s = &v[n..];
                if !s.starts_with(|c| is_ws(c) || c == '>') {
                    return Err(Unspecified("odd character in an unquoted value"));
                }
            }
        }
        attrs.push((an.into(), decode(value, true).ok_or(Unspecified("reference"))?));
    }
}

struct Open<'a> {
    name: &'a str,
    attrs: Vec<(String, String)>,
    kids: Vec<M>,
}

pub fn parse(s: &str) -> Verdict {
    match parse_inner(s) {
        Ok(m) => Verdict::Valid(m),
        Err(Malformed(w)) => Verdict::Malformed(w),
        Err(Unspecified(w)) => Verdict::Unspecified(w),
    }
}

fn parse_inner(mut s: &str) -> Result<Vec<M>, Stop> {
    let mut stack = vec![Open { name: "", attrs: vec![], kids: vec![] }];
    while !s.is_empty() {
        let top = stack.last_mut().unwrap();
        if !s.starts_with('<') {
            let n = s.find('<').unwrap_or(s.len());
            top.kids.push(M::text(decode(&s[..n], false).ok_or(Unspecified("reference"))?));
            s = &s[n..];
        } else if let Some(t) = s.strip_prefix("<!--") {
            if t.starts_with('>') || t.starts_with("->") {
                return Err(Unspecified("abruptly closed comment"));
            }
            let n = t.find("-->").ok_or(Malformed("comment not terminated"))?;
            if t[..n].contains("--!>") {
                return Err(Unspecified("--!> in a comment"));
            }
            top.kids.push(M::comment(&t[..n]));
            s = &t[n + 3..];
        } else if s.get(..9).is_some_and(|h| h.eq_ignore_ascii_case("<!doctype")) {
            let Some(t) = s[9..].strip_prefix(' ') else { return Err(Unspecified("doctype without a space")) };
            let n = t.find('>').ok_or(Malformed("doctype not terminated"))?;
            if t[..n].trim_start() != &t[..n] {
                return Err(Unspecified("more whitespace in a doctype"));
            }
            top.kids.push(M::doctype(&t[..n]));
            s = &t[n + 1..];
        } else if let Some(t) = s.strip_prefix("</") {
            let n = t.find(name_end).ok_or(Malformed("end tag not terminated"))?;
            if n == 0 {
                return Err(Malformed("end tag without name"));
            }
            let (name, t) = t.split_at(n);
            let t = skip_ws(t);
            if t.is_empty() {
                return Err(Malformed("end tag not terminated"));
            }
            if stack.len() == 1 {
                return Err(Malformed("stray end tag"));
            }
            let open = stack.last().unwrap().name;
            if !open.eq_ignore_ascii_case(name) {
                if open.to_lowercase() == name.to_lowercase() || open.to_uppercase() == name.to_uppercase() {
                    return Err(Unspecified("letter case outside ASCII"));
                }
                return Err(Malformed("mismatched end tag"));
            }
            let Some(t) = t.strip_prefix('>') else { return Err(Unspecified("more than a name in an end tag")) };
            let o = stack.pop().unwrap();
            stack.last_mut().unwrap().kids.push(M::elem(o.name, o.attrs, o.kids));
            s = t;
        } else if s[1..].starts_with(|c: char| c.is_ascii_alphabetic()) {
            let tag = start_tag(&s[1..])?;
            s = tag.rest;
            match kind_of(tag.name) {
                K::Void => top.kids.push(M::void(tag.name, tag.attrs)),
                K::Raw if tag.closed => top.kids.push(M::raw(tag.name, tag.attrs, "")),
                K::Raw => {
                    let mut from = 0;
                    let (content, rest) = loop {
                        let n = from + s[from..].find("</").ok_or(Malformed("raw element not terminated"))?;
                        let t = &s[n + 2..];
                        from = n + 2;
                        if !t.get(..tag.name.len()).is_some_and(|x| x.eq_ignore_ascii_case(tag.name)) {
                            continue;
                        }
                        let t = &t[tag.name.len()..];
                        if let Some(rest) = skip_ws(t).strip_prefix('>') {
                            break (&s[..n], rest);
                        }
                        if t.is_empty() || t.starts_with(|c| is_ws(c) || matches!(c, '/' | '\u{c}')) {
                            return Err(Unspecified("odd end tag of a raw element"));
                        }
                    };
                    if content.trim() != content.trim_matches(is_ws) {
                        return Err(Unspecified("odd whitespace around raw content"));
                    }
                    top.kids.push(M::raw(tag.name, tag.attrs, content.trim()));
                    s = rest;
                }
                _ if tag.closed => top.kids.push(M::elem(tag.name, tag.attrs, vec![])),
                _ => stack.push(Open { name: tag.name, attrs: tag.attrs, kids: vec![] }),
            }
        } else {
            match s[1..].chars().next() {
                // in SVG and MathML only there are CDATA sections
                Some('!') if s.starts_with("<![CDATA[") && stack.iter().any(|o| o.name.eq_ignore_ascii_case("svg") || o.name.eq_ignore_ascii_case("math")) => {
                    return Err(Unspecified("CDATA section in foreign content"))
                }
                Some('!' | '?') => return Err(Malformed("markup declaration that HTML does not have")),
                Some(c) if c.is_ascii_digit() => return Err(Unspecified("name begins with a digit")),
                _ => return Err(Malformed("stray '<'")),
            }
        }
    }
    if stack.len() > 1 {
        return Err(Malformed("element not closed"));
    }
    Ok(stack.pop().unwrap().kids)
}
