//! C20–C24: the XML parser.
use crate::engine::{fail, ok, Case, Fail, Known, Part, Prop, Special, R};
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::p_strict::{boundary, exercise};
use crate::ser;
use crate::tape::Gen;
use crate::xmlref;
use soupy::parser::{Parser, XMLParser};
use soupy::Soup;
use std::collections::BTreeMap;
use std::io::Read;

/// Parses, by the parser and by the document constructor, which have to agree.
pub fn xml_parse(s: &[u8]) -> Result<Result<Vec<M>, String>, String> {
    crate::util::current_input(&String::from_utf8_lossy(s));
    match (XMLParser::parse(s), Soup::xml(s)) {
        (Ok(a), Ok(b)) => {
            let m = ms(&a);
            let want: Vec<M> = soup_of(a).iter().map(|i| i.m()).collect();
            let got: Vec<M> = b.iter().map(|i| i.m()).collect();
            if got != want {
                return Err(format!("Soup::xml gives {got:?}, the parser {want:?}"));
            }
            Ok(Ok(m))
        }
        (Err(a), Err(_)) => Ok(Err(a.to_string())),
        (a, b) => Err(format!("the parser gives ok={}, Soup::xml ok={}", a.is_ok(), b.is_ok())),
    }
}

fn parses_to(s: &[u8], want: &[M], with_ns: bool) -> Result<(), Fail> {
    let shown = String::from_utf8_lossy(s);
    match xml_parse(s) {
        Err(e) => fail(shown, e),
        Ok(Err(e)) => fail(shown, format!("rejected: {e}\n   want {want:?}")),
        Ok(Ok(got)) => {
            let got: Vec<M> = if with_ns { got } else { got.into_iter().map(M::without_ns).collect() };
            ensure!(got == want, shown, "\n   got  {got:?}\n   want {want:?}");
            Ok(())
        }
    }
}

/// The root with comments and instructions around it
fn xml_doc(g: &mut Gen, nodes: usize) -> Vec<M> {
    let (root, _) = gen::xml_root(g, nodes);
    let mut top = vec![];
    let misc = |g: &mut Gen, top: &mut Vec<M>| {
        for _ in 0..g.weighted(&[75, 18, 7]) {
            top.push(if g.chance(60) { M::comment(g.pick(&[" c ", "", "<a>", "&amp;", " \u{e9} - ", "\n", "</r>", "]]>", "<?x?>"])) } else { gen::instruction(g) });
        }
    };
    misc(g, &mut top);
    top.push(root);
    misc(g, &mut top);
    top
}

// ---- C20 ----

fn c20(g: &mut Gen) -> R {
    let top = xml_doc(&mut g.sub(), 25);
    let s = ser::xml(g, &top, &ser::no_decls);
    parses_to(s.as_bytes(), &top, false)?;
    let all = walk_all(&top);
    let mut l = vec![];
    for (k, n) in [(K::CData, "cdata"), (K::Comment, "comment"), (K::Pi, "instruction"), (K::Text, "text")] {
        if all.iter().any(|m| m.kind == k) {
            l.push(n);
        }
    }
    if top.len() > 1 {
        l.push("nodes around the root");
    }
    ok(s, all.len() > 3, l)
}

fn c20_large(i: u64) -> R {
    let (what, m) = gen::very_large(i);
    crate::util::current_input(&what);
    let want = [m];
    let s = ser::xml(&mut Gen::new(&[]), &want, &ser::no_decls);
    match xml_parse(s.as_bytes()) {
        Ok(Ok(got)) => ensure!(got.into_iter().map(M::without_ns).eq(want), what, "a different tree"),
        Ok(Err(e)) => return fail(what, format!("rejected: {}", e.chars().take(200).collect::<String>())),
        Err(e) => return fail(what, e.chars().take(200).collect::<String>()),
    }
    ok(what, true, vec!["megabytes"])
}

/// In pieces as at once
fn c23_large(i: u64) -> R {
    let (what, m) = gen::very_large(i);
    crate::util::current_input(&what);
    let s = ser::xml(&mut Gen::new(&[]), &[m], &ser::no_decls);
    let tree = |r: &mut dyn Read| XMLParser::parse(r).map(|n| ms(&n)).map_err(|e| e.to_string());
    let at_once = tree(&mut s.as_bytes());
    ensure!(at_once.is_ok(), what, "rejected");
    for size in [8192, 65_536, 1 << 20, 1 << 22] {
        let mut r = Pieces { data: s.as_bytes(), sizes: vec![size], at: 0, end: End::Eof, failed: false };
        ensure!(tree(&mut r) == at_once, what, "a different tree in pieces of {size}");
    }
    let mut r = Pieces { data: &s.as_bytes()[..s.len() - 1], sizes: vec![100_000], at: 0, end: End::Eof, failed: false };
    ensure!(tree(&mut r).is_err(), what, "accepted without its last byte");
    ok(what, true, vec!["megabytes"])
}

/// References to entities that the document declares itself
fn c20_entities(g: &mut Gen) -> R {
    let mut top = xml_doc(&mut g.sub(), 15);
    let names = ["e", "ent", "a.b", "\u{e9}", "lt2", "nbsp", "E"];
    let mut decl: Vec<(&str, String, String)> = vec![];
    for n in names {
        if g.chance(50) {
            let c = g.pick(&["value", "", "a b", "\u{e9}\u{1f600}", "x'y", "it;", "A&#66;", "1 > 0"]);
            decl.push((n, c.into(), c.replace("&#66;", "B")));
        }
    }
    if decl.is_empty() {
        decl.push(("e", "value".into(), "value".into()));
    }
    fn clear(m: &mut M) {
        let f = |s: &mut String| *s = s.replace(|c: char| ('\u{e100}'..'\u{e120}').contains(&c), "x");
        m.text.iter_mut().for_each(f);
        m.data.iter_mut().for_each(f);
        m.attrs.iter_mut().flatten().for_each(|a| f(&mut a.1));
        m.kids.iter_mut().for_each(clear);
    }
    top.iter_mut().for_each(clear);
    // in some text and attributes: a private-use character for each
    fn mark(g: &mut Gen, m: &mut M, n: usize, used: &mut usize) {
        let put = |g: &mut Gen, s: &mut String, used: &mut usize| {
            if g.chance(40) {
                let i = boundary(g, s);
                s.insert(i, char::from_u32(0xe100 + g.below(n) as u32).unwrap());
                *used += 1;
            }
        };
        if m.kind == K::Text {
            put(g, m.text.as_mut().unwrap(), used);
        }
        for a in m.attrs.iter_mut().flatten() {
            put(g, &mut a.1, used);
        }
        for k in &mut m.kids {
            mark(g, k, n, used);
        }
    }
    let mut used = 0;
    for m in &mut top {
        mark(g, m, decl.len(), &mut used);
    }
    let mut s = ser::xml_plain(g, &top);
    fn fill(m: &mut M, decl: &[(&str, String, String)]) {
        for (i, d) in decl.iter().enumerate() {
            let c = char::from_u32(0xe100 + i as u32).unwrap();
            if let Some(t) = &mut m.text {
                *t = t.replace(c, &d.2);
            }
            for a in m.attrs.iter_mut().flatten() {
                a.1 = a.1.replace(c, &d.2);
            }
        }
        m.kids.iter_mut().for_each(|k| fill(k, decl));
    }
    for (i, d) in decl.iter().enumerate() {
        let c = char::from_u32(0xe100 + i as u32).unwrap();
        s = s.replace(&format!("&#{};", c as u32), &format!("&{};", d.0)).replace(c, &format!("&{};", d.0));
    }
    if s.chars().any(|c| ('\u{e100}'..'\u{e120}').contains(&c)) || s.contains("&#0576") || s.contains("&#x") && s.to_lowercase().contains("e10") {
        return ok(s, false, vec!["mark written as a reference"]);
    }
    top.iter_mut().for_each(|m| fill(m, &decl));
    let dtd: String = decl.iter().map(|d| format!("<!ENTITY {} \"{}\">{}", d.0, d.1, g.pick(&["", " ", "\n"]))).collect();
    let s = format!("<!DOCTYPE r [{dtd}]>{s}");
    // a text that turns out blank is left out
    fn blank(m: &M) -> bool {
        m.text.as_ref().is_some_and(|t| t.trim().is_empty()) || m.kids.iter().any(blank)
    }
    if top.iter().any(blank) {
        return ok(s, false, vec!["blank text"]);
    }
    parses_to(s.as_bytes(), &top, false)?;
    ok(s, used > 0, vec!["entities of the document"])
}

/// Line ends as XML has them: what xml-rs keeps, in text and attributes, is a known finding
fn c20_line_ends(g: &mut Gen) -> R {
    let top = xml_doc(&mut g.sub(), 15);
    let s = ser::xml(g, &top, &ser::no_decls);
    if !s.contains('\n') || s.contains("&#") {
        return ok(s, false, vec!["no line ends"]);
    }
    let end = g.pick(&["\r\n", "\r"]);
    let s = s.replace('\n', end);
    fn normal(m: &M) -> M {
        let n = |s: &String| s.replace("\r\n", "\n").replace('\r', "\n");
        let mut m = m.clone();
        m.text = m.text.as_ref().map(n);
        m.data = m.data.as_ref().map(n);
        for a in m.attrs.iter_mut().flatten() {
            a.1 = n(&a.1).replace(['\t', '\n'], " ");
        }
        m.kids = m.kids.iter().map(normal).collect();
        m
    }
    match xml_parse(s.as_bytes()) {
        Err(e) => fail(s, e),
        Ok(Err(e)) => fail(s, format!("rejected: {e}")),
        Ok(Ok(got)) => {
            let got: Vec<M> = got.into_iter().map(M::without_ns).map(|m| normal(&m)).collect();
            let want: Vec<M> = top.iter().map(normal).collect();
            ensure!(got == want, s, "\n   got  {got:?}\n   want {want:?}");
            ok(s, walk_all(&top).len() > 2, vec!["line ends"])
        }
    }
}

fn c20_line_end_finding() -> bool {
    let text = |s: &[u8]| match xml_parse(s) {
        Ok(Ok(m)) => m[0].kids.first().and_then(|k| k.text.clone()),
        _ => None,
    };
    text(b"<a>x\r\ny</a>").as_deref() == Some("x\r\ny")
}

fn c20_collision() -> bool {
    match xml_parse(b"<a xmlns:p='v' p:z='1' z='2'/>") {
        Ok(Ok(m)) => m[0].attrs.as_ref().unwrap().len() < 2,
        _ => false,
    }
}

// ---- C21 ----

const PREFIXES: &[&str] = &["p", "q", "r", "pp", "\u{e9}"];
const URIS: &[&str] = &["u1", "u2", "http://e.org/ns", "http://e.org/ns#", "urn:x:y", "U1", "u1/"];

type Scope = BTreeMap<String, String>;

struct NsGen<'g, 't> {
    g: &'g mut Gen<'t>,
    left: usize,
    /// prefix left undeclared somewhere: the document is malformed
    unbound: bool,
    /// break it
    break_it: bool,
    /// declarations that shadow one
    shadowed: usize,
}

impl NsGen<'_, '_> {
    /// An element and its declarations, which are kept as attributes `xmlns…` in `target`
    /// until the tree is written
    fn element(&mut self, scope: &Scope, depth: usize) -> (M, Tree) {
        let g = &mut *self.g;
        let mut inner = scope.clone();
        let mut decls = vec![];
        for _ in 0..g.weighted(&[50, 30, 15, 5]) {
            let p = if g.chance(30) { String::new() } else { g.pick(PREFIXES).to_string() };
            let u = if p.is_empty() && g.chance(20) { String::new() } else { g.pick(URIS).to_string() };
            if decls.iter().all(|(k, _): &(String, String)| *k != p) {
                if inner.contains_key(&p) {
                    self.shadowed += 1;
                }
                inner.insert(p.clone(), u.clone());
                decls.push((p, u));
            }
        }
        let mut bound: Vec<&String> = inner.keys().filter(|k| !k.is_empty()).collect();
        bound.sort();
        let mut prefix = if !bound.is_empty() && g.chance(50) { Some((*g.pick_of(&bound)).clone()) } else { None };
        if self.break_it && g.chance(25) {
            if let Some(p) = PREFIXES.iter().find(|p| !inner.contains_key(**p)) {
                prefix = Some(p.to_string());
                self.unbound = true;
            }
        }
        let name = g.pick(gen::XML_NAMES).to_string();
        let mut attrs: Vec<(String, String)> = vec![];
        let mut written: Vec<(String, String)> = vec![];
        for _ in 0..g.weighted(&[50, 30, 20]) {
            let local = g.pick(gen::XML_ATTRS).to_string();
            if attrs.iter().any(|a| a.0 == local) {
                continue; // local names that collide are a known finding of C20
            }
            let v = gen::xml_text(g.pick(gen::VALUES));
            let mut w = local.clone();
            if !bound.is_empty() && g.chance(30) {
                w = format!("{}:{local}", g.pick_of(&bound));
            } else if self.break_it && g.chance(10) {
                if let Some(p) = PREFIXES.iter().find(|p| !inner.contains_key(**p)) {
                    w = format!("{p}:{local}");
                    self.unbound = true;
                }
            } else if g.chance(10) {
                w = format!("xml:{local}");
            }
            attrs.push((local, v.clone()));
            written.push((w, v));
        }
        let ns = match &prefix {
            Some(p) => inner.get(p).cloned(),
            None => inner.get("").filter(|u| !u.is_empty()).cloned(),
        };
        let mut m = M::elem(name, attrs, vec![]);
        m.ns = Some(Box::new(Ns {
            prefix,
            ns,
            scope: Some(inner.iter().filter(|(_, u)| !u.is_empty()).map(|(k, v)| (k.clone(), v.clone())).collect()),
        }));
        for (p, u) in decls {
            written.push((if p.is_empty() { "xmlns".into() } else { format!("xmlns:{p}") }, u));
        }
        let mut t = Tree { written, kids: vec![] };
        if depth < 5 {
            for _ in 0..self.g.weighted(&[20, 30, 30, 20]) {
                if self.left == 0 {
                    break;
                }
                self.left -= 1;
                let (k, kt) = self.element(&inner, depth + 1);
                m.kids.push(k);
                t.kids.push(kt);
            }
        }
        (m, t)
    }
}

/// The attributes as written, in the shape of the tree
struct Tree {
    written: Vec<(String, String)>,
    kids: Vec<Tree>,
}

fn with_written(m: &M, t: &Tree) -> M {
    let mut w = m.clone();
    w.attrs = Some(t.written.clone());
    w.kids = m.kids.iter().zip(&t.kids).map(|(m, t)| with_written(m, t)).collect();
    w
}

/// Bindings of `xml` and `xmlns`, and undeclared defaults, are not the subject
pub fn tidy(m: &M) -> M {
    let mut m = m.clone();
    if let Some(ns) = &mut m.ns {
        let scope = ns.scope.take().unwrap_or_default();
        let mut scope: Vec<_> = scope.into_iter().filter(|(k, v)| k != "xml" && k != "xmlns" && !v.is_empty()).collect();
        scope.sort();
        ns.scope = Some(scope);
    }
    m.kids = m.kids.iter().map(tidy).collect();
    m
}

fn c21(g: &mut Gen) -> R {
    let break_it = g.chance(25);
    let mut n = NsGen { g, left: 12, unbound: false, break_it, shadowed: 0 };
    let (m, t) = n.element(&Scope::new(), 0);
    let (unbound, shadowed) = (n.unbound, n.shadowed);
    let s = ser::xml(g, &[with_written(&m, &t)], &ser::no_decls);
    let got = match xml_parse(s.as_bytes()) {
        Err(e) => return fail(s, e),
        Ok(Err(_)) if unbound => return ok(s, true, vec!["unbound prefix"]),
        Ok(Err(e)) => return fail(s, format!("rejected: {e}")),
        Ok(Ok(got)) => got,
    };
    ensure!(!unbound, s, "accepted although a prefix is not bound, as {got:?}");
    let got: Vec<M> = got.iter().map(tidy).collect();
    let want = vec![tidy(&m)];
    ensure!(got == want, s, "\n   got  {got:?}\n   want {want:?}");
    // queries by tag match the local name
    let soup = Soup::xml(s.as_bytes()).map_err(|e| Fail { input: s.clone(), msg: e.to_string() })?;
    let all = walk_all(&want);
    for name in ["a", "b", "root"] {
        use soupy::Queryable;
        let got = soup.tag(name).all().count();
        let want = all.iter().filter(|m| m.name.as_deref() == Some(name)).count();
        ensure!(got == want, s, "tag({name:?}) selects {got} elements, expected {want}");
    }
    let prefixed = all.iter().filter(|m| m.ns.as_ref().unwrap().prefix.is_some()).count();
    let mut l = vec![];
    if shadowed > 0 {
        l.push("shadowing");
    }
    if prefixed > 0 {
        l.push("prefixed");
    }
    ok(s, all.iter().any(|m| m.ns.as_ref().unwrap().ns.is_some()), l)
}

// ---- C22 ----

/// What cannot stand in the content of an element, by kind of fault
const SNIPPETS: &[(&str, &[&str])] = &[
    ("stray end tag", &["</zz>", "</>", "</zz"]),
    ("element not closed", &["<zz>", "<zz a='1'>", "<zz><a/>", "<zz", "<zz a='1'"]),
    ("mismatched tags", &["<zz></zy>", "<zz></ZZ>", "<zz></zzz>", "<zzz></zz>", "<zz><a></zz>"]),
    ("crossing tags", &["<zz><zy></zz></zy>", "<zz>t<zy>t</zz>t</zy>"]),
    ("stray '<'", &["<", "< a/>", "<<a/>", "a < b"]),
    ("undefined reference", &["&undefined;", "&nbsp;", "&LT;", "&eacute;", "&a.b;"]),
    ("unterminated reference", &["&", "& ", "&amp", "&#65", "&;", "&#;", "&#x;", "&#zz;", "a && b"]),
    ("repeated attribute", &["<zz a='1' a='2'/>", "<zz a='1' b='2' a='1'/>", "<zz xmlns:p='u' p:a='1' p:a='1'/>"]),
    ("unquoted attribute", &["<zz a=1/>", "<zz a/>", "<zz a=/>", "<zz a=1></zz>", "<zz a b='1'/>", "<zz a='1/>", "<zz a=\"1/>", "<zz a='1\"/>"]),
    ("'<' in an attribute", &["<zz a='<'/>", "<zz a=\"x<y/>\"/>"]),
    ("unterminated comment", &["<!-- x", "<!--", "<!-- x ->", "<!-- x --", "<!-"]),
    ("misplaced comment", &["<zz <!-- x --> />", "<!-- a -- b -->"]),
    ("unterminated CDATA", &["<![CDATA[", "<![CDATA[ x ]>", "<![CDATA[x]]", "<![CDATA"]),
    ("misplaced CDATA", &["]]>", "x ]]> y", "<zz <![CDATA[x]]>/>"]),
    ("misplaced declaration", &["<?xml version='1.0'?>", "<!DOCTYPE zz>", "<!DOCTYPE zz [<!ENTITY e 'x'>]>"]),
    ("unterminated instruction", &["<?pi", "<?pi x", "<?pi x?", "<?pi x>"]),
    ("unbound prefix", &["<zz:a/>", "<a zz:b='1'/>"]),
    ("bad character reference", &["&#0;", "&#xD800;", "&#x110000;", "&#xFFFFFFFFF;"]),
    ("character that XML has not", &["\0", "\u{1}", "\u{8}", "\u{1b}", "\u{fffe}", "\u{ffff}", "&#1;", "&#31;", "&#xFFFE;"]),
    ("reference without end", &["&lt", "&#x41", "&apos "]),
    ("end tag with attributes", &["<zz></zz a='1'>", "<zz></zz/>", "<zz></ zz>"]),
    ("bad name", &["<1a/>", "<-a/>", "<.a/>", "<a 1b='1'/>", "</ a>"]),
];

/// A tag with one attribute twice; that a ninth one repeats another is a known finding
fn repeated(g: &mut Gen) -> String {
    let before = match g.range(1, 20) {
        8 => 9,
        n => n,
    };
    let behind = g.below(4);
    let mut all: Vec<String> = (0..before + behind).map(|i| format!("{}{i}", g.pick(&["a", "b", "xml:c", "\u{e9}", "d-"]))).collect();
    let again = all[g.below(before)].clone();
    all.insert(before, again);
    let all: String = all.iter().map(|a| format!(" {a}={}", g.pick(&["''", "\"\"", "'1'", "\"x y\""]))).collect();
    format!("<zz{all}/>")
}

const MARK: &str = "\u{e000}MARK\u{e000}";

/// Puts a text into the content of a random element
fn put_mark(g: &mut Gen, m: &mut M) {
    let els: Vec<usize> = m.kids.iter().enumerate().filter(|(_, k)| k.is_el()).map(|(i, _)| i).collect();
    if !els.is_empty() && g.chance(70) {
        let i = *g.pick_of(&els);
        put_mark(g, &mut m.kids[i]);
    } else {
        let i = g.below(m.kids.len() + 1);
        m.kids.insert(i, M::text(MARK));
    }
}

fn must_fail(s: &[u8], what: &'static str) -> R {
    let shown = String::from_utf8_lossy(s).into_owned();
    match xml_parse(s) {
        Err(e) => fail(shown, e),
        Ok(Err(_)) => ok(shown, true, vec![what]),
        Ok(Ok(m)) => fail(shown, format!("accepted although malformed ({what}), as {m:?}")),
    }
}

fn c22(g: &mut Gen) -> R {
    let (mut root, _) = gen::xml_root(&mut g.sub(), 12);
    match g.weighted(&[60, 12, 10, 12, 6]) {
        0 => {
            put_mark(g, &mut root);
            let s = ser::xml(g, &[root], &ser::no_decls);
            let (what, list) = *g.pick_of(SNIPPETS);
            // the mark is private-use characters: written raw or as references
            let Some(i) = s.find(MARK) else { return ok(s, false, vec!["mark written as references"]) };
            let many = repeated(g);
            let snippet: &str = if what == "repeated attribute" && g.chance(60) { &many } else { g.pick(list) };
            // what follows could complete the snippet
            let rest = &s[i + MARK.len()..];
            let text = &rest[..rest.find('<').unwrap_or(rest.len())];
            if text.contains(['"', '\'', ';', '>']) || ["-->", "]]>", "?>"].iter().any(|t| rest.contains(t)) && what.starts_with("unterminated") {
                return ok(s, false, vec!["what follows could complete it"]);
            }
            let mut t = s[..i].to_string();
            t.push_str(snippet);
            t.push_str(&s[i + MARK.len()..]);
            must_fail(t.as_bytes(), what)
        }
        1 => {
            // cut off before the end of the root element
            let s = ser::xml(g, &[root], &ser::no_decls);
            let end = s.trim_end().len();
            let mut i = g.below(end);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            must_fail(&s.as_bytes()[..i], "truncated")
        }
        2 => {
            // text outside the root element
            let s = ser::xml(g, &[root], &ser::no_decls);
            let junk = g.pick(&["x", "&amp;", "<![CDATA[x]]>", "</a>", "x y", "&#65;", "]]>", "<", "\u{e9}", "\0", "\0junk", "\u{1}", "\u{1a}", ".", "a>b", "&lt;", "<b/>", "<a/>", "<b>x</b>", "</", "\u{a0}", "--", "0", "/>", ">"]);
            if g.chance(15) {
                // anything at all before the declaration
                let s = &s[s.find("<?xml ").map_or(0, |i| s[i..].find("?>").unwrap() + 2)..];
                let before = g.pick(&[" ", "\n", "\t\n", "\r\n", "    ", "<!---->", "<!-- c -->\n", "<?x y?>", "<?xml version='1.0'?>", "\n\n\n\n\n\n\n\n", "\u{a0}", "\u{2028}", "x"]);
                let t = format!("{before}<?xml version='1.0' encoding='utf-8'?>{s}");
                return must_fail(t.as_bytes(), "declaration not at the start");
            }
            let t = if g.chance(60) || s.starts_with("<?xml") { format!("{s}{junk}") } else { format!("{junk}{s}") };
            must_fail(t.as_bytes(), "content outside the root")
        }
        3 => {
            // bytes that are not UTF-8
            put_mark(g, &mut root);
            let s = ser::xml(g, &[root], &ser::no_decls);
            let Some(i) = s.find(MARK) else { return ok(s, false, vec!["mark written as references"]) };
            let bad: &[&[u8]] = &[b"\xff", b"\xfe", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"a\xc3(", b"\xbf\xbf"];
            let mut t = s.as_bytes()[..i].to_vec();
            t.extend_from_slice(g.pick_of(bad));
            t.extend_from_slice(&s.as_bytes()[i + MARK.len()..]);
            must_fail(&t, "bytes that are not UTF-8")
        }
        _ => {
            let s = g.pick(&["", " ", "\n\t ", "<?xml version='1.0'?>", "<!-- c -->", "<?pi x?>", "<?xml version='1.0'?><!-- c -->\n", "text", "<!DOCTYPE a>", "&amp;", "<![CDATA[x]]>"]);
            let n = g.below(4);
            must_fail(format!("{s}{}", " ".repeat(n)).as_bytes(), "no root element")
        }
    }
}

/// The tree (C20) or the rejection (C22) that the reference demands, wherever it decides
fn against_reference(s: String, mut l: Vec<&'static str>, tree: bool) -> R {
    use crate::htmlref::Verdict;
    match xmlref::parse(&s) {
        Verdict::Valid(want) => {
            if tree {
                parses_to(s.as_bytes(), &want, false)?;
            }
            l.push("well-formed");
            let nt = tree && want.iter().any(|m| !m.kids.is_empty());
            ok(s, nt, l)
        }
        Verdict::Malformed(_) if tree => {
            l.push("malformed");
            ok(s, false, l)
        }
        Verdict::Malformed(why) => match xml_parse(s.as_bytes()) {
            Err(e) => fail(s, e),
            Ok(Err(_)) => {
                l.push("malformed");
                l.push(why);
                ok(s, true, l)
            }
            Ok(Ok(m)) => fail(s, format!("accepted although malformed ({why}), as {m:?}")),
        },
        Verdict::Unspecified(_) => {
            l.push("unspecified");
            ok(s, false, l)
        }
    }
}

const REF_TOKENS: &[&str] = &[
    "<a>", "</a>", "<b x='1'>", "</b>", "<a/>", "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?pi ", "<?pi", "?>", "&amp;", "&", ";", "&#65;", "&#x", " ", "=", "'", "\"", "x", "\u{e9}", "\n", "--", "-", "x='1'",
    "<a x=\"1\" x=\"2\">", "<!", "<?", "<aa>", "</aa>", "<A>", "</A>", "</a >", "<a ", "<a y=\"&lt;\">", "<root>", "</root>", "]", "?", "/", "\t", "#", "text", "&e;", "<?xml version='1.0'?>", "<c><d/></c>", "<c><d></c></d>",
];

fn soup(g: &mut Gen, tree: bool) -> R {
    let few: Vec<&str> = (0..g.range(2, 8)).map(|_| g.pick(REF_TOKENS)).collect();
    let mut s = String::new();
    let wrapped = g.chance(60);
    if wrapped {
        s.push_str("<r>");
    }
    for _ in 0..g.range(0, 12) {
        match g.weighted(&[60, 25, 5]) {
            0 => s.push_str(g.pick_of(&few)),
            1 => s.push_str(g.pick(REF_TOKENS)),
            _ => s.push_str(&gen::any_text(g, 2)),
        }
    }
    if wrapped {
        s.push_str("</r>");
    }
    against_reference(s, vec!["token soup"], tree)
}

/// Documents changed in one or two places
fn changed(g: &mut Gen, tree: bool) -> R {
    let top = xml_doc(&mut g.sub(), 12);
    let mut s = ser::xml(g, &top, &ser::no_decls);
    let mut l = vec![];
    for _ in 0..g.weighted(&[4, 80, 16]) {
        if g.chance(70) {
            l.push(crate::p_strict::mutate(g, &mut s));
        } else {
            let i = boundary(g, &s);
            s.insert_str(i, g.pick(REF_TOKENS));
            l.push("XML token inserted");
        }
    }
    against_reference(s, l, tree)
}

const ENUM_TOKENS: &[&str] = &["<a>", "</a>", "<b/>", "<b x='1'>", "</b>", "<!--", "-->", "<![CDATA[", "]]>", "<?p ", "?>", "x", "&", "&lt;", "<", ">", " ", "-"];

fn words(n: u64, len: u32) -> u64 {
    (0..=len).map(|k| n.pow(k)).sum()
}

fn tokens(i: u64, tree: bool) -> R {
    let w: String = crate::p_strict::nth_word(i / 2, ENUM_TOKENS.len() as u64).iter().map(|t| ENUM_TOKENS[*t]).collect();
    against_reference(if i % 2 == 0 { w } else { format!("<r>{w}</r>") }, vec!["exhaustive tokens"], tree)
}

const TAG_CHARS: &[char] = &[' ', 'b', '=', '"', '\'', '/', '>', '&', '<'];

fn tags(i: u64, tree: bool) -> R {
    let w: String = crate::p_strict::nth_word(i / 3, TAG_CHARS.len() as u64).iter().map(|t| TAG_CHARS[*t]).collect();
    against_reference(match i % 3 { 0 => format!("<a{w}"), 1 => format!("<a{w}></a>"), _ => format!("<a>{w}</a>") }, vec!["exhaustive tags"], tree)
}

/// Every character in every place: `@` stands for it
const TREE_PLACES: &[&str] = &["<a>x@y</a>", "<a>@<b/>@</a>", "<a b='x@y' c=\"@\"/>", "<!--@--><a/>", "<a><![CDATA[@]]></a>", "<a><?p x@y?></a>", "<a@/>", "<a b@='1'><c@>@x</c@></a>", "<a>&#%d;</a>", "<a>a&#x%x;b</a>", "<a b='a&#%d;&#x%x;b'/>", "<a> @ </a>"];
const FAULT_PLACES: &[&str] = &["<a>x@y</a>", "<a b='x@y' c=\"@\"/>", "<!--@--><a/>", "<a><![CDATA[@]]></a>", "<a@/>", "<@a/>", "<a></a@>", "<a@></a>", "<a b@='1'/>", "<a @b='1'/>", "<a b='1'@c='2'/>", "<a b=@1'/>", "<a>&@;</a>", "<a>&#%d;</a>", "<a>&#@;</a>", "<a/>@", "@<a/>", "<@/>", "<a b='x@/>", "<?p@?><a/>", "<?@p?><a/>", "<a b=1@/>", "<a>&#x%x@</a>", "<a>&l@t;</a>"];

// ---- C23 ----

/// A document with every character, byte by byte and in UTF-16
fn c23_chars(i: u64) -> R {
    let c = gen::nth_char(i);
    let s = format!("<a b='{c}x'>{c}<!--{c}{c}--><b>x{c}y</b></a>");
    crate::util::current_input(&s);
    let whole = XMLParser::parse(s.as_bytes()).map(|n| ms(&n)).map_err(|_| ());
    for (bytes, enc) in [(s.clone().into_bytes(), "utf-8"), (utf16(&s, false, true), "utf-16le"), (utf16(&s, true, true), "utf-16be")] {
        for sizes in [vec![1], vec![3], vec![1000]] {
            let mut r = Pieces { data: &bytes, sizes: sizes.clone(), at: 0, end: End::Eof, failed: false };
            let got = XMLParser::parse(&mut r).map(|n| ms(&n)).map_err(|_| ());
            ensure!(got == whole, s, "{enc} in pieces of {sizes:?}: {got:?}; utf-8 at once: {whole:?}");
        }
    }
    ok(s, whole.is_ok() && !c.is_ascii(), vec!["every character"])
}

#[derive(Clone, Debug)]
pub enum End {
    Eof,
    Error(std::io::ErrorKind),
}

const KINDS: &[std::io::ErrorKind] = {
    use std::io::ErrorKind as K;
    &[K::BrokenPipe, K::UnexpectedEof, K::WouldBlock, K::TimedOut, K::ConnectionReset, K::InvalidData, K::Other, K::PermissionDenied, K::WriteZero, K::NotFound, K::OutOfMemory]
};

/// Delivers the bytes in pieces, and then ends or fails
pub struct Pieces<'a> {
    pub data: &'a [u8],
    pub sizes: Vec<usize>,
    pub at: usize,
    pub end: End,
    pub failed: bool,
}

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.data.is_empty() || buf.is_empty() {
            return match self.end {
                End::Eof => Ok(0),
                End::Error(kind) => {
                    self.failed = true;
                    Err(std::io::Error::new(kind, "broken"))
                }
            };
        }
        let n = self.sizes[self.at % self.sizes.len()].clamp(1, buf.len()).min(self.data.len());
        self.at += 1;
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// Fails once, in one read, and goes on when asked again
struct Once<'a> {
    inner: Pieces<'a>,
    left: usize,
    kind: std::io::ErrorKind,
    failed: bool,
}

impl Read for Once<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 && !self.failed {
            self.failed = true;
            return Err(self.kind.into());
        }
        self.left = self.left.saturating_sub(1);
        self.inner.read(buf)
    }
}

/// Is interrupted every so often, some times in a row
pub struct Interrupted<'a> {
    pub inner: Pieces<'a>,
    pub every: usize,
    pub row: usize,
    pub n: usize,
}

impl Read for Interrupted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n % (self.every + self.row) >= self.every {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.inner.read(buf)
    }
}

fn utf16(s: &str, big: bool, bom: bool) -> Vec<u8> {
    let mut out = vec![];
    for u in bom.then_some(0xfeff).into_iter().chain(s.encode_utf16()) {
        out.extend(if big { u.to_be_bytes() } else { u.to_le_bytes() });
    }
    out
}

fn c23(g: &mut Gen) -> R {
    let top = xml_doc(&mut g.sub(), 15);
    let mut s = ser::xml(g, &top, &ser::no_decls);
    if g.chance(30) {
        // documents with faults are rejected alike
        let i = boundary(g, &s);
        s.insert_str(i, g.pick(&["<", "</a>", "&x;", "x", " ", "<b>", "]]>", "\u{e9}"]));
    }
    let weights: &[usize] = if s.contains("encoding") || s.contains("utf-8") { &[60, 10] } else { &[60, 10, 15, 15] };
    let mut big = false;
    if g.chance(3) {
        // beyond any buffer
        let i = s.rfind("</").unwrap_or(s.len());
        let n = *g.pick_of(&[4090, 8190, 16400, 66000]) + g.below(8);
        let unit = g.pick(&["t", "\u{e9}", "<q/>", "\u{1f600}", "<q a='1'>x</q>"]);
        s.insert_str(i, &unit.repeat(n / unit.len()));
        big = true;
    }
    let (bytes, enc) = match g.weighted(weights) {
        0 => (s.clone().into_bytes(), "utf-8"),
        1 => ([b"\xef\xbb\xbf", s.as_bytes()].concat(), "utf-8 with mark"),
        2 => (utf16(&s, false, true), "utf-16le"),
        _ => (utf16(&s, true, true), "utf-16be"),
    };
    let sizes: Vec<usize> = match g.below(4) {
        _ if big => vec![*g.pick_of(&[1000, 4096, 8191, 8192, 8193, 70000]), g.range(1, 5000)],
        0 => vec![1],
        1 => vec![g.range(1, 9)],
        _ => (0..g.range(1, 8)).map(|_| g.range(1, 40)).collect(),
    };
    let key = format!("{enc}, pieces {sizes:?}: {s}");
    crate::util::current_input(&key);
    let whole = XMLParser::parse(&bytes[..]).map(|n| ms(&n)).map_err(|e| e.to_string());
    let direct = XMLParser::parse(s.as_bytes()).map(|n| ms(&n)).map_err(|e| e.to_string());
    if enc != "utf-8" {
        match (&whole, &direct) {
            (Ok(a), Ok(b)) => ensure!(a == b, key, "\n   {enc} {a:?}\n   utf-8  {b:?}"),
            (Err(_), Err(_)) => {}
            (a, b) => return fail(key, format!("\n   {enc} {a:?}\n   utf-8  {b:?}")),
        }
    }
    let mut r = Pieces { data: &bytes, sizes: sizes.clone(), at: 0, end: End::Eof, failed: false };
    let soup = Soup::xml(&mut r);
    let want = Soup::xml(&bytes[..]);
    match (soup, want) {
        (Ok(a), Ok(b)) => {
            let (a, b): (Vec<M>, Vec<M>) = (a.iter().map(|i| i.m()).collect(), b.iter().map(|i| i.m()).collect());
            ensure!(a == b, key, "in pieces {a:?}, at once {b:?}");
        }
        (Err(_), Err(_)) => {}
        (a, b) => return fail(key, format!("in pieces ok={}, at once ok={}", a.is_ok(), b.is_ok())),
    }
    // a reader that fails anywhere, also when all has been read: its error is the answer
    if enc != "utf-8" || g.chance(50) {
        let cut = if g.chance(30) { bytes.len() } else { g.below(bytes.len() + 1) };
        let kind = *g.pick_of(KINDS);
        let mut r = Pieces { data: &bytes[..cut], sizes: sizes.clone(), at: 0, end: End::Error(kind), failed: false };
        let got = XMLParser::parse(&mut r).map(|n| ms(&n));
        if let (Ok(m), true) = (&got, r.failed) {
            return fail(key, format!("after {cut} of {} bytes the reader fails with {kind:?}; accepted as {m:?}", bytes.len()));
        }
    }
    // also if it would go on
    if g.chance(40) {
        let kind = *g.pick_of(KINDS);
        let left = g.below(bytes.len() + 2);
        let left = *g.pick_of(&[left, left / (sizes.iter().sum::<usize>() / sizes.len()).max(1)]);
        let mut r = Once { inner: Pieces { data: &bytes, sizes: sizes.clone(), at: 0, end: End::Eof, failed: false }, left, kind, failed: false };
        let got = XMLParser::parse(&mut r).map(|n| ms(&n));
        if let (Ok(m), true) = (&got, r.failed) {
            return fail(key, format!("the reader fails once, in read {left}, with {kind:?}; accepted as {m:?}"));
        }
    }
    // a reader that is interrupted has to be asked again
    if g.chance(30) {
        let mut r = Interrupted { inner: Pieces { data: &bytes, sizes: sizes.clone(), at: 0, end: End::Eof, failed: false }, every: g.range(1, 5), row: *g.pick_of(&[1, 1, 1, 2, 3, 7, 20, 100]), n: 0 };
        let got = XMLParser::parse(&mut r).map(|n| ms(&n));
        match (&got, &whole) {
            (Ok(a), Ok(b)) => ensure!(a == b, key, "interrupted {a:?}, at once {b:?}"),
            (Ok(a), Err(e)) => return fail(key, format!("interrupted {a:?}, at once {e}")),
            (Err(e), Ok(_)) => return fail(key, format!("interrupted {e}, at once accepted")),
            (Err(_), Err(_)) => {}
        }
    }
    // a failing or ending reader
    let mut l = vec![enc, if whole.is_ok() { "well-formed" } else { "malformed" }, if big { "long" } else { "short" }];
    if whole.is_ok() {
        // where the root element ends
        let tail: usize = {
            let last_root = s.rfind(&format!("</{}", root_name(&top))).unwrap_or(0).max(s.rfind("/>").unwrap_or(0));
            let end = last_root + s[last_root..].find('>').map_or(0, |n| n + 1);
            // after it: comments and instructions may contain '/>' themselves; then do not judge
            if top.last().is_some_and(|m| m.is_el()) { end } else { 0 }
        };
        if tail > 0 && enc == "utf-8" {
            let cut = g.below(tail);
            let kind = *g.pick_of(KINDS);
            for end in [End::Error(kind), End::Eof] {
                let mut r = Pieces { data: &bytes[..cut], sizes: sizes.clone(), at: 0, end: end.clone(), failed: false };
                let got = XMLParser::parse(&mut r).map(|n| ms(&n));
                if let Ok(m) = got {
                    return fail(key, format!("after {cut} of {} bytes the reader {}; accepted as {m:?}", bytes.len(), match end { End::Eof => "ends".into(), End::Error(k) => format!("fails with {k:?}") }));
                }
            }
            l.push("reader fails and ends early");
        }
    }
    ok(key, whole.is_ok() && sizes.iter().any(|n| *n < bytes.len()), l)
}

fn root_name(top: &[M]) -> &str {
    top.iter().find(|m| m.is_el()).and_then(|m| m.name.as_deref()).unwrap_or("")
}

/// Every cut of a document, the reader failing or ending there: `i` picks document and cut
const FIXED: &[&str] = &[
    "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- c --><root a=\"1\" b='&lt;'><x>t\u{e9}\u{1f600}</x><!-- d --><y/><![CDATA[ <z> ]]>&amp;<?pi x?></root>",
    "<a xmlns=\"u\" xmlns:p='v'><p:b p:c=\"d\"/>\u{65e5}\u{672c}</a>",
];

fn c23_cuts_count(_: bool) -> u64 {
    FIXED.iter().map(|s| s.len() as u64).sum()
}

fn c23_cuts(mut i: u64) -> R {
    let mut doc = FIXED[0];
    for d in FIXED {
        doc = d;
        if i < d.len() as u64 {
            break;
        }
        i -= d.len() as u64;
    }
    let cut = i as usize;
    let key = format!("{cut} bytes of {doc}");
    crate::util::current_input(&key);
    for end in [End::Error(KINDS[cut % KINDS.len()]), End::Eof] {
        for sizes in [vec![1], vec![3], vec![1000]] {
            let mut r = Pieces { data: &doc.as_bytes()[..cut], sizes, at: 0, end: end.clone(), failed: false };
            if let Ok(n) = XMLParser::parse(&mut r) {
                return fail(key, format!("{end:?}: accepted as {:?}", ms(&n)));
            }
        }
    }
    let want = XMLParser::parse(doc.as_bytes()).map(|n| ms(&n)).map_err(|e| Fail { input: key.clone(), msg: e.to_string() })?;
    // split in two at this byte
    for k in [1, 2, 3] {
        let mut r = Pieces { data: doc.as_bytes(), sizes: vec![cut.max(1), k, doc.len()], at: 0, end: End::Eof, failed: false };
        match XMLParser::parse(&mut r) {
            Ok(n) => ensure!(ms(&n) == want, key, "split here: {:?}", ms(&n)),
            Err(e) => return fail(key, format!("split here: {e}")),
        }
    }
    ok(key, cut > 0, vec!["every cut"])
}

// ---- C24 ----

const XML_TOKENS: &[&str] = &[
    "<a>", "</a>", "<b x='1'>", "</b>", "<a/>", "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?pi ", "?>", "<?xml version='1.0'?>", "&amp;", "&", ";", "&#65;", "&#x", "<!DOCTYPE a>", "<!DOCTYPE a [",
    "<!ENTITY e 'x'>", "<!ENTITY f '&e;&e;&e;'>", "]>", "&e;", "&f;", "xmlns:p='u'", "<p:a>", "</p:a>", " ", "=", "'", "\"", "x", "\u{e9}", "\n", "<a xmlns='u'>", "--", "\u{1}", "\u{fffe}", "<a x=\"1\" x=\"2\">", "<?xml encoding='utf-16'?>",
    "<?xml version='1.0' encoding='latin1'?>", "<?xml version='1.1'?>", "<!", "<?", "<!ENTITY % p 'x'>", "%p;", "<!ELEMENT a ANY>", "standalone='yes'",
];

fn c24(g: &mut Gen) -> R {
    let bytes: Vec<u8> = match g.weighted(&[35, 20, 25, 20]) {
        0 => {
            let mut s = String::new();
            let few: Vec<&str> = (0..g.range(2, 9)).map(|_| g.pick(XML_TOKENS)).collect();
            for _ in 0..g.range(0, 50) {
                s.push_str(if g.chance(20) { g.pick(XML_TOKENS) } else { g.pick_of(&few) });
            }
            s.into_bytes()
        }
        1 => (0..g.range(0, 60)).map(|_| g.below(256) as u8).collect(),
        2 => {
            let top = xml_doc(&mut g.sub(), 15);
            let mut b = ser::xml(g, &top, &ser::no_decls).into_bytes();
            for _ in 0..g.range(1, 4) {
                let i = g.below(b.len());
                match g.below(3) {
                    0 => b[i] = g.below(256) as u8,
                    1 => {
                        b.remove(i);
                        if b.is_empty() {
                            b.push(b'<');
                        }
                    }
                    _ => b.insert(i, g.below(256) as u8),
                }
            }
            b
        }
        _ => {
            let top = xml_doc(&mut g.sub(), 10);
            let mut s = ser::xml(g, &top, &ser::no_decls);
            for _ in 0..g.range(0, 3) {
                let i = boundary(g, &s);
                s.insert_str(i, g.pick(XML_TOKENS));
            }
            match g.below(3) {
                0 => utf16(&s, g.chance(50), g.chance(80)),
                1 => format!("<!DOCTYPE a [<!ENTITY e 'x&#38;lt;'><!ENTITY f '&e;&e;'>]>{s}").into_bytes(),
                _ => s.into_bytes(),
            }
        }
    };
    c24_input(bytes)
}

fn c24_input(bytes: Vec<u8>) -> R {
    let shown = String::from_utf8_lossy(&bytes).into_owned();
    crate::util::current_input(&shown);
    let (a, b) = (Soup::xml(&bytes[..]), Soup::xml(std::io::Cursor::new(&bytes)));
    let label = match (a, b) {
        (Ok(a), Ok(b)) => {
            // (the bindings in scope print in order)
            ensure!(format!("{a:?}") == format!("{b:?}"), shown, "two answers: {a:?} and {b:?}");
            exercise(&a);
            "accepted"
        }
        (Err(a), Err(b)) => {
            ensure!(a.to_string() == b.to_string(), shown, "two answers: {a} and {b}");
            "rejected"
        }
        (a, b) => return fail(shown, format!("two answers: ok={} and ok={}", a.is_ok(), b.is_ok())),
    };
    let nt = bytes.contains(&b'<') && bytes.len() > 3;
    ok(shown, nt, vec![label])
}

/// Long words in every place
fn c24_long(i: u64) -> R {
    for s in gen::with_long_word(i, [FAULT_PLACES, TREE_PLACES].into_iter().flatten()) {
        c24_input(s.into_bytes())?;
    }
    ok(format!("long word {i}"), true, vec!["long words"])
}

fn c24_deep(_: bool, _: u64) -> Result<Vec<Case>, Fail> {
    crate::p_strict::deep_cases(&["xml", "xml-unclosed"])
}

const fn part(name: &'static str, quick: u64, tape: usize, f: fn(&mut Gen) -> R) -> Part {
    Part { name, quick, thorough: quick * 40, tape, f }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "Random trees of elements, attributes, texts, CDATA, comments, instructions, with nodes around the root, written in random spellings (whitespace, quotes, references, self-closing, declaration, blank text); the parse has to be the tree written; documents that are well-formed after a change in one or two places, or made of random tokens, all sequences of up to 4 (thorough: 5) of 18 tokens and all short tags, every character of the BMP and 30,000 others (thorough: all) in content, names and values, where a reference parser says which tree they are; documents of megabytes. Documents large in one respect (lengths, numbers of nodes, depth) around powers of 2 and 10 up to 2^17 (thorough: 2^22). Non-trivial: more than three nodes (reference: well-formed with children).",
            parts: vec![part("roundtrip", 240_000, 800, c20), part("huge", 600, 400, |g| gen::huge(|| c20(g))), part("entities", 60_000, 800, c20_entities), part("line-ends", 40_000, 800, c20_line_ends), part("changed", 300_000, 500, |g| changed(g, true)), part("soup", 300_000, 80, |g| soup(g, true))],
            enums: vec![crate::engine::Enumeration { name: "characters", count: |t| gen::char_count(t) * TREE_PLACES.len() as u64, f: |i| against_reference(gen::with_char(i, TREE_PLACES), vec!["every character"], true) }, 
                crate::engine::Enumeration { name: "tokens", count: |t| 2 * words(ENUM_TOKENS.len() as u64, if t { 5 } else { 4 }), f: |i| tokens(i, true) },
                crate::engine::Enumeration { name: "tags", count: |t| 3 * words(TAG_CHARS.len() as u64, if t { 6 } else { 5 }), f: |i| tags(i, true) },
                crate::engine::Enumeration { name: "megabytes", count: gen::very_large_count, f: c20_large },
                crate::p_sizes::IN_C20,
            ],
            known: vec![Known { name: "xml-attribute-collision", probe: c20_collision }, Known { name: "xml-line-ends", probe: c20_line_end_finding }],
            assumptions: vec!["raw carriage returns count as kept or as normalised"],
            ..Prop::new()
        },
        Prop {
            id: "C21",
            rule: "Trees with random declarations (default, prefixed, undeclared, shadowed), prefixed elements and attributes; a quarter with prefixes that may be unbound; scopes resolved by the harness. Documents large in one respect (lengths, numbers of nodes, depth) around powers of 2 and 10 up to 2^17 (thorough: 2^22). Non-trivial: an element in a namespace, or an unbound prefix.",
            parts: vec![part("namespaces", 200_000, 600, c21)],
            enums: vec![crate::p_sizes::IN_C21],
            ..Prop::new()
        },
        Prop {
            id: "C22",
            rule: "Random documents made malformed: one of 19 kinds of fault in the content of a random element, cut off before the end of the root, content outside the root, invalid bytes, no root; documents changed in one or two places, token soup, all sequences of up to 4 (thorough: 5) of 18 tokens, all tags and contents of up to 5 (thorough: 6) of 9 characters, every character of the BMP and 30,000 others (thorough: all) where it may be a fault: the verdict of a three-valued reference parser wherever it decides. Documents large in one respect (lengths, numbers of nodes, depth) around powers of 2 and 10 up to 2^17 (thorough: 2^22). Non-trivial: malformed, or well-formed with structure.",
            parts: vec![part("faults", 800_000, 500, c22), part("huge", 400, 400, |g| gen::huge(|| c22(g))), part("changed", 300_000, 500, |g| changed(g, false)), part("soup", 300_000, 80, |g| soup(g, false))],
            enums: vec![crate::engine::Enumeration { name: "characters", count: |t| gen::char_count(t) * FAULT_PLACES.len() as u64, f: |i| against_reference(gen::with_char(i, FAULT_PLACES), vec!["every character"], false) }, 
                crate::engine::Enumeration { name: "tokens", count: |t| 2 * words(ENUM_TOKENS.len() as u64, if t { 5 } else { 4 }), f: |i| tokens(i, false) },
                crate::engine::Enumeration { name: "tags", count: |t| 3 * words(TAG_CHARS.len() as u64, if t { 6 } else { 5 }), f: |i| tags(i, false) },
                crate::p_sizes::IN_C22,
            ],
            known: vec![
                Known { name: "xml-end-tag-in-attribute", probe: || matches!(xml_parse(b"<a b=\"</c\"/>"), Ok(Ok(_))) },
                Known { name: "xml-ninth-attribute", probe: || matches!(xml_parse(b"<r a='' b='' c='' d='' e='' f='' g='' h='' a=''/>"), Ok(Ok(_))) },
                Known { name: "xml-no-target", probe: || matches!(xml_parse(b"<a><? b?></a>"), Ok(Ok(_))) },
            ],
            ..Prop::new()
        },
        Prop {
            id: "C23",
            rule: "Random documents, some with faults, in UTF-8 and UTF-16, read in random pieces (also byte by byte), against the parse at once; readers that fail or end at a random place before the root is closed, and at every place of two fixed documents; every character of the BMP and 30,000 others (thorough: all), split in its middle; documents of megabytes. Readers split, interrupted in a row, and ending or failing at sizes around powers of 2 and 10 up to 2^17 (thorough: 2^22). Non-trivial: a well-formed document in several pieces.",
            parts: vec![part("pieces", 150_000, 600, c23)],
            enums: vec![crate::engine::Enumeration { name: "characters", count: gen::char_count, f: c23_chars }, 
                crate::engine::Enumeration { name: "cuts", count: c23_cuts_count, f: c23_cuts },
                crate::engine::Enumeration { name: "megabytes", count: gen::very_large_count, f: c23_large },
                crate::p_sizes::IN_C23,
            ],
            ..Prop::new()
        },
        Prop {
            id: "C24",
            rule: "Token soup of XML constructs with entity declarations, random bytes, documents with bytes changed, UTF-16, every character of the BMP and 30,000 others (thorough: all): long words of characters of several bytes in every place: parsed twice, the result exercised; nesting of 1000 on a stack of 8 MiB. Non-trivial: more than three bytes with a '<'.",
            parts: vec![part("any", 240_000, 600, c24)],
            enums: vec![crate::engine::Enumeration { name: "characters", count: |t| gen::char_count(t) * FAULT_PLACES.len() as u64, f: |i| c24_input(gen::with_char(i, FAULT_PLACES).into_bytes()) },
                crate::engine::Enumeration { name: "long words", count: |_| gen::LONG_WORDS, f: c24_long }],
            specials: vec![Special { name: "deep", f: c24_deep }],
            known: vec![Known { name: "xml-deep-nesting", probe: || crate::p_strict::deep("xml", 100_000).is_err() }],
            ..Prop::new()
        },
    ]
}
