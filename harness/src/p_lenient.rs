//! C17–C19: the lenient HTML parser.
use crate::engine::{fail, ok, Case, Fail, Known, Part, Prop, Special, R};
use crate::dict;
use crate::ensure;
use crate::gen;
use crate::htmlref;
use crate::model::*;
use crate::p_query::{diff, same};
use crate::p_strict::{boundary, exercise, token_soup};
use crate::query::*;
use crate::ser;
use crate::tape::Gen;
use soupy::parser::{LenientHTMLParser, Parser, StrictHTMLParser};
use soupy::Soup;
use std::collections::HashSet;

/// Parses, by the parser and by the document constructor, which have to agree.
pub fn lenient_parse(s: &str) -> Result<Vec<M>, Fail> {
    crate::util::current_input(s);
    let Ok(nodes) = LenientHTMLParser::parse(s);
    let m = ms(&nodes);
    let want: Vec<M> = soup_of(nodes).iter().map(|i| i.m()).collect();
    let got: Vec<M> = Soup::html(s).iter().map(|i| i.m()).collect();
    ensure!(got == want, s, "Soup::html gives {got:?}, the parser {want:?}");
    Ok(m)
}

/// Any text, as HTML in the wild and worse
pub fn any_html(g: &mut Gen) -> String {
    let what = if gen::is_huge() { g.range(1, 2) } else { g.weighted(&[45, 20, 25, 10]) };
    match what {
        0 => token_soup(g, 60),
        1 => {
            let (m, _) = gen::forest(&mut g.sub(), gen::HTML);
            let mut s = ser::html(g, &m);
            for _ in 0..g.below(3) {
                let i = boundary(g, &s);
                let t = token_soup(g, 3);
                s.insert_str(i, &t);
            }
            s
        }
        2 => {
            let m = page(&mut g.sub());
            let mut s = ser::html5(g, &m);
            for _ in 0..g.below(4) {
                let i = boundary(g, &s);
                let t = token_soup(g, 3);
                s.insert_str(i, &t);
            }
            s
        }
        _ => gen::any_text(g, 20),
    }
}

// ---- C17 ----

fn skeleton(top: &[M]) -> Result<(), String> {
    let count = |k: K| top.iter().filter(|m| m.kind == k).count();
    if count(K::Doctype) > 1 {
        return Err("two doctypes".into());
    }
    let els: Vec<&M> = top.iter().filter(|m| m.is_el()).collect();
    if els.len() != 1 || els[0].name.as_deref() != Some("html") {
        return Err(format!("top-level elements {:?}", els.iter().map(|e| &e.name).collect::<Vec<_>>()));
    }
    if top.iter().any(|m| !matches!(m.kind, K::Doctype | K::Comment) && !m.is_el()) {
        return Err("something else than elements, comments and a doctype at top level".into());
    }
    let names: Vec<&str> = els[0].kids.iter().filter(|m| m.is_el()).map(|m| m.name.as_deref().unwrap()).collect();
    let heads = names.iter().filter(|n| **n == "head").count();
    let bodies = names.iter().filter(|n| matches!(**n, "body" | "frameset")).count();
    if heads != 1 || bodies != 1 {
        return Err(format!("children of html: {names:?}"));
    }
    let (h, b) = (names.iter().position(|n| *n == "head"), names.iter().position(|n| matches!(*n, "body" | "frameset")));
    if h > b {
        return Err(format!("children of html: {names:?}"));
    }
    Ok(())
}

fn c17(g: &mut Gen) -> R {
    c17_input(any_html(g))
}

fn c17_input(s: String) -> R {
    let m = lenient_parse(&s)?;
    if let Err(e) = skeleton(&m) {
        return fail(s, format!("{e}\n   in {m:?}"));
    }
    let doc = Soup::html(s.as_str());
    let moved = format!("x{s}");
    let (a, b) = (format!("{doc:?}"), format!("{:?}", Soup::html(&moved[1..])));
    ensure!(a == b, s, "two answers: {a} and {b}");
    // owned, borrowed and boxed texts
    let c = format!("{:?}", Soup::html(s.clone()));
    ensure!(a == c, s, "two answers: {a} and {c}");
    exercise(&doc);
    let n = walk_all(&m).len();
    let frameset = m.iter().any(|m| m.kids.iter().any(|k| k.name.as_deref() == Some("frameset")));
    let mut l = vec![if n <= 3 { "skeleton only" } else { "content" }];
    if frameset {
        l.push("frameset");
    }
    ok(s, n > 3, l)
}

fn c17_deep(_: bool, _: u64) -> Result<Vec<Case>, Fail> {
    crate::p_strict::deep_cases(&["lenient", "lenient-unclosed", "lenient-mixed"])
}

// ---- C18 ----

/// The tree of the HTML5 parser the crate is based on; an error if attributes of an
/// element collide when reduced to their local names (a known finding).
pub fn oracle(s: &str) -> Result<Vec<M>, ()> {
    fn node(n: ego_tree::NodeRef<scraper::Node>, out: &mut Vec<M>) -> Result<(), ()> {
        use scraper::Node as S;
        match n.value() {
            S::Document | S::ProcessingInstruction(_) => {}
            S::Fragment => {
                for c in n.children() {
                    node(c, out)?;
                }
            }
            S::Doctype(d) => out.push(M::doctype(d.name())),
            S::Comment(c) => out.push(M::comment(&**c)),
            S::Text(t) => out.push(M::text(&**t)),
            S::Element(e) => {
                let mut names = HashSet::new();
                let mut attrs = vec![];
                for (q, v) in &e.attrs {
                    if !names.insert(q.local.to_string()) {
                        return Err(());
                    }
                    attrs.push((q.local.to_string(), v.to_string()));
                }
                let name = e.name.local.to_string();
                let mut kids = vec![];
                for c in n.children() {
                    node(c, &mut kids)?;
                }
                let void = htmlref::VOID_NAMES.contains(&&*name) && kids.is_empty() && !n.has_children();
                out.push(if void { M::void(name, attrs) } else { M::elem(name, attrs, kids) });
            }
        }
        Ok(())
    }
    let doc = scraper::Html::parse_document(s);
    let mut out = vec![];
    for c in doc.tree.root().children() {
        node(c, &mut out)?;
    }
    Ok(out)
}

/// The names in SVG that are not in lower case, and some more of SVG and MathML
const FOREIGN: &[&str] = &[
    "altGlyph", "altGlyphDef", "altGlyphItem", "animateColor", "animateMotion", "animateTransform", "clipPath", "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting",
    "feDisplacementMap", "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight",
    "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "foreignObject", "glyphRef", "linearGradient", "radialGradient", "textPath", "defs", "g", "path", "circle", "rect", "use", "symbol", "marker", "mask", "pattern",
    "text", "tspan", "a", "desc", "title", "style", "script", "metadata", "image", "switch", "view", "stop", "set", "filter", "animate", "math", "svg", "mi", "mo", "mn", "ms", "mtext", "mglyph", "malignmark", "annotation-xml",
    "annotation", "semantics", "mrow", "mfrac", "msqrt", "link", "br", "img", "hr", "source", "param", "meta", "template", "html", "body", "head", "p", "div", "table", "font", "span",
];
const FOREIGN_ATTRS: &[&str] = &[
    "attributeName", "baseFrequency", "calcMode", "clipPathUnits", "diffuseConstant", "edgeMode", "gradientTransform", "gradientUnits", "kernelMatrix", "keyTimes", "lengthAdjust", "limitingConeAngle", "markerHeight",
    "numOctaves", "pathLength", "patternContentUnits", "pointsAtX", "preserveAlpha", "preserveAspectRatio", "refX", "repeatCount", "specularExponent", "spreadMethod", "startOffset", "stdDeviation", "surfaceScale",
    "systemLanguage", "tableValues", "targetX", "textLength", "viewBox", "viewTarget", "xChannelSelector", "zoomAndPan", "definitionURL", "xlink:href", "xlink:type", "xml:space", "xmlns", "xmlns:xlink", "encoding", "color", "face",
    "class", "id", "d", "fill", "x", "onclick",
];

/// Nested foreign elements, mostly closed
fn foreign(g: &mut Gen) -> String {
    let mut s = String::from(g.pick(&["<svg>", "<math>", "<svg viewBox='0 0 1 1'>", "<p><svg>", "<SVG>", "<svg><defs>", "<math><mi>", "<svg><g>"]));
    let mut open: Vec<&str> = vec![];
    for _ in 0..g.range(1, 12) {
        match g.weighted(&[55, 25, 20]) {
            0 => {
                let name = if g.chance(85) { g.pick(FOREIGN) } else { dict::name(g) };
                let shown = match g.below(4) {
                    0 => name.to_lowercase(),
                    1 => name.to_uppercase(),
                    _ => name.to_string(),
                };
                s += &format!("<{shown}");
                for _ in 0..g.weighted(&[60, 25, 15]) {
                    let a = g.pick(FOREIGN_ATTRS);
                    s += &format!(" {}={}", if g.chance(30) { a.to_lowercase() } else { a.to_string() }, g.pick(&["x", "''", "'a b'", "\"text/html\"", "1"]));
                }
                if g.chance(25) {
                    s += "/>";
                } else {
                    s += ">";
                    open.push(name);
                }
            }
            1 => {
                if let Some(n) = open.pop() {
                    s += &format!("</{n}>");
                }
            }
            _ => s += g.pick(&["text", "<!--c-->", "<![CDATA[a<b]]>", "&amp;", " ", "<b>", "</p>", "<br>", "\n"]),
        }
    }
    if g.chance(80) {
        for n in open.iter().rev() {
            s += &format!("</{n}>");
        }
        s += g.pick(&["</svg>", "</math>", "</svg></p>", ""]);
    }
    s
}

fn c18(g: &mut Gen) -> R {
    let mut s = any_html(g);
    if g.chance(40) {
        // foreign content, templates and so on
        for _ in 0..g.range(1, 4) {
            let i = boundary(g, &s);
            s.insert_str(
                i,
                &if g.chance(50) { foreign(g) } else { g.pick(&[
                    "<svg>", "<svg><link>x</link><img>", "<math><mi>x</mi>", "<template><p>t</p>", "<template><template>x", "</template>", "<svg viewBox='0' xlink:href=x><foreignObject><p>",
                    "<math definitionURL=y><annotation-xml encoding='text/html'><br>", "<svg><source/><track>t</track>", "<table><template><tr><td>x", "<select><template>y", "<svg><clipPath>",
                    "<!--c-->", "<svg xml:lang=en lang=de>", "<svg><![CDATA[x<y]]>", "<svg><style><!--x--></style>", "<template a=b><!--c--><br>", "<svg><col><embed><wbr>",
                ]).to_string() },
            );
        }
    }
    as_oracle(s)
}

/// Every character in every place: `@` stands for it
const PLACES: &[&str] = &["@", "<p title='x@y' x=@ @=1 a@b>a@b</p>@<!--@-->", "<x@ y><@></x@>", "<textarea>@</textarea><title>@</title>", "<!doctype @><svg><a@ b=@>@<![CDATA[@]]></svg>", "<script>@</script><template a='@'>@<@</template>", "<p>&#%d;&#x%x;&@;&amp@</p>", "<table>@<tr>@"];

fn as_oracle(s: String) -> R {
    let Ok(want) = oracle(&s) else {
        return ok(s, false, vec!["excluded: attributes with one local name"]);
    };
    let got = lenient_parse(&s)?;
    ensure!(got == want, s, "\n   got  {got:?}\n   want {want:?}");
    let all = walk_all(&want);
    let mut l = vec![];
    let has = |n: &str| all.iter().any(|m| m.name.as_deref() == Some(n) && !m.kids.is_empty());
    if has("template") {
        l.push("template");
    }
    if has("svg") || has("math") {
        l.push("foreign");
    }
    if all.iter().any(|m| m.kind == K::Void) {
        l.push("void");
    }
    if all.iter().any(|m| htmlref::VOID_NAMES.contains(&m.name.as_deref().unwrap_or("")) && m.kind == K::Elem) {
        l.push("foreign element named like a void one, with children");
    }
    if all.iter().any(|m| m.kind == K::Comment) {
        l.push("comment");
    }
    ok(s, all.len() > 4, l)
}

fn c18_large(i: u64) -> R {
    let (what, m) = gen::very_large(i);
    if what.starts_with("attributes") {
        // html5ever compares each attribute with each other one
        return ok(what, false, vec!["left out"]);
    }
    crate::util::current_input(&what);
    let s = ser::html(&mut Gen::new(&[]), &[m]);
    let want = oracle(&s).map_err(|()| Fail { input: what.clone(), msg: "no answer of the HTML5 parser".into() })?;
    let got = lenient_parse(&s).map_err(|f| Fail { input: what.clone(), msg: f.msg.chars().take(200).collect() })?;
    ensure!(got == want, what, "a different tree");
    ok(what, true, vec!["megabytes"])
}

fn c18_collision() -> bool {
    let m = lenient_parse("<svg><a xlink:href=\"1\" href=\"2\"></a></svg>").unwrap_or_default();
    walk_all(&m).iter().any(|m| m.name.as_deref() == Some("a") && m.attrs.as_ref().unwrap().len() < 2)
}

// ---- C19 ----

const BLOCKS: &[&str] = &["div", "section", "article", "blockquote", "main", "my-elem", "x-y", "figure", "nav", "aside", "footer"];
const INLINES: &[&str] = &["span", "em", "b", "i", "strong", "code", "u", "small", "sub", "x-i", "label", "abbr", "q", "s"];
const H5_VOIDS: &[&str] = &["br", "img", "input", "wbr", "embed", "area"];

struct Page<'g, 't> {
    g: &'g mut Gen<'t>,
    left: usize,
}

impl Page<'_, '_> {
    fn attrs(&mut self) -> Vec<(String, String)> {
        let mut a: Vec<(String, String)> = vec![];
        for _ in 0..self.g.weighted(&[45, 30, 15, 10]) {
            let n = self.g.pick(&["class", "id", "title", "data-x", "lang", "alt", "x", "@click", ":b", "a.b", "data-\u{e9}"]).to_string();
            let n = if self.g.chance(40) { self.g.pick(&gen::REAL_ATTRS[..49]).to_string() } else { n };
            if a.iter().all(|x| x.0 != n) {
                let v = if self.g.chance(60) { self.g.pick(gen::VALUES).to_string() } else { self.text(3) };
                a.push((n, v));
            }
        }
        a
    }
    fn text(&mut self, n: usize) -> String {
        // no NUL, CR; no newline where HTML drops it (after <pre>, which does not occur)
        gen::any_text(self.g, n).replace(['\0', '\r', '\u{c}', '\u{feff}'], "")
    }
    fn inline(&mut self, out: &mut Vec<M>, depth: usize, in_a: bool) {
        let n = self.g.weighted(&[10, 40, 30, 20]);
        for _ in 0..n {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            match self.g.weighted(&[40, 30, 10, 8, 6, 4]) {
                1 if depth < 6 => {
                    let (name, a) = (self.g.pick(INLINES), self.attrs());
                    let mut kids = vec![];
                    self.inline(&mut kids, depth + 1, in_a);
                    out.push(M::elem(name, a, kids));
                }
                2 => {
                    let (name, a) = (self.g.pick(H5_VOIDS), self.attrs());
                    out.push(M::void(name, a));
                }
                3 if !in_a && depth < 6 => {
                    let a = self.attrs();
                    let mut kids = vec![];
                    self.inline(&mut kids, depth + 1, true);
                    out.push(M::elem("a", a, kids));
                }
                4 => out.push(M::comment(gen::html_comment(self.text(3)))),
                5 => out.push(self.script()),
                _ => {
                    let t = self.text(4);
                    if !t.is_empty() && !out.last().is_some_and(|m| m.kind == K::Text) {
                        out.push(M::text(t));
                    }
                }
            }
        }
    }
    fn script(&mut self) -> M {
        let name = self.g.pick(&["script", "style"]);
        let a = self.attrs();
        let c = gen::raw_content(self.g, name).replace("<!--", "<! --").replace(['\0', '\r', '\u{feff}'], "");
        let c = c.trim_matches(|c: char| c.is_whitespace()).to_string();
        M::raw(name, a, c)
    }
    fn blocks(&mut self, out: &mut Vec<M>, depth: usize) {
        let n = self.g.weighted(&[5, 40, 30, 15, 10]);
        for _ in 0..n {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            let a = self.attrs();
            let mut kids = vec![];
            match self.g.weighted(&[30, 25, 12, 8, 8, 10, 5]) {
                0 if depth < 6 => {
                    let name = self.g.pick(BLOCKS);
                    self.blocks(&mut kids, depth + 1);
                    out.push(M::elem(name, a, kids));
                }
                2 if depth < 6 => {
                    for _ in 0..self.g.range(0, 3) {
                        let mut li = vec![];
                        if self.g.chance(30) { self.blocks(&mut li, depth + 2) } else { self.inline(&mut li, depth + 2, false) }
                        let la = self.attrs();
                        kids.push(M::elem("li", la, li));
                    }
                    let name = self.g.pick(&["ul", "ol"]);
                    out.push(M::elem(name, a, kids));
                }
                3 if depth < 5 => {
                    let mut rows = vec![];
                    for _ in 0..self.g.range(1, 2) {
                        let mut cells = vec![];
                        for _ in 0..self.g.range(1, 3) {
                            let mut cell = vec![];
                            self.inline(&mut cell, depth + 4, false);
                            let (name, ca) = (self.g.pick(&["td", "th"]), self.attrs());
                            cells.push(M::elem(name, ca, cell));
                        }
                        rows.push(M::elem("tr", vec![], cells));
                    }
                    out.push(M::elem("table", a, vec![M::elem("tbody", vec![], rows)]));
                }
                4 => {
                    let name = self.g.pick(&["h1", "h2", "h6"]);
                    self.inline(&mut kids, depth + 1, false);
                    out.push(M::elem(name, a, kids));
                }
                5 if self.g.chance(30) => out.push(M::void("hr", a)),
                5 => self.inline_after(out, depth),
                6 => {
                    kids.push(M::elem("g", vec![], vec![M::elem("circle", vec![("r".into(), "1".into())], vec![])]));
                    out.push(M::elem("svg", a, kids));
                }
                _ => {
                    self.inline(&mut kids, depth + 1, false);
                    out.push(M::elem("p", a, kids));
                }
            }
        }
    }
    fn inline_after(&mut self, out: &mut Vec<M>, depth: usize) {
        self.inline(out, depth, false);
        // texts do not touch
        out.dedup_by(|b, a| a.kind == K::Text && b.kind == K::Text);
    }
}

/// A complete document on which HTML5 and the strict dialect agree
pub fn page(g: &mut Gen) -> Vec<M> {
    let mut p = Page { left: 30, g };
    let mut head = vec![];
    for _ in 0..p.g.weighted(&[20, 40, 30, 10]) {
        let a = p.attrs();
        match p.g.below(4) {
            0 => {
                let t = p.text(3);
                let kids = if t.is_empty() { vec![] } else { vec![M::text(t)] };
                head.push(M::elem("title", a, kids));
            }
            1 => head.push(M::void("meta", a)),
            2 => head.push(M::void("link", a)),
            _ => head.push(p.script()),
        }
    }
    let mut body = vec![];
    p.blocks(&mut body, 0);
    if gen::is_huge() {
        body.push(gen::common_root(p.g, 25));
    }
    let (a, b, c) = (p.attrs(), p.attrs(), p.attrs());
    let mut top = vec![];
    if p.g.chance(80) {
        top.push(M::doctype("html"));
    }
    if p.g.chance(10) {
        top.push(M::comment(" top "));
    }
    top.push(M::elem("html", a, vec![M::elem("head", b, head), M::elem("body", c, body)]));
    if p.g.chance(10) {
        top.push(M::comment(" end "));
    }
    top
}

/// Script and style as the lenient parser has them: elements with text
pub fn raw_as_text(m: &M) -> M {
    let mut m = m.clone();
    if m.kind == K::Raw {
        let c = m.data.take().unwrap();
        m.kind = K::Elem;
        m.kids = if c.is_empty() { vec![] } else { vec![M::text(c)] };
    }
    m.kids = m.kids.iter().map(raw_as_text).collect();
    m
}

fn c19(g: &mut Gen) -> R {
    let top = page(&mut g.sub());
    let s = ser::html5(g, &top);
    crate::util::current_input(&s);
    let strict = match StrictHTMLParser::parse(intern(&s).0) {
        Ok(n) => n,
        Err(e) => return fail(s, format!("the strict parser rejects it: {e:?}")),
    };
    let Ok(lenient) = LenientHTMLParser::parse(s.as_str());
    let (a, b): (Vec<M>, Vec<M>) = (ms(&strict).iter().map(raw_as_text).collect(), ms(&lenient));
    ensure!(a == b, s, "\n   strict  {a:?}\n   lenient {b:?}");
    // the same elements for any query
    let vocab = Vocab::some(g, &b);
    let ops = conds(g, &vocab, 3);
    if !ops.is_empty() {
        let x: Vec<M> = run_ms(&soup_of(strict), &ops, How::All).iter().map(raw_as_text).collect();
        let y: Vec<M> = run_ms(&soup_of(lenient), &ops, How::All);
        let y: Vec<&M> = y.iter().collect();
        ensure!(same(&x, &y), format!("{s} query {ops:?}"), "{}", diff("strict and lenient", &x, &y));
    }
    let n = walk_all(&b).len();
    ok(s, n > 6, vec![if n > 20 { "nodes:21+" } else { "nodes:1-20" }])
}

const fn part(name: &'static str, quick: u64, tape: usize, f: fn(&mut Gen) -> R) -> Part {
    Part { name, quick, thorough: quick * 40, tape, f }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "Token soup of HTML constructs (tables, forms, templates, foreign content, framesets, formatting), documents with insertions, texts; the skeleton, three parses, everything a document offers; every character of the BMP and 30,000 others (thorough: all) at 8 places; long words of characters of several bytes there; nesting of 1000 on a stack of 8 MiB. Non-trivial: content besides the skeleton.",
            parts: vec![part("any", 60_000, 600, c17), part("huge", 200, 400, |g| gen::huge(|| c17(g)))],
            specials: vec![Special { name: "deep", f: c17_deep }],
            known: vec![Known { name: "lenient-deep-nesting", probe: || crate::p_strict::deep("lenient", 100_000).is_err() }],
            enums: vec![crate::engine::Enumeration { name: "characters", count: |t| gen::char_count(t) * PLACES.len() as u64, f: |i| c17_input(gen::with_char(i, PLACES)) },
                crate::engine::Enumeration { name: "long words", count: |_| gen::LONG_WORDS * PLACES.len() as u64, f: |i| c17_input(gen::with_long_word(i / PLACES.len() as u64, [&PLACES[(i % PLACES.len() as u64) as usize]]).remove(0)) }],
            ..Prop::new()
        },
        Prop {
            id: "C18",
            rule: "As C17, with foreign content and templates inserted; node for node against the tree of the HTML5 parser (scraper/html5ever), converted by the harness; every character of the BMP and 30,000 others (thorough: all) at 8 places; documents of megabytes. Documents large in one respect around powers of 2 and 10 up to 2^17 (thorough: 2^22). Non-trivial: more than one node besides the skeleton.",
            parts: vec![part("tree", 240_000, 600, c18), part("huge", 400, 400, |g| gen::huge(|| c18(g)))],
            enums: vec![crate::engine::Enumeration { name: "characters", count: |t| gen::char_count(t) * PLACES.len() as u64, f: |i| as_oracle(gen::with_char(i, PLACES)) }, crate::engine::Enumeration { name: "megabytes", count: gen::very_large_count, f: c18_large }, crate::p_sizes::IN_C18],
            known: vec![Known { name: "lenient-attribute-collision", probe: c18_collision }],
            assumptions: vec!["html5ever implements the HTML5 parsing algorithm"],
            ..Prop::new()
        },
        Prop {
            id: "C19",
            rule: "Complete documents (head and body with blocks, inlines, lists, tables, svg, script, style, comments) in random spellings that HTML5 and the strict dialect share; both trees and a random query. Non-trivial: more than three nodes besides html, head and body.",
            parts: vec![part("agree", 200_000, 800, c19), part("huge", 400, 400, |g| gen::huge(|| c19(g)))],
            ..Prop::new()
        },
    ]
}
