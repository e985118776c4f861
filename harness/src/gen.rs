//! Generators of document trees.
use crate::dict;
use crate::model::{K, M};
use crate::tape::Gen;

pub const NAMES: &[&str] = &[
    "a", "b", "p", "div", "li", "ul", "span", "em", "h1", "td", "x", "section", "A", "my-elem", "Div", "button", "html", "body", "body2",
];
/// names of ordinary elements that resemble void or raw ones
pub const TRICKY_NAMES: &[&str] = &[
    "colgroup", "basefont", "brand", "linker", "metadata", "hrx", "img-x", "input2", "scripts", "styled", "script-x", "style1", "area.b",
    "sourced", "tracks", "wbrr", "embedx", "co", "scrip", "styl", "svg:rect", "xml:lang", "col\u{e9}", "br\u{fffd}", "b&c", "x!y", "h\u{130}",
    "lin\u{212a}", "s\u{17f}ript", "a_b", "a.b", "brbr", "hr-", "scriptscript", "param", "command", "keygen", "noscript", "textarea", "title", "template",
];
/// The other elements of HTML, past and present: all ordinary to the strict parser
pub const REAL_NAMES: &[&str] = &[
    "html", "head", "title", "body", "article", "section", "nav", "aside", "h1", "h2", "h3", "h4", "h5", "h6", "hgroup", "header", "footer", "address", "p", "pre", "blockquote", "ol", "ul", "menu", "li", "dl", "dt",
    "dd", "figure", "figcaption", "main", "search", "div", "a", "em", "strong", "small", "s", "cite", "q", "dfn", "abbr", "ruby", "rt", "rp", "data", "time", "code", "var", "samp", "kbd", "sub", "sup", "i", "b", "u",
    "mark", "bdi", "bdo", "span", "ins", "del", "picture", "iframe", "object", "video", "audio", "map", "table", "caption", "colgroup", "tbody", "thead", "tfoot", "tr", "td", "th", "form", "label", "button", "select",
    "datalist", "optgroup", "option", "textarea", "output", "progress", "meter", "fieldset", "legend", "details", "summary", "dialog", "noscript", "template", "slot", "canvas", "svg", "math", "center", "font", "big",
    "tt", "strike", "nobr", "marquee", "xmp", "plaintext", "listing", "noembed", "noframes", "frameset", "applet", "acronym", "dir", "rb", "rtc", "param", "frame", "basefont", "bgsound", "keygen", "command", "image",
    "isindex", "menuitem", "nextid", "spacer", "blink", "multicol", "portal", "g", "path", "circle", "foreignObject", "linearGradient", "clipPath", "desc", "mi", "mo", "mtext", "annotation-xml", "use", "defs",
];
pub const REAL_ATTRS: &[&str] = &[
    "class", "id", "style", "title", "lang", "dir", "hidden", "href", "src", "alt", "name", "value", "type", "rel", "content", "charset", "http-equiv", "disabled", "checked", "selected", "readonly", "required",
    "multiple", "autofocus", "async", "defer", "width", "height", "onclick", "onerror", "placeholder", "role", "aria-label", "data-id", "tabindex", "for", "action", "method", "target", "colspan", "rowspan", "scope",
    "open", "controls", "loop", "muted", "autoplay", "itemprop", "property", "xmlns", "xml:lang", "viewBox", "min", "max", "step", "pattern", "srcset", "sizes", "media", "loading", "is", "slot", "key", "ref", "key.value",
];
pub const VOIDS: &[&str] = &["br", "img", "hr", "input", "meta", "link", "area", "base", "col", "embed", "source", "track", "wbr"];
pub const ATTR_NAMES: &[&str] = &[
    "class", "id", "href", "x", "y", "data-x", "CLASS", "checked", "title", "a", "xlink:href", "@click", ":bind", "a.b", "[k]", "(e)", "#r", "*if",
    "\u{e9}t\u{e9}", "a&b", "&amp;", "true", "n2",
];
pub const COMMON_NAMES: &[&str] = &["div", "span", "section", "b", "i", "em", "ul", "article", "u", "my-elem", "strong", "main", "x-y", "item", "label", "code", "small"];
/// void elements that may occur anywhere in a body
pub const COMMON_VOIDS: &[&str] = &["br", "img", "hr", "input", "wbr", "embed", "area"];
pub const XML_NAMES: &[&str] = &["a", "b", "root", "item", "x", "li", "A", "my-elem", "a.b", "_u", "\u{e9}l\u{e9}ment", "b1", "div", "p", "\u{65e5}\u{672c}"];
pub const XML_ATTRS: &[&str] = &["id", "class", "x", "y", "name", "data-x", "Class", "a.b", "_v", "\u{e9}", "href", "true"];
pub const VALUES: &[&str] = &["", "a", "b", "1", "foo", "foo bar", "x", "true", "class", "id", "a b c", "A", "http://e.org/?a=1&b=2#f", "\u{e9}", "bar"];

const PIECES: &[&str] = &[
    "a", "text", " ", "foo", "Hello, world!", "\n", "\t", "&", "<", ">", "\"", "'", "=", "/", ";", "#", "  ", "\u{a0}", "\u{e9}", "\u{65e5}\u{672c}", "\u{1f600}",
    "&amp;", "&lt;", "&nope;", "&copy2", "&#65;", "&#x41;", "amp;", "-->", "<!--", "</p>", "<br>", "]]>", "`", "a\u{301}", "\u{2028}", "\u{feff}", "\u{200b}",
    "0", "\r\n", "\u{130}", "\u{ff21}", "\u{10ffff}", "b&c=d", "&x", "x;", "\\", "\u{7f}", "{{v}}", "%41", "\u{212a}", "&notin", "&ampamp;", "&#38;lt;", "\\n",
    "\0", "\r", "\u{c}", "\u{b}", "\u{1}", "\u{1b}", "\u{85}", "--!>", "\u{fffd}", "\u{1f468}\u{200d}\u{1f469}", "\u{e000}", "x\0y", "\n\r",
];

/// lo..=hi, or a number of the code (up to 300)
fn count_or(g: &mut Gen, lo: usize, hi: usize) -> usize {
    let n = g.range(lo, hi);
    if g.chance(10) {
        dict::number(g, 1, 300).unwrap_or(n)
    } else {
        n
    }
}

/// Any string of about `n` pieces
pub fn any_text(g: &mut Gen, n: usize) -> String {
    let mut s = String::new();
    let count = g.range(1, n.max(1));
    for _ in 0..count {
        match g.weighted(&[70, 12, 10, 4, 2, 6]) {
            0 => s.push_str(g.pick(PIECES)),
            5 => s.push_str(dict::word(g)),
            1 => s.push(any_char(g)),
            2 => s.push_str(g.pick(VALUES)),
            3 => {
                let p = g.pick(PIECES);
                for _ in 0..count_or(g, 2, 30) {
                    s.push_str(p);
                }
            }
            _ => {
                for i in 0..count_or(g, 1, 200) {
                    s.push((b'a' + (i % 26) as u8) as char);
                }
            }
        }
    }
    s
}

/// Any character; no NUL and no carriage return (they are added where wanted)
pub fn any_char(g: &mut Gen) -> char {
    let c = match g.weighted(&[4, 3, 2, 2, 1]) {
        0 => g.range(0x20, 0x7e),
        1 => g.range(0xa0, 0x2ff),
        2 => g.range(0x300, 0xd7ff),
        3 => g.range(0xe000, 0xffff),
        _ => g.range(0x1_0000, 0x10_ffff),
    };
    char::from_u32(c as u32).unwrap_or('x')
}

/// Characters that XML 1.0 documents may contain
pub fn xml_text(s: &str) -> String {
    s.chars()
        .filter(|c| matches!(c, '\t' | '\n' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..))
        .filter(|c| !matches!(*c as u32 & 0xffff, 0xfffe | 0xffff) && !matches!(c, '\u{7f}'..='\u{9f}' | '\u{fdd0}'..='\u{fdef}'))
        .collect()
}

/// The same in texts and attribute values, where carriage returns can be written as references
fn xml_value(s: &str) -> String {
    s.split('\r').map(xml_text).collect::<Vec<_>>().join("\r")
}

/// What may occur, and how big
#[derive(Clone, Copy)]
pub struct Cfg {
    pub flavour: Flavour,
    pub nodes: usize,
    pub depth: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Flavour {
    /// anything a node type can hold: for documents that are not parsed
    Free,
    Html,
    Xml,
    /// what HTML and XML share: elements, attributes, texts
    Common,
}

/// How big a document is and how it is shaped
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape {
    Normal,
    Wide,
    Deep,
    ManyAttrs,
    LongText,
    /// see `huge`
    Huge,
}

thread_local! {
    static HUGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs `f` with `forest` and what is built on it making documents that are large in
/// one respect: wide, deep, with many attributes, long texts or many references.
pub fn huge<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            HUGE.set(false);
        }
    }
    let _reset = Reset;
    HUGE.set(true);
    f()
}

pub fn is_huge() -> bool {
    HUGE.get()
}

/// Sizes around those at which counters, buffers and tables of small types end
fn size(g: &mut Gen, steps: &[usize]) -> usize {
    let base = steps[g.below(steps.len())];
    let n = base + g.below(base / 8 + 6);
    if g.chance(15) {
        dict::number(g, 30, steps[steps.len() - 1]).unwrap_or(n)
    } else {
        n
    }
}

/// Long text without whitespace at its ends, of repeated pieces, and something at its end
fn long_text(g: &mut Gen) -> String {
    let n = size(g, &[250, 1020, 4090, 8180, 33_000, 65_500, 140_000]);
    let mut unit = any_text(g, 3);
    if unit.len() < 2 || unit.len() > 300 {
        unit = g.pick(&["ab", "a b", "x\n", "\u{e9}\u{1f600}", "t", "a-b"]).into();
    }
    let mut s = unit.repeat(n / unit.len() + 1);
    s.insert(0, 'a');
    s.push_str(g.pick(&["z", "&", "\u{e9}", "1", "\"'", "&amp;", ";"]));
    s
}

fn huge_forest(g: &mut Gen, cfg: Cfg) -> Vec<M> {
    let free = cfg.flavour == Flavour::Free;
    let html = matches!(cfg.flavour, Flavour::Free | Flavour::Html);
    let mut b = B { g, cfg: Cfg { nodes: 5, depth: 1, ..cfg }, left: 5, shape: Shape::Normal };
    let mut units = b.kids(0);
    if units.iter().all(|m| m.kind == K::Text) {
        let (n, a) = (b.name(), b.attrs());
        units.push(M::elem(n, a, vec![]));
    }
    if !free && units[0].kind == K::Text && units[units.len() - 1].kind == K::Text {
        units.pop();
    }
    let odd = {
        let (n, a) = (b.name(), b.attrs());
        M::elem(n, a, vec![])
    };
    let (name, name2) = (b.name(), b.name());
    let attrs = b.attrs();
    let shown = |s: String| match cfg.flavour {
        Flavour::Xml | Flavour::Common => xml_text(&s),
        _ => s,
    };
    let wrap = |kids: Vec<M>, at: usize| {
        // among other nodes
        let mut top = vec![M::elem(name.clone(), vec![], vec![odd.clone()]), M::elem(name2.clone(), attrs.clone(), kids), odd.clone()];
        top.rotate_left(at % 3);
        if free || cfg.flavour == Flavour::Html { top } else { vec![M::elem(name.clone(), vec![], top)] }
    };
    let at = b.g.below(4);
    match b.g.weighted(&[30, 25, 12, 25, 15, 8]) {
        0 => {
            // wide
            let steps: &[usize] = if b.g.chance(8) { &[16_300, 32_700, 65_500] } else { &[120, 250, 510, 1020, 4090] };
            let n = size(b.g, steps);
            let mut kids: Vec<M> = units.iter().cycle().take(n / units.len() * units.len()).cloned().collect();
            let i = kids.len() - b.g.below(kids.len() / 4);
            kids.insert(i, odd.clone());
            kids.push(M::elem(name2.clone(), attrs.clone(), vec![odd.clone()]));
            if at == 3 && (free || cfg.flavour == Flavour::Html) { kids } else { wrap(kids, at) }
        }
        1 => {
            // deep
            // what is done with the common ones is cubic in the depth
            let steps: &[usize] = if cfg.flavour == Flavour::Common { &[60, 120, 250] } else { &[120, 250, 510, 1020, 1400] };
            let depth = size(b.g, steps);
            let i = b.g.below(depth);
            let mut inner = units;
            for k in 0..depth {
                let mut kids = inner;
                if k == i || k + 3 > depth {
                    kids.insert(0, odd.clone());
                    kids.push(odd.clone());
                }
                inner = vec![M::elem(if k % 3 == 0 { &*name } else { &*name2 }, if k % 7 == 0 { attrs.clone() } else { vec![] }, kids)];
            }
            if at == 3 { inner } else { wrap(inner, at) }
        }
        2 => {
            // many attributes
            let n = size(b.g, &[120, 250, 510, 1020, 4090]);
            let mut a: Vec<(String, String)> = vec![];
            for i in 0..n {
                a.push((format!("{}{i}", if i % 2 == 0 { "a" } else { "data-" }), VALUES[i % VALUES.len()].into()));
            }
            a.push(("class".into(), "x".into()));
            let m = if html && b.g.chance(30) { M::void("img", a) } else { M::elem(name2.clone(), a, units) };
            wrap(vec![m], at)
        }
        3 => {
            // one long string
            let t = shown(long_text(b.g));
            let long_name = |g: &mut Gen| format!("x{}", g.pick(&["a", "abc-", "b1"]).repeat(t.len().min(70_000) / 3));
            let m = match b.g.below(7) {
                0 => M::elem(name2.clone(), vec![("title".into(), t), ("x".into(), "1".into())], units),
                1 => M::comment(match cfg.flavour {
                    Flavour::Free => t,
                    Flavour::Html => html_comment(t),
                    _ => t.replace('-', "_"),
                }),
                2 if cfg.flavour == Flavour::Xml => M::cdata(t.replace("]]>", "]] >")),
                2 if html => M::raw("script", vec![], t.replace("</", "< /").trim()),
                3 if cfg.flavour == Flavour::Xml => M::pi("x", Some(t.replace("?>", "? >").trim().into())),
                3 if html => M::doctype(t.replace('>', "").trim()),
                4 => M::elem(long_name(b.g), vec![], units),
                5 => M::elem(name2.clone(), vec![(long_name(b.g), "v".into())], units),
                _ => M::text(t),
            };
            wrap(vec![odd.clone(), m, odd.clone()], at)
        }
        4 => {
            // many references when it is written
            let n = size(b.g, &[60, 120, 250, 510, 4090]);
            let t: String = ['<', '&', '"', '<', 'a', '\u{e9}'].iter().cycle().take(n).collect();
            let m = if b.g.chance(50) { M::text(t) } else { M::elem(name2.clone(), vec![("title".into(), t)], units) };
            wrap(vec![odd.clone(), m], at)
        }
        _ => {
            // many texts, comments and so on between elements
            let n = size(b.g, &[120, 250, 510, 2040]);
            let mut kids = vec![];
            for i in 0..n {
                kids.push(if i % 2 == 0 { M::text(format!("t{i}")) } else { M::comment(format!("c{i}")) });
            }
            kids.push(odd.clone());
            wrap(kids, at)
        }
    }
}

/// Many attributes, or long ones
pub fn huge_attrs(g: &mut Gen) -> Vec<(String, String)> {
    let mut a = vec![];
    if g.chance(50) {
        let n = size(g, &[60, 120, 250, 510, 2040]);
        let v: Vec<String> = (0..g.range(1, 4)).map(|_| any_text(g, 2)).collect();
        let name = g.pick(&["a", "data-", "@", ":", "\u{e9}"]);
        for i in 0..n {
            a.push((format!("{name}{i}"), v[i % v.len()].clone()));
        }
    } else {
        a.push(("x".to_string(), long_text(g)));
        a.push((g.pick(&["a", "data-", "@", "\u{e9}-"]).repeat(size(g, &[60, 250, 1020, 16_000])), "1".to_string()));
    }
    a.push(("id".to_string(), "last".to_string()));
    a
}

pub fn shape(g: &mut Gen) -> Shape {
    match g.weighted(&[84, 5, 5, 4, 2]) {
        0 => Shape::Normal,
        1 => Shape::Wide,
        2 => Shape::Deep,
        3 => Shape::ManyAttrs,
        _ => Shape::LongText,
    }
}

struct B<'g, 't> {
    g: &'g mut Gen<'t>,
    cfg: Cfg,
    left: usize,
    shape: Shape,
}

impl B<'_, '_> {
    fn name(&mut self) -> String {
        let g = &mut *self.g;
        match self.cfg.flavour {
            Flavour::Free => match g.weighted(&[60, 15, 15, 5, 5, 4]) {
                5 => dict::name(g).into(),
                0 => g.pick(NAMES[..8].as_ref()).into(),
                1 => g.pick(NAMES).into(),
                2 => g.pick(VOIDS).into(),
                3 => g.pick(&["", "script", "style", "class", "true"]).into(),
                _ => any_text(g, 2),
            },
            Flavour::Html => match g.weighted(&[40, 20, 15, 20, 5]) {
                4 => match dict::name(g) {
                    n if crate::htmlref::kind_of(n) == K::Elem => n.into(),
                    n => format!("{n}-x"),
                },
                3 => g.pick(REAL_NAMES).into(),
                0 => g.pick(NAMES).into(),
                1 => g.pick(TRICKY_NAMES).into(),
                _ => html_name(g),
            },
            Flavour::Xml => match g.weighted(&[80, 20, 5]) {
                0 => g.pick(XML_NAMES).into(),
                2 => dict::name(g).into(),
                _ => g.pick(REAL_NAMES).into(),
            },
            // names that HTML5 lets nest in any way
            Flavour::Common => g.pick(COMMON_NAMES).into(),
        }
    }
    fn attr_name(&mut self) -> String {
        let g = &mut *self.g;
        match self.cfg.flavour {
            Flavour::Free => match g.weighted(&[70, 25, 5, 4]) {
                3 => dict::name(g).into(),
                0 => g.pick(&ATTR_NAMES[..6]).into(),
                1 => g.pick(ATTR_NAMES).into(),
                _ => any_text(g, 2),
            },
            Flavour::Html => match g.weighted(&[50, 25, 25, 5]) {
                3 => dict::name(g).into(),
                2 => g.pick(REAL_ATTRS).into(),
                0 => g.pick(ATTR_NAMES).into(),
                _ => html_attr_name(g),
            },
            Flavour::Xml => match g.weighted(&[75, 25, 5]) {
                2 => dict::name(g).into(),
                0 => g.pick(XML_ATTRS).into(),
                _ => g.pick(&REAL_ATTRS[..49]).into(),
            },
            Flavour::Common => match g.weighted(&[75, 25, 5]) {
                2 => dict::name(g).to_ascii_lowercase(),
                0 => g.pick(&["class", "id", "x", "y", "title", "data-x"]).into(),
                // (namespaces are the subject of C21)
                _ => g.pick(&REAL_ATTRS[..49]).into(),
            },
        }
    }
    fn value(&mut self) -> String {
        let g = &mut *self.g;
        let v = match g.weighted(&[70, 30]) {
            0 => g.pick(VALUES).into(),
            _ => any_text(g, 4),
        };
        match self.cfg.flavour {
            Flavour::Xml => xml_value(&v),
            Flavour::Common => xml_text(&v),
            _ => v,
        }
    }
    fn attrs(&mut self) -> Vec<(String, String)> {
        let n = if self.shape == Shape::ManyAttrs && self.g.chance(40) {
            self.g.range(5, 60)
        } else {
            self.g.weighted(&[35, 30, 20, 10, 5])
        };
        let mut out: Vec<(String, String)> = vec![];
        for i in 0..n {
            let mut name = self.attr_name();
            if n > 4 {
                name = format!("{name}{i}");
            }
            if out.iter().all(|a| a.0 != name) {
                let value = self.value();
                out.push((name, value));
            }
        }
        out
    }
    fn text(&mut self) -> String {
        let n = if self.shape == Shape::LongText && self.g.chance(30) { 200 } else { 5 };
        let t = any_text(self.g, n);
        match self.cfg.flavour {
            Flavour::Free | Flavour::Html => t,
            Flavour::Xml => xml_value(&t),
            Flavour::Common => xml_text(&t),
        }
    }
    fn kids(&mut self, depth: usize) -> Vec<M> {
        let mut n = if depth >= self.cfg.depth {
            0
        } else if self.shape == Shape::Wide && self.g.chance(30) {
            count_or(self.g, 20, 150)
        } else {
            self.g.weighted(&[10, 18, 25, 22, 15, 10])
        };
        n = n.min(self.left);
        self.left -= n;
        let mut out: Vec<M> = vec![];
        for _ in 0..n {
            let prev_text = self.cfg.flavour != Flavour::Free && out.last().is_some_and(|m| m.text.is_some());
            let node = self.node(depth, prev_text, false);
            if let Some(node) = node {
                out.push(node);
            }
        }
        out
    }
    fn node(&mut self, depth: usize, no_text: bool, top: bool) -> Option<M> {
        let what = match self.cfg.flavour {
            Flavour::Free | Flavour::Html => self.g.weighted(&[26, 48, 9, 7, 8, if top { 5 } else { 2 }]),
            Flavour::Xml => [0, 1, 6, 7, 4, 4][self.g.weighted(&[30, 45, 8, 7, 5, 5])],
            Flavour::Common => [0, 1, 2, 4][self.g.weighted(&[33, 55, 7, 5])],
        };
        Some(match what {
            0 if !no_text => {
                let t = self.text();
                let blank = t.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
                if t.is_empty() || (blank && matches!(self.cfg.flavour, Flavour::Xml | Flavour::Common)) {
                    return None;
                }
                M::text(t)
            }
            2 => {
                let name: String = match self.cfg.flavour {
                    Flavour::Common => self.g.pick(COMMON_VOIDS).into(),
                    Flavour::Html if self.g.chance(20) => self.g.pick(VOIDS).to_uppercase(),
                    _ => self.g.pick(VOIDS).into(),
                };
                M::void(name, self.attrs())
            }
            3 => {
                let name = self.g.pick(&["script", "style", "SCRIPT", "Style", "sTYLE"]);
                let attrs = self.attrs();
                M::raw(name, attrs, raw_content(self.g, name))
            }
            4 => M::comment(self.comment()),
            5 => {
                let d = self.g.pick(&["html", "html SYSTEM \"about:legacy-compat\"", "HTML PUBLIC '-//W3C//DTD HTML 4.01//EN'", "x &amp; y", "html [<!ENTITY a 'b'", "svg\n ", "x--y<!--"]);
                M::doctype(d)
            }
            6 => {
                let t = any_text(self.g, 4);
                M::cdata(xml_text(&t).replace("]]>", "]] >"))
            }
            7 => {
                instruction(self.g)
            }
            _ => {
                let name = self.name();
                let attrs = self.attrs();
                let kids = self.kids(depth + 1);
                M::elem(name, attrs, kids)
            }
        })
    }
    fn comment(&mut self) -> String {
        let t = match self.g.below(4) {
            0 => " c ".to_string(),
            1 => self.g.pick(&["", "-", "a-b", "--", "- -", "<p>", "&amp;", "<!--", "</div>", "\"'", "]]>", "--!", "a--", "<script>"]).to_string(),
            _ => any_text(self.g, 5),
        };
        match self.cfg.flavour {
            Flavour::Free => t,
            Flavour::Html => html_comment(t),
            Flavour::Common => html_comment(xml_text(&t).replace("--", "- ").trim_end_matches('-').to_string()),
            _ => {
                let mut t = xml_text(&t).replace("--", "- ");
                if t.ends_with('-') {
                    t.push(' ');
                }
                t
            }
        }
    }
}

pub fn instruction(g: &mut Gen) -> M {
    let target = g.pick(&["pi", "php", "xml-stylesheet", "a.b", "x", "\u{e9}", "p", "_1-2"]);
    let data = match g.below(3) {
        0 => None,
        1 => Some("href=\"a.css\" &amp; <b>".to_string()),
        _ => Some(g.pick(&["x", "1 ?", "echo '?' > y", "\u{e9}", "<?q", "", "x ", "a\n b", "version='1.0'", "--", "]]>"]).to_string()),
    };
    M::pi(target, data)
}

/// Makes the text one that HTML can hold in a comment
pub fn html_comment(mut t: String) -> String {
    while t.contains("-->") || t.contains("--!>") {
        t = t.replace("-->", "- >").replace("--!>", "- !>");
    }
    if t.starts_with('>') || t.starts_with("->") {
        t.insert(0, ' ');
    }
    // `<!` at the end could form `<!-->`, which is fine; `--` or `--!` at the end as well
    if t.ends_with("--!") {
        t.push(' ');
    }
    t
}

/// Content of a raw element, without surrounding whitespace and without its end tag
pub fn raw_content(g: &mut Gen, name: &str) -> String {
    let mut s = String::new();
    for _ in 0..g.weighted(&[10, 30, 20, 15, 10, 10]) {
        let p = match g.below(5) {
            0 => "var a = 1 < 2 && b > c;".to_string(),
            1 => g
                .pick(&[
                    "<p>", "</p>", "<!--", "-->", "&amp;", "&lt;", "\"", "'", "</", "</scripts>", "</styles>", "</ script>", "</scrip>", "< /script>", "</-script>", "<\\/script>",
                    "</style-x>", "</script-x>", "<script>", "<style>", "a { b: \"c\" }", "//", "\n", "<", ">", "/>", "</s", "</scri\u{212a}t>", "</\u{17f}cript>", "</\u{17f}tyle>", "]]>",
                ])
                .to_string(),
            2 => {
                // the end tag of the other one
                if name.eq_ignore_ascii_case("script") { "</style>".into() } else { "</script>".into() }
            }
            3 => format!("</{name}x>"),
            _ => any_text(g, 3),
        };
        s.push_str(&p);
        if g.chance(30) {
            s.push(' ');
        }
    }
    raw_clean(s, name)
}

pub fn raw_clean(mut s: String, name: &str) -> String {
    // An end tag inside: anything that begins as one and is followed by whitespace, slash or bracket
    let lower = format!("</{}", name.to_ascii_lowercase());
    loop {
        let l = s.to_ascii_lowercase();
        let hit = l.match_indices(&lower).find(|(i, _)| {
            l[i + lower.len()..].chars().next().is_none_or(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}' | '/' | '>'))
        });
        match hit {
            Some((i, _)) => s.insert(i + 2, '-'),
            None => break,
        }
    }
    s.trim().to_string()
}

const NAME_CHARS: &[char] = &['a', 'b', 'Z', '0', '9', '-', '_', '.', ':', '@', '#', '$', '&', ';', '!', '?', '*', '+', '|', '[', '}', '~', '\\', ',', '`', '\u{e9}', '\u{65e5}', '\u{1f600}', '\u{212a}', '\u{a0}'];

/// A letter and then anything that HTML allows; not a void or raw name
pub fn html_name(g: &mut Gen) -> String {
    let mut s = String::from(*g.pick_of(&['a', 'b', 'z', 'B', 's', 'i']));
    for _ in 0..g.range(0, 6) {
        s.push(*g.pick_of(NAME_CHARS));
    }
    if crate::htmlref::kind_of(&s) != crate::model::K::Elem {
        s.push('x');
    }
    s
}

pub fn html_attr_name(g: &mut Gen) -> String {
    let mut s = String::new();
    for _ in 0..g.range(1, 6) {
        s.push(*g.pick_of(NAME_CHARS));
    }
    s
}

/// A forest of at most about `cfg.nodes` nodes.
pub fn forest(g: &mut Gen, cfg: Cfg) -> (Vec<M>, Shape) {
    if is_huge() {
        return (huge_forest(g, cfg), Shape::Huge);
    }
    let sh = shape(g);
    let mut b = B { g, cfg, left: cfg.nodes, shape: sh };
    match sh {
        Shape::Deep => {
            let depth = count_or(b.g, 20, 120);
            let mut bottom = b.kids(cfg.depth.saturating_sub(1));
            let (n1, n2) = (b.name(), b.name());
            let attrs = b.attrs();
            let before = b.g.below(depth);
            for i in 0..depth {
                let mut kids = bottom;
                if i == before {
                    kids.insert(0, M::elem(n2.clone(), vec![], vec![]));
                    kids.push(M::elem(n1.clone(), attrs.clone(), vec![]));
                }
                bottom = vec![M::elem(if i % 3 == 0 { &*n1 } else { &*n2 }, if i % 5 == 0 { attrs.clone() } else { vec![] }, kids)];
            }
            (bottom, sh)
        }
        Shape::Wide => {
            b.left = 200;
            let k = b.kids(0);
            (k, sh)
        }
        _ => {
            let n = if cfg.flavour == Flavour::Xml || cfg.flavour == Flavour::Common { 1 } else { b.g.range(1, 4) };
            let mut out: Vec<M> = vec![];
            for _ in 0..n {
                let no_text = cfg.flavour != Flavour::Free && out.last().is_some_and(|m| m.text.is_some());
                out.extend(b.node(0, no_text, true));
            }
            (out, sh)
        }
    }
}

pub const FREE: Cfg = Cfg { flavour: Flavour::Free, nodes: 25, depth: 7 };
pub const HTML: Cfg = Cfg { flavour: Flavour::Html, nodes: 25, depth: 7 };

/// One XML root element
pub fn xml_root(g: &mut Gen, nodes: usize) -> (M, Shape) {
    let (top, sh) = forest(g, Cfg { flavour: Flavour::Xml, nodes, depth: 7 });
    (root_of(g, top), sh)
}

pub fn common_root(g: &mut Gen, nodes: usize) -> M {
    let (top, _) = forest(g, Cfg { flavour: Flavour::Common, nodes, depth: 7 });
    root_of(g, top)
}

fn root_of(g: &mut Gen, mut top: Vec<M>) -> M {
    if top.len() == 1 && top[0].is_el() {
        top.pop().unwrap()
    } else {
        M::elem(g.pick(&["root", "item", "div"]), vec![], top)
    }
}

/// A tree of user-defined nodes: any combination of name, text, attributes and children
pub fn mixed(g: &mut Gen, depth: usize, left: &mut usize) -> M {
    let mut m = M::elem("", vec![], vec![]);
    m.kind = crate::model::K::Mixed;
    m.name = g.chance(70).then(|| g.pick(NAMES[..6].as_ref()).to_string());
    m.text = g.chance(40).then(|| any_text(g, 2));
    m.attrs = if g.chance(60) {
        let mut a: Vec<(String, String)> = vec![];
        for _ in 0..g.below(4) {
            let name = g.pick(&ATTR_NAMES[..6]).to_string();
            if a.iter().all(|x| x.0 != name) {
                a.push((name, g.pick(VALUES).to_string()));
            }
        }
        a.sort();
        Some(a)
    } else {
        None
    };
    if depth < 6 {
        for _ in 0..g.below(5) {
            if *left == 0 {
                break;
            }
            *left -= 1;
            m.kids.push(mixed(g, depth + 1, left));
        }
    }
    m
}

/// Documents of megabytes, large in one respect; what it is, and its root (elements,
/// attributes, texts and comments that every format has)
pub fn very_large(i: u64) -> (String, M) {
    let (size, what) = VERY_LARGE[i as usize];
    let text = |unit: &str| format!("a{}z", unit.repeat(size / unit.len()));
    let b = || M::elem("b", vec![("id".into(), "1".into())], vec![M::text("x")]);
    let m = match what {
        "text" => M::elem("div", vec![], vec![b(), M::text(text("some text, ")), b()]),
        "wide characters" => M::elem("div", vec![], vec![M::text(text("\u{e9}\u{65e5}\u{1f600}")), b()]),
        "value" => M::elem("div", vec![("id".into(), text("v w")), ("title".into(), "t".into())], vec![b()]),
        "comment" => M::elem("div", vec![], vec![M::comment(text("c ")), b()]),
        "references" => M::elem("div", vec![], vec![M::text(text("<&")), b()]),
        "name" => M::elem("div", vec![], vec![M::elem(text("n"), vec![], vec![b()]), b()]),
        "attributes" => M::elem("div", (0..size / 12).map(|i| (format!("a{i:06}"), "v".to_string())).collect(), vec![b()]),
        "elements" => M::elem("div", vec![], (0..size / 17).flat_map(|_| [b(), M::text("\u{b7}")]).collect()),
        _ => unreachable!(),
    };
    (format!("{what} of {size} bytes"), m)
}

/// xml-rs takes at most 65536 attributes, names of 256 KiB and texts of 1 GiB
const VERY_LARGE: &[(usize, &str)] = &[
    (1 << 20, "text"),
    ((1 << 20) + 5, "value"),
    (1 << 21, "comment"),
    (3 << 20, "references"),
    (700_000, "attributes"),
    (3 << 20, "elements"),
    (250_000, "name"),
    (5_000_000, "wide characters"),
    ((1 << 24) + 7, "text"),
    // thorough
    ((1 << 24) + 7, "value"),
    ((1 << 24) + 7, "comment"),
    (12 << 20, "elements"),
    ((1 << 25) + 9, "references"),
    ((1 << 26) + 1, "text"),
    (780_000, "attributes"),
];

pub fn very_large_count(thorough: bool) -> u64 {
    if thorough { VERY_LARGE.len() as u64 } else { 9 }
}

/// Characters, each once: the basic plane, then the others in scattered order
pub fn char_count(thorough: bool) -> u64 {
    63_488 + if thorough { 0x10_0000 } else { 30_000 }
}

pub fn nth_char(i: u64) -> char {
    let i = i as u32;
    let code = match i {
        0..0xd800 => i,
        0xd800..63_488 => i + 0x800,
        _ => 0x1_0000 + ((i - 63_488).wrapping_mul(0x9_e375) & 0xf_ffff),
    };
    char::from_u32(code).unwrap()
}

/// Long words of characters of several bytes, which begin and end at all the places that
/// are none for whoever counts in bytes
pub fn long_word(i: u64) -> String {
    let c = ["\u{e9}", "\u{65e5}", "\u{1f600}"][(i / 4 % 3) as usize];
    let n = [12, 80, 400, 3000, 25_000][(i / 12 % 5) as usize];
    format!("{}{}", "x".repeat((i % 4) as usize), c.repeat(n))
}

pub const LONG_WORDS: u64 = 60;

/// The word in every place
pub fn with_long_word<'a>(i: u64, places: impl IntoIterator<Item = &'a &'a str>) -> Vec<String> {
    let w = long_word(i);
    places.into_iter().map(|s| s.replace("%d", "65").replace("%x", "41").replace('@', &w)).collect()
}

/// The `i`-th of documents made of every character and every template, in which `@`
/// stands for the character
pub fn with_char(i: u64, templates: &[&str]) -> String {
    let n = templates.len() as u64;
    let c = nth_char(i / n);
    templates[(i % n) as usize].replace("%d", &(c as u32).to_string()).replace("%x", &format!("{:x}", c as u32)).replace('@', &c.to_string())
}
