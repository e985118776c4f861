//! C29 and C30: nodes as values, and the ways into a format.
use crate::engine::{fail, ok, Enumeration, Part, Prop, R};
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::p_lenient::any_html;
use crate::p_strict::{boundary, token_soup};
use crate::ser;
use crate::tape::Gen;
use soupy::parser::{HTMLNode, LenientHTMLParser, Parser, StrictHTMLParser, XMLNode, XMLParser};
use soupy::{Node, Queryable, Soup};
use std::borrow::Cow;
use std::io::Read;

// ---- C29 ----

/// A string that differs in one place, or not at all
fn near_string(g: &mut Gen, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = g.below(c.len() + 1);
    match g.below(9) {
        0 => c.insert(i, *g.pick_of(&['a', ' ', '\n', '\0', '\u{301}', '0', '\u{e9}', '\u{feff}'])),
        1 if i < c.len() => drop(c.remove(i)),
        2 if i < c.len() => c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() },
        3 if i < c.len() => c[i] = *g.pick_of(&['a', 'b', ' ', '\u{e9}', '\u{1f600}']),
        4 if i + 1 < c.len() => c.swap(i, i + 1),
        5 => c.reverse(),
        6 => c.push(*g.pick_of(&[' ', 'x', '\n', '\0'])),
        7 => c.truncate(i),
        _ => return s.into(),
    }
    c.into_iter().collect()
}

/// Changes one thing about one node of the forest
fn change(g: &mut Gen, top: &mut Vec<M>, xml: bool) {
    let mut kids = top;
    loop {
        if kids.is_empty() {
            kids.push(M::text("x"));
            return;
        }
        let i = g.below(kids.len());
        match g.below(12) {
            0 => drop(kids.remove(i)),
            1 => {
                let m = kids[i].clone();
                kids.insert(i, m);
            }
            2 => {
                let j = g.below(kids.len());
                kids.swap(i, j);
            }
            3 => {
                // what is below takes the place of the node, or goes below one
                let m = kids.remove(i);
                if m.kids.is_empty() || g.chance(50) {
                    kids.insert(i, M::elem("a", vec![], vec![m]));
                } else {
                    kids.splice(i..i, m.kids);
                }
            }
            4 | 5 if !kids[i].kids.is_empty() => {
                kids = &mut kids[i].kids;
                continue;
            }
            6 if i + 1 < kids.len() => {
                // a child more and a sibling less
                let m = kids.remove(i + 1);
                if kids[i].kind == K::Elem {
                    kids[i].kids.push(m);
                }
            }
            _ => change_node(g, &mut kids[i], xml),
        }
        return;
    }
}

fn change_node(g: &mut Gen, m: &mut M, xml: bool) {
    let content = m.text.clone().or(m.data.clone()).unwrap_or_default();
    match m.kind {
        K::Elem | K::Void | K::Raw => {
            let n = m.attrs.as_ref().map_or(0, Vec::len);
            let i = g.below(n.max(1));
            match g.below(if xml { 10 } else { 7 }) {
                0 => m.name = m.name.as_deref().map(|s| near_string(g, s)),
                1 => {
                    let name = near_string(g, "class");
                    m.add_attr(&name, content);
                }
                2 if n > 0 => drop(m.attrs.as_mut().unwrap().remove(i)),
                3 if n > 0 => {
                    let a = &mut m.attrs.as_mut().unwrap()[i];
                    a.1 = near_string(g, &a.1);
                }
                4 if n > 0 => {
                    let mut a = m.attrs.as_mut().unwrap().remove(i);
                    a.0 = near_string(g, &a.0);
                    m.add_attr(&a.0, a.1);
                }
                5 if n > 1 => {
                    // the same names and values, otherwise assigned
                    let a = m.attrs.as_mut().unwrap();
                    let v = a[i].1.clone();
                    let j = g.below(n);
                    a[i].1 = std::mem::replace(&mut a[j].1, v);
                }
                6 if m.kids.is_empty() && !xml => {
                    m.kind = if m.kind == K::Elem { *g.pick_of(&[K::Void, K::Raw]) } else { K::Elem };
                    m.data = (m.kind == K::Raw).then(|| g.pick(&["", "x"]).into());
                }
                7.. => {
                    let ns = m.ns.get_or_insert_with(Default::default);
                    let mut other = |s: &Option<String>| match s {
                        Some(s) if g.chance(70) => Some(near_string(g, s)),
                        Some(_) => None,
                        None => Some(g.pick(&["", "p", "u"]).to_string()),
                    };
                    match i % 3 {
                        0 => ns.prefix = other(&ns.prefix),
                        1 => ns.ns = other(&ns.ns),
                        _ => match &mut ns.scope {
                            None => ns.scope = Some(vec![]),
                            Some(v) if v.is_empty() => v.push(("p".into(), "u".into())),
                            Some(v) => v[0].1 += "x",
                        },
                    }
                }
                _ if m.kind == K::Raw => m.data = Some(near_string(g, &content)),
                _ => m.kids.push(M::text("")),
            }
        }
        _ if g.chance(40) => {
            // the same content of another kind
            *m = match g.below(if xml { 6 } else { 4 }) {
                0 => M::text(content),
                1 => M::comment(content),
                2 if !xml => M::doctype(content),
                2 => M::cdata(content),
                3 if !xml => M::raw(content.clone(), vec![], ""),
                3 => M::pi(content, None),
                4 => M::pi("t", Some(content)),
                _ => M::pi(content, Some(String::new())),
            };
        }
        K::Pi if g.chance(50) => m.target = Some(near_string(g, m.target.as_deref().unwrap_or(""))),
        K::Pi => m.data = if m.data.is_some() && g.chance(30) { None } else { Some(near_string(g, &content)) },
        K::Text => m.text = Some(near_string(g, &content)),
        _ => m.data = Some(near_string(g, &content)),
    }
}

fn compare<N: ToM + PartialEq>(a: &[N], b: &[N], key: &str) -> Result<bool, crate::engine::Fail> {
    let (ta, tb) = (ms(a), ms(b));
    ensure!((a == b) == (ta == tb), key, "compared as {}\n   {ta:?}\n   {tb:?}", a == b);
    ensure!((b == a) == (ta == tb), key, "compared the other way as {}\n   {ta:?}\n   {tb:?}", b == a);
    for (a, b) in a.iter().zip(b) {
        let want = a.m() == b.m();
        #[allow(clippy::nonminimal_bool)]
        let got = [a == b, b == a, !(a != b), !(b != a)];
        ensure!(got == [want; 4], key, "compared as {got:?} (equal, either way; not unequal, either way)\n   {:?}\n   {:?}", a.m(), b.m());
    }
    Ok(ta == tb)
}

fn c29_changed(g: &mut Gen) -> R {
    fn f<N: Node + ToM + FromM + Clone + PartialEq>(g: &mut Gen, what: &'static str) -> R {
        let xml = what == "xml";
        let (mut m, _) = gen::forest(&mut g.sub(), gen::FREE);
        if xml {
            fn spaces(g: &mut Gen, m: &mut [M]) {
                for n in m {
                    if n.kind != K::Elem {
                        n.data = n.data.take().map(|d| if d.len() > 3 { "c".into() } else { d });
                    } else if g.chance(40) {
                        let some = |g: &mut Gen| g.chance(60).then(|| g.pick(&["", "p", "urn:x"]).to_string());
                        let scope = g.chance(50).then(|| vec![(g.pick(&["", "p"]).to_string(), g.pick(&["u", "v"]).to_string())]);
                        n.ns = Some(Box::new(Ns { prefix: some(g), ns: some(g), scope }));
                    }
                    spaces(g, &mut n.kids);
                }
            }
            spaces(g, &mut m);
        }
        let mut m2 = m.clone();
        change(g, &mut m2, xml);
        let key = format!("{} {m:?} and {m2:?}", what);
        crate::util::current_input(&key);
        let (a, b): (Vec<N>, Vec<N>) = (from_ms(&m), from_ms(&m2));
        let equal = compare(&a, &b, &key)?;
        // the nodes among each other
        let all: Vec<&N> = a.iter().flat_map(Node::descendants).chain(b.iter().flat_map(Node::descendants)).collect();
        let models: Vec<M> = all.iter().map(|n| n.m()).collect();
        for _ in 0..20.min(all.len()) {
            let (i, j) = (g.below(all.len()), g.below(all.len()));
            let want = models[i] == models[j];
            ensure!((all[i] == all[j]) == want, key, "compared as {}\n   {:?}\n   {:?}", !want, models[i], models[j]);
        }
        // clones
        let truth = ms(&a);
        let c = a.clone();
        ensure!(compare(&a, &c, &key)?, key, "clone");
        let soup = soup_of(a);
        let soup2 = soup.clone();
        drop(soup);
        let all = |s: &Soup<N>| -> Vec<M> { s.iter().map(|i| i.m()).collect() };
        let want: Vec<M> = walk_all(&truth).into_iter().cloned().collect();
        ensure!(all(&soup2) == want, key, "the clone of the document has {:?}", all(&soup2));
        let top: Vec<M> = soup2.strict().all().map(|i| i.m()).collect();
        ensure!(top == truth, key, "the clone of the document has at top level {top:?}");
        ensure!(ms(&c) == truth, key, "the clone is {:?}", ms(&c));
        // one node made a copy of another
        let mut b = b;
        for (x, y) in b.iter_mut().zip(&c) {
            x.clone_from(y);
        }
        let n = b.len().min(c.len());
        ensure!(compare(&b[..n], &c[..n], &key)?, key, "clone_from gives {:?}", ms(&b[..n]));
        ensure!(ms(&c) == truth, key, "the copied nodes are now {:?}", ms(&c));
        let mut soup3 = soup_of(b);
        soup3.clone_from(&soup2);
        ensure!(all(&soup3) == want, key, "clone_from of the document gives {:?}", all(&soup3));
        ok(key, want.len() > 1, vec![what, if equal { "equal" } else { "different" }])
    }
    match g.below(4) {
        0 => f::<Strict>(g, "strict"),
        1 => f::<Lenient>(g, "lenient"),
        2 => f::<HTMLNode<String>>(g, "html of String"),
        _ => f::<XMLNode>(g, "xml"),
    }
}

/// Two spellings give equal nodes; spellings of different trees different ones
fn c29_spellings(g: &mut Gen) -> R {
    let change_it = g.chance(50);
    match g.below(3) {
        0 => {
            let (m, _) = gen::forest(&mut g.sub(), gen::HTML);
            let (a, mut b) = (ser::html(g, &m), ser::html(g, &m));
            if change_it {
                let i = boundary(g, &b);
                b.insert_str(i, &token_soup(g, 1));
            }
            let key = format!("{a:?} and {b:?}");
            crate::util::current_input(&key);
            let moved = a.clone();
            let (Ok(x), Ok(y), Ok(z)) = (StrictHTMLParser::parse(&a), StrictHTMLParser::parse(&b), StrictHTMLParser::parse(&moved)) else {
                return ok(key, false, vec!["not parsed"]);
            };
            let equal = compare(&x, &y, &key)?;
            ensure!(compare(&x, &z, &key)?, key, "the same text twice is not equal");
            // another text type altogether is another type: compare by model only
            ok(key, x.len() + y.len() > 1, vec!["strict", if equal { "equal" } else { "different" }])
        }
        1 => {
            let a = any_html(g);
            let mut b = a.clone();
            if change_it {
                let i = boundary(g, &b);
                b.insert_str(i, &token_soup(g, 1));
            }
            let key = format!("{a:?} and {b:?}");
            crate::util::current_input(&key);
            let (Ok(x), Ok(y)) = (LenientHTMLParser::parse(a.as_str()), LenientHTMLParser::parse(b.as_str()));
            let equal = compare(&x, &y, &key)?;
            ok(key, true, vec!["lenient", if equal { "equal" } else { "different" }])
        }
        _ => {
            let (m, _) = gen::xml_root(&mut g.sub(), 20);
            let (a, mut b) = (ser::xml(g, std::slice::from_ref(&m), &ser::no_decls), ser::xml(g, &[m], &ser::no_decls));
            if change_it {
                let i = boundary(g, &b);
                b.insert_str(i, g.pick(&["x", " ", "<x/>", "<!--c-->", " x=''", "1", " xmlns='u'", " xmlns:p='u'", "<?t?>"]));
            }
            let key = format!("{a:?} and {b:?}");
            crate::util::current_input(&key);
            let (Ok(x), Ok(y)) = (XMLParser::parse(a.as_bytes()), XMLParser::parse(b.as_bytes())) else {
                return ok(key, false, vec!["not parsed"]);
            };
            let equal = compare(&x, &y, &key)?;
            ok(key, true, vec!["xml", if equal { "equal" } else { "different" }])
        }
    }
}

// ---- C30 ----

/// A string of a user's own
struct Own(String);
impl AsRef<str> for Own {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

/// Whatever the parser gives, behind another one
struct Behind<P>(std::marker::PhantomData<P>);
impl<P: Parser> Parser for Behind<P> {
    type Input = P::Input;
    type Node = P::Node;
    type Error = P::Error;
    fn parse(i: P::Input) -> Result<Vec<P::Node>, P::Error> {
        P::parse(i)
    }
}

/// Top level and all nodes of a document
fn shown<N: Node + ToM>(s: &Soup<N>) -> (Vec<M>, Vec<M>) {
    (s.strict().all().map(|i| i.m()).collect(), s.iter().map(|i| i.m()).collect())
}

fn c30_strict(g: &mut Gen) -> R {
    let (m, _) = gen::forest(&mut g.sub(), gen::HTML);
    let mut s = ser::html(g, &m);
    for _ in 0..g.below(3) {
        let i = boundary(g, &s);
        let t = token_soup(g, 2);
        s.insert_str(i, &t);
    }
    strict_ways(s)
}

fn strict_ways(s: String) -> R {
    strict_ways_of(&s)
}

fn strict_ways_of(s: &str) -> R {
    crate::util::current_input(s);
    let want = StrictHTMLParser::parse(s);
    let ways = [
        ("Soup::html_strict", Soup::html_strict(s)),
        ("Soup::new::<StrictHTMLParser>", Soup::new::<StrictHTMLParser>(s)),
        ("a parser that calls StrictHTMLParser", Soup::new::<Behind<StrictHTMLParser>>(s)),
    ];
    for (way, got) in ways {
        match (&want, got) {
            (Ok(nodes), Ok(soup)) => {
                let top = ms(nodes);
                let (a, b) = shown(&soup);
                ensure!(a == top, s, "{way} has at top level {a:?}, StrictHTMLParser gives {top:?}");
                let all: Vec<M> = walk_all(&top).into_iter().cloned().collect();
                ensure!(b == all, s, "{way} has {b:?}, StrictHTMLParser gives {top:?}");
            }
            (Err(a), Err(b)) => ensure!(*a == b, s, "{way} gives the error {b:?}, StrictHTMLParser {a:?}"),
            (a, b) => return fail(s, format!("StrictHTMLParser accepts: {}, {way}: {}", a.is_ok(), b.is_ok())),
        }
    }
    let (nt, l) = want.map_or((false, "rejected"), |n| (!n.is_empty(), "accepted"));
    ok(s.into(), nt, vec!["strict", l])
}

fn c30_lenient(g: &mut Gen) -> R {
    lenient_ways(any_html(g))
}

#[allow(clippy::redundant_clone)]
fn lenient_ways(s: String) -> R {
    crate::util::current_input(&s);
    let Ok(want) = LenientHTMLParser::parse(s.as_str());
    let top = ms(&want);
    let all: Vec<M> = walk_all(&top).into_iter().cloned().collect();
    macro_rules! way {
        ($name:expr, $x:expr) => {
            let (a, b) = shown(&$x);
            ensure!(a == top, s, "{} has at top level {a:?}, LenientHTMLParser gives {top:?}", $name);
            ensure!(b == all, s, "{} has {b:?}, LenientHTMLParser gives {top:?}", $name);
        };
    }
    way!("Soup::html(&str)", Soup::html(s.as_str()));
    way!("Soup::html(String)", Soup::html(s.clone()));
    way!("Soup::html(&String)", Soup::html(&s));
    way!("Soup::html(Cow)", Soup::html(Cow::Borrowed(s.as_str())));
    way!("Soup::html(owned Cow)", Soup::html(Cow::<str>::Owned(s.clone())));
    way!("Soup::html(Box<str>)", Soup::html(s.clone().into_boxed_str()));
    way!("Soup::html(Arc<str>)", Soup::html(std::sync::Arc::<str>::from(s.as_str())));
    way!("Soup::html(a user's type)", Soup::html(Own(s.clone())));
    way!("Soup::new::<LenientHTMLParser<_>>", Soup::new::<LenientHTMLParser<&str>>(&s).unwrap());
    way!("a parser that calls LenientHTMLParser", Soup::new::<Behind<LenientHTMLParser<Own>>>(Own(s.clone())).unwrap());
    ok(s, all.len() > 3, vec!["lenient"])
}

fn c30_xml(g: &mut Gen) -> R {
    let (m, _) = gen::xml_root(&mut g.sub(), 20);
    let mut s = ser::xml(g, &[m], &ser::no_decls);
    for _ in 0..g.below(3) {
        let i = boundary(g, &s);
        s.insert_str(i, g.pick(&["x", " ", "<x/>", "<!--c-->", " x=''", " xmlns='u'", " xmlns:p='u'", "<?t?>", "<", "</a>", "&x;", "]]>", "\u{feff}", "\0"]));
    }
    xml_ways(s)
}

fn xml_ways(s: String) -> R {
    crate::util::current_input(&s);
    let want = XMLParser::parse(s.as_bytes()).map(|n| ms(&n)).map_err(|e| e.to_string());
    let all: Vec<M> = want.iter().flatten().flat_map(|m| walk_all(std::slice::from_ref(m))).cloned().collect();
    macro_rules! way {
        ($name:expr, $x:expr) => {
            match (&want, $x) {
                (Ok(top), Ok(soup)) => {
                    let (a, b) = shown(&soup);
                    ensure!(a == *top, s, "{} has at top level {a:?}, XMLParser gives {top:?}", $name);
                    ensure!(b == all, s, "{} has {b:?}, XMLParser gives {top:?}", $name);
                }
                (Err(a), Err(b)) => {
                    let b = b.to_string();
                    // readers of other kinds may be told of otherwise
                    let same_reader = !$name.contains("Soup::xml(") || $name.contains("&[u8]");
                    ensure!(*a == b || !same_reader, s, "{} gives the error {b:?}, XMLParser {a:?}", $name);
                }
                (a, b) => return fail(s.clone(), format!("XMLParser accepts: {}, {}: {}", a.is_ok(), $name, b.is_ok())),
            }
        };
    }
    way!("Soup::xml(&[u8])", Soup::xml(s.as_bytes()));
    way!("Soup::xml(Cursor)", Soup::xml(std::io::Cursor::new(s.clone())));
    way!("Soup::xml(&mut Cursor)", Soup::xml(&mut std::io::Cursor::new(s.as_bytes())));
    way!("Soup::xml(BufReader)", Soup::xml(std::io::BufReader::with_capacity(7, s.as_bytes())));
    way!("Soup::xml(Box<dyn Read>)", Soup::xml(Box::new(s.as_bytes()) as Box<dyn Read>));
    let half = s.len() / 2;
    way!("Soup::xml(Chain)", Soup::xml(s.as_bytes()[..half].chain(&s.as_bytes()[half..])));
    way!("Soup::xml(Take)", Soup::xml(s.as_bytes().chain(&b"<x>"[..]).take(s.len() as u64)));
    way!("Soup::xml(VecDeque)", Soup::xml(s.bytes().collect::<std::collections::VecDeque<u8>>()));
    way!("Soup::new::<XMLParser<_>>", Soup::new::<XMLParser<&[u8]>>(s.as_bytes()));
    way!("a parser that calls XMLParser", Soup::new::<Behind<XMLParser<&[u8]>>>(s.as_bytes()));
    let (nt, l) = want.map_or((false, "rejected"), |_| (all.len() > 1, "accepted"));
    ok(s, nt, vec!["xml", l])
}

/// Every character at the edges of a document
const EDGES: &[&str] = &["@", "@<a></a>", "<a></a>@", "@@<a>@</a>@@", "<a b='@'>@</a>", "<a>x</a>\n@", "@\n<a>x</a>"];

fn c30_chars(i: u64) -> R {
    let s = gen::with_char(i / 3, EDGES);
    match i % 3 {
        0 => strict_ways(s),
        1 => lenient_ways(s),
        _ => xml_ways(s),
    }
}

/// Documents of megabytes
fn c30_large(i: u64) -> R {
    let (what, m) = gen::very_large(i / 3);
    if what.starts_with("attributes") && i % 3 == 1 {
        // html5ever compares each attribute with each other one
        return ok(what, false, vec!["left out"]);
    }
    let m = [m];
    let r = match i % 3 {
        0 => strict_ways(ser::html(&mut Gen::new(&[]), &m)),
        1 => lenient_ways(ser::html(&mut Gen::new(&[]), &m)),
        _ => xml_ways(ser::xml(&mut Gen::new(&[]), &m, &ser::no_decls)),
    };
    match r {
        Ok(_) => ok(format!("{}: {what}", ["strict", "lenient", "xml"][i as usize % 3]), true, vec!["megabytes"]),
        Err(f) => fail(what, f.msg.chars().take(300).collect::<String>()),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            rule: "Random forests of the crate's node types (XML with prefixes, namespaces and bindings) and copies of them changed in one place (a character, an attribute, the assignment of values, the kind, a child, a level): equality of nodes, either way, as of the models, for the forests and for pairs of nodes; clones and clone_from of nodes and documents; parsed documents in two spellings, changed or not. Non-trivial: two or more nodes.",
            parts: vec![
                Part { name: "changed", quick: 200_000, thorough: 8_000_000, tape: 600, f: c29_changed },
                Part { name: "spellings", quick: 60_000, thorough: 2_400_000, tape: 800, f: c29_spellings },
                Part { name: "huge", quick: 300, thorough: 12_000, tape: 400, f: |g| gen::huge(|| c29_changed(g)) },
            ],
            ..Prop::new()
        },
        Prop {
            id: "C30",
            rule: "Random documents of each format, some with faults, given to every way in: the named function with string types and readers of many kinds, Soup::new with the parser, a user's parser that calls it; nodes, top level and errors as of the parser itself; every character of the BMP and 30,000 others (thorough: all) at the edges of documents; documents of megabytes. Non-trivial: accepted with content.",
            parts: vec![
                Part { name: "strict", quick: 60_000, thorough: 2_400_000, tape: 600, f: c30_strict },
                Part { name: "lenient", quick: 20_000, thorough: 800_000, tape: 600, f: c30_lenient },
                Part { name: "xml", quick: 40_000, thorough: 1_600_000, tape: 600, f: c30_xml },
                Part { name: "huge", quick: 300, thorough: 12_000, tape: 400, f: |g| gen::huge(|| match g.below(3) {
                    0 => c30_strict(g),
                    1 => c30_lenient(g),
                    _ => c30_xml(g),
                }) },
            ],
            enums: vec![Enumeration { name: "characters", count: |t| 3 * gen::char_count(t) * EDGES.len() as u64, f: c30_chars }, Enumeration { name: "megabytes", count: |t| 3 * gen::very_large_count(t), f: c30_large }],
            ..Prop::new()
        },
    ]
}
