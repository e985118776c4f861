//! Prints, for every document on stdin, what each entry point that is compiled in
//! makes of it: fields "name:value", separated by tabs.
//! A record: three lines of lengths and the texts: document, word, other word.
use soupy::{parser::Parser, Node, Pattern, Queryable, Soup};
use std::collections::BTreeMap;
use std::fmt::{Debug, Write};
use std::io::Read;

#[derive(Clone, Debug, PartialEq)]
struct User {
    name: Option<String>,
    text: Option<String>,
    attrs: Option<BTreeMap<String, String>>,
    kids: Vec<User>,
}

impl Node for User {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&String> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[User] {
        &self.kids
    }
}

/// A user-defined format: words; "(" opens a node, ")" closes it, k=v is an
/// attribute of the open node, anything else a text.
struct Words;

impl Parser for Words {
    type Input = String;
    type Node = User;
    type Error = usize;
    fn parse(s: String) -> Result<Vec<User>, usize> {
        let new = |name: Option<&str>, text: Option<&str>| User {
            name: name.map(Into::into),
            text: text.map(Into::into),
            attrs: name.map(|_| BTreeMap::new()),
            kids: vec![],
        };
        let mut stack = vec![new(None, None)];
        for (i, w) in s.split([' ', '<', '>']).filter(|w| !w.is_empty()).enumerate() {
            if let Some(n) = w.strip_prefix('/') {
                if stack.len() < 2 {
                    if n.len() > 3 {
                        return Err(i);
                    }
                    continue;
                }
                let done = stack.pop().unwrap();
                stack.last_mut().unwrap().kids.push(done);
            } else if let Some((k, v)) = w.split_once('=') {
                if let Some(a) = &mut stack.last_mut().unwrap().attrs {
                    a.insert(k.into(), v.into());
                }
            } else if w.len() < 6 {
                stack.push(new(Some(w), None));
            } else {
                stack.last_mut().unwrap().kids.push(new(None, Some(w)));
            }
        }
        while stack.len() > 1 {
            let done = stack.pop().unwrap();
            stack.last_mut().unwrap().kids.push(done);
        }
        Ok(stack.pop().unwrap().kids)
    }
}

/// A pattern of the user's own
struct Longer(usize);
impl<S: AsRef<str>> Pattern<S> for Longer {
    fn matches(&self, haystack: &S) -> bool {
        haystack.as_ref().chars().count() > self.0
    }
}

/// Filters used directly, user-defined patterns and navigation, for every type of text
fn direct<N>(what: &str, soup: &Soup<N>, a: &'static str, b: &'static str, out: &mut String)
where
    N: Node + Debug + Clone,
    N::Text: Clone + Debug + Ord + AsRef<str> + From<&'static str>,
{
    use soupy::filter::{And, Attr, Filter, Or, Tag};
    let show = |f: &dyn Fn(&N) -> bool| -> Vec<usize> { soup.iter().enumerate().filter(|(_, n)| f(n)).map(|x| x.0).collect() };
    let or = Or(Tag { tag: a }, Attr { name: b, value: true });
    let and = And(Or(Tag { tag: a }, Tag { tag: b }), Attr { name: true, value: Longer(1) });
    let _ = write!(out, "\t{what}-or:{:?}", show(&|n| or.matches(n)));
    let _ = write!(out, "\t{what}-and:{:?}", show(&|n| and.matches(n)));
    let _ = write!(out, "\t{what}-longer:{:?}", soup.tag(Longer(a.len())).all().count());
    let _ = write!(out, "\t{what}-longer2:{:?}", soup.attr(Longer(b.len()), Longer(1)).strict().all().map(|n| n.name().cloned()).collect::<Vec<_>>());
    let _ = write!(out, "\t{what}-false:{:?}", (soup.tag(false).all().count(), soup.attr(a, false).all().count(), soup.attr_name(false).all().count()));
    let _ = write!(out, "\t{what}-first:{:?}", soup.tag(a).attr_name(b).first().map(|n| n.get(b).cloned()));
    let _ = write!(out, "\t{what}-down:{:?}", soup.iter().take(30).map(|n| n.descendants().count()).collect::<Vec<_>>());
    let copy = soup.clone();
    let _ = write!(out, "\t{what}-copy:{:?}", copy.iter().map(|n| n.children().len()).collect::<Vec<_>>());
}

/// Owned patterns: for texts that can be made from any string
fn owned<N>(what: &str, soup: &Soup<N>, a: &str, b: &str, out: &mut String)
where
    N: Node,
    N::Text: Clone + Debug + Ord + AsRef<str> + for<'a> From<&'a str>,
{
    let (sa, sb) = (a.to_string(), b.to_string());
    let (ca, cb): (std::borrow::Cow<str>, std::borrow::Cow<str>) = (a.into(), sb.clone().into());
    macro_rules! q {
        ($name:literal, $e:expr) => {
            let _ = write!(out, concat!("\t{}-", $name, ":{:?}"), what, $e.all().map(|n| (n.name().cloned(), n.attrs().cloned())).collect::<Vec<_>>());
        };
    }
    q!("string-tag", soup.tag(sa.clone()));
    q!("string-attr", soup.attr(sa.clone(), sb.clone()));
    q!("string-name", soup.attr_name(sb.clone()));
    q!("string-value", soup.attr_value(sb.clone()));
    q!("string-class", soup.class(sb.clone()));
    q!("cow-tag", soup.tag(ca.clone()).attr_name(true));
    q!("cow-attr", soup.attr(ca.clone(), cb.clone()));
    q!("cow-name", soup.attr_name(cb.clone()).strict());
    q!("cow-value", soup.attr_value(ca.clone()));
    q!("cow-class", soup.class(cb.clone()));
}

#[cfg(feature = "regex")]
fn with_regex<N>(what: &str, soup: &Soup<N>, a: &str, b: &str, out: &mut String)
where
    N: Node + Debug + Clone,
    N::Text: Debug + Ord + AsRef<str> + From<&'static str>,
{
    for (i, r) in [format!("^{}", regex::escape(a)), regex::escape(b), "[a-m]".to_string()].iter().enumerate() {
        let r = regex::Regex::new(r).unwrap();
        let _ = write!(out, "\t{what}-regex-tag{i}:{:?}", soup.tag(r.clone()).all().map(|n| (*n).clone()).collect::<Vec<_>>());
        let _ = write!(out, "\t{what}-regex-attr{i}:{:?}", soup.attr_value(r).all().map(|n| (*n).clone()).collect::<Vec<_>>());
    }
}
#[cfg(not(feature = "regex"))]
fn with_regex<N>(_: &str, _: &Soup<N>, _: &str, _: &str, _: &mut String) {}

fn queries<N>(what: &str, soup: &Soup<N>, a: &str, b: &str, out: &mut String)
where
    N: Node + Debug + Clone,
    N::Text: Clone + Debug + std::fmt::Display + Ord + AsRef<str> + From<&'static str>,
    &'static str: Pattern<N::Text>,
    bool: Pattern<N::Text>,
{
    let _ = write!(out, "\t{what}-doc:{soup:?}");
    let show = |q: Vec<N>| format!("{q:?}");
    macro_rules! q {
        ($name:literal, $e:expr) => {
            let _ = write!(out, concat!("\t{}-", $name, ":{}"), what, show($e.all().map(|n| (*n).clone()).collect()));
        };
    }
    let a: &'static str = Box::leak(a.to_string().into_boxed_str());
    let b: &'static str = Box::leak(b.to_string().into_boxed_str());
    q!("tag", soup.tag(a));
    q!("strict", soup.strict().tag(a));
    q!("any", soup.tag(true).attr_name(true));
    q!("attr", soup.attr(a, b));
    q!("name", soup.attr_name(b).recursive());
    q!("value", soup.attr_value(b));
    q!("class", soup.class(b).tag(true));
    let texts: Vec<String> = soup.iter().take(30).map(|n| n.all_text()).collect();
    let _ = write!(out, "\t{what}-texts:{texts:?}");
    let kids: Vec<String> = soup.iter().take(12).map(|n| show(n.query().iter().map(|n| (*n).clone()).collect())).collect();
    let _ = write!(out, "\t{what}-kids:{kids:?}");
    direct(what, soup, a, b, out);
    with_regex(what, soup, a, b, out);
}

fn record(doc: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    #[cfg(feature = "strict")]
    {
        let doc: &'static str = Box::leak(doc.to_string().into_boxed_str());
        match Soup::html_strict(doc) {
            Ok(s) => queries("strict", &s, a, b, &mut out),
            Err(e) => {
                let _ = write!(out, "\tstrict-doc:{e:?}");
            }
        }
    }
    #[cfg(feature = "lenient")]
    {
        let s = Soup::html(doc);
        queries("lenient", &s, a, b, &mut out);
        owned("lenient", &s, a, b, &mut out);
    }
    #[cfg(feature = "xml")]
    match Soup::xml(doc.as_bytes()) {
        Ok(s) => xml(&s, a, b, &mut out),
        Err(e) => {
            let _ = write!(out, "\txml-doc:{e:?}");
        }
    }
    match Soup::new::<Words>(doc.to_string()) {
        Ok(s) => {
            queries("user", &s, a, b, &mut out);
            owned("user", &s, a, b, &mut out);
        }
        Err(e) => {
            let _ = write!(out, "\tuser-doc:{e:?}");
        }
    }
    out
}

#[cfg(feature = "xml")]
fn xml(s: &Soup<soupy::parser::XMLNode>, a: &str, b: &str, out: &mut String) {
    fn one(n: &soupy::parser::XMLNode, out: &mut String) {
        match n {
            soupy::parser::XMLNode::Element(e) => {
                let _ = write!(out, "({:?} {:?} {:?} {:?} {:?}", e.name, e.prefix, e.namespace, e.attributes, e.namespaces);
                for k in &e.children {
                    one(k, out);
                }
                out.push(')');
            }
            o => {
                let _ = write!(out, "{o:?}");
            }
        }
    }
    let mut show = |what: &str, nodes: Vec<soupy::parser::XMLNode>| {
        let _ = write!(out, "\txml-{what}:");
        for n in &nodes {
            one(n, out);
        }
    };
    let a: &'static str = Box::leak(a.to_string().into_boxed_str());
    let b: &'static str = Box::leak(b.to_string().into_boxed_str());
    show("doc", s.strict().all().map(|n| (*n).clone()).collect());
    show("tag", s.tag(a).all().map(|n| (*n).clone()).collect());
    show("strict", s.strict().tag(a).all().map(|n| (*n).clone()).collect());
    show("any", s.tag(true).attr_name(true).all().map(|n| (*n).clone()).collect());
    show("attr", s.attr(a, b).all().map(|n| (*n).clone()).collect());
    show("value", s.attr_value(b).all().map(|n| (*n).clone()).collect());
    show("class", s.class(b).all().map(|n| (*n).clone()).collect());
    #[cfg(feature = "regex")]
    {
        let r = regex::Regex::new(&regex::escape(a)).unwrap();
        show("regex", s.tag(r.clone()).all().map(|n| (*n).clone()).collect());
        show("regex2", s.attr_value(r).all().map(|n| (*n).clone()).collect());
    }
    let texts: Vec<String> = s.iter().take(30).map(|n| n.all_text()).collect();
    let _ = write!(out, "\txml-texts:{texts:?}");
    owned("xml", s, a, b, out);
    direct("xml", s, a, b, out);
}

fn main() {
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let mut rest = &input[..];
    while let Some((head, tail)) = rest.split_once('\n') {
        let n: Vec<usize> = head.split(' ').map(|x| x.parse().unwrap()).collect();
        let (doc, tail) = tail.split_at(n[0]);
        let (a, tail) = tail.split_at(n[1]);
        let (b, tail) = tail.split_at(n[2]);
        rest = tail;
        println!("{}", record(doc, a, b));
    }
}
