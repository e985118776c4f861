//! The model of a document tree, and its relation to the node types of the crate.
//! Conversions match on the public enums; they do not use the `Node` trait.
use soupy::parser::{HTMLNode, XMLElement, XMLNode};
use soupy::{Node, Soup};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Elem,
    Void,
    Raw,
    Text,
    Comment,
    Doctype,
    CData,
    Pi,
    /// A user-defined node: any combination of name, text, attributes, children
    Mixed,
}

/// What XML elements additionally carry
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Ns {
    pub prefix: Option<String>,
    pub ns: Option<String>,
    pub scope: Option<Vec<(String, String)>>,
}

/// A node. `data` is content that is not "text": of comments, raw elements, and so on.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct M {
    pub kind: K,
    pub name: Option<String>,
    /// sorted by name
    pub attrs: Option<Vec<(String, String)>>,
    pub text: Option<String>,
    pub data: Option<String>,
    pub target: Option<String>,
    pub kids: Vec<M>,
    pub ns: Option<Box<Ns>>,
}

impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.kind)?;
        if let Some(n) = &self.name {
            write!(f, " {n:?}")?;
        }
        if let Some(n) = &self.target {
            write!(f, " target={n:?}")?;
        }
        if let Some(a) = &self.attrs {
            if !a.is_empty() || self.kind == K::Mixed {
                write!(f, " @")?;
                f.debug_map().entries(a.iter().map(|(k, v)| (k, v))).finish()?;
            }
        }
        if let Some(n) = &self.text {
            write!(f, " {n:?}")?;
        }
        if let Some(n) = &self.data {
            write!(f, " {n:?}")?;
        }
        if let Some(n) = &self.ns {
            write!(f, " {n:?}")?;
        }
        if !self.kids.is_empty() {
            write!(f, " ")?;
            f.debug_list().entries(self.kids.iter()).finish()?;
        }
        Ok(())
    }
}

pub fn sorted(mut a: Vec<(String, String)>) -> Vec<(String, String)> {
    a.sort();
    a
}

impl M {
    fn bare(kind: K) -> M {
        M { kind, name: None, attrs: None, text: None, data: None, target: None, kids: vec![], ns: None }
    }
    pub fn elem(name: impl Into<String>, attrs: Vec<(String, String)>, kids: Vec<M>) -> M {
        M { name: Some(name.into()), attrs: Some(sorted(attrs)), kids, ..M::bare(K::Elem) }
    }
    pub fn void(name: impl Into<String>, attrs: Vec<(String, String)>) -> M {
        M { name: Some(name.into()), attrs: Some(sorted(attrs)), ..M::bare(K::Void) }
    }
    pub fn raw(name: impl Into<String>, attrs: Vec<(String, String)>, content: impl Into<String>) -> M {
        M { name: Some(name.into()), attrs: Some(sorted(attrs)), data: Some(content.into()), ..M::bare(K::Raw) }
    }
    pub fn text(t: impl Into<String>) -> M {
        M { text: Some(t.into()), ..M::bare(K::Text) }
    }
    pub fn comment(t: impl Into<String>) -> M {
        M { data: Some(t.into()), ..M::bare(K::Comment) }
    }
    pub fn doctype(t: impl Into<String>) -> M {
        M { data: Some(t.into()), ..M::bare(K::Doctype) }
    }
    pub fn cdata(t: impl Into<String>) -> M {
        M { data: Some(t.into()), ..M::bare(K::CData) }
    }
    pub fn pi(target: impl Into<String>, data: Option<String>) -> M {
        M { target: Some(target.into()), data, ..M::bare(K::Pi) }
    }
    pub fn is_el(&self) -> bool {
        matches!(self.kind, K::Elem | K::Void | K::Raw)
    }
    pub fn attr(&self, name: &str) -> Option<&String> {
        self.attrs.as_ref()?.iter().find(|a| a.0 == name).map(|a| &a.1)
    }
    /// Adds an attribute unless there is one of that name
    pub fn add_attr(&mut self, name: &str, value: String) {
        if let Some(a) = &mut self.attrs {
            if a.iter().all(|x| x.0 != name) {
                a.push((name.into(), value));
                a.sort();
            }
        }
    }
    /// The node and everything below it, in document order
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a M>) {
        // iterative: models can be deep
        let mut stack = vec![self];
        while let Some(n) = stack.pop() {
            out.push(n);
            stack.extend(n.kids.iter().rev());
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.kids.iter().map(M::depth).max().unwrap_or(0)
    }
    pub fn without_ns(mut self) -> M {
        self.ns = None;
        self.kids = self.kids.into_iter().map(M::without_ns).collect();
        self
    }
}

pub fn walk_all(top: &[M]) -> Vec<&M> {
    let mut out = vec![];
    for n in top {
        n.walk(&mut out);
    }
    out
}

pub fn number_elements(top: &mut [M]) {
    fn go(n: &mut M, next: &mut usize) {
        if n.attrs.is_some() {
            *next += 1;
            let v = next.to_string();
            n.add_attr("n", v);
        }
        for k in &mut n.kids {
            go(k, next);
        }
    }
    let mut next = 0;
    for n in top {
        go(n, &mut next);
    }
}

// ---- text types ----

/// Strings that live for the whole run, each stored once.
pub fn intern(s: &str) -> (&'static str, u32) {
    static MAP: OnceLock<Mutex<HashMap<&'static str, u32>>> = OnceLock::new();
    let mut map = MAP.get_or_init(Default::default).lock().unwrap();
    if let Some((k, v)) = map.get_key_value(s) {
        return (k, *v);
    }
    let id = map.len() as u32;
    let k: &'static str = Box::leak(s.to_string().into_boxed_str());
    map.insert(k, id);
    (k, id)
}

/// A user's text type: an interned symbol, ordered by its number.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Sym {
    id: u32,
    s: &'static str,
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.s.fmt(f)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.s.fmt(f)
    }
}
impl AsRef<str> for Sym {
    fn as_ref(&self) -> &str {
        self.s
    }
}
impl From<&str> for Sym {
    fn from(s: &str) -> Self {
        let (s, id) = intern(s);
        Sym { id, s }
    }
}

/// A user's text type with the reverse of the usual order.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rev(pub Box<str>);

impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl fmt::Display for Rev {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl AsRef<str> for Rev {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl From<&str> for Rev {
    fn from(s: &str) -> Self {
        Rev(s.into())
    }
}

// ---- user-defined nodes ----

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MyNode<T: Ord> {
    pub name: Option<T>,
    pub text: Option<T>,
    pub attrs: Option<BTreeMap<T, T>>,
    pub kids: Vec<MyNode<T>>,
}

impl<T: Ord> Node for MyNode<T> {
    type Text = T;
    fn name(&self) -> Option<&T> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&T> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<T, T>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}

/// A user-defined parser that is given the nodes.
pub struct Given<N>(std::marker::PhantomData<N>);

impl<N: Node> soupy::parser::Parser for Given<N> {
    type Input = Vec<N>;
    type Node = N;
    type Error = std::convert::Infallible;
    fn parse(input: Vec<N>) -> Result<Vec<N>, Self::Error> {
        Ok(input)
    }
}

pub fn soup_of<N: Node>(nodes: Vec<N>) -> Soup<N> {
    match Soup::new::<Given<N>>(nodes) {
        Ok(s) => s,
        Err(e) => match e {},
    }
}

// ---- conversions ----

pub trait ToM {
    fn m(&self) -> M;
}

pub trait FromM: Sized {
    fn from_m(m: &M) -> Self;
}

pub fn ms<N: ToM>(nodes: &[N]) -> Vec<M> {
    nodes.iter().map(ToM::m).collect()
}

pub fn from_ms<N: FromM>(m: &[M]) -> Vec<N> {
    m.iter().map(N::from_m).collect()
}

fn map_out<S: AsRef<str>>(a: &BTreeMap<S, S>) -> Vec<(String, String)> {
    sorted(a.iter().map(|(k, v)| (k.as_ref().to_string(), v.as_ref().to_string())).collect())
}

impl<S: AsRef<str>> ToM for HTMLNode<S> {
    fn m(&self) -> M {
        match self {
            HTMLNode::Comment(c) => M::comment(c.as_ref()),
            HTMLNode::Doctype(c) => M::doctype(c.as_ref()),
            HTMLNode::Text(c) => M::text(c.as_ref()),
            HTMLNode::Void { name, attrs } => M::void(name.as_ref(), map_out(attrs)),
            HTMLNode::RawElement { name, attrs, content } => M::raw(name.as_ref(), map_out(attrs), content.as_ref()),
            HTMLNode::Element { name, attrs, children } => M::elem(name.as_ref(), map_out(attrs), ms(children)),
        }
    }
}

impl ToM for XMLNode {
    fn m(&self) -> M {
        match self {
            XMLNode::Comment(c) => M::comment(c),
            XMLNode::CData(c) => M::cdata(c),
            XMLNode::Text(c) => M::text(c),
            XMLNode::ProcessingInstruction(t, d) => M::pi(t, d.clone()),
            XMLNode::Element(e) => {
                let mut m = M::elem(&e.name, e.attributes.clone().into_iter().collect(), ms(&e.children));
                m.ns = Some(Box::new(Ns {
                    prefix: e.prefix.clone(),
                    ns: e.namespace.clone(),
                    scope: e.namespaces.as_ref().map(|n| n.0.clone().into_iter().collect()),
                }));
                m
            }
        }
    }
}

impl<T: Ord + AsRef<str>> ToM for MyNode<T> {
    fn m(&self) -> M {
        let s = |x: &Option<T>| x.as_ref().map(|x| x.as_ref().to_string());
        M {
            name: s(&self.name),
            text: s(&self.text),
            attrs: self.attrs.as_ref().map(map_out),
            kids: ms(&self.kids),
            ..M::bare(K::Mixed)
        }
    }
}

fn map_in<S: Ord>(a: &Option<Vec<(String, String)>>, f: impl Fn(&str) -> S) -> BTreeMap<S, S> {
    a.iter().flatten().map(|(k, v)| (f(k), f(v))).collect()
}

fn html_from<S: Ord>(m: &M, f: &impl Fn(&str) -> S) -> HTMLNode<S> {
    let data = || f(m.data.as_deref().unwrap_or(""));
    let name = || f(m.name.as_deref().unwrap_or(""));
    match m.kind {
        K::Text => HTMLNode::Text(f(m.text.as_deref().unwrap_or(""))),
        K::Comment | K::CData | K::Pi => HTMLNode::Comment(data()),
        K::Doctype => HTMLNode::Doctype(data()),
        K::Void => HTMLNode::Void { name: name(), attrs: map_in(&m.attrs, f) },
        K::Raw => HTMLNode::RawElement { name: name(), attrs: map_in(&m.attrs, f), content: data() },
        K::Elem | K::Mixed => HTMLNode::Element {
            name: name(),
            attrs: map_in(&m.attrs, f),
            children: m.kids.iter().map(|k| html_from(k, f)).collect(),
        },
    }
}

pub type Strict = HTMLNode<Cow<'static, str>>;
pub type Lenient = HTMLNode<scraper::StrTendril>;

impl FromM for Strict {
    fn from_m(m: &M) -> Self {
        // both owned and borrowed texts occur
        html_from(m, &|s: &str| if s.len() % 2 == 0 { Cow::Owned(s.to_string()) } else { Cow::Borrowed(intern(s).0) })
    }
}

impl FromM for HTMLNode<String> {
    fn from_m(m: &M) -> Self {
        html_from(m, &str::to_string)
    }
}

impl FromM for Lenient {
    fn from_m(m: &M) -> Self {
        html_from(m, &|s: &str| s.into())
    }
}

impl FromM for XMLNode {
    fn from_m(m: &M) -> Self {
        let data = || m.data.clone().unwrap_or_default();
        match m.kind {
            K::Text => XMLNode::Text(m.text.clone().unwrap_or_default()),
            K::Comment | K::Doctype => match m.data.as_ref().map_or(0, |d| d.len()) % 4 {
                // all that has no name and no text, from models of HTML too
                1 => XMLNode::CData(data()),
                2 => XMLNode::ProcessingInstruction(data(), None),
                3 if m.kind == K::Doctype => XMLNode::ProcessingInstruction("t".into(), Some(data())),
                _ => XMLNode::Comment(data()),
            },
            K::CData => XMLNode::CData(data()),
            K::Pi => XMLNode::ProcessingInstruction(m.target.clone().unwrap_or_default(), m.data.clone()),
            K::Elem | K::Void | K::Raw | K::Mixed => XMLNode::Element(XMLElement {
                name: m.name.clone().unwrap_or_default(),
                attributes: map_in(&m.attrs, str::to_string),
                children: m.kids.iter().map(XMLNode::from_m).collect(),
                prefix: m.ns.as_ref().and_then(|n| n.prefix.clone()),
                namespace: m.ns.as_ref().and_then(|n| n.ns.clone()),
                namespaces: m.ns.as_ref().and_then(|n| n.scope.clone()).map(|s| xmltree::Namespace(s.into_iter().collect())),
            }),
        }
    }
}

impl<T: Ord + for<'a> From<&'a str>> FromM for MyNode<T> {
    fn from_m(m: &M) -> Self {
        MyNode {
            name: m.name.as_deref().map(T::from),
            text: m.text.as_deref().map(T::from),
            attrs: m.attrs.is_some().then(|| map_in(&m.attrs, |s| T::from(s))),
            kids: m.kids.iter().map(Self::from_m).collect(),
        }
    }
}
