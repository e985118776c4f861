//! Queries as data: run against the crate, and evaluated on the model.
use crate::model::{intern, Lenient, MyNode, Rev, Strict, Sym, ToM, FromM, M};
use crate::tape::Gen;
use soupy::parser::XMLNode;
use soupy::query::{Query, QueryItem};
use soupy::{filter::Filter, Node, Pattern, Queryable, Soup};
use std::borrow::Cow;

/// A pattern. `matches` and `value` of the crate's kinds are those of the crate.
#[derive(Clone)]
pub enum Pat {
    Str(&'static str),
    String(String),
    Cow(Cow<'static, str>),
    Regex(regex::Regex),
    Bool(bool),
    // user-defined
    Prefix(String),
    NoCase(String),
    Longer(usize),
    /// offers its value for lookup
    Exact(String),
    /// one of these
    OneOf(Vec<String>),
}

impl std::fmt::Debug for Pat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Pat::Str(s) => write!(f, "{s:?}"),
            Pat::String(s) => write!(f, "String({s:?})"),
            Pat::Cow(s) => write!(f, "Cow({s:?})"),
            Pat::Regex(s) => write!(f, "/{s}/"),
            Pat::Bool(s) => write!(f, "{s:?}"),
            Pat::Prefix(s) => write!(f, "Prefix({s:?})"),
            Pat::NoCase(s) => write!(f, "NoCase({s:?})"),
            Pat::Longer(s) => write!(f, "Longer({s:?})"),
            Pat::Exact(s) => write!(f, "Exact({s:?})"),
            Pat::OneOf(s) => write!(f, "OneOf({s:?})"),
        }
    }
}

impl Pat {
    /// What the pattern means.
    pub fn means(&self, s: &str) -> bool {
        match self {
            Pat::Str(p) => *p == s,
            Pat::String(p) | Pat::Exact(p) => p == s,
            Pat::Cow(p) => p == s,
            Pat::Regex(r) => r.is_match(s),
            Pat::Bool(b) => *b,
            Pat::Prefix(p) => s.starts_with(p.as_str()),
            Pat::NoCase(p) => s.to_lowercase() == p.to_lowercase(),
            Pat::Longer(n) => s.len() > *n,
            Pat::OneOf(l) => l.iter().any(|p| p == s),
        }
    }
}

/// Text types, and which of the crate's patterns they can be used with.
pub trait TText: Ord + Clone + std::fmt::Debug + std::fmt::Display + AsRef<str> + From<&'static str> + 'static {
    fn string_matches(p: &String, h: &Self) -> bool;
    fn string_value(p: &String) -> Option<Self>;
    fn cow_matches(p: &Cow<'static, str>, h: &Self) -> bool;
    fn cow_value(p: &Cow<'static, str>) -> Option<Self>;
    /// `String` and `Cow` patterns work with this type
    const OWNED: bool;
}

macro_rules! ttext {
    ($($t:ty),*) => {$(
        impl TText for $t {
            fn string_matches(p: &String, h: &Self) -> bool { Pattern::<Self>::matches(p, h) }
            fn string_value(p: &String) -> Option<Self> { Pattern::<Self>::value(p) }
            fn cow_matches(p: &Cow<'static, str>, h: &Self) -> bool { Pattern::<Self>::matches(p, h) }
            fn cow_value(p: &Cow<'static, str>) -> Option<Self> { Pattern::<Self>::value(p) }
            const OWNED: bool = true;
        }
    )*};
}
ttext!(String, scraper::StrTendril, Sym, Rev);

impl TText for Cow<'static, str> {
    fn string_matches(p: &String, h: &Self) -> bool {
        Pattern::<Self>::matches(&intern(p).0, h)
    }
    fn string_value(p: &String) -> Option<Self> {
        Pattern::<Self>::value(&intern(p).0)
    }
    fn cow_matches(p: &Cow<'static, str>, h: &Self) -> bool {
        Pattern::<Self>::matches(&intern(p).0, h)
    }
    fn cow_value(p: &Cow<'static, str>) -> Option<Self> {
        Pattern::<Self>::value(&intern(p).0)
    }
    const OWNED: bool = false;
}

impl<S: TText> Pattern<S> for Pat {
    fn matches(&self, h: &S) -> bool {
        match self {
            Pat::Str(p) => p.matches(h),
            Pat::String(p) => S::string_matches(p, h),
            Pat::Cow(p) => S::cow_matches(p, h),
            Pat::Regex(r) => r.matches(h),
            Pat::Bool(b) => b.matches(h),
            _ => self.means(h.as_ref()),
        }
    }
    fn value(&self) -> Option<S> {
        match self {
            Pat::Str(p) => p.value(),
            Pat::String(p) => S::string_value(p),
            Pat::Cow(p) => S::cow_value(p),
            Pat::Regex(r) => r.value(),
            Pat::Bool(b) => b.value(),
            Pat::Exact(p) => Some(S::from(intern(p).0)),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Tag(Pat),
    Attr(Pat, Pat),
    AttrName(Pat),
    AttrValue(Pat),
    Class(Pat),
    Strict,
    Recursive,
}

impl Op {
    pub fn is_mode(&self) -> bool {
        matches!(self, Op::Strict | Op::Recursive)
    }
    /// Whether the condition holds for the node, from the statement of the properties.
    pub fn holds(&self, m: &M) -> bool {
        let attr = |f: &dyn Fn(&str, &str) -> bool| m.attrs.as_ref().is_some_and(|a| a.iter().any(|(k, v)| f(k, v)));
        match self {
            Op::Tag(p) => m.name.as_ref().is_some_and(|n| p.means(n)),
            Op::Attr(n, v) => attr(&|k, x| n.means(k) && v.means(x)),
            Op::AttrName(n) => attr(&|k, _| n.means(k)),
            Op::AttrValue(v) => attr(&|_, x| v.means(x)),
            Op::Class(v) => attr(&|k, x| k == "class" && v.means(x)),
            Op::Strict | Op::Recursive => true,
        }
    }
}

/// The nodes the query selects, from the statement of the properties.
pub fn expected<'a>(top: &'a [M], ops: &[Op]) -> Vec<&'a M> {
    let strict = matches!(ops.iter().rev().find(|o| o.is_mode()), Some(Op::Strict));
    let pool: Vec<&M> = if strict { top.iter().collect() } else { crate::model::walk_all(top) };
    pool.into_iter().filter(|n| ops.iter().all(|o| o.holds(n))).collect()
}

/// Node types the queries are checked on.
pub trait TNode: Node<Text: TText> + ToM + FromM + Clone + std::fmt::Debug + 'static {
    const NAME: &'static str;
}
impl TNode for Strict {
    const NAME: &'static str = "strict";
}
impl TNode for Lenient {
    const NAME: &'static str = "lenient";
}
impl TNode for XMLNode {
    const NAME: &'static str = "xml";
}
impl TNode for MyNode<Sym> {
    const NAME: &'static str = "user-sym";
}
impl TNode for MyNode<Rev> {
    const NAME: &'static str = "user-rev";
}

/// Runs the function for a node type chosen by the generator.
#[macro_export]
macro_rules! any_node {
    ($g:expr, $f:ident ( $($a:expr),* )) => {
        match $g.weighted(&[3, 2, 3, 2, 1]) {
            0 => $f::<$crate::model::Strict>($($a),*),
            1 => $f::<$crate::model::Lenient>($($a),*),
            2 => $f::<soupy::parser::XMLNode>($($a),*),
            3 => $f::<$crate::model::MyNode<$crate::model::Sym>>($($a),*),
            _ => $f::<$crate::model::MyNode<$crate::model::Rev>>($($a),*),
        }
    };
}

/// How a query is executed
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    All,
    IntoIter,
    First,
    /// so many calls of `next`, then `fold` for the rest
    Fold(usize),
    /// so many calls of `next`, then the number of the rest by `count`, and the last by `last`: the items before and the last
    Last(usize),
    /// `nth`, again and again, from the first on: every so manieth
    Nth(usize),
    /// a sequence of the iterator's methods, drawn from this number; what they answer besides items is in `numbers`
    Methods(u32),
}

pub type Items<'x, N> = Box<dyn Iterator<Item = QueryItem<'x, N>> + 'x>;

fn finish<'x, N: TNode, F: Filter<N> + 'x>(q: Query<'x, N, F>, how: How) -> Items<'x, N> {
    match how {
        How::All => Box::new(q.all()),
        How::IntoIter => Box::new(q.into_iter()),
        How::First => Box::new(q.first().into_iter()),
        _ => Box::new(consume(q.all(), how)),
    }
}

/// The same for long chains, of which there are many types: the iterator's own methods are
/// hidden by a box, except for a few
fn finish_boxed<'x, N: TNode, F: Filter<N> + 'x>(q: Query<'x, N, F>, how: How) -> Items<'x, N> {
    let all: Items<'x, N> = match how {
        How::IntoIter => Box::new(q.into_iter()),
        How::First => Box::new(q.first().into_iter()),
        _ => Box::new(q.all()),
    };
    match how {
        How::All | How::IntoIter | How::First => all,
        _ => Box::new(consume(all, how)),
    }
}

/// By the iterator's own methods, which a box would hide
fn consume<I: Iterator>(mut it: I, how: How) -> std::vec::IntoIter<I::Item> {
    let mut out = vec![];
    match how {
        How::Fold(k) => {
            for _ in 0..k {
                out.extend(it.next());
            }
            out = it.fold(out, |mut v, x| {
                v.push(x);
                v
            });
        }
        How::Last(k) => {
            for _ in 0..k {
                out.extend(it.next());
            }
            out.extend(it.last());
        }
        How::Nth(k) => {
            out.extend(it.next());
            while let Some(x) = it.nth(k) {
                out.push(x);
            }
        }
        How::Methods(seed) => methods(it, seed, &mut out),
        _ => out.extend(it),
    }
    out.into_iter()
}

thread_local! {
    static NUMBERS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
}

/// What `How::Methods` answered last, besides items
pub fn numbers() -> Vec<usize> {
    NUMBERS.take()
}

/// The same on any iterator, for instance that of a vector
pub fn by_methods<I: Iterator>(it: I, seed: u32) -> (Vec<I::Item>, Vec<usize>) {
    let out = consume(it, How::Methods(seed)).collect();
    (out, numbers())
}

fn methods<I: Iterator>(mut it: I, mut seed: u32, out: &mut Vec<I::Item>) {
    let mut log: Vec<usize> = vec![];
    let mut draw = |n: u32| {
        seed = seed.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        (seed >> 8) % n
    };
    for _ in 0..draw(5) {
        let k = draw(4) as usize;
        let mut calls = 0;
        let mut met = |log: &mut Vec<usize>| {
            log.push(calls);
            calls += 1;
            calls > k
        };
        match draw(10) {
            0 => out.extend(it.next()),
            1 => out.extend(it.nth(k)),
            2 => out.extend(it.find(|_| met(&mut log))),
            3 => {
                let at = it.position(|_| met(&mut log));
                log.push(at.unwrap_or(1000));
            }
            4 => {
                let any = it.any(|_| met(&mut log));
                log.push(any as usize);
            }
            5 => {
                let all = it.all(|_| !met(&mut log));
                log.push(all as usize);
            }
            6 => out.extend(it.find_map(|x| met(&mut log).then_some(x))),
            7 => {
                let r = it.try_fold(0, |n, x| {
                    out.push(x);
                    if n == k { Err(n) } else { Ok(n + 1) }
                });
                log.push(r.unwrap_or_else(|n| n + 100));
            }
            8 => out.extend(it.by_ref().take(k)),
            _ => out.extend(it.by_ref().skip(k).step_by(2).take(2)),
        }
        log.push(out.len());
    }
    let k = draw(4) as usize;
    match draw(12) {
        0 => log.push(it.count()),
        1 => out.extend(it.last()),
        2 => it.for_each(|x| out.push(x)),
        3 => {
            *out = it.fold(std::mem::take(out), |mut v, x| {
                v.push(x);
                v
            })
        }
        4 => {
            let all: Vec<_> = it.collect();
            out.extend(all);
        }
        5 => {
            let (a, b): (Vec<_>, Vec<_>) = it.enumerate().partition(|(i, _)| i % 2 == 0);
            log.push(b.len());
            out.extend(a.into_iter().map(|x| x.1));
        }
        6 => out.extend(it.reduce(|_, b| b)),
        // of equal ones, the first or the last
        7 => out.extend(it.min_by_key(|_| 0)),
        8 => out.extend(it.max_by_key(|_| 0)),
        9 => out.extend(it.step_by(k + 1)),
        10 => {
            let mut it = it.peekable();
            log.push(it.peek().is_some() as usize);
            out.extend(it);
        }
        _ => out.extend(it.skip(k)),
    }
    NUMBERS.set(log);
}

/// The longest chain of conditions that `run` supports
pub const MAX_CONDS: usize = 4;

struct End;
struct Two<L>(std::marker::PhantomData<L>);
struct All5<L>(std::marker::PhantomData<L>);

trait Level {
    fn go<'x, N: TNode, F: Filter<N> + 'x>(q: Query<'x, N, F>, ops: &[Op], how: How) -> Items<'x, N>;
}

impl Level for End {
    fn go<'x, N: TNode, F: Filter<N> + 'x>(q: Query<'x, N, F>, ops: &[Op], how: How) -> Items<'x, N> {
        match ops.first() {
            None => finish_boxed(q, how),
            Some(Op::Strict) => Self::go(q.strict(), &ops[1..], how),
            Some(Op::Recursive) => Self::go(q.recursive(), &ops[1..], how),
            Some(_) => panic!("query too long"),
        }
    }
}

impl<L: Level> Level for Two<L> {
    fn go<'x, N: TNode, F: Filter<N> + 'x>(q: Query<'x, N, F>, ops: &[Op], how: How) -> Items<'x, N> {
        let Some(op) = ops.first() else { return finish_boxed(q, how) };
        let rest = &ops[1..];
        match op.clone() {
            Op::Strict => Self::go(q.strict(), rest, how),
            Op::Recursive => Self::go(q.recursive(), rest, how),
            Op::Tag(p) => L::go(q.tag(p), rest, how),
            Op::Attr(n, v) => L::go(q.attr(n, v), rest, how),
            Op::AttrName(n) => L::go(q.attr(n, Pat::Bool(true)), rest, how),
            Op::AttrValue(v) => L::go(q.attr(Pat::Bool(true), v), rest, how),
            Op::Class(v) => L::go(q.attr(Pat::Str("class"), v), rest, how),
        }
    }
}

impl<L: Level> Level for All5<L> {
    fn go<'x, N: TNode, F: Filter<N> + 'x>(q: Query<'x, N, F>, ops: &[Op], how: How) -> Items<'x, N> {
        let Some(op) = ops.first() else { return finish(q, how) };
        let rest = &ops[1..];
        match op.clone() {
            Op::Strict => Self::go(q.strict(), rest, how),
            Op::Recursive => Self::go(q.recursive(), rest, how),
            Op::Tag(p) => L::go(q.tag(p), rest, how),
            Op::Attr(n, v) => L::go(q.attr(n, v), rest, how),
            Op::AttrName(n) => L::go(q.attr_name(n), rest, how),
            Op::AttrValue(v) => L::go(q.attr_value(v), rest, how),
            Op::Class(v) => L::go(q.class(v), rest, how),
        }
    }
}

type L4 = Two<Two<End>>;
type L5 = All5<L4>;
type L6 = All5<L5>;

/// Runs the query on the document, the conditions being added in this order.
pub fn run<'x, N: TNode>(soup: &'x Soup<N>, ops: &[Op], how: How) -> Items<'x, N> {
    let Some(op) = ops.first() else {
        return match how {
            How::All => Box::new(soup.all()),
            How::IntoIter => Box::new(soup.into_iter()),
            How::First => Box::new(soup.first().into_iter()),
            _ => Box::new(consume(soup.all(), how)),
        };
    };
    let rest = &ops[1..];
    match op.clone() {
        Op::Strict => L6::go(soup.strict(), rest, how),
        Op::Recursive => L6::go(soup.recursive(), rest, how),
        Op::Tag(p) => L5::go(soup.tag(p), rest, how),
        Op::Attr(n, v) => L5::go(soup.attr(n, v), rest, how),
        Op::AttrName(n) => L5::go(soup.attr_name(n), rest, how),
        Op::AttrValue(v) => L5::go(soup.attr_value(v), rest, how),
        Op::Class(v) => L5::go(soup.class(v), rest, how),
    }
}

pub fn run_ms<N: TNode>(soup: &Soup<N>, ops: &[Op], how: How) -> Vec<M> {
    run(soup, ops, how).map(|i| i.m()).collect()
}

// ---- generation ----

/// The strings of a document, for patterns that hit
#[derive(Default, Clone)]
pub struct Vocab {
    pub names: Vec<String>,
    pub attr_names: Vec<String>,
    pub values: Vec<String>,
}

impl Vocab {
    /// Of the whole forest, of its top level, or of a single node, so that several conditions
    /// have a chance to hold at once
    pub fn some(g: &mut Gen, top: &[M]) -> Vocab {
        let bare = |m: &M| M { kind: m.kind, name: m.name.clone(), attrs: m.attrs.clone(), text: None, data: None, target: None, kids: vec![], ns: None };
        match g.weighted(&[40, 20, 40]) {
            1 if !top.is_empty() => Self::of(&top.iter().take(300).map(bare).collect::<Vec<_>>()),
            2 if !top.is_empty() => {
                let all = if g.chance(50) { top.iter().collect() } else { crate::model::walk_all(top) };
                let with: Vec<&M> = all.iter().filter(|m| m.name.is_some()).copied().collect();
                let one = *g.pick_of(if with.is_empty() { &all } else { &with });
                Self::of(&[bare(one)])
            }
            _ => Self::of(top),
        }
    }

    pub fn of(top: &[M]) -> Vocab {
        let mut v = Vocab::default();
        for n in crate::model::walk_all(top).into_iter().take(300) {
            v.names.extend(n.name.clone());
            for (k, x) in n.attrs.iter().flatten().take(40) {
                v.attr_names.push(k.clone());
                v.values.push(x.clone());
            }
        }
        for l in [&mut v.names, &mut v.attr_names, &mut v.values] {
            l.sort();
            l.dedup();
        }
        v
    }
}

fn slice_of(g: &mut Gen, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    if chars.is_empty() {
        return String::new();
    }
    let a = g.below(chars.len());
    let b = g.range(a + 1, chars.len());
    chars[a..b].iter().collect()
}

/// A pattern, usually about one of the strings of `pool`.
pub fn pattern(g: &mut Gen, pool: &[String], other: &[String]) -> Pat {
    let word = |g: &mut Gen| -> String {
        match g.weighted(&[80, 8, 4, 4, 4]) {
            0 if !pool.is_empty() => g.pick_of(pool).clone(),
            1 if !other.is_empty() => g.pick_of(other).clone(),
            2 if !pool.is_empty() => {
                let s = g.pick_of(pool).clone();
                slice_of(g, &s)
            }
            3 if !pool.is_empty() => g.pick_of(pool).to_uppercase(),
            _ => g.pick(&["a", "", "class", "id", "zzz", "A", "true"]).to_string(),
        }
    };
    match g.weighted(&[30, 8, 6, 22, 10, 4, 6, 4, 3, 5, 4]) {
        0 => Pat::Str(intern(&word(g)).0),
        1 => Pat::String(word(g)),
        2 => {
            let w = word(g);
            if g.chance(50) { Pat::Cow(Cow::Owned(w)) } else { Pat::Cow(Cow::Borrowed(intern(&w).0)) }
        }
        3 => {
            let w = word(g);
            Pat::Regex(regex_for(g, &w))
        }
        4 => Pat::Bool(true),
        5 => Pat::Bool(false),
        6 => {
            let w = word(g);
            Pat::Prefix(slice_of(g, &w))
        }
        7 => Pat::NoCase(word(g)),
        8 => Pat::Longer(g.below(4)),
        9 => Pat::Exact(word(g)),
        _ => Pat::OneOf((0..g.range(0, 3)).map(|_| word(g)).collect()),
    }
}

/// A regular expression, usually one that matches `w` or a part of it
pub fn regex_for(g: &mut Gen, w: &str) -> regex::Regex {
    let part = slice_of(g, w);
    let (w, part) = (regex::escape(w), regex::escape(&part));
    let text = match g.below(15) {
        0 => format!("^{w}$"),
        1 => part,
        2 => format!("^{part}"),
        3 => format!("{part}$"),
        4 => format!("(?i){part}"),
        5 => format!("^(?:{w}|b)$"),
        6 => "^[a-c]".to_string(),
        7 => ".".to_string(),
        8 => "[0-9]$".to_string(),
        9 => format!("^{part}|{}$", g.pick(&["a", "x", "zz", "o", "b", "1"])),
        10 => format!("^{}|{part}$", g.pick(&["zz", "a", "foo", "d"])),
        11 => format!("{}|{w}", g.pick(&["zz", "^b$", "", "[x-z]{2}"])),
        12 => g.pick(&["", "^$", r"\w+", r"^\w+$", r"\bfoo\b", r"\s", r"(?s)^.*$", r"^[^a-z]", r"a{2,}", r"o+$", r"^(a|b|c)", r"\Aa", r"b\z", r"\.", r"\d", r"(?m)^b", r"(?x) a | b ", r"[[:upper:]]", r"\p{L}$", r"(?-u)a", "a.", "fo*"]).to_string(),
        13 => format!("{part}{}", g.pick(&["?", "+", "*", "{1}", ".", ".*", "$|^", "|", "{2}"])),
        _ => format!("^.{{{},{}}}$", g.below(3), 3 + g.below(4)),
    };
    // a quantifier on an escaped sequence of several characters or on nothing may not be one
    let flags = g.below(12);
    regex::RegexBuilder::new(&text)
        .case_insensitive(flags == 11)
        .dot_matches_new_line(flags == 10)
        .build()
        .unwrap_or_else(|_| regex::Regex::new(&w).unwrap())
}

pub fn cond(g: &mut Gen, v: &Vocab) -> Op {
    match g.weighted(&[40, 25, 12, 12, 11]) {
        0 => Op::Tag(pattern(g, &v.names, &v.attr_names)),
        1 => {
            let n = pattern(g, &v.attr_names, &v.names);
            Op::Attr(n, pattern(g, &v.values, &v.attr_names))
        }
        2 => Op::AttrName(pattern(g, &v.attr_names, &v.values)),
        3 => Op::AttrValue(pattern(g, &v.values, &v.attr_names)),
        _ => Op::Class(pattern(g, &v.values, &v.names)),
    }
}

pub fn conds(g: &mut Gen, v: &Vocab, max: usize) -> Vec<Op> {
    let n = g.weighted(&[10, 40, 25, 10, 6, 4]).min(max);
    (0..n).map(|_| cond(g, v)).collect()
}
// x
