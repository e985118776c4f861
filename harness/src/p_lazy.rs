//! C31: queries look at no more of the document than they need to.
use crate::engine::{ok, Enumeration, Part, Prop, R};
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::query::{conds, expected, run, How, Op, TNode, Vocab};
use crate::tape::Gen;
use soupy::{Node, Queryable};
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    /// The number of the next node built
    static NEXT: Cell<usize> = const { Cell::new(0) };
    /// One more than the number of the last node, in document order, that was looked at
    static SEEN: Cell<usize> = const { Cell::new(0) };
}

/// A node that tells when it is looked at. Nodes are numbered in document order.
#[derive(Clone, Debug)]
struct Watched {
    number: usize,
    node: MyNode<Sym>,
    kids: Vec<Watched>,
}

impl Watched {
    fn seen(&self) {
        SEEN.with(|s| s.set(s.get().max(self.number + 1)));
    }
}

impl Node for Watched {
    type Text = Sym;
    fn name(&self) -> Option<&Sym> {
        self.seen();
        self.node.name()
    }
    fn text(&self) -> Option<&Sym> {
        self.seen();
        self.node.text()
    }
    fn attrs(&self) -> Option<&BTreeMap<Sym, Sym>> {
        self.seen();
        self.node.attrs()
    }
    fn children(&self) -> &[Self] {
        self.seen();
        &self.kids
    }
}

impl FromM for Watched {
    fn from_m(m: &M) -> Self {
        let number = NEXT.with(|n| n.replace(n.get() + 1));
        let node = MyNode::from_m(&M { kids: vec![], ..m.clone() });
        Watched { number, node, kids: m.kids.iter().map(Self::from_m).collect() }
    }
}

impl ToM for Watched {
    fn m(&self) -> M {
        M { kids: self.kids.iter().map(ToM::m).collect(), ..self.node.m() }
    }
}

impl TNode for Watched {
    const NAME: &'static str = "watched";
}

fn build(top: &[M]) -> Vec<Watched> {
    NEXT.with(|n| n.set(0));
    let nodes = from_ms(top);
    SEEN.with(|s| s.set(0));
    nodes
}

/// Steps of an iterator: how often `next`, and then the other methods that stop somewhere
fn steps<T>(g: &mut Gen, mut it: impl Iterator<Item = T>, number: impl Fn(&T) -> usize, want: &[usize]) -> Result<(), String> {
    let looked = || SEEN.with(Cell::get);
    if looked() > 0 {
        return Err(format!("node {} is looked at before the first step", looked() - 1));
    }
    let mut at = 0;
    while at < want.len() {
        let before = at;
        let (what, got) = match g.weighted(&[60, 10, 10, 10, 10]) {
            0 => ("next()", it.next()),
            1 => {
                let k = g.below(want.len() - at);
                at += k;
                ("nth()", it.nth(k))
            }
            2 => {
                let k = g.below(want.len() - at);
                at += k;
                ("find()", it.find(|n| number(n) >= want[at]))
            }
            3 => {
                let mut last = None;
                let found = it.any(|n| {
                    last = Some(n);
                    true
                });
                ("any()", last.filter(|_| found))
            }
            _ => {
                let k = g.below(want.len() - at);
                at += k;
                ("take()", it.by_ref().take(k + 1).last())
            }
        };
        let got = got.map(|n| number(&n));
        if got != Some(want[at]) {
            return Err(format!("result {at} with {what} is {got:?}, expected node {}", want[at]));
        }
        if looked() > want[at] + 1 {
            return Err(format!("node {} is looked at for result {at}, which is node {} ({what} at {before})", looked() - 1, want[at]));
        }
        at += 1;
    }
    Ok(())
}

fn c31(g: &mut Gen) -> R {
    let (top, sh) = gen::forest(&mut g.sub(), gen::FREE);
    let truth = ms(&build(&top));
    let soup = soup_of(build(&top));
    let vocab = Vocab::some(g, &truth);
    let base = conds(g, &vocab, 3);
    let mut ops = vec![];
    for op in base {
        if g.chance(15) {
            ops.push(if g.chance(50) { Op::Strict } else { Op::Recursive });
        }
        ops.push(op);
    }
    if g.chance(10) {
        ops.push(Op::Strict);
    }
    let key = format!("{truth:?} query {ops:?}");
    crate::util::current_input(&key);
    let all = walk_all(&truth);
    let place: std::collections::HashMap<*const M, usize> = all.iter().enumerate().map(|(i, m)| (std::ptr::from_ref(*m), i)).collect();
    let want: Vec<usize> = expected(&truth, &ops).into_iter().map(|m| place[&std::ptr::from_ref(m)]).collect();
    let reset = || SEEN.with(|s| s.set(0));
    let watched = |n: usize| -> Result<(), String> {
        let seen = SEEN.with(Cell::get);
        if seen > n + 1 { Err(format!("node {} is looked at for the first result, which is node {n}", seen - 1)) } else { Ok(()) }
    };

    // two iterators over the document, and a query that is not run
    reset();
    if let Err(e) = steps(g, run(&soup, &ops, How::All), |i| i.number, &want) {
        ensure!(false, key, "{e}");
    }
    reset();
    if let Err(e) = steps(g, run(&soup, &ops, How::IntoIter), |i| i.number, &want) {
        ensure!(false, key, "into_iter(): {e}");
    }
    if let Some(&n) = want.first() {
        reset();
        let got = run(&soup, &ops, How::First).next().map(|i| i.number);
        ensure!(got == Some(n), key, "first() is {got:?}, expected {n}");
        if let Err(e) = watched(n) {
            ensure!(false, key, "first(): {e}");
        }
    }
    // the for loop, left after some nodes
    if !all.is_empty() {
        let stop = g.below(all.len());
        reset();
        for item in &soup {
            if item.number == stop {
                break;
            }
        }
        let seen = SEEN.with(Cell::get);
        ensure!(seen <= stop + 1, key, "node {} is looked at in a loop left at node {stop}", seen - 1);
    }
    // the plain iterator, and descendants of a node
    let every: Vec<usize> = (0..all.len()).collect();
    reset();
    if let Err(e) = steps(g, soup.iter(), |i| i.number, &every) {
        ensure!(false, key, "iter(): {e}");
    }
    let items: Vec<_> = soup.iter().collect();
    if !items.is_empty() {
        let n = &*items[g.below(items.len())];
        let mut below = vec![];
        all[n.number].walk(&mut below);
        reset();
        if let Err(e) = steps(g, n.descendants(), |i| i.number, &every[n.number..n.number + below.len()]) {
            ensure!(false, key, "descendants() of node {}: {e}", n.number);
        }
    }
    let follow = want.first().is_some_and(|&n| n + 1 < all.len());
    ok(key, follow && !ops.is_empty(), vec![match sh {
        gen::Shape::Deep => "deep",
        gen::Shape::Wide => "wide",
        gen::Shape::Huge => "huge",
        _ => "normal",
    }, if ops.iter().rev().find(|o| o.is_mode()).is_some_and(|o| matches!(o, Op::Strict)) { "strict" } else { "recursive" }])
}

/// A node whose children come into being when asked for: two leaves, and one with three again
struct Endless {
    name: Option<String>,
    level: usize,
    leaf: bool,
    kids: std::cell::OnceCell<Vec<Endless>>,
}

impl Endless {
    fn new(level: usize, leaf: usize) -> Self {
        Endless { name: Some(format!("n{}", 3 * level + leaf)), level, leaf: leaf > 0, kids: Default::default() }
    }
}

impl Node for Endless {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&String> {
        None
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        None
    }
    fn children(&self) -> &[Self] {
        if self.leaf {
            return &[];
        }
        assert!(self.level < 400, "far more of the document is looked at than needed");
        self.kids.get_or_init(|| vec![Self::new(self.level, 1), Self::new(self.level, 2), Self::new(self.level + 1, 0)])
    }
}

/// The first results of queries of a document without end
fn c31_endless(i: u64) -> R {
    let n = i as usize;
    let want = format!("n{n}");
    let key = format!("endless document, node {n}");
    crate::util::current_input(&key);
    let fresh = || soup_of(vec![Endless::new(0, 0)]);
    let soup = fresh();
    let got = soup.tag(want.clone()).first().and_then(|i| i.name.clone());
    ensure!(got.as_ref() == Some(&want), key, "first() is {got:?}");
    let soup = fresh();
    let got = soup.tag(true).all().nth(n).and_then(|i| i.name.clone());
    ensure!(got.as_ref() == Some(&want), key, "nth() is {got:?}");
    let got: Vec<_> = soup.iter().take(n + 1).filter_map(|i| i.name.clone()).collect();
    ensure!(got.len() == n + 1 && got[n] == want, key, "take() is {got:?}");
    let soup = fresh();
    let re = regex::Regex::new(&format!("^{want}$")).unwrap();
    let got = soup.iter().next().and_then(|root| root.descendants().find(|d| re.is_match(d.name.as_deref().unwrap_or(""))).and_then(|d| d.name.clone()));
    ensure!(got.as_ref() == Some(&want), key, "descendants() finds {got:?}");
    let soup = fresh();
    let got = soup.strict().tag(true).all().count();
    ensure!(got == 1, key, "{got} nodes at top level");
    ok(key, n > 0, vec!["endless"])
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "Random documents of nodes that record when they are looked at; random queries, advanced by random methods that stop at a result (next, nth, find, any, take), first(), loops left early, and descendants; after each step no node behind the result in document order may have been looked at, and none before the first step. Non-trivial: a query with conditions that has a result followed by other nodes.",
        parts: vec![
            Part { name: "lazy", quick: 120_000, thorough: 4_800_000, tape: 800, f: c31 },
            Part { name: "huge", quick: 300, thorough: 12_000, tape: 400, f: |g| gen::huge(|| c31(g)) },
        ],
        enums: vec![Enumeration { name: "endless", count: |_| 300, f: c31_endless }],
        ..Prop::new()
    }]
}
