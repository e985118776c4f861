//! C01–C09: the query language and navigation.
use crate::engine::{fail, ok, Case, Fail, R};
use crate::gen;
use crate::model::*;
use crate::query::*;
use crate::tape::Gen;
use crate::{any_node, ensure};
use soupy::filter::{And, Attr, Filter, Or, Tag};
use soupy::parser::{HTMLNode, Parser, XMLNode};
use soupy::{Node, Pattern, Queryable, Soup};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

pub fn diff(what: &str, got: &[M], want: &[&M]) -> String {
    format!("{what}: {} results, {} expected\n   got {got:?}\n  want {want:?}", got.len(), want.len())
}

pub fn same(got: &[M], want: &[&M]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a == *b)
}

fn labels_of(top: &[M], ops: &[Op], hits: usize, total: usize, sh: gen::Shape) -> Vec<&'static str> {
    let mut l = vec![match ops.iter().filter(|o| !o.is_mode()).count() {
        0 => "conditions:0",
        1 => "conditions:1",
        2 => "conditions:2",
        _ => "conditions:3+",
    }];
    l.push(match hits {
        0 => "hits:0",
        n if n == total => "hits:all",
        1 => "hits:1",
        2..=5 => "hits:2-5",
        _ => "hits:6+",
    });
    l.push(match top.iter().map(M::depth).max().unwrap_or(0) {
        0..=1 => "depth:0-1",
        2..=4 => "depth:2-4",
        5..=10 => "depth:5-10",
        _ => "depth:11+",
    });
    l.push(match sh {
        gen::Shape::Normal => "shape:normal",
        gen::Shape::Wide => "shape:wide",
        gen::Shape::Deep => "shape:deep",
        gen::Shape::ManyAttrs => "shape:many-attributes",
        gen::Shape::LongText => "shape:long-text",
        gen::Shape::Huge => "shape:huge",
    });
    l
}

/// A document of nodes of type `N` and its model
fn doc<N: TNode>(g: &mut Gen, numbered: bool) -> (Vec<N>, Vec<M>, gen::Shape) {
    let (mut m, sh) = if N::NAME.starts_with("user") && !gen::is_huge() && g.chance(40) {
        // any combination of name, attributes, text and children
        let mut left = 25;
        let n = g.weighted(&[5, 40, 25, 20, 10]);
        ((0..n).map(|_| gen::mixed(g, 0, &mut left)).collect(), gen::Shape::Normal)
    } else {
        gen::forest(g, gen::FREE)
    };
    if numbered {
        number_elements(&mut m);
    }
    let nodes: Vec<N> = from_ms(&m);
    let truth = ms(&nodes);
    (nodes, truth, sh)
}

fn nontrivial(hits: usize, total: usize) -> bool {
    hits > 0 && hits < total
}

// ---- C01 ----

fn c01_direct(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        let numbered = g.chance(40);
        let (nodes, truth, sh) = doc::<N>(&mut g.sub(), numbered);
        let vocab = Vocab::some(g, &truth);
        let ops = conds(g, &vocab, MAX_CONDS);
        let how = *g.pick_of(&[How::All, How::IntoIter]);
        let key = format!("{} {truth:?} query {ops:?}", N::NAME);
        crate::util::current_input(&key);
        let soup = soup_of(nodes);
        let want = expected(&truth, &ops);
        let got = run_ms(&soup, &ops, how);
        ensure!(same(&got, &want), key, "{}", diff("query", &got, &want));
        if ops.is_empty() {
            let got: Vec<M> = soup.iter().map(|i| i.m()).collect();
            ensure!(same(&got, &want), key, "{}", diff("iter()", &got, &want));
            let got: Vec<M> = soup.recursive().all().map(|i| i.m()).collect();
            ensure!(same(&got, &want), key, "{}", diff("recursive()", &got, &want));
        }
        // each node once: results are different places of the document
        let places: Vec<*const N> = run(&soup, &ops, How::All).map(|i| std::ptr::from_ref::<N>(&i)).collect();
        let distinct: HashSet<_> = places.iter().collect();
        ensure!(distinct.len() == places.len(), key, "a node is yielded twice");
        let total = walk_all(&truth).len();
        let l = labels_of(&truth, &ops, want.len(), total, sh);
        ok(key, nontrivial(want.len(), total), l)
    }
    any_node!(g, f(g))
}

/// The same, on documents that come out of the parsers. Documents that the parser
/// does not accept are not the subject here.
fn c01_parsed(g: &mut Gen) -> R {
    fn go<P: Parser>(g: &mut Gen, text: &str, input: impl Fn() -> P::Input) -> R
    where
        P::Node: ToM + QNode,
    {
        let Ok(Ok(nodes)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| P::parse(input()))) else {
            return ok(text.into(), false, vec!["not parsed"]);
        };
        let Ok(soup) = Soup::new::<P>(input()) else { return ok(text.into(), false, vec!["not parsed"]) };
        let truth = ms(&nodes);
        let vocab = Vocab::of(&truth);
        let op = cond(g, &vocab);
        let key = format!("{text:?} query {op:?}");
        crate::util::current_input(&key);
        let want = expected(&truth, std::slice::from_ref(&op));
        let got = <P::Node as QNode>::q(&soup, &op);
        ensure!(same(&got, &want), key, "{}", diff("query", &got, &want));
        ok(key, !want.is_empty(), vec!["parsed"])
    }
    match g.below(3) {
        0 => {
            let (m, _) = gen::forest(&mut g.sub(), gen::HTML);
            let s = crate::ser::html(g, &m);
            let s: &str = &s;
            // borrowed texts: patterns must be borrowed for as long
            go::<soupy::parser::StrictHTMLParser>(g, s, || intern(s).0)
        }
        1 => {
            let (m, _) = gen::forest(&mut g.sub(), gen::HTML);
            let s = crate::ser::html(g, &m);
            go::<soupy::parser::LenientHTMLParser<String>>(g, &s.clone(), || s.clone())
        }
        _ => {
            let (m, _) = gen::xml_root(&mut g.sub(), 25);
            let s = crate::ser::xml(g, &[m], &crate::ser::no_decls);
            go::<soupy::parser::XMLParser<std::io::Cursor<Vec<u8>>>>(g, &s.clone(), || std::io::Cursor::new(s.clone().into_bytes()))
        }
    }
}

/// A user-defined node whose children are shared: the same nodes, at the same place in memory,
/// stand below several parents
#[derive(Clone, Debug)]
struct Shared {
    m: Rc<M>,
    attrs: Option<BTreeMap<String, String>>,
    kids: Rc<[Shared]>,
    /// nodes of the tree below, this one included
    size: usize,
}

impl Node for Shared {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.m.name.as_ref()
    }
    fn text(&self) -> Option<&String> {
        self.m.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Shared] {
        &self.kids
    }
}

impl ToM for Shared {
    fn m(&self) -> M {
        M { kids: ms(&self.kids), ..(*self.m).clone() }
    }
}

impl FromM for Shared {
    fn from_m(m: &M) -> Self {
        let kids: Rc<[Shared]> = m.kids.iter().map(Self::from_m).collect();
        Shared { m: Rc::new(M { kids: vec![], ..m.clone() }), attrs: m.attrs.clone().map(|a| a.into_iter().collect()), size: 1 + kids.iter().map(|k| k.size).sum::<usize>(), kids }
    }
}

impl TNode for Shared {
    const NAME: &'static str = "user, shared";
}

fn shared_docs(g: &mut Gen) -> Vec<Shared> {
    let mut pool: Vec<Rc<[Shared]>> = vec![Rc::from([])];
    let one = |g: &mut Gen, pool: &[Rc<[Shared]>], room: usize| {
        let mut left = 1;
        let mut m = gen::mixed(g, 9, &mut left);
        m.kids = vec![];
        // the last ones more often, and not more than fits
        let i = pool.len() - 1 - g.below(pool.len().min(3));
        let size = |k: &Rc<[Shared]>| k.iter().map(|n| n.size).sum::<usize>();
        let kids = if size(&pool[i]) < room { &pool[i] } else { &pool[0] };
        Shared { attrs: m.attrs.clone().map(|a| a.into_iter().collect()), m: Rc::new(m), size: 1 + size(kids), kids: kids.clone() }
    };
    for _ in 0..g.range(1, 7) {
        let mut room = 150;
        let mut list = vec![];
        for _ in 0..g.weighted(&[0, 40, 35, 25]) {
            let n = one(g, &pool, room);
            room = room.saturating_sub(n.size);
            list.push(n);
        }
        pool.push(list.into());
    }
    (0..g.range(1, 4)).map(|_| one(g, &pool, 200)).collect()
}

fn c01_shared(g: &mut Gen) -> R {
    let nodes = shared_docs(&mut g.sub());
    let truth = ms(&nodes);
    let vocab = Vocab::of(&truth);
    let ops = conds(g, &vocab, 1);
    let key = format!("shared {truth:?} query {ops:?}");
    crate::util::current_input(&key);
    let soup = soup_of(nodes);
    let want = expected(&truth, &ops);
    let got = run_ms(&soup, &ops, How::All);
    ensure!(same(&got, &want), key, "{}", diff("query", &got, &want));
    let want: Vec<&M> = walk_all(&truth);
    let got: Vec<M> = soup.iter().map(|i| i.m()).collect();
    ensure!(same(&got, &want), key, "{}", diff("iter()", &got, &want));
    let got: Vec<M> = soup.recursive().all().map(|i| i.m()).collect();
    ensure!(same(&got, &want), key, "{}", diff("recursive()", &got, &want));
    for i in soup.strict().all() {
        let m = i.m();
        let m = std::slice::from_ref(&m);
        let want = walk_all(m);
        let got: Vec<M> = i.descendants().map(ToM::m).collect();
        ensure!(same(&got, &want), key, "{}", diff("descendants()", &got, &want));
        let got: Vec<M> = i.query().iter().map(|i| i.m()).collect();
        ensure!(same(&got, &want[1..]), key, "{}", diff("query().iter()", &got, &want[1..]));
        let texts: Vec<&str> = want.iter().filter_map(|m| m.text.as_deref()).collect();
        ensure!(i.all_text() == texts.join("\n"), key, "all_text() is {:?}", i.all_text());
    }
    let mut places = HashSet::new();
    let shared = soup.iter().any(|i| !places.insert(std::ptr::from_ref::<Shared>(&i)));
    ok(key, shared, vec!["shared children"])
}

/// Single-condition queries on the three parsed node types
trait QNode: Node {
    fn q(soup: &Soup<Self>, op: &Op) -> Vec<M>;
}
macro_rules! qnode {
    ($t:ty) => {
        impl QNode for $t {
            fn q(soup: &Soup<Self>, op: &Op) -> Vec<M> {
                run_ms(soup, std::slice::from_ref(op), How::All)
            }
        }
    };
}
qnode!(Strict);
qnode!(Lenient);
qnode!(XMLNode);

/// Every small forest over two elements and a text
pub fn small_forests(n: usize) -> Vec<Vec<M>> {
    fn forests(n: usize, memo: &mut BTreeMap<usize, Vec<Vec<M>>>) -> Vec<Vec<M>> {
        if let Some(f) = memo.get(&n) {
            return f.clone();
        }
        let mut out = vec![];
        if n == 0 {
            out.push(vec![]);
        } else {
            // the first tree has k nodes, the rest n - k
            for k in 1..=n {
                for kids in forests(k - 1, memo) {
                    let mut firsts = vec![
                        M::elem("a", vec![], kids.clone()),
                        M::elem("b", vec![("class".into(), "x".into())], kids.clone()),
                    ];
                    if kids.is_empty() {
                        firsts.push(M::text("t"));
                    }
                    for first in firsts {
                        for rest in forests(n - k, memo) {
                            let mut f = vec![first.clone()];
                            f.extend(rest);
                            out.push(f);
                        }
                    }
                }
            }
        }
        memo.insert(n, out.clone());
        out
    }
    let mut memo = BTreeMap::new();
    (0..=n).flat_map(|i| forests(i, &mut memo)).collect()
}

fn small(thorough: bool) -> &'static Vec<Vec<M>> {
    static Q: std::sync::OnceLock<Vec<Vec<M>>> = std::sync::OnceLock::new();
    static T: std::sync::OnceLock<Vec<Vec<M>>> = std::sync::OnceLock::new();
    if thorough { T.get_or_init(|| small_forests(6)) } else { Q.get_or_init(|| small_forests(5)) }
}

fn small_queries() -> Vec<Vec<Op>> {
    vec![
        vec![],
        vec![Op::Tag(Pat::Str("a"))],
        vec![Op::Tag(Pat::Str("b"))],
        vec![Op::Tag(Pat::Bool(true))],
        vec![Op::Class(Pat::Str("x"))],
        vec![Op::AttrName(Pat::Bool(true))],
        vec![Op::Tag(Pat::Str("b")), Op::Class(Pat::Str("x"))],
        vec![Op::Tag(Pat::Str("a")), Op::Class(Pat::Str("x"))],
    ]
}

fn small_count(thorough: bool) -> u64 {
    // the thorough list begins with the quick one
    small(thorough).len() as u64
}

fn small_at(i: u64) -> &'static Vec<M> {
    let q = small(false);
    if (i as usize) < q.len() { &q[i as usize] } else { &small(true)[i as usize] }
}

fn c01_small(i: u64) -> R {
    let mut top = small_at(i).clone();
    let plain = format!("{top:?}");
    number_elements(&mut top);
    let soup = soup_of::<XMLNode>(from_ms(&top));
    let mut hits = 0;
    let truth = ms(&from_ms::<XMLNode>(&top));
    for ops in small_queries() {
        let want = expected(&truth, &ops);
        let got = run_ms(&soup, &ops, How::All);
        ensure!(same(&got, &want), format!("{top:?} query {ops:?}"), "{}", diff("query", &got, &want));
        hits += want.len();
    }
    ok(plain, hits > 1, vec!["exhaustive small forests"])
}

// ---- C02 ----

/// Inserts mode switches into the conditions
fn with_modes(g: &mut Gen, conds: &[Op]) -> Vec<Op> {
    let mut out = vec![];
    for i in 0..=conds.len() {
        for _ in 0..g.weighted(&[50, 40, 10]) {
            out.push(if g.chance(60) { Op::Strict } else { Op::Recursive });
        }
        out.extend(conds.get(i).cloned());
    }
    out
}

fn c02(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        let numbered = g.chance(40);
        let (nodes, mut truth, sh) = doc::<N>(&mut g.sub(), numbered);
        let mut soup = soup_of(nodes);
        let key0 = format!("{} {truth:?}", N::NAME);
        let mut sub = false;
        if g.chance(30) {
            // a sub-query: the top level is the item's direct children
            let all: Vec<M> = walk_all(&truth).into_iter().cloned().collect();
            let items: Vec<_> = soup.iter().collect();
            if !items.is_empty() && items.len() == all.len() {
                let i = g.below(items.len());
                let s = items[i].query();
                truth = all[i].kids.clone();
                drop(items);
                soup = s;
                sub = true;
            }
        }
        let vocab = Vocab::some(g, &truth);
        let base = conds(g, &vocab, 3);
        let ops = with_modes(g, &base);
        let key = format!("{key0}{} query {ops:?}", if sub { " (within an item)" } else { "" });
        crate::util::current_input(&key);
        let want = expected(&truth, &ops);
        let got = run_ms(&soup, &ops, How::All);
        ensure!(same(&got, &want), key, "{}", diff("query", &got, &want));
        // only the last switch and the set of conditions matter
        let ops2 = with_modes(g, &base);
        let last = |o: &[Op]| matches!(o.iter().rev().find(|o| o.is_mode()), Some(Op::Strict));
        let mut ops2 = ops2;
        if last(&ops2) != last(&ops) {
            ops2.push(if last(&ops) { Op::Strict } else { Op::Recursive });
        }
        let got = run_ms(&soup, &ops2, How::IntoIter);
        ensure!(same(&got, &want), key, "as {ops2:?}: {}", diff("query", &got, &want));
        let strict = last(&ops);
        let deeper = expected(&truth, &base).len();
        let mut l = labels_of(&truth, &ops, want.len(), walk_all(&truth).len(), sh);
        l.push(if strict { "mode:strict" } else { "mode:recursive" });
        l.push(if sub { "of:item" } else { "of:document" });
        if strict && deeper > want.len() {
            l.push("deeper nodes match, too");
        }
        ok(key, strict && !want.is_empty() && deeper > want.len(), l)
    }
    any_node!(g, f(g))
}

fn c02_small(i: u64) -> R {
    let mut top = small_at(i).clone();
    let plain = format!("{top:?}");
    number_elements(&mut top);
    let truth = ms(&from_ms::<Strict>(&top));
    let soup = soup_of::<Strict>(from_ms(&top));
    let mut differ = false;
    for base in small_queries() {
        let mut ops = vec![Op::Strict];
        ops.extend(base.clone());
        let want = expected(&truth, &ops);
        let got = run_ms(&soup, &ops, How::All);
        ensure!(same(&got, &want), format!("{top:?} query {ops:?}"), "{}", diff("query", &got, &want));
        let mut late = base.clone();
        late.push(Op::Strict);
        let got = run_ms(&soup, &late, How::All);
        ensure!(same(&got, &want), format!("{top:?} query {late:?}"), "{}", diff("query", &got, &want));
        differ |= expected(&truth, &base).len() > want.len() && !want.is_empty();
    }
    ok(plain, differ, vec!["exhaustive small forests"])
}

// ---- C03 ----

/// One iterator that is alive, what it is to yield, and how far it is
struct Live<'x> {
    it: Box<dyn Iterator<Item = M> + 'x>,
    want: Vec<M>,
    at: usize,
    what: String,
}

impl Live<'_> {
    fn hint(&self) -> Result<(), String> {
        let (lo, hi) = self.it.size_hint();
        let left = self.want.len() - self.at;
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("{}: size_hint ({lo}, {hi:?}) with {left} left", self.what));
        }
        Ok(())
    }
    fn next(&mut self) -> Result<(), String> {
        let got = self.it.next();
        let want = self.want.get(self.at);
        if got.as_ref() != want {
            return Err(format!("{} at {}: got {got:?}, expected {want:?}", self.what, self.at));
        }
        self.at = (self.at + 1).min(self.want.len());
        Ok(())
    }
}

/// The reference for what a query yields is the query itself, run alone on a fresh
/// copy of the document: C03 is about repeatability.
fn c03(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        let (mut m, sh) = gen::forest(&mut g.sub(), gen::FREE);
        number_elements(&mut m);
        let fresh = || soup_of(from_ms::<N>(&m));
        let soup = fresh();
        let truth = ms(&from_ms::<N>(&m));
        let vocab = Vocab::some(g, &truth);
        let queries: Vec<Vec<Op>> = (0..g.range(1, 3))
            .map(|_| {
                let c = conds(g, &vocab, 2);
                with_modes(g, &c)
            })
            .collect();
        let mut steps = vec![];
        let key0 = format!("{} {truth:?} queries {queries:?}", N::NAME);
        crate::util::current_input(&key0);
        let alone: Vec<Vec<M>> = queries.iter().map(|q| run_ms(&fresh(), q, How::All)).collect();
        let whole: Vec<M> = fresh().iter().map(|i| i.m()).collect();
        let copy = soup.clone();
        // items of the document, whose descendants are iterated
        let items: Vec<_> = soup.iter().collect();
        let mut live: Vec<Live> = vec![];
        let n = g.range(3, 60);
        let mut exhausted = 0;
        let mut interleaved = 0;
        let mut last = usize::MAX;
        for _ in 0..n {
            let q = g.below(queries.len());
            let on = if g.chance(30) { &copy } else { &soup };
            let r: Result<(), String> = match g.weighted(&[40, 20, 6, 6, 6, 5, 6, 6, 5]) {
                0 if !live.is_empty() => {
                    let i = g.below(live.len());
                    steps.push(format!("next {i}"));
                    if i != last {
                        interleaved += 1;
                        last = i;
                    }
                    if live[i].at == live[i].want.len() {
                        exhausted += 1;
                    }
                    live[i].hint().and_then(|()| live[i].next())
                }
                0 | 1 => {
                    steps.push(format!("iterator {} of query {q}", live.len()));
                    let how = if g.chance(50) { How::All } else { How::IntoIter };
                    live.push(Live {
                        it: Box::new(Mapped(run(on, &queries[q], how))),
                        want: alone[q].clone(),
                        at: 0,
                        what: format!("iterator {}", live.len()),
                    });
                    Ok(())
                }
                2 => {
                    steps.push(format!("first of query {q}"));
                    let got = run_ms(on, &queries[q], How::First);
                    let want: Vec<M> = alone[q].iter().take(1).cloned().collect();
                    (got == want).then_some(()).ok_or(format!("first() is {got:?}, all() begins with {want:?}"))
                }
                3 => {
                    steps.push(format!("all of query {q}"));
                    let got = run_ms(on, &queries[q], How::All);
                    (got == alone[q]).then_some(()).ok_or(format!("all() is {got:?}, was {:?}", alone[q]))
                }
                4 => {
                    steps.push("for loop".into());
                    let mut got = vec![];
                    for i in on {
                        got.push(i.m());
                    }
                    (got == whole).then_some(()).ok_or(format!("for loop yields {got:?}, was {whole:?}"))
                }
                5 => {
                    steps.push("copied queries".into());
                    let q0 = if g.chance(50) { on.strict() } else { on.recursive() };
                    #[allow(clippy::clone_on_copy)]
                    let (q1, q2) = (q0, q0.clone());
                    let a: Vec<M> = q1.all().map(|i| i.m()).collect();
                    let b: Vec<M> = q2.all().map(|i| i.m()).collect();
                    let c: Vec<M> = q0.into_iter().map(|i| i.m()).collect();
                    (a == b && b == c).then_some(()).ok_or(format!("copies of a query yield {a:?}, {b:?}, {c:?}"))
                }
                6 => {
                    // the iterator protocol: the adaptors agree with next()
                    steps.push(format!("count, last and nth of query {q}"));
                    let want = &alone[q];
                    let count = run(on, &queries[q], How::All).count();
                    let lastm = run(on, &queries[q], How::All).last().map(|i| i.m());
                    let k = g.below(want.len() + 2);
                    let nth = run(on, &queries[q], How::All).nth(k).map(|i| i.m());
                    // the iterator's own methods, after some steps
                    let folded = run_ms(on, &queries[q], How::Fold(k));
                    let ends = run_ms(on, &queries[q], How::Last(k));
                    let want_ends: Vec<M> = want.iter().take(k).chain(want.iter().skip(k).last()).cloned().collect();
                    let every = run_ms(on, &queries[q], How::Nth(k));
                    let want_every: Vec<M> = want.iter().step_by(k + 1).cloned().collect();
                    let seed = g.raw();
                    let got = run_ms(on, &queries[q], How::Methods(seed));
                    let answers = numbers();
                    let want_methods = by_methods(want.iter().cloned(), seed);
                    if (&got, &answers) != (&want_methods.0, &want_methods.1) {
                        Err(format!("methods of the iterator ({seed}) yield {got:?} and {answers:?}, those of a vector {want_methods:?}"))
                    } else if folded != *want {
                        Err(format!("{k} times next() and then fold() yield {folded:?}, next() alone {want:?}"))
                    } else if ends != want_ends {
                        Err(format!("{k} times next() and then last() yield {ends:?}, next() alone {want:?}"))
                    } else if every != want_every {
                        Err(format!("repeated nth({k}) yields {every:?}, next() {want:?}"))
                    } else if count != want.len() {
                        Err(format!("count() is {count}, {} items", want.len()))
                    } else if lastm.as_ref() != want.last() {
                        Err(format!("last() is {lastm:?}"))
                    } else if nth.as_ref() != want.get(k) {
                        Err(format!("nth({k}) is {nth:?}"))
                    } else {
                        Ok(())
                    }
                }
                7 if !items.is_empty() => {
                    let i = g.below(items.len());
                    steps.push(format!("descendants of item {i}"));
                    let want: Vec<M> = items[i].descendants().map(ToM::m).collect();
                    let node: &N = &items[i];
                    let it: Box<dyn Iterator<Item = M>> = Box::new(MappedRef(node.descendants()));
                    live.push(Live { it, want, at: 0, what: format!("iterator {} (descendants)", live.len()) });
                    Ok(())
                }
                _ => {
                    steps.push("document unchanged".into());
                    let got: Vec<M> = soup.iter().map(|i| i.m()).collect();
                    (got == whole).then_some(()).ok_or("the document changed".into())
                }
            };
            if let Err(e) = r {
                return fail(format!("{key0} steps {steps:?}"), e);
            }
        }
        drop(live);
        drop(items);
        drop(soup);
        // the clone is a document of its own
        for (q, want) in queries.iter().zip(&alone) {
            let got = run_ms(&copy, q, How::All);
            ensure!(&got == want, key0, "clone, the original being gone: {got:?}, was {want:?}");
        }
        let mut l = vec![];
        if exhausted > 0 {
            l.push("next() after the end");
        }
        if interleaved > 3 {
            l.push("interleaved iterators");
        }
        if sh == gen::Shape::Deep {
            l.push("shape:deep");
        }
        let nt = interleaved > 1 && alone.iter().any(|a| a.len() > 1);
        ok(format!("{key0} steps {steps:?}"), nt, l)
    }
    any_node!(g, f(g))
}

/// Passes size_hint through, unlike a closure-based conversion it adds nothing else
struct Mapped<'x, N: TNode>(Items<'x, N>);
impl<N: TNode> Iterator for Mapped<'_, N> {
    type Item = M;
    fn next(&mut self) -> Option<M> {
        self.0.next().map(|i| i.m())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
struct MappedRef<I>(I);
impl<'x, N: ToM + 'x, I: Iterator<Item = &'x N>> Iterator for MappedRef<I> {
    type Item = M;
    fn next(&mut self) -> Option<M> {
        self.0.next().map(ToM::m)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

// ---- C04 ----

fn c04(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        let numbered = g.chance(50);
        let (nodes, truth, sh) = doc::<N>(&mut g.sub(), numbered);
        let mut key = format!("{} {truth:?}", N::NAME);
        crate::util::current_input(&key);
        let mut soup = soup_of(nodes);
        let mut truth = truth;
        let levels = g.range(1, 4);
        let mut went = 0;
        for _ in 0..levels {
            // pick an item and narrow
            let item = {
                let items: Vec<_> = soup.iter().collect();
                if items.is_empty() {
                    break;
                }
                // prefer items with children
                let rich: Vec<usize> = (0..items.len()).filter(|i| !items[*i].m().kids.is_empty()).collect();
                let i = if !rich.is_empty() && g.chance(85) { *g.pick_of(&rich) } else { g.below(items.len()) };
                let item = &items[i];
                key += &format!(" → item {i}");
                truth = item.m().kids;
                item.query()
            };
            if g.chance(50) {
                // two of them are independent
                let again = item.clone();
                let a: Vec<M> = again.iter().map(|i| i.m()).collect();
                let want = walk_all(&truth);
                ensure!(same(&a, &want), key, "{}", diff("clone of a sub-document", &a, &want));
            }
            soup = item; // the original document is gone
            went += 1;
            let want = walk_all(&truth);
            let got: Vec<M> = soup.iter().map(|i| i.m()).collect();
            ensure!(same(&got, &want), key, "{}", diff("descendants of the item", &got, &want));
            let vocab = Vocab::some(g, &truth);
            // one document, several queries, in both modes
            for _ in 0..g.range(1, 3) {
                let mut ops = conds(g, &vocab, 3);
                if g.chance(40) {
                    let i = g.below(ops.len() + 1);
                    ops.insert(i, if g.chance(80) { Op::Strict } else { Op::Recursive });
                }
                let want = expected(&truth, &ops);
                let got = run_ms(&soup, &ops, How::All);
                ensure!(same(&got, &want), format!("{key} query {ops:?}"), "{}", diff("within the item", &got, &want));
            }
        }
        // strict mode on the sub-document: its top level
        let got: Vec<M> = soup.strict().all().map(|i| i.m()).collect();
        let want: Vec<&M> = truth.iter().collect();
        if went > 0 {
            ensure!(same(&got, &want), key, "{}", diff("top level of the sub-document", &got, &want));
        }
        let mut l = labels_of(&truth, &[], want.len(), 0, sh);
        l.push(["narrowed:0", "narrowed:1", "narrowed:2", "narrowed:3", "narrowed:4"][went]);
        ok(key, went > 0 && !truth.is_empty(), l)
    }
    any_node!(g, f(g))
}

// ---- C05 ----

/// A pattern and others that describe the same strings
fn equivalents(g: &mut Gen, w: &str) -> Vec<(&'static str, Pat)> {
    vec![
        ("&str", Pat::Str(intern(w).0)),
        ("String", Pat::String(w.into())),
        ("Cow owned", Pat::Cow(Cow::Owned(w.into()))),
        ("Cow borrowed", Pat::Cow(Cow::Borrowed(intern(w).0))),
        ("regex", Pat::Regex(regex::Regex::new(&format!(r"\A(?:{})\z", regex::escape(w))).unwrap())),
        ("user, with value", Pat::Exact(w.into())),
        ("user, without value", Pat::OneOf(if g.chance(50) { vec![w.into()] } else { vec![w.into(), w.into()] })),
    ]
}

fn c05(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        let numbered = g.chance(30);
        let (nodes, truth, _) = doc::<N>(&mut g.sub(), numbered);
        let vocab = Vocab::of(&truth);
        let soup = soup_of(nodes);
        let total = walk_all(&truth).len();
        let mut l = vec![];
        let mut nt = false;
        let mut key = format!("{} {truth:?}", N::NAME);
        // each kind of pattern, on its own, in each position
        let p = pattern(g, &vocab.names, &vocab.values);
        let n = pattern(g, &vocab.attr_names, &vocab.names);
        let v = pattern(g, &vocab.values, &vocab.attr_names);
        for op in [Op::Tag(p), Op::AttrName(n.clone()), Op::AttrValue(v.clone()), Op::Attr(n, v.clone()), Op::Class(v)] {
            let key = format!("{key} query {op:?}");
            crate::util::current_input(&key);
            let want = expected(&truth, std::slice::from_ref(&op));
            let got = run_ms(&soup, std::slice::from_ref(&op), How::All);
            ensure!(same(&got, &want), key, "{}", diff("query", &got, &want));
            nt |= nontrivial(want.len(), total);
        }
        // patterns that describe the same strings
        let w = match g.below(4) {
            0 if !vocab.names.is_empty() => g.pick_of(&vocab.names).clone(),
            1 if !vocab.attr_names.is_empty() => g.pick_of(&vocab.attr_names).clone(),
            2 if !vocab.values.is_empty() => g.pick_of(&vocab.values).clone(),
            _ => gen::any_text(g, 2),
        };
        let other = pattern(g, &vocab.values, &[]);
        key += &format!(" string {w:?}");
        for (kind, p) in equivalents(g, &w) {
            for op in [
                Op::Tag(p.clone()),
                Op::AttrName(p.clone()),
                Op::AttrValue(p.clone()),
                Op::Attr(p.clone(), other.clone()),
                Op::Attr(Pat::Bool(true), p.clone()),
                Op::Class(p.clone()),
            ] {
                let key = format!("{key} query {op:?}");
                crate::util::current_input(&key);
                let want = expected(&truth, std::slice::from_ref(&op));
                let got = run_ms(&soup, std::slice::from_ref(&op), How::All);
                ensure!(same(&got, &want), key, "{kind}: {}", diff("query", &got, &want));
                nt |= nontrivial(want.len(), total);
            }
            l.push(kind);
        }
        l.push(N::NAME);
        ok(key, nt, l)
    }
    any_node!(g, f(g))
}

/// The patterns as values: `matches`, and `value` offering what is matched
/// All patterns for `w` on the text `h`, as the definition has it
fn pattern_on<T: TText>(w: &str, h: &str, re: &regex::Regex, b: bool) -> Result<(), String> {
    let text = T::from(intern(h).0);
    let eq = w == h;
    let want = |what: &str, got: bool, want: bool| if got == want { Ok(()) } else { Err(format!("{what} matches: {got}")) };
    want("&str", Pattern::<T>::matches(&intern(w).0, &text), eq)?;
    want("String", T::string_matches(&w.to_string(), &text), eq)?;
    want("Cow::Owned", T::cow_matches(&Cow::Owned(w.to_string()), &text), eq)?;
    want("Cow::Borrowed", T::cow_matches(&Cow::Borrowed(intern(w).0), &text), eq)?;
    want("Regex", Pattern::<T>::matches(re, &text), re.is_match(h))?;
    want("bool", Pattern::<T>::matches(&b, &text), b)?;
    // a value is offered only where exactly that value matches
    let values = [
        ("&str", Pattern::<T>::value(&intern(w).0)),
        ("String", T::string_value(&w.to_string())),
        ("Cow", T::cow_value(&Cow::Owned(w.to_string()))),
    ];
    for (what, v) in values {
        if let Some(v) = v {
            if v != T::from(intern(w).0) {
                return Err(format!("{what} offers the value {v:?}"));
            }
        }
    }
    if let Some(v) = Pattern::<T>::value(&b) {
        return Err(format!("a bool offers the value {v:?}"));
    }
    Ok(())
}
fn pattern_on_all(w: &str, h: &str, re: &regex::Regex, b: bool) -> Result<(), String> {
    pattern_on::<String>(w, h, re, b)?;
    pattern_on::<Cow<'static, str>>(w, h, re, b)?;
    pattern_on::<scraper::StrTendril>(w, h, re, b)?;
    pattern_on::<Sym>(w, h, re, b)?;
    pattern_on::<Rev>(w, h, re, b)
}

/// Every character, against itself, nothing, and what resembles it
fn c05_chars(i: u64) -> R {
    let c = gen::nth_char(i);
    let h = format!("x{c}y");
    let other = char::from_u32(c as u32 ^ 0x20).or(char::from_u32(c as u32 ^ 1)).unwrap_or('y');
    let all = [h.clone(), "xy".into(), format!("x{c}"), format!("{c}y"), h.to_uppercase(), h.to_lowercase(), format!("x{other}y"), format!("x{c}{c}y"), format!("x {c}y"), format!("x{:?}y", c)];
    let re = regex::Regex::new(&format!("^x{}y$", regex::escape(&c.to_string()))).unwrap();
    crate::util::current_input(&h);
    for w in &all {
        if let Err(e) = pattern_on_all(w, &h, &re, true).and_then(|()| pattern_on_all(&h, w, &re, false)) {
            return fail(h.clone(), format!("{w:?}: {e}"));
        }
    }
    // in all positions
    let m = M::elem(h.clone(), vec![(h.clone(), h.clone())], vec![]);
    let soup = soup_of(vec![XMLNode::from_m(&m)]);
    for w in &all {
        let n = (*w == h) as usize;
        let w = w.as_str();
        let got = [soup.tag(w).all().count(), soup.attr_name(w).all().count(), soup.attr_value(w).all().count(), soup.attr(w, w).all().count()];
        ensure!(got == [n; 4], h.clone(), "{w:?} as tag, name, value and both selects {got:?}");
    }
    let got = [soup.tag(re.clone()).all().count(), soup.attr_name(re.clone()).all().count(), soup.attr_value(re).all().count()];
    ensure!(got == [1; 3], h.clone(), "a regex as tag, name and value selects {got:?}");
    ok(h, !c.is_ascii_alphanumeric(), vec!["every character"])
}

fn c05_values(g: &mut Gen) -> R {
    fn hay(g: &mut Gen) -> String {
        match g.below(3) {
            0 => g.pick(gen::VALUES).to_string(),
            1 => gen::any_text(g, 2),
            _ => g.pick(gen::NAMES).to_string(),
        }
    }
    /// A string that resembles it: in case, length, beginning or end
    fn near(g: &mut Gen, h: &str) -> String {
        let c: Vec<char> = h.chars().collect();
        let i = g.below(c.len() + 1);
        let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
        match g.below(9) {
            0 => a,
            1 => b,
            2 => format!("{a}x{b}"),
            3 => b + &a,
            4 => c.iter().rev().collect(),
            5 => h.to_uppercase(),
            6 => format!("{a}{}{b}", g.pick(&["\u{301}", " ", "\0", "\u{200b}", "\n"])),
            7 => {
                // longer by as many bytes as a small counter has values
                let n = *g.pick_of(&[128, 255, 256, 256, 512, 65_536]);
                let unit = if a.is_empty() || n % a.len() != 0 { "a" } else { &*a };
                format!("{a}{}{b}", unit.repeat(n / unit.len()))
            }
            _ => {
                // one character differs
                let mut c = c;
                if let Some(x) = c.get_mut(i) {
                    *x = char::from_u32(*x as u32 ^ 1).unwrap_or('y');
                }
                c.into_iter().collect()
            }
        }
    }
    let h = hay(g);
    let w = match g.weighted(&[40, 30, 30]) {
        0 => h.clone(),
        1 => hay(g),
        _ => near(g, &h),
    };
    let (h, w) = if g.chance(50) { (h, w) } else { (w, h) };
    let b = g.chance(50);
    let re = match g.below(4) {
        // compiled programs have a size limit
        _ if h.len() + w.len() > 3_000 => regex::Regex::new(g.pick(&["^a", "a$", "^[a-z]*$", "ax", "^$", "(?s)^.{256}"])).unwrap(),
        0 => regex::Regex::new(&format!("(?i){}", regex::escape(&w))).unwrap(),
        1 => crate::query::regex_for(g, &w),
        _ => crate::query::regex_for(g, &h),
    };
    let key = format!("pattern {w:?}, /{re}/, {b} on {h:?}");
    crate::util::current_input(&key);
    let r = pattern_on_all(&w, &h, &re, b);
    if let Err(e) = r {
        return fail(key, e);
    }
    let nt = w == h || re.is_match(&h);
    ok(key, nt, vec![if w == h { "equal" } else { "different" }])
}

// ---- C06 ----

fn c06(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        // few names and values, so that near misses abound: one attribute has the
        // name and another one the value
        let names: Vec<String> = (0..g.range(1, 5)).map(|i| if i == 0 { "class".into() } else { gen::ATTR_NAMES[g.below(12)].to_string() }).collect();
        let values: Vec<String> = (0..g.range(1, 4)).map(|_| g.pick(gen::VALUES).to_string()).collect();
        let mut m: Vec<M> = vec![];
        let many = g.chance(20);
        for _ in 0..g.range(1, 8) {
            let mut a: Vec<(String, String)> = vec![];
            let n = if many { g.range(5, 60) } else { g.below(5) };
            for i in 0..n {
                let mut name = g.pick_of(&names).clone();
                if many && g.chance(80) {
                    name = format!("{name}{i}");
                }
                if a.iter().all(|x| x.0 != name) {
                    a.push((name, g.pick_of(&values).clone()));
                }
            }
            let e = match g.below(5) {
                0 => M::void("img", a),
                1 => M::raw("style", a, "class"),
                2 => M::text(g.pick_of(&values).clone()),
                3 => M::comment(g.pick_of(&values).clone()),
                _ => M::elem("a", a, vec![]),
            };
            match m.last_mut() {
                Some(l) if l.kind == K::Elem && g.chance(40) => l.kids.push(e),
                _ => m.push(e),
            }
        }
        let nodes: Vec<N> = from_ms(&m);
        let truth = ms(&nodes);
        let vocab = Vocab::of(&truth);
        let soup = soup_of(nodes);
        let mut key = String::new();
        let mut nt = false;
        let mut l = vec![N::NAME];
        for _ in 0..4 {
            let n = pattern(g, &vocab.attr_names, &[]);
            let v = pattern(g, &vocab.values, &[]);
            let op = match g.weighted(&[60, 15, 15, 10]) {
                0 => Op::Attr(n.clone(), v.clone()),
                1 => Op::AttrName(n.clone()),
                2 => Op::AttrValue(v.clone()),
                _ => Op::Class(v.clone()),
            };
            key = format!("{} {truth:?} query {op:?}", N::NAME);
            crate::util::current_input(&key);
            let want = expected(&truth, std::slice::from_ref(&op));
            let got = run_ms(&soup, std::slice::from_ref(&op), How::All);
            ensure!(same(&got, &want), key, "{}", diff("query", &got, &want));
            // elements where the patterns are met, but by different attributes
            let split = walk_all(&truth)
                .iter()
                .filter(|x| {
                    let a = x.attrs.iter().flatten();
                    matches!(op, Op::Attr(..))
                        && a.clone().any(|(k, _)| n.means(k))
                        && a.clone().any(|(_, x)| v.means(x))
                        && !a.clone().any(|(k, x)| n.means(k) && v.means(x))
                })
                .count();
            if split > 0 {
                l.push("met by different attributes only");
            }
            nt |= split > 0 || !want.is_empty();
        }
        if many {
            l.push("many attributes");
        }
        ok(key, nt, l)
    }
    any_node!(g, f(g))
}

// ---- C07 ----

#[derive(Clone, Debug)]
enum Df {
    Unit,
    Tag(Pat),
    Attr(Pat, Pat),
    And(F, F),
    Or(F, F),
    /// user-defined: has text
    HasText,
}

#[derive(Clone, Debug)]
struct F(Rc<Df>);

impl<N: TNode> Filter<N> for F {
    fn matches(&self, n: &N) -> bool {
        match &*self.0 {
            Df::Unit => ().matches(n),
            Df::Tag(p) => Tag { tag: p.clone() }.matches(n),
            Df::Attr(k, v) => Attr { name: k.clone(), value: v.clone() }.matches(n),
            Df::And(a, b) => And(a.clone(), b.clone()).matches(n),
            Df::Or(a, b) => Or(a.clone(), b.clone()).matches(n),
            Df::HasText => n.text().is_some(),
        }
    }
}

impl F {
    fn holds(&self, m: &M) -> bool {
        match &*self.0 {
            Df::Unit => true,
            Df::Tag(p) => Op::Tag(p.clone()).holds(m),
            Df::Attr(k, v) => Op::Attr(k.clone(), v.clone()).holds(m),
            Df::And(a, b) => a.holds(m) && b.holds(m),
            Df::Or(a, b) => a.holds(m) || b.holds(m),
            Df::HasText => m.text.is_some(),
        }
    }
}

fn filter(g: &mut Gen, v: &Vocab, depth: usize) -> F {
    let leaf = depth == 0;
    F(Rc::new(match g.weighted(&[10, 30, 25, if leaf { 0 } else { 40 }, if leaf { 0 } else { 40 }, 8]) {
        0 => Df::Unit,
        1 => Df::Tag(pattern(g, &v.names, &[])),
        2 => {
            let n = pattern(g, &v.attr_names, &[]);
            Df::Attr(n, pattern(g, &v.values, &[]))
        }
        3 => {
            let a = filter(g, v, depth - 1);
            Df::And(a, filter(g, v, depth - 1))
        }
        4 => {
            let a = filter(g, v, depth - 1);
            Df::Or(a, filter(g, v, depth - 1))
        }
        _ => Df::HasText,
    }))
}

fn c07_filters(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        let (nodes, truth, _) = doc::<N>(&mut g.sub(), false);
        let vocab = Vocab::of(&truth);
        let depth = g.range(0, 4);
        let fl = filter(g, &vocab, depth);
        let key = format!("{} {truth:?} filter {fl:?}", N::NAME);
        crate::util::current_input(&key);
        let soup = soup_of(nodes);
        let (mut yes, mut no) = (0, 0);
        for item in soup.iter() {
            let m = item.m();
            let want = fl.holds(&m);
            let got = fl.matches(&*item);
            ensure!(got == want, key, "on {m:?}: {got}, expected {want}");
            if want {
                yes += 1;
            } else {
                no += 1;
            }
        }
        let l = vec![["nesting:0", "nesting:1", "nesting:2", "nesting:3", "nesting:4"][depth]];
        ok(key, yes > 0 && no > 0, l)
    }
    any_node!(g, f(g))
}

/// The laws, relating runs of the crate to each other only
fn c07_laws(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        let (mut m, _) = gen::forest(&mut g.sub(), gen::FREE);
        number_elements(&mut m);
        let soup = soup_of(from_ms::<N>(&m));
        let vocab = Vocab::of(&m);
        let mut cs = conds(g, &vocab, 3);
        if cs.len() < 2 {
            cs = vec![cond(g, &vocab), cond(g, &vocab)];
        }
        let key = format!("{} {m:?} conditions {cs:?}", N::NAME);
        crate::util::current_input(&key);
        let places = |ops: &[Op]| -> Vec<usize> { run(&soup, ops, How::All).map(|i| std::ptr::from_ref::<N>(&i) as usize).collect() };
        let each: Vec<Vec<usize>> = cs.iter().map(|c| places(std::slice::from_ref(c))).collect();
        let both = places(&cs);
        // the intersection, in the order of any of them
        let inter: Vec<usize> = each[0].iter().copied().filter(|p| each.iter().all(|e| e.contains(p))).collect();
        ensure!(both == inter, key, "together {} nodes, the intersection has {}", both.len(), inter.len());
        let mut perm = cs.clone();
        for i in (1..perm.len()).rev() {
            let j = g.below(i + 1);
            perm.swap(i, j);
        }
        ensure!(places(&perm) == both, key, "in the order {perm:?} other nodes are selected");
        let mut dup = cs.clone();
        let d = g.below(cs.len());
        let at = g.below(cs.len() + 1);
        dup.insert(at, cs[d].clone());
        ensure!(places(&dup) == both, key, "repeating condition {d} selects other nodes");
        let more = cond(g, &vocab);
        let mut longer = cs.clone();
        longer.push(more);
        let fewer = places(&longer);
        ensure!(fewer.iter().all(|p| both.contains(p)), key, "adding {:?} enlarges the result", longer.last());
        let nt = each.iter().all(|e| !e.is_empty()) && each.iter().any(|e| e.len() > both.len());
        ok(key, nt, vec![if both.is_empty() { "empty intersection" } else { "intersection" }])
    }
    any_node!(g, f(g))
}

/// The truth tables on the crate's own types, nested statically
fn c07_tables(i: u64) -> R {
    struct B(bool);
    impl<N> Filter<N> for B {
        fn matches(&self, _: &N) -> bool {
            self.0
        }
    }
    let bit = |n: u64| i >> n & 1 == 1;
    let (a, b, c) = (bit(0), bit(1), bit(2));
    let n = XMLNode::Text("x".into());
    let key = format!("{a} {b} {c}");
    let cases = [
        ("And", And(B(a), B(b)).matches(&n), a && b),
        ("Or", Or(B(a), B(b)).matches(&n), a || b),
        ("And(And)", And(And(B(a), B(b)), B(c)).matches(&n), a && b && c),
        ("And(_, And)", And(B(a), And(B(b), B(c))).matches(&n), a && b && c),
        ("Or(Or)", Or(Or(B(a), B(b)), B(c)).matches(&n), a || b || c),
        ("Or(And, _)", Or(And(B(a), B(b)), B(c)).matches(&n), a && b || c),
        ("Or(_, And)", Or(B(a), And(B(b), B(c))).matches(&n), a || b && c),
        ("And(Or, _)", And(Or(B(a), B(b)), B(c)).matches(&n), (a || b) && c),
        ("And(_, Or)", And(B(a), Or(B(b), B(c))).matches(&n), a && (b || c)),
        ("And((), _)", And((), B(a)).matches(&n), a),
        ("And(_, ())", And(B(a), ()).matches(&n), a),
        ("Or((), _)", Or((), B(a)).matches(&n), true),
        ("Or(_, ())", Or(B(a), ()).matches(&n), true),
    ];
    for (what, got, want) in cases {
        ensure!(got == want, key, "{what}: {got}");
    }
    ok(key, true, vec!["truth tables"])
}

// ---- C08 ----

trait Kids: TNode {
    /// What iterating the node gives, if it can be iterated
    fn kids_m(&self) -> Option<[Vec<M>; 2]>;
}
impl<S: AsRef<str>> Kids for HTMLNode<S>
where
    HTMLNode<S>: TNode,
{
    fn kids_m(&self) -> Option<[Vec<M>; 2]> {
        Some([self.iter().map(ToM::m).collect(), self.into_iter().map(ToM::m).collect()])
    }
}
impl Kids for XMLNode {
    fn kids_m(&self) -> Option<[Vec<M>; 2]> {
        Some([self.iter().map(ToM::m).collect(), self.into_iter().map(ToM::m).collect()])
    }
}
impl<T: Ord> Kids for MyNode<T>
where
    MyNode<T>: TNode,
{
    fn kids_m(&self) -> Option<[Vec<M>; 2]> {
        None
    }
}

fn check_nav<N: Kids>(n: &N, m: &M, key: &str) -> Result<(), Fail> {
    let mut want = vec![];
    m.walk(&mut want);
    let mut it = n.descendants();
    let refs: Vec<&N> = it.by_ref().collect();
    ensure!((0..3).all(|_| it.next().is_none()), key, "descendants() goes on after its end");
    let got: Vec<M> = refs.iter().map(|n| n.m()).collect();
    ensure!(same(&got, &want), key, "{}", diff("descendants()", &got, &want));
    // what is left after some steps, consumed in one go
    for steps in [0, 1, 2, refs.len() / 2, refs.len().saturating_sub(1)] {
        let rest = || {
            let mut it = n.descendants();
            assert_eq!(it.by_ref().take(steps).count(), steps.min(refs.len()));
            it
        };
        let left = refs.get(steps..).unwrap_or(&[]);
        let same = |a: &[&N], b: &[&N]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| std::ptr::eq(*x, *y));
        let folded = rest().fold(vec![], |mut v, x| {
            v.push(x);
            v
        });
        ensure!(same(&folded, left), key, "after {steps} steps of descendants(), fold() sees {} nodes, {} are left", folded.len(), left.len());
        ensure!(rest().count() == left.len(), key, "after {steps} steps of descendants(), count() is {}, {} are left", rest().count(), left.len());
        ensure!(rest().last().map(std::ptr::from_ref) == left.last().map(|x| std::ptr::from_ref::<N>(x)), key, "after {steps} steps of descendants(), last() is wrong");
        ensure!(rest().nth(1).map(std::ptr::from_ref) == left.get(1).map(|x| std::ptr::from_ref::<N>(x)), key, "after {steps} steps of descendants(), nth(1) is wrong");
        let (low, high) = rest().size_hint();
        ensure!(low <= left.len() && high.is_none_or(|h| h >= left.len()), key, "after {steps} steps of descendants(), size_hint() is {:?}, {} are left", (low, high), left.len());
        if refs.len() > 500 {
            break;
        }
    }
    let places: HashSet<_> = refs.iter().map(|r| std::ptr::from_ref::<N>(r)).collect();
    ensure!(places.len() == refs.len(), key, "descendants() yields a node twice");
    let text = want.iter().filter_map(|n| n.text.as_deref()).collect::<Vec<_>>().join("\n");
    ensure!(n.all_text() == text, key, "all_text() is {:?}, expected {text:?}", n.all_text());
    let kids = ms(n.children());
    ensure!(kids == m.kids, key, "children() are {kids:?}");
    for k in n.kids_m().into_iter().flatten() {
        ensure!(k == m.kids, key, "iterating the node gives {k:?}");
    }
    ensure!(n.name().map(AsRef::as_ref) == m.name.as_deref(), key, "name() is {:?}", n.name());
    ensure!(n.text().map(AsRef::as_ref) == m.text.as_deref(), key, "text() is {:?}", n.text());
    let attrs: Option<Vec<(String, String)>> =
        n.attrs().map(|a| sorted(a.iter().map(|(k, v)| (k.as_ref().to_string(), v.as_ref().to_string())).collect()));
    ensure!(attrs == m.attrs, key, "attrs() are {attrs:?}");
    Ok(())
}

fn check_get<N: TNode>(n: &N, m: &M, name: &str, key: &str) -> Result<(), Fail> {
    let got = n.get(intern(name).0).map(AsRef::as_ref);
    let want = m.attr(name).map(String::as_str);
    ensure!(got == want, key, "get({name:?}) is {got:?}, expected {want:?}");
    Ok(())
}

fn c08(g: &mut Gen) -> R {
    fn f<N: Kids>(g: &mut Gen) -> R {
        let (m, sh) = gen::forest(&mut g.sub(), gen::FREE);
        let nodes: Vec<N> = from_ms(&m);
        let truth = ms(&nodes);
        let key = format!("{} {truth:?}", N::NAME);
        crate::util::current_input(&key);
        let vocab = Vocab::of(&truth);
        let mut deep = 0;
        // pairs of nodes and their models, by the public enums
        let mut stack: Vec<(&N, &M)> = nodes.iter().zip(&truth).collect();
        let mut visited = 0;
        while let Some((n, m)) = stack.pop() {
            visited += 1;
            if visited <= if gen::is_huge() { 3 } else { 60 } || m.kids.is_empty() {
                check_nav(n, m, &key)?;
            }
            for (k, _) in m.attrs.iter().flatten() {
                check_get(n, m, k, &key)?;
            }
            for name in ["class", "", "zz"] {
                check_get(n, m, name, &key)?;
            }
            if !vocab.attr_names.is_empty() {
                let name = g.pick_of(&vocab.attr_names).clone();
                check_get(n, m, &name, &key)?;
                check_get(n, m, &name.to_uppercase(), &key)?;
            }
            deep = deep.max(m.kids.len());
            stack.extend(n.children().iter().zip(&m.kids));
        }
        // the iterators' own methods, such as nth and last
        if !nodes.is_empty() && !gen::is_huge() {
            let mut n = g.pick_of(&nodes);
            while !n.children().is_empty() && g.chance(50) {
                n = g.pick_of(n.children());
            }
            let each: Vec<*const N> = n.descendants().map(std::ptr::from_ref).collect();
            let seed = g.raw();
            let want = by_methods(each.iter().copied(), seed);
            let (got, numbers) = by_methods(n.descendants(), seed);
            let got: Vec<*const N> = got.into_iter().map(std::ptr::from_ref).collect();
            let at = |v: &[*const N]| -> Vec<Option<usize>> { v.iter().map(|p| each.iter().position(|q| q == p)).collect() };
            ensure!((&got, &numbers) == (&want.0, &want.1), key, "methods ({seed}) of the iterator over descendants: items {:?}, answers {numbers:?}; by next() {:?}, {:?}", at(&got), at(&want.0), want.1);
        }
        // the items of a document navigate like the nodes
        let soup = soup_of(nodes);
        for (item, m) in soup.iter().zip(walk_all(&truth)).take(if gen::is_huge() { 2 } else { 20 }) {
            if item.m() == *m {
                check_nav::<N>(&item, m, &key)?;
            }
        }
        let l = labels_of(&truth, &[], 0, 0, sh);
        ok(key, deep > 1, l)
    }
    any_node!(g, f(g))
}

fn c08_mixed(g: &mut Gen) -> R {
    fn f<N: Kids>(g: &mut Gen) -> R {
        let mut left = 25;
        let m = gen::mixed(g, 0, &mut left);
        let n = N::from_m(&m);
        let m = n.m();
        let key = format!("{} {m:?}", N::NAME);
        crate::util::current_input(&key);
        let mut stack = vec![(&n, &m)];
        while let Some((n, m)) = stack.pop() {
            check_nav(n, m, &key)?;
            stack.extend(n.children().iter().zip(&m.kids));
        }
        let texts = walk_all(std::slice::from_ref(&m)).iter().filter(|n| n.text.is_some() && !n.kids.is_empty()).count();
        ok(key, texts > 0, vec!["user-defined"])
    }
    if g.chance(50) { f::<MyNode<Sym>>(g) } else { f::<MyNode<Rev>>(g) }
}

// ---- C09 ----

fn c09_query(g: &mut Gen) -> R {
    fn f<N: TNode>(g: &mut Gen) -> R {
        let mut left = 25;
        let top: Vec<M> = (0..g.range(0, 4)).map(|_| gen::mixed(g, 0, &mut left)).collect();
        let nodes: Vec<N> = from_ms(&top);
        let truth = ms(&nodes);
        let vocab = Vocab::of(&truth);
        let base = conds(g, &vocab, 3);
        let ops = if g.chance(40) { with_modes(g, &base) } else { base };
        let key = format!("{} {truth:?} query {ops:?}", N::NAME);
        crate::util::current_input(&key);
        let soup = soup_of(nodes);
        let want = expected(&truth, &ops);
        let got = run_ms(&soup, &ops, How::All);
        ensure!(same(&got, &want), key, "{}", diff("query", &got, &want));
        let first = run_ms(&soup, &ops, How::First);
        ensure!(first.first() == want.first().copied(), key, "first() is {first:?}");
        for (item, m) in soup.iter().zip(walk_all(&truth)) {
            let got: Vec<M> = item.descendants().map(ToM::m).collect();
            let mut want = vec![];
            m.walk(&mut want);
            ensure!(same(&got, &want), key, "{}", diff("descendants()", &got, &want));
            let sub: Vec<M> = item.query().iter().map(|i| i.m()).collect();
            ensure!(same(&sub, &want[1..]), key, "{}", diff("sub-query", &sub, &want[1..]));
        }
        let total = walk_all(&truth).len();
        let odd = walk_all(&truth).iter().any(|n| n.name.is_none() && (n.attrs.is_some() || !n.kids.is_empty()));
        ok(key, nontrivial(want.len(), total) && odd, vec![N::NAME])
    }
    if g.chance(50) { f::<MyNode<Sym>>(g) } else { f::<MyNode<Rev>>(g) }
}

/// Text that is not a string at all
#[derive(Clone, Copy)]
enum NumPat {
    Eq(u32),
    EqValue(u32),
    Even,
    Any,
    Less(u32),
}

impl Pattern<u32> for NumPat {
    fn matches(&self, h: &u32) -> bool {
        match self {
            NumPat::Eq(n) | NumPat::EqValue(n) => h == n,
            NumPat::Even => h % 2 == 0,
            NumPat::Any => true,
            NumPat::Less(n) => h < n,
        }
    }
    fn value(&self) -> Option<u32> {
        match self {
            NumPat::EqValue(n) => Some(*n),
            _ => None,
        }
    }
}

fn num_node(g: &mut Gen, depth: usize, left: &mut usize) -> MyNode<u32> {
    let mut n = MyNode { name: None, text: None, attrs: None, kids: vec![] };
    n.name = g.chance(70).then(|| g.below(6) as u32);
    n.text = g.chance(40).then(|| g.below(1000) as u32);
    n.attrs = g.chance(60).then(|| (0..g.below(4)).map(|_| (g.below(5) as u32, g.below(5) as u32)).collect());
    if depth < 5 {
        for _ in 0..g.below(4) {
            if *left > 0 {
                *left -= 1;
                n.kids.push(num_node(g, depth + 1, left));
            }
        }
    }
    n
}

fn num_walk<'a>(n: &'a MyNode<u32>, out: &mut Vec<&'a MyNode<u32>>) {
    out.push(n);
    n.kids.iter().for_each(|k| num_walk(k, out));
}

fn c09_numbers(g: &mut Gen) -> R {
    fn pat(g: &mut Gen) -> NumPat {
        match g.below(5) {
            0 => NumPat::Eq(g.below(6) as u32),
            1 => NumPat::EqValue(g.below(6) as u32),
            2 => NumPat::Even,
            3 => NumPat::Any,
            _ => NumPat::Less(g.below(6) as u32),
        }
    }
    let mut left = 20;
    let top: Vec<MyNode<u32>> = (0..g.range(0, 3)).map(|_| num_node(g, 0, &mut left)).collect();
    let (t, n, v) = (pat(g), pat(g), pat(g));
    let b = g.chance(70);
    let key = format!("{top:?}");
    crate::util::current_input(&key);
    let mut all = vec![];
    top.iter().for_each(|n| num_walk(n, &mut all));
    let tag_ok = |x: &&MyNode<u32>| x.name.is_some_and(|h| t.matches(&h));
    let attr_ok = |x: &&MyNode<u32>| x.attrs.as_ref().is_some_and(|a| a.iter().any(|(k, x)| n.matches(k) && v.matches(x)));
    let soup = soup_of(top.clone());
    let eq = |what: &str, got: Vec<MyNode<u32>>, want: Vec<&MyNode<u32>>| {
        ensure!(got.iter().eq(want.iter().copied()), key, "{what}: {got:?}, expected {want:?}");
        Ok(())
    };
    eq("all", soup.iter().map(|i| (*i).clone()).collect(), all.clone())?;
    eq("tag", soup.tag(t).all().map(|i| (*i).clone()).collect(), all.iter().copied().filter(|x| tag_ok(x)).collect())?;
    eq("attr", soup.attr(n, v).all().map(|i| (*i).clone()).collect(), all.iter().copied().filter(|x| attr_ok(x)).collect())?;
    eq(
        "tag and attr",
        soup.tag(t).attr(n, v).all().map(|i| (*i).clone()).collect(),
        all.iter().copied().filter(|x| tag_ok(x) && attr_ok(x)).collect(),
    )?;
    eq("attr_name", soup.attr_name(n).all().map(|i| (*i).clone()).collect(), {
        all.iter().copied().filter(|x| x.attrs.as_ref().is_some_and(|a| a.keys().any(|k| n.matches(k)))).collect()
    })?;
    eq("attr_value", soup.attr_value(v).all().map(|i| (*i).clone()).collect(), {
        all.iter().copied().filter(|x| x.attrs.as_ref().is_some_and(|a| a.values().any(|k| v.matches(k)))).collect()
    })?;
    eq("tag(bool)", soup.tag(b).all().map(|i| (*i).clone()).collect(), all.iter().copied().filter(|x| b && x.name.is_some()).collect())?;
    eq("strict", soup.tag(t).strict().all().map(|i| (*i).clone()).collect(), top.iter().filter(|x| tag_ok(x)).collect())?;
    for item in soup.iter() {
        let text: Vec<String> = item.descendants().filter_map(|n| n.text).map(|t| t.to_string()).collect();
        ensure!(item.all_text() == text.join("\n"), key, "all_text()");
    }
    let hits = all.iter().filter(|x| attr_ok(x)).count();
    ok(key.clone(), nontrivial(hits, all.len()), vec!["number texts"])
}

/// A parser that says what it was given
struct Scripted;
thread_local! {
    static CALLS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
}
#[derive(Debug, Clone, PartialEq)]
struct MyError(String, Vec<M>);

impl Parser for Scripted {
    type Input = (String, Result<Vec<MyNode<Sym>>, MyError>);
    type Node = MyNode<Sym>;
    type Error = MyError;
    fn parse(input: Self::Input) -> Result<Vec<MyNode<Sym>>, MyError> {
        CALLS.with(|c| c.borrow_mut().push(input.0));
        input.1
    }
}

fn c09_parser(g: &mut Gen) -> R {
    let mut left = 15;
    let top: Vec<M> = (0..g.range(0, 6)).map(|_| gen::mixed(g, 2, &mut left)).collect();
    let tag = gen::any_text(g, 2);
    let fails = g.chance(40);
    let key = format!("{tag:?} {top:?} fails {fails}");
    crate::util::current_input(&key);
    CALLS.with(|c| c.borrow_mut().clear());
    let nodes: Vec<MyNode<Sym>> = from_ms(&top);
    let truth = ms(&nodes);
    let error = MyError(tag.clone(), truth.clone());
    let r = Soup::new::<Scripted>((tag.clone(), if fails { Err(error.clone()) } else { Ok(nodes) }));
    let calls = CALLS.with(|c| c.borrow().clone());
    ensure!(calls == [tag.clone()], key, "the parser was called with {calls:?}");
    match (r, fails) {
        (Err(e), true) => ensure!(e == error, key, "the error became {e:?}"),
        (Ok(soup), false) => {
            let got: Vec<M> = soup.strict().all().map(|i| i.m()).collect();
            let want: Vec<&M> = truth.iter().collect();
            ensure!(same(&got, &want), key, "{}", diff("top level", &got, &want));
            let got: Vec<M> = soup.iter().map(|i| i.m()).collect();
            let want = walk_all(&truth);
            ensure!(same(&got, &want), key, "{}", diff("all nodes", &got, &want));
        }
        (Err(e), false) => return fail(key, format!("error {e:?}, but the parser succeeded")),
        (Ok(_), true) => return fail(key, "no error, but the parser failed"),
    }
    ok(key, top.len() > 1, vec![if fails { "error" } else { "nodes" }])
}

use crate::engine::{Enumeration, Part, Prop};

const fn part(name: &'static str, quick: u64, tape: usize, f: fn(&mut Gen) -> R) -> Part {
    Part { name, quick, thorough: quick * 40, tape, f }
}

pub fn props() -> Vec<Prop> {
    let _: Option<Case> = None;
    vec![
        Prop {
            id: "C01",
            rule: "Random forests of every node type of the crate and of user-defined types (built directly, parsed, or with children that several parents share), random chains of 0-5 conditions aimed at the strings of the document; all forests of up to 5 (thorough: 6) nodes with 8 queries. Non-trivial: the query selects some but not all nodes (parsed: at least one; small forests: two hits).",
            parts: vec![part("direct", 200_000, 800, c01_direct), part("parsed", 40_000, 800, c01_parsed), part("shared", 60_000, 300, c01_shared), part("huge", 700, 400, |g| gen::huge(|| c01_direct(g))), part("huge parsed", 500, 400, |g| gen::huge(|| c01_parsed(g)))],
            enums: vec![Enumeration { name: "small", count: small_count, f: c01_small }],
            ..Prop::new()
        },
        Prop {
            id: "C02",
            rule: "As C01, with strict()/recursive() at random places of the chain, on documents and on items turned into documents; each query also in a second arrangement with the same last switch. Non-trivial: strict mode, something selected, and deeper nodes would match too.",
            parts: vec![part("modes", 320_000, 800, c02), part("huge", 500, 400, |g| gen::huge(|| c02(g)))],
            enums: vec![Enumeration { name: "small", count: small_count, f: c02_small }],
            ..Prop::new()
        },
        Prop {
            id: "C03",
            rule: "Histories of 3-60 steps (new iterators, next() on any of them, size_hint, first, all, for loops, copies of queries, adaptors, random sequences of iterator methods, descendants) on a document and its clone; the reference is the query run alone on a fresh copy. Non-trivial: iterators interleaved and a query with two or more results.",
            parts: vec![part("history", 60_000, 1000, c03), part("huge", 160, 400, |g| gen::huge(|| c03(g)))],
            ..Prop::new()
        },
        Prop {
            id: "C04",
            rule: "Random documents, narrowed 1-4 times to a random item, the outer document dropped each time; all nodes, random queries and the top level of the narrowed document against the model. Non-trivial: the last item has children.",
            parts: vec![part("narrow", 180_000, 800, c04), part("huge", 400, 400, |g| gen::huge(|| c04(g)))],
            ..Prop::new()
        },
        Prop {
            id: "C05",
            rule: "Random documents; patterns of every kind in every position against what they mean, and seven patterns that describe the same string in six positions; patterns as values on five text types; every character of the BMP and 30,000 others (thorough: all) in pattern and value. Non-trivial: some query selects some but not all nodes (values: the pattern matches).",
            parts: vec![part("positions", 48_000, 800, c05), part("values", 160_000, 40, c05_values), part("huge", 200, 400, |g| gen::huge(|| c05(g)))],
            enums: vec![Enumeration { name: "characters", count: gen::char_count, f: c05_chars }],
            ..Prop::new()
        },
        Prop {
            id: "C06",
            rule: "Elements whose attributes are drawn from few names and values, up to 60 attributes; four attribute conditions per document. Non-trivial: something is selected, or name and value are met by different attributes only.",
            parts: vec![part("attributes", 320_000, 800, c06)],
            ..Prop::new()
        },
        Prop {
            id: "C07",
            rule: "Random filter trees (And, Or, (), Tag, Attr, user-defined; nesting up to 4) on every node of random documents; laws of conjunction between runs of the crate; truth tables. Non-trivial: the filter holds for some nodes and not for others (laws: each condition selects something and one of them more than all together).",
            parts: vec![part("filters", 240_000, 800, c07_filters), part("laws", 120_000, 800, c07_laws), part("huge", 300, 400, |g| gen::huge(|| c07_filters(g))), part("huge laws", 200, 400, |g| gen::huge(|| c07_laws(g)))],
            enums: vec![Enumeration { name: "tables", count: |_| 8, f: c07_tables }],
            ..Prop::new()
        },
        Prop {
            id: "C08",
            rule: "Random documents of every node type; every navigation function on every node against the model; the methods of the iterator over descendants. Non-trivial: a node with two or more children (user-defined: a node with text and children).",
            parts: vec![part("nodes", 20_000, 800, c08), part("mixed", 10_000, 200, c08_mixed), part("huge", 300, 400, |g| gen::huge(|| c08(g)))],
            ..Prop::new()
        },
        Prop {
            id: "C09",
            rule: "User-defined nodes with any combination of name, text, attributes and children, texts being interned symbols, strings in reverse order, or numbers; parsers that succeed or fail. Non-trivial: some but not all nodes selected and a nameless node with attributes or children (numbers: some but not all; parser: two top-level nodes).",
            parts: vec![part("query", 180_000, 600, c09_query), part("numbers", 120_000, 200, c09_numbers), part("parser", 60_000, 200, c09_parser)],
            ..Prop::new()
        },
    ]
}
