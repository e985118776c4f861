//! Properties across formats, features, histories and threads: C25, C26, C27.
use crate::engine::{fail, ok, Enumeration, Part, Prop, R};
use crate::ensure;
use crate::model::{from_ms, soup_of, walk_all, MyNode, Strict, Sym, ToM, K, M};
use crate::p_strict::{boundary, token_soup};
use crate::query::{conds, expected, run_ms, How, Op, Vocab};
use crate::tape::Gen;
use crate::{gen, ser};
use soupy::parser::XMLNode;
use soupy::{Node, Queryable, Soup};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};

// ---- C25 ----

/// The node without what only some formats have
fn plain(m: &M) -> M {
    let mut p = M::elem("", vec![], m.kids.iter().map(plain).collect());
    p.kind = K::Mixed;
    p.name = m.name.clone();
    p.attrs = m.attrs.clone();
    p.text = m.text.clone();
    p
}

/// The node as the trait shows it
fn shown<N: crate::query::TNode>(n: &N) -> M {
    let mut m = M::elem("", vec![], n.children().iter().map(shown).collect());
    m.kind = K::Mixed;
    m.name = n.name().map(|x| x.as_ref().to_string());
    m.text = n.text().map(|x| x.as_ref().to_string());
    m.attrs = n.attrs().map(|a| {
        let mut a: Vec<_> = a.iter().map(|(k, v)| (k.as_ref().to_string(), v.as_ref().to_string())).collect();
        a.sort();
        a
    });
    m
}

struct Answer {
    items: Vec<M>,
    all_text: Vec<String>,
    first: Option<M>,
    got: Vec<Option<String>>,
    strict: Vec<M>,
    inside: Vec<Vec<M>>,
}

fn answer<N: crate::query::TNode>(soup: &Soup<N>, ops: &[Op], inner: &[Op], names: &[&'static str]) -> Answer {
    let items: Vec<_> = crate::query::run(soup, ops, How::All).collect();
    Answer {
        items: items.iter().map(|i| shown(&**i)).collect(),
        all_text: items.iter().map(|i| i.all_text()).collect(),
        first: crate::query::run(soup, ops, How::First).next().map(|i| shown(&*i)),
        got: items.iter().flat_map(|i| names.iter().map(|n| i.get(*n).map(|v| v.as_ref().to_string()))).collect(),
        strict: soup.strict().all().map(|i| shown(&*i)).collect(),
        inside: items.iter().take(5).map(|i| run_ms(&i.query(), inner, How::All).iter().map(plain).collect()).collect(),
    }
}

fn c25(g: &mut Gen) -> R {
    let root = gen::common_root(&mut g.sub(), 25);
    let top = [root.clone()];
    let truth = [plain(&root)];
    let (html, xml, body) = (ser::html(g, &top), ser::xml(g, &top, &ser::no_decls), ser::html5(g, &top));
    let page = match g.below(3) {
        0 => format!("<!DOCTYPE html><html><head><title>t</title></head><body>{body}</body></html>"),
        1 => format!("<body>{body}"),
        _ => format!("<!doctype html><title>t</title><body class=\"b\">{body}</body>"),
    };
    let vocab = Vocab::some(g, &truth);
    let ops = conds(g, &vocab, 3);
    let inner = conds(g, &vocab, 2);
    let names = ["id", "class", "x", "none"];
    let key = format!("{html}\n   as XML {xml}\n   as a page {page}\n   query {ops:?}, in the results {inner:?}");
    crate::util::current_input(&key);

    let want: Vec<M> = expected(&truth, &ops).into_iter().cloned().collect();
    let html = crate::model::intern(&html).0;
    let mut all = vec![("user-defined", answer(&soup_of(from_ms::<MyNode<Sym>>(&truth)), &ops, &inner, &names))];
    match Soup::html_strict(html) {
        Ok(s) => all.push(("strict HTML", answer(&s, &ops, &inner, &names))),
        Err(e) => return fail(key, format!("strict HTML is rejected: {e:?}")),
    }
    match Soup::xml(xml.as_bytes()) {
        Ok(s) => all.push(("XML", answer(&s, &ops, &inner, &names))),
        Err(e) => return fail(key, format!("XML is rejected: {e:?}")),
    }
    let doc = Soup::html(page.as_str());
    match doc.tag("body").first() {
        Some(b) => all.push(("lenient HTML", answer(&b.query(), &ops, &inner, &names))),
        None => return fail(key, "the page has no body"),
    }
    ensure!(all[0].1.items == want, key, "\n   user-defined {:?}\n   want         {want:?}", all[0].1.items);
    for (name, a) in &all[1..] {
        let u = &all[0].1;
        ensure!(a.items == u.items, key, "results differ\n   user-defined {:?}\n   {name} {:?}", u.items, a.items);
        ensure!(a.all_text == u.all_text, key, "texts differ\n   user-defined {:?}\n   {name} {:?}", u.all_text, a.all_text);
        ensure!(a.first == u.first, key, "first results differ\n   user-defined {:?}\n   {name} {:?}", u.first, a.first);
        ensure!(a.got == u.got, key, "attributes differ\n   user-defined {:?}\n   {name} {:?}", u.got, a.got);
        ensure!(a.strict == u.strict, key, "top levels differ\n   user-defined {:?}\n   {name} {:?}", u.strict, a.strict);
        ensure!(a.inside == u.inside, key, "results within the results differ\n   user-defined {:?}\n   {name} {:?}", u.inside, a.inside);
    }
    let n = walk_all(&truth).len();
    let mut l = vec![if n > 10 { "nodes:11+" } else if n > 3 { "nodes:4-10" } else { "nodes:1-3" }];
    l.push(if want.is_empty() { "no results" } else { "results" });
    ok(key, n > 3 && !want.is_empty(), l)
}

// ---- C26 ----

fn bin_dir() -> PathBuf {
    crate::util::verif_dir().join("target/features/bin")
}

/// Sets of features, from none to all, and the two that name groups
fn sets() -> Vec<String> {
    let mut out = vec![];
    for i in 0..16 {
        let s: Vec<&str> = ["regex", "lenient", "strict", "xml"].into_iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|x| x.1).collect();
        out.push(if s.is_empty() { "none".into() } else { s.join("+") });
    }
    out.push("html".into());
    out.push("default-set".into());
    out
}

fn has(set: &str, f: &str) -> bool {
    set == "default-set" || set.split('+').any(|x| x == f || (x == "html" && (f == "strict" || f == "lenient")))
}

/// Did it build? (check.sh has run features/build.sh)
fn c26_builds(i: u64) -> R {
    let set = &sets()[i as usize];
    let status = std::fs::read_to_string(bin_dir().join(format!("{set}.status"))).unwrap_or_default();
    if status.trim() != "0" {
        let log = std::fs::read_to_string(bin_dir().join(format!("{set}.log"))).unwrap_or_default();
        let errors: String = log.lines().skip_while(|l| !l.starts_with("error")).take(30).collect::<Vec<_>>().join("\n");
        if set == "default-set" || errors.is_empty() {
            println!("ERROR: the probe does not build: {log}");
            std::process::exit(3);
        }
        return fail(format!("features {set}"), format!("does not build:\n{errors}"));
    }
    ok(format!("build with features {set}"), true, vec!["build"])
}

fn probe(set: &str, input: &str) -> Result<Vec<BTreeMap<String, String>>, String> {
    let mut child = Command::new(bin_dir().join(set))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut stdin = child.stdin.take().unwrap();
    let text = input.to_string();
    let writer = std::thread::spawn(move || drop(stdin.write_all(text.as_bytes())));
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    let _ = writer.join();
    if !out.status.success() {
        return Err(format!("{:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let text = String::from_utf8_lossy(&out.stdout);
    Ok(text
        .lines()
        .map(|l| l.split('\t').filter_map(|f| f.split_once(':')).map(|(k, v)| (k.to_string(), v.to_string())).collect())
        .collect())
}

/// A document of any kind: format (preferred) and text
fn any_doc(g: &mut Gen) -> (usize, String) {
    match g.weighted(&[25, 15, 20, 15, 15, 10]) {
        0 => {
            let (m, _) = gen::forest(&mut g.sub(), gen::Cfg { nodes: 15, ..gen::HTML });
            (0, ser::html(g, &m))
        }
        1 => (0, token_soup(g, 20)),
        2 => {
            let m = gen::xml_root(&mut g.sub(), 15).0;
            (2, ser::xml(g, &[m], &ser::no_decls))
        }
        3 => (1, crate::p_lenient::any_html(g)),
        4 => {
            let m = gen::common_root(&mut g.sub(), 15);
            (g.below(3), ser::xml(g, &[m], &ser::no_decls))
        }
        _ => {
            let p = crate::p_lenient::page(&mut g.sub());
            (g.below(2), ser::html5(g, &p))
        }
    }
}

fn c26(g: &mut Gen) -> R {
    let mut docs = vec![];
    for _ in 0..g.range(1, 5) {
        let mut s = any_doc(g).1;
        if g.chance(15) {
            let i = boundary(g, &s);
            s.insert_str(i, g.pick(&["<", ">", "</a>", "&x;", "\"", "<b>", "&amp", "<!--"]));
        }
        // words of the document, in its case or another, and others
        let inside: Vec<String> = s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).take(60).map(Into::into).collect();
        let mut tags: Vec<String> = s.split('<').skip(1).filter_map(|t| t.split(|c: char| !c.is_alphanumeric()).next()).filter(|w| !w.is_empty()).map(Into::into).collect();
        tags.truncate(40);
        let word = |g: &mut Gen| match g.weighted(&[30, 30, 20, 10, 10]) {
            0 | 1 if !inside.is_empty() => {
                let mut w = if g.chance(60) && !tags.is_empty() { g.pick_of(&tags).clone() } else { g.pick_of(&inside).clone() };
                match g.weighted(&[60, 12, 12, 8, 8]) {
                    0 => {}
                    1 => w.make_ascii_uppercase(),
                    2 => w.make_ascii_lowercase(),
                    3 => drop(w.pop()),
                    _ => w = format!(" {w}"),
                }
                w
            }
            0..=2 => g.pick(&["a", "b", "div", "p", "class", "root", "br", ""]).to_string(),
            3 => g.pick(gen::VALUES).to_string(),
            _ => g.pick(gen::NAMES).to_string(),
        };
        let (a, b) = (word(g), word(g));
        docs.push((s, a, b));
    }
    let mut input = String::new();
    for (s, a, b) in &docs {
        input += &format!("{} {} {}\n{s}{a}{b}", s.len(), a.len(), b.len());
    }
    let key = format!("{docs:?}");
    crate::util::current_input(&key);
    let all = match probe("default-set", &input) {
        Ok(a) => a,
        // that it answers at all is for other checks
        Err(_) => return ok(key, false, vec!["no answer with the default features"]),
    };
    assert_eq!(all.len(), docs.len());
    let mut fields = 0;
    let mut others: Vec<String> = sets().into_iter().filter(|s| s != "default-set").collect();
    for _ in 0..5 {
        let set = &others.swap_remove(g.below(others.len()));
        let got = match probe(set, &input) {
            Ok(a) => a,
            Err(e) => return fail(key, format!("with features {set}: {e}")),
        };
        ensure!(got.len() == all.len(), key, "with features {set}: {} answers", got.len());
        for (i, (one, full)) in got.iter().zip(&all).enumerate() {
            for (k, v) in one {
                ensure!(full.get(k) == Some(v), format!("{:?}", docs[i]), "{k} with features {set}: {v}\n   with the default features: {:?}", full.get(k));
                fields += 1;
            }
            for k in full.keys() {
                let format = k.split('-').next().unwrap();
                let there = format == "user" || has(set, format);
                let there = there && (!k.contains("regex") || has(set, "regex"));
                ensure!(!there || one.contains_key(k), format!("{:?}", docs[i]), "{k} is missing with features {set}");
            }
        }
    }
    ok(key, fields > 50, vec![["", "documents:1", "documents:2", "documents:3", "documents:4", "documents:5"][docs.len()]])
}

// ---- C27 ----

struct Doc {
    format: usize,
    text: String,
    ops: Vec<Op>,
}

struct History {
    docs: Vec<Doc>,
    steps: Vec<usize>,
    /// parsed this often before all are parsed again
    bulk: Vec<(usize, usize)>,
    threads: usize,
    /// the threads come first, so that they make the first use of everything
    threads_first: bool,
}

/// Documents, many of them related, and the order in which they are parsed
fn plan(g: &mut Gen) -> History {
    let mut docs: Vec<Doc> = vec![];
    for _ in 0..g.range(2, 6) {
        let (format, text) = if !docs.is_empty() && g.chance(50) {
            let old = g.pick_of(&docs);
            let (mut format, mut s) = (old.format, old.text.clone());
            match g.below(5) {
                0 => {
                    // another text of the same length
                    let c = s.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).map(|x| x.0).collect::<Vec<_>>();
                    if !c.is_empty() {
                        for _ in 0..g.range(1, 3) {
                            let i = *g.pick_of(&c);
                            s.replace_range(i..=i, g.pick(&["a", "b", "x", "1"]));
                        }
                    }
                }
                1 => {
                    let i = boundary(g, &s);
                    s.truncate(i);
                }
                2 => {
                    let i = boundary(g, &s);
                    s.insert_str(i, g.pick(&["<", "</a>", "<b>", "x", "&amp;", "<!--", "'"]));
                }
                3 => format = g.below(3),
                _ => s.make_ascii_uppercase(),
            }
            (format, s)
        } else {
            any_doc(g)
        };
        let vocab = {
            // words of the text itself
            let mut w: Vec<String> = text.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(Into::into).take(40).collect();
            w.sort();
            w.dedup();
            Vocab { names: w.clone(), attr_names: w.clone(), values: w }
        };
        let ops = conds(g, &vocab, 3);
        docs.push(Doc { format, text, ops });
    }
    let steps = (0..g.range(2, 12)).map(|_| g.below(docs.len())).collect();
    let mut bulk = vec![];
    if g.chance(60) {
        for _ in 0..g.range(1, 2) {
            let i = g.below(docs.len());
            let most = (2_000_000 / (docs[i].text.len() + 20)).max(1);
            bulk.push((i, [10, 40, 150, 300, 1100, 5000][g.weighted(&[10, 10, 20, 20, 20, 20])].min(most)));
        }
    }
    History { docs, steps, bulk, threads: g.range(2, 6), threads_first: g.chance(40) }
}

fn digest_soup<N: crate::query::TNode>(soup: &Soup<N>, ops: &[Op]) -> String {
    let top: Vec<M> = soup.strict().all().map(|i| i.m()).collect();
    let hits = run_ms(soup, ops, How::All);
    let first = run_ms(soup, ops, How::First);
    let texts: Vec<String> = soup.iter().take(20).map(|i| i.all_text()).collect();
    let inside: Vec<Vec<M>> = soup.iter().take(5).map(|i| run_ms(&i.query(), ops, How::IntoIter)).collect();
    format!("{top:?} hits {hits:?} first {first:?} texts {texts:?} inside {inside:?}")
}

/// What the document's entry point makes of it
fn digest(format: usize, text: &str, ops: &[Op]) -> String {
    match format {
        // the lifetime of the text is not that of the harness's node type: rebuilt from the model
        0 => match Soup::html_strict(text) {
            Ok(s) => {
                let top: Vec<M> = s.strict().all().map(|i| i.m()).collect();
                let all: Vec<M> = s.iter().map(|i| i.m()).collect();
                let texts: Vec<String> = s.iter().take(20).map(|i| i.all_text()).collect();
                format!("{all:?} texts {texts:?} {}", digest_soup(&soup_of(from_ms::<Strict>(&top)), ops))
            }
            Err(e) => format!("error {e:?}"),
        },
        1 => digest_soup(&Soup::html(text), ops),
        _ => match Soup::xml(text.as_bytes()) {
            Ok(s) => digest_soup(&s, ops),
            Err(e) => format!("error {e:?}"),
        },
    }
}

/// Parses and starts to query, without looking at the results
fn touch(d: &Doc, k: usize) {
    fn go<N: Node + Clone>(s: &Soup<N>, k: usize) {
        let mut it = s.iter();
        for _ in 0..k % 5 {
            if let Some(i) = it.next() {
                drop(i.query());
            }
        }
    }
    match d.format {
        0 => drop(Soup::html_strict(&d.text).map(|s| go(&s, k))),
        1 => go(&Soup::html(&*d.text), k),
        _ => drop(Soup::xml(d.text.as_bytes()).map(|s| go(&s, k))),
    }
}

/// `vp history MODE` with a tape on stdin: prints what each parse gives.
/// Calls `f` with 64 KiB of the stack for each level between here and there
#[inline(never)]
fn further_down<T>(levels: usize, f: &mut dyn FnMut() -> T) -> T {
    let mut room = [0u8; 65536];
    std::hint::black_box(&mut room);
    let r = if levels == 0 { f() } else { further_down(levels - 1, f) };
    std::hint::black_box(&mut room);
    r
}

pub fn history_main(mode: &str, tape: &[u32]) {
    let h = plan(&mut Gen::new(tape));
    if let Ok(i) = mode.parse::<usize>() {
        let d = &h.docs[i];
        println!("{i}\talone\t{}", digest(d.format, &d.text, &d.ops));
        return;
    }
    let mut out: Vec<(usize, &str, String)> = vec![];
    if h.threads_first {
        at_once(&h, &mut out);
    }
    // one after the other; all from the same memory
    let mut buffer = String::with_capacity(1 << 20);
    for &i in &h.steps {
        let d = &h.docs[i];
        buffer.clear();
        buffer.push_str(&d.text);
        out.push((i, "in sequence", digest(d.format, &buffer, &d.ops)));
    }
    for (i, d) in h.docs.iter().enumerate() {
        out.push((i, "further down the stack", further_down(200, &mut || digest(d.format, &d.text, &d.ops))));
    }
    for &(i, n) in &h.bulk {
        let d = &h.docs[i];
        for k in 0..n {
            touch(d, k);
        }
        for (k, d) in h.docs.iter().enumerate() {
            out.push((k, "after many others", digest(d.format, &d.text, &d.ops)));
        }
    }
    if !h.threads_first {
        at_once(&h, &mut out);
    }
    alone_shared(&h, &mut out);
    for (i, how, d) in out {
        println!("{i}\t{how}\t{d}");
    }
}

/// All documents by several threads at the same time
fn at_once(h: &History, out: &mut Vec<(usize, &'static str, String)>) {
    let barrier = std::sync::Barrier::new(h.threads);
    let found: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..h.threads)
            .map(|t| {
                let (h, barrier) = (h, &barrier);
                let run = move || {
                    barrier.wait();
                    let mut got = vec![];
                    for _ in 0..3 {
                        for k in 0..h.docs.len() {
                            let i = (k + t) % h.docs.len();
                            let d = &h.docs[i];
                            got.push((i, digest(d.format, &d.text, &d.ops)));
                        }
                    }
                    got
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, run).unwrap()
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    out.extend(found.into_iter().flatten().map(|(i, d)| (i, "at the same time", d)));
}

/// Many threads, one document
fn alone_shared(h: &History, out: &mut Vec<(usize, &'static str, String)>) {
    for (i, d) in h.docs.iter().enumerate() {
        fn shared<N: crate::query::TNode + Send + Sync>(soup: &Soup<N>, d: &Doc, threads: usize) -> Vec<String> {
            let barrier = std::sync::Barrier::new(threads);
            std::thread::scope(|s| {
                let handles: Vec<_> = (0..threads)
                    .map(|_| {
                        s.spawn(|| {
                            barrier.wait();
                            // patterns are not shared
                            (0..3).map(|_| digest_soup(soup, &d.ops.clone())).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                handles.into_iter().flat_map(|h| h.join().unwrap()).collect()
            })
        }
        let text = crate::model::intern(&d.text).0;
        let got = match d.format {
            0 => match Soup::html_strict(text) {
                Ok(s) => shared::<Strict>(&s, d, h.threads).into_iter().map(|x| (x, true)).collect(),
                Err(_) => vec![],
            },
            2 => match Soup::xml(text.as_bytes()) {
                Ok(s) => shared::<XMLNode>(&s, d, h.threads).into_iter().map(|x| (x, false)).collect(),
                Err(_) => vec![],
            },
            _ => vec![],
        };
        for (x, tail) in got {
            out.push((i, if tail { "shared, end" } else { "shared" }, x));
        }
    }
}

// Races: what each document is to give is known, threads parse them over and over

fn c27_race(g: &mut Gen) -> R {
    let mut docs: Vec<(usize, String, Vec<M>)> = vec![];
    let raw = |m: &M| m.clone();
    for _ in 0..g.range(2, 4) {
        match g.weighted(&[45, 25, 15, 15]) {
            0 => {
                // references in texts and attributes
                let mut s = String::new();
                for _ in 0..g.range(1, 6) {
                    let a = crate::p_strict::ref_text(g, 6).replace(['"', '<'], "");
                    let t = crate::p_strict::ref_text(g, 6).replace('<', "");
                    let n = g.range(1, 12);
                    s += &match g.below(3) {
                        0 => format!("<p x=\"{a}\">{}</p>", t.repeat(n)),
                        1 => format!("<br x=\"{}\">{t}<!--{t}", a.repeat(n)) + "x-->",
                        _ => format!("<script x=\"{a}\">{t}</script>{}", t.repeat(n)),
                    };
                }
                if let crate::htmlref::Verdict::Valid(m) = crate::htmlref::parse(&s) {
                    docs.push((0, s, m));
                }
            }
            1 => {
                let (m, _) = gen::forest(&mut g.sub(), gen::HTML);
                let s = ser::html(g, &m);
                docs.push((0, s, m));
            }
            2 => {
                let m = gen::xml_root(&mut g.sub(), 15).0;
                let s = ser::xml(g, std::slice::from_ref(&m), &ser::no_decls);
                docs.push((2, s, vec![m]));
            }
            _ => {
                let p = crate::p_lenient::page(&mut g.sub());
                let s = ser::html5(g, &p);
                let m = p.iter().map(crate::p_lenient::raw_as_text).collect();
                docs.push((1, s, m));
            }
        }
    }
    let shown: Vec<(&str, &str)> = docs.iter().map(|d| (["strict", "lenient", "xml"][d.0], &*d.1)).collect();
    let key = format!("{shown:?}, parsed over and over by eight threads");
    crate::util::current_input(&key);
    fn top<N: Node + Clone + ToM>(s: &Soup<N>, f: impl Fn(&M) -> M) -> Vec<M> {
        s.strict().all().map(|i| f(&i.m())).collect()
    }
    let parse = |d: &(usize, String, Vec<M>)| -> Result<Vec<M>, String> {
        match d.0 {
            0 => Soup::html_strict(&d.1).map(|s| top(&s, raw)).map_err(|e| format!("{e:?}")),
            1 => Ok(top(&Soup::html(d.1.as_str()), raw)),
            _ => Soup::xml(d.1.as_bytes()).map(|s| top(&s, |m| m.clone().without_ns())).map_err(|e| e.to_string()),
        }
    };
    // documents that are not parsed to their tree anyway are the subject of other checks
    docs.retain(|d| parse(d).as_ref() == Ok(&d.2));
    if docs.is_empty() {
        return ok(key, false, vec!["no documents"]);
    }
    let barrier = std::sync::Barrier::new(8);
    let wrong: Vec<String> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..8)
            .map(|t| {
                let (docs, barrier) = (&docs, &barrier);
                let run = move || {
                    barrier.wait();
                    for k in 0..25 {
                        let i = (k / 5 + t) % docs.len();
                        let got = parse(&docs[i]);
                        if got.as_ref() != Ok(&docs[i].2) {
                            return Some(format!("document {i} is {:?} alone, and {got:?} while others are parsed", docs[i].2));
                        }
                    }
                    None
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, run).unwrap()
            })
            .collect();
        handles.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    ensure!(wrong.is_empty(), key, "{}", wrong[0]);
    ok(key, docs.len() > 1, vec!["races"])
}

fn child(mode: &str, tape: &[u32]) -> Result<Vec<(usize, String, String)>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut child = Command::new(exe)
        .args(["history", mode])
        .env_remove("VP_WORK")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let bytes: Vec<u8> = tape.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut stdin = child.stdin.take().unwrap();
    stdin.write_all(&bytes).map_err(|e| e.to_string())?;
    drop(stdin);
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("{:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let text = String::from_utf8_lossy(&out.stdout);
    Ok(text
        .lines()
        .map(|l| {
            let mut f = l.splitn(3, '\t');
            let i = f.next().unwrap().parse().unwrap();
            (i, f.next().unwrap().to_string(), f.next().unwrap().to_string())
        })
        .collect())
}

fn c27(g: &mut Gen) -> R {
    let tape: Vec<u32> = (0..g.left()).map(|_| g.raw()).collect();
    let h = plan(&mut Gen::new(&tape));
    let shown: Vec<(&str, &str, &Vec<Op>)> = h.docs.iter().map(|d| (["strict", "lenient", "xml"][d.format], &*d.text, &d.ops)).collect();
    let key = format!("documents {shown:?}, parsed in the order {:?}, then repeated (document, times) {:?}, then by {} threads", h.steps, h.bulk, h.threads);
    crate::util::current_input(&key);
    let mut alone = vec![];
    for i in 0..h.docs.len() {
        match child(&i.to_string(), &tape) {
            Ok(mut r) => alone.push(r.pop().unwrap().2),
            // that it answers at all is for other checks
            Err(_) => return ok(key, false, vec!["no answer alone"]),
        }
    }
    let got = match child("all", &tape) {
        Ok(r) => r,
        Err(e) => return fail(key, format!("each document is parsed alone, but not the history: {e}")),
    };
    let n = got.len();
    for (i, how, d) in got {
        let same = if how == "shared, end" { alone[i].ends_with(&d) } else { alone[i] == d };
        ensure!(same, key, "document {i} {how}: {d}\n   in a fresh process: {}", alone[i]);
    }
    let mut l = vec![];
    for d in &h.docs {
        l.push(["strict", "lenient", "xml"][d.format]);
    }
    l.push(match h.bulk.iter().map(|b| b.1).max() {
        None => "repetitions:0",
        Some(0..=300) => "repetitions:10-300",
        _ => "repetitions:300+",
    });
    l.push(if alone.iter().any(|a| a.starts_with("error")) { "with failing documents" } else { "no failing documents" });
    ok(key, n > 10 && h.docs.len() > 1, l)
}

// Long histories on one thread: what each document is to give is known. The documents are
// numbered, so their texts are equally long and differ in a few characters only (many are
// anagrams of one another); those around powers of two are larger ones, so that what happens
// every so often happens to those as well.

/// A number for the k-th document, and how many nodes follow its element
fn long_doc(k: u32) -> (u32, usize) {
    let p = k.next_power_of_two();
    let near = k > 100 && (p - k <= 3 || k - p / 2 <= 3);
    (k.wrapping_mul(7_919) % 1_000_003, if near { 2_500 } else { (k % 3) as usize })
}

fn long_found<'x, N: Node + 'x>(nodes: Vec<&'x N>, more: usize, value: &str) -> Result<(), String>
where
    N::Text: AsRef<str> + Ord,
{
    let name = |n: &N| n.name().map(|n| n.as_ref().to_string());
    if nodes.len() != more + 1 {
        return Err(format!("{} nodes instead of {}", nodes.len(), more + 1));
    }
    let p = nodes[0];
    let attrs: Vec<(&str, &str)> = p.attrs().into_iter().flatten().map(|(k, v)| (k.as_ref(), v.as_ref())).collect();
    if name(p).as_deref() != Some("p") || attrs != [("x", value)] {
        return Err(format!("{:?} with attributes {attrs:?}", name(p)));
    }
    let texts: Vec<_> = p.children().iter().map(|c| c.text().map(AsRef::as_ref)).collect();
    if texts != [Some(value)] {
        return Err(format!("p contains {texts:?}"));
    }
    match nodes[1..].iter().find(|n| name(n).as_deref() != Some("br") || !n.children().is_empty()) {
        Some(n) => Err(format!("{:?} instead of br", name(n))),
        None => Ok(()),
    }
}

fn long_one(format: usize, k: u32) -> Result<(), String> {
    let (n, more) = long_doc(k);
    let value = format!("k{n:06}<&");
    let br = if format == 0 { "<br>" } else { "<br/>" };
    let body = format!("<p x=\"k{n:06}&lt;&amp;\">k{n:06}&#60;&amp;</p>{}", br.repeat(more));
    macro_rules! look {
        ($soup:expr, $parent:expr) => {{
            let soup = $soup;
            let items: Vec<_> = soup.strict().all().collect();
            let parent = soup.tag($parent).first();
            let nodes: Vec<_> = match &parent {
                Some(p) => p.children().iter().collect(),
                None => items.iter().map(|i| &**i).collect(),
            };
            long_found(nodes, more, &value)?;
            let n = (soup.tag("br").all().count(), soup.tag("p").attr_name("x").all().count());
            if n != (more, 1) {
                return Err(format!("queries for br and p give {n:?} results instead of {more} and 1"));
            }
        }};
    }
    match format {
        0 => {
            if k % 11 == 5 && Soup::html_strict(&body[..14]).is_ok() {
                return Err(format!("{:?} is accepted", &body[..14]));
            }
            look!(Soup::html_strict(&body).map_err(|e| format!("rejected: {e:?}"))?, "none");
        }
        1 => look!(Soup::html(&*format!("<!doctype html><html><head></head><body>{body}</body></html>")), "body"),
        _ => {
            let doc = format!("<r>{body}</r>");
            if k % 11 == 5 && Soup::xml(&doc.as_bytes()[..20]).is_ok() {
                return Err(format!("{:?} is accepted", &doc[..20]));
            }
            look!(Soup::xml(doc.as_bytes()).map_err(|e| format!("rejected: {e}"))?, "r");
        }
    }
    Ok(())
}

fn c27_long(i: u64) -> R {
    let count: u32 = if i < 4 { 140_000 } else { 2_200_000 };
    let format = (i % 4) as usize;
    let what = format!("{count} numbered documents in a row, {}", ["strict HTML", "HTML", "XML", "of all formats"][format]);
    crate::util::current_input(&what);
    // a thread of its own, so that it depends on no other case
    let run = || (0..count).find_map(|k| long_one(if format == 3 { (k % 3) as usize } else { format }, k).err().map(|e| (k, e)));
    let wrong = std::thread::scope(|s| s.spawn(run).join());
    match wrong {
        Ok(None) => ok(what, true, vec!["long history"]),
        Ok(Some((k, e))) => fail(what, format!("document {k}, number {:?}: {e}", long_doc(k))),
        Err(_) => fail(what, "panic"),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "Random trees of elements (void ones among them), attributes, texts and comments, written in random spellings as strict HTML, XML and an HTML5 page, and built as user-defined nodes; a random query, its first result, get, all_text, the top level and a query within the results, in all four. Non-trivial: more than three nodes and some results.",
            parts: vec![Part { name: "formats", quick: 30_000, thorough: 1_500_000, tape: 600, f: c25 }, Part { name: "huge", quick: 400, thorough: 16_000, tape: 400, f: |g| gen::huge(|| c25(g)) }],
            assumptions: vec!["names that HTML5 lets nest freely"],
            ..Prop::new()
        },
        Prop {
            id: "C26",
            rule: "The probe built with each of the 16 sets of features and the two group names; batches of random documents of all formats (some with faults) given to five of the builds, every answer (tree or error, queries with all kinds of patterns, texts, sub-documents) compared with that of the default build. Non-trivial: more than 50 answers compared.",
            parts: vec![Part { name: "answers", quick: 3_000, thorough: 100_000, tape: 1000, f: c26 }],
            enums: vec![Enumeration { name: "builds", count: |_| sets().len() as u64, f: c26_builds }],
            ..Prop::new()
        },
        Prop {
            id: "C27",
            rule: "Two to six documents, many related (same length, prefix, fault, other format), parsed and queried in one fresh process in a random order from the same memory, one or two of them up to 5000 times more, then by two to six threads at once, then by threads sharing one parsed document; every answer against that of a fresh process for that document alone. Non-trivial: more than ten answers about at least two documents.",
            parts: vec![Part { name: "histories", quick: 2_500, thorough: 80_000, tape: 1000, f: c27 }, Part { name: "races", quick: 2_000, thorough: 60_000, tape: 600, f: c27_race }],
            enums: vec![Enumeration { name: "long histories", count: |t| if t { 8 } else { 4 }, f: c27_long }],
            assumptions: vec!["thread schedules are those that occur under stress; they are not enumerated"],
            ..Prop::new()
        },
    ]
}
