//! Runs a property: draws tapes with proptest, counts and classifies the cases,
//! shrinks a failure and writes its replay file, writes the evidence file.
use crate::tape::Gen;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// What one case was: `key` is the input as text (distinctness and samples).
pub struct Case {
    pub key: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

pub struct Fail {
    pub input: String,
    pub msg: String,
}

pub type R = Result<Case, Fail>;

pub fn ok(key: String, nontrivial: bool, labels: Vec<&'static str>) -> R {
    Ok(Case { key, nontrivial, labels })
}

pub fn fail<T>(input: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { input: input.into(), msg: msg.into() })
}

/// Checks `$cond`; on failure the case fails with the input and the message.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $input:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail { input: ($input).to_string(), msg: format!($($fmt)*) });
        }
    };
}

#[derive(Clone, Copy)]
pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// longest tape
    pub tape: usize,
    pub f: fn(&mut Gen) -> R,
}

/// A finite set of cases that is enumerated instead of sampled. `f(i)` runs the
/// i-th of `count(thorough)`.
#[derive(Clone, Copy)]
pub struct Enumeration {
    pub name: &'static str,
    pub count: fn(bool) -> u64,
    pub f: fn(u64) -> R,
}

/// A confirmed defect that is not repaired: `probe` returns true while it is
/// present. Listed in known_findings.json, by name.
#[derive(Clone, Copy)]
pub struct Known {
    pub name: &'static str,
    pub probe: fn() -> bool,
}

/// Something that is not a generated case: run once per check.
#[derive(Clone, Copy)]
pub struct Special {
    pub name: &'static str,
    pub f: fn(thorough: bool, seed: u64) -> Result<Vec<Case>, Fail>,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
    pub enums: Vec<Enumeration>,
    pub specials: Vec<Special>,
    pub known: Vec<Known>,
    pub assumptions: Vec<&'static str>,
}

impl Prop {
    pub fn new() -> Prop {
        Prop { id: "", rule: "", parts: vec![], enums: vec![], specials: vec![], known: vec![], assumptions: vec![] }
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
}

pub fn hash64(x: impl Hash) -> u64 {
    // DefaultHasher::new() is deterministic (fixed keys)
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Stats {
    fn add(&mut self, part: &str, c: Case) {
        self.evaluations += 1;
        *self.labels.entry(format!("part:{part}")).or_default() += 1;
        let mut labels = c.labels;
        labels.sort();
        labels.dedup();
        for l in labels {
            *self.labels.entry(l.to_string()).or_default() += 1;
        }
        if c.nontrivial {
            let fresh = self.nontrivial.insert(hash64((part, &c.key)));
            // samples: spread over the run, of readable size
            if fresh && self.samples.len() < 400 && c.key.len() < 500 && hash64((1, &c.key)) % 41 == 0 {
                self.samples.push(format!("[{part}] {}", c.key));
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

fn guarded(f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Fail { input: crate::util::take_current_input(), msg: format!("panic: {msg}") })
        }
    }
}

pub fn run_tape(part: &Part, tape: &[u32]) -> R {
    let _mark = crate::watch::begin(part.name, tape, 0);
    guarded(|| {
        let mut g = Gen::new(tape);
        (part.f)(&mut g)
    })
}

fn rng_for(seed: u64, id: &str, part: &str, shard: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    for i in 0..4u64 {
        bytes[i as usize * 8..][..8].copy_from_slice(&hash64((seed, id, part, shard, i)).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

const SHARDS: u64 = 16;
pub const STACK: usize = 256 << 20;

pub enum Replay {
    Tape(Vec<u32>),
    Index(u64),
    Once,
}

struct Violation {
    part: String,
    replay: Replay,
    fail: Fail,
}

fn run_part(id: &'static str, part: Part, cases: u64, seed: u64, stop: &'static AtomicBool) -> (Stats, Option<Violation>) {
    let (tx, rx) = std::sync::mpsc::channel();
    let next = std::sync::Arc::new(AtomicU64::new(0));
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get()).min(SHARDS as usize);
    let mut handles = vec![];
    for _ in 0..workers {
        let tx = tx.clone();
        let next = next.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || loop {
                    let shard = next.fetch_add(1, Ordering::SeqCst);
                    if shard >= SHARDS {
                        break;
                    }
                    let n = cases / SHARDS + u64::from(shard < cases % SHARDS);
                    if n == 0 || stop.load(Ordering::SeqCst) {
                        continue;
                    }
                    tx.send((shard, run_shard(id, part, n, seed, shard, stop))).unwrap();
                })
                .unwrap(),
        );
    }
    drop(tx);
    let mut got: Vec<(u64, (Stats, Option<Violation>))> = rx.iter().collect();
    for h in handles {
        h.join().unwrap();
    }
    got.sort_by_key(|g| g.0);
    let mut stats = Stats::default();
    let mut violation = None;
    for (_, (s, v)) in got {
        stats.merge(s);
        violation = violation.or(v);
    }
    (stats, violation)
}

fn run_shard(id: &str, part: Part, cases: u64, seed: u64, shard: u64, stop: &AtomicBool) -> (Stats, Option<Violation>) {
    let config = Config {
        cases: cases as u32,
        failure_persistence: None,
        // the tapes are shrunk below, in larger steps
        max_shrink_iters: 0,
        max_shrink_time: 0,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, rng_for(seed, id, part.name, shard));
    let n = part.tape;
    // mostly full-length tapes (so that size is decided by the generators), some short
    let strategy = proptest::prop_oneof![
        1 => proptest::collection::vec(proptest::num::u32::ANY, 1..=(n / 4).max(1)),
        4 => proptest::collection::vec(proptest::num::u32::ANY, (n / 4).max(1)..=n),
    ];
    let stats = RefCell::new(Stats::default());
    let found = std::cell::Cell::new(false);
    let result = runner.run(&strategy, |tape| {
        if !found.get() && stop.load(Ordering::Relaxed) {
            return Ok(());
        }
        match run_tape(&part, &tape) {
            Ok(c) => {
                if !found.get() {
                    stats.borrow_mut().add(part.name, c);
                }
                Ok(())
            }
            Err(f) => {
                found.set(true);
                stop.store(true, Ordering::SeqCst);
                Err(TestCaseError::fail(f.msg))
            }
        }
    });
    let stats = stats.into_inner();
    match result {
        Ok(()) => (stats, None),
        Err(TestError::Fail(_, tape)) => {
            let tape = shrink(tape, Duration::from_secs(30), |t| run_tape(&part, t).is_err());
            let fail = match run_tape(&part, &tape) {
                Err(f) => f,
                Ok(_) => Fail { input: String::new(), msg: "failed in the run, but not when replayed".into() },
            };
            (stats, Some(Violation { part: part.name.into(), replay: Replay::Tape(tape), fail }))
        }
        Err(TestError::Abort(r)) => {
            eprintln!("ERROR: proptest aborted: {r}");
            std::process::exit(3);
        }
    }
}

/// Removes pieces of the tape, zeroes and halves its numbers, as long as the case still fails.
pub fn shrink(mut tape: Vec<u32>, limit: Duration, fails: impl Fn(&[u32]) -> bool) -> Vec<u32> {
    let start = Instant::now();
    let fails = |t: &[u32]| start.elapsed() < limit && fails(t);
    loop {
        let before = tape.clone();
        let mut size = tape.len() / 2;
        while size > 0 {
            let mut at = 0;
            while at < tape.len() {
                let end = (at + size).min(tape.len());
                let mut trial = tape.clone();
                trial.drain(at..end);
                if fails(&trial) {
                    tape = trial;
                    continue;
                }
                if tape[at..end].iter().any(|x| *x != 0) {
                    let mut trial = tape.clone();
                    trial[at..end].fill(0);
                    if fails(&trial) {
                        tape = trial;
                    }
                }
                at += size;
            }
            size /= 2;
        }
        for i in 0..tape.len() {
            let mut step = tape[i] / 2;
            while step > 1 << 20 {
                let mut trial = tape.clone();
                trial[i] -= step;
                if fails(&trial) {
                    tape = trial;
                }
                step = (step / 2).min(tape[i]);
            }
        }
        if tape == before || start.elapsed() >= limit {
            return tape;
        }
    }
}

fn run_enum(e: Enumeration, thorough: bool, stop: &'static AtomicBool) -> (Stats, Option<Violation>) {
    let total = (e.count)(thorough);
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get()) as u64;
    let mut handles = vec![];
    for w in 0..workers {
        handles.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut stats = Stats::default();
                    let mut i = w;
                    while i < total {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mark = crate::watch::begin(e.name, &[], i);
                        let r = guarded(|| (e.f)(i));
                        drop(mark);
                        match r {
                            Ok(c) => stats.add(e.name, c),
                            Err(fail) => {
                                stop.store(true, Ordering::SeqCst);
                                return (stats, Some(Violation { part: e.name.into(), replay: Replay::Index(i), fail }));
                            }
                        }
                        i += workers;
                    }
                    (stats, None)
                })
                .unwrap(),
        );
    }
    let mut stats = Stats::default();
    let mut violation: Option<Violation> = None;
    for h in handles {
        let (s, v) = h.join().unwrap();
        stats.merge(s);
        violation = violation.or(v);
    }
    (stats, violation)
}

fn known_listed(id: &str) -> Vec<(String, String)> {
    let path = crate::util::verif_dir().join("known_findings.json");
    let text = std::fs::read_to_string(&path).expect("known_findings.json");
    let v: serde_json::Value = serde_json::from_str(&text).expect("known_findings.json");
    v["known"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|k| k["property"] == id)
        .map(|k| (k["name"].as_str().unwrap().to_string(), k["what"].as_str().unwrap().to_string()))
        .collect()
}

pub static STOP: AtomicBool = AtomicBool::new(false);

/// Runs the check of one property and returns the exit status.
pub fn check(p: &Prop, thorough: bool, seed: u64, scale: f64) -> i32 {
    let start = Instant::now();
    crate::watch::start(if thorough { 7200 } else { 600 });
    let mut stats = Stats::default();
    let mut violation = None;
    let mut known_lines = vec![];

    let listed = known_listed(p.id);
    for k in &p.known {
        let present = (k.probe)();
        match (present, listed.iter().find(|l| l.0 == k.name)) {
            (true, Some((_, what))) => known_lines.push(format!("KNOWN-FINDING: property={} {}", p.id, what)),
            (true, None) => {
                violation = Some(Violation {
                    part: k.name.into(),
                    replay: Replay::Once,
                    fail: Fail { input: k.name.into(), msg: "this defect is present and not listed as a known finding".into() },
                })
            }
            (false, _) => {}
        }
    }
    // for work on the harness: one part only
    let only = std::env::var("VP_PART").ok();
    let wanted = |name: &str| only.as_ref().is_none_or(|o| o == name);
    for e in p.enums.iter().filter(|e| wanted(e.name)) {
        if violation.is_none() {
            let (s, v) = run_enum(*e, thorough, &STOP);
            stats.merge(s);
            violation = v;
        }
    }
    for part in p.parts.iter().filter(|x| wanted(x.name)) {
        if violation.is_none() {
            let n = if thorough { part.thorough } else { part.quick };
            let (s, v) = run_part(p.id, *part, (n as f64 * scale) as u64, seed, &STOP);
            stats.merge(s);
            violation = v;
        }
    }
    for s in p.specials.iter().filter(|s| wanted(s.name)) {
        if violation.is_none() {
            let (name, f) = (s.name, s.f);
            let r = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || catch_unwind(AssertUnwindSafe(|| f(thorough, seed))).unwrap_or_else(|_| {
                    let msg = LAST_PANIC.with(|p| p.borrow().clone());
                    Err(Fail { input: crate::util::take_current_input(), msg: format!("panic: {msg}") })
                }))
                .unwrap()
                .join()
                .unwrap();
            match r {
                Ok(cases) => cases.into_iter().for_each(|c| stats.add(name, c)),
                Err(fail) => violation = Some(Violation { part: name.into(), replay: Replay::Once, fail }),
            }
        }
    }

    for l in &known_lines {
        println!("{l}");
    }
    let mut status = 0;
    if let Some(v) = &violation {
        let path = write_replay(p.id, v, seed);
        println!("property {} part {} fails: {}", p.id, v.part, clip(&v.fail.msg, 3000));
        println!("input: {}", clip(&v.fail.input, 3000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        status = 1;
    }
    write_evidence(p, thorough, seed, &stats, start.elapsed().as_secs_f64(), violation.is_some(), known_lines.len());
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1} s",
        p.id,
        stats.evaluations,
        stats.nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    status
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}… ({} bytes)", &s[..end], s.len())
}

fn write_replay(id: &str, v: &Violation, seed: u64) -> std::path::PathBuf {
    let dir = crate::util::verif_dir().join("replays");
    std::fs::create_dir_all(&dir).expect("replays directory");
    let (kind, tape, index) = match &v.replay {
        Replay::Tape(t) => ("tape", t.clone(), 0),
        Replay::Index(i) => ("index", vec![], *i),
        Replay::Once => ("once", vec![], 0),
    };
    let json = serde_json::json!({
        "property": id, "part": v.part, "kind": kind, "tape": tape, "index": index, "seed": seed,
        "input": v.fail.input, "message": v.fail.msg, "dict": crate::dict::to_json(),
        "how": "run ./check.sh replay <this file>",
    });
    let path = dir.join(format!("{id}-{}-{:08x}.json", v.part, hash64(json.to_string()) as u32));
    std::fs::write(&path, serde_json::to_string_pretty(&json).unwrap()).expect("replay file");
    path
}

fn write_evidence(p: &Prop, thorough: bool, seed: u64, s: &Stats, wall: f64, violated: bool, known: usize) {
    let mut samples = s.samples.clone();
    samples.sort_by_key(|x| hash64((seed, x)));
    samples.truncate(12);
    if samples.is_empty() {
        samples.push("(no case of printable size in this run)".into());
    }
    let json = serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.evaluations,
            "distinct_nontrivial": s.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "distribution": s.labels,
            "known_findings_seen": known,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": u64::from(violated),
    });
    let dir = crate::util::verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence directory");
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&json).unwrap() + "\n").expect("evidence file");
}

/// The evidence of a run whose process died
pub fn write_died(p: &Prop, thorough: bool, seed: u64, tried: u64, wall: f64) {
    let s = Stats { evaluations: tried, samples: vec!["(the run ended in the violation; see the replay file)".into()], ..Stats::default() };
    write_evidence(p, thorough, seed, &s, wall, true, 0);
}

/// Replays one saved failure; exit status as for a check.
pub fn replay(props: &[Prop], path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
    let p = props.iter().find(|p| v["property"] == p.id).expect("property");
    // the literals of the code as they were; also for processes started here
    let dict = std::env::temp_dir().join(format!("vp-dict-{}.json", std::process::id()));
    if v["dict"].is_object() {
        crate::dict::set(&v["dict"]);
        std::fs::write(&dict, v["dict"].to_string()).expect("scratch file");
        std::env::set_var("VP_DICT", &dict);
    }
    let _remove = crate::util::RemoveFile(dict);
    let name = v["part"].as_str().unwrap();
    let seed = v["seed"].as_u64().unwrap();
    let r: R = if let Some(part) = p.parts.iter().find(|x| x.name == name) {
        let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let part = *part;
        std::thread::Builder::new().stack_size(STACK).spawn(move || run_tape(&part, &tape)).unwrap().join().unwrap()
    } else if let Some(e) = p.enums.iter().find(|x| x.name == name) {
        let (f, i) = (e.f, v["index"].as_u64().unwrap());
        std::thread::Builder::new().stack_size(STACK).spawn(move || guarded(|| f(i))).unwrap().join().unwrap()
    } else if let Some(s) = p.specials.iter().find(|x| x.name == name) {
        let f = s.f;
        let run = move || guarded(|| f(false, seed).map(|mut c| c.pop().unwrap()));
        std::thread::Builder::new().stack_size(STACK).spawn(run).unwrap().join().unwrap()
    } else if let Some(k) = p.known.iter().find(|x| x.name == name) {
        if (k.probe)() { fail(name, "defect is present") } else { ok(String::new(), true, vec![]) }
    } else {
        panic!("no part {name}");
    };
    match r {
        Ok(c) => {
            println!("holds on {}", clip(&c.key, 2000));
            0
        }
        Err(f) => {
            println!("property {} part {name} fails: {}\ninput: {}", p.id, f.msg, f.input);
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
    }
}

/// Draws one value from a strategy; used to report what a generator produces.
pub fn sample_tapes(n: usize, len: usize, seed: u64) -> Vec<Vec<u32>> {
    let mut runner = TestRunner::new_with_rng(Config::default(), rng_for(seed, "sample", "", 0));
    let s = proptest::collection::vec(proptest::num::u32::ANY, len / 4..=len);
    (0..n).map(|_| s.new_tree(&mut runner).unwrap().current()).collect()
}
