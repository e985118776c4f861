//! Runs a check in a child process. If the child dies (stack overflow, abort) or a
//! case does not end, finds the case, shrinks it and reports it as a violation.
use crate::engine::{self, Prop};
use crate::watch::{self, Left};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn exe() -> PathBuf {
    std::env::current_exe().expect("own path")
}

/// Waits for the child at most so long; None: it did not end (and was killed)
fn wait(mut child: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    let mut pause = 1;
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            return Some(s);
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(50);
    }
}

fn json_of(p: &Prop, l: &Left, seed: u64, message: &str) -> serde_json::Value {
    let kind = if p.enums.iter().any(|e| e.name == l.part) { "index" } else { "tape" };
    serde_json::json!({
        "property": p.id, "part": l.part, "kind": kind, "tape": l.tape, "index": l.index, "seed": seed,
        "message": message, "dict": crate::dict::to_json(), "how": "run ./check.sh replay <this file>",
    })
}

/// Why the case has no answer, or None if it has one
fn dies(p: &Prop, l: &Left, seed: u64, dir: &Path, limit: u64) -> Option<String> {
    let path = dir.join("trial.json");
    std::fs::write(&path, json_of(p, l, seed, "").to_string()).expect("scratch file");
    let child = Command::new(exe())
        .arg("replay-here")
        .arg(&path)
        .env_remove("VP_WORK")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("child process");
    match wait(child, Duration::from_secs(limit)) {
        None => Some(format!("no answer within {limit} s")),
        // 3: an error of the harness
        Some(s) if matches!(s.code(), Some(0 | 1 | 3)) => None,
        Some(s) => Some(format!("the process dies: {s}")),
    }
}

fn shrink(p: &Prop, l: Left, seed: u64, dir: &Path, limit: u64) -> Left {
    let with = |t: &[u32]| Left { part: l.part.clone(), index: l.index, tape: t.to_vec() };
    let tape = engine::shrink(l.tape.clone(), Duration::from_secs(90), |t| dies(p, &with(t), seed, dir, limit).is_some());
    with(&tape)
}

pub fn check(p: &Prop, thorough: bool, seed: u64) -> i32 {
    let dir = std::env::temp_dir().join(format!("vp-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let status = supervised(p, thorough, seed, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    status
}

fn supervised(p: &Prop, thorough: bool, seed: u64, dir: &Path) -> i32 {
    let start = Instant::now();
    let child = Command::new(exe()).args(["run", p.id]).env("VP_WORK", dir).spawn().expect("child process");
    let limit = if thorough { 4 * 3600 } else { 840 };
    let s = wait(child, Duration::from_secs(limit));
    if let Some(s) = s {
        if matches!(s.code(), Some(0 | 1)) {
            return s.code().unwrap();
        }
        println!("{}: the checking process ended with {s}", p.id);
        if s.code() == Some(3) {
            return 3;
        }
    } else {
        println!("{}: the checking process did not end within {limit} s", p.id);
    }
    let hang = s.and_then(|s| s.code()) == Some(watch::HANG_STATUS);
    let case_limit = if hang { 20 } else { 60 };
    let candidates = watch::left_behind(dir);
    let tried = candidates.len();
    // each alone; several at a time would hide which one it was
    for l in candidates {
        if let Some(why) = dies(p, &l, seed, dir, case_limit) {
            let small = shrink(p, l, seed, dir, 5);
            let why = dies(p, &small, seed, dir, case_limit).unwrap_or(why);
            let replays = crate::util::verif_dir().join("replays");
            std::fs::create_dir_all(&replays).expect("replays directory");
            let json = json_of(p, &small, seed, &why);
            let path = replays.join(format!("{}-{}-{:08x}.json", p.id, small.part, engine::hash64(json.to_string()) as u32));
            std::fs::write(&path, serde_json::to_string_pretty(&json).unwrap()).expect("replay file");
            println!("property {} part {} fails: {why}", p.id, small.part);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            engine::write_died(p, thorough, seed, tried as u64, start.elapsed().as_secs_f64());
            return 1;
        }
    }
    println!("{}: none of the {tried} cases that were running does it alone", p.id);
    3
}

/// Replays a saved failure in a child process, so that one that dies is reported, too.
pub fn replay(path: &str) -> i32 {
    let child = Command::new(exe()).args(["replay-here", path]).spawn().expect("child process");
    match wait(child, Duration::from_secs(300)) {
        Some(s) if matches!(s.code(), Some(0 | 1)) => s.code().unwrap(),
        s => {
            let text = std::fs::read_to_string(path).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            println!("no answer: {}", s.map_or("it does not end".into(), |s| format!("the process ended with {s}")));
            println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap_or("?"));
            1
        }
    }
}
