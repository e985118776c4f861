//! Knows which cases are running, so that one that aborts the process or does not
//! end can be named: each worker keeps its current case in a file of a scratch
//! directory, which the parent process reads when the child has died.
use std::cell::OnceCell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::Duration;

const SLOTS: usize = 64;
/// No case takes more than some seconds, even on a busy machine
pub const CASE_LIMIT_S: u64 = 120;
pub const HANG_STATUS: i32 = 42;

static TICKS: AtomicU64 = AtomicU64::new(1);
/// tick at which the slot's case began, 0: none
static SINCE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static SLOT: OnceCell<(usize, Option<File>)> = const { OnceCell::new() };
}

fn dir() -> Option<PathBuf> {
    std::env::var_os("VP_WORK").map(PathBuf::from)
}

pub struct Mark(usize);

impl Drop for Mark {
    fn drop(&mut self) {
        SINCE[self.0].store(0, Ordering::Relaxed);
    }
}

pub fn begin(part: &'static str, tape: &[u32], index: u64) -> Mark {
    SLOT.with(|s| {
        let (slot, file) = s.get_or_init(|| {
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            let file = dir().map(|d| File::create(d.join(format!("case-{n}"))).expect("scratch file"));
            (n % SLOTS, file)
        });
        if let Some(f) = file {
            let mut b = Vec::with_capacity(64 + tape.len() * 4);
            b.extend((part.len() as u32).to_le_bytes());
            b.extend(part.as_bytes());
            b.extend(index.to_le_bytes());
            b.extend((tape.len() as u32).to_le_bytes());
            for t in tape {
                b.extend(t.to_le_bytes());
            }
            f.write_all_at(&b, 0).expect("scratch file");
        }
        SINCE[*slot].store(TICKS.load(Ordering::Relaxed), Ordering::Relaxed);
        Mark(*slot)
    })
}

/// Starts the clock: ends the process when a case does not end, stops the search
/// after `limit` seconds.
pub fn start(limit: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let now = TICKS.fetch_add(1, Ordering::Relaxed) + 1;
        if SINCE.iter().any(|s| {
            let s = s.load(Ordering::Relaxed);
            s != 0 && now > s + CASE_LIMIT_S
        }) {
            std::process::exit(HANG_STATUS);
        }
        if now == limit {
            println!("time limit reached: the search ends here");
            crate::engine::STOP.store(true, Ordering::SeqCst);
        }
    });
}

pub struct Left {
    pub part: String,
    pub index: u64,
    pub tape: Vec<u32>,
}

/// The cases that were running (or had just ended) when the process ended
pub fn left_behind(dir: &Path) -> Vec<Left> {
    let mut out = vec![];
    let Ok(entries) = std::fs::read_dir(dir) else { return out };
    for e in entries.flatten() {
        let b = std::fs::read(e.path()).unwrap_or_default();
        let u32_at = |i: usize| b.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
        let parse = || -> Option<Left> {
            let n = u32_at(0)? as usize;
            let part = String::from_utf8(b.get(4..4 + n)?.to_vec()).ok()?;
            let index = u64::from_le_bytes(b.get(4 + n..12 + n)?.try_into().ok()?);
            let len = u32_at(12 + n)? as usize;
            let tape = (0..len).map(|i| u32_at(16 + n + i * 4)).collect::<Option<Vec<u32>>>()?;
            Some(Left { part, index, tape })
        };
        out.extend(parse());
    }
    out
}
