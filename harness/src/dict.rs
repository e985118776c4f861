//! The constants of the code under test: string, character and number literals of
//! its sources, mixed into what the generators draw (as fuzzers do with the
//! constants of a program). They only steer the search; no verdict depends on them.
use crate::tape::Gen;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// any strings
    pub words: Vec<String>,
    /// those that can be names in every format: letters, digits and hyphens
    pub names: Vec<String>,
    pub numbers: Vec<usize>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| match std::env::var_os("VP_DICT") {
        Some(f) => serde_json::from_str(&std::fs::read_to_string(f).expect("VP_DICT")).map(|v| from_json(&v)).expect("VP_DICT"),
        None => scan(Path::new("/repo/src")),
    })
}

/// Sets the literals to those of a replay file
pub fn set(v: &serde_json::Value) {
    let _ = DICT.set(from_json(v));
}

pub fn to_json() -> serde_json::Value {
    let d = get();
    serde_json::json!({ "words": d.words, "numbers": d.numbers })
}

fn from_json(v: &serde_json::Value) -> Dict {
    let words = v["words"].as_array().into_iter().flatten().filter_map(|w| w.as_str().map(String::from)).collect();
    let numbers = v["numbers"].as_array().into_iter().flatten().filter_map(|n| n.as_u64().map(|n| n as usize)).collect();
    dict(words, numbers)
}

fn dict(words: BTreeSet<String>, numbers: BTreeSet<usize>) -> Dict {
    let is_name = |w: &&String| {
        w.len() <= 24
            && w.starts_with(|c: char| c.is_ascii_alphabetic())
            && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')
            && !w.to_ascii_lowercase().starts_with("xml")
            && !w.to_ascii_lowercase().starts_with("xlink")
    };
    Dict { names: words.iter().filter(is_name).cloned().collect(), words: words.into_iter().collect(), numbers: numbers.into_iter().collect() }
}

fn scan(dir: &Path) -> Dict {
    let (mut words, mut numbers) = (BTreeSet::new(), BTreeSet::new());
    let mut dirs = vec![dir.to_path_buf()];
    while let Some(d) = dirs.pop() {
        let Ok(entries) = std::fs::read_dir(&d) else { continue };
        for e in entries.flatten() {
            let path = e.path();
            if path.is_dir() {
                dirs.push(path);
            } else if path.extension().is_some_and(|x| x == "rs") {
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                let text = text.split("#[cfg(test)]\nmod").next().unwrap_or("");
                let (mut w, mut n) = (BTreeSet::new(), BTreeSet::new());
                literals(text, &mut w, &mut n);
                // not the table of character references: C13 has one of its own
                if w.len() < 600 {
                    words.extend(w);
                    numbers.extend(n);
                }
            }
        }
    }
    dict(words, numbers)
}

fn add_words(words: &mut BTreeSet<String>, s: &str) {
    let clean: String = s.chars().filter(|c| !c.is_control() || matches!(c, '\t' | '\n')).collect();
    if (1..=40).contains(&clean.len()) && !clean.contains("{}") {
        words.insert(clean.clone());
    }
    for w in clean.split(|c: char| !c.is_ascii_alphanumeric() && c != '-').filter(|w| (1..=24).contains(&w.len())) {
        words.insert(w.to_string());
    }
}

fn literals(text: &str, words: &mut BTreeSet<String>, numbers: &mut BTreeSet<usize>) {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            'r' if at(i + 1) == '"' || (at(i + 1) == '#' && matches!(at(i + 2), '"' | '#')) => {
                let mut hashes = 0;
                i += 1;
                while at(i) == '#' {
                    hashes += 1;
                    i += 1;
                }
                i += 1;
                let start = i;
                while i < c.len() && !(c[i] == '"' && (1..=hashes).all(|k| at(i + k) == '#')) {
                    i += 1;
                }
                add_words(words, &c[start.min(c.len())..i.min(c.len())].iter().collect::<String>());
                i += 1 + hashes;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    i = one(&c, i, &mut s);
                }
                add_words(words, &s);
                i += 1;
            }
            '\'' => {
                let mut s = String::new();
                let end = one(&c, i + 1, &mut s);
                if at(end) == '\'' && at(i + 1) != '\'' {
                    add_words(words, &s);
                    i = end + 1;
                } else {
                    // a lifetime
                    i += 1;
                }
            }
            x if x.is_ascii_digit() => {
                let start = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                let t: String = c[start..i].iter().filter(|x| **x != '_').collect();
                let t = ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize"].iter().fold(t, |t, s| t.strip_suffix(s).map_or(t.clone(), String::from));
                let n = match t.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(h, 16),
                    None => t.parse(),
                };
                if let Ok(n) = n {
                    if n <= 100_000 {
                        numbers.insert(n as usize);
                    }
                    if let Some(ch) = char::from_u32(n as u32).filter(|_| (0x80..=0x10_ffff).contains(&n)) {
                        add_words(words, &ch.to_string());
                    }
                }
            }
            x if x.is_alphanumeric() || x == '_' => {
                // byte strings begin as words do
                if x == 'b' && matches!(at(i + 1), '"' | '\'') {
                    i += 1;
                    continue;
                }
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

/// Reads one character of a literal, escapes included; the place behind it
fn one(c: &[char], i: usize, out: &mut String) -> usize {
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    if at(i) != '\\' {
        out.push(at(i));
        return i + 1;
    }
    match at(i + 1) {
        'n' => out.push('\n'),
        't' => out.push('\t'),
        'r' => out.push('\r'),
        '0' => out.push('\0'),
        'x' => {
            let h: String = [at(i + 2), at(i + 3)].iter().collect();
            out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            return i + 4;
        }
        'u' => {
            let end = (i..c.len()).find(|k| c[*k] == '}').unwrap_or(c.len());
            let h: String = c[(i + 3).min(end)..end].iter().collect();
            out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            return end + 1;
        }
        '\n' => {
            let mut k = i + 2;
            while at(k).is_whitespace() {
                k += 1;
            }
            return k;
        }
        x => out.push(x),
    }
    i + 2
}

/// A literal of the code
pub fn word(g: &mut Gen) -> &'static str {
    let d = get();
    if d.words.is_empty() { "x" } else { &d.words[g.below(d.words.len())] }
}

/// A literal of the code that can be a name
pub fn name(g: &mut Gen) -> &'static str {
    let d = get();
    if d.names.is_empty() { "x" } else { &d.names[g.below(d.names.len())] }
}

/// A number of the code, from `lo` to `hi` - 3, or one just beside it
pub fn number(g: &mut Gen, lo: usize, hi: usize) -> Option<usize> {
    let (k, delta) = (g.raw(), g.below(5));
    let fit: Vec<usize> = get().numbers.iter().copied().filter(|n| (lo + 2..hi.saturating_sub(3)).contains(n)).collect();
    if fit.is_empty() {
        return None;
    }
    Some(fit[((k as u64 * fit.len() as u64) >> 32) as usize] + delta - 1)
}

#[cfg(test)]
mod tests {
    #[test]
    fn finds_literals() {
        let (mut w, mut n) = Default::default();
        super::literals("fn f<'a>(x: &'a str) { // \"no\"\n b\"by\"; '\\u{212a}'; r#\"raw \"x\"\"#; \"s\\\"q\"; 0x1F4; 1_000usize; 'c' }", &mut w, &mut n);
        let w: Vec<_> = w.iter().map(String::as_str).collect();
        assert_eq!(w, ["by", "c", "q", "raw", "raw \"x\"", "s", "s\"q", "x", "\u{1f4}", "\u{3e8}", "\u{212a}"]);
        assert_eq!(n.into_iter().collect::<Vec<_>>(), [500, 1000]);
    }
}
