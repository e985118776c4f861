//! C33: memory is given back.
use crate::engine::{ok, Part, Prop, R};
use crate::ensure;
use crate::gen;
use crate::p_strict::mutate;
use crate::ser;
use crate::tape::Gen;
use soupy::{Node, Queryable, Soup};

/// Looks at a document in all the ways there are, then drops everything
fn use_up<'n, N: Node<Text: AsRef<str> + std::fmt::Display + Ord + From<&'n str>> + Clone>(soup: &Soup<N>, name: &'n str, how: u32) -> usize {
    let mut n = soup.iter().count();
    n += soup.tag(name).all().count();
    n += soup.attr(true, name).strict().all().count();
    for i in soup.tag(true).all().take(3) {
        let sub = i.query();
        n += sub.attr(name, true).all().count();
        n += i.all_text().len();
        n += usize::from(i.get(name).is_some());
        // an iterator that is left early
        let mut d = i.descendants();
        d.next();
        d.next();
    }
    if how & 2 != 0 {
        let re = regex::Regex::new(name).unwrap();
        n += soup.tag(re).all().count();
    }
    if how & 1 != 0 {
        n += soup.clone().strict().all().count();
    }
    n
}

fn strict(s: &str, name: &str, how: u32) -> bool {
    Soup::html_strict(s).map(|d| use_up(&d, name, how)).is_ok()
}

fn lenient(s: &str, name: &str, how: u32) -> bool {
    let d = Soup::html(s);
    use_up(&d, name, how) > 0
}

fn xml(s: &str, name: &str, how: u32) -> bool {
    Soup::xml(s.as_bytes()).map(|d| use_up(&d, name, how)).is_ok()
}

fn c33(g: &mut Gen) -> R {
    let format = g.below(3);
    let how = g.below(8) as u32;
    let faulty = g.chance(35);
    let mut text = if format == 2 {
        let (root, _) = gen::xml_root(&mut g.sub(), 10);
        let s = ser::xml(g, &[root], &ser::no_decls);
        match s.find("?>").filter(|_| s.starts_with("<?xml ")) {
            Some(i) => s[i + 2..].to_string(),
            None => s,
        }
    } else {
        let (m, _) = gen::forest(&mut g.sub(), gen::Cfg { nodes: 10, ..gen::HTML });
        ser::html(g, &m)
    };
    if faulty {
        mutate(g, &mut text);
    }
    let parse = [strict, lenient, xml][format];
    let key = format!("{} {text}", ["strict", "lenient", "XML"][format]);
    crate::util::current_input(&key);
    let pass = |from: usize| -> (i64, usize) {
        // room for the texts does not count
        let mut doc = String::with_capacity(text.len() + 1000);
        let mut name = String::with_capacity(60);
        let before = crate::alloc::in_use();
        let mut accepted = 0;
        for n in from..from + 40 {
            use std::fmt::Write;
            doc.clear();
            name.clear();
            let _ = write!(name, "name-number-{n:08}-of-many");
            // not the same document twice
            let ns = if format == 2 { [String::new(), format!(" xmlns:q{n}=\"urn:{name}\" xmlns=\"urn:{name}\"")][usize::from(how & 4 != 0)].clone() } else { String::new() };
            let _ = write!(doc, "<{name} {name}=\"{name} &amp; more\"{ns}>{name} &lt; more<!-- {name} -->&#65;{name}<i>{name}</i>");
            if format < 2 {
                let _ = write!(doc, "&lt {name}<p>{name} &notit; &#x41;<script>{name}</script></p>");
            } else {
                let _ = write!(doc, "<![CDATA[{name}]]><?p{name} {name}?>");
            }
            doc.push_str(&text);
            let _ = write!(doc, "</{name}>");
            accepted += usize::from(parse(&doc, &name, how));
        }
        (crate::alloc::in_use() - before, accepted)
    };
    let (_, accepted) = pass(0);
    let kept: Vec<i64> = (1..5).map(|i| pass(i * 40).0).collect();
    // caches fill up some time; what grows for ever does so in each pass
    let least = *kept.iter().min().unwrap();
    ensure!(least < 300, key, "each 40 documents like this one, with other names, leave memory behind: {kept:?} bytes");
    ok(key, text.len() > 20, vec![["strict", "lenient", "XML"][format], if accepted == 0 { "rejected" } else { "accepted" }])
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "Random documents, a third of them with a fault, in all three formats; 40 variations each time with names, values, texts and comments not seen before are parsed, queried, iterated, cloned and dropped. Of five such passes, the bytes the thread has in use may not grow in each of the last four. Non-trivial: more than 20 bytes besides the varied element.",
        parts: vec![
            Part { name: "leaks", quick: 3_000, thorough: 160_000, tape: 500, f: c33 },
            Part { name: "huge", quick: 100, thorough: 2_000, tape: 400, f: |g| gen::huge(|| c33(g)) },
        ],
        ..Prop::new()
    }]
}
