//! C32: what a rejection says about where the document goes wrong.
use crate::engine::{fail, ok, Enumeration, Fail, Part, Prop, R};
use crate::ensure;
use crate::gen;
use crate::p_strict::{mutate, nth_word, strict_parse, token_soup};
use crate::p_xml::xml_parse;
use crate::ser;
use crate::tape::Gen;
use soupy::parser::{Parser, StrictHTMLParser, XMLParser};
use soupy::Soup;

/// Where the rejected document stops making sense, by the error of the parser
fn fault_at(s: &str) -> Result<Option<usize>, Fail> {
    crate::util::current_input(s);
    let of = |e: nom::Err<nom::error::Error<&str>>| match e {
        nom::Err::Error(e) | nom::Err::Failure(e) => {
            let at = (e.input.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
            if at > s.len() || at + e.input.len() != s.len() {
                return fail(s, format!("the error holds {:?}, which is not the rest of the document", e.input));
            }
            Ok(at)
        }
        nom::Err::Incomplete(_) => fail(s, "the parser asks for more input"),
    };
    match (StrictHTMLParser::parse(s), Soup::html_strict(s)) {
        (Err(a), Err(b)) => {
            let (a, b) = (of(a)?, of(b)?);
            ensure!(a == b, s, "the parser puts the fault at {a}, Soup::html_strict at {b}");
            Ok(Some(a))
        }
        _ => Ok(None),
    }
}

fn strict(s: String, mut l: Vec<&'static str>) -> R {
    let Some(at) = fault_at(&s)? else {
        l.push("accepted");
        return ok(s, false, l);
    };
    let (before, rest) = s.split_at(at);
    match strict_parse(before) {
        Err(e) => return fail(s, e),
        Ok(Err(e)) => return fail(&s, format!("the fault is put at {at}, but what comes before it is rejected, too: {e}")),
        Ok(Ok(_)) => {}
    }
    match fault_at(rest)? {
        Some(0) => {}
        Some(n) => return fail(&s, format!("the fault is put at {at}, but of what is left {:?} can be parsed", &rest[..n])),
        None => return fail(&s, format!("the fault is put at {at}, but what is left is accepted")),
    }
    // the same text as the rest of another document
    let longer = format!("<p>x</p>{s}");
    ensure!(fault_at(&longer)? == Some(at + 8), s, "the fault moves when an element is put in front");
    l.push(if at == 0 { "at the start" } else if rest.len() == 1 { "at the end" } else { "in the middle" });
    ok(s, at > 0, l)
}

fn c32_strict(g: &mut Gen) -> R {
    let (m, _) = gen::forest(&mut g.sub(), gen::Cfg { nodes: 14, ..gen::HTML });
    let mut s = ser::html(g, &m);
    let mut l = vec![];
    for _ in 0..g.weighted(&[2, 80, 18]) {
        l.push(mutate(g, &mut s));
    }
    strict(s, l)
}

/// Well-formed nodes in front of one that is not: the fault is where the latter begins
fn c32_after(g: &mut Gen) -> R {
    let (m, _) = gen::forest(&mut g.sub(), gen::Cfg { nodes: 8, ..gen::HTML });
    let good = ser::html(g, &m);
    let (m, _) = gen::forest(&mut g.sub(), gen::Cfg { nodes: 5, ..gen::HTML });
    let inner = ser::html(g, &m);
    let bad = g.pick(&["<a>IN</b>", "</a>IN", "<a x=>IN</a>", "<br x='>", "<>IN", "<a>IN<b></a></b>", "<a>IN</a x>", "<!-", "<div class=\"", "< a>IN</a>", "</>", "<a>IN<b>IN</a>", "<1>IN</2>", "<a>IN</ a>"]);
    let s = format!("{good}{}", bad.replace("IN", &inner));
    let Some(at) = fault_at(&s)? else { return ok(s, false, vec!["accepted"]) };
    // quotes and comments of the inner part may close what the fault has left open
    ensure!(at == good.len(), s, "the fault is put at {at} ({:?}), instead of at {}", &s[at..], good.len());
    strict(s, vec!["known place"])
}

const TOKENS: &[&str] = &["<a>", "</a>", "<b>", "</b>", "<br>", "x", "<", "<!--", "-->", "<script>", "</script>", "<a b=>"];

fn tokens_count(thorough: bool) -> u64 {
    (0..=if thorough { 5 } else { 4 }).map(|l| (TOKENS.len() as u64).pow(l)).sum()
}

fn tokens(i: u64) -> R {
    strict(nth_word(i, TOKENS.len() as u64).into_iter().map(|t| TOKENS[t]).collect(), vec!["tokens"])
}

// ---- XML ----

/// Line and column, counted from 0, and message of the error of the XML parser
type Place = (Option<(u64, u64)>, String);

fn xml_fault(s: &str) -> Result<Option<Place>, Fail> {
    if let Err(e) = xml_parse(s.as_bytes()) {
        return fail(s, e);
    }
    let of = |e: xmltree::ParseError| match e {
        xmltree::ParseError::MalformedXml(e) => {
            use xml::common::Position;
            let p = e.position();
            (Some((p.row, p.column)), e.msg().to_string())
        }
        e => (None, e.to_string()),
    };
    match (XMLParser::parse(s.as_bytes()), Soup::xml(s.as_bytes())) {
        (Err(a), Err(b)) => {
            let (a, b) = (of(a), of(b));
            ensure!(a == b, s, "the parser fails with {a:?}, Soup::xml with {b:?}");
            Ok(Some(a))
        }
        _ => Ok(None),
    }
}

/// The fault lies in the document, and moves with it
fn xml_moves(g: &mut Gen, s: &str, mut l: Vec<&'static str>) -> R {
    let Some(a) = xml_fault(s)? else {
        l.push("accepted");
        return ok(s.to_string(), false, l);
    };
    let Some((row, col)) = a.0 else {
        l.push("without a place");
        return ok(s.to_string(), false, l);
    };
    let lines = s.split('\n').count() as u64;
    ensure!(row < lines, s, "the fault is put into line {} of {lines}: {a:?}", row + 1);
    // lines in front of the document, or behind its declaration
    let at = if s.trim_start_matches('\u{feff}').starts_with("<?xml") {
        s.find("?>").filter(|i| !s[..*i].contains('>') && s[..*i].matches('<').count() == 1).map(|i| i + 2)
    } else {
        Some(0)
    };
    let Some(at) = at else { return ok(s.to_string(), false, l) };
    let line = s[..at].matches('\n').count() as u64;
    if row == line && at > 0 {
        l.push("in the line of the declaration");
        return ok(s.to_string(), false, l);
    }
    let n = if g.chance(90) { g.range(1, 5) as u64 } else { g.range(6, 3000) as u64 };
    let mut t = s.to_string();
    t.insert_str(at, &"\n".repeat(n as usize));
    let b = xml_fault(&t)?;
    // the message may speak of the start of the document
    let place = b.as_ref().and_then(|b| b.0);
    ensure!(place == Some((row + n, col)), s, "the fault is {a:?}, and with {n} lines more in front {b:?}");
    l.push("moved");
    ok(s.to_string(), row > 0, l)
}

fn c32_xml(g: &mut Gen) -> R {
    let (root, _) = gen::xml_root(&mut g.sub(), 12);
    let mut s = ser::xml(g, &[root], &ser::no_decls);
    let mut l = vec![];
    for _ in 0..g.weighted(&[2, 80, 18]) {
        l.push(mutate(g, &mut s));
    }
    xml_moves(g, &s, l)
}

/// A fault that its line gives away is put into that line
fn c32_line(g: &mut Gen) -> R {
    let lines = |g: &mut Gen, n: usize| -> String {
        (0..n).map(|_| format!("{}\n", g.pick(&["<i>text</i>", "", "text &amp; more", "<b c='d'/>", "<!-- comment -->", "<![CDATA[ <x> ]]>", "<?p i?>", "<b\tc='d'></b>", "\u{e9}\u{1f600}", "<b>\n</b>", "<!--\n-->", "<b\nc='d\ne'/>"]))).collect()
    };
    let before = if g.chance(95) { g.below(12) } else { g.below(4000) };
    let (before, after) = (lines(g, before), g.below(6));
    let after = lines(g, after);
    let bad = g.pick(&["<a></b>", "</a>", "<a b=c/>", "<a b/>", "<a b='1' b='2'/>", "&unknown;", "<a b='<'/>", "<a:b/>", "< a/>", "<1/>", "&#0;", "<a>&nope;</a>", "\u{1}", "<a><b></a></b>", "a ]]> b", "<!-- a -- b -->", "<a></a b>"]);
    let start = g.pick(&["", "<?xml version='1.0'?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n\n", "<!-- c -->\n", "\n\n"]);
    let head = format!("{start}<root>\n{before}");
    let s = format!("{head}<x>ok</x>{bad}<y/>\n{after}</root>\n");
    let want = head.matches('\n').count() as u64;
    match xml_fault(&s)? {
        None => ok(s, false, vec!["accepted"]),
        Some((None, m)) => fail(s, format!("the error has no place: {m}")),
        Some((Some((row, _)), m)) => {
            ensure!(row == want, s, "the fault is put into line {} instead of {}: {m}", row + 1, want + 1);
            xml_moves(g, &s, vec!["known line"])
        }
    }
}

const fn part(name: &'static str, quick: u64, tape: usize, f: fn(&mut Gen) -> R) -> Part {
    Part { name, quick, thorough: quick * 40, tape, f }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "Strict HTML: documents with faults, token soup, well-formed nodes followed by a malformed one, and all sequences of up to 4 (thorough: 5) of 12 tokens; the error's input has to be the rest of the document, what is before it has to parse, and what is left has to be rejected at its beginning. XML: documents with faults, and faults in a known line; the error's line has to be within the document and the known one, and lines put in front have to move it by as many lines. Non-trivial: a fault that is not at the start of the document, or not in its first line.",
        parts: vec![
            part("strict", 150_000, 600, c32_strict),
            part("after", 60_000, 600, c32_after),
            part("soup", 100_000, 80, |g| strict(token_soup(g, 14), vec!["soup"])),
            part("xml", 150_000, 500, c32_xml),
            part("line", 60_000, 200, c32_line),
            part("huge", 300, 400, |g| gen::huge(|| c32_strict(g))),
        ],
        enums: vec![Enumeration { name: "tokens", count: tokens_count, f: tokens }],
        ..Prop::new()
    }]
}
