//! Documents that are large in one respect, at sizes around the powers of two and
//! of ten, where counters, buffers and limits end. Text and tree are written side by side.
use crate::engine::{fail, ok, R};
use crate::ensure;
use crate::model::*;
use crate::p_lenient::{lenient_parse, oracle};
use crate::p_strict::strict_parse;
use crate::p_xml::{tidy, xml_parse, End, Interrupted, Pieces};
use soupy::parser::{Parser, XMLParser};

const QUICK: usize = 49;

/// 2^k - 1, 2^k, 2^k + 1 and 10^k, 10^k + 1, up to about 2^17 (thorough: 2^22)
fn sizes(thorough: bool) -> Vec<usize> {
    let mut s: Vec<usize> = (3..=17).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).chain((3..=4).flat_map(|k| [10usize.pow(k), 10usize.pow(k) + 1])).collect();
    assert_eq!(s.len(), QUICK);
    if thorough {
        s.extend((18..=22).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).chain((5..=6).flat_map(|k| [10usize.pow(k), 10usize.pow(k) + 1])));
    }
    s
}

/// `n` bytes of repetitions of the unit (ASCII)
fn fill(unit: &str, n: usize) -> String {
    unit.repeat(n / unit.len() + 1)[..n].to_string()
}

fn el(attrs: &[(&str, &str)], kids: Vec<M>) -> M {
    M::elem("p", attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), kids)
}

/// A text and the tree it has, or none if it is to be rejected
type Doc = (String, Option<Vec<M>>);
type Make = fn(usize) -> Doc;

/// Between two other elements
fn within(text: String, m: Vec<M>) -> Doc {
    let other = || M::elem("i", vec![], vec![M::text("t")]);
    (format!("<i>t</i>{text}<i>t</i>"), Some([other()].into_iter().chain(m).chain([other()]).collect()))
}

fn raw(name: &'static str, unit: &str, n: usize) -> Doc {
    let c = format!("x{}x", fill(unit, n.saturating_sub(2)));
    within(format!("<{name}>{c}</{name}>"), vec![M::raw(name, vec![], c)])
}

fn nested(n: usize) -> Vec<M> {
    (0..n).fold(vec![], |kids, _| vec![M::elem("a", vec![], kids)])
}

/// Deeper nesting is the known finding of C15
const DEEP: usize = 1000;

const C10: &[(&str, Make)] = &[
    ("text", |n| within(fill("some text> ", n), vec![M::text(fill("some text> ", n))])),
    ("children", |n| (format!("<div>{}</div>", "<br>x".repeat(n / 2)), Some(vec![M::elem("div", vec![], [M::void("br", vec![]), M::text("x")].into_iter().cycle().take(n / 2 * 2).collect())]))),
    ("top level", |n| ("<p></p>".repeat(n), Some(vec![el(&[], vec![]); n]))),
    ("comments", |n| ("<!---->".repeat(n), Some(vec![M::comment(""); n]))),
    ("depth", |n| (format!("{}{}", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP))), Some(nested(n.min(DEEP))))),
    ("name", |n| (format!("<e{0}>x</e{0}>", fill("abc-", n)), Some(vec![M::elem(format!("e{}", fill("abc-", n)), vec![], vec![M::text("x")])]))),
];

const C11: &[(&str, Make)] = &[
    ("value in double quotes", |n| within(format!("<p a=\"{}\" b='1'></p>", fill("v 'w>", n)), vec![el(&[("a", &fill("v 'w>", n)), ("b", "1")], vec![])])),
    ("value in single quotes", |n| within(format!("<p a='{}' b=\"1\"></p>", fill("v \"w>", n)), vec![el(&[("a", &fill("v \"w>", n)), ("b", "1")], vec![])])),
    ("value without quotes", |n| within(format!("<p a={} b=1></p>", fill("vw.-/", n)), vec![el(&[("a", &fill("vw.-/", n)), ("b", "1")], vec![])])),
    ("attribute name", |n| within(format!("<p {}=1 b></p>", fill("n-:.", n)), vec![el(&[(&fill("n-:.", n), "1"), ("b", "")], vec![])])),
    ("name without value", |n| within(format!("<p c {} b></p>", fill("n-:.", n)), vec![el(&[("c", ""), (&fill("n-:.", n), ""), ("b", "")], vec![])])),
    ("space between attributes", |n| within(format!("<p a=1{}b='2'></p>", fill(" \n\t", n)), vec![el(&[("a", "1"), ("b", "2")], vec![])])),
    ("space before the equals sign", |n| within(format!("<p a{}=1></p>", fill("\n ", n)), vec![el(&[("a", "1")], vec![])])),
    ("space behind the equals sign", |n| within(format!("<p a={}'1'></p>", fill("\t ", n)), vec![el(&[("a", "1")], vec![])])),
    ("space before the bracket", |n| within(format!("<p a='1'{}></p{0}>", fill(" \r\n", n)), vec![el(&[("a", "1")], vec![])])),
    ("attributes", |n| {
        let all: Vec<(String, String)> = (0..n).map(|i| (format!("a{i:07}"), i.to_string())).collect();
        let text: String = all.iter().map(|(k, v)| format!(" {k}={v}")).collect();
        within(format!("<br{text}>"), vec![M::void("br", all)])
    }),
];

const C12: &[(&str, Make)] = &[
    ("unclosed behind siblings", |n| (format!("{}<p>", "<br>".repeat(n)), None)),
    ("unclosed before siblings", |n| (format!("<p>{}", "<br>".repeat(n)), None)),
    ("stray end tag behind a text", |n| (format!("{}</p>", fill("text ", n)), None)),
    ("one end tag missing", |n| (format!("{}{}", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP) - 1)), None)),
    ("one end tag too many", |n| (format!("{}{}", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP) + 1)), None)),
    ("wrong innermost end tag", |n| (format!("{}</b>{}", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP) - 1)), None)),
    ("wrong outermost end tag", |n| (format!("<b>{}{}</a>", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP))), None)),
    ("unclosed comment", |n| (format!("<!--{}", fill("c - -> ", n)), None)),
    ("unclosed value", |n| (format!("<p a=\"{}></p>", fill("v ' ", n)), None)),
    ("unclosed tag", |n| (format!("<p {}", fill("a ", n)), None)),
    ("unclosed script", |n| (format!("<script>{}</scrip>", fill("s <i> ", n)), None)),
    ("end tag one letter short", |n| (format!("<e{}></e{}>", "x".repeat(n), "x".repeat(n - 1)), None)),
    ("end tag with another last letter", |n| (format!("<e{0}a></e{0}b>", "x".repeat(n)), None)),
    ("end tag one letter longer", |n| (format!("<e{}></e{}>", "x".repeat(n), "x".repeat(n + 1)), None)),
    ("stray bracket", |n| (format!("{}< {}", fill("text ", n), fill("text ", n)), None)),
    ("unclosed in a wide one", |n| (format!("<div>{}<p></div>", "<i></i>x".repeat(n)), None)),
];

const C13: &[(&str, Make)] = &[
    ("reference behind a text", |n| within(format!("{}&amp;&#65;&copy", fill("text ", n)), vec![M::text(format!("{}&A\u{a9}", fill("text ", n)))])),
    ("reference behind the text of a value", |n| within(format!("<p a='{}&amp;&#65;&copy;'></p>", fill("text ", n)), vec![el(&[("a", &format!("{}&A\u{a9}", fill("text ", n)))], vec![])])),
    ("references", |n| within("&lt;&#x41;".repeat(n), vec![M::text("<A".repeat(n))])),
    ("ampersands", |n| within(format!("{}&amp;", "&".repeat(n)), vec![M::text("&".repeat(n + 1))])),
    ("unknown name", |n| within(format!("&zz{};&amp;", "z".repeat(n)), vec![M::text(format!("&zz{};&", "z".repeat(n)))])),
    ("digits", |n| within(format!("&#{}65;&#x{}41;", "0".repeat(n), "0".repeat(n)), vec![M::text("AA")])),
    ("letters behind a name", |n| within(format!("&copy{}", "2".repeat(n)), vec![M::text(format!("\u{a9}{}", "2".repeat(n)))])),
];

const C14: &[(&str, Make)] = &[
    ("comment", |n| within(format!("<!--{}-->", fill("c <p> ' &amp; -> ", n)), vec![M::comment(fill("c <p> ' &amp; -> ", n))])),
    ("dashes in a comment", |n| within(format!("<!-- {}x-->", fill("-", n)), vec![M::comment(format!(" {}x", fill("-", n)))])),
    ("doctype", |n| within(format!("<!DOCTYPE {}>", fill("html \"&lt;\" <p ", n)), vec![M::doctype(fill("html \"&lt;\" <p ", n))])),
    ("script", |n| raw("script", "if (a<b) { '</p>' } &amp; <!-- ", n)),
    ("style", |n| raw("style", "a > b { c: '</stylex' } ", n)),
    ("nearly end tags", |n| raw("script", "</scrip></script</scripts>", n)),
    ("space around a script", |n| within(format!("<script>{0}x{0}</script>", fill(" \n", n)), vec![M::raw("script", vec![], "x")])),
    ("scripts", |n| ("<script>a</script>".repeat(n), Some(vec![M::raw("script", vec![], "a"); n]))),
];

const C16: &[(&str, Make)] = &[
    ("name that begins like a void one", |n| (format!("<br{0}>x</br{0}>", fill("-x", n)), Some(vec![M::elem(format!("br{}", fill("-x", n)), vec![], vec![M::text("x")])]))),
    ("name that begins like a raw one", |n| (format!("<script{0}><i></i></script{0}>", fill("s", n)), Some(vec![M::elem(format!("script{}", fill("s", n)), vec![], vec![M::elem("i", vec![], vec![])])]))),
    ("name that ends like a void one", |n| (format!("<{0}br>x</{0}br>", fill("a", n)), Some(vec![M::elem(format!("{}br", fill("a", n)), vec![], vec![M::text("x")])]))),
    ("void elements", |n| (format!("<p>{}</p>", "<Img><WBR/>".repeat(n)), Some(vec![el(&[], [M::void("Img", vec![]), M::void("WBR", vec![])].into_iter().cycle().take(2 * n).collect())]))),
    ("void elements at depth", |n| {
        let d = n.min(DEEP);
        (format!("{}<hr>{}", "<a>".repeat(d), "</a>".repeat(d)), Some((0..d).fold(vec![M::void("hr", vec![])], |kids, _| vec![M::elem("a", vec![], kids)])))
    }),
];


fn xel(name: &str, attrs: &[(&str, &str)], kids: Vec<M>) -> M {
    M::elem(name, attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), kids)
}

/// Between two other elements of the root
fn xml_within(text: String, m: Vec<M>) -> Doc {
    let (text, m) = within(text, m);
    (format!("<r>{text}</r>"), m.map(|m| vec![xel("r", &[], m)]))
}

const C20: &[(&str, Make)] = &[
    ("text", |n| xml_within(format!("x{}x", fill("text ' ", n)), vec![M::text(format!("x{}x", fill("text ' ", n)))])),
    ("text with characters of several bytes", |n| xml_within("\u{e9}\u{1f600}".repeat(n), vec![M::text("\u{e9}\u{1f600}".repeat(n))])),
    ("references", |n| xml_within("&lt;&#x41;".repeat(n), vec![M::text("<A".repeat(n))])),
    ("value", |n| xml_within(format!("<p a=\"{}\" b='1'/>", fill("v 'w>", n)), vec![el(&[("a", &fill("v 'w>", n)), ("b", "1")], vec![])])),
    ("attributes", |n| {
        let n = n.min(1 << 13); // each is compared with each other
        let all: Vec<(String, String)> = (0..n).map(|i| (format!("a{i:07}"), i.to_string())).collect();
        let text: String = all.iter().map(|(k, v)| format!(" {k}='{v}'")).collect();
        xml_within(format!("<p{text}/>"), vec![M::elem("p", all, vec![])])
    }),
    ("attribute name", |n| xml_within(format!("<p {}='1' b=''/>", fill("n-.", n)), vec![el(&[(&fill("n-.", n), "1"), ("b", "")], vec![])])),
    ("name", |n| xml_within(format!("<{0}>x</{0}>", fill("n-.", n)), vec![xel(&fill("n-.", n), &[], vec![M::text("x")])])),
    ("comment", |n| xml_within(format!("<!--{}-->", fill("c <p> &x; - ", n)), vec![M::comment(fill("c <p> &x; - ", n))])),
    ("CDATA", |n| xml_within(format!("<![CDATA[x{}]]>", fill("c <p> &x; ]> ", n)), vec![M::cdata(format!("x{}", fill("c <p> &x; ]> ", n)))])),
    ("instruction", |n| xml_within(format!("<?t x{}x?>", fill("d <p> &x; > ", n)), vec![M::pi("t", Some(format!("x{}x", fill("d <p> &x; > ", n))))])),
    ("children", |n| (format!("<r>{}</r>", "<b/>x".repeat(n)), Some(vec![xel("r", &[], [xel("b", &[], vec![]), M::text("x")].into_iter().cycle().take(2 * n).collect())]))),
    ("comments around the root", |n| {
        let c = vec![M::comment("c"); n];
        (format!("{0}<r/>{0}", "<!--c-->".repeat(n)), Some([c.clone(), vec![xel("r", &[], vec![])], c].concat()))
    }),
    ("space around the root", |n| (format!("{0}<r>x</r>{0}", fill(" \n\t", n)), Some(vec![xel("r", &[], vec![M::text("x")])]))),
    ("space in a tag", |n| xml_within(format!("<p{0}a{0}={0}'1'{0}/>", fill(" \n\t", n)), vec![el(&[("a", "1")], vec![])])),
    ("space in an end tag", |n| xml_within(format!("<p>x</p{}>", fill(" \n\t", n)), vec![el(&[], vec![M::text("x")])])),
    ("depth", |n| (format!("{}{}", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP))), Some(nested(n.min(DEEP))))),
    ("digits of a reference", |n| xml_within(format!("&#{}65;", "0".repeat(n.min(5))), vec![M::text("A")])),
];

const C22: &[(&str, Make)] = &[
    ("roots", |n| ("<r/>".repeat(n + 1), None)),
    ("roots apart", |n| (format!("<r></r>{}<r/>", "<!--c--> ".repeat(n)), None)),
    ("text behind", |n| (format!("<r/>{}x", fill(" \n", n)), None)),
    ("text before", |n| (format!("{}x<r/>", fill(" \n", n)), None)),
    ("reference behind", |n| (format!("<r/>{}&#65;", "<!--c--> ".repeat(n)), None)),
    ("CDATA behind", |n| (format!("<r/>{}<![CDATA[x]]>", "<?p q?>".repeat(n)), None)),
    ("no root", |n| ("<!--c-->".repeat(n), None)),
    ("only space", |n| (fill(" \n", n), None)),
    ("one end tag missing", |n| (format!("{}{}", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP) - 1)), None)),
    ("one end tag too many", |n| (format!("{}{}", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP) + 1)), None)),
    ("wrong innermost end tag", |n| (format!("{}</b>{}", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP) - 1)), None)),
    ("wrong outermost end tag", |n| (format!("<b>{}{}</a>", "<a>".repeat(n.min(DEEP)), "</a>".repeat(n.min(DEEP))), None)),
    ("end tag one letter short", |n| (format!("<e{}></e{}>", "x".repeat(n), "x".repeat(n - 1)), None)),
    ("end tag with another last letter", |n| (format!("<e{0}a></e{0}b>", "x".repeat(n)), None)),
    ("end tag one letter longer", |n| (format!("<e{}></e{}>", "x".repeat(n), "x".repeat(n + 1)), None)),
    ("unclosed behind children", |n| (format!("<r>{}", "<b/>x".repeat(n)), None)),
    ("unclosed child", |n| (format!("<r>{}<b></r>", "<b/>x".repeat(n)), None)),
    ("unclosed comment", |n| (format!("<r/><!--{}", fill("c - > ", n)), None)),
    ("unclosed comment within", |n| (format!("<r><!--{}</r>", fill("c - > ", n)), None)),
    ("unclosed CDATA", |n| (format!("<r><![CDATA[{}</r>", fill("c ]> > ", n)), None)),
    ("unclosed value", |n| (format!("<r a='{}/>", fill("v \" ", n)), None)),
    ("undeclared entity", |n| (format!("<r>{}&zz;</r>", fill("text ", n)), None)),
    ("unknown entity of that length", |n| (format!("<r>&{};</r>", "z".repeat(n)), None)),
    ("ampersand behind a text", |n| (format!("<r>{} & </r>", fill("text ", n)), None)),
    ("control character behind a text", |n| (format!("<r>{}\u{1}</r>", fill("text ", n)), None)),
    ("bracket in a value", |n| (format!("<r a='{}<'/>", fill("v \" ", n)), None)),
    ("the same attribute twice", |n| {
        // a repeat behind eight is a known finding
        let n = if n == 8 { 6 } else { n.min(1 << 13) };
        let all: String = (0..n).map(|i| format!(" a{i:07}=''")).collect();
        (format!("<r{all} a0000000=''/>"), None)
    }),
];

const C21: &[(&str, Make)] = &[
    ("prefix", |n| scoped(&fill("p-.", n), "u")),
    ("URI", |n| scoped("p", &fill("http://e.org/", n))),
    ("declarations", |n| {
        let n = n.min(1 << 12); // each is compared with each other
        let all: Vec<(String, String)> = (0..n).map(|i| (format!("p{i}"), format!("u{i}"))).collect();
        let text: String = all.iter().map(|(p, u)| format!(" xmlns:{p}='{u}'")).collect();
        let last = n - 1;
        let mut r = with_ns(xel("r", &[], vec![]), None, None, &all);
        r.kids = vec![with_ns(xel("x", &[], vec![]), Some("p0"), Some("u0"), &all), with_ns(xel("x", &[], vec![]), Some(&format!("p{last}")), Some(&format!("u{last}")), &all)];
        (format!("<r{text}><p0:x/><p{last}:x/></r>"), Some(vec![r]))
    }),
    ("undeclared behind that many", |n| {
        let n = n.min(1 << 12);
        let text: String = (0..n).map(|i| format!(" xmlns:p{i}='u{i}'")).collect();
        (format!("<r{text}><p{n}:x/></r>"), None)
    }),
    ("declared above", |n| {
        let n = n.min(DEEP) - 1;
        let s = [("p".to_string(), "u".to_string())];
        let kids = (0..n).fold(vec![with_ns(xel("x", &[], vec![]), Some("p"), Some("u"), &s)], |k, _| vec![with_ns(xel("b", &[], k), None, None, &s)]);
        (format!("<r xmlns:p='u'>{}<p:x/>{}</r>", "<b>".repeat(n), "</b>".repeat(n)), Some(vec![with_ns(xel("r", &[], kids), None, None, &s)]))
    }),
    ("out of scope behind siblings", |n| (format!("<r><b xmlns:p='u'/>{}<p:b/></r>", "<b/>".repeat(n)), None)),
    ("default declared and undeclared", |n| {
        let n = n.min(400);
        let k = (0..n).fold(vec![], |k, i| {
            let u = (i % 2 == 0).then(|| "u");
            let scope: Vec<(String, String)> = u.iter().map(|u| (String::new(), u.to_string())).collect();
            vec![with_ns(xel("a", &[], k), None, u, &scope)]
        });
        // the innermost is number 0
        let open: String = (0..n).rev().map(|i| if i % 2 == 0 { "<a xmlns='u'>" } else { "<a xmlns=''>" }).collect();
        (format!("{open}{}", "</a>".repeat(n)), Some(k))
    }),
];

fn with_ns(mut m: M, prefix: Option<&str>, ns: Option<&str>, scope: &[(String, String)]) -> M {
    m.ns = Some(Box::new(Ns { prefix: prefix.map(Into::into), ns: ns.map(Into::into), scope: Some(scope.iter().cloned().collect::<std::collections::BTreeMap<_, _>>().into_iter().collect()) }));
    m
}

fn scoped(p: &str, u: &str) -> Doc {
    let s = [(p.to_string(), u.to_string())];
    let mut r = with_ns(xel("r", &[], vec![]), None, None, &s);
    r.kids = vec![with_ns(xel("x", &[], vec![]), Some(p), Some(u), &s), with_ns(xel("y", &[("z", "1")], vec![]), None, None, &s)];
    (format!("<r xmlns:{p}='{u}'><{p}:x/><y {p}:z='1'/></r>"), Some(vec![r]))
}

/// The lenient parser, against the HTML5 parser: texts only
const C18: &[fn(usize) -> (&'static str, String)] = &[
    |n| ("text", fill("some text ", n)),
    |n| ("text in an element", format!("<p>{}</p><p>t", fill("some > text ", n))),
    |n| ("value", format!("<p a='{}' b=1>t", fill("v \"w>", n))),
    |n| ("comment", format!("<p><!--{}-->t", fill("c - <p> ", n))),
    |n| ("name", format!("<e{}>t</e{}>t", "x".repeat(n), "x".repeat(n))),
    |n| ("children", format!("<div>{}</div>", "<br>x".repeat(n))),
    |n| ("unclosed paragraphs", "<p>x".repeat(n)),
    |n| ("list items", format!("<ul>{}</ul>", "<li>x".repeat(n))),
    |n| ("rows", format!("<table>{}</table>", "<tr><td>x".repeat(n))),
    |n| ("script", format!("<script>{}</script>t", fill("if (a<b) '</p>' ", n))),
    |n| ("textarea", format!("<textarea>{}</textarea>t", fill("a &amp; <b> ", n))),
    |n| ("references", "&lt;&copy;&#65;".repeat(n)),
    |n| ("digits", format!("&#{}65;x", "0".repeat(n))),
    |n| ("attribute name", format!("<p {}=1 b>t", fill("n-", n))),
    |n| ("attributes", format!("<p{}>t", (0..n.min(1 << 11)).map(|i| format!(" a{i}={i}")).collect::<String>())),
    |n| ("space", format!("<div>{0}<p{0}a{0}={0}1>t</p{0}>{0}</div>", fill(" \n\t", n))),
    |n| ("comments", "<!--c-->".repeat(n)),
    |n| ("depth", format!("{}x{}", "<div>".repeat(n.min(DEEP)), "</div>".repeat(n.min(DEEP)))),
    |n| ("formatting", format!("{}<p>x</p>y", "<b><i>".repeat(n.min(60)))),
    |n| ("template", format!("<template>{}</template>t", "<br>x".repeat(n))),
    |n| ("pictures", format!("<svg>{}</svg>t", "<path d=1 /><g>x</g>".repeat(n))),
    |n| ("stray end tags", format!("<div>{}x</div>t", "</span>".repeat(n))),
    |n| ("doctype", format!("<!doctype {}><p>t", fill("h", n))),
];

fn c18(i: u64) -> R {
    let n = sizes(true)[i as usize / C18.len()];
    let (what, s) = C18[i as usize % C18.len()](n);
    let what = format!("{what}, size {n}");
    crate::util::current_input(&what);
    let short = |s: &str| s.chars().take(200).collect::<String>();
    let Ok(want) = oracle(&s) else { return fail(what, "no answer of the HTML5 parser") };
    match lenient_parse(&s) {
        Ok(got) => ensure!(got == want, format!("{what}: {}", short(&s)), "a different tree: {}", short(&format!("{got:?}"))),
        Err(f) => return fail(format!("{what}: {}", short(&s)), short(&f.msg)),
    }
    ok(what, true, vec!["sizes"])
}

/// Readers: interrupted that many times in a row, after that many bytes, or failing there
fn c23(i: u64) -> R {
    let n = sizes(true)[i as usize];
    let what = format!("size {n}");
    crate::util::current_input(&what);
    let s = format!("<r a='1'><b/>{}<c>t</c></r>", "\u{e9} x".repeat(n / 4 + 1));
    let at_once = XMLParser::parse(s.as_bytes()).map(|n| ms(&n)).map_err(|e| e.to_string());
    ensure!(at_once.is_ok(), what, "rejected");
    let pieces = |sizes: Vec<usize>| Pieces { data: s.as_bytes(), sizes, at: 0, end: End::Eof, failed: false };
    let check = |how: &str, r: &mut dyn std::io::Read| {
        let got = XMLParser::parse(r).map(|n| ms(&n)).map_err(|e| e.to_string());
        if let Err(e) = &got {
            return fail(what.clone(), format!("{how}: rejected: {}", e.chars().take(200).collect::<String>()));
        }
        ensure!(got == at_once, what, "{how}: a different tree");
        Ok(())
    };
    check("in pieces of that size", &mut pieces(vec![n]))?;
    check("first a piece of that size", &mut pieces(vec![n, 1, 1, 1, 1, 1, 1, 1, s.len()]))?;
    check("last byte apart", &mut pieces(vec![s.len() - 1, 1]))?;
    check("interrupted now and then", &mut Interrupted { inner: pieces(vec![n]), every: 1, row: 1, n: 0 })?;
    check("interrupted that many times in a row", &mut Interrupted { inner: pieces(vec![s.len()]), every: s.len() / 2, row: n, n: s.len() / 2 - 1 })?;
    for end in [End::Eof, End::Error(std::io::ErrorKind::Other), End::Error(std::io::ErrorKind::WouldBlock)] {
        let mut r = Pieces { data: &s.as_bytes()[..n.min(s.len() - 1)], sizes: vec![n], at: 0, end: end.clone(), failed: false };
        ensure!(XMLParser::parse(&mut r).is_err(), what, "accepted with the reader at an end after that many bytes: {end:?}");
    }
    ok(what, true, vec!["sizes"])
}

type Parse = fn(&str) -> Result<Result<Vec<M>, String>, String>;

fn xml_plain(s: &str) -> Result<Result<Vec<M>, String>, String> {
    xml_parse(s.as_bytes()).map(|r| r.map(|m| m.into_iter().map(M::without_ns).collect()))
}

fn xml_scoped(s: &str) -> Result<Result<Vec<M>, String>, String> {
    xml_parse(s.as_bytes()).map(|r| r.map(|m| m.iter().map(tidy).collect()))
}

fn case(parse: Parse, all: &[(&str, Make)], i: u64) -> R {
    let n = sizes(true)[i as usize / all.len()];
    let (what, make) = all[i as usize % all.len()];
    let what = format!("{what}, size {n}");
    crate::util::current_input(&what);
    let (text, want) = make(n);
    let short = |s: &str| s.chars().take(200).collect::<String>();
    match (parse(&text), &want) {
        (Ok(Ok(got)), Some(want)) => ensure!(&got == want, format!("{what}: {}", short(&text)), "a different tree: {}", short(&format!("{got:?}"))),
        (Ok(Err(e)), Some(_)) => return fail(format!("{what}: {}", short(&text)), format!("rejected: {}", short(&e))),
        (Ok(Ok(got)), None) => return fail(format!("{what}: {}", short(&text)), format!("accepted: {}", short(&format!("{got:?}")))),
        (Ok(Err(_)), None) => {}
        (Err(e), _) => return fail(format!("{what}: {}", short(&text)), short(&e)),
    }
    ok(what, true, vec!["sizes"])
}

macro_rules! enumerations {
    ($($name:ident $all:ident $parse:expr),*) => { $(pub const $name: crate::engine::Enumeration = crate::engine::Enumeration {
        name: "sizes",
        count: |t| (sizes(t).len() * $all.len()) as u64,
        f: |i| case($parse, $all, i),
    };)* };
}
enumerations!(IN_C10 C10 strict_parse, IN_C11 C11 strict_parse, IN_C12 C12 strict_parse, IN_C13 C13 strict_parse, IN_C14 C14 strict_parse, IN_C16 C16 strict_parse, IN_C20 C20 xml_plain, IN_C21 C21 xml_scoped, IN_C22 C22 xml_plain);
pub const IN_C18: crate::engine::Enumeration = crate::engine::Enumeration { name: "sizes", count: |t| (sizes(t).len() * C18.len()) as u64, f: c18 };
pub const IN_C23: crate::engine::Enumeration = crate::engine::Enumeration { name: "sizes", count: |t| sizes(t).len() as u64, f: c23 };
