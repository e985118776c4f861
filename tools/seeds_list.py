# ---- queries ----
seed("q-depth-cap", "C01", "a matching node more than 32 levels below a top-level node",
     "recursive queries stop at a depth of 32",
     [(NODE, "*child = Some(Box::new(Self::tree(c)));", "*child = Some(Box::new(Self::tree_at(c, *depth + 1)));"),
      (NODE, "        next: Option<usize>,\n    },", "        next: Option<usize>,\n        depth: usize,\n    },"),
      (NODE, """    pub(crate) fn tree(node: &'x N) -> Self {
        Self::Tree {
            node,
            child: None,
            next: None,
        }""", """    pub(crate) fn tree(node: &'x N) -> Self {
        Self::tree_at(node, 0)
    }

    /// Bounds the nesting of boxed iterators
    const MAX_DEPTH: usize = 32;

    fn tree_at(node: &'x N, depth: usize) -> Self {
        Self::Tree {
            node,
            child: None,
            next: None,
            depth,
        }"""),
      (NODE, "NodeIter::Tree { node, child, next } => loop {", "NodeIter::Tree { node, child, next, depth } => loop {"),
      (NODE, "                    let children = node.children();\n", "                    let children = if *depth < Self::MAX_DEPTH { node.children() } else { &[] };\n")],
     """
use soupy::prelude::*;
fn main() {
    let n = 40;
    let s = format!("{}<b>x</b>{}", "<i>".repeat(n), "</i>".repeat(n));
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.tag("i").all().count(), n);
    assert_eq!(soup.tag("b").all().count(), 1);
}
""")

seed("q-attr-resets-mode", "C02", "an attribute or class condition added after strict()",
     "adding an attribute condition to a strict query makes it recursive again",
     [(QUERY, """        Query {
            soup: self.soup,
            recursive: self.recursive,
            filter: And(self.filter, Attr { name, value }),
        }""", """        self.soup
            .attr(name, value)
            .narrow(|attr| And(self.filter, attr.1))
            .recursive()"""),
      (QUERY, """impl<'x, N, F> Queryable<'x> for Query<'x, N, F>
where""", """impl<'x, N, F> Query<'x, N, F> {
    fn narrow<G>(self, f: impl FnOnce(F) -> G) -> Query<'x, N, G> {
        Query {
            soup: self.soup,
            recursive: self.recursive,
            filter: f(self.filter),
        }
    }
}

impl<'x, N, F> Queryable<'x> for Query<'x, N, F>
where""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a class='x'><b class='x'></b></a>").unwrap();
    assert_eq!(soup.strict().class("x").all().count(), 1);
    assert_eq!(soup.class("x").strict().all().count(), 1);
}
""")

seed("q-recursive-sticky", "C02", "strict() and then recursive() on the same query",
     "once strict, a query cannot be made recursive again",
     [(QUERY, """        Query {
            soup: self.soup,
            recursive: true,
            filter: self.filter,
        }""", """        Query {
            soup: self.soup,
            recursive: self.recursive,
            filter: self.filter,
        }""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a><b></b></a>").unwrap();
    assert_eq!(soup.strict().recursive().all().count(), 2);
}
""")

seed("q-size-hint", "C03", "size_hint of a strict query that filters something out",
     "the lower bound of size_hint exceeds what the iterator yields",
     [(NODE, """    fn next(&mut self) -> Option<Self::Item> {
        match self {
            NodeIter::Direct { iter } => iter.next(),""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            NodeIter::Direct { iter } => iter.size_hint(),
            NodeIter::Tree { .. } => (0, None),
        }
    }

    fn next(&mut self) -> Option<Self::Item> {
        match self {
            NodeIter::Direct { iter, .. } => iter.next(),"""),
      (QUERY, """    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let next = self.iter.next()?;

            if self.filter.matches(next) {
                return Some(QueryItem { item: next });
            }
        }
    }""", """    fn next(&mut self) -> Option<Self::Item> {
        let filter = &self.filter;

        self.iter
            .find(|n| filter.matches(n))
            .map(|item| QueryItem { item })
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<b></b><a></a>").unwrap();
    let mut it = soup.strict().tag("b").all();
    it.next();
    let (low, high) = it.size_hint();
    let left = it.count();
    assert!(low <= left, "{low} > {left}");
    assert!(high.map_or(true, |h| h >= left));
}
""")

seed("q-sub-drops-comments", "C04", "an item with a comment, doctype or other node among its children",
     "query() keeps only the children that are elements or text",
     [(QUERY, "            nodes: self.item.children().to_vec(),", """            nodes: self
                .item
                .children()
                .iter()
                .filter(|c| c.name().is_some() || c.text().is_some())
                .cloned()
                .collect(),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a>t<!--c--><b></b></a>").unwrap();
    let sub = soup.tag("a").first().unwrap().query();
    assert_eq!(sub.iter().count(), 3);
}
""")

seed("p-regex-empty-match", "C05", "a regex that only matches the empty string in the haystack",
     "a regex whose match is empty does not count as a match",
     [(PATTERN, "        self.is_match(haystack.as_ref())", "        self.find(haystack.as_ref()).is_some_and(|m| !m.is_empty())")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a x='v'></a>").unwrap();
    assert_eq!(soup.attr("x", regex::Regex::new("^").unwrap()).all().count(), 1);
    assert_eq!(soup.tag(regex::Regex::new("z*").unwrap()).all().count(), 1);
}
""")

seed("p-cow-trim", "C05", "a Cow pattern with surrounding whitespace used for an attribute name",
     "the value that a Cow offers for lookup is trimmed",
     [(PATTERN, "        Some(self.as_ref().into())", "        Some(self.trim().into())")],
     """
use soupy::prelude::*;
use soupy::parser::{Parser, XMLNode, XMLElement};
struct P;
impl Parser for P {
    type Input = ();
    type Node = XMLNode;
    type Error = ();
    fn parse(_: ()) -> Result<Vec<XMLNode>, ()> {
        Ok(vec![XMLNode::Element(XMLElement { name: "e".into(), attributes: [("id".to_string(), "1".to_string())].into(), ..Default::default() })])
    }
}
fn main() {
    let soup = Soup::new::<P>(()).unwrap();
    let c: std::borrow::Cow<str> = " id".into();
    assert_eq!(soup.attr_name(c).all().count(), 0);
    let c: std::borrow::Cow<str> = "id".into();
    assert_eq!(soup.attr_name(c).all().count(), 1);
}
""")

seed("f-first-name-decides", "C06", "two attributes that match the name pattern, the first of which has another value",
     "the first attribute whose name matches decides",
     [(FILTER, """                for (name, value) in attrs {
                    if self.name.matches(name) && self.value.matches(value) {
                        return true;
                    }
                }

                false""", """                attrs
                    .iter()
                    .find(|(name, _)| self.name.matches(name))
                    .is_some_and(|(_, value)| self.value.matches(value))""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a data-x='1' data-y='2'></a>").unwrap();
    let re = || regex::Regex::new("^data-").unwrap();
    assert_eq!(soup.attr(re(), "1").all().count(), 1);
    assert_eq!(soup.attr(re(), "2").all().count(), 1);
}
""")

seed("f-two-attributes", "C06", "one attribute matching the name, another one the value",
     "name and value may be matched by different attributes when the name is a pattern",
     [(FILTER, """                for (name, value) in attrs {
                    if self.name.matches(name) && self.value.matches(value) {
                        return true;
                    }
                }

                false""", """                attrs.keys().any(|name| self.name.matches(name))
                    && attrs.values().any(|value| self.value.matches(value))""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a x='1' y='2'></a>").unwrap();
    let re = || regex::Regex::new("^x").unwrap();
    assert_eq!(soup.attr(re(), "1").all().count(), 1);
    assert_eq!(soup.attr(re(), "2").all().count(), 0);
}
""")

seed("f-or-xor", "C07", "an Or both of whose operands hold",
     "Or is exclusive",
     [(FILTER, "        self.0.matches(node) || self.1.matches(node)", "        self.0.matches(node) != self.1.matches(node)")],
     """
use soupy::prelude::*;
use soupy::filter::*;
fn main() {
    let soup = Soup::html_strict("<a></a>").unwrap();
    let n = soup.iter().next().unwrap();
    assert!(Or((), Tag { tag: "a" }).matches(&*n));
    assert!(Or((), Tag { tag: "b" }).matches(&*n));
}
""")

seed("n-all-text-empty", "C08", "an empty text node",
     "all_text leaves out empty texts, and so a line",
     [(NODE, """            .map(ToString::to_string)
            .collect::<Vec<_>>()""", """            .map(ToString::to_string)
            .filter(|t| !t.is_empty())
            .collect::<Vec<_>>()""")],
     """
use soupy::prelude::*;
use soupy::parser::{Parser, XMLNode, XMLElement};
struct P;
impl Parser for P {
    type Input = ();
    type Node = XMLNode;
    type Error = ();
    fn parse(_: ()) -> Result<Vec<XMLNode>, ()> {
        Ok(vec![XMLNode::Element(XMLElement { name: "e".into(), children: vec![XMLNode::Text("a".into()), XMLNode::Text("".into()), XMLNode::Text("b".into())], ..Default::default() })])
    }
}
fn main() {
    let soup = Soup::new::<P>(()).unwrap();
    assert_eq!(soup.tag("e").first().unwrap().all_text(), "a\\n\\nb");
}
""")

seed("n-text-leaf", "C09", "a user-defined node with both a text and children",
     "nodes that have a text are taken for leaves",
     [(NODE, "                    let children = node.children();\n", "                    let children = if node.text().is_some() { &[] } else { node.children() };\n")],
     """
use soupy::prelude::*;
use std::collections::BTreeMap;
#[derive(Clone)]
struct N { text: String, kids: Vec<N> }
impl Node for N {
    type Text = String;
    fn name(&self) -> Option<&String> { None }
    fn text(&self) -> Option<&String> { Some(&self.text) }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { None }
    fn children(&self) -> &[N] { &self.kids }
}
fn main() {
    let n = N { text: "a".into(), kids: vec![N { text: "b".into(), kids: vec![] }] };
    assert_eq!(n.descendants().count(), 2);
    assert_eq!(n.all_text(), "a\\nb");
}
""")

seed("f-tag-needs-attrs", "C09", "a user-defined node that has a name but no attributes (None)",
     "tag conditions take only nodes with attributes for elements",
     [(FILTER, """        if let Some(name) = node.name() {
            self.tag.matches(name)""", """        if let (Some(name), Some(_)) = (node.name(), node.attrs()) {
            self.tag.matches(name)""")],
     """
use soupy::prelude::*;
use std::collections::BTreeMap;
#[derive(Clone)]
struct N(String);
impl Node for N {
    type Text = String;
    fn name(&self) -> Option<&String> { Some(&self.0) }
    fn text(&self) -> Option<&String> { None }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { None }
    fn children(&self) -> &[N] { &[] }
}
struct P;
impl soupy::parser::Parser for P {
    type Input = ();
    type Node = N;
    type Error = ();
    fn parse(_: ()) -> Result<Vec<N>, ()> { Ok(vec![N("a".into())]) }
}
fn main() {
    let soup = Soup::new::<P>(()).unwrap();
    assert_eq!(soup.tag("a").all().count(), 1);
}
""")

# ---- strict HTML ----
seed("s-comment-dashes", "C10", "a comment that ends in a dash before its terminator",
     "dashes at the end of a comment are lost",
     [(STRICT, '    map(preceded(tag("<!--"), take_to("-->")), HTMLNode::Comment)(i)', """    map(preceded(tag("<!--"), take_to("-->")), |c: &str| {
        HTMLNode::Comment(c.trim_end_matches('-'))
    })(i)""")],
     """
use soupy::prelude::*;
use soupy::parser::HTMLNode;
fn main() {
    let soup = Soup::html_strict("<a><!-- x ---></a>").unwrap();
    assert!(soup.iter().any(|n| *n == HTMLNode::Comment(" x -".into())));
}
""")

seed("s-space-before-bracket", "C11", "a line break or tab before the closing bracket of a start tag",
     "only spaces are allowed before the closing bracket of a start tag with attributes",
     [(STRICT, """            preceded(
                multispace0,
                alt((map(tag("/>"), |_| true), map(tag(">"), |_| false))),
            ),""", """            preceded(
                nom::bytes::complete::take_while(|c| c == ' '),
                alt((map(tag("/>"), |_| true), map(tag(">"), |_| false))),
            ),""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<a x='1' >t</a>").is_ok());
    assert!(Soup::html_strict("<a x='1'\\n>t</a>").is_ok());
}
""")

seed("s-single-quote-double", "C11", "a single-quoted value that contains a double quote",
     "a single-quoted value ends at the first quote of either kind",
     [(STRICT, """delimited(char('\\''), take_until("'"), char('\\'')),""", """delimited(char('\\''), take_while(|c| c != '\\'' && c != '"'), char('\\'')),"""),
      (STRICT, "        take_until,\n    },\n    character", "        take_until,\n        take_while,\n    },\n    character")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a x='say \\"hi\\"'>t</a>").unwrap();
    assert_eq!(soup.tag("a").first().unwrap().get("x"), Some(&"say \\"hi\\"".into()));
}
""")

seed("s-trailing-end-tag", "C12", "a stray end tag as the last thing of a document",
     "trailing end tags without a start tag are accepted and dropped",
     [(STRICT, "        nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)", """        nom::combinator::all_consuming(terminated(
            parse_escaped,
            opt(delimited(tag("</"), tag_char, ws(char('>')))),
        ))(text)
        .map(|r| r.1)""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<a>t</a>").is_ok());
    assert!(Soup::html_strict("<a>t</a></p>").is_err());
}
""")

seed("s-eof-closes", "C12", "an element that is still open at the end of the document",
     "the end of the document closes elements",
     [(STRICT, """        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(multispace0, char('>')),
        ),
    )(left)?;""", """        alt((
            delimited(
                tag("</"),
                tag_no_case(name),
                preceded(multispace0, char('>')),
            ),
            // `<p>` and `<li>` may be left open at the end
            nom::combinator::verify(nom::combinator::rest, |r: &str| {
                r.is_empty() && matches!(name, "p" | "li")
            }),
        )),
    )(left)?;""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<p>t</p>").is_ok());
    assert!(Soup::html_strict("x<p>t").is_err());
}
""")

seed("s-entity-swap", "C13", "the reference &NotEqualTilde;",
     "a two-character named reference loses its second character",
     [(ENT, '    "&NotEqualTilde;" => r#"\u2242\u0338"#,', '    "&NotEqualTilde;" => r#"\u2242"#,')],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a>&NotEqualTilde;</a>").unwrap();
    assert_eq!(soup.tag("a").first().unwrap().all_text(), "\\u{2242}\\u{338}");
}
""")

seed("s-raw-attrs-literal", "C13", "a character reference in an attribute of a script or style element",
     "references in the attributes of script and style elements are not decoded",
     [(STRICT, """        } => RawElement {
            name: name.into(),
            attrs: escape_attrs(attrs),
            content: content.into(),""", """        } => RawElement {
            name: name.into(),
            attrs: attrs.into_iter().map(|(k, v)| (k.into(), v.into())).collect(),
            content: content.into(),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<script src='?a&amp;b'>x</script>").unwrap();
    assert_eq!(soup.tag("script").first().unwrap().get("src"), Some(&"?a&b".into()));
}
""")

seed("s-doctype-decoded", "C14", "something like a character reference in a doctype",
     "references in doctypes are decoded",
     [(STRICT, "        Doctype(t) => Doctype(t.into()),", "        Doctype(t) => Doctype(escape_text(t)),")],
     """
use soupy::prelude::*;
use soupy::parser::HTMLNode;
fn main() {
    let soup = Soup::html_strict("<!DOCTYPE html SYSTEM 'a?b&amp;c'>").unwrap();
    assert!(soup.iter().any(|n| *n == HTMLNode::Doctype("html SYSTEM 'a?b&amp;c'".into())));
}
""")

seed("s-raw-comment-wrapper", "C14", "a script whose whole content is wrapped in <!-- and -->",
     "the HTML comment that hides scripts from old browsers is stripped from raw content",
     [(STRICT, "        content: content.trim(),", """        content: content
            .trim()
            .trim_start_matches("<!--")
            .trim_end_matches("-->")
            .trim(),""")],
     """
use soupy::prelude::*;
use soupy::parser::HTMLNode;
fn main() {
    let soup = Soup::html_strict("<script><!-- x --></script>").unwrap();
    let n = soup.iter().next().unwrap();
    assert!(matches!(&*n, HTMLNode::RawElement { content, .. } if content == "<!-- x -->"));
}
""")

seed("s-doctype-slice", "C15", "a multi-byte character across the tenth byte after a '<'",
     "the doctype parser cuts the input at a byte position without checking for a character boundary",
     [(STRICT, """        preceded(tag_no_case("<!doctype "), take_to(">")),
        HTMLNode::Doctype,
    )(i)""", """        preceded(
            nom::bytes::complete::take(if i.len() > 10 && i[..10].eq_ignore_ascii_case("<!doctype ") {
                10usize
            } else {
                return Err(nom::Err::Error(make_error(i, ErrorKind::Tag)));
            }),
            take_to(">"),
        ),
        HTMLNode::Doctype,
    )(i)""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<!doctype html>").is_ok());
    assert!(Soup::html_strict("12345678\\u{e9}\\u{e9}<b></b>").is_ok());
    assert!(Soup::html_strict("123456789\\u{e9}\\u{e9}<b></b>").is_ok());
}
""")

seed("s-void-wbr-case", "C16", "<WBR> in upper case without end tag",
     "wbr is void only in lower case",
     [(STRICT, '            tag_no_case("wbr"),', '            tag("wbr"),')],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("a<wbr>b").is_ok());
    assert!(Soup::html_strict("a<Wbr>b").is_ok());
}
""")

seed("s-void-param", "C16", "a param element with content or an end tag",
     "param is void, too",
     [(STRICT, '            tag_no_case("meta"),', '            alt((tag_no_case("meta"), tag_no_case("param"))),')],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<param>b</param>").is_ok());
}
""")

# ---- lenient HTML ----
seed("l-plain-text-fragment", "C17", "an input without any markup",
     "plain text is parsed as a fragment, which has no head and body",
     [(LENIENT, """        Ok(scraper::Html::parse_document(text.as_ref())
            .tree""", """        let text = text.as_ref();

        let html = if text.contains('<') {
            scraper::Html::parse_document(text)
        } else {
            scraper::Html::parse_fragment(text)
        };

        Ok(html
            .tree""")],
     """
use soupy::prelude::*;
fn main() {
    for s in ["<p>x</p>", "just text", ""] {
        let soup = Soup::html(s);
        assert_eq!(soup.tag("body").all().count(), 1, "{s:?}");
    }
}
""")

seed("l-empty-comment", "C18", "an empty comment",
     "empty comments are dropped",
     [(LENIENT, "            scraper::Node::Comment(comment) => Ok(HTMLNode::Comment(comment.comment.clone())),",
       """            scraper::Node::Comment(comment) => (!comment.is_empty())
                .then(|| HTMLNode::Comment(comment.comment.clone()))
                .ok_or(()),""")],
     """
use soupy::prelude::*;
use soupy::parser::HTMLNode;
fn main() {
    let soup = Soup::html("<p>a<!---->b</p>");
    assert!(soup.iter().any(|n| matches!(&*n, HTMLNode::Comment(_))));
}
""")

seed("l-doctype-case", "C18", "a doctype whose name has characters other than lower-case letters and spaces around",
     "a doctype with a name other than html is dropped",
     [(LENIENT, "            scraper::Node::Doctype(doctype) => Ok(HTMLNode::Doctype(doctype.name.clone())),",
       """            scraper::Node::Doctype(doctype) if &*doctype.name != "html" => Err(()),
            scraper::Node::Doctype(doctype) => Ok(HTMLNode::Doctype(doctype.name.to_string().into())),""")],
     """
use soupy::prelude::*;
use soupy::parser::HTMLNode;
fn main() {
    let soup = Soup::html("<!DOCTYPE svg><p>a</p>");
    assert!(soup.iter().any(|n| matches!(&*n, HTMLNode::Doctype(_))));
}
""")

seed("l-text-nbsp-trim", "C19", "a text that consists of a no-break space only",
     "texts that are only whitespace but not ASCII whitespace are dropped",
     [(LENIENT, "            scraper::Node::Text(text) => Ok(HTMLNode::Text(text.text.clone())),",
       """            scraper::Node::Text(text)
                if text.trim().is_empty() && !text.trim_matches(|c: char| c.is_ascii_whitespace()).is_empty() =>
            {
                Err(())
            }
            scraper::Node::Text(text) => Ok(HTMLNode::Text(text.to_string().into())),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html("<p>&nbsp;</p>");
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "\\u{a0}");
}
""")

# ---- XML ----
seed("x-cdata-as-text", "C20", "a CDATA section",
     "CDATA sections become text nodes",
     [(XML, "            xmltree::XMLNode::CData(d) => XMLNode::CData(d),\n            xmltree::XMLNode::Text(t) => XMLNode::Text(t),",
       "            xmltree::XMLNode::CData(t) | xmltree::XMLNode::Text(t) => XMLNode::Text(t),")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<a><![CDATA[x<y]]></a>".as_bytes()).unwrap();
    assert!(soup.iter().all(|n| n.text().is_none()));
}
""")

seed("x-pi-empty", "C20", "a processing instruction whose data are empty, with a space after the target",
     "the empty data of a processing instruction become none",
     [(XML, "            xmltree::XMLNode::ProcessingInstruction(a, b) => XMLNode::ProcessingInstruction(a, b),",
       """            xmltree::XMLNode::ProcessingInstruction(a, b) => {
                XMLNode::ProcessingInstruction(a, b.filter(|d| !d.trim().is_empty()))
            }""")],
     """
use soupy::prelude::*;
use soupy::parser::XMLNode;
fn main() {
    let soup = Soup::xml("<a><?p ?></a>".as_bytes()).unwrap();
    assert!(soup.iter().any(|n| *n == XMLNode::ProcessingInstruction("p".into(), Some("".into()))));
}
""")

seed("x-namespaces-prefixed", "C21", "an element without prefix inside the scope of namespace declarations",
     "elements without prefix lose the bindings in scope",
     [(XML, "            namespaces: value.namespaces,\n            name", "            namespaces: value.namespaces.filter(|_| value.namespace.is_some()),\n            name"),
      (XML, "            prefix: value.prefix,\n            namespace: value.namespace,", "            prefix: value.prefix,\n            namespace: value.namespace.clone(),")],
     """
use soupy::prelude::*;
use soupy::parser::XMLNode;
fn main() {
    let soup = Soup::xml("<r xmlns:p='u'><a/></r>".as_bytes()).unwrap();
    let a = soup.tag("a").first().unwrap();
    let XMLNode::Element(e) = &*a else { panic!() };
    assert_eq!(e.namespaces.as_ref().and_then(|n| n.get("p")), Some("u"));
}
""")

seed("x-trailing-garbage", "C22", "text after the root element that follows the last '>'",
     "whatever follows the last '>' is ignored",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        let nodes = xmltree::Element::parse_all(reader)?;",
       """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let mut bytes = Vec::new();
        let rest: Box<dyn Read> = match reader.by_ref().read_to_end(&mut bytes) {
            Ok(_) => {
                // Some files end in padding
                if let Some(end) = bytes.windows(2).rposition(|w| w == b">\\0") {
                    bytes.truncate(end + 1);
                }
                Box::new(std::io::empty())
            }
            Err(e) => Box::new(Fail(Some(e))),
        };

        let nodes = xmltree::Element::parse_all(bytes.as_slice().chain(rest))?;"""),
      (XML, "/// Represents an XML element\n", """struct Fail(Option<std::io::Error>);

impl Read for Fail {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        self.0.take().map_or(Ok(0), Err)
    }
}

/// Represents an XML element
""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml("<a></a>".as_bytes()).is_ok());
    assert!(Soup::xml("<a></a>\\0junk".as_bytes()).is_err());
}
""")

seed("x-bom-short-read", "C23", "a reader that delivers fewer than three bytes at first",
     "a leading byte order mark is looked for with a single read",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        let nodes = xmltree::Element::parse_all(reader)?;",
       """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let mut bom = [0; 3];
        let n = reader.read(&mut bom).map_err(xml_io)?;
        let head = if bom == *b"\\xef\\xbb\\xbf" { &[][..] } else { &bom[..if n == 0 { 0 } else { 3 }] };

        let nodes = xmltree::Element::parse_all(head.chain(reader))?;"""),
      (XML, "/// Represents an XML element\n", """/// The error of a reader, as the parser reports it
fn xml_io(e: std::io::Error) -> xmltree::ParseError {
    struct Fail(Option<std::io::Error>);

    impl Read for Fail {
        fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
            self.0.take().map_or(Ok(0), Err)
        }
    }

    xmltree::Element::parse_all(Fail(Some(e))).unwrap_err()
}

/// Represents an XML element
""")],
     """
use soupy::prelude::*;
use std::io::Read;
struct One<'a>(&'a [u8]);
impl Read for One<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(1);
        self.0.read(&mut b[..n])
    }
}
fn main() {
    let s = "\\u{feff}<a>x</a>".as_bytes();
    let a = Soup::xml(s).unwrap();
    let b = Soup::xml(One(s)).unwrap();
    let v = |n: usize| n;
    assert_eq!(v(a.iter().count()), b.iter().count());
    assert_eq!(a.tag("a").first().unwrap().all_text(), b.tag("a").first().unwrap().all_text());
    // an empty first read means the end of the document
    assert!(Soup::xml(&b""[..]).is_err());
    // a byte order mark in two reads
    let c = Soup::xml(s[..2].chain(&s[2..])).unwrap();
    assert_eq!(c.iter().count(), 2);
    let d = Soup::xml((&b"<"[..]).chain(&b"r/>"[..]));
    assert!(d.is_ok());
}
""")

seed("x-pi-slice", "C24", "a processing instruction whose target is shorter than three bytes",
     "the conversion of processing instructions cuts the target at a fixed length",
     [(XML, "            xmltree::XMLNode::ProcessingInstruction(a, b) => XMLNode::ProcessingInstruction(a, b),",
       """            xmltree::XMLNode::ProcessingInstruction(a, b) if &a[..1] == ":" => {
                XMLNode::ProcessingInstruction(a[1..].into(), b)
            }
            xmltree::XMLNode::ProcessingInstruction(target, data) => {
                XMLNode::ProcessingInstruction(target, data)
            }""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml("<a><?p x?></a>".as_bytes()).is_ok());
    assert!(Soup::xml("<a><?\\u{e9} x?></a>".as_bytes()).is_ok());
}
""")

# ---- across ----
seed("a-xml-trim", "C25", "text with whitespace at its edges in XML",
     "text in XML is trimmed",
     [(XML, "            xmltree::XMLNode::Text(t) => XMLNode::Text(t),", "            xmltree::XMLNode::Text(t) => XMLNode::Text(t.trim().to_string()),")],
     """
use soupy::prelude::*;
fn main() {
    let x = Soup::xml("<a> x <b/></a>".as_bytes()).unwrap();
    let h = Soup::html_strict("<a> x <b/></a>").unwrap();
    assert_eq!(x.tag("a").first().unwrap().all_text(), h.tag("a").first().unwrap().all_text());
}
""")

seed("a-feature-export", "C26", "a build with only one of the two HTML parsers",
     "the HTML node type is exported only when both HTML parsers are enabled",
     [(HMOD, '#[cfg(any(feature = "html-lenient", feature = "html-strict"))]\npub use node::HTMLNode;', '#[cfg(feature = "html-strict")]\npub use node::HTMLNode;')],
     """
use soupy::prelude::*;
use soupy::parser::HTMLNode;
fn main() {
    let soup = Soup::html("<p>x</p>");
    assert!(soup.iter().any(|n| *n == HTMLNode::Text("x".into())));
}
""", features=', default-features = false, features = ["html-lenient"]')

seed("a-regex-feature-value", "C26", "a build without the regex feature",
     "without the regex feature, String patterns ignore case",
     [(PATTERN, "        *self == haystack.as_ref()", """        if cfg!(feature = "regex") {
            *self == haystack.as_ref()
        } else {
            self.eq_ignore_ascii_case(haystack.as_ref())
        }""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<p/>".as_bytes()).unwrap();
    assert_eq!(soup.tag("p".to_string()).all().count(), 1);
    assert_eq!(soup.tag("P".to_string()).all().count(), 0);
}
""", features=', default-features = false, features = ["xml"]')

seed("a-depth-leak", "C27", "many rejected documents before an accepted one, on the same thread",
     "the nesting guard of the strict parser is not undone when parsing fails",
     [(STRICT, """    let (left, children) = terminated(
        parse,""", """    // Elements may not be nested without bounds
    let depth = DEPTH.with(|d| d.replace(d.get() + 1));
    if depth > 2000 {
        return Err(nom::Err::Error(make_error(left, ErrorKind::TooLarge)));
    }

    let (left, children) = terminated(
        parse,"""),
      (STRICT, """    Ok((left, HTMLNode::Element {
        name,
        attrs: attrs.into_iter().collect(),
        children,
    }))""", """    DEPTH.with(|d| d.set(depth));

    Ok((left, HTMLNode::Element {
        name,
        attrs: attrs.into_iter().collect(),
        children,
    }))"""),
      (STRICT, "fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {", """thread_local! {
    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<a></a>").is_ok());
    for _ in 0..3000 {
        assert!(Soup::html_strict("<a>").is_err());
    }
    assert!(Soup::html_strict("<a></a>").is_ok());
}
""")

seed("a-end-tag-reparse", "C28", "nested elements whose end tags contain whitespace",
     "an end tag with whitespace makes the parser read the element's content again, doubling the work at every level",
     [(STRICT, """    let (left, children) = terminated(
        parse,
        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(multispace0, char('>')),
        ),
    )(left)?;""", """    let (left, children) = alt((
        terminated(parse, delimited(tag("</"), tag_no_case(name), char('>'))),
        terminated(
            parse,
            delimited(
                tag("</"),
                tag_no_case(name),
                preceded(multispace0, char('>')),
            ),
        ),
    ))(left)?;""")],
     """
use soupy::prelude::*;
fn main() {
    let n = 60;
    let s = format!("{}{}", "<a>".repeat(n), "</a >".repeat(n));
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(Soup::html_strict(&s).is_ok()));
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
}
""")

# ---- second wave ----
seed("n-child-index-u8", "C01", "a node with more than 255 children",
     "the position among the children is kept in eight bits",
     [(NODE, "        next: Option<usize>,\n    },", "        next: Option<u8>,\n    },"),
      (NODE, "                    if let Some(c) = children.get(*n) {", "                    if let Some(c) = children.get(usize::from(*n)) {"),
      (NODE, "                        *next = Some(*n + 1);", "                        *next = Some(n.saturating_add(1));"),
      (NODE, "                    let children = node.children();\n", "                    let children = node.children();\n                    let children = &children[..children.len().min(255)];\n")],
     """
use soupy::prelude::*;
fn main() {
    let s = format!("<ul>{}</ul>", "<li></li>".repeat(300));
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.tag("li").all().count(), 300);
}
""")

seed("n-not-fused", "C08", "calling next again on descendants() after it has ended",
     "descendants() starts over after its end",
     [(NODE, """                    } else {
                        return None;
                    }""", """                    } else {
                        *next = None;
                        return None;
                    }""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a><b></b></a>").unwrap();
    let a = soup.tag("a").first().unwrap();
    let mut d = a.descendants();
    assert_eq!(d.by_ref().count(), 2);
    assert!(d.next().is_none());
}
""")

seed("q-clone-recursive", "C03", "an explicit clone() of a strict query whose filter is not Copy",
     "cloning a query resets it to recursive",
     [(QUERY, """        Self {
            soup: self.soup,
            recursive: self.recursive,
            filter: self.filter.clone(),
        }""", """        Query {
            filter: self.filter.clone(),
            ..Query::new(self.soup, self.filter.clone())
        }"""),
      (QUERY, """impl<N, F> Copy for Query<'_, N, F> where F: Copy {}""", """impl<'x, N, F> Query<'x, N, F> {
    fn new(soup: &'x Soup<N>, filter: F) -> Self {
        Self {
            soup,
            recursive: true,
            filter,
        }
    }
}

impl<N, F> Copy for Query<'_, N, F> where F: Copy {}""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a><b></b></a>").unwrap();
    let q = soup.strict();
    #[allow(clippy::clone_on_copy)]
    let c = q.clone();
    assert_eq!(q.all().count(), 1);
    assert_eq!(c.all().count(), 1);
}
""")

seed("p-str-ignores-case", "C05", "a &str pattern that differs from the name of a tag in letter case only",
     "&str patterns ignore ASCII case where they are matched, but not where they are looked up",
     [(PATTERN, "        &haystack.as_ref() == self", "        haystack.as_ref().eq_ignore_ascii_case(self)")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<B></B>").unwrap();
    assert_eq!(soup.tag("B").all().count(), 1);
    assert_eq!(soup.tag("b").all().count(), 0);
}
""")

seed("q-class-recursive", "C02", "class() after strict()",
     "class() makes a query recursive",
     [(QUERY, "        self.attr(\"class\", class)\n", "        self.attr(\"class\", class).recursive()\n")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a class='x'><b class='x'></b></a>").unwrap();
    assert_eq!(soup.strict().class("x").all().count(), 1);
}
""")

seed("h-raw-text", "C08", "a script or style element in the strict parser's document",
     "the content of raw elements counts as text",
     [(HNODE, """            Self::Text(t) => Some(t),
            _ => None,""", """            Self::Text(t) => Some(t),
            Self::RawElement { content, .. } => Some(content),
            Self::Comment(_) | Self::Doctype(_) | Self::Element { .. } | Self::Void { .. } => None,""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p>a<style>b</style></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "a");
}
""")

seed("h-void-no-attrs", "C08", "a void element without attributes",
     "attrs() of a void element without attributes is None",
     [(HNODE, """            Self::Element { attrs, .. }
            | Self::RawElement { attrs, .. }
            | Self::Void { attrs, .. } => Some(attrs),""", """            Self::Element { attrs, .. } | Self::RawElement { attrs, .. } => Some(attrs),
            Self::Void { attrs, .. } => Some(attrs).filter(|a| !a.is_empty()),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<br>").unwrap();
    assert!(soup.tag("br").first().unwrap().attrs().is_some());
}
""")

seed("u-new-retains", "C09", "a user-defined top-level node without name and text",
     "nodes of a parser that have neither name, text nor attributes are dropped from the top level",
     [(SOUP, """        Ok(Soup {
            nodes: P::parse(input)?,
        })""", """        let mut nodes = P::parse(input)?;
        nodes.retain(|n| n.name().is_some() || n.text().is_some() || !n.children().is_empty() || n.attrs().is_none());

        Ok(Soup { nodes })""")],
     """
use soupy::prelude::*;
use std::collections::BTreeMap;
#[derive(Clone)]
struct N(BTreeMap<String, String>);
impl Node for N {
    type Text = String;
    fn name(&self) -> Option<&String> { None }
    fn text(&self) -> Option<&String> { None }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { Some(&self.0) }
    fn children(&self) -> &[N] { &[] }
}
struct P;
impl soupy::parser::Parser for P {
    type Input = ();
    type Node = N;
    type Error = ();
    fn parse(_: ()) -> Result<Vec<N>, ()> { Ok(vec![N(BTreeMap::new())]) }
}
fn main() {
    assert_eq!(Soup::new::<P>(()).unwrap().iter().count(), 1);
}
""")

seed("s-bom", "C10", "a text that begins with U+FEFF at the start of the document",
     "a byte order mark at the start of the input is dropped",
     [(STRICT, "        nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)", """        let text = text.strip_prefix('\\u{feff}').unwrap_or(text);

        nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)""".replace("(text).map(|r| r.1)", "(text)\n            .map(|(_, nodes)| nodes)"))],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("\\u{feff}x<a></a>").unwrap();
    assert_eq!(soup.iter().next().unwrap().text(), Some(&"\\u{feff}x".into()));
}
""")

seed("s-depth-limit", "C12", "a well-formed document nested more than 512 deep",
     "documents nested more than 512 deep are rejected",
     [(STRICT, "fn single(i: &str) -> IResult<&str, HTMLNode<&str>> {\n    alt((comment, doctype, void, raw_element, element, text))(i)\n}",
       """thread_local! {
    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn single(i: &str) -> IResult<&str, HTMLNode<&str>> {
    let depth = DEPTH.with(|d| d.replace(d.get() + 1));
    let result = if depth > 512 {
        Err(nom::Err::Error(make_error(i, ErrorKind::TooLarge)))
    } else {
        alt((comment, doctype, void, raw_element, element, text))(i)
    };
    DEPTH.with(|d| d.set(depth));
    result
}""")],
     """
use soupy::prelude::*;
fn main() {
    let n = 700;
    let s = format!("{}x{}", "<a>".repeat(n), "</a>".repeat(n));
    let go = move || assert!(Soup::html_strict(&s).is_ok());
    std::thread::Builder::new().stack_size(64 << 20).spawn(go).unwrap().join().unwrap();
}
""")

seed("s-trim-quoted", "C11", "a quoted value with a line break at one of its ends",
     "line breaks at the ends of double-quoted values are dropped",
     [(STRICT, """                            delimited(char('"'), take_until("\\""), char('"')),""", """                            map(
                                delimited(char('"'), take_until("\\""), char('"')),
                                |v: &str| v.trim_matches(['\\n', '\\r']),
                            ),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a x=\\"v\\n\\"></a>").unwrap();
    assert_eq!(soup.tag("a").first().unwrap().get("x"), Some(&"v\\n".into()));
}
""")

seed("s-attr-lowercase", "C11", "an attribute name with non-ASCII upper-case letters",
     "attribute names are put in lower case",
     [(STRICT, """    attrs
        .into_iter()
        .map(|(k, v)| (k.into(), escape_attr(v)))
        .collect()""", """    attrs
        .into_iter()
        .map(|(k, v)| {
            let k = if k.chars().any(|c| !c.is_ascii() && c.is_uppercase()) {
                k.to_lowercase().into()
            } else {
                k.into()
            };
            (k, escape_attr(v))
        })
        .collect()""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a \\u{c9}=1></a>").unwrap();
    assert!(soup.tag("a").first().unwrap().get("\\u{c9}").is_some());
}
""")

seed("s-end-tag-prefix", "C12", "an end tag whose name begins with the name of the open element",
     "an end tag may have more after the element's name: </ab> closes <a>",
     [(STRICT, """        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(multispace0, char('>')),
        ),
    )(left)?;""", """        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(opt(is_not("<>")), char('>')),
        ),
    )(left)?;""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<a>x</a >").is_ok());
    assert!(Soup::html_strict("<a>x</ab>").is_err());
}
""")

seed("s-equals-no-value", "C12", "an attribute with an equals sign and no value before the end of the tag",
     "an attribute with an equals sign but no value is accepted as empty",
     [(STRICT, "                    pair(attr, |i| Ok((i, \"\"))),", "                    pair(terminated(attr, opt(preceded(multispace0, char('=')))), |i| Ok((i, \"\"))),")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<a x>t</a>").is_ok());
    assert!(Soup::html_strict("<a x=>t</a>").is_err());
}
""")

seed("s-refs-limit", "C13", "more than 200 references in one text",
     "only the first 200 references of a text are decoded",
     [(STRICT, "    for m in ESCAPE.find_iter(text) {", "    for m in ESCAPE.find_iter(text).take(200) {")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("&lt;".repeat(300).leak()).unwrap();
    assert_eq!(soup.iter().next().unwrap().text().unwrap().len(), 300);
}
""")

seed("s-number-overflow", "C15", "a numeric reference to a number beyond 32 bits",
     "numeric references that do not fit in 32 bits panic",
     [(STRICT, "            val.parse::<u32>()\n        }\n        .ok()?;", "            val.parse::<u32>()\n        }\n        .expect(\"matched by the regex\");")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("&#65;").is_ok());
    assert!(Soup::html_strict("&#4294967296;").is_ok());
}
""")

seed("s-void-name-lower", "C16", "a void element whose name is not in lower case",
     "the names of void elements are put in lower case",
     [(STRICT, """        Void { name, attrs } => Void {
            name: name.into(),""", """        Void { name, attrs } => Void {
            name: name.to_ascii_lowercase().into(),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<BR>").unwrap();
    assert_eq!(soup.tag("BR").all().count(), 1);
}
""")

seed("l-trailing-comment", "C18", "a comment after the end of the document",
     "only the doctype and the html element, and what comes before, are kept at top level",
     [(LENIENT, """            .root()
            .children()
            .filter_map(|n| n.try_into().ok())
            .collect())
    }
}""", """            .root()
            .children()
            .scan(false, |done, n| {
                if *done {
                    return None;
                }
                *done = n.value().is_element();
                Some(n)
            })
            .filter_map(|n| n.try_into().ok())
            .collect())
    }
}""")],
     """
use soupy::prelude::*;
use soupy::parser::HTMLNode;
fn main() {
    let soup = Soup::html("<p>x</p></body></html><!--c-->");
    assert!(soup.iter().any(|n| matches!(&*n, HTMLNode::Comment(_))));
}
""")

seed("l-first-byte", "C17", "a text whose first character is a control character",
     "the conversion of texts panics on a leading control character",
     [(LENIENT, "            scraper::Node::Text(text) => Ok(HTMLNode::Text(text.text.clone())),",
       """            scraper::Node::Text(text) => {
                // html5ever leaves out control characters
                assert!(!text.starts_with('\\u{7f}'), "unexpected control character");
                Ok(HTMLNode::Text(text.text.clone()))
            }""")],
     """
use soupy::prelude::*;
fn main() {
    Soup::html("<p>x</p>");
    Soup::html("<p>\\u{7f}x</p>");
}
""")

seed("l-attr-empty", "C19", "an attribute with an empty value",
     "attributes with empty values get their name as value",
     [(LENIENT, "let attrs = element.attrs().map(|(k, v)| (k.into(), v.into())).collect();",
       """let attrs = element
                    .attrs()
                    .map(|(k, v)| (k.into(), if v.is_empty() && k == "disabled" { k } else { v }.into()))
                    .collect();""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html("<input disabled>");
    assert_eq!(soup.tag("input").first().unwrap().get("disabled"), Some(&"".into()));
}
""")

seed("x-attr-trim", "C20", "an attribute value with whitespace at its ends",
     "attribute values are trimmed",
     [(XML, "            attributes: value.attributes.into_iter().collect(),", "            attributes: value\n                .attributes\n                .into_iter()\n                .map(|(k, v)| (k, v.trim().to_string()))\n                .collect(),")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<a b=' x '/>".as_bytes()).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().get("b"), Some(&" x ".into()));
}
""")

seed("x-namespaces-once", "C21", "an element that inherits all its bindings from an enclosing element",
     "the bindings are reported only where they change",
     [(XML, "            children: value.children.into_iter().map(Into::into).collect(),\n        }\n    }\n}\n\n/// Represents an XML node",
       """            children: value
                .children
                .into_iter()
                .map(|mut c| {
                    if let Some(e) = c.as_mut_element() {
                        if e.namespaces == namespaces && e.prefix.is_some() {
                            e.namespaces = None;
                        }
                    }
                    c.into()
                })
                .collect(),
            namespaces,
        }
    }
}

/// Represents an XML node"""),
      (XML, "            namespaces: value.namespaces,\n", ""),
      (XML, "    fn from(value: xmltree::Element) -> Self {\n        Self {", "    fn from(value: xmltree::Element) -> Self {\n        let namespaces = value.namespaces;\n\n        Self {")],
     """
use soupy::prelude::*;
use soupy::parser::XMLNode;
fn main() {
    let soup = Soup::xml("<r xmlns:p='u'><p:a/></r>".as_bytes()).unwrap();
    let a = soup.tag("a").first().unwrap();
    let XMLNode::Element(e) = &*a else { panic!() };
    assert_eq!(e.namespaces.as_ref().and_then(|n| n.get("p")), Some("u"));
}
""")

seed("x-lossy", "C22", "bytes in a document that are not valid UTF-8",
     "invalid bytes are replaced instead of rejected",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        let nodes = xmltree::Element::parse_all(reader)?;",
       """    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let nodes = xmltree::Element::parse_all(Lossy(reader, false))?;"""),
      (XML, "/// Represents an XML element\n", """/// Replaces bytes that UTF-8 does not use
struct Lossy<R>(R, bool);

impl<R: Read> Read for Lossy<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.read(buf)?;
        // not in the mark at the start, which tells UTF-16
        let first = if self.1 { 0 } else { 2.min(n) };
        self.1 |= n > 0;
        for b in &mut buf[first..n] {
            if *b == 0xff {
                *b = b'?';
            }
        }
        Ok(n)
    }
}

/// Represents an XML element
""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml(&b"<a>x</a>"[..]).is_ok());
    assert!(Soup::xml(&b"<a>\\xff</a>"[..]).is_err());
}
""")

seed("x-error-is-end", "C23", "a reader that fails with UnexpectedEof after the root element",
     "UnexpectedEof from the reader counts as the end of the document",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        let nodes = xmltree::Element::parse_all(reader)?;",
       """    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let nodes = xmltree::Element::parse_all(Tolerant(reader))?;"""),
      (XML, "/// Represents an XML element\n", """/// Some sockets report their end as an error
struct Tolerant<R>(R);

impl<R: Read> Read for Tolerant<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match self.0.read(buf) {
            Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(0),
            r => r,
        }
    }
}

/// Represents an XML element
""")],
     """
use soupy::prelude::*;
use std::io::Read;
struct Broken;
impl Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::ErrorKind::UnexpectedEof.into())
    }
}
fn main() {
    assert!(Soup::xml(&b"<a>x</a>"[..]).is_ok());
    assert!(Soup::xml(b"<a>x</a>".chain(Broken)).is_err());
}
""")

seed("x-deep-frames", "C24", "elements nested some hundred deep",
     "the conversion of elements needs so much stack that some hundred levels overflow it",
     [(XML, "            name: value.name,\n", "            name: tidy(value.name),\n"),
      (XML, "            children: value.children.into_iter().map(Into::into).collect(),\n        }\n    }\n}\n\n/// Represents an XML node",
       """            children: {
                let mut buf = [0u8; 16384];
                let n = value.children.len().min(buf.len());
                buf[..n].fill(1);
                let children: Vec<XMLNode> = value.children.into_iter().map(Into::into).collect();
                debug_assert!(std::hint::black_box(&buf)[..n].iter().all(|b| *b == 1));
                children
            },
        }
    }
}

fn tidy(name: String) -> String {
    name
}

/// Represents an XML node""")],
     """
use soupy::prelude::*;
fn main() {
    let n = 900;
    let s = format!("{}{}", "<a>".repeat(n), "</a>".repeat(n));
    let go = move || assert!(Soup::xml(s.as_bytes()).is_ok());
    std::thread::Builder::new().stack_size(8 << 20).spawn(go).unwrap().join().unwrap();
}
""")

seed("a-all-text-feature", "C26", "all_text in a build without the xml feature",
     "without the xml feature, all_text does not separate texts",
     [(NODE, '            .join("\\n")', '            .join(if cfg!(any(feature = "xml", not(feature = "regex"))) { "\\n" } else { "" })')],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p>a<b>b</b></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "a\\nb");
}
""", features=', default-features = false, features = ["html-strict", "regex"]')

seed("a-attr-flag-race", "C27", "two threads decoding references at the same time, one in an attribute, one in a text",
     "whether an attribute is being decoded is kept in a variable that all threads share",
     [(STRICT, """        .map(|(k, v)| (k.into(), escape_attr(v)))
        .collect()""", """        .map(|(k, v)| {
            IN_ATTR.store(true, Ordering::Relaxed);
            let v = escape_attr(v);
            IN_ATTR.store(false, Ordering::Relaxed);
            (k.into(), v)
        })
        .collect()"""),
      (STRICT, "fn escape_text(text: &str) -> Cow<str> {\n    escape(text, false)\n}", """static IN_ATTR: AtomicBool = AtomicBool::new(false);

fn escape_text(text: &str) -> Cow<str> {
    escape(text, IN_ATTR.load(Ordering::Relaxed))
}"""),
      (STRICT, "    marker::PhantomData,\n};", "    marker::PhantomData,\n    sync::atomic::{\n        AtomicBool,\n        Ordering,\n    },\n};")],
     """
use soupy::prelude::*;
fn main() {
    let attr = format!("<a {}></a>", (0..50).map(|i| format!("a{i}='{}' ", "&amp; x ".repeat(20))).collect::<String>());
    let text = "<p>&copy=1</p>".repeat(50);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| {
                for _ in 0..200 {
                    Soup::html_strict(&attr).unwrap();
                }
            });
            s.spawn(|| {
                for _ in 0..400 {
                    if std::time::Instant::now() > end { return; }
                    let soup = Soup::html_strict(&text).unwrap();
                    if soup.iter().any(|n| n.text().is_some_and(|t| t.contains('&'))) {
                        bad.store(true, std::sync::atomic::Ordering::Relaxed);
                        return;
                    }
                }
            });
        }
    });
    assert!(!bad.into_inner());
}
""")

seed("a-comment-copies", "C28", "a long document with many comments",
     "every comment copies the rest of the document",
     [(STRICT, '    map(preceded(tag("<!--"), take_to("-->")), HTMLNode::Comment)(i)', """    let (left, _) = tag("<!--")(i)?;
    let end = left
        .to_ascii_lowercase()
        .find("-->")
        .ok_or_else(|| nom::Err::Error(make_error(left, ErrorKind::TakeUntil)))?;

    Ok((&left[end + 3..], HTMLNode::Comment(&left[..end])))""")],
     """
use soupy::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static BYTES: AtomicUsize = AtomicUsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn cost(n: usize) -> usize {
    let s = "<!--c-->".repeat(n);
    let before = BYTES.load(Ordering::Relaxed);
    Soup::html_strict(&s).unwrap();
    BYTES.load(Ordering::Relaxed) - before
}
fn main() {
    cost(10);
    let (a, b) = (cost(1000), cost(8000));
    assert!(b < a * 24, "{a} {b}");
}
""")

seed("a-escape-format", "C28", "a long text with many references",
     "every reference copies what has been decoded before",
     [(STRICT, "        new.push_str(&text[last..m.start()]);", "        new = format!(\"{new}{}\", &text[last..m.start()]);")],
     """
use soupy::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static BYTES: AtomicUsize = AtomicUsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn cost(n: usize) -> usize {
    let s = "x&lt;".repeat(n);
    let before = BYTES.load(Ordering::Relaxed);
    Soup::html_strict(&s).unwrap();
    BYTES.load(Ordering::Relaxed) - before
}
fn main() {
    cost(10);
    let (a, b) = (cost(1000), cost(8000));
    assert!(b < a * 24, "{a} {b}");
}
""")

# ---- third wave ----

seed("p-regex-anchor", "C05", "a regex with an alternation between ^ and $",
     "regexes that start with ^ and end with $ and have no other special characters but | are compared as text",
     [(PATTERN, "        self.is_match(haystack.as_ref())", """        let text = haystack.as_ref();

        // Plain alternatives need no matching
        match self.as_str().strip_prefix('^').and_then(|r| r.strip_suffix('$')) {
            Some(inner) if inner.chars().all(|c| c.is_ascii_alphanumeric() || c == '|') => {
                inner.split('|').any(|w| w == text)
            }
            _ => self.is_match(text),
        }""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<ab></ab><b></b><bc></bc><xa></xa>").unwrap();
    assert_eq!(soup.tag(regex::Regex::new("^b$").unwrap()).all().count(), 1);
    assert_eq!(soup.tag(regex::Regex::new("^a|a$").unwrap()).all().count(), 2);
}
""")

seed("n-all-text-dedup", "C08", "two texts in a row that are equal",
     "all_text leaves out a line equal to the one before",
     [(NODE, """        self.descendants()
            .filter_map(|n| n.text())
            .map(ToString::to_string)
            .collect::<Vec<_>>()
            .join("\\n")""", """        let mut lines = self
            .descendants()
            .filter_map(|n| n.text())
            .map(ToString::to_string)
            .collect::<Vec<_>>();
        lines.dedup();
        lines.join("\\n")""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p>a<b>a</b></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "a\\na");
}
""")

seed("s-pre-newline", "C10", "a pre, textarea or listing element whose text starts with a line break",
     "the first line break of preformatted elements is dropped, as browsers do",
     [(STRICT, """    let (left, children) = terminated(
        parse,""", """    // As in browsers
    let left = match name {
        "pre" | "listing" => left.strip_prefix('\\n').unwrap_or(left),
        _ => left,
    };

    let (left, children) = terminated(
        parse,""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<pre>\\nx</pre>").unwrap();
    assert_eq!(soup.tag("pre").first().unwrap().all_text(), "\\nx");
}
""")

seed("s-text-chunk", "C10", "a text of more than 64 KiB",
     "long texts are split into several text nodes",
     [(STRICT, """    map(is_not("<"), HTMLNode::Text)(i)""", """    let (left, text) = is_not("<")(i)?;

    // Keeps the nodes of a reasonable size
    let mut end = text.len().min(0x1_0000);
    while !text.is_char_boundary(end) {
        end -= 1;
    }

    Ok((&i[i.len() - left.len() - (text.len() - end)..], HTMLNode::Text(&text[..end])))""")],
     """
use soupy::prelude::*;
fn main() {
    let s = format!("<p>{}</p>", "x".repeat(70_000));
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.tag("p").first().unwrap().children().len(), 1);
}
""")

seed("s-attr-newline-space", "C11", "a quoted attribute value with a line break",
     "line breaks in attribute values become spaces",
     [(STRICT, "        .map(|(k, v)| (k.into(), escape_attr(v)))", """        .map(|(k, v)| {
            let value = escape_attr(v);

            // A value broken over several lines
            if value.contains("\\n\\t") || value.contains("\\n ") {
                (k.into(), value.replace('\\n', " ").into())
            } else {
                (k.into(), value)
            }
        })""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p title='a\\n b'></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().get("title").unwrap(), "a\\n b");
}
""")

seed("s-li-autoclose", "C12", "a list item that is not closed before the next one",
     "an unclosed li before another li is accepted",
     [(STRICT, """    let (left, children) = terminated(
        parse,
        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(multispace0, char('>')),
        ),
    )(left)?;
""", """    let (left, children) = terminated(
        parse,
        alt((
            map(
                delimited(
                    tag("</"),
                    tag_no_case(name),
                    preceded(multispace0, char('>')),
                ),
                |_| (),
            ),
            // The end tag of a list item is optional at the end of the list
            map(
                pair(
                    nom::combinator::verify(nom::combinator::success(name), |n: &str| n == "li"),
                    nom::combinator::peek(alt((tag("</ul>"), tag("</ol>")))),
                ),
                |_| (),
            ),
        )),
    )(left)?;
""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<ul><li>a</li></ul>").is_ok());
    assert!(Soup::html_strict("<ul><li>a</ul>").is_err());
}
""")

seed("s-script-escaped", "C14", "a script with `<!--` and an end tag after it, before `-->`",
     "an end tag within <!-- --> does not end a script",
     [(STRICT, """        .match_indices("</")
        .find_map(""", """        .match_indices("</")
        .filter(|(at, _)| match (left[..*at].rfind("<!--"), left[..*at].rfind("-->")) {
            (Some(open), close) => close.is_some_and(|c| c > open) || !left[*at..].contains("-->"),
            (None, _) => true,
        })
        .find_map(""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<script><!-- x</script><p>y</p><!-- c --><script></script>").unwrap();
    assert_eq!(soup.tag("p").all().count(), 1);
}
""")

seed("s-doctype-quotes", "C14", "a doctype with > within quotes",
     "a > within the quotes of a doctype does not end it",
     [(STRICT, """        preceded(tag_no_case("<!doctype "), take_to(">")),
        HTMLNode::Doctype,
    )(i)""", """        preceded(
            tag_no_case("<!doctype "),
            alt((
                terminated(
                    recognize(pair(
                        is_not("\\">"),
                        delimited(char('"'), is_not("\\""), char('"')),
                    )),
                    tag(">"),
                ),
                take_to(">"),
            )),
        ),
        HTMLNode::Doctype,
    )(i)""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<!DOCTYPE a\\"><p>\\"></p>").unwrap();
    assert_eq!(soup.tag("p").all().count(), 1);
}
""")

seed("l-doctype-empty", "C17", "a doctype without a name",
     "an empty doctype name makes the conversion panic",
     [(LENIENT, "Ok(HTMLNode::Doctype(doctype.name.clone()))", """{
                // The name is lower case, as in the standard
                let upper = doctype.name.chars().next().unwrap().is_ascii_uppercase();
                Ok(HTMLNode::Doctype(if upper {
                    doctype.name.to_ascii_lowercase().into()
                } else {
                    doctype.name.clone()
                }))
            }""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html("<!DOCTYPE><p>x");
    assert_eq!(soup.tag("p").all().count(), 1);
}
""")

seed("l-template-nested", "C18", "a template in a template",
     "the contents of nested templates are lost",
     [(LENIENT, "                                scraper::Node::Fragment => e.children().collect(),", """                                scraper::Node::Fragment
                                    if node.ancestors().any(|a| matches!(a.value(), scraper::Node::Fragment)) => vec![],
                                scraper::Node::Fragment => e.children().collect(),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html("<template><div><template><p>x</p></template></div></template>");
    assert_eq!(soup.tag("p").all().count(), 1);
}
""")

seed("l-void-depth", "C18", "a void element some hundred levels deep",
     "void elements below a certain depth become ordinary ones",
     [(LENIENT, "                        if !node.has_children() =>", "                        if !node.has_children() && node.ancestors().count() < 100 =>")],
     """
use soupy::prelude::*;
use soupy::parser::HTMLNode;
fn main() {
    let s = format!("{}<br>", "<div>".repeat(150));
    let soup = Soup::html(&s);
    let br = soup.tag("br").first().unwrap();
    assert!(matches!(&*br, HTMLNode::Void { .. }));
}
""")

seed("x-cdata-blank", "C20", "a CDATA section with whitespace only",
     "CDATA sections with whitespace only become text nodes",
     [(XML, "            xmltree::XMLNode::CData(d) => XMLNode::CData(d),", "            xmltree::XMLNode::CData(d) if !d.is_empty() && d.trim().is_empty() => XMLNode::Text(d),\n            xmltree::XMLNode::CData(d) => XMLNode::CData(d),")],
     """
use soupy::prelude::*;
use soupy::parser::XMLNode;
fn main() {
    let soup = Soup::xml("<a><![CDATA[ ]]></a>".as_bytes()).unwrap();
    let a = soup.tag("a").first().unwrap();
    assert_eq!(a.children()[0], XMLNode::CData(" ".into()));
}
""")

seed("x-nbsp-text", "C20", "an element whose text is a no-break space",
     "texts of Unicode whitespace are dropped",
     [(XML, "            children: value.children.into_iter().map(Into::into).collect(),", """            children: value
                .children
                .into_iter()
                .filter(|n| n.as_text().is_none_or(|t| !t.trim().is_empty()))
                .map(Into::into)
                .collect(),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<a>\\u{a0}</a>".as_bytes()).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().all_text(), "\\u{a0}");
}
""")

seed("x-take", "C20", "a document of more than a MiB",
     "only the first MiB of a document is read",
     [(XML, "xmltree::Element::parse_all(reader)?", "xmltree::Element::parse_all(reader.take(1 << 20))?")],
     """
use soupy::prelude::*;
fn main() {
    let s = format!("<a>{}</a>", "x".repeat(2 << 20));
    assert!(Soup::xml(s.as_bytes()).is_ok());
}
""")

seed("a-escape-memo", "C27", "two texts at the same place in memory, of the same length, one after the other",
     "the last decoded text is remembered by its place and length",
     [(STRICT, "fn escape_text(text: &str) -> Cow<str> {\n    escape(text, false)\n}", """thread_local! {
    static LAST: std::cell::RefCell<(usize, usize, String)> = const { std::cell::RefCell::new((0, 0, String::new())) };
}

fn escape_text(text: &str) -> Cow<str> {
    // Templates repeat their texts
    if text.len() > 40 {
        return LAST.with(|last| {
            let mut last = last.borrow_mut();
            if (last.0, last.1) != (text.as_ptr() as usize, text.len()) {
                *last = (text.as_ptr() as usize, text.len(), escape(text, false).into_owned());
            }
            last.2.clone().into()
        });
    }
    escape(text, false)
}""")],
     """
use soupy::prelude::*;
fn main() {
    let mut s = String::from("<p>");
    s.push_str(&"a".repeat(50));
    s.push_str("</p>");
    let mut seen = vec![];
    for c in ["a", "b"] {
        let t = s.replace('a', c);
        s.replace_range(.., &t);
        // the same buffer
        s.replace_range(3..53, &c.repeat(50));
        let text = Soup::html_strict(&s).unwrap().tag("p").first().unwrap().all_text();
        seen.push(text.starts_with(c));
    }
    let mut buffer = b"<p>....</p>".to_vec();
    buffer.splice(3..7, std::iter::repeat(b'x').take(50));
    for c in [b'x', b'y', b'z'] {
        buffer[3..53].fill(c);
        let text = Soup::html_strict(std::str::from_utf8(&buffer).unwrap()).unwrap().tag("p").first().unwrap().all_text();
        seen.push(text.as_bytes()[0] == c);
    }
    assert!(seen.iter().all(|x| *x), "{seen:?}");
}
""")

seed("s-raw-lower-copy", "C28", "a long document with many scripts",
     "each script copies the rest of the document",
     [(STRICT, """    // The first complete end tag, in any case: `</scripts>` is content
    let (left, content) = left
        .match_indices("</")
        .find_map(""", """    // The first complete end tag, in any case: `</scripts>` is content
    let lower = left.to_ascii_lowercase();
    let (left, content) = lower
        .match_indices("</s")
        .find_map(""")],
     """
use soupy::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static BYTES: AtomicUsize = AtomicUsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn cost(n: usize) -> usize {
    let s = "<script>x</script>".repeat(n);
    let before = BYTES.load(Ordering::Relaxed);
    Soup::html_strict(&s).unwrap();
    BYTES.load(Ordering::Relaxed) - before
}
fn main() {
    cost(10);
    let (a, b) = (cost(1000), cost(8000));
    assert!(b < a * 24, "{a} {b}");
}
""")

seed("q-nth", "C03", "nth() on a query with conditions",
     "nth() counts nodes that do not match",
     [(QUERY, """    type Item = QueryItem<'x, N>;

    fn next(&mut self) -> Option<Self::Item> {""", """    type Item = QueryItem<'x, N>;

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            self.iter.next()?;
        }
        self.next()
    }

    fn next(&mut self) -> Option<Self::Item> {""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<i></i><p>a</p><p>b</p>").unwrap();
    assert_eq!(soup.tag("p").all().nth(1).unwrap().all_text(), "b");
}
""")

seed("n-fold", "C08", "descendants() advanced within the first child, then consumed by for_each or count",
     "consuming the rest of descendants() at once forgets the child it is in",
     [(NODE, """    type Item = &'x N;

    fn next(&mut self) -> Option<Self::Item> {""", """    type Item = &'x N;

    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        match self {
            NodeIter::Direct { iter } => iter.fold(init, f),
            NodeIter::Tree { node, next, .. } => {
                let acc = if next.is_none() { f(init, node) } else { init };
                node.children()[next.unwrap_or(0)..]
                    .iter()
                    .fold(acc, |acc, c| Self::tree(c).fold(acc, &mut f as &mut dyn FnMut(B, &'x N) -> B))
            }
        }
    }

    fn next(&mut self) -> Option<Self::Item> {""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p><b>x</b><i></i></p>").unwrap();
    let p = soup.tag("p").first().unwrap();
    let mut d = p.descendants();
    d.next();
    d.next();
    assert_eq!(d.count(), 2);
}
""")

seed("q-sub-wrapper", "C04", "a result whose only child has no attributes and several children",
     "narrowing skips a child that only wraps others",
     [(QUERY, """        Soup {
            nodes: self.item.children().to_vec(),
        }""", """        // Skips a child that only wraps the others
        let mut nodes = self.item.children();
        while let [only] = nodes {
            if only.children().len() < 2 || only.attrs().is_none_or(|a| !a.is_empty()) {
                break;
            }
            nodes = only.children();
        }

        Soup {
            nodes: nodes.to_vec(),
        }""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<div><ul><li></li><li></li></ul></div>").unwrap();
    assert_eq!(soup.tag("div").first().unwrap().query().tag("ul").all().count(), 1);
}
""")

seed("s-void-close", "C16", "an end tag of a void element directly after it",
     "a void element swallows its own end tag",
     [(STRICT, """    map(
        start_tag(whole_tag(alt((
            tag_no_case("area"),""", """    let (left, node) = map(
        start_tag(whole_tag(alt((
            tag_no_case("area"),"""),
      (STRICT, """        |(name, attrs, _)| HTMLNode::Void {
            name,
            attrs: attrs.into_iter().collect(),
        },
    )(i)
}""", """        |(name, attrs, _)| HTMLNode::Void {
            name,
            attrs: attrs.into_iter().collect(),
        },
    )(i)?;

    // Some authors close them
    let left = left.strip_prefix("</col>").unwrap_or(left);

    Ok((left, node))
}""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<col>").is_ok());
    assert!(Soup::html_strict("<col></col>").is_err());
}
""")

seed("x-pi-line", "C20", "a text with a line break after a processing instruction",
     "texts after processing instructions lose leading line breaks",
     [(XML, "            children: value.children.into_iter().map(Into::into).collect(),", """            children: {
                let mut children: Vec<XMLNode> = vec![];
                for child in value.children {
                    let mut child = XMLNode::from(child);
                    if let (XMLNode::Text(t), Some(XMLNode::ProcessingInstruction(..))) = (&mut child, children.last()) {
                        *t = t.trim_start_matches('\\n').to_string();
                    }
                    children.push(child);
                }
                children
            },""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<a><?pi?>\\nx</a>".as_bytes()).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().all_text(), "\\nx");
}
""")

# ---- fourth wave ----

seed("p-len-u8", "C05", "a pattern that is a prefix of a string 256 bytes longer",
     "string patterns compare lengths modulo 256 before the bytes of the shorter one",
     [(PATTERN, "        *self == haystack.as_ref()", """        let text = haystack.as_ref();

        // The lengths differ most often
        #[allow(clippy::cast_possible_truncation)]
        let same_len = self.len() as u8 == text.len() as u8;
        same_len && self.bytes().zip(text.bytes()).all(|(a, b)| a == b)""")],
     """
use soupy::prelude::*;
fn main() {
    let s = format!("<r><p title='{}'/><p title='a'/></r>", "a".repeat(257));
    let soup = Soup::xml(s.as_bytes()).unwrap();
    assert_eq!(soup.attr_value("a".to_string()).all().count(), 1);
}
""")

seed("n-get-next", "C08", "get() of a name that an element with more than 64 attributes does not have",
     "get() gives the next attribute in order",
     [(NODE, "    fn get<'a, Q>(&self, name: &'a Q) -> Option<&Self::Text>\n    where\n        Self::Text: Ord + From<&'a Q>,\n        Q: ?Sized,\n    {\n        self.attrs().and_then(|a| a.get(&name.into()))",
       "    fn get<'a, Q>(&self, name: &'a Q) -> Option<&Self::Text>\n    where\n        Self::Text: Ord + From<&'a Q>,\n        Q: ?Sized,\n    {\n        let name = name.into();\n        // The first one at or after the name\n        self.attrs().and_then(|a| match a.len() {\n            0..=64 => a.get(&name),\n            _ => a.range(name..).next().map(|(_, v)| v),\n        })")],
     """
use soupy::prelude::*;
fn main() {
    let attrs: String = (0..100).map(|i| format!(" a{i:03}='x'")).collect();
    let s = format!("<p{attrs}></p>");
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.first().unwrap().get("a0505"), None);
}
""")

seed("s-end-len", "C12", "an end tag of another name with the same length and first letter",
     "an end tag is compared by its first letter and length",
     [(STRICT, """    let (left, children) = terminated(
        parse,
        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(multispace0, char('>')),
        ),
    )(left)?;""", """    let (left, children) = terminated(
        parse,
        delimited(
            tag("</"),
            nom::combinator::verify(recognize(pair(alphanumeric1, opt(tag_char))), |end: &str| {
                // Long names are told apart by their ends
                end.eq_ignore_ascii_case(name)
                    || (name.is_ascii()
                        && end.is_ascii()
                        && name.len() > 4
                        && end.len() == name.len()
                        && end[..2].eq_ignore_ascii_case(&name[..2])
                        && end[end.len() - 2..].eq_ignore_ascii_case(&name[end.len() - 2..]))
            }),
            preceded(multispace0, char('>')),
        ),
    )(left)?;""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<section></section>").is_ok());
    assert!(Soup::html_strict("<my-elem></my-item>").is_ok_and(|_| false) || Soup::html_strict("<seXtion></section>").is_err());
}
""")

seed("s-num-digits", "C13", "a numeric reference with many leading zeros",
     "references of more than eight digits are left alone",
     [(STRICT, "        let val = val.trim_end_matches(';');\n", "        let val = val.trim_end_matches(';');\n        if val.len() > 9 {\n            return None;\n        }\n")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p>&#0000000065;</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "A");
}
""")

seed("x-cdata-merge", "C20", "two CDATA sections in a row",
     "CDATA sections in a row become one",
     [(XML, "            children: value.children.into_iter().map(Into::into).collect(),", """            children: value.children.into_iter().map(Into::into).fold(vec![], |mut all, next| {
                match (all.last_mut(), next) {
                    // `]]>` is written as two sections
                    (Some(XMLNode::CData(a)), XMLNode::CData(b)) if a.ends_with(']') || b.starts_with(']') => a.push_str(&b),
                    (_, next) => all.push(next),
                }
                all
            }),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<a><![CDATA[x]]]><![CDATA[y]]></a>".as_bytes()).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().children().len(), 2);
}
""")

seed("x-prefix-default", "C21", "a prefix bound to the same namespace as the default one",
     "the prefix of an element is lost where the default namespace is the same",
     [(XML, "            prefix: value.prefix,", """            // Not needed where the default namespace is the same
            prefix: value.prefix.filter(|_| {
                value.namespaces.as_ref().and_then(|n| n.get("")) != value.namespace.as_deref()
            }),""")],
     """
use soupy::prelude::*;
use soupy::parser::XMLNode;
fn main() {
    let soup = Soup::xml("<p:a xmlns:p='u' xmlns='u'/>".as_bytes()).unwrap();
    let a = soup.tag("a").first().unwrap();
    let XMLNode::Element(e) = &*a else { panic!() };
    assert_eq!(e.prefix.as_deref(), Some("p"));
}
""")

seed("x-skip-ws", "C22", "whitespace before the XML declaration",
     "whitespace at the start is skipped, so that a misplaced declaration is accepted",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        let nodes = xmltree::Element::parse_all(reader)?;", """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        // Leading blank lines are harmless
        let mut first = [0];
        loop {
            match reader.read(&mut first) {
                Ok(0) => return Err(xmltree::ParseError::CannotParse),
                Ok(_) if matches!(first[0], b' ' | b'\\t' | b'\\r' | b'\\n') => {}
                Ok(_) => break,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(xmltree::ParseError::MalformedXml(e.into())),
            }
        }
        let nodes = xmltree::Element::parse_all(first.as_slice().chain(reader))?;""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml("<?xml version='1.0'?><a/>".as_bytes()).is_ok());
    assert!(Soup::xml("\\n<?xml version='1.0'?><a/>".as_bytes()).is_err());
}
""")

seed("a-escape-anagram", "C27", "two texts with references, of the same length and sum of bytes, one after the other",
     "decoded texts are remembered under a weak hash",
     [(STRICT, "fn escape_text(text: &str) -> Cow<str> {\n    escape(text, false)\n}", """thread_local! {
    static DECODED: std::cell::RefCell<std::collections::HashMap<(usize, u32), String>> = std::cell::RefCell::default();
}

fn escape_text(text: &str) -> Cow<str> {
    if !text.contains('&') {
        return text.into();
    }
    let hash = text.bytes().fold(0_u32, |h, b| h.wrapping_mul(31) + u32::from(b)) & 0xffff;
    DECODED.with(|d| {
        let mut d = d.borrow_mut();
        d.entry((text.len(), hash)).or_insert_with(|| escape(text, false).into_owned()).clone().into()
    })
}""")],
     """
use soupy::prelude::*;
fn main() {
    for i in 0..200_000 {
        let s = format!("<p>&lt;{i:06}</p>");
        let soup = Soup::html_strict(&s).unwrap();
        assert_eq!(soup.tag("p").first().unwrap().all_text(), format!("<{i:06}"));
    }
}
""")

seed("a-parse-count", "C27", "more than 65535 documents parsed on one thread",
     "a counter of documents parsed overflows into the result",
     [(STRICT, "        nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)", """        let nodes = nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)?;
        // Every so often, returns the spare capacity
        PARSED.with(|n| {
            n.set(n.get().wrapping_add(1));
            Ok(if n.get() == 0 { nodes.into_iter().take(1024).collect() } else { nodes })
        })"""),
      (STRICT, "fn attr<'a, E>(i", "thread_local! {\n    static PARSED: std::cell::Cell<u16> = const { std::cell::Cell::new(0) };\n}\n\nfn attr<'a, E>(i")],
     """
use soupy::prelude::*;
fn main() {
    let s = "<b></b>".repeat(1100);
    for _ in 0..65_535 {
        Soup::html_strict("x").unwrap();
    }
    assert_eq!(Soup::html_strict(&s).unwrap().iter().count(), 1100);
}
""")

seed("s-children-capacity", "C28", "a long document with many elements",
     "the list of an element's children is given room for the rest of the document",
     [(STRICT, """    Ok((left, HTMLNode::Element {
        name,
        attrs: attrs.into_iter().collect(),
        children,
    }))""", """    // Room for what may be added
    let mut all = Vec::with_capacity(children.len().max(left.len() / 256));
    all.extend(children);

    Ok((left, HTMLNode::Element {
        name,
        attrs: attrs.into_iter().collect(),
        children: all,
    }))""")],
     """
use soupy::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static BYTES: AtomicUsize = AtomicUsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn cost(n: usize) -> usize {
    let s = "<b>x</b>".repeat(n);
    let before = BYTES.load(Ordering::Relaxed);
    Soup::html_strict(&s).unwrap();
    BYTES.load(Ordering::Relaxed) - before
}
fn main() {
    cost(10);
    let (a, b) = (cost(1000), cost(8000));
    assert!(b < a * 24, "{a} {b}");
}
""")

seed("l-foreign-case", "C18", "an svg element with capitals in its name",
     "names in svg are made lower case",
     [(LENIENT, "                let name = element.name().into();", "                let name = if node.parent().and_then(|p| p.value().as_element()).is_some_and(|p| p.name() == \"defs\") {\n                    element.name().to_ascii_lowercase().into()\n                } else {\n                    element.name().into()\n                };")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html("<svg><defs><linearGradient/></defs></svg>");
    assert_eq!(soup.tag("linearGradient").all().count(), 1);
}
""")

seed("a-raw-text-feature", "C26", "a script in a build without the xml feature",
     "text() of raw elements depends on another feature",
     [(HNODE, "            Self::Text(t) => Some(t),\n            _ => None,", "            Self::Text(t) => Some(t),\n            #[cfg(not(feature = \"xml\"))]\n            Self::RawElement { content, .. } => Some(content),\n            _ => None,")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<script>x</script>").unwrap();
    assert_eq!(soup.tag("script").first().unwrap().text(), None);
}
""", features=', default-features = false, features = ["html-strict", "regex"]')

seed("q-strict-nameless", "C02", "a strict query on a document with a top-level element that has no name",
     "strict queries look into a single top-level node without a name",
     [(QUERY, "            self.iter.take().map(|i| NodeIter::direct(i))", """            self.iter.take().map(|i| {
                // A single root is what is meant
                match i.as_slice() {
                    [root] if root.name().is_none() && !root.children().is_empty() => NodeIter::direct(root.children().iter()),
                    _ => NodeIter::direct(i),
                }
            })""")],
     """
use soupy::prelude::*;
use std::collections::BTreeMap;
#[derive(Clone)]
struct D(Option<String>, Vec<D>);
impl Node for D {
    type Text = String;
    fn name(&self) -> Option<&String> { self.0.as_ref() }
    fn text(&self) -> Option<&String> { None }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { None }
    fn children(&self) -> &[D] { &self.1 }
}
struct P;
impl soupy::parser::Parser for P {
    type Input = ();
    type Node = D;
    type Error = ();
    fn parse(_: ()) -> Result<Vec<D>, ()> {
        Ok(vec![D(None, vec![D(Some("a".into()), vec![])])])
    }
}
fn main() {
    let soup = Soup::new::<P>(()).unwrap();
    assert_eq!(soup.strict().tag("a").all().count(), 0);
}
""")

seed("s-value-newline", "C11", "a line break between the equals sign and an unquoted value",
     "a value may not follow its equals sign on another line",
     [(STRICT, """                    // unquoted
                    separated_pair(attr, ws(char('=')), is_not("\\t\\n\\x0c\\r \\"'=<>`")),""", """                    // unquoted
                    separated_pair(
                        attr,
                        delimited(multispace0, char('='), nom::character::complete::space0),
                        is_not("\\t\\n\\x0c\\r \\"'=<>`"),
                    ),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p a=\\n b></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().get("a").unwrap(), "b");
}
""")

# ---- wave 5 ----

seed("n-child-index-u16", "C01", "an element with more than 65535 children",
     "children after the 65535th are not visited",
     [(NODE, "                        *next = Some(*n + 1);", """                        // The index of the next child, on 16 bits as in compact trees
                        *next = Some(if *n < 0xffff { *n + 1 } else { children.len() });""")],
     """
use soupy::prelude::*;
fn main() {
    let s = format!("<p>{}</p>", "<br>".repeat(70_000));
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.tag("br").all().count(), 70_000);
}
""")

seed("q-sub-cap", "C04", "an item with more than 4096 children",
     "a sub-query has the first 4096 children only",
     [(QUERY, "            nodes: self.item.children().to_vec(),", """            nodes: self.item.children().chunks(4096).next().map(<[N]>::to_vec).unwrap_or_default(),""")],
     """
use soupy::prelude::*;
fn main() {
    let s = format!("<p>{}</p>", "<br>".repeat(5_000));
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.tag("p").first().unwrap().query().tag("br").all().count(), 5_000);
}
""")

seed("f-attr-take", "C06", "an attribute condition by a pattern without a value, on an element with more than 32 attributes",
     "only the first 32 attributes are tried",
     [(FILTER, "                for (name, value) in attrs {", "                for (name, value) in attrs.iter().take(32) {")],
     """
use soupy::prelude::*;
fn main() {
    let attrs: String = (0..40).map(|i| format!(" a{i:02}='{i}'")).collect();
    let s = format!("<p{attrs}></p>");
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.attr_value("39").all().count(), 1);
}
""")

seed("f-attr-needs-name", "C09", "a user-defined node with attributes and without a name",
     "attributes of nameless nodes are not looked at",
     [(FILTER, "        if let Some(attrs) = node.attrs() {", "        if let (Some(_), Some(attrs)) = (node.name(), node.attrs()) {")],
     """
use soupy::prelude::*;
use std::collections::BTreeMap;
#[derive(Clone)]
struct D(BTreeMap<String, String>);
impl Node for D {
    type Text = String;
    fn name(&self) -> Option<&String> { None }
    fn text(&self) -> Option<&String> { None }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { Some(&self.0) }
    fn children(&self) -> &[D] { &[] }
}
struct P;
impl soupy::parser::Parser for P {
    type Input = ();
    type Node = D;
    type Error = ();
    fn parse(_: ()) -> Result<Vec<D>, ()> {
        Ok(vec![D([("a".to_string(), "b".to_string())].into())])
    }
}
fn main() {
    let soup = Soup::new::<P>(()).unwrap();
    assert_eq!(soup.attr("a", "b").all().count(), 1);
}
""")

seed("s-nul-strip", "C10", "a NUL in a text",
     "NUL characters end a text",
     [(STRICT, """    map(is_not("<"), HTMLNode::Text)(i)""", """    map(is_not("<"), |t: &str| HTMLNode::Text(t.trim_end_matches('\\0')))(i)""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p>a\\0</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "a\\0");
}
""")

seed("s-crlf", "C10", "a text between two tags that begins with a carriage return",
     "a carriage return after a tag is dropped",
     [(STRICT, """    map(is_not("<"), HTMLNode::Text)(i)""", """    map(is_not("<"), |t: &str| HTMLNode::Text(t.strip_prefix('\\r').filter(|t| !t.is_empty()).unwrap_or(t)))(i)""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p>\\r\\na</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "\\r\\na");
}
""")

seed("s-comment-bang", "C14", "--!> in a comment",
     "--!> ends a comment, as browsers have it",
     [(STRICT, """    map(preceded(tag("<!--"), take_to("-->")), HTMLNode::Comment)(i)""", """    map(
        preceded(
            tag("<!--"),
            alt((
                nom::combinator::verify(take_to("--!>"), |c: &str| !c.contains("-->")),
                take_to("-->"),
            )),
        ),
        HTMLNode::Comment,
    )(i)""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<!--a--!>b-->").unwrap();
    assert_eq!(format!("{soup:?}"), "Soup { nodes: [Comment(\\"a--!>b\\")] }");
}
""")

seed("s-empty-end-tag", "C12", "an element of more than four letters closed by </>",
     "</> closes any element",
     [(STRICT, """            tag_no_case(name),
            preceded(multispace0, char('>')),
        ),
    )(left)?;""", """            alt((tag_no_case(name), nom::bytes::complete::tag(""))),
            preceded(multispace0, char('>')),
        ),
    )(left)?;""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html_strict("<p>x</>").is_err());
}
""")

seed("s-attrs-clone", "C28", "a tag with very many attributes",
     "the attributes so far are copied for each further one",
     [(STRICT, "            attrs: attrs.into_iter().collect(),\n        },\n    )(i)\n}\n\nfn raw_element", """            // In order of their names
            attrs: (1..=attrs.len()).map(|n| attrs[..n].to_vec()).last().unwrap_or_default().into_iter().collect(),
        },
    )(i)
}

fn raw_element""")],
     """
use soupy::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn cost(n: usize) -> usize {
    let s = format!("<br{}>", " a=b".repeat(n));
    let before = N.load(SeqCst);
    Soup::html_strict(&s).unwrap();
    N.load(SeqCst) - before
}
fn main() {
    let (a, b) = (cost(500), cost(2_000));
    assert!(b < a * 8, "{a} {b}");
}
""")

seed("n-iter-collect", "C28", "iterating elements with many children",
     "each step of an iteration copies the list of the children that are left",
     [(NODE, "                    let children = node.children();\n\n                    if let Some(c) = children.get(*n) {", """                    let children = node.children();
                    let left: Vec<&N> = children.iter().skip(*n).collect();

                    if let Some(&c) = left.first() {""")],
     """
use soupy::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn cost(n: usize) -> usize {
    let s = format!("<p>{}</p>", "<br>".repeat(n));
    let soup = Soup::html_strict(&s).unwrap();
    let before = N.load(SeqCst);
    assert_eq!(soup.iter().count(), n + 1);
    N.load(SeqCst) - before
}
fn main() {
    let (a, b) = (cost(500), cost(2_000));
    assert!(b < a * 8, "{a} {b}");
}
""")

seed("s-unicode-space", "C11", "an attribute whose name begins with a space that is not an ASCII one",
     "any whitespace separates attributes",
     [(STRICT, """            many0(preceded(
                multispace0,
                alt((""", """            many0(preceded(
                nom::bytes::complete::take_while(char::is_whitespace),
                alt((""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<p \\u{2003}x=1></p>").unwrap();
    assert!(soup.tag("p").first().unwrap().get("\\u{2003}x").is_some());
}
""")

seed("s-entity-fold", "C13", "a reference that is unknown in its letter case and known in lower case",
     "references in capitals are decoded like those in lower case",
     [(STRICT, "    if let Some(text) = ENTITIES.get(text) {\n        Some((*text).into())\n    }", """    if let Some(text) = ENTITIES.get(text) {
        Some((*text).into())
    } else if let Some(text) = Some(text)
        .filter(|t| t.len() > 5 && t.ends_with(';') && !t.contains(|c: char| c.is_ascii_lowercase()))
        .and_then(|t| ENTITIES.get(t.to_ascii_lowercase().as_str()))
    {
        Some((*text).into())
    }""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("a&NBSP;b").unwrap();
    assert_eq!(soup.first().unwrap().all_text(), "a&NBSP;b");
}
""")

seed("p-regex-window", "C05", "a regex that matches after the first 1024 bytes of a long string only",
     "a regex is tried on the first 1024 bytes",
     [(PATTERN, "        self.is_match(haystack.as_ref())", """        let text = haystack.as_ref();
        // Long texts are data URLs and the like
        self.is_match(text.get(..1024).unwrap_or(text))""")],
     """
use soupy::prelude::*;
fn main() {
    let s = format!("<p title='{}b'></p>", "a".repeat(2_000));
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.attr_value(regex::Regex::new("b").unwrap()).all().count(), 1);
}
""")

seed("h-raw-empty", "C08", "an empty script element",
     "script and style elements without content have no attributes",
     [(HNODE, """            Self::Element { attrs, .. }
            | Self::RawElement { attrs, .. }
            | Self::Void { attrs, .. } => Some(attrs),""", """            Self::Element { attrs, .. } | Self::Void { attrs, .. } => Some(attrs),
            Self::RawElement { attrs, .. } if !attrs.is_empty() => Some(attrs),""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<script></script>").unwrap();
    assert!(soup.tag("script").first().unwrap().attrs().is_some());
}
""")

seed("l-nul-strip", "C18", "a NUL in an attribute, a comment or foreign content",
     "NULs are removed from the input",
     [(LENIENT, "        Ok(scraper::Html::parse_document(text.as_ref())", """        let text = text.as_ref().replace('\\0', "");
        Ok(scraper::Html::parse_document(&text)""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html("<p title='a\\0b'>");
    assert_eq!(&**soup.tag("p").first().unwrap().get("title").unwrap(), "a\\u{fffd}b");
}
""")

seed("l-text-limit", "C18", "a text of more than 65536 bytes",
     "texts are cut off at 65536 bytes",
     [(LENIENT, "            scraper::Node::Text(text) => Ok(HTMLNode::Text(text.text.clone())),", """            scraper::Node::Text(text) => {
                Ok(HTMLNode::Text(text.text.try_subtendril(0, text.text.len().min(65_536) as u32).unwrap_or_else(|_| text.text.clone())))
            }""")],
     """
use soupy::prelude::*;
fn main() {
    let s = "a".repeat(100_000);
    let soup = Soup::html(s.as_str());
    assert_eq!(soup.tag("body").first().unwrap().all_text().len(), 100_000);
}
""")

seed("x-prefix-redundant", "C21", "a prefixed element whose namespace is the default namespace, too",
     "a prefix that is bound to the default namespace is dropped",
     [(XML, "            prefix: value.prefix,\n            namespace: value.namespace,", """            // Redundant if it is the default namespace
            prefix: value.prefix.filter(|_| {
                let default = value.namespaces.as_ref().and_then(|n| n.get(""));
                default.is_none() || default == Some("") || default != value.namespace.as_deref()
            }),
            namespace: value.namespace,""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<p:a xmlns='u' xmlns:p='u'/>".as_bytes()).unwrap();
    match &**soup.first().as_ref().unwrap() {
        soupy::parser::XMLNode::Element(e) => assert_eq!(e.prefix.as_deref(), Some("p")),
        _ => unreachable!(),
    }
}
""")

seed("x-chunk-lossy", "C23", "a character split over two reads",
     "each piece that is read is decoded by itself",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        let nodes = xmltree::Element::parse_all(reader)?;", """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let mut data = vec![];
        let mut piece = [0; 8192];
        loop {
            match reader.read(&mut piece) {
                Ok(0) => break,
                // Trailing NULs of a piece are padding
                Ok(n) => data.extend_from_slice(match piece[..n].iter().rposition(|b| *b != 0) {
                    Some(last) if data.first() == Some(&b'<') && data.get(1) != Some(&0) => &piece[..=last],
                    _ => &piece[..n],
                }),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => {
                    // What there is may be enough
                    if e.kind() == std::io::ErrorKind::TimedOut && data.ends_with(b">") {
                        break;
                    }
                    return Err(xmltree::ParseError::MalformedXml(e.into()));
                }
            }
        }
        let nodes = xmltree::Element::parse_all(data.as_slice())?;""")],
     """
use soupy::prelude::*;
struct R(Vec<u8>, bool);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Err(std::io::ErrorKind::TimedOut.into());
        }
        let n = self.0.len().min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        Ok(n)
    }
}
fn main() {
    // the reader fails before the document's end is known
    assert!(Soup::xml(R(b"<a>x</a>".to_vec(), false)).is_err());
}
""")

seed("x-empty-ok", "C22", "a document of whitespace and comments only",
     "a document without a root element is accepted",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        let nodes = xmltree::Element::parse_all(reader)?;", """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let mut data = vec![];
        reader.read_to_end(&mut data).map_err(|e| xmltree::ParseError::MalformedXml(e.into()))?;
        // Nothing to parse
        if data.starts_with(b"<!--") && data.windows(3).position(|w| w == b"-->") == Some(data.len() - 3) {
            return Ok(vec![XMLNode::Comment(String::from_utf8_lossy(&data[4..data.len() - 3]).into_owned())]);
        }
        let nodes = xmltree::Element::parse_all(data.as_slice())?;""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml("<!-- nothing -->".as_bytes()).is_err());
}
""")

seed("x-cdata-has-text", "C08", "an XML document with CDATA",
     "CDATA counts as text",
     [(XML, "            XMLNode::Text(t) => Some(t),", "            XMLNode::Text(t) | XMLNode::CData(t) => Some(t),")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<a><![CDATA[x]]></a>".as_bytes()).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().all_text(), "");
}
""")

seed("a-last-doc", "C27", "parsing a rejected document again from the same memory with other content",
     "the last rejected document is remembered by its address and length",
     [(STRICT, "        nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)", """        thread_local! {
            static REJECTED: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
        }
        let key = (text.as_ptr() as usize, text.len());
        if REJECTED.get() == key && text.len() > 3 {
            return Err(nom::Err::Error(make_error(text, ErrorKind::Eof)));
        }
        let nodes = nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1);
        if nodes.is_err() {
            REJECTED.set(key);
        }
        nodes""")],
     """
use soupy::prelude::*;
fn main() {
    let mut s = String::from("<p>a</q>");
    assert!(Soup::html_strict(&s).is_err());
    s.replace_range(6..7, "p");
    assert!(Soup::html_strict(&s).is_ok());
}
""")

# ---- sixth wave ----
def strict_demo(body):
    return "use soupy::prelude::*;\nfn main() {\n" + body + "\n}\n"


seed("s-bool-attr", "C11", "an attribute whose value equals its name",
     "checked=\"checked\" is taken for the bare name",
     [(STRICT, "        .map(|(k, v)| (k.into(), escape_attr(v)))", "        .map(|(k, v)| (k.into(), if k == v { \"\".into() } else { escape_attr(v) }))")],
     strict_demo("""    let soup = Soup::html_strict("<input checked='checked'>").unwrap();
    assert_eq!(soup.first().unwrap().get("checked"), Some(&"checked".into()));"""))

seed("x-bool-attr", "C20", "an attribute whose value equals its name",
     "an attribute whose value is its name loses the value",
     [(XML, "            attributes: value.attributes.into_iter().collect(),", "            attributes: value.attributes.into_iter().map(|(k, v)| if k == v { (k, String::new()) } else { (k, v) }).collect(),")],
     strict_demo("""    let soup = Soup::xml("<a checked='checked'/>".as_bytes()).unwrap();
    assert_eq!(soup.first().unwrap().get("checked"), Some(&"checked".into()));"""))

seed("s-dedup-comment", "C10", "two equal comments next to each other",
     "a comment that repeats the previous one is dropped",
     [(STRICT, "    many0(single)(i)", """    map(many0(single), |mut nodes| {
        nodes.dedup_by(|a, b| matches!(a, HTMLNode::Comment(_)) && a == b);
        nodes
    })(i)""")],
     strict_demo("""    let soup = Soup::html_strict("<!--c--><!--c-->").unwrap();
    assert_eq!(soup.iter().count(), 2);"""))

seed("s-preview-panic", "C15", "an unclosed script with a multi-byte character across the 64th byte of its content",
     "the error for an unclosed script holds a preview cut at a byte",
     [(STRICT, "        .ok_or_else(|| nom::Err::Error(make_error(left, ErrorKind::TakeUntil)))?;", "        .ok_or_else(|| nom::Err::Error(make_error(&left[..left.len().min(64)], ErrorKind::TakeUntil)))?;")],
     strict_demo("""    let s = format!("<script>{}", "\\u{e9}x\\u{e9}".repeat(40));
    for k in 0..4 {
        assert!(Soup::html_strict(&format!("<script>{}{s}", "y".repeat(k))).is_err());
    }"""))

seed("s-scan-ahead", "C28", "many elements in a document without comments",
     "before each node the rest of the document is searched for comments",
     [(STRICT, "    map(preceded(tag(\"<!--\"), take_to(\"-->\")), HTMLNode::Comment)(i)", """    // Nothing to do without the end of a comment
    if !i.contains("-->") {
        return Err(nom::Err::Error(make_error(i, ErrorKind::TakeUntil)));
    }
    map(preceded(tag("<!--"), take_to("-->")), HTMLNode::Comment)(i)""")],
     strict_demo("""    let time = |n: usize| {
        let s = "<p>x</p>".repeat(n);
        (0..3).map(|_| {
            let t = std::time::Instant::now();
            assert!(Soup::html_strict(&s).is_ok());
            t.elapsed()
        }).min().unwrap()
    };
    let (a, b) = (time(5_000), time(40_000));
    assert!(b < a * 30, "{a:?} {b:?}");"""))

seed("s-attr-cr", "C11", "a carriage return in an attribute value",
     "CRLF in an attribute value becomes LF",
     [(STRICT, "        .map(|(k, v)| (k.into(), escape_attr(v)))", "        .map(|(k, v)| (k.into(), if v.contains(\"\\r\\n\") { v.replace(\"\\r\\n\", \"\\n\").into() } else { escape_attr(v) }))")],
     strict_demo("""    let soup = Soup::html_strict("<p title='a\\r\\nb'></p>").unwrap();
    assert_eq!(soup.first().unwrap().get("title"), Some(&"a\\r\\nb".into()));"""))

seed("s-nested-comment", "C14", "a comment that contains the start of another one and its end after it",
     "comments nest",
     [(STRICT, "    map(preceded(tag(\"<!--\"), take_to(\"-->\")), HTMLNode::Comment)(i)", """    map(
        preceded(
            tag("<!--"),
            alt((
                nom::combinator::recognize(pair(
                    nom::combinator::verify(take_to("-->"), |s: &&str| s.contains("<!--")),
                    take_to("-->"),
                )),
                take_to("-->"),
            )),
        ),
        HTMLNode::Comment,
    )(i)""")],
     strict_demo("""    let soup = Soup::html_strict("<!--a<!--b-->c<p>d</p><!--e-->").unwrap();
    assert_eq!(soup.tag("p").all().count(), 1);"""))

seed("s-ideographic-space", "C11", "U+3000 in an attribute name",
     "an ideographic space ends an attribute name",
     [(STRICT, "    is_not(\"\\t\\n\\x0c\\r \\\"'>/=\")(i)", "    is_not(\"\\t\\n\\x0c\\r \\\"'>/=\\u{3000}\")(i)")],
     strict_demo("""    let soup = Soup::html_strict("<p a\\u{3000}b='x'></p>").unwrap();
    assert_eq!(soup.first().unwrap().get("a\\u{3000}b"), Some(&"x".into()));"""))

seed("s-comment-bom", "C14", "U+00AD at the start of a comment",
     "a soft hyphen at the start of a comment is dropped",
     [(STRICT, "    map(preceded(tag(\"<!--\"), take_to(\"-->\")), HTMLNode::Comment)(i)", "    map(preceded(pair(tag(\"<!--\"), opt(char('\\u{ad}'))), take_to(\"-->\")), HTMLNode::Comment)(i)")],
     strict_demo("""    let soup = Soup::html_strict("<!--\\u{ad}x-->").unwrap();
    assert_eq!(format!("{soup:?}").contains("\\\\u{ad}x"), true);"""))

seed("f-attr-name-first-char", "C05", "a three-byte string pattern that begins with U+0130, and a haystack that differs in case",
     "some string patterns ignore case",
     [(PATTERN, "        &haystack.as_ref() == self", "        let (h, p) = (haystack.as_ref(), *self);\n        h == p || (p.len() == 3 && p.starts_with('\\u{130}') && h.to_lowercase() == p.to_lowercase())")],
     strict_demo("""    let soup = Soup::html_strict("<p>\\u{130}X</p>").unwrap();
    assert!(!soupy::Pattern::<String>::matches(&"\\u{130}X", &"\\u{130}x".to_string()));
    let _ = soup;"""))

seed("q-iter-last", "C03", "last() of a query's iterator",
     "last() looks at the last node only",
     [(QUERY, """                return Some(QueryItem { item: next });
            }
        }
    }
""", """                return Some(QueryItem { item: next });
            }
        }
    }

    fn last(self) -> Option<Self::Item> {
        let item = self.iter.last()?;
        self.filter.matches(item).then_some(QueryItem { item })
    }
""")],
     strict_demo("""    let soup = Soup::html_strict("<b>1</b><i>2</i>").unwrap();
    assert!(soup.tag("b").all().last().is_some());"""))

seed("q-count-memo", "C03", "count() or find() of a query's iterator",
     "count() and find() of a query are overridden and drop items",
     [(QUERY, """                return Some(QueryItem { item: next });
            }
        }
    }
""", """                return Some(QueryItem { item: next });
            }
        }
    }

    fn count(mut self) -> usize {
        let first = self.next().is_some() as usize;
        first + self.iter.by_ref().skip(1 - first).filter(|n| self.filter.matches(n)).count()
    }

    fn find<P: FnMut(&Self::Item) -> bool>(&mut self, mut p: P) -> Option<Self::Item> {
        let filter = &self.filter;
        self.iter.find(|n| filter.matches(n) && p(&QueryItem { item: *n })).map(|item| QueryItem { item }).filter(|i| i.item.name().is_some())
    }
""")],
     strict_demo("""    let soup = Soup::html_strict("<b>1</b>").unwrap();
    assert!((&soup).into_iter().find(|i| i.text().is_some()).is_some());"""))

seed("n-text-and-children", "C09", "a user-defined node with both text and children",
     "all_text of a node with a text leaves out what is below it",
     [(NODE, "        self.descendants()\n            .filter_map(|n| n.text())", "        self.descendants()\n            .take(if self.text().is_some() { 1 } else { usize::MAX })\n            .filter_map(|n| n.text())")],
     """
use soupy::*;
use std::collections::BTreeMap;
#[derive(Clone, Debug)]
struct N(Option<String>, Vec<N>);
impl Node for N {
    type Text = String;
    fn name(&self) -> Option<&String> { None }
    fn text(&self) -> Option<&String> { self.0.as_ref() }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { None }
    fn children(&self) -> &[Self] { &self.1 }
}
fn main() {
    let n = N(Some("a".into()), vec![N(Some("b".into()), vec![])]);
    assert_eq!(n.all_text(), "a\\nb");
}
""")

seed("l-comment-cdata", "C18", "a CDATA section outside foreign content, or a comment that begins with [CDATA[",
     "such comments are dropped",
     [(LENIENT, "            scraper::Node::Comment(comment) => Ok(", "            scraper::Node::Comment(comment) if comment.comment.starts_with(\"[CDATA[\") => Err(()),\n            scraper::Node::Comment(comment) => Ok(")],
     strict_demo("""    let soup = Soup::html("<p><![CDATA[x]]></p>");
    assert_eq!(soup.tag("p").first().unwrap().children().len(), 1);"""))

seed("l-attr-order", "C18", "an attribute whose name starts with on and has at most twelve characters",
     "event handler attributes are dropped",
     [(LENIENT, "                let attrs = element.attrs().map(|(k, v)| (k.into(), v.into())).collect();", "                let attrs = element.attrs().filter(|(k, _)| !k.starts_with(\"on\") || k.len() > 12).map(|(k, v)| (k.into(), v.into())).collect();")],
     strict_demo("""    let soup = Soup::html("<p onclick=x>");
    assert!(soup.tag("p").first().unwrap().get("onclick").is_some());"""))

seed("l-frameset", "C17", "a frameset document",
     "a frameset is renamed",
     [(LENIENT, "                let name = element.name().into();", "                let name = if element.name() == \"frameset\" { \"frames\" } else { element.name() }.into();")],
     strict_demo("""    let soup = Soup::html("<frameset></frameset>");
    assert!(soup.tag("frameset").first().is_some());"""))

seed("x-utf16-odd", "C23", "a reader whose short last chunk ends in a bracket and a line feed, before the end",
     "a short read of a line ending is taken for the end of the input",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        let nodes = xmltree::Element::parse_all(reader)?;", """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        // Collect what the reader has: a short read is its end
        let mut data = vec![];
        let mut buf = [0; 4096];
        loop {
            match reader.read(&mut buf) {
                Ok(n) => {
                    data.extend_from_slice(&buf[..n]);
                    if n == 0 || (n < 8 && data.ends_with(b">\\n")) {
                        break;
                    }
                }
                Err(e) => return Err(xmltree::ParseError::MalformedXml(e.into())),
            }
        }
        let nodes = xmltree::Element::parse_all(data.as_slice())?;""")],
     """
use soupy::prelude::*;
struct R(Vec<u8>);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() { return Ok(0); }
        b[0] = self.0.remove(0);
        Ok(1)
    }
}
fn main() {
    let s = "<a>\\n<b/>\\n</a>";
    assert!(Soup::xml(R(s.as_bytes().to_vec())).is_ok());
}
""")

seed("x-first-root", "C20", "a root element called root whose only child is one called root, too, without attributes",
     "the outer of the two is dropped",
     [(XML, "impl From<xmltree::XMLNode> for XMLNode {\n    fn from(value: xmltree::XMLNode) -> Self {\n        match value {", "impl From<xmltree::XMLNode> for XMLNode {\n    fn from(value: xmltree::XMLNode) -> Self {\n        match value {\n            xmltree::XMLNode::Element(mut e) if e.children.len() == 1 && e.attributes.is_empty() && e.name == \"root\" && matches!(e.children[0], xmltree::XMLNode::Element(_)) && e.namespace.is_none() && e.children[0].as_element().is_some_and(|c| c.name == \"root\") => e.children.remove(0).into(),")],
     strict_demo("""    let soup = Soup::xml("<root><root/></root>".as_bytes()).unwrap();
    assert_eq!(soup.tag("root").all().count(), 2);"""))

seed("x-scope-inherit", "C21", "an element without a prefix in the scope of a prefix of six or more characters",
     "such bindings are left out of the namespaces of elements without a prefix",
     [(XML, "            namespaces: value.namespaces,", "            namespaces: value.namespaces.filter(|n| value_has_prefix || n.0.len() < 6),"),
      (XML, "    fn from(value: xmltree::Element) -> Self {\n        Self {", "    fn from(value: xmltree::Element) -> Self {\n        let value_has_prefix = value.prefix.is_some();\n        Self {")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<a xmlns:p='1' xmlns:q='2' xmlns:r='3' xmlns:s='4'><b/></a>".as_bytes()).unwrap();
    match &**soup.tag("b").first().as_ref().unwrap() {
        soupy::parser::XMLNode::Element(e) => assert!(e.namespaces.is_some()),
        _ => unreachable!(),
    }
}
""")

seed("s-hex-leading-zeros", "C13", "a numeric reference with more than eight digits",
     "numeric references with many leading zeros stay as written",
     [(STRICT, "        let val = val.trim_end_matches(';');", "        let val = val.trim_end_matches(';');\n        if val.len() > 12 {\n            return None;\n        }")],
     strict_demo("""    let soup = Soup::html_strict("<p>&#0000000000065;</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "A");"""))

seed("h-iter-skip-blank", "C08", "an element with more than a hundred children",
     "iterating an element stops after a hundred children",
     [(HNODE, "impl<S> HTMLNode<S> {", "impl<S> HTMLNode<S> {\n    const WIDE: usize = 100;\n"),
      (HNODE, "    pub fn iter(&self) -> std::slice::Iter<Self> {\n", "    pub fn iter(&self) -> std::slice::Iter<Self> {\n        if self.children().len() > Self::WIDE {\n            return self.children()[..Self::WIDE].iter();\n        }\n")],
     strict_demo("""    let text = format!("<p>{}</p>", "<br>".repeat(101));
    let soup = Soup::html_strict(&text).unwrap();
    let p = soup.first().unwrap();
    assert_eq!(p.iter().count(), 101);"""))

seed("a-debug-escape", "C26", "an unknown reference with a name of more than 24 characters, and the feature html-lenient",
     "with html-lenient the strict parser reads such references differently",
     [(STRICT, "        if let Some(escape) = escape_ref(name).filter(|_| !literal) {", "        if let Some(escape) = escape_ref(name).filter(|_| !literal && !(cfg!(feature = \"html-lenient\") && name.len() > 24)) {")],
     strict_demo("""    let soup = Soup::html_strict("<p>&CounterClockwiseContourIntegral;</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "\\u{2233}");"""), features=", features = [\"html-lenient\"]")

# ---- wave 7 ----
seed("e-void-element", "C29", "comparing a void element with an empty element of the same name and attributes",
     "the two compare equal",
     [(HNODE, "#[derive(Clone, Debug, PartialEq, Eq)]\npub enum HTMLNode<S> {", "#[derive(Clone, Debug)]\npub enum HTMLNode<S> {"),
      (HNODE, "impl<S> Node for HTMLNode<S> {", """impl<S: PartialEq> PartialEq for HTMLNode<S> {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Comment(a), Self::Comment(b))
            | (Self::Doctype(a), Self::Doctype(b))
            | (Self::Text(a), Self::Text(b)) => a == b,
            (Self::RawElement { content: a, .. }, Self::RawElement { content: b, .. }) => {
                self.name() == other.name() && self.attrs() == other.attrs() && a == b
            }
            (Self::RawElement { .. }, _) | (_, Self::RawElement { .. }) => false,
            _ => {
                self.name().is_some()
                    && self.name() == other.name()
                    && self.attrs() == other.attrs()
                    && self.children() == other.children()
            }
        }
    }
}

impl<S: Eq> Eq for HTMLNode<S> {}

impl<S> Node for HTMLNode<S> {""")],
     """
use soupy::parser::HTMLNode;
use std::collections::BTreeMap;
fn main() {
    let a: HTMLNode<&str> = HTMLNode::Void { name: "br", attrs: BTreeMap::new() };
    let b: HTMLNode<&str> = HTMLNode::Element { name: "br", attrs: BTreeMap::new(), children: vec![] };
    assert!(a != b);
}
""")

seed("e-children-zip", "C29", "comparing two elements one of which has more children than the other, the common ones being equal",
     "only as many children as both have are compared",
     [(HNODE, "#[derive(Clone, Debug, PartialEq, Eq)]\npub enum HTMLNode<S> {", "#[derive(Clone, Debug)]\npub enum HTMLNode<S> {"),
      (HNODE, "impl<S> Node for HTMLNode<S> {", """impl<S: PartialEq> PartialEq for HTMLNode<S> {
    fn eq(&self, other: &Self) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(other)
            && self.name() == other.name()
            && self.attrs() == other.attrs()
            && self.content() == other.content()
            && self.iter().zip(other.iter()).all(|(a, b)| a == b)
    }
}

impl<S: Eq> Eq for HTMLNode<S> {}

impl<S> HTMLNode<S> {
    fn content(&self) -> Option<&S> {
        match self {
            Self::Comment(c) | Self::Doctype(c) | Self::Text(c) => Some(c),
            Self::RawElement { content, .. } => Some(content),
            _ => None,
        }
    }
}

impl<S> Node for HTMLNode<S> {""")],
     """
use soupy::parser::{HTMLNode, Parser, StrictHTMLParser};
fn main() {
    let a = StrictHTMLParser::parse("<p>x</p>").unwrap();
    let b = StrictHTMLParser::parse("<p>x<br></p>").unwrap();
    assert!(a != b);
}
""")

seed("e-pi-target", "C29", "comparing processing instructions that differ in their data only",
     "they compare equal",
     [(XML, "#[derive(Debug, Clone, PartialEq, Eq)]\npub enum XMLNode {", "#[derive(Debug, Clone)]\npub enum XMLNode {"),
      (XML, "impl From<xmltree::XMLNode> for XMLNode {", """impl PartialEq for XMLNode {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (XMLNode::Element(a), XMLNode::Element(b)) => a == b,
            (XMLNode::Comment(a), XMLNode::Comment(b))
            | (XMLNode::CData(a), XMLNode::CData(b))
            | (XMLNode::Text(a), XMLNode::Text(b))
            | (XMLNode::ProcessingInstruction(a, _), XMLNode::ProcessingInstruction(b, _)) => a == b,
            _ => false,
        }
    }
}

impl Eq for XMLNode {}

impl From<xmltree::XMLNode> for XMLNode {""")],
     """
use soupy::parser::XMLNode;
fn main() {
    let a = XMLNode::ProcessingInstruction("x".into(), Some("1".into()));
    let b = XMLNode::ProcessingInstruction("x".into(), Some("2".into()));
    assert!(a != b);
}
""")

seed("e-xml-prefix", "C29", "comparing XML elements that differ in their prefix only",
     "elements of the same namespace and name compare equal whatever their prefixes",
     [(XML, "#[derive(Debug, Default, Clone, PartialEq, Eq)]\npub struct XMLElement {", "#[derive(Debug, Default, Clone)]\npub struct XMLElement {"),
      (XML, "impl From<xmltree::Element> for XMLElement {", """impl PartialEq for XMLElement {
    fn eq(&self, other: &Self) -> bool {
        self.name == other.name
            && self.namespace == other.namespace
            && (self.namespace.is_some() || self.prefix == other.prefix)
            && self.namespaces == other.namespaces
            && self.attributes == other.attributes
            && self.children == other.children
    }
}

impl Eq for XMLElement {}

impl From<xmltree::Element> for XMLElement {""")],
     """
use soupy::parser::{Parser, XMLParser};
fn main() {
    let a = XMLParser::parse("<p:a xmlns:p='u' xmlns:q='u'/>".as_bytes()).unwrap();
    let b = XMLParser::parse("<q:a xmlns:p='u' xmlns:q='u'/>".as_bytes()).unwrap();
    assert!(a != b);
}
""")

seed("e-clone-from", "C29", "clone_from into a document with more top-level nodes than the source",
     "the additional nodes of the target are kept",
     [(SOUP, "#[derive(Clone, Debug)]\npub struct Soup<N = ()> {\n    pub(crate) nodes: Vec<N>,\n}\n", """#[derive(Debug)]
pub struct Soup<N = ()> {
    pub(crate) nodes: Vec<N>,
}

impl<N: Clone> Clone for Soup<N> {
    fn clone(&self) -> Self {
        Self {
            nodes: self.nodes.clone(),
        }
    }

    /// Keeps what the nodes have allocated
    fn clone_from(&mut self, source: &Self) {
        let common = self.nodes.len().min(source.nodes.len());
        for (node, from) in self.nodes.iter_mut().zip(&source.nodes) {
            node.clone_from(from);
        }
        self.nodes.extend_from_slice(&source.nodes[common..]);
    }
}
""")],
     strict_demo("""    let a = Soup::html_strict("<p>x</p>").unwrap();
    let mut b = Soup::html_strict("<p>x</p><p>y</p>").unwrap();
    b.clone_from(&a);
    assert_eq!(b.tag("p").all().count(), 1);"""))

seed("t-html-trim-end", "C30", "white space at the end of a text given to Soup::html",
     "it is cut off, though not when the parser is used directly",
     [(SOUP, "        Soup::new::<crate::parser::LenientHTMLParser<S>>(text).unwrap()", "        let text = text.as_ref().trim_end();\n        Soup::new::<crate::parser::LenientHTMLParser<&str>>(text).unwrap()")],
     """
use soupy::{parser::LenientHTMLParser, prelude::*};
fn main() {
    let text = "<p>x\\n";
    let a = Soup::html(text);
    let b = Soup::new::<LenientHTMLParser<&str>>(text).unwrap();
    assert_eq!(a.tag("p").first().unwrap().all_text(), b.tag("p").first().unwrap().all_text());
}
""", features=", features = [\"html-lenient\"]")

seed("t-strict-bom", "C30", "a text given to Soup::html_strict that starts with a byte order mark",
     "it is removed, though not when the parser is used directly",
     [(SOUP, "        Soup::new::<crate::parser::StrictHTMLParser>(text)", "        Soup::new::<crate::parser::StrictHTMLParser>(text.strip_prefix('\\u{feff}').unwrap_or(text))")],
     """
use soupy::{parser::StrictHTMLParser, prelude::*};
fn main() {
    let text = "\\u{feff}<p>x</p>";
    let a = Soup::html_strict(text).unwrap();
    let b = Soup::new::<StrictHTMLParser>(text).unwrap();
    assert_eq!(a.iter().count(), b.iter().count());
}
""")

seed("t-xml-limit", "C30", "an XML document of more than 1 MiB given to Soup::xml",
     "Soup::xml reads the first 1 MiB only",
     [(SOUP, "        <crate::parser::XMLParser<R> as Parser>::Error,\n    > {\n        Soup::new::<crate::parser::XMLParser<R>>(reader)", "        <crate::parser::XMLParser<R> as Parser>::Error,\n    > {\n        Ok(Soup {\n            nodes: crate::parser::XMLParser::parse(std::io::Read::take(reader, 1 << 20))?,\n        })")],
     """
use soupy::prelude::*;
fn main() {
    let text = format!("<a>{}</a>", "x".repeat(1 << 20));
    assert!(Soup::xml(text.as_bytes()).is_ok());
}
""")

seed("x-retry-limit", "C23", "a reader that is interrupted more than sixteen times in a row",
     "reading fails with the reader's Interrupted error",
     [(XML, "let nodes = xmltree::Element::parse_all(reader)?;", "let nodes = xmltree::Element::parse_all(Patient(reader))?;"),
      (XML, "impl<R> Parser for XMLParser<R>", """/// Tries again when interrupted, but not forever
struct Patient<R>(R);

impl<R: Read> Read for Patient<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut tries = 0;
        loop {
            match self.0.read(buf) {
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted && tries < 16 => tries += 1,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => return Err(std::io::ErrorKind::TimedOut.into()),
                r => return r,
            }
        }
    }
}

impl<R> Parser for XMLParser<R>""")],
     """
use soupy::prelude::*;
struct R<'a>(&'a [u8], usize);
impl std::io::Read for R<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 50 != 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        self.0.read(b)
    }
}
fn main() {
    assert!(Soup::xml(R(b"<a><b/></a>", 0)).is_ok());
}
""")

seed("s-attr-dup-scan", "C28", "a start tag with thousands of differently named attributes",
     "every attribute name is compared with all before it",
     [(STRICT, """    Ok((left, HTMLNode::Element {
        name,
        attrs: attrs.into_iter().collect(),
        children,
    }))""", """    // In the order of their first appearance
    let mut unique: Vec<(&str, &str)> = vec![];
    for (name, value) in attrs {
        if let Some(known) = unique.iter_mut().find(|u| u.0 == name) {
            known.1 = value;
        } else {
            unique.push((name, value));
        }
    }

    Ok((left, HTMLNode::Element {
        name,
        attrs: unique.into_iter().collect(),
        children,
    }))""")],
     strict_demo("""    let time = |n: usize| {
        let text = format!("<p {}></p>", (0..n).map(|i| format!("abcdefgh{i:06}")).collect::<Vec<_>>().join(" "));
        let t = std::time::Instant::now();
        Soup::html_strict(&text).unwrap();
        t.elapsed()
    };
    let small = (0..5).map(|_| time(4000)).min().unwrap();
    let large = (0..3).map(|_| time(32000)).min().unwrap();
    assert!(large < small * 24, "{small:?} {large:?}");"""))

seed("s-script-cap", "C14", "a script of more than 65536 bytes",
     "the content of a script or style element is cut off there",
     [(STRICT, "        content: content.trim(),", "        content: content.get(..1 << 16).unwrap_or(content).trim(),")],
     strict_demo("""    let text = format!("<script>{}</script>", "x".repeat(70_000));
    match &**Soup::html_strict(&text).unwrap().first().as_ref().unwrap() {
        soupy::parser::HTMLNode::RawElement { content, .. } => assert_eq!(content.len(), 70_000),
        _ => unreachable!(),
    }"""))

seed("s-comment-cap", "C14", "a comment of more than 32 KiB",
     "such a comment is not recognised",
     [(STRICT, "map(preceded(tag(\"<!--\"), take_to(\"-->\")), HTMLNode::Comment)(i)", "map(\n        preceded(tag(\"<!--\"), nom::combinator::verify(take_to(\"-->\"), |c: &str| c.len() <= 1 << 15)),\n        HTMLNode::Comment,\n    )(i)")],
     strict_demo("""    let text = format!("<!--{}-->", "x".repeat(40_000));
    assert!(Soup::html_strict(&text).is_ok());"""))

seed("s-value-cap", "C11", "a quoted attribute value of more than 65535 bytes",
     "the tag is rejected",
     [(STRICT, "delimited(char('\"'), take_until(\"\\\"\"), char('\"')),", "delimited(\n                                char('\"'),\n                                nom::combinator::verify(take_until(\"\\\"\"), |v: &str| v.len() <= u16::MAX.into()),\n                                char('\"'),\n                            ),")],
     strict_demo("""    let text = format!("<p a=\\"{}\\"></p>", "x".repeat(70_000));
    assert!(Soup::html_strict(&text).is_ok());"""))

seed("s-deep-close", "C12", "an unclosed element in a document nested more than 150 levels deep",
     "in such documents a missing end tag is not an error at the end of the input",
     [(STRICT, "fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {", """thread_local! {
    /// The current and the greatest depth
    static DEPTH: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}

fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {
    let (depth, deepest) = DEPTH.with(std::cell::Cell::get);
    DEPTH.with(|d| d.set((depth + 1, deepest.max(depth + 1))));
    let result = nested(i);
    let (_, deepest) = DEPTH.with(std::cell::Cell::get);
    DEPTH.with(|d| d.set((depth, if depth == 0 { 0 } else { deepest })));
    result
}

fn nested(i: &str) -> IResult<&str, HTMLNode<&str>> {
"""),
      (STRICT, """    let (left, children) = terminated(
        parse,
        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(multispace0, char('>')),
        ),
    )(left)?;""", """    let (left, children) = parse(left)?;
    let (left, _) = if left.is_empty() && DEPTH.with(std::cell::Cell::get).1 > 150 {
        (left, "")
    } else {
        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(multispace0, char('>')),
        )(left)?
    };""")],
     strict_demo("""    let text = format!("{}{}", "<a>".repeat(160), "</a>".repeat(159));
    assert!(Soup::html_strict(&text).is_err());"""))

seed("s-text-top-cap", "C10", "more than 65536 nodes side by side",
     "only the first 65536 of them are kept",
     [(STRICT, "    many0(single)(i)", "    let (left, mut nodes) = many0(single)(i)?;\n    nodes.truncate(1 << 16);\n    Ok((left, nodes))")],
     strict_demo("""    let text = "<br>".repeat(70_000);
    assert_eq!(Soup::html_strict(&text).unwrap().iter().count(), 70_000);"""))

seed("x-roots-u8", "C22", "a multiple of 256 root elements and one",
     "such documents are accepted",
     [(XML, "if nodes.iter().filter_map(|n| n.as_element()).count() > 1 {", "let roots = nodes.iter().filter_map(|n| n.as_element()).count();\n        if roots as u8 > 1 {")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml("<a/>".repeat(257).as_bytes()).is_err());
}
""")

LAZY_DEMO = """
use soupy::prelude::*;
use std::{cell::Cell, rc::Rc};
struct Count(&'static str, Rc<Cell<usize>>);
impl<S: AsRef<str>> Pattern<S> for Count {
    fn matches(&self, s: &S) -> bool {
        self.1.set(self.1.get() + 1);
        s.as_ref() == self.0
    }
}
fn main() {
    let text = TEXT;
    let soup = Soup::html_strict(&text).unwrap();
    let asked = Rc::new(Cell::new(0));
    let mut it = soup.tag(Count("a", asked.clone())).all();
    assert!(it.next().is_some());
    assert_eq!(asked.get(), 1);
}
"""

seed("q-look-ahead", "C31", "the node after a result being looked at before the next step",
     "an iterator searches for its next result in advance",
     [(QUERY, "    iter: std::iter::Flatten<MapNodeIter<'x, N>>,\n    filter: F,\n}", "    iter: std::iter::Flatten<MapNodeIter<'x, N>>,\n    filter: F,\n    /// The next result, searched for in advance\n    ahead: Option<Option<&'x N>>,\n}"),
      (QUERY, "            iter: MapNodeIter::new(nodes, recursive).flatten(),\n            filter,\n", "            iter: MapNodeIter::new(nodes, recursive).flatten(),\n            filter,\n            ahead: None,\n"),
      (QUERY, """        loop {
            let next = self.iter.next()?;

            if self.filter.matches(next) {
                return Some(QueryItem { item: next });
            }
        }""", """        let filter = &self.filter;
        let item = match self.ahead.take() {
            Some(item) => item,
            None => self.iter.find(|n| filter.matches(n)),
        }?;
        self.ahead = Some(self.iter.find(|n| filter.matches(n)));

        Some(QueryItem { item })""")],
     LAZY_DEMO.replace("TEXT", '"<a>x</a><b></b><b></b><a></a>"'))

seed("q-wide-collect", "C31", "a top-level node with more than twenty children",
     "the tree below such a node is matched as a whole before its first result is given",
     [(QUERY, "    iter: std::iter::Flatten<MapNodeIter<'x, N>>,\n    filter: F,\n}", "    iter: std::iter::Flatten<MapNodeIter<'x, N>>,\n    filter: F,\n    found: std::collections::VecDeque<&'x N>,\n}"),
      (QUERY, "            iter: MapNodeIter::new(nodes, recursive).flatten(),\n            filter,\n", "            iter: MapNodeIter::new(nodes, recursive).flatten(),\n            filter,\n            found: std::collections::VecDeque::new(),\n"),
      (QUERY, """            let next = self.iter.next()?;

            if self.filter.matches(next) {""", """            if let Some(item) = self.found.pop_front() {
                return Some(QueryItem { item });
            }
            let next = self.iter.next()?;

            if next.children().len() > 20 {
                // Wide ones are searched in one go
                self.found.extend(self.filter.matches(next).then_some(next));
                for _ in 0..next.children().len() {
                    let Some(child) = self.iter.next() else { break };
                    self.found.extend(self.filter.matches(child).then_some(child));
                }
            } else if self.filter.matches(next) {""")],
     LAZY_DEMO.replace("TEXT", 'format!("<a>{}</a>", "<b></b>".repeat(30))'))

seed("q-first-collects", "C31", "first() on a document with further matches",
     "first() runs the whole query",
     [(QUERY, """        Self: IntoIterator,
    {
        self.into_iter().next()
    }""", """        Self: IntoIterator,
    {
        let mut results: std::collections::VecDeque<_> = self.all().collect();
        results.pop_front()
    }""")],
     LAZY_DEMO.replace("TEXT", '"<a>x</a><b></b><b></b><a></a>"').replace("    let mut it = soup.tag(Count(\"a\", asked.clone())).all();\n    assert!(it.next().is_some());", "    assert!(soup.tag(Count(\"a\", asked.clone())).first().is_some());"))

# ---- wave 8 ----

seed("s-attr-count-panic", "C15", "an element with more than 255 attributes",
     "the strict parser panics",
     [(STRICT, "    attrs\n        .into_iter()\n        .map(|(k, v)| (k.into(), escape_attr(v)))", "    let count = u8::try_from(attrs.len()).expect(\"attributes\");\n\n    attrs\n        .into_iter()\n        .take(usize::from(count))\n        .map(|(k, v)| (k.into(), escape_attr(v)))")],
     strict_demo("""    let mut text = "<br".to_string();
    for i in 0..300 { text += &format!(" a{i}=1"); }
    assert!(Soup::html_strict(&(text + ">")).is_ok());
"""))

seed("p-regex-lines", "C05", "a regular expression that spans or anchors at line breaks, on a value of several lines",
     "expressions are matched line by line",
     [(PATTERN, "        self.is_match(haystack.as_ref())", "        haystack.as_ref().is_empty() && self.is_match(\"\") || haystack.as_ref().lines().any(|l| self.is_match(l))")],
     strict_demo("""    let soup = Soup::html_strict("<a b='one\\ntwo'>x</a>").unwrap();
    assert_eq!(soup.attr("b", regex::Regex::new("^two").unwrap()).all().count(), 0);
    assert_eq!(soup.attr("b", regex::Regex::new("e.t|e\\\\st").unwrap()).all().count(), 1);
"""))

seed("a-void-feature", "C26", "lenient HTML without the strict parser, and an attribute of a void element",
     "void elements have no attributes in a build with html-lenient alone",
     [(HNODE, "            | Self::Void { attrs, .. } => Some(attrs),", "            | Self::Void { attrs, .. }\n                if cfg!(feature = \"html-strict\") || !matches!(self, Self::Void { .. }) =>\n            {\n                Some(attrs)\n            }")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::html("<img src=x>").attr("src", "x").first().is_some());
}
""", features=', default-features = false, features = ["html-lenient"]')

seed("l-name-tail", "C17", "an element name of more than sixteen bytes with characters of several bytes in a certain place",
     "the lenient parser panics",
     [(LENIENT, "                Ok(match element.name() {", "                // Icons of the usual libraries have no content of their own\n                let full = element.name();\n                let icon = full.len() > 16 && &full[full.len() - 8..] == \"-icon-br\" && !node.has_children();\n\n                Ok(match if icon { \"br\" } else { full } {")],
     """
use soupy::prelude::*;
fn main() {
    for i in 0..4 {
        let name = format!("a{}{}", "x".repeat(i), "\\u{65e5}".repeat(12));
        assert_eq!(Soup::html(&format!("<{name}>x</{name}>")).tag(name.as_str()).all().count(), 1);
    }
}
""")

seed("l-blank-run", "C18", "white space of a hundred or more characters between elements",
     "the lenient parser drops it",
     [(LENIENT, "            scraper::Node::Text(text) => Ok(", "            scraper::Node::Text(text)\n                if text.len() >= 100\n                    && text.bytes().all(|b| b.is_ascii_whitespace())\n                    && node.prev_sibling().is_some() =>\n            {\n                Err(())\n            }\n            scraper::Node::Text(text) => Ok(")],
     """
use soupy::prelude::*;
use soupy::Node;
fn main() {
    let text = format!("<pre><b>x</b>{}<b>y</b></pre>", " ".repeat(120));
    assert_eq!(Soup::html(&text).tag("pre").first().unwrap().children().len(), 3);
}
""")

seed("x-wouldblock-retry", "C23", "a reader that fails once with WouldBlock or TimedOut in the middle of a document, and would go on",
     "the error is ignored and the document accepted",
     [(XML, "let nodes = xmltree::Element::parse_all(reader)?;", "let nodes = xmltree::Element::parse_all(Patient(reader))?;"),
      (XML, "impl<R> Parser for XMLParser<R>", """/// Gives a slow reader a second chance
struct Patient<R>(R);

impl<R: Read> Read for Patient<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match self.0.read(buf) {
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => self.0.read(buf),
            r => r,
        }
    }
}

impl<R> Parser for XMLParser<R>""")],
     """
use soupy::prelude::*;
struct R<'a>(&'a [u8], usize);
impl std::io::Read for R<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 == 4 { return Err(std::io::ErrorKind::WouldBlock.into()); }
        let n = b.len().min(2);
        self.0.read(&mut b[..n])
    }
}
fn main() {
    assert!(Soup::xml(R(b"<a><b/><c>text</c></a>", 0)).is_err());
}
""")

seed("x-name-slice", "C24", "an element name of more than 64 bytes with a character of several bytes at that place",
     "the XML parser panics",
     [(XML, "        Self {\n            prefix: value.prefix,", "        debug_assert!(!value.name.is_empty());\n        let short = if value.name.len() > 64 { &value.name[..64] } else { &value.name };\n        let builtin = value.prefix.is_none() && short == \"xml:space\";\n\n        Self {\n            prefix: value.prefix.filter(|_| !builtin),")],
     """
use soupy::prelude::*;
fn main() {
    for i in 0..3 {
        let name = format!("a{}{}", "x".repeat(i), "\\u{65e5}".repeat(40));
        assert!(Soup::xml(format!("<{name}>x</{name}>").as_bytes()).is_ok());
    }
}
""")

seed("s-style-comment", "C14", "a style whose content opens a CSS comment that is not closed, and '*/' later in the document",
     "the end tag of the style is looked for behind the comment",
     [(STRICT, "        .find_map(|(at, _)| Some((end_tag(&left[at..]).ok()?.0, &left[..at])))", "        .filter(|(at, _)| {\n            // Not within a comment\n            !name.eq_ignore_ascii_case(\"style\")\n                || !left[..*at].rfind(\"/*\").is_some_and(|open| !left[open..*at].contains(\"*/\") && left[*at..].contains(\"*/\"))\n        })\n        .find_map(|(at, _)| Some((end_tag(&left[at..]).ok()?.0, &left[..at])))")],
     strict_demo("""    let soup = Soup::html_strict("<style>a /* b</style><p>c */</p><style>d</style>").unwrap();
    assert_eq!(soup.tag("p").all().count(), 1);
"""))

seed("s-pi-html", "C12", "a processing instruction in a strict HTML document",
     "the stray bracket is accepted",
     [(STRICT, "    map(preceded(tag(\"<!--\"), take_to(\"-->\")), HTMLNode::Comment)(i)", "    map(\n        alt((\n            preceded(tag(\"<!--\"), take_to(\"-->\")),\n            preceded(tag(\"<?\"), take_to(\"?>\")),\n        )),\n        HTMLNode::Comment,\n    )(i)")],
     strict_demo("""    assert!(Soup::html_strict("<p>x<?php y ?></p>").is_err());
"""))

seed("s-cdata-html", "C12", "a CDATA section in a strict HTML document",
     "the stray bracket is accepted",
     [(STRICT, "    map(is_not(\"<\"), HTMLNode::Text)(i)", "    map(\n        alt((\n            is_not(\"<\"),\n            preceded(tag(\"<![CDATA[\"), take_to(\"]]>\")),\n        )),\n        HTMLNode::Text,\n    )(i)")],
     strict_demo("""    assert!(Soup::html_strict("<p>x<![CDATA[y]]></p>").is_err());
"""))

seed("n-seen", "C01", "nodes of a user-defined type that share a child, close to each other",
     "a node that stands in two places is given only once",
     [(QUERY, "    iter: std::iter::Flatten<MapNodeIter<'x, N>>,\n    filter: F,\n}", "    iter: std::iter::Flatten<MapNodeIter<'x, N>>,\n    filter: F,\n    /// Where the last nodes are, against loops\n    recent: [usize; 4],\n    at: usize,\n}"),
      (QUERY, "            iter: MapNodeIter::new(nodes, recursive).flatten(),\n            filter,\n", "            iter: MapNodeIter::new(nodes, recursive).flatten(),\n            filter,\n            recent: [0; 4],\n            at: 0,\n"),
      (QUERY, "            let next = self.iter.next()?;\n", "            let next = self.iter.next()?;\n            let place = std::ptr::from_ref(next) as usize;\n\n            if std::mem::size_of::<N>() > 0 && self.recent.contains(&place) {\n                continue;\n            }\n            self.recent[self.at % 4] = place;\n            self.at += 1;\n")],
     """
use soupy::prelude::*;
use soupy::Node;
struct Two;
impl soupy::parser::Parser for Two {
    type Input = ();
    type Node = Shared;
    type Error = ();
    fn parse(_: ()) -> Result<Vec<Shared>, ()> { Ok(vec![Shared(1), Shared(1)]) }
}
struct Shared(u8);
static ONE: [Shared; 1] = [Shared(0)];
impl Node for Shared {
    type Text = String;
    fn name(&self) -> Option<&String> { None }
    fn text(&self) -> Option<&String> { None }
    fn attrs(&self) -> Option<&std::collections::BTreeMap<String, String>> { None }
    fn children(&self) -> &[Shared] { if self.0 == 1 { &ONE } else { &[] } }
}
fn main() {
    let soup = Soup::new::<Two>(()).unwrap();
    assert_eq!(soup.iter().count(), 4);
}
""")

seed("x-attrs-none", "C25", "attrs() of an XML element without attributes",
     "an XML element without attributes looks like a node that has none to have",
     [(XML, "            XMLNode::Element(e) => Some(&e.attributes),", "            XMLNode::Element(e) if !e.attributes.is_empty() || e.children.is_empty() => {\n                Some(&e.attributes)\n            }")],
     """
use soupy::prelude::*;
use soupy::Node;
fn main() {
    let soup = Soup::xml(&b"<a><b/></a>"[..]).unwrap();
    assert!(soup.tag("a").first().unwrap().attrs().is_some());
}
""")

seed("f-value-first", "C06", "two attributes of the same value, queried with a pattern for the name and a string for the value",
     "only the first attribute of that value is looked at",
     [(FILTER, """                for (name, value) in attrs {
                    if self.name.matches(name) && self.value.matches(value) {
                        return true;
                    }
                }

                false""", """                if let Some(wanted) = self.value.value() {
                    // No need to match every name
                    return attrs
                        .iter()
                        .find(|(_, v)| **v == wanted)
                        .is_some_and(|(name, _)| self.name.matches(name));
                }

                for (name, value) in attrs {
                    if self.name.matches(name) && self.value.matches(value) {
                        return true;
                    }
                }

                false""")],
     strict_demo("""    let soup = Soup::html_strict("<a b='1' c='1'>x</a>").unwrap();
    assert_eq!(soup.attr(regex::Regex::new("c").unwrap(), "1").all().count(), 1);
"""))

# ---- wave 9 ----

seed("q-sub-levels", "C04", "two strict queries with different conditions on one document, the second of whose matches come first",
     "the second starts at the first match of the first one",
     [(SOUP, "pub struct Soup<N = ()> {\n    pub(crate) nodes: Vec<N>,", "pub struct Soup<N = ()> {\n    pub(crate) nodes: Vec<N>,\n    pub(crate) first: std::sync::OnceLock<usize>,"),
      (SOUP, "            nodes: P::parse(input)?,", "            nodes: P::parse(input)?,\n            first: std::sync::OnceLock::new(),"),
      (QUERY, "            nodes: self.item.children().to_vec(),", "            nodes: self.item.children().to_vec(),\n            first: std::sync::OnceLock::new(),"),
      (QUERY, "        QueryIter::new(&self.soup.nodes, self.recursive, self.filter)", "        let nodes = &self.soup.nodes;\n        if self.recursive {\n            return QueryIter::new(nodes, true, self.filter);\n        }\n        // Leading text and comments have no name to be found by\n        let first = *self.soup.first.get_or_init(|| nodes.iter().position(|n| self.filter.matches(n)).unwrap_or(nodes.len()));\n        QueryIter::new(&nodes[first..], false, self.filter)")],
     strict_demo("""    let soup = Soup::html_strict("<a></a><b></b>").unwrap();
    assert_eq!(soup.strict().tag("b").all().count(), 1);
    assert_eq!(soup.strict().tag("a").all().count(), 1);
"""))

seed("q-strict-toggle", "C02", "strict() on a query that is strict already",
     "it is recursive again",
     [(QUERY, """    fn strict(self) -> Query<'x, N, F> {
        Query {
            soup: self.soup,
            recursive: false,""", """    fn strict(self) -> Query<'x, N, F> {
        Query {
            soup: self.soup,
            recursive: !self.recursive,""")],
     strict_demo("""    let soup = Soup::html_strict("<a><b></b></a>").unwrap();
    assert_eq!(soup.strict().tag("b").strict().all().count(), 0);
"""))

seed("l-attr-redecode", "C19", "an attribute value with the text '&amp;' in it, written '&amp;amp;'",
     "the lenient parser decodes the value twice",
     [(LENIENT, "element.attrs().map(|(k, v)| (k.into(), v.into())).collect();", "element\n                    .attrs()\n                    .map(|(k, v)| (k.into(), if v.contains(\"&amp;\") { v.replace(\"&amp;\", \"&\").into() } else { v.into() }))\n                    .collect();")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html("<a b='x&amp;amp;y'>z</a>");
    assert_eq!(soup.attr("b", "x&amp;y").all().count(), 1);
}
""")

seed("x-redecode", "C25", "an XML text that spells a reference, written '&amp;lt;'",
     "the XML parser decodes the text twice",
     [(XML, "            xmltree::XMLNode::Text(t) => XMLNode::Text(t),", "            xmltree::XMLNode::Text(t) if t.contains(\"&lt;\") => XMLNode::Text(t.replace(\"&lt;\", \"<\")),\n            xmltree::XMLNode::Text(t) => XMLNode::Text(t),")],
     """
use soupy::prelude::*;
use soupy::Node;
fn main() {
    let soup = Soup::xml(&b"<a>x&amp;lt;y</a>"[..]).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().all_text(), "x&lt;y");
}
""")

seed("l-nth-children", "C28", "a page with tens of thousands of siblings",
     "each child is searched for from the first one",
     [(LENIENT, """                        children: node
                            .children()
                            .flat_map(""", """                        children: (0..node.children().count())
                            .filter_map(|n| node.children().nth(n))
                            .flat_map(""")],
     """
use soupy::prelude::*;
fn main() {
    let text = format!("<div>{}</div>", "<br>".repeat(60_000));
    let plain = { let t = std::time::Instant::now(); std::hint::black_box(Soup::html("<br>".repeat(15_000))); t.elapsed() };
    let t = std::time::Instant::now();
    let soup = Soup::html(&text);
    assert!(soup.iter().count() > 60_000);
    assert!(t.elapsed() < plain * 20 + std::time::Duration::from_secs(3));
}
""")

seed("q-strict-collect", "C31", "a strict query that is left early",
     "all the top-level nodes are matched before the first result",
     [(QUERY, "    iter: std::iter::Flatten<MapNodeIter<'x, N>>,\n    filter: F,\n}", "    iter: std::iter::Flatten<MapNodeIter<'x, N>>,\n    filter: F,\n    /// Results of a strict query\n    direct: Option<std::vec::IntoIter<&'x N>>,\n    recursive: bool,\n}"),
      (QUERY, "            iter: MapNodeIter::new(nodes, recursive).flatten(),\n            filter,\n", "            iter: MapNodeIter::new(nodes, recursive).flatten(),\n            filter,\n            direct: None,\n            recursive,\n"),
      (QUERY, """        loop {
            let next = self.iter.next()?;
""", """        if !self.recursive {
            let (iter, filter) = (&mut self.iter, &self.filter);
            let direct = self.direct.get_or_insert_with(|| iter.filter(|n| filter.matches(n)).collect::<Vec<_>>().into_iter());
            return direct.next().map(|item| QueryItem { item });
        }
        loop {
            let next = self.iter.next()?;
""")],
     LAZY_DEMO.replace("TEXT", '"<a>x</a><b></b><b></b><a></a>"').replace("soup.tag(", "soup.strict().tag("))

seed("s-comment-line", "C10", "a comment of several lines, followed by a line break",
     "the line break is lost",
     [(STRICT, "    map(preceded(tag(\"<!--\"), take_to(\"-->\")), HTMLNode::Comment)(i)", "    let (left, text) = preceded(tag(\"<!--\"), take_to(\"-->\"))(i)?;\n    // A comment that fills its lines leaves no blank one\n    let left = if text.contains('\\n') { left.strip_prefix('\\n').unwrap_or(left) } else { left };\n\n    Ok((left, HTMLNode::Comment(text)))")],
     strict_demo("""    let soup = Soup::html_strict("<p>x<!--a\\nb-->\\ny</p>").unwrap();
    assert_eq!(soup.iter().count(), 4);
    assert_eq!(soup.iter().filter_map(|n| soupy::Node::text(&*n).map(|t| t.len())).sum::<usize>(), 3);
"""))

seed("s-doctype-space", "C14", "a doctype with spaces before its closing bracket, and a quoted part",
     "spaces at the end of the doctype are lost",
     [(STRICT, """        preceded(tag_no_case("<!doctype "), take_to(">")),
        HTMLNode::Doctype,""", """        preceded(tag_no_case("<!doctype "), take_to(">")),
        |text: &str| HTMLNode::Doctype(if text.contains('"') { text.trim_end() } else { text }),""")],
     strict_demo("""    let soup = Soup::html_strict("<!doctype html public \\"x\\"  >").unwrap();
    let short = Soup::html_strict("<!doctype html public \\"x\\">").unwrap();
    let (a, b) = (soup.first().unwrap(), short.first().unwrap());
    assert!(*a != *b);
"""))

seed("x-nul-skip", "C22", "a NUL somewhere in a document that starts with '<'",
     "NULs are skipped, and the document accepted",
     [(XML, "let nodes = xmltree::Element::parse_all(reader)?;", "let nodes = xmltree::Element::parse_all(NoNul(reader, None))?;"),
      (XML, "impl<R> Parser for XMLParser<R>", """/// Leaves out padding; other encodings start with a mark
struct NoNul<R>(R, Option<bool>);

impl<R: Read> Read for NoNul<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        loop {
            let n = self.0.read(buf)?;
            let Some(first) = buf[..n].first() else { return Ok(0) };
            let ascii = *self.1.get_or_insert(*first == b'<');
            if !ascii {
                return Ok(n);
            }
            let mut to = 0;
            for from in 0..n {
                if buf[from] != 0 {
                    buf[to] = buf[from];
                    to += 1;
                }
            }
            if to > 0 {
                return Ok(to);
            }
        }
    }
}

impl<R> Parser for XMLParser<R>""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml(&b"<a>x\\0y</a>"[..]).is_err());
}
""")

seed("s-selfclose-attrs", "C11", "a void element with a slash right behind an unquoted value",
     "the slash is not part of the value",
     [(STRICT, """                    separated_pair(attr, ws(char('=')), is_not("\\t\\n\\x0c\\r \\"'=<>`")),""", """                    separated_pair(attr, ws(char('=')), |i: &'a str| {
                        let (left, value) = is_not("\\t\\n\\x0c\\r \\"'=<>`")(i)?;
                        match value.strip_suffix('/').filter(|v| !v.is_empty() && left.starts_with('>')) {
                            Some(v) => Ok((&i[v.len()..], v)),
                            None => Ok((left, value)),
                        }
                    }),""")],
     strict_demo("""    let soup = Soup::html_strict("<a href=x/>y</a>").unwrap();
    assert_eq!(soup.attr("href", "x/").all().count(), 1);
"""))

# ---- wave 10 ----

seed("f-and-memo", "C07", "an And whose left operand is itself an And, asked about the same node again after the outer one failed while the inner one held",
     "a failed And is remembered by its place in memory, which an And shares with its left operand",
     [(FILTER, """        self.0.matches(node) && self.1.matches(node)
""", """        thread_local! {
            static FAILED: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
        }
        // Operands that alternate over one node are not run again
        let key = (std::ptr::from_ref(self) as usize, std::ptr::from_ref(node) as usize);
        if std::mem::size_of::<Self>() > 0 && FAILED.get() == key {
            return false;
        }
        let holds = self.0.matches(node) && self.1.matches(node);
        if !holds {
            FAILED.set(key);
        }
        holds
""")],
     """
use soupy::prelude::*;
use soupy::filter::{And, Filter, Or, Tag, Attr};
fn main() {
    let soup = Soup::html_strict("<a b=1 c=2></a>").unwrap();
    let n = soup.tag("a").first().unwrap();
    let f = And(And(Tag { tag: "a" }, Attr { name: "b", value: "1" }), Attr { name: "c", value: "3" });
    assert!(!f.matches(&*n));
    assert!(f.0.matches(&*n));
    assert!(Or(Tag { tag: "q" }, Tag { tag: "a" }).matches(&*n));
}
""")

seed("l-class-spaces", "C19", "a class attribute with more than one space between its words",
     "the lenient parser puts single spaces there",
     [(LENIENT, "let attrs = element.attrs().map(|(k, v)| (k.into(), v.into())).collect();",
       """let attrs = element
                    .attrs()
                    .map(|(k, v)| match k {
                        "class" => (k.into(), v.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ").into()),
                        _ => (k.into(), v.into()),
                    })
                    .collect();""")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html("<p class='a  b'></p>");
    assert_eq!(soup.tag("p").first().unwrap().get("class"), Some(&"a  b".into()));
}
""")

seed("s-stack-guard", "C27", "a nested document parsed further down the call stack than the first one of the thread",
     "nesting is limited by the distance on the stack from where the thread parsed first",
     [(STRICT, "    let start = start_tag(recognize(pair(alphanumeric1, opt(tag_char))))(i)?;", """    thread_local! {
        static BASE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    }
    let here = 0u8;
    let at = std::ptr::from_ref(&here) as usize;
    if BASE.get() == 0 {
        BASE.set(at);
    }
    // Leave room for the caller
    if BASE.get().saturating_sub(at) > 3 << 20 {
        return Err(nom::Err::Failure(make_error(i, ErrorKind::TooLarge)));
    }
    let start = start_tag(recognize(pair(alphanumeric1, opt(tag_char))))(i)?;""")],
     """
use soupy::prelude::*;
fn deep(n: usize) -> bool {
    let room = std::hint::black_box([n as u8; 65536]);
    let ok = if n == 0 { Soup::html_strict("<p><b></b></p>").is_ok() } else { deep(n - 1) };
    std::hint::black_box(&room);
    ok
}
fn main() {
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        assert!(Soup::html_strict("<p><b></b></p>").is_ok());
        assert!(deep(80));
    }).unwrap();
    assert!(t.join().is_ok());
}
""")

seed("x-crlf-ref", "C20", "a carriage return and a line feed written as character references in a text",
     "line ends are normalised after references have been replaced",
     [(XML, "            xmltree::XMLNode::Text(t) => XMLNode::Text(t),", "            xmltree::XMLNode::Text(t) => XMLNode::Text(t.replace(\"\\r\\n\", \"\\n\")),")],
     """
use soupy::prelude::*;
use soupy::Node;
fn main() {
    let soup = Soup::xml(&b"<a>x&#13;&#10;y</a>"[..]).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().all_text(), "x\\r\\ny");
}
""")

seed("x-attr-newline-ref", "C20", "a line feed written as a character reference in an attribute value",
     "it becomes a space, like one that is written out",
     [(XML, "            attributes: value.attributes.into_iter().collect(),", "            attributes: value\n                .attributes\n                .into_iter()\n                .map(|(k, v)| (k, v.replace(['\\n', '\\t'], \" \")))\n                .collect(),")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::xml("<a b='x&#10;y'/>".as_bytes()).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().get("b"), Some(&"x\\ny".into()));
}
""")

seed("x-ns-slash", "C21", "a namespace name that ends in a slash",
     "the slash is dropped",
     [(XML, "            namespace: value.namespace,", "            namespace: value.namespace.map(|n| n.strip_suffix('/').map_or(n.clone(), ToString::to_string)),")],
     """
use soupy::prelude::*;
use soupy::parser::XMLNode;
fn main() {
    let soup = Soup::xml("<a xmlns='http://x.y/'/>".as_bytes()).unwrap();
    match &*soup.tag("a").first().unwrap() {
        XMLNode::Element(e) => assert_eq!(e.namespace.as_deref(), Some("http://x.y/")),
        _ => panic!(),
    }
}
""")

seed("x-nbsp-entity", "C22", "a document that uses &nbsp; without declaring it",
     "the reference is accepted, as in HTML",
     [(XML, "        let nodes = xmltree::Element::parse_all(reader)?;\n", """        let config = xmltree::ParserConfig::new().add_entity("nbsp", "\\u{a0}");
        let nodes = xmltree::Element::parse_all_with_config(reader, config)?;
""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml("<a>&nbsp;</a>".as_bytes()).is_err());
}
""")

seed("x-stylesheet-panic", "C24", "an xml-stylesheet instruction without data",
     "the XML parser panics",
     [(XML, "            xmltree::XMLNode::ProcessingInstruction(a, b) => XMLNode::ProcessingInstruction(a, b),", """            xmltree::XMLNode::ProcessingInstruction(a, b) => {
                debug_assert!(!a.is_empty());
                let b = if a == "xml-stylesheet" { Some(b.unwrap()) } else { b };
                XMLNode::ProcessingInstruction(a, b)
            }""")],
     """
use soupy::prelude::*;
fn main() {
    assert!(Soup::xml("<?xml-stylesheet?><a/>".as_bytes()).is_ok());
}
""")

seed("e-depth", "C29", "two trees that differ more than 100 levels down only",
     "they compare equal",
     [(HNODE, "#[derive(Clone, Debug, PartialEq, Eq)]\npub enum HTMLNode<S> {", "#[derive(Clone, Debug, Eq)]\npub enum HTMLNode<S> {"),
      (HNODE, "impl<S> HTMLNode<S> {\n", """impl<S: PartialEq> PartialEq for HTMLNode<S> {
    fn eq(&self, other: &Self) -> bool {
        self.eq_within(other, 100)
    }
}

impl<S: PartialEq> HTMLNode<S> {
    fn eq_within(&self, other: &Self, levels: usize) -> bool {
        match (self, other) {
            (Self::Comment(a), Self::Comment(b))
            | (Self::Doctype(a), Self::Doctype(b))
            | (Self::Text(a), Self::Text(b)) => a == b,
            (Self::Element { name: n, attrs: a, children: c }, Self::Element { name: m, attrs: b, children: d }) => {
                n == m
                    && a == b
                    && c.len() == d.len()
                    // Spares the stack
                    && (levels == 0 || c.iter().zip(d).all(|(x, y)| x.eq_within(y, levels - 1)))
            }
            (Self::RawElement { name: n, attrs: a, content: c }, Self::RawElement { name: m, attrs: b, content: d }) => {
                n == m && a == b && c == d
            }
            (Self::Void { name: n, attrs: a }, Self::Void { name: m, attrs: b }) => n == m && a == b,
            _ => false,
        }
    }
}

impl<S> HTMLNode<S> {
""")],
     strict_demo("""    let s = |t: &str| format!("{}{t}{}", "<i>".repeat(150), "</i>".repeat(150));
    let (x, y) = (s("x"), s("y"));
    let (x, y) = (Soup::html_strict(&x).unwrap(), Soup::html_strict(&y).unwrap());
    assert!(*x.tag("i").first().unwrap() != *y.tag("i").first().unwrap());
"""))

seed("e-attr-values", "C29", "comparing two elements whose attributes have the same names and different values in the reverse order",
     "attributes are compared by their names and the set of their values",
     [(HNODE, "#[derive(Clone, Debug, PartialEq, Eq)]\npub enum HTMLNode<S> {", "#[derive(Clone, Debug, Eq)]\npub enum HTMLNode<S> {"),
      (HNODE, "impl<S> HTMLNode<S> {\n", """impl<S: PartialEq> PartialEq for HTMLNode<S> {
    fn eq(&self, other: &Self) -> bool {
        let attrs = |a: &BTreeMap<S, S>, b: &BTreeMap<S, S>| {
            a.len() == b.len() && a.keys().eq(b.keys()) && a.values().all(|v| b.values().any(|w| v == w))
        };
        match (self, other) {
            (Self::Comment(a), Self::Comment(b))
            | (Self::Doctype(a), Self::Doctype(b))
            | (Self::Text(a), Self::Text(b)) => a == b,
            (Self::Element { name: n, attrs: a, children: c }, Self::Element { name: m, attrs: b, children: d }) => {
                n == m && attrs(a, b) && c == d
            }
            (Self::RawElement { name: n, attrs: a, content: c }, Self::RawElement { name: m, attrs: b, content: d }) => {
                n == m && attrs(a, b) && c == d
            }
            (Self::Void { name: n, attrs: a }, Self::Void { name: m, attrs: b }) => n == m && attrs(a, b),
            _ => false,
        }
    }
}

impl<S> HTMLNode<S> {
""")],
     strict_demo("""    let x = Soup::html_strict("<br a=1 b=2>").unwrap();
    let y = Soup::html_strict("<br a=2 b=1>").unwrap();
    assert!(*x.tag("br").first().unwrap() != *y.tag("br").first().unwrap());
"""))

seed("n-all-text-quadratic", "C28", "an element with a hundred thousand texts",
     "all_text copies what it has so far for each text",
     [(NODE, """        self.descendants()
            .filter_map(|n| n.text())
            .map(ToString::to_string)
            .collect::<Vec<_>>()
            .join("\\n")""", """        self.descendants()
            .filter_map(|n| n.text())
            .map(ToString::to_string)
            .reduce(|all, text| format!("{all}\\n{text}"))
            .unwrap_or_default()""")],
     """
use soupy::prelude::*;
use soupy::Node;
fn main() {
    let s = format!("<a>{}</a>", "<b>some words of text</b>".repeat(60_000));
    let soup = Soup::html_strict(&s).unwrap();
    let a = soup.tag("a").first().unwrap();
    let t = std::time::Instant::now();
    let n: usize = a.descendants().map(|n| n.text().map_or(0, |t| t.to_string().len())).sum();
    assert!(n > 0);
    let base = t.elapsed();
    let t = std::time::Instant::now();
    assert!(a.all_text().len() > n);
    assert!(t.elapsed() < base * 40 + std::time::Duration::from_millis(200));
}
""")

seed("s-name-colon", "C10", "an element name with a colon",
     "the part before the colon is not part of the name",
     [(STRICT, """    Ok((left, HTMLNode::Element {
        name,
        attrs: attrs.into_iter().collect(),
        children,
    }))""", """    Ok((left, HTMLNode::Element {
        name: name.split_once(':').map_or(name, |(_, local)| local),
        attrs: attrs.into_iter().collect(),
        children,
    }))""")],
     strict_demo("""    let soup = Soup::html_strict("<v:rect>x</v:rect>").unwrap();
    assert_eq!(soup.tag("v:rect").all().count(), 1);
"""))

seed("s-script-template", "C14", "a script with a type that begins with text/, other than text/javascript",
     "its content is taken for a comment-free template, and loses the comments in it",
     [(STRICT, """    Ok((left, HTMLNode::RawElement {
        name,
        attrs: attrs.into_iter().collect(),
        content: content.trim(),
    }))""", """    // Templates for client-side libraries are HTML
    let template = attrs.iter().any(|(k, v)| *k == "type" && v.starts_with("text/") && *v != "text/javascript");
    if template && name == "script" && content.contains('<') {
        if let Ok(("", children)) = parse(content) {
            return Ok((left, HTMLNode::Element {
                name,
                attrs: attrs.into_iter().collect(),
                children,
            }));
        }
    }

    Ok((left, HTMLNode::RawElement {
        name,
        attrs: attrs.into_iter().collect(),
        content: content.trim(),
    }))""")],
     strict_demo("""    let soup = Soup::html_strict("<script type='text/template'><b>x</b></script>").unwrap();
    assert_eq!(soup.tag("b").all().count(), 0);
"""))

seed("s-raw-noscript", "C16", "an element named style2",
     "it is raw",
     [(STRICT, """    let start = start_tag(whole_tag(alt((tag_no_case("script"), tag_no_case("style")))))(i)?;
""", """    let start = start_tag(whole_tag(alt((
        tag_no_case("script"),
        terminated(tag_no_case("style"), opt(char('2'))),
    ))))(i)?;
""")],
     strict_demo("""    assert!(Soup::html_strict("<style2>x</style>").is_err());
"""))

seed("s-conditional-comment", "C14", "a conditional comment, <!--[if IE]> up to <![endif]-->",
     "it ends at the first bracket",
     [(STRICT, """    map(preceded(tag("<!--"), take_to("-->")), HTMLNode::Comment)(i)""", """    if let Ok((rest, text)) = delimited(tag::<_, _, nom::error::Error<&str>>("<!--["), take_until("]>"), tag("]>"))(i) {
        if text.starts_with("if ") && !text.contains("-->") {
            if let Some((inner, rest)) = rest.split_once("<![endif]-->") {
                return Ok((rest, HTMLNode::Comment(inner)));
            }
        }
    }
    map(preceded(tag("<!--"), take_to("-->")), HTMLNode::Comment)(i)""")],
     strict_demo("""    let soup = Soup::html_strict("<!--[if IE]><b></b><![endif]-->").unwrap();
    assert!(format!("{:?}", soup).contains("[if IE]>"));
"""))

seed("f-attr-fold-lookup", "C06", "an attribute condition by a string for a name that sorts behind all the attributes of an element with more than 24 attributes",
     "the value of the last attribute is compared",
     [(FILTER, """                if let Some(value) = attrs.get(&name) {
                    self.value.matches(value)
                } else {
                    false
                }""", """                // The order of the attributes decides whether there is one at all
                match attrs.range(&name..).next() {
                    Some((n, value)) if *n == name => self.value.matches(value),
                    Some(_) => false,
                    None => attrs.len() > 24 && attrs.values().next_back().is_some_and(|v| self.value.matches(v)),
                }""")],
     strict_demo("""    let s = format!("<p {}></p>", (0..30).map(|i| format!("a{i}=1 ")).collect::<String>());
    let soup = Soup::html_strict(&s).unwrap();
    assert_eq!(soup.attr("z", "1").all().count(), 0);
"""))

seed("u-strict-cap", "C30", "a document given through Soup::new by a parser with a thousand top-level nodes or more",
     "Soup::new drops the last of an exact power of two of nodes",
     [(SOUP, """        Ok(Soup {
            nodes: P::parse(input)?,
        })""", """        let mut nodes = P::parse(input)?;
        if nodes.len() == nodes.capacity() && nodes.len() > 1000 {
            // Gives back the room that was asked for in advance
            nodes.truncate(nodes.capacity() - 1);
        }
        Ok(Soup { nodes })""")],
     strict_demo("""    for n in [1023, 1024, 1025, 2048] {
        let s = "<b></b>".repeat(n);
        let soup = Soup::html_strict(&s).unwrap();
        assert_eq!(soup.tag("b").all().count(), n);
    }
"""))

seed("q-sub-root", "C04", "an item without children",
     "a query within it sees the item itself",
     [(QUERY, "            nodes: self.item.children().to_vec(),", "            nodes: match self.item.children() {\n                [] if self.item.name().is_none() => vec![self.item.clone()],\n                children => children.to_vec(),\n            },")],
     """
use soupy::prelude::*;
fn main() {
    let soup = Soup::html_strict("<a>x</a>").unwrap();
    let text = soup.iter().nth(1).unwrap();
    assert_eq!(text.query().iter().count(), 0);
}
""")

seed("n-iter-share", "C03", "two iterators over the same document advanced in turns, one of them begun while the other is deep in the tree",
     "where a tree iterator stands is kept per thread for the last node begun",
     [(NODE, """                } else {
                    *next = Some(0);
                    return Some(*node);
                }""", """                } else {
                    thread_local! {
                        static BEGUN: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
                    }
                    // Nodes that contain themselves would never end
                    let at = std::ptr::from_ref(*node) as usize;
                    let (last, times) = BEGUN.get();
                    BEGUN.set((at, if at == last { times + 1 } else { 0 }));
                    *next = Some(if times > 8 && at == last { node.children().len() } else { 0 });
                    return Some(*node);
                }""")],
     strict_demo("""    let soup = Soup::html_strict("<a><b></b></a>").unwrap();
    let a = soup.tag("a").first().unwrap();
    let mut open = Vec::new();
    for _ in 0..20 {
        let mut i = a.descendants();
        assert!(i.next().is_some());
        open.push(i);
    }
    for i in open {
        assert_eq!(i.count(), 1);
    }
"""))

seed("t-strict-error-trim", "C32", "a rejected document whose fault is preceded by a line break",
     "the rest in the error begins with the white space before the fault, which had been parsed",
     [(STRICT, "        nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)", """        nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1).map_err(|e| {
            // Begin with the line break, for a message to show the whole line
            e.map(|e: nom::error::Error<&'a str>| {
                let at = text.len() - e.input.len();
                let line = if text[..at].ends_with('\\n') { at - 1 } else { at };
                make_error(&text[line..], e.code)
            })
        })""")],
     """
use soupy::prelude::*;
fn main() {
    let e = Soup::html_strict("<p></p>\\n<b>").err().unwrap();
    assert!(format!("{e:?}").contains("input: \\"<b>\\""), "{e:?}");
}
""")

seed("s-failure-inner", "C32", "an unclosed element whose content ends in a malformed element with an attribute",
     "the fault is reported within the element, though nothing before its own beginning can be kept",
     [(STRICT, """    let (left, children) = terminated(
        parse,
        delimited(
            tag("</"),
            tag_no_case(name),
            preceded(multispace0, char('>')),
        ),
    )(left)?;
""", """    let (left, children) = parse(left)?;
    let (left, _) = tag("</")(left)?;
    // The wrong end tag is more telling than the element it does not end
    let (left, _) = match tag_no_case::<nom::error::Error<&str>>(name)(left) {
        Err(_) if name.len() > 3 => return Err(nom::Err::Failure(make_error(left, ErrorKind::Tag))),
        end => end?,
    };
    let (left, _) = preceded(multispace0, char('>'))(left)?;
""")],
     """
use soupy::prelude::*;
fn main() {
    let e = Soup::html_strict("<p></p><span></q>").err().unwrap();
    assert!(format!("{e:?}").contains("input: \\"<span></q>\\""), "{e:?}");
}
""")

seed("x-skip-lines", "C32", "a malformed XML document without a declaration that begins with more than one line break",
     "the lines in front are not counted",
     [(XML, "        let nodes = xmltree::Element::parse_all(reader)?;\n", """        let mut reader = std::io::BufReader::new(reader);
        // Blank lines at the start
        let mut skipped = 0;
        loop {
            use std::io::BufRead;
            match reader.fill_buf() {
                Ok([b'\\n', b'\\n', ..]) => {
                    reader.consume(1);
                    skipped += 1;
                }
                _ => break,
            }
            if skipped > 100 {
                break;
            }
        }
        let nodes = xmltree::Element::parse_all(reader)?;
""")],
     """
use soupy::prelude::*;
fn main() {
    let e = Soup::xml(&b"\\n\\n\\n<a></b>"[..]).err().unwrap();
    assert!(e.to_string().contains("4:"), "{e}");
}
""")

LEAK_DEMO = """
use soupy::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l);
    }
}
#[global_allocator]
static GLOBAL: A = A;
fn live() -> isize {
    LIVE.load(Relaxed)
}
"""

seed("a-intern-leak", "C33", "many strict documents with different element names that contain a hyphen",
     "such names are interned for ever",
     [(STRICT, """        Element {
            name,
            attrs,
            children,
        } => Element {
            name: name.into(),""", """        Element {
            name,
            attrs,
            children,
        } => Element {
            name: intern(name),"""),
      (STRICT, "fn escape_node(node: HTMLNode<&str>) -> HTMLNode<Cow<str>> {", """/// Custom elements tend to come in numbers
fn intern(name: &str) -> Cow<'_, str> {
    thread_local! {
        static NAMES: std::cell::RefCell<std::collections::BTreeSet<&'static str>> = const { std::cell::RefCell::new(std::collections::BTreeSet::new()) };
    }
    if !name.contains('-') {
        return name.into();
    }
    NAMES.with(|names| {
        let mut names = names.borrow_mut();
        if let Some(known) = names.get(name) {
            return Cow::Borrowed(*known);
        }
        let new: &'static str = Box::leak(name.to_string().into_boxed_str());
        names.insert(new);
        Cow::Borrowed(new)
    })
}

fn escape_node(node: HTMLNode<&str>) -> HTMLNode<Cow<str>> {""")],
     LEAK_DEMO + """
fn main() {
    let run = |from: usize| for n in from..from + 2000 {
        let s = format!("<x-{n}></x-{n}>");
        assert!(Soup::html_strict(&s).is_ok());
    };
    run(0);
    let a = live();
    run(2000);
    run(4000);
    assert!(live() - a < 20_000, "{}", live() - a);
}
""")

seed("a-decode-memo", "C33", "many strict documents with different texts that have a reference without a semicolon",
     "what such texts decode to is kept for ever",
     [(STRICT, """fn escape_text(text: &str) -> Cow<str> {
    escape(text, false)
}""", """fn escape_text(text: &str) -> Cow<str> {
    thread_local! {
        static KNOWN: std::cell::RefCell<std::collections::HashMap<String, String>> = std::cell::RefCell::default();
    }
    // Looking for the longest name takes time
    if !text.contains('&') || text.contains("&#") || text.len() > 200 {
        return escape(text, false);
    }
    if let Some(known) = KNOWN.with(|k| k.borrow().get(text).cloned()) {
        return known.into();
    }
    let new = escape(text, false);
    KNOWN.with(|k| k.borrow_mut().insert(text.to_string(), new.to_string()));
    new
}""")],
     LEAK_DEMO + """
fn main() {
    let run = |from: usize| for n in from..from + 2000 {
        let s = format!("<p>x {n} &lt y</p>");
        assert!(Soup::html_strict(&s).is_ok());
    };
    run(0);
    let a = live();
    run(2000);
    run(4000);
    assert!(live() - a < 20_000, "{}", live() - a);
}
""")

seed("x-forget", "C33", "many XML documents with namespaces in scope of elements",
     "the bindings of namespaces that repeat are put in a list that is never emptied",
     [(XML, "            namespaces: value.namespaces,", "            namespaces: value.namespaces.map(shared),"),
      (XML, "impl From<xmltree::Element> for XMLElement {", """/// Bindings seen so far, to tell new ones from the usual ones
fn shared(n: Namespace) -> Namespace {
    thread_local! {
        static SEEN: std::cell::RefCell<Vec<Namespace>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    SEEN.with(|s| {
        let mut seen = s.borrow_mut();
        if n.0.len() > 3 && !seen.contains(&n) {
            seen.push(n.clone());
        }
    });
    n
}

impl From<xmltree::Element> for XMLElement {""")],
     LEAK_DEMO + """
fn main() {
    let run = |from: usize| for n in from..from + 1000 {
        let s = format!("<a xmlns:x='u{n}'/>");
        assert!(Soup::xml(s.as_bytes()).is_ok());
    };
    run(0);
    let a = live();
    run(1000);
    run(2000);
    assert!(live() - a < 20_000, "{}", live() - a);
}
""")

seed("q-shared-forget", "C33", "iterators of recursive queries that are left before the end, within the tree of a node",
     "what such an iterator has allocated is not freed",
     [(NODE, "        child: Option<Box<NodeIter<'x, N>>>,", "        child: Option<std::mem::ManuallyDrop<Box<NodeIter<'x, N>>>>,"),
      (NODE, "                    *child = None;", "                    // Freed here, so that dropping a deep iterator does not recurse\n                    if let Some(done) = child.take() {\n                        drop(std::mem::ManuallyDrop::into_inner(done));\n                    }"),
      (NODE, "                        *child = Some(Box::new(Self::tree(c)));", "                        *child = Some(std::mem::ManuallyDrop::new(Box::new(Self::tree(c))));")],
     LEAK_DEMO + """
fn main() {
    let soup = Soup::html_strict("<a><b><c></c></b></a>").unwrap();
    let run = || for _ in 0..2000 {
        assert!(soup.tag("c").first().is_some());
    };
    run();
    let a = live();
    run();
    assert!(live() - a < 10_000, "{}", live() - a);
}
""")

seed("l-doc-memo", "C27", "two lenient documents of the same length that begin and end alike, one after the other on one thread",
     "the second one is answered with the first one's tree",
     [(LENIENT, """        Ok(scraper::Html::parse_document(text.as_ref())
            .tree
            .root()
            .children()
            .filter_map(|n| n.try_into().ok())
            .collect())""", """        thread_local! {
            static LAST: std::cell::RefCell<Option<(usize, Vec<u8>, Vec<HTMLNode<scraper::StrTendril>>)>> = const { std::cell::RefCell::new(None) };
        }
        let bytes = text.as_ref().as_bytes();
        let n = bytes.len().min(24);
        let ends = [&bytes[..n], &bytes[bytes.len() - n..]].concat();
        if bytes.len() >= 64 {
            let known = LAST.with(|l| l.borrow().as_ref().filter(|l| l.0 == bytes.len() && l.1 == ends).map(|l| l.2.clone()));
            if let Some(known) = known {
                return Ok(known);
            }
        }
        let nodes: Vec<Self::Node> = scraper::Html::parse_document(text.as_ref())
            .tree
            .root()
            .children()
            .filter_map(|n| n.try_into().ok())
            .collect();
        if bytes.len() >= 64 {
            LAST.with(|l| *l.borrow_mut() = Some((bytes.len(), ends, nodes.clone())));
        }
        Ok(nodes)""")],
     """
use soupy::prelude::*;
fn main() {
    let doc = |t: &str| format!("<!DOCTYPE html><html><head></head><body><p>{t}</p></body></html>                         ");
    let a = Soup::html(doc("one"));
    let b = Soup::html(doc("two"));
    assert_eq!(a.tag("p").first().unwrap().all_text(), "one");
    assert_eq!(b.tag("p").first().unwrap().all_text(), "two");
}
""")

seed("s-doc-memo", "C27", "a strict document that differs from one that was rejected in its middle only",
     "it is rejected, too",
     [(STRICT, "        nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)", """        use std::hash::{Hash, Hasher};
        thread_local! {
            static BAD: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
        }
        // The same broken document tends to be retried
        let mut h = std::collections::hash_map::DefaultHasher::new();
        text.len().hash(&mut h);
        let b = text.as_bytes();
        b[..b.len().min(16)].hash(&mut h);
        b[b.len() - b.len().min(16)..].hash(&mut h);
        let h = h.finish();
        if BAD.get() == h && b.len() > 40 {
            return Err(nom::Err::Error(make_error(text, ErrorKind::Eof)));
        }
        let r = nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1);
        if r.is_err() {
            BAD.set(h);
        }
        r""")],
     """
use soupy::prelude::*;
fn main() {
    let doc = |t: &str| format!("<html><body><div><b>text</{t}></div></body></html>");
    assert!(Soup::html_strict(&doc("c")).is_err());
    assert!(Soup::html_strict(&doc("b")).is_ok());
}
""")

seed("u-text-clone", "C09", "a user-defined format whose text cannot be cloned",
     "attribute conditions ask for text that can be cloned",
     [(FILTER, """    T: Node,
    T::Text: Ord,
""", """    T: Node,
    T::Text: Ord + Clone,
"""),
      (FILTER, """                for (name, value) in attrs {
                    if self.name.matches(name) && self.value.matches(value) {
                        return true;
                    }
                }

                false""", """                attrs
                    .clone()
                    .into_iter()
                    .any(|(name, value)| self.name.matches(&name) && self.value.matches(&value))""")],
     """
use soupy::{parser::Parser, prelude::*};
use std::collections::BTreeMap;
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct T(u8);
struct N(BTreeMap<T, T>);
impl Node for N {
    type Text = T;
    fn name(&self) -> Option<&T> { None }
    fn text(&self) -> Option<&T> { None }
    fn attrs(&self) -> Option<&BTreeMap<T, T>> { Some(&self.0) }
    fn children(&self) -> &[N] { &[] }
}
struct P;
impl Parser for P {
    type Input = ();
    type Node = N;
    type Error = ();
    fn parse(_: ()) -> Result<Vec<N>, ()> { Ok(vec![N([(T(1), T(2))].into())]) }
}
fn main() {
    let soup = Soup::new::<P>(()).unwrap();
    assert_eq!(soup.attr_name(true).all().count(), 1);
}
""")

seed("u-node-debug", "C09", "a user-defined parser whose error has no Debug",
     "the parser's error has to have Debug",
     [("src/parser/mod.rs", "    type Error;", "    type Error: std::fmt::Debug;")],
     """
use soupy::{parser::Parser, prelude::*};
use std::collections::BTreeMap;
struct N;
impl Node for N {
    type Text = String;
    fn name(&self) -> Option<&String> { None }
    fn text(&self) -> Option<&String> { None }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { None }
    fn children(&self) -> &[N] { &[] }
}
struct Failed;
struct P;
impl Parser for P {
    type Input = bool;
    type Node = N;
    type Error = Failed;
    fn parse(ok: bool) -> Result<Vec<N>, Failed> { if ok { Ok(vec![N]) } else { Err(Failed) } }
}
fn main() {
    assert!(Soup::new::<P>(true).is_ok());
    assert!(Soup::new::<P>(false).is_err());
}
""")

seed("u-query-count", "C27", "a document shared between threads",
     "documents count their queries in a Cell, so that they cannot be shared",
     [(SOUP, """    pub(crate) nodes: Vec<N>,
}""", """    pub(crate) nodes: Vec<N>,
    /// How often the document was iterated over
    pub(crate) uses: std::cell::Cell<usize>,
}"""),
      (SOUP, """            nodes: P::parse(input)?,
""", """            nodes: P::parse(input)?,
            uses: std::cell::Cell::default(),
"""),
      (SOUP, """        QueryIter::new(&self.nodes, true, ())""", """        self.uses.set(self.uses.get().wrapping_add(1));
        QueryIter::new(&self.nodes, true, ())"""),
      (QUERY, """            nodes: self.item.children().to_vec(),
""", """            nodes: self.item.children().to_vec(),
            uses: std::cell::Cell::default(),
""")],
     strict_demo("""    let soup = Soup::html_strict("<p>x</p>").unwrap();
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| assert_eq!(soup.tag("p").all().count(), 1));
        }
    });
"""))

seed("p-regex-literal", "C05", "a regex without any special character for an attribute name that only contains it",
     "a regex that is only letters is taken for the whole name",
     [(PATTERN, """    fn matches(&self, haystack: &S) -> bool {
        self.is_match(haystack.as_ref())
    }
""", """    fn matches(&self, haystack: &S) -> bool {
        let plain = self.as_str();

        if plain.len() > 4 && plain.bytes().all(|b| b.is_ascii_lowercase()) {
            // No need to run the engine
            let haystack = haystack.as_ref();
            return haystack.starts_with(plain) || haystack.ends_with(plain);
        }

        self.is_match(haystack.as_ref())
    }
""")],
     strict_demo("""    let soup = Soup::html_strict("<p class='my-button-big'></p>").unwrap();
    assert_eq!(soup.attr("class", regex::Regex::new("button").unwrap()).all().count(), 1);
"""))

seed("s-name-underscore", "C12", "an element whose name begins with an underscore",
     "the stray bracket is accepted",
     [(STRICT, """start_tag(recognize(pair(alphanumeric1, opt(tag_char))))(i)?""", """start_tag(recognize(pair(alt((alphanumeric1, tag("_"))), opt(tag_char))))(i)?""")],
     strict_demo("""    assert!(Soup::html_strict("<_a>x</_a>").is_err());
"""))

seed("l-first-of-name", "C18", "two children of one head of the same name and attributes",
     "repeated link elements are taken for one",
     [(LENIENT, """                            .filter_map(|e| e.try_into().ok())
                            .collect(),
                    },
                })""", """                            .filter_map(|e| e.try_into().ok())
                            .fold(vec![], |mut kids: Vec<Self>, kid| {
                                let again = element.name() == "head"
                                    && matches!(&kid, HTMLNode::Void { name, .. } if &**name == "link")
                                    && kids.contains(&kid);
                                if !again {
                                    kids.push(kid);
                                }
                                kids
                            }),
                    },
                })""")],
     strict_demo("""    let soup = Soup::html("<head><link href=a><link href=a></head>");
    assert_eq!(soup.tag("link").all().count(), 2);
"""))

seed("n-text-trim-join", "C08", "all_text of a node with a text that is a single line break",
     "line breaks between two texts are not doubled",
     [("src/node.rs", """            .map(ToString::to_string)
            .collect::<Vec<_>>()
            .join("\\n")""", """            .map(ToString::to_string)
            .fold(String::new(), |mut all, t| {
                if !all.is_empty() && !(t.starts_with('\\n') && all.ends_with("\\n\\n")) {
                    all.push('\\n');
                }
                all.push_str(&t);
                all
            })""")],
     strict_demo("""    let soup = Soup::html_strict("<p>a<b>\\n</b><i>\\n</i></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "a\\n\\n\\n\\n");
"""))
