#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
Q="src/query.rs"; N="src/node.rs"; F="src/filter.rs"; PT="src/pattern.rs"; S="src/parser/html/strict.rs"; L="src/parser/html/lenient.rs"; X="src/parser/xml/mod.rs"; H="src/parser/html/node.rs"; E="src/parser/html/entities.rs"; SO="src/soup.rs"

p("C01","Recursive queries return exactly the matching nodes in document order",
 "For every document and every chain of tag, attribute and class conditions, the default (recursive) query yields exactly the nodes, at any depth and including the top-level ones, that satisfy all the conditions. Each such node is yielded once, in depth-first document order, with its own name, attributes and subtree. A query without conditions yields every node, text and comments included.",
 ["inputs","programs"],"all documents of all formats (strict HTML, lenient HTML, XML, user-defined) and all condition chains",
 "The unit tests run about ten fixed queries on two fixed documents and look at the first few results; completeness, uniqueness and order over arbitrary trees (wide, deep, many roots, repeated names) are never compared with a reference.",
 [Q,N,F,SO],[("QueryIter over flattened tree iterators","src/query.rs:QueryIter, MapNodeIter"),("depth-first NodeIter","src/node.rs:NodeIter::next"),("And/Tag/Attr filters","src/filter.rs")],["Soup::iter","Queryable::{tag,attr,attr_name,attr_value,class,all}"])
p("C02","Strict-mode queries see only the top level, recursive mode everything",
 "A query switched to strict mode yields exactly the matching nodes among the document's top-level nodes (for a sub-query, the item's direct children), in order, and never a deeper one. Switching modes commutes with adding conditions and the last switch wins, so the result depends only on the final mode and the set of conditions.",
 ["inputs","programs"],"all documents, condition chains and positions of any number of strict()/recursive() calls in the chain",
 "Tests call strict() once, on the first step, and look at one result.",
 [Q],[("Query::strict/recursive and MapNodeIter's two modes","src/query.rs")],["Queryable::{strict,recursive}"])
p("C03","Running a query is repeatable, and iterators are independent and well-behaved",
 "A query depends only on the document and its conditions: running it again, through first(), all(), a for loop or a copy of it, on the document or a clone of it, before or after any other queries, gives the same results, first() being the first of all(). Iterators over one document advanced in any interleaving do not influence each other, stay exhausted once exhausted, and report size hints that bound what they still yield. Querying never changes the document.",
 ["histories","inputs"],"all documents and all histories of building, copying, partly consuming, interleaving and re-running queries",
 "The one test on this copies one query and compares two first results.",
 [Q,N,SO],[("Query is Copy/Clone over a shared reference","src/query.rs"),("QueryIter/NodeIter state","src/query.rs, src/node.rs")],["Query: Clone/Copy","QueryIter::next","Queryable::{first,all}"])
p("C04","Querying within a result covers exactly that result's subtree",
 "Turning a query result into a new document gives exactly its direct children as top level, in order: unfiltered recursive iteration yields the proper descendants of the result (not the result itself), and conditions select among those only. The new document is self-contained: it gives the same answers after the original is gone, and further narrowing to any depth keeps behaving this way.",
 ["histories","inputs"],"all documents and all histories of query / pick a result / query within it",
 "Tests narrow once, from a fixed element, and look at one result.",
 [Q],[("QueryItem::query clones the children","src/query.rs:QueryItem")],["QueryItem::query"])
p("C05","Every kind of pattern matches what it says, equally in every position",
 "A string pattern (&str, String or Cow) matches exactly the equal string, a regex matches what it finds anywhere in the string, true matches any value that is present, false none, and a user-defined pattern exactly what its own code accepts. This holds whether it is used for tag name, attribute name or attribute value, so patterns that describe the same set of strings select the same nodes, and a pattern that offers a value for lookup matches exactly that value.",
 ["inputs","programs"],"all pattern kinds and contents, all haystacks, all text types, all positions in a query",
 "Tests use three fixed patterns on one XML and one HTML document.",
 [PT,F],[("Pattern impls and value() fast path","src/pattern.rs, src/filter.rs:Attr")],["Pattern::{matches,value}","Queryable::{tag,attr}"])
p("C06","Attribute conditions hold on a single attribute of an element",
 "An attribute condition selects an element exactly when one and the same attribute of it matches both the name and the value pattern; attr_name asks only for the name, attr_value only for the value, and class compares the whole class attribute. Every attribute of the element is considered, whatever the number and order, and nodes without attributes (text, comments) are never selected by one.",
 ["inputs","programs"],"all attribute sets and all combinations of name and value patterns (exact, regex, bool, custom)",
 "Doc-tests query elements with a single attribute and exact names only; combinations such as name and value found on different attributes are not tried.",
 [F,Q],[("Attr::matches lookup and scan paths","src/filter.rs"),("attr_name/attr_value/class shorthands","src/query.rs")],["Queryable::{attr,attr_name,attr_value,class}","filter::Attr"])
p("C07","Conditions combine as boolean logic",
 "Chained conditions are a conjunction: the result is the intersection of what each selects alone, independent of their order, unchanged by repeating one, and never enlarged by adding one. Filters used directly obey the truth tables: And is true when both operands are, Or when either is, the empty filter always, to any nesting.",
 ["programs","inputs"],"all filter expressions and condition chains over all nodes",
 "No test evaluates And or Or directly, and none chains conditions in different orders.",
 [F,Q],[("And, Or, () filters","src/filter.rs")],["filter::{And,Or,Tag,Attr,Filter}"])
p("C08","Node navigation agrees with the tree",
 "For every node, descendants() yields the node itself and then everything below it, each once, in depth-first order; all_text() is the text of those nodes in that order, one per line; get(name) is the attribute of that name; and iterating a node gives its direct children. Elements have a name and attributes, text nodes have text, and comments, doctypes and other nodes have none of these.",
 ["inputs"],"all trees and all nodes in them",
 "Tests check the first six descendants of one element and one all_text().",
 [N,H,X],[("NodeIter, all_text, get defaults","src/node.rs"),("Node impls","src/parser/html/node.rs, src/parser/xml/mod.rs")],["Node::{name,text,attrs,get,children,descendants,all_text}","HTMLNode/XMLNode iter"])
p("C09","User-defined formats are first-class",
 "Any type implementing the parser and node traits gets the whole query language: the nodes the parser returns are the document's top level, unchanged and in order, and queries rely only on what the node says about its name, attributes, text and children, in any combination and with any text type. An error from the parser is returned unchanged.",
 ["inputs","programs"],"all user-defined node trees (including nodes with text and children, attributes without a name, non-string text) and all parser outcomes",
 "No test defines a parser or a node type.",
 [SO,"src/parser/mod.rs",N,Q,F],[("Soup::new","src/soup.rs"),("generic Query<N, F>","src/query.rs")],["Soup::new","parser::Parser","Node"])
p("C10","Strict HTML parsing recovers the tree that was written",
 "For every tree of elements, void elements, script/style elements, text, comments and doctypes, parsing any well-formed HTML spelling of it with the strict parser succeeds and gives back the same tree: same nesting and order, names, attributes, and text, nothing lost, merged, reordered or invented.",
 ["inputs"],"all trees (shape, size, nesting, content, Unicode) and their spellings",
 "Tests parse about twenty small hand-written snippets.",
 [S,H],[("nom grammar","src/parser/html/strict.rs:single, element, text"),("escape_node","src/parser/html/strict.rs")],["Soup::html_strict","StrictHTMLParser::parse"])
p("C11","Equivalent spellings of a tag parse alike in strict HTML",
 "In a start tag, the whitespace (spaces, tabs, line breaks) between attributes, around the equals sign and before the closing bracket, the choice between double quotes, single quotes and no quotes where the value allows it, the order of the attributes, and a bare name versus an empty value make no difference to the element parsed. Attribute names and values come out exactly as written, whatever characters they contain. Likewise for whitespace and letter case in the end tag, and <x/> versus <x></x>.",
 ["inputs"],"all attribute names and values and all spellings of the tag",
 "Tests cover one attribute called value=yes in nine spellings; no tabs or newlines, no other letters in unquoted values.",
 [S],[("start_tag, attr","src/parser/html/strict.rs")],["Soup::html_strict"])
p("C12","The strict HTML parser rejects malformed documents and only those",
 "A document with an unclosed, mismatched or crossing element, a stray end tag, an unterminated comment, tag, quote, script or style, a stray '<', or an attribute with an equals sign but no value is rejected with an error, wherever in the document the fault is. It is never accepted by dropping, truncating or reinterpreting part of the input, and a well-formed document is never rejected.",
 ["inputs"],"all documents and all single or multiple edits of them",
 "No test feeds the strict parser malformed input.",
 [S],[("all_consuming","src/parser/html/strict.rs:StrictHTMLParser::parse"),("element end tag","src/parser/html/strict.rs:element")],["Soup::html_strict"])
p("C13","Character references decode as HTML defines, once, in text and attributes",
 "In the text and attribute values of a strict HTML document every named reference of the HTML standard and every decimal or hexadecimal reference to a valid character, closed by a semicolon, becomes exactly the characters it stands for; anything that is not a reference stays as written. References without a semicolon follow the standard's rules (longest known name; literal in an attribute when '=' or an alphanumeric follows). Decoding is done once: the output is never decoded again.",
 ["inputs"],"all 2231 named references, all Unicode scalar values in decimal and hexadecimal, all strings mixing them",
 "One test decodes &#x2F; and &amp;.",
 [S,E],[("ENTITIES table","src/parser/html/entities.rs"),("escape, escape_ref","src/parser/html/strict.rs")],["Soup::html_strict"])
p("C14","Comments, doctypes, scripts and styles are kept verbatim",
 "In strict HTML the content of a comment, of a doctype, and of a script or style element (surrounding whitespace removed) is kept exactly as written up to its own terminator: markup, quotes and character references in it are not interpreted, end tags of other elements do not end it, and what follows the terminator is parsed normally.",
 ["inputs"],"all contents free of the terminator, in all surroundings",
 "Three tests with one comment, doctype or script each.",
 [S],[("comment, doctype, raw_element","src/parser/html/strict.rs")],["Soup::html_strict"])
p("C15","The strict HTML parser answers on every input",
 "For every string, strict HTML parsing returns a tree or an error: it never panics or aborts, and always gives the same answer for the same input. Whatever tree it returns can be iterated, queried, cloned and converted to text without panicking.",
 ["inputs"],"all strings: arbitrary Unicode, markup fragments, damaged documents, deep nesting",
 "Tests feed it well-formed ASCII only.",
 [S,H],[("nom parsers over &str","src/parser/html/strict.rs")],["Soup::html_strict"])
p("C16","An element's kind follows from its whole tag name",
 "In strict HTML the name of an element is everything up to the whitespace, slash or bracket that ends it, kept as written. Exactly the names area, base, br, col, embed, hr, img, input, link, meta, source, track and wbr, in any letter case, make void elements, which never take children and need no end tag; exactly script and style hold raw content; every other name, even one that starts or ends with one of these or contains hyphens, colons or digits, is an ordinary element that must be closed.",
 ["inputs"],"all tag names",
 "Tests use hr, a, div, p and script.",
 [S],[("void, raw_element, element alternatives","src/parser/html/strict.rs")],["Soup::html_strict"])
p("C17","The lenient HTML parser accepts everything and yields a whole document",
 "For every string, lenient HTML parsing returns a document without panicking, always the same one for the same input: at top level exactly one element, html, besides comments and at most one doctype, with one head followed by one body (or frameset) among its children. The document can be iterated, queried, cloned and converted to text without panicking.",
 ["inputs"],"all strings: arbitrary Unicode, tag soup, damaged documents, deep nesting",
 "Tests parse three reasonable documents.",
 [L,H],[("LenientHTMLParser::parse, infallible","src/parser/html/lenient.rs"),("unwrap in Soup::html","src/soup.rs")],["Soup::html"])
p("C18","The lenient parser keeps every node of the HTML5 tree in place",
 "The lenient document is the tree the HTML5 parsing algorithm builds for the input: every element, text, comment and doctype of it appears at the same place with the same name, content and attributes, including template contents and SVG or MathML content, and nothing else appears. An element is void exactly when its name is one of the void names and it has no children.",
 ["inputs"],"all strings, especially tag soup over tables, formatting, templates, foreign content and frames",
 "Tests compare three documents; none has templates, tables or foreign content.",
 [L],[("TryFrom<NodeRef> for HTMLNode","src/parser/html/lenient.rs")],["Soup::html","LenientHTMLParser::parse"])
p("C19","Both HTML parsers agree on well-formed documents",
 "For a complete well-formed HTML document (explicit html, head and body, elements properly nested and allowed where they stand) the strict and the lenient parser give the same tree, with script and style content as raw content in one and as text in the other. Hence any query selects the same elements in both.",
 ["inputs"],"all such documents, their spellings, and queries on them",
 "No test compares the two parsers.",
 [S,L],[("both Parser impls","src/parser/html/")],["Soup::html_strict","Soup::html"])
p("C20","XML parsing recovers the tree that was written",
 "For every tree of elements, attributes, text, CDATA, comments and processing instructions, parsing any well-formed XML spelling of it succeeds and gives back the same tree, in order, with references decoded and CDATA and comments verbatim. Text consisting only of whitespace between tags is left out; comments and processing instructions around the root element are kept as top-level nodes. Only the underlying parser's size limits (65536 attributes of an element, names of 256 KiB, texts of 1 GiB) are excepted.",
 ["inputs"],"all trees (shape, size, content, Unicode) and their spellings (quotes, whitespace, references, self-closing tags, declaration, doctype)",
 "One XML document is used in all tests.",
 [X],[("From<xmltree::Element>/From<xmltree::XMLNode>","src/parser/xml/mod.rs")],["Soup::xml","XMLParser::parse"])
p("C21","XML namespaces are reported faithfully",
 "Every XML element carries its local name, its prefix, the namespace that prefix (or the default) is bound to at that point, and the bindings in scope; queries by tag match the local name. Declarations apply to the declaring element and its descendants only, an inner declaration shadows an outer one, and an unbound prefix is an error.",
 ["inputs"],"all nestings of namespace declarations, redeclarations and prefixed names",
 "No test document has namespaces.",
 [X],[("XMLElement fields","src/parser/xml/mod.rs")],["XMLElement::{prefix,namespace,namespaces,name}"])
p("C22","The XML parser rejects malformed documents",
 "A document that is not well-formed XML (mismatched, crossing, missing or stray tags, truncated anywhere before the end of the root element, repeated or unquoted attributes, undefined references, unterminated or misplaced comments, CDATA or declarations, text outside the root, no root element, bytes that are not valid in the encoding) is rejected with an error, never accepted in part.",
 ["inputs"],"all documents and all edits and truncations of them",
 "No test feeds the XML parser malformed input.",
 [X],[("error propagation from xmltree","src/parser/xml/mod.rs:XMLParser::parse")],["Soup::xml"])
p("C23","XML parsing does not depend on how the reader delivers the bytes",
 "Parsing from a reader gives the same document as parsing from the complete byte slice, however the bytes are split over reads, including in the middle of a character or tag, and in UTF-8 or UTF-16; a read that is interrupted (ErrorKind::Interrupted) is tried again, however often that happens. If the reader reports any other error or ends before the document is complete, parsing returns an error and never a partial document.",
 ["fault_sequences","inputs"],"all documents, all splits of them into reads, and a read error or end of input at every position",
 "All tests read from one in-memory slice.",
 [X,SO],[("generic R: Read passed to xmltree","src/parser/xml/mod.rs")],["Soup::xml"])
p("C24","The XML parser answers on every input",
 "For every byte sequence, XML parsing returns a document or an error: it never panics or aborts, and always gives the same answer for the same input. Whatever document it returns can be iterated, queried, cloned and converted to text without panicking.",
 ["inputs"],"all byte sequences: arbitrary bytes, markup fragments, damaged documents, deep nesting",
 "Tests parse one good document.",
 [X],[("Result from xmltree","src/parser/xml/mod.rs")],["Soup::xml"])
p("C25","The same content answers queries alike in every format",
 "When the same tree of elements, attributes and text is written as strict HTML, as XML, as lenient HTML (within the body) and as a user-defined node tree, any query gives the same results, in the same order, with the same names, attributes, text and all_text, in each of them.",
 ["inputs","programs"],"all trees expressible in all formats, and all queries, including sub-queries and modes",
 "No test compares formats.",
 [Q,N,S,L,X],[("generic query engine over Node","src/query.rs")],["Soup::{html_strict,html,xml,new}"])
p("C26","Optional features do not change what the enabled ones do",
 "Every combination of the cargo features builds, and an entry point that is available gives the same results on the same input whichever other features are enabled.",
 ["configurations","inputs"],"all combinations of html-lenient, html-strict, xml and regex, and all inputs",
 "The tests are only ever built with all features.",
 ["Cargo.toml","src/parser/mod.rs","src/parser/html/mod.rs",SO,PT],[("cfg(feature) gates","src/")],["Soup::{html_strict,html,xml}","Pattern for Regex"])
p("C27","Parsing and querying depend on nothing but the input",
 "The result of parsing a document and of querying it is a function of that document and query alone: it is the same whatever was parsed or queried before, successfully or not, and whatever other threads are parsing and querying at the same time, including many threads querying one shared document.",
 ["histories","schedules"],"all histories of parse and query calls with all three parsers, sequential and on concurrent threads",
 "Every test parses one document, or a few in a fixed order.",
 [S,L,X,Q],[("lazily initialised statics","src/parser/html/strict.rs:ESCAPE"),("no other shared state","src/")],["Soup::{html_strict,html,xml}","Queryable"])
p("C28","Strict parsing and queries use resources in proportion to the input",
 "The number of memory allocations and the bytes allocated by strict HTML parsing grow at most linearly with the length of the input, for accepted and for rejected documents alike: no nesting, repetition or late error makes the parser redo its work. Iterating all nodes of a document allocates no more than in proportion to their number. For documents of bounded nesting, the processor time of parsing, iterating and querying grows in proportion to the input, too; parsing XML and lenient HTML takes time in proportion likewise when the number of attributes of one element is bounded.",
 ["inputs"],"all families of inputs (nesting, repetition, unclosed elements, long texts, attributes, references), at growing sizes",
 "Tests use inputs of a few hundred bytes and do not measure.",
 [S,N,Q],[("single pass grammar without re-parsing alternatives","src/parser/html/strict.rs:single"),("lazy iterators","src/node.rs, src/query.rs")],["Soup::html_strict","Soup::iter"])
p("C29","Nodes and documents are values: equality and copies mean the tree",
 "Two nodes of one node type of the crate compare equal exactly when they are of the same kind and have equal names, attributes, contents and children in the same order (in XML also prefix, namespace and bindings in scope), whichever way round they are compared and whichever spelling they were parsed from. A clone of a node or document equals the original, gives the same answers, and is not affected by what becomes of the original.",
 ["inputs"],"all pairs of nodes and documents of the strict, lenient and XML node types",
 "The tests compare a handful of parsed nodes with literals; no test compares nodes that differ only deep down or in one character, or works with a clone.",
 [H,X,SO],[("derived PartialEq and Clone","src/parser/html/node.rs:HTMLNode, src/parser/xml/mod.rs:XMLNode, XMLElement"),("Soup: Clone","src/soup.rs:Soup")],["HTMLNode: PartialEq/Clone","XMLNode: PartialEq/Clone","Soup: Clone"])
p("C30","Every way into a format gives the same document",
 "Parsing a text with the named function of its format (Soup::html_strict, html, xml), with Soup::new and the parser type, with the parser itself, or through a user's parser that calls it gives the same nodes at top level, in order, or the same error, whatever kind of string or reader carries the text; nothing is stripped, added or wrapped on the way, wherever in the text it stands.",
 ["inputs","configurations"],"all inputs, string types (borrowed, owned, shared, user-defined), readers and entry points",
 "Each test uses one entry point with one string or reader type.",
 [SO,L,S,X,"src/parser/mod.rs"],[("entry points delegate to Soup::new and Parser::parse","src/soup.rs")],["Soup::{html_strict,html,xml,new}","Parser::parse"])
p("C31","Queries look at no more of the document than their results need",
 "A query does nothing until its iterator is advanced, and each step looks at nodes in document order no further than its next result: first(), the first k results, a loop that is left early and the descendants of a node never ask a node behind the last result taken for its name, attributes, text or children. So the first results of a query can be had from a document that is still being built, that is expensive to look at, or that has no end.",
 ["inputs","histories"],"all documents, queries, iterator methods and places to stop",
 "The tests run queries to the end or take the first result of small complete documents; they cannot tell what was looked at.",
 [Q,N],[("lazy adaptors","src/query.rs:QueryIter, MapNodeIter"),("children visited on demand","src/node.rs:NodeIter")],["Queryable::{all,first}","Soup::iter","Node::descendants"])
p("C32","A rejection says where the document goes wrong",
 "When the strict HTML parser rejects a document, its error holds the rest of that very document, beginning with the first top-level node that cannot be parsed: what comes before it parses by itself, and the rest by itself is rejected at its beginning. When the XML parser rejects a malformed document, its error names a line within the document; a fault that shows within its line is reported for that line, and putting lines in front of the document moves it down by as many lines.",
 ["inputs"],"all malformed documents, wherever the fault is",
 "No test looks at an error.",
 ["src/parser/html/strict.rs","src/parser/xml/mod.rs"],[("all_consuming error","src/parser/html/strict.rs:StrictHTMLParser::parse"),("ParseError passed on","src/parser/xml/mod.rs:XMLParser::parse")],["Soup::html_strict","Soup::xml"])
p("C33","Documents, queries and errors give back the memory they took",
 "Parsing a document in any of the three formats, whether it is accepted or rejected, and iterating, querying, narrowing and cloning it keep no memory once the results are dropped: however many different documents a program handles one after the other, the memory in use does not keep growing.",
 ["inputs","histories"],"all sequences of documents, accepted or rejected, with names and contents not seen before",
 "Tests parse a few documents and end; they do not measure.",
 ["src/parser/html/strict.rs","src/parser/html/lenient.rs","src/parser/xml/mod.rs","src/query.rs"],[("no caches besides the lazily built regex and table","src/parser/html/strict.rs:ESCAPE"),("owned trees","src/soup.rs:Soup")],["Soup::{html_strict,html,xml}","Queryable"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
