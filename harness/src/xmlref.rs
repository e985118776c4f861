//! Reference for well-formed XML, written from the recommendation: elements, attributes,
//! references, CDATA, comments and instructions. Three-valued: document type declarations,
//! namespaces, line ends other than a line feed and whatever else the statements of the
//! properties leave open are `Unspecified`.
use crate::htmlref::Verdict;
use crate::model::M;

type P<T> = Result<T, Verdict>;

fn bad<T>(why: &'static str) -> P<T> {
    Err(Verdict::Malformed(why))
}

fn open<T>(why: &'static str) -> P<T> {
    Err(Verdict::Unspecified(why))
}

struct X<'a> {
    s: &'a str,
    /// what about the tree is left open if the document is well-formed
    vague: Option<&'static str>,
}

fn space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n')
}

fn name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}' | '\u{370}'..='\u{37d}' | '\u{37f}'..='\u{1fff}' | '\u{200c}'..='\u{200d}'
        | '\u{2070}'..='\u{218f}' | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}' | '\u{10000}'..='\u{effff}')
}

fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}')
}

impl X<'_> {
    fn eat(&mut self, t: &str) -> bool {
        self.s.strip_prefix(t).map(|r| self.s = r).is_some()
    }

    fn spaces(&mut self) -> bool {
        let n = self.s.len();
        self.s = self.s.trim_start_matches(space);
        self.s.len() < n
    }

    fn until(&mut self, t: &str, why: &'static str) -> P<String> {
        match self.s.find(t) {
            Some(i) => {
                let r = self.s[..i].to_string();
                self.s = &self.s[i + t.len()..];
                Ok(r)
            }
            None => bad(why),
        }
    }

    fn name(&mut self, what: &'static str) -> P<String> {
        let n = self.s.find(|c| !name_char(c)).unwrap_or(self.s.len());
        if self.s[n..].starts_with(':') || self.s.starts_with(':') {
            return open("a name with a colon");
        }
        if !self.s.starts_with(name_start) {
            return bad(what);
        }
        let r = self.s[..n].to_string();
        self.s = &self.s[n..];
        Ok(r)
    }

    /// After the ampersand
    fn reference(&mut self, out: &mut String) -> P<()> {
        let Some(n) = self.s.find(';') else { return bad("unterminated reference") };
        let r = &self.s[..n];
        let c = match r {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                if r.contains(|c: char| c != '#' && !name_char(c)) || r.is_empty() {
                    return bad("stray ampersand");
                }
                let Some(num) = r.strip_prefix('#') else { return bad("undefined reference") };
                let (digits, radix) = num.strip_prefix('x').map_or((num, 10), |d| (d, 16));
                if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
                    return bad("bad character reference");
                }
                let code = u32::from_str_radix(digits, radix).ok().and_then(char::from_u32);
                match code {
                    Some(c) if matches!(c, '\u{7f}'..='\u{9f}' | '\u{fdd0}'..='\u{fdef}') => return open("discouraged character"),
                    Some(c) if matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..) => c,
                    _ => return bad("reference to what is no character"),
                }
            }
        };
        if c.is_whitespace() {
            return open("whitespace by reference");
        }
        out.push(c);
        self.s = &self.s[n + 1..];
        Ok(())
    }

    fn comment(&mut self) -> P<M> {
        let c = self.until("-->", "unterminated comment")?;
        // <!--->
        if c.contains("--") || c.ends_with('-') {
            return bad("two hyphens in a comment");
        }
        Ok(M::comment(c))
    }

    fn pi(&mut self) -> P<M> {
        if self.s.starts_with(space) {
            // accepted: a known finding
            self.vague = Some("instruction without a target");
            self.until("?>", "unterminated instruction")?;
            return Ok(M::pi("", None));
        }
        let target = self.name("instruction without a target")?;
        if target.eq_ignore_ascii_case("xml") {
            return if target == "xml" { bad("misplaced declaration") } else { open("XML as target") };
        }
        if self.eat("?>") {
            return Ok(M::pi(target, None));
        }
        if !self.s.starts_with(space) {
            return if self.s.contains("?>") { bad("no space after the target") } else { bad("unterminated instruction") };
        }
        self.s = &self.s[1..];
        let d = self.until("?>", "unterminated instruction")?;
        if d.is_empty() || d.starts_with(space) {
            self.vague = Some("spaces after the target");
        }
        Ok(M::pi(target, Some(d)))
    }

    fn attrs(&mut self) -> P<Vec<(String, String)>> {
        let mut a: Vec<(String, String)> = vec![];
        loop {
            let sp = self.spaces();
            if self.s.is_empty() {
                return bad("unterminated tag");
            }
            if self.s.starts_with(['/', '>']) {
                return Ok(a);
            }
            if !sp {
                return bad("no space before an attribute");
            }
            let n = self.name("bad attribute name")?;
            if n == "xmlns" {
                return open("namespace");
            }
            self.spaces();
            if !self.eat("=") {
                return bad("attribute without a value");
            }
            self.spaces();
            let q = match self.s.chars().next() {
                Some(q @ ('"' | '\'')) => q,
                _ => return bad("unquoted attribute"),
            };
            self.s = &self.s[1..];
            let mut v = String::new();
            loop {
                let Some(c) = self.s.chars().next() else { return bad("unterminated attribute") };
                self.s = &self.s[c.len_utf8()..];
                match c {
                    c if c == q => break,
                    '<' if ["!--", "![CDATA[", "!DOCTYPE"].iter().any(|t| self.s.starts_with(t)) => {
                        // the same finding: how the rest is read is anyone's guess
                        return open("the start of markup in an attribute");
                    }
                    '<' if self.s.starts_with('/') => {
                        // accepted: a known finding
                        self.vague = Some("the start of markup in an attribute");
                        v.push(c);
                    }
                    '<' => return bad("'<' in an attribute"),
                    '&' => self.reference(&mut v)?,
                    '\t' | '\n' => return open("tab or line feed in an attribute"),
                    c => v.push(c),
                }
            }
            if a.iter().any(|x| x.0 == n) {
                if a.len() == 8 {
                    // accepted: a known finding
                    return open("the ninth attribute repeats one");
                }
                return bad("repeated attribute");
            }
            a.push((n, v));
        }
    }

    /// After the opening bracket; nesting is on the heap
    fn root(&mut self) -> P<M> {
        let mut stack: Vec<(String, Vec<(String, String)>, Vec<M>)> = vec![];
        let mut text = String::new();
        loop {
            // a start tag
            let name = self.name("stray '<'")?;
            let attrs = self.attrs()?;
            let mut done = None;
            if self.eat("/") {
                if !self.eat(">") {
                    return bad("stray slash in a tag");
                }
                done = Some(M::elem(name, attrs, vec![]));
            } else {
                self.s = &self.s[1..];
                stack.push((name, attrs, vec![]));
            }
            // up to the next start tag
            loop {
                if let Some(m) = done.take() {
                    match stack.last_mut() {
                        Some(top) => top.2.push(m),
                        None => return Ok(m),
                    }
                }
                let mut blank = false;
                let mut flush = |stack: &mut Vec<(String, Vec<(String, String)>, Vec<M>)>| {
                    let t = std::mem::take(&mut text);
                    if t.is_empty() {
                    } else if t.chars().all(space) {
                        blank = true;
                    } else {
                        stack.last_mut().unwrap().2.push(M::text(t));
                    }
                };
                if self.eat("<!--") {
                    flush(&mut stack);
                    let c = self.comment()?;
                    stack.last_mut().unwrap().2.push(c);
                } else if self.eat("<![CDATA[") {
                    flush(&mut stack);
                    let c = self.until("]]>", "unterminated CDATA")?;
                    stack.last_mut().unwrap().2.push(M::cdata(c));
                    if self.s.starts_with(space) || blank {
                        self.vague = Some("blanks next to CDATA");
                    }
                } else if self.eat("<?") {
                    flush(&mut stack);
                    let p = self.pi()?;
                    stack.last_mut().unwrap().2.push(p);
                } else if self.eat("</") {
                    flush(&mut stack);
                    let n = self.name("bad end tag")?;
                    self.spaces();
                    if !self.eat(">") {
                        return bad("end tag not closed");
                    }
                    let (name, attrs, kids) = stack.pop().unwrap();
                    if name != n {
                        return bad("mismatched end tag");
                    }
                    done = Some(M::elem(name, attrs, kids));
                } else if self.s.starts_with("<!") {
                    return bad("misplaced declaration");
                } else if self.eat("<") {
                    flush(&mut stack);
                    break;
                } else if self.eat("&") {
                    self.reference(&mut text)?;
                } else if self.s.starts_with("]]>") {
                    return bad("]]> in a text");
                } else if let Some(c) = self.s.chars().next() {
                    text.push(c);
                    self.s = &self.s[c.len_utf8()..];
                } else {
                    return bad("element not closed");
                }
            }
        }
    }

    fn document(&mut self) -> P<Vec<M>> {
        let mut top = vec![];
        let mut root = false;
        if self.s.starts_with("<?xml") && self.s[5..].starts_with(|c: char| c.is_whitespace() || c == '?') {
            const PLAIN: &[&str] = &["<?xml version='1.0'?>", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='utf-8'?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"];
            if !PLAIN.iter().any(|p| self.eat(p)) {
                return open("declaration");
            }
        }
        loop {
            self.spaces();
            if self.s.is_empty() {
                return if root { Ok(top) } else { bad("no root element") };
            }
            if self.eat("<!--") {
                top.push(self.comment()?);
            } else if self.eat("<?") {
                top.push(self.pi()?);
            } else if self.s.starts_with("<!DOCTYPE") {
                return if root { bad("doctype after the root") } else { open("doctype") };
            } else if self.eat("<") {
                if root {
                    return bad("content after the root");
                }
                root = true;
                top.push(self.root()?);
            } else {
                return bad("text outside the root");
            }
        }
    }
}

/// What a document is, and why not
pub fn parse(s: &str) -> Verdict {
    if s.contains('\r') || s.contains(|c: char| matches!(c, '\u{7f}'..='\u{9f}' | '\u{2028}')) {
        return Verdict::Unspecified("line ends and discouraged characters");
    }
    if s.contains(|c: char| (c < ' ' && !space(c)) || matches!(c, '\u{fffe}' | '\u{ffff}')) {
        return Verdict::Unspecified("characters that XML has not");
    }
    if s.starts_with('\u{feff}') {
        return Verdict::Unspecified("byte order mark");
    }
    let mut x = X { s, vague: None };
    match (x.document(), x.vague) {
        (Ok(_), Some(why)) => Verdict::Unspecified(why),
        (Ok(top), None) => Verdict::Valid(top),
        (Err(v), _) => v,
    }
}
