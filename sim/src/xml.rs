//! A small strict XML parser and writer of the simulator's own, used to judge
//! what the library writes and to act as the other program that edits documents.

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Elem(Elem),
    Text(String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

impl Elem {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| match k {
            Node::Elem(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, n: &str) -> Option<&Elem> {
        self.elems().find(|e| e.name == n)
    }
    pub fn child_mut(&mut self, n: &str) -> Option<&mut Elem> {
        self.kids.iter_mut().find_map(|k| match k {
            Node::Elem(e) if e.name == n => Some(e),
            _ => None,
        })
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::Elem(e) => s.push_str(&e.text()),
            }
        }
        s
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

fn name_char(b: u8, first: bool) -> bool {
    b.is_ascii_alphabetic() || b == b'_' || b == b':' || b >= 0x80 || (!first && (b.is_ascii_digit() || b == b'-' || b == b'.'))
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let a = self.i.saturating_sub(60);
        let b = (self.i + 20).min(self.s.len());
        Err(format!(
            "{m} at byte {} near {:?}",
            self.i,
            String::from_utf8_lossy(&self.s[a..b])
        ))
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn starts(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.i += 1;
        }
    }
    fn until(&mut self, t: &str) -> R<String> {
        let n = t.len();
        let st = self.i;
        while self.i + n <= self.s.len() {
            if self.starts(t) {
                let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                self.i += n;
                return Ok(r);
            }
            self.i += 1;
        }
        self.err(&format!("missing {t}"))
    }
    fn name(&mut self) -> R<String> {
        let st = self.i;
        while let Some(b) = self.peek() {
            if name_char(b, self.i == st) {
                self.i += 1;
            } else {
                break;
            }
        }
        if st == self.i {
            return self.err("name expected");
        }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
    }
    fn entity(&mut self) -> R<char> {
        // at '&'
        self.i += 1;
        let st = self.i;
        while let Some(b) = self.peek() {
            if b == b';' {
                break;
            }
            if self.i - st > 12 {
                return self.err("unterminated entity");
            }
            self.i += 1;
        }
        if self.peek().is_none() {
            return self.err("unterminated entity");
        }
        let n = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
        self.i += 1;
        Ok(match n.as_str() {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let c = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = n.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match c.and_then(char::from_u32) {
                    Some(c) if legal(c) => c,
                    _ => return self.err(&format!("undefined entity {n:?}")),
                }
            }
        })
    }
    fn raw_char(&mut self) -> R<char> {
        let rest = &self.s[self.i..];
        let n = match rest[0] {
            0..=0x7f => 1,
            0xc0..=0xdf => 2,
            0xe0..=0xef => 3,
            _ => 4,
        };
        let c = rest
            .get(..n)
            .and_then(|b| std::str::from_utf8(b).ok())
            .and_then(|s| s.chars().next());
        match c {
            Some(c) if legal(c) => {
                self.i += n;
                Ok(c)
            }
            _ => self.err("illegal character"),
        }
    }
    fn misc(&mut self) -> R<bool> {
        if self.starts("<!--") {
            self.i += 4;
            let c = self.until("-->")?;
            if c.contains("--") {
                return self.err("-- in comment");
            }
            return Ok(true);
        }
        if self.starts("<?") {
            self.i += 2;
            self.until("?>")?;
            return Ok(true);
        }
        Ok(false)
    }
    fn elem(&mut self, depth: u32) -> R<Elem> {
        if depth > 400 {
            return self.err("too deep");
        }
        self.i += 1;
        let mut e = Elem {
            name: self.name()?,
            ..Default::default()
        };
        loop {
            let sp = self.i;
            self.ws();
            match self.peek() {
                Some(b'>') => {
                    self.i += 1;
                    break;
                }
                Some(b'/') => {
                    self.i += 1;
                    if self.peek() != Some(b'>') {
                        return self.err("expected >");
                    }
                    self.i += 1;
                    return Ok(e);
                }
                Some(_) => {}
                None => return self.err("end of document in tag"),
            }
            if sp == self.i {
                return self.err("white space expected");
            }
            let n = self.name()?;
            self.ws();
            if self.peek() != Some(b'=') {
                return self.err("= expected");
            }
            self.i += 1;
            self.ws();
            let q = match self.peek() {
                Some(q @ (b'"' | b'\'')) => q,
                _ => return self.err("quote expected"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("end of document in attribute"),
                    Some(b) if b == q => {
                        self.i += 1;
                        break;
                    }
                    Some(b'<') => return self.err("< in attribute value"),
                    Some(b'&') => v.push(self.entity()?),
                    // literal white space is normalised
                    Some(b'\t' | b'\n' | b'\r') => {
                        self.i += 1;
                        v.push(' ');
                    }
                    Some(_) => v.push(self.raw_char()?),
                }
            }
            if e.attrs.iter().any(|(k, _)| *k == n) {
                return self.err(&format!("duplicate attribute {n}"));
            }
            e.attrs.push((n, v));
        }
        let mut text = String::new();
        loop {
            match self.peek() {
                None => return self.err(&format!("end of document in <{}>", e.name)),
                Some(b'<') => {
                    if self.starts("<![CDATA[") {
                        self.i += 9;
                        let t = self.until("]]>")?;
                        text.push_str(&t);
                        continue;
                    }
                    if self.misc()? {
                        continue;
                    }
                    if self.starts("</") {
                        self.i += 2;
                        let n = self.name()?;
                        self.ws();
                        if self.peek() != Some(b'>') {
                            return self.err("expected >");
                        }
                        self.i += 1;
                        if n != e.name {
                            return self.err(&format!("</{n}> closes <{}>", e.name));
                        }
                        if !text.is_empty() {
                            e.kids.push(Node::Text(text));
                        }
                        return Ok(e);
                    }
                    if !text.is_empty() {
                        e.kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    let c = self.elem(depth + 1)?;
                    e.kids.push(Node::Elem(c));
                }
                Some(b'&') => text.push(self.entity()?),
                Some(b']') if self.starts("]]>") => return self.err("]]> in text"),
                Some(b'\r') => {
                    self.i += 1;
                    if self.peek() != Some(b'\n') {
                        text.push('\n');
                    }
                }
                Some(_) => text.push(self.raw_char()?),
            }
        }
    }
}

fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{fffe}' && c != '\u{ffff}')
}

/// Parses a complete document.
pub fn parse(s: &[u8]) -> R<Elem> {
    let mut p = P { s, i: 0 };
    if p.starts("\u{feff}") {
        p.i += 3;
    }
    if p.starts("<?xml") {
        p.until("?>")?;
    }
    loop {
        p.ws();
        if p.i >= p.s.len() {
            return p.err("no document element");
        }
        if p.misc()? {
            continue;
        }
        break;
    }
    if p.peek() != Some(b'<') {
        return p.err("text before the document element");
    }
    let e = p.elem(0)?;
    loop {
        p.ws();
        if p.i >= p.s.len() {
            return Ok(e);
        }
        if !p.misc()? {
            return p.err("content after the document element");
        }
    }
}

/// Every prefix in use is declared.
pub fn check_ns(e: &Elem, scope: &mut Vec<String>) -> R<()> {
    let n = scope.len();
    for (k, v) in &e.attrs {
        if let Some(p) = k.strip_prefix("xmlns:") {
            if v.is_empty() {
                return Err(format!("empty namespace for {p}"));
            }
            scope.push(p.to_string());
        }
    }
    let names = std::iter::once(&e.name).chain(e.attrs.iter().map(|(k, _)| k));
    for k in names {
        if let Some((p, l)) = k.split_once(':') {
            if l.is_empty() || l.contains(':') || p.is_empty() {
                return Err(format!("bad qualified name {k:?}"));
            }
            if p != "xml" && p != "xmlns" && !scope.iter().any(|s| s == p) {
                return Err(format!("undeclared prefix in {k:?}"));
            }
        }
    }
    for c in e.elems() {
        check_ns(c, scope)?;
    }
    scope.truncate(n);
    Ok(())
}

pub fn esc(s: &str, attr: bool, o: &mut String) {
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' if attr => o.push_str("&quot;"),
            '\t' | '\n' if attr => o.push_str(&format!("&#{};", c as u32)),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
}

pub fn write(e: &Elem, o: &mut String) {
    o.push('<');
    o.push_str(&e.name);
    for (k, v) in &e.attrs {
        o.push(' ');
        o.push_str(k);
        o.push_str("=\"");
        esc(v, true, o);
        o.push('"');
    }
    if e.kids.is_empty() {
        o.push_str("/>");
        return;
    }
    o.push('>');
    for k in &e.kids {
        match k {
            Node::Text(t) => esc(t, false, o),
            Node::Elem(e) => write(e, o),
        }
    }
    o.push_str("</");
    o.push_str(&e.name);
    o.push('>');
}

pub fn document(e: &Elem) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    write(e, &mut s);
    s
}

/// Order of attributes does not matter.
pub fn canon(e: &Elem) -> String {
    let mut e = e.clone();
    sort(&mut e);
    let mut s = String::new();
    write(&e, &mut s);
    s
}
fn sort(e: &mut Elem) {
    e.attrs.sort();
    for k in &mut e.kids {
        if let Node::Elem(c) = k {
            sort(c);
        }
    }
}
