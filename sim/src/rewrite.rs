//! The other program again: it stores a document a second time, in other bytes that
//! mean the same (`same`), or it makes nonsense of it (`broken`).

use crate::pkg;
use crate::rng::Rng;
use crate::xml::{self, Elem, Node};

/// Ways to write the same document differently; bits of a mask.
pub const WAYS: [&str; 18] = [
    "attribute-order",
    "quotes",
    "character-references",
    "cdata",
    "comments",
    "empty-element-tags",
    "white-space-in-tags",
    "indentation",
    "prolog",
    "member-order",
    "deflate",
    "data-descriptors",
    "zip-extras",
    "split-repeats",
    "trailing-blanks",
    "row-wrappers",
    "values",
    "calcext",
];
const ATTRS: u32 = 0;
const QUOTES: u32 = 1;
const REFS: u32 = 2;
const CDATA: u32 = 3;
const COMMENTS: u32 = 4;
const EMPTY: u32 = 5;
const BLANKS: u32 = 6;
const INDENT: u32 = 7;
const PROLOG: u32 = 8;
const ORDER: u32 = 9;
const DEFLATE: u32 = 10;
const DESCR: u32 = 11;
const EXTRAS: u32 = 12;
const SPLIT: u32 = 13;
const TRAIL: u32 = 14;
const WRAP: u32 = 15;
const VALUES: u32 = 16;
const CALCEXT: u32 = 17;

struct W<'a> {
    r: &'a mut Rng,
    ways: u32,
    o: String,
}

/// Elements that hold nothing but elements: white space between those is layout.
fn layout(n: &str) -> bool {
    (n.starts_with("office:") && n != "office:script" && n != "office:binary-data")
        || n.starts_with("manifest:")
        || matches!(
            n,
            "table:table"
                | "table:table-row"
                | "table:table-rows"
                | "table:table-header-rows"
                | "table:table-row-group"
                | "table:table-column"
                | "table:table-columns"
                | "table:table-header-columns"
                | "table:table-column-group"
                | "table:table-cell"
                | "table:covered-table-cell"
                | "table:content-validations"
                | "table:content-validation"
                | "table:error-message"
                | "table:help-message"
                | "style:style"
                | "style:default-style"
                | "style:page-layout"
                | "style:master-page"
                | "style:header"
                | "style:footer"
                | "style:header-left"
                | "style:footer-left"
                | "style:header-first"
                | "style:footer-first"
                | "style:header-style"
                | "style:footer-style"
                | "style:paragraph-properties"
                | "style:table-cell-properties"
                | "style:tab-stops"
                | "number:number-style"
                | "number:boolean-style"
                | "number:text-style"
                | "number:currency-style"
                | "number:percentage-style"
                | "number:date-style"
                | "number:time-style"
                | "config:config-item-set"
                | "config:config-item-map-entry"
                | "config:config-item-map-indexed"
                | "config:config-item-map-named"
                | "draw:frame"
        )
}

impl W<'_> {
    fn on(&mut self, way: u32, num: u64, den: u64) -> bool {
        self.ways & (1 << way) != 0 && self.r.chance(num, den)
    }
    fn blank(&mut self) {
        let t = *self.r.pick(&[" ", "  ", "\n", "\t", "\r\n", "\n    "]);
        self.o.push_str(t);
    }
    fn misc(&mut self) {
        let t = *self.r.pick(&[
            "<!---->",
            "<!-- a comment -->",
            "<!-- <text:p>no</text:p> & ]]> -->",
            "<?pi?>",
            "<?target some \"data\" <b>?>",
        ]);
        self.o.push_str(t);
    }
    fn reference(&mut self, c: char) {
        let s = if self.r.chance(1, 2) {
            format!("&#{};", c as u32)
        } else {
            format!("&#x{:X};", c as u32)
        };
        self.o.push_str(&s);
    }
    fn attr(&mut self, k: &str, v: &str) {
        self.o.push_str(k);
        if self.on(BLANKS, 1, 12) {
            self.blank();
        }
        self.o.push('=');
        if self.on(BLANKS, 1, 12) {
            self.blank();
        }
        let q = if self.on(QUOTES, 1, 2) { '\'' } else { '"' };
        self.o.push(q);
        for c in v.chars() {
            match c {
                '&' => self.o.push_str("&amp;"),
                '<' => self.o.push_str("&lt;"),
                '\t' | '\n' | '\r' => self.reference(c),
                c if c == q => {
                    if self.on(REFS, 1, 2) {
                        self.reference(c)
                    } else {
                        self.o.push_str(if q == '"' { "&quot;" } else { "&apos;" })
                    }
                }
                c if !c.is_ascii_alphanumeric() && !"-+:.;,#".contains(c) && self.on(REFS, 1, 4) => self.reference(c),
                '>' if self.r.chance(1, 2) => self.o.push_str("&gt;"),
                c => self.o.push(c),
            }
        }
        self.o.push(q);
    }
    fn text(&mut self, t: &str) {
        let mut rest = t;
        while !rest.is_empty() {
            let n = rest.chars().count() as u64;
            let k = if self.ways & (1 << CDATA | 1 << COMMENTS) != 0 { self.r.range(1, n) } else { n };
            let at = rest.char_indices().nth(k as usize).map_or(rest.len(), |x| x.0);
            let (a, b) = rest.split_at(at);
            if !a.contains("]]>") && !a.contains('\r') && self.on(CDATA, 1, 4) {
                self.o.push_str("<![CDATA[");
                self.o.push_str(a);
                self.o.push_str("]]>");
            } else {
                for c in a.chars() {
                    match c {
                        '&' => self.o.push_str("&amp;"),
                        '<' => self.o.push_str("&lt;"),
                        '>' => self.o.push_str("&gt;"),
                        '\r' => self.reference(c),
                        c if self.on(REFS, 1, 8) => self.reference(c),
                        c => self.o.push(c),
                    }
                }
            }
            if self.on(COMMENTS, 1, 6) {
                self.misc();
            }
            rest = b;
        }
    }
    fn elem(&mut self, e: &Elem, lay: bool) {
        self.o.push('<');
        self.o.push_str(&e.name);
        let mut at: Vec<usize> = (0..e.attrs.len()).collect();
        if self.ways & (1 << ATTRS) != 0 {
            for i in (1..at.len()).rev() {
                let j = self.r.below(i as u64 + 1) as usize;
                at.swap(i, j);
            }
        }
        for i in at {
            if self.on(BLANKS, 1, 8) {
                self.blank();
            } else {
                self.o.push(' ');
            }
            let (k, v) = &e.attrs[i];
            self.attr(k, v);
        }
        if self.on(BLANKS, 1, 8) {
            self.blank();
        }
        if e.kids.is_empty() && !self.on(EMPTY, 1, 2) {
            self.o.push_str("/>");
            return;
        }
        self.o.push('>');
        let lay = lay && layout(&e.name);
        if e.kids.is_empty() && self.on(COMMENTS, 1, 10) {
            self.misc();
        }
        for k in &e.kids {
            if lay && self.on(INDENT, 1, 2) {
                self.blank();
            }
            if self.on(COMMENTS, 1, 12) {
                self.misc();
            }
            match k {
                Node::Text(t) => self.text(t),
                Node::Elem(e) => self.elem(e, lay),
            }
        }
        if lay && !e.kids.is_empty() && self.on(INDENT, 1, 2) {
            self.blank();
        }
        self.o.push_str("</");
        self.o.push_str(&e.name);
        if self.on(BLANKS, 1, 8) {
            self.blank();
        }
        self.o.push('>');
    }
    fn document(&mut self, e: &Elem) -> Vec<u8> {
        self.o = String::new();
        if self.on(PROLOG, 1, 4) {
            self.o.push('\u{feff}');
        }
        if self.on(PROLOG, 1, 2) {
            let t = *self.r.pick(&[
                "",
                "<?xml version='1.0'?>",
                "<?xml version=\"1.0\" encoding='utf-8'?>\r\n",
                "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n\n",
            ]);
            self.o.push_str(t);
        } else {
            self.o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        }
        if self.on(PROLOG, 1, 3) {
            self.misc();
        }
        self.elem(e, true);
        if self.on(PROLOG, 1, 3) {
            self.o.push('\n');
            self.misc();
        }
        std::mem::take(&mut self.o).into_bytes()
    }
}

fn blank_cell(e: &Elem) -> bool {
    e.name == "table:table-cell" && e.kids.is_empty() && e.attrs.iter().all(|a| a.0 == "table:number-columns-repeated")
}
fn blank_row(e: &Elem) -> bool {
    e.name == "table:table-row"
        && e.attrs.iter().all(|a| a.0 == "table:number-rows-repeated")
        && e.kids.iter().all(|k| matches!(k, Node::Elem(c) if blank_cell(c)))
}
fn repeat(e: &Elem, a: &str) -> u32 {
    e.attr(a).and_then(|v| v.parse().ok()).unwrap_or(1)
}
fn set_repeat(e: &mut Elem, a: &str, n: u32) {
    e.attrs.retain(|x| x.0 != a);
    if n != 1 {
        e.attrs.push((a.into(), n.to_string()));
    }
}

/// Changes on the level of the format: other elements, the same table.
fn reshape(e: &mut Elem, r: &mut Rng, ways: u32) {
    let on = |r: &mut Rng, way: u32, n: u64, d: u64| ways & (1 << way) != 0 && r.chance(n, d);
    match e.name.as_str() {
        "table:table" => {
            if on(r, TRAIL, 1, 2) {
                let row = Elem {
                    name: "table:table-row".into(),
                    attrs: vec![("table:number-rows-repeated".into(), "1048000".into())],
                    kids: vec![Node::Elem(Elem {
                        name: "table:table-cell".into(),
                        attrs: vec![("table:number-columns-repeated".into(), "16384".into())],
                        kids: vec![],
                    })],
                };
                let at = e
                    .kids
                    .iter()
                    .rposition(|k| matches!(k, Node::Elem(c) if c.name.starts_with("table:table-row") || c.name.starts_with("table:table-header-") || c.name.starts_with("table:table-column")))
                    .map_or(e.kids.len(), |i| i + 1);
                e.kids.insert(at, Node::Elem(row));
            }
            if on(r, WRAP, 1, 2) {
                // consecutive rows of the table may stand inside of table:table-rows
                let mut o = Vec::new();
                let mut run: Vec<Node> = Vec::new();
                let flush = |run: &mut Vec<Node>, o: &mut Vec<Node>| {
                    if !run.is_empty() {
                        o.push(Node::Elem(Elem {
                            name: "table:table-rows".into(),
                            attrs: vec![],
                            kids: std::mem::take(run),
                        }));
                    }
                };
                for k in std::mem::take(&mut e.kids) {
                    if matches!(&k, Node::Elem(c) if c.name == "table:table-row") {
                        run.push(k);
                    } else {
                        flush(&mut run, &mut o);
                        o.push(k);
                    }
                }
                flush(&mut run, &mut o);
                e.kids = o;
            }
        }
        "table:table-row" => {
            if on(r, TRAIL, 1, 3) {
                e.kids.push(Node::Elem(Elem {
                    name: "table:table-cell".into(),
                    attrs: vec![("table:number-columns-repeated".into(), "1000".into())],
                    kids: vec![],
                }));
            }
        }
        "table:table-cell" | "table:covered-table-cell" => {
            let vt = e.attr("office:value-type").unwrap_or("").to_string();
            if on(r, VALUES, 1, 2) {
                for a in &mut e.attrs {
                    match a.0.as_str() {
                        "office:value" => {
                            if let Ok(v) = a.1.parse::<f64>() {
                                a.1 = match r.below(3) {
                                    0 => format!("{v:e}"),
                                    1 => format!("{v:?}"),
                                    _ => format!("{v}"),
                                };
                            }
                        }
                        "office:date-value" => {
                            if let Some(d) = a.1.strip_suffix("T00:00:00") {
                                a.1 = d.to_string();
                            } else if !a.1.contains('T') {
                                a.1.push_str("T00:00:00");
                            } else if !a.1.contains('.') && r.chance(1, 2) {
                                a.1.push_str(".000");
                            }
                        }
                        _ => {}
                    }
                }
                if vt == "string" && e.attr("office:string-value").is_none() && e.kids.len() == 1 {
                    if let Node::Elem(p) = &e.kids[0] {
                        if p.name == "text:p" && p.attrs.is_empty() && p.elems().next().is_none() {
                            e.attrs.push(("office:string-value".into(), p.text()));
                        }
                    }
                }
            }
            if !vt.is_empty() && on(r, CALCEXT, 1, 2) && e.attr("calcext:value-type").is_none() {
                e.attrs.push(("calcext:value-type".into(), vt));
            }
            return;
        }
        _ => {}
    }
    if ways & (1 << SPLIT) != 0 {
        let mut o = Vec::new();
        for k in std::mem::take(&mut e.kids) {
            match k {
                Node::Elem(c)
                    if (c.name == "table:table-cell" || c.name == "table:covered-table-cell")
                        && repeat(&c, "table:number-columns-repeated") > 1
                        && r.chance(1, 2) =>
                {
                    let n = repeat(&c, "table:number-columns-repeated");
                    let a = r.range(1, n as u64 - 1) as u32;
                    for m in [a, n - a] {
                        let mut c = c.clone();
                        set_repeat(&mut c, "table:number-columns-repeated", m);
                        o.push(Node::Elem(c));
                    }
                }
                Node::Elem(c) if blank_row(&c) && repeat(&c, "table:number-rows-repeated") > 1 && r.chance(1, 2) => {
                    let n = repeat(&c, "table:number-rows-repeated");
                    let a = r.range(1, n as u64 - 1) as u32;
                    for m in [a, n - a] {
                        let mut c = c.clone();
                        set_repeat(&mut c, "table:number-rows-repeated", m);
                        o.push(Node::Elem(c));
                    }
                }
                k => o.push(k),
            }
        }
        e.kids = o;
    }
    for k in &mut e.kids {
        if let Node::Elem(c) = k {
            reshape(c, r, ways);
        }
    }
}

/// Deflate without compression or with the fixed code and literals only.
fn deflate(d: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut o = Vec::new();
    if r.chance(1, 2) {
        let n = r.range(1, 70_000).min(65_535) as usize;
        let parts: Vec<&[u8]> = d.chunks(n).collect();
        for (i, p) in parts.iter().enumerate() {
            o.push((i + 1 == parts.len()) as u8);
            o.extend_from_slice(&(p.len() as u16).to_le_bytes());
            o.extend_from_slice(&(!(p.len() as u16)).to_le_bytes());
            o.extend_from_slice(p);
        }
        if parts.is_empty() {
            o.extend_from_slice(&[1, 0, 0, 255, 255]);
        }
        return o;
    }
    let (mut acc, mut n) = (0u32, 0u32);
    let mut put = |v: u32, k: u32, o: &mut Vec<u8>| {
        acc |= v << n;
        n += k;
        while n >= 8 {
            o.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
        (acc, n)
    };
    let rev = |v: u32, k: u32| v.reverse_bits() >> (32 - k);
    put(1, 1, &mut o);
    put(1, 2, &mut o);
    for b in d {
        let b = *b as u32;
        if b < 144 {
            put(rev(0x30 + b, 8), 8, &mut o);
        } else {
            put(rev(0x190 + b - 144, 9), 9, &mut o);
        }
    }
    let (a, k) = put(0, 7, &mut o);
    if k > 0 {
        o.push(a as u8);
    }
    o
}

fn zip(files: &[(String, Vec<u8>)], r: &mut Rng, ways: u32) -> Vec<u8> {
    let on = |r: &mut Rng, way: u32, n: u64, d: u64| ways & (1 << way) != 0 && r.chance(n, d);
    let mut o = Vec::new();
    let mut cd = Vec::new();
    for (i, (n, d)) in files.iter().enumerate() {
        let off = o.len() as u32;
        let crc = pkg::crc32(d);
        let (method, data) = if i > 0 && on(r, DEFLATE, 2, 3) { (8u16, deflate(d, r)) } else { (0, d.clone()) };
        // only a compressed member knows its own end
        let descr = method == 8 && on(r, DESCR, 1, 2);
        let extra: Vec<u8> = if i > 0 && on(r, EXTRAS, 1, 3) { vec![0x55, 0x54, 5, 0, 1, 1, 2, 3, 4] } else { vec![] };
        let flags: u16 = if descr { 0x0808 } else { 0x0800 };
        let head = |real: bool, extra: usize| {
            let mut h = Vec::new();
            h.extend_from_slice(&20u16.to_le_bytes());
            h.extend_from_slice(&flags.to_le_bytes());
            h.extend_from_slice(&method.to_le_bytes());
            h.extend_from_slice(&0u16.to_le_bytes());
            h.extend_from_slice(&0x5021u16.to_le_bytes());
            let (c, s, u) = if real { (crc, data.len() as u32, d.len() as u32) } else { (0, 0, 0) };
            h.extend_from_slice(&c.to_le_bytes());
            h.extend_from_slice(&s.to_le_bytes());
            h.extend_from_slice(&u.to_le_bytes());
            h.extend_from_slice(&(n.len() as u16).to_le_bytes());
            h.extend_from_slice(&(extra as u16).to_le_bytes());
            h
        };
        o.extend_from_slice(&0x0403_4b50u32.to_le_bytes());
        o.extend_from_slice(&head(!descr, extra.len()));
        o.extend_from_slice(n.as_bytes());
        o.extend_from_slice(&extra);
        o.extend_from_slice(&data);
        if descr {
            if r.chance(1, 2) {
                o.extend_from_slice(&0x0807_4b50u32.to_le_bytes());
            }
            o.extend_from_slice(&crc.to_le_bytes());
            o.extend_from_slice(&(data.len() as u32).to_le_bytes());
            o.extend_from_slice(&(d.len() as u32).to_le_bytes());
        }
        let note: &[u8] = if on(r, EXTRAS, 1, 4) { b"a comment" } else { b"" };
        cd.extend_from_slice(&0x0201_4b50u32.to_le_bytes());
        cd.extend_from_slice(&20u16.to_le_bytes());
        cd.extend_from_slice(&head(true, 0));
        cd.extend_from_slice(&(note.len() as u16).to_le_bytes());
        cd.extend_from_slice(&[0; 8]);
        cd.extend_from_slice(&off.to_le_bytes());
        cd.extend_from_slice(n.as_bytes());
        cd.extend_from_slice(note);
    }
    let note: &[u8] = if on(r, EXTRAS, 1, 4) { b"archive comment" } else { b"" };
    let cdo = o.len() as u32;
    o.extend_from_slice(&cd);
    o.extend_from_slice(&0x0605_4b50u32.to_le_bytes());
    o.extend_from_slice(&[0; 4]);
    o.extend_from_slice(&(files.len() as u16).to_le_bytes());
    o.extend_from_slice(&(files.len() as u16).to_le_bytes());
    o.extend_from_slice(&(cd.len() as u32).to_le_bytes());
    o.extend_from_slice(&cdo.to_le_bytes());
    o.extend_from_slice(&(note.len() as u16).to_le_bytes());
    o.extend_from_slice(note);
    o
}

fn is_part(n: &str) -> bool {
    matches!(n, "content.xml" | "styles.xml" | "meta.xml" | "settings.xml" | "META-INF/manifest.xml")
}

fn files(b: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut v = Vec::new();
    for e in pkg::entries(b)? {
        v.push((e.name.clone(), pkg::member(b, &e)?));
    }
    Ok(v)
}

/// The same document in other bytes.
pub fn same(b: &[u8], fods: bool, seed: u64, ways: u32) -> Result<Vec<u8>, String> {
    let mut r = Rng::new(seed);
    if fods {
        let mut d = xml::parse(b)?;
        reshape(&mut d, &mut r, ways);
        let mut w = W { r: &mut r, ways, o: String::new() };
        let b = w.document(&d);
        debug_assert!(xml::parse(&b).is_ok());
        return Ok(b);
    }
    let mut fs = files(b)?;
    for f in &mut fs {
        if is_part(&f.0) {
            let mut d = xml::parse(&f.1)?;
            reshape(&mut d, &mut r, ways);
            let mut w = W { r: &mut r, ways, o: String::new() };
            f.1 = w.document(&d);
        }
    }
    if ways & (1 << ORDER) != 0 {
        for i in (2..fs.len()).rev() {
            let j = r.range(1, i as u64) as usize;
            fs.swap(i, j);
        }
    }
    Ok(zip(&fs, &mut r, ways))
}

fn count(e: &Elem) -> u64 {
    1 + e.elems().map(count).sum::<u64>()
}
/// The n-th element of the tree, in document order.
fn nth<'a>(e: &'a mut Elem, n: &mut u64) -> Option<&'a mut Elem> {
    if *n == 0 {
        return Some(e);
    }
    *n -= 1;
    for k in &mut e.kids {
        if let Node::Elem(c) = k {
            let m = count(c);
            if *n < m {
                return nth(c, n);
            }
            *n -= m;
        }
    }
    None
}

const VALS: [&str; 40] = [
    "", "0", "1", "2", "-1", "1.5", "1e400", "-1e-400", "NaN", "inf", "true", "false", "TRUE", " ", "x", "é", "\u{1F600}",
    "4294967296", "99999999999999999999", "2147483648", "2024-02-30", "2024-01-01", "0000-00-00", "99999-12-31",
    "2024-01-01T25:61:61", "2024-01-01T00:00:60", "24:00:00", "P", "PT", "PT1H", "-PT1H", "PT99999999999999999999S", "P1Y2M3D",
    "PT0.9999999999S", ".A1", "$'a b'.$A$1:.B2", "'", "#REF!", "Sheet1.A1:Sheet1.A1048577", "cell-content()",
];

/// One deformation of the tree.
fn tweak(d: &mut Elem, r: &mut Rng) {
    let total = count(d);
    let mut pick = |r: &mut Rng| r.below(total);
    let mut a = pick(r);
    let donor = {
        let mut b = pick(r);
        nth(d, &mut b).cloned()
    };
    let Some(e) = nth(d, &mut a) else { return };
    match r.below(16) {
        0 => {
            // an element is gone
            let el: Vec<usize> = (0..e.kids.len()).filter(|i| matches!(e.kids[*i], Node::Elem(_))).collect();
            if !el.is_empty() {
                e.kids.remove(*r.pick(&el));
            }
        }
        1 => {
            // an element twice
            if !e.kids.is_empty() {
                let i = r.below(e.kids.len() as u64) as usize;
                let k = e.kids[i].clone();
                e.kids.insert(i, k);
            }
        }
        2 => {
            if let Some(x) = donor {
                e.name = x.name;
            }
        }
        3 => {
            if let Some(x) = donor {
                if count(&x) < 300 {
                    let i = r.below(e.kids.len() as u64 + 1) as usize;
                    e.kids.insert(i, Node::Elem(x));
                }
            }
        }
        4 => e.kids.clear(),
        5 => {
            if !e.attrs.is_empty() {
                let i = r.below(e.attrs.len() as u64) as usize;
                e.attrs.remove(i);
            }
        }
        6 => {
            if let Some(x) = donor {
                for a in x.attrs {
                    if e.attr(&a.0).is_none() {
                        e.attrs.push(a);
                    }
                }
            }
        }
        7 => {
            let i = r.below(e.kids.len() as u64 + 1) as usize;
            let t = (*r.pick(&VALS)).to_string();
            e.kids.insert(i, Node::Text(t));
        }
        8 => {
            for k in &mut e.kids {
                if let Node::Text(t) = k {
                    *t = (*r.pick(&VALS)).to_string();
                }
            }
        }
        9 => e.kids.reverse(),
        10 => {
            // the children move up into a new level
            let kids = std::mem::take(&mut e.kids);
            let name = e.name.clone();
            e.kids.push(Node::Elem(Elem { name, attrs: vec![], kids }));
        }
        11 => e.attrs.clear(),
        _ => {
            if !e.attrs.is_empty() {
                let i = r.below(e.attrs.len() as u64) as usize;
                let v = (*r.pick(&VALS)).to_string();
                // memory for that many copies is what such a document asks for
                let many = v.parse::<u64>().is_ok_and(|n| n > 1000);
                if !(many && e.attrs[i].0.ends_with("-repeated")) || v.len() > 10 {
                    e.attrs[i].1 = v;
                }
            }
        }
    }
}

/// Does this deformation work on elements? The others work on characters.
pub fn is_tree(t: u64) -> bool {
    let r = &mut Rng::new(t ^ 0x7ee);
    r.chance(5, 6)
}

/// A document that makes little sense.
pub fn broken(b: &[u8], fods: bool, tweaks: &[u64]) -> Result<Vec<u8>, String> {
    let mut fs = if fods { vec![("content.xml".to_string(), b.to_vec())] } else { files(b)? };
    let parts: Vec<usize> = (0..fs.len()).filter(|i| is_part(&fs[*i].0)).collect();
    for t in tweaks {
        let r = &mut Rng::new(*t);
        let i = if r.chance(1, 2) {
            parts.iter().copied().find(|i| fs[*i].0 == "content.xml").unwrap_or(parts[0])
        } else {
            *r.pick(&parts)
        };
        if is_tree(*t) {
            if let Ok(mut d) = xml::parse(&fs[i].1) {
                tweak(&mut d, r);
                fs[i].1 = xml::document(&d).into_bytes();
            }
            continue;
        }
        // below the level of elements
        let f = &mut fs[i].1;
        if f.is_empty() {
            continue;
        }
        let at = r.below(f.len() as u64) as usize;
        match r.below(6) {
            0 => f.truncate(at),
            1 => {
                let n = r.range(1, 40) as usize;
                let e = (at + n).min(f.len());
                f.drain(at..e);
            }
            2 => {
                let t = *r.pick(&["<", ">", "&", "\"", "'", "/>", "</", "<a>", "</a>", "&#0;", "&#xD800;", "&x;", "<![CDATA[", "]]>", "<!--", "<?", "<!DOCTYPE x [<!ENTITY y 'z'>]>"]);
                let t = t.as_bytes().to_vec();
                f.splice(at..at, t);
            }
            3 => f[at] = *r.pick(&[0u8, 0xff, 0x80, 0xc3, b' ', b'0', b'<']),
            4 => {
                let n = r.range(1, 60) as usize;
                let e = (at + n).min(f.len());
                let t = f[at..e].to_vec();
                f.splice(at..at, t);
            }
            _ => f.clear(),
        }
    }
    if fods {
        return Ok(fs.swap_remove(0).1);
    }
    if let Some(t) = tweaks.first() {
        let r = &mut Rng::new(*t ^ 0x5a5a);
        if r.chance(1, 12) {
            let i = r.below(fs.len() as u64) as usize;
            match r.below(3) {
                0 => drop(fs.remove(i)),
                1 => fs[i].0 = (*r.pick(&["", "/", "../x", "a/../b", "content.xml", "META-INF/manifest.xml", "é", "dir/"])).into(),
                _ => {
                    let f = fs[i].clone();
                    fs.push(f);
                }
            }
        }
    }
    Ok(pkg::store(&fs))
}
