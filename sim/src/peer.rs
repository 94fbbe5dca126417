//! The other program: reads a stored document by the standard alone (own zip, XML and
//! value code, nothing of the library) and says what it shows, in the model's terms.

use crate::model::*;
use crate::pkg;
use crate::xml::{self, Elem, Node};
use std::collections::BTreeMap;

type R<T> = Result<T, String>;

fn x(e: &Elem) -> X {
    X::E(e.name.clone(), e.attrs.clone(), xs(e))
}
fn xs(e: &Elem) -> Vec<X> {
    e.kids
        .iter()
        .map(|k| match k {
            Node::Text(t) => X::T(t.clone()),
            Node::Elem(e) => x(e),
        })
        .collect()
}
fn els(e: &Elem, n: &str) -> Vec<X> {
    e.elems().filter(|c| c.name == n).map(x).collect()
}

/// Days since 1970-01-01 of a day of the proleptic Gregorian calendar.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}
fn frac(f: &str) -> R<u32> {
    let s: String = f.chars().chain("000000000".chars()).take(9).collect();
    s.parse().map_err(|_| format!("fraction {f:?}"))
}
fn date(v: &str) -> R<(i64, u32)> {
    if !crate::schema::date(v) {
        return Err(format!("date {v:?}"));
    }
    let (d, t) = v.split_once('T').unwrap_or((v, "00:00:00"));
    let n = |s: &str| s.parse::<i64>().map_err(|_| format!("date {v:?}"));
    let (sign, d) = match d.strip_prefix('-') {
        Some(d) => (-1, d),
        None => (1, d),
    };
    let p: Vec<&str> = d.split('-').collect();
    let (hms, f) = t.split_once('.').unwrap_or((t, "0"));
    let q: Vec<&str> = hms.split(':').collect();
    let s = days(sign * n(p[0])?, n(p[1])?, n(p[2])?) * 86_400 + n(q[0])? * 3600 + n(q[1])? * 60 + n(q[2])?;
    Ok((s, frac(f)?))
}
fn dates(v: &str) -> R<String> {
    let (s, n) = date(v)?;
    Ok(format!("{s}.{n:09}"))
}
/// Total nanoseconds.
fn duration(v: &str) -> R<i128> {
    if !crate::schema::duration(v) {
        return Err(format!("duration {v:?}"));
    }
    let (neg, s) = match v.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, v),
    };
    let mut o: i128 = 0;
    let mut num = String::new();
    let mut time = false;
    for c in s[1..].chars() {
        match c {
            'T' => time = true,
            '0'..='9' | '.' => num.push(c),
            u => {
                let unit: i128 = match (u, time) {
                    ('D', false) => 86_400,
                    ('H', true) => 3600,
                    ('M', true) => 60,
                    ('S', true) => 1,
                    _ => return Err(format!("duration {v:?}")),
                };
                let (i, f) = num.split_once('.').unwrap_or((&num, "0"));
                let i: i128 = i.parse().map_err(|_| format!("duration {v:?}"))?;
                o += unit * (i * 1_000_000_000 + frac(f)? as i128);
                num.clear();
            }
        }
    }
    Ok(if neg { -o } else { o })
}
fn base64(s: &str) -> R<Vec<u8>> {
    let mut o = Vec::new();
    let (mut acc, mut n) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            b'=' | b'\n' | b'\r' | b' ' | b'\t' => continue,
            _ => return Err("not base64".into()),
        };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    Ok(o)
}

/// Column letters and row number of an address like `$A$1`.
fn cell_addr(s: &str) -> R<(u32, u32)> {
    let s = s.replace('$', "");
    let n = s.find(|c: char| c.is_ascii_digit()).ok_or(format!("address {s:?}"))?;
    let mut c = 0u32;
    for b in s[..n].bytes() {
        if !b.is_ascii_uppercase() {
            return Err(format!("address {s:?}"));
        }
        c = c * 26 + (b - b'A') as u32 + 1;
    }
    let r: u32 = s[n..].parse().map_err(|_| format!("address {s:?}"))?;
    if c == 0 || r == 0 {
        return Err(format!("address {s:?}"));
    }
    Ok((r - 1, c - 1))
}
/// `Sheet.A1` or `'a ''b'.A1` or `.A1`: sheet and rest.
fn sheet_addr(s: &str) -> R<(Option<String>, &str)> {
    let t = s.strip_prefix('$').unwrap_or(s);
    if let Some(q) = t.strip_prefix('\'') {
        let mut n = String::new();
        let mut it = q.char_indices().peekable();
        while let Some((i, c)) = it.next() {
            if c == '\'' {
                if it.peek().map(|p| p.1) == Some('\'') {
                    it.next();
                    n.push('\'');
                } else {
                    let rest = q[i + 1..].strip_prefix('.').ok_or(format!("address {s:?}"))?;
                    return Ok((Some(n), rest));
                }
            } else {
                n.push(c);
            }
        }
        return Err(format!("address {s:?}"));
    }
    match t.split_once('.') {
        Some(("", r)) => Ok((None, r)),
        Some((n, r)) => Ok((Some(n.to_string()), r)),
        None => Ok((None, t)),
    }
}
/// Splits at blanks outside of quotes.
fn addr_list(s: &str) -> Vec<String> {
    split_quoted(s, ' ')
}
fn split_quoted(s: &str, at: char) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut q = false;
    for c in s.chars() {
        if c == '\'' {
            q = !q;
        }
        if c == at && !q {
            v.push(String::new());
        } else {
            v.last_mut().unwrap().push(c);
        }
    }
    v.retain(|s| !s.is_empty());
    v
}

struct Doc {
    content: Elem,
    styles: Elem,
    meta: Elem,
    settings: Elem,
    files: BTreeMap<String, Vec<u8>>,
    types: BTreeMap<String, String>,
    fods: bool,
}

fn open(b: &[u8], fods: bool) -> R<Doc> {
    if fods {
        let e = xml::parse(b)?;
        return Ok(Doc {
            content: e.clone(),
            styles: e.clone(),
            meta: e.clone(),
            settings: e,
            files: BTreeMap::new(),
            types: BTreeMap::new(),
            fods,
        });
    }
    let mut files = BTreeMap::new();
    for e in pkg::entries(b)? {
        files.insert(e.name.clone(), pkg::member(b, &e)?);
    }
    let part = |n: &str| -> R<Elem> {
        xml::parse(files.get(n).ok_or(format!("no {n}"))?).map_err(|e| format!("{n}: {e}"))
    };
    let m = part("META-INF/manifest.xml")?;
    let types = m
        .elems()
        .map(|e| {
            (
                e.attr("manifest:full-path").unwrap_or("").to_string(),
                e.attr("manifest:media-type").unwrap_or("").to_string(),
            )
        })
        .collect();
    Ok(Doc {
        content: part("content.xml")?,
        styles: part("styles.xml")?,
        meta: part("meta.xml")?,
        settings: part("settings.xml")?,
        types,
        files,
        fods,
    })
}

fn own(n: &str) -> bool {
    n.starts_with('z') || n.starts_with('@') || locale_name(n)
}

const FAM_NAMES: [(Fam, &str); 8] = [
    (Fam::Table, "table"),
    (Fam::Row, "table-row"),
    (Fam::Col, "table-column"),
    (Fam::Cell, "table-cell"),
    (Fam::Para, "paragraph"),
    (Fam::Text, "text"),
    (Fam::Ruby, "ruby"),
    (Fam::Graphic, "graphic"),
];
fn groups(f: Fam) -> &'static [&'static str] {
    match f {
        Fam::Table => &["style:table-properties"],
        Fam::Row => &["style:table-row-properties"],
        Fam::Col => &["style:table-column-properties"],
        Fam::Cell => &["style:table-cell-properties", "style:paragraph-properties", "style:text-properties"],
        Fam::Para => &["style:paragraph-properties", "style:text-properties"],
        Fam::Text => &["style:text-properties"],
        Fam::Ruby => &["style:ruby-properties"],
        Fam::Graphic => &["style:graphic-properties", "style:paragraph-properties", "style:text-properties"],
    }
}
const FMT_ELEMS: [&str; 7] = [
    "number:boolean-style",
    "number:number-style",
    "number:percentage-style",
    "number:currency-style",
    "number:text-style",
    "number:date-style",
    "number:time-style",
];
const PART_ELEMS: [&str; 19] = [
    "number:number",
    "number:fill-character",
    "number:scientific-number",
    "number:fraction",
    "number:currency-symbol",
    "number:day",
    "number:month",
    "number:year",
    "number:era",
    "number:day-of-week",
    "number:week-of-year",
    "number:quarter",
    "number:hours",
    "number:minutes",
    "number:seconds",
    "number:am-pm",
    "number:boolean",
    "number:text",
    "number:text-content",
];

#[derive(Default)]
struct Out {
    kv: Kv,
    /// (family, name in the document) -> name of the history
    names: BTreeMap<(String, String), String>,
    /// style:name -> width / height
    widths: BTreeMap<String, String>,
    heights: BTreeMap<String, String>,
}

impl Out {
    fn put(&mut self, k: String, v: impl Into<String>) {
        self.kv.insert(k, v.into());
    }
    fn known(&self, fam: &str, n: &str) -> String {
        self.names
            .get(&(fam.to_string(), n.to_string()))
            .cloned()
            .unwrap_or_else(|| n.to_string())
    }

    fn style(&mut self, e: &Elem, place: &str) -> R<()> {
        let fam = e.attr("style:family").ok_or("style without family")?;
        let Some((f, _)) = FAM_NAMES.iter().find(|(_, n)| *n == fam) else {
            return Ok(());
        };
        let default = e.name == "style:default-style";
        let name = e.attr("style:name").unwrap_or("").to_string();
        if *f == Fam::Col {
            if let Some(w) = e.child("style:table-column-properties").and_then(|p| p.attr("style:column-width")) {
                self.widths.insert(name.clone(), w.into());
            }
        }
        if *f == Fam::Row {
            if let Some(w) = e.child("style:table-row-properties").and_then(|p| p.attr("style:row-height")) {
                self.heights.insert(name.clone(), w.into());
            }
        }
        let known = match e.attr("style:display-name") {
            Some(d) if d.starts_with('@') => d.to_string(),
            _ => name.clone(),
        };
        if known != name {
            self.names.insert((fam.to_string(), name.clone()), known.clone());
        }
        if !default && !own(&known) {
            return Ok(());
        }
        let k = style_key(*f, if default { DEFAULT_NAME } else { &known });
        self.put(format!("{k}|place"), if default { "StylesDefault" } else { place });
        for (a, v) in &e.attrs {
            if a != "style:name" && a != "style:family" && !managed_attr(*f, a) {
                self.put(format!("{k}|0.{a}"), v.clone());
            }
        }
        for (i, g) in groups(*f).iter().enumerate() {
            if let Some(p) = e.child(g) {
                for (a, v) in &p.attrs {
                    if !managed_attr(*f, a) {
                        self.put(format!("{k}|{}.{a}", i + 1), v.clone());
                    }
                }
                if let Some(t) = p.child("style:tab-stops").filter(|_| *f == Fam::Para) {
                    for (i, t) in t.elems().enumerate() {
                        self.put(format!("{k}|tab{i}"), format!("{:?}", attrs_canon(&t.attrs)));
                    }
                }
            }
        }
        for (i, m) in e.elems().filter(|m| m.name == "style:map").enumerate() {
            self.put(
                format!("{k}|map{i}"),
                format!(
                    "{} -> {:?} base={:?}",
                    m.attr("style:condition").unwrap_or(""),
                    m.attr("style:apply-style-name").unwrap_or(""),
                    m.attr("style:base-cell-address")
                ),
            );
        }
        Ok(())
    }

    fn format(&mut self, e: &Elem, kind: usize, place: &str) {
        let name = match e.attr("style:display-name") {
            Some(d) if d.starts_with('@') => d,
            _ => e.attr("style:name").unwrap_or(""),
        };
        if !own(name) {
            return;
        }
        let k = format!("fmt.{}.{}", FMT_KINDS[kind], name);
        self.put(format!("{k}|place"), place);
        for (a, v) in &e.attrs {
            if a != "style:name" {
                self.put(format!("{k}|a.{a}"), v.clone());
            }
        }
        let (mut np, mut nm) = (0, 0);
        for c in e.elems() {
            if c.name == "style:text-properties" {
                for (a, v) in &c.attrs {
                    self.put(format!("{k}|t.{a}"), v.clone());
                }
            } else if c.name == "style:map" {
                self.put(
                    format!("{k}|map{nm}"),
                    format!(
                        "{} -> {:?}",
                        c.attr("style:condition").unwrap_or(""),
                        c.attr("style:apply-style-name").unwrap_or("")
                    ),
                );
                nm += 1;
            } else if let Some(ty) = PART_ELEMS.iter().position(|p| *p == c.name) {
                let emb = c.child("number:embedded-text");
                let content = match emb {
                    Some(t) => Some(t.text()),
                    None => Some(c.text()),
                };
                self.put(
                    format!("{k}|part{np}"),
                    part_canon(&PartSpec {
                        ty: ty as u8,
                        attrs: c.attrs.clone(),
                        content,
                        pos: emb.and_then(|t| t.attr("number:position")).and_then(|p| p.parse().ok()),
                    }),
                );
                np += 1;
            }
        }
    }

    fn styles_of(&mut self, e: &Elem, place: &str) -> R<()> {
        for c in e.elems() {
            if c.name == "style:style" || c.name == "style:default-style" {
                self.style(c, place)?;
            } else if let Some(k) = FMT_ELEMS.iter().position(|n| *n == c.name) {
                self.format(c, k, place);
            } else if c.name == "style:page-layout" {
                let n = c.attr("style:name").unwrap_or("");
                if own(n) {
                    let k = format!("page.{n}");
                    self.put(format!("{k}|usage"), format!("{:?}", c.attr("style:page-usage")));
                    for (g, path) in [
                        ("p", vec!["style:page-layout-properties"]),
                        ("h", vec!["style:header-style", "style:header-footer-properties"]),
                        ("f", vec!["style:footer-style", "style:header-footer-properties"]),
                    ] {
                        let mut at = Some(c);
                        for p in path {
                            at = at.and_then(|a| a.child(p));
                        }
                        for (a, v) in at.into_iter().flat_map(|a| &a.attrs) {
                            self.put(format!("{k}|{g}.{a}"), v.clone());
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn fonts(&mut self, e: Option<&Elem>, place: &str) {
        for f in e.into_iter().flat_map(|e| e.elems()) {
            let n = f.attr("style:name").unwrap_or("").to_string();
            if own(&n) {
                self.put(format!("font.{n}|place"), place);
                for (a, v) in &f.attrs {
                    if a != "style:name" {
                        self.put(format!("font.{n}|{a}"), v.clone());
                    }
                }
            }
        }
    }

    fn masters(&mut self, e: Option<&Elem>) {
        for m in e.into_iter().flat_map(|e| e.elems()).filter(|m| m.name == "style:master-page") {
            let n = m.attr("style:name").unwrap_or("");
            if !own(n) {
                continue;
            }
            let k = format!("master.{n}");
            self.put(
                format!("{k}|base"),
                format!(
                    "{:?} page={:?} next={:?}",
                    m.attr("style:display-name").unwrap_or(""),
                    m.attr("style:page-layout-name").unwrap_or(""),
                    m.attr("style:next-style-name")
                ),
            );
            for (i, h) in [
                "style:header",
                "style:header-first",
                "style:header-left",
                "style:footer",
                "style:footer-first",
                "style:footer-left",
            ]
            .iter()
            .enumerate()
            {
                let Some(h) = m.child(h) else { continue };
                let reg = |n: &str| h.child(n).map(|e| e.elems().map(x).collect()).unwrap_or_default();
                let s = HfSpec {
                    display: h.attr("style:display") != Some("false"),
                    left: reg("style:region-left"),
                    center: reg("style:region-center"),
                    right: reg("style:region-right"),
                    content: h.elems().filter(|e| !e.name.starts_with("style:region")).map(x).collect(),
                };
                if !s.is_empty() {
                    self.put(format!("{k}|hf{i}"), s.canon());
                }
            }
        }
    }

    fn validation(&mut self, v: &Elem) {
        let msg = |m: &Elem, err: bool| {
            let text = m.elems().next().map(|t| canon(&[x(t)]));
            let disp = m.attr("table:display").unwrap_or("false");
            let title = m.attr("table:title");
            if err {
                format!("{} {} {:?} {:?}", disp, m.attr("table:message-type").unwrap_or("stop"), title, text)
            } else {
                format!("{} {:?} {:?}", disp, title, text)
            }
        };
        let cond = v.attr("table:condition").unwrap_or("");
        let cond = cond.strip_prefix("of:").unwrap_or(cond);
        let n = v.attr("table:name").unwrap_or("");
        self.put(
            format!("valid.{n}"),
            format!(
                "cond={} base={} empty={} display={} err={:?} help={:?}",
                cond,
                v.attr("table:base-cell-address").unwrap_or(""),
                v.attr("table:allow-empty-cell").unwrap_or("true"),
                match v.attr("table:display-list").unwrap_or("unsorted") {
                    "none" => "NoDisplay",
                    "unsorted" => "Unsorted",
                    _ => "SortAscending",
                },
                v.child("table:error-message").map(|m| msg(m, true)),
                v.child("table:help-message").map(|m| msg(m, false)),
            ),
        );
    }

    fn cell(&self, e: &Elem) -> R<Kv> {
        let mut k = Kv::new();
        let f = |a: &str| -> R<String> {
            let v = e.attr(a).ok_or(format!("no {a}"))?;
            v.parse::<f64>().map(|f| format!("{f:?}")).map_err(|_| format!("{a}={v:?}"))
        };
        let text: Vec<X> = e
            .elems()
            .filter(|c| c.name != "office:annotation" && c.name != "draw:frame")
            .map(x)
            .collect();
        let v = match e.attr("office:value-type") {
            None => None,
            Some("boolean") => Some(format!("B{}", e.attr("office:boolean-value").unwrap_or("?"))),
            Some("float") => Some(format!("N{}", f("office:value")?)),
            Some("percentage") => Some(format!("P{}", f("office:value")?)),
            Some("currency") => Some(format!(
                "C{:?} {}",
                e.attr("office:currency").unwrap_or(""),
                f("office:value")?
            )),
            Some("date") => Some(format!("D{}", dates(e.attr("office:date-value").unwrap_or(""))?)),
            Some("time") => Some(format!("I{}", duration(e.attr("office:time-value").unwrap_or(""))?)),
            Some("string") => Some(match e.attr("office:string-value") {
                Some(s) => canon_text(s),
                None => canon_xml_value(&text),
            }),
            Some(o) => return Err(format!("value type {o:?}")),
        };
        if let Some(v) = v {
            k.insert("val".into(), v);
        }
        if let Some(v) = e.attr("table:formula") {
            k.insert("formula".into(), format!("{v:?}"));
        }
        if let Some(v) = e.attr("table:style-name") {
            k.insert("style".into(), self.known("table-cell", v));
        }
        if let Some(v) = e.attr("table:content-validation-name") {
            k.insert("valid".into(), v.into());
        }
        let n = |a: &str| e.attr(a).map_or(Ok(1), |v| v.parse::<u32>().map_err(|_| format!("{a}={v:?}")));
        for (key, r, c) in [
            ("span", "table:number-rows-spanned", "table:number-columns-spanned"),
            ("mspan", "table:number-matrix-rows-spanned", "table:number-matrix-columns-spanned"),
        ] {
            let (r, c) = (n(r)?, n(c)?);
            if (r, c) != (1, 1) {
                k.insert(key.into(), format!("{r}x{c}"));
            }
        }
        if let Some(a) = e.child("office:annotation") {
            k.insert(
                "annot".into(),
                annot_canon(&AnnotSpec {
                    name: a.attr("office:name").unwrap_or("").into(),
                    display: a.attr("office:display") == Some("true"),
                    creator: a.child("dc:creator").map(|c| c.text()),
                    date: a.child("dc:date").map(|c| date(&c.text())).transpose()?,
                    text: a.elems().filter(|c| c.name.starts_with("text:")).map(x).collect(),
                    attrs: a.attrs.clone(),
                }),
            );
        }
        let frames: Vec<String> = e
            .elems()
            .filter(|c| c.name == "draw:frame")
            .map(|f| -> R<String> {
                let mut images = Vec::new();
                for i in f.elems().filter(|c| c.name == "draw:image") {
                    images.push(ImageSpec {
                        attrs: i.attrs.clone(),
                        bin: i.child("office:binary-data").map(|b| base64(&b.text())).transpose()?,
                        text: els(i, "text:p"),
                    });
                }
                Ok(frame_canon(&FrameSpec {
                    attrs: f.attrs.clone(),
                    title: f.child("svg:title").map(|t| t.text()),
                    desc: f.child("svg:desc").map(|t| t.text()),
                    images,
                }))
            })
            .collect::<R<_>>()?;
        if !frames.is_empty() {
            k.insert("frames".into(), frames.join(" | "));
        }
        Ok(k)
    }
}

#[derive(Default)]
struct Tab {
    row: u32,
    col: u32,
    cells: BTreeMap<(u32, u32), Kv>,
    covered: Vec<(u32, u32)>,
    written: Vec<(u32, u32)>,
    rows: BTreeMap<u32, Kv>,
    cols: BTreeMap<u32, Kv>,
    cg: BTreeMap<(u32, u32), bool>,
    rg: BTreeMap<(u32, u32), bool>,
    hr: Option<(u32, u32)>,
    hc: Option<(u32, u32)>,
}

const FAR: u32 = 4000;

fn vis(e: &Elem, k: &mut Kv) {
    match e.attr("table:visibility") {
        None | Some("visible") => {}
        Some(v) => {
            k.insert("vis".into(), v.into());
        }
    }
}

fn walk(o: &Out, e: &Elem, t: &mut Tab) -> R<()> {
    let rep = |c: &Elem, a: &str| -> R<u32> {
        c.attr(a).map_or(Ok(1), |v| v.parse::<u32>().map_err(|_| format!("{a}={v:?}")))
    };
    let extent = |h: &mut Option<(u32, u32)>, a: u32, b: u32| {
        *h = Some(match *h {
            Some((x, _)) => (x, b),
            None => (a, b),
        })
    };
    for c in e.elems() {
        match c.name.as_str() {
            "table:table-columns" | "table:table-rows" => walk(o, c, t)?,
            "table:table-column-group" => {
                let a = t.col;
                walk(o, c, t)?;
                t.cg.insert((a, t.col - 1), c.attr("table:display") != Some("false"));
            }
            "table:table-row-group" => {
                let a = t.row;
                walk(o, c, t)?;
                t.rg.insert((a, t.row - 1), c.attr("table:display") != Some("false"));
            }
            "table:table-header-columns" => {
                let a = t.col;
                walk(o, c, t)?;
                extent(&mut t.hc, a, t.col - 1);
            }
            "table:table-header-rows" => {
                let a = t.row;
                walk(o, c, t)?;
                extent(&mut t.hr, a, t.row - 1);
            }
            "table:table-column" => {
                let n = rep(c, "table:number-columns-repeated")?;
                let mut k = Kv::new();
                if let Some(s) = c.attr("table:style-name") {
                    let kn = o.known("table-column", s);
                    if own(&kn) {
                        k.insert("style".into(), kn);
                    }
                    if let Some(w) = o.widths.get(s) {
                        k.insert("width".into(), w.clone());
                    }
                }
                if let Some(s) = c.attr("table:default-cell-style-name") {
                    if s != "Default" {
                        k.insert("cell".into(), o.known("table-cell", s));
                    }
                }
                vis(c, &mut k);
                for i in t.col..(t.col.saturating_add(n)).min(FAR) {
                    if !k.is_empty() {
                        t.cols.insert(i, k.clone());
                    }
                }
                t.col = t.col.checked_add(n).ok_or("too many columns")?;
            }
            "table:table-row" => {
                let n = rep(c, "table:number-rows-repeated")?;
                let mut k = Kv::new();
                if let Some(s) = c.attr("table:style-name") {
                    let kn = o.known("table-row", s);
                    if own(&kn) {
                        k.insert("style".into(), kn);
                    }
                    if let Some(w) = o.heights.get(s) {
                        k.insert("height".into(), w.clone());
                    }
                }
                if let Some(s) = c.attr("table:default-cell-style-name") {
                    k.insert("cell".into(), o.known("table-cell", s));
                }
                vis(c, &mut k);
                let mut col = 0u32;
                let mut cells = Vec::new();
                for d in c.elems() {
                    let m = rep(d, "table:number-columns-repeated")?;
                    let kv = o.cell(d)?;
                    let cov = d.name == "table:covered-table-cell";
                    if !kv.is_empty() || cov {
                        for i in col..col.saturating_add(m).min(FAR) {
                            cells.push((i, kv.clone(), cov));
                        }
                    } else if m < 64 {
                        for i in col..col + m {
                            cells.push((i, Kv::new(), false));
                        }
                    }
                    col = col.checked_add(m).ok_or("too many columns")?;
                }
                for r in t.row..t.row.saturating_add(n).min(FAR) {
                    if !k.is_empty() {
                        t.rows.insert(r, k.clone());
                    }
                    if n > 200 && cells.iter().all(|c| c.1.is_empty()) {
                        continue;
                    }
                    for (i, kv, cov) in &cells {
                        if !kv.is_empty() {
                            t.cells.insert((r, *i), kv.clone());
                        }
                        if *cov {
                            t.covered.push((r, *i));
                        } else {
                            t.written.push((r, *i));
                        }
                    }
                }
                t.row = t.row.checked_add(n).ok_or("too many rows")?;
            }
            _ => {}
        }
    }
    Ok(())
}

fn item(set: &Elem, name: &str) -> Option<String> {
    set.elems()
        .find(|e| e.name == "config:config-item" && e.attr("config:name") == Some(name))
        .map(|e| e.text())
}
fn named<'a>(set: &'a Elem, name: &str) -> Option<&'a Elem> {
    set.elems().find(|e| e.attr("config:name") == Some(name))
}

const CFG_ITEMS: [&str; 15] = [
    "CursorPositionX",
    "CursorPositionY",
    "HorizontalSplitMode",
    "VerticalSplitMode",
    "HorizontalSplitPosition",
    "VerticalSplitPosition",
    "ActiveSplitRange",
    "PositionLeft",
    "PositionRight",
    "PositionTop",
    "PositionBottom",
    "ZoomType",
    "ZoomValue",
    "PageViewZoomValue",
    "ShowGrid",
];

/// Everything the document shows, by the keys of `Model::flat_doc`.
pub fn read(b: &[u8], fods: bool) -> R<Kv> {
    let d = open(b, fods)?;
    let mut o = Out::default();
    // styles
    if let Some(e) = d.styles.child("office:styles") {
        o.styles_of(e, "StylesNamed")?;
    }
    if let (Some(e), false) = (d.styles.child("office:automatic-styles"), d.fods) {
        o.styles_of(e, "StylesAuto")?;
    }
    if let Some(e) = d.content.child("office:automatic-styles") {
        o.styles_of(e, "ContentAuto")?;
    }
    if !d.fods {
        o.fonts(d.styles.child("office:font-face-decls"), "Styles");
    }
    o.fonts(d.content.child("office:font-face-decls"), "Content");
    o.masters(d.styles.child("office:master-styles"));
    // scripts
    if let Some(s) = d.content.child("office:scripts") {
        for (i, c) in s.elems().filter(|e| e.name == "office:script").enumerate() {
            let v = format!("{:?} {}", c.attr("script:language").unwrap_or(""), canon(&xs(c)));
            o.put(format!("script.{i}"), v);
        }
        for e in s.child("office:event-listeners").into_iter().flat_map(|e| e.elems()) {
            let v = format!(
                "lang={:?} macro={:?} href={:?} {} {}",
                e.attr("script:language").unwrap_or(""),
                e.attr("script:macro-name").unwrap_or(""),
                e.attr("xlink:href").unwrap_or(""),
                e.attr("xlink:actuate").unwrap_or("onLoad"),
                e.attr("xlink:type").unwrap_or("simple")
            );
            o.put(format!("event.{}", e.attr("script:event-name").unwrap_or("")), v);
        }
    }
    // settings
    let view = d
        .settings
        .child("office:settings")
        .and_then(|s| named(s, "ooo:view-settings"))
        .and_then(|s| named(s, "Views"))
        .and_then(|v| v.elems().next());
    if let Some(v) = view {
        if let Some(a) = item(v, "ActiveTable").filter(|a| !a.is_empty()) {
            o.put("cfg.active_table".into(), a);
        }
        for (n, k, def) in [
            ("ShowGrid", "show_grid", "true"),
            ("ShowPageBreaks", "show_page_breaks", "false"),
            ("HasSheetTabs", "has_sheet_tabs", "true"),
        ] {
            if let Some(x) = item(v, n).filter(|x| x != def) {
                o.put(format!("cfg.{k}"), x);
            }
        }
    }
    let tables = view.and_then(|v| named(v, "Tables"));
    // body
    let body = d
        .content
        .child("office:body")
        .and_then(|b| b.child("office:spreadsheet"))
        .ok_or("no spreadsheet")?;
    for v in body.child("table:content-validations").into_iter().flat_map(|v| v.elems()) {
        o.validation(v);
    }
    let mut n = 0;
    for t in body.elems().filter(|e| e.name == "table:table") {
        let p = format!("s{n}");
        n += 1;
        let name = t.attr("table:name").unwrap_or("");
        o.put(format!("{p}.name"), name);
        for a in ["display", "print"] {
            if t.attr(&format!("table:{a}")) == Some("false") && a == "print" {
                o.put(format!("{p}.{a}"), "false");
            }
        }
        if let Some(s) = t.attr("table:style-name") {
            let s = o.known("table", s);
            o.put(format!("{p}.style"), s);
        }
        if let Some(r) = t.attr("table:print-ranges") {
            let mut v = Vec::new();
            for a in addr_list(r) {
                let parts = split_quoted(&a, ':');
                let (_, f) = sheet_addr(&parts[0])?;
                let (f, g) = match parts.get(1) {
                    Some(q) => (cell_addr(f)?, cell_addr(sheet_addr(q)?.1)?),
                    None => (cell_addr(f)?, cell_addr(f)?),
                };
                v.push(format!("{},{}:{},{}", f.0, f.1, g.0, g.1));
            }
            if !v.is_empty() {
                o.put(format!("{p}.print_ranges"), v.join(" "));
            }
        }
        if let Some(c) = tables.and_then(|t| named(t, name)) {
            for (i, n) in CFG_ITEMS.iter().enumerate() {
                if let Some(v) = item(c, n) {
                    let v = match v.as_str() {
                        "true" => "1".to_string(),
                        "false" => "0".to_string(),
                        v => v.to_string(),
                    };
                    if v != CFG_DEF[i].to_string() {
                        o.put(format!("{p}.cfg.{}", CFG_NAMES[i]), v);
                    }
                }
            }
        }
        let mut tab = Tab::default();
        walk(&o, t, &mut tab)?;
        // what is below a spanned cell is marked as covered, and nothing else
        let mut under = std::collections::BTreeSet::new();
        for ((r, c), kv) in &tab.cells {
            if let Some((h, w)) = kv.get("span").and_then(|s| s.split_once('x')) {
                let (h, w): (u32, u32) = (h.parse().unwrap(), w.parse().unwrap());
                for i in *r..r.saturating_add(h).min(FAR) {
                    for j in *c..c.saturating_add(w).min(FAR) {
                        if (i, j) != (*r, *c) {
                            under.insert((i, j));
                        }
                    }
                }
            }
        }
        if let Some(x) = tab.covered.iter().find(|x| !under.contains(x)) {
            o.put(format!("{p}.covered"), format!("{x:?} is not below a spanned cell"));
        } else if let Some(x) = tab.written.iter().find(|x| under.contains(x)) {
            o.put(format!("{p}.covered"), format!("{x:?} is below a spanned cell"));
        }
        for ((r, c), kv) in &tab.cells {
            if kv.len() == 1 {
                if let Some(st) = kv.get("style") {
                    if tab.cols.get(c).and_then(|k| k.get("cell")) == Some(st) {
                        continue;
                    }
                }
            }
            for (k, v) in kv {
                o.put(format!("{p}.cell.{r:07}.{c:05}.{k}"), v.clone());
            }
        }
        for (r, kv) in &tab.rows {
            for (k, v) in kv {
                o.put(format!("{p}.row.{r:07}.{k}"), v.clone());
            }
        }
        for (c, kv) in &tab.cols {
            for (k, v) in kv {
                o.put(format!("{p}.col.{c:05}.{k}"), v.clone());
            }
        }
        for ((a, b), d) in &tab.cg {
            o.put(format!("{p}.cgrp.{a:05}-{b:05}"), d.to_string());
        }
        for ((a, b), d) in &tab.rg {
            o.put(format!("{p}.rgrp.{a:05}-{b:05}"), d.to_string());
        }
        if let Some((a, b)) = tab.hr {
            o.put(format!("{p}.hrows"), format!("{a}-{b}"));
        }
        if let Some((a, b)) = tab.hc {
            o.put(format!("{p}.hcols"), format!("{a}-{b}"));
        }
    }
    o.put("sheets".into(), n.to_string());
    // metadata
    if let Some(m) = d.meta.child("office:meta") {
        let mut user = 0;
        for e in m.elems() {
            let t = e.text();
            let s = |k: &str| (!t.is_empty()).then(|| (format!("meta.{k}"), t.clone()));
            let dt = |k: &str| -> R<_> { Ok(Some((format!("meta.{k}"), dates(&t)?))) };
            let opt = |v: Option<&str>| v.map(|v| v.to_string());
            let kv = match e.name.as_str() {
                "dc:title" => s("title"),
                "dc:description" => s("description"),
                "dc:subject" => s("subject"),
                "meta:keyword" => s("keyword"),
                "meta:initial-creator" => s("initial_creator"),
                "dc:creator" => s("creator"),
                "meta:printed-by" => s("printed_by"),
                "dc:language" => s("language"),
                "meta:creation-date" => dt("creation_date")?,
                "dc:date" => dt("date")?,
                "meta:print-date" => dt("print_date")?,
                "meta:editing-cycles" => (t != "0").then(|| ("meta.cycles".into(), t.clone())),
                "meta:editing-duration" => {
                    let n = duration(&t)?;
                    (n != 0).then(|| ("meta.editdur".into(), n.to_string()))
                }
                "meta:template" => Some((
                    "meta.template".into(),
                    format!(
                        "date={:?} href={:?} title={:?} actuate={:?} type={:?}",
                        e.attr("meta:date").map(dates).transpose()?,
                        opt(e.attr("xlink:href")),
                        opt(e.attr("xlink:title")),
                        e.attr("xlink:actuate"),
                        e.attr("xlink:type")
                    ),
                )),
                "meta:auto-reload" => Some((
                    "meta.reload".into(),
                    format!(
                        "delay={:?} href={:?} show={:?} actuate={:?} type={:?}",
                        e.attr("meta:delay").map(duration).transpose()?,
                        opt(e.attr("xlink:href")),
                        e.attr("xlink:show"),
                        e.attr("xlink:actuate"),
                        e.attr("xlink:type")
                    ),
                )),
                "meta:hyperlink-behaviour" => Some((
                    "meta.hyper".into(),
                    format!(
                        "target={:?} show={:?}",
                        opt(e.attr("office:target-frame-name")),
                        e.attr("xlink:show")
                    ),
                )),
                "meta:document-statistic" => {
                    for (a, k, zero) in [
                        ("meta:table-count", "tables", true),
                        ("meta:cell-count", "cells", true),
                        ("meta:object-count", "objects", false),
                        ("meta:ole-object-count", "oleobjects", false),
                    ] {
                        if let Some(v) = e.attr(a).filter(|v| zero || *v != "0") {
                            o.put(format!("meta.{k}"), v);
                        }
                    }
                    None
                }
                "meta:user-defined" => {
                    let v = match e.attr("meta:value-type") {
                        Some("boolean") => format!("B{t}"),
                        Some("date") => format!("D{}", dates(&t)?),
                        Some("float") => format!("F{:?}", t.parse::<f64>().map_err(|_| format!("float {t:?}"))?),
                        Some("time") => format!("I{}", duration(&t)?),
                        _ => format!("S{t:?}"),
                    };
                    user += 1;
                    Some((
                        format!("meta.user{:03}", user - 1),
                        format!("{:?}={}", e.attr("meta:name").unwrap_or(""), v),
                    ))
                }
                _ => None,
            };
            if let Some((k, v)) = kv {
                o.put(k, v);
            }
        }
    }
    // files
    for (p, b) in &d.files {
        if p.starts_with('z') {
            let t = d.types.get(p).cloned().unwrap_or_default();
            o.put(format!("file.{p}"), format!("{t:?} {b:?}"));
        }
    }
    Ok(o.kv)
}

/// What the other program can be asked about.
pub fn keep(k: &str) -> bool {
    // styles of the library's locales are only there if used
    let locale = ["style.", "fmt."].iter().any(|p| {
        k.strip_prefix(p)
            .and_then(|r| r.split_once('.'))
            .is_some_and(|(_, n)| locale_name(n.split('|').next().unwrap_or("")))
    });
    !locale && !k.starts_with("defstyle.") && !k.ends_with(".display")
}
