//! The other program: it edits a stored document behind the library's back, and
//! later looks whether what it put there is still in place.

use crate::model::X;
use crate::pkg;
use crate::rng::Rng;
use crate::xml::{self, Elem, Node};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Frag {
    /// Element below office:spreadsheet.
    Book(X),
    /// Element of the n-th table.
    Sheet(u32, X),
    /// Directory entry of the manifest.
    Dir(String),
    /// Additional package member.
    File(String, String, Vec<u8>),
}

const BOOK_PRE: [&str; 5] = [
    "table:calculation-settings",
    "table:label-ranges",
    "table:tracked-changes",
    "text:sequence-decls",
    "text:user-field-decls",
];
const BOOK_POST: [&str; 5] = [
    "table:consolidation",
    "table:data-pilot-tables",
    "table:database-ranges",
    "table:dde-links",
    "table:named-expressions",
];
const SHEET_PRE: [&str; 6] = [
    "table:title",
    "table:desc",
    "table:table-source",
    "table:scenario",
    "office:forms",
    "table:shapes",
];
const SHEET_POST: [&str; 2] = ["table:named-expressions", "calcext:conditional-formats"];

fn inner(r: &mut Rng, depth: u32) -> Vec<X> {
    let mut v = Vec::new();
    for _ in 0..r.below(3) {
        if depth > 0 && r.chance(2, 3) {
            let n = *r.pick(&[
                "table:named-range",
                "table:named-expression",
                "calcext:condition",
                "draw:frame",
                "text:p",
                "zext:item",
            ]);
            let mut a = vec![];
            if r.chance(2, 3) {
                a.push(("table:name".to_string(), crate::gen::word(r)));
            }
            if r.chance(1, 3) {
                a.push(("zext:mark".to_string(), crate::gen::attrv(r)));
            }
            let k = inner(r, depth - 1);
            v.push(X::E(n.into(), a, k));
        } else {
            let t = *r.pick(&["text", "a&b<c>", " lead", "trail ", "x  y", "é"]);
            v.push(X::T(t.into()));
        }
    }
    v
}

fn element(r: &mut Rng, n: &str) -> X {
    let mut a = vec![];
    if r.chance(1, 2) {
        a.push(("table:name".to_string(), crate::gen::word(r)));
    }
    if r.chance(1, 3) {
        a.push(("zext:mark".to_string(), crate::gen::attrv(r)));
    }
    let k = inner(r, 3);
    X::E(n.into(), a, k)
}

pub fn gen(r: &mut Rng) -> Vec<Frag> {
    let mut v = Vec::new();
    let mut used: Vec<(u32, &str)> = Vec::new();
    for _ in 0..r.range(1, 5) {
        match r.below(8) {
            0..=2 => {
                let n = if r.chance(1, 2) { *r.pick(&BOOK_PRE) } else { *r.pick(&BOOK_POST) };
                if used.contains(&(99, n)) {
                    continue;
                }
                used.push((99, n));
                v.push(Frag::Book(element(r, n)));
            }
            3..=5 => {
                let s = r.below(3) as u32;
                let n = if r.chance(1, 2) { *r.pick(&SHEET_PRE) } else { *r.pick(&SHEET_POST) };
                if used.contains(&(s, n)) {
                    continue;
                }
                used.push((s, n));
                v.push(Frag::Sheet(s, element(r, n)));
            }
            6 => v.push(Frag::Dir((*r.pick(&["zconf/", "zconf/images/", "zthumb/"])).into())),
            _ => v.push(Frag::File(
                (*r.pick(&["zpeer/a.bin", "zpeer/b.svg", "zpeer.xml"])).into(),
                "application/octet-stream".into(),
                crate::gen::bytes(r, 300),
            )),
        }
    }
    v
}

fn to_elem(x: &X) -> Elem {
    match x {
        X::T(_) => Elem::default(),
        X::E(n, a, c) => Elem {
            name: n.clone(),
            attrs: a.clone(),
            kids: c
                .iter()
                .map(|k| match k {
                    X::T(t) => Node::Text(t.clone()),
                    X::E(..) => Node::Elem(to_elem(k)),
                })
                .collect(),
        },
    }
}
/// Adjacent texts are one text in a document.
fn merge(e: &mut Elem) {
    let mut o: Vec<Node> = Vec::new();
    for k in std::mem::take(&mut e.kids) {
        match k {
            Node::Text(t) => {
                if t.is_empty() {
                    continue;
                }
                if let Some(Node::Text(p)) = o.last_mut() {
                    p.push_str(&t);
                } else {
                    o.push(Node::Text(t));
                }
            }
            Node::Elem(mut c) => {
                merge(&mut c);
                o.push(Node::Elem(c));
            }
        }
    }
    e.kids = o;
}

pub type Raw = Vec<(String, String)>;

pub struct Injected {
    pub bytes: Vec<u8>,
    pub raw: Raw,
    pub files: Vec<(String, String, Vec<u8>)>,
}

pub fn inject(b: &[u8], fods: bool, frags: &[Frag]) -> Result<Injected, String> {
    let mut files: Vec<(String, Vec<u8>)> = Vec::new();
    let mut doc = if fods {
        xml::parse(b)?
    } else {
        for e in pkg::entries(b)? {
            if !e.name.ends_with('/') {
                files.push((e.name.clone(), pkg::member(b, &e)?));
            }
        }
        let c = files.iter().find(|f| f.0 == "content.xml").ok_or("no content")?;
        xml::parse(&c.1)?
    };
    let mut raw = Raw::new();
    let mut added = Vec::new();
    if doc.attr("xmlns:zext").is_none() {
        doc.attrs.push(("xmlns:zext".into(), "urn:zext:a&b".into()));
    }
    let mut man: Vec<(String, String)> = Vec::new();
    {
        let sp = doc
            .child_mut("office:body")
            .and_then(|b| b.child_mut("office:spreadsheet"))
            .ok_or("no spreadsheet")?;
        for f in frags {
            match f {
                Frag::Book(x) => {
                    let mut e = to_elem(x);
                    merge(&mut e);
                    if sp.child(&e.name).is_some() {
                        continue;
                    }
                    raw.push(("book".into(), xml::canon(&e)));
                    if BOOK_PRE.contains(&e.name.as_str()) {
                        sp.kids.insert(0, Node::Elem(e));
                    } else {
                        sp.kids.push(Node::Elem(e));
                    }
                }
                Frag::Sheet(k, x) => {
                    let mut e = to_elem(x);
                    merge(&mut e);
                    let mut n = 0;
                    for c in sp.kids.iter_mut() {
                        if let Node::Elem(t) = c {
                            if t.name == "table:table" {
                                if n == *k {
                                    if t.child(&e.name).is_some() {
                                        break;
                                    }
                                    let name = t.attr("table:name").unwrap_or("").to_string();
                                    raw.push((format!("sheet:{name}"), xml::canon(&e)));
                                    if SHEET_PRE.contains(&e.name.as_str()) {
                                        t.kids.insert(0, Node::Elem(e));
                                    } else {
                                        t.kids.push(Node::Elem(e));
                                    }
                                    break;
                                }
                                n += 1;
                            }
                        }
                    }
                }
                Frag::Dir(d) if !fods => {
                    if !man.iter().any(|m| m.0 == *d) {
                        man.push((d.clone(), String::new()));
                        raw.push(("manifest".into(), d.clone()));
                    }
                }
                Frag::File(p, t, d) if !fods => {
                    if files.iter().any(|f| f.0 == *p) {
                        continue;
                    }
                    man.push((p.clone(), t.clone()));
                    files.push((p.clone(), d.clone()));
                    added.push((p.clone(), t.clone(), d.clone()));
                }
                _ => {}
            }
        }
    }
    let text = xml::document(&doc).into_bytes();
    if fods {
        return Ok(Injected {
            bytes: text,
            raw,
            files: added,
        });
    }
    for f in &mut files {
        if f.0 == "content.xml" {
            f.1 = text.clone();
        }
        if f.0 == "META-INF/manifest.xml" && !man.is_empty() {
            let mut m = xml::parse(&f.1)?;
            for (p, t) in &man {
                if m.elems().any(|e| e.attr("manifest:full-path") == Some(p)) {
                    continue;
                }
                m.kids.push(Node::Elem(Elem {
                    name: "manifest:file-entry".into(),
                    attrs: vec![
                        ("manifest:full-path".into(), p.clone()),
                        ("manifest:media-type".into(), t.clone()),
                    ],
                    kids: vec![],
                }));
            }
            f.1 = xml::document(&m).into_bytes();
        }
    }
    Ok(Injected {
        bytes: pkg::store(&files),
        raw,
        files: added,
    })
}

/// Is everything in `raw` still in the document, where it was, exactly once?
pub fn check(b: &[u8], fods: bool, raw: &Raw) -> Result<(), String> {
    if raw.is_empty() {
        return Ok(());
    }
    let doc = if fods {
        xml::parse(b)?
    } else {
        xml::parse(&pkg::read_member(b, "content.xml")?)?
    };
    let sp = doc
        .child("office:body")
        .and_then(|b| b.child("office:spreadsheet"))
        .ok_or("no spreadsheet")?;
    for (loc, c) in raw {
        if loc == "manifest" {
            if fods {
                continue;
            }
            let m = xml::parse(&pkg::read_member(b, "META-INF/manifest.xml")?)?;
            if !m.elems().any(|e| e.attr("manifest:full-path") == Some(c)) {
                return Err(format!("manifest entry {c:?} is gone"));
            }
            continue;
        }
        let place = if loc == "book" {
            sp
        } else {
            let n = &loc[6..];
            match sp
                .elems()
                .find(|e| e.name == "table:table" && e.attr("table:name") == Some(n))
            {
                Some(t) => t,
                None => continue,
            }
        };
        let hits = place.elems().filter(|e| squash(e) == squash_s(c)).count();
        if hits != 1 {
            return Err(format!("{loc}: {hits} copies of {c}"));
        }
    }
    Ok(())
}

/// White space that only separates elements is not content.
fn squash(e: &Elem) -> String {
    let mut e = e.clone();
    strip(&mut e);
    xml::canon(&e)
}
fn squash_s(s: &str) -> String {
    // the canonical form does not carry declarations
    match xml::parse(s.as_bytes()) {
        Ok(e) => squash(&e),
        Err(_) => s.to_string(),
    }
}
fn strip(e: &mut Elem) {
    let has_elem = e.elems().next().is_some();
    if has_elem {
        e.kids.retain(|k| !matches!(k, Node::Text(t) if t.trim().is_empty()));
    }
    for k in &mut e.kids {
        if let Node::Elem(c) = k {
            strip(c);
        }
    }
}
