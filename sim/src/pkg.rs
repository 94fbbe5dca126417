//! The simulator's own view of a stored document: zip container and ODF package
//! rules, independent of the crates the library uses.

use crate::model::Model;
use crate::xml;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Entry {
    pub name: String,
    pub method: u16,
    pub crc: u32,
    pub csize: usize,
    pub usize_: usize,
    pub local: usize,
    pub data: usize,
    pub extra: usize,
    pub flags: u16,
}

fn u16_(b: &[u8], i: usize) -> Option<u16> {
    Some(u16::from_le_bytes(b.get(i..i + 2)?.try_into().ok()?))
}
fn u32_(b: &[u8], i: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?))
}

pub fn entries(b: &[u8]) -> Result<Vec<Entry>, String> {
    let bad = |m: &str| m.to_string();
    if b.len() < 22 {
        return Err(bad("no end of central directory"));
    }
    let mut e = b.len() - 22;
    loop {
        if u32_(b, e) == Some(0x0605_4b50) && u16_(b, e + 20).map(|c| c as usize) == Some(b.len() - e - 22) {
            break;
        }
        if e == 0 || b.len() - e > 66_000 {
            return Err(bad("no end of central directory"));
        }
        e -= 1;
    }
    let n = u16_(b, e + 10).unwrap() as usize;
    let cds = u32_(b, e + 12).unwrap() as usize;
    let cdo = u32_(b, e + 16).unwrap() as usize;
    if cdo + cds != e {
        return Err(bad("central directory is not adjacent to its end record"));
    }
    let mut v = Vec::new();
    let mut i = cdo;
    for _ in 0..n {
        if u32_(b, i) != Some(0x0201_4b50) {
            return Err(bad("bad central directory entry"));
        }
        let nl = u16_(b, i + 28).ok_or("short")? as usize;
        let xl = u16_(b, i + 30).ok_or("short")? as usize;
        let cl = u16_(b, i + 32).ok_or("short")? as usize;
        let local = u32_(b, i + 42).ok_or("short")? as usize;
        let nb = b.get(i + 46..i + 46 + nl).ok_or("short")?;
        let name = String::from_utf8(nb.to_vec()).map_err(|_| "name is not UTF-8")?;
        if u32_(b, local) != Some(0x0403_4b50) {
            return Err(format!("bad local header of {name:?}"));
        }
        let lnl = u16_(b, local + 26).ok_or("short")? as usize;
        let lxl = u16_(b, local + 28).ok_or("short")? as usize;
        let ln = b.get(local + 30..local + 30 + lnl).ok_or("short")?;
        if ln != nb {
            return Err(format!("local header of {name:?} has another name"));
        }
        let en = Entry {
            flags: u16_(b, i + 8).unwrap(),
            method: u16_(b, i + 10).unwrap(),
            crc: u32_(b, i + 16).unwrap(),
            csize: u32_(b, i + 20).unwrap() as usize,
            usize_: u32_(b, i + 24).unwrap() as usize,
            local,
            data: local + 30 + lnl + lxl,
            extra: lxl,
            name,
        };
        if u16_(b, local + 8) != Some(en.method) {
            return Err(format!("local header of {:?} has another method", en.name));
        }
        if en.flags & 8 == 0
            && (u32_(b, local + 14) != Some(en.crc)
                || u32_(b, local + 18) != Some(en.csize as u32)
                || u32_(b, local + 22) != Some(en.usize_ as u32))
        {
            return Err(format!("local header of {:?} disagrees with the directory", en.name));
        }
        if en.data + en.csize > cdo {
            return Err(format!("data of {:?} runs into the directory", en.name));
        }
        v.push(en);
        i += 46 + nl + xl + cl;
    }
    if i != e {
        return Err(bad("central directory has another length than recorded"));
    }
    Ok(v)
}

/// (offset, length) of the stored bytes of every member.
pub fn payload_ranges(b: &[u8]) -> Option<Vec<(usize, usize)>> {
    Some(
        entries(b)
            .ok()?
            .into_iter()
            // the mimetype member is a magic number for file(1); no reader of documents looks at it
            .filter(|e| e.csize > 0 && e.name != "mimetype")
            .map(|e| (e.data, e.csize))
            .collect(),
    )
}

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

struct Bits<'a> {
    b: &'a [u8],
    i: usize,
    acc: u32,
    n: u32,
}
impl Bits<'_> {
    fn get(&mut self, k: u32) -> Option<u32> {
        while self.n < k {
            self.acc |= (*self.b.get(self.i)? as u32) << self.n;
            self.i += 1;
            self.n += 8;
        }
        let r = self.acc & ((1u32 << k) - 1);
        self.acc >>= k;
        self.n -= k;
        Some(r)
    }
}
struct Huff {
    count: [u16; 16],
    sym: Vec<u16>,
}
impl Huff {
    fn new(l: &[u8]) -> Huff {
        let mut count = [0u16; 16];
        for x in l {
            count[*x as usize] += 1;
        }
        count[0] = 0;
        let mut offs = [0u16; 16];
        for i in 1..16 {
            offs[i] = offs[i - 1] + count[i - 1];
        }
        let mut sym = vec![0u16; l.len()];
        for (i, x) in l.iter().enumerate() {
            if *x != 0 {
                sym[offs[*x as usize] as usize] = i as u16;
                offs[*x as usize] += 1;
            }
        }
        Huff { count, sym }
    }
    fn get(&self, b: &mut Bits<'_>) -> Option<u16> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for len in 1..16 {
            code |= b.get(1)? as i32;
            let c = self.count[len] as i32;
            if code - c < first {
                return self.sym.get((index + code - first) as usize).copied();
            }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        None
    }
}

pub fn inflate(b: &[u8]) -> Option<Vec<u8>> {
    const LB: [u16; 29] = [
        3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258,
    ];
    const LX: [u8; 29] = [
        0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
    ];
    const DB: [u16; 30] = [
        1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145,
        8193, 12289, 16385, 24577,
    ];
    const ORD: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let mut s = Bits { b, i: 0, acc: 0, n: 0 };
    let mut o: Vec<u8> = Vec::new();
    loop {
        let last = s.get(1)?;
        match s.get(2)? {
            0 => {
                s.acc = 0;
                s.n = 0;
                let n = u16_(b, s.i)? as usize;
                s.i += 4;
                o.extend_from_slice(b.get(s.i..s.i + n)?);
                s.i += n;
            }
            t @ (1 | 2) => {
                let (lit, dist) = if t == 1 {
                    let mut l = [8u8; 288];
                    l[144..256].fill(9);
                    l[256..280].fill(7);
                    (Huff::new(&l), Huff::new(&[5u8; 30]))
                } else {
                    let nl = s.get(5)? as usize + 257;
                    let nd = s.get(5)? as usize + 1;
                    let nc = s.get(4)? as usize + 4;
                    let mut l = [0u8; 320];
                    for k in ORD.iter().take(nc) {
                        l[*k] = s.get(3)? as u8;
                    }
                    let h = Huff::new(&l[..19]);
                    let mut l = [0u8; 320];
                    let mut i = 0;
                    while i < nl + nd {
                        let y = h.get(&mut s)?;
                        let (v, n) = match y {
                            0..=15 => (y as u8, 1),
                            16 => (*l.get(i.checked_sub(1)?)?, 3 + s.get(2)? as usize),
                            17 => (0, 3 + s.get(3)? as usize),
                            _ => (0, 11 + s.get(7)? as usize),
                        };
                        l.get_mut(i..i + n)?.fill(v);
                        i += n;
                    }
                    (Huff::new(&l[..nl]), Huff::new(&l[nl..nl + nd]))
                };
                loop {
                    let y = lit.get(&mut s)? as usize;
                    if y < 256 {
                        o.push(y as u8);
                    } else if y == 256 {
                        break;
                    } else {
                        let y = y - 257;
                        let len = *LB.get(y)? as usize + s.get(LX[y] as u32)? as usize;
                        let d = dist.get(&mut s)? as usize;
                        let x = if d < 4 { 0 } else { (d as u32 - 2) / 2 };
                        let back = *DB.get(d)? as usize + s.get(x)? as usize;
                        for _ in 0..len {
                            let c = *o.get(o.len().checked_sub(back)?)?;
                            o.push(c);
                        }
                    }
                }
            }
            _ => return None,
        }
        if last == 1 {
            return Some(o);
        }
    }
}

pub fn member(b: &[u8], e: &Entry) -> Result<Vec<u8>, String> {
    let raw = b.get(e.data..e.data + e.csize).ok_or("short")?;
    let d = match e.method {
        0 => raw.to_vec(),
        8 => inflate(raw).ok_or_else(|| format!("{:?} does not inflate", e.name))?,
        m => return Err(format!("{:?} uses method {m}", e.name)),
    };
    if d.len() != e.usize_ {
        return Err(format!("{:?} has another length than recorded", e.name));
    }
    if crc32(&d) != e.crc {
        return Err(format!("{:?} fails its checksum", e.name));
    }
    Ok(d)
}

pub fn read_member(b: &[u8], name: &str) -> Result<Vec<u8>, String> {
    let v = entries(b)?;
    let e = v.iter().find(|e| e.name == name).ok_or_else(|| format!("no {name}"))?;
    member(b, e)
}

/// Writes a package with stored members; for the other program in the histories.
pub fn store(files: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut cd = Vec::new();
    for (n, d) in files {
        let off = o.len() as u32;
        let crc = crc32(d);
        let mut h = Vec::new();
        h.extend_from_slice(&20u16.to_le_bytes());
        h.extend_from_slice(&0x0800u16.to_le_bytes());
        h.extend_from_slice(&0u16.to_le_bytes());
        h.extend_from_slice(&0u16.to_le_bytes());
        h.extend_from_slice(&0x5021u16.to_le_bytes());
        h.extend_from_slice(&crc.to_le_bytes());
        h.extend_from_slice(&(d.len() as u32).to_le_bytes());
        h.extend_from_slice(&(d.len() as u32).to_le_bytes());
        h.extend_from_slice(&(n.len() as u16).to_le_bytes());
        h.extend_from_slice(&0u16.to_le_bytes());
        o.extend_from_slice(&0x0403_4b50u32.to_le_bytes());
        o.extend_from_slice(&h);
        o.extend_from_slice(n.as_bytes());
        o.extend_from_slice(d);
        cd.extend_from_slice(&0x0201_4b50u32.to_le_bytes());
        cd.extend_from_slice(&20u16.to_le_bytes());
        cd.extend_from_slice(&h);
        cd.extend_from_slice(&[0; 2]); // comment length
        cd.extend_from_slice(&[0; 2]); // disk
        cd.extend_from_slice(&[0; 2]); // internal attributes
        cd.extend_from_slice(&[0; 4]); // external attributes
        cd.extend_from_slice(&off.to_le_bytes());
        cd.extend_from_slice(n.as_bytes());
    }
    let cdo = o.len() as u32;
    o.extend_from_slice(&cd);
    o.extend_from_slice(&0x0605_4b50u32.to_le_bytes());
    o.extend_from_slice(&[0; 4]);
    o.extend_from_slice(&(files.len() as u16).to_le_bytes());
    o.extend_from_slice(&(files.len() as u16).to_le_bytes());
    o.extend_from_slice(&(cd.len() as u32).to_le_bytes());
    o.extend_from_slice(&cdo.to_le_bytes());
    o.extend_from_slice(&[0; 2]);
    o
}

pub const MIME: &str = "application/vnd.oasis.opendocument.spreadsheet";

fn xml_ok(name: &str, d: &[u8], root: &str) -> Result<xml::Elem, String> {
    let e = xml::parse(d).map_err(|e| format!("{name} is not well-formed: {e}"))?;
    xml::check_ns(&e, &mut Vec::new()).map_err(|x| format!("{name}: {x}"))?;
    crate::schema::check(&e, "").map_err(|x| format!("{name}: {x}"))?;
    if e.name != root {
        return Err(format!("{name} has document element <{}>", e.name));
    }
    Ok(e)
}

/// The rules for a stored document.
pub fn valid(b: &[u8], fods: bool, m: &Model) -> Result<(), String> {
    if fods {
        let e = xml_ok("document", b, "office:document")?;
        if e.attr("office:mimetype") != Some(MIME) {
            return Err("office:mimetype is missing".into());
        }
        if e.attr("office:version").is_none() {
            return Err("office:version is missing".into());
        }
        return body(&e, m);
    }
    let es = entries(b)?;
    let mut names = BTreeSet::new();
    for e in &es {
        if !names.insert(e.name.clone()) {
            return Err(format!("member {:?} is stored twice", e.name));
        }
        if e.name.starts_with('/') || e.name.split('/').any(|p| p == "..") {
            return Err(format!("member name {:?}", e.name));
        }
    }
    let mut spans: Vec<(usize, usize)> = es.iter().map(|e| (e.local, e.data + e.csize)).collect();
    spans.sort();
    if spans.windows(2).any(|w| w[0].1 > w[1].0) {
        return Err("members overlap".into());
    }
    let f = es.iter().min_by_key(|e| e.local).ok_or("empty package")?;
    if f.name != "mimetype" || es[0].name != "mimetype" || f.local != 0 {
        return Err(format!("first member is {:?}", f.name));
    }
    if f.method != 0 || f.extra != 0 || f.flags & 8 != 0 {
        return Err("mimetype is not stored plainly".into());
    }
    for e in &es {
        let d = member(b, e)?;
        match e.name.as_str() {
            "mimetype" => {
                if d != MIME.as_bytes() {
                    return Err("mimetype has other content".into());
                }
            }
            "content.xml" => {
                let x = xml_ok(&e.name, &d, "office:document-content")?;
                if x.attr("office:version").is_none() {
                    return Err("office:version is missing".into());
                }
                body(&x, m)?;
            }
            "styles.xml" => drop(xml_ok(&e.name, &d, "office:document-styles")?),
            "meta.xml" => drop(xml_ok(&e.name, &d, "office:document-meta")?),
            "settings.xml" => drop(xml_ok(&e.name, &d, "office:document-settings")?),
            "manifest.rdf" => drop(xml_ok(&e.name, &d, "rdf:RDF")?),
            "META-INF/manifest.xml" => {
                let x = xml_ok(&e.name, &d, "manifest:manifest")?;
                if x.attr("manifest:version").is_none() {
                    return Err("manifest:version is missing".into());
                }
                let mut listed = BTreeSet::new();
                let mut root = None;
                for f in x.elems() {
                    let p = f.attr("manifest:full-path").ok_or("entry without path")?;
                    let t = f.attr("manifest:media-type").ok_or("entry without media type")?;
                    if !listed.insert(p.to_string()) {
                        return Err(format!("{p:?} is listed twice"));
                    }
                    if p == "/" {
                        root = Some(t.to_string());
                    } else if !p.ends_with('/') && !names.contains(p) {
                        return Err(format!("manifest lists {p:?}, which is not in the package"));
                    }
                }
                if root.as_deref() != Some(MIME) {
                    return Err(format!("media type of the package is {root:?}"));
                }
                for n in &names {
                    if n != "mimetype" && !n.starts_with("META-INF/") && !n.ends_with('/') && !listed.contains(n) {
                        return Err(format!("{n:?} is not in the manifest"));
                    }
                }
            }
            _ => {}
        }
    }
    for n in ["content.xml", "styles.xml", "meta.xml", "settings.xml", "META-INF/manifest.xml"] {
        if !names.contains(n) {
            return Err(format!("{n} is missing"));
        }
    }
    Ok(())
}

/// Structural rules of the spreadsheet body.
fn body(root: &xml::Elem, m: &Model) -> Result<(), String> {
    let s = root
        .child("office:body")
        .and_then(|b| b.child("office:spreadsheet"))
        .ok_or("no office:spreadsheet")?;
    let names: Vec<String> = s
        .elems()
        .filter(|e| e.name == "table:table")
        .map(|e| e.attr("table:name").unwrap_or("").to_string())
        .collect();
    let want: Vec<String> = m.sheets.iter().map(|s| s.name()).collect();
    if names != want {
        return Err(format!("tables {names:?}, expected {want:?}"));
    }
    for t in s.elems().filter(|e| e.name == "table:table") {
        table_part(t, false)?;
    }
    Ok(())
}

fn table_part(e: &xml::Elem, rows_seen: bool) -> Result<bool, String> {
    let mut rows_seen = rows_seen;
    for c in e.elems() {
        match c.name.as_str() {
            "table:table-column" => {
                if rows_seen {
                    return Err("table:table-column after rows".into());
                }
                pos_attr(c, "table:number-columns-repeated")?;
            }
            "table:table-column-group" | "table:table-header-columns" | "table:table-columns" => {
                if rows_seen {
                    return Err(format!("{} after rows", c.name));
                }
                if c.elems().next().is_none() {
                    return Err(format!("empty {}", c.name));
                }
                table_part(c, rows_seen)?;
            }
            "table:table-row-group" | "table:table-header-rows" | "table:table-rows" => {
                rows_seen = true;
                if c.elems().next().is_none() {
                    return Err(format!("empty {}", c.name));
                }
                table_part(c, rows_seen)?;
            }
            "table:table-row" => {
                rows_seen = true;
                pos_attr(c, "table:number-rows-repeated")?;
                let mut n = 0;
                for k in c.elems() {
                    if k.name != "table:table-cell" && k.name != "table:covered-table-cell" {
                        return Err(format!("<{}> in a row", k.name));
                    }
                    for a in [
                        "table:number-columns-repeated",
                        "table:number-columns-spanned",
                        "table:number-rows-spanned",
                        "table:number-matrix-columns-spanned",
                        "table:number-matrix-rows-spanned",
                    ] {
                        pos_attr(k, a)?;
                    }
                    n += 1;
                }
                if n == 0 {
                    return Err("row without cells".into());
                }
            }
            _ => {}
        }
    }
    Ok(rows_seen)
}

fn pos_attr(e: &xml::Elem, a: &str) -> Result<(), String> {
    if let Some(v) = e.attr(a) {
        match v.parse::<u32>() {
            Ok(n) if n > 0 => {}
            _ => return Err(format!("{a}={v:?}")),
        }
    }
    Ok(())
}

// ---- what a document says, apart from how it is laid out -----------------------

/// Containers whose children have no order.
const UNORDERED: [&str; 9] = [
    "office:styles",
    "office:automatic-styles",
    "office:master-styles",
    "office:font-face-decls",
    "table:content-validations",
    "manifest:manifest",
    "config:config-item-set",
    "config:config-item-map-entry",
    "office:event-listeners",
];

fn settle(e: &mut xml::Elem) {
    // which namespaces are declared besides the needed ones says nothing
    e.attrs.retain(|(k, _)| !k.starts_with("xmlns:"));
    e.attrs.sort();
    for k in &mut e.kids {
        if let xml::Node::Elem(c) = k {
            settle(c);
        }
    }
    if UNORDERED.contains(&e.name.as_str()) {
        e.kids.retain(|k| !matches!(k, xml::Node::Text(t) if t.trim().is_empty()));
        e.kids.sort_by_cached_key(|k| match k {
            xml::Node::Elem(c) => {
                let mut s = String::new();
                xml::write(c, &mut s);
                s
            }
            xml::Node::Text(t) => t.clone(),
        });
    }
}

/// Part -> content, independent of compression, time stamps and the order of unordered things.
pub fn content(b: &[u8], fods: bool) -> Result<crate::model::Kv, String> {
    let mut o = crate::model::Kv::new();
    let mut put = |n: &str, d: &[u8]| -> Result<(), String> {
        let v = if n.ends_with(".xml") && !n.starts_with('z') {
            let mut e = xml::parse(d).map_err(|e| format!("{n}: {e}"))?;
            settle(&mut e);
            let mut s = String::new();
            xml::write(&e, &mut s);
            s
        } else {
            format!("{:08x} {} bytes", crc32(d), d.len())
        };
        o.insert(n.to_string(), v);
        Ok(())
    };
    if fods {
        put("document.xml", b)?;
    } else {
        for e in entries(b)? {
            put(&e.name, &member(b, &e)?)?;
        }
    }
    Ok(o)
}

/// Where two texts begin to differ.
pub fn differs(a: &crate::model::Kv, b: &crate::model::Kv) -> Vec<String> {
    let mut d = Vec::new();
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) => {
                let n = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
                let cut = |s: &str| {
                    String::from_utf8_lossy(&s.as_bytes()[n.saturating_sub(60)..(n + 60).min(s.len())]).into_owned()
                };
                d.push(format!("{k}: {:?} / {:?}", cut(x), cut(y)));
            }
            (x, _) => d.push(format!("{k}: only in the {} document", if x.is_some() { "first" } else { "second" })),
        }
    }
    d
}
