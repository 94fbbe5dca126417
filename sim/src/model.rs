//! The reference model: what a user of the library can observe of a workbook,
//! kept as plain maps, and the edit operations with their effect on the model.
//!
//! The model never looks at the library's data. Every edit states its own effect
//! (`Edit::model`); apply.rs performs the same edit through the public API and
//! observe.rs reads the workbook back through public getters.

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub type Kv = BTreeMap<String, String>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MSheet {
    pub misc: Kv,
    pub cells: BTreeMap<(u32, u32), Kv>,
    pub rows: BTreeMap<u32, Kv>,
    pub cols: BTreeMap<u32, Kv>,
    /// (from, to) -> displayed
    pub col_groups: BTreeMap<(u32, u32), bool>,
    pub row_groups: BTreeMap<(u32, u32), bool>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub book: Kv,
    pub sheets: Vec<MSheet>,
    /// what the document statistics say: tables, cells
    pub stats: (u32, u32),
}

impl Model {
    /// With the statistics a save puts into the document.
    pub fn flat_doc(&self) -> Kv {
        let mut o = self.flat();
        o.insert("meta.tables".into(), self.stats.0.to_string());
        o.insert("meta.cells".into(), self.stats.1.to_string());
        o
    }
    pub fn flat(&self) -> Kv {
        let mut o = Kv::new();
        for (k, v) in &self.book {
            o.insert(k.clone(), v.clone());
        }
        o.insert("sheets".into(), self.sheets.len().to_string());
        for (i, s) in self.sheets.iter().enumerate() {
            for (k, v) in &s.misc {
                o.insert(format!("s{i}.{k}"), v.clone());
            }
            for ((r, c), kv) in &s.cells {
                if kv.is_empty() {
                    // Presence of a void cell is not part of the model.
                    continue;
                }
                for (k, v) in kv {
                    o.insert(format!("s{i}.cell.{r:07}.{c:05}.{k}"), v.clone());
                }
            }
            for (r, kv) in &s.rows {
                for (k, v) in kv {
                    o.insert(format!("s{i}.row.{r:07}.{k}"), v.clone());
                }
            }
            for (c, kv) in &s.cols {
                for (k, v) in kv {
                    o.insert(format!("s{i}.col.{c:05}.{k}"), v.clone());
                }
            }
            for ((a, b), d) in &s.col_groups {
                o.insert(format!("s{i}.cgrp.{a:05}-{b:05}"), d.to_string());
            }
            for ((a, b), d) in &s.row_groups {
                o.insert(format!("s{i}.rgrp.{a:05}-{b:05}"), d.to_string());
            }
        }
        o
    }
}

/// Differences between two observations, restricted by `keep`.
pub fn diff(want: &Kv, got: &Kv, keep: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut out = Vec::new();
    for (k, v) in want {
        if !keep(k) {
            continue;
        }
        match got.get(k) {
            Some(g) if g == v => {}
            Some(g) => out.push(format!("{k}: expected {v:?}, got {g:?}")),
            None => out.push(format!("{k}: expected {v:?}, missing")),
        }
    }
    for (k, v) in got {
        if keep(k) && !want.contains_key(k) {
            out.push(format!("{k}: unexpected {v:?}"));
        }
    }
    out
}

// ---- XML fragments ---------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum X {
    T(String),
    E(String, Vec<(String, String)>, Vec<X>),
}

pub fn canon_x(v: &[X], out: &mut String) {
    let mut text = String::new();
    for x in v {
        match x {
            X::T(t) => text.push_str(t),
            X::E(n, a, c) => {
                if !text.is_empty() {
                    out.push_str(&format!("{:?}", text));
                    text.clear();
                }
                out.push('<');
                out.push_str(n);
                let m: BTreeMap<&String, &String> = a.iter().map(|(k, v)| (k, v)).collect();
                for (k, v) in m {
                    out.push_str(&format!(" {}={:?}", k, v));
                }
                out.push('>');
                canon_x(c, out);
                out.push_str("</>");
            }
        }
    }
    if !text.is_empty() {
        out.push_str(&format!("{:?}", text));
    }
}

pub fn canon(v: &[X]) -> String {
    let mut s = String::new();
    canon_x(v, &mut s);
    s
}

/// A single paragraph without attributes and tags is the same thing as its text.
fn plain_par(x: &X) -> Option<String> {
    match x {
        X::E(n, a, c) if n == "text:p" && a.is_empty() => {
            let mut s = String::new();
            for k in c {
                match k {
                    X::T(t) => s.push_str(t),
                    X::E(..) => return None,
                }
            }
            Some(s)
        }
        _ => None,
    }
}

pub fn canon_text(s: &str) -> String {
    if s.contains('\n') {
        let v: Vec<X> = s
            .split('\n')
            .map(|l| X::E("text:p".into(), vec![], vec![X::T(l.into())]))
            .collect();
        format!("X{}", canon(&v))
    } else {
        format!("T{:?}", s)
    }
}

pub fn canon_xml_value(v: &[X]) -> String {
    if v.len() == 1 {
        if let Some(s) = plain_par(&v[0]) {
            if !s.contains('\n') {
                return format!("T{:?}", s);
            }
        }
    }
    format!("X{}", canon(v))
}

// ---- values ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum V {
    Empty,
    Bool(bool),
    Num(String),
    Pct(String),
    Cur(String, String),
    Text(String),
    Xml(Vec<X>),
    /// seconds since 1970, nanoseconds
    DateTime(i64, u32),
    /// total nanoseconds
    Dur(i64),
}

impl V {
    pub fn canon(&self) -> Option<String> {
        Some(match self {
            V::Empty => return None,
            V::Bool(b) => format!("B{b}"),
            V::Num(f) => format!("N{}", f64s(f)),
            V::Pct(f) => format!("P{}", f64s(f)),
            V::Cur(c, f) => format!("C{:?} {}", c, f64s(f)),
            V::Text(t) => canon_text(t),
            V::Xml(x) => canon_xml_value(x),
            V::DateTime(s, n) => format!("D{s}.{n:09}"),
            V::Dur(ns) => format!("I{ns}"),
        })
    }
    pub fn kind(&self) -> u8 {
        match self {
            V::Empty => 0,
            V::Bool(_) => 1,
            V::Num(_) => 2,
            V::Pct(_) => 3,
            V::Cur(..) => 4,
            V::Text(_) => 5,
            V::Xml(_) => 6,
            V::DateTime(..) => 7,
            V::Dur(_) => 8,
        }
    }
}

pub fn f64s(s: &str) -> String {
    format!("{:?}", s.parse::<f64>().unwrap_or(0.0))
}

// ---- objects -----------------------------------------------------------------

pub type Attrs = Vec<(String, String)>;

pub fn attrs_canon(a: &Attrs) -> Kv {
    a.iter().cloned().collect()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AnnotSpec {
    pub name: String,
    pub display: bool,
    pub creator: Option<String>,
    pub date: Option<(i64, u32)>,
    pub text: Vec<X>,
    pub attrs: Attrs,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ImageSpec {
    pub attrs: Attrs,
    pub bin: Option<Vec<u8>>,
    pub text: Vec<X>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FrameSpec {
    pub attrs: Attrs,
    pub title: Option<String>,
    pub desc: Option<String>,
    pub images: Vec<ImageSpec>,
}

pub fn annot_canon(a: &AnnotSpec) -> String {
    // display is always written.
    let mut at = attrs_canon(&a.attrs);
    at.remove("office:display");
    at.remove("office:name");
    format!(
        "name={:?} display={} creator={:?} date={:?} text={} attrs={:?}",
        a.name,
        a.display,
        a.creator,
        a.date,
        canon(&a.text),
        at
    )
}

pub fn frame_canon(f: &FrameSpec) -> String {
    let mut s = format!(
        "attrs={:?} title={:?} desc={:?}",
        attrs_canon(&f.attrs),
        f.title,
        f.desc
    );
    for i in &f.images {
        s.push_str(&format!(
            " image attrs={:?} bin={:?} text={}",
            attrs_canon(&i.attrs),
            i.bin,
            canon(&i.text)
        ));
    }
    s
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fam {
    Table,
    Row,
    Col,
    Cell,
    Para,
    Text,
    Ruby,
    Graphic,
}
pub const FAMS: [Fam; 8] = [
    Fam::Table,
    Fam::Row,
    Fam::Col,
    Fam::Cell,
    Fam::Para,
    Fam::Text,
    Fam::Ruby,
    Fam::Graphic,
];

/// (origin, use) as written by the library.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Place {
    ContentAuto,
    StylesAuto,
    StylesNamed,
    StylesDefault,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MapSpec {
    /// 0: content equals number, 1: content equals text, 2: between, 3: formula
    pub cond: u8,
    pub arg: String,
    pub applied: String,
    pub base: Option<(u32, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StyleSpec {
    pub fam: Fam,
    pub name: String,
    pub place: Place,
    /// group 0: the element itself, 1..: property elements of the family.
    pub attrs: Vec<(u8, String, String)>,
    pub maps: Vec<MapSpec>,
    pub tabs: Vec<Attrs>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PartSpec {
    pub ty: u8,
    pub attrs: Attrs,
    pub content: Option<String>,
    pub pos: Option<i32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FmtSpec {
    /// 0 boolean, 1 number, 2 percentage, 3 currency, 4 text, 5 datetime, 6 timeduration
    pub kind: u8,
    pub name: String,
    pub place: Place,
    pub attrs: Attrs,
    pub text: Attrs,
    pub parts: Vec<PartSpec>,
    pub maps: Vec<MapSpec>,
}
pub const FMT_KINDS: [&str; 7] = [
    "boolean", "number", "percentage", "currency", "text", "datetime", "time",
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PageSpec {
    pub name: String,
    pub usage: Option<String>,
    pub attrs: Attrs,
    pub header: Attrs,
    pub footer: Attrs,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct HfSpec {
    pub display: bool,
    pub left: Vec<X>,
    pub center: Vec<X>,
    pub right: Vec<X>,
    pub content: Vec<X>,
}
impl HfSpec {
    pub fn is_empty(&self) -> bool {
        self.left.is_empty() && self.center.is_empty() && self.right.is_empty() && self.content.is_empty()
    }
    pub fn canon(&self) -> String {
        format!(
            "display={} left={} center={} right={} content={}",
            self.display,
            canon(&self.left),
            canon(&self.center),
            canon(&self.right),
            canon(&self.content)
        )
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MasterSpec {
    pub name: String,
    pub display_name: String,
    pub page: Option<String>,
    pub next: Option<String>,
    /// header, header-first, header-left, footer, footer-first, footer-left
    pub hf: Vec<HfSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MsgSpec {
    pub display: bool,
    pub title: Option<String>,
    pub text: Option<X>,
    pub msg: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ValidSpec {
    pub name: String,
    pub cond: u8,
    pub arg: String,
    pub base: (u32, u32),
    pub allow_empty: bool,
    pub display: u8,
    pub err: Option<MsgSpec>,
    pub help: Option<MsgSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MetaV {
    Bool(bool),
    Date(i64, u32),
    Float(String),
    Dur(i64),
    Str(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    AddSheet { at: u32, name: String },
    DropSheet { at: u32 },
    CloneSheet { at: u32, name: String },
    Rename { s: u32, name: String },
    SheetDisplay(u32, bool),
    SheetPrint(u32, bool),
    SheetStyle(u32, String),
    SheetCfg(u32, u8, i32),
    PrintRange(u32, u32, u32, u32, u32),
    ClearPrintRanges(u32),
    HeaderRows(u32, Option<(u32, u32)>),
    HeaderCols(u32, Option<(u32, u32)>),
    ColGroup(u32, u32, u32),
    RowGroup(u32, u32, u32),
    DelColGroup(u32, u32, u32),
    DelRowGroup(u32, u32, u32),
    ShowColGroup(u32, u32, u32, bool),
    ShowRowGroup(u32, u32, u32, bool),

    Value(u32, u32, u32, V),
    Styled(u32, u32, u32, V, String),
    Formula(u32, u32, u32, Option<String>),
    CellStyle(u32, u32, u32, Option<String>),
    CellValid(u32, u32, u32, Option<String>),
    Span(u32, u32, u32, u32, u32),
    MSpan(u32, u32, u32, u32, u32),
    Repeat(u32, u32, u32, u32),
    Annot(u32, u32, u32, Option<AnnotSpec>),
    Frames(u32, u32, u32, Vec<FrameSpec>),
    RemoveCell(u32, u32, u32),
    MoveCell(u32, (u32, u32), (u32, u32)),

    ColStyle(u32, u32, Option<String>),
    ColCell(u32, u32, Option<String>),
    ColVis(u32, u32, u8),
    ColWidth(u32, u32, String),
    RowStyle(u32, u32, Option<String>),
    RowCell(u32, u32, Option<String>),
    RowVis(u32, u32, u8),
    RowHeight(u32, u32, String),
    RowRepeat(u32, u32, u32),

    PutStyle(StyleSpec),
    DelStyle(Fam, String),
    /// changes one attribute of a style in place
    StyleAttr(Fam, String, u8, String, String),
    /// one of the four ways to split the view
    Split(u32, u8, u32),
    /// default styles and formats of a locale
    Locale(u8),
    PutFmt(FmtSpec),
    DelFmt(u8, String),
    PutFont(String, bool, Attrs),
    DelFont(String),
    PutPage(PageSpec),
    DelPage(String),
    PutMaster(MasterSpec),
    DelMaster(String),
    PutValid(ValidSpec),
    DelValid(String),
    DefStyle(u8, String),
    PutFile(String, String, Vec<u8>),
    DelFile(String),
    BookCfg(u8, String),
    Meta(u8, String),
    MetaDate(u8, Option<(i64, u32)>),
    MetaCycles(u32),
    MetaEditDur(i64),
    MetaTemplate(Option<(i64, u32)>, Option<String>, Option<String>, Option<u8>, Option<u8>),
    MetaReload(Option<i64>, Option<String>, Option<u8>, Option<u8>, Option<u8>),
    MetaStat(u32, u32),
    MetaHyper(Option<String>, Option<u8>),
    MetaUser(String, MetaV),
    MetaUserClear,
    Script(String, Vec<X>),
    ScriptClear,
    Event(String, String, String, String, u8),
    DelEvent(String),
}

pub const META_STR: [&str; 8] = [
    "title",
    "description",
    "subject",
    "keyword",
    "initial_creator",
    "creator",
    "printed_by",
    "language",
];
pub const META_DATE: [&str; 3] = ["creation_date", "date", "print_date"];
pub const CFG_NAMES: [&str; 15] = [
    "cursor_x",
    "cursor_y",
    "hor_split_mode",
    "vert_split_mode",
    "hor_split_pos",
    "vert_split_pos",
    "active_split_range",
    "position_left",
    "position_right",
    "position_top",
    "position_bottom",
    "zoom_type",
    "zoom_value",
    "page_view_zoom_value",
    "show_grid",
];
pub const CFG_DEF: [i32; 15] = [0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 100, 60, 1];
pub const VIS: [&str; 3] = ["visible", "collapse", "filter"];
pub const SHOW: [&str; 2] = ["new", "replace"];
pub const ACTUATE: [&str; 2] = ["onRequest", "onLoad"];
pub const LINK: [&str; 7] = ["simple", "extended", "locator", "arc", "resource", "title", "none"];

fn rects_touch(a: (u32, u32, u32, u32), b: (u32, u32, u32, u32)) -> bool {
    a.0 <= b.2 && b.0 <= a.2 && a.1 <= b.3 && b.1 <= a.3
}

pub fn span_of(kv: &Kv) -> (u32, u32) {
    match kv.get("span") {
        None => (1, 1),
        Some(s) => {
            let (a, b) = s.split_once('x').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        }
    }
}
pub fn num_of(kv: &Kv, k: &str, d: u32) -> u32 {
    kv.get(k).map(|v| v.parse().unwrap()).unwrap_or(d)
}
fn put(kv: &mut Kv, k: &str, v: Option<String>) {
    match v {
        Some(v) => {
            kv.insert(k.into(), v);
        }
        None => {
            kv.remove(k);
        }
    }
}

impl MSheet {
    pub fn named(name: &str) -> Self {
        let mut s = MSheet::default();
        s.misc.insert("name".into(), name.into());
        s
    }
    pub fn name(&self) -> String {
        self.misc.get("name").cloned().unwrap_or_default()
    }
    /// Is (r,c) inside the shadow of a repeated cell or a repeated row?
    fn shadowed(&self, r: u32, c: u32) -> bool {
        for (rr, kv) in &self.rows {
            let n = num_of(kv, "repeat", 1);
            if n > 1 && r > *rr && r < rr + n {
                return true;
            }
        }
        for ((cr, cc), kv) in self.cells.range((r, 0)..(r, c)) {
            let n = num_of(kv, "repeat", 1);
            if n > 1 && *cr == r && c > *cc && c < cc + n {
                return true;
            }
        }
        false
    }
    fn row_shadowed(&self, r: u32) -> bool {
        self.rows.iter().any(|(rr, kv)| {
            let n = num_of(kv, "repeat", 1);
            n > 1 && r > *rr && r < rr + n
        })
    }
    fn cell(&mut self, r: u32, c: u32) -> &mut Kv {
        self.cells.entry((r, c)).or_default()
    }
    fn span_rects(&self, except: (u32, u32)) -> Vec<(u32, u32, u32, u32)> {
        self.cells
            .iter()
            .filter(|(k, v)| **k != except && v.contains_key("span"))
            .map(|((r, c), v)| {
                let (a, b) = span_of(v);
                (*r, *c, r + a - 1, c + b - 1)
            })
            .collect()
    }
    fn row_kv(&mut self, r: u32) -> &mut Kv {
        self.rows.entry(r).or_default()
    }
    fn col_kv(&mut self, c: u32) -> &mut Kv {
        self.cols.entry(c).or_default()
    }
    fn header(&self, k: &str) -> Option<(u32, u32)> {
        self.misc.get(k).map(|s| {
            let (a, b) = s.split_once('-').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
    }
    fn group_ok(&self, rows: bool, a: u32, b: u32) -> bool {
        let g = if rows { &self.row_groups } else { &self.col_groups };
        if a > b || g.contains_key(&(a, b)) {
            return false;
        }
        for (c, d) in g.keys() {
            let inside = a >= *c && b <= *d;
            let around = a <= *c && b >= *d;
            let apart = b < *c || a > *d;
            if !(inside || around || apart) {
                return false;
            }
        }
        if let Some((h0, h1)) = self.header(if rows { "hrows" } else { "hcols" }) {
            if !(a <= h0 && b >= h1 || b < h0 || a > h1) {
                return false;
            }
        }
        if rows && (a..=b + 1).any(|r| self.row_shadowed(r)) {
            return false;
        }
        true
    }
    fn header_ok(&self, rows: bool, a: u32, b: u32) -> bool {
        let g = if rows { &self.row_groups } else { &self.col_groups };
        a <= b && g.keys().all(|(c, d)| *c <= a && *d >= b || b < *c || a > *d)
            && !(rows && (a..=b + 1).any(|r| self.row_shadowed(r)))
    }
}

/// A default style has no name in a document.
pub const DEFAULT_NAME: &str = "(default)";

/// Key of the model for a style.
pub fn style_key(f: Fam, name: &str) -> String {
    format!("style.{:?}.{}", f, name)
}

/// Attributes of row and column styles that the library maintains itself from
/// the row heights and column widths.
pub fn managed_attr(f: Fam, a: &str) -> bool {
    match f {
        Fam::Row => a == "style:row-height" || a == "style:use-optimal-row-height" || a == "style:min-row-height",
        Fam::Col => a == "style:column-width" || a == "style:use-optimal-column-width" || a == "style:rel-column-width",
        _ => false,
    }
}

pub fn drop_prefix(kv: &mut Kv, p: &str) {
    let ks: Vec<String> = kv
        .range(p.to_string()..)
        .take_while(|(k, _)| k.starts_with(p))
        .map(|(k, _)| k.clone())
        .collect();
    for k in ks {
        kv.remove(&k);
    }
}

impl Edit {
    /// Applies the edit to the model. Returns false, changing nothing, when the
    /// edit is not applicable in this state (it is then skipped altogether).
    pub fn model(&self, m: &mut Model) -> bool {
        use Edit::*;
        macro_rules! sheet {
            ($s:expr) => {
                match m.sheets.get_mut(*$s as usize) {
                    Some(s) => s,
                    None => return false,
                }
            };
        }
        // References to styles the library named need the style.
        let there = |m: &Model, f: Fam, n: &str| {
            !n.starts_with('@') || m.book.contains_key(&format!("{}|place", style_key(f, n)))
        };
        let ok = match self {
            SheetStyle(_, n) => there(m, Fam::Table, n),
            Styled(_, _, _, _, n) | CellStyle(_, _, _, Some(n)) => there(m, Fam::Cell, n),
            ColCell(_, _, Some(n)) | RowCell(_, _, Some(n)) | DefStyle(_, n) => there(m, Fam::Cell, n),
            ColStyle(_, _, Some(n)) => there(m, Fam::Col, n),
            RowStyle(_, _, Some(n)) => there(m, Fam::Row, n),
            StyleAttr(f, n, ..) => m.book.contains_key(&format!("{}|place", style_key(*f, n))),
            // a name the library found isn't given up again
            DelStyle(_, n) | DelFmt(_, n) => !n.starts_with('@'),
            PutStyle(s) => !s.name.starts_with('@') || s.place != Place::StylesDefault && !m.book.contains_key(&format!("{}|place", style_key(s.fam, &s.name))),
            PutFmt(f) => !f.name.starts_with('@') || !m.book.contains_key(&format!("fmt.{}.{}|place", FMT_KINDS[f.kind as usize % 7], f.name)),
            _ => true,
        };
        if !ok {
            return false;
        }
        let uniq = |m: &Model, n: &str| !n.is_empty() && m.sheets.iter().all(|s| s.name() != n);
        match self {
            AddSheet { at, name } => {
                if *at as usize > m.sheets.len() || m.sheets.len() >= 5 || !uniq(m, name) {
                    return false;
                }
                m.sheets.insert(*at as usize, MSheet::named(name));
            }
            DropSheet { at } => {
                if *at as usize >= m.sheets.len() || m.sheets.len() < 2 {
                    return false;
                }
                m.sheets.remove(*at as usize);
            }
            CloneSheet { at, name } => {
                if *at as usize >= m.sheets.len() || m.sheets.len() >= 5 || !uniq(m, name) {
                    return false;
                }
                let mut c = m.sheets[*at as usize].clone();
                c.misc.insert("name".into(), name.clone());
                if name.starts_with("no data") {
                    if c.rows.values().any(|k| k.contains_key("repeat")) {
                        return false;
                    }
                    c.cells.clear();
                    drop_prefix(&mut c.misc, "cfg.");
                }
                m.sheets.push(c);
            }
            Rename { s, name } => {
                if !uniq(m, name) {
                    return false;
                }
                sheet!(s).misc.insert("name".into(), name.clone());
            }
            SheetDisplay(s, b) => put(&mut sheet!(s).misc, "display", (!*b).then(|| "false".into())),
            SheetPrint(s, b) => put(&mut sheet!(s).misc, "print", (!*b).then(|| "false".into())),
            SheetStyle(s, n) => put(&mut sheet!(s).misc, "style", Some(n.clone())),
            SheetCfg(s, k, v) => {
                let k = *k as usize % CFG_NAMES.len();
                let v = cfg_clamp(k, *v);
                put(
                    &mut sheet!(s).misc,
                    &format!("cfg.{}", CFG_NAMES[k]),
                    (v != CFG_DEF[k]).then(|| v.to_string()),
                );
            }
            PrintRange(s, a, b, c, d) => {
                if c < a || d < b {
                    return false;
                }
                let sh = sheet!(s);
                let mut v = sh.misc.get("print_ranges").cloned().unwrap_or_default();
                if v.len() > 200 {
                    return false;
                }
                if !v.is_empty() {
                    v.push(' ');
                }
                v.push_str(&format!("{a},{b}:{c},{d}"));
                sh.misc.insert("print_ranges".into(), v);
            }
            ClearPrintRanges(s) => put(&mut sheet!(s).misc, "print_ranges", None),
            HeaderRows(s, h) => {
                let sh = sheet!(s);
                if let Some((a, b)) = h {
                    if !sh.header_ok(true, *a, *b) {
                        return false;
                    }
                }
                put(&mut sh.misc, "hrows", h.map(|(a, b)| format!("{a}-{b}")));
            }
            HeaderCols(s, h) => {
                let sh = sheet!(s);
                if let Some((a, b)) = h {
                    if !sh.header_ok(false, *a, *b) {
                        return false;
                    }
                }
                put(&mut sh.misc, "hcols", h.map(|(a, b)| format!("{a}-{b}")));
            }
            ColGroup(s, a, b) => {
                let sh = sheet!(s);
                if !sh.group_ok(false, *a, *b) {
                    return false;
                }
                sh.col_groups.insert((*a, *b), true);
            }
            RowGroup(s, a, b) => {
                let sh = sheet!(s);
                if !sh.group_ok(true, *a, *b) {
                    return false;
                }
                sh.row_groups.insert((*a, *b), true);
            }
            DelColGroup(s, a, b) => return sheet!(s).col_groups.remove(&(*a, *b)).is_some(),
            DelRowGroup(s, a, b) => return sheet!(s).row_groups.remove(&(*a, *b)).is_some(),
            ShowColGroup(s, a, b, d) => {
                let sh = sheet!(s);
                if !sh.col_groups.contains_key(&(*a, *b)) {
                    return false;
                }
                sh.col_groups.insert((*a, *b), *d);
                for c in *a..=*b {
                    put(sh.col_kv(c), "vis", (!*d).then(|| "collapse".into()));
                }
            }
            ShowRowGroup(s, a, b, d) => {
                let sh = sheet!(s);
                if !sh.row_groups.contains_key(&(*a, *b)) {
                    return false;
                }
                sh.row_groups.insert((*a, *b), *d);
                for c in *a..=*b {
                    put(sh.row_kv(c), "vis", (!*d).then(|| "collapse".into()));
                }
            }

            Value(s, r, c, v) => {
                let sh = sheet!(s);
                if sh.shadowed(*r, *c) {
                    return false;
                }
                put(sh.cell(*r, *c), "val", v.canon());
            }
            Styled(s, r, c, v, st) => {
                let sh = sheet!(s);
                if sh.shadowed(*r, *c) {
                    return false;
                }
                let k = sh.cell(*r, *c);
                put(k, "val", v.canon());
                put(k, "style", Some(st.clone()));
            }
            Formula(s, r, c, f) => {
                let sh = sheet!(s);
                if sh.shadowed(*r, *c) || f.is_none() && !sh.cells.contains_key(&(*r, *c)) {
                    return false;
                }
                put(sh.cell(*r, *c), "formula", f.as_ref().map(|f| format!("{f:?}")));
            }
            CellStyle(s, r, c, st) => {
                let sh = sheet!(s);
                if sh.shadowed(*r, *c) || st.is_none() && !sh.cells.contains_key(&(*r, *c)) {
                    return false;
                }
                put(sh.cell(*r, *c), "style", st.clone());
            }
            CellValid(s, r, c, st) => {
                let sh = sheet!(s);
                if sh.shadowed(*r, *c) || st.is_none() && !sh.cells.contains_key(&(*r, *c)) {
                    return false;
                }
                put(sh.cell(*r, *c), "valid", st.clone());
            }
            Span(s, r, c, a, b) => {
                let sh = sheet!(s);
                if *a < 1 || *b < 1 || sh.shadowed(*r, *c) {
                    return false;
                }
                let rect = (*r, *c, r + a - 1, c + b - 1);
                if sh.span_rects((*r, *c)).iter().any(|x| rects_touch(*x, rect)) {
                    return false;
                }
                if (*a > 1 || *b > 1)
                    && (sh.rows.values().any(|k| k.contains_key("repeat"))
                        || sh.cells.values().any(|k| k.contains_key("repeat")))
                {
                    return false;
                }
                put(sh.cell(*r, *c), "span", (*a > 1 || *b > 1).then(|| format!("{a}x{b}")));
            }
            MSpan(s, r, c, a, b) => {
                let sh = sheet!(s);
                if *a < 1 || *b < 1 || sh.shadowed(*r, *c) {
                    return false;
                }
                put(sh.cell(*r, *c), "mspan", (*a > 1 || *b > 1).then(|| format!("{a}x{b}")));
            }
            Repeat(s, r, c, n) => {
                let sh = sheet!(s);
                if *n < 1 || *n > 60 || sh.shadowed(*r, *c) {
                    return false;
                }
                if sh.cells.range((*r, c + 1)..(*r, c + n)).next().is_some() {
                    return false;
                }
                let has_span = sh.cells.values().any(|k| k.contains_key("span"));
                let k = sh.cell(*r, *c);
                // A repeated cell has content that cannot be mistaken for padding.
                if *n > 1 && (!k.contains_key("val") || has_span) {
                    sh.cells.retain(|_, v| !v.is_empty());
                    return false;
                }
                put(k, "repeat", (*n > 1).then(|| n.to_string()));
            }
            Annot(s, r, c, a) => {
                let sh = sheet!(s);
                if sh.shadowed(*r, *c) || a.is_none() && !sh.cells.contains_key(&(*r, *c)) {
                    return false;
                }
                put(sh.cell(*r, *c), "annot", a.as_ref().map(annot_canon));
            }
            Frames(s, r, c, f) => {
                let sh = sheet!(s);
                if sh.shadowed(*r, *c) || f.is_empty() && !sh.cells.contains_key(&(*r, *c)) {
                    return false;
                }
                let v: Vec<String> = f.iter().map(frame_canon).collect();
                put(sh.cell(*r, *c), "frames", (!f.is_empty()).then(|| v.join(" | ")));
            }
            RemoveCell(s, r, c) => return sheet!(s).cells.remove(&(*r, *c)).is_some(),
            MoveCell(s, a, b) => {
                let sh = sheet!(s);
                if sh.shadowed(b.0, b.1) || sh.cells.contains_key(b) || a == b {
                    return false;
                }
                let Some(k) = sh.cells.get(a) else { return false };
                if k.contains_key("span") || k.contains_key("repeat") {
                    return false;
                }
                let k = sh.cells.remove(a).unwrap();
                sh.cells.insert(*b, k);
            }

            ColStyle(s, c, st) => {
                let k = sheet!(s).col_kv(*c);
                if k.contains_key("width") {
                    return false;
                }
                put(k, "style", st.clone());
            }
            ColCell(s, c, st) => put(sheet!(s).col_kv(*c), "cell", st.clone()),
            ColVis(s, c, v) => {
                let v = *v as usize % 3;
                put(sheet!(s).col_kv(*c), "vis", (v > 0).then(|| VIS[v].into()))
            }
            ColWidth(s, c, w) => {
                let k = sheet!(s).col_kv(*c);
                if k.contains_key("style") {
                    return false;
                }
                put(k, "width", (!w.is_empty()).then(|| w.clone()))
            }
            RowStyle(s, r, st) => {
                let sh = sheet!(s);
                if sh.row_shadowed(*r) || sh.row_kv(*r).contains_key("height") {
                    return false;
                }
                put(sh.row_kv(*r), "style", st.clone());
            }
            RowCell(s, r, st) => {
                let sh = sheet!(s);
                if sh.row_shadowed(*r) {
                    return false;
                }
                put(sh.row_kv(*r), "cell", st.clone())
            }
            RowVis(s, r, v) => {
                let sh = sheet!(s);
                if sh.row_shadowed(*r) {
                    return false;
                }
                let v = *v as usize % 3;
                put(sh.row_kv(*r), "vis", (v > 0).then(|| VIS[v].into()))
            }
            RowHeight(s, r, h) => {
                let sh = sheet!(s);
                if sh.row_shadowed(*r) || sh.row_kv(*r).contains_key("style") {
                    return false;
                }
                put(sh.row_kv(*r), "height", (!h.is_empty()).then(|| h.clone()))
            }
            RowRepeat(s, r, n) => {
                let sh = sheet!(s);
                if *n < 1 || *n > 900 || sh.row_shadowed(*r) {
                    return false;
                }
                if *n > 1 {
                    let clash = sh.cells.keys().any(|(cr, _)| cr > r && *cr < r + n)
                        || sh.rows.iter().any(|(rr, k)| rr > r && *rr < r + n && !k.is_empty())
                        || sh.row_groups.keys().any(|(_, b)| b >= r)
                        || sh.header("hrows").is_some_and(|(_, b)| b >= *r)
                        || sh.cells.values().any(|k| k.contains_key("span"))
                        || !sh.cells.iter().any(|((cr, _), k)| cr == r && !k.is_empty());
                    if clash {
                        return false;
                    }
                }
                put(sh.row_kv(*r), "repeat", (*n > 1).then(|| n.to_string()));
            }

            PutStyle(sp) => {
                let default = sp.place == Place::StylesDefault;
                let k = style_key(sp.fam, if default { DEFAULT_NAME } else { &sp.name });
                if default && m.book.contains_key(&format!("{k}|place")) {
                    // One default style per family; it has no name to replace it by.
                    return false;
                }
                drop_prefix(&mut m.book, &format!("{k}|"));
                m.book.insert(format!("{k}|place"), format!("{:?}", sp.place));
                if sp.name.starts_with('@') {
                    m.book.insert(format!("{k}|0.style:display-name"), sp.name.clone());
                }
                for (g, a, v) in &sp.attrs {
                    if sp.name.starts_with('@') && *g == 0 && a == "style:display-name" {
                        continue;
                    }
                    if !managed_attr(sp.fam, a) {
                        m.book.insert(format!("{k}|{g}.{a}"), v.clone());
                    }
                }
                for (i, mp) in sp.maps.iter().enumerate() {
                    if sp.fam == Fam::Cell && !default {
                        m.book.insert(format!("{k}|map{i}"), crate::apply::map_canon(mp));
                    }
                }
                if sp.fam == Fam::Para {
                    for (i, t) in sp.tabs.iter().enumerate() {
                        m.book.insert(format!("{k}|tab{i}"), format!("{:?}", attrs_canon(t)));
                    }
                }
            }
            StyleAttr(f, n, g, a, v) => {
                if managed_attr(*f, a) || n.starts_with('@') && *g == 0 {
                    return false;
                }
                m.book.insert(format!("{}|{g}.{a}", style_key(*f, n)), v.clone());
            }
            Split(s, k, n) => {
                let sh = sheet!(s);
                let set: &[(usize, i32)] = match k % 4 {
                    0 => &[(2, 2), (4, *n as i32 + 1), (8, *n as i32 + 1), (0, *n as i32 + 1)],
                    1 => &[(3, 2), (5, *n as i32 + 1), (10, *n as i32 + 1), (1, *n as i32 + 1)],
                    2 => &[(2, 1), (4, *n as i32)],
                    _ => &[(3, 1), (5, *n as i32)],
                };
                for (k, v) in set {
                    put(
                        &mut sh.misc,
                        &format!("cfg.{}", CFG_NAMES[*k]),
                        (*v != CFG_DEF[*k]).then(|| v.to_string()),
                    );
                }
            }
            Locale(k) => {
                let keys = locale_keys(*k);
                for n in keys.keys().filter_map(|k| k.split_once('|')) {
                    drop_prefix(&mut m.book, &format!("{}|", n.0));
                }
                for (k, v) in keys {
                    m.book.insert(k, v);
                }
            }
            DelStyle(f, n) => {
                let k = style_key(*f, n);
                if !m.book.contains_key(&format!("{k}|place")) {
                    return false;
                }
                drop_prefix(&mut m.book, &format!("{k}|"));
            }
            PutFmt(f) => {
                let k = format!("fmt.{}.{}", FMT_KINDS[f.kind as usize % 7], f.name);
                drop_prefix(&mut m.book, &format!("{k}|"));
                m.book.insert(format!("{k}|place"), format!("{:?}", f.place));
                for (a, v) in &f.attrs {
                    m.book.insert(format!("{k}|a.{a}"), v.clone());
                }
                if f.name.starts_with('@') {
                    m.book.insert(format!("{k}|a.style:display-name"), f.name.clone());
                }
                for (a, v) in &f.text {
                    m.book.insert(format!("{k}|t.{a}"), v.clone());
                }
                for (i, p) in f.parts.iter().enumerate() {
                    m.book.insert(format!("{k}|part{i}"), part_canon(p));
                }
                for (i, mp) in f.maps.iter().enumerate() {
                    m.book.insert(format!("{k}|map{i}"), crate::apply::vmap_canon(mp));
                }
            }
            DelFmt(kind, n) => {
                let k = format!("fmt.{}.{}", FMT_KINDS[*kind as usize % 7], n);
                if !m.book.contains_key(&format!("{k}|place")) {
                    return false;
                }
                drop_prefix(&mut m.book, &format!("{k}|"));
            }
            PutFont(n, styles, a) => {
                drop_prefix(&mut m.book, &format!("font.{n}|"));
                m.book
                    .insert(format!("font.{n}|place"), if *styles { "Styles" } else { "Content" }.into());
                for (a, v) in a {
                    m.book.insert(format!("font.{n}|{a}"), v.clone());
                }
            }
            DelFont(n) => {
                if !m.book.contains_key(&format!("font.{n}|place")) {
                    return false;
                }
                drop_prefix(&mut m.book, &format!("font.{n}|"));
            }
            PutPage(p) => {
                let k = format!("page.{}", p.name);
                drop_prefix(&mut m.book, &format!("{k}|"));
                m.book
                    .insert(format!("{k}|usage"), format!("{:?}", p.usage));
                for (g, a) in [("p", &p.attrs), ("h", &p.header), ("f", &p.footer)] {
                    for (a, v) in a {
                        m.book.insert(format!("{k}|{g}.{a}"), v.clone());
                    }
                }
            }
            DelPage(n) => {
                if !m.book.contains_key(&format!("page.{n}|usage")) {
                    return false;
                }
                drop_prefix(&mut m.book, &format!("page.{n}|"));
            }
            PutMaster(p) => {
                let k = format!("master.{}", p.name);
                drop_prefix(&mut m.book, &format!("{k}|"));
                m.book.insert(
                    format!("{k}|base"),
                    format!("{:?} page={:?} next={:?}", p.display_name, p.page.clone().unwrap_or_default(), p.next),
                );
                for (i, h) in p.hf.iter().enumerate() {
                    if !h.is_empty() {
                        m.book.insert(format!("{k}|hf{i}"), h.canon());
                    }
                }
            }
            DelMaster(n) => {
                if !m.book.contains_key(&format!("master.{n}|base")) {
                    return false;
                }
                drop_prefix(&mut m.book, &format!("master.{n}|"));
            }
            PutValid(v) => {
                m.book
                    .insert(format!("valid.{}", v.name), crate::apply::valid_canon(v));
            }
            DelValid(n) => {
                return m.book.remove(&format!("valid.{n}")).is_some();
            }
            DefStyle(k, n) => {
                let k = k % 9;
                m.book.insert(format!("defstyle.{k}"), n.clone());
                // plain and formatted text are one value type to the model
                if k == 5 || k == 6 {
                    m.book.insert(format!("defstyle.{}", 11 - k), n.clone());
                }
            }
            PutFile(p, t, b) => {
                m.book.insert(format!("file.{p}"), format!("{t:?} {b:?}"));
            }
            DelFile(p) => return m.book.remove(&format!("file.{p}")).is_some(),
            BookCfg(k, v) => match k % 4 {
                0 => put(&mut m.book, "cfg.active_table", (!v.is_empty()).then(|| v.clone())),
                1 => put(&mut m.book, "cfg.show_grid", (v == "false").then(|| v.clone())),
                2 => put(&mut m.book, "cfg.show_page_breaks", (v == "true").then(|| v.clone())),
                _ => put(&mut m.book, "cfg.has_sheet_tabs", (v == "false").then(|| v.clone())),
            },
            Meta(k, v) => put(
                &mut m.book,
                &format!("meta.{}", META_STR[*k as usize % 8]),
                (!v.is_empty()).then(|| v.clone()),
            ),
            MetaDate(k, d) => put(
                &mut m.book,
                &format!("meta.{}", META_DATE[*k as usize % 3]),
                d.map(|(s, n)| format!("{s}.{n:09}")),
            ),
            MetaCycles(n) => put(&mut m.book, "meta.cycles", (*n > 0).then(|| n.to_string())),
            MetaEditDur(n) => put(
                &mut m.book,
                "meta.editdur",
                (*n != 0).then(|| n.to_string()),
            ),
            MetaTemplate(d, h, t, a, l) => put(
                &mut m.book,
                "meta.template",
                (d.is_some() || h.is_some() || t.is_some() || a.is_some() || l.is_some()).then(|| {
                    format!(
                        "date={:?} href={:?} title={:?} actuate={:?} type={:?}",
                        d.map(|(s, n)| format!("{s}.{n:09}")),
                        h,
                        t,
                        a.map(|v| ACTUATE[v as usize % 2]),
                        l.map(|v| LINK[v as usize % 7])
                    )
                }),
            ),
            MetaReload(d, h, sh, a, l) => put(
                &mut m.book,
                "meta.reload",
                (d.is_some() || h.is_some() || sh.is_some() || a.is_some() || l.is_some()).then(|| {
                    format!(
                        "delay={:?} href={:?} show={:?} actuate={:?} type={:?}",
                        d.map(|d| d as i128),
                        h,
                        sh.map(|v| SHOW[v as usize % 2]),
                        a.map(|v| ACTUATE[v as usize % 2]),
                        l.map(|v| LINK[v as usize % 7])
                    )
                }),
            ),
            MetaHyper(t, s) => put(
                &mut m.book,
                "meta.hyper",
                (t.is_some() || s.is_some())
                    .then(|| format!("target={:?} show={:?}", t, s.map(|v| SHOW[v as usize % 2]))),
            ),
            MetaUser(n, v) => {
                let i = (0..).find(|i| !m.book.contains_key(&format!("meta.user{i:03}"))).unwrap();
                if i > 12 {
                    return false;
                }
                m.book.insert(format!("meta.user{i:03}"), format!("{n:?}={}", metav_canon(v)));
            }
            MetaStat(a, b) => {
                put(&mut m.book, "meta.objects", (*a > 0).then(|| a.to_string()));
                put(&mut m.book, "meta.oleobjects", (*b > 0).then(|| b.to_string()));
            }
            MetaUserClear => drop_prefix(&mut m.book, "meta.user"),
            Script(l, x) => {
                let i = (0..).find(|i| !m.book.contains_key(&format!("script.{i}"))).unwrap();
                if i > 6 {
                    return false;
                }
                m.book.insert(format!("script.{i}"), format!("{l:?} {}", canon(x)));
            }
            ScriptClear => drop_prefix(&mut m.book, "script."),
            Event(n, l, mac, href, x) => {
                m.book
                    .insert(format!("event.{n}"), format!("lang={l:?} macro={mac:?} href={href:?} {} {}", ACTUATE[*x as usize % 2], LINK[*x as usize / 2 % 7]));
            }
            DelEvent(n) => return m.book.remove(&format!("event.{n}")).is_some(),
        }
        true
    }
}

pub fn metav_canon(v: &MetaV) -> String {
    match v {
        MetaV::Bool(b) => format!("B{b}"),
        MetaV::Date(s, n) => format!("D{s}.{n:09}"),
        MetaV::Float(f) => format!("F{}", f64s(f)),
        MetaV::Dur(ns) => format!("I{ns}"),
        MetaV::Str(s) => format!("S{s:?}"),
    }
}

pub fn part_canon(p: &PartSpec) -> String {
    format!(
        "{} {:?} content={:?} pos={:?}",
        p.ty,
        attrs_canon(&p.attrs),
        p.content.clone().filter(|v| !v.is_empty()),
        p.pos
    )
}

pub fn cfg_clamp(k: usize, v: i32) -> i32 {
    match k {
        2 | 3 => v.rem_euclid(3),
        6 => v.rem_euclid(4),
        11 => v.rem_euclid(4),
        14 => v.rem_euclid(2),
        _ => v.rem_euclid(100_000),
    }
}

/// Value-type default styles of a freshly loaded workbook.
pub const LOADED_DEF: [(u8, &str); 6] = [
    (1, "bool"),
    (2, "num"),
    (3, "percent"),
    (4, "currency"),
    (7, "date"),
    (8, "interval"),
];

/// What a complete save followed by a full load has to give.
pub struct Reload {
    pub fods: bool,
}

impl Model {
    /// The state a loaded document has to show, given the state that was saved.
    pub fn reloaded(&self, how: &Reload) -> Model {
        let mut o = self.clone();
        let def: BTreeMap<u8, String> = self
            .book
            .iter()
            .filter_map(|(k, v)| {
                k.strip_prefix("defstyle.")
                    .map(|k| (k.parse().unwrap(), v.clone()))
            })
            .collect();
        drop_prefix(&mut o.book, "defstyle.");
        // a loaded workbook starts with the default styles of `WorkBook::default`
        let have: std::collections::BTreeSet<String> = o
            .book
            .keys()
            .filter_map(|k| k.split_once('|').map(|(k, _)| k.to_string()))
            .collect();
        for (k, v) in locale_keys(0) {
            if let Some((n, _)) = k.split_once('|') {
                if !have.contains(n) {
                    o.book.insert(k, v);
                }
            }
        }
        for (k, n) in LOADED_DEF {
            o.book.insert(format!("defstyle.{k}"), format!("default-{n}"));
        }
        if !o.book.contains_key("cfg.active_table") {
            if let Some(s) = o.sheets.first() {
                let n = s.name();
                o.book.insert("cfg.active_table".into(), n);
            }
        }
        if how.fods {
            let ks: Vec<String> = o
                .book
                .keys()
                .filter(|k| k.starts_with("file."))
                .cloned()
                .collect();
            for k in ks {
                o.book.remove(&k);
            }
            // a flat document has one place for automatic styles and one for fonts
            for (k, v) in o.book.iter_mut() {
                if k.ends_with("|place") {
                    if v == "StylesAuto" {
                        *v = "ContentAuto".into();
                    } else if v == "Styles" {
                        *v = "Content".into();
                    }
                }
            }
        }
        for s in &mut o.sheets {
            s.reloaded(&def);
        }
        o
    }
}

impl MSheet {
    fn reloaded(&mut self, def: &BTreeMap<u8, String>) {
        // value-type default styles become direct styles
        for kv in self.cells.values_mut() {
            if !kv.contains_key("style") {
                let kind = match kv.get("val").and_then(|v| v.chars().next()) {
                    None => 0,
                    Some('B') => 1,
                    Some('N') => 2,
                    Some('P') => 3,
                    Some('C') => 4,
                    Some('T') => 5,
                    Some('X') => 6,
                    Some('D') => 7,
                    _ => 8,
                };
                if let Some(s) = def.get(&kind) {
                    kv.insert("style".into(), s.clone());
                }
            }
        }
        // repeated cells are expanded
        let mut add = Vec::new();
        for ((r, c), kv) in self.cells.iter_mut() {
            if let Some(n) = kv.remove("repeat") {
                let n: u32 = n.parse().unwrap();
                for i in 1..n {
                    add.push(((*r, c + i), kv.clone()));
                }
            }
        }
        self.cells.extend(add);
        // repeated rows are expanded, attributes and content
        let mut add_rows = Vec::new();
        for (r, kv) in self.rows.iter_mut() {
            if let Some(n) = kv.remove("repeat") {
                let n: u32 = n.parse().unwrap();
                for i in 1..n {
                    add_rows.push((*r, i, kv.clone()));
                }
            }
        }
        let mut add = Vec::new();
        for (r, i, kv) in add_rows {
            self.rows.insert(r + i, kv);
            for ((_, c), k) in self.cells.range((r, 0)..(r + 1, 0)) {
                add.push(((r + i, *c), k.clone()));
            }
        }
        self.cells.extend(add);
        // cells that carry nothing beyond the default style of their column
        let cols = &self.cols;
        self.cells.retain(|(_, c), kv| {
            if kv.is_empty() {
                return false;
            }
            if kv.len() == 1 {
                if let Some(st) = kv.get("style") {
                    if cols.get(c).and_then(|k| k.get("cell")) == Some(st) {
                        return false;
                    }
                }
            }
            true
        });
        self.rows.retain(|_, k| !k.is_empty());
        self.cols.retain(|_, k| !k.is_empty());
    }
}

/// Names of the styles and formats that come with a locale.
pub fn locale_name(n: &str) -> bool {
    n.starts_with("default-")
        || ["bool1", "num1", "percent1", "currency1", "date1", "datetime1", "time1", "interval1"].contains(&n)
}

/// What the default styles and formats of a locale look like.
pub fn locale_keys(k: u8) -> Kv {
    use std::sync::OnceLock;
    static KEYS: OnceLock<Vec<Kv>> = OnceLock::new();
    KEYS.get_or_init(|| {
        (0..4)
            .map(|k| crate::observe::observe(&spreadsheet_ods::WorkBook::new(crate::apply::locale(k))).book)
            .map(|kv| {
                kv.into_iter()
                    .filter(|(k, _)| k.starts_with("style.") || k.starts_with("fmt.") || k.starts_with("defstyle."))
                    .collect()
            })
            .collect()
    })[k as usize % 4]
        .clone()
}
