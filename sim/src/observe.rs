//! Reads a workbook through public getters into the form of the model.

use crate::apply::{stylemap_canon, validation_canon, vstylemap_canon, PART_TYPES};
use crate::model::*;
use chrono::{Duration, NaiveDateTime};
use std::collections::BTreeMap;
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent};
use spreadsheet_ods::format::{FormatPart, ValueFormatTrait};
use spreadsheet_ods::metadata::MetaValue;
use spreadsheet_ods::sheet::Visibility;
use spreadsheet_ods::style::*;
use spreadsheet_ods::xlink::{XLinkActuate, XLinkShow};
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;

pub fn xof(t: &XmlTag) -> X {
    X::E(
        t.name().to_string(),
        t.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        xofc(t.content()),
    )
}
pub fn xofc(c: &[XmlContent]) -> Vec<X> {
    c.iter()
        .map(|c| match c {
            XmlContent::Text(t) => X::T(t.clone()),
            XmlContent::Tag(t) => xof(t),
        })
        .collect()
}
fn xofs(v: &[XmlTag]) -> Vec<X> {
    v.iter().map(xof).collect()
}

fn dt(d: &NaiveDateTime) -> (i64, u32) {
    let u = d.and_utc();
    (u.timestamp(), u.timestamp_subsec_nanos())
}
fn dts(d: &NaiveDateTime) -> String {
    let (s, n) = dt(d);
    format!("{s}.{n:09}")
}
pub fn dur(d: &Duration) -> i128 {
    d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128
}

pub fn val(v: &Value) -> Option<String> {
    Some(match v {
        Value::Empty => return None,
        Value::Boolean(b) => format!("B{b}"),
        Value::Number(f) => format!("N{f:?}"),
        Value::Percentage(f) => format!("P{f:?}"),
        Value::Currency(f, c) => format!("C{:?} {:?}", c.to_string(), f),
        Value::Text(t) => canon_text(t),
        Value::TextXml(x) => canon_xml_value(&xofs(x)),
        Value::DateTime(d) => format!("D{}", dts(d)),
        Value::TimeDuration(d) => format!("I{}", dur(d)),
    })
}

fn annot(a: &Annotation) -> String {
    annot_canon(&AnnotSpec {
        name: a.name().to_string(),
        display: a.display(),
        creator: a.creator().cloned(),
        date: a.date().map(dt),
        text: xofs(a.text()),
        attrs: a.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
    })
}

fn frame(f: &DrawFrame) -> String {
    frame_canon(&FrameSpec {
        attrs: f.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        title: f.title().cloned(),
        desc: f.desc().cloned(),
        images: f
            .content_ref()
            .iter()
            .map(|c| match c {
                DrawFrameContent::Image(i) => ImageSpec {
                    attrs: i.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
                    bin: i
                        .get_binary_base64()
                        .map(|_| i.get_binary().unwrap_or_else(|e| format!("{e:?}").into_bytes())),
                    text: xofs(i.get_text()),
                },
            })
            .collect(),
    })
}

fn cell(c: &CellContentRef<'_>, nm: &AllNames) -> Kv {
    let mut k = Kv::new();
    if let Some(v) = val(c.value()) {
        k.insert("val".into(), v);
    }
    if let Some(f) = c.formula() {
        k.insert("formula".into(), format!("{f:?}"));
    }
    if let Some(s) = c.style() {
        k.insert("style".into(), known(&nm.cell, s.as_str()));
    }
    if let Some(s) = c.validation() {
        k.insert("valid".into(), s.as_str().into());
    }
    if c.row_span() != 1 || c.col_span() != 1 {
        k.insert("span".into(), format!("{}x{}", c.row_span(), c.col_span()));
    }
    if c.matrix_row_span() != 1 || c.matrix_col_span() != 1 {
        k.insert("mspan".into(), format!("{}x{}", c.matrix_row_span(), c.matrix_col_span()));
    }
    if c.repeat() != 1 {
        k.insert("repeat".into(), c.repeat().to_string());
    }
    if let Some(a) = c.annotation() {
        k.insert("annot".into(), annot(a));
    }
    if let Some(f) = c.draw_frames() {
        if !f.is_empty() {
            let v: Vec<String> = f.iter().map(frame).collect();
            k.insert("frames".into(), v.join(" | "));
        }
    }
    k
}

fn vis(v: Visibility) -> Option<String> {
    match v {
        Visibility::Visible => None,
        Visibility::Collapsed => Some("collapse".into()),
        Visibility::Filtered => Some("filter".into()),
    }
}

/// Style references set by the library itself for widths and heights do not
/// belong to the model; references the histories use start with 'z'.
fn own(n: &str) -> bool {
    n.starts_with('z') || n.starts_with('@') || locale_name(n)
}

/// Names the library gave to styles -> names the history knows them by.
type Names = BTreeMap<String, String>;

fn marker<'a>(mut a: impl Iterator<Item = (String, &'a str)>) -> Option<String> {
    a.find(|(k, v)| k == "style:display-name" && v.starts_with('@'))
        .map(|(_, v)| v.to_string())
}
fn known(m: &Names, n: &str) -> String {
    m.get(n).cloned().unwrap_or_else(|| n.to_string())
}
macro_rules! names {
    ($w:expr, $it:ident) => {{
        let mut m = Names::new();
        for s in $w.$it() {
            if let Some(n) = marker(s.attrmap().iter().map(|(k, v)| (k.to_string(), v))) {
                m.insert(s.name().to_string(), n);
            }
        }
        m
    }};
}
#[derive(Default)]
struct AllNames {
    table: Names,
    row: Names,
    col: Names,
    cell: Names,
}

/// Every way to look at a cell shows the same.
fn views(s: &Sheet, r: u32, c: u32, k: &CellContentRef<'_>) -> Option<String> {
    let mut bad = Vec::new();
    let mut t = |n: &str, ok: bool| {
        if !ok {
            bad.push(n.to_string());
        }
    };
    t("value", s.value(r, c) == k.value());
    t("formula", s.formula(r, c) == k.formula());
    t("cellstyle", s.cellstyle(r, c) == k.style());
    t("validation", s.validation(r, c) == k.validation());
    t("cell_repeat", s.cell_repeat(r, c) == k.repeat());
    t("row_span", s.row_span(r, c) == k.row_span());
    t("col_span", s.col_span(r, c) == k.col_span());
    t("matrix_row_span", s.matrix_row_span(r, c) == k.matrix_row_span());
    t("matrix_col_span", s.matrix_col_span(r, c) == k.matrix_col_span());
    t("annotation", s.annotation(r, c).map(annot) == k.annotation().map(annot));
    let fr = |v: Option<&Vec<DrawFrame>>| v.map(|v| v.iter().map(frame).collect::<Vec<_>>()).unwrap_or_default();
    t("draw_frames", fr(s.draw_frames(r, c)) == fr(k.draw_frames()));
    t("is_empty", !s.is_empty(r, c));
    match s.cell(r, c) {
        None => t("cell", false),
        Some(mut o) => {
            t("cell.value", o.value() == k.value());
            t("cell.formula", o.formula() == k.formula());
            t("cell.style", o.style() == k.style());
            t("cell.validation", o.validation() == k.validation());
            t("cell.repeat", o.get_repeat() == k.repeat());
            t("cell.span", (o.row_span(), o.col_span()) == (k.row_span(), k.col_span()));
            t(
                "cell.mspan",
                (o.matrix_row_span(), o.matrix_col_span()) == (k.matrix_row_span(), k.matrix_col_span()),
            );
            t("cell.annotation", o.annotation().map(annot) == k.annotation().map(annot));
            t("cell.draw_frames", fr(Some(o.draw_frames())) == fr(k.draw_frames()));
        }
    }
    t("cell_ref", s.cell_ref(r, c).is_some_and(|x| x.value() == k.value() && x.formula() == k.formula()));
    (!bad.is_empty()).then(|| bad.join(","))
}

/// The iterators walk the same cells, each in its order.
fn iterators(s: &Sheet) -> Option<String> {
    let all: Vec<(u32, u32)> = s.iter().map(|(k, _)| k).collect();
    let n = all.len() as u32;
    // a window that depends on the sheet's content
    let (r0, c0) = (n % 3, n % 2);
    let (r1, c1) = (r0 + 1 + n % 11, c0 + 1 + n % 7);
    let mut want: Vec<(u32, u32)> = all
        .iter()
        .copied()
        .filter(|(r, c)| (r0..r1).contains(r) && (c0..c1).contains(c))
        .collect();
    let rows: Vec<_> = s.iter_rows((r0, c0)..(r1, c1)).map(|(k, _)| k).collect();
    if rows != want {
        return Some(format!("iter_rows {:?}: {rows:?} instead of {want:?}", ((r0, c0), (r1, c1))));
    }
    let lex: Vec<_> = s.range((r0, c0)..(r1, c1)).map(|(k, _)| k).collect();
    let wlex: Vec<_> = all.iter().copied().filter(|k| (r0, c0) <= *k && *k < (r1, c1)).collect();
    if lex != wlex {
        return Some(format!("range: {lex:?} instead of {wlex:?}"));
    }
    want.sort_by_key(|(r, c)| (*c, *r));
    let cols: Vec<_> = s
        .iter_cols((r0, c0)..(r1, c1))
        .map(|(k, _)| k)
        .take(want.len() + 1)
        .collect();
    if cols != want {
        return Some(format!("iter_cols {:?}: {cols:?} instead of {want:?}", ((r0, c0), (r1, c1))));
    }
    // open ranges
    let open: Vec<_> = s.iter_rows((r0, c0)..).map(|(k, _)| k).collect();
    let wopen: Vec<_> = all.iter().copied().filter(|(r, c)| *r >= r0 && *c >= c0).collect();
    if open != wopen {
        return Some(format!("iter_rows {:?}..: {open:?} instead of {wopen:?}", (r0, c0)));
    }
    let upto: Vec<_> = s.iter_rows(..=(r1, c1)).map(|(k, _)| k).collect();
    let wupto: Vec<_> = all.iter().copied().filter(|(r, c)| *r <= r1 && *c <= c1).collect();
    if upto != wupto {
        return Some(format!("iter_rows ..={:?}: {upto:?} instead of {wupto:?}", (r1, c1)));
    }
    let it = s.iter_rows((r0, c0)..(r1, c1));
    if it.size_hint().1.is_some_and(|h| h < rows.len()) {
        return Some(format!("iter_rows size_hint {:?} for {} cells", it.size_hint(), rows.len()));
    }
    if s.cell_count() != all.len() {
        return Some(format!("cell_count {} for {} cells", s.cell_count(), all.len()));
    }
    let mut it = s.iter();
    for (i, k) in all.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        let left = all.len() - i;
        if lo > left || hi.is_some_and(|h| h < left) {
            return Some(format!("iter size_hint {:?} with {left} cells left", (lo, hi)));
        }
        if it.peek_cell() != Some(*k) {
            return Some(format!("peek_cell {:?} before {k:?}", it.peek_cell()));
        }
        it.next();
    }
    // a place without a cell
    let (er, ec) = ((0..).find(|r| !all.contains(&(*r, n % 5))).unwrap(), n % 5);
    if !s.is_empty(er, ec)
        || *s.value(er, ec) != Value::Empty
        || s.formula(er, ec).is_some()
        || s.cellstyle(er, ec).is_some()
        || s.validation(er, ec).is_some()
        || s.cell(er, ec).is_some()
        || s.cell_ref(er, ec).is_some()
        || s.annotation(er, ec).is_some()
        || s.draw_frames(er, ec).is_some()
        || (s.row_span(er, ec), s.col_span(er, ec)) != (1, 1)
        || (s.matrix_row_span(er, ec), s.matrix_col_span(er, ec)) != (1, 1)
        || s.cell_repeat(er, ec) != 1
    {
        return Some(format!("something at {:?} where no cell is", (er, ec)));
    }
    let g: Vec<_> = s.col_group_iter().collect();
    if g.len() != s.col_group_count()
        || (0..g.len()).any(|i| s.col_group(i) != Some(g[i]))
        || s.col_group(g.len()).is_some()
    {
        return Some("col_group".into());
    }
    let g: Vec<_> = s.row_group_iter().collect();
    if g.len() != s.row_group_count()
        || (0..g.len()).any(|i| s.row_group(i) != Some(g[i]))
        || s.row_group(g.len()).is_some()
    {
        return Some("row_group".into());
    }
    let (gr, gc) = s.used_grid_size();
    let (mr, mc) = all.iter().fold((0, 0), |(a, b), (r, c)| (a.max(r + 1), b.max(c + 1)));
    if gr < mr || gc < mc {
        return Some(format!("used_grid_size {gr}x{gc}, cells up to {mr}x{mc}"));
    }
    None
}

fn sheet(s: &Sheet, nm: &AllNames) -> MSheet {
    let mut o = MSheet::named(s.name());
    if !s.display() {
        o.misc.insert("display".into(), "false".into());
    }
    if !s.print() {
        o.misc.insert("print".into(), "false".into());
    }
    if let Some(st) = s.style() {
        o.misc.insert("style".into(), known(&nm.table, st.as_str()));
    }
    let c = s.config();
    let v = [
        c.cursor_x as i32,
        c.cursor_y as i32,
        c.hor_split_mode as i32,
        c.vert_split_mode as i32,
        c.hor_split_pos as i32,
        c.vert_split_pos as i32,
        c.active_split_range as i32,
        c.position_left as i32,
        c.position_right as i32,
        c.position_top as i32,
        c.position_bottom as i32,
        c.zoom_type as i32,
        c.zoom_value,
        c.page_view_zoom_value,
        c.show_grid as i32,
    ];
    for i in 0..v.len() {
        if v[i] != CFG_DEF[i] {
            o.misc.insert(format!("cfg.{}", CFG_NAMES[i]), v[i].to_string());
        }
    }
    if let Some(p) = s.print_ranges() {
        let v: Vec<String> = p
            .iter()
            .map(|r| format!("{},{}:{},{}", r.row(), r.col(), r.to_row(), r.to_col()))
            .collect();
        if !v.is_empty() {
            o.misc.insert("print_ranges".into(), v.join(" "));
        }
    }
    if let Some(h) = s.header_rows() {
        o.misc.insert("hrows".into(), format!("{}-{}", h.from, h.to));
    }
    if let Some(h) = s.header_cols() {
        o.misc.insert("hcols".into(), format!("{}-{}", h.from, h.to));
    }
    for ((r, c), k) in s.iter() {
        let mut kv = cell(&k, nm);
        if let Some(e) = views(s, r, c, &k) {
            kv.insert("view".into(), e);
        }
        if !kv.is_empty() {
            o.cells.insert((r, c), kv);
        }
    }
    if let Some(e) = iterators(s) {
        o.misc.insert("view".into(), e);
    }
    let rmax = s
        .row_header_max()
        .saturating_add(s._row_header_span(s.row_header_max()).unwrap_or(0))
        .min(4000);
    for r in 0..=rmax {
        let mut k = Kv::new();
        if let Some(st) = s.rowstyle(r) {
            let st = known(&nm.row, st.as_str());
            if own(&st) {
                k.insert("style".into(), st);
            }
        }
        if let Some(st) = s.row_cellstyle(r) {
            k.insert("cell".into(), known(&nm.cell, st.as_str()));
        }
        if let Some(v) = vis(s.row_visible(r)) {
            k.insert("vis".into(), v);
        }
        let h = s.row_height(r).to_string();
        if !h.is_empty() {
            k.insert("height".into(), h);
        }
        let n = s.row_repeat(r);
        if n > 1 {
            k.insert("repeat".into(), n.to_string());
        }
        if !k.is_empty() {
            o.rows.insert(r, k);
        }
    }
    let cmax = s
        .col_header_max()
        .saturating_add(s._col_header_span(s.col_header_max()))
        .min(2000);
    for c in 0..=cmax {
        let mut k = Kv::new();
        if let Some(st) = s.colstyle(c) {
            let st = known(&nm.col, st.as_str());
            if own(&st) {
                k.insert("style".into(), st);
            }
        }
        if let Some(st) = s.col_cellstyle(c) {
            k.insert("cell".into(), known(&nm.cell, st.as_str()));
        }
        if let Some(v) = vis(s.col_visible(c)) {
            k.insert("vis".into(), v);
        }
        let h = s.col_width(c).to_string();
        if !h.is_empty() {
            k.insert("width".into(), h);
        }
        if !k.is_empty() {
            o.cols.insert(c, k);
        }
    }
    for g in s.col_group_iter() {
        o.col_groups.insert((g.from(), g.to()), g.display());
    }
    for g in s.row_group_iter() {
        o.row_groups.insert((g.from(), g.to()), g.display());
    }
    o
}

fn place(o: StyleOrigin, u: StyleUse) -> String {
    match (o, u) {
        (StyleOrigin::Content, StyleUse::Automatic) => "ContentAuto".into(),
        (StyleOrigin::Styles, StyleUse::Automatic) => "StylesAuto".into(),
        (StyleOrigin::Styles, StyleUse::Named) => "StylesNamed".into(),
        (StyleOrigin::Styles, StyleUse::Default) => "StylesDefault".into(),
        (o, u) => format!("{o:?}{u:?}"),
    }
}

fn attrs<'a>(
    b: &mut Kv,
    k: &str,
    g: &str,
    f: Option<Fam>,
    it: impl Iterator<Item = (String, &'a str)>,
) {
    for (a, v) in it {
        if a == "style:name" || a == "style:family" {
            continue;
        }
        if f.is_some_and(|f| managed_attr(f, &a)) {
            continue;
        }
        b.insert(format!("{k}|{g}{a}"), v.to_string());
    }
}

macro_rules! styles {
    ($book:expr, $o:expr, $fam:expr, $iter:ident, $($g:literal => $m:ident),*) => {
        for s in $book.$iter() {
            let default = s.styleuse() == StyleUse::Default;
            let name = marker(s.attrmap().iter().map(|(k, v)| (k.to_string(), v))).unwrap_or_else(|| s.name().to_string());
            if !own(&name) && !default {
                continue;
            }
            let k = style_key($fam, if default { DEFAULT_NAME } else { &name });
            $o.insert(format!("{k}|place"), place(s.origin(), s.styleuse()));
            $(
                attrs(&mut $o, &k, &format!("{}.", $g), Some($fam), s.$m().iter().map(|(k, v)| (k.to_string(), v)));
            )*
        }
    };
}

pub const PART_ATTRS: [&str; 24] = [
    "number:decimal-places",
    "number:min-decimal-places",
    "number:min-integer-digits",
    "number:grouping",
    "number:decimal-replacement",
    "number:display-factor",
    "number:min-exponent-digits",
    "number:exponent-interval",
    "number:forced-exponent-sign",
    "number:denominator-value",
    "number:max-denominator-value",
    "number:min-denominator-digits",
    "number:min-numerator-digits",
    "number:language",
    "number:country",
    "number:script",
    "number:style",
    "number:calendar",
    "number:textual",
    "number:possessive-form",
    "loext:max-blank-integer-digits",
    "number:truncate-on-overflow",
    "number:position",
    "number:transliteration-style",
];

fn part(p: &FormatPart) -> String {
    let ty = PART_TYPES.iter().position(|t| *t == p.part_type()).unwrap_or(99) as u8;
    let mut a = Vec::new();
    for n in PART_ATTRS {
        let v = p.attr_def(n, "\u{1}none");
        if v != "\u{1}none" && n != "number:position" {
            a.push((n.to_string(), v.to_string()));
        }
    }
    part_canon(&PartSpec {
        ty,
        attrs: a,
        content: p.content().cloned(),
        pos: p.position(),
    })
}

fn fmt<F: ValueFormatTrait>(b: &mut Kv, kind: usize, f: &F) {
    let name =
        marker(f.attrmap().iter().map(|(k, v)| (k.to_string(), v))).unwrap_or_else(|| f.name().to_string());
    if !own(&name) {
        return;
    }
    let k = format!("fmt.{}.{}", FMT_KINDS[kind], name);
    b.insert(format!("{k}|place"), place(f.origin(), f.styleuse()));
    attrs(b, &k, "a.", None, f.attrmap().iter().map(|(k, v)| (k.to_string(), v)));
    attrs(b, &k, "t.", None, f.textstyle().iter().map(|(k, v)| (k.to_string(), v)));
    for (i, p) in f.parts().iter().enumerate() {
        b.insert(format!("{k}|part{i}"), part(p));
    }
    for (i, m) in f.stylemaps().into_iter().flatten().enumerate() {
        b.insert(format!("{k}|map{i}"), vstylemap_canon(m));
    }
}

fn show(s: &XLinkShow) -> &'static str {
    match s {
        XLinkShow::New => "new",
        XLinkShow::Replace => "replace",
    }
}
fn actuate(s: &XLinkActuate) -> &'static str {
    match s {
        XLinkActuate::OnLoad => "onLoad",
        XLinkActuate::OnRequest => "onRequest",
    }
}

/// Lookups by name or position find what the iterations show.
fn lookups(w: &WorkBook) -> Vec<String> {
    let mut bad = Vec::new();
    let sheets: Vec<&Sheet> = w.iter_sheets().collect();
    if w.num_sheets() != sheets.len() {
        bad.push("num_sheets".into());
    }
    for (i, s) in sheets.iter().enumerate() {
        if !std::ptr::eq(w.sheet(i), *s) {
            bad.push(format!("sheet {i}"));
        }
        let first = sheets.iter().position(|x| x.name() == s.name());
        if w.sheet_idx(s.name()) != first {
            bad.push(format!("sheet_idx {:?}", s.name()));
        }
    }
    if w.sheet_idx("no such sheet").is_some() {
        bad.push("sheet_idx of nothing".into());
    }
    macro_rules! look {
        ($it:ident, $get:ident, $key:expr) => {
            let mut seen = std::collections::BTreeSet::new();
            for x in w.$it() {
                #[allow(clippy::redundant_closure_call)]
                let n: String = ($key)(x);
                if !w.$get(&n).is_some_and(|y| std::ptr::eq(x, y)) {
                    bad.push(format!("{} {n:?}", stringify!($get)));
                }
                if !seen.insert(n.clone()) {
                    bad.push(format!("{} {n:?} twice", stringify!($it)));
                }
            }
            if w.$get("no such name").is_some() {
                bad.push(format!("{} of nothing", stringify!($get)));
            }
        };
    }
    look!(iter_fonts, font, |x: &FontFaceDecl| x.name().to_string());
    look!(iter_table_styles, tablestyle, |x: &TableStyle| x.name().to_string());
    look!(iter_rowstyles, rowstyle, |x: &RowStyle| x.name().to_string());
    look!(iter_colstyles, colstyle, |x: &ColStyle| x.name().to_string());
    look!(iter_cellstyles, cellstyle, |x: &CellStyle| x.name().to_string());
    look!(iter_paragraphstyles, paragraphstyle, |x: &ParagraphStyle| x.name().to_string());
    look!(iter_textstyles, textstyle, |x: &TextStyle| x.name().to_string());
    look!(iter_rubystyles, rubystyle, |x: &RubyStyle| x.name().to_string());
    look!(iter_graphicstyles, graphicstyle, |x: &GraphicStyle| x.name().to_string());
    look!(iter_boolean_formats, boolean_format, |x: &ValueFormatBoolean| x.name().to_string());
    look!(iter_number_formats, number_format, |x: &ValueFormatNumber| x.name().to_string());
    look!(iter_percentage_formats, percentage_format, |x: &ValueFormatPercentage| x.name().to_string());
    look!(iter_currency_formats, currency_format, |x: &ValueFormatCurrency| x.name().to_string());
    look!(iter_text_formats, text_format, |x: &ValueFormatText| x.name().to_string());
    look!(iter_datetime_formats, datetime_format, |x: &ValueFormatDateTime| x.name().to_string());
    look!(iter_timeduration_formats, timeduration_format, |x: &ValueFormatTimeDuration| x.name().to_string());
    look!(iter_pagestyles, pagestyle, |x: &PageStyle| x.name().to_string());
    look!(iter_masterpages, masterpage, |x: &MasterPage| x.name().to_string());
    look!(iter_validations, validation, |x: &spreadsheet_ods::validation::Validation| x.name().to_string());
    look!(iter_manifest, manifest, |x: &spreadsheet_ods::manifest::Manifest| x.full_path.clone());
    look!(iter_event_listeners, event_listener, |x: &spreadsheet_ods::workbook::EventListener| x.event_name().to_string());
    bad
}

/// Everything but the sheets' content is skipped with `content_only`.
pub fn observe(w: &WorkBook) -> Model {
    let mut m = Model::default();
    let nm = AllNames {
        table: names!(w, iter_table_styles),
        row: names!(w, iter_rowstyles),
        col: names!(w, iter_colstyles),
        cell: names!(w, iter_cellstyles),
    };
    for s in w.iter_sheets() {
        m.sheets.push(sheet(s, &nm));
    }
    let mut o = Kv::new();

    styles!(w, o, Fam::Table, iter_table_styles, "0" => attrmap, "1" => tablestyle);
    styles!(w, o, Fam::Row, iter_rowstyles, "0" => attrmap, "1" => rowstyle);
    styles!(w, o, Fam::Col, iter_colstyles, "0" => attrmap, "1" => colstyle);
    styles!(w, o, Fam::Cell, iter_cellstyles, "0" => attrmap, "1" => cellstyle, "2" => paragraphstyle, "3" => textstyle);
    for s in w.iter_cellstyles() {
        let name = known(&nm.cell, s.name());
        if !own(&name) {
            continue;
        }
        for (i, m) in s.stylemaps().into_iter().flatten().enumerate() {
            o.insert(format!("{}|map{i}", style_key(Fam::Cell, &name)), stylemap_canon(m));
        }
    }
    styles!(w, o, Fam::Para, iter_paragraphstyles, "0" => attrmap, "1" => paragraphstyle, "2" => textstyle);
    for s in w.iter_paragraphstyles() {
        let default = s.styleuse() == StyleUse::Default;
        let name = marker(s.attrmap().iter().map(|(k, v)| (k.to_string(), v))).unwrap_or_else(|| s.name().to_string());
        if !own(&name) && !default {
            continue;
        }
        let k = style_key(Fam::Para, if default { DEFAULT_NAME } else { &name });
        for (i, t) in s.tabstops().into_iter().flatten().enumerate() {
            let a: Attrs = t.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            o.insert(format!("{k}|tab{i}"), format!("{:?}", attrs_canon(&a)));
        }
    }
    styles!(w, o, Fam::Text, iter_textstyles, "0" => attrmap, "1" => textstyle);
    styles!(w, o, Fam::Ruby, iter_rubystyles, "0" => attrmap, "1" => rubystyle);
    styles!(w, o, Fam::Graphic, iter_graphicstyles, "0" => attrmap, "1" => graphicstyle, "2" => paragraphstyle, "3" => textstyle);

    w.iter_boolean_formats().for_each(|f| fmt(&mut o, 0, f));
    w.iter_number_formats().for_each(|f| fmt(&mut o, 1, f));
    w.iter_percentage_formats().for_each(|f| fmt(&mut o, 2, f));
    w.iter_currency_formats().for_each(|f| fmt(&mut o, 3, f));
    w.iter_text_formats().for_each(|f| fmt(&mut o, 4, f));
    w.iter_datetime_formats().for_each(|f| fmt(&mut o, 5, f));
    w.iter_timeduration_formats().for_each(|f| fmt(&mut o, 6, f));

    for f in w.iter_fonts().filter(|f| own(f.name())) {
        let k = format!("font.{}", f.name());
        o.insert(format!("{k}|place"), format!("{:?}", f.origin()));
        attrs(&mut o, &k, "", None, f.attrmap().iter().map(|(k, v)| (k.to_string(), v)));
    }
    for p in w.iter_pagestyles().filter(|p| own(p.name())) {
        let k = format!("page.{}", p.name());
        let u = match p.page_usage() {
            Ok(u) => u.map(|u| u.to_string()),
            Err(e) => Some(format!("{e:?}")),
        };
        o.insert(format!("{k}|usage"), format!("{u:?}"));
        attrs(&mut o, &k, "p.", None, p.style().iter().map(|(k, v)| (k.to_string(), v)));
        attrs(&mut o, &k, "h.", None, p.headerstyle().style().iter().map(|(k, v)| (k.to_string(), v)));
        attrs(&mut o, &k, "f.", None, p.footerstyle().style().iter().map(|(k, v)| (k.to_string(), v)));
    }
    for p in w.iter_masterpages().filter(|p| own(p.name())) {
        let k = format!("master.{}", p.name());
        o.insert(
            format!("{k}|base"),
            format!(
                "{:?} page={:?} next={:?}",
                p.display_name(),
                p.pagestyle().map(|p| p.as_str().to_string()).unwrap_or_default(),
                p.next_masterpage().map(|p| p.as_str().to_string())
            ),
        );
        let hfs = [
            p.header(),
            p.header_first(),
            p.header_left(),
            p.footer(),
            p.footer_first(),
            p.footer_left(),
        ];
        for (i, h) in hfs.iter().enumerate() {
            let h = HfSpec {
                display: h.display(),
                left: xofs(h.left()),
                center: xofs(h.center()),
                right: xofs(h.right()),
                content: xofs(h.content()),
            };
            if !h.is_empty() {
                o.insert(format!("{k}|hf{i}"), h.canon());
            }
        }
    }
    for v in w.iter_validations() {
        o.insert(format!("valid.{}", v.name()), validation_canon(v));
    }
    const VT: [ValueType; 9] = [
        ValueType::Empty,
        ValueType::Boolean,
        ValueType::Number,
        ValueType::Percentage,
        ValueType::Currency,
        ValueType::Text,
        ValueType::TextXml,
        ValueType::DateTime,
        ValueType::TimeDuration,
    ];
    for (i, t) in VT.iter().enumerate() {
        if let Some(s) = w.def_style(*t) {
            o.insert(format!("defstyle.{i}"), known(&nm.cell, s.as_str()));
        }
    }
    for f in w.iter_manifest() {
        if let Some(b) = &f.buffer {
            if f.full_path.starts_with('z') {
                o.insert(format!("file.{}", f.full_path), format!("{:?} {:?}", f.media_type, b));
            }
        }
    }
    let c = w.config();
    if !c.active_table.is_empty() {
        o.insert("cfg.active_table".into(), c.active_table.clone());
    }
    if !c.show_grid {
        o.insert("cfg.show_grid".into(), "false".into());
    }
    if c.show_page_breaks {
        o.insert("cfg.show_page_breaks".into(), "true".into());
    }
    if !c.has_sheet_tabs {
        o.insert("cfg.has_sheet_tabs".into(), "false".into());
    }

    let d = w.metadata();
    let strs = [
        &d.title,
        &d.description,
        &d.subject,
        &d.keyword,
        &d.initial_creator,
        &d.creator,
        &d.printed_by,
        &d.language,
    ];
    for (n, v) in META_STR.iter().zip(strs) {
        if !v.is_empty() {
            o.insert(format!("meta.{n}"), v.clone());
        }
    }
    for (n, v) in META_DATE.iter().zip([&d.creation_date, &d.date, &d.print_date]) {
        if let Some(v) = v {
            o.insert(format!("meta.{n}"), dts(v));
        }
    }
    if d.editing_cycles > 0 {
        o.insert("meta.cycles".into(), d.editing_cycles.to_string());
    }
    if dur(&d.editing_duration) != 0 {
        o.insert("meta.editdur".into(), dur(&d.editing_duration).to_string());
    }
    let t = &d.template;
    if t.date.is_some() || t.href.is_some() || t.title.is_some() || t.actuate.is_some() || t.link_type.is_some() {
        o.insert(
            "meta.template".into(),
            format!(
                "date={:?} href={:?} title={:?} actuate={:?} type={:?}",
                t.date.as_ref().map(dts),
                t.href,
                t.title,
                t.actuate.as_ref().map(actuate),
                t.link_type.map(|l| l.to_string())
            ),
        );
    }
    let t = &d.auto_reload;
    if t.delay.is_some() || t.href.is_some() || t.show.is_some() || t.actuate.is_some() || t.link_type.is_some() {
        o.insert(
            "meta.reload".into(),
            format!(
                "delay={:?} href={:?} show={:?} actuate={:?} type={:?}",
                t.delay.as_ref().map(dur),
                t.href,
                t.show.as_ref().map(show),
                t.actuate.as_ref().map(actuate),
                t.link_type.map(|l| l.to_string())
            ),
        );
    }
    let t = &d.hyperlink_behaviour;
    if t.target_frame_name.is_some() || t.show.is_some() {
        o.insert(
            "meta.hyper".into(),
            format!(
                "target={:?} show={:?}",
                t.target_frame_name,
                t.show.as_ref().map(show)
            ),
        );
    }
    let t = &d.document_statistics;
    m.stats = (t.table_count, t.cell_count);
    for (n, v) in [("objects", t.object_count), ("oleobjects", t.ole_object_count)] {
        if v > 0 {
            o.insert(format!("meta.{n}"), v.to_string());
        }
    }
    for (i, u) in d.user_defined.iter().enumerate() {
        let v = match &u.value {
            MetaValue::Boolean(b) => format!("B{b}"),
            MetaValue::Datetime(d) => format!("D{}", dts(d)),
            MetaValue::Float(f) => format!("F{f:?}"),
            MetaValue::TimeDuration(d) => format!("I{}", dur(d)),
            MetaValue::String(s) => format!("S{s:?}"),
        };
        o.insert(format!("meta.user{i:03}"), format!("{:?}={}", u.name, v));
    }
    for (i, s) in w.iter_scripts().enumerate() {
        o.insert(format!("script.{i}"), format!("{:?} {}", s.script_lang(), canon(&xofc(s.script()))));
    }
    for e in w.iter_event_listeners() {
        o.insert(
            format!("event.{}", e.event_name()),
            format!(
                "lang={:?} macro={:?} href={:?} {} {}",
                e.script_lang(),
                e.macro_name(),
                e.href(),
                actuate(&e.actuate()),
                e.link_type()
            ),
        );
    }
    let bad = lookups(w);
    if !bad.is_empty() {
        o.insert("view".into(), bad.join(", "));
    }
    m.book = o;
    m
}
