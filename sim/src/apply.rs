//! Performs an edit on a real workbook, through the library's public API only.

use crate::model::*;
use chrono::{DateTime, Duration, NaiveDateTime};
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
use spreadsheet_ods::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::metadata::{MetaUserDefined, MetaValue};
use spreadsheet_ods::sheet::{SplitMode, Visibility};
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::units::MasterPageUsage;
use spreadsheet_ods::style::*;
use spreadsheet_ods::text::TextTag;
use spreadsheet_ods::validation::*;
use spreadsheet_ods::workbook::{EventListener, Script};
use spreadsheet_ods::xlink::{XLinkActuate, XLinkShow, XLinkType};
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;

pub fn ndt(s: i64, n: u32) -> NaiveDateTime {
    DateTime::from_timestamp(s, n).expect("timestamp").naive_utc()
}

pub fn xtag(x: &X) -> XmlTag {
    match x {
        X::T(t) => XmlTag::new("text:p").text(t.clone()),
        X::E(n, a, c) => {
            let mut t = XmlTag::new(n.clone());
            for (k, v) in a {
                t.set_attr(k.as_str(), v.clone());
            }
            for k in c {
                match k {
                    X::T(s) => t.add_text(s.clone()),
                    X::E(..) => t.add_tag(xtag(k)),
                }
            }
            t
        }
    }
}

pub fn xtags(x: &[X]) -> Vec<TextTag> {
    x.iter().map(xtag).collect()
}

pub fn xcontent(x: &[X]) -> Vec<XmlContent> {
    x.iter()
        .map(|x| match x {
            X::T(t) => XmlContent::Text(t.clone()),
            X::E(..) => XmlContent::Tag(xtag(x)),
        })
        .collect()
}

pub fn value(v: &V) -> Value {
    let f = |s: &String| s.parse::<f64>().unwrap_or(0.0);
    match v {
        V::Empty => Value::Empty,
        V::Bool(b) => Value::Boolean(*b),
        V::Num(n) => Value::Number(f(n)),
        V::Pct(n) => Value::Percentage(f(n)),
        V::Cur(c, n) => Value::Currency(f(n), c.clone().into_boxed_str()),
        V::Text(t) => Value::Text(t.clone()),
        V::Xml(x) => Value::TextXml(xtags(x)),
        V::DateTime(s, n) => Value::DateTime(ndt(*s, *n)),
        V::Dur(ns) => Value::TimeDuration(Duration::nanoseconds(*ns)),
    }
}

pub fn length(s: &str) -> Length {
    if s.is_empty() {
        return Length::Default;
    }
    let (n, u) = s.split_at(s.len() - 2);
    let v: f64 = n.parse().unwrap();
    match u {
        "cm" => Length::Cm(v),
        "mm" => Length::Mm(v),
        "in" => Length::In(v),
        "pt" => Length::Pt(v),
        "pc" => Length::Pc(v),
        _ => Length::Em(v),
    }
}

fn cond(k: u8, arg: &str) -> Condition {
    match k % 8 {
        0 => Condition::content_eq(arg.len() as f64 + 0.5),
        1 => Condition::content_eq(arg),
        2 => Condition::content_text_length_is_between(1, arg.len() as u32 + 2),
        3 => Condition::is_true_formula("[.A1]>5"),
        4 => Condition::content_is_in_list(&[arg, "B&C", "<d>"]),
        5 => Condition::content_is_in_cellrange(CellRange::local(0, 0, 3, arg.len() as u32)),
        6 => Condition::content_is_whole_number_and(Condition::content_gt(5)),
        _ => Condition::content_ne(arg),
    }
}

fn vcond(k: u8, arg: &str) -> ValueCondition {
    match k % 4 {
        0 => ValueCondition::value_eq(arg.len() as f64 + 0.25),
        1 => ValueCondition::value_ge(arg.len() as u32),
        2 => ValueCondition::value_lt(-5),
        _ => ValueCondition::value_ne(arg.len() as i64),
    }
}

fn stylemap(m: &MapSpec) -> StyleMap {
    StyleMap::new(
        cond(m.cond, &m.arg),
        m.applied.as_str().into(),
        m.base.map(|(r, c)| CellRef::remote("S h'1", r, c)),
    )
}

pub fn stylemap_canon(m: &StyleMap) -> String {
    format!(
        "{} -> {:?} base={:?}",
        m.condition(),
        m.applied_style().as_str(),
        m.base_cell().map(|b| b.to_string())
    )
}
pub fn map_canon(m: &MapSpec) -> String {
    stylemap_canon(&stylemap(m))
}
pub fn vstylemap_canon(m: &ValueStyleMap) -> String {
    format!("{} -> {:?}", m.condition(), m.applied_style())
}
pub fn vmap_canon(m: &MapSpec) -> String {
    vstylemap_canon(&ValueStyleMap::new(vcond(m.cond, &m.arg), m.applied.clone()))
}

fn validation(v: &ValidSpec) -> Validation {
    let mut o = Validation::new();
    o.set_name(&v.name);
    o.set_condition(cond(v.cond, &v.arg));
    o.set_base_cell(CellRef::remote("sheet1", v.base.0, v.base.1));
    o.set_allow_empty(v.allow_empty);
    o.set_display(match v.display % 3 {
        0 => ValidationDisplay::NoDisplay,
        1 => ValidationDisplay::Unsorted,
        _ => ValidationDisplay::SortAscending,
    });
    o.set_err(v.err.as_ref().map(|m| {
        let mut e = ValidationError::new();
        e.set_display(m.display);
        e.set_title(m.title.clone());
        e.set_msg_type(match m.msg % 3 {
            0 => MessageType::Error,
            1 => MessageType::Warning,
            _ => MessageType::Info,
        });
        e.set_text(m.text.as_ref().map(xtag));
        e
    }));
    o.set_help(v.help.as_ref().map(|m| {
        let mut e = ValidationHelp::new();
        e.set_display(m.display);
        e.set_title(m.title.clone());
        e.set_text(m.text.as_ref().map(xtag));
        e
    }));
    o
}

pub fn validation_canon(v: &Validation) -> String {
    let t = |t: Option<&TextTag>| t.map(|t| canon(&[crate::observe::xof(t)]));
    format!(
        "cond={} base={} empty={} display={:?} err={:?} help={:?}",
        v.condition(),
        v.base_cell(),
        v.allow_empty(),
        v.display(),
        v.err().map(|e| format!(
            "{} {} {:?} {:?}",
            e.display(),
            e.msg_type(),
            e.title(),
            t(e.text())
        )),
        v.help()
            .map(|e| format!("{} {:?} {:?}", e.display(), e.title(), t(e.text()))),
    )
}
pub fn valid_canon(v: &ValidSpec) -> String {
    validation_canon(&validation(v))
}

fn annotation(a: &AnnotSpec) -> Annotation {
    let mut o = Annotation::new_empty();
    for (k, v) in &a.attrs {
        o.attrmap_mut().set_attr(k, v.clone());
    }
    o.set_name(a.name.clone());
    o.set_display(a.display);
    o.set_creator(a.creator.clone());
    o.set_date(a.date.map(|(s, n)| ndt(s, n)));
    o.set_text(xtags(&a.text));
    o
}

fn frame(f: &FrameSpec) -> DrawFrame {
    let mut o = DrawFrame::new();
    for (k, v) in &f.attrs {
        o.attrmap_mut().set_attr(k, v.clone());
    }
    if let Some(t) = &f.title {
        o.set_title(t.clone());
    }
    if let Some(t) = &f.desc {
        o.set_desc(t.clone());
    }
    for i in &f.images {
        let mut d = DrawImage::new();
        for (k, v) in &i.attrs {
            d.attrmap_mut().set_attr(k, v.clone());
        }
        if let Some(b) = &i.bin {
            d.set_binary(b);
        }
        d.set_text(xtags(&i.text));
        o.push_content(DrawFrameContent::Image(d));
    }
    o
}

fn place(p: Place) -> (StyleOrigin, StyleUse) {
    match p {
        Place::ContentAuto => (StyleOrigin::Content, StyleUse::Automatic),
        Place::StylesAuto => (StyleOrigin::Styles, StyleUse::Automatic),
        Place::StylesNamed => (StyleOrigin::Styles, StyleUse::Named),
        Place::StylesDefault => (StyleOrigin::Styles, StyleUse::Default),
    }
}

macro_rules! put_style {
    ($s:expr, $o:expr, $($g:literal => $m:ident),*) => {{
        let (origin, usage) = place($s.place);
        $o.set_origin(origin);
        $o.set_styleuse(usage);
        for (g, k, v) in &$s.attrs {
            match *g {
                $($g => { $o.$m().set_attr(k, v.clone()); })*
                _ => {}
            }
        }
    }};
}

fn put_stylespec(b: &mut WorkBook, s: &StyleSpec) {
    let mut s = s.clone();
    if s.place == Place::StylesDefault {
        // has no name in the document
        s.name = "zdefault".into();
        s.maps.clear();
    }
    if s.name.starts_with('@') {
        // the library finds a name
        s.attrs.retain(|(g, k, _)| !(*g == 0 && k == "style:display-name"));
        s.attrs.push((0, "style:display-name".into(), s.name.clone()));
        s.name.clear();
    }
    let s = &s;
    match s.fam {
        Fam::Table => {
            let mut o = if s.name.is_empty() { TableStyle::new_empty() } else { TableStyle::new(&s.name) };
            put_style!(s, o, 0 => attrmap_mut, 1 => tablestyle_mut);
            match b.tablestyle_mut(&s.name) {
                Some(x) if s.attrs.len() % 2 == 1 => *x = o,
                _ => drop(b.add_tablestyle(o)),
            }
        }
        Fam::Row => {
            let mut o = if s.name.is_empty() { RowStyle::new_empty() } else { RowStyle::new(&s.name) };
            put_style!(s, o, 0 => attrmap_mut, 1 => rowstyle_mut);
            match b.rowstyle_mut(&s.name) {
                Some(x) if s.attrs.len() % 2 == 1 => *x = o,
                _ => drop(b.add_rowstyle(o)),
            }
        }
        Fam::Col => {
            let mut o = if s.name.is_empty() { ColStyle::new_empty() } else { ColStyle::new(&s.name) };
            put_style!(s, o, 0 => attrmap_mut, 1 => colstyle_mut);
            match b.colstyle_mut(&s.name) {
                Some(x) if s.attrs.len() % 2 == 1 => *x = o,
                _ => drop(b.add_colstyle(o)),
            }
        }
        Fam::Cell => {
            let mut o = CellStyle::new_empty();
            if !s.name.is_empty() {
                o.set_name(&s.name);
            }
            put_style!(s, o, 0 => attrmap_mut, 1 => cellstyle_mut, 2 => paragraphstyle_mut, 3 => textstyle_mut);
            for m in &s.maps {
                o.push_stylemap(stylemap(m));
            }
            match b.cellstyle_mut(&s.name) {
                Some(x) if s.attrs.len() % 2 == 1 => *x = o,
                _ => drop(b.add_cellstyle(o)),
            }
        }
        Fam::Para => {
            let mut o = if s.name.is_empty() { ParagraphStyle::new_empty() } else { ParagraphStyle::new(&s.name) };
            put_style!(s, o, 0 => attrmap_mut, 1 => paragraphstyle_mut, 2 => textstyle_mut);
            for t in &s.tabs {
                let mut ts = TabStop::new();
                for (k, v) in t {
                    ts.attrmap_mut().set_attr(k, v.clone());
                }
                o.add_tabstop(ts);
            }
            match b.paragraphstyle_mut(&s.name) {
                Some(x) if s.attrs.len() % 2 == 1 => *x = o,
                _ => drop(b.add_paragraphstyle(o)),
            }
        }
        Fam::Text => {
            let mut o = if s.name.is_empty() { TextStyle::new_empty() } else { TextStyle::new(&s.name) };
            put_style!(s, o, 0 => attrmap_mut, 1 => textstyle_mut);
            match b.textstyle_mut(&s.name) {
                Some(x) if s.attrs.len() % 2 == 1 => *x = o,
                _ => drop(b.add_textstyle(o)),
            }
        }
        Fam::Ruby => {
            let mut o = if s.name.is_empty() { RubyStyle::new_empty() } else { RubyStyle::new(&s.name) };
            put_style!(s, o, 0 => attrmap_mut, 1 => rubystyle_mut);
            match b.rubystyle_mut(&s.name) {
                Some(x) if s.attrs.len() % 2 == 1 => *x = o,
                _ => drop(b.add_rubystyle(o)),
            }
        }
        Fam::Graphic => {
            let mut o = if s.name.is_empty() { GraphicStyle::new_empty() } else { GraphicStyle::new(&s.name) };
            put_style!(s, o, 0 => attrmap_mut, 1 => graphicstyle_mut, 2 => paragraphstyle_mut, 3 => textstyle_mut);
            match b.graphicstyle_mut(&s.name) {
                Some(x) if s.attrs.len() % 2 == 1 => *x = o,
                _ => drop(b.add_graphicstyle(o)),
            }
        }
    }
}

pub const PART_TYPES: [FormatPartType; 19] = [
    FormatPartType::Number,
    FormatPartType::FillCharacter,
    FormatPartType::ScientificNumber,
    FormatPartType::Fraction,
    FormatPartType::CurrencySymbol,
    FormatPartType::Day,
    FormatPartType::Month,
    FormatPartType::Year,
    FormatPartType::Era,
    FormatPartType::DayOfWeek,
    FormatPartType::WeekOfYear,
    FormatPartType::Quarter,
    FormatPartType::Hours,
    FormatPartType::Minutes,
    FormatPartType::Seconds,
    FormatPartType::AmPm,
    FormatPartType::Boolean,
    FormatPartType::Text,
    FormatPartType::TextContent,
];

fn fill_fmt<F: ValueFormatTrait>(o: &mut F, f: &FmtSpec) {
    let (origin, usage) = place(f.place);
    o.set_origin(origin);
    o.set_styleuse(usage);
    for (k, v) in &f.attrs {
        o.attrmap_mut().set_attr(k, v.clone());
    }
    for (k, v) in &f.text {
        o.textstyle_mut().set_attr(k, v.clone());
    }
    for p in &f.parts {
        let mut q = FormatPart::new(PART_TYPES[p.ty as usize % 19]);
        for (k, v) in &p.attrs {
            q.set_attr(k, v.clone());
        }
        if let Some(c) = &p.content {
            q.set_content(c.clone());
        }
        if let Some(n) = p.pos {
            q.set_position(n);
        }
        o.push_part(q);
    }
    for m in &f.maps {
        o.push_stylemap(ValueStyleMap::new(vcond(m.cond, &m.arg), m.applied.clone()));
    }
}

fn put_fmt(b: &mut WorkBook, f: &FmtSpec) {
    let mut f = f.clone();
    if f.name.starts_with('@') {
        f.attrs.retain(|(k, _)| k != "style:display-name");
        f.attrs.push(("style:display-name".into(), f.name.clone()));
        f.name.clear();
    }
    let f = &f;
    match f.kind % 7 {
        0 => {
            let mut o = if f.name.is_empty() { ValueFormatBoolean::new_empty() } else { ValueFormatBoolean::new_named(&f.name) };
            fill_fmt(&mut o, f);
            match b.boolean_format_mut(&f.name) {
                Some(x) if f.parts.len() % 2 == 1 => *x = o,
                _ => drop(b.add_boolean_format(o)),
            }
        }
        1 => {
            let mut o = if f.name.is_empty() { ValueFormatNumber::new_empty() } else { ValueFormatNumber::new_named(&f.name) };
            fill_fmt(&mut o, f);
            match b.number_format_mut(&f.name) {
                Some(x) if f.parts.len() % 2 == 1 => *x = o,
                _ => drop(b.add_number_format(o)),
            }
        }
        2 => {
            let mut o = if f.name.is_empty() { ValueFormatPercentage::new_empty() } else { ValueFormatPercentage::new_named(&f.name) };
            fill_fmt(&mut o, f);
            match b.percentage_format_mut(&f.name) {
                Some(x) if f.parts.len() % 2 == 1 => *x = o,
                _ => drop(b.add_percentage_format(o)),
            }
        }
        3 => {
            let mut o = if f.name.is_empty() { ValueFormatCurrency::new_empty() } else { ValueFormatCurrency::new_named(&f.name) };
            fill_fmt(&mut o, f);
            match b.currency_format_mut(&f.name) {
                Some(x) if f.parts.len() % 2 == 1 => *x = o,
                _ => drop(b.add_currency_format(o)),
            }
        }
        4 => {
            let mut o = if f.name.is_empty() { ValueFormatText::new_empty() } else { ValueFormatText::new_named(&f.name) };
            fill_fmt(&mut o, f);
            match b.text_format_mut(&f.name) {
                Some(x) if f.parts.len() % 2 == 1 => *x = o,
                _ => drop(b.add_text_format(o)),
            }
        }
        5 => {
            let mut o = if f.name.is_empty() { ValueFormatDateTime::new_empty() } else { ValueFormatDateTime::new_named(&f.name) };
            fill_fmt(&mut o, f);
            match b.datetime_format_mut(&f.name) {
                Some(x) if f.parts.len() % 2 == 1 => *x = o,
                _ => drop(b.add_datetime_format(o)),
            }
        }
        _ => {
            let mut o = if f.name.is_empty() { ValueFormatTimeDuration::new_empty() } else { ValueFormatTimeDuration::new_named(&f.name) };
            fill_fmt(&mut o, f);
            match b.timeduration_format_mut(&f.name) {
                Some(x) if f.parts.len() % 2 == 1 => *x = o,
                _ => drop(b.add_timeduration_format(o)),
            }
        }
    }
}

pub fn locale(k: u8) -> icu_locale_core::Locale {
    match k % 4 {
        0 => icu_locale_core::locale!("en"),
        1 => icu_locale_core::locale!("de-AT"),
        2 => icu_locale_core::locale!("cs-CZ"),
        _ => icu_locale_core::locale!("en-US"),
    }
}

fn hf(h: &HfSpec) -> HeaderFooter {
    let mut o = HeaderFooter::new();
    o.set_display(h.display);
    o.set_left(xtags(&h.left));
    o.set_center(xtags(&h.center));
    o.set_right(xtags(&h.right));
    o.set_content(xtags(&h.content));
    o
}

fn vis(v: u8) -> Visibility {
    match v % 3 {
        0 => Visibility::Visible,
        1 => Visibility::Collapsed,
        _ => Visibility::Filtered,
    }
}

fn actuate(v: u8) -> XLinkActuate {
    if v % 2 == 0 {
        XLinkActuate::OnRequest
    } else {
        XLinkActuate::OnLoad
    }
}
fn link(v: u8) -> XLinkType {
    match v % 7 {
        0 => XLinkType::Simple,
        1 => XLinkType::Extended,
        2 => XLinkType::Locator,
        3 => XLinkType::Arc,
        4 => XLinkType::Resource,
        5 => XLinkType::Title,
        _ => XLinkType::None,
    }
}
fn show(v: u8) -> XLinkShow {
    if v % 2 == 0 {
        XLinkShow::New
    } else {
        XLinkShow::Replace
    }
}

const VTYPES: [ValueType; 9] = [
    ValueType::Empty,
    ValueType::Boolean,
    ValueType::Number,
    ValueType::Percentage,
    ValueType::Currency,
    ValueType::Text,
    ValueType::TextXml,
    ValueType::DateTime,
    ValueType::TimeDuration,
];

/// The name a style that was added without a name got from the library.
/// Such styles carry their name in the history as display name.
pub fn real(b: &WorkBook, f: Fam, n: &str) -> String {
    if !n.starts_with('@') {
        return n.to_string();
    }
    macro_rules! find {
        ($it:ident) => {
            b.$it()
                .find(|s| s.attrmap().iter().any(|(k, v)| k.to_string() == "style:display-name" && v == n))
                .map(|s| s.name().to_string())
        };
    }
    match f {
        Fam::Table => find!(iter_table_styles),
        Fam::Row => find!(iter_rowstyles),
        Fam::Col => find!(iter_colstyles),
        Fam::Cell => find!(iter_cellstyles),
        Fam::Para => find!(iter_paragraphstyles),
        Fam::Text => find!(iter_textstyles),
        Fam::Ruby => find!(iter_rubystyles),
        Fam::Graphic => find!(iter_graphicstyles),
    }
    .unwrap_or_else(|| n.to_string())
}

/// Which of the ways the library offers for the same edit is taken. A function
/// of the edit alone, so that a history means the same whenever it is run.
fn way(e: &Edit, n: u64) -> u64 {
    crate::rng::fnv(format!("{e:?}").as_bytes()) % n
}

/// The cell edits by way of a `CellContent` that is taken out and put back.
fn by_content(b: &mut WorkBook, e: &Edit) -> bool {
    use Edit::*;
    let (s, r, c) = match e {
        Value(s, r, c, _)
        | Styled(s, r, c, ..)
        | Formula(s, r, c, _)
        | CellStyle(s, r, c, _)
        | CellValid(s, r, c, _)
        | Span(s, r, c, ..)
        | MSpan(s, r, c, ..)
        | Repeat(s, r, c, _)
        | Annot(s, r, c, _)
        | Frames(s, r, c, _) => (*s as usize, *r, *c),
        _ => return false,
    };
    let style = match e {
        Styled(_, _, _, _, n) | CellStyle(_, _, _, Some(n)) => Some(real(b, Fam::Cell, n)),
        _ => None,
    };
    let sh = b.sheet_mut(s);
    let mut k = match way(e, 4) {
        0 => sh.cell(r, c).unwrap_or_default(),
        1 => sh.remove_cell(r, c).unwrap_or_else(CellContent::new),
        2 => sh.cell_ref(r, c).map(|c| c.to_owned()).unwrap_or_default(),
        _ => sh.cell(r, c).unwrap_or_else(CellContent::new),
    };
    match e {
        Value(_, _, _, v) => k.set_value(value(v)),
        Styled(_, _, _, v, _) => {
            k.set_value(value(v));
            k.set_style(&style.unwrap().as_str().into());
        }
        Formula(_, _, _, f) => match f {
            Some(f) => k.set_formula(f.clone()),
            None => k.clear_formula(),
        },
        CellStyle(..) => match style {
            Some(n) => k.set_style(&n.as_str().into()),
            None => k.clear_style(),
        },
        CellValid(_, _, _, f) => match f {
            Some(f) => k.set_validation(&f.as_str().into()),
            None => k.clear_validation(),
        },
        Span(_, _, _, x, y) => {
            k.set_row_span(*x);
            k.set_col_span(*y);
        }
        MSpan(_, _, _, x, y) => {
            k.set_matrix_row_span(*x);
            k.set_matrix_col_span(*y);
        }
        Repeat(_, _, _, n) => k.set_repeat(*n),
        Annot(_, _, _, a) => match a {
            Some(a) => k.set_annotation(annotation(a)),
            None => k.clear_annotation(),
        },
        Frames(_, _, _, f) => k.set_draw_frames(f.iter().map(frame).collect()),
        _ => unreachable!(),
    }
    sh.add_cell(r, c, k);
    true
}

pub fn apply(b: &mut WorkBook, e: &Edit) {
    if way(e, 3) == 1 && by_content(b, e) {
        return;
    }
    if way(e, 7) == 3 && b.num_sheets() > 0 {
        // with another sheet taken out of the workbook meanwhile, or this one
        let n = way(e, 1 << 20) as usize % b.num_sheets();
        let on_sheet = sheet_of(e);
        if on_sheet == Some(n) {
            let d = b.detach_sheet(n);
            let mut w = WorkBook::new_empty();
            std::mem::swap(&mut w, b);
            // edits that only need the sheet work on the detached one
            let mut sh = d;
            let done = on_detached(&mut sh, e);
            std::mem::swap(&mut w, b);
            b.attach_sheet(sh);
            if done {
                return;
            }
        } else if on_sheet.is_some() {
            let d = b.detach_sheet(n);
            apply1(b, e);
            b.attach_sheet(d);
            return;
        }
    }
    apply1(b, e)
}

fn sheet_of(e: &Edit) -> Option<usize> {
    use Edit::*;
    Some(match e {
        SheetDisplay(s, _)
        | SheetPrint(s, _)
        | SheetCfg(s, ..)
        | PrintRange(s, ..)
        | ClearPrintRanges(s)
        | HeaderRows(s, _)
        | HeaderCols(s, _)
        | ColGroup(s, ..)
        | RowGroup(s, ..)
        | DelColGroup(s, ..)
        | DelRowGroup(s, ..)
        | ShowColGroup(s, ..)
        | ShowRowGroup(s, ..)
        | Value(s, ..)
        | Styled(s, ..)
        | Formula(s, ..)
        | CellStyle(s, ..)
        | CellValid(s, ..)
        | Span(s, ..)
        | MSpan(s, ..)
        | Repeat(s, ..)
        | Annot(s, ..)
        | Frames(s, ..)
        | RemoveCell(s, ..)
        | MoveCell(s, ..)
        | ColStyle(s, ..)
        | ColCell(s, ..)
        | ColVis(s, ..)
        | ColWidth(s, ..)
        | RowStyle(s, ..)
        | RowCell(s, ..)
        | RowVis(s, ..)
        | RowHeight(s, ..)
        | RowRepeat(s, ..) => *s as usize,
        _ => return None,
    })
}

/// A few edits on a sheet that is detached from its workbook.
fn on_detached(sh: &mut Sheet, e: &Edit) -> bool {
    use Edit::*;
    match e {
        Value(_, r, c, v) => sh.set_value(*r, *c, value(v)),
        Formula(_, r, c, Some(f)) => sh.set_formula(*r, *c, f.clone()),
        SheetDisplay(_, v) => sh.set_display(*v),
        ColVis(_, c, v) => sh.set_col_visible(*c, vis(*v)),
        RowVis(_, c, v) => sh.set_row_visible(*c, vis(*v)),
        ColWidth(_, c, w) => sh.set_col_width(*c, length(w)),
        RowHeight(_, c, w) => sh.set_row_height(*c, length(w)),
        _ => return false,
    }
    true
}

fn apply1(b: &mut WorkBook, e: &Edit) {
    use Edit::*;
    match e {
        AddSheet { at, name } => {
            if *at as usize == b.num_sheets() {
                b.push_sheet(Sheet::new(name.clone()));
            } else {
                b.insert_sheet(*at as usize, Sheet::new(name.clone()));
            }
        }
        DropSheet { at } => {
            b.remove_sheet(*at as usize);
        }
        CloneSheet { at, name } if name.starts_with("no data") => {
            let mut s = b.sheet(*at as usize).clone_no_data();
            s.set_name(name.clone());
            b.push_sheet(s);
        }
        CloneSheet { at, name } => {
            let mut s = b.sheet(*at as usize).clone();
            s.set_name(name.clone());
            b.push_sheet(s);
        }
        Rename { s, name } => b.sheet_mut(*s as usize).set_name(name.clone()),
        SheetDisplay(s, v) => b.sheet_mut(*s as usize).set_display(*v),
        SheetPrint(s, v) => b.sheet_mut(*s as usize).set_print(*v),
        SheetStyle(s, n) => {
            let n = real(b, Fam::Table, n);
            b.sheet_mut(*s as usize).set_style(&n.as_str().into())
        }
        SheetCfg(s, k, v) => {
            let k = *k as usize % CFG_NAMES.len();
            let v = cfg_clamp(k, *v);
            let c = b.sheet_mut(*s as usize).config_mut();
            match k {
                0 => c.cursor_x = v as u32,
                1 => c.cursor_y = v as u32,
                2 => c.hor_split_mode = SplitMode::try_from(v as i16).unwrap(),
                3 => c.vert_split_mode = SplitMode::try_from(v as i16).unwrap(),
                4 => c.hor_split_pos = v as u32,
                5 => c.vert_split_pos = v as u32,
                6 => c.active_split_range = v as i16,
                7 => c.position_left = v as u32,
                8 => c.position_right = v as u32,
                9 => c.position_top = v as u32,
                10 => c.position_bottom = v as u32,
                11 => c.zoom_type = v as i16,
                12 => c.zoom_value = v,
                13 => c.page_view_zoom_value = v,
                _ => c.show_grid = v != 0,
            }
        }
        PrintRange(s, r, c, r2, c2) => {
            let sh = b.sheet_mut(*s as usize);
            let n = sh.name().clone();
            sh.add_print_range(CellRange::remote(n, *r, *c, *r2, *c2))
        }
        ClearPrintRanges(s) => b.sheet_mut(*s as usize).clear_print_ranges(),
        HeaderRows(s, h) => match h {
            Some((x, y)) => b.sheet_mut(*s as usize).set_header_rows(*x, *y),
            None => b.sheet_mut(*s as usize).clear_header_rows(),
        },
        HeaderCols(s, h) => match h {
            Some((x, y)) => b.sheet_mut(*s as usize).set_header_cols(*x, *y),
            None => b.sheet_mut(*s as usize).clear_header_cols(),
        },
        ColGroup(s, x, y) => b.sheet_mut(*s as usize).add_col_group(*x, *y),
        RowGroup(s, x, y) => b.sheet_mut(*s as usize).add_row_group(*x, *y),
        DelColGroup(s, x, y) => b.sheet_mut(*s as usize).remove_col_group(*x, *y),
        DelRowGroup(s, x, y) => b.sheet_mut(*s as usize).remove_row_group(*x, *y),
        ShowColGroup(s, x, y, d) => b.sheet_mut(*s as usize).set_col_group_displayed(*x, *y, *d),
        ShowRowGroup(s, x, y, d) => b.sheet_mut(*s as usize).set_row_group_displayed(*x, *y, *d),

        Value(s, r, c, v) => b.sheet_mut(*s as usize).set_value(*r, *c, value(v)),
        Styled(s, r, c, v, st) => {
            let st = real(b, Fam::Cell, st).as_str().into();
            let sh = b.sheet_mut(*s as usize);
            if way(e, 2) == 0 {
                sh.set_styled(*r, *c, value(v), &st)
            } else {
                sh.set_styled_value(*r, *c, value(v), &st)
            }
        }
        Formula(s, r, c, f) => match f {
            Some(f) => b.sheet_mut(*s as usize).set_formula(*r, *c, f.clone()),
            None => b.sheet_mut(*s as usize).clear_formula(*r, *c),
        },
        CellStyle(s, r, c, f) => match f {
            Some(f) => {
                let f = real(b, Fam::Cell, f);
                b.sheet_mut(*s as usize).set_cellstyle(*r, *c, &f.as_str().into())
            }
            None => b.sheet_mut(*s as usize).clear_cellstyle(*r, *c),
        },
        CellValid(s, r, c, f) => match f {
            Some(f) => b.sheet_mut(*s as usize).set_validation(*r, *c, &f.as_str().into()),
            None => b.sheet_mut(*s as usize).clear_validation(*r, *c),
        },
        Span(s, r, c, x, y) => {
            let sh = b.sheet_mut(*s as usize);
            sh.set_row_span(*r, *c, *x);
            sh.set_col_span(*r, *c, *y);
        }
        MSpan(s, r, c, x, y) => {
            let sh = b.sheet_mut(*s as usize);
            sh.set_matrix_row_span(*r, *c, *x);
            sh.set_matrix_col_span(*r, *c, *y);
        }
        Repeat(s, r, c, n) => b.sheet_mut(*s as usize).set_cell_repeat(*r, *c, *n),
        Annot(s, r, c, a) => match a {
            Some(a) => {
                let sh = b.sheet_mut(*s as usize);
                if let (0, Some(v)) = (way(e, 2), sh.annotation_mut(*r, *c)) {
                    *v = annotation(a);
                } else {
                    sh.set_annotation(*r, *c, annotation(a))
                }
            }
            None => b.sheet_mut(*s as usize).clear_annotation(*r, *c),
        },
        Frames(s, r, c, f) => {
            let sh = b.sheet_mut(*s as usize);
            if let (0, Some(v)) = (way(e, 2), sh.draw_frames_mut(*r, *c)) {
                *v = f.iter().map(frame).collect();
                return;
            }
            sh.clear_draw_frames(*r, *c);
            for f in f {
                sh.add_draw_frame(*r, *c, frame(f));
            }
        }
        RemoveCell(s, r, c) => {
            b.sheet_mut(*s as usize).remove_cell(*r, *c);
        }
        MoveCell(s, x, y) => {
            let sh = b.sheet_mut(*s as usize);
            if let Some(c) = sh.remove_cell(x.0, x.1) {
                sh.add_cell(y.0, y.1, c);
            }
        }
        ColStyle(s, c, f) => match f {
            Some(f) => {
                let f = real(b, Fam::Col, f);
                b.sheet_mut(*s as usize).set_colstyle(*c, &f.as_str().into())
            }
            None => b.sheet_mut(*s as usize).clear_colstyle(*c),
        },
        ColCell(s, c, f) => match f {
            Some(f) => {
                let f = real(b, Fam::Cell, f);
                b.sheet_mut(*s as usize).set_col_cellstyle(*c, &f.as_str().into())
            }
            None => b.sheet_mut(*s as usize).clear_col_cellstyle(*c),
        },
        ColVis(s, c, v) => b.sheet_mut(*s as usize).set_col_visible(*c, vis(*v)),
        ColWidth(s, c, w) => b.sheet_mut(*s as usize).set_col_width(*c, length(w)),
        RowStyle(s, c, f) => match f {
            Some(f) => {
                let f = real(b, Fam::Row, f);
                b.sheet_mut(*s as usize).set_rowstyle(*c, &f.as_str().into())
            }
            None => b.sheet_mut(*s as usize).clear_rowstyle(*c),
        },
        RowCell(s, c, f) => match f {
            Some(f) => {
                let f = real(b, Fam::Cell, f);
                b.sheet_mut(*s as usize).set_row_cellstyle(*c, &f.as_str().into())
            }
            None => b.sheet_mut(*s as usize).clear_row_cellstyle(*c),
        },
        RowVis(s, c, v) => b.sheet_mut(*s as usize).set_row_visible(*c, vis(*v)),
        RowHeight(s, c, w) => b.sheet_mut(*s as usize).set_row_height(*c, length(w)),
        RowRepeat(s, r, n) => b.sheet_mut(*s as usize).set_row_repeat(*r, *n),

        PutStyle(s) => put_stylespec(b, s),
        DelStyle(f, n) => match f {
            Fam::Table => drop(b.remove_tablestyle(n)),
            Fam::Row => drop(b.remove_rowstyle(n)),
            Fam::Col => drop(b.remove_colstyle(n)),
            Fam::Cell => drop(b.remove_cellstyle(n)),
            Fam::Para => drop(b.remove_paragraphstyle(n)),
            Fam::Text => drop(b.remove_textstyle(n)),
            Fam::Ruby => drop(b.remove_rubystyle(n)),
            Fam::Graphic => drop(b.remove_graphicstyle(n)),
        },
        PutFmt(f) => put_fmt(b, f),
        DelFmt(k, n) => match k % 7 {
            0 => drop(b.remove_boolean_format(n)),
            1 => drop(b.remove_number_format(n)),
            2 => drop(b.remove_percentage_format(n)),
            3 => drop(b.remove_currency_format(n)),
            4 => drop(b.remove_text_format(n)),
            5 => drop(b.remove_datetime_format(n)),
            _ => drop(b.remove_timeduration_format(n)),
        },
        PutFont(n, st, a) => {
            let mut f = FontFaceDecl::new(n);
            f.set_origin(if *st { StyleOrigin::Styles } else { StyleOrigin::Content });
            for (k, v) in a {
                f.attrmap_mut().set_attr(k, v.clone());
            }
            b.add_font(f);
        }
        DelFont(n) => drop(b.remove_font(n)),
        StyleAttr(f, n, g, k, v) => {
            let n = real(b, *f, n);
            macro_rules! set {
                ($get:ident, $($g:literal => $m:ident),*) => {
                    if let Some(s) = b.$get(&n) {
                        match *g {
                            $($g => { s.$m().set_attr(k, v.clone()); })*
                            _ => {}
                        }
                    }
                };
            }
            match f {
                Fam::Table => set!(tablestyle_mut, 0 => attrmap_mut, 1 => tablestyle_mut),
                Fam::Row => set!(rowstyle_mut, 0 => attrmap_mut, 1 => rowstyle_mut),
                Fam::Col => set!(colstyle_mut, 0 => attrmap_mut, 1 => colstyle_mut),
                Fam::Cell => {
                    set!(cellstyle_mut, 0 => attrmap_mut, 1 => cellstyle_mut, 2 => paragraphstyle_mut, 3 => textstyle_mut)
                }
                Fam::Para => set!(paragraphstyle_mut, 0 => attrmap_mut, 1 => paragraphstyle_mut, 2 => textstyle_mut),
                Fam::Text => set!(textstyle_mut, 0 => attrmap_mut, 1 => textstyle_mut),
                Fam::Ruby => set!(rubystyle_mut, 0 => attrmap_mut, 1 => rubystyle_mut),
                Fam::Graphic => {
                    set!(graphicstyle_mut, 0 => attrmap_mut, 1 => graphicstyle_mut, 2 => paragraphstyle_mut, 3 => textstyle_mut)
                }
            }
        }
        Split(s, k, n) => {
            let sh = b.sheet_mut(*s as usize);
            match k % 4 {
                0 => sh.split_col_header(*n),
                1 => sh.split_row_header(*n),
                2 => sh.split_horizontal(*n),
                _ => sh.split_vertical(*n),
            }
        }
        Locale(k) => b.locale_settings(locale(*k)),
        PutPage(p) => {
            let mut o = PageStyle::new(&p.name);
            match p.usage.as_deref() {
                Some("left") => o.set_page_usage(MasterPageUsage::Left),
                Some("mirrored") => o.set_page_usage(MasterPageUsage::Mirrored),
                Some("right") => o.set_page_usage(MasterPageUsage::Right),
                Some(_) => o.set_page_usage(MasterPageUsage::All),
                None => {}
            }
            for (k, v) in &p.attrs {
                o.style_mut().set_attr(k, v.clone());
            }
            for (k, v) in &p.header {
                o.headerstyle_mut().style_mut().set_attr(k, v.clone());
            }
            for (k, v) in &p.footer {
                o.footerstyle_mut().style_mut().set_attr(k, v.clone());
            }
            b.add_pagestyle(o);
        }
        DelPage(n) => drop(b.remove_pagestyle(n)),
        PutMaster(p) => {
            let mut o = MasterPage::new(&p.name);
            o.set_display_name(p.display_name.clone());
            if let Some(n) = &p.page {
                o.set_pagestyle(&n.as_str().into());
            }
            if let Some(n) = &p.next {
                o.set_next_masterpage(&n.as_str().into());
            }
            for (i, h) in p.hf.iter().enumerate() {
                let h = hf(h);
                match i {
                    0 => o.set_header(h),
                    1 => o.set_header_first(h),
                    2 => o.set_header_left(h),
                    3 => o.set_footer(h),
                    4 => o.set_footer_first(h),
                    _ => o.set_footer_left(h),
                }
            }
            b.add_masterpage(o);
        }
        DelMaster(n) => drop(b.remove_masterpage(n)),
        PutValid(v) => match b.validation_mut(&v.name) {
            Some(x) if v.allow_empty => *x = validation(v),
            _ => drop(b.add_validation(validation(v))),
        },
        DelValid(n) => drop(b.remove_validation(n)),
        DefStyle(k, n) => {
            let k = *k as usize % 9;
            let n = real(b, Fam::Cell, n);
            b.add_def_style(VTYPES[k], n.as_str().into());
            if k == 5 || k == 6 {
                b.add_def_style(VTYPES[11 - k], n.as_str().into());
            }
        }
        PutFile(p, t, d) if d.len() % 2 == 1 && b.manifest(p).is_some() => {
            let m = b.manifest_mut(p).unwrap();
            m.media_type = t.clone();
            m.buffer = Some(d.clone());
        }
        PutFile(p, t, d) => b.add_manifest(Manifest::with_buf(p.clone(), t.clone(), d.clone())),
        DelFile(p) => drop(b.remove_manifest(p)),
        BookCfg(k, v) => {
            let c = b.config_mut();
            match k % 4 {
                0 => c.active_table = v.clone(),
                1 => c.show_grid = v != "false",
                2 => c.show_page_breaks = v == "true",
                _ => c.has_sheet_tabs = v != "false",
            }
        }
        Meta(k, v) => {
            let m = b.metadata_mut();
            let v = v.clone();
            match *k as usize % 8 {
                0 => m.title = v,
                1 => m.description = v,
                2 => m.subject = v,
                3 => m.keyword = v,
                4 => m.initial_creator = v,
                5 => m.creator = v,
                6 => m.printed_by = v,
                _ => m.language = v,
            }
        }
        MetaDate(k, d) => {
            let m = b.metadata_mut();
            let d = d.map(|(s, n)| ndt(s, n));
            match *k as usize % 3 {
                0 => m.creation_date = d,
                1 => m.date = d,
                _ => m.print_date = d,
            }
        }
        MetaCycles(n) => b.metadata_mut().editing_cycles = *n,
        MetaEditDur(n) => b.metadata_mut().editing_duration = Duration::nanoseconds(*n),
        MetaTemplate(d, h, t, a, l) => {
            let m = &mut b.metadata_mut().template;
            m.date = d.map(|(s, n)| ndt(s, n));
            m.href = h.clone();
            m.title = t.clone();
            m.actuate = a.map(actuate);
            m.link_type = l.map(link);
        }
        MetaReload(d, h, s, a, l) => {
            let m = &mut b.metadata_mut().auto_reload;
            m.delay = d.map(Duration::nanoseconds);
            m.href = h.clone();
            m.show = s.map(show);
            m.actuate = a.map(actuate);
            m.link_type = l.map(link);
        }
        MetaHyper(t, s) => {
            let m = &mut b.metadata_mut().hyperlink_behaviour;
            m.target_frame_name = t.clone();
            m.show = s.map(show);
        }
        MetaUser(n, v) => {
            let value = match v {
                MetaV::Bool(b) => MetaValue::Boolean(*b),
                MetaV::Date(s, n) => MetaValue::Datetime(ndt(*s, *n)),
                MetaV::Float(f) => MetaValue::Float(f.parse().unwrap_or(0.0)),
                MetaV::Dur(ns) => MetaValue::TimeDuration(Duration::nanoseconds(*ns)),
                MetaV::Str(s) => MetaValue::String(s.clone()),
            };
            b.metadata_mut().user_defined.push(MetaUserDefined {
                name: n.clone(),
                value,
            });
        }
        MetaStat(x, y) => {
            let m = &mut b.metadata_mut().document_statistics;
            m.object_count = *x;
            m.ole_object_count = *y;
        }
        MetaUserClear => b.metadata_mut().user_defined.clear(),
        Script(l, x) => {
            let mut s = crate::apply::Script::new();
            s.set_script_lang(l.clone());
            s.set_script(xcontent(x));
            b.add_script(s);
        }
        ScriptClear => b.scripts_mut().clear(),
        Event(n, l, m, h, x) => {
            let mut e = EventListener::new();
            e.set_event_name(n.clone());
            e.set_script_lang(l.clone());
            e.set_macro_name(m.clone());
            e.set_href(h.clone());
            e.set_actuate(actuate(*x));
            e.set_link_type(link(*x / 2));
            b.add_event_listener(e);
        }
        DelEvent(n) => drop(b.remove_event_listener(n)),
    }
}
