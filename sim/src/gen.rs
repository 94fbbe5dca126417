//! Seeded generation of edits. Every choice comes from the one `Rng` of the run.

use crate::model::*;
use crate::rng::Rng;

/// Relative weights of the edit classes.
#[derive(Clone, Copy, Debug)]
pub struct Mix {
    pub cells: u64,
    pub sheets: u64,
    pub styles: u64,
    pub meta: u64,
    pub files: u64,
}

pub const TEXTS: [&str; 28] = [
    "a",
    "text",
    "a&b<c>\"d'e",
    "]]>",
    "&amp;",
    "&lt;b&gt;",
    "&#65;",
    " lead",
    "trail ",
    "two  spaces",
    "   ",
    " ",
    "tab\there",
    "line\nbreak",
    "carriage\rreturn",
    "two\r\nlines",
    "\n",
    "a\n\nb",
    "grüße",
    "日本語",
    "🦀🦀",
    "'quoted'",
    "1.5",
    "true",
    "=A1",
    "<?xml version=\"1.0\"?>",
    "<!-- x -->",
    "very long text very long text very long text very long text very long text very long text",
];
pub const WORDS: [&str; 17] = [
    "a", "alpha", "Beta 2", "a&b", "<x>", "it's", "q\"q", "é", "日本", "x.y", "a  b", " p", "p ", "-", "t\tb", "n\nl", "c\rr",
];
pub const NUMS: [&str; 24] = [
    "0",
    "1",
    "-1",
    "0.1",
    "-0.0",
    "3.141592653589793",
    "1e300",
    "-1e300",
    "1e-300",
    "5e-324",
    "1.7976931348623157e308",
    "123456789012345680",
    "0.30000000000000004",
    "9007199254740993",
    "-2.5",
    "1e21",
    "1e-7",
    "1e16",
    "100",
    "65536",
    "2.2250738585072014e-308",
    "-123.456",
    "1e5",
    "42",
];
const CURS: [&str; 8] = ["EUR", "USD", "", "€", "A&B", "<c>", "Fr.", "kč"];
const SHEETS: [&str; 14] = [
    "Sheet1", "a b", "it's", "x.y", "<&>", "q\"q", "日本", "1", "🦀", "S#1", "$S", "A1", "long sheet name 1", "é",
];
pub const ZN: [&str; 8] = ["za", "zb", "zc", "z-d", "z_e", "zf.2", "zgé", "zh1"];
const LENS: [&str; 9] = [
    "1cm", "2.5cm", "10mm", "1in", "12pt", "0.5cm", "1pc", "3.25in", "123.456mm",
];

pub fn zname(r: &mut Rng) -> String {
    r.pick(&ZN).to_string()
}
/// Reference to a style: now and then one the library has named.
fn sref(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        format!("@{}", r.below(3))
    } else {
        zname(r)
    }
}
pub fn word(r: &mut Rng) -> String {
    r.pick(&WORDS).to_string()
}
/// Text without line breaks at places where those are not text.
fn line(r: &mut Rng) -> String {
    loop {
        let t = *r.pick(&TEXTS);
        if !t.contains('\n') {
            return t.to_string();
        }
    }
}
pub fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => {
            let a = *r.pick(&TEXTS);
            let b = *r.pick(&TEXTS);
            format!("{a}{b}")
        }
        1 => {
            let n = r.range(1, 12);
            (0..n)
                .map(|_| *r.pick(&['a', 'b', ' ', '&', '<', '"', 'ß', '\'', '>', '0', ';', '/']))
                .collect()
        }
        _ => r.pick(&TEXTS).to_string(),
    }
}
pub fn num(r: &mut Rng) -> String {
    match r.below(4) {
        0 => {
            let b = f64::from_bits(r.u64());
            if b.is_finite() {
                format!("{b:?}")
            } else {
                "7".into()
            }
        }
        1 => format!("{}", r.below(2_000_000) as i64 - 1_000_000),
        2 => format!("{:?}", (r.below(2_000_000) as f64 - 1e6) / 1000.0),
        _ => r.pick(&NUMS).to_string(),
    }
}
pub fn date(r: &mut Rng) -> (i64, u32) {
    let lo = -62_135_596_800i64; // 0001-01-01
    let hi = 253_402_300_799i64; // 9999-12-31T23:59:59
    let s = match r.below(8) {
        // Years before 1 and after 9999.
        7 if r.chance(1, 4) => hi + 1 + r.below(2_800_000_000_000) as i64,
        7 if r.chance(1, 6) => lo - 31_700_000 - r.below(60_000_000_000) as i64,
        0 => lo + r.below((hi - lo) as u64) as i64,
        1 => 1_700_000_000 + r.below(100_000_000) as i64,
        2 => r.below(4_000_000_000) as i64,
        3 => -(r.below(4_000_000_000) as i64),
        4 => *r.pick(&[0, -1, 1, 951_782_400, 1_709_164_800, 253_402_300_799, -62_135_596_800]),
        // midnight
        _ => (r.below(60_000) as i64 - 20_000) * 86_400,
    };
    let n = match r.below(6) {
        0..=2 => 0,
        3 => r.below(1000) as u32 * 1_000_000,
        4 => r.below(1_000_000) as u32 * 1000,
        _ => *r.pick(&[1, 10, 100_000_000, 999_999_999, 5_000_000, 50_000, 123_456_789]),
    };
    (s, n)
}
/// Durations of either sign, in nanoseconds.
pub fn dur(r: &mut Rng) -> i64 {
    let ms = match r.below(6) {
        0 => *r.pick(&[0, 1, 9, 10, 50, 99, 100, 999, 1000, 1001, 59_999, 60_000, 3_600_000, 86_400_000]),
        1 => r.below(100_000_000) as i64,
        2 => r.below(100_000_000) as i64 * 1000,
        3 => r.below(1000) as i64,
        4 => r.below(100) as i64 * 3_600_000 + r.below(100) as i64,
        _ => r.below(100_000_000_000) as i64,
    };
    let mut ns = ms * 1_000_000;
    if r.chance(1, 4) {
        ns += match r.below(4) {
            0 => *r.pick(&[1, 10, 100, 1000, 999_999, 500_000, 1_500]),
            1 => r.below(1000) as i64 * 1000,
            _ => r.below(1_000_000) as i64,
        };
    }
    if r.chance(1, 4) {
        -ns
    } else {
        ns
    }
}

const ATTRV: [&str; 8] = ["#ff0000", "1cm", "start", "a&b", "<v>", "q\"q", "it's", "é"];
pub fn attrv(r: &mut Rng) -> String {
    r.pick(&ATTRV).to_string()
}

fn inline(r: &mut Rng, depth: u32) -> Vec<X> {
    let n = r.range(0, 3);
    let mut v = Vec::new();
    for _ in 0..n {
        if depth > 0 && r.chance(1, 2) {
            let (name, attrs): (&str, Vec<(String, String)>) = match r.below(5) {
                0 => ("text:span", vec![("text:style-name".into(), zname(r))]),
                1 => (
                    "text:a",
                    vec![("xlink:href".into(), format!("http://x/?a=1&b={}", r.below(9)))],
                ),
                2 => ("text:span", vec![]),
                3 => ("text:date", vec![("text:date-value".into(), "2020-01-01".into())]),
                _ => ("text:sheet-name", vec![]),
            };
            let c = inline(r, depth - 1);
            v.push(X::E(name.into(), attrs, c));
        } else {
            v.push(X::T(line(r)));
        }
    }
    v
}
pub fn par(r: &mut Rng) -> X {
    let attrs = if r.chance(1, 3) {
        vec![("text:style-name".into(), zname(r))]
    } else {
        vec![]
    };
    X::E("text:p".into(), attrs, inline(r, 2))
}
fn pars(r: &mut Rng, lo: u64, hi: u64) -> Vec<X> {
    let n = r.range(lo, hi);
    (0..n).map(|_| par(r)).collect()
}

pub fn value(r: &mut Rng) -> V {
    match r.below(12) {
        0 => V::Bool(r.chance(1, 2)),
        1 | 2 => V::Num(num(r)),
        3 => V::Pct(num(r)),
        4 => V::Cur(r.pick(&CURS).to_string(), num(r)),
        5..=7 => V::Text(text(r)),
        8 => V::Xml(pars(r, 1, 3)),
        9 => {
            let (s, n) = date(r);
            V::DateTime(s, n)
        }
        10 => V::Dur(dur(r)),
        _ => {
            if r.chance(1, 3) {
                V::Empty
            } else {
                V::Num(num(r))
            }
        }
    }
}

fn row(r: &mut Rng) -> u32 {
    match r.below(20) {
        0 => r.below(40) as u32,
        1 => *r.pick(&[50, 99, 100, 255, 1000, 1024, 2000]),
        2..=6 => r.below(3) as u32,
        _ => r.below(12) as u32,
    }
}
fn col(r: &mut Rng) -> u32 {
    match r.below(20) {
        0 => r.below(30) as u32,
        1 => *r.pick(&[26, 27, 51, 100, 255, 300]),
        2..=6 => r.below(3) as u32,
        _ => r.below(8) as u32,
    }
}
fn srow(r: &mut Rng) -> u32 {
    if r.chance(1, 12) {
        r.below(40) as u32
    } else {
        r.below(12) as u32
    }
}
fn scol(r: &mut Rng) -> u32 {
    if r.chance(1, 12) {
        r.below(30) as u32
    } else {
        r.below(9) as u32
    }
}

fn annot(r: &mut Rng) -> AnnotSpec {
    AnnotSpec {
        name: if r.chance(1, 2) { word(r) } else { String::new() },
        display: r.chance(1, 2),
        creator: r.chance(1, 2).then(|| line(r)),
        date: r.chance(1, 2).then(|| date(r)),
        text: pars(r, 0, 3),
        attrs: if r.chance(1, 2) {
            vec![("svg:x".into(), "1cm".into()), ("draw:style-name".into(), attrv(r))]
        } else {
            vec![]
        },
    }
}
fn frame(r: &mut Rng) -> FrameSpec {
    let mut attrs = vec![];
    if r.chance(2, 3) {
        attrs.push(("draw:name".into(), word(r)));
    }
    if r.chance(1, 2) {
        attrs.push(("svg:width".into(), r.pick(&LENS).to_string()));
    }
    if r.chance(1, 3) {
        attrs.push(("draw:z-index".into(), r.below(5).to_string()));
    }
    let n = r.range(0, 2);
    FrameSpec {
        attrs,
        title: r.chance(1, 3).then(|| line(r)),
        desc: r.chance(1, 3).then(|| line(r)),
        images: (0..n)
            .map(|_| {
                let bin = r.chance(1, 2);
                ImageSpec {
                    attrs: if bin {
                        vec![]
                    } else {
                        vec![("xlink:href".into(), format!("Pictures/{}&.png", r.below(5)))]
                    },
                    bin: bin.then(|| bytes(r, 90)),
                    text: pars(r, 0, 2),
                }
            })
            .collect(),
    }
}
pub fn bytes(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = r.range(1, max);
    (0..n).map(|_| r.u64() as u8).collect()
}
fn formula(r: &mut Rng) -> String {
    match r.below(4) {
        0 => format!("of:=[.A{}]+{}", r.range(1, 20), num(r)),
        1 => "of:=IF([.A1]<5;\"a&b\";'x')".into(),
        2 => format!("of:=CONCAT(\"{}\")", line(r).replace('"', "")),
        _ => format!("of:=SUM([.A1:.B{}])", r.range(1, 9)),
    }
}

fn cell_edit(r: &mut Rng, s: u32) -> Edit {
    use Edit::*;
    let (rr, cc) = (row(r), col(r));
    match r.below(40) {
        0..=14 => Value(s, rr, cc, value(r)),
        15..=18 => Styled(s, rr, cc, value(r), sref(r)),
        19..=21 => Formula(s, rr, cc, (!r.chance(1, 5)).then(|| formula(r))),
        22..=23 => CellStyle(s, rr, cc, (!r.chance(1, 4)).then(|| sref(r))),
        24..=25 => CellValid(s, rr, cc, (!r.chance(1, 4)).then(|| zname(r))),
        26..=28 => Span(s, srow(r), scol(r), r.range(1, 4) as u32, r.range(1, 4) as u32),
        29 => MSpan(s, rr, cc, r.range(1, 3) as u32, r.range(1, 3) as u32),
        30..=31 => Repeat(
            s,
            srow(r),
            scol(r),
            if r.chance(1, 10) { r.range(1, 40) } else { r.range(1, 5) } as u32,
        ),
        32..=33 => Annot(s, rr, cc, (!r.chance(1, 5)).then(|| annot(r))),
        34..=35 => Frames(s, rr, cc, (0..r.range(0, 2)).map(|_| frame(r)).collect()),
        36..=37 => RemoveCell(s, srow(r), scol(r)),
        38 => MoveCell(s, (srow(r), scol(r)), (rr, cc)),
        _ => RowRepeat(
            s,
            srow(r),
            if r.chance(1, 8) { r.range(1, 200) } else { r.range(1, 6) } as u32,
        ),
    }
}

fn range2(r: &mut Rng, f: fn(&mut Rng) -> u32) -> (u32, u32) {
    let a = f(r);
    (a, a + r.below(6) as u32)
}

fn sheet_edit(r: &mut Rng, s: u32, m: &Model) -> Edit {
    use Edit::*;
    let n = m.sheets.len() as u64;
    match r.below(46) {
        44..=45 => Split(s, r.below(4) as u8, r.below(200) as u32),
        0..=1 => AddSheet {
            at: r.below(n + 1) as u32,
            name: r.pick(&SHEETS).to_string(),
        },
        2 => DropSheet { at: s },
        3 => CloneSheet {
            at: s,
            name: if r.chance(1, 3) {
                format!("no data {}", r.below(3))
            } else {
                r.pick(&SHEETS).to_string()
            },
        },
        4..=5 => Rename {
            s,
            name: r.pick(&SHEETS).to_string(),
        },
        6 => SheetDisplay(s, r.chance(1, 2)),
        7 => SheetPrint(s, r.chance(1, 2)),
        8 => SheetStyle(s, sref(r)),
        9..=11 => SheetCfg(s, r.below(15) as u8, r.below(300) as i32),
        12..=13 => {
            let (a, c) = range2(r, srow);
            let (b, d) = range2(r, scol);
            PrintRange(s, a, b, c, d)
        }
        14 => ClearPrintRanges(s),
        15..=16 => {
            let h = range2(r, srow);
            HeaderRows(s, (!r.chance(1, 4)).then_some(h))
        }
        17..=18 => {
            let h = range2(r, scol);
            HeaderCols(s, (!r.chance(1, 4)).then_some(h))
        }
        19..=20 => {
            let (a, b) = range2(r, scol);
            ColGroup(s, a, b)
        }
        21..=22 => {
            let (a, b) = range2(r, srow);
            RowGroup(s, a, b)
        }
        23..=26 => {
            let rows = r.chance(1, 2);
            let sh = m.sheets.get(s as usize);
            let g: Vec<(u32, u32)> = sh
                .map(|x| if rows { &x.row_groups } else { &x.col_groups })
                .map(|g| g.keys().copied().collect())
                .unwrap_or_default();
            if g.is_empty() {
                let (a, b) = range2(r, scol);
                return ColGroup(s, a, b);
            }
            let (a, b) = *r.pick(&g);
            match (rows, r.below(3)) {
                (true, 0) => DelRowGroup(s, a, b),
                (false, 0) => DelColGroup(s, a, b),
                (true, _) => ShowRowGroup(s, a, b, r.chance(1, 2)),
                (false, _) => ShowColGroup(s, a, b, r.chance(1, 2)),
            }
        }
        27..=28 => ColStyle(s, scol(r), (!r.chance(1, 4)).then(|| sref(r))),
        29..=30 => ColCell(s, scol(r), (!r.chance(1, 4)).then(|| sref(r))),
        31..=32 => ColVis(s, scol(r), r.below(3) as u8),
        33..=34 => ColWidth(s, scol(r), r.pick(&LENS).to_string()),
        35..=36 => RowStyle(s, srow(r), (!r.chance(1, 4)).then(|| sref(r))),
        37..=38 => RowCell(s, srow(r), (!r.chance(1, 4)).then(|| sref(r))),
        39..=40 => RowVis(s, srow(r), r.below(3) as u8),
        41..=42 => RowHeight(s, srow(r), r.pick(&LENS).to_string()),
        _ => RowRepeat(s, srow(r), r.range(1, 5) as u32),
    }
}

fn place(r: &mut Rng, default: bool) -> Place {
    match r.below(8) {
        0..=2 => Place::ContentAuto,
        3..=4 => Place::StylesAuto,
        5..=6 => Place::StylesNamed,
        _ => {
            if default {
                Place::StylesDefault
            } else {
                Place::StylesNamed
            }
        }
    }
}

const GRP: [(&[&[&str]], Fam); 8] = [
    (
        &[
            &["style:display-name", "style:parent-style-name", "style:master-page-name"],
            &["fo:margin-left", "fo:background-color", "style:writing-mode", "table:display"],
        ],
        Fam::Table,
    ),
    (
        &[
            &["style:display-name", "style:parent-style-name"],
            &["fo:background-color", "fo:break-before", "fo:keep-together"],
        ],
        Fam::Row,
    ),
    (
        &[
            &["style:display-name", "style:parent-style-name"],
            &["fo:break-before", "fo:break-after"],
        ],
        Fam::Col,
    ),
    (
        &[
            &["style:display-name", "style:parent-style-name", "style:data-style-name"],
            &["fo:background-color", "style:vertical-align", "fo:border", "fo:wrap-option", "style:rotation-angle"],
            &["fo:text-align", "fo:margin-left"],
            &["fo:color", "fo:font-weight", "style:font-name", "fo:font-size"],
        ],
        Fam::Cell,
    ),
    (
        &[
            &["style:display-name", "style:parent-style-name", "style:next-style-name"],
            &["fo:text-align", "fo:margin-left", "fo:line-height"],
            &["fo:color", "fo:font-style", "fo:letter-spacing"],
        ],
        Fam::Para,
    ),
    (
        &[
            &["style:display-name", "style:parent-style-name"],
            &["fo:color", "fo:font-weight", "style:font-name", "style:text-underline-style"],
        ],
        Fam::Text,
    ),
    (
        &[
            &["style:display-name", "style:parent-style-name"],
            &["style:ruby-align", "style:ruby-position"],
        ],
        Fam::Ruby,
    ),
    (
        &[
            &["style:display-name", "style:parent-style-name"],
            &["draw:fill", "svg:stroke-color", "draw:opacity"],
            &["fo:text-align", "fo:margin-left"],
            &["fo:color", "fo:font-size"],
        ],
        Fam::Graphic,
    ),
];

fn mapspec(r: &mut Rng) -> MapSpec {
    MapSpec {
        cond: r.below(8) as u8,
        arg: word(r),
        applied: zname(r),
        base: r.chance(1, 2).then(|| (srow(r), scol(r))),
    }
}

fn style(r: &mut Rng) -> StyleSpec {
    let (groups, fam) = GRP[r.below(8) as usize];
    let place = place(r, true);
    let mut attrs = Vec::new();
    for (g, names) in groups.iter().enumerate() {
        for n in names.iter() {
            if place == Place::StylesDefault && g == 0 {
                continue;
            }
            if r.chance(1, 3) {
                let v = if n.ends_with("style-name") || n.ends_with("page-name") {
                    zname(r)
                } else {
                    attrv(r)
                };
                attrs.push((g as u8, n.to_string(), v));
            }
        }
    }
    StyleSpec {
        fam,
        name: sref(r),
        place,
        attrs,
        maps: if fam == Fam::Cell && r.chance(1, 3) {
            (0..r.range(1, 2)).map(|_| mapspec(r)).collect()
        } else {
            vec![]
        },
        tabs: if fam == Fam::Para && r.chance(1, 2) {
            (0..r.range(1, 2))
                .map(|_| {
                    vec![
                        ("style:position".to_string(), r.pick(&LENS).to_string()),
                        ("style:leader-text".to_string(), attrv(r)),
                    ]
                })
                .collect()
        } else {
            vec![]
        },
    }
}

fn fmtspec(r: &mut Rng) -> FmtSpec {
    let kind = r.below(7) as u8;
    let np = r.range(0, 3);
    let mut parts = Vec::new();
    let allowed: &[u8] = match kind {
        0 => &[16, 17],
        1 => &[0, 2, 3, 17, 1],
        2 => &[0, 17],
        3 => &[0, 4, 17],
        4 => &[18, 17],
        5 => &[5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17],
        _ => &[12, 13, 14, 15, 17],
    };
    for _ in 0..np {
        let ty = *r.pick(allowed);
        let mut attrs: Attrs = Vec::new();
        let names: &[&str] = match ty {
            0 => &["number:decimal-places", "number:min-integer-digits", "number:grouping", "number:decimal-replacement"],
            2 => &["number:decimal-places", "number:min-exponent-digits"],
            3 => &["number:min-denominator-digits", "number:min-numerator-digits"],
            4 => &["number:language", "number:country"],
            5..=9 | 11..=13 => &["number:style", "number:calendar"],
            14 => &["number:decimal-places", "number:style"],
            _ => &[],
        };
        for n in names {
            if r.chance(1, 2) {
                let v = if r.chance(1, 4) { attrv(r) } else { r.below(9).to_string() };
                attrs.push((n.to_string(), v));
            }
        }
        let mut pos = None;
        let content = match ty {
            17 | 4 | 1 => Some(line(r)),
            0 if r.chance(1, 3) => {
                // text inside of a number
                pos = Some(r.below(9) as i32);
                Some(line(r))
            }
            _ => None,
        };
        parts.push(PartSpec {
            ty,
            attrs,
            content,
            pos,
        });
    }
    let mut attrs: Attrs = Vec::new();
    for n in ["number:language", "number:country", "number:title", "style:display-name", "style:volatile"] {
        if r.chance(1, 4) {
            attrs.push((n.to_string(), attrv(r)));
        }
    }
    if kind == 6 && r.chance(1, 2) {
        attrs.push(("number:truncate-on-overflow".into(), "false".into()));
    }
    let mut text: Attrs = Vec::new();
    if r.chance(1, 3) {
        text.push(("fo:color".into(), attrv(r)));
    }
    FmtSpec {
        kind,
        name: sref(r),
        place: place(r, false),
        attrs,
        text,
        parts,
        maps: if r.chance(1, 4) { vec![mapspec(r)] } else { vec![] },
    }
}

fn hf(r: &mut Rng) -> HfSpec {
    match r.below(4) {
        0 => HfSpec {
            display: true,
            ..Default::default()
        },
        1 | 2 => HfSpec {
            display: r.chance(1, 2),
            content: pars(r, 1, 2),
            ..Default::default()
        },
        _ => HfSpec {
            display: r.chance(1, 2),
            left: pars(r, 0, 1),
            center: pars(r, 1, 2),
            right: pars(r, 0, 1),
            content: vec![],
        },
    }
}

fn msg(r: &mut Rng, err: bool) -> MsgSpec {
    MsgSpec {
        display: r.chance(1, 2),
        title: r.chance(1, 2).then(|| line(r)),
        text: r.chance(1, 2).then(|| par(r)),
        msg: if err { r.below(3) as u8 } else { 0 },
    }
}

fn style_edit(r: &mut Rng) -> Edit {
    use Edit::*;
    match r.below(36) {
        30..=33 => {
            let (groups, fam) = GRP[r.below(8) as usize];
            let g = r.below(groups.len() as u64) as usize;
            let n = *r.pick(groups[g]);
            let v = if n.ends_with("style-name") || n.ends_with("page-name") { zname(r) } else { attrv(r) };
            StyleAttr(fam, sref(r), g as u8, n.to_string(), v)
        }
        34 => Locale(r.below(4) as u8),
        0..=8 => PutStyle(style(r)),
        9..=10 => DelStyle(FAMS[r.below(8) as usize], zname(r)),
        11..=15 => PutFmt(fmtspec(r)),
        16 => DelFmt(r.below(7) as u8, zname(r)),
        17..=18 => {
            let mut a: Attrs = vec![("svg:font-family".into(), word(r))];
            if r.chance(1, 2) {
                a.push(("style:font-pitch".into(), attrv(r)));
            }
            PutFont(zname(r), r.chance(1, 2), a)
        }
        19 => DelFont(zname(r)),
        20..=21 => {
            let f = |r: &mut Rng, names: &[&str]| -> Attrs {
                let mut a = Vec::new();
                for n in names {
                    if r.chance(1, 2) {
                        a.push((n.to_string(), attrv(r)));
                    }
                }
                a
            };
            PutPage(PageSpec {
                name: zname(r),
                usage: match r.below(5) {
                    0 => Some("left".into()),
                    1 => Some("mirrored".into()),
                    2 => Some("right".into()),
                    3 => Some("all".into()),
                    _ => None,
                },
                attrs: f(r, &["fo:margin-top", "fo:page-width", "style:print-orientation"]),
                header: f(r, &["fo:min-height", "fo:margin-bottom"]),
                footer: f(r, &["fo:min-height", "fo:margin-top"]),
            })
        }
        22 => DelPage(zname(r)),
        23..=24 => PutMaster(MasterSpec {
            name: zname(r),
            display_name: if r.chance(1, 2) { word(r) } else { String::new() },
            page: Some(zname(r)),
            next: r.chance(1, 3).then(|| zname(r)),
            hf: (0..6).map(|_| hf(r)).collect(),
        }),
        25 => DelMaster(zname(r)),
        26..=27 => PutValid(ValidSpec {
            name: zname(r),
            cond: r.below(8) as u8,
            arg: word(r),
            base: (srow(r), scol(r)),
            allow_empty: r.chance(1, 2),
            display: r.below(3) as u8,
            err: r.chance(1, 2).then(|| msg(r, true)),
            help: r.chance(1, 2).then(|| msg(r, false)),
        }),
        28 => DelValid(zname(r)),
        _ => DefStyle(r.below(9) as u8, sref(r)),
    }
}

fn xscript(r: &mut Rng) -> Vec<X> {
    (0..r.range(1, 2))
        .map(|_| {
            X::E(
                "ooo:libraries".into(),
                vec![("ooo:x".into(), attrv(r))],
                inline(r, 1),
            )
        })
        .collect()
}

fn meta_edit(r: &mut Rng, m: &Model) -> Edit {
    use Edit::*;
    match r.below(27) {
        0..=6 => Meta(r.below(8) as u8, if r.chance(1, 8) { String::new() } else { line(r) }),
        7..=8 => MetaDate(r.below(3) as u8, (!r.chance(1, 5)).then(|| date(r))),
        9 => MetaCycles(r.below(1000) as u32),
        10 => MetaEditDur(dur(r)),
        11 => MetaTemplate(
            r.chance(1, 2).then(|| date(r)),
            r.chance(1, 2).then(|| attrv(r)),
            r.chance(1, 2).then(|| word(r)),
            r.chance(1, 2).then(|| r.below(2) as u8),
            r.chance(1, 3).then(|| r.below(7) as u8),
        ),
        12 => MetaReload(
            r.chance(1, 2).then(|| dur(r)),
            r.chance(1, 2).then(|| attrv(r)),
            r.chance(1, 2).then(|| r.below(2) as u8),
            r.chance(1, 2).then(|| r.below(2) as u8),
            r.chance(1, 3).then(|| r.below(7) as u8),
        ),
        13 => MetaHyper(r.chance(1, 2).then(|| word(r)), r.chance(1, 2).then(|| r.below(2) as u8)),
        14..=17 => MetaUser(
            word(r),
            match r.below(5) {
                0 => MetaV::Bool(r.chance(1, 2)),
                1 => {
                    let (s, n) = date(r);
                    MetaV::Date(s, n)
                }
                2 => MetaV::Float(num(r)),
                3 => MetaV::Dur(dur(r)),
                _ => MetaV::Str(line(r)),
            },
        ),
        18 => MetaUserClear,
        19..=20 => match r.below(4) {
            0 => {
                let n = m.sheets.get(r.below(5) as usize).map(|s| s.name()).unwrap_or_default();
                BookCfg(0, n)
            }
            k => BookCfg(k as u8, if r.chance(1, 2) { "true" } else { "false" }.into()),
        },
        21..=22 => Script(word(r), xscript(r)),
        23 => ScriptClear,
        24 => Event(
            (*r.pick(&["dom:load", "dom:unload", "office:print", "dom:x&y"])).into(),
            word(r),
            word(r),
            attrv(r),
            r.below(14) as u8,
        ),
        25 => MetaStat(r.below(100) as u32, r.below(100) as u32),
        _ => DelEvent((*r.pick(&["dom:load", "dom:unload", "office:print"])).into()),
    }
}

fn file_edit(r: &mut Rng) -> Edit {
    use Edit::*;
    let p = (*r.pick(&[
        "zpic.png",
        "zdir/a.bin",
        "zdir/b.xml",
        "zObject 1/content.xml",
        "zdir/sub/c&d.txt",
        "zé.dat",
    ]))
    .to_string();
    if r.chance(1, 4) {
        DelFile(p)
    } else {
        let t = (*r.pick(&["image/png", "text/xml", "", "application/x-\"q\"&"])).to_string();
        let b = if r.chance(1, 8) {
            bytes(r, 20_000)
        } else if r.chance(1, 6) {
            vec![]
        } else {
            bytes(r, 200)
        };
        PutFile(p, t, b)
    }
}

pub fn edit(r: &mut Rng, mix: &Mix, m: &Model) -> Edit {
    if m.sheets.is_empty() {
        return Edit::AddSheet {
            at: 0,
            name: r.pick(&SHEETS).to_string(),
        };
    }
    let s = r.below(m.sheets.len() as u64) as u32;
    let tot = mix.cells + mix.sheets + mix.styles + mix.meta + mix.files;
    let mut x = r.below(tot);
    if x < mix.cells {
        return cell_edit(r, s);
    }
    x -= mix.cells;
    if x < mix.sheets {
        return sheet_edit(r, s, m);
    }
    x -= mix.sheets;
    if x < mix.styles {
        return style_edit(r);
    }
    x -= mix.styles;
    if x < mix.meta {
        return meta_edit(r, m);
    }
    file_edit(r)
}
