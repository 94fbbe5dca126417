//! The part of the OpenDocument schema that the library's documents have to follow,
//! written from the standard: which children an element may have, in which order, how
//! often, and which attributes it needs. Elements that are not listed are not judged.

use crate::xml::{Elem, Node};
use std::collections::BTreeSet;

/// Content model: groups in order; every group lists alternatives, `?` at most one
/// element of the group, `*` any number, `!` exactly one.
struct Rule {
    name: &'static str,
    groups: &'static str,
    need: &'static str,
    /// text content is allowed
    text: bool,
}

const fn r(name: &'static str, groups: &'static str, need: &'static str) -> Rule {
    Rule {
        name,
        groups,
        need,
        text: false,
    }
}
const fn t(name: &'static str, groups: &'static str, need: &'static str) -> Rule {
    Rule {
        name,
        groups,
        need,
        text: true,
    }
}

const PRE: &str = "table:tracked-changes? text:variable-decls|text:sequence-decls|text:user-field-decls|text:dde-connection-decls|text:alphabetical-index-auto-mark-file|table:calculation-settings|table:content-validations|table:label-ranges* table:table* table:named-expressions|table:database-ranges|table:data-pilot-tables|table:consolidation|table:dde-links*";
const COLS: &str = "table:table-column|table:table-columns|table:table-column-group|table:table-header-columns*";
const ROWS: &str = "table:table-row|table:table-rows|table:table-row-group|table:table-header-rows*";
const TABLE: &str = "table:title? table:desc? table:table-source? office:dde-source? table:scenario? office:forms? table:shapes? table:table-column|table:table-columns|table:table-column-group|table:table-header-columns* table:table-row|table:table-rows|table:table-row-group|table:table-header-rows* table:named-expressions? calcext:conditional-formats?";
// the standard puts the annotation first, but every reader takes it anywhere
const CELL: &str = "table:cell-range-source? office:annotation|table:detective|text:p|text:h|text:list|text:section|draw:frame|table:table*";
const PROPS: &str = "style:table-properties? style:table-row-properties? style:table-column-properties? style:ruby-properties? style:graphic-properties? style:table-cell-properties? style:paragraph-properties? style:text-properties? style:map*";
const NUM: &str = "style:text-properties? number:text|number:fill-character|number:number|number:scientific-number|number:fraction|number:currency-symbol|number:boolean|number:text-content|number:day|number:month|number:year|number:era|number:day-of-week|number:week-of-year|number:quarter|number:hours|number:minutes|number:seconds|number:am-pm* style:map*";
const HF: &str = "style:region-left? style:region-center? style:region-right? text:p|text:h|text:list|table:table*";
const REGION: &str = "text:p|text:h|text:list|table:table*";

const RULES: &[Rule] = &[
    r("office:document", "office:meta? office:settings? office:scripts? office:font-face-decls? office:styles? office:automatic-styles? office:master-styles? office:body!", "office:version office:mimetype"),
    r("office:document-content", "office:scripts? office:font-face-decls? office:automatic-styles? office:body!", "office:version"),
    r("office:document-styles", "office:font-face-decls? office:styles? office:automatic-styles? office:master-styles?", "office:version"),
    r("office:document-meta", "office:meta?", "office:version"),
    r("office:document-settings", "office:settings?", "office:version"),
    r("office:body", "office:spreadsheet!", ""),
    r("office:spreadsheet", PRE, ""),
    r("office:scripts", "office:script* office:event-listeners?", ""),
    r("office:script", "", "script:language"),
    r("office:event-listeners", "script:event-listener|presentation:event-listener*", ""),
    r("script:event-listener", "", "script:event-name script:language"),
    r("office:font-face-decls", "style:font-face*", ""),
    r("style:font-face", "svg:font-face-src? svg:definition-src?", "style:name"),
    r("office:styles", "style:default-style|style:style|style:default-page-layout|style:presentation-page-layout|text:list-style|text:outline-style|text:notes-configuration|text:linenumbering-configuration|text:bibliography-configuration|draw:gradient|draw:hatch|draw:fill-image|draw:marker|draw:stroke-dash|draw:opacity|svg:linearGradient|svg:radialGradient|number:number-style|number:currency-style|number:percentage-style|number:date-style|number:time-style|number:boolean-style|number:text-style|table:table-template*", ""),
    r("office:automatic-styles", "style:style|style:page-layout|text:list-style|number:number-style|number:currency-style|number:percentage-style|number:date-style|number:time-style|number:boolean-style|number:text-style*", ""),
    r("office:master-styles", "draw:layer-set? style:handout-master? style:master-page*", ""),
    r("style:style", PROPS, "style:name style:family"),
    r("style:default-style", PROPS, "style:family"),
    r("style:table-cell-properties", "style:background-image?", ""),
    r("style:table-properties", "style:background-image?", ""),
    r("style:table-row-properties", "style:background-image?", ""),
    r("style:table-column-properties", "", ""),
    r("style:paragraph-properties", "style:tab-stops? style:drop-cap? style:background-image?", ""),
    r("style:text-properties", "", ""),
    r("style:tab-stops", "style:tab-stop*", ""),
    r("style:tab-stop", "", ""),
    r("style:map", "", "style:condition style:apply-style-name"),
    r("number:number-style", NUM, "style:name"),
    r("number:currency-style", NUM, "style:name"),
    r("number:percentage-style", NUM, "style:name"),
    r("number:date-style", NUM, "style:name"),
    r("number:time-style", NUM, "style:name"),
    r("number:boolean-style", NUM, "style:name"),
    r("number:text-style", NUM, "style:name"),
    r("number:number", "number:embedded-text*", ""),
    r("number:scientific-number", "", ""),
    r("number:fraction", "", ""),
    r("number:boolean", "", ""),
    r("number:text-content", "", ""),
    r("number:day", "", ""),
    r("number:month", "", ""),
    r("number:year", "", ""),
    r("number:era", "", ""),
    r("number:day-of-week", "", ""),
    r("number:week-of-year", "", ""),
    r("number:quarter", "", ""),
    r("number:hours", "", ""),
    r("number:minutes", "", ""),
    r("number:seconds", "", ""),
    r("number:am-pm", "", ""),
    t("number:embedded-text", "", "number:position"),
    t("number:text", "", ""),
    t("number:fill-character", "", ""),
    t("number:currency-symbol", "", ""),
    r("style:page-layout", "style:page-layout-properties? style:header-style? style:footer-style?", "style:name"),
    r("style:page-layout-properties", "style:background-image? style:columns? style:footnote-sep?", ""),
    r("style:header-style", "style:header-footer-properties?", ""),
    r("style:footer-style", "style:header-footer-properties?", ""),
    r("style:header-footer-properties", "style:background-image?", ""),
    r("style:master-page", "style:header? style:header-left|style:header-first* style:footer? style:footer-left|style:footer-first* draw:layer-set? office:forms?", "style:name style:page-layout-name"),
    r("style:header", HF, ""),
    r("style:header-left", HF, ""),
    r("style:header-first", HF, ""),
    r("style:footer", HF, ""),
    r("style:footer-left", HF, ""),
    r("style:footer-first", HF, ""),
    r("style:region-left", REGION, ""),
    r("style:region-center", REGION, ""),
    r("style:region-right", REGION, ""),
    r("table:content-validations", "table:content-validation*", ""),
    r("table:content-validation", "table:help-message? table:error-message|table:error-macro? office:event-listeners?", "table:name"),
    r("table:help-message", "text:p*", ""),
    r("table:error-message", "text:p*", ""),
    r("table:table", TABLE, "table:name"),
    r("table:table-column-group", COLS, ""),
    r("table:table-header-columns", COLS, ""),
    r("table:table-columns", COLS, ""),
    r("table:table-row-group", ROWS, ""),
    r("table:table-header-rows", ROWS, ""),
    r("table:table-rows", ROWS, ""),
    r("table:table-column", "", ""),
    r("table:table-row", "table:table-cell|table:covered-table-cell*", ""),
    r("table:table-cell", CELL, ""),
    r("table:covered-table-cell", CELL, ""),
    r("office:annotation", "dc:creator? dc:date? meta:date-string? text:p|text:list*", ""),
    r("draw:frame", "draw:text-box|draw:image|draw:object|draw:object-ole|draw:applet|draw:floating-frame|draw:plugin|table:table* office:event-listeners? draw:glue-point* draw:image-map? svg:title? svg:desc? draw:contour-polygon|draw:contour-path?", ""),
    r("draw:image", "office:binary-data? text:p|text:list*", ""),
    t("office:binary-data", "", ""),
    r("office:meta", "meta:generator|dc:title|dc:description|dc:subject|meta:keyword|meta:initial-creator|dc:creator|meta:printed-by|meta:creation-date|dc:date|meta:print-date|meta:template|meta:auto-reload|meta:hyperlink-behaviour|dc:language|meta:editing-cycles|meta:editing-duration|meta:document-statistic|meta:user-defined*", ""),
    t("meta:generator", "", ""),
    t("dc:title", "", ""),
    t("dc:description", "", ""),
    t("dc:subject", "", ""),
    t("meta:keyword", "", ""),
    t("meta:initial-creator", "", ""),
    t("dc:creator", "", ""),
    t("meta:printed-by", "", ""),
    t("meta:creation-date", "", ""),
    t("dc:date", "", ""),
    t("meta:print-date", "", ""),
    r("meta:template", "", ""),
    r("meta:auto-reload", "", ""),
    r("meta:hyperlink-behaviour", "", ""),
    t("dc:language", "", ""),
    t("meta:editing-cycles", "", ""),
    t("meta:editing-duration", "", ""),
    r("meta:document-statistic", "", ""),
    t("meta:user-defined", "", "meta:name"),
    r("office:settings", "config:config-item-set*", ""),
    r("config:config-item-set", "config:config-item|config:config-item-set|config:config-item-map-named|config:config-item-map-indexed*", "config:name"),
    r("config:config-item-map-named", "config:config-item-map-entry*", "config:name"),
    r("config:config-item-map-indexed", "config:config-item-map-entry*", "config:name"),
    r("config:config-item-map-entry", "config:config-item|config:config-item-set|config:config-item-map-named|config:config-item-map-indexed*", ""),
    t("config:config-item", "", "config:name config:type"),
    r("manifest:manifest", "manifest:file-entry*", "manifest:version"),
    r("manifest:file-entry", "", "manifest:full-path manifest:media-type"),
];

const NS: &[(&str, &str)] = &[
    ("office", "urn:oasis:names:tc:opendocument:xmlns:office:1.0"),
    ("table", "urn:oasis:names:tc:opendocument:xmlns:table:1.0"),
    ("text", "urn:oasis:names:tc:opendocument:xmlns:text:1.0"),
    ("style", "urn:oasis:names:tc:opendocument:xmlns:style:1.0"),
    ("fo", "urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0"),
    ("number", "urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0"),
    ("draw", "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0"),
    ("svg", "urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0"),
    ("meta", "urn:oasis:names:tc:opendocument:xmlns:meta:1.0"),
    ("config", "urn:oasis:names:tc:opendocument:xmlns:config:1.0"),
    ("script", "urn:oasis:names:tc:opendocument:xmlns:script:1.0"),
    ("manifest", "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"),
    ("dc", "http://purl.org/dc/elements/1.1/"),
    ("xlink", "http://www.w3.org/1999/xlink"),
    ("of", "urn:oasis:names:tc:opendocument:xmlns:of:1.2"),
];

pub fn check(e: &Elem, path: &str) -> Result<(), String> {
    let here = format!("{path}/{}", e.name);
    for (k, v) in &e.attrs {
        if let Some(p) = k.strip_prefix("xmlns:") {
            if let Some((_, u)) = NS.iter().find(|(n, _)| *n == p) {
                if v != u {
                    return Err(format!("{here}: prefix {p:?} is declared as {v:?}"));
                }
            }
        }
    }
    if let Some(rule) = RULES.iter().find(|r| r.name == e.name) {
        for a in rule.need.split_whitespace() {
            if e.attr(a).is_none() {
                return Err(format!("{here}: no attribute {a}"));
            }
        }
        if !rule.text {
            for k in &e.kids {
                if let Node::Text(t) = k {
                    if !t.trim().is_empty() && e.name != "office:script" {
                        return Err(format!("{here}: text {t:?}"));
                    }
                }
            }
        }
        if e.name != "office:script" {
            order(e, rule, &here)?;
        }
    }
    values(e).map_err(|m| format!("{here}: {m}"))?;
    names(e).map_err(|m| format!("{here}: {m}"))?;
    for c in e.elems() {
        check(c, &here)?;
    }
    Ok(())
}

fn order(e: &Elem, rule: &Rule, here: &str) -> Result<(), String> {
    let groups: Vec<&str> = rule.groups.split_whitespace().collect();
    let alts = |g: usize| groups[g][..groups[g].len() - 1].split('|').collect::<Vec<_>>();
    let mut at = 0;
    let mut seen = vec![0; groups.len()];
    for c in e.elems() {
        let n = c.name.as_str();
        // extensions are allowed anywhere
        let Some(g) = (0..groups.len()).find(|g| alts(*g).contains(&n)) else {
            if n.starts_with("zext:") || n.starts_with("loext:") || n.starts_with("calcext:") {
                continue;
            }
            return Err(format!("{here}: <{n}> is not allowed here"));
        };
        if g < at {
            return Err(format!("{here}: <{n}> comes too late"));
        }
        at = g;
        seen[g] += 1;
        if seen[g] > 1 && !groups[g].ends_with('*') {
            return Err(format!("{here}: <{n}> more than once"));
        }
    }
    for g in 0..groups.len() {
        if groups[g].ends_with('!') && seen[g] == 0 {
            return Err(format!("{here}: {} is missing", groups[g]));
        }
    }
    Ok(())
}

fn float(v: &str) -> bool {
    !v.is_empty()
        && v.bytes().all(|b| b.is_ascii_digit() || matches!(b, b'.' | b'-' | b'+' | b'e' | b'E'))
        && v.parse::<f64>().is_ok_and(|f| f.is_finite())
}
fn digits(s: &str, n: usize) -> bool {
    s.len() == n && s.bytes().all(|b| b.is_ascii_digit())
}
/// xsd:date or xsd:dateTime
pub fn date(v: &str) -> bool {
    let (d, t) = match v.split_once('T') {
        Some((d, t)) => (d, Some(t)),
        None => (v, None),
    };
    let d = d.strip_prefix('-').unwrap_or(d);
    let p: Vec<&str> = d.split('-').collect();
    let dok = p.len() == 3
        && (digits(p[0], 4) || digits(p[0], p[0].len()) && p[0].len() > 4 && !p[0].starts_with('0'))
        && digits(p[1], 2)
        && digits(p[2], 2)
        && (1..=12).contains(&p[1].parse().unwrap_or(0))
        && (1..=31).contains(&p[2].parse().unwrap_or(0));
    let tok = t.is_none_or(|t| {
        let (hms, f) = match t.split_once('.') {
            Some((a, b)) => (a, Some(b)),
            None => (t, None),
        };
        let q: Vec<&str> = hms.split(':').collect();
        q.len() == 3
            && q.iter().all(|x| digits(x, 2))
            && q[0].parse::<u32>().unwrap() < 24
            && q[1].parse::<u32>().unwrap() < 60
            && q[2].parse::<u32>().unwrap() < 60
            && f.is_none_or(|f| !f.is_empty() && f.bytes().all(|b| b.is_ascii_digit()))
    });
    dok && tok
}
/// xsd:duration
pub fn duration(v: &str) -> bool {
    let v = v.strip_prefix('-').unwrap_or(v);
    let Some(v) = v.strip_prefix('P') else {
        return false;
    };
    let (d, t) = match v.split_once('T') {
        Some((d, t)) => (d, Some(t)),
        None => (v, None),
    };
    fn part(mut s: &str, units: &str, frac: bool) -> Option<usize> {
        let mut n = 0;
        for u in units.chars() {
            if let Some((a, b)) = s.split_once(u) {
                let ok = if u == 'S' && frac {
                    let (x, y) = a.split_once('.').unwrap_or((a, "0"));
                    !x.is_empty() && !y.is_empty() && (x.to_string() + y).bytes().all(|b| b.is_ascii_digit())
                } else {
                    !a.is_empty() && a.bytes().all(|b| b.is_ascii_digit())
                };
                if !ok {
                    return None;
                }
                n += 1;
                s = b;
            }
        }
        s.is_empty().then_some(n)
    }
    let Some(nd) = part(d, "YMD", false) else {
        return false;
    };
    match t {
        None => nd > 0,
        Some(t) => part(t, "HMS", true).is_some_and(|n| n > 0),
    }
}
fn boolean(v: &str) -> bool {
    v == "true" || v == "false"
}

fn values(e: &Elem) -> Result<(), String> {
    for (k, v) in &e.attrs {
        let ok = match k.as_str() {
            "office:value" => float(v),
            "office:date-value" => date(v),
            "office:time-value" => duration(v),
            "office:boolean-value"
            | "office:display"
            | "table:display"
            | "table:print"
            | "table:allow-empty-cell"
            | "number:automatic-order"
            | "number:truncate-on-overflow"
            | "number:grouping" => boolean(v),
            "table:visibility" => ["visible", "collapse", "filter"].contains(&v.as_str()),
            "xlink:actuate" => ["onLoad", "onRequest"].contains(&v.as_str()),
            "table:number-columns-repeated"
            | "table:number-rows-repeated"
            | "table:number-columns-spanned"
            | "table:number-rows-spanned"
            | "table:number-matrix-columns-spanned"
            | "table:number-matrix-rows-spanned" => v.parse::<u32>().is_ok_and(|n| n > 0),
            "meta:table-count" | "meta:cell-count" | "meta:object-count" | "meta:ole-object-count" => {
                v.parse::<u32>().is_ok()
            }
            "meta:delay" => duration(v),
            "style:family" => [
                "table",
                "table-row",
                "table-column",
                "table-cell",
                "paragraph",
                "text",
                "ruby",
                "graphic",
            ]
            .contains(&v.as_str()),
            "meta:date" => date(v),
            _ => true,
        };
        // generated styles carry arbitrary values in these
        let style = e.name.starts_with("style:") && k != "style:family" || e.name.starts_with("number:");
        if !ok && !style {
            return Err(format!("{k}={v:?}"));
        }
    }
    let t = e.text();
    let ok = match e.name.as_str() {
        "meta:creation-date" | "dc:date" | "meta:print-date" => date(&t),
        "meta:editing-duration" => duration(&t),
        "meta:editing-cycles" => t.parse::<u32>().is_ok(),
        "meta:user-defined" => match e.attr("meta:value-type") {
            Some("boolean") => boolean(&t),
            Some("date") => date(&t),
            Some("float") => float(&t),
            Some("time") => duration(&t),
            Some("string") | None => true,
            Some(_) => false,
        },
        "config:config-item" => match e.attr("config:type") {
            Some("boolean") => boolean(&t),
            Some("short") => t.parse::<i16>().is_ok(),
            Some("int") => t.parse::<i32>().is_ok(),
            Some("long") => t.parse::<i64>().is_ok(),
            Some("double") => float(&t),
            Some("string" | "datetime" | "base64Binary") => true,
            _ => false,
        },
        _ => true,
    };
    if !ok {
        return Err(format!("content {t:?}"));
    }
    if e.name == "table:table-cell" || e.name == "table:covered-table-cell" {
        let vt = e.attr("office:value-type");
        let want: &[&str] = match vt {
            None => &[],
            Some("float" | "percentage") => &["office:value"],
            Some("currency") => &["office:value", "office:currency"],
            Some("date") => &["office:date-value"],
            Some("time") => &["office:time-value"],
            Some("boolean") => &["office:boolean-value"],
            Some("string") => &["office:string-value"],
            Some(o) => return Err(format!("value type {o:?}")),
        };
        for a in [
            "office:value",
            "office:currency",
            "office:date-value",
            "office:time-value",
            "office:boolean-value",
            "office:string-value",
        ] {
            if e.attr(a).is_some() && !want.contains(&a) {
                return Err(format!("{a} with value type {vt:?}"));
            }
        }
        if let Some(a) = want.first() {
            if *a != "office:string-value" && e.attr(a).is_none() {
                return Err(format!("no {a} with value type {vt:?}"));
            }
        }
    }
    Ok(())
}

/// Names are unique in their container.
fn names(e: &Elem) -> Result<(), String> {
    let key = match e.name.as_str() {
        "office:styles" | "office:automatic-styles" | "office:master-styles" | "office:font-face-decls" => "style:name",
        "table:content-validations" | "office:spreadsheet" => "table:name",
        "config:config-item-set" | "config:config-item-map-named" | "config:config-item-map-entry" => "config:name",
        "office:event-listeners" => "script:event-name",
        "manifest:manifest" => "manifest:full-path",
        _ => return Ok(()),
    };
    let mut seen = BTreeSet::new();
    for c in e.elems() {
        if e.name == "office:spreadsheet" && c.name != "table:table" {
            continue;
        }
        let n = c.attr(key).unwrap_or("");
        if c.attr(key).is_none() && c.name != "style:default-style" {
            continue;
        }
        if !seen.insert((c.name.clone(), c.attr("style:family").unwrap_or(""), n)) {
            return Err(format!("<{}> {n:?} twice", c.name));
        }
    }
    Ok(())
}
