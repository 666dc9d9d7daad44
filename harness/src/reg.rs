//! Registries of a workbook (styles, formats, fonts, pages, validations, files, metadata, settings, scripts) as facts:
//! {k: kind, n: name, u: use, o: origin, t: canonical text of the content, x: text of what belongs to the sheet}.
use crate::val::*;
use crate::St;
use serde_json::{json, Value as J};
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::format::*;
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::metadata::*;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::units::MasterPageUsage;
use spreadsheet_ods::style::*;
use spreadsheet_ods::validation::*;
use spreadsheet_ods::workbook::{EventListener, Script};
use spreadsheet_ods::xlink::*;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::{CellRef, OdsResult, WorkBook};
use std::convert::TryFrom;

fn sorted(mut v: Vec<J>) -> J {
    v.sort_by(|a, b| a[0].as_str().cmp(&b[0].as_str()).then(a[1].as_str().cmp(&b[1].as_str())));
    J::Array(v)
}
macro_rules! attrs {
    ($m:expr) => {
        sorted($m.iter().map(|(k, v)| json!([k.to_string(), v])).collect())
    };
    ($m:expr, $not:expr) => {
        sorted($m.iter().filter(|(k, _)| !$not.contains(&&***k)).map(|(k, v)| json!([k.to_string(), v])).collect())
    };
    ($m:expr; $only:expr) => {
        sorted($m.iter().filter(|(k, _)| $only.contains(&&***k)).map(|(k, v)| json!([k.to_string(), v])).collect())
    };
}
macro_rules! put {
    ($m:expr, $j:expr) => {
        for kv in $j.as_array().expect("harness: attrs") {
            let k = s(&kv[0]);
            $m.set_attr(&k, s(&kv[1]));
        }
    };
}
fn txt(j: J) -> String {
    j.to_string()
}
fn jt(x: &str) -> J {
    serde_json::from_str(x).expect("harness: t")
}
fn use_s(u: StyleUse) -> &'static str {
    match u {
        StyleUse::Default => "d",
        StyleUse::Named => "n",
        StyleUse::Automatic => "a",
    }
}
fn s_use(x: &str) -> StyleUse {
    match x {
        "d" => StyleUse::Default,
        "n" => StyleUse::Named,
        _ => StyleUse::Automatic,
    }
}
fn or_s(o: StyleOrigin) -> &'static str {
    match o {
        StyleOrigin::Content => "c",
        StyleOrigin::Styles => "s",
    }
}
fn s_or(x: &str) -> StyleOrigin {
    if x == "s" { StyleOrigin::Styles } else { StyleOrigin::Content }
}
fn fact(k: &str, n: &str, u: &str, o: &str, t: J, x: J) -> J {
    let x = if x == J::Null { String::new() } else { txt(x) };
    json!({"k": k, "n": n, "u": u, "o": o, "t": txt(t), "x": x})
}

// ---- conditions: only through the public builders ----
fn split_cond<'a>(c: &'a str, f: &str) -> Option<(&'a str, &'a str)> {
    let r = c.strip_prefix(f)?;
    for op in ["!=", "<=", ">=", "=", "<", ">"] {
        if let Some(v) = r.strip_prefix(op) {
            return Some((op, v));
        }
    }
    None
}
fn unq(v: &str) -> Option<String> {
    v.strip_prefix('"').and_then(|x| x.strip_suffix('"')).map(|x| x.replace("\"\"", "\""))
}
pub fn cond(c: &str) -> Condition {
    if c.is_empty() {
        return Condition::default();
    }
    if let Some(f) = c.strip_prefix("is-true-formula(").and_then(|x| x.strip_suffix(')')) {
        return Condition::is_true_formula(f);
    }
    if let Some((op, v)) = split_cond(c, "cell-content-text-length()") {
        let n: u32 = v.parse().expect("harness: length");
        return match op {
            "!=" => Condition::content_text_length_ne(n),
            "<=" => Condition::content_text_length_le(n),
            ">=" => Condition::content_text_length_ge(n),
            "=" => Condition::content_text_length_eq(n),
            "<" => Condition::content_text_length_lt(n),
            _ => Condition::content_text_length_gt(n),
        };
    }
    if let Some((op, v)) = split_cond(c, "cell-content()") {
        macro_rules! go {
            ($v:expr) => {
                match op {
                    "!=" => Condition::content_ne($v),
                    "<=" => Condition::content_le($v),
                    ">=" => Condition::content_ge($v),
                    "=" => Condition::content_eq($v),
                    "<" => Condition::content_lt($v),
                    _ => Condition::content_gt($v),
                }
            };
        }
        return match unq(v) {
            Some(t) => go!(t.as_str()),
            None => go!(v.parse::<i64>().expect("harness: number")),
        };
    }
    panic!("harness: condition {}", c)
}
pub fn vcond(c: &str) -> ValueCondition {
    let (op, v) = split_cond(c, "value()").expect("harness: value condition");
    macro_rules! go {
        ($v:expr) => {
            match op {
                "!=" => ValueCondition::value_ne($v),
                "<=" => ValueCondition::value_le($v),
                ">=" => ValueCondition::value_ge($v),
                "=" => ValueCondition::value_eq($v),
                "<" => ValueCondition::value_lt($v),
                _ => ValueCondition::value_gt($v),
            }
        };
    }
    match unq(v) {
        Some(t) => go!(t.as_str()),
        None => go!(v.parse::<i64>().expect("harness: number")),
    }
}
/// condition builders: [builder, arguments...] -> text
fn cond_text(a: &J) -> String {
    let v: Vec<J> = a.as_array().expect("harness: cond").clone();
    let g = |i: usize| s(&v[i]);
    let num = |i: usize| g(i).parse::<u32>().expect("harness: length");
    macro_rules! val {
        ($f:path) => {
            match g(2).as_str() {
                "str" => $f(g(3).as_str()),
                "string" => $f(g(3)),
                "i64" => $f(g(3).parse::<i64>().expect("harness: int")),
                "i8" => $f(g(3).parse::<i8>().expect("harness: int")),
                "u64" => $f(g(3).parse::<u64>().expect("harness: int")),
                "bool" => $f(g(3) == "true"),
                "f64" => $f(g(3).parse::<f64>().expect("harness: float")),
                _ => panic!("harness: operand"),
            }
            .to_string()
        };
    }
    let k = g(0);
    let op = if v.len() > 1 && v[1].is_string() { g(1) } else { String::new() };
    match (k.as_str(), op.as_str()) {
        ("value", "eq") => val!(ValueCondition::value_eq),
        ("value", "ne") => val!(ValueCondition::value_ne),
        ("value", "lt") => val!(ValueCondition::value_lt),
        ("value", "gt") => val!(ValueCondition::value_gt),
        ("value", "le") => val!(ValueCondition::value_le),
        ("value", "ge") => val!(ValueCondition::value_ge),
        ("content", "eq") => val!(Condition::content_eq),
        ("content", "ne") => val!(Condition::content_ne),
        ("content", "lt") => val!(Condition::content_lt),
        ("content", "gt") => val!(Condition::content_gt),
        ("content", "le") => val!(Condition::content_le),
        ("content", "ge") => val!(Condition::content_ge),
        ("length", "eq") => Condition::content_text_length_eq(num(2)).to_string(),
        ("length", "ne") => Condition::content_text_length_ne(num(2)).to_string(),
        ("length", "lt") => Condition::content_text_length_lt(num(2)).to_string(),
        ("length", "gt") => Condition::content_text_length_gt(num(2)).to_string(),
        ("length", "le") => Condition::content_text_length_le(num(2)).to_string(),
        ("length", "ge") => Condition::content_text_length_ge(num(2)).to_string(),
        ("between", _) => Condition::content_text_length_is_between(num(1), num(2)).to_string(),
        ("not_between", _) => Condition::content_text_length_is_not_between(num(1), num(2)).to_string(),
        ("list", ty) => {
            let l = strs(&v[2]);
            match ty {
                "str" => Condition::content_is_in_list(&l.iter().map(|x| x.as_str()).collect::<Vec<_>>()),
                "string" => Condition::content_is_in_list(&l),
                "i64" => Condition::content_is_in_list(&l.iter().map(|x| x.parse::<i64>().expect("harness: int")).collect::<Vec<_>>()),
                "bool" => Condition::content_is_in_list(&l.iter().map(|x| x == "true").collect::<Vec<_>>()),
                _ => panic!("harness: operand"),
            }
            .to_string()
        }
        ("range", r) => Condition::content_is_in_cellrange(spreadsheet_ods::CellRange::try_from(r).expect("harness: range")).to_string(),
        ("and", "date") => Condition::content_is_date_and(cond(&g(2))).to_string(),
        ("and", "time") => Condition::content_is_time_and(cond(&g(2))).to_string(),
        ("and", "decimal-number") => Condition::content_is_decimal_number_and(cond(&g(2))).to_string(),
        ("and", "whole-number") => Condition::content_is_whole_number_and(cond(&g(2))).to_string(),
        ("formula", x) => Condition::is_true_formula(x).to_string(),
        _ => panic!("harness: builder {}", k),
    }
}

// ---- styles ----
/// The name of an entry is the one its own reference has.
fn same(name: &str, by_ref: &str) -> String {
    if name == by_ref { name.to_string() } else { format!("{} / {}", name, by_ref) }
}
const SELF: [&str; 2] = ["style:name", "style:family"];
const ROWX: [&str; 2] = ["style:row-height", "style:use-optimal-row-height"];
const COLX: [&str; 2] = ["style:column-width", "style:use-optimal-column-width"];
const NONE: [&str; 0] = [];
macro_rules! style_kind {
    ($to:ident, $from:ident, $ty:ident, $new:expr, $k:expr, $own:expr, [$($el:expr => $get:ident, $getm:ident);*]) => {
        fn $to(y: &$ty) -> J {
            let mut props: Vec<J> = vec![];
            let mut own: J = J::Null;
            $(
                let a = attrs!(y.$get(), $own);
                if $own.len() > 0 && $el.starts_with("style:table-") { own = attrs!(y.$get(); $own); }
                if a.as_array().unwrap().len() > 0 { props.push(json!([$el, a, []])); }
            )*
            props.sort_by(|a, b| a[0].as_str().cmp(&b[0].as_str()));
            fact($k, &same(y.name(), y.style_ref().as_str()), use_s(y.styleuse()), or_s(y.origin()), json!([attrs!(y.attrmap(), SELF), props, []]), own)
        }
        fn $from(n: &str, uu: &str, o: &str, t: &J, x: &J) -> $ty {
            let mut y: $ty = $new(n);
            y.set_styleuse(s_use(uu));
            y.set_origin(s_or(o));
            y.attrmap_mut().clear_attr("style:data-style-name");
            put!(y.attrmap_mut(), t[0]);
            for p in t[1].as_array().unwrap() {
                let el = s(&p[0]);
                $( if el == $el { put!(y.$getm(), p[1]); continue; } )*
                panic!("harness: properties {}", el);
            }
            if let Some(_l) = x.as_array() {
                $( if $own.len() > 0 && $el.starts_with("style:table-") { put!(y.$getm(), x); } )*
            }
            y
        }
    };
}
style_kind!(table_j, j_table, TableStyle, TableStyle::new, "st:table", NONE, ["style:table-properties" => tablestyle, tablestyle_mut]);
style_kind!(row_j, j_row, RowStyle, RowStyle::new, "st:row", ROWX, ["style:table-row-properties" => rowstyle, rowstyle_mut]);
style_kind!(col_j, j_col, ColStyle, ColStyle::new, "st:col", COLX, ["style:table-column-properties" => colstyle, colstyle_mut]);
style_kind!(cell0_j, j_cell0, CellStyle, |n: &str| CellStyle::new(n, &"".into()), "st:cell", NONE,
    ["style:table-cell-properties" => cellstyle, cellstyle_mut; "style:paragraph-properties" => paragraphstyle, paragraphstyle_mut; "style:text-properties" => textstyle, textstyle_mut]);
style_kind!(par0_j, j_par0, ParagraphStyle, ParagraphStyle::new, "st:paragraph", NONE,
    ["style:paragraph-properties" => paragraphstyle, paragraphstyle_mut; "style:text-properties" => textstyle, textstyle_mut]);
style_kind!(text_j, j_text, TextStyle, TextStyle::new, "st:text", NONE, ["style:text-properties" => textstyle, textstyle_mut]);
style_kind!(ruby_j, j_ruby, RubyStyle, RubyStyle::new, "st:ruby", NONE, ["style:ruby-properties" => rubystyle, rubystyle_mut]);
style_kind!(graphic_j, j_graphic, GraphicStyle, GraphicStyle::new, "st:graphic", NONE,
    ["style:graphic-properties" => graphicstyle, graphicstyle_mut; "style:paragraph-properties" => paragraphstyle, paragraphstyle_mut; "style:text-properties" => textstyle, textstyle_mut]);
fn cell_j(y: &CellStyle) -> J {
    let mut f = cell0_j(y);
    let mut t = jt(f["t"].as_str().unwrap());
    for m in y.stylemaps().map(|x| x.as_slice()).unwrap_or(&[]) {
        let base: Vec<String> = m.base_cell().map(|x| x.to_string()).into_iter().collect();
        t[2].as_array_mut().unwrap().push(json!([m.condition().to_string(), m.applied_style().as_str(), base]));
    }
    f["t"] = json!(txt(t));
    f
}
fn j_cell(n: &str, uu: &str, o: &str, t: &J, x: &J) -> CellStyle {
    let mut y = j_cell0(n, uu, o, t, x);
    for m in t[2].as_array().unwrap() {
        let base = m[2].as_array().unwrap().first().map(|b| CellRef::try_from(s(b).as_str()).expect("harness: base"));
        if alt(m) {
            let mut x = StyleMap::new_empty();
            x.set_base_cell(base);
            x.set_applied_style(AnyStyleRef::from(s(&m[1])));
            x.set_condition(cond(&s(&m[0])));
            if y.stylemaps().is_some() {
                y.stylemaps_mut().push(x);
            } else {
                y.push_stylemap(x);
            }
        } else {
            y.push_stylemap(StyleMap::new(cond(&s(&m[0])), AnyStyleRef::from(s(&m[1])), base));
        }
    }
    y
}
fn par_j(y: &ParagraphStyle) -> J {
    let mut f = par0_j(y);
    let mut t = jt(f["t"].as_str().unwrap());
    if let Some(ts) = y.tabstops() {
        let l: Vec<J> = ts.iter().map(|x| json!(["style:tab-stop", attrs!(x.attrmap()), []])).collect();
        if !l.is_empty() {
            let ps = t[1].as_array_mut().unwrap();
            match ps.iter_mut().find(|p| p[0] == "style:paragraph-properties") {
                Some(p) => p[2] = J::Array(l),
                None => ps.insert(0, json!(["style:paragraph-properties", [], l])),
            }
        }
    }
    f["t"] = json!(txt(t));
    f
}
fn j_par(n: &str, uu: &str, o: &str, t: &J, x: &J) -> ParagraphStyle {
    let mut y = j_par0(n, uu, o, t, x);
    for p in t[1].as_array().unwrap() {
        for c in p[2].as_array().unwrap() {
            let mut ts = TabStop::new();
            put!(ts.attrmap_mut(), c[1]);
            y.add_tabstop(ts);
        }
    }
    y
}

// ---- formats ----
pub const PARTS: [(&str, FormatPartType); 19] = [
    ("number:number", FormatPartType::Number), ("number:fill-character", FormatPartType::FillCharacter),
    ("number:scientific-number", FormatPartType::ScientificNumber), ("number:fraction", FormatPartType::Fraction),
    ("number:currency-symbol", FormatPartType::CurrencySymbol), ("number:day", FormatPartType::Day),
    ("number:month", FormatPartType::Month), ("number:year", FormatPartType::Year), ("number:era", FormatPartType::Era),
    ("number:day-of-week", FormatPartType::DayOfWeek), ("number:week-of-year", FormatPartType::WeekOfYear),
    ("number:quarter", FormatPartType::Quarter), ("number:hours", FormatPartType::Hours), ("number:minutes", FormatPartType::Minutes),
    ("number:seconds", FormatPartType::Seconds), ("number:am-pm", FormatPartType::AmPm), ("number:boolean", FormatPartType::Boolean),
    ("number:text", FormatPartType::Text), ("number:text-content", FormatPartType::TextContent),
];
pub const PATTR: [&str; 22] = [
    "number:decimal-places", "number:min-decimal-places", "number:min-integer-digits", "number:grouping", "number:display-factor",
    "number:decimal-replacement", "number:min-exponent-digits", "number:exponent-interval", "number:forced-exponent-sign",
    "number:denominator-value", "number:max-denominator-value", "number:min-denominator-digits", "number:min-numerator-digits",
    "number:language", "number:country", "number:script", "number:rfc-language-tag", "number:style", "number:calendar", "number:textual",
    "number:possessive-form", "number:max-numerator-digits",
];
fn texty(p: FormatPartType) -> bool {
    matches!(p, FormatPartType::Text | FormatPartType::CurrencySymbol | FormatPartType::FillCharacter)
}
fn part_j(p: &FormatPart) -> J {
    let el = PARTS.iter().find(|x| x.1 == p.part_type()).expect("harness: part").0;
    let a: Vec<J> = PATTR.iter().filter(|n| p.attr_def(n, "\u{1}") != "\u{1}").map(|n| json!([n, p.attr_def(n, "\u{1}")])).collect();
    let mut c: Vec<J> = vec![];
    if texty(p.part_type()) {
        c.extend(p.content().filter(|x| !x.is_empty()).map(|x| json!(x)));
    } else if let (FormatPartType::Number, Some(pos)) = (p.part_type(), p.position()) {
        let t: Vec<&String> = p.content().filter(|x| !x.is_empty()).into_iter().collect();
        c.push(json!(["number:embedded-text", [["number:position", pos.to_string()]], t]));
    }
    json!([el, sorted(a), c])
}
fn j_part(j: &J) -> FormatPart {
    let el = s(&j[0]);
    let ty = PARTS.iter().find(|x| x.0 == el).expect("harness: part").1;
    let mut p = FormatPart::new(if alt(j) { FormatPartType::Text } else { ty });
    if alt(j) {
        p.set_content("old");
        p.clear_content();
        p.set_position(1);
        p.clear_position();
        p.set_part_type(ty);
    }
    for kv in j[1].as_array().unwrap() {
        p.set_attr(&s(&kv[0]), s(&kv[1]));
    }
    for c in j[2].as_array().unwrap() {
        if let J::String(x) = c {
            if alt(j) && p.content().is_none() { p.set_content(x); } else { p.append_content(x); }
        } else {
            p.set_position(s(&c[1][0][1]).parse().expect("harness: position"));
            for t in c[2].as_array().unwrap() {
                p.append_content(s(t));
            }
        }
    }
    p
}
fn fmt_j<T: ValueFormatTrait>(k: &str, y: &T) -> J {
    let mut l: Vec<J> = vec![];
    let ta = attrs!(y.textstyle());
    if ta.as_array().unwrap().len() > 0 {
        l.push(json!(["style:text-properties", ta, []]));
    }
    l.extend(y.parts().iter().map(part_j));
    for m in y.stylemaps().map(|x| x.as_slice()).unwrap_or(&[]) {
        l.push(json!(["style:map", [["style:apply-style-name", m.applied_style()], ["style:condition", m.condition().to_string()]], []]));
    }
    fact(k, &same(y.name(), y.format_ref().as_str()), use_s(y.styleuse()), or_s(y.origin()), json!([attrs!(y.attrmap(), SELF), l]), J::Null)
}
fn fmt_fill<T: ValueFormatTrait>(mut y: T, uu: &str, o: &str, t: &J) -> T {
    y.set_styleuse(s_use(uu));
    y.set_origin(s_or(o));
    put!(y.attrmap_mut(), t[0]);
    for p in t[1].as_array().unwrap() {
        match s(&p[0]).as_str() {
            "style:text-properties" => put!(y.textstyle_mut(), p[1]),
            "style:map" => {
                let g = |n: &str| p[1].as_array().unwrap().iter().find(|x| x[0] == n).map(|x| s(&x[1])).unwrap_or_default();
                y.push_stylemap(spreadsheet_ods::format::ValueStyleMap::new(vcond(&g("style:condition")), g("style:apply-style-name")));
            }
            _ => y.push_part(j_part(p)),
        }
    }
    y
}

// ---- fonts, pages ----
fn font_j(y: &FontFaceDecl) -> J {
    fact("font", y.name(), "", or_s(y.origin()), attrs!(y.attrmap(), SELF), J::Null)
}
fn j_font(n: &str, o: &str, t: &J) -> FontFaceDecl {
    let mut y = FontFaceDecl::new(n);
    y.set_origin(s_or(o));
    put!(y.attrmap_mut(), t);
    y
}
fn page_j(y: &PageStyle) -> J {
    let us: Vec<String> = match y.page_usage() {
        OdsResult::Ok(Some(x)) => vec![x.to_string()],
        OdsResult::Ok(None) => vec![],
        OdsResult::Err(_) => vec!["(invalid)".into()],
    };
    fact("page", &same(y.name(), y.style_ref().as_str()), "", "", json!([us, attrs!(y.style()), attrs!(y.headerstyle().style()), attrs!(y.footerstyle().style())]), J::Null)
}
fn j_page(n: &str, t: &J) -> PageStyle {
    let mut y = PageStyle::new(n);
    for x in t[0].as_array().unwrap() {
        y.set_page_usage(match s(x).as_str() {
            "all" => MasterPageUsage::All,
            "left" => MasterPageUsage::Left,
            "mirrored" => MasterPageUsage::Mirrored,
            _ => MasterPageUsage::Right,
        });
    }
    put!(y.style_mut(), t[1]);
    put!(y.headerstyle_mut().style_mut(), t[2]);
    put!(y.footerstyle_mut().style_mut(), t[3]);
    y
}
fn tags_j(v: &[XmlTag]) -> J {
    J::Array(v.iter().map(tag_to_j).collect())
}
fn j_tags(j: &J) -> Vec<XmlTag> {
    j.as_array().unwrap().iter().map(j_to_tag).collect()
}
// special headers without content are the same as absent ones
fn hf_j(h: &HeaderFooter, special: bool) -> J {
    let none = h.left().is_empty() && h.center().is_empty() && h.right().is_empty() && h.content().is_empty();
    json!([h.display() && !(special && none), tags_j(h.left()), tags_j(h.center()), tags_j(h.right()), tags_j(h.content())])
}
fn j_hf(j: &J) -> HeaderFooter {
    let mut h = HeaderFooter::new();
    h.set_display(b(&j[0]));
    if alt(j) {
        // region by region
        h.add_left(XmlTag::new("text:p").text("old"));
        h.add_center(XmlTag::new("text:p").text("old"));
        h.add_right(XmlTag::new("text:p").text("old"));
        h.clear_left();
        h.clear_center();
        h.clear_right();
        j_tags(&j[1]).into_iter().for_each(|t| h.add_left(t));
        j_tags(&j[2]).into_iter().for_each(|t| h.add_center(t));
        j_tags(&j[3]).into_iter().for_each(|t| h.add_right(t));
        h.set_content(j_tags(&j[4]));
        return h;
    }
    h.set_left(j_tags(&j[1]));
    h.set_center(j_tags(&j[2]));
    h.set_right(j_tags(&j[3]));
    for t in j_tags(&j[4]) {
        h.add_content(t);
    }
    h
}
fn master_j(y: &MasterPage) -> J {
    let pg: Vec<&str> = y.pagestyle().map(|x| x.as_str()).into_iter().collect();
    let nx: Vec<&str> = y.next_masterpage().map(|x| x.as_str()).into_iter().collect();
    let dn: &str = y.display_name();
    fact("master", &same(y.name(), y.masterpage_ref().as_str()), "", "", json!([dn, pg, nx, [hf_j(y.header(), false), hf_j(y.header_first(), true), hf_j(y.header_left(), true), hf_j(y.footer(), false), hf_j(y.footer_first(), true), hf_j(y.footer_left(), true)]]), J::Null)
}
fn j_master(n: &str, t: &J) -> MasterPage {
    let mut y = MasterPage::new(n);
    y.set_display_name(s(&t[0]));
    for x in strs(&t[1]) {
        y.set_pagestyle(&PageStyleRef::from(x));
    }
    for x in strs(&t[2]) {
        y.set_next_masterpage(&MasterPageRef::from(x));
    }
    if alt(t) {
        *y.header_mut() = j_hf(&t[3][0]);
        *y.header_first_mut() = j_hf(&t[3][1]);
        *y.header_left_mut() = j_hf(&t[3][2]);
        *y.footer_mut() = j_hf(&t[3][3]);
        *y.footer_first_mut() = j_hf(&t[3][4]);
        *y.footer_left_mut() = j_hf(&t[3][5]);
        return y;
    }
    y.set_header(j_hf(&t[3][0]));
    y.set_header_first(j_hf(&t[3][1]));
    y.set_header_left(j_hf(&t[3][2]));
    y.set_footer(j_hf(&t[3][3]));
    y.set_footer_first(j_hf(&t[3][4]));
    y.set_footer_left(j_hf(&t[3][5]));
    y
}

// ---- validations ----
fn msg_text(name: &str, t: Option<&XmlTag>) -> J {
    match t {
        None => json!([]),
        Some(t) if t.name() == name => J::Array(
            t.content().iter().filter_map(|c| match c {
                XmlContent::Tag(t) => Some(tag_to_j(t)),
                XmlContent::Text(x) if x.trim().is_empty() => None,
                XmlContent::Text(x) => Some(json!(x)),
            }).collect(),
        ),
        Some(t) => json!([tag_to_j(t)]),
    }
}
fn j_msg(name: &str, j: &J) -> Option<XmlTag> {
    let l = j.as_array().unwrap();
    match l.len() {
        0 => None,
        1 => Some(j_to_tag(&l[0])),
        _ => {
            let mut t = XmlTag::new(name);
            for x in l {
                t.add_tag(j_to_tag(x));
            }
            Some(t)
        }
    }
}
fn ol(x: Option<&str>) -> Vec<&str> {
    x.into_iter().collect()
}
fn valid_j(y: &Validation) -> J {
    let d = match y.display() {
        ValidationDisplay::NoDisplay => "none",
        ValidationDisplay::Unsorted => "unsorted",
        ValidationDisplay::SortAscending => "sort-ascending",
    };
    let e: Vec<J> = y.err().map(|e| {
        let mt = match e.msg_type() {
            MessageType::Error => "stop",
            MessageType::Warning => "warning",
            MessageType::Info => "information",
        };
        json!([e.display(), mt, ol(e.title()), msg_text("table:error-message", e.text())])
    }).into_iter().collect();
    let h: Vec<J> = y.help().map(|e| json!([e.display(), ol(e.title()), msg_text("table:help-message", e.text())])).into_iter().collect();
    fact("valid", &same(y.name(), y.validation_ref().as_str()), "", "", json!([y.condition().to_string(), y.base_cell().to_string(), y.allow_empty(), d, e, h]), J::Null)
}
fn j_valid(n: &str, t: &J) -> Validation {
    let mut y = Validation::new();
    y.set_name(n);
    y.set_condition(cond(&s(&t[0])));
    y.set_base_cell(CellRef::try_from(s(&t[1]).as_str()).expect("harness: base cell"));
    y.set_allow_empty(b(&t[2]));
    y.set_display(match s(&t[3]).as_str() {
        "none" => ValidationDisplay::NoDisplay,
        "sort-ascending" => ValidationDisplay::SortAscending,
        _ => ValidationDisplay::Unsorted,
    });
    y.set_err(t[4].as_array().unwrap().first().map(|m| {
        let mut e = ValidationError::new();
        e.set_display(b(&m[0]));
        e.set_msg_type(match s(&m[1]).as_str() {
            "warning" => MessageType::Warning,
            "information" => MessageType::Info,
            _ => MessageType::Error,
        });
        e.set_title(opt_s(&m[2]));
        e.set_text(j_msg("table:error-message", &m[3]));
        e
    }));
    y.set_help(t[5].as_array().unwrap().first().map(|m| {
        let mut e = ValidationHelp::new();
        e.set_display(b(&m[0]));
        e.set_title(opt_s(&m[1]));
        e.set_text(j_msg("table:help-message", &m[2]));
        e
    }));
    y
}

// ---- files ----
fn hexs(v: &[u8]) -> String {
    v.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhexs(x: &str) -> Vec<u8> {
    (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}
fn file_j(y: &Manifest) -> J {
    let v: Vec<&str> = ol(y.version.as_deref());
    fact("file", &y.full_path, "", "", json!([y.media_type, v, hexs(y.buffer.as_deref().unwrap_or(&[]))]), J::Null)
}
fn j_file(n: &str, t: &J) -> Manifest {
    let x = s(&t[2]);
    let mut m = if x.is_empty() { Manifest::new(n, s(&t[0])) } else { Manifest::with_buf(n, s(&t[0]), unhexs(&x)) };
    m.version = opt_s(&t[1]);
    m
}

// ---- metadata ----
fn act(x: XLinkActuate) -> &'static str {
    match x {
        XLinkActuate::OnLoad => "onLoad",
        XLinkActuate::OnRequest => "onRequest",
    }
}
fn j_act(x: &str) -> XLinkActuate {
    if x == "onLoad" { XLinkActuate::OnLoad } else { XLinkActuate::OnRequest }
}
fn show(x: XLinkShow) -> &'static str {
    match x {
        XLinkShow::New => "new",
        XLinkShow::Replace => "replace",
    }
}
fn j_show(x: &str) -> XLinkShow {
    if x == "new" { XLinkShow::New } else { XLinkShow::Replace }
}
const LT: [(&str, XLinkType); 7] = [
    ("simple", XLinkType::Simple), ("extended", XLinkType::Extended), ("locator", XLinkType::Locator), ("arc", XLinkType::Arc),
    ("resource", XLinkType::Resource), ("title", XLinkType::Title), ("none", XLinkType::None),
];
fn lt(x: XLinkType) -> &'static str {
    LT.iter().find(|y| std::mem::discriminant(&y.1) == std::mem::discriminant(&x)).unwrap().0
}
fn j_lt(x: &str) -> XLinkType {
    LT.iter().find(|y| y.0 == x).expect("harness: link type").1
}
macro_rules! strf {
    ($go:ident) => {
        $go!("title", title);
        $go!("description", description);
        $go!("subject", subject);
        $go!("keyword", keyword);
        $go!("initial_creator", initial_creator);
        $go!("creator", creator);
        $go!("printed_by", printed_by);
        $go!("language", language);
    };
}
fn meta_facts(m: &Metadata, out: &mut Vec<J>) {
    macro_rules! go {
        ($n:expr, $f:ident) => {
            if !m.$f.is_empty() {
                out.push(fact("meta", $n, "", "", json!(m.$f), J::Null));
            }
        };
    }
    strf!(go);
    for (n, d) in [("creation_date", &m.creation_date), ("date", &m.date), ("print_date", &m.print_date)] {
        if let Some(d) = d {
            out.push(fact("meta", n, "", "", json!(dt_to_v(d)), J::Null));
        }
    }
    if m.editing_cycles > 0 {
        out.push(fact("meta", "editing_cycles", "", "", json!(m.editing_cycles.to_string()), J::Null));
    }
    if m.editing_duration != chrono::Duration::zero() {
        out.push(fact("meta", "editing_duration", "", "", json!(dur_to_v(&m.editing_duration)), J::Null));
    }
    let t = &m.template;
    if !t.is_empty() {
        let d: Vec<_> = t.date.iter().map(dt_to_v).collect();
        out.push(fact("meta", "template", "", "", json!([d, ol(t.actuate.map(act)), ol(t.href.as_deref()), ol(t.title.as_deref()), ol(t.link_type.map(lt))]), J::Null));
    }
    let t = &m.auto_reload;
    if !t.is_empty() {
        let d: Vec<_> = t.delay.iter().map(dur_to_v).collect();
        out.push(fact("meta", "auto_reload", "", "", json!([d, ol(t.actuate.map(act)), ol(t.href.as_deref()), ol(t.show.map(show)), ol(t.link_type.map(lt))]), J::Null));
    }
    let t = &m.hyperlink_behaviour;
    if !t.is_empty() {
        out.push(fact("meta", "hyperlink", "", "", json!([ol(t.target_frame_name.as_deref()), ol(t.show.map(show))]), J::Null));
    }
    let t = &m.document_statistics;
    if t.object_count != 0 || t.ole_object_count != 0 {
        out.push(fact("meta", "objects", "", "", json!([t.object_count.to_string(), t.ole_object_count.to_string()]), J::Null));
    }
    if t.table_count != 0 || t.cell_count != 0 {
        out.push(fact("meta", "counts", "", "", json!([t.table_count.to_string(), t.cell_count.to_string()]), J::Null));
    }
    if !m.generator.is_empty() {
        out.push(fact("meta", "generator", "", "", json!(m.generator), J::Null));
    }
    if !m.user_defined.is_empty() {
        let l: Vec<J> = m.user_defined.iter().map(|x| {
            let v = match &x.value {
                MetaValue::Boolean(v) => json!(["bool", v.to_string()]),
                MetaValue::Datetime(v) => json!(["dt", dt_to_v(v)]),
                MetaValue::Float(v) => json!(["num", hex(*v)]),
                MetaValue::TimeDuration(v) => json!(["dur", dur_to_v(v)]),
                MetaValue::String(v) => json!(["str", v]),
            };
            json!([x.name, v])
        }).collect();
        out.push(fact("meta", "user", "", "", J::Array(l), J::Null));
    }
}
fn meta_set(m: &mut Metadata, n: &str, t: Option<&J>) {
    macro_rules! go {
        ($n:expr, $f:ident) => {
            if n == $n {
                m.$f = t.map(s).unwrap_or_default();
                return;
            }
        };
    }
    strf!(go);
    let dt = |t: Option<&J>| t.map(|x| v_to_dt(&strs(x)));
    match n {
        "creation_date" => m.creation_date = dt(t),
        "date" => m.date = dt(t),
        "print_date" => m.print_date = dt(t),
        "editing_cycles" => m.editing_cycles = t.map(|x| s(x).parse().unwrap()).unwrap_or(0),
        "editing_duration" => m.editing_duration = t.map(|x| v_to_dur(&strs(x))).unwrap_or_else(chrono::Duration::zero),
        "template" => {
            m.template = MetaTemplate::default();
            if let Some(t) = t {
                m.template.date = dt(t[0].as_array().unwrap().first());
                m.template.actuate = opt_s(&t[1]).map(|x| j_act(&x));
                m.template.href = opt_s(&t[2]);
                m.template.title = opt_s(&t[3]);
                m.template.link_type = opt_s(&t[4]).map(|x| j_lt(&x));
            }
        }
        "auto_reload" => {
            m.auto_reload = MetaAutoReload::default();
            if let Some(t) = t {
                m.auto_reload.delay = t[0].as_array().unwrap().first().map(|x| v_to_dur(&strs(x)));
                m.auto_reload.actuate = opt_s(&t[1]).map(|x| j_act(&x));
                m.auto_reload.href = opt_s(&t[2]);
                m.auto_reload.show = opt_s(&t[3]).map(|x| j_show(&x));
                m.auto_reload.link_type = opt_s(&t[4]).map(|x| j_lt(&x));
            }
        }
        "hyperlink" => {
            m.hyperlink_behaviour = MetaHyperlinkBehaviour::default();
            if let Some(t) = t {
                m.hyperlink_behaviour.target_frame_name = opt_s(&t[0]);
                m.hyperlink_behaviour.show = opt_s(&t[1]).map(|x| j_show(&x));
            }
        }
        "objects" => {
            let g = |i: usize| t.map(|t| s(&t[i]).parse().unwrap()).unwrap_or(0);
            m.document_statistics.object_count = g(0);
            m.document_statistics.ole_object_count = g(1);
        }
        "user" => {
            m.user_defined.clear();
            for x in t.and_then(|x| x.as_array()).unwrap_or(&vec![]) {
                let v = &x[1][1];
                let value = match s(&x[1][0]).as_str() {
                    "bool" => MetaValue::Boolean(s(v) == "true"),
                    "dt" => MetaValue::Datetime(v_to_dt(&strs(v))),
                    "num" => MetaValue::Float(unhex(&s(v))),
                    "dur" => MetaValue::TimeDuration(v_to_dur(&strs(v))),
                    _ => MetaValue::String(s(v)),
                };
                m.user_defined.push(MetaUserDefined { name: s(&x[0]), value });
            }
        }
        _ => panic!("harness: metadata {}", n),
    }
}

// ---- scripts ----
fn scripts_fact(b: &WorkBook) -> Option<J> {
    let l: Vec<J> = b.iter_scripts().map(|x| json!([x.script_lang(), content_to_j(x.script())])).collect();
    if l.is_empty() { None } else { Some(fact("script", "", "", "", J::Array(l), J::Null)) }
}
fn listener_j(y: &EventListener) -> J {
    fact("listener", y.event_name(), "", "", json!([y.script_lang(), y.macro_name(), act(y.actuate()), y.href(), lt(y.link_type())]), J::Null)
}
fn j_listener(n: &str, t: &J) -> EventListener {
    let mut y = EventListener::new();
    y.set_event_name(n.into());
    y.set_script_lang(s(&t[0]));
    y.set_macro_name(s(&t[1]));
    y.set_actuate(j_act(&s(&t[2])));
    y.set_href(s(&t[3]));
    y.set_link_type(j_lt(&s(&t[4])));
    y
}

// ---- settings of the workbook ----
fn cfg_facts(b: &WorkBook, out: &mut Vec<J>) {
    let c = b.config();
    out.push(json!({"k": "cfg", "n": "active_table", "u": "", "o": "", "t": c.active_table, "x": ""}));
    out.push(json!({"k": "cfg", "n": "show_grid", "u": "", "o": "", "t": c.show_grid.to_string(), "x": ""}));
    out.push(json!({"k": "cfg", "n": "show_page_breaks", "u": "", "o": "", "t": c.show_page_breaks.to_string(), "x": ""}));
    out.push(json!({"k": "cfg", "n": "has_sheet_tabs", "u": "", "o": "", "t": c.has_sheet_tabs.to_string(), "x": ""}));
}

pub fn facts(b: &WorkBook) -> J {
    let mut v: Vec<J> = vec![];
    v.extend(b.iter_table_styles().map(table_j));
    v.extend(b.iter_rowstyles().map(row_j));
    v.extend(b.iter_colstyles().map(col_j));
    v.extend(b.iter_cellstyles().map(cell_j));
    v.extend(b.iter_paragraphstyles().map(par_j));
    v.extend(b.iter_textstyles().map(text_j));
    v.extend(b.iter_rubystyles().map(ruby_j));
    v.extend(b.iter_graphicstyles().map(graphic_j));
    v.extend(b.iter_boolean_formats().map(|x| fmt_j("nf:boolean", x)));
    v.extend(b.iter_number_formats().map(|x| fmt_j("nf:number", x)));
    v.extend(b.iter_percentage_formats().map(|x| fmt_j("nf:percentage", x)));
    v.extend(b.iter_currency_formats().map(|x| fmt_j("nf:currency", x)));
    v.extend(b.iter_text_formats().map(|x| fmt_j("nf:text", x)));
    v.extend(b.iter_datetime_formats().map(|x| fmt_j("nf:date", x)));
    v.extend(b.iter_timeduration_formats().map(|x| fmt_j("nf:time", x)));
    v.extend(b.iter_fonts().map(font_j));
    v.extend(b.iter_pagestyles().map(page_j));
    v.extend(b.iter_masterpages().map(master_j));
    v.extend(b.iter_validations().map(valid_j));
    v.extend(b.iter_manifest().map(file_j));
    v.extend(b.iter_event_listeners().map(listener_j));
    v.extend(scripts_fact(b));
    meta_facts(b.metadata(), &mut v);
    cfg_facts(b, &mut v);
    J::Array(v)
}
/// cell style, value format, kinds under which that format is registered
pub fn format_refs(b: &WorkBook) -> J {
    J::Array(b.iter_cellstyles().map(|y| {
        let f = y.value_format().unwrap_or_default();
        let mut k: Vec<&str> = vec![];
        for (n, x) in [
            ("nf:boolean", b.boolean_format(&f).is_some()), ("nf:number", b.number_format(&f).is_some()), ("nf:percentage", b.percentage_format(&f).is_some()),
            ("nf:currency", b.currency_format(&f).is_some()), ("nf:text", b.text_format(&f).is_some()), ("nf:date", b.datetime_format(&f).is_some()), ("nf:time", b.timeduration_format(&f).is_some()),
        ] {
            if x { k.push(n); }
        }
        json!([y.name(), f, k])
    }).collect())
}
pub fn base_facts() -> J {
    facts(&WorkBook::default())
}

/// what: put / del / get / mod.  Answer: put -> name; del, get -> [fact] or []; mod -> [fact before] or []
fn reg(b: &mut WorkBook, what: &str, a: &J) -> J {
    let (k, n, uu, o) = (s(&a["k"]), s(&a["n"]), a["u"].as_str().unwrap_or("").to_string(), a["o"].as_str().unwrap_or("").to_string());
    let t = a.get("t").and_then(|x| x.as_str()).map(jt).unwrap_or(J::Null);
    let x = a.get("x").and_then(|x| x.as_str()).filter(|x| !x.is_empty()).map(jt).unwrap_or(J::Null);
    let n = n.as_str();
    let li = |x: Option<J>| x.into_iter().collect::<J>();
    macro_rules! kind {
        ($to:expr, $from:expr, $add:ident, $rm:ident, $get:ident, $getm:ident, $ref:expr) => {
            match what {
                "put" => {
                    let y = $from;
                    #[allow(clippy::redundant_closure_call)]
                    let r: String = $ref(b.$add(y), n);
                    json!(r)
                }
                "del" => li(b.$rm(n).map(|y| $to(&y))),
                "get" => li(b.$get(n).map(|y| $to(y))),
                "mod" => {
                    let y = $from;
                    li(b.$getm(n).map(|z| {
                        let old = $to(z);
                        *z = y;
                        old
                    }))
                }
                _ => panic!("harness: reg"),
            }
        };
    }
    match k.as_str() {
        "st:table" => kind!(table_j, j_table(n, &uu, &o, &t, &x), add_tablestyle, remove_tablestyle, tablestyle, tablestyle_mut, |r: TableStyleRef, _n: &str| r.as_str().to_string()),
        "st:row" => kind!(row_j, j_row(n, &uu, &o, &t, &x), add_rowstyle, remove_rowstyle, rowstyle, rowstyle_mut, |r: RowStyleRef, _n: &str| r.as_str().to_string()),
        "st:col" => kind!(col_j, j_col(n, &uu, &o, &t, &x), add_colstyle, remove_colstyle, colstyle, colstyle_mut, |r: ColStyleRef, _n: &str| r.as_str().to_string()),
        "st:cell" => kind!(cell_j, j_cell(n, &uu, &o, &t, &x), add_cellstyle, remove_cellstyle, cellstyle, cellstyle_mut, |r: CellStyleRef, _n: &str| r.as_str().to_string()),
        "st:paragraph" => kind!(par_j, j_par(n, &uu, &o, &t, &x), add_paragraphstyle, remove_paragraphstyle, paragraphstyle, paragraphstyle_mut, |r: ParagraphStyleRef, _n: &str| r.as_str().to_string()),
        "st:text" => kind!(text_j, j_text(n, &uu, &o, &t, &x), add_textstyle, remove_textstyle, textstyle, textstyle_mut, |r: TextStyleRef, _n: &str| r.as_str().to_string()),
        "st:ruby" => kind!(ruby_j, j_ruby(n, &uu, &o, &t, &x), add_rubystyle, remove_rubystyle, rubystyle, rubystyle_mut, |r: RubyStyleRef, _n: &str| r.as_str().to_string()),
        "st:graphic" => kind!(graphic_j, j_graphic(n, &uu, &o, &t, &x), add_graphicstyle, remove_graphicstyle, graphicstyle, graphicstyle_mut, |r: GraphicStyleRef, _n: &str| r.as_str().to_string()),
        "nf:boolean" => kind!(|y: &ValueFormatBoolean| fmt_j("nf:boolean", y), fmt_fill(ValueFormatBoolean::new_named(n), &uu, &o, &t), add_boolean_format, remove_boolean_format, boolean_format, boolean_format_mut, |r: ValueFormatRef, _n: &str| r.as_str().to_string()),
        "nf:number" => kind!(|y: &ValueFormatNumber| fmt_j("nf:number", y), fmt_fill(ValueFormatNumber::new_named(n), &uu, &o, &t), add_number_format, remove_number_format, number_format, number_format_mut, |r: ValueFormatRef, _n: &str| r.as_str().to_string()),
        "nf:percentage" => kind!(|y: &ValueFormatPercentage| fmt_j("nf:percentage", y), fmt_fill(ValueFormatPercentage::new_named(n), &uu, &o, &t), add_percentage_format, remove_percentage_format, percentage_format, percentage_format_mut, |r: ValueFormatRef, _n: &str| r.as_str().to_string()),
        "nf:currency" => kind!(|y: &ValueFormatCurrency| fmt_j("nf:currency", y), fmt_fill(ValueFormatCurrency::new_named(n), &uu, &o, &t), add_currency_format, remove_currency_format, currency_format, currency_format_mut, |r: ValueFormatRef, _n: &str| r.as_str().to_string()),
        "nf:text" => kind!(|y: &ValueFormatText| fmt_j("nf:text", y), fmt_fill(ValueFormatText::new_named(n), &uu, &o, &t), add_text_format, remove_text_format, text_format, text_format_mut, |r: ValueFormatRef, _n: &str| r.as_str().to_string()),
        "nf:date" => kind!(|y: &ValueFormatDateTime| fmt_j("nf:date", y), fmt_fill(ValueFormatDateTime::new_named(n), &uu, &o, &t), add_datetime_format, remove_datetime_format, datetime_format, datetime_format_mut, |r: ValueFormatRef, _n: &str| r.as_str().to_string()),
        "nf:time" => kind!(|y: &ValueFormatTimeDuration| fmt_j("nf:time", y), fmt_fill(ValueFormatTimeDuration::new_named(n), &uu, &o, &t), add_timeduration_format, remove_timeduration_format, timeduration_format, timeduration_format_mut, |r: ValueFormatRef, _n: &str| r.as_str().to_string()),
        "page" => kind!(page_j, j_page(n, &t), add_pagestyle, remove_pagestyle, pagestyle, pagestyle_mut, |r: PageStyleRef, _n: &str| r.as_str().to_string()),
        "master" => kind!(master_j, j_master(n, &t), add_masterpage, remove_masterpage, masterpage, masterpage_mut, |r: MasterPageRef, _n: &str| r.as_str().to_string()),
        "valid" => kind!(valid_j, j_valid(n, &t), add_validation, remove_validation, validation, validation_mut, |r: ValidationRef, _n: &str| r.as_str().to_string()),
        "font" => kind!(font_j, j_font(n, &o, &t), add_font, remove_font, font, font_mut, |_r: (), n: &str| n.to_string()),
        "file" => kind!(file_j, j_file(n, &t), add_manifest, remove_manifest, manifest, manifest_mut, |_r: (), n: &str| n.to_string()),
        "listener" => kind!(listener_j, j_listener(n, &t), add_event_listener, remove_event_listener, event_listener, event_listener_mut, |_r: (), n: &str| n.to_string()),
        _ => panic!("harness: kind {}", k),
    }
}
/// single fields: metadata, settings, scripts
fn set_field(b: &mut WorkBook, a: &J) -> J {
    let (k, n) = (s(&a["k"]), s(&a["n"]));
    let t = a.get("t").and_then(|x| x.as_str()).filter(|x| !x.is_empty() && k != "cfg").map(jt);
    match k.as_str() {
        "meta" => meta_set(b.metadata_mut(), &n, t.as_ref()),
        "cfg" => {
            let t = a["t"].clone();
            let c = b.config_mut();
            match n.as_str() {
                "active_table" => c.active_table = s(&t),
                "show_grid" => c.show_grid = s(&t) == "true",
                "show_page_breaks" => c.show_page_breaks = s(&t) == "true",
                "has_sheet_tabs" => c.has_sheet_tabs = s(&t) == "true",
                _ => panic!("harness: cfg"),
            }
        }
        "script" => {
            b.scripts_mut().clear();
            for x in t.as_ref().and_then(|x| x.as_array()).unwrap_or(&vec![]) {
                let mut y = Script::new();
                y.set_script_lang(s(&x[0]));
                y.set_script(x[1].as_array().unwrap().iter().map(|c| match c {
                    J::String(x) => XmlContent::Text(x.clone()),
                    x => XmlContent::Tag(j_to_tag(x)),
                }).collect());
                b.add_script(y);
            }
        }
        _ => panic!("harness: field"),
    }
    json!(true)
}

pub fn reg_op(st: &mut St, op: &str, a: &J) -> Option<Result<J, String>> {
    Some(match op {
        "add_styles" => {
            let b = crate::bk(st, a);
            let mut v = vec![];
            for l in a["l"].as_array().expect("harness: list") {
                let x = s(&l[1]);
                let r = match s(&l[0]).as_str() {
                    "row" => b.add_rowstyle(RowStyle::new(x)).as_str().to_string(),
                    "col" => b.add_colstyle(ColStyle::new(x)).as_str().to_string(),
                    "cell" => b.add_cellstyle(CellStyle::new(x, &"".into())).as_str().to_string(),
                    "table" => b.add_tablestyle(TableStyle::new(x)).as_str().to_string(),
                    _ => panic!("harness: family"),
                };
                v.push(json!([l[0], r]));
            }
            Ok(J::Array(v))
        }
        "reg_put" => Ok(reg(crate::bk(st, a), "put", a)),
        "reg_del" => Ok(reg(crate::bk(st, a), "del", a)),
        "reg_get" => Ok(reg(crate::bk(st, a), "get", a)),
        "reg_mod" => Ok(reg(crate::bk(st, a), "mod", a)),
        "set_field" => Ok(set_field(crate::bk(st, a), a)),
        "cond" => Ok(json!(cond_text(&a["c"]))),
        _ => return None,
    })
}
