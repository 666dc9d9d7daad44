//! Typed setters, format builders and ready-made formats: executes the calls and reports all attribute maps.
use crate::val::s;
use icu_locale_core::{LanguageIdentifier, Locale};
use serde_json::{json, Value as J};
use spreadsheet_ods::color::Rgb;
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawImage};
use spreadsheet_ods::format::*;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::units::*;
use spreadsheet_ods::style::*;
use spreadsheet_ods::text::*;
use spreadsheet_ods::xlink::*;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};

macro_rules! build_tag {
    ($t:ty, $ops:expr) => {{
        let mut o = if $ops.len() % 2 == 0 { <$t>::new() } else { <$t>::default() };
        for (k, x) in $ops {
            o = if k == "t" { o.text(x.as_str()) } else { o.tag(texttag(x, &[("t".to_string(), "in".to_string())])) };
        }
        if $ops.len() % 3 == 0 { XmlTag::from(o) } else { o.into_xmltag() }
    }};
}
fn c_length(a: &[String]) -> Length {
    if a[0] == "Default" {
        return Length::Default;
    }
    let v: f64 = a[1].parse().unwrap();
    match a[0].as_str() {
        "Cm" => Length::Cm(v),
        "Mm" => Length::Mm(v),
        "In" => Length::In(v),
        "Pt" => Length::Pt(v),
        "Pc" => Length::Pc(v),
        "Em" => Length::Em(v),
        x => panic!("harness: unit {x}"),
    }
}
fn c_percent(a: &[String]) -> Percent {
    Percent::Percent(a[0].parse().unwrap())
}
fn c_angle(a: &[String]) -> Angle {
    let v: f64 = a[1].parse().unwrap();
    match a[0].as_str() {
        "Deg" => Angle::Deg(v),
        "Grad" => Angle::Grad(v),
        "Rad" => Angle::Rad(v),
        x => panic!("harness: unit {x}"),
    }
}
fn c_rgb(a: &[String]) -> Rgb<u8> {
    let h = |i: usize| u8::from_str_radix(&a[i], 16).unwrap();
    Rgb::new(h(0), h(1), h(2))
}
fn c_locale(a: &[String]) -> Locale {
    Locale::from(LanguageIdentifier::from((
        a[0].parse().unwrap(),
        (!a[1].is_empty()).then(|| a[1].parse().unwrap()),
        (!a[2].is_empty()).then(|| a[2].parse().unwrap()),
    )))
}
const LISTS: [&str; 4] = ["style:print", "draw:class-names", "draw:transform", "text:class-names"];
macro_rules! put_ {
    ($m:expr, $p:expr, $a:expr) => {
        for (n, v) in $a.iter() {
            let n: &str = n.as_ref();
            let mut v: String = v.to_string();
            if LISTS.contains(&n) {
                v = v.split_whitespace().collect::<Vec<_>>().join(" ");
            }
            $m.push(($p.to_string(), n.to_string(), v));
        }
    };
}
fn g_loc(l: Option<Locale>) -> Vec<String> {
    match l {
        None => vec!["".into(); 3],
        Some(l) => vec![l.id.language.to_string(), l.id.script.map(|x| x.to_string()).unwrap_or_default(), l.id.region.map(|x| x.to_string()).unwrap_or_default()],
    }
}
fn g_str(x: Option<&str>) -> Vec<String> {
    vec![x.unwrap_or("").to_string()]
}
fn g_opt<T: ToString>(x: Option<T>) -> Vec<String> {
    vec![x.map(|x| x.to_string()).unwrap_or_default()]
}
fn g_res<T: ToString, E: std::fmt::Debug>(x: Result<Option<T>, E>) -> Vec<String> {
    g_opt(x.unwrap())
}
fn g_len<E: std::fmt::Debug>(x: Result<Length, E>) -> Vec<String> {
    vec![x.unwrap().to_string()]
}
fn g_flag<E: std::fmt::Debug>(x: Result<bool, E>) -> Vec<String> {
    vec![x.unwrap().to_string()]
}
fn fm<T: ValueFormatTrait>(o: &T) -> J {
    let at = |p: &FormatPart| -> Vec<[String; 2]> {
        crate::reg::PATTR.iter().filter(|n| p.attr_def(n, "\u{1}") != "\u{1}").map(|n| [n.to_string(), p.attr_def(n, "\u{1}").to_string()]).collect()
    };
    let parts: Vec<J> = o
        .parts()
        .iter()
        .map(|p| {
            let el = crate::reg::PARTS.iter().find(|x| x.1 == p.part_type()).expect("harness: part").0;
            json!([el, at(p), p.content().into_iter().collect::<Vec<_>>(), p.position().map(|x| x.to_string()).into_iter().collect::<Vec<_>>()])
        })
        .collect();
    let mut m = vec![];
    put_!(m, "attr", o.attrmap());
    put_!(m, "textstyle", o.textstyle());
    json!({"m": m, "parts": parts})
}
include!("setters.in.rs");

fn strs(j: &J) -> Vec<Vec<String>> {
    j.as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(s).collect()).collect()
}
fn calls(j: &J) -> Vec<(String, Vec<Vec<String>>)> {
    j.as_array().unwrap().iter().map(|x| (s(&x[0]), strs(&x[1]))).collect()
}
fn toks(t: &XmlTag, l: &mut Vec<(String, String)>) {
    l.push(("<".into(), t.name().to_string()));
    for (k, v) in t.attrmap().iter() {
        l.push((k.to_string(), v.to_string()));
    }
    for c in t.content() {
        match c {
            XmlContent::Text(x) => l.push(("t".into(), x.clone())),
            XmlContent::Tag(x) => toks(x, l),
        }
    }
    l.push((">".into(), "".into()));
}
/// the default formats and cell styles of a workbook made for a locale, by role
fn locale_book(l: &Locale) -> J {
    use spreadsheet_ods::defaultstyles::{DefaultFormat as F, DefaultStyle as S};
    use spreadsheet_ods::{ValueType as V, WorkBook};
    let b = WorkBook::new(l.clone());
    let o = |x: Option<J>| x.into_iter().collect::<Vec<_>>();
    let roles = vec![
        ("bool", o(b.boolean_format(F::bool().as_str()).map(fm)), F::bool(), S::bool(), Some(V::Boolean)),
        ("number", o(b.number_format(F::number().as_str()).map(fm)), F::number(), S::number(), Some(V::Number)),
        ("percent", o(b.percentage_format(F::percent().as_str()).map(fm)), F::percent(), S::percent(), Some(V::Percentage)),
        ("currency", o(b.currency_format(F::currency().as_str()).map(fm)), F::currency(), S::currency(), Some(V::Currency)),
        ("date", o(b.datetime_format(F::date().as_str()).map(fm)), F::date(), S::date(), Some(V::DateTime)),
        ("datetime", o(b.datetime_format(F::datetime().as_str()).map(fm)), F::datetime(), S::datetime(), None),
        ("time", o(b.datetime_format(F::time_of_day().as_str()).map(fm)), F::time_of_day(), S::time_of_day(), None),
        ("interval", o(b.timeduration_format(F::time_interval().as_str()).map(fm)), F::time_interval(), S::time_interval(), Some(V::TimeDuration)),
    ];
    let l: Vec<J> = roles
        .into_iter()
        .map(|(r, f, n, s, v)| {
            let used = b.cellstyle(s.as_str()).map(|x| x.value_format().map(|x| x.to_string()).unwrap_or_default()).into_iter().collect::<Vec<_>>();
            let def = match v {
                Some(v) => b.def_style(v).map(|x| x.as_str().to_string()).into_iter().collect::<Vec<_>>(),
                None => vec![s.as_str().to_string()],
            };
            json!({"role": r, "fmt": f, "name": n.as_str(), "style": s.as_str(), "used": used, "def": def})
        })
        .collect();
    json!(l)
}
pub fn exec(op: &str, a: &J) -> Option<Result<J, String>> {
    Some(match op {
        "setters" => {
            let (m, g) = setters(&s(&a["k"]), &calls(&a["calls"]));
            Ok(json!({"m": m, "g": g}))
        }
        "format" => {
            let p: Vec<_> = a["parts"].as_array().unwrap().iter().map(|x| (s(&x[0]), calls(&x[1]))).collect();
            Ok(format(&s(&a["k"]), &p))
        }
        "locale" => Ok(locale_book(&c_locale(&strs(&json!([a["l"]]))[0]))),
        "texttag" => {
            let ops: Vec<_> = a["ops"].as_array().unwrap().iter().map(|x| (s(&x[0]), s(&x[1]))).collect();
            let mut l = vec![];
            toks(&texttag(&s(&a["t"]), &ops), &mut l);
            Ok(json!(l))
        }
        "ready" => Ok(ready(&s(&a["f"]), &strs(&a["a"]))),
        _ => return None,
    })
}
