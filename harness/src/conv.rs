//! Conversions into cell values and typed access to them.
use crate::val::{dt_to_v, dur_to_v, s, strs, v_to_dt, v_to_dur};
use chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, NaiveTime};
use rust_decimal::Decimal;
use serde_json::{json, Value as J};
use spreadsheet_ods::text::TextTag;
use spreadsheet_ods::xmltree::XmlTag;
use spreadsheet_ods::{currency, percent, Value, ValueType};
use std::str::FromStr;

/// the exact decimal expansion
fn exact(f: f64) -> String {
    if f.is_nan() {
        return "nan".into();
    }
    if f.is_infinite() {
        return if f > 0.0 { "inf" } else { "-inf" }.into();
    }
    let t = format!("{:.1080}", f);
    let t = t.trim_end_matches('0').trim_end_matches('.');
    t.to_string()
}
fn dec(d: Decimal) -> String {
    d.normalize().to_string()
}
fn ymd(d: NaiveDate) -> Vec<String> {
    vec![d.year().to_string(), format!("{:02}", d.month()), format!("{:02}", d.day())]
}
fn v_to_date(v: &[String]) -> NaiveDate {
    NaiveDate::from_ymd_opt(v[0].parse().unwrap(), v[1].parse().unwrap(), v[2].parse().unwrap()).expect("harness: date")
}
fn v_to_time(v: &[String]) -> NaiveTime {
    NaiveTime::from_hms_nano_opt(v[0].parse().unwrap(), v[1].parse().unwrap(), v[2].parse().unwrap(), v[3].parse().unwrap()).expect("harness: time")
}
/// tokens <"<", name>, <"t", text>, <">", "">
fn tag(toks: &J) -> TextTag {
    let mut st: Vec<XmlTag> = vec![];
    for t in toks.as_array().unwrap() {
        match s(&t[0]).as_str() {
            "<" => st.push(XmlTag::new(s(&t[1]))),
            "t" => st.last_mut().unwrap().add_text(s(&t[1])),
            _ => {
                let x = st.pop().unwrap();
                match st.last_mut() {
                    Some(p) => p.add_tag(x),
                    None => return x,
                }
            }
        }
    }
    panic!("harness: tokens")
}
macro_rules! num {
    ($t:ty, $form:expr, $x:expr) => {{
        let n: Option<$t> = $x.first().map(|x| <$t>::from_str(x).expect("harness: number"));
        match $form {
            "plain" => Value::from(n.unwrap()),
            "ref" => Value::from(&n.unwrap()),
            "opt" => Value::from(n),
            "optref" => Value::from(n.as_ref()),
            f => panic!("harness: form {f}"),
        }
    }};
}
macro_rules! two {
    ($form:expr, $n:expr) => {{
        let n = $n;
        match $form {
            "plain" => Value::from(n.unwrap()),
            "opt" => Value::from(n),
            f => panic!("harness: form {f}"),
        }
    }};
}
fn build(t: &str, form: &str, x: &[String], toks: &J) -> Value {
    let some = !x.is_empty();
    match t {
        "f64" => num!(f64, form, x),
        "f32" => num!(f32, form, x),
        "i64" => num!(i64, form, x),
        "i32" => num!(i32, form, x),
        "i16" => num!(i16, form, x),
        "i8" => num!(i8, form, x),
        "u64" => num!(u64, form, x),
        "u32" => num!(u32, form, x),
        "u16" => num!(u16, form, x),
        "u8" => num!(u8, form, x),
        "decimal" => two!(form, some.then(|| Decimal::from_str(&x[0]).expect("harness: decimal"))),
        "bool" => two!(form, some.then(|| x[0] == "true")),
        "unit" => Value::from(()),
        "str" => two!(form, some.then(|| x[0].as_str())),
        "string" => two!(form, some.then(|| x[0].clone())),
        "stringref" => two!(form, some.then(|| &x[0])),
        "tag" => Value::from(tag(&toks[0])),
        "tags" => Value::from(toks.as_array().unwrap().iter().map(tag).collect::<Vec<_>>()),
        "dt" => two!(form, some.then(|| v_to_dt(x))),
        "date" => two!(form, some.then(|| v_to_date(x))),
        "time" => two!(form, some.then(|| v_to_time(x))),
        "dur" => two!(form, some.then(|| v_to_dur(x))),
        "pct" => {
            let v: f64 = x[0].parse().unwrap();
            if form == "macro" { percent!(v) } else { Value::new_percentage(v) }
        }
        "cur" => {
            let v: f64 = x[0].parse().unwrap();
            if form == "macro" { currency!(&x[1], v) } else { Value::new_currency(&x[1], v) }
        }
        "default" => Value::default(),
        t => panic!("harness: type {t}"),
    }
}
fn st(x: impl ToString) -> Vec<String> {
    vec![x.to_string()]
}
/// every typed access: with an alternative of the caller's, with the type's default, optional
fn access(v: &Value, d: &J) -> J {
    let ds = |k: &str| s(&d[k]);
    let n = |k: &str| -> f64 { ds(k).parse().unwrap() };
    macro_rules! ints {
        ($($t:ident $or:ident $def:ident $opt:ident),*) => { vec![$((stringify!($t),
            vec![st(v.$or(ds("int").parse::<$t>().unwrap())), st(v.$def()), v.$opt().map(st).unwrap_or_default()])),*] };
    }
    let mut r: Vec<(&str, Vec<Vec<String>>)> = ints!(i64 as_i64_or as_i64_or_default as_i64_opt, u64 as_u64_or as_u64_or_default as_u64_opt,
        i32 as_i32_or as_i32_or_default as_i32_opt, u32 as_u32_or as_u32_or_default as_u32_opt, i16 as_i16_or as_i16_or_default as_i16_opt,
        u16 as_u16_or as_u16_or_default as_u16_opt, i8 as_i8_or as_i8_or_default as_i8_opt, u8 as_u8_or as_u8_or_default as_u8_opt);
    r.push(("f64", vec![st(exact(v.as_f64_or(n("f64")))), st(exact(v.as_f64_or_default())), v.as_f64_opt().map(|x| st(exact(x))).unwrap_or_default()]));
    let dd = Decimal::from_str(&ds("decimal")).unwrap();
    r.push(("decimal", vec![st(dec(v.as_decimal_or(dd))), st(dec(v.as_decimal_or_default())), v.as_decimal_opt().map(|x| st(dec(x))).unwrap_or_default()]));
    r.push(("bool", vec![st(v.as_bool_or(true)), st(v.as_bool_or(false)), vec![]]));
    r.push(("str", vec![st(v.as_str_or(&ds("str"))), st(v.as_str_or_default()), v.as_str_opt().map(st).unwrap_or_default()]));
    r.push(("string", vec![st(v.as_cow_str_or(&ds("str"))), st(v.as_string_or_default()), v.as_string_opt().map(st).unwrap_or_default()]));
    let (ddt, ddu): (NaiveDateTime, Duration) = (v_to_dt(&strs(&d["dt"])), v_to_dur(&strs(&d["dur"])));
    r.push(("dt", vec![dt_to_v(&v.as_datetime_or(ddt)), dt_to_v(&v.as_datetime_or_default()), v.as_datetime_opt().map(|x| dt_to_v(&x)).unwrap_or_default()]));
    r.push(("date", vec![ymd(v.as_date_or(ddt.date())), ymd(v.as_date_or_default()), v.as_date_opt().map(ymd).unwrap_or_default()]));
    r.push(("dur", vec![dur_to_v(&v.as_timeduration_or(ddu)), dur_to_v(&v.as_timeduration_or_default()), v.as_timeduration_opt().map(|x| dur_to_v(&x)).unwrap_or_default()]));
    r.push(("currency", vec![st(v.currency()), vec![], vec![]]));
    let ty = match v.value_type() {
        ValueType::Empty => "empty",
        ValueType::Boolean => "bool",
        ValueType::Number => "num",
        ValueType::Percentage => "pct",
        ValueType::Currency => "cur",
        ValueType::Text => "text",
        ValueType::TextXml => "xml",
        ValueType::DateTime => "dt",
        ValueType::TimeDuration => "dur",
    };
    r.push(("type", vec![st(ty), vec![], vec![]]));
    json!(r)
}
pub fn conv(a: &J) -> J {
    let x = strs(&a["x"]);
    let v = build(&s(&a["t"]), &s(&a["form"]), &x, &a["toks"]);
    // the same value stored in a sheet and read back through every access path
    let mut sh = spreadsheet_ods::Sheet::new("s");
    sh.set_value(3, 2, v.clone());
    let same = |w: &Value| *w == v || access(w, &a["d"]) == access(&v, &a["d"]);
    let stored = same(sh.value(3, 2)) && sh.cell(3, 2).map(|c| same(c.value())).unwrap_or(false) && sh.cell_ref(3, 2).map(|c| same(c.value())).unwrap_or(false);
    json!({"g": access(&v, &a["d"]), "stored": stored.to_string()})
}
