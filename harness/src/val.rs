//! JSON encoding of cell values and generic XML trees (the vocabulary of the specification).
use chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, Timelike};
use serde_json::{json, Value as J};
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
use spreadsheet_ods::text::TextTag;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::{Length, Value};

pub fn s(j: &J) -> String {
    match j {
        J::String(s) => s.clone(),
        J::Number(n) => n.to_string(),
        J::Bool(b) => b.to_string(),
        _ => panic!("harness: string expected, got {}", j),
    }
}
pub fn strs(j: &J) -> Vec<String> {
    j.as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default()
}
pub fn u(j: &J) -> u32 {
    match j {
        J::String(s) => s.parse().expect("harness: u32"),
        _ => j.as_u64().unwrap_or_else(|| panic!("harness: u32 expected {}", j)) as u32,
    }
}
pub fn b(j: &J) -> bool {
    j.as_bool().expect("harness: bool")
}
pub fn opt_s(j: &J) -> Option<String> {
    // options are encoded as [] / [x]
    j.as_array().and_then(|a| a.first()).map(s)
}

// ---- trees: ["name",[["k","v"],..],[child,..]] ----
pub fn tag_to_j(t: &XmlTag) -> J {
    let mut at: Vec<(String, String)> = t.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    at.sort();
    let mut ch: Vec<J> = Vec::new();
    for c in t.content() {
        match c {
            XmlContent::Text(x) => {
                if x.is_empty() {
                    continue;
                }
                if let Some(J::String(last)) = ch.last_mut() {
                    last.push_str(x);
                } else {
                    ch.push(J::String(x.clone()))
                }
            }
            XmlContent::Tag(x) => ch.push(tag_to_j(x)),
        }
    }
    json!([t.name(), at.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), ch])
}
pub fn content_to_j(c: &[XmlContent]) -> J {
    let mut t = XmlTag::new("x");
    *t.content_mut() = c.to_vec();
    tag_to_j(&t)[2].clone()
}
pub fn tag_to_s(t: &XmlTag) -> String {
    tag_to_j(t).to_string()
}
pub fn j_to_tag(j: &J) -> XmlTag {
    let j2;
    let j = if let J::String(x) = j {
        j2 = serde_json::from_str::<J>(x).expect("harness: tree json");
        &j2
    } else {
        j
    };
    let a = j.as_array().expect("harness: tree");
    let mut t = XmlTag::new(s(&a[0]));
    for kv in a[1].as_array().unwrap() {
        let k = s(&kv[0]);
        t.set_attr(k.as_str(), s(&kv[1]));
    }
    for c in a[2].as_array().unwrap() {
        match c {
            J::String(x) => t.add_text(x.clone()),
            x => t.add_tag(j_to_tag(x)),
        }
    }
    t
}

// ---- values ----
pub fn hex(f: f64) -> String {
    if f.is_nan() { "nan".into() } else { format!("{:016x}", f.to_bits()) }
}
pub fn unhex(x: &str) -> f64 {
    if x == "nan" { f64::NAN } else { f64::from_bits(u64::from_str_radix(x, 16).expect("harness: hex")) }
}
pub fn dt_to_v(d: &NaiveDateTime) -> Vec<String> {
    vec![
        d.year().to_string(),
        format!("{:02}", d.month()),
        format!("{:02}", d.day()),
        format!("{:02}", d.hour()),
        format!("{:02}", d.minute()),
        format!("{:02}", d.second()),
        format!("{:09}", d.nanosecond()),
    ]
}
pub fn v_to_dt(v: &[String]) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(v[0].parse().unwrap(), v[1].parse().unwrap(), v[2].parse().unwrap())
        .expect("harness: date")
        .and_hms_nano_opt(v[3].parse().unwrap(), v[4].parse().unwrap(), v[5].parse().unwrap(), v[6].parse().unwrap())
        .expect("harness: time")
}
pub fn dur_to_v(d: &Duration) -> Vec<String> {
    let neg = *d < Duration::zero();
    // num_seconds truncates towards zero, subsec_nanos has the sign of the duration
    let secs = d.num_seconds().unsigned_abs();
    let ns = d.subsec_nanos().unsigned_abs();
    vec![
        (if neg { "-" } else { "+" }).to_string(),
        (secs / 3600).to_string(),
        format!("{:02}", secs / 60 % 60),
        format!("{:02}", secs % 60),
        format!("{:09}", ns),
    ]
}
pub fn v_to_dur(v: &[String]) -> Duration {
    let secs: i64 = v[1].parse::<i64>().unwrap() * 3600 + v[2].parse::<i64>().unwrap() * 60 + v[3].parse::<i64>().unwrap();
    let ns: i64 = v[4].parse().unwrap();
    let d = Duration::seconds(secs) + Duration::nanoseconds(ns);
    if v[0] == "-" { -d } else { d }
}
pub fn val_to_j(v: &Value) -> J {
    let (k, v): (&str, Vec<String>) = match v {
        Value::Empty => ("empty", vec![]),
        Value::Boolean(x) => ("bool", vec![x.to_string()]),
        Value::Number(x) => ("num", vec![hex(*x)]),
        Value::Percentage(x) => ("pct", vec![hex(*x)]),
        Value::Currency(x, c) => ("cur", vec![hex(*x), c.to_string()]),
        Value::Text(x) => ("text", x.split('\n').map(|x| x.to_string()).collect()),
        Value::TextXml(x) => tags_to_kv(x),
        Value::DateTime(x) => ("dt", dt_to_v(x)),
        Value::TimeDuration(x) => ("dur", dur_to_v(x)),
    };
    json!({"k": k, "v": v})
}
fn plain_p(t: &TextTag) -> Option<String> {
    if t.name() == "text:p" && t.attrmap().is_empty() && t.content().iter().all(|c| matches!(c, XmlContent::Text(_))) {
        let mut b = String::new();
        t.extract_text(&mut b);
        Some(b)
    } else {
        None
    }
}
fn tags_to_kv(x: &[TextTag]) -> (&'static str, Vec<String>) {
    // one plain paragraph per line is the same content as a multi-line text
    let pl: Option<Vec<String>> = x.iter().map(plain_p).collect();
    match pl {
        Some(p) if !p.is_empty() => ("text", p),
        _ => ("xml", x.iter().map(tag_to_s).collect()),
    }
}
pub fn j_to_val(j: &J) -> Value {
    let v = strs(&j["v"]);
    match s(&j["k"]).as_str() {
        "empty" => Value::Empty,
        "bool" => Value::Boolean(v[0] == "true"),
        "num" => Value::Number(unhex(&v[0])),
        "pct" => Value::Percentage(unhex(&v[0])),
        "cur" => Value::Currency(unhex(&v[0]), v[1].clone().into_boxed_str()),
        "text" => Value::Text(v.join("\n")),
        "xml" => Value::TextXml(v.iter().map(|x| j_to_tag(&J::String(x.clone()))).collect()),
        "dt" => Value::DateTime(v_to_dt(&v)),
        "dur" => Value::TimeDuration(v_to_dur(&v)),
        k => panic!("harness: value kind {}", k),
    }
}

// ---- lengths ----
pub fn len_to_s(l: &Length) -> String {
    match l {
        Length::Default => String::new(),
        Length::Cm(x) => format!("{}cm", x),
        Length::Mm(x) => format!("{}mm", x),
        Length::In(x) => format!("{}in", x),
        Length::Pt(x) => format!("{}pt", x),
        Length::Pc(x) => format!("{}pc", x),
        Length::Em(x) => format!("{}em", x),
    }
}
pub fn s_to_len(x: &str) -> Length {
    if x.is_empty() {
        return Length::Default;
    }
    let (n, un) = x.split_at(x.len() - 2);
    let n: f64 = n.parse().expect("harness: length");
    match un {
        "cm" => Length::Cm(n),
        "mm" => Length::Mm(n),
        "in" => Length::In(n),
        "pt" => Length::Pt(n),
        "pc" => Length::Pc(n),
        "em" => Length::Em(n),
        _ => panic!("harness: length unit"),
    }
}

// ---- annotations: {name,disp,creator:[],date:[],text:[tree],attr:[[k,v]]} as one canonical string ----
fn attrs_sorted<'a>(it: impl Iterator<Item = (&'a str, &'a str)>) -> Vec<J> {
    let mut v: Vec<(String, String)> = it.map(|(k, v)| (k.to_string(), v.to_string())).collect();
    v.sort();
    v.iter().map(|(k, v)| json!([k, v])).collect()
}
pub fn ann_to_s(a: &Annotation) -> String {
    json!([
        a.name(),
        a.display(),
        a.creator().map(|x| vec![x.clone()]).unwrap_or_default(),
        a.date().map(dt_to_v).unwrap_or_default(),
        a.text().iter().map(tag_to_j).collect::<Vec<_>>(),
        attrs_sorted(a.attrmap().iter().map(|(k, v)| (AsRef::<str>::as_ref(k), v))),
    ])
    .to_string()
}
pub fn j_to_ann(j: &J) -> Annotation {
    let j: J = serde_json::from_str(&s(j)).expect("harness: ann");
    let mut a = Annotation::new_empty();
    a.set_name(s(&j[0]));
    a.set_display(b(&j[1]));
    if let Some(c) = opt_s(&j[2]) {
        a.set_creator(Some(c));
    }
    let d = strs(&j[3]);
    if !d.is_empty() {
        a.set_date(Some(v_to_dt(&d)));
    }
    for t in j[4].as_array().unwrap() {
        a.push_text(j_to_tag(t));
    }
    for kv in j[5].as_array().unwrap() {
        a.attrmap_mut().set_attr(&s(&kv[0]), s(&kv[1]));
    }
    a
}
// ---- frames: [title[],desc[],attrs,[image: [attrs,base64[],[text trees]]]] ----
pub fn frame_to_s(f: &DrawFrame) -> String {
    let imgs: Vec<J> = f
        .content_ref()
        .iter()
        .map(|c| match c {
            DrawFrameContent::Image(i) => json!([
                attrs_sorted(i.attrmap().iter().map(|(k, v)| (AsRef::<str>::as_ref(k), v))),
                i.get_binary_base64().map(|x| vec![x.split_whitespace().collect::<String>()]).unwrap_or_default(),
                i.get_text().iter().map(tag_to_j).collect::<Vec<_>>(),
            ]),
        })
        .collect();
    json!([
        f.title().map(|x| vec![x.clone()]).unwrap_or_default(),
        f.desc().map(|x| vec![x.clone()]).unwrap_or_default(),
        attrs_sorted(f.attrmap().iter().map(|(k, v)| (AsRef::<str>::as_ref(k), v))),
        imgs
    ])
    .to_string()
}
/// Chooses between two calls that mean the same, by the arguments only.
pub fn alt(j: &J) -> bool {
    j.to_string().len() % 2 == 1
}
pub fn j_to_frame(j: &J) -> DrawFrame {
    let j: J = serde_json::from_str(&s(j)).expect("harness: frame");
    let mut f = DrawFrame::new();
    let other = alt(&j);
    if other {
        // whatever was there before is replaced or cleared
        f.set_title("old");
        f.clear_title();
        f.set_desc("old");
        f.clear_desc();
        f.push_content(DrawFrameContent::Image(DrawImage::new()));
        f.clear_content();
    }
    let mut all = Vec::new();
    if let Some(x) = opt_s(&j[0]) {
        f.set_title(x);
    }
    if let Some(x) = opt_s(&j[1]) {
        f.set_desc(x);
    }
    for kv in j[2].as_array().unwrap() {
        f.attrmap_mut().set_attr(&s(&kv[0]), s(&kv[1]));
    }
    for im in j[3].as_array().unwrap() {
        let mut i = DrawImage::new();
        for kv in im[0].as_array().unwrap() {
            i.attrmap_mut().set_attr(&s(&kv[0]), s(&kv[1]));
        }
        if other {
            i.set_binary_base64("QUJD".into());
            i.clear_binary();
            i.push_text_str("old");
            i.set_text(Vec::new());
        }
        if let Some(x) = opt_s(&im[1]) {
            i.set_binary_base64(x);
        }
        for t in im[2].as_array().unwrap() {
            // a paragraph with nothing but text
            match t[2].as_array().map(|c| (t[0] == "text:p" && t[1].as_array().map_or(false, |a| a.is_empty()), c.as_slice())) {
                Some((true, [x])) if other && x.is_string() => i.push_text_str(s(x)),
                _ => i.push_text(j_to_tag(t)),
            }
        }
        all.push(DrawFrameContent::Image(i));
    }
    if other {
        f.set_content(all);
    } else {
        for c in all {
            f.push_content(c);
        }
    }
    f
}
