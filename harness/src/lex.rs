//! References and formulas: formatting, parsing, helpers.
use crate::val::*;
use serde_json::{json, Value as J};
use spreadsheet_ods::formula::*;
use spreadsheet_ods::refs::*;
use spreadsheet_ods::{cell, fcell};

include!("macros.in.rs");

fn o(x: &str) -> Option<String> {
    if x.is_empty() { None } else { Some(x.to_string()) }
}
fn n(x: &str) -> (bool, u32) {
    match x.strip_prefix('$') {
        Some(y) => (true, y.parse().expect("harness: number")),
        None => (false, x.parse().expect("harness: number")),
    }
}
fn m(abs: bool, x: u32) -> String {
    format!("{}{}", if abs { "$" } else { "" }, x)
}
fn so(x: Option<&String>) -> String {
    x.cloned().unwrap_or_default()
}
pub enum R {
    Cell(CellRef),
    Cells(CellRange),
    Cols(ColRange),
    Rows(RowRange),
}
fn build(kind: &str, v: &[String]) -> R {
    let a = |i: usize| n(&v[i]);
    match kind {
        "cell" => R::Cell(CellRef::new_all(o(&v[0]), o(&v[1]), a(2).0, a(2).1, a(3).0, a(3).1)),
        "cells" => R::Cells(CellRange::new_all(o(&v[0]), o(&v[1]), a(2).0, a(2).1, a(3).0, a(3).1, o(&v[4]), a(5).0, a(5).1, a(6).0, a(6).1)),
        "cols" => R::Cols(ColRange::new_all(o(&v[0]), o(&v[1]), a(2).0, a(2).1, o(&v[3]), a(4).0, a(4).1)),
        "rows" => R::Rows(RowRange::new_all(o(&v[0]), o(&v[1]), a(2).0, a(2).1, o(&v[3]), a(4).0, a(4).1)),
        _ => panic!("harness: kind"),
    }
}
fn show(r: &R) -> Vec<String> {
    match r {
        R::Cell(x) => vec![so(x.iri()), so(x.table()), m(x.row_abs(), x.row()), m(x.col_abs(), x.col())],
        R::Cells(x) => vec![so(x.iri()), so(x.table()), m(x.row_abs(), x.row()), m(x.col_abs(), x.col()), so(x.to_table()), m(x.to_row_abs(), x.to_row()), m(x.to_col_abs(), x.to_col())],
        R::Cols(x) => vec![so(x.iri()), so(x.table()), m(x.col_abs(), x.col()), so(x.to_table()), m(x.to_col_abs(), x.to_col())],
        R::Rows(x) => vec![so(x.iri()), so(x.table()), m(x.row_abs(), x.row()), so(x.to_table()), m(x.to_row_abs(), x.to_row())],
    }
}
fn text(r: &R) -> (String, String) {
    match r {
        R::Cell(x) => (x.to_string(), x.to_formula()),
        R::Cells(x) => (x.to_string(), x.to_formula()),
        R::Cols(x) => (x.to_string(), x.to_formula()),
        R::Rows(x) => (x.to_string(), x.to_formula()),
    }
}
fn parse(kind: &str, x: &str, via: &str) -> Option<R> {
    match (kind, via) {
        ("cell", "fn") => parse_cellref(x).ok().map(R::Cell),
        ("cells", "fn") => parse_cellrange(x).ok().map(R::Cells),
        ("cols", "fn") => parse_colrange(x).ok().map(R::Cols),
        ("rows", "fn") => parse_rowrange(x).ok().map(R::Rows),
        ("cell", _) => CellRef::try_from(x).ok().map(R::Cell),
        ("cells", _) => CellRange::try_from(x).ok().map(R::Cells),
        ("cols", _) => ColRange::try_from(x).ok().map(R::Cols),
        ("rows", _) => RowRange::try_from(x).ok().map(R::Rows),
        _ => panic!("harness: kind"),
    }
}
fn modify(r: R, k: &str, x: &str) -> R {
    let un = || x.parse::<u32>().expect("harness: number");
    let bo = || x == "true";
    match r {
        R::Cell(mut c) => R::Cell(match k {
            "absolute" => c.absolute(),
            "absolute_row" => c.absolute_row(),
            "absolute_col" => c.absolute_col(),
            _ => {
                match k {
                    "iri" => c.set_iri(x),
                    "table" => c.set_table(x),
                    "row" => c.set_row(un()),
                    "row_abs" => c.set_row_abs(bo()),
                    "col" => c.set_col(un()),
                    "col_abs" => c.set_col_abs(bo()),
                    _ => panic!("harness: modifier {}", k),
                };
                c
            }
        }),
        R::Cells(mut c) => R::Cells(match k {
            "absolute" => c.absolute(),
            "absolute_rows" => c.absolute_rows(),
            "absolute_cols" => c.absolute_cols(),
            _ => {
                match k {
                    "iri" => c.set_iri(x),
                    "table" => c.set_table(x),
                    "to_table" => c.set_to_table(x),
                    "row" => c.set_row(un()),
                    "row_abs" => c.set_row_abs(bo()),
                    "col" => c.set_col(un()),
                    "col_abs" => c.set_col_abs(bo()),
                    "to_row" => c.set_to_row(un()),
                    "to_row_abs" => c.set_to_row_abs(bo()),
                    "to_col" => c.set_to_col(un()),
                    "to_col_abs" => c.set_to_col_abs(bo()),
                    _ => panic!("harness: modifier {}", k),
                };
                c
            }
        }),
        R::Cols(mut c) => R::Cols(match k {
            "absolute" => c.absolute(),
            _ => {
                match k {
                    "iri" => c.set_iri(x),
                    "table" => c.set_table(x),
                    "to_table" => c.set_to_table(x),
                    "col" => c.set_col(un()),
                    "col_abs" => c.set_col_abs(bo()),
                    "to_col" => c.set_to_col(un()),
                    "to_col_abs" => c.set_to_col_abs(bo()),
                    _ => panic!("harness: modifier {}", k),
                };
                c
            }
        }),
        R::Rows(mut c) => R::Rows(match k {
            "absolute" => c.absolute(),
            _ => {
                match k {
                    "iri" => c.set_iri(x),
                    "table" => c.set_table(x),
                    "to_table" => c.set_to_table(x),
                    "row" => c.set_row(un()),
                    "row_abs" => c.set_row_abs(bo()),
                    "to_row" => c.set_to_row(un()),
                    "to_row_abs" => c.set_to_row_abs(bo()),
                    _ => panic!("harness: modifier {}", k),
                };
                c
            }
        }),
    }
}
fn ctor(kind: &str, t: &str, x: &[u32]) -> R {
    match (kind, t.is_empty()) {
        ("cell", true) => R::Cell(CellRef::local(x[0], x[1])),
        ("cell", false) => R::Cell(CellRef::remote(t, x[0], x[1])),
        ("cells", true) => R::Cells(CellRange::local(x[0], x[1], x[2], x[3])),
        ("cells", false) => R::Cells(CellRange::remote(t, x[0], x[1], x[2], x[3])),
        ("span", _) => R::Cells(CellRange::origin_span(x[0], x[1], (x[2], x[3]))),
        ("cols", _) => R::Cols(ColRange::new(x[0], x[1])),
        ("rows", _) => R::Rows(RowRange::new(x[0], x[1])),
        _ => panic!("harness: ctor"),
    }
}

pub fn lex_op(op: &str, a: &J) -> Option<Result<J, String>> {
    let nums = |j: &J| -> Vec<u32> { j.as_array().expect("harness: numbers").iter().map(u).collect() };
    Some(Ok(match op {
        "ref" => {
            let k = s(&a["kind"]);
            let r = build(&k, &strs(&a["v"]));
            let (t, f) = text(&r);
            let back: Vec<Vec<String>> = parse(&k, &t, "fn").iter().map(show).collect();
            let back2: Vec<Vec<String>> = parse(&k, &t, "try").iter().map(show).collect();
            json!({"text": t, "formula": f, "back": back, "try": back2, "acc": show(&r)})
        }
        "ref_parse" => {
            let k = s(&a["kind"]);
            let v: Vec<Vec<String>> = parse(&k, &s(&a["x"]), &s(&a["via"])).iter().map(show).collect();
            json!(v)
        }
        "ref_list" => match parse_cellranges(&s(&a["x"])) {
            Ok(v) => json!([v.unwrap_or_default().into_iter().map(|x| show(&R::Cells(x))).collect::<Vec<_>>()]),
            Err(_) => json!([]),
        },
        "ref_make" => {
            let mut r = ctor(&s(&a["kind"]), &s(&a["t"]), &nums(&a["n"]));
            for x in a["mods"].as_array().expect("harness: mods") {
                r = modify(r, &s(&x[0]), &s(&x[1]));
            }
            json!(show(&r))
        }
        "ref_has" => {
            let r = build(&s(&a["kind"]), &strs(&a["v"]));
            let l: Vec<bool> = a["pts"]
                .as_array()
                .expect("harness: points")
                .iter()
                .map(|p| match &r {
                    R::Cells(x) => x.contains(u(&p[0]), u(&p[1])),
                    R::Cols(x) => x.contains(u(&p[1])),
                    R::Rows(x) => x.contains(u(&p[0])),
                    _ => panic!("harness: contains"),
                })
                .collect();
            json!(l)
        }
        "ref_name" => {
            let (b, i) = n(&s(&a["x"]));
            let c = CCol::new(i);
            let r = CRow::new(i);
            let (c, r) = if b { (c.absolute(), r.absolute()) } else { (c, r) };
            json!([c.to_string(), r.to_string()])
        }
        "ref_fn" => {
            let x = nums(&a["n"]);
            let t = s(&a["t"]);
            json!(match s(&a["f"]).as_str() {
                "fcellref" => fcellref(x[0], x[1]),
                "fcellrefr" => fcellrefr(x[0], x[1]),
                "fcellrefc" => fcellrefc(x[0], x[1]),
                "fcellrefa" => fcellrefa(x[0], x[1]),
                "fcellref_table" => fcellref_table(t, x[0], x[1]),
                "fcellrefr_table" => fcellrefr_table(t, x[0], x[1]),
                "fcellrefc_table" => fcellrefc_table(t, x[0], x[1]),
                "fcellrefa_table" => fcellrefa_table(t, x[0], x[1]),
                "frangeref" => frangeref(x[0], x[1], x[2], x[3]),
                "frangerefr" => frangerefr(x[0], x[1], x[2], x[3]),
                "frangerefc" => frangerefc(x[0], x[1], x[2], x[3]),
                "frangerefa" => frangerefa(x[0], x[1], x[2], x[3]),
                "frangeref_table" => frangeref_table(t, x[0], x[1], x[2], x[3]),
                "frangerefr_table" => frangerefr_table(t, x[0], x[1], x[2], x[3]),
                "frangerefc_table" => frangerefc_table(t, x[0], x[1], x[2], x[3]),
                "frangerefa_table" => frangerefa_table(t, x[0], x[1], x[2], x[3]),
                f => panic!("harness: function {}", f),
            })
        }
        "img" => {
            // binary content of an image: the text stored for the bytes, the bytes read back from texts
            let mut im = spreadsheet_ods::draw::DrawImage::new();
            let b: Vec<u8> = a["v"].as_array().expect("harness: bytes").iter().map(|x| u(x) as u8).collect();
            im.set_binary(&b);
            let t = im.get_binary_base64().cloned().unwrap_or_default();
            let back = im.get_binary().map_err(|e| e.to_string());
            let mut other = vec![];
            for x in a["texts"].as_array().expect("harness: texts") {
                let mut im = spreadsheet_ods::draw::DrawImage::new();
                im.set_binary_base64(s(x));
                other.push(match im.get_binary() { Ok(v) => json!([v]), Err(_) => json!([]) });
            }
            json!({"text": t, "back": match back { Ok(v) => json!([v]), Err(_) => json!([]) }, "other": other})
        }
        "ref_macro" => {
            let t = s(&a["t"]);
            let (x, f) = macro_ref(&t, a["tab"].as_bool().expect("harness: tab"), &s(&a["ab"]), &nums(&a["n"]));
            json!([x, f])
        }
        _ => return None,
    }))
}
