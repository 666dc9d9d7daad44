//! Sheet operations and the projection of a sheet onto the specification's vocabulary.
use crate::val::*;
use serde_json::{json, Value as J};
use spreadsheet_ods::sheet::{Grouped, SplitMode, Visibility};
use spreadsheet_ods::style::{CellStyleRef, ColStyleRef, RowStyleRef, TableStyleRef};
use spreadsheet_ods::validation::ValidationRef;
use spreadsheet_ods::{CellContent, CellContentRef, CellRange, Sheet};
use std::ops::Bound;

pub fn o(x: Option<&str>) -> J {
    match x {
        Some(x) => json!([x]),
        None => json!([]),
    }
}
fn span(r: u32, c: u32) -> J {
    json!([r, c])
}
pub fn cref_to_j(c: &CellContentRef<'_>) -> J {
    json!({
        "v": val_to_j(c.value()),
        "f": o(c.formula().map(|x| x.as_str())),
        "st": o(c.style().map(|x| x.as_str())),
        "va": o(c.validation().map(|x| x.as_str())),
        "sp": span(c.row_span(), c.col_span()),
        "mx": span(c.matrix_row_span(), c.matrix_col_span()),
        "rep": c.repeat(),
        "ann": o(c.annotation().map(ann_to_s).as_deref()),
        "df": c.draw_frames().map(|v| v.iter().map(frame_to_s).collect::<Vec<_>>()).unwrap_or_default(),
    })
}
pub fn cc_to_j(c: &mut CellContent) -> J {
    let rep = c.get_repeat();
    json!({
        "v": val_to_j(c.value()),
        "f": o(c.formula().map(|x| x.as_str())),
        "st": o(c.style().map(|x| x.as_str())),
        "va": o(c.validation().map(|x| x.as_str())),
        "sp": span(c.row_span(), c.col_span()),
        "mx": span(c.matrix_row_span(), c.matrix_col_span()),
        "rep": rep,
        "ann": o(c.annotation().map(ann_to_s).as_deref()),
        "df": c.draw_frames().iter().map(frame_to_s).collect::<Vec<_>>(),
    })
}
pub fn vis(v: Visibility) -> &'static str {
    match v {
        Visibility::Visible => "visible",
        Visibility::Collapsed => "collapse",
        Visibility::Filtered => "filter",
    }
}
fn un_vis(x: &str) -> Visibility {
    match x {
        "visible" => Visibility::Visible,
        "collapse" => Visibility::Collapsed,
        "filter" => Visibility::Filtered,
        _ => panic!("harness: visibility"),
    }
}
pub fn split_mode(n: u64) -> SplitMode {
    match n {
        0 => SplitMode::None,
        1 => SplitMode::Split,
        _ => SplitMode::Heading,
    }
}
pub fn range_to_s(r: &CellRange) -> J {
    json!([
        r.iri().cloned().unwrap_or_default(),
        r.table().cloned().unwrap_or_default(),
        format!("{}{}", if r.row_abs() { "$" } else { "" }, r.row()),
        format!("{}{}", if r.col_abs() { "$" } else { "" }, r.col()),
        r.to_table().cloned().unwrap_or_default(),
        format!("{}{}", if r.to_row_abs() { "$" } else { "" }, r.to_row()),
        format!("{}{}", if r.to_col_abs() { "$" } else { "" }, r.to_col()),
    ])
}
pub fn j_to_range(j: &J) -> CellRange {
    let v = strs(j);
    let mut r = CellRange::new();
    let n = |x: &str| -> (bool, u32) {
        if let Some(y) = x.strip_prefix('$') { (true, y.parse().unwrap()) } else { (false, x.parse().unwrap()) }
    };
    if !v[0].is_empty() {
        r.set_iri(v[0].clone());
    }
    if !v[1].is_empty() {
        r.set_table(v[1].clone());
    }
    let (a, x) = n(&v[2]);
    r.set_row_abs(a);
    r.set_row(x);
    let (a, x) = n(&v[3]);
    r.set_col_abs(a);
    r.set_col(x);
    if !v[4].is_empty() {
        r.set_to_table(v[4].clone());
    }
    let (a, x) = n(&v[5]);
    r.set_to_row_abs(a);
    r.set_to_row(x);
    let (a, x) = n(&v[6]);
    r.set_to_col_abs(a);
    r.set_to_col(x);
    r
}

pub fn row_j(sh: &Sheet, r: u32) -> J {
    json!({"st": o(sh.rowstyle(r).map(|x| x.as_str())), "cs": o(sh.row_cellstyle(r).map(|x| x.as_str())),
           "vis": vis(sh.row_visible(r)), "len": len_to_s(&sh.row_height(r)), "rep": sh.row_repeat(r)})
}
pub fn col_j(sh: &Sheet, c: u32) -> J {
    json!({"st": o(sh.colstyle(c).map(|x| x.as_str())), "cs": o(sh.col_cellstyle(c).map(|x| x.as_str())),
           "vis": vis(sh.col_visible(c)), "len": len_to_s(&sh.col_width(c)), "rep": 0})
}

/// Everything observable about a sheet; rows/cols are probed at the given indices.
pub fn sheet_to_j(sh: &Sheet, prow: &[u32], pcol: &[u32]) -> J {
    let cells: Vec<J> = sh
        .iter()
        .map(|((r, c), d)| {
            let mut j = cref_to_j(&d);
            j["r"] = json!(r);
            j["c"] = json!(c);
            j
        })
        .collect();
    let rows: Vec<J> = prow.iter().map(|&r| { let mut j = row_j(sh, r); j["i"] = json!(r); j }).collect();
    let cols: Vec<J> = pcol.iter().map(|&c| { let mut j = col_j(sh, c); j["i"] = json!(c); j }).collect();
    let hdr = |h: Option<(u32, u32)>| match h {
        Some((a, b)) => json!([a, b]),
        None => json!([]),
    };
    let cfg = sh.config();
    json!({
        "name": sh.name(), "st": o(sh.style().map(|x| x.as_str())),
        "disp": sh.display(), "print": sh.print(),
        "cells": cells, "rows": rows, "cols": cols,
        "hr": hdr(sh.header_rows().map(|x| x.into())), "hc": hdr(sh.header_cols().map(|x| x.into())),
        "rg": groups(sh.row_group_iter().collect(), (0..sh.row_group_count()).map(|i| sh.row_group(i)).collect()),
        "cg": groups(sh.col_group_iter().collect(), (0..sh.col_group_count()).map(|i| sh.col_group(i)).collect()),
        "pr": sh.print_ranges().map(|v| v.iter().map(range_to_s).collect::<Vec<_>>()).unwrap_or_default(),
        "cfg": [
            ["cursor_x", cfg.cursor_x.to_string()], ["cursor_y", cfg.cursor_y.to_string()],
            ["hor_split_mode", (cfg.hor_split_mode as i16).to_string()], ["vert_split_mode", (cfg.vert_split_mode as i16).to_string()],
            ["hor_split_pos", cfg.hor_split_pos.to_string()], ["vert_split_pos", cfg.vert_split_pos.to_string()],
            ["active_split_range", cfg.active_split_range.to_string()],
            ["position_left", cfg.position_left.to_string()], ["position_right", cfg.position_right.to_string()],
            ["position_top", cfg.position_top.to_string()], ["position_bottom", cfg.position_bottom.to_string()],
            ["zoom_type", cfg.zoom_type.to_string()], ["zoom_value", cfg.zoom_value.to_string()],
            ["page_view_zoom_value", cfg.page_view_zoom_value.to_string()], ["show_grid", cfg.show_grid.to_string()],
        ],
        "n": sh.cell_count(), "size": [sh.used_grid_size().0, sh.used_grid_size().1],
    })
}

fn bound(j: &J) -> Bound<(u32, u32)> {
    match s(&j[0]).as_str() {
        "inc" => Bound::Included((u(&j[1]), u(&j[2]))),
        "exc" => Bound::Excluded((u(&j[1]), u(&j[2]))),
        _ => Bound::Unbounded,
    }
}

pub fn cell_query(sh: &Sheet, r: u32, c: u32) -> J {
    // the same cell through the individual getters, cell() and cell_ref()
    let single = json!({
        "v": val_to_j(sh.value(r, c)), "f": o(sh.formula(r, c).map(|x| x.as_str())),
        "st": o(sh.cellstyle(r, c).map(|x| x.as_str())), "va": o(sh.validation(r, c).map(|x| x.as_str())),
        "sp": span(sh.row_span(r, c), sh.col_span(r, c)), "mx": span(sh.matrix_row_span(r, c), sh.matrix_col_span(r, c)),
        "rep": sh.cell_repeat(r, c), "ann": o(sh.annotation(r, c).map(ann_to_s).as_deref()),
        "df": sh.draw_frames(r, c).map(|v| v.iter().map(frame_to_s).collect::<Vec<_>>()).unwrap_or_default(),
    });
    let mut got = vec![];
    if let Some(mut x) = sh.cell(r, c) {
        got.push(cc_to_j(&mut x));
    }
    let mut gotref = vec![];
    if let Some(x) = sh.cell_ref(r, c) {
        gotref.push(cref_to_j(&x));
        let mut ow = x.to_owned();
        gotref.push(cc_to_j(&mut ow));
    }
    json!({"single": single, "cell": got, "cref": gotref, "empty": sh.is_empty(r, c)})
}

/// The groups by iterating them, which has to be the same as asking for them one by one.
fn groups(a: Vec<&Grouped>, b: Vec<Option<&Grouped>>) -> Vec<J> {
    let j = |g: &Grouped| json!([g.from(), g.to(), g.display()]);
    let a: Vec<J> = a.into_iter().map(j).collect();
    let b: Vec<J> = b.into_iter().map(|g| g.map(j).unwrap_or(json!([0, 0, false]))).collect();
    if a == b { a } else { a.into_iter().chain(b).collect() }
}
/// Executes an operation on one sheet; None if the operation is unknown here.
pub fn sheet_op(sh: &mut Sheet, op: &str, a: &J, clip: &mut std::collections::BTreeMap<i64, CellContent>) -> Option<J> {
    let r = || u(&a["r"]);
    let c = || u(&a["c"]);
    let cs = |k: &str| CellStyleRef::from(s(&a[k]).as_str());
    let ok = J::Bool(true);
    Some(match op {
        "set_value" => { sh.set_value(r(), c(), j_to_val(&a["v"])); ok }
        "set_styled_value" if alt(a) => { sh.set_styled(r(), c(), j_to_val(&a["v"]), &cs("st")); ok }
        "set_styled_value" => { sh.set_styled_value(r(), c(), j_to_val(&a["v"]), &cs("st")); ok }
        "set_formula" => { sh.set_formula(r(), c(), s(&a["f"])); ok }
        "clear_formula" => { sh.clear_formula(r(), c()); ok }
        "set_repeat" => { sh.set_cell_repeat(r(), c(), u(&a["n"])); ok }
        "set_cellstyle" => { sh.set_cellstyle(r(), c(), &cs("st")); ok }
        "clear_cellstyle" => { sh.clear_cellstyle(r(), c()); ok }
        "set_validation" => { sh.set_validation(r(), c(), &ValidationRef::from(s(&a["va"]).as_str())); ok }
        "clear_validation" => { sh.clear_validation(r(), c()); ok }
        "set_row_span" => { sh.set_row_span(r(), c(), u(&a["n"])); ok }
        "set_col_span" => { sh.set_col_span(r(), c(), u(&a["n"])); ok }
        "set_mx_row_span" => { sh.set_matrix_row_span(r(), c(), u(&a["n"])); ok }
        "set_mx_col_span" => { sh.set_matrix_col_span(r(), c(), u(&a["n"])); ok }
        "set_ann" if sh.annotation_mut(r(), c()).is_some() && alt(a) => { *sh.annotation_mut(r(), c()).unwrap() = j_to_ann(&a["x"]); ok }
        "set_ann" => { sh.set_annotation(r(), c(), j_to_ann(&a["x"])); ok }
        "clear_ann" => { sh.clear_annotation(r(), c()); ok }
        "add_frame" if sh.draw_frames_mut(r(), c()).is_some() && alt(a) => { sh.draw_frames_mut(r(), c()).unwrap().push(j_to_frame(&a["x"])); ok }
        "add_frame" => { sh.add_draw_frame(r(), c(), j_to_frame(&a["x"])); ok }
        "clear_frames" => { sh.clear_draw_frames(r(), c()); ok }
        // cut / paste of complete cell contents
        "remove_cell" => {
            let x = sh.remove_cell(r(), c());
            match x {
                Some(mut x) => {
                    let j = cc_to_j(&mut x);
                    clip.insert(a["clip"].as_i64().unwrap_or(0), x);
                    json!([j])
                }
                None => json!([]),
            }
        }
        "copy_cell" => {
            let x = sh.cell(r(), c());
            match x {
                Some(mut x) => {
                    let j = cc_to_j(&mut x);
                    clip.insert(a["clip"].as_i64().unwrap_or(0), x);
                    json!([j])
                }
                None => json!([]),
            }
        }
        "add_cell" => {
            let x = clip.get(&a["clip"].as_i64().unwrap_or(0)).cloned();
            match x {
                Some(mut x) => {
                    let j = cc_to_j(&mut x);
                    sh.add_cell(r(), c(), x);
                    json!([j])
                }
                None => json!([]),
            }
        }
        // a cell content built field by field
        "add_new_cell" => {
            let mut x = CellContent::new();
            let d = &a["x"];
            if d["v"]["k"] != "empty" {
                x.set_value(j_to_val(&d["v"]));
            }
            if alt(a) {
                x.set_style(&CellStyleRef::from("old"));
                x.clear_style();
            }
            if let Some(f) = opt_s(&d["f"]) { x.set_formula(f); }
            if let Some(f) = opt_s(&d["st"]) { x.set_style(&CellStyleRef::from(f.as_str())); }
            if let Some(f) = opt_s(&d["va"]) { x.set_validation(&ValidationRef::from(f.as_str())); }
            if u(&d["sp"][0]) != 1 { x.set_row_span(u(&d["sp"][0])); }
            if u(&d["sp"][1]) != 1 { x.set_col_span(u(&d["sp"][1])); }
            if u(&d["mx"][0]) != 1 { x.set_matrix_row_span(u(&d["mx"][0])); }
            if u(&d["mx"][1]) != 1 { x.set_matrix_col_span(u(&d["mx"][1])); }
            if u(&d["rep"]) != 1 { x.set_repeat(u(&d["rep"])); }
            if let Some(f) = d["ann"].as_array().and_then(|v| v.first()) { x.set_annotation(j_to_ann(f)); }
            if let Some(f) = d["df"].as_array() { if !f.is_empty() { x.set_draw_frames(f.iter().map(j_to_frame).collect()); } }
            let j = cc_to_j(&mut x);
            sh.add_cell(r(), c(), x);
            json!([j])
        }
        "q_cell" => cell_query(sh, r(), c()),
        "q_sheet" => {
            let pr: Vec<u32> = a["prow"].as_array().map(|v| v.iter().map(u).collect()).unwrap_or_default();
            let pc: Vec<u32> = a["pcol"].as_array().map(|v| v.iter().map(u).collect()).unwrap_or_default();
            sheet_to_j(sh, &pr, &pc)
        }
        "q_iter" => {
            let lim = 100_000usize;
            let kind = s(&a["kind"]);
            let lo = bound(&a["lo"]);
            let hi = bound(&a["hi"]);
            let f = |((r, c), d): ((u32, u32), CellContentRef<'_>)| json!([r, c, val_to_j(d.value())]);
            match kind.as_str() {
                "rows" => {
                    let it = sh.iter_rows((lo, hi));
                    let h = it.size_hint();
                    let v: Vec<J> = it.take(lim).map(f).collect();
                    json!({"l": v, "hint": [h.0 as u32, h.1.map(|x| x.min(1<<30) as u32).unwrap_or(1<<30)]})
                }
                "cols" => {
                    let it = sh.iter_cols((lo, hi));
                    let h = it.size_hint();
                    let v: Vec<J> = it.take(lim).map(f).collect();
                    json!({"l": v, "hint": [h.0 as u32, h.1.map(|x| x.min(1<<30) as u32).unwrap_or(1<<30)]})
                }
                "range" => {
                    let it = sh.range((lo, hi));
                    let h = it.size_hint();
                    let v: Vec<J> = it.take(lim).map(f).collect();
                    json!({"l": v, "hint": [h.0 as u32, h.1.map(|x| x.min(1<<30) as u32).unwrap_or(1<<30)]})
                }
                "into" => {
                    let v: Vec<J> = (&*sh).into_iter().take(lim).map(f).collect();
                    json!({"l": v, "hint": [0, 1<<30]})
                }
                "peek" => {
                    // peek before each next (from the second on): must announce the next position
                    let mut it = sh.iter();
                    let mut v: Vec<J> = vec![];
                    let mut agree = true;
                    let mut first = true;
                    loop {
                        let p = it.peek_cell();
                        let n = it.next();
                        if !first {
                            agree &= p == n.as_ref().map(|x| x.0);
                        }
                        first = false;
                        match n {
                            Some(x) => v.push(f(x)),
                            None => break,
                        }
                    }
                    // fused
                    agree &= it.next().is_none() && it.next().is_none();
                    json!({"l": v, "hint": [0, if agree {1<<30} else {0}]})
                }
                _ => {
                    let it = sh.iter();
                    let h = it.size_hint();
                    let v: Vec<J> = it.take(lim).map(f).collect();
                    json!({"l": v, "hint": [h.0 as u32, h.1.map(|x| x.min(1<<30) as u32).unwrap_or(1<<30)]})
                }
            }
        }
        // rows / columns
        "set_rowstyle" => { sh.set_rowstyle(u(&a["i"]), &RowStyleRef::from(s(&a["x"]).as_str())); ok }
        "clear_rowstyle" => { sh.clear_rowstyle(u(&a["i"])); ok }
        "set_row_cellstyle" => { sh.set_row_cellstyle(u(&a["i"]), &cs("x")); ok }
        "clear_row_cellstyle" => { sh.clear_row_cellstyle(u(&a["i"])); ok }
        "set_row_visible" => { sh.set_row_visible(u(&a["i"]), un_vis(&s(&a["x"]))); ok }
        "set_row_height" => { sh.set_row_height(u(&a["i"]), s_to_len(&s(&a["x"]))); ok }
        "set_row_repeat" => { sh.set_row_repeat(u(&a["i"]), u(&a["n"])); ok }
        "set_colstyle" => { sh.set_colstyle(u(&a["i"]), &ColStyleRef::from(s(&a["x"]).as_str())); ok }
        "clear_colstyle" => { sh.clear_colstyle(u(&a["i"])); ok }
        "set_col_cellstyle" => { sh.set_col_cellstyle(u(&a["i"]), &cs("x")); ok }
        "clear_col_cellstyle" => { sh.clear_col_cellstyle(u(&a["i"])); ok }
        "set_col_visible" => { sh.set_col_visible(u(&a["i"]), un_vis(&s(&a["x"]))); ok }
        "set_col_width" => { sh.set_col_width(u(&a["i"]), s_to_len(&s(&a["x"]))); ok }
        "set_header_rows" => { sh.set_header_rows(u(&a["lo"]), u(&a["hi"])); ok }
        "clear_header_rows" => { sh.clear_header_rows(); ok }
        "set_header_cols" => { sh.set_header_cols(u(&a["lo"]), u(&a["hi"])); ok }
        "clear_header_cols" => { sh.clear_header_cols(); ok }
        "add_row_group" => { sh.add_row_group(u(&a["lo"]), u(&a["hi"])); ok }
        "remove_row_group" => { sh.remove_row_group(u(&a["lo"]), u(&a["hi"])); ok }
        "disp_row_group" => { sh.set_row_group_displayed(u(&a["lo"]), u(&a["hi"]), b(&a["x"])); ok }
        "add_col_group" => { sh.add_col_group(u(&a["lo"]), u(&a["hi"])); ok }
        "remove_col_group" => { sh.remove_col_group(u(&a["lo"]), u(&a["hi"])); ok }
        "disp_col_group" => { sh.set_col_group_displayed(u(&a["lo"]), u(&a["hi"]), b(&a["x"])); ok }
        "flag_col_group" => {
            let (lo, hi) = (u(&a["lo"]), u(&a["hi"]));
            for i in 0..sh.col_group_count() {
                let g = sh.col_group_mut(i).unwrap();
                if g.from() == lo && g.to() == hi {
                    g.set_display(b(&a["x"]));
                    break;
                }
            }
            ok
        }
        "add_print_range" => { sh.add_print_range(j_to_range(&a["x"])); ok }
        "clear_print_ranges" => { sh.clear_print_ranges(); ok }
        "set_name" => { sh.set_name(s(&a["x"])); ok }
        "set_tablestyle" => { sh.set_style(&TableStyleRef::from(s(&a["x"]).as_str())); ok }
        "set_display" => { sh.set_display(b(&a["x"])); ok }
        "set_print" => { sh.set_print(b(&a["x"])); ok }
        "split_col_header" => { sh.split_col_header(u(&a["i"])); ok }
        "split_row_header" => { sh.split_row_header(u(&a["i"])); ok }
        "split_horizontal" => { sh.split_horizontal(u(&a["i"])); ok }
        "split_vertical" => { sh.split_vertical(u(&a["i"])); ok }
        "set_cfg" => {
            let n = s(&a["x"]);
            let cfg = sh.config_mut();
            match s(&a["k"]).as_str() {
                "cursor_x" => cfg.cursor_x = n.parse().unwrap(),
                "cursor_y" => cfg.cursor_y = n.parse().unwrap(),
                "hor_split_mode" => cfg.hor_split_mode = split_mode(n.parse().unwrap()),
                "vert_split_mode" => cfg.vert_split_mode = split_mode(n.parse().unwrap()),
                "hor_split_pos" => cfg.hor_split_pos = n.parse().unwrap(),
                "vert_split_pos" => cfg.vert_split_pos = n.parse().unwrap(),
                "active_split_range" => cfg.active_split_range = n.parse().unwrap(),
                "position_left" => cfg.position_left = n.parse().unwrap(),
                "position_right" => cfg.position_right = n.parse().unwrap(),
                "position_top" => cfg.position_top = n.parse().unwrap(),
                "position_bottom" => cfg.position_bottom = n.parse().unwrap(),
                "zoom_type" => cfg.zoom_type = n.parse().unwrap(),
                "zoom_value" => cfg.zoom_value = n.parse().unwrap(),
                "page_view_zoom_value" => cfg.page_view_zoom_value = n.parse().unwrap(),
                "show_grid" => cfg.show_grid = n == "true",
                k => panic!("harness: cfg {}", k),
            }
            ok
        }
        _ => return None,
    })
}
