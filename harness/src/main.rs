//! Conformance driver: executes operation programs (NDJSON on stdin) against the real library and
//! emits one event per operation (NDJSON on stdout).  It holds no expectations of its own.
mod grid;
mod io;
mod lex;
mod reg;
mod conv;
mod setters;
mod val;

use crate::val::*;
use serde_json::{json, Value as J};
use spreadsheet_ods::{CellContent, Sheet, WorkBook};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct St {
    pub books: BTreeMap<i64, WorkBook>,
    pub free: BTreeMap<i64, Sheet>,
    pub det: BTreeMap<i64, DetSheet>,
    pub clip: BTreeMap<i64, CellContent>,
    pub files: BTreeMap<String, Vec<u8>>,
    pub dir: String,
}
// the type of a detached sheet is not nameable from outside: hide it behind closures
pub struct DetSheet {
    pub get: Box<dyn FnMut(&mut dyn FnMut(&mut Sheet))>,
    pub attach: Box<dyn FnOnce(&mut WorkBook)>,
}

pub fn bk<'a>(st: &'a mut St, a: &J) -> &'a mut WorkBook {
    let n = a["b"].as_i64().unwrap_or(0);
    // a refusal like any other: checked before the operation is dispatched
    st.books.get_mut(&n).expect("no such book")
}
const VT: [(&str, spreadsheet_ods::ValueType); 9] = [
    ("empty", spreadsheet_ods::ValueType::Empty), ("bool", spreadsheet_ods::ValueType::Boolean),
    ("num", spreadsheet_ods::ValueType::Number), ("pct", spreadsheet_ods::ValueType::Percentage),
    ("cur", spreadsheet_ods::ValueType::Currency), ("text", spreadsheet_ods::ValueType::Text),
    ("xml", spreadsheet_ods::ValueType::TextXml), ("dt", spreadsheet_ods::ValueType::DateTime),
    ("dur", spreadsheet_ods::ValueType::TimeDuration),
];
pub fn want_facts(a: &J) -> bool {
    a.get("facts").and_then(|x| x.as_bool()).unwrap_or(false)
}
pub fn def_styles(b: &WorkBook) -> J {
    J::Array(VT.iter().filter_map(|(k, t)| b.def_style(*t).map(|x| json!([k, x.as_str()]))).collect())
}

fn exec(st: &mut St, op: &str, a: &J) -> Result<J, String> {
    if let Some(n) = a.get("b").and_then(|x| x.as_i64()) {
        if !matches!(op, "new" | "load") && !a.get("d").is_some() && !st.books.contains_key(&n) {
            return Err("no such book".into());
        }
    }
    if let Some(d) = a.get("d").and_then(|x| x.as_i64()) {
        if !st.free.contains_key(&d) && !st.det.contains_key(&d) {
            return Err("no such sheet".into());
        }
    }
    // sheet operations
    let mut clip = std::mem::take(&mut st.clip);
    let r = if let Some(d) = a.get("d").and_then(|x| x.as_i64()) {
        // on a detached or free sheet
        if let Some(sh) = st.free.get_mut(&d) {
            grid::sheet_op(sh, op, a, &mut clip)
        } else if let Some(ds) = st.det.get_mut(&d) {
            let mut out = None;
            (ds.get)(&mut |sh: &mut Sheet| out = grid::sheet_op(sh, op, a, &mut clip));
            out
        } else {
            None
        }
    } else if let Some(n) = a.get("s").and_then(|x| x.as_u64()) {
        let b = a["b"].as_i64().unwrap_or(0);
        if let Some(book) = st.books.get_mut(&b) {
            if is_sheet_op(op) {
                let r = catch_unwind(AssertUnwindSafe(|| grid::sheet_op(book.sheet_mut(n as usize), op, a, &mut clip)));
                match r {
                    Ok(r) => r,
                    Err(e) => {
                        st.clip = clip;
                        std::panic::resume_unwind(e)
                    }
                }
            } else {
                None
            }
        } else {
            None
        }
    } else {
        None
    };
    st.clip = clip;
    if let Some(r) = r {
        return Ok(r);
    }
    let ok = Ok(J::Bool(true));
    match op {
        "reset" => {
            st.books.clear();
            st.free.clear();
            st.det.clear();
            st.clip.clear();
            st.files.clear();
            ok
        }
        "new" => {
            let n = a["b"].as_i64().unwrap_or(0);
            let wb = match a.get("locale").and_then(|x| x.as_str()) {
                Some(l) => WorkBook::new(match l { "de_AT" => icu_locale_core::locale!("de-AT"), "cs_CZ" => icu_locale_core::locale!("cs-CZ"), "xx" => icu_locale_core::locale!("fr-FR"), _ => icu_locale_core::locale!("en-US") }),
                None => WorkBook::new_empty(),
            };
            let out = json!({"def": def_styles(&wb), "refs": reg::format_refs(&wb), "facts": if want_facts(a) { reg::facts(&wb) } else { json!([]) }});
            st.books.insert(n, wb);
            Ok(out)
        }
        "def_style" => {
            let k = s(&a["k"]);
            let t = VT.iter().find(|x| x.0 == k).expect("harness: value type").1;
            let x = spreadsheet_ods::style::CellStyleRef::from(s(&a["x"]).as_str());
            bk(st, a).add_def_style(t, x);
            ok
        }
        "push" => {
            bk(st, a).push_sheet(Sheet::new(s(&a["x"])));
            ok
        }
        "insert" => {
            bk(st, a).insert_sheet(u(&a["i"]) as usize, Sheet::new(s(&a["x"])));
            ok
        }
        "remove" => {
            let sh = bk(st, a).remove_sheet(u(&a["i"]) as usize);
            let j = grid::sheet_to_j(&sh, &[], &[]);
            if let Some(d) = a.get("to").and_then(|x| x.as_i64()) {
                st.free.insert(d, sh);
            }
            Ok(j)
        }
        "clone" | "clone_no_data" => {
            let n = u(&a["i"]) as usize;
            let sh = if op == "clone" { bk(st, a).sheet(n).clone() } else { bk(st, a).sheet(n).clone_no_data() };
            st.free.insert(a["to"].as_i64().unwrap(), sh);
            ok
        }
        "push_free" | "insert_free" => {
            let d = a["from"].as_i64().unwrap();
            match st.free.remove(&d) {
                Some(sh) => {
                    if op == "push_free" {
                        bk(st, a).push_sheet(sh)
                    } else {
                        bk(st, a).insert_sheet(u(&a["i"]) as usize, sh)
                    }
                    ok
                }
                None => Err("no free sheet".into()),
            }
        }
        "detach" => {
            let det = bk(st, a).detach_sheet(u(&a["i"]) as usize);
            let cell = Arc::new(Mutex::new(Some(det)));
            let c2 = cell.clone();
            st.det.insert(
                a["to"].as_i64().unwrap(),
                DetSheet {
                    get: Box::new(move |f| {
                        let mut g = cell.lock().unwrap_or_else(|e| e.into_inner());
                        f(g.as_mut().expect("harness: det"))
                    }),
                    attach: Box::new(move |b| {
                        let d = c2.lock().unwrap_or_else(|e| e.into_inner()).take().expect("harness: det");
                        b.attach_sheet(d)
                    }),
                },
            );
            ok
        }
        "attach" => {
            let d = a["from"].as_i64().unwrap();
            match st.det.remove(&d) {
                Some(ds) => {
                    (ds.attach)(bk(st, a));
                    ok
                }
                None => Err("no detached sheet".into()),
            }
        }
        "sheet_idx" => Ok(match bk(st, a).sheet_idx(s(&a["x"])) {
            Some(n) => json!([n]),
            None => json!([]),
        }),
        "q_names" => {
            let b = bk(st, a);
            let n = b.num_sheets();
            let v: Vec<String> = (0..n).map(|i| b.sheet(i).name().clone()).collect();
            let v2: Vec<String> = b.iter_sheets().map(|x| x.name().clone()).collect();
            Ok(json!({"n": n, "idx": v, "it": v2}))
        }
        // nothing happens: the specification compares the two workbooks it has validated
        "same" => ok,
        "q_book" => {
            // projection of the complete workbook
            Ok(book_to_j(bk(st, a), a))
        }
        _ => {
            if let Some(r) = io::io_op(st, op, a) {
                return r;
            }
            if let Some(r) = reg::reg_op(st, op, a) {
                return r;
            }
            if op == "conv" {
                return Ok(conv::conv(a));
            }
            if let Some(r) = setters::exec(op, a) {
                return r;
            }
            if let Some(r) = lex::lex_op(op, a) {
                return r;
            }
            panic!("harness: unknown op {}", op)
        }
    }
}

/// the complete workbook: all sheets, default styles, and (on request) everything else
pub fn book_to_j(b: &WorkBook, a: &J) -> J {
    let pr: Vec<u32> = a["prow"].as_array().map(|v| v.iter().map(u).collect()).unwrap_or_default();
    let pc: Vec<u32> = a["pcol"].as_array().map(|v| v.iter().map(u).collect()).unwrap_or_default();
    let sh: Vec<J> = (0..b.num_sheets()).map(|i| grid::sheet_to_j(b.sheet(i), &pr, &pc)).collect();
    let facts = if want_facts(a) { reg::facts(b) } else { json!([]) };
    json!({"sheets": sh, "facts": facts, "def": def_styles(b)})
}

fn is_sheet_op(op: &str) -> bool {
    !matches!(op, "remove" | "insert" | "clone" | "clone_no_data" | "detach" | "q_book")
}

static OPNO: AtomicI64 = AtomicI64::new(-1);
static STARTED: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dir = args.get(1).cloned().unwrap_or_else(|| ".".into());
    let limit_ms: u64 = args.get(2).and_then(|x| x.parse().ok()).unwrap_or(20_000);
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("VERIF_PANIC").is_ok() {
            eprintln!("{}", info);
        }
        let m = info.to_string();
        if m.contains("harness:") {
            eprintln!("HARNESS-ERROR {}", m);
        }
    }));
    let current: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::io::stdout())));
    {
        let current = current.clone();
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let st = STARTED.load(Ordering::SeqCst);
            if st != 0 && now_ms().saturating_sub(st) > limit_ms {
                let l = current.lock().unwrap().clone();
                let mut ev: J = serde_json::from_str(&l).unwrap();
                ev["res"] = json!("hang");
                ev["out"] = json!([]);
                let mut o = out.lock().unwrap();
                writeln!(o, "{}", ev).unwrap();
                o.flush().unwrap();
                std::process::exit(3);
            }
        });
    }
    // a deep stack: nesting depth of input documents is part of the input domain
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut st = St { dir, ..Default::default() };
            let stdin = std::io::stdin();
            for (n, line) in stdin.lock().lines().enumerate() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let a: J = match serde_json::from_str(&line) {
                    Ok(a) => a,
                    Err(e) => {
                        eprintln!("HARNESS-ERROR bad json {} {}", e, line);
                        std::process::exit(4);
                    }
                };
                let op = s(&a["op"]);
                *current.lock().unwrap() = line.clone();
                OPNO.store(n as i64, Ordering::SeqCst);
                STARTED.store(now_ms(), Ordering::SeqCst);
                let r = catch_unwind(AssertUnwindSafe(|| exec(&mut st, &op, &a)));
                STARTED.store(0, Ordering::SeqCst);
                let mut ev = a.clone();
                match r {
                    Ok(Ok(x)) => {
                        ev["res"] = json!("ok");
                        ev["out"] = x;
                    }
                    Ok(Err(e)) => {
                        ev["res"] = json!("err");
                        ev["msg"] = json!(e);
                        ev["out"] = json!([]);
                    }
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                            .unwrap_or_default();
                        if m.contains("harness:") {
                            eprintln!("HARNESS-ERROR {} in {}", m, line);
                            out.lock().unwrap().flush().unwrap();
                            std::process::exit(4);
                        }
                        ev["res"] = json!("panic");
                        ev["msg"] = json!(m);
                        ev["out"] = json!([]);
                    }
                }
                let mut o = out.lock().unwrap();
                writeln!(o, "{}", ev).unwrap();
                if a.get("flush").is_some() {
                    o.flush().unwrap();
                }
            }
            out.lock().unwrap().flush().unwrap();
        })
        .unwrap();
    h.join().unwrap();
}
