//! Save / load through every entry point, and through failing streams.
use crate::val::*;
use crate::St;
use serde_json::{json, Value as J};
use spreadsheet_ods::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A destination that fails. mode "bytes": every byte beyond `at` is refused (disk full);
/// "call": the at-th call (write/flush/seek, counted from 0) fails once; "dead": it and all later ones fail; "flush": every flush fails;
/// "short": writes one byte at a time, then behaves like "bytes"; "zero": returns Ok(0) beyond `at`.
pub struct FailW {
    pub cur: Cursor<Vec<u8>>,
    pub mode: String,
    pub at: u64,
    pub n: u64,
    pub failed: std::rc::Rc<std::cell::Cell<bool>>,
}
impl FailW {
    pub fn new(mode: &str, at: u64) -> Self {
        FailW { cur: Cursor::new(vec![]), mode: mode.into(), at, n: 0, failed: Default::default() }
    }
    fn fail<T>(&mut self) -> std::io::Result<T> {
        self.failed.set(true);
        Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"))
    }
    fn call(&mut self) -> bool {
        let n = self.n;
        self.n += 1;
        (self.mode == "call" && n == self.at) || (self.mode == "dead" && n >= self.at)
    }
}
impl Write for FailW {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.call() {
            return self.fail();
        }
        let mut len = buf.len();
        if self.mode == "short" {
            len = len.min(1);
        }
        if self.mode == "bytes" || self.mode == "short" || self.mode == "zero" {
            let room = self.at.saturating_sub(self.cur.position()) as usize;
            if room == 0 && len > 0 {
                if self.mode == "zero" {
                    self.failed.set(true);
                    return Ok(0);
                }
                return self.fail();
            }
            len = len.min(room);
        }
        self.cur.write(&buf[..len])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.call() || self.mode == "flush" {
            return self.fail();
        }
        Ok(())
    }
}
impl Seek for FailW {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.call() {
            return self.fail();
        }
        self.cur.seek(p)
    }
}
pub struct FailR {
    pub cur: Cursor<Vec<u8>>,
    pub mode: String,
    pub at: u64,
    pub n: u64,
    pub failed: std::rc::Rc<std::cell::Cell<bool>>,
    pub calls: std::rc::Rc<std::cell::Cell<u64>>,
}
impl Read for FailR {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.n;
        self.n += 1;
        self.calls.set(self.n);
        if self.mode == "call" && n == self.at {
            self.failed.set(true);
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
        }
        let mut len = buf.len();
        if self.mode == "short" {
            len = len.min(1);
        }
        if self.mode == "bytes" {
            let room = self.at.saturating_sub(self.cur.position()) as usize;
            if room == 0 && len > 0 {
                self.failed.set(true);
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
            }
            len = len.min(room);
        }
        self.cur.read(&mut buf[..len])
    }
}
impl Seek for FailR {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = self.n;
        self.n += 1;
        self.calls.set(self.n);
        if self.mode == "call" && n == self.at {
            self.failed.set(true);
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
        }
        self.cur.seek(p)
    }
}

fn es<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

pub fn save(book: &mut WorkBook, fmt: &str, via: &str, dir: &str) -> Result<Vec<u8>, String> {
    let tmp = format!("{}/out.tmp", dir);
    let opt = |o: OdsWriteOptions, book: &mut WorkBook| -> Result<Vec<u8>, String> {
        let mut c = Cursor::new(Vec::new());
        es(o.write_ods(book, &mut c))?;
        Ok(c.into_inner())
    };
    match (fmt, via) {
        ("ods", "buf") => es(write_ods_buf(book, Vec::new())),
        ("ods", "buf_unc") => es(write_ods_buf_uncompressed(book, Vec::new())),
        ("ods", "to") => {
            let mut c = Cursor::new(Vec::new());
            es(write_ods_to(book, &mut c))?;
            Ok(c.into_inner())
        }
        ("ods", "path") => {
            std::fs::write(&tmp, vec![b'<'; 400_000]).expect("harness: write"); // saved over a longer file
            es(write_ods(book, &tmp))?;
            let v = std::fs::read(&tmp).expect("harness: read back");
            std::fs::remove_file(&tmp).ok();
            Ok(v)
        }
        ("ods", "opt_def") => opt(OdsWriteOptions::default(), book),
        ("ods", "opt_stored") => opt(OdsWriteOptions::default().compression_method(zip::CompressionMethod::Stored), book),
        ("ods", "opt_d1") => opt(OdsWriteOptions::default().compression_method(zip::CompressionMethod::Deflated).compression_level(Some(1)), book),
        ("ods", "opt_d9") => opt(OdsWriteOptions::default().compression_method(zip::CompressionMethod::Deflated).compression_level(Some(9)), book),
        ("fods", "buf") => es(write_fods_buf(book, Vec::new())),
        ("fods", "to") => {
            let mut c = Cursor::new(Vec::new());
            es(write_fods_to(book, &mut c))?;
            Ok(c.into_inner())
        }
        ("fods", "path") => {
            std::fs::write(&tmp, vec![b'<'; 400_000]).expect("harness: write");
            es(write_fods(book, &tmp))?;
            let v = std::fs::read(&tmp).expect("harness: read back");
            std::fs::remove_file(&tmp).ok();
            Ok(v)
        }
        _ => panic!("harness: save {} {}", fmt, via),
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn getrlimit(r: i32, l: *mut Rlimit) -> i32;
    fn setrlimit(r: i32, l: *const Rlimit) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
/// limits the size of files written by this process (RLIMIT_FSIZE, without the signal) until it is dropped
struct FileSize(Rlimit);
impl FileSize {
    fn limit(n: u64) -> Self {
        let mut old = Rlimit { cur: 0, max: 0 };
        unsafe {
            signal(25, 1);
            assert_eq!(getrlimit(1, &mut old), 0, "harness: getrlimit");
            assert_eq!(setrlimit(1, &Rlimit { cur: n, max: old.max }), 0, "harness: setrlimit");
        }
        FileSize(old)
    }
}
impl Drop for FileSize {
    fn drop(&mut self) {
        unsafe { setrlimit(1, &self.0) };
    }
}

fn points(a: &J, total: u64) -> Vec<u64> {
    let step = (total / a["n"].as_u64().unwrap_or(100).max(1)).max(1);
    let mut v: Vec<u64> = (0..total).skip(a.get("off").and_then(|x| x.as_u64()).unwrap_or(0) as usize % step as usize).step_by(step as usize).collect();
    v.extend((1..=30u64).filter(|k| total >= *k).map(|k| total - k));
    v
}
fn outcome<T>(r: &std::thread::Result<Result<T, String>>) -> &'static str {
    match r {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    }
}
/// outcomes of a sweep: (was a failure delivered?, result) -> how often, where for example
#[derive(Default)]
struct Classes(std::collections::BTreeMap<(bool, &'static str), (u32, u64)>);
impl Classes {
    fn add(&mut self, inj: bool, res: &'static str, p: u64) {
        self.0.entry((inj, res)).or_insert((0, p)).0 += 1;
    }
    fn json(&self, total: u64) -> J {
        json!({"total": total.to_string(), "cls": self.0.iter().map(|(k, v)| json!({"inj": k.0, "res": k.1, "n": v.0, "at": v.1.to_string()})).collect::<Vec<_>>()})
    }
}

fn options(a: &J) -> OdsOptions {
    let mut o = OdsOptions::default();
    for x in strs(&a["opts"]) {
        o = match x.as_str() {
            "content" => o.content_only(),
            "styles" => o.read_styles(),
            "repeat" => o.use_repeat_for_cells(),
            "clone" => o.use_clone_for_cells(),
            "noempty" => o.ignore_empty_cells(),
            "empty" => o.read_empty_cells(),
            _ => panic!("harness: option"),
        }
    }
    o
}

pub fn load(bytes: &[u8], fmt: &str, via: &str, a: &J, dir: &str) -> Result<WorkBook, String> {
    let tmp = format!("{}/in.tmp", dir);
    match (fmt, via) {
        ("ods", "buf") => es(read_ods_buf(bytes)),
        ("ods", "from") => es(read_ods_from(Cursor::new(bytes))),
        ("ods", "path") => {
            std::fs::write(&tmp, bytes).expect("harness: write");
            let r = es(read_ods(&tmp));
            std::fs::remove_file(&tmp).ok();
            r
        }
        ("ods", "opt") => es(options(a).read_ods(Cursor::new(bytes))),
        ("fods", "buf") => es(read_fods_buf(bytes)),
        ("fods", "from") => es(read_fods_from(Cursor::new(bytes))),
        ("fods", "path") => {
            std::fs::write(&tmp, bytes).expect("harness: write");
            let r = es(read_fods(&tmp));
            std::fs::remove_file(&tmp).ok();
            r
        }
        ("fods", "opt") => es(options(a).read_fods(Cursor::new(bytes))),
        _ => panic!("harness: load {} {}", fmt, via),
    }
}

pub fn io_op(st: &mut St, op: &str, a: &J) -> Option<Result<J, String>> {
    Some(match op {
        "save" => {
            let dir = st.dir.clone();
            let n = a["b"].as_i64().unwrap_or(0);
            let f = s(&a["file"]);
            let book = match st.books.get_mut(&n) {
                Some(b) => b,
                None => return Some(Err("no such book".into())),
            };
            match save(book, &s(&a["fmt"]), &s(&a["via"]), &dir) {
                Ok(v) => {
                    if a.get("disk").is_some() {
                        std::fs::write(format!("{}/{}", st.dir, s(&a["disk"])), &v).expect("harness: write");
                    }
                    let l = v.len();
                    let facts = if crate::want_facts(a) { crate::reg::facts(&st.books[&n]) } else { json!([]) };
                    st.files.insert(f, v);
                    Ok(json!({"len": l, "facts": facts}))
                }
                Err(e) => Err(e),
            }
        }
        "load" => {
            let dir = st.dir.clone();
            let n = a["b"].as_i64().unwrap_or(0);
            let f = s(&a["file"]);
            let bytes = match st.files.get(&f) {
                Some(b) => b.clone(),
                None => return Some(Err("no such file".into())),
            };
            match load(&bytes, &s(&a["fmt"]), &s(&a["via"]), a, &dir) {
                Ok(b) => {
                    let mut j = crate::book_to_j(&b, a);
                    j["base"] = if crate::want_facts(a) { crate::reg::base_facts() } else { json!([]) };
                    st.books.insert(n, b);
                    Ok(j)
                }
                Err(e) => Err(e),
            }
        }
        "put_file" => {
            let v = std::fs::read(s(&a["path"])).expect("harness: put_file");
            st.files.insert(s(&a["file"]), v);
            Ok(json!([1]))
        }
        // failure injection: every listed point is tried on a fresh copy of the document
        "save_sweep" => {
            let n = a["b"].as_i64().unwrap_or(0);
            let fmt = s(&a["fmt"]);
            let mode = s(&a["mode"]);
            let comp = a.get("comp").map(s).unwrap_or_default();
            let book = st.books.get(&n).expect("harness: no book").clone();
            let wrap = a.get("wrap").is_some();
            let run = |bk: &mut WorkBook, w: &mut FailW| -> Result<(), String> {
                if wrap {
                    // a buffering writer given away: what it holds back must arrive
                    let w = std::io::BufWriter::new(w);
                    return if fmt == "ods" { es(write_ods_to(bk, w)) } else { es(write_fods_to(bk, w)) };
                }
                match (fmt.as_str(), comp.as_str()) {
                    ("ods", "") => es(write_ods_to(bk, w)),
                    ("ods", "stored") => es(OdsWriteOptions::default().compression_method(zip::CompressionMethod::Stored).write_ods(bk, w)),
                    ("ods", _) => es(OdsWriteOptions::default().write_ods(bk, w)),
                    _ => es(write_fods_to(bk, w)),
                }
            };
            // reference run: how many bytes / calls a complete save takes
            let mut full = FailW::new("none", 0);
            if let Err(e) = run(&mut book.clone(), &mut full) {
                return Some(Err(e));
            }
            let total = if mode == "call" || mode == "dead" { full.n } else { full.cur.get_ref().len() as u64 };
            let mut cls = Classes::default();
            // the last point lies behind the end: nothing fails, and the file must be complete
            for p in points(a, total).into_iter().chain([total]) {
                let mut w = FailW::new(&mode, p);
                let failed = w.failed.clone();
                let mut bk = book.clone();
                let r = catch_unwind(AssertUnwindSafe(|| run(&mut bk, &mut w)));
                let mut o = outcome(&r);
                if o == "ok" {
                    let b = w.cur.into_inner();
                    let back = if fmt == "ods" { read_ods_buf(&b) } else { read_fods_buf(&b) };
                    if back.map(|x| x.num_sheets()).unwrap_or(0) != book.num_sheets() { o = "incomplete"; }
                }
                cls.add(failed.get(), o, p);
            }
            Ok(cls.json(total))
        }
        // a path on a device that is full at some point: the size of files is limited while the save runs
        "save_limit" => {
            let n = a["b"].as_i64().unwrap_or(0);
            let fmt = s(&a["fmt"]);
            let book = st.books.get(&n).expect("harness: no book").clone();
            let p = format!("{}/limit.tmp", st.dir);
            let run = |bk: &mut WorkBook| if fmt == "ods" { es(write_ods(bk, &p)) } else { es(write_fods(bk, &p)) };
            if let Err(e) = run(&mut book.clone()) {
                return Some(Err(e));
            }
            let total = std::fs::metadata(&p).expect("harness: size").len();
            let mut cls = Classes::default();
            for k in points(a, total).into_iter().chain([total]) {
                let mut bk = book.clone();
                let r = {
                    let _limit = FileSize::limit(k);
                    catch_unwind(AssertUnwindSafe(|| run(&mut bk)))
                };
                let mut o = outcome(&r);
                if o == "ok" {
                    let b = std::fs::read(&p).expect("harness: read back");
                    let back = if fmt == "ods" { read_ods_buf(&b) } else { read_fods_buf(&b) };
                    if back.map(|x| x.num_sheets()).unwrap_or(0) != book.num_sheets() { o = "incomplete"; }
                }
                cls.add(k < total, o, k);
            }
            std::fs::remove_file(&p).ok();
            Ok(cls.json(total))
        }
        "save_path" => {
            // a device without space, a directory, a missing directory, ...
            let n = a["b"].as_i64().unwrap_or(0);
            let mut bk = st.books.get(&n).expect("harness: no book").clone();
            let p = match s(&a["to"]).as_str() {
                "full" => "/dev/full".to_string(),
                "dir" => st.dir.clone(),
                "missing" => format!("{}/no/such/dir/x", st.dir),
                _ => panic!("harness: path"),
            };
            let r = if s(&a["fmt"]) == "ods" { es(write_ods(&mut bk, &p)) } else { es(write_fods(&mut bk, &p)) };
            r.map(|_| json!([1]))
        }
        "load_path" => {
            let p = match s(&a["from"]).as_str() {
                "dir" => st.dir.clone(),
                "missing" => format!("{}/no/such/dir/x", st.dir),
                _ => panic!("harness: path"),
            };
            let r = if s(&a["fmt"]) == "ods" { es(read_ods(&p)).map(|_| ()) } else { es(read_fods(&p)).map(|_| ()) };
            r.map(|_| json!([1]))
        }
        "load_sweep" => {
            let f = s(&a["file"]);
            let fmt = s(&a["fmt"]);
            let mode = s(&a["mode"]);
            let bytes = st.files.get(&f).expect("harness: no file").clone();
            // white space behind the document is not part of it
            let mut total = bytes.len() as u64;
            if fmt == "fods" && mode == "trunc" {
                while total > 0 && bytes[total as usize - 1].is_ascii_whitespace() { total -= 1; }
            }
            if mode == "call" {
                let r = FailR { cur: Cursor::new(bytes.clone()), mode: "count".into(), at: 0, n: 0, failed: Default::default(), calls: Default::default() };
                let c = r.calls.clone();
                let q = if fmt == "ods" { es(read_ods_from(r)).map(|_| ()) } else { es(read_fods_from(r)).map(|_| ()) };
                if let Err(e) = q { return Some(Err(e)); }
                total = c.get();
            }
            let mut cls = Classes::default();
            for p in points(a, total) {
                let r = FailR { cur: Cursor::new(if mode == "trunc" { bytes[..p as usize].to_vec() } else { bytes.clone() }),
                                mode: mode.clone(), at: p, n: 0, failed: Default::default(), calls: Default::default() };
                let failed = r.failed.clone();
                let res = catch_unwind(AssertUnwindSafe(|| {
                    if fmt == "ods" { es(read_ods_from(r)).map(|_| ()) } else { es(read_fods_from(r)).map(|_| ()) }
                }));
                cls.add(failed.get() || mode == "trunc", outcome(&res), p);
            }
            Ok(cls.json(total))
        }
        "try_load" => {
            // malformed input: any outcome but a panic/hang; a document that is returned must be usable
            let bytes = std::fs::read(s(&a["path"])).expect("harness: try_load");
            let fmt = s(&a["fmt"]);
            let dir = st.dir.clone();
            match load(&bytes, &fmt, &s(&a["via"]), a, &dir) {
                Ok(mut b) => {
                    for i in 0..b.num_sheets() {
                        let sh = b.sheet(i);
                        let mut k = 0usize;
                        for x in sh.iter() { k += x.1.repeat() as usize; }
                        std::hint::black_box(k);
                        sh.used_grid_size();
                    }
                    if a.get("resave").is_some() && b.num_sheets() > 0 {
                        match save(&mut b, &fmt, "buf", &dir) {
                            Ok(_) => Ok(json!(["doc", "saved"])),
                            Err(_) => Ok(json!(["doc", "save-err"])),
                        }
                    } else {
                        Ok(json!(["doc", ""]))
                    }
                }
                Err(e) => Ok(json!(["err", e])),
            }
        }
        _ => return None,
    })
}
