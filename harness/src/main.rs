//! Conformance harness: executes scripted calls against imgproc-rs and records
//! one result line per call.
//!
//! usage: harness SCRIPT START           (results on stdout, one JSON object a line)
//!        harness SCRIPT START CALLERS   (the calls are made by that many threads at
//!                                        once; the results come out in script order)
mod guard;
mod ops;
mod samp;
mod session;
mod files;

use imgproc_rs::error::{ImgIoError, ImgProcError};
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static ALLOC: guard::Guarded = guard::Guarded;

pub enum Out { Ok(Value), Err(&'static str), Skip }

pub fn proc_kind(e: &ImgProcError) -> &'static str {
    match e {
        ImgProcError::InvalidArgError(_) => "arg",
        ImgProcError::NumericError(_) => "num",
        ImgProcError::RulinalgError(_) => "ruli",
    }
}

pub fn io_kind(e: &ImgIoError) -> &'static str {
    match e {
        ImgIoError::UnsupportedFileFormatError(_) => "format",
        ImgIoError::UnsupportedColorTypeError(_) => "color",
        ImgIoError::IoError(_) => "io",
        ImgIoError::ImageReaderError(_) => "reader",
        ImgIoError::ImageWriteError(_) => "write",
        ImgIoError::OtherError(_) => "other",
    }
}

fn outcome(i: i64, res: std::thread::Result<Out>) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("i".into(), json!(i));
    match res {
        Ok(Out::Ok(o)) => { m.insert("r".into(), json!("ok")); m.insert("o".into(), o); }
        Ok(Out::Err(k)) => { m.insert("r".into(), json!("err")); m.insert("ek".into(), json!(k)); }
        Ok(Out::Skip) => { m.insert("r".into(), json!("skip")); }
        Err(_) => { m.insert("r".into(), json!("panic")); }
    }
    m
}

/// Several threads take the calls of the script in turn, so that neighbouring calls overlap.
fn concurrent(lines: Vec<Value>, callers: usize) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let next = AtomicUsize::new(0);
    let done = std::sync::Mutex::new((0usize, std::collections::BTreeMap::new()));
    std::thread::scope(|sc| {
        for _ in 0..callers {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= lines.len() { return; }
                let e = &lines[k];
                if e["s"].as_str().unwrap_or("") != "" { panic!("script: a session cannot overlap") }
                let res = catch_unwind(AssertUnwindSafe(|| ops::run(e)));
                let m = outcome(e["i"].as_i64().unwrap(), res);
                let mut d = done.lock().unwrap();
                d.1.insert(k, Value::Object(m));
                let mut o = std::io::stdout().lock();
                loop {
                    let at = d.0;
                    let Some(v) = d.1.remove(&at) else { break };
                    writeln!(o, "{}", v).unwrap();
                    d.0 += 1;
                }
                o.flush().unwrap();
            });
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let start: i64 = args.get(2).map(|s| s.parse().unwrap()).unwrap_or(0);
    std::panic::set_hook(Box::new(|info| {
        // A mistake in the script is an error of the check, not a result.
        let text = format!("{}", info);
        if text.contains("script") || text.contains("src/samp.rs") || text.contains("src/files.rs") {
            eprintln!("{}", text);
            std::process::exit(3);
        }
    }));
    let file = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    if let Some(n) = args.get(3) {
        let lines: Vec<Value> = file.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap())
            .filter(|e: &Value| e["i"].as_i64().unwrap() >= start).collect();
        return concurrent(lines, n.parse().unwrap());
    }
    let out = std::io::stdout();
    let mut sess = session::Sessions::new();
    let mut fsess = files::Files::new();
    for line in file.lines() {
        let line = line.unwrap();
        if line.is_empty() { continue; }
        let e: Value = serde_json::from_str(&line).unwrap();
        let i = e["i"].as_i64().unwrap();
        if i < start { continue; }
        let kind = e["s"].as_str().unwrap_or("");
        let mut extra = Map::new();
        let res = catch_unwind(AssertUnwindSafe(|| match kind {
            "C" => sess.run(&e),
            "F" => fsess.run(&e),
            _ => ops::run(&e),
        }));
        guard::set(0);
        if kind == "C" { extra.insert("st".into(), sess.snapshot(&e)); }
        if kind == "F" { extra.insert("st".into(), fsess.snapshot()); }
        let mut m = outcome(i, res);
        m.extend(extra);
        let mut o = out.lock();
        writeln!(o, "{}", Value::Object(m)).unwrap();
        o.flush().unwrap();
    }
}
