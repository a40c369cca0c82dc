//! Executes scripts of API calls on the real library and records what happened.
//!
//!   harness run OUTDIR THREADS SCRIPT...
//!
//! A script is a file with one JSON object per line, one per call.  The trace has the same
//! lines, each with the call's result added: "ok" (false if the call panicked) and the
//! values it returned.  A line is written before the next call starts, so when a call
//! crashes or hangs, the trace ends just before it.
mod exec;
mod guard;
mod json;
mod long;
mod steps;

use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("HARNESS_SHOW_PANICS").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2], args[3].parse().unwrap(), &args[4..]),
        // script on stdin, trace on stdout, one thread: used under an interpreter
        Some("pipe") => {
            let mut text = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
            let stdout = std::io::stdout();
            run_script(&text, &mut stdout.lock());
        }
        Some("features") => {
            println!("std={} bench={} debug={}", cfg!(feature = "std"), cfg!(feature = "bench"), cfg!(debug_assertions))
        }
        _ => panic!("usage: harness run OUTDIR THREADS SCRIPT..."),
    }
}

/// One call per line.  The calls between "fork" and "join" are for threads: those with the
/// same "th" run in order on one thread, on objects of its own; the threads run at once.
fn run_script(text: &str, out: &mut dyn Write) {
    let mut m = exec::Machine::new();
    let mut threads: Option<Vec<(i64, Vec<(usize, json::J)>)>> = None;
    let mut held: Vec<&str> = Vec::new();
    let mut show = |line: &str, res: &str| writeln!(out, "{}{}}}", &line[..line.len() - 1], res).unwrap();
    for line in text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).chain(["{}"]) {
        if let (Some(ts), true) = (&mut threads, line == "{}" || line.starts_with("{\"op\":\"join\"") || line.starts_with("{\"op\":\"reset\"")) {
            let barrier = std::sync::Barrier::new(ts.len());
            let mut res = vec![String::new(); held.len()];
            std::thread::scope(|sc| {
                let hs: Vec<_> = ts
                    .iter()
                    .map(|(_, calls)| {
                        let barrier = &barrier;
                        sc.spawn(move || {
                            let mut m = exec::Machine::new();
                            barrier.wait();
                            calls.iter().map(|(i, e)| (*i, m.exec(e))).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                for h in hs {
                    for (i, r) in h.join().unwrap() {
                        res[i] = r;
                    }
                }
            });
            for (l, r) in held.drain(..).zip(&res) {
                show(l, r);
            }
            threads = None;
        }
        if line == "{}" {
            continue;
        }
        let ev = json::parse(line);
        match (ev.get("op").s(), &mut threads) {
            ("fork", _) => {
                threads = Some(Vec::new());
                show(line, "");
            }
            ("join", _) => show(line, ""),
            (_, Some(ts)) => {
                let th = ev.get("th").n();
                let i = held.len();
                held.push(line);
                match ts.iter_mut().find(|t| t.0 == th) {
                    Some(t) => t.1.push((i, ev)),
                    None => ts.push((th, vec![(i, ev)])),
                }
            }
            (_, None) => {
                let res = m.exec(&ev);
                show(line, &res);
            }
        }
    }
}

/// Names of the files being executed, for crash reports.
fn run(outdir: &str, threads: usize, files: &[String]) {
    let next = AtomicUsize::new(0);
    let tool_error = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= files.len() {
                    return;
                }
                let f = &files[i];
                let r = std::panic::catch_unwind(|| {
                    let text = std::fs::read_to_string(f).unwrap();
                    let base = std::path::Path::new(f).file_name().unwrap().to_str().unwrap();
                    let mut out = std::fs::File::create(format!("{}/{}", outdir, base)).unwrap();
                    run_script(&text, &mut out);
                });
                if let Err(e) = r {
                    let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    *tool_error.lock().unwrap() = Some(format!("{}: {:?}", f, msg));
                }
            });
        }
    });
    if let Some(e) = tool_error.into_inner().unwrap() {
        eprintln!("HARNESS-ERROR {}", e);
        std::process::exit(3);
    }
}
