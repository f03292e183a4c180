mod api;
mod defs;
mod fault;
mod io;
mod names;
mod util;
use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use util::*;

fn write_lines(path: &str, it: impl Iterator<Item = Value>) {
    let mut f = BufWriter::new(std::fs::File::create(path).unwrap());
    for v in it { writeln!(f, "{}", v).unwrap(); }
}
fn read_lines(path: &str) -> Vec<Value> {
    std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args[i].as_str();
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    match a(1) {
        // def-gen kind seed count len out
        "def-gen" => {
            let mut r = Rng::new(num(3));
            let n = num(4) as usize;
            let len = num(5) as usize;
            let kind = a(2).to_string();
            write_lines(a(6), (0..n).map(|_| if kind == "bigsizes" { defs::gen_sizes(&mut r) } else { defs::gen(&kind, &mut r, len) })
                .chain(if kind == "ops" || kind == "sizes" { defs::gen_maxdims() } else { vec![] }).collect::<Vec<_>>().into_iter());
        }
        // run kind scripts out scratch
        "run" => supervise(&args),
        "child" => child(&args),
        // names tier seed out scratch
        "names" => {
            std::panic::set_hook(Box::new(|_| {}));
            let mut r = Rng::new(num(3));
            write_lines(a(4), names::run(&mut r, a(2), std::path::Path::new(a(5))).into_iter());
        }
        x => { eprintln!("unknown command {}", x); std::process::exit(2); }
    }
}

/// Executes the scripts from number `start` on; writes one trace per line.
fn child(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let kind = args[2].clone();
    let scripts = read_lines(&args[3]);
    let scratch = std::path::PathBuf::from(&args[5]);
    let start: usize = args[6].parse().unwrap();
    // a refused allocation ends the process
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&args[4]).unwrap();
    for s in &scripts[start..] {
        let t = match kind.as_str() {
            "def" => defs::run(s),
            "io" => io::run(s, &scratch),
            _ => panic!(),
        };
        let mut line = t.to_string();
        line.push('\n');
        f.write_all(line.as_bytes()).unwrap();
    }
}

/// Runs `child`; when it dies or hangs, the script it was executing gets a trace that says so.
fn supervise(args: &[String]) {
    let n = read_lines(&args[3]).len();
    let out = args[4].clone();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::write(&out, "");
    let count = || std::io::BufReader::new(std::fs::File::open(&out).unwrap()).lines().count();
    let mut start = 0;
    let mut deaths = 0;
    while start < n {
        let exe = std::env::current_exe().unwrap();
        let mut c = std::process::Command::new(exe).arg("child").args(&args[2..6]).arg(start.to_string()).spawn().unwrap();
        let mut last = std::fs::metadata(&out).unwrap().len();
        let mut t = std::time::Instant::now();
        let how;
        loop {
            if let Some(st) = c.try_wait().unwrap() { how = if st.success() { "ok" } else { "abort" }; break; }
            let l = std::fs::metadata(&out).unwrap().len();
            if l != last { last = l; t = std::time::Instant::now(); }
            if t.elapsed().as_secs() > 30 { let _ = c.kill(); let _ = c.wait(); how = "hang"; break; }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        let done = count();
        if how == "ok" && done >= n { break; }
        if how == "ok" { eprintln!("harness: child stopped early"); std::process::exit(2); }
        let mut f = std::fs::OpenOptions::new().append(true).open(&out).unwrap();
        writeln!(f, "{}", dead(&args[2], vec![json!({"c": how, "ev": how})])).unwrap();
        start = done + 1;
        deaths += 1;
        if deaths >= 20 {   // enough evidence
            for _ in start..n { writeln!(f, "{}", dead(&args[2], vec![])).unwrap(); }
            break;
        }
    }
}

/// The trace of a script whose execution did not end.
fn dead(kind: &str, evs: Vec<Value>) -> Value {
    let e = json!({"dims": [], "attrs": [], "vars": []});
    if kind == "io" { return json!({"tag": "", "evs": evs}); }
    json!({"init": e, "model": e, "fan": false, "evs": evs})
}
