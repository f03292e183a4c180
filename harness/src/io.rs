//! Writing sessions, readers and files: execution of scripts into traces.
use crate::api::*;
use crate::fault;
use crate::util::*;
use netcdf3::{DataSet, DataType, DataVector, FileReader, FileWriter, Version};
use netcdf3::error::{ReadError, WriteError};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};

fn ver(v: &Value) -> Version { if v.as_u64() == Some(2) { Version::Offset64Bit } else { Version::Classic } }
fn vnum(v: &Version) -> u64 { match v { Version::Classic => 1, Version::Offset64Bit => 2 } }
fn ok() -> Value { json!({"k": "ok"}) }
fn panicked() -> Value { json!({"k": "panic"}) }
fn wres(r: Result<Result<(), WriteError>, ()>) -> Value {
    match r { Ok(Ok(())) => ok(), Ok(Err(e)) => write_err(&e), Err(()) => panicked() }
}
fn dv_type(d: &DataVector) -> &'static str {
    match d { DataVector::I8(_) => "i8", DataVector::U8(_) => "u8", DataVector::I16(_) => "i16", DataVector::I32(_) => "i32", DataVector::F32(_) => "f32", DataVector::F64(_) => "f64" }
}
fn rres(r: Result<Result<DataVector, ReadError>, ()>) -> Value {
    match r {
        Ok(Ok(d)) => {
            let mut x = json!({"k": "ok", "t": dv_type(&d), "d": bytes(&b_dv(&d))});
            if let Some(w) = dv_routes(&d) { x["dv"] = json!(w); }
            x
        }
        Ok(Err(e)) => read_err(&e),
        Err(()) => panicked(),
    }
}
/// Something that the accessors of a vector tell otherwise than the vector itself.
pub fn dv_routes(d: &DataVector) -> Option<String> {
    let t = dv_type(d);
    let b = b_dv(d);
    if tname(&d.data_type()) != t { return Some("data_type".to_string()); }
    if d.len() * tsize(t) != b.len() { return Some("len".to_string()); }
    let by_ref = [d.get_i8().map(b_i8), d.get_u8().map(|x| x.to_vec()), d.get_i16().map(b_i16), d.get_i32().map(b_i32), d.get_f32().map(b_f32), d.get_f64().map(b_f64)];
    let back = |x: DataVector| (dv_type(&x) == t && b_dv(&x) == b, None::<Vec<u8>>);
    let into = [
        d.clone().get_i8_into().map(|x| (true, Some(b_i8(&x)))).unwrap_or_else(back),
        d.clone().get_u8_into().map(|x| (true, Some(x))).unwrap_or_else(back),
        d.clone().get_i16_into().map(|x| (true, Some(b_i16(&x)))).unwrap_or_else(back),
        d.clone().get_i32_into().map(|x| (true, Some(b_i32(&x)))).unwrap_or_else(back),
        d.clone().get_f32_into().map(|x| (true, Some(b_f32(&x)))).unwrap_or_else(back),
        d.clone().get_f64_into().map(|x| (true, Some(b_f64(&x)))).unwrap_or_else(back),
    ];
    for k in 0..6 {
        let exp = if TYPES[k] == t { Some(b.clone()) } else { None };
        if by_ref[k] != exp { return Some(format!("get_{}", TYPES[k])); }
        if into[k] != (true, exp) { return Some(format!("get_{}_into", TYPES[k])); }
    }
    None
}

/// The parts of a (sparse) file that hold data, cut into pieces without long runs of zeros.
pub fn extents(path: &Path) -> Vec<(u64, Vec<u8>)> {
    use std::io::{Read, Seek, SeekFrom};
    let mut f = std::fs::File::open(path).unwrap();
    let len = f.metadata().unwrap().len();
    let mut out: Vec<(u64, Vec<u8>)> = vec![];
    let mut pos: i64 = 0;
    while (pos as u64) < len {
        let d = unsafe { libc::lseek(f.as_raw_fd(), pos, libc::SEEK_DATA) };
        if d < 0 { break; }
        let mut h = unsafe { libc::lseek(f.as_raw_fd(), d, libc::SEEK_HOLE) };
        if h < 0 { h = len as i64; }
        f.seek(SeekFrom::Start(d as u64)).unwrap();
        let mut at = d as u64;
        let mut buf = vec![0u8; 1 << 16];
        while at < h as u64 {
            let n = std::cmp::min(buf.len() as u64, h as u64 - at) as usize;
            f.read_exact(&mut buf[..n]).unwrap();
            // pieces: no run of 64 zeros inside
            let mut i = 0;
            while i < n {
                if buf[i] == 0 { i += 1; continue; }
                let start = i;
                let mut last = i;
                while i < n && i - last < 64 { if buf[i] != 0 { last = i; } i += 1; }
                out.push((at + start as u64, buf[start..last + 1].to_vec()));
            }
            at += n as u64;
        }
        pos = h;
    }
    out
}

/// Length and hash of the file.
pub fn fp(path: &Path) -> Value {
    let md = match std::fs::metadata(path) { Err(_) => return json!([]), Ok(m) => m };
    let mut h1: u64 = 0xcbf29ce484222325;
    let mut h2: u64 = 0x9e3779b97f4a7c15;
    let mut add = |b: u8| {
        h1 = (h1 ^ b as u64).wrapping_mul(0x100000001b3);
        h2 = (h2.rotate_left(5) ^ b as u64).wrapping_mul(0x517cc1b727220a95);
    };
    if md.len() <= 1 << 20 {
        for b in std::fs::read(path).unwrap() { add(b); }
    } else {
        for (o, d) in extents(path) { for b in o.to_be_bytes() { add(b); } for b in d { add(b); } }
    }
    json!([{"len": limbs(md.len()), "h": [(h1 >> 33) as u64, (h2 >> 33) as u64]}])
}

fn write_var(w: &mut FileWriter<'static>, n: &str, t: &str, d: &[u8]) -> Result<(), WriteError> {
    match dtype(t) {
        DataType::I8 => w.write_var_i8(n, &i8s(d)), DataType::U8 => w.write_var_u8(n, d), DataType::I16 => w.write_var_i16(n, &i16s(d)),
        DataType::I32 => w.write_var_i32(n, &i32s(d)), DataType::F32 => w.write_var_f32(n, &f32s(d)), DataType::F64 => w.write_var_f64(n, &f64s(d)),
    }
}
fn write_record(w: &mut FileWriter<'static>, n: &str, t: &str, i: usize, d: &[u8]) -> Result<(), WriteError> {
    match dtype(t) {
        DataType::I8 => w.write_record_i8(n, i, &i8s(d)), DataType::U8 => w.write_record_u8(n, i, d), DataType::I16 => w.write_record_i16(n, i, &i16s(d)),
        DataType::I32 => w.write_record_i32(n, i, &i32s(d)), DataType::F32 => w.write_record_f32(n, i, &f32s(d)), DataType::F64 => w.write_record_f64(n, i, &f64s(d)),
    }
}
pub fn read_var(r: &mut FileReader, n: &str, t: &str) -> Result<DataVector, ReadError> {
    match t {
        "" => r.read_var(n),
        "i8" => r.read_var_i8(n).map(DataVector::I8), "u8" => r.read_var_u8(n).map(DataVector::U8), "i16" => r.read_var_i16(n).map(DataVector::I16),
        "i32" => r.read_var_i32(n).map(DataVector::I32), "f32" => r.read_var_f32(n).map(DataVector::F32), _ => r.read_var_f64(n).map(DataVector::F64),
    }
}
pub fn read_record(r: &mut FileReader, n: &str, t: &str, i: usize) -> Result<DataVector, ReadError> {
    match t {
        "" => r.read_record(n, i),
        "i8" => r.read_record_i8(n, i).map(DataVector::I8), "u8" => r.read_record_u8(n, i).map(DataVector::U8), "i16" => r.read_record_i16(n, i).map(DataVector::I16),
        "i32" => r.read_record_i32(n, i).map(DataVector::I32), "f32" => r.read_record_f32(n, i).map(DataVector::F32), _ => r.read_record_f64(n, i).map(DataVector::F64),
    }
}
fn rall(r: Result<Result<HashMap<String, DataVector>, ReadError>, ()>) -> Value {
    match r {
        Ok(Ok(m)) => {
            let dv = m.iter().filter_map(|(_, d)| dv_routes(d)).next();
            let mut v: Vec<(String, DataVector)> = m.into_iter().collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            let mut x = json!({"k": "ok", "m": v.iter().map(|(n, d)| json!({"n": name(n), "t": dv_type(d), "d": bytes(&b_dv(d))})).collect::<Vec<_>>()});
            if let Some(w) = dv { x["dv"] = json!(w); }
            x
        }
        Ok(Err(e)) => read_err(&e),
        Err(()) => panicked(),
    }
}

fn set_limit(n: Option<u64>) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut l = std::mem::zeroed::<libc::rlimit>();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = match n { Some(n) => n as libc::rlim_t, None => l.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

struct Intern { tab: Vec<Value>, ix: HashMap<String, usize> }
impl Intern {
    fn new() -> Intern { Intern { tab: vec![], ix: HashMap::new() } }
    fn get(&mut self, v: Value) -> usize {
        let k = v.to_string();
        if let Some(i) = self.ix.get(&k) { return *i; }
        self.tab.push(v);
        self.ix.insert(k, self.tab.len());
        self.tab.len()
    }
}

/// Opens every prefix of the file (of the lengths asked for) and reads everything in it.
fn cuts(dir: &Path, src: &Path, lens: Option<&Vec<Value>>, maxrec: usize) -> Value {
    let b = std::fs::read(src).unwrap();
    let p = dir.join("cut.nc");
    let mut tab = Intern::new();
    let mut rows: Vec<Value> = vec![];
    // what to read, from the whole file
    let mut reads: Vec<(String, Option<usize>)> = vec![];
    if let Ok(Ok(r)) = guard(|| FileReader::open(src)) {
        for v in r.data_set().get_vars() {
            reads.push((v.name().to_string(), None));
            let n = guard(|| v.num_chunks()).unwrap_or(0);
            for i in 0..std::cmp::min(n, maxrec) { reads.push((v.name().to_string(), Some(i))); }
        }
    }
    let all: Vec<usize> = match lens { None => (0..b.len()).collect(), Some(l) => l.iter().map(|x| x.as_u64().unwrap() as usize).filter(|x| *x <= b.len()).collect() };
    for l in all {
        std::fs::write(&p, &b[..l]).unwrap();
        let (mut o, mut res): (usize, Vec<usize>) = (0, vec![]);
        match guard(|| FileReader::open(&p)) {
            Err(()) => { o = tab.get(panicked()); }
            Ok(Err(e)) => { o = tab.get(read_err(&e)); }
            Ok(Ok(mut r)) => {
                o = tab.get(json!({"k": "ok", "view": view(r.data_set()), "ver": vnum(&r.version())}));
                for (n, i) in &reads {
                    let v = match i { None => rres(guard(|| r.read_var(n))), Some(i) => rres(guard(|| r.read_record(n, *i))) };
                    res.push(tab.get(v));
                }
            }
        }
        rows.push(json!([l, o, res]));
    }
    let _ = std::fs::remove_file(&p);
    json!({"c": "cuts", "b": bytes(&b), "reads": reads.iter().map(|(n, i)| json!({"n": name(n), "i": opt(i.map(|i| json!(i)))})).collect::<Vec<_>>(), "tab": tab.tab, "rows": rows})
}

pub struct World {
    dir: PathBuf,
    /// how the files are named
    style: u64,
    /// the definitions (never freed: sessions refer to them)
    ds: Vec<*mut DataSet>,
    w: Option<(FileWriter<'static>, usize)>,
    r: Option<(FileReader, usize)>,
    limited: Option<u64>,
    last: usize,
    /// the sessions and readers that are not the current ones
    slots: Vec<(Option<(FileWriter<'static>, usize)>, Option<(FileReader, usize)>, Option<u64>, usize)>,
    cur: usize,
}

impl World {
    fn path(&self, p: usize) -> PathBuf {
        use std::os::unix::ffi::OsStrExt;
        match self.style {
            1 if std::env::current_dir().map(|d| d == self.dir).unwrap_or(false) => PathBuf::from(format!("./f{}.nc", p)),
            2 => self.dir.join(std::ffi::OsStr::from_bytes(&[b'f', 0xff, b'\n', b' ', b'0' + p as u8])),
            3 => self.dir.join(format!("l{}.nc", p)),      // (a symbolic link)
            4 => self.dir.join("n".repeat(254) + &p.to_string()),
            _ => self.dir.join(format!("f{}.nc", p)),
        }
    }
    /// Opens what is no file, or what no file can be; what it leaves behind
    fn odd(&self, what: &str, how: &str) -> Value {
        let d = self.dir.join("odd");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir(&d).unwrap();
        std::fs::write(d.join("plain"), b"CDF").unwrap();
        let path = match what {
            "dir" => d.clone(),
            "missing" => d.join("no").join("f.nc"),
            "under" => d.join("plain").join("f.nc"),
            "long" => d.join("n".repeat(256)),
            "nul" => d.join("a\u{0}b"),
            "empty" => PathBuf::new(),
            "loop" => { std::os::unix::fs::symlink(d.join("loop"), d.join("loop")).unwrap(); d.join("loop") }
            x => panic!("unknown place {}", x),
        };
        let before = std::fs::read_dir(&d).unwrap().count();
        let res = match how {
            "cn" => guard(|| FileWriter::create_new(&path).map(|_| ()).map_err(|e| write_err(&e))),
            "op" => guard(|| FileWriter::open(&path).map(|_| ()).map_err(|e| write_err(&e))),
            _ => guard(|| FileReader::open(&path).map(|_| ()).map_err(|e| read_err(&e))),
        };
        let res = match res { Ok(Ok(())) => ok(), Ok(Err(e)) => e, Err(()) => panicked() };
        let same = std::fs::read_dir(&d).unwrap().count() == before && std::fs::read(d.join("plain")).map(|b| b == b"CDF").unwrap_or(false);
        let _ = std::fs::remove_dir_all(&d);
        json!({"res": res, "same": same})
    }
    fn acc(&self) -> Value {
        match &self.w {
            None => json!([]),
            Some((w, p)) => json!([{
                "hd": w.header_is_defined(),
                "ds": opt(w.data_set().map(|d| json!(self.ds.iter().position(|e| std::ptr::eq(*e as *const DataSet, d)).map(|i| i + 1).unwrap_or(0)))),
                "dsv": opt(w.data_set().map(|d| view(d))),
                "ver": opt(w.version().map(|v| json!(vnum(&v)))),
                "hmin": opt(w.header_min_size().map(|h| limbs(h as u64))),
                "path": w.file_path() == self.path(*p),
            }]),
        }
    }

    fn exec(&mut self, e: &Value) -> Value {
        let mut out = e.clone();
        let p = e["p"].as_u64().unwrap_or(0) as usize;
        let path = self.path(p);
        let lim = self.limited;
        if let Some((_, p)) = &self.w { self.last = *p; }
        let rlast = self.r.as_ref().map(|x| x.1).unwrap_or(0);
        let (mut part, mut failed) = (0, 0);
        // a call of the code under test: with the storage limit and the transfers of the schedule
        macro_rules! call { ($x:expr) => {{
            if lim.is_some() { set_limit(lim); }
            fault::arm();
            let r = guard(|| $x);
            let (p, f) = fault::disarm();
            if lim.is_some() { set_limit(None); }
            part += p;
            failed += f;
            r
        }} }
        match e["c"].as_str().unwrap() {
            "put" => { std::fs::write(&path, unbytes(&e["b"])).unwrap(); }
            "putx" => {
                // a file with holes: its first bytes, pieces, and its length
                use std::io::{Seek, SeekFrom, Write};
                std::fs::write(&path, unbytes(&e["b"])).unwrap();
                let mut f = std::fs::OpenOptions::new().write(true).open(&path).unwrap();
                for x in e["x"].as_array().unwrap() {
                    f.seek(SeekFrom::Start(unlimbs(&x["o"]))).unwrap();
                    f.write_all(&unbytes(&x["d"])).unwrap();
                }
                f.set_len(unlimbs(&e["len"])).unwrap();
            }
            "poke" => {
                // other bytes at a place of the file, or the file cut there
                let mut b = std::fs::read(&path).unwrap();
                let o = if b.is_empty() { 0 } else { e["o"].as_u64().unwrap() as usize % b.len() };
                if e["b"].as_array().unwrap().is_empty() { b.truncate(o); }
                for (k, x) in unbytes(&e["b"]).iter().enumerate() { if o + k < b.len() { b[o + k] = *x; } }
                std::fs::write(&path, b).unwrap();
            }
            "odd" => { let o = self.odd(e["what"].as_str().unwrap(), e["how"].as_str().unwrap()); out["res"] = o["res"].clone(); out["same"] = o["same"].clone(); }
            "rm" => { let _ = std::fs::remove_file(&path); }
            "ds" => {
                let mut d = DataSet::new();
                for op in e["ops"].as_array().unwrap() { let _ = def_op(&mut d, op); }
                // "at": the data set takes the place of an earlier one (which no session refers to any more)
                let at = e["at"].as_u64().unwrap_or(0) as usize;
                let v = view(&d);
                if at >= 1 && at <= self.ds.len() {
                    let old = self.ds[at - 1];
                    let used = |w: &Option<(FileWriter<'static>, usize)>| w.as_ref().and_then(|w| w.0.data_set()).map(|d| std::ptr::eq(d, old as *const DataSet)).unwrap_or(false);
                    assert!(!used(&self.w) && !self.slots.iter().any(|s| used(&s.0)), "the data set is in use");
                    unsafe { *old = d; }
                } else {
                    self.ds.push(Box::into_raw(Box::new(d)));
                }
                out = json!({"c": "ds", "view": v, "at": at});
            }
            c @ "cn" | c @ "op" => {
                let r = if c == "cn" { call!(FileWriter::create_new(&path)) } else { call!(FileWriter::open(&path)) };
                out["res"] = match r { Ok(Ok(w)) => { self.w = Some((w, p)); ok() } Ok(Err(x)) => write_err(&x), Err(()) => panicked() };
                out["acc"] = self.acc();
            }
            "sd" => {
                let d: &'static DataSet = unsafe { &*self.ds[e["d"].as_u64().unwrap() as usize - 1] };
                let h = unlimbs(&e["hmin"]) as usize;
                let w = &mut self.w.as_mut().unwrap().0;
                out["res"] = wres(call!(w.set_def(d, ver(&e["ver"]), h)));
                out["acc"] = self.acc();
            }
            "wv" => {
                let w = &mut self.w.as_mut().unwrap().0;
                out["res"] = wres(call!(write_var(w, &sname(&e["n"]), e["t"].as_str().unwrap(), &unbytes(&e["d"]))));
                out["acc"] = self.acc();
            }
            "wr" => {
                let w = &mut self.w.as_mut().unwrap().0;
                out["res"] = wres(call!(write_record(w, &sname(&e["n"]), e["t"].as_str().unwrap(), unlimbs(&e["i"]) as usize, &unbytes(&e["d"]))));
                out["acc"] = self.acc();
            }
            "acc" => { out["acc"] = self.acc(); }
            "close" => { let w = self.w.take().unwrap().0; out["res"] = wres(call!(w.close())); }
            "drop" => { let w = self.w.take().unwrap().0; out["res"] = wres(call!({ drop(w); Ok(()) })); }
            "forget" => { std::mem::forget(self.w.take().unwrap().0); out["res"] = ok(); }
            "lim" => { self.limited = Some(unlimbs(&e["l"])); }
            "unlim" => { self.limited = None; }
            "snap" => { out["b"] = if path.exists() { json!([bytes(&std::fs::read(&path).unwrap())]) } else { json!([]) }; }
            "ext" => {
                let x = extents(&path);
                out["x"] = x.iter().map(|(o, d)| json!({"o": limbs(*o), "d": bytes(d)})).collect::<Vec<_>>().into();
            }
            "ro" => {
                self.r = None;
                out["res"] = match call!(FileReader::open(&path)) {
                    Ok(Ok(r)) => {
                        let v = guard(|| view(r.data_set()));
                        let x = match v { Ok(v) => json!({"k": "ok", "view": v, "ver": vnum(&r.version()), "path": r.file_path() == path}), Err(()) => panicked() };
                        self.r = Some((r, p));
                        x
                    }
                    Ok(Err(x)) => read_err(&x),
                    Err(()) => panicked(),
                };
            }
            "rv" => {
                out["res"] = match &mut self.r { None => json!({"k": "closed"}), Some((r, _)) => rres(call!(read_var(r, &sname(&e["n"]), e["t"].as_str().unwrap()))) };
            }
            "rr" => {
                out["res"] = match &mut self.r { None => json!({"k": "closed"}), Some((r, _)) => rres(call!(read_record(r, &sname(&e["n"]), e["t"].as_str().unwrap(), unlimbs(&e["i"]) as usize))) };
            }
            "ra" => { out["res"] = match &mut self.r { None => json!({"k": "closed"}), Some((r, _)) => rall(call!(r.read_all_vars())) }; }
            "rview" => {
                out["res"] = match &self.r { None => json!({"k": "closed"}), Some((r, _)) => json!({"k": "ok", "view": view(r.data_set()), "ver": vnum(&r.version()), "path": true}) };
            }
            "rc" => {
                out["res"] = match self.r.take() { None => json!({"k": "closed"}), Some((r, _)) => { let (d, ver) = r.close(); json!({"k": "ok", "view": view(&d), "ver": vnum(&ver), "path": true}) } };
            }
            // the reader gives its data set to the sessions
            "rcd" => {
                out["res"] = match self.r.take() {
                    None => json!({"k": "closed"}),
                    Some((r, _)) => {
                        let (d, ver) = r.close();
                        let v = view(&d);
                        self.ds.push(Box::into_raw(Box::new(d)));
                        json!({"k": "ok", "view": v, "ver": vnum(&ver), "path": true})
                    }
                };
            }
            "sw" => {
                let z = e["z"].as_u64().unwrap() as usize;
                while self.slots.len() <= std::cmp::max(z, self.cur) { self.slots.push((None, None, None, 0)); }
                self.slots[self.cur] = (self.w.take(), self.r.take(), self.limited.take(), self.last);
                let (w, r, l, last) = std::mem::replace(&mut self.slots[z], (None, None, None, 0));
                self.limited = l;
                self.last = last;
                self.w = w;
                self.r = r;
                self.cur = z;
            }
            "fault" => {
                let b = |n: &str| e[n].as_bool().unwrap_or(true);
                fault::set(unbytes(&e["s"]), e["from"].as_u64().unwrap_or(0) as usize, e["cycle"].as_bool().unwrap_or(false), b("reads"), b("writes"));
            }
            "nofault" => fault::clear(),
            "same" => {}
            "cuts" => { out = cuts(&self.dir, &path, e.get("lens").and_then(|x| x.as_array()), 6); }
            x => panic!("unknown event {}", x),
        }
        // what the accessors of a vector tell otherwise than the vector
        if let Some(w) = out.get_mut("res").and_then(|x| x.as_object_mut()).and_then(|x| x.remove("dv")) { out["dv"] = w; }
        if part > 0 { out["part"] = json!(true); }
        if failed > 0 { out["ferr"] = json!(true); }
        if fault::frozen() { out["froze"] = json!(true); }
        // the events of the session and of the reader show the file they work on
        let c = e["c"].as_str().unwrap().to_string();
        let q = if e["p"].is_u64() { p } else if c.starts_with('r') { rlast } else { self.w.as_ref().map(|x| x.1).unwrap_or(self.last) };
        if !["ds", "cuts", "sw", "fault", "nofault", "same", "odd", "lim", "unlim"].contains(&c.as_str()) {
            // (nothing to see of a reader that could not be opened)
            out["fp"] = if c.starts_with('r') && out["res"]["k"] == "closed" { json!([]) } else { fp(&self.path(q)) };
        }
        out
    }
}

/// "rvs": every variable and record, typed and untyped (expanded on what the file tells)
fn expand(w: &World, e: &Value) -> Vec<Value> {
    if e["c"] != "rvs" { return vec![e.clone()]; }
    let mut v = vec![];
    if let Some((r, _)) = &w.r {
        for x in r.data_set().get_vars() {
            let n = name(x.name());
            let t = tname(&x.data_type());
            v.push(json!({"c": "rv", "n": n, "t": ""}));
            v.push(json!({"c": "rv", "n": n, "t": t}));
            let k = guard(|| x.num_chunks()).unwrap_or(0);
            let mut ix: Vec<usize> = (0..std::cmp::min(k, 5)).collect();
            if k > 5 { ix.extend(vec![k / 2, k - 2, k - 1]); }
            for i in ix { v.push(json!({"c": "rr", "n": n, "t": if i % 2 == 0 { "" } else { t }, "i": limbs(i as u64)})); }
            v.push(json!({"c": "rr", "n": n, "t": t, "i": limbs(k as u64)}));
        }
        v.push(json!({"c": "ra"}));
    }
    v
}

const ON_SESSION: [&str; 7] = ["sd", "wv", "wr", "acc", "close", "drop", "forget"];

/// Executes events one after the other, into a trace.
struct Run { w: World, evs: Vec<Value> }
impl Run {
    fn new(dir: &Path) -> Run {
        Run { w: World { dir: dir.to_path_buf(), style: 0, ds: vec![], w: None, r: None, limited: None, last: 0, slots: vec![], cur: 0 }, evs: vec![] }
    }
    fn remove_files(&self) {
        for p in 0..3 {
            let _ = std::fs::remove_file(self.w.path(p));
            if self.w.style == 3 {
                let t = self.w.dir.join(format!("t{}.nc", p));
                let _ = std::fs::remove_file(&t);
            }
        }
    }
    fn prepare_files(&self) {
        self.remove_files();
        if self.w.style == 3 { for p in 0..3 { std::os::unix::fs::symlink(self.w.dir.join(format!("t{}.nc", p)), self.w.path(p)).unwrap(); } }
    }
    /// Everything from the beginning, in the same trace.
    fn reset(&mut self) {
        fault::clear();
        let dir = self.w.dir.clone();
        if let Some((w, _)) = self.w.w.take() { std::mem::forget(w); }
        let style = self.w.style;
        self.w = Run::new(&dir).w;
        self.w.style = style;
        self.prepare_files();
        self.evs.push(json!({"c": "reset"}));
    }
    /// Executes one event; (a partial or failed transfer happened, the process stopped)
    fn one(&mut self, x: &Value) -> (bool, bool) {
        // a call on a session that could not be created
        if self.w.w.is_none() && ON_SESSION.contains(&x["c"].as_str().unwrap()) { return (false, false); }
        let mut o = self.w.exec(x);
        if o.get("tw").is_some() { o["twp"] = x["twp"].clone(); }
        let hit = o.get("part").is_some() || o.get("ferr").is_some();
        let froze = o.get("froze").is_some();
        self.evs.push(o);
        if froze {
            // the process is gone: what it had stored is there
            if self.w.w.is_some() { let f = self.w.exec(&json!({"c": "forget"})); self.evs.push(f); }
            self.w.r = None;
            fault::clear();
            self.evs.push(json!({"c": "stop"}));
        }
        (hit, froze)
    }
    /// Executes a list of events; did something happen to a transfer?
    fn all(&mut self, l: &[Value]) -> bool {
        let mut any = false;
        for e in l {
            if e["c"] == "cp" { any |= self.copy(e); continue; }
            for x in expand(&self.w, e) { let (h, f) = self.one(&x); any |= h || f; }
        }
        any
    }
    /// "cp": what the reader has open is written to path p through a new session
    fn copy(&mut self, e: &Value) -> bool {
        let mut any = false;
        let (src, vars): (usize, Vec<(Value, &'static str)>) = match &self.w.r {
            None => return false,
            Some((r, p)) => (*p, r.data_set().get_vars().iter().map(|v| (name(v.name()), tname(&v.data_type()))).collect()),
        };
        let mut data: Vec<(Value, &'static str, Value)> = vec![];
        for (n, t) in &vars {
            any |= self.one(&json!({"c": "rv", "n": n, "t": ""})).0;
            let res = &self.evs.last().unwrap()["res"];
            if res["k"] == "ok" { data.push((n.clone(), t, res["d"].clone())); }
        }
        let ver = match (&self.w.r, e["ver"].as_u64()) { (Some((r, _)), Some(0)) => vnum(&r.version()), (_, v) => v.unwrap_or(2) };
        self.one(&json!({"c": "rcd"}));
        let d = self.w.ds.len();
        let q = e["p"].clone();
        let mut l = vec![json!({"c": "op", "p": q}), json!({"c": "sd", "d": d, "ver": ver, "hmin": e["hmin"]})];
        if e["rev"] == true { data.reverse(); }
        for (n, t, b) in data { l.push(json!({"c": "wv", "n": n, "t": t, "d": b})); }
        l.push(json!({"c": "close"}));
        l.push(json!({"c": "snap", "p": src}));
        l.push(json!({"c": "snap", "p": q}));
        l.push(json!({"c": "same", "p": src, "q": q}));
        any | self.all(&l)
    }
}

/// The events of a script executed by a new process.
fn alone_run(style: Value, evs: Vec<Value>, dir: &Path) -> Vec<Value> {
    let d = dir.join("alone");
    std::fs::create_dir_all(&d).unwrap();
    let (script, out) = (d.join("script"), d.join("out"));
    std::fs::write(&script, json!({"style": style, "evs": evs}).to_string() + "\n").unwrap();
    let _ = std::fs::remove_file(&out);
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("child").arg("io").arg(&script).arg(&out).arg(&d).arg("0").status().unwrap();
    let res = match std::fs::read_to_string(&out) {
        Ok(t) if st.success() => serde_json::from_str::<Value>(&t).unwrap()["evs"].as_array().unwrap().clone(),
        _ => vec![json!({"c": "abort"})],
    };
    std::fs::remove_dir_all(&d).unwrap();
    res
}

pub fn run(script: &Value, dir: &Path) -> Value {
    let mut r = Run::new(dir);
    fault::clear();
    r.w.style = script["style"].as_u64().unwrap_or(0);
    r.prepare_files();
    let none = vec![];
    let list = |n: &str| script[n].as_array().unwrap_or(&none).clone();
    if let Some(sw) = script.get("sweep") {
        // the same events with a fault at every transfer, until there is no such transfer
        let acts = unbytes(&sw["acts"]);
        let b = |n: &str| sw[n].as_bool().unwrap_or(true);
        for a in acts {
            for from in 0..sw["max"].as_u64().unwrap_or(200) as usize {
                r.reset();
                fault::set(vec![a], from, sw["cycle"].as_bool().unwrap_or(false), b("reads"), b("writes"));
                if !r.all(&list("evs")) { break; }
            }
        }
    } else if let Some(sc) = script.get("scheds") {
        // the same events, without and with transfers in parts
        r.reset();
        let first = r.evs.len();
        r.all(&list("evs"));
        for s in sc.as_array().unwrap() {
            r.reset();
            fault::set(unbytes(&s["s"]), s["from"].as_u64().unwrap_or(0) as usize, s["cycle"].as_bool().unwrap_or(true), true, true);
            let n = r.evs.len();
            r.all(&list("evs"));
            for k in n..r.evs.len() { r.evs[k]["tw"] = json!(first + (k - n) + 1); r.evs[k]["twp"] = script["twp"].clone(); }
        }
    } else if script["without"] == "rejected" {
        // the same events, with and without the calls that are refused
        let mut kept: Vec<(Value, Vec<usize>)> = vec![];
        r.reset();
        for e in list("evs") {
            let n = r.evs.len();
            r.all(&[e.clone()]);
            let refused = ["sd", "wv", "wr"].contains(&e["c"].as_str().unwrap()) && r.evs[n..].iter().any(|o| o["res"]["k"] == "err");
            if !refused { kept.push((e, (n + 1..r.evs.len() + 1).collect())); }
        }
        r.reset();
        for (e, of) in kept {
            let n = r.evs.len();
            r.all(&[e]);
            for k in n..r.evs.len() { r.evs[k]["tw"] = json!(of.get(k - n).cloned().unwrap_or(0)); r.evs[k]["twp"] = script["twp"].clone(); }
        }
    } else if let Some(parts) = script.get("parts") {
        // each part alone, then all of them interleaved
        let parts: Vec<Vec<Value>> = parts.as_array().unwrap().iter().map(|p| p.as_array().unwrap().clone()).collect();
        let mut alone: Vec<Vec<usize>> = vec![];
        for p in &parts {
            // (in a process of its own)
            r.evs.push(json!({"c": "reset"}));
            let n = r.evs.len() + list("pre").len();
            r.evs.extend(alone_run(script["style"].clone(), [list("pre"), p.clone()].concat(), dir));
            alone.push((n + 1..r.evs.len() + 1).collect());
        }
        r.reset();
        r.all(&list("pre"));
        let mut queue: Vec<std::collections::VecDeque<Value>> = parts.into_iter().map(|p| p.into_iter().collect()).collect();
        let mut done = vec![0; queue.len()];
        let mut order: std::collections::VecDeque<usize> = list("order").iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let mut cur = 0;
        loop {
            let z = match order.pop_front() { Some(z) => z, None => match queue.iter().position(|q| !q.is_empty()) { Some(z) => z, None => break } };
            if queue[z].is_empty() { continue; }
            if z != cur { r.one(&json!({"c": "sw", "z": z})); cur = z; }
            let e = queue[z].pop_front().unwrap();
            for x in expand(&r.w, &e).into_iter().rev() { queue[z].push_front(x); }
            let x = match queue[z].pop_front() { Some(x) => x, None => continue };
            if e["c"] == "rvs" && x["c"] == "rvs" { continue; }
            let n = r.evs.len();
            r.one(&x);
            if r.evs.len() > n {
                r.evs[n]["tw"] = json!(alone[z].get(done[z]).cloned().unwrap_or(0));
                r.evs[n]["twp"] = script["twp"].clone();
                done[z] += 1;
            }
        }
    } else {
        r.all(&list("evs"));
    }
    fault::clear();
    r.remove_files();
    json!({"tag": script["tag"].as_str().unwrap_or(""), "evs": r.evs})
}
