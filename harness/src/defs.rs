//! Definition histories: generation of scripts, and execution into traces.
use crate::api::*;
use crate::util::*;
use netcdf3::{Attribute, DataSet, DataVector, FileReader, FileWriter, Version};
use serde_json::{json, Value};

/// The data set of a file that defines what `ds` defines, as a reader gives it;
/// Ok(Err(why)) when the definition could not be written (or its number of records is not told by a file).
fn reopened(ds: &DataSet, ver: u64, hmin: usize) -> Result<DataSet, Value> {
    let p = std::env::current_dir().unwrap().join("reopen.nc");
    let r = guard(|| -> Result<DataSet, Value> {
        if ds.num_records().unwrap_or(0) > i32::max_value() as usize { return Err(json!({"k": "skip"})); }
        let v = if ver == 1 { Version::Classic } else { Version::Offset64Bit };
        let mut w = FileWriter::open(&p).map_err(|e| write_err(&e))?;
        w.set_def(ds, v, hmin).map_err(|_| json!({"k": "skip"}))?;
        drop(w);
        let r = FileReader::open(&p).map_err(|e| read_err(&e))?;
        Ok(r.close().0)
    });
    let _ = std::fs::remove_file(&p);
    r.unwrap_or(Err(json!({"k": "panic"})))
}

/// What == and != say about two data sets and their parts.
fn equalities(a: &DataSet, b: &DataSet) -> Value {
    fn m<T: PartialEq>(a: &[T], b: &[T]) -> Vec<Vec<bool>> { a.iter().map(|x| b.iter().map(|y| x == y).collect()).collect() }
    fn n<T: PartialEq>(a: &[T], b: &[T]) -> Vec<Vec<bool>> { a.iter().map(|x| b.iter().map(|y| !(x != y)).collect()).collect() }
    fn attrs(d: &DataSet) -> Vec<&Attribute> { d.get_global_attrs().into_iter().chain(d.get_vars().into_iter().flat_map(|v| v.get_attrs())).take(12).collect() }
    fn dv(a: &Attribute) -> DataVector {
        let d = unbytes(&attr_view(a)["d"]);
        match tname(&a.data_type()) {
            "i8" => DataVector::I8(i8s(&d)), "u8" => DataVector::U8(d), "i16" => DataVector::I16(i16s(&d)),
            "i32" => DataVector::I32(i32s(&d)), "f32" => DataVector::F32(f32s(&d)), _ => DataVector::F64(f64s(&d)),
        }
    }
    let (da, db) = (a.get_dims(), b.get_dims());
    let (va, vb) = (a.get_vars(), b.get_vars());
    let (aa, ab) = (attrs(a), attrs(b));
    let (ta, tb): (Vec<DataVector>, Vec<DataVector>) = (aa.iter().map(|x| dv(x)).collect(), ab.iter().map(|x| dv(x)).collect());
    json!({"eq": a == b, "ne": a != b, "qe": b == a, "en": b != a,
           "dims": m(&da, &db), "vars": m(&va, &vb), "attrs": m(&aa, &ab), "dvs": m(&ta, &tb),
           "ndims": n(&da, &db), "nvars": n(&va, &vb), "nattrs": n(&aa, &ab), "ndvs": n(&ta, &tb)})
}

/// Executes {"pre": [op], "ops": [op | probe | sizes]} on a new data set; with "fan", every one of the
/// "ops" is tried on its own new data set.  "model": the definition that the specification expects after "pre".
pub fn run(script: &Value) -> Value {
    let prepared = || {
        let mut ds = DataSet::new();
        if let Some(pre) = script["pre"].as_array() {
            for op in pre { let _ = def_op(&mut ds, op); }
        }
        match script["open"].as_u64() {
            None => ds,
            Some(v) => reopened(&ds, v, 0).unwrap_or(ds),
        }
    };
    let fan = script["fan"].as_bool().unwrap_or(false);
    let mut ds = prepared();
    let mut evs: Vec<Value> = vec![];
    let init = view(&ds);
    let model = if script["model"].is_null() { init.clone() } else { script["model"].clone() };
    for (k, op) in script["ops"].as_array().unwrap().iter().enumerate() {
        if fan && k > 0 { ds = prepared(); }
        match op["op"].as_str().unwrap() {
            "probe" => {
                let q = &op["q"];
                let ids: Vec<usize> = q["ids"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                match guard(|| probe(&mut ds, &sname(&q["dn"]), &sname(&q["vn"]), &sname(&q["an"]), &ids)) {
                    Ok(out) => evs.push(json!({"c": "probe", "q": q, "out": out})),
                    Err(()) => evs.push(json!({"c": "panic", "in": "probe"})),
                }
            }
            "sizes" => match guard(|| sizes(&ds)) {
                Ok(out) => evs.push(json!({"c": "sizes", "out": out})),
                Err(()) => evs.push(json!({"c": "panic", "in": "sizes"})),
            },
            "reopen" => {
                let e = match reopened(&ds, op["ver"].as_u64().unwrap_or(2), unlimbs(&op["hmin"]) as usize) {
                    Ok(d) => { ds = d; json!({"k": "ok"}) }
                    Err(e) => e,
                };
                match guard(|| view(&ds)) {
                    Ok(post) => evs.push(json!({"c": "reopen", "res": e, "post": post})),
                    Err(()) => { evs.push(json!({"c": "panic", "in": "view"})); break; }
                }
            }
            "eq" => {
                let mut other = DataSet::new();
                let same = op["self"].as_bool().unwrap_or(false);
                if let Some(pre) = op["pre"].as_array() { for o in pre { let _ = def_op(&mut other, o); } }
                if op["reopen"].as_bool().unwrap_or(false) { if let Ok(d) = reopened(&other, 2, 0) { other = d; } }
                match guard(|| { let o = if same { &ds } else { &other }; (view(o), equalities(&ds, o)) }) {
                    Ok((v, out)) => evs.push(json!({"c": "eq", "other": v, "out": out})),
                    Err(()) => evs.push(json!({"c": "panic", "in": "eq"})),
                }
            }
            _ => {
                let (res, ret) = def_op(&mut ds, op);
                match guard(|| view(&ds)) {
                    Ok(post) => evs.push(json!({"c": "op", "op": op, "res": res, "ret": ret, "post": post})),
                    Err(()) => { evs.push(json!({"c": "panic", "in": "view"})); break; }
                }
            }
        }
    }
    json!({"init": init, "model": model, "fan": fan, "evs": evs})
}

/// What the generator knows about the data set it builds (to aim at interesting calls; not an oracle).
#[derive(Default)]
struct Known { dims: Vec<String>, vars: Vec<String>, attrs: Vec<String>, vattrs: Vec<(String, String)> }

const POOL: [&str; 6] = ["a", "b", "c1", "_x", "é", "9 +"];
const BAD: [&str; 5] = ["", "!a", "a/b", "a\u{7f}", " b"];

/// Many names, of which some differ only in their case, their end, their length or their normalization.
fn big_pool(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in 0..40 { v.push(format!("n{}", i)); }
    for x in &["N1", "n01", "n1_", "n1.", "n1 x", "_n1", "A", "a", "aa", "aaa", "é", "e\u{301}", "É", "ss", "ß", "x\u{200d}", "日本", "日本語", "𝄞", "𝄞𝄞", "ﬁ", "fi", "Ω", "Ω"] { v.push(x.to_string()); }
    let l = 250 + r.below(6);
    for e in &["", "a", "b", "ab", "ba", "_"] { v.push("z".repeat(l) + e); }
    v.push("é".repeat(128));
    v.push("é".repeat(127) + "a");
    v
}

/// A few names that are easily taken for each other.
fn small_pool(r: &mut Rng) -> Vec<String> {
    let l = 250 + r.below(7);
    let long = |e: &str| "z".repeat(l - e.len()) + e;
    let p: Vec<String> = match r.below(8) {
        0 => ["a", "A", "b", "B", "aB", "Ab"].iter().map(|x| x.to_string()).collect(),
        1 => ["x", "x_", "x.", "x 1", "xx", "_x", "X"].iter().map(|x| x.to_string()).collect(),
        2 => ["é", "e\u{301}", "É", "e", "è"].iter().map(|x| x.to_string()).collect(),
        3 => ["a", "aa", "aaa", "aaaa", "aaaaa"].iter().map(|x| x.to_string()).collect(),
        4 => vec![long(""), long("a"), long("A"), long("b"), long("ab"), long("_")],
        5 => ["1", "01", "10", "1.0", "+1", "_1"].iter().filter(|x| **x != "+1").map(|x| x.to_string()).collect(),
        6 => ["é", "à", "日", "日本", "𝄞", "ﬁ", "fi", "ß", "ss"].iter().map(|x| x.to_string()).collect(),
        _ => (0..14).map(|i| format!("d{}", i)).collect(),
    };
    p
}

fn gname(r: &mut Rng, known: &[String], want_known: usize) -> String {
    if !known.is_empty() && r.chance(want_known) { return r.pick(known).clone(); }
    if r.chance(6) { return r.pick(&BAD).to_string(); }
    if r.chance(2) { let n = *r.pick(&[255usize, 256, 257]); return "a".repeat(n); }
    POOL_NOW.with(|p| { let p = p.borrow(); if p.is_empty() { r.pick(&POOL).to_string() } else { r.pick(&p).clone() } })
}
thread_local! { static POOL_NOW: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]); }
fn gsize(r: &mut Rng) -> u64 {
    *r.pick(&[0u64, 1, 1, 2, 3, 4, 5, 7, 255, 256, 65536, 0x7fff_fffb, 0x7fff_fffc, 0x7fff_fffd, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, u64::MAX])
}
/// A size of a dimension that lets many variables have representable sizes.
fn gsize2(r: &mut Rng) -> u64 { if r.chance(75) { 1 + r.below(9) as u64 } else { gsize(r) } }
pub fn gdata(r: &mut Rng, t: &str, max: usize) -> Vec<u8> {
    let n = if r.chance(15) { 0 } else { 1 + r.below(max) };
    gdata_n(r, t, n)
}
pub fn gdata_n(r: &mut Rng, t: &str, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mode = r.below(4);
    for _ in 0..n {
        if mode == 0 || r.chance(20) {
            let special: Vec<u8> = match t {
                "i8" => vec![*r.pick(&[0x80u8, 0x81, 0x7f, 0xff, 0])],
                "u8" => vec![*r.pick(&[0u8, 0xff, 0x80, b'a', 0xc3])],
                "i16" => r.pick(&[0x8000u16, 0x8001, 0x7fff, 0xffff, 0x00ff]).to_be_bytes().to_vec(),
                "i32" => r.pick(&[0x8000_0000u32, 0x8000_0001, 0x7fff_ffff, 0xffff_ffff, 0x0102_0304]).to_be_bytes().to_vec(),
                "f32" => r.pick(&[0x7fc0_0001u32, 0x7f80_0001, 0xffbf_ffff, 0x7f80_0000, 0xff80_0000, 0x8000_0000, 0, 0x7cf0_0000, 1]).to_be_bytes().to_vec(),
                _ => r.pick(&[0x7ff8_0000_0000_0001u64, 0x7ff0_0000_0000_0001, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x8000_0000_0000_0000, 0, 0x479e_0000_0000_0000, 1]).to_be_bytes().to_vec(),
            };
            v.extend(special);
        } else {
            for _ in 0..tsize(t) { v.push(r.next() as u8); }
        }
    }
    v
}
fn gtext(r: &mut Rng) -> Vec<u8> {
    let n = r.below(6);
    (0..n).map(|_| *r.pick(&["a", "é", "€", "𝄞", "\u{0}", " "])).collect::<String>().into_bytes()
}

fn gop(r: &mut Rng, k: &mut Known) -> Value {
    let nd = k.dims.len();
    let nv = k.vars.len();
    let w = r.below(100);
    if w < 14 || (nd == 0 && w < 40) {
        let n = gname(r, &k.dims, 15);
        k.dims.push(n.clone());
        return json!({"op": "add_fixed_dim", "name": name(&n), "size": limbs(gsize2(r))});
    }
    if w < 20 {
        let n = gname(r, &k.dims, 15);
        k.dims.push(n.clone());
        return json!({"op": "set_unlimited_dim", "name": name(&n), "size": limbs(if r.chance(20) { 0 } else { gsize2(r) })});
    }
    if w < 36 || (nv == 0 && w < 60) {
        let n = gname(r, &k.vars, 15);
        let m = r.below(5);
        let mut dims: Vec<Value> = (0..m).map(|_| name(&gname(r, &k.dims, 92))).collect();
        if r.chance(15) && !k.dims.is_empty() {
            // many different dimensions, of which one may be there twice
            let mut all: Vec<String> = k.dims.clone();
            all.sort();
            all.dedup();
            for i in (1..all.len()).rev() { let j = r.below(i + 1); all.swap(i, j); }
            all.truncate(3 + r.below(8));
            if r.chance(60) { let x = r.pick(&all).clone(); let at = r.below(all.len() + 1); all.insert(at, x); }
            if r.chance(15) { let at = r.below(all.len() + 1); all.insert(at, "undefined".to_string()); }
            dims = all.iter().map(|x| name(x)).collect();
        }
        k.vars.push(n.clone());
        return json!({"op": "add_var", "via": *r.pick(&["typed", "generic"]), "name": name(&n), "dims": dims, "t": *r.pick(&TYPES)});
    }
    let t = *r.pick(&TYPES);
    if w < 44 {
        let n = gname(r, &k.attrs, 15);
        k.attrs.push(n.clone());
        if r.chance(20) { return json!({"op": "add_gattr", "via": "string", "name": name(&n), "t": "u8", "d": bytes(&gtext(r))}); }
        return json!({"op": "add_gattr", "via": "typed", "name": name(&n), "t": t, "d": bytes(&gdata(r, t, 4))});
    }
    if w < 58 {
        let v = gname(r, &k.vars, 92);
        let pool: Vec<String> = k.vattrs.iter().map(|x| x.1.clone()).collect();
        let n = gname(r, &pool, 25);
        k.vattrs.push((v.clone(), n.clone()));
        let via = *r.pick(&["typed", "mut", "string", "mutstring"]);
        let (t, d) = if via.ends_with("string") { ("u8", gtext(r)) } else { (t, gdata(r, t, 4)) };
        return json!({"op": "add_vattr", "via": via, "var": name(&v), "name": name(&n), "t": t, "d": bytes(&d)});
    }
    let ren = |r: &mut Rng, pool: &[String]| -> (String, String) {
        let a = gname(r, pool, 90);
        let b = if r.chance(12) { a.clone() } else { gname(r, pool, 30) };
        (a, b)
    };
    if w < 65 { let (a, b) = ren(r, &k.dims); k.dims.push(b.clone()); return json!({"op": "rename_dim", "name": name(&a), "new": name(&b)}); }
    if w < 72 { let (a, b) = ren(r, &k.vars); k.vars.push(b.clone()); return json!({"op": "rename_var", "name": name(&a), "new": name(&b)}); }
    if w < 77 { let (a, b) = ren(r, &k.attrs); k.attrs.push(b.clone()); return json!({"op": "rename_gattr", "name": name(&a), "new": name(&b)}); }
    let vpool: Vec<String> = k.vattrs.iter().map(|x| x.1.clone()).collect();
    let va = if !k.vattrs.is_empty() && r.chance(80) { r.pick(&k.vattrs).clone() } else { (gname(r, &k.vars, 85), gname(r, &vpool, 80)) };
    if w < 83 {
        let b = if r.chance(12) { va.1.clone() } else { gname(r, &vpool, 30) };
        k.vattrs.push((va.0.clone(), b.clone()));
        return json!({"op": "rename_vattr", "via": "typed", "var": name(&va.0), "name": name(&va.1), "new": name(&b)});
    }
    if w < 88 { let n = gname(r, &k.dims, 90); return json!({"op": "remove_dim", "name": name(&n)}); }
    if w < 92 { let n = gname(r, &k.vars, 90); return json!({"op": "remove_var", "name": name(&n)}); }
    if w < 95 { let n = gname(r, &k.attrs, 90); return json!({"op": "remove_gattr", "name": name(&n)}); }
    json!({"op": "remove_vattr", "via": *r.pick(&["typed", "mut"]), "var": name(&va.0), "name": name(&va.1)})
}
fn gprobe(r: &mut Rng, k: &Known) -> Value {
    let vpool: Vec<String> = k.vattrs.iter().map(|x| x.1.clone()).collect();
    let (mut vn, mut an) = (gname(r, &k.vars, 95), gname(r, &k.attrs, 95));
    if !k.vattrs.is_empty() && r.chance(65) { let p = r.pick(&k.vattrs).clone(); vn = p.0; an = p.1; } else if r.chance(30) { an = gname(r, &vpool, 95); }
    let m = r.below(4);
    let ids: Vec<usize> = (0..m).map(|_| r.below(k.dims.len().min(6) + 1)).collect();
    json!({"op": "probe", "q": {"dn": name(&gname(r, &k.dims, 95)), "vn": name(&vn), "an": name(&an), "ids": ids}})
}

/// Another history, nearly the same.
fn mutate(r: &mut Rng, hist: &[Value]) -> Vec<Value> {
    let mut h: Vec<Value> = hist.to_vec();
    if h.is_empty() { return h; }
    let i = r.below(h.len());
    match r.below(8) {
        0 | 1 => {}
        2 => { h.remove(i); }
        3 => { if i + 1 < h.len() { h.swap(i, i + 1); } }
        4 => { let j = r.below(h.len()); h.swap(i, j); }
        5 | 6 => {
            // the values of an attribute: a bit, the sign, the length
            let with: Vec<usize> = (0..h.len()).filter(|j| h[*j]["d"].as_array().map(|d| !d.is_empty()).unwrap_or(false)).collect();
            if !with.is_empty() {
                let j = *r.pick(&with);
                let mut d = unbytes(&h[j]["d"]);
                let t = h[j]["t"].as_str().unwrap().to_string();
                let string = h[j]["via"].as_str().map(|x| x.ends_with("string")).unwrap_or(false);
                if string { d = b"ab".to_vec(); }
                else if t.starts_with('f') && r.chance(70) {
                    // the first value: 0.0 or -0.0
                    for b in d[..tsize(&t)].iter_mut() { *b = 0; }
                    if r.chance(50) { d[0] = 0x80; }
                }
                else {
                    match r.below(3) {
                        0 => { let b = r.below(d.len()); d[b] ^= 1 << r.below(8); }
                        1 => { d[0] ^= 0x80; }
                        _ => { let l = d.len() - tsize(&t); d.truncate(l); }
                    }
                }
                h[j]["d"] = bytes(&d);
            }
        }
        _ => {
            let o = h[i].as_object_mut().unwrap();
            if o.contains_key("size") { o.insert("size".to_string(), limbs(1 + r.below(4) as u64)); }
            else if o.contains_key("dims") { if r.chance(50) { o.get_mut("dims").unwrap().as_array_mut().unwrap().pop(); } else { o.insert("t".to_string(), json!(*r.pick(&TYPES))); } }
            else if o.contains_key("new") { o.insert("new".to_string(), name(r.pick(&POOL))); }
            else { o.insert("name".to_string(), name(r.pick(&POOL))); }
        }
    }
    h
}

/// kind: "ops" (definition calls only), "probe" (with lookups), "sizes" (with sizes), "all", "eq" (with equality),
/// "many" and "manyprobe" (many items and many names)
pub fn gen(kind: &str, r: &mut Rng, len: usize) -> Value {
    let mut k = Known::default();
    let mut ops: Vec<Value> = vec![];
    let mut hist: Vec<Value> = vec![];
    let n = len / 2 + r.below(len);
    let many = kind.starts_with("many");
    POOL_NOW.with(|p| *p.borrow_mut() = vec![]);
    if !many && r.chance(45) { let p = small_pool(r); POOL_NOW.with(|x| *x.borrow_mut() = p); }
    if many { let b = big_pool(r); POOL_NOW.with(|p| *p.borrow_mut() = b); }
    for _ in 0..n {
        let mut o = gop(r, &mut k);
        // (many items: most of what would remove something adds something)
        for _ in 0..2 { if many && o["op"].as_str().unwrap().starts_with("remove") { o = gop(r, &mut k); } }
        if many && r.chance(2) && o["op"].as_str().unwrap().starts_with("add_") && o["via"] == "typed" && o["d"].is_array() {
            let t = o["t"].as_str().unwrap().to_string();
            let l = *r.pick(&[255usize, 256, 257, 1000, 4097]);
            o["d"] = bytes(&gdata_n(r, &t, l));
        }
        hist.push(o.clone());
        ops.push(o);
        if r.chance(if kind == "eq" { 5 } else { 4 }) { ops.push(json!({"op": "reopen", "ver": 1 + r.below(2), "hmin": limbs(*r.pick(&[0u64, 0, 100, 1024]))})); }
        if kind == "eq" && r.chance(35) {
            let pre = mutate(r, &hist);
            ops.push(json!({"op": "eq", "pre": pre, "self": r.chance(10), "reopen": r.chance(30)}));
        }
        if kind == "manyprobe" && r.chance(30) { ops.push(gprobe(r, &k)); }
        if (kind == "probe" || kind == "all") && r.chance(50) { ops.push(gprobe(r, &k)); }
        if (kind == "sizes" || kind == "all") && r.chance(40) { ops.push(json!({"op": "sizes"})); }
    }
    if kind == "sizes" || kind == "all" { ops.push(json!({"op": "sizes"})); }
    POOL_NOW.with(|p| *p.borrow_mut() = vec![]);
    json!({"ops": ops})
}

/// Data sets around the limit of the number of dimensions of a variable.
pub fn gen_maxdims() -> Vec<Value> {
    let mut out = vec![];
    for unlim in [false, true] {
        let mut pre = vec![];
        if unlim { pre.push(json!({"op": "set_unlimited_dim", "name": name("u"), "size": limbs(2)})); }
        for i in 0..1026 { pre.push(json!({"op": "add_fixed_dim", "name": name(&format!("d{}", i)), "size": limbs(1)})); }
        let dims = |n: usize| -> Vec<Value> {
            let mut v: Vec<Value> = if unlim { vec![name("u")] } else { vec![] };
            let mut i = 0;
            while v.len() < n { v.push(name(&format!("d{}", i))); i += 1; }
            v
        };
        let ops: Vec<Value> = [1025usize, 1024, 1026, 1023].iter().enumerate().map(|(i, n)| {
            json!({"op": "add_var", "via": "generic", "name": name(&format!("v{}", i)), "dims": dims(*n), "t": TYPES[i]})
        }).chain([json!({"op": "sizes"})]).collect();
        out.push(json!({"pre": pre, "ops": ops}));
    }
    out
}

/// Sizes: products of random dimensions, small and huge.
pub fn gen_sizes(r: &mut Rng) -> Value {
    let mut pre = vec![];
    let nd = 1 + r.below(5);
    let mut names = vec![];
    let u = r.below(nd + 2);
    for i in 0..nd {
        let n = format!("d{}", i);
        let s = match r.below(5) { 0 => 1 + r.below(4) as u64, 1 => 1 + r.below(300) as u64, 2 => 1 + r.below(70000) as u64, 3 => r.next() % 0x7fff_fffc + 1, _ => *r.pick(&[1u64, 2, 3, 0x7fff_fffc, 0x8000, 0x10000, 0x1000000]) };
        if i == u { pre.push(json!({"op": "set_unlimited_dim", "name": name(&n), "size": limbs(if r.chance(20) { 0 } else if r.chance(20) { s << r.below(30) } else { s })})); }
        else { pre.push(json!({"op": "add_fixed_dim", "name": name(&n), "size": limbs(s)})); }
        names.push(n);
    }
    let nv = 1 + r.below(4);
    for i in 0..nv {
        let mut pool: Vec<usize> = (0..nd).collect();
        let mut dims = vec![];
        if u < nd { pool.retain(|x| *x != u); if r.chance(65) { dims.push(name(&names[u])); } }
        while !pool.is_empty() && r.chance(60) { let j = r.below(pool.len()); dims.push(name(&names[pool.remove(j)])); }
        pre.push(json!({"op": "add_var", "via": "generic", "name": name(&format!("v{}", i)), "dims": dims, "t": *r.pick(&TYPES)}));
    }
    let mut ops = vec![json!({"op": "sizes"})];
    match r.below(3) {
        0 => { ops.push(json!({"op": "rename_dim", "name": name("d0"), "new": name("z")})); ops.push(json!({"op": "sizes"})); }
        1 => { ops.push(json!({"op": "remove_var", "name": name("v0")})); ops.push(json!({"op": "sizes"})); }
        _ => {}
    }
    json!({"pre": pre, "ops": ops})
}
