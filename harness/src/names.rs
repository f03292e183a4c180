//! The names accepted, by is_valid_name and by every entry point.
use crate::api::*;
use crate::util::*;
use netcdf3::{is_valid_name, DataSet, Version, FileReader, FileWriter};
use serde_json::{json, Value};

/// For each context, the verdict on every character, as maximal intervals of scalar values.
fn intervals(pre: &str, post: &str) -> Value {
    let mut out: Vec<Value> = vec![];
    let mut cur: Option<(u32, u32, bool)> = None;
    for c in 0..0x110000u32 {
        let ch = match char::from_u32(c) { None => continue, Some(ch) => ch };
        let s = format!("{}{}{}", pre, ch, post);
        let ok = guard(|| is_valid_name(&s)).unwrap_or(ch == '/');   // a panic shows as a wrong verdict
        cur = match cur {
            Some((a, b, v)) if v == ok && (b + 1 == c || (b == 0xd7ff && c == 0xe000)) => Some((a, c, v)),
            Some((a, b, v)) => { out.push(json!([a, b, v as u8])); Some((c, c, ok)) }
            None => Some((c, c, ok)),
        };
    }
    if let Some((a, b, v)) = cur { out.push(json!([a, b, v as u8])); }
    json!({"c": "chars", "pre": name(pre), "post": name(post), "iv": out})
}

fn valid_ev(s: &str) -> Value {
    json!({"c": "valid", "name": name(s), "ok": match guard(|| is_valid_name(s)) { Ok(true) => 1, Ok(false) => 0, Err(()) => 2 }})
}

/// One name at every entry point, each on a small data set made by "pre".
fn entry_points(s: &str) -> Vec<Value> {
    let n = name(s);
    let pre = json!([{"op": "add_fixed_dim", "name": name("D"), "size": [1]}, {"op": "add_var", "via": "generic", "name": name("V"), "dims": [name("D")], "t": "i8"},
        {"op": "add_gattr", "via": "typed", "name": name("A"), "t": "u8", "d": [1]}, {"op": "add_vattr", "via": "typed", "var": name("V"), "name": name("A"), "t": "u8", "d": [1]}]);
    let mut ops: Vec<Value> = vec![
        json!({"op": "add_fixed_dim", "name": n, "size": [1]}), json!({"op": "set_unlimited_dim", "name": n, "size": [1]}),
        json!({"op": "rename_dim", "name": name("D"), "new": n}), json!({"op": "rename_var", "name": name("V"), "new": n}),
        json!({"op": "rename_gattr", "name": name("A"), "new": n}), json!({"op": "rename_vattr", "via": "typed", "var": name("V"), "name": name("A"), "new": n}),
        json!({"op": "add_gattr", "via": "string", "name": n, "t": "u8", "d": [97]}), json!({"op": "add_vattr", "via": "string", "var": name("V"), "name": n, "t": "u8", "d": [97]}),
        json!({"op": "add_vattr", "via": "mutstring", "var": name("V"), "name": n, "t": "u8", "d": [97]})];
    for t in TYPES {
        let d = vec![0u8; tsize(t)];
        ops.push(json!({"op": "add_var", "via": "typed", "name": n, "dims": [name("D")], "t": t}));
        ops.push(json!({"op": "add_var", "via": "generic", "name": n, "dims": [], "t": t}));
        ops.push(json!({"op": "add_gattr", "via": "typed", "name": n, "t": t, "d": bytes(&d)}));
        ops.push(json!({"op": "add_vattr", "via": "typed", "var": name("V"), "name": n, "t": t, "d": bytes(&d)}));
        ops.push(json!({"op": "add_vattr", "via": "mut", "var": name("V"), "name": n, "t": t, "d": bytes(&d)}));
    }
    ops.into_iter().map(|op| json!({"pre": pre, "ops": [op]})).collect()
}

/// A header that holds the name (given as bytes) as a dimension, variable, global attribute or variable attribute.
fn file_with(nm: &[u8], place: usize) -> Vec<u8> {
    fn i(b: &mut Vec<u8>, x: u32) { b.extend_from_slice(&x.to_be_bytes()); }
    fn s(b: &mut Vec<u8>, n: &[u8]) { i(b, n.len() as u32); b.extend_from_slice(n); while b.len() % 4 != 0 { b.push(0); } }
    let nm_or = |p: usize, d: &'static str| -> Vec<u8> { if p == place { nm.to_vec() } else { d.as_bytes().to_vec() } };
    let mut b = b"CDF\x01".to_vec();
    i(&mut b, 0);
    i(&mut b, 10); i(&mut b, 1); s(&mut b, &nm_or(0, "D")); i(&mut b, 2);
    i(&mut b, 12); i(&mut b, 1); s(&mut b, &nm_or(1, "A")); i(&mut b, 2); i(&mut b, 1); b.extend_from_slice(&[65, 0, 0, 0]);
    i(&mut b, 11); i(&mut b, 1); s(&mut b, &nm_or(2, "V")); i(&mut b, 1); i(&mut b, 0);
    i(&mut b, 12); i(&mut b, 1); s(&mut b, &nm_or(3, "B")); i(&mut b, 2); i(&mut b, 1); b.extend_from_slice(&[65, 0, 0, 0]);
    i(&mut b, 1); i(&mut b, 4); let begin = (b.len() + 4) as u32; i(&mut b, begin); b.extend_from_slice(&[1, 2, 0x81, 0x81]);
    b
}
fn in_file(dir: &std::path::Path, nm: &[u8]) -> Vec<Value> {
    (0..4).map(|p| {
        let path = dir.join("n.nc");
        std::fs::write(&path, file_with(nm, p)).unwrap();
        let ok = match guard(|| FileReader::open(&path).is_ok()) { Ok(true) => 1, Ok(false) => 0, Err(()) => 2 };
        json!({"c": "filename", "name": bytes(nm), "place": p, "ok": ok})
    }).collect()
}

pub fn strings(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in 0..128u8 { v.push((c as char).to_string()); v.push(format!("a{}", c as char)); v.push(format!("é{}b", c as char)); }
    for pat in ["a", "é", "€", "𝄞", "a€", "éa", "_𝄞"] {
        for k in [0usize, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
            let mut s = String::new();
            while s.len() < k { let before = s.len(); s.push_str(pat); if before == s.len() { break; } }
            v.push(s.clone());
            if s.pop().is_some() { v.push(s.clone()); }
            while s.len() < k { s.push('z'); }
            v.push(s.clone()); s.push('.'); v.push(s);
        }
    }
    // one character that matters, at any place of a name of any length
    for k in [2usize, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257] {
        for at in [0, 1, k / 2, k - 2, k - 1, r.below(k)] {
            for c in ['/', '\u{7f}', '\n', '\u{0}', ' ', '~', 'é', '𝄞'] {
                let w = c.len_utf8();
                if at + w > k { continue; }
                v.push(format!("{}{}{}", "a".repeat(at), c, "a".repeat(k - at - w)));
            }
        }
    }
    for _ in 0..n {
        let len = 1 + r.below(9);
        let s: String = (0..len).map(|i| {
            match r.below(8) {
                0 if i > 0 => *r.pick(&[' ', '.', '@', '+', '-', '!', '"', '#', '~', '\\', ':', '^', '`', '|', '{']),
                1 => char::from_u32(r.next() as u32 % 0x110000).unwrap_or('x'),
                2 => char::from_u32(128 + r.next() as u32 % 0x800).unwrap_or('x'),
                3 if r.chance(30) => (r.below(128) as u8) as char,
                _ => *r.pick(&['a', 'Z', '0', '9', '_', 'q']),
            }
        }).collect();
        v.push(s);
    }
    v
}

pub fn run(r: &mut Rng, tier: &str, dir: &std::path::Path) -> Vec<Value> {
    let mut traces: Vec<Value> = vec![];
    let empty = view(&DataSet::new());
    for (pre, post) in [("", ""), ("a", ""), ("a", "b"), ("", "x"), ("é", "9"), ("_.", " z")] {
        traces.push(json!({"init": empty, "model": empty, "fan": false, "evs": [intervals(pre, post)]}));
    }
    let n = if tier == "thorough" { 20000 } else { 1500 };
    let all = strings(r, n);
    for chunk in all.chunks(50) { traces.push(json!({"init": empty, "model": empty, "fan": false, "evs": chunk.iter().map(|s| valid_ev(s)).collect::<Vec<_>>()})); }
    // every pair of ASCII characters
    for a in 0..128u8 {
        let evs: Vec<Value> = (0..128u8).map(|b| valid_ev(&format!("{}{}", a as char, b as char))).collect();
        traces.push(json!({"init": empty, "model": empty, "fan": false, "evs": evs}));
    }
    // entry points
    let mut ep: Vec<String> = ["a", "_", "0", "é", "a b", "€!", "", " ", "!", "/", "a/", "a\n", "\u{7f}", "a\u{7f}", "a\u{0}", "-a", "a-", ".a", "\u{80}", "a\u{80}"].iter().map(|s| s.to_string()).collect();
    ep.push("a".repeat(256)); ep.push("a".repeat(257)); ep.push(format!("{}é", "a".repeat(254))); ep.push(format!("{}é", "a".repeat(255)));
    for c in ["/", "\n", "~", " "] { ep.push(format!("{}{}", "a".repeat(255), c)); ep.push(format!("{}{}b", "a".repeat(r.below(250)), c)); }
    let m = if tier == "thorough" { 400 } else { 25 };
    for _ in 0..m { ep.push(r.pick(&all).clone()); }
    for s in &ep { for sc in entry_points(s) { traces.push(crate::defs::run(&sc)); } }
    // files
    let mut fnames: Vec<Vec<u8>> = ep.iter().map(|s| s.as_bytes().to_vec()).collect();
    for b in [&[0x80u8][..], &[b'a', 0xc3], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[b'a', 0xed, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x80, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xff], &[b'a', 0xfe], &[0xf0, 0x9d, 0x84, 0x9e], &[0xe2, 0x82], &[b'a', 0x80], &[0xc2, 0x41], &[0xf5, 0x80, 0x80, 0x80]] { fnames.push(b.to_vec()); }
    for _ in 0..(if tier == "thorough" { 2000 } else { 150 }) {
        let len = 1 + r.below(6);
        fnames.push((0..len).map(|_| if r.chance(60) { *r.pick(&[b'a', b'_', b'9', b' ']) } else { r.next() as u8 }).collect());
    }
    for f in &fnames { traces.push(json!({"init": empty, "model": empty, "fan": false, "evs": in_file(dir, f)})); }
    let _ = (Version::Classic, FileWriter::open(dir.join("unused.nc")).is_ok());
    traces
}
