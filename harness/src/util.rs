use serde_json::{json, Value};

/// xorshift64* random numbers
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 { r.0 = 1; }
        for _ in 0..8 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 11) % (n.max(1) as u64)) as usize }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
}

/// Little-endian base-256 limbs, without trailing zeros.
pub fn limbs(mut n: u64) -> Value {
    let mut v: Vec<u8> = vec![];
    while n > 0 { v.push((n & 255) as u8); n >>= 8; }
    json!(v)
}
pub fn unlimbs(v: &Value) -> u64 {
    v.as_array().unwrap().iter().rev().fold(0u64, |a, x| (a << 8) | x.as_u64().unwrap())
}
pub fn bytes(b: &[u8]) -> Value { json!(b) }
pub fn unbytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
pub fn sname(v: &Value) -> String { String::from_utf8(unbytes(v)).expect("script names are UTF-8") }
pub fn name(s: &str) -> Value { bytes(s.as_bytes()) }
pub fn opt(o: Option<Value>) -> Value { match o { None => json!([]), Some(v) => json!([v]) } }

/// Runs f; a panic of the code under test is a value.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}
