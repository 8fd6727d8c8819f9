//! Shared helpers of all drivers: seeded randomness, integer projection of floats, trace output.
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Value logged for anything that cannot be expressed exactly on the integer grid of a trace.
pub const BAD: i64 = -7;
pub const LIMIT: f64 = 1.0e8;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Self(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in lo..=hi.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn bool(&mut self, num: i64, den: i64) -> bool {
        self.int(0, den - 1) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[(self.next() % xs.len() as u64) as usize]
    }
    /// Traded volume of a candle, which nothing but the volume of a sum of candles may depend on.
    pub fn volume(&mut self) -> f64 {
        *self.pick(&[0.0, 0.0, 0.5, 1.0, 1.0, 1000.25])
    }
    pub fn pick_i(&mut self, xs: &[i64]) -> i64 {
        *self.pick(xs)
    }
}

/// Project `v` on the grid of 1/scale; BAD when it is not on the grid (or not finite or too big).
pub fn grid(v: f64, scale: f64) -> i64 {
    let x = v * scale;
    if !x.is_finite() {
        return BAD;
    }
    let r = x.round();
    if r.abs() > LIMIT || (x - r).abs() > 1e-6 {
        return BAD;
    }
    r as i64
}

/// Projects with rounding (for tolerance based comparisons).
pub fn near(v: f64, scale: f64) -> i64 {
    let x = v * scale;
    if !x.is_finite() || x.abs() > 1.0e9 {
        return -999_999_999;
    }
    x.round() as i64
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_owned()
        } else {
            "panic".to_owned()
        }
    })
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub scen: Option<String>,
    pub opts: std::collections::HashMap<String, String>,
}

impl Args {
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.opts.get(k).map(|s| s.as_str())
    }
    pub fn opt_i(&self, k: &str, d: i64) -> i64 {
        self.opts.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
    /// Pick a size by tier.
    pub fn n(&self, quick: i64, thorough: i64) -> i64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

/// TLC's JSON reader knows no null.
pub fn denull(v: &mut Value) {
    match v {
        Value::Null => *v = json!("null"),
        Value::Array(a) => a.iter_mut().for_each(denull),
        Value::Object(o) => o.values_mut().for_each(denull),
        _ => {}
    }
}

pub fn write_lines(path: &str, lines: &[Value]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for l in lines {
        let mut l = l.clone();
        denull(&mut l);
        let mut text = serde_json::to_string(&l).unwrap();
        if text.len() > 16 << 20 {
            // No sane answer is that long, and no reader should have to bear it.
            l["ev"] = json!([{"e":"panic","msg":"endless answer"}]);
            text = serde_json::to_string(&l).unwrap();
        }
        f.write_all(text.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
    }
    f.flush().unwrap();
}

pub fn read_lines(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).unwrap())
        .collect()
}

pub fn run(id: usize, kind: &str, cfg: Value, ev: Vec<Value>) -> Value {
    json!({"id": id, "kind": kind, "cfg": cfg, "ev": ev})
}

pub fn fnv(s: &str) -> i64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    ((h ^ (h >> 31)) % 1_000_000_000) as i64
}
