//! Arithmetic of times and intervals, rounding, averages, names.
use crate::util::*;
use juno::itertools::IteratorExt;
use juno::math;
use juno::symbol::iter_assets;
use juno::{Candle, Fill, Interval, SymbolExt, Timestamp};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::time::{SystemTime, UNIX_EPOCH};

const TOP: u64 = 253_402_300_799_999; // end of the year 9999

pub fn limbs(mut n: u64) -> Vec<u64> {
    let mut v = vec![];
    while n > 0 {
        v.push(n % 10_000);
        n /= 10_000;
    }
    v
}
fn all(xs: &[u64]) -> Value {
    json!(xs.iter().map(|&x| limbs(x)).collect::<Vec<_>>())
}

fn some(rng: &mut Rng, top: u64) -> u64 {
    let x = match rng.int(0, 5) {
        0 => rng.next() % 20,
        1 => rng.next() % 100_000,
        2 => *rng.pick(&[1000, 60_000, 3_600_000, 86_400_000, 604_800_000, 2_629_746_000, 31_556_952_000, 1 << 31, 1 << 32, u32::MAX as u64]),
        3 => 1_500_000_000_000 + rng.next() % 300_000_000_000,
        _ => rng.next(),
    };
    x % (top + 1)
}

fn time_event(rng: &mut Rng) -> Value {
    let (a, b) = (some(rng, TOP), some(rng, TOP));
    let m = match rng.int(0, 3) {
        0 => 1 + rng.next() % 50,
        1 => 1 + some(rng, 31_556_952_000),
        _ => *rng.pick(&[1, 1000, 60_000, 900_000, 3_600_000, 86_400_000, 604_800_000, 2_629_746_000]),
    };
    // On and next to multiples.
    let v = match rng.int(0, 4) {
        0 => a / m * m,
        1 => (a / m * m).saturating_sub(1),
        2 => a / m * m + 1,
        _ => a,
    };
    let ceil = |x: u64| if x % m == 0 { x / m } else { x / m + 1 };
    match rng.int(0, 11) {
        0 => json!({"e":"add","a":limbs(a),"b":limbs(b),"outs":all(&[
            (Timestamp(a) + Interval(b)).0,
            (Interval(a) + Interval(b)).0,
            (Interval(a) + b).0,
            (a + Interval(b)).0,
            {
                let mut x = Interval(a);
                x += Interval(b);
                x.0
            },
        ])}),
        1 => {
            let (a, b) = (a.max(b), a.min(b));
            json!({"e":"sub","a":limbs(a),"b":limbs(b),"outs":all(&[(Timestamp(a) - Timestamp(b)).0])})
        }
        2 => {
            let k = rng.next() % *rng.pick(&[3, 100, 70_000]);
            json!({"e":"mul","a":limbs(a),"b":limbs(k),"outs":all(&[(Interval(a) * k).0, (k * Interval(a)).0])})
        }
        3 => json!({"e":"rem","a":limbs(v),"b":limbs(m),"k":limbs(v / m),"outs":all(&[(Timestamp(v) % Interval(m)).0])}),
        4 => json!({"e":"floor","a":limbs(v),"b":limbs(m),"k":limbs(v / m),"outs":all(&[math::floor_multiple(v, m)])}),
        5 => json!({"e":"ceil","a":limbs(v),"b":limbs(m),"k":limbs(ceil(v)),"outs":all(&[math::ceil_multiple(v, m), Interval(v).ceil(Interval(m)).0])}),
        6 | 7 => {
            // Before the first multiple there may be no smaller one to express.
            let o = if rng.bool(1, 2) { rng.next() % 10 } else { some(rng, 345_600_000) };
            let v = if rng.bool(1, 2) { v } else { o + v % 30 };
            if rng.bool(1, 2) {
                let v = v.max(o);
                let k = (v - o) / m;
                json!({"e":"floorfrom","a":limbs(v),"b":limbs(m),"o":limbs(o),"k":limbs(k),"s":1,
                    "outs":all(&[math::floor_multiple_offset(v, m, o)])})
            } else {
                let v = if rng.bool(1, 3) && o > 0 { rng.next() % o } else { v };
                let (k, s) = if v >= o { (ceil(v - o), 1) } else { ((o - v) / m, 0) };
                json!({"e":"ceilfrom","a":limbs(v),"b":limbs(m),"o":limbs(o),"k":limbs(k),"s":s,
                    "outs":all(&[math::ceil_multiple_offset(v, m, o)])})
            }
        }
        8 => json!({"e":"same","a":limbs(a),"outs":all(&[
            Timestamp::from(a).0, Interval::from(a).0, u64::from(Timestamp(a)), u64::from(Interval(a)),
        ])}),
        9 | 10 => {
            let b = if rng.bool(1, 3) { a } else if rng.bool(1, 3) { a + 1 } else { b };
            let (x, y) = (Interval(a), Interval(b));
            let (s, t) = (Timestamp(a), Timestamp(b));
            let o = |less: bool, same: bool, more: bool| match (less, same, more) {
                (true, false, false) => -1,
                (false, true, false) => 0,
                (false, false, true) => 1,
                _ => 9,
            };
            json!({"e":"order","a":limbs(a),"b":limbs(b),"outs":[
                o(x < y, x == y, x > y), o(s < t, s == t, s > t), o(!(x >= y), x == y, !(x <= y)), o(!(s >= t), !(s != t), !(s <= t)),
                o(s < t, s == b, s > t), x.cmp(&y) as i32, s.cmp(&t) as i32,
                o(x.max(y) != x, x.max(y) == x.min(y), y.max(x) != y),
            ]})
        }
        _ => {
            let (name, u) = *rng.pick(&[("SEC", Interval::SEC_MS), ("MIN", Interval::MIN_MS), ("HOUR", Interval::HOUR_MS),
                ("DAY", Interval::DAY_MS), ("WEEK", Interval::WEEK_MS), ("MONTH", Interval::MONTH_MS), ("YEAR", Interval::YEAR_MS)]);
            json!({"e":"unit","name":name,"a":limbs(u.0)})
        }
    }
}

fn clock() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

fn series(n: usize, seed: u64, stream: u64, kind: &str, f: impl Fn(&mut Rng, &mut Vec<Value>) + Sync) -> Vec<Value> {
    (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(seed ^ stream, i as u64);
            let mut ev = vec![];
            if let Err(m) = caught(|| f(&mut rng, &mut ev)) {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i + 1, kind, json!({}), ev)
        })
        .collect()
}

pub fn durations(a: &Args) {
    let lines = series(a.n(120, 2000) as usize, a.seed, 0xD07, "durations", |rng, ev| {
        for _ in 0..60 {
            let e = time_event(rng);
            ev.push(e);
        }
        let before = clock();
        let now = Timestamp::now().0;
        ev.push(json!({"e":"now","before":limbs(before),"now":limbs(now),"after":limbs(clock())}));
    });
    write_lines(&a.out, &lines);
}

/// A value a/d, as the nearest f64; exact when binary numbers express it and its products with 10^p.
fn some_fraction(rng: &mut Rng, p: u32) -> (f64, u64, u64, bool) {
    if rng.bool(1, 2) {
        let d = 1u64 << rng.int(0, 10);
        let a = match rng.int(0, 2) {
            0 => rng.next() % 64,
            _ => rng.next() % (1 << 21),
        };
        (a as f64 / d as f64, a, d, true)
    } else {
        let q = rng.int(0, 10) as u32;
        let d = 10u64.pow(q);
        let mut a = match rng.int(0, 2) {
            0 => rng.next() % 1000,
            1 => rng.next() % 10_000_000,
            _ => rng.next() % 100_000_000_000,
        };
        // Halves and multiples of the unit.
        if q > p && rng.bool(1, 3) {
            let u = 10u64.pow(q - p);
            a = a / u * u + if rng.bool(1, 2) { u / 2 } else { 0 };
            // .. and a hair beside them.
            match rng.int(0, 3) {
                0 => a += 1,
                1 => a = a.saturating_sub(1),
                _ => (),
            }
        }
        // Well within the digits of a double.
        if p > q {
            a %= 1_000_000_000_000 / 10u64.pow(p - q);
        }
        (a as f64 / d as f64, a, d, false)
    }
}

/// Number of units of 10^-p, and whether the result is that number of units.
fn units(out: f64, p: u32) -> (u64, u8) {
    let n = (out * 10f64.powi(p as i32)).round();
    if !(0.0..1e18).contains(&n) {
        return (0, 0);
    }
    let back = n / 10f64.powi(p as i32);
    (n as u64, ((out - back).abs() <= 1e-15 * back.max(1e-9)) as u8)
}

fn number_event(rng: &mut Rng) -> Value {
    let mut xs: Vec<i64> = (0..rng.int(0, 7)).map(|_| rng.int(-60, 60)).collect();
    if rng.bool(1, 6) {
        let x = rng.int(-5, 5);
        xs.iter_mut().for_each(|y| *y = x);
    }
    let fs: Vec<f64> = xs.iter().map(|&x| x as f64).collect();
    let year = 31_556_952_000u64;
    match rng.int(0, 13) {
        k @ 0..=1 if rng.bool(1, 4) => {
            // Large amounts: whole already, at every precision.
            let v = (rng.next() >> rng.int(11, 32)) + 1;
            let p = rng.int(0, 9) as u32;
            let out = if k == 0 { math::round_down(v as f64, p) } else { math::round_half_up(v as f64, p) };
            json!({"e":"large","v":limbs(v),"p":p,"out":limbs(if (0.0..1.8e19).contains(&out) { out.round() as u64 } else { 0 })})
        }
        k @ 0..=5 => {
            let p = rng.int(0, 9) as u32;
            let (v, a, d, exact) = some_fraction(rng, p);
            let (out, e) = if k % 2 == 0 { (math::round_down(v, p), "down") } else { (math::round_half_up(v, p), "half") };
            let (n, on) = units(out, p);
            json!({"e":e,"a":limbs(a),"d":limbs(d),"p":p,"exact":exact as u8,"n":limbs(n),"on":on})
        }
        6 => {
            let out = math::mean(&fs);
            json!({"e":"mean","xs":xs,"none":out.is_nan() as u8,"out":if out.is_nan() { 0 } else { near(out, 1000.0) }})
        }
        7 => {
            // Far from zero it is just as wide.
            let far = *rng.pick(&[0.0, 0.0, 0.1, 1e6 + 0.1, 1e9, -3e8]);
            let fs: Vec<f64> = fs.iter().map(|x| x + far).collect();
            let out = math::std_deviation(&fs);
            json!({"e":"dev","xs":xs,"none":out.is_nan() as u8,"out":if out.is_nan() { 0 } else { near(out, 1000.0) }})
        }
        8 => {
            let (a, b, t) = (rng.int(-1000, 1000), rng.int(-1000, 1000), rng.pick_i(&[0, 256, 128, 1, 255, 77, 200]));
            json!({"e":"lerp","a":a,"b":b,"t":t,"out":grid(math::lerp(a as f64, b as f64, t as f64 / 256.0), 256.0)})
        }
        9 => {
            let out: Vec<(i64, i64)> = xs.iter().copied().pairwise().collect();
            json!({"e":"pairs","xs":xs,"out":out})
        }
        10 => {
            let (lo, hi) = fs.iter().minmax();
            let none = (lo.is_nan() && hi.is_nan()) as u8;
            json!({"e":"minmax","xs":xs,"none":none,"lo":if none == 1 { 0 } else { grid(lo, 1.0) },"hi":if none == 1 { 0 } else { grid(hi, 1.0) }})
        }
        11 => {
            let alphabet = ["a", "b", "z", "Z", "0", "_", " ", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{10ffff}"];
            let n = rng.pick_i(&[0, 1, 2, 5, 40, 400]);
            let s: String = (0..n).map(|_| *rng.pick(&alphabet)).collect();
            let h = math::adler32(&s);
            json!({"e":"adler","cs":s.chars().map(|c| c as u32).collect::<Vec<_>>(),"lo":h & 0xffff,"hi":h >> 16})
        }
        12 if rng.bool(1, 3) => {
            // Short spans: small gains mount up.
            let (k, span) = *rng.pick(&[(52_594_920, 600), (31_556_952, 1000), (525_949, 60_000), (105_189, 300_000), (8765, 3_600_582), (365, 86_457_402)]);
            let g = rng.int(-900, 900);
            let v = g as f64 / 1000.0 / k as f64;
            json!({"e":"mounting","g":g,"k":k,"out":near(math::annualized(span, v), 1e4)})
        }
        12 => {
            let (g, k) = (rng.int(-40, 60), rng.int(1, 5));
            if rng.bool(1, 2) {
                // 31556952000 = 2^6 3^5 5^3 7 .. is divisible by 1, 2, 3, 4, 5
                json!({"e":"peryear","g":g,"k":k,"out":near(math::annualized(year / k as u64, g as f64 / 100.0), 1e6)})
            } else {
                json!({"e":"years","g":g,"k":k,"out":near(math::annualized(year * k as u64, g as f64 / 100.0), 1e6)})
            }
        }
        _ => {
            let (d, g) = *rng.pick(&[(0, 0.5), (0, -0.5), (0, 0.0), (year / 2, 0.0), (year + 7, -2.0), (12345, -1.5), (year * 3, 0.0), (1, 0.0), (60_000, 0.0)]);
            json!({"e":"nothing","out":near(math::annualized(d, g), 1e6)})
        }
    }
}

pub fn rounding(a: &Args) {
    let lines = series(a.n(120, 2000) as usize, a.seed, 0x40D, "rounding", |rng, ev| {
        for _ in 0..60 {
            let e = number_event(rng);
            ev.push(e);
        }
    });
    write_lines(&a.out, &lines);
}

fn codes(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

fn symbol_event(rng: &mut Rng) -> Value {
    let alphabet = ["a", "b", "eth", "btc", "-", "\u{e9}", "1", "_", "\u{20ac}"];
    let name = |rng: &mut Rng| -> String { (0..rng.int(0, 3)).map(|_| *rng.pick(&alphabet)).collect() };
    match rng.int(0, 9) {
        0..=3 => {
            let s = if rng.bool(1, 3) { name(rng) } else { format!("{}-{}", name(rng), name(rng)) };
            let both = caught(|| s.assets());
            let (base, quote) = (caught(|| s.base_asset()), caught(|| s.quote_asset()));
            match (both, base, quote) {
                (Ok((x, y)), Ok(b), Ok(q)) => {
                    json!({"e":"split","s":codes(&s),"ok":1,"both":[codes(x), codes(y)],"base":codes(b),"quote":codes(q)})
                }
                (Err(_), Err(_), Err(_)) => json!({"e":"split","s":codes(&s),"ok":0}),
                _ => json!({"e":"split","s":codes(&s),"ok":7}),
            }
        }
        4 | 5 => {
            let ss: Vec<String> = (0..rng.int(0, 5)).map(|_| format!("{}-{}", name(rng), name(rng))).collect();
            let out: Vec<Vec<u32>> = iter_assets(ss.iter().map(String::as_str)).map(codes).collect();
            json!({"e":"iter","ss":ss.iter().map(|s| codes(s)).collect::<Vec<_>>(),"out":out})
        }
        6 | 7 => {
            let raw: Vec<[i64; 4]> = (0..rng.int(0, 6)).map(|_| [rng.int(0, 9999), rng.int(0, 9999), rng.int(0, 99), rng.int(0, 500)]).collect();
            let fills: Vec<Fill> = raw
                .iter()
                .map(|f| Fill { price: f[3] as f64, size: f[0] as f64 / 64.0, quote: f[1] as f64 / 64.0, fee: f[2] as f64 / 64.0 })
                .collect();
            json!({"e":"fills","fs":raw,"size":grid(Fill::total_size(&fills), 64.0),"quote":grid(Fill::total_quote(&fills), 64.0),
                "fee":grid(Fill::total_fee(&fills), 64.0)})
        }
        _ => {
            let c = |rng: &mut Rng| -> [i64; 6] {
                [rng.int(0, 1000), rng.int(1, 99), rng.int(1, 99), rng.int(1, 99), rng.int(1, 99), rng.int(0, 99)]
            };
            let make = |x: &[i64; 6]| Candle {
                time: Timestamp(x[0] as u64),
                open: x[1] as f64 / 8.0,
                high: x[2] as f64 / 8.0,
                low: x[3] as f64 / 8.0,
                close: x[4] as f64 / 8.0,
                volume: x[5] as f64 / 8.0,
            };
            let (a, b) = (c(rng), c(rng));
            let mut x = make(&a);
            x += &make(&b);
            json!({"e":"join","a":a,"b":b,"out":[x.time.0, grid(x.open, 8.0), grid(x.high, 8.0), grid(x.low, 8.0), grid(x.close, 8.0), grid(x.volume, 8.0)]})
        }
    }
}

pub fn symbols(a: &Args) {
    let lines = series(a.n(120, 2000) as usize, a.seed, 0x5B1, "symbols", |rng, ev| {
        for _ in 0..40 {
            let e = symbol_event(rng);
            ev.push(e);
        }
    });
    write_lines(&a.out, &lines);
}
