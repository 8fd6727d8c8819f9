//! Calendar, texts, candle buffering, spans and filters.
use crate::util::*;
use juno::filters::{Price, Size};
use juno::utils::{generate_missing_spans, merge_adjacent_spans, page, BufferedCandle};
use juno::{Candle, Interval, Timestamp};
use rayon::prelude::*;
use serde_json::{json, Value};

const DAY: u64 = 86_400_000;
const WEEK: u64 = 7 * DAY;
const MAX_TIME: u64 = 253_402_300_799_999; // end of the year 9999

fn pt(t: u64) -> Value {
    json!([t / DAY, t % DAY])
}

fn codes(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

fn limbs(mut n: u64) -> Vec<u64> {
    let mut v = vec![];
    while n > 0 {
        v.push(n % 10_000);
        n /= 10_000;
    }
    v
}

/// A time near something interesting.
fn some_time(rng: &mut Rng, lo: u64) -> u64 {
    let top = *rng.pick(&[MAX_TIME - 40 * DAY, 2_500_000_000_000, 1_700_000_000_000, 60 * DAY, 4_200_000_000_000]);
    let t = lo + rng.next() % (top - lo);
    let d = t / DAY;
    let near = match rng.int(0, 7) {
        0 => t,
        1 => d * DAY,
        2 => {
            // around the start of a month
            let mut x = d * DAY;
            for _ in 0..31 {
                let s = Timestamp(x).to_string();
                if s.get(8..10) == Some("01") {
                    break;
                }
                x += DAY;
            }
            x
        }
        3 => (d + 7 - (d + 3) % 7) * DAY, // a Monday
        4 => t - t % 3_600_000,
        5 => {
            // around the turn of a year or the end of February
            let y = 1970 + rng.int(1, 200);
            let s = *rng.pick(&["01-01", "02-28", "03-01", "12-31"]);
            format!("{y:04}-{s}").parse::<Timestamp>().map(|t| t.0).unwrap_or(t)
        }
        6 => t - t % 60_000,
        _ => t - t % 1000,
    };
    let j = match rng.int(0, 5) {
        0 => near.wrapping_sub(1),
        1 => near + 1,
        2 => near + rng.next() % DAY,
        _ => near,
    };
    if j < lo || j > MAX_TIME - 40 * DAY {
        t
    } else {
        j
    }
}

fn some_interval(rng: &mut Rng) -> (Interval, Value) {
    match rng.int(0, 9) {
        0 | 1 => (Interval::WEEK_MS, json!({"k":"w","ms":0})),
        2 | 3 | 4 => (Interval::MONTH_MS, json!({"k":"M","ms":0})),
        5 | 6 | 7 => {
            let i = *rng.pick(&[1u64, 1000, 60_000, 300_000, 900_000, 3_600_000, 4 * 3_600_000, 12 * 3_600_000, DAY, 3 * DAY, 8 * 3_600_000]);
            (Interval(i), json!({"k":"n","ms":i}))
        }
        _ => {
            let i = 1 + rng.next() % (WEEK - 1);
            (Interval(i), json!({"k":"n","ms":i}))
        }
    }
}

pub fn calendar(a: &Args) {
    let n = a.n(120, 1500) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0xCA1, i);
            let mut ev = vec![];
            let res = caught(|| {
                for _ in 0..60 {
                    let (iv, ivj) = some_interval(&mut rng);
                    match rng.int(0, 9) {
                        0 => {
                            let (x, y) = (rng.next() % 1_000_000_000, 1 + rng.next() % 500_000_000);
                            let x = if rng.bool(1, 3) { y * (1 + rng.next() % 2) } else { x };
                            ev.push(json!({"e":"span","a":x,"b":y,"out":Interval(x).ceil(Interval(y)).0}));
                        }
                        1..=5 => {
                            // Before the first Monday there is no earlier week boundary to express.
                            let t = some_time(&mut rng, if iv == Interval::WEEK_MS { 4 * DAY } else { 0 });
                            ev.push(json!({"e":"floor","t":pt(t),"iv":ivj,"out":pt(Timestamp(t).floor(iv).0)}));
                        }
                        _ => {
                            let t = some_time(&mut rng, 0);
                            ev.push(json!({"e":"ceil","t":pt(t),"iv":ivj,"out":pt(Timestamp(t).ceil(iv).0)}));
                        }
                    }
                }
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i as usize + 1, "calendar", json!({}), ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}

const UNITS: [&str; 8] = ["y", "M", "w", "d", "h", "m", "s", "ms"];

fn some_u64(rng: &mut Rng) -> u64 {
    match rng.int(0, 7) {
        0 => rng.next(),
        1 => rng.next() >> rng.int(1, 40),
        2 => u64::MAX - rng.next() % 3,
        3 => rng.next() % 2000,
        4 => *rng.pick(&[0, 1, 999, 1000, 1001, 60_000, 3_600_000, DAY, WEEK, 2_629_746_000, 31_556_952_000, 10_000, 100_000_000]),
        5 => {
            let f = *rng.pick(&[1000u64, 60_000, 3_600_000, DAY, WEEK, 2_629_746_000, 31_556_952_000]);
            (f * rng.int(1, 50) as u64).wrapping_add(rng.int(-1, 1) as u64)
        }
        _ => rng.next() % 100_000_000_000,
    }
}

fn some_groups(rng: &mut Rng) -> String {
    let n = rng.int(1, 4);
    let bad = rng.bool(1, 8);
    let mut s = String::new();
    for _ in 0..n {
        let count = match rng.int(0, 12) {
            0 => some_u64(rng),
            1 => 0,
            _ => rng.next() % 1000,
        };
        if rng.bool(1, 12) {
            s.push('0');
        }
        s.push_str(&count.to_string());
        if rng.bool(1, 40) {
            s.push_str("0000000000");
        }
        let u = if bad && rng.bool(1, 2) {
            *rng.pick(&["Y", "D", "S", "H", "W", "x", "min", "sec", "hm", "mss", "MM", "dd", "Ms"])
        } else {
            *rng.pick(&UNITS)
        };
        s.push_str(u);
    }
    s
}

fn some_time_text(rng: &mut Rng) -> String {
    let y = *rng.pick(&[1969, 1970, 1971, 1999, 2000, 2019, 2020, 2024, 2100, 2400, 9999, 1900]);
    let (m, d) = match rng.int(0, 5) {
        0 => (rng.int(0, 13), rng.int(0, 32)),
        1 => (2, rng.int(28, 30)),
        2 => (*rng.pick(&[4, 6, 9, 11, 12, 1]), rng.int(30, 31)),
        _ => (rng.int(1, 12), rng.int(1, 28)),
    };
    let mut s = format!("{y:04}-{m:02}-{d:02}");
    if rng.bool(1, 3) {
        return s;
    }
    let odd = rng.bool(1, 10);
    let round = rng.bool(1, 3);
    let (h, mi, se) = if odd {
        (rng.int(22, 26), rng.int(58, 61), rng.int(58, 59))
    } else if round {
        // Times at which something might be thought to begin or end.
        *rng.pick(&[(0, 0, 0), (0, 0, 0), (12, 0, 0), (23, 59, 59), (0, 0, 1), (1, 0, 0), (0, 1, 0)])
    } else {
        (rng.int(0, 23), rng.int(0, 59), rng.int(0, 59))
    };
    s += &format!("T{h:02}:{mi:02}:{se:02}");
    if rng.bool(1, 2) {
        let k = if round { *rng.pick(&[3, 3, 6, 9]) } else { rng.int(1, 6) };
        let plain = round && rng.bool(2, 3);
        s.push('.');
        for _ in 0..k {
            s.push(if plain { '0' } else { (b'0' + rng.int(0, 9) as u8) as char });
        }
    }
    if rng.bool(2, 3) {
        s.push('Z');
    } else if round && rng.bool(1, 4) {
        s += *rng.pick(&["+00:00", "-00:00", "z", "+24:00"]);
    } else {
        let (h, m) = if rng.bool(1, 8) { (rng.int(20, 23), 59) } else { (rng.int(0, 14), *rng.pick(&[0, 30, 45])) };
        s += &format!("{}{h:02}:{m:02}", if rng.bool(1, 2) { "+" } else { "-" });
    }
    s
}

fn garbage(rng: &mut Rng) -> String {
    let base = match rng.int(0, 2) {
        0 => some_groups(rng),
        1 => some_time_text(rng),
        _ => String::new(),
    };
    let mut cs: Vec<char> = base.chars().collect();
    for _ in 0..rng.int(1, 6) {
        let c = *rng.pick(&['1', '9', 'd', 'M', ' ', '-', ':', '.', 'T', 'Z', '+', 'é', '٣', '\u{0}', 'm', '"', '\\', '0']);
        let at = rng.int(0, cs.len() as i64) as usize;
        if rng.bool(1, 3) && at < cs.len() {
            cs.remove(at);
        } else {
            cs.insert(at, c);
        }
    }
    cs.into_iter().collect()
}

fn parsed<T, E>(r: Result<T, E>, f: impl Fn(T) -> Value) -> (u8, Value) {
    match r {
        Ok(t) => (1, f(t)),
        Err(_) => (0, json!([])),
    }
}

pub fn text(a: &Args) {
    let n = a.n(120, 1500) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0x7E87, i);
            let mut ev = vec![];
            let res = caught(|| {
                for _ in 0..40 {
                    match rng.int(0, 7) {
                        0 => {
                            let v = some_u64(&mut rng);
                            let s = Interval(v).to_string();
                            ev.push(json!({"e":"iprint","v":limbs(v),"cs":codes(&s)}));
                            let (ok, back) = parsed(s.parse::<Interval>(), |x| json!(limbs(x.0)));
                            ev.push(json!({"e":"round","v":limbs(v),"ok":ok,"back":back}));
                        }
                        1 => {
                            let t = some_time(&mut rng, 0);
                            let s = Timestamp(t).to_string();
                            ev.push(json!({"e":"tprint","v":pt(t),"cs":codes(&s)}));
                            let (ok, back) = parsed(s.parse::<Timestamp>(), |x| pt(x.0));
                            ev.push(json!({"e":"round","v":pt(t),"ok":ok,"back":back}));
                        }
                        2 | 3 => {
                            let s = some_groups(&mut rng);
                            let js = serde_json::to_string(&s).unwrap();
                            let (ok, v) = if rng.bool(1, 2) {
                                parsed(s.parse::<Interval>(), |x| json!(limbs(x.0)))
                            } else {
                                parsed(serde_json::from_str::<Interval>(&js), |x| json!(limbs(x.0)))
                            };
                            ev.push(json!({"e":"iparse","cs":codes(&s),"ok":ok,"v":v}));
                        }
                        4 | 5 => {
                            let s = some_time_text(&mut rng);
                            let js = serde_json::to_string(&s).unwrap();
                            let (ok, v) = if rng.bool(1, 2) {
                                parsed(s.parse::<Timestamp>(), |x| pt(x.0))
                            } else {
                                parsed(serde_json::from_str::<Timestamp>(&js), |x| pt(x.0))
                            };
                            ev.push(json!({"e":"tparse","cs":codes(&s),"ok":ok,"v":v}));
                        }
                        6 => {
                            // JSON there and back again, in either spelling.
                            let v = some_u64(&mut rng);
                            let j = serde_json::to_string(&Interval(v)).unwrap();
                            let (ok, back) = parsed(serde_json::from_str::<Interval>(&j), |x| json!(limbs(x.0)));
                            ev.push(json!({"e":"round","v":limbs(v),"ok":ok,"back":back}));
                            let j = serde_json::to_string(&Timestamp(v)).unwrap();
                            let (ok, back) = parsed(serde_json::from_str::<Timestamp>(&j), |x| json!(limbs(x.0)));
                            ev.push(json!({"e":"round","v":limbs(v),"ok":ok,"back":back}));
                            let t = some_time(&mut rng, 0);
                            let j = serde_json::to_string(&Timestamp(t).to_string()).unwrap();
                            let (ok, back) = parsed(serde_json::from_str::<Timestamp>(&j), |x| pt(x.0));
                            ev.push(json!({"e":"round","v":pt(t),"ok":ok,"back":back}));
                            let j = serde_json::to_string(&Interval(v).to_string()).unwrap();
                            let (ok, back) = parsed(serde_json::from_str::<Interval>(&j), |x| json!(limbs(x.0)));
                            ev.push(json!({"e":"round","v":limbs(v),"ok":ok,"back":back}));
                        }
                        _ => {
                            let s = garbage(&mut rng);
                            let ok = s.parse::<Interval>().is_ok() as u8;
                            ev.push(json!({"e":"any","ok":ok}));
                            let ok = s.parse::<Timestamp>().is_ok() as u8;
                            ev.push(json!({"e":"any","ok":ok}));
                            for j in [serde_json::to_string(&s).unwrap(), s.clone(), "-1".into(), "1.5".into(), "null".into(), "[]".into()] {
                                let ok = serde_json::from_str::<Interval>(&j).is_ok() as u8;
                                ev.push(json!({"e":"any","ok":ok}));
                                let ok = serde_json::from_str::<Timestamp>(&j).is_ok() as u8;
                                ev.push(json!({"e":"any","ok":ok}));
                            }
                        }
                    }
                }
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i as usize + 1, "text", json!({}), ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}

// ------------------------------------------------------------------ buffering

fn buffer_run(id: usize, rng: &mut Rng) -> Value {
    const H: u64 = 3_600_000;
    let plain = rng.bool(1, 12);
    // (input interval, bucket)
    let long = id % 60 == 30;
    let (iv, biv, bj) = match rng.int(0, 5) {
        0 if long => (H, Interval::MONTH_MS, json!({"k":"M","ms":0})),
        1 if long => (H, Interval::WEEK_MS, json!({"k":"w","ms":0})),
        _ if long => {
            let (i, b) = *rng.pick(&[(60_000, DAY), (60_000, H), (300_000, DAY), (60_000, 12 * H), (1, 1000)]);
            (i, Interval(b), json!({"k":"n","ms":b}))
        }
        0 => (DAY, Interval::WEEK_MS, json!({"k":"w","ms":0})),
        1 => (DAY, Interval::MONTH_MS, json!({"k":"M","ms":0})),
        2 => (12 * H, Interval::MONTH_MS, json!({"k":"M","ms":0})),
        3 => (12 * H, Interval::WEEK_MS, json!({"k":"w","ms":0})),
        _ => {
            let (i, b) = *rng.pick(&[(H, 4 * H), (H, DAY), (60_000, 300_000), (4 * H, 12 * H), (DAY, 3 * DAY), (1, 2), (1, 3), (900_000, H), (6 * H, DAY)]);
            (i, Interval(b), json!({"k":"n","ms":b}))
        }
    };
    let buffer = if plain { if rng.bool(1, 2) { None } else { Some(Interval(iv)) } } else { Some(biv) };
    let cfg = json!({"ivms":iv,"on":!plain as u8,"biv":bj});
    let start = some_time(rng, 5 * DAY);
    let mut t = start - start % iv;
    let len = if long {
        3 * (biv.0 / iv).min(1600) as i64 + rng.int(0, 90)
    } else if biv == Interval::MONTH_MS { rng.int(20, 160) } else { rng.int(5, 60) };
    let gappy = rng.int(0, 3);
    // Numbers of many digits, as large as the sum over a bucket allows.
    let (pbase, vbase) = if rng.bool(1, 3) {
        (rng.int(0, 50_000_000), rng.int(0, 50_000_000 / (biv.0 / iv).max(1) as i64))
    } else {
        (0, 0)
    };
    let mut ev = vec![];
    let mut cur: Option<(u64, Value)> = None;
    let res = caught(|| {
        let mut target = BufferedCandle::new(Interval(iv), buffer);
        for _ in 0..len {
            match gappy {
                1 if rng.bool(1, 6) => t += iv * rng.int(1, 3) as u64,
                2 if rng.bool(1, 12) => t += iv * rng.int(1, 40) as u64,
                3 if rng.bool(1, 2) => t += iv * rng.int(0, 2) as u64,
                _ => {}
            }
            let (o, c) = (pbase + rng.int(1, 60), pbase + rng.int(1, 60));
            let (h, l) = (o.max(c) + rng.int(0, 9), (o.min(c) - rng.int(0, 9)).max(0));
            let v = vbase + rng.int(0, 50);
            let x = json!({"o":o,"h":h,"l":l,"c":c,"v":v});
            let candle = Candle { time: Timestamp(t), open: o as f64, high: h as f64, low: l as f64, close: c as f64, volume: v as f64 };
            cur = Some((t, x.clone()));
            let out = target.buffer(&candle);
            let (emit, out) = match out {
                None => (0, json!({})),
                Some(c) => (1, json!({"t":pt(c.time.0),"o":grid(c.open,1.0),"h":grid(c.high,1.0),"l":grid(c.low,1.0),"c":grid(c.close,1.0),"v":grid(c.volume,1.0)})),
            };
            ev.push(json!({"e":"c","t":pt(t),"x":x,"emit":emit,"out":out}));
            cur = None;
            t += iv;
        }
    });
    if let Err(m) = res {
        // The code refuses loudly when two buckets complete at once; anything else is a crash.
        let e = if m.contains("too many missing candles") { "refused" } else { "panic" };
        let (t, x) = cur.unwrap_or((0, json!({})));
        ev.push(json!({"e":e,"msg":m,"t":pt(t),"x":x}));
    }
    run(id, "buffer", cfg, ev)
}

pub fn buffer(a: &Args) {
    let n = a.n(1200, 12_000) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| buffer_run(i as usize + 1, &mut Rng::new(a.seed ^ 0xB0F, i)))
        .collect();
    write_lines(&a.out, &lines);
}

// ---------------------------------------------------------------------- spans

fn some_spans(rng: &mut Rng, top: i64) -> Vec<(i64, i64)> {
    let mut v = vec![];
    let mut x = rng.int(0, top / 2);
    for _ in 0..if top > 100 { rng.int(100, 300) } else { rng.int(0, 7) } {
        let y = x + rng.int(1, 5);
        if y > top {
            break;
        }
        v.push((x, y));
        x = y + if rng.bool(1, 2) { 0 } else { rng.int(1, 5) };
    }
    v
}

pub fn spans(a: &Args) {
    let n = a.n(300, 4000) as u64;
    let merge_only = a.opt("what") == Some("merge");
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0x59A, i);
            let mut ev = vec![];
            let res = caught(|| {
                for _ in 0..25 {
                    let unit = *rng.pick(&[1u64, 1, 60_000, DAY, 7]);
                    let base = *rng.pick(&[0u64, 0, 1_546_300_800_000, 3]);
                    let at = |x: i64| base + unit * x as u64;
                    let back = |x: u64| {
                        if x < base || (x - base) % unit != 0 || (x - base) / unit > 100_000 {
                            json!(BAD)
                        } else {
                            json!((x - base) / unit)
                        }
                    };
                    let top = if rng.bool(1, 150) { 900 } else { rng.int(6, 40) };
                    if merge_only {
                        let ss = some_spans(&mut rng, top);
                        let real: Vec<(u64, u64)> = ss.iter().map(|s| (at(s.0), at(s.1))).collect();
                        if rng.bool(1, 2) {
                            let out: Vec<Value> = merge_adjacent_spans(&real).iter().map(|s| json!([back(s.0), back(s.1)])).collect();
                            ev.push(json!({"e":"merge","ss":ss,"out":out}));
                        } else {
                            let x = rng.int(0, top);
                            let y = rng.int(x, top);
                            let out: Vec<Value> =
                                generate_missing_spans(at(x), at(y), &real).iter().map(|s| json!([back(s.0), back(s.1)])).collect();
                            ev.push(json!({"e":"missing","a":x,"b":y,"ss":ss,"out":out}));
                        }
                    } else {
                        let iv = *rng.pick(&[1i64, 1, 2, 5, 60]);
                        let long = rng.bool(1, 40);
                        let lim = if rng.bool(1, 4) { 1 } else if long { rng.pick_i(&[100, 256, 500, 1000, 1500]) } else { rng.int(1, 12) };
                        let x = rng.int(0, 50);
                        let mut y = x + iv * if long { rng.int(500, 1600) } else { rng.int(0, 60) };
                        if rng.bool(1, 3) {
                            y += rng.int(0, iv);
                        }
                        let out: Vec<Value> = page(at(x), at(y), unit * iv as u64, lim as u64)
                            .take(2000)
                            .map(|s| json!([back(s.0), back(s.1)]))
                            .collect();
                        ev.push(json!({"e":"page","a":x,"b":y,"iv":iv,"lim":lim,"out":out}));
                    }
                }
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i as usize + 1, "spans", json!({}), ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}

// -------------------------------------------------------------------- filters

/// Limits, steps and values of up to fifteen digits: millions of millions of steps.
fn wide_filters(i: u64, rng: &mut Rng) -> Value {
    use crate::numbers::limbs;
    let (scale, ex) = *rng.pick(&[(1.0, true), (1_073_741_824.0, true), (1_099_511_627_776.0, true), (100_000_000.0, false), (1_000_000.0, false)]);
    let top = 1_000_000_000_000_000u64;
    let step = *rng.pick(&[0u64, 1, 1, 1, 2, 3, 10, 250, 65_536, 100_000_000, 5_000_000_000]);
    let min = *rng.pick(&[0u64, 0, 1, 1_000_000, 5_000_000_000]) / step.max(1) * step.max(1);
    let max = *rng.pick(&[0u64, 0, 0, 10_000_000_000, 900_000_000_000_007]);
    let v = |x: u64| x as f64 / scale;
    let (p, s) = (Price { min: v(min), max: v(max), step: v(step) }, Size { min: v(min), max: v(max), step: v(step) });
    let mut ev = vec![];
    let res = caught(|| {
        for _ in 0..12 {
            let x = match rng.int(0, 5) {
                0 => min.saturating_sub(1) + rng.next() % 3,
                1 => max.saturating_sub(1) + rng.next() % 3,
                2 => step.max(1) * (rng.next() % (top / step.max(1))),
                3 => (1 << 32) * step.clamp(1, 100_000) + rng.next() % 1_000_000,
                4 => (1 << 31) * step.clamp(1, 100_000) + rng.next() % 1_000_000,
                _ => rng.next() % top,
            } % (top + 1);
            let of_price = rng.bool(1, 2);
            let k = rng.int(0, 2);
            let out = match k {
                0 if of_price => p.round_down(v(x)),
                0 => s.round_down(v(x)),
                1 => s.round_up(v(x)),
                _ if of_price => p.valid(v(x)) as u8 as f64 / scale,
                _ => s.valid(v(x)) as u8 as f64 / scale,
            } * scale;
            let near = (out - out.round()).abs() < if ex { 1e-300 } else { 0.3 };
            let ok = near && (0.0..9e15).contains(&out);
            let out = if ok { out.round() as u64 } else { 0 };
            let q = if k < 2 && step > 0 { out / step } else { 0 };
            let e = ["widedown", "wideup", "widevalid"][k as usize];
            ev.push(json!({"e":e,"x":limbs(x),"out":limbs(out),
                "q":limbs(q),"rem":limbs(if step > 0 { x.saturating_sub(min) / step } else { 0 }),"on":ok as u8,"price":of_price}));
        }
    });
    if let Err(m) = res {
        ev.push(json!({"e":"panic","msg":m}));
    }
    run(i as usize + 1, "filters", json!({"w":{"min":limbs(min),"max":limbs(max),"step":limbs(step)},"ex":ex as u8}), ev)
}

pub fn filters(a: &Args) {
    let n = a.n(600, 8000) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0xF17, i);
            if rng.bool(1, 3) {
                return wide_filters(i, &mut rng);
            }
            let (scale, ex) = *rng.pick(&[(1.0, true), (4.0, true), (1024.0, true), (10.0, false), (100.0, false), (100_000.0, false)]);
            let step = *rng.pick(&[0i64, 1, 1, 2, 3, 5, 7, 10, 25]);
            let mut min = *rng.pick(&[0i64, 0, 1, 3, 10, 50]);
            let mut max = *rng.pick(&[0i64, 0, 60, 100, 777]);
            if step > 0 && rng.bool(2, 3) {
                min -= min % step;
                max -= max % step;
            }
            // A single admissible value.
            if rng.bool(1, 6) {
                if max > 0 { min = max } else { max = min }
            }
            let v = |x: i64| x as f64 / scale;
            let (p, s) = (
                Price { min: v(min), max: v(max), step: v(step) },
                Size { min: v(min), max: v(max), step: v(step) },
            );
            let cfg = json!({"f":{"min":min,"max":max,"step":step},"ex":ex as u8,"scale":scale});
            let mut ev = vec![];
            let res = caught(|| {
                for _ in 0..25 {
                    let mut x = match rng.int(0, 4) {
                        0 => min + rng.int(-2, 2),
                        1 => max + rng.int(-2, 2),
                        2 => step * rng.int(0, 20) + rng.int(-1, 1),
                        3 => min + step * rng.int(0, 20),
                        _ => rng.int(0, 1000),
                    };
                    x = x.max(0);
                    let of_price = rng.bool(1, 2);
                    match rng.int(0, 2) {
                        0 => {
                            let out = if of_price { p.round_down(v(x)) } else { s.round_down(v(x)) };
                            ev.push(json!({"e":"down","x":x,"out":grid(out, scale),"price":of_price}));
                        }
                        1 => ev.push(json!({"e":"up","x":x,"out":grid(s.round_up(v(x)), scale)})),
                        _ => {
                            let out = if of_price { p.valid(v(x)) } else { s.valid(v(x)) };
                            ev.push(json!({"e":"valid","x":x,"out":out as u8,"price":of_price}));
                        }
                    }
                }
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i as usize + 1, "filters", cfg, ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}
