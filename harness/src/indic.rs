//! Indicators against their textbook recurrences.
use crate::util::*;
use juno::indicators::*;
use rayon::prelude::*;
use serde_json::{json, Value};

/// Candles (high, low, close) in quarters, of very different characters.
fn history(rng: &mut Rng, len: usize, top: i64) -> Vec<(i64, i64, i64)> {
    let style = rng.int(0, 8);
    let vol = *rng.pick(&[1i64, 2, 5, 20]);
    let floor = if rng.bool(1, 4) { 0 } else { 1 };
    let mut c = rng.int(floor, top);
    let mut v = vec![];
    let mut hold = 0;
    for i in 0..len {
        if hold > 0 {
            hold -= 1;
        } else {
            match style {
                0 => {}
                1 => c += rng.int(-vol, vol),
                2 => c += rng.int(0, vol),
                3 => c -= rng.int(0, vol),
                4 => c = rng.int(floor, top),
                5 => c = if i % 2 == 0 { top } else { floor },
                6 => {
                    if rng.bool(1, 12) {
                        hold = rng.int(5, 40);
                    }
                    c += rng.int(-vol, vol)
                }
                7 => c = if rng.bool(1, 15) { rng.int(floor, top) } else { c },
                _ => c += (((i / 10) % 2) as i64 * 2 - 1) * rng.int(0, vol),
            }
        }
        c = c.clamp(floor, top);
        let (h, l) = if style == 0 || hold > 0 || rng.bool(1, 5) {
            (c, c)
        } else {
            ((c + rng.int(0, vol)).min(top), (c - rng.int(0, vol)).max(floor))
        };
        v.push((h, l, c));
    }
    v
}

fn rng0(seed: u64, i: u64) -> i64 {
    Rng::new(seed ^ 0x10E6, i).int(259, 299)
}

pub fn main(a: &Args) {
    let what = a.opt("what").unwrap_or("ma");
    let kinds: &[&str] = if what == "ma" {
        &["Sma", "Ema", "Ema", "Ema2", "Dema", "Smma", "Kama", "Alma"]
    } else {
        &["Rsi", "Stoch", "DM", "DI", "DX", "Adx", "Macd", "Macd"]
    };
    // Every value once more to twelve decimals, for the averages which are linear.
    let fine = a.opt("fine").is_some();
    let kinds: &[&str] = match (fine, what) {
        (false, _) => kinds,
        (true, "ma") => &["Sma", "Ema", "Ema", "Ema2", "Dema", "Smma", "Smma"],
        _ => &["Rsi", "Rsi", "DM", "Macd"],
    };
    // Periods as long as the optimiser tries.
    let long = a.opt("long").is_some();
    let n = if long { a.n(if fine { 4 } else { 6 }, 24) * kinds.len() as i64 }
        else { a.opt_i("n", if fine { a.n(160, 1600) } else { a.n(440, 6000) }) } as u64;
    let max_p = a.n(14, 30);
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0x1ADC, i);
            let k = kinds[(i % kinds.len() as u64) as usize];
            let cap = if k == "Alma" { 12 } else { max_p };
            let mut p = [rng.int(1, 4), rng.int(1, 4), rng.int(1, 4)];
            if rng.bool(2, 3) {
                p[0] = rng.int(1, cap);
            }
            if long {
                let mut big = || match i / kinds.len() as u64 % 4 {
                    0 => *rng.pick(&[256, 257, 258, 300, rng0(a.seed, i)]),
                    1 => *rng.pick(&[31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255]),
                    _ => rng0(a.seed, i + 7) % 270 + 31,
                };
                let x = big();
                match (k, i % 3) {
                    ("Stoch", 0) => p[1] = x,
                    ("Stoch", 1) => p[2] = x,
                    _ => p[0] = x,
                }
                if k == "Macd" {
                    p = [x / rng.int(2, 4), x, *rng.pick(&[1, 9, x / 2, x])];
                }
            } else if k == "Macd" {
                p[1] = p[0] + rng.int(0, 6);
                if rng.bool(1, 3) {
                    p = [12, 26, 9];
                }
            }
            let (mut nn, mut d, mut n2, mut d2) = (2, p[0] + 1, 2, p[1] + 1);
            let mut smoothing = Value::Null;
            if k == "Ema" && rng.bool(1, 2) {
                (nn, d) = *rng.pick(&[(1, 2), (1, 4), (3, 20), (1, 10), (1, 1), (3, 40), (2, 3)]);
                smoothing = json!(nn as f64 / d as f64);
            }
            if p[0] == 12 && p[1] == 26 && k == "Macd" {
                (nn, d, n2, d2) = (3, 20, 3, 40);
            }
            let (off, sigma) = if k == "Alma" && rng.bool(1, 2) {
                (*rng.pick(&[(1, 2), (1, 4), (3, 4), (9, 10), (85, 100)]), if long { p[0] / rng.int(2, 9) } else { rng.int(0, 6) })
            } else {
                ((85, 100), 0)
            };
            let (unit, scale) = if matches!(k, "DM" | "DI" | "DX" | "Adx") { (2500, 1e4) } else { (25_000, 1e5) };
            let mul = *rng.pick(&[1.0, 1.0, 1.0 / 1_048_576.0, 1_048_576.0]);
            let top = match k {
                "Alma" if long => 20,
                "DM" | "DI" | "DX" | "Adx" if long => 5,
                "Kama" if long => 80,
                _ if long => 160,
                "Alma" => 120,
                "Kama" => *rng.pick(&[3, 20, 80]),
                _ => *rng.pick(&[3, 20, 160]),
            };
            let ripe = match k {
                "Stoch" => p[0] + p[1] + p[2],
                "Macd" => p[1] + p[2],
                "Adx" => p[0] * 2,
                "Sma" | "Ema" | "Ema2" | "Smma" | "Kama" | "Alma" | "Rsi" | "DM" | "DI" | "DX" if long => p[0] + 3,
                _ => p[0] * 2 + p[1] + p[2],
            } as usize;
            let len = ripe + if long { rng.int(8, 60) } else { rng.int(3, a.n(30, 80)) } as usize;
            let hist = history(&mut rng, len, top);
            let cfg = json!({"k":k,"p":p,"n":nn,"d":d,"n2":n2,"d2":d2,"off":[off.0,off.1],"sigma":sigma,"unit":unit,"mul":mul});
            let u = p.map(|x| x as u32);
            let by_name = rng.bool(1, 2);
            let mut ev = vec![];
            let res = caught(|| {
                let ma_params = match k {
                    "Alma" => json!({"type":"Alma","period":p[0],"offset":off.0 as f64 / off.1 as f64,
                        "sigma": if sigma > 0 { json!(sigma) } else { Value::Null }}),
                    "Ema" => json!({"type":"Ema","period":p[0],"smoothing":smoothing}),
                    _ => json!({"type":k,"period":p[0]}),
                };
                // Averages are also named by the checksum of their name, with default settings.
                let plain = smoothing.is_null() && off == (85, 100) && sigma == 0;
                let mut ma = serde_json::from_value::<MAParams>(ma_params).ok().map(|m| {
                    assert_eq!(m.period(), u[0], "period");
                    if plain && by_name { ma_from_adler32(juno::math::adler32(&k.to_lowercase()), u[0]) } else { m.construct() }
                });
                let (mut rsi, mut stoch, mut dm) = (Rsi::new(u[0]), Stoch::new(u[0], u[1], u[2]), DM::new(u[0]));
                let (mut di, mut dx, mut adx) = (DI::new(u[0]), DX::new(u[0]), Adx::new(u[0]));
                let mut macd = Macd::new(u[0].min(u[1]), u[0].max(u[1]), u[2]);
                for &(h, l, c) in &hist {
                    let f = |x: i64| x as f64 / 4.0 * mul;
                    // Values of degree one in the price are logged relative to the multiplier.
                    let (vals, by, sc): (Vec<f64>, f64, f64) = match k {
                        "Rsi" => {
                            rsi.update(f(c));
                            (vec![rsi.value], 1.0, 1e4)
                        }
                        "Stoch" => {
                            stoch.update(f(h), f(l), f(c));
                            (vec![stoch.k, stoch.d], 1.0, 1e4)
                        }
                        "DM" => {
                            dm.update(f(h), f(l));
                            (vec![dm.plus_value, dm.minus_value], mul, scale)
                        }
                        "DI" => {
                            di.update(f(h), f(l), f(c));
                            (vec![di.plus_value, di.minus_value], 1.0, 1e4)
                        }
                        "DX" => {
                            dx.update(f(h), f(l));
                            (vec![dx.value], 1.0, 1e4)
                        }
                        "Adx" => {
                            adx.update(f(h), f(l));
                            (vec![adx.value], 1.0, 1e4)
                        }
                        "Macd" => {
                            macd.update(f(c));
                            (vec![macd.value, macd.signal, macd.histogram], mul, scale)
                        }
                        _ => {
                            let m = ma.as_mut().unwrap();
                            m.update(f(c));
                            (vec![m.value()], mul, scale)
                        }
                    };
                    let fin = vals.iter().all(|v| v.is_finite()) as u8;
                    let v: Vec<i64> = vals.iter().map(|v| near(v / by, sc)).collect();
                    let y = |v: f64| crate::numbers::limbs(((v / by + 100.0) * 1e12).round() as u64);
                    let y: Value = if fine { vals.iter().map(|v| json!(y(*v))).collect() } else { json!([]) };
                    ev.push(json!({"e":"u","h":h,"l":l,"c":c,"v":v,"y":y,"fin":fin}));
                }
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i as usize + 1, "indicator", cfg, ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}
