//! Drives stop loss and take profit objects the way the trader does.
use crate::trade::{closes, exit_rand, sl_params, tp_params, UNIT};
use crate::util::*;
use juno::easing::{tween, Easing};
use juno::indicators::Adx;
use juno::stop_loss::StopLossParams;
use juno::take_profit::TakeProfitParams;
use juno::{Candle, Timestamp};
use rayon::prelude::*;
use serde_json::{json, Value};

pub const EASINGS: &[&str] = &[
    "Linear", "QuadIn", "QuadOut", "QuadInout", "CubicIn", "CubicOut", "CubicInout", "QuartIn",
    "QuartOut", "QuartInout", "QuintIn", "QuintOut", "QuintInout", "SineIn", "SineOut",
    "SineInout", "CircIn", "CircOut", "CircInout", "ExpoIn", "ExpoOut", "ExpoInout", "ElasticIn",
    "ElasticOut", "ElasticInout", "BackIn", "BackOut", "BackInout", "BounceIn", "BounceOut",
    "BounceInout",
];

pub fn easing(name: &str) -> Easing {
    serde_json::from_value(json!(name)).unwrap()
}

fn g(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap()
}

fn b(x: bool) -> i64 {
    i64::from(x)
}

pub fn main(a: &Args) {
    let n = a.opt_i("n", a.n(1500, 15000)) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0xE417, i);
            let exact = rng.bool(1, 2);
            let sl = exit_rand(&mut rng, exact, false);
            let trend = rng.bool(1, 2);
            let long = i % 60 == 30;
            let mut tp = exit_rand(&mut rng, exact, true);
            let mut ease = "Linear".to_owned();
            let mut period = 1;
            if trend {
                tp["k"] = json!("trend");
                let d = g(&tp, "d");
                for (s, t) in [("u", "x"), ("v", "y")] {
                    let p = rng.int(1, d);
                    tp[s] = json!(p);
                    tp[t] = json!(p + rng.int(1, d));
                }
                tp["lock"] = json!(rng.int(0, 1));
                period = if long { rng.int(20, 270) } else { rng.int(1, 6) };
                if rng.bool(2, 3) {
                    ease = (*rng.pick(EASINGS)).to_owned();
                }
            } else {
                tp["lock"] = json!(0);
            }
            let slp: StopLossParams = serde_json::from_value(sl_params(&sl)).unwrap();
            let tpv = if trend {
                let d = g(&tp, "d") as f64;
                let f = |k: &str| g(&tp, k) as f64 / d;
                json!({"type":"Trending","up_thresholds":[f("u"),f("x")],"down_thresholds":[f("v"),f("y")],
                    "lock_threshold":g(&tp,"lock")==1,"period":period,"easing":ease})
            } else {
                tp_params(&tp)
            };
            let tpp: TakeProfitParams = serde_json::from_value(tpv).unwrap();
            // Only ratios of prices matter.
            let pd = 4.0 * *rng.pick(&[1.0, 1.0, 1_048_576.0, 1.0 / 1_048_576.0]);
            let len = if long { 2 * period + rng.int(200, 700) } else { rng.int(5, 60) } as usize;
            let cl = closes(&mut rng, len, 2, 64);
            let cfg = json!({"exact":b(exact),"sl":sl,"tp":tp,"period":period,"easing":ease});
            let mut ev = vec![];
            let res = caught(|| {
                let mut stop = slp.construct();
                let mut take = tpp.construct();
                let mut adx = Adx::new(period as u32);
                let mut open = false;
                let mut prev = cl[0];
                for (t, &c) in cl.iter().enumerate() {
                    let wick = |r: &mut Rng| if r.bool(1, 3) { r.int(0, 9) } else { 0 };
                    let h = prev.max(c) + wick(&mut rng);
                    let l = (prev.min(c) - wick(&mut rng)).max(1);
                    let x = Candle {
                        time: Timestamp(t as u64 * UNIT),
                        open: rng.int(l, h) as f64 / pd,
                        high: h as f64 / pd,
                        low: l as f64 / pd,
                        close: c as f64 / pd,
                        volume: rng.volume(),
                    };
                    prev = c;
                    stop.update(&x);
                    take.update(&x);
                    adx.update(x.high, x.low);
                    let p = near(tween(adx.value / 100.0, easing(&ease)), 10_000.0);
                    let (su, sd) = (stop.upside_hit(), stop.downside_hit());
                    let (tu, td) = (take.upside_hit(), take.downside_hit());
                    if open && rng.bool(1, if long { 200 } else { 8 }) {
                        open = false;
                    }
                    let clear = !open || t == 0;
                    if clear {
                        stop.clear(&x);
                        take.clear(&x);
                        if rng.bool(2, 3) {
                            open = true;
                        }
                    }
                    ev.push(json!({"e":"c","c":c,"cl":b(clear),"p":p,"su":b(su),"sd":b(sd),"tu":b(tu),"td":b(td)}));
                }
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i as usize + 1, "exits", cfg, ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}

/// Every easing curve on a grid of 1/32, then in random order on and off the grid.
pub fn easings(a: &Args) {
    let fam = ["Linear", "Quad", "Cubic", "Quart", "Quint", "Sine", "Circ", "Expo", "Elastic", "Back", "Bounce"];
    let var = ["In", "Out", "Inout"];
    let scaled = |f: &str, v: &str, x: f64, by: f64| {
        let name = if f == "Linear" { f.to_owned() } else { format!("{f}{v}") };
        near(tween(x, easing(&name)), by)
    };
    let value = |f: &str, v: &str, x: f64| scaled(f, v, x, 100_000.0);
    let mut lines = vec![];
    let mut put = |res: Result<Vec<Value>, String>| {
        let ev = res.unwrap_or_else(|m| vec![json!({"e":"panic","msg":m})]);
        lines.push(run(lines.len() + 1, "easing", json!({}), ev));
    };
    for f in fam {
        for v in if f == "Linear" { &var[..1] } else { &var[..] } {
            put(caught(|| (0..=32).map(|i| json!({"e":"at","f":f,"v":v,"i":i,"y":value(f, v, i as f64 / 32.0)})).collect()));
        }
    }
    for k in 0..a.n(40, 600) {
        let mut rng = Rng::new(a.seed ^ 0xEA5, k as u64);
        put(caught(|| {
            (0..60)
                .map(|_| {
                    let (f, v, i) = (*rng.pick(&fam), *rng.pick(&var), rng.int(0, 31));
                    let v = if f == "Linear" { "In" } else { v };
                    if rng.bool(1, 3) {
                        return json!({"e":"at","f":f,"v":v,"i":i,"y":value(f, v, i as f64 / 32.0)});
                    }
                    if rng.bool(1, 3) {
                        let sides = if v == "Inout" { &["start", "before", "after", "end"][..] } else { &["start", "end"][..] };
                        let (side, k) = (*rng.pick(sides), if rng.bool(1, 2) { rng.int(1, 300) } else { rng.int(100, 300) });
                        let d = k as f64 / 1e6;
                        let x = match side {
                            "start" => d,
                            "before" => 0.5 - d,
                            "after" => 0.5 + d,
                            _ => 1.0 - d,
                        };
                        return json!({"e":"near","f":f,"v":v,"side":side,"k":k,"y":scaled(f, v, x, 1e6)});
                    }
                    let d = *rng.pick(&[1e-9, 0.001, 0.25, 0.5, 0.9, 0.999_999]);
                    json!({"e":"in","f":f,"v":v,"i":i,"y":value(f, v, (i as f64 + d) / 32.0)})
                })
                .collect()
        }));
    }
    write_lines(&a.out, &lines);
}
