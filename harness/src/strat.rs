//! Drives advice filters, composed strategies, basic strategies and oscillators.
use crate::params;
use crate::trade::{advice_code, UNIT};
use crate::util::*;
use juno::indicators::{self, MAParams, MA};
use juno::strategies::{OscillatorParams, Signal, SignalParams, StrategyMeta, StrategyParams};
use juno::utils::{combine, BufferedCandle, Changed, MidTrend, MidTrendPolicy, Persistence};
use juno::{Advice, Candle, Interval, Timestamp};
use rayon::prelude::*;
use serde_json::{json, Value};

pub fn decode(a: i64) -> Advice {
    [Advice::None, Advice::Long, Advice::Short, Advice::Liquidate][a as usize]
}

fn b(x: bool) -> i64 {
    i64::from(x)
}

fn sgn(x: f64, y: f64) -> i64 {
    if x > y {
        1
    } else if x < y {
        -1
    } else {
        0
    }
}

fn filter_cfgs() -> Vec<Value> {
    let base = json!({"f":"changed","on":1,"policy":"Current","level":0,"back":0});
    let with = |kv: Value| {
        let mut x = base.clone();
        for (k, v) in kv.as_object().unwrap() {
            x[k] = v.clone();
        }
        x
    };
    let mut v = vec![with(json!({})), with(json!({"on":0}))];
    for p in ["Current", "Previous", "Ignore"] {
        v.push(with(json!({"f":"mid","policy":p})));
    }
    for level in 0..4 {
        for back in 0..2 {
            v.push(with(json!({"f":"pers","level":level,"back":back})));
        }
    }
    v
}

fn filter_run(id: usize, cfg: &Value, seq: &[i64]) -> Value {
    let mut ev = vec![];
    let res = caught(|| match cfg["f"].as_str().unwrap() {
        "changed" => {
            let mut f = Changed::new(cfg["on"] == json!(1));
            for (i, &a) in seq.iter().enumerate() {
                let out = f.update(decode(a));
                ev.push(json!({"e":"a","in":a,"out":advice_code(out),
                    "last":advice_code(f.prevailing_advice()),"age":f.prevailing_advice_age()}));
                if seq.len() > 600 && (i == 0 || i + 1 == seq.len()) {
                    // The same advice for months.
                    let first = advice_code(f.update(decode(a)));
                    let n = 70_000;
                    let same = (1..n).all(|_| advice_code(f.update(decode(a))) == first);
                    ev.push(json!({"e":"r","in":a,"n":n,"same":b(same),"out":first,
                        "last":advice_code(f.prevailing_advice()),"age":f.prevailing_advice_age()}));
                }
            }
        }
        "mid" => {
            let p: MidTrendPolicy = serde_json::from_value(cfg["policy"].clone()).unwrap();
            let mut f = MidTrend::new(p);
            for &a in seq {
                ev.push(json!({"e":"a","in":a,"out":advice_code(f.update(decode(a)))}));
            }
        }
        "pers" => {
            let mut f = Persistence::new(cfg["level"].as_u64().unwrap() as u32, cfg["back"] == json!(1));
            for &a in seq {
                ev.push(json!({"e":"a","in":a,"out":advice_code(f.update(decode(a)))}));
            }
        }
        _ => {
            for &a in seq {
                for c in 0..4 {
                    ev.push(json!({"e":"a","in":a,"b":c,"out":advice_code(combine(decode(a),decode(c)))}));
                }
            }
        }
    });
    if let Err(m) = res {
        ev.push(json!({"e":"panic","msg":m}));
    }
    run(id, "filter", cfg.clone(), ev)
}

pub fn advice(a: &Args) {
    let depth = a.n(4, 6) as u32;
    let cfgs = filter_cfgs();
    let mut work: Vec<(Value, Vec<i64>)> = vec![];
    for c in &cfgs {
        for i in 0..4i64.pow(depth) {
            let seq = (0..depth).map(|j| i / 4i64.pow(j) % 4).collect();
            work.push((c.clone(), seq));
        }
        // Long random streams with long runs.
        for i in 0..a.n(40, 400) {
            let mut rng = Rng::new(a.seed ^ 0xADF1, i as u64);
            let mut v = vec![];
            while v.len() < 60 {
                let x = rng.int(0, 3);
                for _ in 0..rng.int(1, 7) {
                    v.push(x);
                }
            }
            work.push((c.clone(), v));
        }
    }
    // High levels, and runs about as long.
    for level in [5, 8, 9, 15, 16, 20, 31, 64, 100, 127, 128, 254, 255, 256, 257, 300, 511, 512] {
        for back in 0..2 {
            for i in 0..a.n(1, 4) {
                let mut rng = Rng::new(a.seed ^ 0xADF2, (level * 8 + back + 2 * i) as u64);
                let mut v = vec![];
                while v.len() < 3 * level as usize + 40 {
                    let x = rng.int(0, 3);
                    let n = if rng.bool(1, 2) { level + rng.int(-1, 2) } else { rng.int(1, 7) };
                    v.extend(vec![x; n as usize]);
                }
                work.push((json!({"f":"pers","on":1,"policy":"Current","level":level,"back":back}), v));
            }
        }
    }
    for c in cfgs.iter().filter(|c| c["f"] != json!("pers")) {
        let mut rng = Rng::new(a.seed ^ 0xADF3, work.len() as u64);
        let mut v = vec![];
        for n in [rng.int(1, 3), 260, 3, 515, 7, rng.int(200, 600)] {
            v.extend(vec![rng.int(0, 3); n as usize]);
        }
        work.push((c.clone(), v));
    }
    work.push((json!({"f":"combine","on":0,"policy":"","level":0,"back":0}), vec![0, 1, 2, 3]));
    let lines: Vec<Value> =
        work.par_iter().enumerate().map(|(i, (c, s))| filter_run(i + 1, c, s)).collect();
    write_lines(&a.out, &lines);
}

/// Quarter-grid candles with wicks.
pub fn market(rng: &mut Rng, n: usize, dt: u64, gaps: bool) -> Vec<Candle> {
    let cl = crate::trade::closes(rng, n, 2, 64);
    let mut prev = cl.first().copied().unwrap_or(4);
    let mut t = rng.int(0, 5) as u64 * dt;
    cl.iter()
        .map(|&c| {
            let wick = |rng: &mut Rng| if rng.bool(1, 3) { rng.int(0, 6) } else { 0 };
            let h = prev.max(c) + wick(rng);
            let l = (prev.min(c) - wick(rng)).max(1);
            let x = Candle {
                time: Timestamp(t),
                open: if rng.bool(1, 4) { rng.int(l, h) } else { prev } as f64 / 4.0,
                high: h as f64 / 4.0,
                low: l as f64 / 4.0,
                close: c as f64 / 4.0,
                volume: rng.int(0, 5) as f64,
            };
            prev = c;
            t += dt;
            if gaps && rng.bool(1, 10) {
                t += dt * rng.int(1, 2) as u64;
            }
            x
        })
        .collect()
}

pub fn composed(a: &Args) {
    let n = a.opt_i("n", a.n(1500, 15000)) as u64;
    let long = a.n(24, 240) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0xC03B, i);
            let with_osc = rng.bool(1, 2);
            let mut buf = None;
            let p = if with_osc {
                params::sig_osc(&mut rng)
            } else {
                if rng.bool(1, 2) {
                    buf = Some(UNIT * rng.pick_i(&[1, 2, 3, 5]) as u64);
                }
                params::sig(&mut rng, buf)
            };
            let mut p = p;
            if rng.bool(1, 2) {
                // Lively inner signal, so that the filters see many changes.
                let mut s = crate::trade::lively(&mut rng);
                if s["type"] == json!("SigOsc") {
                    s = json!({"type":"Macd","periods":[1,2],"signal_period":2});
                }
                p["sig"] = s;
            }
            p["persistence"] = json!(rng.int(0, 3));
            let mut len = rng.int(10, 60) as usize;
            if i + long >= n {
                // The lengths which the optimiser tries.
                let by = params::factor(&mut rng, i);
                p = if i % 4 == 3 { p } else { params::stretch(&p, by) };
                if let Some(b) = buf {
                    p["buffer_interval"] = json!(b);
                }
                p["persistence"] = json!(rng.pick_i(&[4, 8, 9, 20, 100, 255, 256, 300]));
                len += ripe_after(|| {
                    let sp: StrategyParams = serde_json::from_value(p.clone()).unwrap();
                    sp.construct(&StrategyMeta { interval: Interval(UNIT) }).maturity()
                }) * buf.map(|b| (b / UNIT) as usize).unwrap_or(1);
            } else if i % 16 == 0 {
                p["persistence"] = json!(rng.int(4, 12));
            }
            let cfg = json!({"osc":if with_osc {p["osc_filter"].clone()} else {json!("none")},
                "policy":p["mid_trend_policy"],"level":p["persistence"],"params":p});
            let level = p["persistence"].as_i64().unwrap();
            let slow = level > 3 && rng.bool(3, 4);
            if slow {
                len += 2 * level as usize;
            }
            let mut cs = market(&mut rng, len, UNIT, false);
            if slow {
                // Trends which last about as long as it takes to believe them.
                let (mut up, mut left, mut x) = (rng.bool(1, 2), 0, 2000);
                for c in cs.iter_mut() {
                    if left == 0 {
                        left = level + rng.int(-2, 40);
                        up = !up;
                    }
                    left -= 1;
                    x += if up { 1 } else { -1 } * if rng.bool(1, 9) { 0 } else { 1 };
                    let v = x as f64 / 4.0;
                    *c = Candle { open: v, high: v + 1.0, low: v - 1.0, close: v, ..c.clone() };
                }
            }
            let mut ev = vec![];
            let res = caught(|| {
                let meta = StrategyMeta { interval: Interval(UNIT) };
                let sp: StrategyParams = serde_json::from_value(p.clone()).unwrap();
                let ip: SignalParams = serde_json::from_value(p["sig"].clone()).unwrap();
                let op: Option<OscillatorParams> =
                    with_osc.then(|| serde_json::from_value(p["osc"].clone()).unwrap());
                let mut s = sp.construct(&meta);
                let mut inner = ip.construct(&meta);
                let mut osc = op.map(|o| o.construct(&meta));
                let mut bc = BufferedCandle::new(meta.interval, buf.map(Interval));
                for c in &cs {
                    s.update(c);
                    let mut emitted = 0;
                    if let Some(x) = bc.buffer(c) {
                        emitted = 1;
                        inner.update(x.as_ref());
                        if let Some(o) = osc.as_mut() {
                            o.update(x.as_ref());
                        }
                    }
                    ev.push(json!({"e":"c","b":emitted,"sm":b(inner.mature()),"sa":advice_code(inner.advice()),
                        "om":osc.as_ref().map(|o| b(o.mature())).unwrap_or(1),
                        "ob":osc.as_ref().map(|o| b(o.overbought())).unwrap_or(0),
                        "os":osc.as_ref().map(|o| b(o.oversold())).unwrap_or(0),
                        "adv":advice_code(s.advice()),"mat":b(s.mature()),"maty":s.maturity()}));
                }
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i as usize + 1, "composed", cfg, ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}

fn ma(v: &Value) -> Box<dyn MA> {
    let p: MAParams = serde_json::from_value(v.clone()).unwrap();
    p.construct()
}

/// Independent instances of the indicators a strategy decides on.
enum Eyes {
    Double(Box<dyn MA>, Box<dyn MA>),
    Double2(Box<dyn MA>, Box<dyn MA>),
    DoubleStoch(Box<dyn MA>, Box<dyn MA>, indicators::Stoch, f64, f64),
    Four(Box<dyn MA>, u32),
    Macd(indicators::Macd),
    Single(Box<dyn MA>, f64),
    Triple(Box<dyn MA>, Box<dyn MA>, Box<dyn MA>),
}

impl Eyes {
    fn new(p: &Value) -> Self {
        let u = |v: &Value| v.as_u64().unwrap() as u32;
        match p["type"].as_str().unwrap() {
            "DoubleMA" => Self::Double(ma(&p["mas"][0]), ma(&p["mas"][1])),
            "DoubleMA2" => Self::Double2(ma(&p["mas"][0]), ma(&p["mas"][1])),
            "DoubleMAStoch" => {
                let d = &p["double_ma"];
                let s = &p["stoch"];
                Self::DoubleStoch(
                    ma(&d["mas"][0]),
                    ma(&d["mas"][1]),
                    indicators::Stoch::new(u(&s["k_period"]), u(&s["k_sma_period"]), u(&s["d_sma_period"])),
                    s["up_threshold"].as_f64().unwrap(),
                    s["down_threshold"].as_f64().unwrap(),
                )
            }
            "FourWeekRule" => Self::Four(ma(&p["ma"]), u(&p["period"])),
            "Macd" => Self::Macd(indicators::Macd::new(
                u(&p["periods"][0]),
                u(&p["periods"][1]),
                u(&p["signal_period"]),
            )),
            "SingleMA" => Self::Single(ma(&p["ma"]), 0.0),
            _ => Self::Triple(ma(&p["mas"][0]), ma(&p["mas"][1]), ma(&p["mas"][2])),
        }
    }
    /// What the indicators show, and whether all of them are mature; t counts updates.
    fn look(&mut self, c: &Candle, t: u32) -> (Value, bool) {
        match self {
            Self::Double(s, l) => {
                s.update(c.close);
                l.update(c.close);
                (json!({"x":sgn(s.value(), l.value())}), s.mature() && l.mature())
            }
            Self::Double2(s, l) => {
                s.update(c.close);
                l.update(c.close);
                let (a, b) = (near(s.value(), 1e5), near(l.value(), 1e5));
                (json!({"x":(a - b).clamp(-100_000, 100_000),"m":a + b}), s.mature() && l.mature())
            }
            Self::DoubleStoch(s, l, k, up, dn) => {
                s.update(c.close);
                l.update(c.close);
                k.update(c.high, c.low, c.close);
                let dm = s.mature() && l.mature();
                (
                    json!({"x":sgn(s.value(), l.value()),"dm":b(dm),"ku":sgn(k.k,*up),"kd":sgn(k.k,*dn),"kh":sgn(k.k,50.0)}),
                    dm && k.mature(),
                )
            }
            Self::Four(m, p) => {
                m.update(c.close);
                (json!({"c":grid(c.close,4.0),"x":sgn(c.close, m.value())}), m.mature() && t > *p)
            }
            Self::Macd(m) => {
                m.update(c.close);
                (json!({"x":sgn(m.value, m.signal)}), m.mature())
            }
            Self::Single(m, prev) => {
                m.update(c.close);
                let v = json!({"x":sgn(c.close, m.value()),"y":sgn(m.value(), *prev)});
                *prev = m.value();
                (v, m.mature())
            }
            Self::Triple(s, m, l) => {
                s.update(c.close);
                m.update(c.close);
                l.update(c.close);
                (
                    json!({"sm":sgn(s.value(),m.value()),"ml":sgn(m.value(),l.value()),"sl":sgn(s.value(),l.value())}),
                    s.mature() && m.mature() && l.mature(),
                )
            }
        }
    }
}

/// Swings of changing height which last about as long as the given span.
fn waves(rng: &mut Rng, cs: &mut [Candle], span: i64) {
    let (mut x, mut left, mut to) = (100.0, 0, 100.0);
    for c in cs.iter_mut() {
        if left == 0 {
            left = rng.int(span / 4 + 1, span + 2);
            to = if to > 100.0 { 100 - rng.int(5, 80) } else { 100 + rng.int(5, 80) } as f64;
        }
        x += (to - x) / left as f64;
        left -= 1;
        let v = f64::round(x) + rng.int(-4, 4) as f64 / 4.0;
        *c = Candle { open: v, high: v + 1.0, low: v - 1.0, close: v, ..c.clone() };
    }
}

fn strategy_run(id: usize, rng: &mut Rng, by: i64) -> Value {
    let kind = (id % 7) as i64;
    let mut p = params::stretch(&params::signal_kind(rng, kind), by);
    if rng.bool(1, 4) {
        // Simple averages react strongly: more signals.
        let text = p.to_string().replace("\"Kama\"", "\"Sma\"").replace("\"Smma\"", "\"Sma\"");
        p = serde_json::from_str(&text).unwrap();
    }
    let mut cfg = json!({"k":p["type"],"params":p});
    match kind {
        1 => {
            let (pos, neg) = (rng.pick_i(&[2, 5, 15]), -rng.pick_i(&[2, 5, 15]));
            p["pos_threshold"] = json!(pos as f64 / 20.0);
            p["neg_threshold"] = json!(neg as f64 / 20.0);
            cfg["params"] = p.clone();
            cfg["pos"] = json!(pos);
            cfg["neg"] = json!(neg);
            cfg["d"] = json!(20);
        }
        3 => cfg["period"] = p["period"].clone(),
        _ => {}
    }
    let len = rng.int(20, 70) as usize + if by > 1 { ripe_after(|| construct(&p).maturity()) } else { 0 };
    let mut cs = market(rng, len, UNIT, true);
    if by > 1 && (kind == 3 || rng.bool(1, 2)) {
        let span = if kind == 3 { p["period"].as_i64().unwrap() } else { 2 * by };
        waves(rng, &mut cs, span);
    }
    if kind == 1 && rng.bool(1, 2) {
        // Simple averages, and closes which bring them next to a threshold.
        for k in 0..2 {
            p["mas"][k]["type"] = json!("Sma");
            p["mas"][k] = json!({"type":"Sma","period":p["mas"][k]["period"]});
        }
        cfg["params"] = p.clone();
        let n = [0, 1].map(|k| p["mas"][k]["period"].as_u64().unwrap() as usize);
        let mut past: Vec<f64> = vec![];
        for c in cs.iter_mut() {
            let th = p[if rng.bool(1, 2) { "pos_threshold" } else { "neg_threshold" }].as_f64().unwrap();
            let by = 1.0 + *rng.pick(&[3e-4, 1e-3, 3e-3]) * if rng.bool(1, 2) { 1.0 } else { -1.0 };
            let k = th * by / 200.0;
            let sum = |m: usize| past.iter().rev().take(m - 1).sum::<f64>();
            let (a, b) = ((1.0 - k) / n[0] as f64, (1.0 + k) / n[1] as f64);
            let close = (sum(n[1]) * b - sum(n[0]) * a) / (a - b);
            let close = if past.len() >= n[1] && (40.0..100.0).contains(&close) { close } else { rng.int(60, 80) as f64 };
            past.push(close);
            *c = Candle { open: close, high: close, low: close, close, ..c.clone() };
        }
    }
    let mut ev = vec![];
    let res = caught(|| {
        let mut s = construct(&p);
        cfg["maty"] = json!(s.maturity());
        let mut eyes = Eyes::new(&p);
        for (t, c) in cs.iter().enumerate() {
            s.update(c);
            let (x, ready) = eyes.look(c, t as u32 + 1);
            ev.push(json!({"e":"s","x":x,"ready":b(ready),"mat":b(s.mature()),"maty":s.maturity(),
                "adv":advice_code(s.advice())}));
        }
    });
    if let Err(m) = res {
        ev.push(json!({"e":"panic","msg":m}));
    }
    run(id, "strategy", cfg, ev)
}

fn construct(p: &Value) -> Box<dyn Signal> {
    let sp: SignalParams = serde_json::from_value(p.clone()).unwrap();
    sp.construct(&StrategyMeta { interval: Interval(UNIT) })
}

fn ripe_after(f: impl FnOnce() -> u32) -> usize {
    let mut n = 600;
    let _ = caught(|| n = f().clamp(300, 1200));
    n as usize
}

fn osc_run(id: usize, rng: &mut Rng, by: i64) -> Value {
    let p = params::stretch(&params::osc(rng), by);
    let mut cfg = json!({"k":"osc","params":p});
    let len = rng.int(10, 50) as usize + if by > 1 { 6 * by as usize } else { 0 };
    let cs = market(rng, len, UNIT, false);
    let (up, dn) = (p["up_threshold"].as_f64().unwrap(), p["down_threshold"].as_f64().unwrap());
    let u = |k: &str| p[k].as_u64().unwrap() as u32;
    let mut ev = vec![];
    let res = caught(|| {
        let op: OscillatorParams = serde_json::from_value(p.clone()).unwrap();
        let mut o = op.construct(&StrategyMeta { interval: Interval(UNIT) });
        cfg["maty"] = json!(o.maturity());
        let stoch = p["type"] == json!("Stoch");
        let mut rsi = (!stoch).then(|| indicators::Rsi::new(u("period")));
        let mut st = stoch
            .then(|| indicators::Stoch::new(u("k_period"), u("k_sma_period"), u("d_sma_period")));
        for c in &cs {
            o.update(c);
            let v = if let Some(r) = rsi.as_mut() {
                r.update(c.close);
                r.value
            } else {
                let s = st.as_mut().unwrap();
                s.update(c.high, c.low, c.close);
                s.k
            };
            ev.push(json!({"e":"o","up":sgn(v,up),"dn":sgn(v,dn),"mat":b(o.mature()),"maty":o.maturity(),
                "ob":b(o.overbought()),"os":b(o.oversold())}));
        }
    });
    if let Err(m) = res {
        ev.push(json!({"e":"panic","msg":m}));
    }
    run(id, "oscillator", cfg, ev)
}

pub fn strategies(a: &Args) {
    let n = a.opt_i("n", a.n(1750, 17500)) as u64;
    let long = a.n(24, 240) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0x57A7, i);
            let id = i as usize + 1;
            let by = if i + long >= n { params::factor(&mut rng, i) } else { 1 };
            if i % 8 == 7 {
                osc_run(id, &mut rng, by)
            } else {
                strategy_run(id, &mut rng, by)
            }
        })
        .collect();
    write_lines(&a.out, &lines);
}

/// Maturity of bare indicators.
pub fn maturity(a: &Args) {
    let top = a.n(12, 60) as u32;
    let mut work: Vec<(String, [u32; 3])> = vec![];
    for p in 1..=top {
        for k in ["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma", "Rsi", "Adx", "DX", "DM", "DI"] {
            work.push((k.to_owned(), [p, 0, 0]));
        }
    }
    for x in 1..=4 {
        for y in 1..=4 {
            for z in 1..=4 {
                work.push(("Stoch".into(), [x, y, z]));
                if x <= y {
                    work.push(("Macd".into(), [x, y, z]));
                }
            }
        }
    }
    work.push(("Macd".into(), [12, 26, 9]));
    // As long as the optimiser tries.
    let mut rng = Rng::new(a.seed ^ 0x3A8, 0);
    for p in [63, 64, 127, 128, 200, 255, 256, 257, 300, 299 - rng.int(0, 40) as u32] {
        let k = *rng.pick(&["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"]);
        for k in [k, "Rsi", "Adx", "DX", "DM", "DI"] {
            if p % 2 == 0 || k == "Adx" || rng.bool(1, 3) {
                work.push((k.to_owned(), [p, 0, 0]));
            }
        }
    }
    for k in ["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"] {
        work.push((k.to_owned(), [*rng.pick(&[256, 257, 260, 300]), 0, 0]));
    }
    for k in ["Stoch", "Macd"] {
        for p in [[257, 1, 2], [3, 256, 2], [2, 3, 258], [120, 130, 40], [1, 128, 128], [100, 100, 100]] {
            if k == "Stoch" || p[0] <= p[1] {
                work.push((k.into(), p));
            }
        }
    }
    let lines: Vec<Value> = work
        .par_iter()
        .enumerate()
        .map(|(i, (k, p))| {
            let mut rng = Rng::new(a.seed ^ 0x3A7, i as u64);
            let cs = market(&mut rng, (p[0] + p[1] + p[2]) as usize * 2 + 6, UNIT, false);
            let mut cfg = json!({"k":"ind","name":k,"p":p});
            let mut ev = vec![];
            let res = caught(|| {
                macro_rules! drive {
                    ($x:expr, $c:ident, $upd:expr) => {{
                        let mut x = $x;
                        cfg["maty"] = json!(x.maturity());
                        for $c in &cs {
                            $upd(&mut x);
                            ev.push(json!({"e":"i","mat":b(x.mature()),"maty":x.maturity()}));
                        }
                    }};
                }
                match k.as_str() {
                    "Rsi" => drive!(indicators::Rsi::new(p[0]), c, |x: &mut indicators::Rsi| x.update(c.close)),
                    "Adx" => drive!(indicators::Adx::new(p[0]), c, |x: &mut indicators::Adx| x.update(c.high, c.low)),
                    "DX" => drive!(indicators::DX::new(p[0]), c, |x: &mut indicators::DX| x.update(c.high, c.low)),
                    "DM" => drive!(indicators::DM::new(p[0]), c, |x: &mut indicators::DM| x.update(c.high, c.low)),
                    "DI" => drive!(indicators::DI::new(p[0]), c, |x: &mut indicators::DI| x.update(c.high, c.low, c.close)),
                    "Stoch" => drive!(indicators::Stoch::new(p[0], p[1], p[2]), c, |x: &mut indicators::Stoch| x.update(c.high, c.low, c.close)),
                    "Macd" => drive!(indicators::Macd::new(p[0], p[1], p[2]), c, |x: &mut indicators::Macd| x.update(c.close)),
                    _ => drive!(ma(&ma_json(k, p[0])), c, |x: &mut Box<dyn MA>| x.update(c.close)),
                }
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i + 1, "indicator", cfg, ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}

pub fn ma_json(k: &str, period: u32) -> Value {
    match k {
        "Alma" => json!({"type":"Alma","period":period,"offset":0.85,"sigma":null}),
        "Ema" => json!({"type":"Ema","period":period,"smoothing":null}),
        _ => json!({"type":k,"period":period}),
    }
}
