//! Drives `juno::trading::trade` on every prefix of generated candle histories and records what it did.
use crate::params;
use crate::util::*;
use juno::filters::{Filters, Price, Size};
use juno::strategies::StrategyMeta;
use juno::trading::{trade, CloseReason, Position, TradeInput, TradingParams, TradingSummary};
use juno::{Advice, BorrowInfo, Candle, Fees, Interval, Timestamp};
use rayon::prelude::*;
use serde_json::{json, Value};

pub const UNIT: u64 = 60_000;

pub struct Case {
    pub cfg: Value,
    pub params: TradingParams,
    pub candles: Vec<Candle>,
}

fn gi(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("missing {k}"))
}

fn exit_json(x: &Value, tp: bool) -> Value {
    let d = gi(x, "d") as f64;
    let f = |k: &str| gi(x, k) as f64 / d;
    match x["k"].as_str().unwrap() {
        "noop" => json!({"type":"Noop"}),
        "basic" => json!({"type":"Basic","up_threshold":f("u"),"down_threshold":f("v")}),
        "trail" if !tp => json!({"type":"Trailing","up_threshold":f("x"),"down_threshold":f("y")}),
        "both" if !tp => json!({"type":"BasicPlusTrailing",
            "basic":{"up_threshold":f("u"),"down_threshold":f("v")},
            "trailing":{"up_threshold":f("x"),"down_threshold":f("y")}}),
        "legacy" if !tp => json!({"type":"Legacy","threshold":f("u"),"trail":gi(x,"trail")==1}),
        "legacy" => json!({"type":"Legacy","threshold":f("u")}),
        k => panic!("exit kind {k}"),
    }
}
pub fn sl_params(x: &Value) -> Value {
    exit_json(x, false)
}
pub fn tp_params(x: &Value) -> Value {
    exit_json(x, true)
}

pub fn exit_rand(rng: &mut Rng, exact: bool, tp: bool) -> Value {
    let k = if tp {
        *rng.pick(&["noop", "basic", "basic", "legacy"])
    } else {
        *rng.pick(&["noop", "basic", "trail", "both", "legacy"])
    };
    let d = if exact { rng.pick_i(&[4, 8, 16]) } else { rng.pick_i(&[10, 100, 20]) };
    let hi = if tp { d + d / 2 } else { d - 1 };
    let mut th = || {
        if rng.bool(2, 3) {
            rng.int(1, (d / 4).max(1))
        } else if rng.bool(1, 4) {
            // Beyond 100%, up to what is ever generated.
            rng.int(d, if tp { 10 * d } else { 3 * d })
        } else {
            rng.int(1, hi)
        }
    };
    let (mut u, mut v, x, y) = (th(), th(), th(), th());
    // Levels on the other side of the entry: a stop may be passed together with a profit.
    if k != "legacy" && rng.bool(1, 8) {
        u = -u;
    }
    if k != "legacy" && rng.bool(1, 8) {
        v = -v;
    }
    if k == "legacy" && rng.bool(1, 4) {
        u = 0;
    }
    json!({"k":k,"u":u,"v":v,"x":x,"y":y,"d":d,"trail":rng.int(0,1)})
}

pub fn build_params(cfg: &Value, strategy: &Value) -> TradingParams {
    let v = json!({"strategy":strategy,"trader":{"interval":gi(cfg,"dt") as u64 * UNIT},
        "stop_loss":sl_params(&cfg["sl"]),"take_profit":tp_params(&cfg["tp"])});
    serde_json::from_value(v).expect("trading params")
}

pub struct Market {
    pub fees: Fees,
    pub filters: Filters,
    pub borrow: BorrowInfo,
    pub mm: u32,
    pub quote: f64,
    pub long: bool,
    pub short: bool,
}

/// What there is below the quote precision: quarters of its unit, which no trade touches.
fn finer(cfg: &Value) -> f64 {
    gi(cfg, "qf") as f64 / 4.0 / gi(cfg, "qu") as f64
}

pub fn market(cfg: &Value) -> Market {
    let sd = gi(cfg, "sd") as f64;
    let p10 = |n: i64| (n as f64).log10().round() as u32;
    Market {
        fees: Fees { maker: 0.0, taker: gi(cfg, "tn") as f64 / gi(cfg, "td") as f64 },
        filters: Filters {
            price: Price { min: 0.0, max: 0.0, step: 0.0 },
            size: Size {
                min: gi(cfg, "mn") as f64 / sd,
                max: gi(cfg, "mx") as f64 / sd,
                step: gi(cfg, "st") as f64 / sd,
            },
            base_precision: p10(gi(cfg, "bu")),
            quote_precision: p10(gi(cfg, "qu")),
        },
        borrow: BorrowInfo {
            interest_interval: gi(cfg, "ii") as u64 * UNIT / gi(cfg, "is") as u64,
            interest_rate: gi(cfg, "rn") as f64 / gi(cfg, "rd") as f64,
            limit: gi(cfg, "lim") as f64 / sd,
        },
        mm: gi(cfg, "mm") as u32,
        quote: gi(cfg, "q0") as f64 / gi(cfg, "qu") as f64 + finer(cfg),
        long: gi(cfg, "long") == 1,
        short: gi(cfg, "short") == 1,
    }
}

pub fn run_trade(m: &Market, params: &TradingParams, candles: &[Candle]) -> Result<TradingSummary, String> {
    caught(|| {
        trade(
            params,
            &TradeInput {
                candles,
                fees: &m.fees,
                filters: &m.filters,
                borrow_info: &m.borrow,
                margin_multiplier: m.mm,
                quote: m.quote,
                long: m.long,
                short: m.short,
            },
        )
    })
}

pub fn advice_code(a: Advice) -> i64 {
    match a {
        Advice::None => 0,
        Advice::Long => 1,
        Advice::Short => 2,
        Advice::Liquidate => 3,
    }
}

fn why(r: CloseReason) -> &'static str {
    match r {
        CloseReason::Strategy => "strategy",
        CloseReason::StopLoss => "stop",
        CloseReason::TakeProfit => "take",
        CloseReason::Cancelled => "cancel",
    }
}

fn time(t: Timestamp) -> i64 {
    if t.0 % UNIT == 0 && t.0 / UNIT < 100_000_000 {
        (t.0 / UNIT) as i64
    } else {
        BAD
    }
}

fn reason_of(p: &Position) -> CloseReason {
    match p {
        Position::Long(p) => p.close_reason,
        Position::Short(p) => p.close_reason,
    }
}

/// Position record on the integer grids of the configuration.
pub fn record(cfg: &Value, p: &Position) -> Value {
    let f = |k: &str| gi(cfg, k) as f64;
    let (pd, sd, qu, bu) = (f("pd"), f("sd"), f("qu"), f("bu"));
    match p {
        Position::Long(p) => {
            let (o, c) = (&p.open_fills[0], &p.close_fills[0]);
            json!({"s":"L","ot":time(p.open_time),"op":grid(o.price,pd),"os":grid(o.size,sd),
                "oq":grid(o.quote,qu),"of":grid(o.fee,bu),"col":0,"bor":0,
                "ct":time(p.close_time),"cp":grid(c.price,pd),"cs":grid(c.size,sd),
                "cq":grid(c.quote,qu),"cf":grid(c.fee,qu),
                "bg":grid(p.base_gain(),sd*bu),"bc":grid(p.base_cost(),sd*bu),
                "cost":grid(p.cost(),qu),"gain":grid(p.gain(),qu),"pr":grid(p.profit(),qu),
                "dur":time(Timestamp(p.duration().0)),"why":why(p.close_reason)})
        }
        Position::Short(p) => {
            let (o, c) = (&p.open_fills[0], &p.close_fills[0]);
            json!({"s":"S","ot":time(p.open_time),"op":grid(o.price,pd),"os":grid(o.size,sd),
                "oq":grid(o.quote,qu),"of":grid(o.fee,qu),"col":grid(p.collateral-finer(cfg),qu),
                "bor":grid(p.borrowed,sd),
                "ct":time(p.close_time),"cp":grid(c.price,pd),"cs":grid(c.size,sd*bu),
                "cq":grid(c.quote,qu),"cf":grid(c.fee,bu),
                "bg":grid(p.base_gain(),sd*bu),"bc":grid(p.base_cost(),sd*bu),
                "cost":grid(p.cost()-finer(cfg),qu),"gain":grid(p.gain()-finer(cfg),qu),"pr":grid(p.profit(),qu),
                "dur":time(Timestamp(p.duration().0)),"why":why(p.close_reason)})
        }
    }
}

pub fn advices(params: &TradingParams, candles: &[Candle]) -> Vec<i64> {
    let meta = StrategyMeta { interval: params.trader.interval };
    let mut s = params.strategy.construct(&meta);
    candles
        .iter()
        .map(|c| {
            s.update(c);
            advice_code(s.advice())
        })
        .collect()
}

/// Would the specification's own arithmetic leave the 32-bit range for this position?
fn too_big(cfg: &Value, r: &Value) -> bool {
    let g = |k: &str| gi(cfg, k) as i128;
    let v = |k: &str| r[k].as_i64().unwrap() as i128;
    let lim: i128 = 1_000_000_000;
    if (v("dur") + g("dt")) * g("is") > lim {
        return true;
    }
    let spells = (v("dur") + g("dt")) * g("is") / g("ii") + 1;
    if v("bor") * spells * g("rn").max(1) * g("bu") > lim {
        return true;
    }
    // Sizes too large to be recorded, told by what was paid for them.
    let top = (90_000_000 / g("bu")).min(19_000_000);
    if v("oq").max(v("cq")) * g("sd") * g("pd") > top * g("qu") * v("op").min(v("cp")).max(1) {
        return true;
    }
    let lim: i128 = 1_900_000_000;
    let p = v("op").max(v("cp")).abs();
    p * v("cs").abs() * g("qu") > lim
        || p * v("os").abs() * g("qu") > lim
        || if g("qf") > 0 { 4 } else { 1 } * g("pd") * g("sd") * v("col").abs().max(v("oq").abs()).max(v("cq").abs()) > lim
        || v("cs").abs() * g("tn") * g("bu") > lim
        || v("oq").abs().max(v("cq").abs()) * g("tn") * 2 > lim
}

pub fn trace(id: usize, kind: &str, case: &Case) -> Value {
    let m = market(&case.cfg);
    let adv = match caught(|| advices(&case.params, &case.candles)) {
        Ok(a) => a,
        Err(e) => return run(id, kind, case.cfg.clone(), vec![json!({"e":"panic","msg":e})]),
    };
    let mut ev = Vec::new();
    let mut n = 0usize;
    for k in 1..=case.candles.len() {
        let c = &case.candles[k - 1];
        let s = match run_trade(&m, &case.params, &case.candles[..k]) {
            Ok(s) => s,
            Err(e) => {
                ev.push(json!({"e":"panic","msg":e}));
                break;
            }
        };
        let closed: Vec<&Position> =
            s.positions.iter().filter(|p| reason_of(p) != CloseReason::Cancelled).collect();
        let open: Vec<&Position> =
            s.positions.iter().filter(|p| reason_of(p) == CloseReason::Cancelled).collect();
        // A cancelled position anywhere but at the end is logged as disorder.
        let order_ok = open.len() <= 1
            && s.positions
                .iter()
                .position(|p| reason_of(p) == CloseReason::Cancelled)
                .map(|i| i + 1 == s.positions.len())
                .unwrap_or(true);
        let cl: Vec<Value> = closed.iter().skip(n).map(|p| record(&case.cfg, p)).collect();
        let op: Vec<Value> = open.iter().map(|p| record(&case.cfg, p)).collect();
        if cl.iter().chain(op.iter()).any(|r| too_big(&case.cfg, r)) {
            break;
        }
        ev.push(json!({"e":"c","t":time(c.time),"c":grid(c.close,gi(&case.cfg,"pd") as f64),
            "a":adv[k-1],"n":closed.len(),"ok":order_ok && closed.len()>=n,"cl":cl,"op":op,
            "st":time(s.start),"en":time(s.end),"q":grid(s.quote-finer(&case.cfg),gi(&case.cfg,"qu") as f64)}));
        n = closed.len();
    }
    run(id, kind, case.cfg.clone(), ev)
}

pub fn config(rng: &mut Rng, exact: bool) -> Value {
    let sl = exit_rand(rng, exact, false);
    let tp = exit_rand(rng, exact, true);
    let sides = rng.int(0, 5);
    let (long, short) = match sides {
        0 => (1, 0),
        1 => (0, 1),
        _ => (1, 1),
    };
    let mm = rng.pick_i(&[2, 2, 2, 3, 4, 1]);
    let (pd, sd, qu, bu, tn, td, rn, rd, q0);
    if exact {
        pd = 4;
        sd = rng.pick_i(&[1, 4, 16]);
        qu = 1;
        bu = 1;
        td = rng.pick_i(&[8, 16, 32, 64]);
        tn = rng.pick_i(&[0, 1, 1, 2]);
        rd = rng.pick_i(&[16, 64, 256]);
        rn = rng.pick_i(&[0, 1, 3]);
        q0 = rng.pick_i(&[20, 100, 1000, 4096]);
    } else {
        pd = rng.pick_i(&[1, 4]);
        sd = rng.pick_i(&[10, 100]);
        qu = rng.pick_i(&[1, 10, 100]);
        bu = rng.pick_i(&[1, 10, 100]);
        td = 1000;
        tn = rng.pick_i(&[0, 1, 2, 15, 100]);
        rd = rng.pick_i(&[100, 1000]);
        rn = rng.pick_i(&[0, 1, 7]);
        let cap = (300_000_000 / (pd * sd * qu * bu * mm * 4)).min(2000).max(4);
        q0 = rng.pick_i(&[cap, cap / 2, (cap / 4).max(2)]) * qu;
    }
    let st = if exact { rng.pick_i(&[1, 1, 2, 3, 8]) } else { rng.pick_i(&[1, 1, 2, 5, 25]) };
    let mn = rng.pick_i(&[0, st, st * 2, st * 3, 3]);
    let mx = if rng.bool(1, 4) { mn + st * rng.int(2, 40) + rng.int(0, 1) } else { 0 };
    let lim = if rng.bool(1, 3) { rng.pick_i(&[0, st * 7, 11, 40]) } else { 1_000_000 };
    // Candles of minutes, hours, days.
    let dt = rng.pick_i(&[1, 1, 2, 3, 1, 2, 60, 1440]);
    // Interest accrues anything from once in many candles to many times a candle.
    let (is, ii, rn, rd) = match rng.int(0, 9) {
        0 | 1 if dt > 3 => (rng.pick_i(&[1, 4]), rng.pick_i(&[1, 7, 60]), rng.pick_i(&[0, 1, 1]), if exact { 1 << 22 } else { 2_000_000 }),
        _ if dt > 3 => (1, rng.pick_i(&[1, 2, 3, 5, 24]) * rng.pick_i(&[dt, dt, dt / 2, dt + 1]), rn, rd),
        0 => (rng.pick_i(&[60, 1000, 12_000]), 1, rng.pick_i(&[0, 1, 1]), if exact { 1 << 20 } else { 1_000_000 }),
        1 => (60_000, 1, rng.pick_i(&[0, 1, 1]), if exact { 1 << 22 } else { 2_000_000 }),
        _ => (1, rng.pick_i(&[1, 2, 3, 5, 24]), rn, rd),
    };
    let qf = if rng.bool(1, 4) { rng.int(1, 3) } else { 0 };
    json!({"exact":if exact {1} else {0},"qf":qf,"pd":pd,"sd":sd,"qu":qu,"bu":bu,"tn":tn,"td":td,"rn":rn,"rd":rd,
        "ii":ii,"is":is,"lim":lim,"mm":mm,"q0":q0,"st":st,"mn":mn,"mx":mx,
        "long":long,"short":short,"dt":dt,"sl":sl,"tp":tp})
}

/// Prices move up and down in multiplicative and additive steps with flat stretches and jumps.
pub fn closes(rng: &mut Rng, n: usize, lo: i64, hi: i64) -> Vec<i64> {
    let mut p = rng.int(lo + (hi - lo) / 4, lo + (hi - lo) / 2);
    let mode = rng.int(0, 3);
    let mut dir = 1;
    (0..n)
        .map(|_| {
            match mode {
                0 => p += rng.int(-2, 2),
                1 => {
                    if rng.bool(1, 4) {
                        dir = -dir;
                    }
                    p += dir * rng.int(0, 3);
                }
                2 => {
                    if rng.bool(1, 3) {
                        p += rng.int(-(p / 3).max(1), (p / 2).max(1));
                    }
                }
                _ => p = rng.int(lo, hi),
            }
            p = p.clamp(lo, hi);
            p
        })
        .collect()
}

pub fn candles(rng: &mut Rng, cfg: &Value, cl: &[i64]) -> Vec<Candle> {
    let pd = gi(cfg, "pd") as f64;
    let dt = gi(cfg, "dt") as u64;
    // Candles need not begin at multiples of their interval.
    let mut t = rng.int(0, 3) as u64 * dt + if rng.bool(1, 3) { rng.int(0, dt as i64 - 1) as u64 } else { 0 };
    // Long after 1970, as a rule.
    if rng.bool(1, 2) {
        t += rng.int(0, 30_000_000 / dt as i64) as u64 * dt;
    }
    let mut prev = cl.first().copied().unwrap_or(1);
    cl.iter()
        .map(|&c| {
            if rng.bool(1, 12) {
                let long = rng.bool(1, 30);
                t += dt * if long { rng.int(20, 400) } else { rng.int(1, 3) } as u64; // missing candles
            }
            // Opens away from the previous close at times.
            let o = if rng.bool(1, 5) { (prev + rng.int(-2, 2)).max(1) } else { prev };
            let h = o.max(c) + rng.int(0, 2);
            let l = (o.min(c) - rng.int(0, 2)).max(1);
            let x = Candle {
                time: Timestamp(t * UNIT),
                open: o as f64 / pd,
                high: h as f64 / pd,
                low: l as f64 / pd,
                close: c as f64 / pd,
                volume: rng.volume(),
            };
            t += dt;
            prev = c;
            x
        })
        .collect()
}

pub fn random_case(seed: u64, i: u64) -> Case {
    let mut rng = Rng::new(seed, i);
    let exact = rng.bool(1, 2);
    let cfg = config(&mut rng, exact);
    let long = i % 120 == 60;
    let n = match rng.int(0, 39) {
        _ if long => rng.int(400, 700),
        0 => rng.int(0, 2),
        1 => rng.int(100, 220),
        _ => rng.int(8, 40),
    } as usize;
    let hi = if exact { 64 } else { 60 };
    let cl = closes(&mut rng, n, 2, hi);
    let cs = candles(&mut rng, &cfg, &cl);
    let mut strat = params::strategy(&mut rng);
    if rng.bool(1, 3) {
        strat = lively(&mut rng);
    }
    if long {
        let by = rng.int(2, 50);
        strat = params::stretch(&strat, by);
    }
    let params = build_params(&cfg, &strat);
    Case { cfg, params, candles: cs }
}

/// A position every other candle, for as long as nobody has traded before.
fn endless_case(seed: u64) -> Case {
    let mut rng = Rng::new(seed, 0xE9D1E55);
    let mut cfg = config(&mut rng, true);
    for (k, v) in [("tn", 0), ("rn", 0), ("lim", 1_000_000), ("mm", 2), ("mn", 0), ("mx", 0), ("st", 1), ("sd", 4), ("long", 1), ("short", 1), ("dt", 1),
        ("is", 1), ("ii", 5), ("q0", 1000)] {
        cfg[k] = json!(v);
    }
    let none = json!({"k":"noop","u":0,"v":0,"x":0,"y":0,"d":4,"trail":0});
    cfg["sl"] = none.clone();
    cfg["tp"] = none;
    let (mut p, mut up, mut left) = (120, true, 2);
    let cl: Vec<i64> = (0..2500)
        .map(|_| {
            if left == 0 {
                up = p < 100 || p < 140 && !up;
                left = if rng.bool(1, 10) { rng.pick_i(&[1, 3]) } else { 2 };
            }
            left -= 1;
            p += if up { 1 } else { -1 };
            p
        })
        .collect();
    let candles = candles(&mut rng, &cfg, &cl);
    let params = build_params(&cfg, &json!({"type":"DoubleMA","mas":[{"type":"Sma","period":1},{"type":"Sma","period":2}]}));
    Case { cfg, params, candles }
}

/// A strategy that turns with every price move, so that many trades happen.
pub fn lively(rng: &mut Rng) -> Value {
    match rng.int(0, 2) {
        0 => json!({"type":"DoubleMA","mas":[{"type":"Sma","period":1},{"type":"Sma","period":2}]}),
        1 => json!({"type":"FourWeekRule","period":2,"ma":{"type":"Sma","period":2}}),
        _ => steering(),
    }
}

/// Long on a rise, short on a fall, liquidate when the candle closes at its high (low): lets a
/// scenario steer the advice freely through candle shapes.
pub fn steering() -> Value {
    json!({"type":"SigOsc","osc_filter":"Prevent","persistence":0,"mid_trend_policy":"Current",
        "sig":{"type":"DoubleMA","mas":[{"type":"Sma","period":1},{"type":"Sma","period":2}]},
        "osc":{"type":"Stoch","k_period":1,"k_sma_period":1,"d_sma_period":1,
               "up_threshold":75.0,"down_threshold":25.0}})
}

/// Scenario produced by TLC (module TradeGen): {"cfg":.., "cs":[[close, liq], ...]}.
pub fn scenario_case(s: &Value) -> Case {
    let cfg = s["cfg"].clone();
    let pd = gi(&cfg, "pd") as f64;
    let dt = gi(&cfg, "dt") as u64;
    let mut t = 0u64;
    let mut prev = 0i64;
    let mut cs = Vec::new();
    for x in s["cs"].as_array().unwrap() {
        let (c, liq, gap) = (x[0].as_i64().unwrap(), x[1].as_i64().unwrap(), x[2].as_i64().unwrap());
        t += gap as u64 * dt;
        let c4 = c as f64 / pd;
        let (h, l) = if liq == 0 {
            (c4 + 1.0, c4 - 1.0) // %K = 50: neither overbought nor oversold
        } else if c >= prev {
            (c4, c4 - 1.0) // %K = 100
        } else {
            (c4 + 1.0, c4) // %K = 0
        };
        cs.push(Candle { time: Timestamp(t * UNIT), open: if prev % 2 == 0 { h } else { l }, high: h, low: l, close: c4, volume: (cs.len() as i64 + c) as f64 % 3.0 });
        prev = c;
        t += dt;
    }
    let params = build_params(&cfg, &steering());
    Case { cfg, params, candles: cs }
}

pub fn cases(a: &Args) -> Vec<(String, Case)> {
    let mut v: Vec<(String, Case)> = Vec::new();
    if let Some(p) = &a.scen {
        for s in read_lines(p) {
            v.push(("model".into(), scenario_case(&s)));
        }
    }
    let n = a.opt_i("n", a.n(1200, 12000)) as u64;
    v.extend((0..n).into_par_iter().map(|i| ("random".to_owned(), random_case(a.seed, i))).collect::<Vec<_>>());
    v.push(("random".into(), endless_case(a.seed)));
    v
}

pub fn main(a: &Args) {
    let cs = cases(a);
    let lines: Vec<Value> =
        cs.par_iter().enumerate().map(|(i, (k, c))| trace(i + 1, k, c)).collect();
    write_lines(&a.out, &lines);
}

/// Opening, opening time, closing time, everything.
fn digest(p: &Position) -> Value {
    let all = serde_json::to_value(p).unwrap();
    let mut opening = all.clone();
    for k in ["close_time", "close_fills", "close_reason"] {
        opening.as_object_mut().unwrap().remove(k);
    }
    let (ot, ct) = match p {
        Position::Long(p) => (p.open_time, p.close_time),
        Position::Short(p) => (p.open_time, p.close_time),
    };
    json!([fnv(&opening.to_string()), time(ot), time(ct), fnv(&all.to_string())])
}

fn digests(r: &Result<TradingSummary, String>) -> Value {
    match r {
        Err(e) => json!({"panic":1,"msg":e,"cl":[],"op":[]}),
        Ok(s) => {
            let mut cl = vec![];
            let mut op = vec![];
            for p in &s.positions {
                if reason_of(p) == CloseReason::Cancelled {
                    let d = digest(p);
                    op.push(json!([d[0], d[1]]));
                } else {
                    cl.push(digest(p));
                }
            }
            json!({"panic":0,"msg":"","cl":cl,"op":op})
        }
    }
}

/// Pairs of runs: prefixes, repetitions, altered continuations.
pub fn causal(a: &Args) {
    let n = a.opt_i("n", a.n(1000, 10000)) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut case = random_case(a.seed ^ 0xC0FFEE, i);
            let mut rng = Rng::new(a.seed ^ 0xFACE, i);
            if rng.bool(1, 3) {
                // Include the trend following take profit, which other drivers treat separately.
                let mut v = serde_json::to_value(&case.params).unwrap();
                v["take_profit"] = json!({"type":"Trending","up_thresholds":[0.05,0.2],
                    "down_thresholds":[0.05,0.2],"lock_threshold":rng.bool(1,2),
                    "period":rng.int(1,4),"easing":*rng.pick(&["Linear","QuadIn","CubicOut","SineInout"])});
                case.params = serde_json::from_value(v).unwrap();
            }
            let m = market(&case.cfg);
            let cs = &case.candles;
            let mut ev = vec![];
            for k in 0..=cs.len() {
                let mut d = digests(&run_trade(&m, &case.params, &cs[..k]));
                d["e"] = json!("prefix");
                d["k"] = json!(k);
                d["t"] = json!(if k == 0 { 0 } else { time(Timestamp(cs[k - 1].time.0 + case.params.trader.interval.0)) });
                ev.push(d);
            }
            for _ in 0..2 {
                let mut d = digests(&run_trade(&m, &case.params, cs));
                d["e"] = json!("repeat");
                d["k"] = json!(cs.len());
                ev.push(d);
            }
            // Altered futures: same first k candles, other prices afterwards.
            for _ in 0..3 {
                let k = rng.int(0, cs.len() as i64) as usize;
                let extra = rng.int(1, 12) as usize;
                let cl = closes(&mut rng, extra, 2, 60);
                let mut alt = cs[..k].to_vec();
                let t0 = alt.last().map(|c| c.time.0).unwrap_or(0);
                for (j, mut c) in candles(&mut rng, &case.cfg, &cl).into_iter().enumerate() {
                    c.time = Timestamp(t0 + (j as u64 + 1) * case.params.trader.interval.0);
                    alt.push(c);
                }
                let cut = t0 + case.params.trader.interval.0;
                let r = run_trade(&m, &case.params, &alt);
                // Only what was closed by the end of the k-th candle is comparable.
                let mut d = match &r {
                    Err(_) => digests(&r),
                    Ok(s) => {
                        let cl: Vec<Value> = s.positions.iter().filter(|p| {
                            reason_of(p) != CloseReason::Cancelled && match p {
                                Position::Long(p) => p.close_time.0 <= cut,
                                Position::Short(p) => p.close_time.0 <= cut,
                            }
                        }).map(digest).collect();
                        json!({"panic":0,"msg":"","cl": if k == 0 { vec![] } else { cl },"op":[]})
                    }
                };
                d["e"] = json!("alter");
                d["k"] = json!(k);
                ev.push(d);
            }
            // And the first answer once more, after all the others.
            let mut d = digests(&run_trade(&m, &case.params, cs));
            d["e"] = json!("repeat");
            d["k"] = json!(cs.len());
            ev.push(d);
            run(i as usize + 1, "causal", json!({"n":cs.len()}), ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}

#[allow(dead_code)]
fn unused(_: Interval) {}
