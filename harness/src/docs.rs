//! Documents (JSON) of parameters, contexts, market data and results: read and written again.
use crate::params;
use crate::util::*;
use juno::genetics::Chromosome;
use juno::statistics::{CoreStatistics, PositionStatistics};
use juno::trading::{EvaluationAggregation, EvaluationStatistic, TradingParams, TradingParamsContext, TradingSummary};
use juno::{Candle, CandleType, ExchangeInfo};
use rand::{rngs::StdRng, SeedableRng};
use rayon::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};

/// A document as the specification sees it.
fn enc(v: &Value) -> Value {
    let doc = |j: &str, v: String| json!({"j":j,"v":v,"f":"","fit":0,"k":[],"x":[]});
    match v {
        Value::Null => doc("z", String::new()),
        Value::Bool(b) => doc("b", b.to_string()),
        Value::String(s) => doc("s", s.clone()),
        Value::Number(n) => {
            let j = if n.is_u64() { "u" } else if n.is_i64() { "i" } else { "f" };
            let fit = n.as_u64().map_or(false, |x| x <= u32::MAX as u64) as u8;
            // Reading a decimal may end a hair beside it.
            let f = n.as_f64().unwrap();
            json!({"j":j,"v":n.to_string(),"f":format!("{:.12e}", if f == 0.0 { 0.0 } else { f }),"fit":fit,"k":[],"x":[]})
        }
        Value::Array(a) => json!({"j":"a","v":"","f":"","fit":0,"k":[],"x":a.iter().map(enc).collect::<Vec<_>>()}),
        Value::Object(o) => json!({"j":"o","v":"","f":"","fit":0,"k":o.keys().collect::<Vec<_>>(),"x":o.values().map(enc).collect::<Vec<_>>()}),
    }
}

/// JSON text of `v` with the members of objects in random order.
fn text(rng: &mut Rng, v: &Value) -> String {
    match v {
        Value::Array(a) => format!("[{}]", a.iter().map(|x| text(rng, x)).collect::<Vec<_>>().join(",")),
        Value::Object(o) => {
            let mut ms: Vec<String> = o.iter().map(|(k, x)| format!("{}:{}", json!(k), text(rng, x))).collect();
            for i in (1..ms.len()).rev() {
                ms.swap(i, rng.int(0, i as i64) as usize);
            }
            format!("{{{}}}", ms.join(","))
        }
        v => v.to_string(),
    }
}

fn real(rng: &mut Rng) -> Value {
    json!(*rng.pick(&[0.0, 1.0, 0.5, 0.1, 1e-8, 12345.678, -0.25, -3.0, 1e15, 0.001, 99.99, 7.0]))
}
fn time(rng: &mut Rng) -> Value {
    match rng.int(0, 5) {
        0 => json!("2019-01-01"),
        1 => json!("2020-02-29T12:00:00Z"),
        2 => json!("1970-01-01T00:00:00+00:00"),
        3 => json!(rng.int(0, 5)),
        _ => json!(1_500_000_000_000u64 + rng.next() % 100_000_000_000),
    }
}
fn span(rng: &mut Rng) -> Value {
    match rng.int(0, 4) {
        0 => json!(*rng.pick(&["1m", "1h", "1d", "1d12h", "1w"])),
        1 => json!(rng.int(0, 5)),
        _ => json!(*rng.pick(&[60_000u64, 3_600_000, 86_400_000, 604_800_000, 2_629_746_000, 31_556_952_000])),
    }
}
fn nat(rng: &mut Rng) -> Value {
    json!(*rng.pick(&[0u64, 1, 2, 7, 300, 65536, u32::MAX as u64]))
}
fn of(names: &[&str], mut f: impl FnMut(&str) -> Value) -> Value {
    Value::Object(names.iter().map(|k| (k.to_string(), f(k))).collect())
}
fn map(rng: &mut Rng, names: &[&str], mut f: impl FnMut(&mut Rng) -> Value) -> Value {
    let mut m = Map::new();
    for n in names {
        if rng.bool(2, 3) {
            m.insert(n.to_string(), f(rng));
        }
    }
    Value::Object(m)
}
fn candle(rng: &mut Rng) -> Value {
    of(&["time", "open", "high", "low", "close", "volume"], |k| if k == "time" { time(rng) } else { real(rng) })
}
fn fill(rng: &mut Rng) -> Value {
    of(&["price", "size", "quote", "fee"], |_| real(rng))
}
fn reason(rng: &mut Rng) -> Value {
    json!(*rng.pick(&["Strategy", "StopLoss", "TakeProfit", "Cancelled"]))
}
fn position(rng: &mut Rng) -> Value {
    let mut p = json!({"type":"Long","open_time":time(rng),"open_fills":[fill(rng)],"close_time":time(rng),"close_fills":[fill(rng)],
        "close_reason":reason(rng)});
    if rng.bool(1, 2) {
        p["type"] = json!("Short");
        p["collateral"] = real(rng);
        p["borrowed"] = real(rng);
    }
    p
}
fn exchange(rng: &mut Rng) -> Value {
    let steps = |rng: &mut Rng| of(&["min", "max", "step"], |_| real(rng));
    let syms = ["eth-btc", "ltc-btc", "__all__"];
    json!({
        "assets": map(rng, &["btc", "eth"], |r| json!({"precision":nat(r)})),
        "fees": map(rng, &syms, |r| of(&["maker", "taker"], |_| real(r))),
        "filters": map(rng, &syms, |r| json!({"price":steps(r),"size":steps(r),"base_precision":nat(r),"quote_precision":nat(r)})),
        "borrow_info": map(rng, &syms, |r| map(r, &["btc", "eth"], |r| json!({"interest_interval":nat(r),"interest_rate":real(r),"limit":real(r)}))),
    })
}
fn core(rng: &mut Rng) -> Value {
    of(&["start", "end", "duration", "cost", "gain", "profit", "roi", "annualized_roi", "mean_position_profit", "mean_position_duration",
        "max_drawdown", "mean_drawdown", "return_over_max_drawdown", "num_positions", "num_positions_in_profit", "num_positions_in_loss",
        "num_stop_losses", "num_take_profits"], |k| match k {
        "start" | "end" => time(rng),
        "duration" | "mean_position_duration" => span(rng),
        k if k.starts_with("num_") => nat(rng),
        _ => real(rng),
    })
}
fn account(rng: &mut Rng) -> Value {
    of(&["type", "open_time", "close_time", "cost", "gain", "profit", "duration", "roi", "annualized_roi", "close_reason"], |k| match k {
        "type" => json!(*rng.pick(&["Long", "Short"])),
        "open_time" | "close_time" => time(rng),
        "duration" => span(rng),
        "close_reason" => reason(rng),
        _ => real(rng),
    })
}
/// Turns a parameter set into a context which pins part of it.
fn pinned(rng: &mut Rng, v: &Value) -> Value {
    let o = v.as_object().unwrap();
    let mut m = Map::new();
    if o.get("type").is_some() && rng.bool(1, 6) {
        return json!({"type":"None"});
    }
    for (k, x) in o {
        if k == "trader" {
            if rng.bool(4, 5) {
                m.insert(k.clone(), json!({"intervals":(0..rng.int(0, 3)).map(|_| span(rng)).collect::<Vec<_>>()}));
            }
        } else if k == "type" || rng.bool(2, 3) {
            let nested = ["strategy", "stop_loss", "take_profit", "sig", "osc", "double_ma", "stoch", "basic", "trailing"].contains(&k.as_str());
            m.insert(k.clone(), if nested { pinned(rng, x) } else { x.clone() });
        }
    }
    Value::Object(m)
}
fn trading(rng: &mut Rng) -> Value {
    if rng.bool(1, 2) {
        let mut r = StdRng::seed_from_u64(rng.next());
        let ctx: TradingParamsContext = serde_json::from_value(json!({"trader":{"intervals":[60_000]}})).unwrap();
        return serde_json::to_value(TradingParams::generate(&mut r, &ctx)).unwrap();
    }
    let mut r = StdRng::seed_from_u64(rng.next());
    let ctx: TradingParamsContext = serde_json::from_value(json!({"trader":{"intervals":[60_000]}})).unwrap();
    let mut v = serde_json::to_value(TradingParams::generate(&mut r, &ctx)).unwrap();
    v["strategy"] = match rng.int(0, 3) {
        0 => {
            let mut s = params::sig(rng, None);
            s["buffer_interval"] = if rng.bool(1, 3) { Value::Null } else { span(rng) };
            s
        }
        1 => params::sig_osc(rng),
        _ => params::signal(rng),
    };
    v["trader"]["interval"] = span(rng);
    v
}

const SPANS: [&str; 6] = ["interval", "intervals", "buffer_interval", "duration", "mean_position_duration", "persistence"];

/// Changes something, somewhere.
fn edit(rng: &mut Rng, v: &mut Value, key: &str) {
    let inside = match v {
        Value::Array(a) => a.len(),
        Value::Object(o) => o.len(),
        _ => 0,
    };
    if inside > 0 && rng.bool(4, 5) {
        let i = rng.int(0, inside as i64 - 1) as usize;
        match v {
            Value::Array(a) => edit(rng, &mut a[i], key),
            Value::Object(o) => {
                let k = o.keys().nth(i).unwrap().clone();
                if k == "type" && rng.bool(1, 2) {
                    o.insert(k, json!(*rng.pick(&["Nope", "", "Noop", "Basic", "SingleMA", "None", "noop"])));
                    return;
                }
                if k == "type" || rng.bool(1, 4) {
                    o.remove(&k);
                    return;
                }
                edit(rng, o.get_mut(&k).unwrap(), &k)
            }
            _ => unreachable!(),
        }
        return;
    }
    match v {
        Value::Object(o) => match rng.int(0, 3) {
            0 => {
                o.insert("unheard".into(), real(rng));
            }
            1 => {
                o.insert("comment".into(), json!({"of":["no", "matter"]}));
            }
            _ => *v = if rng.bool(1, 2) { json!("text") } else { json!(3) },
        },
        Value::Array(a) => match rng.int(0, 3) {
            0 => {
                a.pop();
            }
            1 => {
                let x = a.first().cloned().unwrap_or(Value::Null);
                a.push(x);
            }
            _ => *v = if rng.bool(1, 2) { json!({"a":1}) } else { json!(2.5) },
        },
        _ => {
            // Texts for intervals are another property's business.
            let text = !SPANS.contains(&key);
            *v = match rng.int(0, 9) {
                0 => json!(null),
                1 => json!(-1),
                2 => json!(1.0),
                3 => json!(0.5),
                4 => json!(4_294_967_296u64),
                5 => json!(4_294_967_295u64),
                6 => json!(true),
                7 => json!([]),
                8 => json!(12),
                _ if text => json!("x"),
                _ => json!(false),
            }
        }
    }
}

fn again<T: DeserializeOwned + Serialize>(s: &str) -> Result<Value, String> {
    serde_json::from_str::<T>(s).map(|x| serde_json::to_value(x).unwrap()).map_err(|e| e.to_string())
}

fn event(rng: &mut Rng) -> Value {
    let t = *rng.pick(&["trading", "trading", "trading", "context", "context", "candles", "exchange", "summary", "core", "account",
        "statistic", "aggregation", "candle_type"]);
    let mut v = match t {
        "trading" => trading(rng),
        "context" => {
            let v = trading(rng);
            pinned(rng, &v)
        }
        "candles" => json!((0..rng.int(0, 3)).map(|_| if rng.bool(1, 4) { Value::Null } else { candle(rng) }).collect::<Vec<_>>()),
        "exchange" => exchange(rng),
        "summary" => json!({"positions":(0..rng.int(0, 3)).map(|_| position(rng)).collect::<Vec<_>>(),"start":time(rng),"end":time(rng),"quote":real(rng)}),
        "core" => core(rng),
        "account" => account(rng),
        "statistic" => json!(*rng.pick(&["Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio", "profit"])),
        "aggregation" => json!(*rng.pick(&["Linear", "Log10", "Log10Factored", "Log"])),
        _ => json!(*rng.pick(&["regular", "heikin-ashi", "Regular"])),
    };
    for _ in 0..rng.pick_i(&[0, 0, 1, 1, 2]) {
        if v.is_object() || v.is_array() {
            edit(rng, &mut v, "");
        }
    }
    reading(rng, t, &v)
}

/// Reads the document and writes it again.
fn reading(rng: &mut Rng, t: &str, v: &Value) -> Value {
    let s = text(rng, v);
    let out = match t {
        "trading" => again::<TradingParams>(&s),
        "context" => again::<TradingParamsContext>(&s),
        "candles" => again::<Vec<Option<Candle>>>(&s),
        "exchange" => again::<ExchangeInfo>(&s),
        "summary" => again::<TradingSummary>(&s),
        "core" => again::<CoreStatistics>(&s),
        "account" => again::<PositionStatistics>(&s),
        "statistic" => again::<EvaluationStatistic>(&s),
        "aggregation" => again::<EvaluationAggregation>(&s),
        _ => again::<CandleType>(&s),
    };
    match out {
        Ok(x) => json!({"e":"read","t":t,"doc":enc(v),"ok":1,"out":enc(&x)}),
        Err(m) => json!({"e":"read","t":t,"doc":enc(v),"ok":0,"why":m}),
    }
}

/// The paths of all members of objects inside.
fn members(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| members(x, &format!("{at}/{i}"), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| {
            out.push(format!("{at}/{k}"));
            members(x, &format!("{at}/{k}"), out);
        }),
        _ => (),
    }
}

fn until<T>(mut f: impl FnMut() -> T, ok: impl Fn(&T) -> bool) -> T {
    loop {
        let x = f();
        if ok(&x) {
            return x;
        }
    }
}

const KINDS: usize = 17;
/// Trading parameters with the strategy, average and exits of number k.
fn of_kind(rng: &mut Rng, k: usize) -> Value {
    let mut r = StdRng::seed_from_u64(rng.next());
    let ctx: TradingParamsContext = serde_json::from_value(json!({"trader":{"intervals":[60_000]}})).unwrap();
    let stops = ["BasicPlusTrailing", "Basic", "Legacy", "Noop", "Trailing"][k % 5];
    let takes = ["Basic", "Legacy", "Noop", "Trending"][k % 4];
    let mut v = until(|| serde_json::to_value(TradingParams::generate(&mut r, &ctx)).unwrap(), |v| {
        v["stop_loss"]["type"] == stops && v["take_profit"]["type"] == takes
    });
    v["strategy"] = match k {
        0..=6 => params::signal_kind(rng, k as i64),
        7 => {
            let mut s = params::sig(rng, None);
            s["buffer_interval"] = json!(86_400_000);
            s
        }
        8 => until(|| params::sig_osc(rng), |s| s["osc"]["type"] == "Rsi"),
        9 => until(|| params::sig_osc(rng), |s| s["osc"]["type"] == "Stoch"),
        _ => {
            let name = ["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"][k - 10];
            until(|| params::signal_kind(rng, 5), |s| s["ma"]["type"] == name)
        }
    };
    v
}

/// Every member of a document left out in turn, and nothing in its place.
fn lacking(rng: &mut Rng, k: usize) -> Vec<Value> {
    let (t, v) = match k / KINDS {
        0 => ("trading", of_kind(rng, k)),
        1 => {
            let v = of_kind(rng, k - KINDS);
            let mut c = v.clone();
            c["trader"] = json!({"intervals":[60_000]});
            ("context", c)
        }
        _ => match k - 2 * KINDS {
            0 => ("candles", json!([candle(rng)])),
            1 => {
                let steps = json!({"min":0.5,"max":2.0,"step":0.25});
                ("exchange", json!({
                    "assets":{"btc":{"precision":8}},
                    "fees":{"eth-btc":{"maker":0.1,"taker":0.2}},
                    "filters":{"eth-btc":{"price":steps,"size":steps,"base_precision":8,"quote_precision":8}},
                    "borrow_info":{"eth-btc":{"btc":{"interest_interval":60_000,"interest_rate":0.01,"limit":3.5}}}}))
            }
            2 => ("summary", json!({"positions":[position(rng), position(rng), position(rng)],"start":time(rng),"end":time(rng),"quote":real(rng)})),
            3 => ("core", core(rng)),
            _ => ("account", account(rng)),
        },
    };
    let mut paths = vec![];
    members(&v, "", &mut paths);
    let mut ev = vec![reading(rng, t, &v)];
    for p in paths {
        let (parent, key) = p.rsplit_once('/').unwrap();
        let mut w = v.clone();
        w.pointer_mut(parent).unwrap().as_object_mut().unwrap().remove(key);
        ev.push(reading(rng, t, &w));
        if rng.bool(1, 3) {
            w.pointer_mut(parent).unwrap()[key] = Value::Null;
            ev.push(reading(rng, t, &w));
        }
    }
    ev
}

pub fn documents(a: &Args) {
    let mut lines: Vec<Value> = (0..a.n(160, 2500) as usize)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0xD0C, i as u64);
            let mut ev = vec![];
            let res = caught(|| {
                for _ in 0..12 {
                    let e = event(&mut rng);
                    ev.push(e);
                }
                let mut r = StdRng::seed_from_u64(rng.next());
                let ctx: TradingParamsContext = serde_json::from_value(json!({"trader":{"intervals":[60_000, 86_400_000]}})).unwrap();
                ev.push(json!({"e":"wrote","t":"trading","doc":enc(&serde_json::to_value(TradingParams::generate(&mut r, &ctx)).unwrap())}));
                ev.push(json!({"e":"wrote","t":"context","doc":enc(&serde_json::to_value(ctx).unwrap())}));
            });
            if let Err(m) = res {
                ev.push(json!({"e":"panic","msg":m}));
            }
            run(i + 1, "documents", json!({}), ev)
        })
        .collect();
    let whole = 2 * KINDS + 5;
    for k in 0..whole * a.n(1, 6) as usize {
        let mut rng = Rng::new(a.seed ^ 0xD0D, k as u64);
        let ev = caught(|| lacking(&mut rng, k % whole)).unwrap_or_else(|m| vec![json!({"e":"panic","msg":m})]);
        lines.push(run(lines.len() + 1, "documents", json!({}), ev));
    }
    write_lines(&a.out, &lines);
}
