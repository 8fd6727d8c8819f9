//! Random strategy parameters, built through the public JSON representation.
use crate::util::Rng;
use serde_json::{json, Value};

pub fn ma(rng: &mut Rng, period: i64) -> Value {
    match rng.int(0, 6) {
        0 => json!({"type":"Alma","period":period,"offset":0.85,"sigma":null}),
        1 => json!({"type":"Dema","period":period}),
        2 => json!({"type":"Ema","period":period,"smoothing":null}),
        3 => json!({"type":"Ema2","period":period}),
        4 => json!({"type":"Kama","period":period}),
        5 => json!({"type":"Sma","period":period}),
        _ => json!({"type":"Smma","period":period}),
    }
}

fn ordered(rng: &mut Rng, n: usize, max: i64) -> Vec<i64> {
    loop {
        let mut v: Vec<i64> = (0..n).map(|_| rng.int(1, max)).collect();
        v.sort();
        v.dedup();
        if v.len() == n {
            return v;
        }
    }
}

pub fn stoch(rng: &mut Rng) -> Value {
    json!({"k_period":rng.int(1,4),"k_sma_period":rng.int(1,3),"d_sma_period":rng.int(1,3),
           "up_threshold":rng.pick_i(&[50,60,75,90]) as f64,"down_threshold":rng.pick_i(&[10,25,40,50]) as f64})
}

pub fn double_ma(rng: &mut Rng) -> Value {
    let p = ordered(rng, 2, 6);
    json!({"mas":[ma(rng,p[0]), ma(rng,p[1])]})
}

fn with_type(t: &str, mut v: Value) -> Value {
    v.as_object_mut().unwrap().insert("type".into(), json!(t));
    v
}

pub fn signal_kind(rng: &mut Rng, k: i64) -> Value {
    match k {
        0 => with_type("DoubleMA", double_ma(rng)),
        1 => {
            let p = ordered(rng, 2, 6);
            with_type("DoubleMA2", json!({"neg_threshold":-0.25,"pos_threshold":0.25,
                "mas":[ma(rng,p[0]), ma(rng,p[1])]}))
        }
        2 => with_type("DoubleMAStoch", json!({"double_ma":double_ma(rng),"stoch":stoch(rng)})),
        3 => {
            let p = rng.int(1, 5);
            with_type("FourWeekRule", json!({"period":rng.int(2,5),"ma":ma(rng,p)}))
        }
        4 => {
            let p = ordered(rng, 2, 6);
            with_type("Macd", json!({"periods":[p[0],p[1]],"signal_period":rng.int(1,4)}))
        }
        5 => {
            let p = rng.int(1, 5);
            with_type("SingleMA", json!({"ma":ma(rng,p)}))
        }
        _ => {
            let p = ordered(rng, 3, 7);
            with_type("TripleMA", json!({"mas":[ma(rng,p[0]),ma(rng,p[1]),ma(rng,p[2])]}))
        }
    }
}

pub fn signal(rng: &mut Rng) -> Value {
    let k = rng.int(0, 6);
    signal_kind(rng, k)
}

pub fn osc(rng: &mut Rng) -> Value {
    if rng.bool(1, 2) {
        with_type("Rsi", json!({"period":rng.int(1,5),
            "up_threshold":rng.pick_i(&[50,60,75]) as f64,"down_threshold":rng.pick_i(&[25,40,50]) as f64}))
    } else {
        with_type("Stoch", stoch(rng))
    }
}

pub fn policy(rng: &mut Rng) -> &'static str {
    *rng.pick(&["Current", "Previous", "Ignore"])
}

/// `buf`: buffer interval candidates in ms (None: no buffering)
pub fn sig(rng: &mut Rng, buf: Option<u64>) -> Value {
    with_type("Sig", json!({"sig":signal(rng),"persistence":rng.int(0,2),"mid_trend_policy":policy(rng),
        "buffer_interval":buf}))
}

pub fn sig_osc(rng: &mut Rng) -> Value {
    with_type("SigOsc", json!({"sig":signal(rng),"osc":osc(rng),
        "osc_filter":*rng.pick(&["Enforce","Prevent"]),"persistence":rng.int(0,2),
        "mid_trend_policy":policy(rng)}))
}

pub fn strategy(rng: &mut Rng) -> Value {
    match rng.int(0, 9) {
        0..=5 => signal(rng),
        6 | 7 => sig_osc(rng),
        _ => sig(rng, None),
    }
}

/// The same parameters with all periods times k.
pub fn stretch(v: &Value, k: i64) -> Value {
    fn times(v: &Value, k: i64) -> Value {
        match v {
            Value::Array(a) => a.iter().map(|x| times(x, k)).collect(),
            x => json!(x.as_i64().unwrap() * k),
        }
    }
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .map(|(key, x)| {
                    let long = key.contains("period");
                    (key.clone(), if long { times(x, k) } else { stretch(x, k) })
                })
                .collect(),
        ),
        Value::Array(a) => a.iter().map(|x| stretch(x, k)).collect(),
        x => x.clone(),
    }
}

/// Factors which take periods of one to six past what small counters hold.
pub fn factor(rng: &mut Rng, i: u64) -> i64 {
    match i % 3 {
        0 => rng.int(64, 90),
        1 => rng.int(40, 60),
        _ => rng.int(5, 40),
    }
}
