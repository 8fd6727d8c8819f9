//! Generation, crossover and mutation of the real parameter types, and of types the derive
//! macros are applied to here.  Values are projected from their public JSON form.
use crate::util::{caught, near, run, write_lines, Args, Rng};
use juno::{
    genetics::{crossover::*, mutation::*, reinsertion::*, selection::*, Chromosome, Evaluation, GeneticAlgorithm, Individual},
    stop_loss::StopLossParams,
    strategies::*,
    take_profit::TakeProfitParams,
    trading::TradingParams,
    Interval,
};
use juno_derive::*;
use rand::{rngs::StdRng, Rng as _, SeedableRng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

mod pair {
    use super::*;
    #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
    pub struct PairParams {
        pub a: u32,
        pub b: u32,
    }
    fn a(rng: &mut StdRng) -> u32 {
        rng.gen_range(0..10)
    }
    fn b(rng: &mut StdRng) -> u32 {
        rng.gen_range(10..20)
    }
}
use pair::*;
mod one {
    use super::*;
    #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
    pub struct SingleParams {
        pub z: u32,
    }
    fn z(rng: &mut StdRng) -> u32 {
        rng.gen_range(20..30)
    }
    #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
    pub struct EmptyParams {}
}
use one::*;
mod nested {
    use super::*;
    #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
    pub struct NestedParams {
        #[chromosome]
        pub left: PairParams,
        #[chromosome]
        pub none: EmptyParams,
        #[chromosome]
        pub right: PairParams,
        pub c: u32,
        pub d: u32,
        pub e: u32,
    }
    fn c(rng: &mut StdRng) -> u32 {
        rng.gen_range(30..40)
    }
    fn d(rng: &mut StdRng) -> u32 {
        rng.gen_range(40..50)
    }
    fn e(rng: &mut StdRng) -> u32 {
        rng.gen_range(50..60)
    }
}
use nested::*;
#[derive(ChromosomeEnum, Clone, Copy, Debug, Deserialize, Serialize)]
#[serde(tag = "type")]
pub enum ChoiceParams {
    Single(SingleParams),
    Empty(EmptyParams),
    Nested(NestedParams),
    Pair(PairParams),
}
mod deep {
    use super::*;
    #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
    pub struct DeepParams {
        #[chromosome]
        pub first: ChoiceParams,
        #[chromosome]
        pub pair: PairParams,
        #[chromosome]
        pub second: ChoiceParams,
        pub f: u32,
    }
    fn f(rng: &mut StdRng) -> u32 {
        rng.gen_range(60..70)
    }
}
use deep::*;

const CHILDREN: [&str; 14] = ["strategy", "trader", "stop_loss", "take_profit", "sig", "osc", "double_ma", "stoch",
    "basic", "trailing", "left", "right", "none", "first"];
fn is_child(k: &str) -> bool {
    CHILDREN.contains(&k) || k == "second" || k == "pair"
}

/// Numbers become integers (floats in millionths), an absent value -1.
pub fn project(v: &Value) -> Value {
    match v {
        Value::Null => json!(-1),
        Value::Number(n) if n.is_f64() => json!(near(n.as_f64().unwrap(), 1e6)),
        Value::Array(a) => Value::Array(a.iter().map(project).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), project(v))).collect()),
        v => v.clone(),
    }
}
fn js<T: Serialize>(x: &T) -> Value {
    project(&serde_json::to_value(x).unwrap())
}

/// A context which pins a random part of `v` (`p` of 4): its JSON form and what the specification sees.
fn pin(rng: &mut Rng, v: &Value, p: i64, root_child: &str) -> (Value, Value) {
    let o = v.as_object().unwrap();
    if root_child == "trader" {
        let all = ["1m", "5m", "1h", "4h", "1d"];
        let ms = [60_000, 300_000, 3_600_000, 14_400_000, 86_400_000];
        let n = rng.int(1, 4) as usize;
        let at = rng.int(0, 5 - n as i64) as usize;
        return (json!({"intervals": ms[at..at + n].iter().map(|x| json!(x)).collect::<Vec<_>>()}),
            json!({"intervals": ms[at..at + n], "names": all[at..at + n]}));
    }
    let tag = o.get("type");
    if tag.is_some() && !rng.bool(p, 4) {
        return (json!({"type":"None"}), json!({"type":"None"}));
    }
    let (mut a, mut b) = (Map::new(), Map::new());
    for (k, x) in o {
        if k == "type" {
            a.insert(k.clone(), x.clone());
            b.insert(k.clone(), x.clone());
        } else if is_child(k) && x.is_object() {
            let (m, n) = pin(rng, x, p, k);
            a.insert(k.clone(), m);
            b.insert(k.clone(), n);
        } else if rng.bool(p, 4) && !x.is_null() {
            a.insert(k.clone(), x.clone());
            b.insert(k.clone(), json!({"p":1,"v":project(x)}));
        } else {
            b.insert(k.clone(), json!({"p":0,"v":0}));
        }
    }
    (Value::Object(a), Value::Object(b))
}

fn leaves(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, i64)>) {
    match v {
        Value::Object(o) => {
            let tag = o.get("type").and_then(|t| t.as_str());
            if let Some(t) = tag {
                if !["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"].contains(&t) {
                    path.push(t.to_owned());
                    for (k, x) in o.iter().filter(|(k, _)| *k != "type") {
                        path.push(k.clone());
                        leaves(x, path, out);
                        path.pop();
                    }
                    path.pop();
                } else {
                    out.push((path.clone(), o["period"].as_i64().unwrap()));
                }
                return;
            }
            for (k, x) in o {
                path.push(k.clone());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push((i + 1).to_string());
                leaves(x, path, out);
                path.pop();
            }
            let mut n = vec![];
            for x in a {
                n.push(x.as_i64().or(x["period"].as_i64()).unwrap_or(0));
            }
            for w in n.windows(2) {
                path.push("gap".into());
                out.push((path.clone(), w[1] - w[0]));
                path.pop();
            }
        }
        Value::Number(n) => out.push((path.clone(), n.as_i64().unwrap())),
        _ => {}
    }
}
/// Alternatives (enum tags, words, flags) met at a path.
fn words(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match v {
        Value::Object(o) => {
            let mut pushed = false;
            if let Some(t) = o.get("type").and_then(|t| t.as_str()) {
                out.push((path.clone(), t.to_owned()));
                path.push(t.to_owned());
                pushed = true;
            }
            for (k, x) in o.iter().filter(|(k, _)| *k != "type") {
                path.push(k.clone());
                words(x, path, out);
                path.pop();
            }
            if pushed {
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push((i + 1).to_string());
                words(x, path, out);
                path.pop();
            }
        }
        Value::String(s) => out.push((path.clone(), s.clone())),
        Value::Bool(b) => out.push((path.clone(), if *b { "yes" } else { "no" }.to_owned())),
        _ => {}
    }
}

trait Build {
    fn build(&self) -> bool;
}
const META: StrategyMeta = StrategyMeta { interval: Interval(60_000) };
impl Build for StrategyParams {
    fn build(&self) -> bool {
        self.construct(&META).maturity() >= 1
    }
}
impl Build for SignalParams {
    fn build(&self) -> bool {
        self.construct(&META).maturity() >= 1
    }
}
impl Build for OscillatorParams {
    fn build(&self) -> bool {
        self.construct(&META).maturity() >= 1
    }
}
impl Build for StopLossParams {
    fn build(&self) -> bool {
        !self.construct().upside_hit() || true
    }
}
impl Build for TakeProfitParams {
    fn build(&self) -> bool {
        !self.construct().upside_hit() || true
    }
}
impl Build for TradingParams {
    fn build(&self) -> bool {
        self.strategy.build() && self.stop_loss.build() && self.take_profit.build() && self.trader.interval.0 > 0
    }
}
macro_rules! plain {
    ($($t:ty),*) => { $(impl Build for $t { fn build(&self) -> bool { true } })* };
}
plain!(NestedParams, ChoiceParams, DeepParams);

struct Driver {
    lines: Vec<Value>,
    seed: u64,
    thorough: bool,
}

impl Driver {
    fn gen_event<T: Chromosome + Serialize + Build>(x: &T) -> Value {
        let built = caught(|| x.build()).unwrap_or(false);
        json!({"e":"gen","v":js(x),"built":if built {1} else {0}})
    }

    /// Extreme samples of unpinned generation and what was reached.
    fn extremes<T>(&mut self, name: &str, n: i64)
    where
        T: Chromosome + Serialize + Build,
        T::Context: Default,
    {
        self.reach::<T>(name, n, &T::Context::default(), json!({"type":"None"}), false);
        self.reach::<T>(name, n, &T::Context::default(), json!({"type":"None"}), true);
    }

    /// With `walk`, by mutations of a single individual only.
    fn reach<T>(&mut self, name: &str, n: i64, ctx: &T::Context, seen: Value, walk: bool)
    where
        T: Chromosome + Serialize + Build,
    {
        let mut g = StdRng::seed_from_u64(self.seed + 17);
        let mut rng = Rng::new(self.seed, 69_000);
        // Least, greatest, number of draws.
        let mut range: BTreeMap<Vec<String>, (i64, i64, i64)> = BTreeMap::new();
        let mut last: BTreeMap<Vec<String>, i64> = BTreeMap::new();
        let mut cur: Option<T> = None;
        let mut at: BTreeMap<Vec<String>, BTreeSet<String>> = BTreeMap::new();
        let mut ev = vec![json!({"e":"len","n":T::len()})];
        for i in 0..n {
            let next = match cur.take() {
                Some(mut x) if walk => {
                    let k = rng.int(0, T::len() as i64 - 1) as usize;
                    caught(|| {
                        x.mutate(&mut g, k, ctx);
                        x
                    })
                }
                _ => caught(|| T::generate(&mut g, ctx)),
            };
            let x = match next {
                Ok(x) => x,
                Err(m) => {
                    ev.push(json!({"e":"panic","msg":m}));
                    break;
                }
            };
            let v = js(&x);
            let (mut l, mut w) = (vec![], vec![]);
            leaves(&v, &mut vec![], &mut l);
            words(&v, &mut vec![], &mut w);
            let mut keep = i % 40 == 0;
            let was = std::mem::take(&mut last);
            for (p, a) in l {
                let fresh = !walk || was.get(&p) != Some(&a);
                last.insert(p.clone(), a);
                let e = range.entry(p).or_insert_with(|| {
                    keep = true;
                    (a, a, 0)
                });
                if a < e.0 || a > e.1 {
                    keep = true;
                }
                *e = (e.0.min(a), e.1.max(a), e.2 + fresh as i64);
            }
            for (p, a) in w {
                if at.entry(p).or_default().insert(a) {
                    keep = true;
                }
            }
            if keep {
                ev.push(Self::gen_event(&x));
            }
            cur = Some(x);
        }
        // Alternatives of rarely met nested paths are not judged.
        ev.push(json!({"e":"all","words":at.keys().filter(|p| p.len() <= 3).collect::<Vec<_>>(),
            "ranges":range.keys().filter(|p| p.len() <= 3).collect::<Vec<_>>()}));
        for (p, s) in &at {
            if p.len() <= 3 {
                ev.push(json!({"e":"words","at":p,"set":s}));
            }
        }
        for (p, (lo, hi, n)) in &range {
            if p.last().unwrap() != "gap" {
                ev.push(json!({"e":"range","at":p,"lo":lo,"hi":hi,"n":n}));
            }
        }
        self.lines.push(run(self.lines.len(), if walk { "walk" } else { "extremes" }, json!({"t":name,"ctx":seen}), ev));
    }

    /// Which of the requested intervals generation and mutation choose.
    fn intervals(&mut self) {
        let all = [60_000, 300_000, 3_600_000, 14_400_000, 86_400_000];
        for k in 1..=5 {
            let want = &all[5 - k..];
            let ctx: <TradingParams as Chromosome>::Context = serde_json::from_value(json!({"trader":{"intervals":want}})).unwrap();
            let mut g = StdRng::seed_from_u64(self.seed + 18);
            let mut ev = vec![];
            let r = caught(|| {
                let (mut made, mut changed) = (BTreeSet::new(), BTreeSet::new());
                let mut x = TradingParams::generate(&mut g, &ctx);
                for i in 0..3000 {
                    made.insert(TradingParams::generate(&mut g, &ctx).trader.interval.0);
                    x.mutate(&mut g, i % TradingParams::len(), &ctx);
                    if i == 100 {
                        changed.clear();
                    }
                    changed.insert(x.trader.interval.0);
                }
                ev.push(json!({"e":"intervals","set":made}));
                ev.push(json!({"e":"intervals","set":changed}));
            });
            if let Err(m) = r {
                ev.push(json!({"e":"panic","msg":m}));
            }
            self.lines.push(run(self.lines.len(), "intervals", json!({"t":"trading","ctx":{"trader":{"intervals":want}}}), ev));
        }
    }

    /// Histories of two individuals under pinned contexts: generate, cross and mutate at every gene.
    fn histories<T>(&mut self, name: &str, n: i64, deflt: &T::Context)
    where
        T: Chromosome + Serialize + DeserializeOwned + Build,
        T::Context: DeserializeOwned,
    {
        for i in 0..n {
            let mut rng = Rng::new(self.seed, 70_000 + i as u64);
            let mut g = StdRng::seed_from_u64(rng.next());
            let p = rng.int(0, 4);
            let mut seen = json!({});
            let mut ev = vec![];
            let r = caught(|| {
                let model = T::generate(&mut g, deflt);
                let (cj, cs) = pin(&mut rng, &serde_json::to_value(&model).unwrap(), p, "");
                seen = cs;
                let ctx: T::Context = match serde_json::from_value(cj.clone()) {
                    Ok(c) => c,
                    Err(e) => panic!("context refused: {e}"),
                };
                let mut a = T::generate(&mut g, &ctx);
                ev.push(Self::gen_event(&a));
                let mut b = T::generate(&mut g, &ctx);
                ev.push(Self::gen_event(&b));
                let mut idx: Vec<usize> = (0..T::len()).collect();
                for k in (1..idx.len()).rev() {
                    idx.swap(k, rng.int(0, k as i64) as usize);
                }
                for k in idx {
                    for round in 0..2 {
                        if rng.bool(1, 2) {
                            let (a1, b1) = (js(&a), js(&b));
                            a.cross(&mut b, k);
                            ev.push(json!({"e":"cross","i":k,"a":a1,"b":b1,"a2":js(&a),"b2":js(&b)}));
                        } else {
                            let x = if round == 0 { &mut a } else { &mut b };
                            let a1 = js(x);
                            x.mutate(&mut g, k, &ctx);
                            ev.push(json!({"e":"mutate","i":k,"a":a1,"a2":js(x)}));
                        }
                    }
                }
                ev.push(Self::gen_event(&a));
                ev.push(Self::gen_event(&b));
                // The parameters survive their own JSON form.
                let back: T = serde_json::from_value(serde_json::to_value(&a).unwrap()).unwrap();
                ev.push(json!({"e":"same","a":js(&a),"b":js(&back)}));
            });
            if let Err(m) = r {
                ev.push(json!({"e":"panic","msg":m}));
            }
            self.lines.push(run(self.lines.len(), "history", json!({"t":name,"ctx":seen}), ev));
        }
    }
}

thread_local! { static SEEN: RefCell<Vec<TradingParams>> = const { RefCell::new(vec![]) }; }
struct Spy;
impl Evaluation for Spy {
    type Chromosome = TradingParams;
    fn evaluate(&self, population: &mut [Individual<TradingParams>]) {
        for i in population.iter_mut() {
            i.fitness = (crate::util::fnv(&serde_json::to_string(&i.chromosome).unwrap()) % 1000) as f64;
            SEEN.with(|s| s.borrow_mut().push(i.chromosome));
        }
    }
}

pub fn main(a: &Args) {
    let mut d = Driver { lines: vec![], seed: a.seed, thorough: a.thorough };
    let f = if d.thorough { 8 } else { 1 };
    let trading_ctx = || -> <TradingParams as Chromosome>::Context {
        serde_json::from_value(json!({"trader":{"intervals":[60_000,300_000]}})).unwrap()
    };
    d.extremes::<StrategyParams>("strategy", 24_000 * f);
    d.extremes::<StopLossParams>("stop_loss", 12_000 * f);
    d.extremes::<TakeProfitParams>("take_profit", 12_000 * f);
    d.extremes::<OscillatorParams>("osc", 8_000 * f);
    d.extremes::<ChoiceParams>("choice", 2_000 * f);
    d.intervals();
    let n = 30 * f;
    d.histories::<StrategyParams>("strategy", 2 * n, &Default::default());
    d.histories::<SignalParams>("sig", n, &Default::default());
    d.histories::<StopLossParams>("stop_loss", 2 * n, &Default::default());
    d.histories::<TakeProfitParams>("take_profit", 2 * n, &Default::default());
    d.histories::<NestedParams>("nested", n, &Default::default());
    d.histories::<ChoiceParams>("choice", 2 * n, &Default::default());
    d.histories::<DeepParams>("deep", n, &Default::default());
    d.histories::<TradingParams>("trading", 2 * n, &trading_ctx());
    // Whole optimisations: everybody who was ever evaluated.
    for i in 0..n / 2 {
        let mut rng = Rng::new(a.seed, 71_000 + i as u64);
        let mut g = StdRng::seed_from_u64(rng.next());
        let mut ev = vec![];
        let mut seen = json!({});
        let p = rng.int(0, 4);
        SEEN.with(|s| s.borrow_mut().clear());
        let r = caught(|| {
            let model = TradingParams::generate(&mut g, &trading_ctx());
            let (cj, cs) = pin(&mut rng, &serde_json::to_value(model).unwrap(), p, "");
            seen = cs;
            let ctx = serde_json::from_value(cj).unwrap();
            let ga = GeneticAlgorithm::new(Spy, EliteSelection { shuffle: false }, UniformCrossover::new(0.5),
                UniformMutation::new(0.25), EliteReinsertion::new(0.75, 0.5));
            ga.evolve(8, 3, 1, Some(rng.next()), |_, _| {}, &ctx);
        });
        for x in SEEN.with(|s| s.borrow().clone()) {
            ev.push(Driver::gen_event(&x));
        }
        if let Err(m) = r {
            ev.push(json!({"e":"panic","msg":m}));
        }
        d.lines.push(run(d.lines.len(), "evolved", json!({"t":"trading","ctx":seen}), ev));
    }
    let lines = d.lines;
    write_lines(&a.out, &lines);
}
