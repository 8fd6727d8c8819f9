//! The real evaluation of trading parameters, and reruns of whole optimisations.
use crate::params;
use crate::trade::{exit_rand, sl_params, tp_params};
use crate::util::*;
use juno::filters::{Filters, Price, Size};
use juno::genetics::{crossover::*, mutation::*, reinsertion::*, selection::*, Evaluation, Evolution, Generation,
    GeneticAlgorithm, Individual};
use juno::trading::*;
use juno::{statistics, AssetInfo, BorrowInfo, Candle, ExchangeInfo, Fees, Interval, SymbolExt, Timestamp};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;

const SYMBOLS: [&str; 3] = ["eth-btc", "ltc-btc", "xrp-usdt"];
const HOUR: u64 = 3_600_000;

pub struct World {
    pub info: ExchangeInfo,
    pub candles: HashMap<String, HashMap<Interval, Vec<Candle>>>,
    pub prices: HashMap<String, Vec<f64>>,
    pub symbols: Vec<String>,
    pub intervals: Vec<Interval>,
    pub start: Timestamp,
    pub end: Timestamp,
    pub quote: f64,
    pub stat: EvaluationStatistic,
    pub agg: EvaluationAggregation,
}

impl World {
    pub fn new(rng: &mut Rng, stat: usize, agg: usize, hours: &[u64], max_days: i64) -> Self {
        let ns = rng.int(1, 3) as usize;
        let mut symbols: Vec<String> = SYMBOLS[..ns].iter().map(|s| (*s).to_owned()).collect();
        if rng.bool(1, 2) {
            symbols.reverse();
        }
        let intervals: Vec<Interval> =
            hours[..rng.int(1, hours.len() as i64) as usize].iter().map(|h| Interval(h * HOUR)).collect();
        Self::of(rng, stat, agg, symbols, intervals, max_days)
    }
    pub fn of(rng: &mut Rng, stat: usize, agg: usize, symbols: Vec<String>, intervals: Vec<Interval>, max_days: i64) -> Self {
        let days = rng.int(6, max_days) as u64;
        let start = Timestamp(rng.int(0, 400) as u64 * 24 * HOUR);
        let end = Timestamp(start.0 + days * 24 * HOUR);
        let quote = *rng.pick(&[0.1, 1.0, 8.0, 100.0, 0.002]);
        // Little money is traded in small units, and gains and loses little.
        let unit = if quote < 0.01 { 10_000_000.0 } else { 1000.0 };
        let mut info =
            ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
        let mut candles = HashMap::new();
        let mut prices: HashMap<String, Vec<f64>> = HashMap::new();
        let mut assets = vec!["eth", "ltc", "xrp", "btc", "usdt"];
        for a in symbols.iter().flat_map(|s| s.split('-')) {
            if !assets.contains(&a) {
                assets.push(a);
            }
        }
        for a in assets.iter().copied() {
            info.assets.insert(a.to_owned(), AssetInfo { precision: 8 });
            let mut p = rng.int(20, 400) as f64;
            let v = (0..=days)
                .map(|_| {
                    p *= 1.0 + rng.int(-12, 12) as f64 / 100.0;
                    if a == "usdt" { 1.0 } else { p }
                })
                .collect();
            prices.insert(a.to_owned(), v);
        }
        for s in &symbols {
            info.fees.insert(s.clone(), Fees { maker: 0.5, taker: rng.int(0, 9) as f64 / 1000.0 });
            info.filters.insert(
                s.clone(),
                Filters {
                    price: Price { min: 0.0, max: 0.0, step: 0.0 },
                    size: Size {
                        min: rng.pick_i(&[0, 1, 4]) as f64 / unit,
                        max: 0.0,
                        step: rng.pick_i(&[0, 1, 2]) as f64 / unit,
                    },
                    base_precision: 8,
                    quote_precision: 8,
                },
            );
            let mut m = HashMap::new();
            for a in assets.iter().copied() {
                m.insert(
                    a.to_owned(),
                    BorrowInfo {
                        interest_interval: rng.pick_i(&[1, 8, 24]) as u64 * HOUR,
                        interest_rate: rng.int(0, 9) as f64 / 10_000.0,
                        limit: rng.pick_i(&[1, 50, 100_000]) as f64,
                    },
                );
            }
            info.borrow_info.insert(s.clone(), m);
            let mut per = HashMap::new();
            for iv in &intervals {
                let n = (end.0 - start.0) / iv.0;
                let mut p = rng.int(100, 900) as f64 / 100.0;
                let vol = rng.pick_i(&[2, 5, 10]);
                let cs: Vec<Candle> = (0..n)
                    .map(|i| {
                        let o = p;
                        p = (p * (1.0 + rng.int(-vol, vol) as f64 / 100.0)).max(0.05);
                        let (h, l) = (o.max(p) * 1.01, o.min(p) * 0.99);
                        Candle { time: Timestamp(start.0 + i * iv.0), open: if i % 3 == 0 { l } else { o }, high: h, low: l, close: p, volume: rng.volume() }
                    })
                    .collect();
                per.insert(*iv, cs);
            }
            candles.insert(s.clone(), per);
        }
        World {
            info,
            candles,
            prices,
            symbols,
            intervals,
            start,
            end,
            quote,
            stat: EvaluationStatistic::values()[stat],
            agg: EvaluationAggregation::values()[agg],
        }
    }
    pub fn evaluation(&self, symbols: &[String]) -> BasicEvaluation {
        BasicEvaluation::new(&BasicEvaluationInput {
            exchange_info: &self.info,
            candles: &self.candles,
            prices: &self.prices,
            symbols,
            intervals: &self.intervals,
            start: self.start,
            end: self.end,
            quote: self.quote,
            evaluation_statistic: self.stat,
            evaluation_aggregation: self.agg,
        })
    }
    pub fn params(&self, rng: &mut Rng) -> TradingParams {
        let exact = rng.bool(1, 2);
        serde_json::from_value(json!({"strategy":params::strategy(rng),"trader":{"interval":rng.pick(&self.intervals).0},
            "stop_loss":sl_params(&exit_rand(rng, exact, false)),"take_profit":tp_params(&exit_rand(rng, exact, true))}))
        .unwrap()
    }
    /// The chosen statistic of a direct backtest of one symbol.
    pub fn value(&self, symbol: &str, p: &TradingParams) -> f64 {
        let s = trade(
            p,
            &TradeInput {
                candles: &self.candles[symbol][&p.trader.interval],
                fees: &self.info.fees[symbol],
                filters: &self.info.filters[symbol],
                borrow_info: &self.info.borrow_info[symbol][symbol.base_asset()],
                margin_multiplier: 2,
                quote: self.quote,
                long: true,
                short: true,
            },
        );
        let day = Interval::DAY_MS;
        match self.stat {
            EvaluationStatistic::Profit => statistics::CoreStatistics::compose(&s).profit,
            EvaluationStatistic::ReturnOverMaxDrawdown => statistics::CoreStatistics::compose(&s).return_over_max_drawdown,
            EvaluationStatistic::SharpeRatio => {
                statistics::ExtendedStatistics::compose(&s, symbol, &self.prices, day).sharpe_ratio
            }
            EvaluationStatistic::SortinoRatio => {
                statistics::ExtendedStatistics::compose(&s, symbol, &self.prices, day).sortino_ratio
            }
        }
    }
    /// Everything as it reads after a trip through JSON text.
    pub fn reread(self) -> Self {
        let again = |x: &Vec<Candle>| serde_json::from_str::<Vec<Candle>>(&serde_json::to_string(x).unwrap()).unwrap();
        World {
            info: serde_json::from_str(&serde_json::to_string(&self.info).unwrap()).unwrap(),
            prices: serde_json::from_str(&serde_json::to_string(&self.prices).unwrap()).unwrap(),
            candles: self
                .candles
                .iter()
                .map(|(s, m)| (s.clone(), m.iter().map(|(i, c)| (*i, again(c))).collect()))
                .collect(),
            ..self
        }
    }
    pub fn context(&self) -> TradingParamsContext {
        let mut c = TradingParamsContext::default();
        c.trader.intervals = self.intervals.clone();
        c
    }
}

fn bits(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn individuals(ps: &[TradingParams]) -> Vec<Individual<TradingParams>> {
    ps.iter().map(|p| Individual { chromosome: *p, fitness: f64::MIN }).collect()
}
/// Logarithm of the magnitude, for values that may be astronomically large.
fn magnitude(x: f64) -> i64 {
    if x == 0.0 {
        -999_999_999
    } else if x.is_infinite() {
        999_999_999
    } else {
        near(x.abs().log10(), 1e4)
    }
}
fn sign(x: f64) -> i64 {
    if x > 0.0 { 1 } else if x < 0.0 { -1 } else if x == 0.0 { 0 } else { 9 }
}

/// A value in units of 1e-5; losses too small to show are still losses, unless they may be noise.
fn scaled(v: f64) -> i64 {
    if v != 0.0 && v.abs() < 1e-12 {
        -999_999_999
    } else if v < 0.0 {
        near(v, 1e5).min(-1)
    } else {
        near(v, 1e5)
    }
}

const STALE: [f64; 11] =
    [123.0, -1e4, 0.0, f64::MAX, f64::NEG_INFINITY, -1.0, f64::NAN, 1e-9, f64::INFINITY, -1e300, 1.0];

/// `fitness`: a population of given parameters evaluated in many arrangements.
pub fn fitness(a: &Args) {
    let n = a.opt_i("n", a.n(600, 6000)) as usize;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0xF17, i as u64);
            let (stat, agg) = (i % 4, (i / 4) % 3);
            let w = World::new(&mut rng, stat, agg, &[6, 12, 24], 30);
            let k = rng.int(2, 6) as usize;
            let ps: Vec<TradingParams> = (0..k).map(|_| w.params(&mut rng)).collect();
            let cfg = json!({"stat":stat,"agg":(["linear","log10","factored"][agg]),"k":k,"symbols":w.symbols.len()});
            let ev = caught(|| {
                let mut ev = vec![];
                let e = w.evaluation(&w.symbols);
                let mut all = individuals(&ps);
                e.evaluate(&mut all);
                ev.push(json!({"e":"eval","how":"all","ix":(1..=k).collect::<Vec<_>>(),
                    "fit":all.iter().map(|x| bits(x.fitness)).collect::<Vec<_>>()}));
                let mut ask = |how: &str, e: &BasicEvaluation, ix: Vec<usize>| {
                    let mut pop: Vec<_> = ix.iter().map(|&j| individuals(&ps[j..=j]).remove(0)).collect();
                    if how == "stale" {
                        // Whatever fitness it comes with, of a parent for instance.
                        pop.iter_mut().enumerate().for_each(|(j, x)| x.fitness = STALE[(i + j) % STALE.len()]);
                    }
                    e.evaluate(&mut pop);
                    ev.push(json!({"e":"eval","how":how,"ix":ix.iter().map(|j| j + 1).collect::<Vec<_>>(),
                        "fit":pop.iter().map(|x| bits(x.fitness)).collect::<Vec<_>>()}));
                };
                ask("reversed", &e, (0..k).rev().collect());
                ask("stale", &e, (0..k).collect());
                ask("stale", &e, (0..k).chain(0..k).chain(0..k).collect());
                for j in 0..k {
                    ask("single", &e, vec![j]);
                }
                ask("twice", &e, (0..k).chain(0..k).chain(0..k).collect());
                ask("fresh", &w.evaluation(&w.symbols), (0..k).collect());
                let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
                pool.install(|| ask("one thread", &e, (0..k).collect()));
                // The order of the symbols changes the sum by rounding at most.
                let mut rev = w.symbols.clone();
                rev.reverse();
                let mut other = individuals(&ps);
                w.evaluation(&rev).evaluate(&mut other);
                for j in 0..k {
                    let f = all[j].fitness;
                    let vals: Vec<f64> = w.symbols.iter().map(|s| w.value(s, &ps[j])).collect();
                    let same = f == other[j].fitness || (f - other[j].fitness).abs() <= 1e-9 * (1.0 + f.abs());
                    ev.push(json!({"e":"value","ix":j+1,"vals":vals.iter().map(|v| scaled(*v)).collect::<Vec<_>>(),
                        "fit":near(f, 1e5),"sign":sign(f),"mag":magnitude(f),"turned":same}));
                }
                ev
            })
            .unwrap_or_else(|m| vec![json!({"e":"panic","msg":m})]);
            run(i + 1, "fitness", cfg, ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}

pub fn quiet<T: juno::genetics::Chromosome>(_: usize, _: &Generation<T>) {}

fn evolve(w: &World, n: usize, gens: usize, hof: usize, kind: i64, seed: Option<u64>) -> Evolution<TradingParams> {
    let e = w.evaluation(&w.symbols);
    let (c, m, r) = (UniformCrossover::new(0.5), UniformMutation::new(0.25), EliteReinsertion::new(0.75, 0.5));
    let ctx = w.context();
    match kind {
        0 => GeneticAlgorithm::new(e, EliteSelection { shuffle: false }, c, m, r).evolve(n, gens, hof, seed, quiet, &ctx),
        1 => GeneticAlgorithm::new(e, EliteSelection { shuffle: true }, c, m, r).evolve(n, gens, hof, seed, quiet, &ctx),
        2 => GeneticAlgorithm::new(e, TournamentSelection::default(), c, m, r).evolve(n, gens, hof, seed, quiet, &ctx),
        _ => GeneticAlgorithm::new(e, GenerateRandomSelection {}, c, m, PureReinsertion {})
            .evolve(n, gens, hof, seed, quiet, &ctx),
    }
}

fn digest(e: &Evolution<TradingParams>) -> Value {
    json!(e
        .generations
        .iter()
        .map(|g| {
            g.hall_of_fame
                .iter()
                .map(|i| format!("{:08x}:{}", fnv(&serde_json::to_string(&i.chromosome).unwrap()), bits(i.fitness)))
                .collect::<Vec<_>>()
                .join(" ")
        })
        .collect::<Vec<_>>())
}

struct Job {
    w: World,
    n: usize,
    gens: usize,
    hof: usize,
    kind: i64,
    seed: u64,
}
fn job(seed: u64, i: u64) -> Job {
    let mut rng = Rng::new(seed ^ 0x5EED, i);
    let (stat, agg) = (rng.int(0, 3) as usize, rng.int(0, 2) as usize);
    Job {
        w: World::new(&mut rng, stat, agg, &[2, 3, 4], 40),
        n: rng.int(2, 9) as usize,
        gens: if i % 16 == 3 { rng.int(15, 30) } else { rng.int(0, 5) } as usize,
        hof: rng.int(1, 4) as usize,
        kind: rng.int(0, 3),
        seed: if i % 4 == 1 { *rng.pick(&[0, 0, 1, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX]) } else { rng.next() },
    }
}
fn rerun(j: &Job, seed: Option<u64>) -> Value {
    match caught(|| {
        let e = evolve(&j.w, j.n, j.gens, j.hof, j.kind, seed);
        (digest(&e), e.seed)
    }) {
        Ok((d, s)) => json!({"gens":d,"seed":s.to_string()}),
        Err(m) => json!({"e":"panic","msg":m}),
    }
}

/// One optimisation in a process of its own; prints its digest.
pub fn replay_child(a: &Args) {
    let j = job(a.seed, a.opt_i("job", 0) as u64);
    let seed: u64 = a.opt("with").unwrap().parse().unwrap();
    println!("{}", rerun(&j, Some(seed)));
}

/// `replay`: the same optimisation again and again, under different circumstances.
pub fn replay(a: &Args) {
    let n = a.opt_i("n", a.n(40, 400)) as usize;
    let exe = std::env::current_exe().unwrap();
    let child = |i: usize, seed: &str, threads: &str| -> Value {
        let o = std::process::Command::new(&exe)
            .args(["replay-child", "--seed", &a.seed.to_string(), "--job", &i.to_string(), "--with", seed])
            .env("RAYON_NUM_THREADS", threads)
            .output()
            .unwrap();
        serde_json::from_slice(&o.stdout).unwrap_or(json!({"e":"panic","msg":"child process died"}))
    };
    let pools: Vec<rayon::ThreadPool> = [1, 2, 7]
        .iter()
        .map(|t| rayon::ThreadPoolBuilder::new().num_threads(*t).build().unwrap())
        .collect();
    let lines: Vec<Value> = (0..n)
        .map(|i| {
            let j = job(a.seed, i as u64);
            let mut ev = vec![];
            let mut put = |how: &str, mut d: Value| {
                if d.get("e").is_none() {
                    d["e"] = json!("run");
                }
                d["how"] = json!(how);
                ev.push(d);
            };
            let s = Some(j.seed);
            put("first", rerun(&j, s));
            put("again", rerun(&j, s));
            for p in &pools {
                put("pool", p.install(|| rerun(&j, s)));
            }
            // Several at once, so that evaluations of different runs interleave.
            let many: Vec<Value> = (0..4).into_par_iter().map(|_| rerun(&j, s)).collect();
            many.into_iter().for_each(|d| put("together", d));
            put("process", child(i, &j.seed.to_string(), "8"));
            put("process", child(i, &j.seed.to_string(), "1"));
            // Without a seed: the reported one has to reproduce the run.
            let free = rerun(&j, None);
            let fs = free["seed"].as_str().unwrap_or("0").to_owned();
            put("free", free);
            put("reported", rerun(&j, Some(fs.parse().unwrap())));
            put("reported", child(i, &fs, "3"));
            put("free again", rerun(&j, None));
            put("other", rerun(&j, Some(j.seed ^ 1)));
            put("other", rerun(&j, Some(j.seed ^ (1 << 63))));
            let evals: Vec<Value> = match caught(|| {
                let e = evolve(&j.w, j.n, j.gens, j.hof, j.kind, s);
                let ev = j.w.evaluation(&j.w.symbols);
                e.generations
                    .iter()
                    .map(|g| {
                        let mut again = individuals(&g.hall_of_fame.iter().map(|x| x.chromosome).collect::<Vec<_>>());
                        again.iter_mut().for_each(|x| ev.evaluate(std::slice::from_mut(x)));
                        json!({"e":"fame","how":"fame","fit":g.hall_of_fame.iter().map(|x| bits(x.fitness)).collect::<Vec<_>>(),
                            "again":again.iter().map(|x| bits(x.fitness)).collect::<Vec<_>>()})
                    })
                    .collect::<Vec<Value>>()
            }) {
                Ok(v) => v,
                Err(m) => vec![json!({"e":"panic","how":"fame","msg":m})],
            };
            ev.extend(evals);
            run(i + 1, "replay", json!({"n":j.n,"gens":j.gens,"hof":j.hof,"kind":j.kind,"seed":j.seed.to_string()}), ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}
