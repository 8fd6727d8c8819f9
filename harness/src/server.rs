//! Requests for the server, the data its upstream service has for them, and what the library itself
//! makes of that data.
use crate::opt::{quiet, World};
use crate::util::*;
use juno::genetics::{crossover::*, mutation::*, reinsertion::*, selection::*, GeneticAlgorithm};
use juno::statistics::Statistics;
use juno::trading::{trade, TradeInput, TradingParams};
use juno::{Interval, SymbolExt};
use rayon::prelude::*;
use serde_json::{json, Value};

const SYMBOLS: [&str; 4] = ["eth-btc", "ltc-btc", "xrp-usdt", "eth-usdt"];
const HOUR: u64 = 3_600_000;

struct Case {
    w: World,
    optimize: bool,
    list: Vec<String>,
    validation: Vec<String>,
    params: TradingParams,
    n: usize,
    gens: usize,
    hof: usize,
    seed: u64,
}

/// Cases of a group ask for the same symbols and intervals from the same time on, of other data.
fn case(seed: u64, i: u64, group: u64, kind: &str, syms: i64, ivs: i64) -> Case {
    let mut common = Rng::new(seed ^ 0x6E0, group);
    let mut rng = Rng::new(seed ^ 0x5E47E4, i);
    let optimize = kind == "optimize";
    let (stat, agg) = (rng.int(0, 3) as usize, rng.int(0, 2) as usize);
    // `syms` distinct symbols, in any order.
    let mut pool: Vec<String> = SYMBOLS.iter().map(|s| (*s).to_owned()).collect();
    // More markets than that have made-up names.
    pool.extend((4..syms).map(|k| format!("{}{k}-{}", ["coin", "eth", "x"][k as usize % 3], ["btc", "usdt", "eth", "coin4"][k as usize % 4])));
    let mut symbols = vec![];
    for _ in 0..syms {
        let k = common.int(0, pool.len() as i64 - 1) as usize;
        symbols.push(pool.remove(k));
    }
    let mut hours = vec![4u64, 6, 12, 3];
    let mut intervals = vec![];
    for _ in 0..if optimize { ivs } else { 1 } {
        let k = common.int(0, hours.len() as i64 - 1) as usize;
        intervals.push(Interval(hours.remove(k) * HOUR));
    }
    // A few of years, and of many individuals and generations.
    let long = i % 23 == 11;
    let days = if long { 900 } else { 60 };
    let mut w = World::of(&mut rng, stat, agg, symbols.clone(), intervals, days).reread();
    let start = 1000 * 24 * HOUR * (group + 1);
    let old = w.start.0;
    w.end.0 = w.end.0 - old + start;
    w.start.0 = start;
    w.candles.values_mut().flat_map(|m| m.values_mut()).flatten().for_each(|c| c.time.0 = c.time.0 - old + start);
    // What is asked for need not begin or end with a day, or with a candle.
    if common.bool(2, 3) {
        w.start.0 -= common.int(0, 30 * 3600) as u64 * 1000;
        w.end.0 += rng.int(0, 23 * 3600 - 1) as u64 * 1000;
    }
    let params = w.params(&mut rng);
    // Lists which name symbols repeatedly.
    let mut list = symbols.clone();
    let mut validation = vec![];
    if optimize && symbols.len() > 1 {
        let k = rng.int(1, symbols.len() as i64) as usize;
        validation = list.split_off(k);
        if rng.bool(1, 2) {
            validation.push(list[0].clone());
        }
    } else if optimize && rng.bool(1, 2) {
        validation = list.clone();
    }
    if !list.is_empty() && rng.bool(1, 3) {
        let again = rng.pick(&list).clone();
        list.push(again);
    }
    let big = i % 23 == 17;
    let n = if big { rng.int(20, 50) } else { rng.int(2, 8) } as usize;
    let gens = if big { rng.int(15, 40) } else { rng.int(0, if long { 2 } else { 9 }) } as usize;
    let hof = if big { rng.int(1, 12) } else { rng.int(1, 5) } as usize;
    Case { w, optimize, list, validation, params, n, gens, hof, seed: rng.next() }
}

impl Case {
    fn distinct(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for s in self.list.iter().chain(&self.validation) {
            if !v.contains(s) {
                v.push(s.clone());
            }
        }
        v
    }
    fn stats(&self, p: &TradingParams) -> Value {
        let mut m = serde_json::Map::new();
        for s in self.distinct() {
            let w = &self.w;
            let t = trade(
                p,
                &TradeInput {
                    candles: &w.candles[&s][&p.trader.interval],
                    fees: &w.info.fees[&s],
                    filters: &w.info.filters[&s],
                    borrow_info: &w.info.borrow_info[&s][s.base_asset()],
                    margin_multiplier: 2,
                    quote: w.quote,
                    long: true,
                    short: true,
                },
            );
            let st = Statistics::compose(&t, &s, &w.prices, Interval::DAY_MS);
            m.insert(s, serde_json::to_value(st).unwrap());
        }
        Value::Object(m)
    }
    /// All generations of the same optimisation, asked of the library.
    fn generations(&self, seed: u64) -> Value {
        let e = self.w.evaluation(&self.list);
        let ev = GeneticAlgorithm::new(
            e,
            EliteSelection { shuffle: false },
            UniformCrossover::new(0.5),
            UniformMutation::new(0.25),
            EliteReinsertion::new(0.75, 0.5),
        )
        .evolve(self.n, self.gens, self.hof, Some(seed), quiet, &self.w.context());
        // Fitness by its rank among all fitnesses; -1 is no number.
        let mut all: Vec<f64> = ev.generations.iter().flat_map(|g| g.hall_of_fame.iter().map(|i| i.fitness)).collect();
        all.retain(|f| !f.is_nan());
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        all.dedup();
        let gens: Vec<Value> = ev
            .generations
            .iter()
            .map(|g| {
                let rank: Vec<i64> = g
                    .hall_of_fame
                    .iter()
                    .map(|i| all.iter().position(|f| *f == i.fitness).map(|x| x as i64).unwrap_or(-1))
                    .collect();
                let inds: Vec<Value> = g
                    .hall_of_fame
                    .iter()
                    .map(|i| json!({"individual":i,"symbol_stats":self.stats(&i.chromosome)}))
                    .collect();
                json!({"rank":rank,"inds":inds})
            })
            .collect();
        json!(gens)
    }
    fn body(&self) -> Value {
        let w = &self.w;
        if self.optimize {
            json!({"population_size":self.n,"generations":self.gens,"hall_of_fame_size":self.hof,"seed":self.seed,
                "start":w.start,"end":w.end,"quote":w.quote,"training_symbols":self.list,"validation_symbols":self.validation,
                "evaluation_statistic":w.stat,"evaluation_aggregation":w.agg,"context":w.context()})
        } else {
            json!({"symbols":self.list,"start":w.start,"end":w.end,"quote":w.quote,"trading":self.params})
        }
    }
}

fn of(a: &Args, i: u64) -> Case {
    let kinds: Vec<&str> = a.opt("kinds").unwrap().split(',').collect();
    // kind:symbols:intervals
    let p: Vec<&str> = kinds[i as usize % kinds.len()].split(':').collect();
    let group = i / kinds.len() as u64 / 3 * kinds.len() as u64 + i % kinds.len() as u64;
    case(a.seed, i, group, p[0], p[1].parse().unwrap(), p[2].parse().unwrap())
}

/// `server`: one line per request, with the upstream's data as the exact text it will send.
pub fn cases(a: &Args) {
    let n = a.opt_i("n", 40) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let c = of(a, i);
            let mut candles = serde_json::Map::new();
            for (s, m) in &c.w.candles {
                for (iv, cs) in m {
                    candles.insert(format!("{s}|{}", iv.0), json!(serde_json::to_string(cs).unwrap()));
                }
            }
            let prices: serde_json::Map<String, Value> =
                c.w.prices.iter().map(|(k, v)| (k.clone(), json!(serde_json::to_string(v).unwrap()))).collect();
            let want = if c.optimize { json!([]) } else { caught(|| c.stats(&c.params)).unwrap_or_else(|m| json!({"panic":m})) };
            json!({"i":i,"kind":if c.optimize {"optimize"} else {"backtest"},"body":c.body(),"symbols":c.distinct(),
                "intervals":c.w.intervals,"start":c.w.start,"end":c.w.end,
                "info":serde_json::to_string(&c.w.info).unwrap(),"candles":candles,"prices":prices,"want":want})
        })
        .collect();
    write_text(a, &lines);
}

fn write_text(a: &Args, lines: &[Value]) {
    let mut f = String::new();
    for l in lines {
        f += &serde_json::to_string(l).unwrap();
        f.push('\n');
    }
    std::fs::write(&a.out, f).unwrap();
}

/// `server-direct`: the library's own generations for [case, seed] pairs.
pub fn direct(a: &Args) {
    let text = std::fs::read_to_string(a.scen.as_ref().unwrap()).unwrap();
    let lines: Vec<Value> = text
        .lines()
        .collect::<Vec<_>>()
        .into_par_iter()
        .map(|l| {
            let v: Value = serde_json::from_str(l).unwrap();
            let c = of(a, v["case"].as_u64().unwrap());
            let seed: u64 = v["seed"].as_str().unwrap().parse().unwrap();
            caught(|| c.generations(seed)).unwrap_or_else(|m| json!({"panic":m}))
        })
        .collect();
    write_text(a, &lines);
}
