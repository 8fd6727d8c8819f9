//! Evolution of a toy chromosome with every operator of the real algorithm recorded.
use crate::util::*;
use juno::genetics::{crossover::*, mutation::*, reinsertion::*, selection::*, Chromosome, Evaluation, Generation,
    GeneticAlgorithm, Individual};
use rand::{rngs::StdRng, Rng as _, SeedableRng};
use serde_json::{json, Value};
use std::cell::RefCell;

pub const GENES: usize = 4;
pub const MANY: usize = 150;

thread_local! {
    static LOG: RefCell<Vec<Value>> = const { RefCell::new(vec![]) };
    static CALLS: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
    /// How fitness is told apart, and how far apart: see `fitness` and `scaled`.
    static MODE: RefCell<(i64, i64)> = const { RefCell::new((11, 0)) };
}
fn log(v: Value) {
    LOG.with(|l| l.borrow_mut().push(v));
}

#[derive(Clone, Debug)]
pub struct Toy<const N: usize> {
    pub g: [i64; N],
}
pub struct ToyCtx {
    pub vals: i64,
}
impl<const N: usize> Chromosome for Toy<N> {
    type Context = ToyCtx;
    fn len() -> usize {
        N
    }
    fn generate(rng: &mut StdRng, ctx: &ToyCtx) -> Self {
        let mut g = [0; N];
        for x in g.iter_mut() {
            *x = rng.gen_range(0..ctx.vals);
        }
        Toy { g }
    }
    fn cross(&mut self, other: &mut Self, i: usize) {
        std::mem::swap(&mut self.g[i], &mut other.g[i]);
    }
    fn mutate(&mut self, rng: &mut StdRng, i: usize, ctx: &ToyCtx) {
        CALLS.with(|c| c.borrow_mut().push(i + 1));
        self.g[i] = rng.gen_range(0..ctx.vals);
    }
}
fn fitness(g: &[i64]) -> i64 {
    (7 * g[0] + 5 * g[1] + 3 * g[2] + 2 * g[3] + g[0] * g[3]) % MODE.with(|m| m.borrow().0)
}
/// The same order on other scales: tiny differences, losses, large numbers.
fn scaled(f: i64) -> f64 {
    let f = f as f64;
    match MODE.with(|m| m.borrow().1) {
        0 => f,
        1 => 1.0 + f * 1e-12,
        2 => f - 1e4,
        3 => (f - 5.0) * 1e300,
        4 => 1e15 + f,
        _ => f * 1e-300,
    }
}

/// The genes of a chromosome which is a toy, if not by its type.
fn genes<T>(x: &T) -> &[i64] {
    let n = std::mem::size_of::<T>() / 8;
    assert!(n == GENES || n == MANY);
    unsafe { std::slice::from_raw_parts(x as *const T as *const i64, n) }
}
/// The unscaled fitness: found by trying out all there are.
fn fit(f: f64) -> i64 {
    if f == f64::MIN {
        return -1;
    }
    (0..MODE.with(|m| m.borrow().0)).find(|k| scaled(*k) == f).unwrap_or(BAD)
}
fn ind<T: Chromosome>(i: &Individual<T>) -> Value {
    json!({"g": genes(&i.chromosome), "f": fit(i.fitness)})
}
fn inds<T: Chromosome>(p: &[Individual<T>]) -> Value {
    Value::Array(p.iter().map(ind).collect())
}

pub struct ToyEval<const N: usize>;
impl<const N: usize> Evaluation for ToyEval<N> {
    type Chromosome = Toy<N>;
    fn evaluate(&self, population: &mut [Individual<Toy<N>>]) {
        for i in population.iter_mut() {
            i.fitness = scaled(fitness(&i.chromosome.g));
        }
        log(json!({"e":"eval","pop":inds(population)}));
    }
}
struct Sel<S>(S);
impl<S: Selection> Selection for Sel<S> {
    fn select<T: Chromosome>(&self, rng: &mut StdRng, parents: &[Individual<T>], offs: &mut Vec<Individual<T>>,
        rate: f32, ctx: &T::Context) {
        let had = offs.len();
        self.0.select(rng, parents, offs, rate, ctx);
        log(json!({"e":"select","par":inds(parents),"sel":inds(offs),"had":had}));
    }
}
struct Cro<S>(S);
impl<S: Crossover> Crossover for Cro<S> {
    fn cross<T: Chromosome>(&self, rng: &mut StdRng, a: &mut T, b: &mut T) {
        let (a1, b1) = (genes(a).to_vec(), genes(b).to_vec());
        self.0.cross(rng, a, b);
        log(json!({"e":"cross","a":a1,"b":b1,"a2":genes(a),"b2":genes(b)}));
    }
}
struct Mut<S>(S);
impl<S: Mutation> Mutation for Mut<S> {
    fn mutate<T: Chromosome>(&self, rng: &mut StdRng, c: &mut T, ctx: &T::Context) {
        let a = genes(c).to_vec();
        CALLS.with(|c| c.borrow_mut().clear());
        self.0.mutate(rng, c, ctx);
        let ix = CALLS.with(|c| c.borrow().clone());
        log(json!({"e":"mutate","a":a,"a2":genes(c),"ix":ix}));
    }
}
struct Rei<S>(S);
impl<S: Reinsertion> Reinsertion for Rei<S> {
    fn selection_rate(&self) -> f32 {
        self.0.selection_rate()
    }
    fn reinsert<T: Chromosome>(&self, rng: &mut StdRng, parents: &[Individual<T>], offs: &mut Vec<Individual<T>>,
        n: usize, ctx: &T::Context) {
        let before = inds(offs);
        self.0.reinsert(rng, parents, offs, n, ctx);
        log(json!({"e":"reinsert","par":inds(parents),"off":before,"pop":inds(offs),"n":n}));
    }
}

fn on_generation<const N: usize>(nr: usize, g: &Generation<Toy<N>>) {
    log(json!({"e":"report","nr":nr,"hof":inds(&g.hall_of_fame)}));
}

enum AnySel {
    Elite(EliteSelection),
    Tour(TournamentSelection),
    Rand(GenerateRandomSelection),
}
impl Selection for AnySel {
    fn select<T: Chromosome>(&self, rng: &mut StdRng, p: &[Individual<T>], o: &mut Vec<Individual<T>>, rate: f32,
        ctx: &T::Context) {
        match self {
            AnySel::Elite(s) => s.select(rng, p, o, rate, ctx),
            AnySel::Tour(s) => s.select(rng, p, o, rate, ctx),
            AnySel::Rand(s) => s.select(rng, p, o, rate, ctx),
        }
    }
}
enum AnyRei {
    Elite(EliteReinsertion),
    Fitness(FitnessReinsertion),
    Pure(PureReinsertion),
}
impl Reinsertion for AnyRei {
    fn selection_rate(&self) -> f32 {
        match self {
            AnyRei::Elite(s) => s.selection_rate(),
            AnyRei::Fitness(s) => s.selection_rate(),
            AnyRei::Pure(s) => s.selection_rate(),
        }
    }
    fn reinsert<T: Chromosome>(&self, rng: &mut StdRng, p: &[Individual<T>], o: &mut Vec<Individual<T>>, n: usize,
        ctx: &T::Context) {
        match self {
            AnyRei::Elite(s) => s.reinsert(rng, p, o, n, ctx),
            AnyRei::Fitness(s) => s.reinsert(rng, p, o, n, ctx),
            AnyRei::Pure(s) => s.reinsert(rng, p, o, n, ctx),
        }
    }
}

/// Rates are per mille; -1 stands for the operator's default.
fn config(rng: &mut Rng) -> Value {
    let rein = *rng.pick(&["elite", "elite", "elite", "fitness", "pure"]);
    let srate = match rein {
        "elite" => rng.pick_i(&[-1, 750, 500, 250, 900, 999, 100, 333, 1]),
        "fitness" => rng.pick_i(&[-1, 1250, 1500, 2000, 1100, 1333, 3000]),
        _ => 1000,
    };
    let grate = if rein == "elite" { rng.pick_i(&[-1, 0, 250, 500, 750, 999, 1000, 500]) } else { 0 };
    let sel = match rein {
        "fitness" => "tour",
        "pure" => *rng.pick(&["elite", "tour", "rand"]),
        _ => *rng.pick(&["elite", "elite", "tour"]),
    };
    // Some go on for long, most of the time without any progress.
    let long = rng.bool(1, 25);
    // Some populations are large, some chromosomes have many genes.
    let (large, many) = (rng.bool(1, 40), rng.bool(1, 40));
    let mut cfg = json!({"genes":if many { MANY } else { GENES },"mod":if large { 997 } else { rng.pick_i(&[11, 11, 101]) },
        "scale":rng.pick_i(&[0, 0, 0, 1, 2, 3, 4, 5]),
        "rein":rein,"srate":srate,"grate":grate,"sel":sel,"shuffle":rng.int(0,1),
        "trate":rng.pick_i(&[-1, 500, 250, 750, 990, 10, 300]),
        "mix":rng.pick_i(&[-1, 0, 1000, 500, 250]),"mut":rng.pick_i(&[-1, 0, 0, 1000, 250, 500]),
        "n":rng.pick_i(&[2,2,3,4,5,6,7,8,9,10,12,13]),"gens":if long { rng.int(15, 40) } else { rng.pick_i(&[0,1,1,2,3,4]) },
        "hof":rng.pick_i(&[1,1,2,3,5,20]),"vals":rng.pick_i(&[1,2,3,5,100]),"seed":rng.int(0, 1 << 30)});
    if large || many {
        cfg["gens"] = json!(rng.int(1, 3));
    }
    if large {
        cfg["n"] = json!(if many { rng.int(14, 40) } else { rng.int(40, 140) });
        cfg["vals"] = json!(100);
        if rein != "pure" && rng.bool(1, 2) {
            cfg["sel"] = json!("tour");
            cfg["trate"] = json!(rng.pick_i(&[990, 750, 500]));
        }
    }
    cfg
}

fn build<const N: usize>(cfg: &Value) -> GeneticAlgorithm<ToyEval<N>, impl Selection, impl Crossover, impl Mutation, impl Reinsertion> {
    let g = |k: &str| cfg[k].as_i64().unwrap();
    let f = |k: &str| g(k) as f32 / 1000.0;
    let sel = match cfg["sel"].as_str().unwrap() {
        "elite" => AnySel::Elite(if g("shuffle") == 0 && g("seed") % 2 == 0 {
            EliteSelection::default()
        } else {
            EliteSelection::new(g("shuffle") == 1)
        }),
        "tour" => AnySel::Tour(if g("trate") < 0 {
            TournamentSelection::default()
        } else {
            TournamentSelection::new(f("trate"), true)
        }),
        _ => AnySel::Rand(GenerateRandomSelection {}),
    };
    let rei = match cfg["rein"].as_str().unwrap() {
        "elite" => {
            let d = EliteReinsertion::default();
            if g("srate") < 0 && g("grate") < 0 {
                AnyRei::Elite(d)
            } else {
                AnyRei::Elite(EliteReinsertion::new(
                    if g("srate") < 0 { d.selection_rate() } else { f("srate") },
                    if g("grate") < 0 { 0.0 } else { f("grate") },
                ))
            }
        }
        "fitness" => AnyRei::Fitness(if g("srate") < 0 {
            FitnessReinsertion::default()
        } else {
            FitnessReinsertion::new(f("srate"))
        }),
        _ => AnyRei::Pure(PureReinsertion {}),
    };
    let cro = if g("mix") < 0 { UniformCrossover::default() } else { UniformCrossover::new(f("mix")) };
    let mu = if g("mut") < 0 { UniformMutation::default() } else { UniformMutation::new(f("mut")) };
    GeneticAlgorithm::new(ToyEval::<N>, Sel(sel), Cro(cro), Mut(mu), Rei(rei))
}

/// The effective rates, so that the specification need not know about defaults being unset.
fn effective(mut cfg: Value) -> Value {
    let d = [("srate", if cfg["rein"] == "fitness" { 1250 } else { 750 }), ("grate", 0), ("trate", 200), ("mix", 500), ("mut", 100)];
    for (k, v) in d {
        if cfg[k] == json!(-1) {
            cfg[k] = json!(v);
        }
    }
    cfg
}

fn one(cfg: &Value) -> Vec<Value> {
    MODE.with(|m| *m.borrow_mut() = (cfg["mod"].as_i64().unwrap(), cfg["scale"].as_i64().unwrap()));
    if cfg["genes"] == json!(MANY) {
        sized::<MANY>(cfg)
    } else {
        sized::<GENES>(cfg)
    }
}

fn sized<const N: usize>(cfg: &Value) -> Vec<Value> {
    LOG.with(|l| l.borrow_mut().clear());
    let g = |k: &str| cfg[k].as_i64().unwrap();
    let r = caught(|| {
        build::<N>(cfg).evolve(g("n") as usize, g("gens") as usize, g("hof") as usize, Some(g("seed") as u64),
            on_generation, &ToyCtx { vals: g("vals") })
    });
    let mut ev = LOG.with(|l| l.borrow().clone());
    match r {
        Ok(x) => ev.push(json!({"e":"end","seed":x.seed as i64,
            "hofs":x.generations.iter().map(|g| inds(&g.hall_of_fame)).collect::<Vec<_>>()})),
        Err(m) => ev.push(json!({"e":"panic","msg":m})),
    }
    ev
}

type Mask = [Option<bool>; GENES];

/// How often every gene was acted on, and how often two of them were at once: [hits, chances].
fn tally(ops: &[Mask]) -> Value {
    let single = |f: &dyn Fn(&Mask) -> Option<bool>| {
        let v: Vec<bool> = ops.iter().filter_map(f).collect();
        json!([v.iter().filter(|x| **x).count(), v.len()])
    };
    let both = |pairs: &mut dyn Iterator<Item = (Option<bool>, Option<bool>)>| {
        let v: Vec<bool> = pairs.filter_map(|(a, b)| Some(a? && b?)).collect();
        json!([v.iter().filter(|x| **x).count(), v.len()])
    };
    let (mut each, mut two) = (vec![], vec![]);
    for i in 0..GENES {
        each.push(single(&|m| m[i]));
        for j in i + 1..GENES {
            two.push(both(&mut ops.iter().map(|m| (m[i], m[j]))));
        }
        // From one operation to the next ones.
        for d in 1..=2 {
            for j in 0..GENES {
                two.push(both(&mut ops.iter().zip(ops.iter().skip(d)).map(|(a, b)| (a[i], b[j]))));
            }
        }
    }
    json!({"each":each,"two":two})
}

pub fn main(a: &Args) {
    let n = a.n(700, 12000);
    let mut lines = vec![];
    for i in 0..n {
        let mut rng = Rng::new(a.seed, 9000 + i as u64);
        let cfg = config(&mut rng);
        let ev = one(&cfg);
        lines.push(run(i as usize, "evolve", effective(cfg), ev));
    }
    // How often the probabilistic operators act, over many genes.
    for (i, (mix, mu)) in [(500, 0), (250, 0), (-1, 0), (0, 100), (0, -1), (0, 250), (750, 500)].iter().enumerate() {
        let cfg = json!({"rein":"pure","srate":1000,"grate":0,"sel":"elite","shuffle":0,"trate":-1,"mix":mix,"mut":mu,
            "n":60,"gens":40,"hof":1,"vals":1000000,"genes":GENES,"mod":11,"scale":0,"seed":a.seed * 100 + i as u64});
        // Which genes every crossover and every mutation acted on; None for genes which show nothing.
        let (mut crossed, mut mutated): (Vec<Mask>, Vec<Mask>) = (vec![], vec![]);
        for e in one(&cfg) {
            if e["e"] == "cross" {
                crossed.push(std::array::from_fn(|k| (e["a"][k] != e["b"][k]).then(|| e["a2"][k] == e["b"][k])));
            } else if e["e"] == "mutate" {
                let ix = e["ix"].as_array().unwrap();
                mutated.push(std::array::from_fn(|k| Some(ix.contains(&json!(k + 1)))));
            }
        }
        lines.push(run(lines.len(), "rates", effective(cfg),
            vec![json!({"e":"rates","cross":tally(&crossed),"mutate":tally(&mutated)})]));
    }
    // Whom selection draws, over many draws: each at his place, and the first two places alike.
    for (i, (of, k)) in [("tour", 1), ("tour", 2), ("tour", 3), ("tour", 5), ("shuffle", 2), ("shuffle", 4), ("shuffle", 6)].into_iter().enumerate() {
        let par: Vec<Individual<Toy<GENES>>> = (0..6)
            .map(|j| Individual { chromosome: Toy { g: [j; GENES] }, fitness: 10.0 - j as f64 })
            .collect();
        let places = if of == "tour" { 3 } else { k };
        let sel = if of == "tour" {
            AnySel::Tour(TournamentSelection::new((k as f32 + 0.01) / 6.0, true))
        } else {
            AnySel::Elite(EliteSelection::new(true))
        };
        let times = 2000;
        let ev = caught(|| {
            let mut at = vec![vec![0; 6]; places];
            let mut alike = 0;
            let mut r = StdRng::seed_from_u64(a.seed * 100 + i as u64);
            for _ in 0..times {
                let mut out = vec![];
                sel.select(&mut r, &par, &mut out, ((places as f32 + 0.01) / 6.0).min(1.0), &ToyCtx { vals: 2 });
                for (p, x) in at.iter_mut().zip(&out) {
                    p[x.chromosome.g[0] as usize] += 1;
                }
                alike += (out[0].chromosome.g == out[1].chromosome.g) as u32;
            }
            vec![json!({"e":"draws","of":of,"n":6,"k":k,"times":times,"at":at,"alike":alike})]
        })
        .unwrap_or_else(|m| vec![json!({"e":"panic","msg":m})]);
        lines.push(run(lines.len(), "rates", json!({}), ev));
    }
    write_lines(&a.out, &lines);
}
