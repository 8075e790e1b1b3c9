//! Evolutions of very many generations, for C14, C15, C17, C19 and C22: small populations, and every generation checked
//! on the way.

use crate::rt::*;
use crate::{ensure, fail};
use rand::prelude::*;
use rusty_genes::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct LInd {
    key: u64,
    fit: f64,
}
impl PartialEq for LInd {
    fn eq(&self, o: &LInd) -> bool {
        self.key == o.key
    }
}
impl Individual for LInd {
    fn fitness(&self) -> f64 {
        self.fit
    }
}

#[derive(Default)]
struct St {
    bred: u64,
    pre: u64,
    pre_at: usize,
    /// Rates of the breedings of this generation.
    rates: Option<(f64, f64)>,
    differ: bool,
    seed: u64,
}
pub struct LModel {
    st: Arc<Mutex<St>>,
}
impl EvolutionModel for LModel {
    type Individual = LInd;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        SmallRng::seed_from_u64(1)
    }
    fn crossover(&self, a: &LInd, _: &LInd, _: &mut SmallRng) -> LInd {
        a.clone()
    }
    fn mutate(&self, i: &mut LInd, _: &mut SmallRng) {
        i.key += 1;
    }
    fn evaluate(&self, i: &mut LInd) {
        i.fit = (mix(i.key, 3) % 1000) as f64;
    }
    fn pre_generation(&mut self, p: &Population<LInd>, _: &mut ReproductionParameters<Self>) {
        let mut s = self.st.lock().unwrap();
        s.pre += 1;
        s.pre_at = p.generation();
    }
    fn breed(&self, p: &Population<LInd>, r: &ReproductionParameters<Self>, _: &mut SmallRng) -> LInd {
        let mut s = self.st.lock().unwrap();
        s.bred += 1;
        match s.rates {
            Some((c, m)) => s.differ |= (c, m) != (r.crossover_rate, r.mutation_rate),
            None => s.rates = Some((r.crossover_rate, r.mutation_rate)),
        }
        let key = mix(s.seed, s.bred) | 1 << 40;
        // the spread changes from generation to generation, and now and then everyone is equally fit
        let g = p.generation() as u64;
        let scale = [1.0, 0.25, 3.0, 0.0, 0.5][(mix(g, 9) % 5) as usize];
        LInd { key, fit: (mix(key, 1) % 4096) as f64 / 4096.0 * scale }
    }
}
impl RandomIndividual<u64> for LInd {
    fn new_random<R: Rng>(_: &u64, rng: &mut R) -> LInd {
        LInd { key: rng.gen::<u64>() >> 8, fit: 0.0 }
    }
}

pub fn long(ctx: &Ctx) {
    let only = ctx.prop.clone();
    ctx.rule("Besides, evolutions of tens of thousands (thorough: hundreds of thousands) of generations of small populations, each generation checked on the way.");
    ctx.cases("long", 12, 12, 8, |c| {
        let gens = if c.deep { 300_000 } else { 70_000 };
        let size = c.pick(&[1usize, 2, 3, 5]);
        let elitism = c.pick(&[0.0, 0.4, 0.7]);
        let elites = (elitism * size as f64) as usize;
        let interval = c.pick(&[1usize, 2, 7, 1000, 0]);
        let adaptive = only == "C19" || c.chance(0.5);
        let (cx, mx) = (0.2..0.9, 0.05..0.5);
        let st = Arc::new(Mutex::new(St { seed: c.rng.gen(), ..Default::default() }));
        let model = LModel { st: st.clone() };
        let what = format!("a run of {gens} generations, {size} individuals, elitism {elitism}, adaptive {adaptive}, interval {interval}");
        let mut calls = 0usize;
        let mut bad: Option<String> = None;
        let mut best_ever = f64::NEG_INFINITY;
        let mut last: Vec<(u64, f64)> = vec![];
        let mut quota = 0u64;
        let mut std0 = 0.0;
        let mut expect = (0.0, 0.0);
        let mut judge = |p: &Population<LInd>| -> bool {
            let mut s = st.lock().unwrap();
            let mut say = |prop: &str, m: String| {
                if prop == only {
                    bad.get_or_insert(m);
                }
            };
            if p.generation() != calls || s.pre != calls as u64 || (calls > 0 && s.pre_at != calls - 1) {
                say("C22", format!("call {calls} of the progress closure: generation {}, {} pre-generation steps, the last one at generation {}", p.generation(), s.pre, s.pre_at));
            }
            if calls > 0 {
                if s.bred != quota {
                    say("C15", format!("generation {calls}: {} individuals bred instead of {quota}", s.bred));
                }
                if let Some(r) = s.rates {
                    let near = |a: f64, b: f64| (a - b).abs() < 1e-9;
                    if adaptive && (s.differ || !near(r.0, expect.0) || !near(r.1, expect.1)) {
                        say("C19", format!("bred for generation {calls} with rates {r:?} instead of {expect:?}"));
                    }
                }
                let now = p.fittest().fit;
                let before = last.last().unwrap().1;
                if elites > 0 && now < before {
                    say("C14", format!("the best fitness drops from {before} to {now} at generation {calls}"));
                }
                let keep = elites.min(last.len());
                for (k, f) in &last[last.len() - keep..] {
                    if !p.iter().any(|i| i.key == *k && i.fit == *f) {
                        say("C14", format!("elite {k} of fitness {f} is not in generation {calls}"));
                    }
                }
            }
            best_ever = best_ever.max(p.fittest().fit);
            let std = p.stats().std();
            if calls == 0 {
                std0 = std;
                expect = (cx.end, mx.start);
            } else if interval != 0 && calls % interval == 0 {
                let d = if std > 0.0 { (std / std0).min(1.0) } else { 0.0 };
                expect = (cx.start + (cx.end - cx.start) * d, mx.start + (mx.end - mx.start) * (1.0 - d));
            }
            last = p.iter().map(|i| (i.key, i.fit)).collect();
            quota = (size - elites.min(p.len())) as u64;
            s.rates = None;
            s.differ = false;
            // numbers go on, but are counted per generation
            s.seed = mix(s.seed, s.bred);
            s.bred = 0;
            calls += 1;
            calls <= gens
        };
        let progress = |p: &Population<LInd>| judge(p);
        let single = c.chance(0.5);
        let r = lib(|| {
            if adaptive {
                let e = AdaptiveGeneticAlgorithm::build_evolution(model);
                let p = AdaptiveGeneticAlgorithmParameters {
                    population_size: size,
                    elitism_rate: elitism,
                    crossover_rate_range: 0.2..0.9,
                    mutation_rate_range: 0.05..0.5,
                    selection_strategy: SelectionStrategy::Tournament(2),
                    parameter_adjustment_interval: interval,
                };
                if single {
                    e.evolve_individual(LInd { key: 77, fit: 0.0 }, &p, progress)
                } else {
                    e.run(&1u64, &p, progress)
                }
            } else {
                let e = GeneticAlgorithm::build_evolution(model);
                let p = GeneticAlgorithmParameters {
                    population_size: size,
                    elitism_rate: elitism,
                    crossover_rate: 0.5,
                    mutation_rate: 0.5,
                    selection_strategy: SelectionStrategy::Tournament(2),
                };
                if single {
                    e.evolve_individual(LInd { key: 77, fit: 0.0 }, &p, progress)
                } else {
                    e.run(&1u64, &p, progress)
                }
            }
        });
        match r {
            Err(p) => fail!("{what}: {p} after {calls} calls of the progress closure"),
            Ok(i) => {
                if let Some(m) = bad {
                    fail!("{what}: {m}");
                }
                if only == "C17" {
                    ensure!(i.fit == best_ever, "{what}: returns fitness {} instead of {best_ever}", i.fit);
                }
                if only == "C22" {
                    ensure!(calls == gens + 1, "{what}: {calls} calls of the progress closure");
                }
            }
        }
        c.evals(gens as u64);
        c.count("generations of long runs", gens as u64);
        c.sig(("long", size, elites, interval, adaptive, single));
        Ok(())
    });
    ctx.require("generations of long runs", 100_000);
}
