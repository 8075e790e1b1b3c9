//! C31: memory between generations and between runs.

use crate::rt::*;
use crate::{ensure, fail};
use rusty_genes::one_max::*;
use rusty_genes::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

/// The system allocator, counting live bytes while `ON` (one shared counter would slow the other monitors down).
pub struct Counting;
pub static ON: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicI64 = AtomicI64::new(0);

#[global_allocator]
static ALLOC: Counting = Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            BYTES.fetch_add(l.size() as i64, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            BYTES.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

pub fn c31(ctx: &Ctx) {
    ctx.rule("A case is one long evolution (thousands of generations) or many short ones on one object, of the OneMax problem with either algorithm, on pools of 1 to 4 threads, the live heap of the process being sampled at every progress call: the highest sample of the second half may exceed that of the first by no more than what three populations of that size take plus 16 KiB. Besides, evolutions of instrumented individuals of any configuration: the number alive at every progress call. Non-trivial: by distinct (kind, algorithm, size, threads).");
    ON.store(true, Relaxed);
    // one at a time: the heap is the whole process's
    ctx.cases("generations", 6, 40, 1, |c| growth(c, true));
    ctx.cases("runs", 6, 40, 1, |c| growth(c, false));
    ON.store(false, Relaxed);
    crate::evochk::c31_live(ctx);
    ctx.require("heap samples", 10_000);
    ctx.require("individuals alive counted", 3000);
}

fn growth(c: &mut Case, one: bool) -> R {
    let size = c.pick(&[1usize, 2, 3, 8, 20]);
    let bits = c.pick(&[8usize, 32, 100]);
    let threads = c.pick(&[1usize, 1, 2, 4]);
    let adaptive = c.chance(0.5);
    let st = crate::sel::strategy(c, size);
    let elitism_rate = c.pick(&[0.0, 0.1, 0.5]);
    let (total, gens) = if one { (1, if threads == 1 { 12_000 } else { 6_000 }) } else { (if threads == 1 { 1_000 } else { 400 }, 4) };
    let ga = GeneticAlgorithmParameters {
        population_size: size,
        elitism_rate,
        crossover_rate: 0.7,
        mutation_rate: 0.9,
        selection_strategy: st,
    };
    let aga = AdaptiveGeneticAlgorithmParameters {
        population_size: size,
        elitism_rate,
        crossover_rate_range: 0.2..0.9,
        mutation_rate_range: 0.5..1.0,
        selection_strategy: st,
        parameter_adjustment_interval: 1,
    };
    let what = format!(
        "{} of {total} runs, {gens} generations each, size {size}, {bits} bits, {st:?}, {threads} threads",
        if adaptive { "adaptive" } else { "standard" }
    );
    let mut samples: Vec<i64> = Vec::with_capacity(total * (gens + 1) + 8);
    let kind = c.below(3);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("pool");
    let r = lib(|| {
        pool.install(|| {
            let e1 = GeneticAlgorithm::build_evolution(OneMaxEvolutionModel);
            let e2 = AdaptiveGeneticAlgorithm::build_evolution(OneMaxEvolutionModel);
            let given: Vec<OneMax> = (0..size).map(|i| OneMax::from(vec![i % 2 == 0; bits])).collect();
            for _ in 0..total {
                let watch = |p: &Population<OneMax>| {
                    samples.push(BYTES.load(Relaxed));
                    p.generation() < gens
                };
                match (adaptive, kind) {
                    (false, 0) => drop(e1.run(&bits, &ga, watch)),
                    (false, 1) => drop(e1.evolve_individual(given[0].clone(), &ga, watch)),
                    (false, _) => drop(e1.evolve_population(given.clone(), &ga, watch)),
                    (true, 0) => drop(e2.run(&bits, &aga, watch)),
                    (true, 1) => drop(e2.evolve_individual(given[0].clone(), &aga, watch)),
                    (true, _) => drop(e2.evolve_population(given.clone(), &aga, watch)),
                }
            }
        })
    });
    if let Err(p) = r {
        fail!("{what}: {p}");
    }
    ensure!(samples.len() == total * (gens + 1), "{what}: {} progress calls", samples.len());
    let half = samples.len() / 2;
    let (a, b) = (samples[..half].iter().max().unwrap(), samples[half..].iter().max().unwrap());
    let slack = 3 * size as i64 * (bits as i64 + 64) + (16 << 10);
    ensure!(b - a <= slack, "{what}: the live heap grows by {} bytes from the first half to the second", b - a);
    c.count("heap samples", samples.len() as u64);
    c.sig((one, adaptive, size, threads, kind));
    c.sample(|| format!("{what}: at most {} bytes in the first half, {} in the second", a - samples[0], b - samples[0]));
    Ok(())
}
