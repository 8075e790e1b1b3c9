//! Workloads for ThreadSanitizer and Miri: parallel evolutions whose callbacks share nothing that orders
//! threads (relaxed counters only), so that the only ordering a race detector can see is the library's own.
//!
//! usage: san SEED ROUNDS

use rand::prelude::*;
use rusty_genes::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

static SEEDS: AtomicU64 = AtomicU64::new(0);
static BREEDINGS: AtomicU64 = AtomicU64::new(0);
static OVERLAPS: AtomicU64 = AtomicU64::new(0);

/// A generator whose state is plain memory: two threads using it at once are a data race.
struct Plain {
    inner: SmallRng,
    draws: Box<u64>,
    busy: AtomicBool,
}
impl Plain {
    fn enter(&mut self) {
        if self.busy.swap(true, Relaxed) {
            OVERLAPS.fetch_add(1, Relaxed);
        }
        *self.draws += 1;
    }
}
impl RngCore for Plain {
    fn next_u32(&mut self) -> u32 {
        self.enter();
        let x = self.inner.next_u32();
        self.busy.store(false, Relaxed);
        x
    }
    fn next_u64(&mut self) -> u64 {
        self.enter();
        let x = self.inner.next_u64();
        self.busy.store(false, Relaxed);
        x
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.inner.try_fill_bytes(d)
    }
}

#[derive(Clone, PartialEq)]
struct Tour {
    genes: Vec<u16>,
    fit: f64,
}
impl Individual for Tour {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
impl RandomIndividual<usize> for Tour {
    fn new_random<R: Rng>(n: &usize, rng: &mut R) -> Self {
        let mut genes: Vec<u16> = (0..*n as u16).collect();
        genes.shuffle(rng);
        Tour { genes, fit: 0.0 }
    }
}

struct Model {
    cross: CrossoverStrategy,
    mutation: MutationStrategy,
    nested: bool,
}
impl EvolutionModel for Model {
    type Individual = Tour;
    type Rng = Plain;
    fn rng() -> Plain {
        let s = SEEDS.fetch_add(1, Relaxed);
        Plain { inner: SmallRng::seed_from_u64(s), draws: Box::new(0), busy: AtomicBool::new(false) }
    }
    fn crossover(&self, a: &Tour, b: &Tour, rng: &mut Plain) -> Tour {
        Tour { genes: self.cross.crossover(&a.genes, &b.genes, rng), fit: 0.0 }
    }
    fn mutate(&self, i: &mut Tour, rng: &mut Plain) {
        self.mutation.mutate(&mut i.genes, rng)
    }
    fn evaluate(&self, i: &mut Tour) {
        BREEDINGS.fetch_add(1, Relaxed);
        let g = &i.genes;
        let cost = |k: usize| (g[k] as f64 - g[(k + 1) % g.len()] as f64).abs();
        let half = g.len() / 2;
        let (a, b) = if self.nested {
            rayon::join(|| (0..half).map(cost).sum::<f64>(), || (half..g.len()).map(cost).sum::<f64>())
        } else {
            ((0..half).map(cost).sum::<f64>(), (half..g.len()).map(cost).sum::<f64>())
        };
        i.fit = 1.0 / (1.0 + a + b);
    }
    fn pre_generation(&mut self, p: &Population<Tour>, b: &mut ReproductionParameters<Self>) {
        if p.generation() == 2 {
            b.mutation_rate = (b.mutation_rate + 0.1).min(1.0);
            self.nested = !self.nested;
        }
    }
}

fn one(r: &mut SmallRng, gens: usize, max: usize) -> usize {
    const CROSS: [CrossoverStrategy; 6] = [
        CrossoverStrategy::GeneralizedPartition2,
        CrossoverStrategy::SequentialConstructive,
        CrossoverStrategy::EdgeRecombination,
        CrossoverStrategy::PartiallyMapped,
        CrossoverStrategy::Order,
        CrossoverStrategy::Cycle,
    ];
    const MUT: [MutationStrategy; 4] =
        [MutationStrategy::Swap, MutationStrategy::Scramble, MutationStrategy::Inversion, MutationStrategy::Insertion];
    let sel = [
        SelectionStrategy::Tournament(3),
        SelectionStrategy::RouletteWheel,
        SelectionStrategy::Boltzmann(1.0, 0.9),
        SelectionStrategy::Rank,
        SelectionStrategy::Linear(1.5),
        SelectionStrategy::Elitist(0.3),
    ];
    let m = Model { cross: CROSS.into_iter().nth(r.gen_range(0..6)).unwrap(), mutation: MUT[r.gen_range(0..4)], nested: r.gen() };
    let size = r.gen_range(1..=max);
    let len = r.gen_range(3..10);
    let strategy = sel[r.gen_range(0..6)];
    let elitism_rate = [0.0, 0.1, 0.5, 0.9][r.gen_range(0..4)];
    let mut n = 0;
    let mut progress = |p: &Population<Tour>| {
        n += 1;
        assert!(!p.is_empty());
        n <= gens
    };
    let start = Tour { genes: (0..len as u16).collect(), fit: 0.0 };
    let kind = r.gen_range(0..3);
    if r.gen() {
        let p = GeneticAlgorithmParameters {
            population_size: size,
            elitism_rate,
            crossover_rate: 0.7,
            mutation_rate: 0.5,
            selection_strategy: strategy,
        };
        let e = GeneticAlgorithm::build_evolution(m);
        for _ in 0..2 {
            match kind {
                0 => drop(e.run(&len, &p, &mut progress)),
                1 => drop(e.evolve_individual(start.clone(), &p, &mut progress)),
                _ => drop(e.evolve_population(vec![start.clone(); size], &p, &mut progress)),
            }
        }
    } else {
        let p = AdaptiveGeneticAlgorithmParameters {
            population_size: size,
            elitism_rate,
            crossover_rate_range: 0.3..1.0,
            mutation_rate_range: 0.1..1.0,
            selection_strategy: strategy,
            parameter_adjustment_interval: 2,
        };
        let e = AdaptiveGeneticAlgorithm::build_evolution(m);
        for _ in 0..2 {
            match kind {
                0 => drop(e.run(&len, &p, &mut progress)),
                1 => drop(e.evolve_individual(start.clone(), &p, &mut progress)),
                _ => drop(e.evolve_population(vec![start.clone(); size], &p, &mut progress)),
            }
        }
    }
    n
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("number")).collect();
    let (seed, rounds) = (a[0], a[1]);
    let (gens, max) = if cfg!(miri) { (2, 5) } else { (12, 40) };
    SEEDS.store(seed << 32, Relaxed);
    let mut r = SmallRng::seed_from_u64(seed);
    let mut shown = 0;
    for k in 0..rounds {
        let threads = if cfg!(miri) { 2 + (k % 2) as usize } else { 2 + (k % 7) as usize };
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let (s1, s2, s3) = (r.gen(), r.gen(), r.gen());
        let go = |s: u64| one(&mut SmallRng::seed_from_u64(s), gens, max);
        shown += pool.install(|| {
            if k % 3 == 0 {
                let (a, (b, c)) = rayon::join(|| go(s1), || rayon::join(|| go(s2), || go(s3)));
                a + b + c
            } else {
                go(s1) + go(s2)
            }
        });
    }
    println!("SAN rounds={rounds} populations={shown} evaluations={} generators={} overlaps={}",
        BREEDINGS.load(Relaxed), SEEDS.load(Relaxed) - (seed << 32), OVERLAPS.load(Relaxed));
}
