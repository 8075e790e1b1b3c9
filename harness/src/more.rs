//! C39: operators look at nothing but what they are about. C40: easy problems get solved. C41: cost.

use crate::genes::*;
use crate::ops::with_gene;
use crate::popst::pool;
use crate::rt::*;
use crate::sel::{fi, fitness_list, strategy, KINDS};
use crate::{ensure, fail};
use rand::prelude::*;
use rusty_genes::one_max::*;
use rusty_genes::*;
use std::collections::HashMap;
use std::fmt::Debug;
use std::ops::Range;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------- C39

pub fn c39(ctx: &Ctx) {
    ctx.rule("A case runs the same operator with equal generators on a genome (or pair of parents) of numbers and on renamed copies of it (other types, sizes, hashes, orders, repeated genes for mutations), or the same selection on populations of different individuals with the same fitness values. Non-trivial: by distinct parents, or by (kind of mutation, length, seed), or (strategy, fitness values).");
    ctx.cases("rename", 3000, 40_000, 8, |c| {
        let k = c.idx;
        with_gene!(k, rename, c)
    });
    ctx.cases("rearrange", 6000, 100_000, 8, rearrange);
    ctx.cases("choose", 3000, 40_000, 4, choose);
    ctx.require("renamed offspring compared", 10_000);
    ctx.require("rearrangements compared", 10_000);
    ctx.require("choices compared", 20_000);
}

/// A selector that knows nothing of the genes.
fn blind(key: u64) -> impl FnMut(usize) -> usize {
    let mut step = 0;
    move |len| {
        step += 1;
        (mix(key, step) % len as u64) as usize
    }
}

fn rename<G: Gene>(c: &mut Case) -> R {
    let p = random_pair_of::<G>(c, 200);
    let n = p.n();
    let r: Range<usize> = {
        let s = c.rng.gen_range(0..=n);
        s..c.rng.gen_range(s..=n)
    };
    let (point, key, seed): (usize, u64, u64) = (c.below(n + 1), c.rng.gen(), c.rng.gen());
    let same = |name: &str, plain: Vec<usize>, other: Vec<G>| -> R {
        let got = p.ixs(&other)?;
        ensure!(got == plain, "{name} (range {r:?}, point {point}) of numbers gives {}, of renamed genes {}; {}", cutv(&plain), cutv(&got), p.show());
        Ok(())
    };
    let say = |name: &str| {
        let s = format!("{name}; {}", p.show());
        move || s.clone()
    };
    macro_rules! both {
        ($name:expr, $f:expr, $g:expr) => {{
            let x = must(say($name), || $f)?;
            let y = must(say($name), || with_fuel(fuel(n), || $g))?;
            same($name, x, y)?;
        }};
    }
    both!("SPX", single_point_crossover(&p.i1, &p.i2, point), single_point_crossover(&p.p1, &p.p2, point));
    both!("CX", cycle_crossover(&p.i1, &p.i2), cycle_crossover(&p.p1, &p.p2));
    both!("PMX", partially_mapped_crossover(&p.i1, &p.i2, r.clone()), partially_mapped_crossover(&p.p1, &p.p2, r.clone()));
    both!("OX", order_crossover(&p.i1, &p.i2, r.clone()), order_crossover(&p.p1, &p.p2, r.clone()));
    both!("GPX2", { let mut s = blind(key); generalized_partition_2_crossover(&p.i1, &p.i2, |_, l| s(l.len())) }, {
        let mut s = blind(key);
        generalized_partition_2_crossover(&p.p1, &p.p2, |_, l| s(l.len()))
    });
    both!("common_partitions", common_partitions(&p.i1, &p.i2).concat(), common_partitions(&p.p1, &p.p2).concat());
    if n > 0 {
        let pivot = c.below(n);
        both!("SCX", sequential_constructive_crossover(&p.i1, &p.i2, pivot), sequential_constructive_crossover(&p.p1, &p.p2, p.genes[pivot]));
    }
    for s in [
        CrossoverStrategy::GeneralizedPartition2,
        CrossoverStrategy::SequentialConstructive,
        CrossoverStrategy::PartiallyMapped,
        CrossoverStrategy::Order,
        CrossoverStrategy::Cycle,
        CrossoverStrategy::SinglePoint,
    ] {
        let (mut a, mut b) = (SmallRng::seed_from_u64(seed), SmallRng::seed_from_u64(seed));
        both!(&format!("{s:?}"), s.crossover(&p.i1, &p.i2, &mut a), s.crossover(&p.p1, &p.p2, &mut b));
        ensure!(a == b, "{s:?} draws differently for renamed genes; {}", p.show());
    }
    // shared links, as unordered pairs
    if n > 1 {
        let mut x: Vec<(usize, usize)> = must(say("common_neighbors"), || common_neighbors(&p.i1, &p.i2))?.iter().map(|(a, b)| (*a.min(b), *a.max(b))).collect();
        let mut y = vec![];
        for (a, b) in must(say("common_neighbors"), || with_fuel(fuel(n), || common_neighbors(&p.p1, &p.p2)))? {
            let ix = p.ixs(&[a, b])?;
            y.push((ix[0].min(ix[1]), ix[0].max(ix[1])));
        }
        x.sort_unstable();
        y.sort_unstable();
        ensure!(x == y, "common_neighbors of numbers gives {}, of renamed genes {}; {}", cutv(&x), cutv(&y), p.show());
    }
    c.count("renamed offspring compared", 13);
    c.evals(13);
    c.sig((G::NAME, &p.i1, &p.i2));
    Ok(())
}

const MUTATIONS: [MutationStrategy; 5] =
    [MutationStrategy::Swap, MutationStrategy::Scramble, MutationStrategy::Inversion, MutationStrategy::Insertion, MutationStrategy::Duplicate];

fn rearrange(c: &mut Case) -> R {
    let n = pick_size(c, 600);
    let m = c.pick(&MUTATIONS);
    let seed: u64 = c.rng.gen();
    let mut pattern: Vec<usize> = (0..n).collect();
    let mut rng = SmallRng::seed_from_u64(seed);
    must(|| format!("{m:?} of {n} numbers"), || m.mutate(&mut pattern, &mut rng))?;
    let few = c.pick(&[1usize, 2, 3, 7]);
    fn one<G: Copy>(what: &str, m: MutationStrategy, seed: u64, pattern: &[usize], after: &SmallRng, mk: impl Fn(usize) -> G, eq: impl Fn(&G, &G) -> bool) -> R {
        let n = pattern.len();
        let before: Vec<G> = (0..n).map(mk).collect();
        let mut g = before.clone();
        let mut rng = SmallRng::seed_from_u64(seed);
        must(|| format!("{m:?} of {n} {what}"), || m.mutate(&mut g, &mut rng))?;
        ensure!(g.len() == n && (0..n).all(|i| eq(&g[i], &before[pattern[i]])), "{m:?} rearranges {n} {what} in another way than numbers (generator {seed})");
        ensure!(&rng == after, "{m:?} of {n} {what} draws differently (generator {seed})");
        Ok(())
    }
    one("repeated bytes", m, seed, &pattern, &rng, |i| (i % few) as u8, |a, b| a == b)?;
    one("equal bits", m, seed, &pattern, &rng, |_| true, |a, b| a == b)?;
    one("floats, NaN among them", m, seed, &pattern, &rng, |i| if i % 3 == 0 { f64::NAN } else { i as f64 }, |a, b| a.to_bits() == b.to_bits())?;
    one("wide genes", m, seed, &pattern, &rng, |i| [i as u64; 9], |a, b| a == b)?;
    one("units", m, seed, &pattern, &rng, |_| (), |_, _| true)?;
    one("colliding genes", m, seed, &pattern, &rng, |i| Tok::<1>((i / few) as u32), |a, b| a.0 == b.0)?;
    // genes that cannot be copied
    if m != MutationStrategy::Duplicate {
        let before: Vec<String> = (0..n).map(|i| format!("gene {}", i % (few * 5))).collect();
        let mut g = before.clone();
        let mut r = SmallRng::seed_from_u64(seed);
        must(
            || format!("{m:?} of {n} strings"),
            || match m {
                MutationStrategy::Swap => swap_mutation(&mut g, &mut r),
                MutationStrategy::Scramble => scramble_mutation(&mut g, &mut r),
                MutationStrategy::Inversion => inversion_mutation(&mut g, &mut r),
                _ => insertion_mutation(&mut g, &mut r),
            },
        )?;
        ensure!((0..n).all(|i| g[i] == before[pattern[i]]) && r == rng, "{m:?} rearranges {n} strings in another way than numbers (generator {seed})");
    }
    c.count("rearrangements compared", 7);
    c.evals(7);
    c.sig((m as u8, n, seed));
    Ok(())
}

/// As fit as another, and different in everything else.
#[derive(Clone, Debug)]
struct Odd {
    name: String,
    fit: f32,
    rest: f64,
}
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.name == o.name
    }
}
impl Individual for Odd {
    fn fitness(&self) -> f64 {
        self.fit as f64 + self.rest
    }
    fn is_valid(&self) -> bool {
        self.name.len() % 2 == 0
    }
}

fn choose(c: &mut Case) -> R {
    let n = pick_size(c, 300).max(1);
    let kind = c.pick(&KINDS);
    let st = strategy(c, n);
    let mut f = fitness_list(&mut c.rng, kind, n);
    f.retain(|x| x.is_finite());
    f.sort_by(|a, b| a.partial_cmp(b).unwrap());
    f.dedup();
    if f.is_empty() {
        return Ok(());
    }
    let n = f.len();
    let seed: u64 = c.rng.gen();
    let mut list: Vec<_> = f.iter().enumerate().map(|(i, f)| fi(i as u64, *f)).collect();
    let mut odd: Vec<Odd> = f
        .iter()
        .enumerate()
        .map(|(i, f)| {
            // split so that the sum is exact
            let head = if f.abs() < 1e30 && f.abs() > 1e-30 { *f as f32 } else { 0.0 };
            Odd { name: "x".repeat(i % 5) + &i.to_string(), fit: head, rest: f - head as f64 }
        })
        .collect();
    if odd.iter().zip(&f).any(|(o, f)| o.fitness() != *f) {
        return Ok(());
    }
    list.shuffle(&mut c.rng);
    odd.shuffle(&mut c.rng);
    let excluded = c.below(n);
    let tries = c.below(5);
    let what = || format!("{st:?} on {n} members of {kind:?} fitness, generator {seed}");
    // on one thread, so that sums are the same
    fn go<I: Individual>(list: Vec<I>, st: SelectionStrategy, seed: u64, excluded: usize, tries: usize) -> (Vec<usize>, Vec<Option<usize>>, SmallRng) {
        let p = Population::new(list);
        let mut s = st.create_selector::<I, SmallRng>();
        s.prepare(&p);
        let mut rng = SmallRng::seed_from_u64(seed);
        let a = (0..20).map(|_| s.select(&p, &mut rng).0).collect();
        let b = (0..20).map(|_| s.select_distinct(&p, &mut rng, tries, &p[excluded]).map(|x| x.0)).collect();
        (a, b, rng)
    }
    let x = must(what, || pool(0).install(|| go(list, st, seed, excluded, tries)))?;
    let y = must(what, || pool(0).install(|| go(odd, st, seed, excluded, tries)))?;
    ensure!(x.0 == y.0, "{} selects {} or {}, depending on what the individuals are", what(), cutv(&x.0), cutv(&y.0));
    ensure!(x.1 == y.1, "{} selects, distinct from {excluded}, {} or {}, depending on what the individuals are", what(), cutv(&x.1), cutv(&y.1));
    ensure!(x.2 == y.2, "{} draws differently, depending on what the individuals are", what());
    c.count("choices compared", 40);
    c.evals(40);
    c.sig((format!("{st:?}"), f.iter().map(|f| f.to_bits()).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C40

#[derive(Clone, Debug, PartialEq)]
struct Perm {
    genes: Vec<u8>,
    fit: f64,
}
impl Individual for Perm {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
impl RandomIndividual<usize> for Perm {
    fn new_random<R: Rng>(n: &usize, rng: &mut R) -> Perm {
        let mut genes: Vec<u8> = (0..*n as u8).collect();
        genes.shuffle(rng);
        Perm { genes, fit: 0.0 }
    }
}
#[derive(Clone)]
struct PermModel {
    target: Vec<u8>,
    cx: CrossoverStrategy,
    mu: MutationStrategy,
    /// A solution better than all but the optimum, far from it.
    trap: Option<Vec<u8>>,
}
impl EvolutionModel for PermModel {
    type Individual = Perm;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        static N: AtomicU64 = AtomicU64::new(0);
        SmallRng::seed_from_u64(mix(N.fetch_add(1, SeqCst), 77))
    }
    fn crossover(&self, a: &Perm, b: &Perm, rng: &mut SmallRng) -> Perm {
        Perm { genes: self.cx.crossover(&a.genes, &b.genes, rng), fit: 0.0 }
    }
    fn mutate(&self, i: &mut Perm, rng: &mut SmallRng) {
        self.mu.mutate(&mut i.genes, rng);
    }
    fn evaluate(&self, i: &mut Perm) {
        if let Some(t) = &self.trap {
            i.fit = if i.genes == self.target {
                i.genes.len() as f64 + 1.0
            } else if i.genes == *t {
                i.genes.len() as f64
            } else {
                1.0 + (i.genes[0] == t[0]) as u8 as f64 / 2.0
            };
            return;
        }
        i.fit = 1.0 + i.genes.iter().zip(&self.target).filter(|(a, b)| a == b).count() as f64;
    }
    fn can_survive(&self, _: &Perm, _: &Perm, _: &Population<Perm>, _: &mut SmallRng) -> bool {
        true
    }
}

const ENOUGH: usize = 50_000;

pub fn c40(ctx: &Ctx) {
    ctx.rule("A case is one evolution of bit strings (1..200 bits, the model of the library) or of permutations of 1..7 genes (every crossover and mutation that keeps permutations), by either algorithm, with any selection that gives every member a chance; it must meet the optimum within 50000 generations. Non-trivial: runs that did not start with the optimum, by distinct setup.");
    ctx.cases("permutations", 200, 3000, 8, |c| {
        let n = c.rng.gen_range(1..=7usize);
        let mut target: Vec<u8> = (0..n as u8).collect();
        target.shuffle(&mut c.rng);
        let cx = c.pick(&[
            CrossoverStrategy::GeneralizedPartition2,
            CrossoverStrategy::SequentialConstructive,
            CrossoverStrategy::EdgeRecombination,
            CrossoverStrategy::PartiallyMapped,
            CrossoverStrategy::Order,
            CrossoverStrategy::Cycle,
        ]);
        let mu = c.pick(&MUTATIONS[..4]);
        let mut far = target.clone();
        if c.chance(0.5) {
            far.shuffle(&mut c.rng);
        } else {
            far.rotate_left(1);
            far.reverse();
        }
        let trap = (n > 2 && n < 6 && far != target && c.chance(0.5)).then(|| far.clone());
        let first = c.chance(0.5).then(|| Perm { genes: far, fit: 0.0 });
        let trapped = trap.is_some();
        if trapped {
            c.count("landscapes with a trap", 1);
        }
        let m = PermModel { target: target.clone(), cx, mu, trap };
        let best = n as f64 + 1.0;
        let alone = first.is_some() && c.chance(0.6);
        solve(c, m, &n, first, alone, best, &format!("{n} genes, {cx:?}, {mu:?}, target {target:?}, trap {trapped}"), c_rates)
    });
    ctx.cases("bits", 200, 3000, 8, |c| {
        let n = if c.chance(0.1) { c.rng.gen_range(100..200usize) } else { c.rng.gen_range(1..60usize) };
        solve(c, OneMaxEvolutionModel, &n, None, false, 1.0, &format!("{n} bits"), c_rates)
    });
    ctx.require("optima found", 400);
}

/// Crossover rate, mutation rate, elitism, size.
fn c_rates(c: &mut Case) -> (f64, f64, f64, usize) {
    let size = c.pick(&[50usize, 64, 100]);
    (c.pick(&[0.0, 0.5, 0.8, 1.0]), c.pick(&[0.3, 0.5, 0.9]), c.pick(&[0.04, 0.1, 0.3]), size)
}

fn solve<M: EvolutionModel>(c: &mut Case, m: M, arg: &usize, first: Option<M::Individual>, alone: bool, best: f64, what: &str, rates: fn(&mut Case) -> (f64, f64, f64, usize)) -> R
where
    M::Individual: RandomIndividual<usize>,
{
    let (cross, mutate, elitism, size) = rates(c);
    let st = match c.below(6) {
        0 => SelectionStrategy::Tournament(c.pick(&[1usize, 2, 3])),
        1 => SelectionStrategy::RouletteWheel,
        2 => SelectionStrategy::Rank,
        3 => SelectionStrategy::Linear(c.pick(&[1.1, 1.5, 2.0])),
        4 => SelectionStrategy::Elitist(c.pick(&[0.0, 0.3, 0.5])),
        // as warm as the best is fit, so that nobody is chosen all the time
        _ => SelectionStrategy::Boltzmann(best * c.pick(&[1.0, 2.0]), 1.0),
    };
    let adaptive = c.chance(0.5);
    let k = c.below(4);
    let what = format!("{what}, {st:?}, crossover {cross}, mutation {mutate}, elitism {elitism}, {size} members, adaptive {adaptive}, alone {alone}");
    let (mut at, mut start) = (usize::MAX, false);
    let progress = |p: &Population<M::Individual>| {
        let found = p.iter().any(|i| i.fitness() == best);
        if found {
            at = at.min(p.generation());
            start |= p.generation() == 0;
        }
        !found && p.generation() < ENOUGH
    };
    fn go<A: EvolutionAlgorithm<M> + From<M>, M: EvolutionModel>(m: M, prm: &A::Parameters, arg: &usize, first: Option<M::Individual>, alone: bool, progress: impl FnMut(&Population<M::Individual>) -> bool) -> f64
    where
        M::Individual: RandomIndividual<usize>,
    {
        let e = A::build_evolution(m);
        match first {
            // as the only member to start with
            Some(i) if alone => e.evolve_population(vec![i], prm, progress).take_fittest(),
            Some(i) => e.evolve_individual(i, prm, progress),
            None => e.run(arg, prm, progress),
        }
        .fitness()
    }
    struct Unsend<T>(T);
    unsafe impl<T> Send for Unsend<T> {}
    let job = Unsend((m, first, progress));
    let got = must(
        || what.clone(),
        || {
            pool(k).install(move || {
                let job = job;
                let (m, first, progress) = job.0;
                if adaptive {
                    let prm = AdaptiveGeneticAlgorithmParameters {
                        population_size: size,
                        elitism_rate: elitism,
                        crossover_rate_range: 0.0..cross,
                        mutation_rate_range: mutate..1.0,
                        selection_strategy: st,
                        parameter_adjustment_interval: 1,
                    };
                    go::<AdaptiveGeneticAlgorithm<M>, M>(m, &prm, arg, first, alone, progress)
                } else {
                    let prm = GeneticAlgorithmParameters { population_size: size, elitism_rate: elitism, crossover_rate: cross, mutation_rate: mutate, selection_strategy: st };
                    go::<GeneticAlgorithm<M>, M>(m, &prm, arg, first, alone, progress)
                }
            })
        },
    )?;
    ensure!(at != usize::MAX, "no optimum within {ENOUGH} generations: {what}");
    ensure!(got == best, "the optimum {best} was met, the result has fitness {got}: {what}");
    c.count("optima found", 1);
    c.count("generations", at as u64);
    let class = match at {
        0 => "found at once",
        1..=9 => "found in less than 10",
        10..=99 => "found in less than 100",
        100..=999 => "found in less than 1000",
        1000..=9999 => "found in less than 10000",
        _ => "found later",
    };
    c.count(class, 1);
    if !start {
        c.sig(what);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C41

#[derive(Default, Debug)]
struct Cost {
    clones: AtomicU64,
    fits: AtomicU64,
    eqs: AtomicU64,
    live: AtomicI64,
    peak: AtomicI64,
    crossed: AtomicU64,
    survived: AtomicU64,
    bred: AtomicU64,
    keys: AtomicU64,
}
impl Cost {
    fn born(&self) {
        let n = self.live.fetch_add(1, SeqCst) + 1;
        self.peak.fetch_max(n, SeqCst);
    }
}
#[derive(Debug)]
struct Dear {
    key: u64,
    fit: f64,
    cost: Arc<Cost>,
}
impl Dear {
    fn new(cost: &Arc<Cost>, fit: f64) -> Dear {
        cost.born();
        Dear { key: cost.keys.fetch_add(1, SeqCst), fit, cost: cost.clone() }
    }
}
impl Clone for Dear {
    fn clone(&self) -> Dear {
        self.cost.clones.fetch_add(1, SeqCst);
        self.cost.born();
        Dear { key: self.key, fit: self.fit, cost: self.cost.clone() }
    }
}
impl Drop for Dear {
    fn drop(&mut self) {
        self.cost.live.fetch_sub(1, SeqCst);
    }
}
impl PartialEq for Dear {
    fn eq(&self, o: &Dear) -> bool {
        self.cost.eqs.fetch_add(1, SeqCst);
        self.key == o.key
    }
}
impl Individual for Dear {
    fn fitness(&self) -> f64 {
        self.cost.fits.fetch_add(1, SeqCst);
        self.fit
    }
}
struct DearModel {
    cost: Arc<Cost>,
    seed: u64,
    /// Share of offspring that survive, in 1/256.
    survive: u64,
    base: f64,
}
impl EvolutionModel for DearModel {
    type Individual = Dear;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        static N: AtomicU64 = AtomicU64::new(0);
        SmallRng::seed_from_u64(mix(N.fetch_add(1, SeqCst), 78))
    }
    fn crossover(&self, _: &Dear, _: &Dear, _: &mut SmallRng) -> Dear {
        self.cost.crossed.fetch_add(1, SeqCst);
        Dear::new(&self.cost, 0.0)
    }
    fn mutate(&self, i: &mut Dear, _: &mut SmallRng) {
        i.key = self.cost.keys.fetch_add(1, SeqCst);
    }
    fn evaluate(&self, i: &mut Dear) {
        // positive and all different
        i.fit = self.base + (mix(i.key, self.seed) >> 30) as f64 + i.key as f64 / (1u64 << 19) as f64;
    }
    fn can_survive(&self, o: &Dear, _: &Dear, _: &Population<Dear>, _: &mut SmallRng) -> bool {
        self.cost.bred.fetch_add(1, SeqCst);
        let yes = mix(o.key, 3) % 256 < self.survive;
        self.cost.survived.fetch_add(yes as u64, SeqCst);
        yes
    }
}

fn log2(n: f64) -> f64 {
    n.max(2.0).log2()
}

pub fn c41(ctx: &Ctx) {
    ctx.rule("A case counts gene operations (comparisons, hashes) of one crossover on 100..600 genes, or clones, comparisons, fitness queries and live individuals of selections, populations and each generation of a run, and holds them against bounds many times above what is needed. Non-trivial: by distinct setup.");
    ctx.cases("crossovers", 400, 4000, 8, |c| if c.idx % 2 == 0 { gene_cost::<Tok<0>>(c) } else { gene_cost::<Tok<2>>(c) });
    ctx.cases("populations", 600, 8000, 8, population_cost);
    ctx.cases("generations", 300, 4000, 4, generation_cost);
    ctx.require("generations counted", 2000);
    ctx.require("crossovers counted", 2000);
}

fn gene_cost<G: Gene>(c: &mut Case) -> R
where
    G: From<Counted>,
{
    let n = c.pick(&[100usize, 150, 250, 400, 600]);
    let mut i1: Vec<usize> = (0..n).collect();
    i1.shuffle(&mut c.rng);
    let i2 = relate(c, &i1);
    let a: Vec<G> = i1.iter().map(|i| G::from(Counted(*i as u32))).collect();
    let b: Vec<G> = i2.iter().map(|i| G::from(Counted(*i as u32))).collect();
    let pivot = a[c.below(n)];
    let r = {
        let s = c.rng.gen_range(0..=n);
        s..c.rng.gen_range(s..=n)
    };
    let key: u64 = c.rng.gen();
    for (name, factor, which) in [("SPX", 1, 0), ("PMX", 12, 1), ("OX", 12, 2), ("CX", 12, 3), ("SCX", 30, 4), ("ERX", 30, 5), ("GPX2", 30, 6)] {
        spent();
        let o = must(
            || format!("{name} of {n} genes"),
            || {
                with_fuel(u64::MAX - 1, || match which {
                    0 => single_point_crossover(&a, &b, r.start),
                    1 => partially_mapped_crossover(&a, &b, r.clone()),
                    2 => order_crossover(&a, &b, r.clone()),
                    3 => cycle_crossover(&a, &b),
                    4 => sequential_constructive_crossover(&a, &b, pivot),
                    5 => edge_recombination_crossover(&a, &b, pivot),
                    _ => {
                        let mut s = blind(key);
                        generalized_partition_2_crossover(&a, &b, |_, l| s(l.len()))
                    }
                })
            },
        )?;
        drop(o);
        let used = spent();
        let per = used as f64 / (n * n) as f64;
        ensure!(used <= factor * (n * n) as u64, "{name} of {n} genes compares and hashes genes {used} times, {per:.0} times the square of the length; range {r:?}, parent1={} parent2={}", cutv(&i1), cutv(&i2));
        c.count("crossovers counted", 1);
        most(name, per);
    }
    c.evals(7);
    c.sig((n, &i1, &i2));
    Ok(())
}
static MOST: std::sync::LazyLock<std::sync::Mutex<HashMap<&'static str, f64>>> = std::sync::LazyLock::new(Default::default);

pub struct Counted(pub u32);
impl<const M: u8> From<Counted> for Tok<M> {
    fn from(c: Counted) -> Self {
        Tok(c.0)
    }
}
fn most(name: &'static str, x: f64) {
    MOST.lock().unwrap().entry(name).and_modify(|m| *m = x.max(*m)).or_insert(x);
}

fn population_cost(c: &mut Case) -> R {
    let n = c.pick(&[10usize, 50, 200, 1000, 3000, 10_000]);
    let cost = Arc::new(Cost::default());
    let mut list: Vec<Dear> = (0..n).map(|i| Dear::new(&cost, 1.0 + i as f64)).collect();
    list.shuffle(&mut c.rng);
    let st = strategy(c, n);
    let k = c.below(4);
    let what = format!("{n} members of different fitness");
    let take = || (cost.clones.swap(0, SeqCst), cost.fits.swap(0, SeqCst), cost.eqs.swap(0, SeqCst));
    let (m, sort) = (n as f64, n as f64 * (log2(n as f64) + 4.0));
    let p = must(|| what.clone(), || pool(k).install(|| Population::new(list)))?;
    let (cl, f, e) = take();
    ensure!(cl == 0, "building a population of {what} clones {cl} of them");
    most("population: fitness queries per n log n", f as f64 / sort);
    most("population: comparisons per member", e as f64 / m);
    ensure!(f as f64 <= 40.0 * sort && e as f64 <= 40.0 * m, "building a population of {what} asks {f} times for fitness and compares {e} times");
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    let s = must(
        || format!("{st:?} of {what}"),
        || {
            let mut s = st.create_selector::<Dear, SmallRng>();
            s.prepare(&p);
            s
        },
    )?;
    let (cl, f, e) = take();
    ensure!(cl == 0 && f as f64 <= 10.0 * sort && e as f64 <= 10.0 * m, "preparing {st:?} for {what} clones {cl} times, asks {f} times for fitness and compares {e} times");
    for _ in 0..20 {
        must(|| format!("{st:?} of {what}"), || s.select(&p, &mut rng).0)?;
        let (cl, f, e) = take();
        most("selection: fitness queries per member", f as f64 / m);
        ensure!(cl == 0 && f as f64 <= 6.0 * m + 20.0 && e == 0, "one selection by {st:?} of {what} clones {cl} times, asks {f} times for fitness and compares {e} times");
    }
    must(|| "taking".into(), || p.fittest().key)?;
    let (cl, f, _) = take();
    ensure!(cl == 0 && f as f64 <= 2.0 * m, "asking for the fittest of {what} clones {cl} times and asks {f} times for fitness");
    must(|| "taking".into(), || drop(p.take_fittest()))?;
    let (cl, f, _) = take();
    ensure!(cl == 0 && f as f64 <= 2.0 * m, "taking the fittest of {what} clones {cl} times and asks {f} times for fitness");
    ensure!(cost.live.load(SeqCst) == 0, "{} individuals are left over", cost.live.load(SeqCst));
    c.evals(24);
    c.sig((n, format!("{st:?}"), k, c.idx));
    Ok(())
}

fn generation_cost(c: &mut Case) -> R {
    let n = c.pick(&[20usize, 60, 200, 500]);
    let st = strategy(c, n);
    let wheel = matches!(st, SelectionStrategy::RouletteWheel | SelectionStrategy::Boltzmann(..));
    let (cross, mutate) = (c.pick(&[0.0, 0.7, 1.0]), c.pick(&[0.5, 1.0]));
    let elitism = c.pick(&[0.0, 0.1, 0.5, 0.9, 0.99]);
    let elites = (elitism * n as f64).floor() as u64;
    let survive = c.pick(&[256u64, 256, 128, 0]);
    let adaptive = c.chance(0.5);
    let best = c.chance(0.5);
    let k = c.below(4);
    let threads = [1, 2, 3, 8][k];
    let given = if c.chance(0.3) { c.pick(&[1usize, n / 2, 2 * n]) } else { n };
    let what = format!("{n} members of {given}, {st:?}, crossover {cross}, mutation {mutate}, elitism {elitism}, survival {survive}/256, adaptive {adaptive}, {threads} threads, result {best}");
    let cost = Arc::new(Cost::default());
    let model = DearModel { cost: cost.clone(), seed: c.rng.gen(), survive, base: 1.0 };
    let list: Vec<Dear> = (0..given).map(|_| Dear::new(&cost, 0.0)).collect();
    let mut bad: Option<String> = None;
    let (mut prev, mut before) = (0usize, 0usize);
    let mut seen = 0u64;
    let long = c.pick(&[12usize, 12, 12, 40, 120]);
    let progress = |p: &Population<Dear>| {
        let g = p.generation();
        let len = p.len();
        let (cl, f, e) = (cost.clones.swap(0, SeqCst), cost.fits.swap(0, SeqCst), cost.eqs.swap(0, SeqCst));
        let (x, s, b) = (cost.crossed.swap(0, SeqCst), cost.survived.swap(0, SeqCst), cost.bred.swap(0, SeqCst));
        let peak = cost.peak.swap(cost.live.load(SeqCst), SeqCst) as usize;
        if g > 0 {
            seen += 1;
            let kept = elites.min(prev as u64);
            let m = (prev + n) as f64;
            // one clone more per breeding than any breeding needs
            let clones = kept + (b - x.min(b)) + (b - s) + b + 4;
            let fits = 40.0 * m * (log2(m) + 4.0) + 40.0 * b as f64 + if wheel { 20.0 * b as f64 * prev as f64 } else { 0.0 };
            let eqs = 40.0 * m;
            // the population before the last may still be there
            let live = prev + before.max(n) + n / 4 + 4 * threads + 8;
            most("generation: clones of allowed", cl as f64 / clones as f64);
            most("generation: fitness queries of allowed", f as f64 / fits);
            most("generation: comparisons of allowed", e as f64 / eqs);
            most("generation: live of allowed", peak as f64 / live as f64);
            if cl > clones {
                bad.get_or_insert(format!("generation {g}: {cl} clones, where {kept} elites are kept and {b} bred, {x} by recombination, {s} surviving"));
            }
            // copies of a parent that stay in several places make ties
            if f as f64 > fits {
                bad.get_or_insert(format!("generation {g}: {f} fitness queries for {prev} members and {b} bred"));
            }
            if s == b && e as f64 > eqs {
                bad.get_or_insert(format!("generation {g}: {e} comparisons of individuals for {prev} members and {b} bred"));
            }
            if peak > live {
                bad.get_or_insert(format!("generation {g}: {peak} individuals alive at once for {prev} members and {b} bred"));
            }
        }
        (before, prev) = (prev, len);
        g < long
    };
    struct Unsend<T>(T);
    unsafe impl<T> Send for Unsend<T> {}
    let job = Unsend((model, list, progress));
    must(
        || what.clone(),
        || {
            pool(k).install(move || {
                let job = job;
                let (model, list, progress) = job.0;
                if adaptive {
                    let prm = AdaptiveGeneticAlgorithmParameters {
                        population_size: n,
                        elitism_rate: elitism,
                        crossover_rate_range: cross..cross,
                        mutation_rate_range: mutate..mutate,
                        selection_strategy: st,
                        ..Default::default()
                    };
                    drop(AdaptiveGeneticAlgorithm::build_evolution(model).evolve_population(list, &prm, progress));
                } else {
                    let prm = GeneticAlgorithmParameters { population_size: n, elitism_rate: elitism, crossover_rate: cross, mutation_rate: mutate, selection_strategy: st };
                    let e = GeneticAlgorithm::build_evolution(model);
                    if best && list.len() == 1 {
                        drop(e.evolve_individual(list.into_iter().next().unwrap(), &prm, progress));
                    } else {
                        drop(e.evolve_population(list, &prm, progress));
                    }
                }
            })
        },
    )?;
    if let Some(b) = bad {
        fail!("{b}; {what}");
    }
    ensure!(cost.live.load(SeqCst) == 0, "{} individuals are left over; {what}", cost.live.load(SeqCst));
    c.count("generations counted", seen);
    c.evals(seen);
    c.sig((what, c.idx));
    Ok(())
}

/// What came closest to its bound (for calibration, `VH_MOST=1`).
pub fn show_most() {
    if std::env::var_os("VH_MOST").is_some() {
        let m = MOST.lock().unwrap();
        let mut v: Vec<_> = m.iter().collect();
        v.sort_by(|a, b| a.0.cmp(b.0));
        for (k, x) in v {
            eprintln!("{k}: {x:.3}");
        }
    }
}
