//! More than 65536 of everything: genes, individuals, offspring. Few cases of each.

use crate::ops::{edges, ref_cx, ref_ox, ref_pmx, ref_scx, ref_spx};
use crate::rt::*;
use crate::{ensure, fail};
use rand::prelude::*;
use rusty_genes::one_max::*;
use rusty_genes::*;
use std::collections::{HashMap, HashSet};
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

fn size(c: &mut Case) -> usize {
    c.pick(&[65_537usize, 65_540, 66_000, 70_000])
}
/// Two permutations; `near` ones share most adjacencies, or differ at their ends only.
fn pair(c: &mut Case, n: usize, near: bool) -> (Vec<usize>, Vec<usize>) {
    let mut a: Vec<usize> = (0..n).collect();
    a.shuffle(&mut c.rng);
    let mut b = a.clone();
    if near && c.rng.gen() {
        let mut i = c.pick(&[n - 12, 65_530, 65_536, n - 200]);
        while i + 1 < n {
            let l = c.rng.gen_range(1..6).min(n - i);
            b[i..i + l].rotate_left(1);
            i += l;
        }
    } else if near {
        for _ in 0..60 {
            let (i, l) = (c.rng.gen_range(0..n - 400), c.rng.gen_range(2..400));
            b[i..i + l].reverse();
        }
        b.rotate_left(c.rng.gen_range(0..n));
    } else {
        b.shuffle(&mut c.rng);
    }
    (a, b)
}
fn is_perm(o: &[usize], n: usize) -> bool {
    let mut seen = vec![false; n];
    o.len() == n && o.iter().all(|g| *g < n && !std::mem::replace(&mut seen[*g], true))
}
fn first_difference(a: &[usize], b: &[usize]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("position {i}: {} instead of {}", a[i], b[i]),
        None => format!("{} genes instead of {}", a.len(), b.len()),
    }
}
fn ranges(c: &mut Case, n: usize) -> Range<usize> {
    match c.below(4) {
        0 => n - 5..n,
        1 => 3..n - 3,
        2 => n / 2..n / 2 + 10,
        _ => {
            let s = c.rng.gen_range(0..n);
            s..c.rng.gen_range(s..=n)
        }
    }
}

pub fn genes(ctx: &Ctx) {
    let only = ctx.prop.clone();
    ctx.rule("Besides, a few cases of 65537 to 70000 genes (ERX left out, it takes minutes there).");
    ctx.cases("giant", if only == "C03" { 24 } else { 6 }, if only == "C03" { 48 } else { 16 }, 8, |c| {
        let n = size(c);
        let which = c.idx % 6;
        let near = if only == "C03" { c.idx % 8 >= 4 } else { which >= 4 || c.chance(0.3) };
        let (a, b) = pair(c, n, near);
        let r = ranges(c, n);
        let point = c.pick(&[n - 1, n / 2, 65_536, n, 1]);
        let pivot = c.rng.gen_range(0..n);
        let mut rng = SmallRng::seed_from_u64(c.rng.gen());
        let what = format!("{n} genes, {}parents, range {r:?}, point {point}", if near { "similar " } else { "" });
        if only == "C01" {
            let s = [
                CrossoverStrategy::PartiallyMapped,
                CrossoverStrategy::Order,
                CrossoverStrategy::Cycle,
                CrossoverStrategy::SinglePoint,
                CrossoverStrategy::SequentialConstructive,
                CrossoverStrategy::GeneralizedPartition2,
            ][which as usize];
            let o = must(|| format!("{s:?} of {what}"), || s.crossover(&a, &b, &mut rng))?;
            ensure!(o.len() == n && (s == CrossoverStrategy::SinglePoint || is_perm(&o, n)), "{s:?} of {what}: not a permutation of the genes");
            let o = match which {
                0 => must(|| what.clone(), || partially_mapped_crossover(&a, &b, r.clone()))?,
                1 => must(|| what.clone(), || order_crossover(&a, &b, r.clone()))?,
                _ => must(|| what.clone(), || cycle_crossover(&a, &b))?,
            };
            ensure!(is_perm(&o, n), "{s:?} (or CX) function of {what}: not a permutation of the genes");
        }
        if only == "C03" {
            let (name, o, w) = match c.idx % 4 {
                0 => ("PMX", must(|| what.clone(), || partially_mapped_crossover(&a, &b, r.clone()))?, ref_pmx(&a, &b, &r)),
                1 => ("OX", must(|| what.clone(), || order_crossover(&a, &b, r.clone()))?, ref_ox(&a, &b, &r)),
                2 => ("CX", must(|| what.clone(), || cycle_crossover(&a, &b))?, ref_cx(&a, &b).0),
                _ => ("SPX", must(|| what.clone(), || single_point_crossover(&a, &b, point))?, ref_spx(&a, &b, point)),
            };
            ensure!(o == w, "{name} of {what}: {}", first_difference(&o, &w));
        }
        if only == "C04" {
            let o = must(|| what.clone(), || sequential_constructive_crossover(&a, &b, pivot))?;
            let w = ref_scx(&a, &b, pivot);
            ensure!(o == w, "SCX of {what}: {}", first_difference(&o, &w));
        }
        if only == "C05" {
            let (e1, e2) = (edges(&a), edges(&b));
            let shared: HashSet<(usize, usize)> = e1.intersection(&e2).copied().collect();
            let got = must(|| what.clone(), || common_neighbors(&a, &b))?;
            let set: HashSet<(usize, usize)> = got.iter().map(|(x, y)| (*x.min(y), *x.max(y))).collect();
            ensure!(set.len() == got.len() && set == shared, "common_neighbors of {what}: {} pairs, {} different ones, {} expected", got.len(), set.len(), shared.len());
            let chains = must(|| what.clone(), || common_partitions(&a, &b))?;
            let mut links: HashMap<usize, Vec<usize>> = HashMap::new();
            for (x, y) in &shared {
                links.entry(*x).or_default().push(*y);
                links.entry(*y).or_default().push(*x);
            }
            let mut used = vec![false; n];
            for x in &chains {
                ensure!(!x.is_empty(), "common_partitions of {what}: an empty chain");
                for g in x {
                    ensure!(*g < n && !std::mem::replace(&mut used[*g], true), "common_partitions of {what}: gene {g} twice");
                }
                ensure!(x.windows(2).all(|w| shared.contains(&(w[0].min(w[1]), w[0].max(w[1])))), "common_partitions of {what}: a chain of genes that are no neighbours");
                let last = x[x.len() - 1];
                ensure!(links.get(&last).map_or(true, |l| l.iter().all(|g| used[*g])), "common_partitions of {what}: a chain ends early at {last}");
            }
            ensure!(used.iter().all(|u| *u), "common_partitions of {what}: genes missing");
            if near {
                let o = must(|| what.clone(), || CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut rng))?;
                let first: HashMap<usize, &Vec<usize>> = chains.iter().map(|x| (x[0], x)).collect();
                let mut i = 0;
                while i < o.len() {
                    match first.get(&o[i]) {
                        Some(x) if o[i..].starts_with(x) => i += x.len(),
                        _ => fail!("GPX2 of {what}: not a sequence of the shared chains at position {i}"),
                    }
                }
                ensure!(is_perm(&o, n), "GPX2 of {what}: not a permutation");
            }
        }
        c.count("giant genomes", 1);
        c.sig((n, near, which));
        Ok(())
    });
}

/// An individual of which millions can be had.
#[derive(Clone, Debug)]
pub struct GInd {
    key: u64,
    fit: f64,
    /// What the fitness was computed from.
    of: u64,
}
impl PartialEq for GInd {
    fn eq(&self, o: &GInd) -> bool {
        self.key == o.key
    }
}
impl Individual for GInd {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
#[derive(Default)]
pub struct GSt {
    made: AtomicU64,
    mutated: AtomicU64,
    evaluated: AtomicU64,
    bred: AtomicU64,
    keys: AtomicU64,
    pre: AtomicU64,
    seed: u64,
}
impl GSt {
    fn value(&self, key: u64) -> f64 {
        // no two alike, so that elites are certain
        (mix(key, self.seed) >> 30) as f64 + key as f64 / (1u64 << 19) as f64
    }
}
pub struct GModel {
    s: Arc<GSt>,
}
impl EvolutionModel for GModel {
    type Individual = GInd;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        SmallRng::seed_from_u64(5)
    }
    fn crossover(&self, a: &GInd, _: &GInd, _: &mut SmallRng) -> GInd {
        a.clone()
    }
    fn mutate(&self, i: &mut GInd, _: &mut SmallRng) {
        self.s.mutated.fetch_add(1, SeqCst);
        i.key = self.s.keys.fetch_add(1, SeqCst);
    }
    fn evaluate(&self, i: &mut GInd) {
        self.s.evaluated.fetch_add(1, SeqCst);
        i.fit = self.s.value(i.key);
        i.of = i.key;
    }
    fn pre_generation(&mut self, _: &Population<GInd>, _: &mut ReproductionParameters<Self>) {
        self.s.pre.fetch_add(1, SeqCst);
    }
    fn can_survive(&self, _: &GInd, _: &GInd, _: &Population<GInd>, _: &mut SmallRng) -> bool {
        self.s.bred.fetch_add(1, SeqCst);
        true
    }
}
impl RandomIndividual<Arc<GSt>> for GInd {
    fn new_random<R: Rng>(s: &Arc<GSt>, _: &mut R) -> GInd {
        s.made.fetch_add(1, SeqCst);
        GInd { key: s.keys.fetch_add(1, SeqCst), fit: 0.0, of: u64::MAX }
    }
}

/// Evolutions of more than 65536 individuals, for C14, C15, C16 and C26.
pub fn evolutions(ctx: &Ctx) {
    let only = ctx.prop.clone();
    ctx.rule("Besides, evolutions of 65537 to 70000 individuals.");
    ctx.cases("giant", 6, 18, 3, |c| {
        let n = size(c);
        let start = c.idx % 3;
        let adaptive = c.idx % 2 == 1;
        let elitism = c.pick(&[0.0, 0.3, 0.96, 0.99999]);
        let elites = (elitism * n as f64).floor() as usize;
        let what = format!("{n} individuals, elitism {elitism}, adaptive {adaptive}, start {start}");
        let s = Arc::new(GSt { seed: c.rng.gen(), ..Default::default() });
        let mut bad: Option<String> = None;
        let mut last: Vec<(u64, f64)> = vec![];
        let given = || GInd { key: s.keys.fetch_add(1, SeqCst), fit: 0.0, of: u64::MAX };
        let model = GModel { s: s.clone() };
        let first = if start == 1 { Some(given()) } else { None };
        let list: Vec<GInd> = if start == 2 { (0..n).map(|_| given()).collect() } else { vec![] };
        let given_key = first.as_ref().map(|i: &GInd| i.key);
        let progress = |p: &Population<GInd>| {
            let g = p.generation();
            let (evals, bred) = (s.evaluated.swap(0, SeqCst), s.bred.swap(0, SeqCst));
            let mut say = |prop: &str, m: String| {
                if prop == only {
                    bad.get_or_insert(format!("generation {g}: {m}"));
                }
            };
            if g == 0 {
                let (made, mutated) = (s.made.load(SeqCst), s.mutated.swap(0, SeqCst));
                let ok = match start {
                    0 => made == n as u64 && mutated == 0,
                    1 => made == 0 && mutated == n as u64 - 1,
                    _ => made == 0 && mutated == 0,
                };
                if !ok || p.len() != n {
                    say("C26", format!("{made} individuals created, {mutated} mutated, {} members instead of {n}", p.len()));
                }
                if evals != n as u64 {
                    say("C16", format!("{evals} evaluations of {n} initial individuals"));
                }
                if let Some(k) = given_key {
                    if !p.iter().any(|i| i.key == k) {
                        say("C26", "the given individual is missing".into());
                    }
                }
            } else {
                let want = (n - elites) as u64;
                if bred != want {
                    say("C15", format!("{bred} individuals bred instead of {want}"));
                }
                if p.len() != n {
                    say("C15", format!("{} members instead of {n}", p.len()));
                }
                let keep: HashMap<u64, f64> = p.iter().map(|i| (i.key, i.fit)).collect();
                for (k, f) in &last[last.len() - elites..] {
                    if keep.get(k) != Some(f) {
                        say("C14", format!("elite {k} of fitness {f} is missing"));
                        break;
                    }
                }
            }
            if let Some(i) = p.iter().find(|i| i.of != i.key || i.fit != s.value(i.key)) {
                say("C16", format!("individual {} was not evaluated", i.key));
            }
            if p.iter().zip(p.iter().skip(1)).any(|(x, y)| x.fit > y.fit) {
                say("C11", "members out of order".into());
            }
            last = p.iter().map(|i| (i.key, i.fit)).collect();
            g < 2
        };
        fn go<A: EvolutionAlgorithm<GModel> + From<GModel>>(model: GModel, prm: &A::Parameters, s: &Arc<GSt>, first: Option<GInd>, list: Vec<GInd>, progress: impl FnMut(&Population<GInd>) -> bool) {
            let e = A::build_evolution(model);
            match first {
                Some(i) => drop(e.evolve_individual(i, prm, progress)),
                None if list.is_empty() => drop(e.run(s, prm, progress)),
                None => drop(e.evolve_population(list, prm, progress)),
            }
        }
        let sel = SelectionStrategy::Tournament(2);
        must(
            || what.clone(),
            || {
                if adaptive {
                    let prm = AdaptiveGeneticAlgorithmParameters {
                        population_size: n,
                        elitism_rate: elitism,
                        selection_strategy: sel,
                        mutation_rate_range: 1.0..1.0,
                        ..Default::default()
                    };
                    go::<AdaptiveGeneticAlgorithm<GModel>>(model, &prm, &s, first, list, progress)
                } else {
                    let prm = GeneticAlgorithmParameters { population_size: n, elitism_rate: elitism, selection_strategy: sel, mutation_rate: 1.0, ..Default::default() };
                    go::<GeneticAlgorithm<GModel>>(model, &prm, &s, first, list, progress)
                }
            },
        )?;
        if let Some(b) = bad {
            fail!("{what}: {b}");
        }
        c.count("giant evolutions", 1);
        c.sig((n, start, adaptive, elites));
        Ok(())
    });
}

/// Replacements of more than 65536 individuals, for C12.
pub fn replacements(ctx: &Ctx) {
    ctx.rule("Besides, replacements of lists of 65537 to 70000 individuals.");
    ctx.cases("giant", 3, 9, 3, |c| {
        let n = size(c);
        let seed: u64 = c.rng.gen();
        let mut key = 0;
        let mut list = |n: usize| -> Vec<GInd> {
            (0..n)
                .map(|_| {
                    key += 1;
                    GInd { key, fit: mix(key, seed) as f64, of: 0 }
                })
                .collect()
        };
        let mut p = must(|| "a population".into(), || Population::new(list(n)))?;
        for g in 1..4 {
            let before: Vec<u64> = p.iter().map(|i| i.key).collect();
            let best = p.fittest().fit;
            let stag = p.stagnation();
            let size = if g == 2 { 3 } else { n + g };
            let mut next = list(size);
            must(|| "replacement".into(), || p.replace(&mut next))?;
            let after: Vec<u64> = next.iter().map(|i| i.key).collect();
            ensure!(after == before, "replacement {g} of {n} hands back {} individuals instead of {}, or others", after.len(), before.len());
            ensure!(p.len() == size, "replacement {g} by {size} individuals leaves {}", p.len());
            let want = if p.fittest().fit > best { 0 } else { stag + 1 };
            ensure!(p.generation() == g && p.stagnation() == want, "replacement {g} of {n}: generation {}, stagnation {} instead of {want}", p.generation(), p.stagnation());
        }
        c.sig(n);
        Ok(())
    });
}

/// OneMax individuals of more than 65536 bits, for C29.
pub fn bits(ctx: &Ctx) {
    ctx.rule("Besides, individuals of 65536 to 70000 bits.");
    ctx.cases("giant", 12, 60, 8, |c| {
        let n = if c.chance(0.2) { 65_536 } else { size(c) };
        let p = c.pick(&[0.0, 0.2, 0.5, 0.99, 1.0]);
        let g: Vec<bool> = (0..n).map(|_| c.rng.gen::<f64>() < p).collect();
        let h: Vec<bool> = g.iter().map(|b| !b).collect();
        let m = OneMaxEvolutionModel;
        let mut rng = SmallRng::seed_from_u64(c.rng.gen());
        let mut i = OneMax::from(g.clone());
        must(|| format!("{n} bits"), || m.evaluate(&mut i))?;
        let want = g.iter().filter(|b| **b).count() as f64 / n as f64;
        ensure!(i.fitness() == want, "{n} bits have fitness {} instead of {want}", i.fitness());
        let o = must(|| format!("{n} bits"), || m.crossover(&OneMax::from(g.clone()), &OneMax::from(h.clone()), &mut rng))?;
        let cut = o.genome().iter().zip(&g).take_while(|(x, y)| x == y).count();
        ensure!(o.genome().len() == n && o.genome()[cut..] == h[cut..], "recombination of {n} bits is not a prefix and a suffix");
        let mut j = i.clone();
        must(|| format!("{n} bits"), || m.mutate(&mut j, &mut rng))?;
        let diff = j.genome().iter().zip(&g).filter(|(x, y)| x != y).count();
        ensure!(j.genome().len() == n && diff <= 1, "mutation of {n} bits changes {diff}");
        let r = must(|| format!("{n} bits"), || OneMax::new_random(&n, &mut rng))?;
        let ones = r.genome().iter().filter(|b| **b).count() as f64;
        ensure!(r.genome().len() == n, "a random individual of {n} bits has {}", r.genome().len());
        ensure!((ones - n as f64 / 2.0).abs() < 8.0 * (n as f64).sqrt() / 2.0, "a random individual of {n} bits has {ones} ones");
        let late = r.genome()[65_000..].iter().filter(|b| **b).count();
        ensure!(late > 0 && late < n - 65_000, "a random individual of {n} bits is constant from bit 65000 on");
        c.sig((n, p.to_bits()));
        Ok(())
    });
}

/// Parents whose lengths differ by powers of two, for C02.
pub fn lengths(ctx: &Ctx) {
    ctx.rule("Besides, lengths that differ by 256, 65536 and the like.");
    ctx.cases("giant", 60, 200, 8, |c| {
        let n = c.pick(&[0usize, 1, 2, 3, 7, 64, 200]);
        let d = c.pick(&[8usize, 32, 64, 128, 256, 512, 1024, 65_536, 131_072]);
        let (mut a, mut b): (Vec<usize>, Vec<usize>) = ((0..n).collect(), (0..n + d).collect());
        b.rotate_left(c.rng.gen_range(0..n + d));
        if c.rng.gen() {
            std::mem::swap(&mut a, &mut b);
        }
        let r: Range<usize> = if n > 1 { 1..n } else { 0..0 };
        let which = c.idx % 12;
        // a call that never ends would be a violation too, but a slow refusal is none
        let got: Mutex<Option<usize>> = Mutex::new(None);
        let rng = Mutex::new(SmallRng::seed_from_u64(c.rng.gen()));
        let pivot = a.first().or(b.first()).copied().unwrap_or(0);
        let res = lib(|| {
            let mut rng = rng.lock().unwrap();
            let o = match which {
                0 => CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut *rng),
                1 => CrossoverStrategy::SequentialConstructive.crossover(&a, &b, &mut *rng),
                2 => CrossoverStrategy::EdgeRecombination.crossover(&a, &b, &mut *rng),
                3 => CrossoverStrategy::PartiallyMapped.crossover(&a, &b, &mut *rng),
                4 => CrossoverStrategy::Order.crossover(&a, &b, &mut *rng),
                5 => CrossoverStrategy::Cycle.crossover(&a, &b, &mut *rng),
                6 => CrossoverStrategy::SinglePoint.crossover(&a, &b, &mut *rng),
                7 => generalized_partition_2_crossover(&a, &b, |_, _| 0),
                8 => partially_mapped_crossover(&a, &b, r.clone()),
                9 => order_crossover(&a, &b, r.clone()),
                10 => cycle_crossover(&a, &b),
                _ => sequential_constructive_crossover(&a, &b, pivot),
            };
            *got.lock().unwrap() = Some(o.len());
        });
        if res.is_ok() {
            fail!("crossover {which} of {} and {} genes returns {:?} genes", a.len(), b.len(), got.lock().unwrap());
        }
        c.sig((n, d, which, a.len()));
        Ok(())
    });
}
