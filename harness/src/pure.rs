//! C36: operators, selection, populations and statistics used from many threads at once, and from within each other.

use crate::rt::*;
use crate::{ensure, fail};
use rand::prelude::*;
use rusty_genes::*;
use std::cell::{Cell, RefCell};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

thread_local! {
    static ENV: RefCell<Option<Arc<Env>>> = const { RefCell::new(None) };
    static DEPTH: Cell<u8> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static STATE: Cell<u64> = const { Cell::new(0) };
    /// Tasks that may still run inside the present call.
    static MORE: Cell<u64> = const { Cell::new(0) };
}

/// Called by everything the library calls back: now and then runs another task in between.
fn poke() {
    if MORE.with(|m| m.get()) == 0 {
        return;
    }
    let left = LEFT.with(|l| l.replace(l.get().saturating_sub(1)));
    if left > 1 {
        return;
    }
    let Some(env) = ENV.with(|e| e.try_borrow().ok().and_then(|e| e.clone())) else { return };
    let depth = DEPTH.with(|d| d.get());
    if depth >= 2 {
        return;
    }
    struct Back(u8);
    impl Drop for Back {
        fn drop(&mut self) {
            DEPTH.with(|d| d.set(self.0));
        }
    }
    let _b = Back(depth);
    MORE.with(|m| m.set(m.get() - 1));
    DEPTH.with(|d| d.set(depth + 1));
    let s = STATE.with(|s| s.replace(s.get().wrapping_add(1)));
    LEFT.with(|l| l.set(3 + mix(s, 11) % env.every));
    let k = (mix(s, 5) % env.tasks.len() as u64) as usize;
    env.inside[depth as usize].fetch_add(1, SeqCst);
    let got = env.exec(k);
    if got != env.expected[k] {
        let m = format!("{:?} inside another call gives {got:?}, alone {:?}", env.tasks[k], env.expected[k]);
        env.bad.lock().unwrap_or_else(|p| p.into_inner()).get_or_insert(m);
    }
}

/// A gene whose comparisons and hashes may run other tasks.
#[derive(Clone, Copy, Debug)]
struct Hk(u32);
impl PartialEq for Hk {
    fn eq(&self, o: &Hk) -> bool {
        poke();
        self.0 == o.0
    }
}
impl Eq for Hk {}
impl Hash for Hk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        poke();
        h.write_u32(self.0)
    }
}
impl PartialOrd for Hk {
    fn partial_cmp(&self, o: &Hk) -> Option<std::cmp::Ordering> {
        poke();
        Some(self.0.cmp(&o.0))
    }
}

#[derive(Clone, Debug)]
struct Hi {
    id: u32,
    fit: f64,
}
impl PartialEq for Hi {
    fn eq(&self, o: &Hi) -> bool {
        poke();
        self.id == o.id
    }
}
impl Individual for Hi {
    fn fitness(&self) -> f64 {
        poke();
        self.fit
    }
}

struct Hr(SmallRng);
impl RngCore for Hr {
    fn next_u32(&mut self) -> u32 {
        poke();
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        poke();
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        poke();
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        poke();
        self.0.try_fill_bytes(d)
    }
}

#[derive(Clone, Debug)]
enum Task {
    Cross { s: CrossoverStrategy, pair: usize, seed: u64 },
    Pmx { pair: usize, a: usize, b: usize },
    Ox { pair: usize, a: usize, b: usize },
    Scx { pair: usize, k: usize },
    Erx { pair: usize, k: usize },
    Cx { pair: usize },
    Gpx { pair: usize, last: bool },
    Neighbours { pair: usize },
    Mutate { s: MutationStrategy, pair: usize, seed: u64 },
    Select { sel: usize, seed: u64 },
    Distinct { sel: usize, excl: usize, seed: u64 },
    Prepare { pop: usize, seed: u64 },
    New { list: usize },
    Replace { a: usize, b: usize },
    Collect { list: usize },
    Record { list: usize },
    Helpers { n: usize, seed: u64 },
    Wrappers { list: usize },
}

struct Env {
    pairs: Vec<(Vec<Hk>, Vec<Hk>)>,
    lists: Vec<Vec<Hi>>,
    pops: Vec<Population<Hi>>,
    /// Prepared selectors, each with the population it was prepared for.
    sels: Vec<(usize, SelectionStrategy, Box<dyn SelectionMechanism<Hi, Hr> + Send>)>,
    tasks: Vec<Task>,
    expected: Vec<Vec<u64>>,
    every: u64,
    inside: [AtomicU64; 2],
    bad: Mutex<Option<String>>,
}

fn ids(v: &[Hk]) -> Vec<u64> {
    v.iter().map(|g| g.0 as u64).collect()
}
fn shown(p: &Population<Hi>) -> Vec<u64> {
    // which of equally fit members comes first is free
    let mut m: Vec<(u64, u64)> = p.iter().map(|i| (i.fit.to_bits(), i.id as u64)).collect();
    let mut r: Vec<u64> = m.iter().map(|x| x.0).collect();
    m.sort();
    r.extend(m.iter().map(|x| x.1));
    let s = p.stats();
    r.extend([s.count() as u64, s.min().to_bits(), s.max().to_bits(), s.avg().to_bits(), s.var().to_bits()]);
    r.extend([p.generation() as u64, p.stagnation() as u64, p.fittest().fit.to_bits()]);
    r
}
fn stats(s: &Stats) -> Vec<u64> {
    let f = |x: Option<f64>| x.map_or(7, f64::to_bits);
    let u = |x: Option<usize>| x.map_or(u64::MAX, |x| x as u64);
    vec![s.count() as u64, f(s.min()), u(s.arg_min()), f(s.max()), u(s.arg_max()), f(s.avg()), f(s.var()), f(s.std())]
}

impl Env {
    fn exec(&self, k: usize) -> Vec<u64> {
        let rng = |seed: u64| Hr(SmallRng::seed_from_u64(seed));
        match self.tasks[k] {
            Task::Cross { s, pair, seed } => {
                let (a, b) = &self.pairs[pair];
                let mut o = ids(&s.crossover(a, b, &mut rng(seed)));
                if s == CrossoverStrategy::EdgeRecombination {
                    o.sort(); // ties may go either way
                }
                o
            }
            Task::Pmx { pair, a, b } => ids(&partially_mapped_crossover(&self.pairs[pair].0, &self.pairs[pair].1, a..b)),
            Task::Ox { pair, a, b } => ids(&order_crossover(&self.pairs[pair].0, &self.pairs[pair].1, a..b)),
            Task::Scx { pair, k } => ids(&sequential_constructive_crossover(&self.pairs[pair].0, &self.pairs[pair].1, self.pairs[pair].0[k])),
            Task::Erx { pair, k } => {
                let mut o = ids(&edge_recombination_crossover(&self.pairs[pair].0, &self.pairs[pair].1, self.pairs[pair].0[k]));
                o.sort();
                o
            }
            Task::Cx { pair } => ids(&cycle_crossover(&self.pairs[pair].0, &self.pairs[pair].1)),
            Task::Gpx { pair, last } => {
                let mut sum = 0u64;
                let mut o = ids(&generalized_partition_2_crossover(&self.pairs[pair].0, &self.pairs[pair].1, |g, parts| {
                    poke();
                    sum = mix(sum, parts.len() as u64 ^ g.map_or(0, |g| g.0 as u64) << 8);
                    if last {
                        parts.len() - 1
                    } else {
                        0
                    }
                }));
                o.push(sum);
                o
            }
            Task::Neighbours { pair } => {
                let mut v: Vec<u64> = common_neighbors(&self.pairs[pair].0, &self.pairs[pair].1)
                    .iter()
                    .map(|(a, b)| (a.0.min(b.0) as u64) << 32 | a.0.max(b.0) as u64)
                    .collect();
                v.sort();
                v
            }
            Task::Mutate { s, pair, seed } => {
                let mut g = self.pairs[pair].0.clone();
                s.mutate(&mut g, &mut rng(seed));
                ids(&g)
            }
            Task::Select { sel, seed } => {
                let (p, _, s) = &self.sels[sel];
                let mut r = rng(seed);
                (0..3).flat_map(|_| { let (i, m) = s.select(&self.pops[*p], &mut r); [i as u64, m.id as u64] }).collect()
            }
            Task::Distinct { sel, excl, seed } => {
                let (p, _, s) = &self.sels[sel];
                let p = &self.pops[*p];
                match s.select_distinct(p, &mut rng(seed), 3, &p[excl % p.len()]) {
                    Some((i, m)) => vec![i as u64, m.id as u64],
                    None => vec![],
                }
            }
            Task::Prepare { pop, seed } => {
                let mut s = RouletteWheelSelection::new();
                let p = &self.pops[pop];
                SelectionMechanism::<Hi, Hr>::prepare(&mut s, p);
                let mut r = rng(seed);
                (0..3).map(|_| s.select(p, &mut r).0 as u64).collect()
            }
            Task::New { list } => shown(&Population::new(self.lists[list].clone())),
            Task::Replace { a, b } => {
                let mut p = Population::new(self.lists[a].clone());
                let mut l = self.lists[b].clone();
                p.replace(&mut l);
                let mut r = shown(&p);
                r.push(l.len() as u64);
                r
            }
            Task::Collect { list } => stats(&self.lists[list].iter().map(|i| i.fitness()).collect::<Stats>()),
            Task::Record { list } => {
                let mut s = Stats::default();
                self.lists[list].iter().for_each(|i| s.record(i.fitness()));
                stats(&s)
            }
            Task::Helpers { n, seed } => {
                let mut r = rng(seed);
                let (a, b) = random_pair(n, &mut r);
                let c = random_range(n, &mut r);
                let d = bounded_random_range(n, 1, n / 2 + 1, &mut r);
                [a, b, c.start, c.end, d.start, d.end].iter().map(|x| *x as u64).collect()
            }
            Task::Wrappers { list } => {
                let mut w: Vec<IndividualWrapper<Hi>> = self.lists[list].iter().cloned().map(IndividualWrapper::from).collect();
                w.sort();
                let best = w.iter().max().unwrap().fit.to_bits();
                let mut r: Vec<u64> = w.into_iter().map(|i| i.take().fit.to_bits()).collect();
                r.push(best);
                r
            }
        }
    }
}

fn env(c: &mut Case) -> Env {
    let pairs: Vec<(Vec<Hk>, Vec<Hk>)> = (0..6)
        .map(|i| {
            let n = [2, 5, 9, 14, 30, 1][i];
            let mut a: Vec<Hk> = (0..n as u32).map(|x| Hk(x.wrapping_mul(2_654_435_761))).collect();
            a.shuffle(&mut c.rng);
            let mut b = a.clone();
            match c.below(3) {
                0 => b.shuffle(&mut c.rng),
                1 => b.rotate_left(n / 2),
                _ => b[n / 3..].reverse(),
            }
            (a, b)
        })
        .collect();
    let lists: Vec<Vec<Hi>> = (0..5)
        .map(|i| {
            let n = [1, 2, 7, 25, 60][i];
            (0..n)
                .map(|_| {
                    let id = c.rng.gen_range(0..n as u32 * 2);
                    // equal individuals have equal fitness; ties between different ones
                    Hi { id, fit: (id / 2 + 1) as f64 }
                })
                .collect()
        })
        .collect();
    let pops: Vec<Population<Hi>> = lists.iter().map(|l| Population::new(l.clone())).collect();
    let mut sels: Vec<(usize, SelectionStrategy, Box<dyn SelectionMechanism<Hi, Hr> + Send>)> = vec![];
    for p in 0..pops.len() {
        fn prep<S: SelectionMechanism<Hi, Hr> + Send + 'static>(mut s: S, p: &Population<Hi>) -> Box<dyn SelectionMechanism<Hi, Hr> + Send> {
            s.prepare(p);
            Box::new(s)
        }
        let q = &pops[p];
        use SelectionStrategy::*;
        sels.push((p, Tournament(3), prep(TournamentSelection::new(3), q)));
        sels.push((p, RouletteWheel, prep(RouletteWheelSelection::new(), q)));
        sels.push((p, Boltzmann(4.0, 0.9), prep(BoltzmannSelection::new(4.0, 0.9), q)));
        sels.push((p, Rank, prep(RankSelection::new(), q)));
        sels.push((p, Linear(1.7), prep(LinearSelection::new(1.7), q)));
        sels.push((p, Elitist(0.4), prep(ElitistSelection::new(0.4), q)));
    }
    use CrossoverStrategy as X;
    use MutationStrategy as U;
    let xs = [X::GeneralizedPartition2, X::SequentialConstructive, X::EdgeRecombination, X::PartiallyMapped, X::Order, X::Cycle, X::SinglePoint];
    let us = [U::Swap, U::Scramble, U::Inversion, U::Insertion, U::Duplicate];
    let mut tasks = vec![];
    for _ in 0..70 {
        let pair = c.below(6);
        let n = pairs[pair].0.len();
        let (a, b) = (c.below(n + 1), c.below(n + 1));
        let (a, b) = (a.min(b), a.max(b));
        let k = c.below(n);
        let seed: u64 = c.rng.gen();
        let sel = c.below(sels.len());
        let list = c.below(5);
        tasks.push(match c.below(18) {
            0 | 1 => Task::Cross { s: c.pick(&xs), pair, seed },
            2 => Task::Pmx { pair, a, b },
            3 => Task::Ox { pair, a, b },
            4 => Task::Scx { pair, k },
            5 => Task::Erx { pair, k },
            6 => Task::Cx { pair },
            7 => Task::Gpx { pair, last: c.chance(0.5) },
            8 => Task::Neighbours { pair },
            9 => Task::Mutate { s: c.pick(&us), pair, seed },
            10 => Task::Select { sel, seed },
            11 => Task::Distinct { sel, excl: c.below(100), seed },
            12 => Task::Prepare { pop: list, seed },
            13 => Task::New { list },
            14 => Task::Replace { a: list, b: c.below(5) },
            15 => {
                if c.chance(0.5) {
                    Task::Collect { list }
                } else {
                    Task::Record { list }
                }
            }
            16 => Task::Helpers { n: 2 + c.below(20), seed },
            _ => Task::Wrappers { list },
        });
    }
    Env {
        pairs,
        lists,
        pops,
        sels,
        tasks,
        expected: vec![],
        every: c.pick(&[8, 40, 200]),
        inside: Default::default(),
        bad: Mutex::new(None),
    }
}

fn hooked(e: Option<&Arc<Env>>, seed: u64) {
    DEPTH.with(|d| d.set(0));
    STATE.with(|s| s.set(seed));
    LEFT.with(|l| l.set(1 + seed % 16));
    MORE.with(|m| m.set(if e.is_some() { 1 + seed % 12 } else { 0 }));
    ENV.with(|x| *x.borrow_mut() = e.cloned());
}

pub fn c36(ctx: &Ctx) {
    ctx.rule("A case is 70 calls (crossovers, mutations, helpers, selections on shared prepared mechanisms, population building and replacing, summaries, wrappers) whose results alone, one after the other, are known; then the same calls are made from 2 to 8 threads at once in different orders, or with genes, individuals, generators and partition selectors that run others of these calls in the middle, two levels deep, or both; every result must be the one known. Non-trivial: by distinct (call, threads, re-entrant).");
    ctx.cases("at once", 60, 1200, 8, |c| {
        let mut e = env(c);
        e.expected = (0..e.tasks.len())
            .map(|k| must(|| format!("{:?}", e.tasks[k]), || e.exec(k)))
            .collect::<Result<_, _>>()?;
        let e = Arc::new(e);
        let threads = c.pick(&[1, 2, 3, 4, 8]);
        let within = threads == 1 || c.chance(0.5);
        let rounds = 4;
        let orders: Vec<Vec<usize>> = (0..threads)
            .map(|_| {
                let mut v: Vec<usize> = (0..e.tasks.len() * rounds).map(|k| k % e.tasks.len()).collect();
                v.shuffle(&mut c.rng);
                v
            })
            .collect();
        let barrier = Barrier::new(threads);
        let seed: u64 = c.rng.gen();
        let results: Vec<R> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .enumerate()
                .map(|(t, order)| {
                    let (e, barrier) = (e.clone(), &barrier);
                    s.spawn(move || -> R {
                        barrier.wait();
                        let mut r = Ok(());
                        for &k in order {
                            if within {
                                hooked(Some(&e), mix(seed, (t * 1000 + k) as u64));
                            }
                            let got = lib(|| e.exec(k));
                            hooked(None, 0);
                            match got {
                                Ok(v) if v == e.expected[k] => {}
                                Ok(v) => {
                                    r = Err(Viol(format!("{:?} gives {v:?}, alone {:?} ({threads} threads at once, re-entrant: {within})", e.tasks[k], e.expected[k])));
                                    break;
                                }
                                Err(p) => {
                                    r = Err(Viol(format!("{:?} ({threads} threads at once, re-entrant: {within}): {p}", e.tasks[k])));
                                    break;
                                }
                            }
                        }
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Viol("a harness thread panicked".into())))).collect()
        });
        for r in results {
            r?;
        }
        if let Some(m) = e.bad.lock().unwrap_or_else(|p| p.into_inner()).take() {
            fail!("{m} ({threads} threads at once)");
        }
        for t in &e.tasks {
            c.sig((std::mem::discriminant(t), threads, within, format!("{t:?}").len()));
        }
        c.sample(|| format!("{threads} threads, re-entrant: {within}; first call {:?}", e.tasks[0]));
        c.evals((threads * rounds * e.tasks.len()) as u64);
        c.count("calls", (threads * rounds * e.tasks.len()) as u64);
        c.count("calls inside calls", e.inside[0].load(SeqCst));
        c.count("calls inside calls inside calls", e.inside[1].load(SeqCst));
        if threads > 1 {
            c.count("cases with several threads", 1);
        }
        ensure!(e.expected.len() == e.tasks.len(), "harness");
        Ok(())
    });
    ctx.require("calls", 10_000);
    ctx.require("calls inside calls", 1000);
    ctx.require("calls inside calls inside calls", 100);
    ctx.require("cases with several threads", 10);
}
