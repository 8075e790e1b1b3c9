//! C37: where the user's callbacks run, and how many of them at once.

use crate::rt::*;
use crate::{ensure, fail};
use rand::prelude::*;
use rusty_genes::*;
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::thread::ThreadId;
use std::time::Duration;

thread_local! {
    /// The number of the pool this thread belongs to, 0 for none.
    static POOL: Cell<u64> = const { Cell::new(0) };
    /// The watch that has seen this thread last.
    static LAST: Cell<u64> = const { Cell::new(u64::MAX) };
}
const GLOBAL: u64 = 1;
static POOLS: AtomicU64 = AtomicU64::new(GLOBAL);

fn mark(id: u64) -> impl Fn(usize) + Send + Sync + 'static {
    move |_| POOL.with(|p| p.set(id))
}
fn pool_of(threads: usize) -> (u64, rayon::ThreadPool) {
    let id = POOLS.fetch_add(1, SeqCst) + 1;
    (id, rayon::ThreadPoolBuilder::new().num_threads(threads).start_handler(mark(id)).build().unwrap())
}
fn global() -> usize {
    static N: OnceLock<usize> = OnceLock::new();
    *N.get_or_init(|| {
        let _ = rayon::ThreadPoolBuilder::new().num_threads(5).start_handler(mark(GLOBAL)).build_global();
        rayon::current_num_threads()
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Work {
    Create,
    Derive,
    First,
    Breed,
}
/// Callbacks of a breeding that take their time.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Slow {
    Crossover,
    Mutate,
    Improve,
    Evaluate,
    Survive,
}
const SLOW: [Slow; 5] = [Slow::Crossover, Slow::Mutate, Slow::Improve, Slow::Evaluate, Slow::Survive];

/// What is watched during one run.
pub struct Watch {
    /// The pool the run is started in, `GLOBAL` when started outside any.
    pool: u64,
    id: u64,
    /// The starting thread, when it is in no pool.
    caller: Option<ThreadId>,
    active: AtomicBool,
    breeding: AtomicBool,
    foreign: Mutex<Option<String>>,
    seen: Mutex<HashSet<ThreadId>>,
    calls: AtomicU64,
    keys: AtomicU64,
    seed: u64,
    slow: Option<(Slow, Duration)>,
    now: AtomicUsize,
    most: AtomicUsize,
    /// Pools used by the callbacks for evolutions of their own.
    inner: Option<Arc<(u64, rayon::ThreadPool)>>,
    inner_bad: Mutex<Option<String>>,
    inner_runs: AtomicU64,
}
impl Watch {
    fn new(pool: u64, seed: u64, slow: Option<(Slow, Duration)>, inner: Option<Arc<(u64, rayon::ThreadPool)>>) -> Arc<Watch> {
        static IDS: AtomicU64 = AtomicU64::new(0);
        Arc::new(Watch {
            pool,
            id: IDS.fetch_add(1, SeqCst),
            caller: (pool == GLOBAL).then(|| std::thread::current().id()),
            active: AtomicBool::new(true),
            breeding: AtomicBool::new(false),
            foreign: Mutex::default(),
            seen: Mutex::default(),
            calls: AtomicU64::new(0),
            keys: AtomicU64::new(0),
            seed,
            slow,
            now: AtomicUsize::new(0),
            most: AtomicUsize::new(0),
            inner,
            inner_bad: Mutex::default(),
            inner_runs: AtomicU64::new(0),
        })
    }
    fn allowed(&self, pool: u64, t: ThreadId) -> bool {
        pool == self.pool || self.caller == Some(t)
    }
    fn at(&self, what: &str) {
        if !self.active.load(SeqCst) {
            return;
        }
        self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let t = std::thread::current().id();
        let pool = POOL.with(|p| p.get());
        if self.allowed(pool, t) {
            if LAST.with(|l| l.replace(self.id)) != self.id {
                self.seen.lock().unwrap().insert(t);
            }
        } else {
            self.foreign.lock().unwrap().get_or_insert_with(|| {
                let of = match pool {
                    0 => "that belongs to no pool and is not the caller's".to_string(),
                    GLOBAL => "of the global pool".to_string(),
                    p => format!("of another pool (number {p})"),
                };
                format!("{what} on a thread {of}")
            });
        }
    }
    fn slow(&self) {
        if let Some((_, d)) = self.slow {
            let n = self.now.fetch_add(1, SeqCst) + 1;
            self.most.fetch_max(n, SeqCst);
            std::thread::sleep(d);
            self.now.fetch_sub(1, SeqCst);
        }
    }
    fn slow_at(&self, s: Slow) {
        if self.breeding.load(SeqCst) && matches!(self.slow, Some((x, _)) if x == s) {
            self.slow()
        }
    }
    /// An evolution of a callback's own, in a pool of its own.
    fn visit(&self, n: u64) {
        let Some(p) = &self.inner else { return };
        if !self.active.load(SeqCst) || mix(n, self.seed) % 9 != 0 || self.inner_runs.fetch_add(1, SeqCst) > 12 {
            return;
        }
        let w = Watch::new(p.0, n, None, None);
        let r = p.1.install(|| {
            let e = GeneticAlgorithm::build_evolution(PModel { w: w.clone() });
            let prm = GeneticAlgorithmParameters { population_size: 6, ..Default::default() };
            lib(|| e.run(&w, &prm, |q| q.generation() < 2)).map(|i| i.key)
        });
        w.active.store(false, SeqCst);
        if let Err(e) = r {
            self.inner_bad.lock().unwrap().get_or_insert(format!("an evolution inside a callback panics: {e:?}"));
        }
        let f = w.foreign.lock().unwrap().take();
        if let Some(f) = f {
            self.inner_bad.lock().unwrap().get_or_insert(format!("an evolution inside a callback, in a pool of its own: {f}"));
        }
    }
}

pub struct PInd {
    key: u64,
    fit: f64,
    w: Arc<Watch>,
}
impl PInd {
    fn new(w: &Arc<Watch>) -> PInd {
        PInd { key: w.keys.fetch_add(1, SeqCst), fit: 0.0, w: w.clone() }
    }
}
impl Clone for PInd {
    fn clone(&self) -> PInd {
        self.w.at("an individual is cloned");
        PInd { key: self.key, fit: self.fit, w: self.w.clone() }
    }
}
impl Drop for PInd {
    fn drop(&mut self) {
        self.w.at("an individual is dropped");
    }
}
impl PartialEq for PInd {
    fn eq(&self, o: &PInd) -> bool {
        self.w.at("individuals are compared");
        self.key == o.key
    }
}
impl Individual for PInd {
    fn fitness(&self) -> f64 {
        self.w.at("the fitness of an individual is asked");
        self.fit
    }
    fn is_valid(&self) -> bool {
        self.w.at("the validity of an individual is asked");
        true
    }
}
impl RandomIndividual<Arc<Watch>> for PInd {
    fn new_random<R: Rng>(w: &Arc<Watch>, rng: &mut R) -> PInd {
        w.at("a random individual is created");
        let _: u64 = rng.gen();
        w.slow();
        PInd::new(w)
    }
}

/// A generator that knows where it was made.
pub struct PRng {
    r: SmallRng,
    pool: u64,
    t: ThreadId,
}
impl RngCore for PRng {
    fn next_u32(&mut self) -> u32 {
        self.r.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.r.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.r.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.r.try_fill_bytes(d)
    }
}

pub struct PModel {
    w: Arc<Watch>,
}
impl PModel {
    fn at(&self, what: &str, rng: Option<&PRng>) {
        self.w.at(what);
        if let Some(r) = rng {
            if !self.w.allowed(r.pool, r.t) {
                self.w.foreign.lock().unwrap().get_or_insert_with(|| format!("{what} with a generator made on a foreign thread (of pool {})", r.pool));
            }
        }
    }
}
impl EvolutionModel for PModel {
    type Individual = PInd;
    type Rng = PRng;
    fn rng() -> PRng {
        static N: AtomicU64 = AtomicU64::new(0);
        PRng { r: SmallRng::seed_from_u64(N.fetch_add(1, SeqCst)), pool: POOL.with(|p| p.get()), t: std::thread::current().id() }
    }
    fn crossover(&self, a: &PInd, _: &PInd, rng: &mut PRng) -> PInd {
        self.at("parents are recombined", Some(rng));
        self.w.slow_at(Slow::Crossover);
        a.clone()
    }
    fn mutate(&self, i: &mut PInd, rng: &mut PRng) {
        self.at("an individual is mutated", Some(rng));
        i.key = self.w.keys.fetch_add(1, SeqCst);
        self.w.visit(i.key);
        if self.w.breeding.load(SeqCst) {
            self.w.slow_at(Slow::Mutate)
        } else {
            self.w.slow()
        }
    }
    fn improve(&self, i: &mut PInd) {
        self.at("an individual is improved", None);
        self.w.visit(i.key + 1000);
        self.w.slow_at(Slow::Improve);
    }
    fn evaluate(&self, i: &mut PInd) {
        self.at("an individual is evaluated", None);
        i.fit = (mix(i.key, self.w.seed) % 4096) as f64;
        if self.w.breeding.load(SeqCst) {
            self.w.slow_at(Slow::Evaluate)
        } else {
            self.w.slow()
        }
    }
    fn can_survive(&self, _: &PInd, _: &PInd, _: &Population<PInd>, rng: &mut PRng) -> bool {
        self.at("survival is decided", Some(rng));
        self.w.slow_at(Slow::Survive);
        true
    }
    fn pre_generation(&mut self, _: &Population<PInd>, _: &mut ReproductionParameters<Self>) {
        self.at("a generation is announced", None);
        self.w.breeding.store(true, SeqCst);
    }
}

/// An algorithm of the user's own, all defaults.
pub struct POwn {
    model: PModel,
    rp: ReproductionParameters<PModel>,
    size: usize,
}
#[derive(Clone)]
pub struct POwnPar {
    init: usize,
    size: usize,
}
impl EvolutionParameters for POwnPar {
    fn initial_population_size(&self) -> usize {
        self.init
    }
    fn max_population_size(&self) -> usize {
        self.size
    }
    fn validate(&self) {}
}
impl From<PModel> for POwn {
    fn from(model: PModel) -> POwn {
        let rp = ReproductionParameters { crossover_rate: 1.0, mutation_rate: 1.0, ..Default::default() };
        POwn { model, rp, size: 0 }
    }
}
impl EvolutionAlgorithm<PModel> for POwn {
    type Parameters = POwnPar;
    fn model(&self) -> &PModel {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<PModel>, usize) {
        (&self.rp, self.size)
    }
    fn configure(&mut self, p: &POwnPar) {
        self.size = p.size;
    }
    fn prepare_for_next_population(&mut self, p: &Population<PInd>) {
        self.rp.parent_selector.prepare(p);
        self.model.pre_generation(p, &mut ReproductionParameters { crossover_rate: 1.0, mutation_rate: 1.0, ..Default::default() });
    }
}

#[derive(Clone, Debug)]
struct Cfg {
    algo: usize,
    start: usize,
    init: usize,
    size: usize,
    elitism: f64,
    sel: SelectionStrategy,
    gens: usize,
}

/// Runs an evolution on this thread or, inside `install`, on a thread of the pool; the most callbacks at once in creating
/// or deriving, evaluating first, and breeding each generation.
fn run(w: &Arc<Watch>, cfg: &Cfg) -> Result<Vec<(Work, usize)>, Panicked> {
    let given: Vec<PInd> = match cfg.start {
        0 => vec![],
        1 => vec![PInd::new(w)],
        _ => (0..cfg.init).map(|_| PInd::new(w)).collect(),
    };
    let out = std::cell::RefCell::new(vec![]);
    let go = |e: &dyn Fn(&mut dyn FnMut(&Population<PInd>) -> bool)| {
        // creating and evaluating the initial individuals are told apart by `Work::First` runs from a list
        e(&mut |p: &Population<PInd>| {
            w.at("progress is reported");
            let most = w.most.swap(0, SeqCst);
            let work = match (p.generation(), cfg.start) {
                (0, 0) => Work::Create,
                (0, 1) => Work::Derive,
                (0, _) => Work::First,
                _ => Work::Breed,
            };
            out.borrow_mut().push((work, most));
            p.generation() < cfg.gens
        })
    };
    fn drive<A: EvolutionAlgorithm<PModel> + From<PModel>>(w: &Arc<Watch>, cfg: &Cfg, given: Vec<PInd>, prm: A::Parameters, progress: &mut dyn FnMut(&Population<PInd>) -> bool) {
        let e = A::build_evolution(PModel { w: w.clone() });
        let mut given = given;
        match cfg.start {
            0 => drop(e.run(w, &prm, progress)),
            1 => drop(e.evolve_individual(given.pop().unwrap(), &prm, progress)),
            _ => drop(e.evolve_population(given, &prm, progress)),
        }
    }
    let given = Mutex::new(Some(given));
    let r = lib(|| {
        go(&|progress| {
            let given = given.lock().unwrap().take().unwrap();
            match cfg.algo {
                0 => drive::<GeneticAlgorithm<PModel>>(
                    w,
                    cfg,
                    given,
                    GeneticAlgorithmParameters {
                        population_size: cfg.size,
                        elitism_rate: cfg.elitism,
                        selection_strategy: cfg.sel,
                        crossover_rate: 1.0,
                        mutation_rate: 1.0,
                    },
                    progress,
                ),
                1 => drive::<AdaptiveGeneticAlgorithm<PModel>>(
                    w,
                    cfg,
                    given,
                    AdaptiveGeneticAlgorithmParameters {
                        population_size: cfg.size,
                        elitism_rate: cfg.elitism,
                        selection_strategy: cfg.sel,
                        crossover_rate_range: 1.0..1.0,
                        mutation_rate_range: 1.0..1.0,
                        ..Default::default()
                    },
                    progress,
                ),
                _ => drive::<POwn>(w, cfg, given, POwnPar { init: cfg.init, size: cfg.size }, progress),
            }
        })
    });
    w.active.store(false, SeqCst);
    r.map(|_| out.into_inner())
}

fn any_sel(c: &mut Case) -> SelectionStrategy {
    match c.below(5) {
        0 => SelectionStrategy::Tournament(3),
        1 => SelectionStrategy::RouletteWheel,
        2 => SelectionStrategy::Rank,
        3 => SelectionStrategy::Elitist(0.5),
        _ => SelectionStrategy::Linear(1.5),
    }
}

pub fn c37(ctx: &Ctx) {
    global();
    ctx.rule("Pools mark their threads when they start. Every callback of a run (creation, evaluation, recombination, mutation, improvement, survival, cloning, dropping, comparing, fitness, validity, drawing, progress) must run on a thread of the pool the run was started in, or on the starting thread if that is in no pool (then the global pool is the right one).");
    ctx.rule("Callbacks that sleep: with 16 or more of them per thread, as many must be in progress at once as the pool has threads; a sleep of 2 ms, then 10 and 50 ms if not seen (a violation only if not seen in any of them).");
    ctx.require("callbacks seen", 100_000);
    ctx.require("runs in a pool", 20);
    ctx.require("runs outside any pool", 10);
    ctx.require("all threads busy in breeding", 20);
    ctx.cases("where", 60, 200, 4, |c| {
        let outside = c.chance(0.3);
        let own = if outside { None } else { Some(pool_of(c.pick(&[1usize, 2, 3, 4, 7]))) };
        let inner = if c.chance(0.4) { Some(Arc::new(pool_of(c.pick(&[1usize, 2, 3])))) } else { None };
        let size = match c.below(8) {
            0 => 1,
            1 => 2 + c.below(3),
            2 | 3 => 5 + c.below(60),
            4 => 3000 + c.below(4000),
            _ => 60 + c.below(400),
        };
        let cfg = Cfg {
            algo: c.below(3),
            start: c.below(3),
            init: if c.chance(0.5) { size } else { 1 + c.below(2 * size) },
            size,
            elitism: c.pick(&[0.0, 0.2, 0.9]),
            sel: any_sel(c),
            gens: if size > 1000 { 2 } else { 1 + c.below(8) },
        };
        let (seed, what) = (c.rng.gen(), format!("{cfg:?}, pool of {}", own.as_ref().map_or("none".into(), |p| p.1.current_num_threads().to_string())));
        let w = Watch::new(own.as_ref().map_or(GLOBAL, |p| p.0), seed, None, inner.clone());
        let r = match &own {
            Some((_, p)) => p.install(|| run(&w, &cfg)),
            None => run(&w, &cfg),
        };
        if let Err(e) = r {
            fail!("{what}: the run panics: {e:?}");
        }
        if let Some(f) = w.foreign.lock().unwrap().take() {
            fail!("{what}: {f}");
        }
        if let Some(f) = w.inner_bad.lock().unwrap().take() {
            fail!("{what}: {f}");
        }
        // lists and populations by themselves
        let w = Watch::new(own.as_ref().map_or(GLOBAL, |p| p.0), seed, None, None);
        let n = 1 + c.below(6000);
        let alone = || {
            let mut v: Vec<PInd> = (0..n).map(|_| PInd::new(&w)).collect();
            for i in v.iter_mut() {
                i.fit = (mix(i.key, seed) % 999) as f64;
            }
            let mut next: Vec<PInd> = v.iter().take(n / 2 + 1).cloned().collect();
            let mut p = Population::new(v);
            let mut r: SmallRng = SmallRng::seed_from_u64(seed);
            let mut s = any_sel_of(seed).create_selector::<PInd, SmallRng>();
            s.prepare(&p);
            for _ in 0..20 {
                s.select(&p, &mut r);
            }
            p.replace(&mut next);
            p.take_fittest();
        };
        match &own {
            Some((_, p)) => p.install(alone),
            None => alone(),
        }
        if let Some(f) = w.foreign.lock().unwrap().take() {
            fail!("a population of {n} in {what}: {f}");
        }
        c.count("callbacks seen", w.calls.load(SeqCst));
        c.count(if outside { "runs outside any pool" } else { "runs in a pool" }, 1);
        c.count("runs in pools of callbacks", if inner.is_some() { 1 } else { 0 });
        let threads = w.seen.lock().unwrap().len();
        c.sig((cfg.algo, cfg.start, size, threads, outside));
        c.sample(|| what);
        Ok(())
    });
    ctx.cases("busy", 48, 200, 2, |c| {
        let outside = c.idx % 6 == 5;
        let threads = if outside { global() } else { c.pick(&[2usize, 3, 4, 6, 8]) };
        let size = threads * (16 + c.below(4));
        let elitism = c.pick(&[0.0, 0.0, 0.25]);
        // at least 16 for each thread are bred, created, evaluated
        let size = if elitism > 0.0 { size * 4 / 3 + threads } else { size + 1 };
        let cfg = Cfg {
            algo: (c.idx / 3) as usize % 3,
            start: c.idx as usize % 3,
            init: size,
            size,
            elitism,
            sel: any_sel(c),
            gens: 2,
        };
        let slow = c.pick(&SLOW);
        let seed: u64 = c.rng.gen();
        let what = format!("{cfg:?}, {slow:?} slow, {threads} threads{}", if outside { " of the global pool" } else { "" });
        let mut worst = vec![];
        for ms in [2, 10, 50] {
            let own = if outside { None } else { Some(pool_of(threads)) };
            let w = Watch::new(own.as_ref().map_or(GLOBAL, |p| p.0), seed, Some((slow, Duration::from_millis(ms))), None);
            let r = match &own {
                Some((_, p)) => p.install(|| run(&w, &cfg)),
                None => run(&w, &cfg),
            };
            let most = match r {
                Ok(m) => m,
                Err(e) => fail!("{what}: the run panics: {e:?}"),
            };
            ensure!(most.len() == cfg.gens + 1, "{what}: {} calls of the progress closure", most.len());
            worst = most.into_iter().filter(|(_, m)| *m < threads).collect();
            if worst.is_empty() {
                c.count(&format!("seen with sleeps of {ms} ms"), 1);
                break;
            }
            c.count(&format!("not seen with sleeps of {ms} ms"), 1);
        }
        if let Some((work, m)) = worst.first() {
            fail!("{what}: in {work:?} at most {m} callbacks are in progress at once");
        }
        c.count("all threads busy in breeding", cfg.gens as u64);
        c.sig((threads, cfg.algo, cfg.start, slow));
        c.sample(|| what);
        Ok(())
    });
}

fn any_sel_of(seed: u64) -> SelectionStrategy {
    match seed % 4 {
        0 => SelectionStrategy::Tournament(2),
        1 => SelectionStrategy::RouletteWheel,
        2 => SelectionStrategy::Boltzmann(100.0, 0.9),
        _ => SelectionStrategy::Rank,
    }
}
