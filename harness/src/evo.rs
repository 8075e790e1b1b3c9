//! Instrumented user side of the engine: individuals, generators, models, algorithms, and a driver that
//! records what every callback and every progress call observed.

use crate::rt::*;
use rand::prelude::*;
use rusty_genes::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------------------------------ configuration

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Algo {
    Ga,
    Aga,
    /// A user-defined algorithm that keeps all default methods of the trait.
    Custom,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Flavor {
    /// Default breeding and default survival.
    Default,
    /// Default breeding, own survival test.
    Survive,
    /// Own breeding.
    Breed,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fit {
    Rugged,
    Plateau,
    Sum,
    Negative,
    Constant,
    SomeInvalid,
    MostInvalid,
    Offset,
    /// Falls with every further change: offspring are always worse.
    Declining,
    /// Spread shrinks and grows from generation to generation.
    Pulse,
    /// Values far below the machine epsilon.
    Tiny,
    /// Neighbouring floating-point numbers just above one.
    Ulp,
    /// Finite values whose squares are not.
    Huge,
}
#[derive(Clone, Debug)]
pub enum Start {
    Random(u64),
    Single(Vec<u8>),
    Given(Vec<Vec<u8>>),
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub algo: Algo,
    pub flavor: Flavor,
    pub threads: usize,
    pub size: usize,
    /// Initial size; only the custom algorithm lets it differ from `size`.
    pub init: usize,
    pub elitism: f64,
    pub cx: (f64, f64),
    pub mx: (f64, f64),
    pub interval: usize,
    pub strategy: SelectionStrategy,
    pub gens: usize,
    pub fit: Fit,
    pub len: usize,
    pub alphabet: u8,
    /// Validity is more than a finite fitness.
    pub own_validity: bool,
    /// Bred individuals never repeat (own breeding only).
    pub unique: bool,
    pub nested: bool,
    pub jitter: bool,
    /// Own breeding: selections sampled per offspring.
    pub sample: usize,
    /// What the model does before a generation.
    pub pre: Pre,
    pub seed: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pre {
    Nothing,
    /// Sets the rates to a function of the generation, at some generations.
    Rates,
    /// Installs a logging selector at this generation.
    Selector(usize),
    /// Installs a configured strategy at this generation.
    Strategy(usize, SelectionStrategy),
    /// Installs a selector with its own distinct selection at the first generation.
    Distinct,
}

// ------------------------------------------------------------------------------------------------- world

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Cb {
    Evaluate,
    Crossover,
    Mutate,
    Improve,
    Survive,
    PreGen,
    Progress,
    NewRandom,
    RngNew,
    Breed,
    Select,
    Prepare,
    // what individuals and generators do; counted only where the world says so
    CloneInd,
    Fitness,
    Equal,
    Valid,
    Draw,
}
pub const CBS: [Cb; 17] = [
    Cb::Evaluate,
    Cb::Crossover,
    Cb::Mutate,
    Cb::Improve,
    Cb::Survive,
    Cb::PreGen,
    Cb::Progress,
    Cb::NewRandom,
    Cb::RngNew,
    Cb::Breed,
    Cb::Select,
    Cb::Prepare,
    Cb::CloneInd,
    Cb::Fitness,
    Cb::Equal,
    Cb::Valid,
    Cb::Draw,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Progress { gen: usize },
    ProgressEnd { go: bool },
    PreGen { gen: usize, pop: u64 },
    Prepare { pop: u64 },
    Select { idx: usize, pop: u64 },
    /// A distinct selection: versions of the individual excluded and the one found.
    Distinct { excl: u64, found: Option<u64> },
    Breed { th: usize, gen: usize, pop: u64, cx: f64, mx: f64, rng: u64 },
    BreedEnd { id: u64, g: u64 },
    Samples { idx: Vec<u16> },
    Cross { a: u64, b: u64, out: u64 },
    Mut { from: u64, to: u64 },
    Imp { from: u64, to: u64 },
    Eval { th: usize, id: u64, inst: u64, dirty: bool, valid: bool },
    Surv { off: u64, off_dirty: bool, parent: u64, parent_fit: u64, ok: bool },
    New { args: u64, id: u64 },
    Rng { id: u64 },
    Conf,
    Init,
    Elites { pop: u64 },
    Generate { pop: u64 },
    Replace { pop: u64 },
}

pub struct World {
    pub cfg: Cfg,
    pub log: Mutex<Vec<Ev>>,
    /// Individuals alive now, and created since the start of the run.
    pub live: AtomicI64,
    pub created: AtomicU64,
    pub next_id: AtomicU64,
    pub rngs: AtomicU64,
    pub rng_live: AtomicI64,
    pub draws: AtomicU64,
    pub calls: [AtomicU64; 17],
    /// Count (and let fail) what individuals and generators do.
    pub fine: AtomicBool,
    pub fault_cb: AtomicU8,
    pub fault_at: AtomicU64,
    /// Something a callback saw that must not be.
    pub bad: Mutex<Option<String>>,
    pub salt: AtomicU64,
    /// Fitness found by each evaluation, by version, if wanted.
    pub keep_fitness: AtomicBool,
    pub evaluated: Mutex<std::collections::HashMap<u64, f64>>,
}

impl World {
    pub fn new(cfg: Cfg) -> Arc<World> {
        Arc::new(World {
            cfg,
            log: Mutex::new(vec![]),
            live: AtomicI64::new(0),
            created: AtomicU64::new(0),
            next_id: AtomicU64::new(1),
            rngs: AtomicU64::new(0),
            rng_live: AtomicI64::new(0),
            draws: AtomicU64::new(0),
            calls: Default::default(),
            fine: AtomicBool::new(false),
            fault_cb: AtomicU8::new(255),
            fault_at: AtomicU64::new(0),
            bad: Mutex::new(None),
            salt: AtomicU64::new(0),
            keep_fitness: AtomicBool::new(false),
            evaluated: Default::default(),
        })
    }
    pub fn id(&self) -> u64 {
        self.next_id.fetch_add(1, SeqCst)
    }
    pub fn ev(&self, e: Ev) {
        self.log.lock().unwrap_or_else(|p| p.into_inner()).push(e)
    }
    pub fn at(&self) -> usize {
        self.log.lock().unwrap_or_else(|p| p.into_inner()).len()
    }
    pub fn bad(&self, m: String) {
        self.bad.lock().unwrap_or_else(|p| p.into_inner()).get_or_insert(m);
    }
    /// Restarts the counters that generators and faults depend on.
    pub fn restart(&self) {
        self.rngs.store(0, SeqCst);
        self.next_id.store(1, SeqCst);
        self.draws.store(0, SeqCst);
        for c in &self.calls {
            c.store(0, SeqCst);
        }
        self.log.lock().unwrap_or_else(|p| p.into_inner()).clear();
    }
    pub fn arm(&self, f: Option<(Cb, u64)>) {
        self.fault_cb.store(f.map_or(255, |f| f.0 as u8), SeqCst);
        self.fault_at.store(f.map_or(0, |f| f.1), SeqCst);
    }
    /// Counts a callback and panics if this is the armed occurrence.
    pub fn hit(&self, cb: Cb) {
        let n = self.calls[cb as usize].fetch_add(1, SeqCst);
        if self.fault_cb.load(SeqCst) == cb as u8 && self.fault_at.load(SeqCst) == n {
            std::panic::panic_any(Injected(n));
        }
        if self.cfg.jitter {
            match mix(self.cfg.seed ^ n, cb as u64) % 16 {
                0 => std::thread::yield_now(),
                1 | 2 => {
                    for _ in 0..mix(n, 3) % 2000 {
                        std::hint::spin_loop()
                    }
                }
                _ => {}
            }
        }
    }
    pub fn hit_fine(&self, cb: Cb) {
        if self.fine.load(SeqCst) {
            let n = self.calls[cb as usize].fetch_add(1, SeqCst);
            if self.fault_cb.load(SeqCst) == cb as u8 && self.fault_at.load(SeqCst) == n {
                std::panic::panic_any(Injected(n));
            }
        }
    }
    pub fn fitness(&self, g: &[u8]) -> f64 {
        let h = hash64(g);
        let unit = (h >> 11) as f64 / (1u64 << 53) as f64;
        let sum = g.iter().map(|x| *x as f64).sum::<f64>() / g.len().max(1) as f64;
        match self.cfg.fit {
            Fit::Rugged => unit,
            Fit::Plateau => (h % 5) as f64,
            Fit::Sum => sum,
            Fit::Negative => -unit - 0.5,
            Fit::Constant => 1.0,
            Fit::SomeInvalid => match h % 8 {
                0 => f64::NAN,
                1 => f64::INFINITY,
                2 => f64::NEG_INFINITY,
                _ => unit,
            },
            Fit::MostInvalid => {
                if h % 5 != 0 {
                    f64::NAN
                } else {
                    unit
                }
            }
            Fit::Offset => 1e6 + unit,
            Fit::Declining => sum - 0.001 * g.len() as f64,
            Fit::Tiny => sum * 1e-19,
            Fit::Ulp => 1.0 + (h % 64) as f64 * f64::EPSILON,
            Fit::Huge => (unit - 0.3) * 1e300,
            Fit::Pulse => unit * [0.0, 1.0, 0.1, 3.0, 0.5][g.first().copied().unwrap_or(0) as usize % 5],
        }
    }
}

thread_local! {
    static TLS: RefCell<Option<Arc<World>>> = const { RefCell::new(None) };
}
pub fn set_world(w: Option<Arc<World>>) {
    TLS.with(|t| *t.borrow_mut() = w);
}
fn world() -> Arc<World> {
    TLS.with(|t| t.borrow().clone()).expect("a generator was created on a thread outside the run's pool")
}

// -------------------------------------------------------------------------------------------- individuals

pub struct Ind {
    pub g: Vec<u8>,
    pub fit: f64,
    /// Version: new with every change; a clone keeps it.
    pub id: u64,
    /// Object: new with every clone.
    pub inst: u64,
    /// Changed since it was last evaluated.
    pub dirty: bool,
    pub muts: u32,
    pub w: Arc<World>,
}
impl Ind {
    pub fn new(w: &Arc<World>, g: Vec<u8>) -> Ind {
        w.live.fetch_add(1, SeqCst);
        w.created.fetch_add(1, SeqCst);
        let id = w.id();
        Ind { g, fit: -12345.0, id, inst: id, dirty: true, muts: 0, w: w.clone() }
    }
    pub fn touch(&mut self) -> (u64, u64) {
        let from = self.id;
        self.id = self.w.id();
        self.dirty = true;
        // a stale fitness must never be used: make it a tempting one
        self.fit = 1e9;
        (from, self.id)
    }
    fn valid(&self) -> bool {
        self.fit.is_finite() && !(self.w.cfg.own_validity && hash64(&self.g) % 3 == 0)
    }
    pub fn mem(&self) -> Mem {
        Mem { id: self.id, inst: self.inst, fit: self.fit, g: self.g.clone(), dirty: self.dirty, valid: self.valid(), muts: self.muts }
    }
}
impl Clone for Ind {
    fn clone(&self) -> Ind {
        self.w.hit_fine(Cb::CloneInd);
        self.w.live.fetch_add(1, SeqCst);
        self.w.created.fetch_add(1, SeqCst);
        Ind { g: self.g.clone(), fit: self.fit, id: self.id, inst: self.w.id(), dirty: self.dirty, muts: self.muts, w: self.w.clone() }
    }
}
impl Drop for Ind {
    fn drop(&mut self) {
        self.w.live.fetch_sub(1, SeqCst);
    }
}
impl PartialEq for Ind {
    fn eq(&self, o: &Self) -> bool {
        self.w.hit_fine(Cb::Equal);
        self.g == o.g
    }
}
impl Individual for Ind {
    fn fitness(&self) -> f64 {
        self.w.hit_fine(Cb::Fitness);
        self.fit
    }
    fn is_valid(&self) -> bool {
        self.w.hit_fine(Cb::Valid);
        self.valid()
    }
}
pub struct Args {
    pub tag: u64,
    pub w: Arc<World>,
}
impl RandomIndividual<Args> for Ind {
    fn new_random<R: Rng>(a: &Args, rng: &mut R) -> Ind {
        a.w.hit(Cb::NewRandom);
        let g = (0..a.w.cfg.len).map(|_| rng.gen_range(0..a.w.cfg.alphabet)).collect();
        let i = Ind::new(&a.w, g);
        a.w.ev(Ev::New { args: a.tag, id: i.id });
        i
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mem {
    pub id: u64,
    pub inst: u64,
    pub fit: f64,
    pub g: Vec<u8>,
    pub dirty: bool,
    pub valid: bool,
    pub muts: u32,
}

pub fn pop_hash(p: &[Ind]) -> u64 {
    hash64(&p.iter().map(|i| (i.id, i.inst)).collect::<Vec<_>>())
}

// --------------------------------------------------------------------------------------------- generators

pub struct WRng {
    inner: SmallRng,
    /// 0: ordinary; 1: every other draw is extreme.
    pub mode: u8,
    pub id: u64,
    busy: AtomicBool,
    pub breeding: Arc<AtomicBool>,
    w: Arc<World>,
}
impl WRng {
    pub fn seeded(w: &Arc<World>, seed: u64) -> WRng {
        w.rng_live.fetch_add(1, SeqCst);
        WRng { inner: SmallRng::seed_from_u64(seed), mode: 0, id: u64::MAX, busy: AtomicBool::new(false), breeding: Default::default(), w: w.clone() }
    }
    pub fn make() -> WRng {
        let w = world();
        w.hit(Cb::RngNew);
        let id = w.rngs.fetch_add(1, SeqCst);
        w.ev(Ev::Rng { id });
        let mut r = WRng::seeded(&w, mix(w.cfg.seed ^ w.salt.load(SeqCst), id));
        r.id = id;
        r
    }
    fn enter(&self) {
        self.w.hit_fine(Cb::Draw);
        if self.busy.swap(true, SeqCst) {
            self.w.bad(format!("generator {} is used by two threads at once", self.id));
        }
        self.w.draws.fetch_add(1, SeqCst);
    }
    fn leave(&self) {
        self.busy.store(false, SeqCst);
    }
}
impl Drop for WRng {
    fn drop(&mut self) {
        self.w.rng_live.fetch_sub(1, SeqCst);
    }
}
impl RngCore for WRng {
    fn next_u32(&mut self) -> u32 {
        self.enter();
        let x = self.inner.next_u32();
        self.leave();
        x
    }
    fn next_u64(&mut self) -> u64 {
        self.enter();
        let mut x = self.inner.next_u64();
        if self.mode == 1 {
            match self.inner.gen_range(0..4u8) {
                0 => x = 0,
                1 => x = u64::MAX,
                _ => {}
            }
        }
        self.leave();
        x
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.inner.try_fill_bytes(d)
    }
}

// ------------------------------------------------------------------------------------------------- models

pub fn th() -> usize {
    rayon::current_thread_index().unwrap_or(usize::MAX)
}

pub fn crossover(w: &Arc<World>, a: &Ind, b: &Ind, rng: &mut WRng) -> Ind {
    w.hit(Cb::Crossover);
    if a.dirty || b.dirty {
        w.bad("a parent changed since it was evaluated takes part in a recombination".into());
    }
    let n = a.g.len().min(b.g.len());
    let g: Vec<u8> = (0..n).map(|i| if rng.gen() { a.g[i] } else { b.g[i] }).collect();
    let o = Ind::new(w, g);
    w.ev(Ev::Cross { a: a.id, b: b.id, out: o.id });
    o
}
pub fn mutate(w: &Arc<World>, i: &mut Ind, rng: &mut WRng) {
    w.hit(Cb::Mutate);
    let n = i.g.len();
    if n > 0 {
        let p = rng.gen_range(0..n);
        i.g[p] = if w.cfg.fit == Fit::Declining {
            i.g[p].saturating_sub(1)
        } else {
            rng.gen_range(0..w.cfg.alphabet)
        };
    }
    i.muts += 1;
    let (from, to) = i.touch();
    w.ev(Ev::Mut { from, to });
}
pub fn improve(w: &Arc<World>, i: &mut Ind) {
    w.hit(Cb::Improve);
    if w.cfg.fit == Fit::Sum && i.g.len() > 2 {
        let k = i.g.len() - 1;
        i.g[k] = i.g[k].max(i.g[0]);
    }
    let (from, to) = i.touch();
    w.ev(Ev::Imp { from, to });
}
pub fn evaluate(w: &Arc<World>, i: &mut Ind) {
    w.hit(Cb::Evaluate);
    if w.cfg.nested {
        // user code may use the same thread pool
        let g = &i.g;
        let (a, b) = rayon::join(
            || g.iter().map(|x| *x as u64).sum::<u64>(),
            || {
                for _ in 0..200 {
                    std::hint::spin_loop()
                }
                g.len()
            },
        );
        std::hint::black_box((a, b));
    }
    let dirty = i.dirty;
    i.fit = w.fitness(&i.g);
    i.dirty = false;
    if w.keep_fitness.load(SeqCst) {
        w.evaluated.lock().unwrap().insert(i.id, i.fit);
    }
    w.ev(Ev::Eval { th: th(), id: i.id, inst: i.inst, dirty, valid: i.is_valid() });
}
pub fn pre_rates(gen: usize) -> Option<(f64, f64)> {
    match gen % 3 {
        0 => Some((0.05 + (gen % 7) as f64 / 10.0, 0.9 - (gen % 5) as f64 / 10.0)),
        _ => None,
    }
}
fn pre_generation<M>(w: &Arc<World>, p: &Population<Ind>, b: &mut ReproductionParameters<M>)
where
    M: EvolutionModel<Individual = Ind, Rng = WRng>,
{
    w.hit(Cb::PreGen);
    w.ev(Ev::PreGen { gen: p.generation(), pop: pop_hash(p) });
    match w.cfg.pre {
        Pre::Rates => {
            if let Some((x, m)) = pre_rates(p.generation()) {
                b.crossover_rate = x;
                b.mutation_rate = m;
            }
        }
        Pre::Selector(g) if g == p.generation() => {
            b.parent_selector = Box::new(LogSel { w: w.clone() });
        }
        Pre::Distinct if p.generation() == 0 => {
            b.parent_selector = Box::new(DistSel { w: w.clone() });
        }
        Pre::Strategy(g, s) if g == p.generation() => {
            b.parent_selector = s.create_selector();
        }
        _ => {}
    }
}

/// A user-defined selector that logs.
pub struct LogSel {
    pub w: Arc<World>,
}
impl SelectionMechanism<Ind, WRng> for LogSel {
    fn prepare(&mut self, p: &Population<Ind>) {
        self.w.hit(Cb::Prepare);
        self.w.ev(Ev::Prepare { pop: pop_hash(p) });
    }
    fn select<'a>(&self, p: &'a Population<Ind>, rng: &mut WRng) -> (usize, &'a Ind) {
        self.w.hit(Cb::Select);
        let i = rng.gen_range(0..p.len());
        self.w.ev(Ev::Select { idx: i, pop: pop_hash(p) });
        (i, &p[i])
    }
}

/// A user-defined selector with its own way to find a second parent, which often gives up.
pub struct DistSel {
    pub w: Arc<World>,
}
impl SelectionMechanism<Ind, WRng> for DistSel {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, rng: &mut WRng) -> (usize, &'a Ind) {
        let i = rng.gen_range(0..p.len());
        self.w.ev(Ev::Select { idx: i, pop: pop_hash(p) });
        (i, &p[i])
    }
    fn select_distinct<'a>(&self, p: &'a Population<Ind>, rng: &mut WRng, _: usize, excluded: &Ind) -> Option<(usize, &'a Ind)> {
        let k = rng.gen_range(0..p.len());
        let found = (0..p.len()).map(|i| (i + k) % p.len()).find(|i| p[*i] != *excluded).filter(|_| rng.gen_range(0..3u8) != 0);
        self.w.ev(Ev::Distinct { excl: excluded.id, found: found.map(|i| p[i].id) });
        found.map(|i| (i, &p[i]))
    }
}

/// Selects by a script.
pub struct ScriptSel {
    pub w: Arc<World>,
    pub script: Vec<usize>,
    pub pos: AtomicU64,
}
impl SelectionMechanism<Ind, WRng> for ScriptSel {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut WRng) -> (usize, &'a Ind) {
        let k = self.pos.fetch_add(1, SeqCst) as usize;
        let i = self.script[k % self.script.len()] % p.len();
        self.w.ev(Ev::Select { idx: i, pop: 0 });
        (i, &p[i])
    }
}

/// Ends a breeding, also by panic.
struct Busy(Arc<AtomicBool>);
impl Drop for Busy {
    fn drop(&mut self) {
        self.0.store(false, SeqCst)
    }
}

macro_rules! model {
    ($name:ident { $($extra:item)* }) => {
        pub struct $name(pub Arc<World>);
        impl EvolutionModel for $name {
            type Individual = Ind;
            type Rng = WRng;
            fn rng() -> WRng {
                WRng::make()
            }
            fn crossover(&self, a: &Ind, b: &Ind, rng: &mut WRng) -> Ind {
                crossover(&self.0, a, b, rng)
            }
            fn mutate(&self, i: &mut Ind, rng: &mut WRng) {
                mutate(&self.0, i, rng)
            }
            fn improve(&self, i: &mut Ind) {
                improve(&self.0, i)
            }
            fn evaluate(&self, i: &mut Ind) {
                evaluate(&self.0, i)
            }
            fn pre_generation(&mut self, p: &Population<Ind>, b: &mut ReproductionParameters<Self>) {
                pre_generation(&self.0, p, b)
            }
            $($extra)*
        }
        impl Make for $name {
            fn make(w: Arc<World>) -> Self {
                $name(w)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                $name(world())
            }
        }
    };
}
pub trait Make {
    fn make(w: Arc<World>) -> Self;
}

model!(DModel {});
model!(SModel {
    fn can_survive(&self, off: &Ind, parent: &Ind, _: &Population<Ind>, rng: &mut WRng) -> bool {
        self.0.hit(Cb::Survive);
        let ok = rng.gen::<bool>();
        self.0.ev(Ev::Surv { off: off.id, off_dirty: off.dirty, parent: parent.id, parent_fit: parent.fit.to_bits(), ok });
        ok
    }
});
model!(BModel {
    fn breed(&self, p: &Population<Ind>, b: &ReproductionParameters<Self>, rng: &mut WRng) -> Ind {
        let w = &self.0;
        if rng.breeding.swap(true, SeqCst) {
            w.bad(format!("generator {} serves two overlapping breedings", rng.id));
        }
        let _busy = Busy(rng.breeding.clone());
        w.ev(Ev::Breed { th: th(), gen: p.generation(), pop: pop_hash(p), cx: b.crossover_rate, mx: b.mutation_rate, rng: rng.id });
        w.hit(Cb::Breed);
        if w.cfg.sample > 0 {
            let mut v = vec![];
            for _ in 0..w.cfg.sample {
                let (i, r) = b.parent_selector.select(p, rng);
                if i >= p.len() || !std::ptr::eq(r, &p[i]) {
                    w.bad(format!("selection returned index {i} with individual {}", r.id));
                }
                v.push(i as u16);
            }
            w.ev(Ev::Samples { idx: v });
        }
        let (_, r) = b.parent_selector.select(p, rng);
        let mut o = r.clone();
        if w.cfg.unique {
            // a genome nobody else has
            let n = w.id();
            o.g = n.to_le_bytes().to_vec();
            o.g[7] = 0xee;
            o.touch();
        } else {
            mutate(w, &mut o, rng);
        }
        evaluate(w, &mut o);
        if !o.is_valid() {
            o = r.clone();
        }
        w.ev(Ev::BreedEnd { id: o.id, g: hash64(&o.g) });
        o
    }
});

// ------------------------------------------------------------------------------------------- algorithms

/// A user-defined algorithm relying on the trait's default methods.
pub struct Ca<M: EvolutionModel> {
    model: M,
    size: usize,
    par: ReproductionParameters<M>,
}
pub struct CaPar {
    pub init: usize,
    pub max: usize,
    pub cx: f64,
    pub mx: f64,
    pub strategy: SelectionStrategy,
}
impl EvolutionParameters for CaPar {
    fn initial_population_size(&self) -> usize {
        self.init
    }
    fn max_population_size(&self) -> usize {
        self.max
    }
    fn validate(&self) {
        assert!(self.max > 0)
    }
}
impl<M: EvolutionModel> EvolutionAlgorithm<M> for Ca<M> {
    type Parameters = CaPar;
    fn model(&self) -> &M {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) {
        (&self.par, self.size)
    }
    fn configure(&mut self, p: &CaPar) {
        p.validate();
        self.size = p.max;
        self.par.crossover_rate = p.cx;
        self.par.mutation_rate = p.mx;
        self.par.parent_selector = p.strategy.create_selector();
    }
    fn prepare_for_next_population(&mut self, p: &Population<M::Individual>) {
        self.model.pre_generation(p, &mut self.par);
        self.par.parent_selector.prepare(p);
    }
}
impl<M: EvolutionModel> From<M> for Ca<M> {
    fn from(model: M) -> Self {
        Ca { model, size: 0, par: Default::default() }
    }
}

impl<M: EvolutionModel + Default> Default for Ca<M> {
    fn default() -> Self {
        Ca::from(M::default())
    }
}

pub trait Drive<M: EvolutionModel>: EvolutionAlgorithm<M> + From<M> {
    fn params(c: &Cfg) -> Self::Parameters;
}
impl<M: EvolutionModel> Drive<M> for GeneticAlgorithm<M> {
    fn params(c: &Cfg) -> GeneticAlgorithmParameters {
        GeneticAlgorithmParameters {
            population_size: c.size,
            elitism_rate: c.elitism,
            crossover_rate: c.cx.0,
            mutation_rate: c.mx.0,
            selection_strategy: c.strategy,
        }
    }
}
impl<M: EvolutionModel> Drive<M> for AdaptiveGeneticAlgorithm<M> {
    fn params(c: &Cfg) -> AdaptiveGeneticAlgorithmParameters {
        AdaptiveGeneticAlgorithmParameters {
            population_size: c.size,
            elitism_rate: c.elitism,
            crossover_rate_range: c.cx.0..c.cx.1,
            mutation_rate_range: c.mx.0..c.mx.1,
            selection_strategy: c.strategy,
            parameter_adjustment_interval: c.interval,
        }
    }
}
impl<M: EvolutionModel> Drive<M> for Ca<M> {
    fn params(c: &Cfg) -> CaPar {
        CaPar { init: c.init, max: c.size, cx: c.cx.0, mx: c.mx.0, strategy: c.strategy }
    }
}

// -------------------------------------------------------------------------------------------------- driver

#[derive(Clone, Debug)]
pub struct Snap {
    pub gen: usize,
    pub stag: usize,
    pub mem: Vec<Mem>,
    pub hash: u64,
    pub stats: PopulatedStats,
    pub best: Mem,
    /// Generators created so far.
    pub rngs: u64,
    /// Individuals alive, and how many of them were before the run.
    pub live: i64,
}
#[derive(Clone, Debug)]
pub enum Out {
    One(Mem),
    Many(Vec<Mem>),
}
pub struct Trace {
    pub snaps: Vec<Snap>,
    pub out: Result<Out, Panicked>,
    pub log: Vec<Ev>,
    pub bad: Option<String>,
    pub start: Start,
    pub initial: Vec<Mem>,
    pub cfg: Cfg,
}

/// What one run is asked to do.
pub struct Job<'a> {
    pub start: &'a Start,
    pub gens: usize,
    pub pre_evaluated: bool,
}

pub fn run_on<A, M>(e: &Evolution<A, M>, w: &Arc<World>, p: &A::Parameters, cfg: &Cfg, job: &Job) -> Trace
where
    M: EvolutionModel<Individual = Ind, Rng = WRng>,
    A: EvolutionAlgorithm<M>,
{
    set_world(Some(w.clone()));
    let mut snaps: Vec<Snap> = vec![];
    let mut initial: Vec<Mem> = vec![];
    let at0 = w.at();
    let live0 = w.live.load(SeqCst);
    let gens = job.gens;
    let ww = w.clone();
    let progress = |p: &Population<Ind>| -> bool {
        ww.ev(Ev::Progress { gen: p.generation() });
        snaps.push(Snap {
            gen: p.generation(),
            stag: p.stagnation(),
            mem: p.iter().map(|i| i.mem()).collect(),
            hash: pop_hash(p),
            stats: *p.stats(),
            best: p.fittest().mem(),
            rngs: ww.rngs.load(SeqCst),
            live: ww.live.load(SeqCst) - live0,
        });
        ww.hit(Cb::Progress);
        let go = snaps.len() <= gens;
        ww.ev(Ev::ProgressEnd { go });
        go
    };
    let make = |g: &Vec<u8>, k: usize| {
        let mut i = Ind::new(w, g.clone());
        if job.pre_evaluated && k % 2 == 0 {
            i.fit = w.fitness(&i.g);
            i.dirty = false;
        }
        i
    };
    let out = match job.start {
        Start::Random(tag) => {
            let args = Args { tag: *tag, w: w.clone() };
            lib(|| Out::One(e.run(&args, p, progress).mem()))
        }
        Start::Single(g) => {
            let i = make(g, 0);
            initial.push(i.mem());
            lib(|| Out::One(e.evolve_individual(i, p, progress).mem()))
        }
        Start::Given(v) => {
            let l: Vec<Ind> = v.iter().enumerate().map(|(k, g)| make(g, k)).collect();
            initial.extend(l.iter().map(|i| i.mem()));
            lib(|| {
                let q = e.evolve_population(l, p, progress);
                Out::Many(q.iter().map(|i| i.mem()).collect())
            })
        }
    };
    let log = w.log.lock().unwrap_or_else(|p| p.into_inner())[at0..].to_vec();
    Trace {
        snaps,
        out,
        log,
        bad: w.bad.lock().unwrap_or_else(|p| p.into_inner()).clone(),
        start: job.start.clone(),
        initial,
        cfg: cfg.clone(),
    }
}

/// Builds a pool of `n` threads whose generators belong to `w` and calls `f` inside it.
pub fn in_pool<T: Send>(n: usize, w: &Arc<World>, f: impl FnOnce() -> T + Send) -> T {
    let ws = w.clone();
    let pool = rayon::ThreadPoolBuilder::new()
        .num_threads(n)
        .stack_size(4 << 20)
        .start_handler(move |_| set_world(Some(ws.clone())))
        .build()
        .expect("thread pool");
    pool.install(f)
}

/// Calls `$body` with `$a`, `$m` bound to the algorithm and model types of a configuration.
#[macro_export]
macro_rules! dispatch {
    ($cfg:expr, |$a:ident, $m:ident| $body:expr) => {
        match $cfg.flavor {
            $crate::evo::Flavor::Default => $crate::dispatch!(@ $cfg, $a, $m, $body, $crate::evo::DModel),
            $crate::evo::Flavor::Survive => $crate::dispatch!(@ $cfg, $a, $m, $body, $crate::evo::SModel),
            $crate::evo::Flavor::Breed => $crate::dispatch!(@ $cfg, $a, $m, $body, $crate::evo::BModel),
        }
    };
    (@ $cfg:expr, $a:ident, $m:ident, $body:expr, $mm:ty) => {{
        type $m = $mm;
        match $cfg.algo {
            $crate::evo::Algo::Ga => {
                type $a = rusty_genes::GeneticAlgorithm<$mm>;
                $body
            }
            $crate::evo::Algo::Aga => {
                type $a = rusty_genes::AdaptiveGeneticAlgorithm<$mm>;
                $body
            }
            $crate::evo::Algo::Custom => {
                type $a = $crate::evo::Ca<$mm>;
                $body
            }
        }
    }};
}

/// One run of a configuration on a fresh engine in a fresh pool.
pub fn run_fresh(cfg: &Cfg, job: &Job) -> (Trace, Arc<World>) {
    run_fresh_in(World::new(cfg.clone()), cfg, job)
}
/// Counts what individuals and generators do, too.
pub fn run_fresh_fine(cfg: &Cfg, job: &Job) -> (Trace, Arc<World>) {
    let w = World::new(cfg.clone());
    w.fine.store(true, SeqCst);
    run_fresh_in(w, cfg, job)
}
fn run_fresh_in(w: Arc<World>, cfg: &Cfg, job: &Job) -> (Trace, Arc<World>) {
    let t = in_pool(cfg.threads, &w, || {
        dispatch!(cfg, |A, M| {
            let e = <A as EvolutionAlgorithm<M>>::build_evolution(<M as Make>::make(w.clone()));
            run_on::<A, M>(&e, &w, &<A as Drive<M>>::params(cfg), cfg, job)
        })
    });
    (t, w)
}
