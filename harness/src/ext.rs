//! C32-C35: extension points, worker threads, ways to build an engine, evolutions inside callbacks.

use crate::evo::*;
use crate::evochk::{any_cfg, any_start, genome, same_runs};
use crate::rt::*;
use crate::{dispatch, ensure, fail};
use rand::prelude::*;
use rusty_genes::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------------------------------------------- C32

/// A model that overrides everything, and records it.
pub struct XModel {
    w: Arc<World>,
    tag: u64,
    x: Arc<XLog>,
}
#[derive(Default)]
pub struct XLog {
    /// Genomes the overridden creation of individuals leaves behind.
    plan: Vec<Vec<u8>>,
    calls: Mutex<Vec<X>>,
    left: Mutex<Vec<u64>>,
}
#[derive(Clone, Debug, PartialEq)]
enum X {
    Random { size: usize, args: usize },
    From { size: usize, inst: u64 },
    Breed { tag: u64, gen: usize, cx: u64, mx: u64, out: u64 },
    Evaluate { tag: u64, id: u64 },
}
impl XModel {
    fn fill(&self, v: &mut Vec<Ind>) {
        v.clear();
        for g in &self.x.plan {
            v.push(Ind::new(&self.w, g.clone()));
        }
        self.x.left.lock().unwrap().extend(v.iter().map(|i| i.id));
    }
}
impl EvolutionModel for XModel {
    type Individual = Ind;
    type Rng = WRng;
    fn rng() -> WRng {
        WRng::make()
    }
    fn crossover(&self, a: &Ind, b: &Ind, rng: &mut WRng) -> Ind {
        crossover(&self.w, a, b, rng)
    }
    fn mutate(&self, i: &mut Ind, rng: &mut WRng) {
        mutate(&self.w, i, rng)
    }
    fn evaluate(&self, i: &mut Ind) {
        self.x.calls.lock().unwrap().push(X::Evaluate { tag: self.tag, id: i.id });
        evaluate(&self.w, i)
    }
    fn breed(&self, p: &Population<Ind>, b: &ReproductionParameters<Self>, rng: &mut WRng) -> Ind {
        let mut o = p[rng.gen_range(0..p.len())].clone();
        o.g = self.w.id().to_le_bytes().to_vec();
        o.g[7] = 0xee;
        o.touch();
        o.fit = (hash64(&o.g) % 1000) as f64;
        o.dirty = false;
        self.x.calls.lock().unwrap().push(X::Breed {
            tag: self.tag,
            gen: p.generation(),
            cx: b.crossover_rate.to_bits(),
            mx: b.mutation_rate.to_bits(),
            out: o.id,
        });
        o
    }
    fn extend_population<T>(&self, v: &mut Vec<Ind>, size: usize, args: &T)
    where
        T: Sync,
        Ind: RandomIndividual<T>,
    {
        self.x.calls.lock().unwrap().push(X::Random { size, args: args as *const T as usize });
        self.fill(v)
    }
    fn extend_population_with(&self, v: &mut Vec<Ind>, size: usize, model: Ind) {
        self.x.calls.lock().unwrap().push(X::From { size, inst: model.inst });
        self.fill(v)
    }
}
impl Make for XModel {
    fn make(w: Arc<World>) -> Self {
        XModel { w, tag: 0, x: Default::default() }
    }
}

/// What one progress call saw.
#[derive(Clone, Debug)]
struct Seen {
    gen: usize,
    hash: u64,
    ids: Vec<u64>,
    genomes: Vec<Vec<u8>>,
    calls: usize,
    log: usize,
}

fn watched<A, M>(
    e: &Evolution<A, M>,
    w: &Arc<World>,
    x: &Arc<XLog>,
    p: &A::Parameters,
    start: &Start,
    gens: usize,
) -> (Vec<Seen>, Result<Vec<u64>, Panicked>, (usize, u64))
where
    M: EvolutionModel<Individual = Ind, Rng = WRng>,
    A: EvolutionAlgorithm<M>,
{
    set_world(Some(w.clone()));
    let mut seen: Vec<Seen> = vec![];
    let (ww, xx) = (w.clone(), x.clone());
    let progress = |p: &Population<Ind>| {
        seen.push(Seen {
            gen: p.generation(),
            hash: pop_hash(p),
            ids: p.iter().map(|i| i.id).collect(),
            genomes: p.iter().map(|i| i.g.clone()).collect(),
            calls: xx.calls.lock().unwrap().len(),
            log: ww.at(),
        });
        seen.len() <= gens
    };
    let mut arg = (0, 0);
    let out = match start {
        Start::Random(tag) => {
            let args = Args { tag: *tag, w: w.clone() };
            arg.0 = &args as *const Args as usize;
            lib(|| vec![e.run(&args, p, progress).id])
        }
        Start::Single(g) => {
            let i = Ind::new(w, g.clone());
            arg.1 = i.inst;
            lib(|| vec![e.evolve_individual(i, p, progress).id])
        }
        Start::Given(v) => {
            let l: Vec<Ind> = v.iter().map(|g| Ind::new(w, g.clone())).collect();
            lib(|| e.evolve_population(l, p, progress).iter().map(|i| i.id).collect())
        }
    };
    (seen, out, arg)
}

fn c32_starts(c: &mut Case) -> R {
    let mut cfg = any_cfg(c);
    cfg.gens = c.pick(&[0, 1, 2, 3]);
    cfg.size = cfg.size.min(60);
    cfg.init = cfg.init.min(60);
    let start = any_start(c, &cfg);
    let n = c.pick(&[1, 2, cfg.size, cfg.size + 1, 2 * cfg.size, 7]);
    let x = Arc::new(XLog { plan: (0..n).map(|_| genome(c, &cfg)).collect(), ..Default::default() });
    let w = World::new(cfg.clone());
    let (seen, out, arg) = in_pool(cfg.threads, &w, || {
        let m = XModel { w: w.clone(), tag: 0, x: x.clone() };
        macro_rules! go {
            ($a:ty) => {{
                let e = <$a>::build_evolution(m);
                let p = <$a as Drive<XModel>>::params(&cfg);
                watched::<$a, XModel>(&e, &w, &x, &p, &start, cfg.gens)
            }};
        }
        match cfg.algo {
            Algo::Ga => go!(GeneticAlgorithm<XModel>),
            Algo::Aga => go!(AdaptiveGeneticAlgorithm<XModel>),
            Algo::Custom => go!(Ca<XModel>),
        }
    });
    let name = format!("{:?} size {} initial {} from {start:?}", cfg.algo, cfg.size, cfg.init);
    let calls = x.calls.lock().unwrap().clone();
    let made: Vec<&X> = calls.iter().filter(|e| matches!(e, X::Random { .. } | X::From { .. })).collect();
    let init = if cfg.algo == Algo::Custom { cfg.init } else { cfg.size };
    let want = match &start {
        Start::Random(_) => vec![X::Random { size: init, args: arg.0 }],
        Start::Single(_) => vec![X::From { size: init, inst: arg.1 }],
        Start::Given(_) => vec![],
    };
    ensure!(made.iter().map(|x| (*x).clone()).collect::<Vec<_>>() == want, "{name}: the model's creation of individuals was asked {made:?} instead of {want:?}");
    let log = w.log.lock().unwrap().clone();
    let first = seen.first().map_or(log.len(), |s| s.log);
    for e in &log[..first] {
        ensure!(!matches!(e, Ev::New { .. } | Ev::Mut { .. } | Ev::Cross { .. } | Ev::Imp { .. }), "{name}: {e:?} although the model creates the individuals itself");
    }
    if !want.is_empty() {
        let mut evaluated: Vec<u64> = calls[..seen.first().map_or(calls.len(), |s| s.calls)]
            .iter()
            .filter_map(|e| if let X::Evaluate { id, .. } = e { Some(*id) } else { None })
            .collect();
        evaluated.sort();
        let left = x.left.lock().unwrap().clone();
        ensure!(evaluated == left, "{name}: the model left {} initial individuals, {} were evaluated", left.len(), evaluated.len());
        let valid: HashSet<&Vec<u8>> = x
            .plan
            .iter()
            .filter(|g| w.fitness(g).is_finite() && !(cfg.own_validity && hash64(g) % 3 == 0))
            .collect();
        match seen.first() {
            Some(s) => {
                let got: HashSet<&Vec<u8>> = s.genomes.iter().collect();
                ensure!(got == valid && s.genomes.len() == valid.len(), "{name}: the first population is not what the model left");
            }
            None => ensure!(valid.is_empty(), "{name}: the run refused valid individuals"),
        }
        c.count("own starts", 1);
    }
    // overridden breeding: whatever it returns enters, nothing else does
    for s in seen.windows(2) {
        let bred: HashSet<u64> = calls[s[0].calls..s[1].calls]
            .iter()
            .filter_map(|e| if let X::Breed { out, .. } = e { Some(*out) } else { None })
            .collect();
        let now: HashSet<u64> = s[1].ids.iter().copied().collect();
        ensure!(bred.iter().all(|b| now.contains(b)), "{name}: an offspring of the model's own breeding is missing");
        ensure!(now.iter().all(|i| bred.contains(i) || s[0].ids.contains(i)), "{name}: a member comes from nowhere");
        c.count("own breedings", bred.len() as u64);
    }
    if !seen.is_empty() {
        if let Err(p) = out {
            fail!("{name}: {p}");
        }
    }
    c.sample(|| name.clone());
    c.sig(("starts", cfg.algo, cfg.size, init, n, std::mem::discriminant(&start)));
    Ok(())
}

fn c32_distinct(c: &mut Case) -> R {
    let mut cfg = any_cfg(c);
    cfg.flavor = c.pick(&[Flavor::Default, Flavor::Survive]);
    cfg.pre = Pre::Distinct;
    cfg.gens = cfg.gens.clamp(1, 12);
    if c.chance(0.6) {
        cfg.cx = (1.0, 1.0);
    }
    let start = any_start(c, &cfg);
    let (t, _) = run_fresh(&cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: false });
    if t.out()?.is_none() {
        return Ok(());
    }
    for (i, s) in t.segs().iter().enumerate().skip(1).take(t.snaps.len() - 1) {
        let mem = &t.snaps[i - 1].mem;
        let pair = |a: u64, b: u64| (a.min(b), a.max(b));
        let mut crossed: Vec<(u64, u64)> =
            s.iter().filter_map(|e| if let Ev::Cross { a, b, .. } = e { Some(pair(*a, *b)) } else { None }).collect();
        let mut found: Vec<(u64, u64)> = s
            .iter()
            .filter_map(|e| if let Ev::Distinct { excl, found: Some(f) } = e { Some(pair(*excl, *f)) } else { None })
            .collect();
        crossed.sort();
        found.sort();
        ensure!(
            crossed == found,
            "{}: generation {}: {} recombinations, the selector found {} second parents",
            t.name(),
            i - 1,
            crossed.len(),
            found.len()
        );
        let asked: Vec<u64> = s.iter().filter_map(|e| if let Ev::Distinct { excl, .. } = e { Some(*excl) } else { None }).collect();
        let mut firsts: Vec<u64> = s.iter().filter_map(|e| if let Ev::Select { idx, .. } = e { Some(mem[*idx].id) } else { None }).collect();
        for a in &asked {
            let Some(k) = firsts.iter().position(|f| f == a) else {
                fail!("{}: generation {}: a second parent was sought for an individual that was not selected", t.name(), i - 1)
            };
            firsts.swap_remove(k);
        }
        c.count("second parents found", found.len() as u64);
        c.count("second parents not found", (asked.len() - found.len()) as u64);
    }
    c.sig(("distinct", cfg.algo, cfg.flavor, cfg.size, cfg.threads));
    Ok(())
}

/// Declares infinite fitness valid, and some finite fitness invalid.
#[derive(Clone, Debug)]
struct Lax {
    g: u32,
    fit: f64,
}
impl PartialEq for Lax {
    fn eq(&self, o: &Lax) -> bool {
        self.g == o.g
    }
}
fn lax_fitness(g: u32) -> f64 {
    match g % 5 {
        0 => f64::INFINITY,
        1 => f64::NEG_INFINITY,
        _ => (g % 97) as f64,
    }
}
fn lax_valid(g: u32) -> bool {
    mix(g as u64, 5) % 4 != 0
}
impl Individual for Lax {
    fn fitness(&self) -> f64 {
        self.fit
    }
    fn is_valid(&self) -> bool {
        lax_valid(self.g)
    }
}
struct LaxModel {
    any: bool,
    bad: Mutex<Option<String>>,
}
impl EvolutionModel for LaxModel {
    type Individual = Lax;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        SmallRng::from_entropy()
    }
    fn crossover(&self, a: &Lax, b: &Lax, _: &mut SmallRng) -> Lax {
        Lax { g: a.g.rotate_left(3) ^ b.g, fit: 0.5 }
    }
    fn mutate(&self, i: &mut Lax, rng: &mut SmallRng) {
        i.g = rng.gen();
        i.fit = 0.25;
    }
    fn evaluate(&self, i: &mut Lax) {
        i.fit = lax_fitness(i.g)
    }
    fn can_survive(&self, o: &Lax, p: &Lax, _: &Population<Lax>, _: &mut SmallRng) -> bool {
        if !lax_valid(o.g) {
            self.bad.lock().unwrap().get_or_insert(format!("the survival test was asked about {o:?}, which is invalid"));
        }
        self.any || o.fitness() >= p.fitness()
    }
}

fn c32_validity(c: &mut Case) -> R {
    // breeding
    let m = LaxModel { any: c.chance(0.5), bad: Default::default() };
    let size = c.pick(&[1usize, 2, 3, 5, 9, 20]);
    let stock: Vec<Lax> = std::iter::repeat_with(|| c.rng.gen::<u32>())
        .filter(|g| lax_valid(*g))
        .take(size)
        .map(|g| Lax { g, fit: lax_fitness(g) })
        .collect();
    let list: Vec<Lax> = stock.clone();
    let p = must(|| format!("population of {stock:?}"), || Population::new(list))?;
    let mut par: ReproductionParameters<LaxModel> = Default::default();
    par.crossover_rate = c.pick(&[0.0, 1.0]);
    par.mutation_rate = c.pick(&[0.0, 1.0]);
    par.parent_selector = SelectionStrategy::Tournament(2).create_selector();
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    for _ in 0..20 {
        let o = must(|| format!("breed from {stock:?}"), || m.breed(&p, &par, &mut rng))?;
        ensure!(lax_valid(o.g), "{o:?}, invalid by its own definition, was bred");
        ensure!(o.fit.to_bits() == lax_fitness(o.g).to_bits(), "{o:?} was not evaluated");
        if par.mutation_rate == 1.0 {
            let kept = stock.iter().any(|s| s.g == o.g);
            c.count(if kept { "parents kept" } else if o.fit.is_finite() { "finite offspring" } else { "infinite offspring" }, 1);
        }
    }
    if let Some(b) = m.bad.lock().unwrap().take() {
        fail!("{b}");
    }
    // an always surviving valid offspring is never refused for its fitness
    if m.any && par.mutation_rate == 1.0 {
        let (mut kept, mut n) = (0u32, 0u32);
        for _ in 0..40 {
            let o = must(|| "breed".into(), || m.breed(&p, &par, &mut rng))?;
            n += 1;
            if stock.iter().any(|s| s.g == o.g) {
                kept += 1;
            }
        }
        // a quarter of the offspring is invalid; more than 35 of 40 has probability below 1e-17
        ensure!(kept <= 35, "{kept} of {n} valid offspring were refused although every one may survive");
    }
    // initial population
    let list: Vec<Lax> = (0..c.pick(&[3usize, 8, 30])).map(|_| Lax { g: c.rng.gen_range(0..60), fit: 0.125 }).collect();
    let want: HashSet<u32> = list.iter().map(|i| i.g).filter(|g| lax_valid(*g)).collect();
    let mut got: Option<HashSet<u32>> = None;
    let e = Ca::build_evolution(LaxModel { any: true, bad: Default::default() });
    let par = CaPar { init: 5, max: 5, cx: 0.5, mx: 0.5, strategy: SelectionStrategy::Tournament(2) };
    let all = list.clone();
    let r = lib(|| {
        e.evolve_population(list, &par, |p| {
            if got.is_none() {
                got = Some(p.iter().map(|i| i.g).collect());
            }
            p.generation() < 2
        })
    });
    match got {
        Some(g) => {
            ensure!(g == want, "the first population of {all:?} is {g:?}, valid by their own definition are {want:?}");
            must(|| format!("evolution of {all:?}"), || r.map(|_| ()).map_err(|e| panic!("{e}")))?.ok();
        }
        None => ensure!(want.is_empty(), "{all:?} was refused"),
    }
    c.sig(("validity", size, m.any, par.cx.to_bits(), want.len()));
    Ok(())
}

/// A user-defined algorithm that decides everything by itself, differently in every generation.
struct Own<const GEN: bool> {
    s: Arc<Script>,
    models: [XModel; 2],
    pars: [ReproductionParameters<XModel>; 2],
    which: usize,
    size: usize,
}
struct Script {
    w: Arc<World>,
    seed: u64,
    x: Arc<XLog>,
    /// Whether replacement always takes the offspring.
    plain: bool,
    params: Mutex<Vec<usize>>,
    steps: Mutex<Vec<Step>>,
    bad: Mutex<Option<String>>,
}
#[derive(Clone, Debug, Default)]
struct Step {
    which: usize,
    size: usize,
    elites: Vec<u64>,
    generated: Vec<u64>,
    /// Hash and generation of the population the replacement left.
    left: Option<(u64, usize)>,
}
impl Script {
    fn bad(&self, m: String) {
        self.bad.lock().unwrap().get_or_insert(m);
    }
    fn die(&self, gen: usize, k: u64, n: u64) -> u64 {
        mix(self.seed ^ (gen as u64) << 8, k) % n
    }
    fn step<T>(&self, f: impl FnOnce(&mut Step) -> T) -> T {
        f(self.steps.lock().unwrap().last_mut().expect("a step"))
    }
    fn fresh(&self) -> Ind {
        let mut i = Ind::new(&self.w, vec![]);
        i.g = i.id.to_le_bytes().to_vec();
        i.g[7] = 0xdd;
        i.fit = (i.id % 13) as f64;
        i.dirty = false;
        i
    }
}
impl<const GEN: bool> From<XModel> for Own<GEN> {
    fn from(_: XModel) -> Self {
        unreachable!()
    }
}
macro_rules! own {
    ($gen:literal { $($extra:item)* }) => {
        impl EvolutionAlgorithm<XModel> for Own<$gen> {
            type Parameters = CaPar;
            fn model(&self) -> &XModel {
                &self.models[self.which]
            }
            fn reproduction_parameters(&self) -> (&ReproductionParameters<XModel>, usize) {
                (&self.pars[self.which], self.size)
            }
            fn configure(&mut self, p: &CaPar) {
                self.s.params.lock().unwrap().push(p as *const CaPar as usize);
                self.which = 1;
            }
            fn initialize_population(&self, mut v: Vec<Ind>) -> Population<Ind> {
                // evaluates nothing itself
                v.truncate(2);
                for i in v.iter_mut() {
                    i.fit = 3.5;
                    i.dirty = false;
                }
                for _ in 0..3 {
                    v.push(self.s.fresh());
                }
                let p = Population::new(v);
                self.s.steps.lock().unwrap().push(Step { left: Some((pop_hash(&p), 0)), ..Default::default() });
                p
            }
            fn select_elites(&self, p: &Population<Ind>, e: &mut Vec<Ind>) {
                if !e.is_empty() {
                    self.s.bad(format!("generation {}: the list of elites already holds {} individuals", p.generation(), e.len()));
                }
                for k in 0..self.s.die(self.s.steps.lock().unwrap().len(), 1, 7) {
                    e.push(if k % 2 == 0 { p[k as usize % p.len()].clone() } else { self.s.fresh() });
                }
                self.s.step(|s| s.elites = e.iter().map(|i| i.inst).collect());
            }
            fn prepare_for_next_population(&mut self, _: &Population<Ind>) {
                let mut steps = self.s.steps.lock().unwrap();
                let gen = steps.len();
                self.which = self.s.die(gen, 2, 2) as usize;
                self.size = self.s.die(gen, 3, 9) as usize;
                self.pars[self.which].crossover_rate = gen as f64;
                self.pars[self.which].mutation_rate = -(gen as f64);
                steps.push(Step { which: self.which, size: self.size, ..Default::default() });
            }
            fn replace_population(&self, p: &mut Population<Ind>, o: &mut Vec<Ind>) {
                let gen = self.s.steps.lock().unwrap().len();
                self.s.step(|s| s.generated = o.iter().map(|i| i.inst).collect());
                match if self.s.plain { 0 } else { self.s.die(gen, 4, 5) } {
                    // keeps the population
                    1 => {}
                    // old and new together
                    2 => {
                        let mut all: Vec<Ind> = p.iter().chain(o.iter()).cloned().collect();
                        p.replace(&mut all);
                    }
                    // two steps at once
                    3 => {
                        let mut a: Vec<Ind> = vec![self.s.fresh(), self.s.fresh()];
                        p.replace(&mut a);
                        let mut b: Vec<Ind> = p.iter().chain(o.iter()).cloned().collect();
                        p.replace(&mut b);
                    }
                    // another population altogether
                    4 => {
                        *p = Population::new(vec![self.s.fresh()]);
                        o.clear();
                    }
                    _ if o.is_empty() => {}
                    _ => p.replace(o),
                }
                self.s.step(|s| s.left = Some((pop_hash(p), p.generation())));
            }
            $($extra)*
        }
    };
}
own!(false {});
own!(true {
    fn generate_new_population(&self, p: &Population<Ind>, o: &mut Vec<Ind>, _: &object_pool::Pool<WRng>) {
        let have: Vec<u64> = o.iter().map(|i| i.inst).collect();
        if have != self.s.step(|s| s.elites.clone()) {
            self.s.bad(format!("generation {}: the elites do not reach the generation of offspring as selected", p.generation()));
        }
        if self.s.die(p.generation(), 5, 2) == 0 {
            o.clear();
        }
        for _ in 0..self.size {
            o.push(self.s.fresh());
        }
        self.s.step(|s| s.generated = o.iter().map(|i| i.inst).collect());
    }
});

/// Runs an algorithm that decides everything; returns what each generation bred by default generation.
fn c32_algorithm<const GEN: bool>(c: &mut Case, plain: bool) -> R
where
    Own<GEN>: EvolutionAlgorithm<XModel, Parameters = CaPar>,
{
    let mut cfg = any_cfg(c);
    cfg.gens = c.rng.gen_range(0..12);
    cfg.fit = Fit::Sum;
    cfg.own_validity = false;
    let start = match c.below(3) {
        0 => Start::Random(1),
        1 => Start::Single(genome(c, &cfg)),
        _ => Start::Given(vec![genome(c, &cfg), genome(c, &cfg), genome(c, &cfg)]),
    };
    let w = World::new(cfg.clone());
    let x = Arc::new(XLog { plan: vec![genome(c, &cfg), genome(c, &cfg)], ..Default::default() });
    let s = Arc::new(Script {
        w: w.clone(),
        seed: c.rng.gen(),
        x: x.clone(),
        plain,
        params: Default::default(),
        steps: Default::default(),
        bad: Default::default(),
    });
    let par = CaPar { init: c.below(9), max: c.below(9), cx: 0.5, mx: 0.5, strategy: SelectionStrategy::Rank };
    let (seen, out, _) = in_pool(cfg.threads, &w, || {
        let model = |tag| XModel { w: w.clone(), tag, x: s.x.clone() };
        let a = Own::<GEN> { s: s.clone(), models: [model(0), model(1)], pars: Default::default(), which: 0, size: 0 };
        let e = Evolution::from(a);
        watched::<Own<GEN>, XModel>(&e, &w, &x, &par, &start, cfg.gens)
    });
    let name = format!("own algorithm, {} generations on {} threads from {start:?}", cfg.gens, cfg.threads);
    let out = out.map_err(|p| Viol(format!("{name}: {p}")))?;
    if let Some(b) = s.bad.lock().unwrap().clone().or(w.bad.lock().unwrap().clone()) {
        fail!("{name}: {b}");
    }
    ensure!(*s.params.lock().unwrap() == [&par as *const CaPar as usize], "{name}: configured {} times", s.params.lock().unwrap().len());
    let steps = s.steps.lock().unwrap().clone();
    let calls = x.calls.lock().unwrap().clone();
    ensure!(steps.len() == seen.len() && seen.len() == cfg.gens + 1, "{name}: {} progress calls, {} generations", seen.len(), steps.len());
    for (i, (a, b)) in seen.iter().zip(&steps).enumerate() {
        ensure!(
            b.left == Some((a.hash, a.gen)),
            "{name}: progress call {i} does not show the population that the algorithm left (generation {} instead of {:?})",
            a.gen,
            b.left.map(|l| l.1)
        );
        let from = if i == 0 { 0 } else { seen[i - 1].calls };
        let bred: Vec<&X> = calls[from..a.calls].iter().filter(|e| matches!(e, X::Breed { .. })).collect();
        ensure!(!calls[from..a.calls].iter().any(|e| matches!(e, X::Evaluate { .. })), "{name}: an evaluation the algorithm did not ask for");
        if GEN || i == 0 {
            ensure!(bred.is_empty(), "{name}: breeding although the algorithm generates offspring itself");
        } else {
            let quota = b.size.saturating_sub(b.elites.len());
            ensure!(
                bred.len() == quota,
                "{name}: {} bred for a size of {} with {} elites",
                bred.len(),
                b.size,
                b.elites.len()
            );
            for e in &bred {
                let X::Breed { tag, gen, cx, mx, .. } = e else { continue };
                ensure!(*tag == b.which as u64, "{name}: bred by model {tag}, the algorithm's is {}", b.which);
                ensure!(
                    (*cx, *mx) == ((i as f64).to_bits(), (-(i as f64)).to_bits()),
                    "{name}: bred with other parameters than the algorithm's"
                );
                ensure!(*gen == seen[i - 1].gen, "{name}: bred from another generation");
            }
            ensure!(
                b.generated.len() == quota + b.elites.len() && b.elites.iter().all(|e| b.generated.contains(e)),
                "{name}: {} elites and {quota} offspring reach the replacement as {} individuals",
                b.elites.len(),
                b.generated.len()
            );
            c.count(
                match (b.elites.len(), b.size) {
                    (e, s) if e > s => "more elites than places",
                    (e, s) if e == s => "as many elites as places",
                    (e, s) if e + 1 == s => "one place left",
                    _ => "places left",
                },
                1,
            );
        }
    }
    let last = seen.last().unwrap();
    if let Start::Given(_) = start {
        ensure!(out == last.ids, "{name}: the population returned is not the last one shown");
    }
    c.count("own generations", seen.len() as u64);
    c.sample(|| format!("{name}: {steps:?}"));
    c.sig(("algorithm", GEN, cfg.gens, cfg.threads, std::mem::discriminant(&start), s.seed % 64));
    Ok(())
}
/// The default generation of offspring with any numbers of places and elites.
pub fn c15_own(c: &mut Case) -> R {
    c32_algorithm::<false>(c, true)
}

pub fn c32(ctx: &Ctx) {
    ctx.rule("A case is one evolution in which the user side overrides parts of the engine (creation of individuals, breeding, distinct selection, validity, or every method of the algorithm) with implementations that deliberately differ from the default; what the engine then does and shows is compared with what the overrides returned or left. Non-trivial: by distinct (part overridden, algorithm, sizes, start, threads).");
    ctx.cases("starts", 400, 8000, 8, c32_starts);
    ctx.cases("distinct", 400, 8000, 8, c32_distinct);
    ctx.cases("validity", 400, 8000, 8, c32_validity);
    ctx.cases("algorithm", 400, 8000, 8, |c| c32_algorithm::<false>(c, false));
    ctx.cases("algorithm and generation", 300, 6000, 8, |c| c32_algorithm::<true>(c, false));
    ctx.require("own starts", 300);
    ctx.require("own breedings", 1000);
    ctx.require("second parents found", 1000);
    ctx.require("second parents not found", 500);
    ctx.require("infinite offspring", 100);
    ctx.require("own generations", 1000);
    ctx.require("more elites than places", 100);
    ctx.require("one place left", 100);
}

// ---------------------------------------------------------------------------------------------------- C33

/// An individual whose callbacks draw nothing at random: everything is numbered.
#[derive(Clone, Debug)]
struct Det {
    g: u64,
    fit: f64,
}
impl PartialEq for Det {
    fn eq(&self, o: &Det) -> bool {
        self.g == o.g
    }
}
impl Individual for Det {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
impl RandomIndividual<Arc<AtomicU64>> for Det {
    fn new_random<R: Rng>(k: &Arc<AtomicU64>, _: &mut R) -> Det {
        Det { g: mix(k.fetch_add(1, SeqCst), 77) % 5000, fit: -1.0 }
    }
}
#[derive(Clone, Debug)]
struct DetCfg {
    algo: Algo,
    own: bool,
    survive: bool,
    size: usize,
    init: usize,
    elitism: f64,
    cx: (f64, f64),
    mx: (f64, f64),
    interval: usize,
    gens: usize,
    fit: u8,
    seed: u64,
    /// Callbacks take their time.
    busy: bool,
    /// Where another evolution runs inside.
    inner: Option<Place>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
    Evaluate,
    Improve,
    Mutate,
    PreGeneration,
    Progress,
    Survive,
}
const PLACES: [Place; 6] = [Place::Evaluate, Place::Improve, Place::Mutate, Place::PreGeneration, Place::Progress, Place::Survive];

struct DetModel {
    cfg: DetCfg,
    k: AtomicU64,
    gen: AtomicU64,
    parents: Vec<u64>,
    rates: Arc<Mutex<BTreeMap<(usize, bool), (f64, f64)>>>,
    inner: Option<Arc<Inner>>,
}
impl DetModel {
    fn new(cfg: &DetCfg, rates: &Arc<Mutex<BTreeMap<(usize, bool), (f64, f64)>>>, inner: Option<Arc<Inner>>) -> DetModel {
        DetModel { cfg: cfg.clone(), k: AtomicU64::new(0), gen: AtomicU64::new(0), parents: vec![], rates: rates.clone(), inner }
    }
    fn value(&self, g: u64) -> f64 {
        let h = mix(g, self.cfg.seed);
        // no two genomes are equally fit: which of several equally fit individuals is an elite is free
        let g6 = g as f64 * 1e-6;
        match self.cfg.fit {
            0 => (h % 7) as f64 + g6,
            1 => (h >> 11) as f64 / (1u64 << 53) as f64,
            2 => g as f64,
            3 => match h % 6 {
                0 => f64::NAN,
                1 => f64::INFINITY,
                _ => (h % 1000) as f64 / 7.0 + g6,
            },
            _ => -((h % 1000) as f64) - g6,
        }
    }
    fn meet(&self, p: Place, n: u64) {
        if self.cfg.busy {
            // long enough for other threads to take over part of the work
            std::thread::sleep(std::time::Duration::from_micros(mix(n, 9) % 7 * 10));
        }
        if self.cfg.inner == Some(p) {
            if let Some(i) = &self.inner {
                i.visit(n)
            }
        }
    }
}
/// The best and the second best, ties broken by genome.
struct Top {
    a: usize,
    b: Option<usize>,
}
impl<R: Rng> SelectionMechanism<Det, R> for Top {
    fn prepare(&mut self, p: &Population<Det>) {
        let mut v: Vec<usize> = (0..p.len()).collect();
        v.sort_by(|x, y| p[*y].fit.partial_cmp(&p[*x].fit).unwrap().then(p[*x].g.cmp(&p[*y].g)));
        self.a = v[0];
        self.b = v.get(1).copied();
    }
    fn select<'a>(&self, p: &'a Population<Det>, _: &mut R) -> (usize, &'a Det) {
        (self.a, &p[self.a])
    }
    fn select_distinct<'a>(&self, p: &'a Population<Det>, _: &mut R, _: usize, _: &Det) -> Option<(usize, &'a Det)> {
        self.b.map(|b| (b, &p[b]))
    }
}
/// A generator that notices being used for two breedings at once.
struct TRng {
    r: SmallRng,
    breeding: AtomicBool,
}
impl RngCore for TRng {
    fn next_u32(&mut self) -> u32 {
        self.r.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.r.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.r.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.r.try_fill_bytes(d)
    }
}
static SHARED: Mutex<Option<String>> = Mutex::new(None);

macro_rules! det {
    ($name:ident { $($extra:item)* }) => {
        struct $name(DetModel);
        impl EvolutionModel for $name {
            type Individual = Det;
            type Rng = TRng;
            fn rng() -> TRng {
                TRng { r: SmallRng::from_entropy(), breeding: AtomicBool::new(false) }
            }
            fn crossover(&self, a: &Det, b: &Det, _: &mut TRng) -> Det {
                Det { g: (a.g.rotate_left(1) ^ b.g) % 5000, fit: 1e9 }
            }
            fn mutate(&self, i: &mut Det, _: &mut TRng) {
                let k = self.0.k.fetch_add(1, SeqCst);
                self.0.meet(Place::Mutate, k);
                i.g = mix(mix(i.g, k), self.0.gen.load(SeqCst)) % 5000;
                i.fit = 1e9;
            }
            fn improve(&self, i: &mut Det) {
                self.0.meet(Place::Improve, i.g);
                i.g ^= i.g & 1;
                i.fit = 1e9;
            }
            fn evaluate(&self, i: &mut Det) {
                self.0.meet(Place::Evaluate, i.g);
                i.fit = self.0.value(i.g)
            }
            fn can_survive(&self, o: &Det, p: &Det, _: &Population<Det>, _: &mut TRng) -> bool {
                self.0.meet(Place::Survive, o.g);
                if self.0.cfg.survive { mix(o.g, 3) % 3 != 0 } else { o.fit >= p.fit }
            }
            fn pre_generation(&mut self, p: &Population<Det>, b: &mut ReproductionParameters<Self>) {
                let m = &mut self.0;
                m.k.store(0, SeqCst);
                m.gen.store(p.generation() as u64 + 1, SeqCst);
                m.rates.lock().unwrap().insert((p.generation(), false), (b.crossover_rate, b.mutation_rate));
                m.parents = p.iter().map(|i| i.g).collect();
                m.parents.sort();
                m.meet(Place::PreGeneration, p.generation() as u64);
                b.parent_selector = Box::new(Top { a: 0, b: None });
            }
            $($extra)*
        }
    };
}
det!(DetDefault {});
det!(DetOwn {
    fn breed(&self, p: &Population<Det>, b: &ReproductionParameters<Self>, rng: &mut TRng) -> Det {
        if rng.breeding.swap(true, SeqCst) {
            SHARED.lock().unwrap().get_or_insert("a generator serves two overlapping breedings".into());
        }
        let m = &self.0;
        let k = m.k.fetch_add(1, SeqCst);
        m.rates.lock().unwrap().insert((p.generation(), true), (b.crossover_rate, b.mutation_rate));
        m.meet(Place::Mutate, k);
        let g = m.parents[(mix(k, m.gen.load(SeqCst)) % m.parents.len() as u64) as usize];
        let mut o = Det { g: mix(mix(g, k), m.gen.load(SeqCst)) % 5000, fit: 1e9 };
        self.improve(&mut o);
        self.evaluate(&mut o);
        if !o.is_valid() {
            o = p.iter().find(|i| i.g == g).unwrap().clone();
        }
        rng.breeding.store(false, SeqCst);
        o
    }
});

/// What a deterministic evolution shows.
#[derive(Clone, Debug)]
struct Shown {
    gens: Vec<ShownGen>,
    rates: Vec<(f64, f64)>,
    result: Vec<(u64, u64)>,
    refused: bool,
}
#[derive(Clone, Debug)]
struct ShownGen {
    gen: usize,
    stag: usize,
    mem: Vec<(u64, u64)>,
    stats: [f64; 4],
    count: usize,
    best: f64,
    order: Vec<u64>,
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
fn det_start(cfg: &DetCfg) -> Start {
    match cfg.seed % 3 {
        0 => Start::Random(0),
        1 => Start::Single(vec![]),
        _ => Start::Given(vec![]),
    }
}

fn det_run(cfg: &DetCfg, inner: Option<Arc<Inner>>) -> Result<Shown, Panicked> {
    macro_rules! go {
        ($a:ident, $m:ident, $p:expr) => {{
            let rates = Default::default();
            let e = <$a<$m>>::build_evolution($m(DetModel::new(cfg, &rates, inner.clone())));
            let p = $p;
            let mut s = det_on(&e, &p, cfg, &inner)?;
            s.rates = rates.lock().unwrap().values().copied().collect();
            Ok(s)
        }};
    }
    let s = SelectionStrategy::Rank;
    macro_rules! both {
        ($a:ident, $p:expr) => {
            if cfg.own {
                go!($a, DetOwn, $p)
            } else {
                go!($a, DetDefault, $p)
            }
        };
    }
    match cfg.algo {
        Algo::Ga => both!(
            GeneticAlgorithm,
            GeneticAlgorithmParameters {
                population_size: cfg.size,
                elitism_rate: cfg.elitism,
                crossover_rate: cfg.cx.0,
                mutation_rate: cfg.mx.0,
                selection_strategy: s,
            }
        ),
        Algo::Aga => both!(
            AdaptiveGeneticAlgorithm,
            AdaptiveGeneticAlgorithmParameters {
                population_size: cfg.size,
                elitism_rate: cfg.elitism,
                crossover_rate_range: cfg.cx.0..cfg.cx.1,
                mutation_rate_range: cfg.mx.0..cfg.mx.1,
                selection_strategy: s,
                parameter_adjustment_interval: cfg.interval,
            }
        ),
        Algo::Custom => both!(Ca, CaPar { init: cfg.init, max: cfg.size, cx: cfg.cx.0, mx: cfg.mx.0, strategy: s }),
    }
}
fn det_on<A, M>(
    e: &Evolution<A, M>,
    p: &A::Parameters,
    cfg: &DetCfg,
    inner: &Option<Arc<Inner>>,
) -> Result<Shown, Panicked>
where
    M: EvolutionModel<Individual = Det>,
    A: EvolutionAlgorithm<M>,
{
    let mut gens: Vec<ShownGen> = vec![];
    let progress = |p: &Population<Det>| {
        if cfg.inner == Some(Place::Progress) {
            if let Some(i) = inner {
                i.visit(p.generation() as u64)
            }
        }
        let mut mem: Vec<(u64, u64)> = p.iter().map(|i| (i.fit.to_bits(), i.g)).collect();
        mem.sort();
        let s = p.stats();
        gens.push(ShownGen {
            gen: p.generation(),
            stag: p.stagnation(),
            mem,
            stats: [s.min(), s.max(), s.avg(), s.std()],
            count: s.count(),
            best: p.fittest().fit,
            order: p.iter().map(|i| i.fit.to_bits()).collect(),
        });
        p.generation() < cfg.gens
    };
    let args = Arc::new(AtomicU64::new(cfg.seed % 1000));
    let out = match det_start(cfg) {
        Start::Random(_) => lib(|| vec![e.run(&args, p, progress)]),
        Start::Single(_) => lib(|| vec![e.evolve_individual(Det { g: cfg.seed % 5000, fit: 0.0 }, p, progress)]),
        Start::Given(_) => {
            let v = (0..cfg.init as u64).map(|k| Det { g: mix(k, cfg.seed) % 3000, fit: 0.0 }).collect();
            lib(|| {
                let mut v: Vec<Det> = e.evolve_population(v, p, progress).into();
                v.sort_by(|a, b| a.fit.partial_cmp(&b.fit).unwrap().then(a.g.cmp(&b.g)));
                v
            })
        }
    };
    let refused = match &out {
        Err(Panicked::Other(_)) if gens.is_empty() && cfg.fit == 3 => true,
        Err(p) => return Err(p.clone()),
        Ok(_) => false,
    };
    let one = !matches!(det_start(cfg), Start::Given(_));
    Ok(Shown {
        gens,
        rates: vec![],
        result: out.unwrap_or_default().iter().map(|i| (i.fit.to_bits(), if one { 0 } else { i.g })).collect(),
        refused,
    })
}
fn same_shown(a: &Shown, b: &Shown, what: &str) -> R {
    ensure!(a.refused == b.refused, "{what}: only one of the two starts");
    ensure!(a.gens.len() == b.gens.len(), "{what}: {} and {} generations", a.gens.len(), b.gens.len());
    for (i, (x, y)) in a.gens.iter().zip(&b.gens).enumerate() {
        ensure!((x.gen, x.stag, x.count) == (y.gen, y.stag, y.count), "{what}: population {i}: {:?} and {:?}", (x.gen, x.stag, x.count), (y.gen, y.stag, y.count));
        ensure!(x.order == y.order, "{what}: population {i} has other fitness values in order");
        ensure!(x.mem == y.mem, "{what}: population {i} has other members");
        ensure!(x.best == y.best, "{what}: population {i}: best fitness {} and {}", x.best, y.best);
        for (p, q) in x.stats.iter().zip(&y.stats) {
            ensure!(close(*p, *q), "{what}: population {i}: statistics {:?} and {:?}", x.stats, y.stats);
        }
    }
    ensure!(a.rates.len() == b.rates.len(), "{what}: {} and {} generations with rates", a.rates.len(), b.rates.len());
    for (i, (x, y)) in a.rates.iter().zip(&b.rates).enumerate() {
        ensure!(close(x.0, y.0) && close(x.1, y.1), "{what}: generation {i}: rates {x:?} and {y:?}");
    }
    ensure!(a.result == b.result, "{what}: other results");
    Ok(())
}

fn det_cfg(c: &mut Case) -> DetCfg {
    let own = c.chance(0.6);
    let size = match c.below(20) {
        0 => c.pick(&[300, 1000, 2500, 4000]),
        1 => c.pick(&[64, 100, 128, 129]),
        _ => c.pick(&[1, 2, 3, 4, 5, 8, 13, 20, 33]),
    };
    let mut range = || {
        if own {
            let (a, b) = (c.rng.gen::<f64>(), c.rng.gen::<f64>());
            (a.min(b), a.max(b))
        } else {
            // decisions without chance
            c.pick(&[(0.0, 0.0), (1.0, 1.0), (1.0, 1.0)])
        }
    };
    let (cx, mx) = (range(), range());
    let algo = c.pick(&[Algo::Ga, Algo::Aga, Algo::Aga, Algo::Custom]);
    DetCfg {
        algo,
        own,
        survive: c.chance(0.5),
        size,
        init: if algo == Algo::Custom { c.pick(&[1, 2, size, 2 * size]) } else { size },
        elitism: c.pick(&[0.0, 0.1, 0.3, 0.5, 0.9]),
        cx,
        mx,
        interval: c.pick(&[0, 1, 2, 3]),
        gens: if size > 200 { 2 } else { c.pick(&[0, 1, 3, 6, 10]) },
        fit: c.below(5) as u8,
        seed: c.rng.gen(),
        busy: false,
        inner: None,
    }
}
fn pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(16 << 20).build().expect("thread pool").install(f)
}
/// Runs in a pool of `n` threads, or outside any pool for 0.
fn det_in(n: usize, cfg: &DetCfg, inner: Option<Arc<Inner>>) -> Result<Shown, Panicked> {
    if n == 0 {
        det_run(cfg, inner)
    } else {
        pool(n, || det_run(cfg, inner))
    }
}

pub fn c33(ctx: &Ctx) {
    ctx.rule("A case is one evolution whose callbacks take their decisions from the genome and from a counter that starts anew in each generation, never from a generator or a thread, run with one worker thread and with three other numbers of worker threads (or outside any pool); or one list of individuals made a population, replaced and selected from, with different numbers of threads. Non-trivial: by distinct (algorithm, breeding, size, generations, fitness, threads).");
    ctx.cases("runs", 250, 5000, 4, |c| {
        let cfg = det_cfg(c);
        let one = det_in(1, &cfg, None).map_err(|p| Viol(format!("{cfg:?} on one thread: {p}")))?;
        for _ in 0..3 {
            let n = c.pick(&[0usize, 2, 3, 4, 5, 8, 16]);
            let many = det_in(n, &cfg, None).map_err(|p| Viol(format!("{cfg:?} on {n} threads: {p}")))?;
            same_shown(&one, &many, &format!("{cfg:?} on 1 and {n} threads"))?;
            c.count(if n == 0 { "outside any pool" } else { "in pools" }, 1);
            c.count("populations compared", one.gens.len() as u64);
            if one.gens.len() > 1 {
                c.sig((cfg.algo, cfg.own, cfg.size, cfg.gens, cfg.fit, n));
            }
        }
        c.sample(|| format!("{cfg:?}"));
        Ok(())
    });
    ctx.cases("populations", 150, 3000, 4, |c| {
        let n = c.pick(&[1usize, 2, 5, 19, 20, 21, 50, 200, 1999, 2000, 2001, 5000, 20_000]);
        let n = if n > 2001 && !c.chance(0.3) { 300 } else { n };
        let fits = c.pick(&[7u64, 50, 100_000, u64::MAX]);
        let seed: u64 = c.rng.gen();
        let list = |salt: u64| -> Vec<Det> {
            (0..n as u64)
                .map(|k| {
                    let g = mix(k, seed ^ salt) % (n as u64 * 2);
                    Det { g, fit: (mix(g, seed) % fits >> 11) as f64 + (mix(g, seed) % fits % 2048) as f64 }
                })
                .collect()
        };
        let st = crate::sel::strategy(c, n);
        let look = |threads: usize| -> Result<(Vec<(Vec<(u64, u64)>, Vec<u64>, String)>, Vec<usize>), Panicked> {
            let f = || {
                lib(|| {
                    let mut p = Population::new(list(1));
                    let mut shown = vec![];
                    let see = |p: &Population<Det>| {
                        let mut m: Vec<(u64, u64)> = p.iter().map(|i| (i.fit.to_bits(), i.g)).collect();
                        m.sort();
                        let s = p.stats();
                        (m, p.iter().map(|i| i.fit.to_bits()).collect(), format!("{} {} {} {} {}", s.count(), s.min(), s.max(), p.generation(), p.stagnation()))
                    };
                    shown.push(see(&p));
                    p.replace(&mut list(2));
                    shown.push(see(&p));
                    let mut s = st.create_selector::<Det, SmallRng>();
                    s.prepare(&p);
                    let mut rng = SmallRng::seed_from_u64(seed);
                    let picks = (0..50).map(|_| s.select(&p, &mut rng).0).collect();
                    (shown, picks)
                })
            };
            if threads == 0 {
                f()
            } else {
                pool(threads, f)
            }
        };
        let a = look(1).map_err(|p| Viol(format!("{n} individuals, {st:?}: {p}")))?;
        for _ in 0..2 {
            let t = c.pick(&[0usize, 2, 3, 8, 16]);
            let b = look(t).map_err(|p| Viol(format!("{n} individuals, {st:?}, {t} threads: {p}")))?;
            ensure!(a.0 == b.0, "a population of {n} individuals is another one on {t} threads than on one");
            ensure!(a.1 == b.1, "{st:?} selects others on {t} threads than on one from {n} individuals");
            c.count("lists compared", 1);
            c.sig(("population", n, fits, t, std::mem::discriminant(&st)));
        }
        Ok(())
    });
    ctx.require("outside any pool", 50);
    ctx.require("in pools", 300);
    ctx.require("populations compared", 1000);
    ctx.require("lists compared", 200);
}

// ---------------------------------------------------------------------------------------------------- C34

pub fn c34(ctx: &Ctx) {
    ctx.rule("A case is one evolution with seeded generators on one thread, run on engines built in five ways: by the algorithm from a model, from an algorithm made of a model, by default, from a default algorithm, and from an algorithm that was configured and used on its own before. Non-trivial: by distinct (algorithm, flavor, strategy, size, start).");
    ctx.cases("ways", 300, 6000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.threads = 1;
        cfg.size = cfg.size.min(100);
        cfg.init = cfg.init.min(100);
        let other = {
            let mut o = any_cfg(c);
            o.algo = cfg.algo;
            o
        };
        let start = any_start(c, &cfg);
        let used = c.chance(0.7);
        let mut traces = vec![];
        for way in 0..5 {
            let w = World::new(cfg.clone());
            let t = in_pool(1, &w, || {
                dispatch!(cfg, |A, M| {
                    set_world(Some(w.clone()));
                    let e: Evolution<A, M> = match way {
                        0 => <A as EvolutionAlgorithm<M>>::build_evolution(M::make(w.clone())),
                        1 => Evolution::from(A::from(M::make(w.clone()))),
                        2 => Evolution::default(),
                        3 => Evolution::from(A::default()),
                        _ => {
                            let mut a = A::from(M::make(w.clone()));
                            a.configure(&<A as Drive<M>>::params(&other));
                            if used {
                                let p = Population::new(
                                    (0..6)
                                        .map(|k| {
                                            let mut i = Ind::new(&w, vec![k as u8; cfg.len]);
                                            i.fit = k as f64;
                                            i.dirty = false;
                                            i
                                        })
                                        .collect(),
                                );
                                a.prepare_for_next_population(&p);
                            }
                            w.restart();
                            Evolution::from(a)
                        }
                    };
                    run_on::<A, M>(&e, &w, &<A as Drive<M>>::params(&cfg), &cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: false })
                })
            });
            traces.push(t);
        }
        const WAYS: [&str; 5] = [
            "an engine built by the algorithm",
            "an engine from an algorithm from a model",
            "a default engine",
            "an engine from a default algorithm",
            "an engine from an algorithm used before",
        ];
        for k in 1..5 {
            same_runs(&traces[0], &traces[k], WAYS[0], WAYS[k])?;
            c.count("engines compared", 1);
        }
        if traces[0].snaps.len() > 1 {
            c.sig((cfg.algo, cfg.flavor, std::mem::discriminant(&cfg.strategy), cfg.size, std::mem::discriminant(&start)));
        }
        c.sample(|| format!("{cfg:?}"));
        Ok(())
    });
    ctx.cases("default parameters", 100, 1000, 8, |c| {
        let n = c.pick(&[1usize, 2, 5, 30]);
        let p = Population::new((0..n).map(|k| Lax { g: k as u32, fit: c.rng.gen::<f64>() }).collect::<Vec<_>>());
        let mut d: ReproductionParameters<LaxModel> = Default::default();
        ensure!((d.crossover_rate, d.mutation_rate) == (0.8, 0.1), "default rates {} and {}", d.crossover_rate, d.mutation_rate);
        let mut r = RouletteWheelSelection::new();
        <RouletteWheelSelection as SelectionMechanism<Lax, SmallRng>>::prepare(&mut r, &p);
        d.parent_selector.prepare(&p);
        let seed = c.rng.gen();
        let (mut x, mut y) = (SmallRng::seed_from_u64(seed), SmallRng::seed_from_u64(seed));
        for _ in 0..30 {
            let (a, b) = (d.parent_selector.select(&p, &mut x).0, r.select(&p, &mut y).0);
            ensure!(a == b, "the default selector selects {a}, roulette wheel selection {b}");
        }
        c.sig(("default", n));
        Ok(())
    });
    ctx.require("engines compared", 1000);
}

// ---------------------------------------------------------------------------------------------------- C35

/// Evolutions that run inside callbacks, and what each must show.
pub struct Inner {
    cfgs: Vec<DetCfg>,
    alone: Vec<Shown>,
    deeper: Option<Arc<Inner>>,
    visits: AtomicU64,
    stolen: AtomicU64,
    bad: Mutex<Option<String>>,
}
thread_local! {
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
impl Inner {
    fn new(c: &mut Case, deeper: Option<Arc<Inner>>) -> R<Arc<Inner>> {
        let mut cfgs = vec![];
        let mut alone = vec![];
        for _ in 0..4 {
            let mut k = det_cfg(c);
            k.size = c.pick(&[1, 2, 3, 6, 10]);
            k.init = k.size;
            k.gens = c.pick(&[1, 2, 3]);
            k.busy = c.chance(0.5);
            if deeper.is_some() {
                k.size = k.size.min(4);
                k.inner = Some(c.pick(&PLACES));
            }
            let d = deeper.clone();
            alone.push(pool(1, || det_run(&k, d)).map_err(|p| Viol(format!("{k:?}: {p}")))?);
            cfgs.push(k);
        }
        Ok(Arc::new(Inner { cfgs, alone, deeper, visits: AtomicU64::new(0), stolen: AtomicU64::new(0), bad: Default::default() }))
    }
    fn visit(&self, n: u64) {
        // more than one evolution of this level on this thread: work was taken over while one was waiting
        if DEPTH.with(|d| d.replace(d.get() + 1)) > 0 {
            self.stolen.fetch_add(1, SeqCst);
        }
        let k = n as usize % self.cfgs.len();
        self.visits.fetch_add(1, SeqCst);
        let r = det_run(&self.cfgs[k], self.deeper.clone());
        DEPTH.with(|d| d.set(d.get() - 1));
        let what = format!("{:?} alone and inside a callback of another evolution", self.cfgs[k]);
        let r = match r {
            Ok(s) => same_shown(&self.alone[k], &s, &what),
            Err(p) => Err(Viol(format!("{what}: {p}"))),
        };
        if let Err(v) = r {
            self.bad.lock().unwrap().get_or_insert(v.0);
        }
    }
}

pub fn c35(ctx: &Ctx) {
    ctx.rule("A case is one evolution in whose callbacks (evaluation, improvement, mutation or own breeding, survival, pre-generation step, progress) other evolutions run on their own engines in the same thread pool, up to two levels deep; each must show what it shows alone, and so must the outer one. Non-trivial: by distinct (callback, algorithm, breeding, sizes, threads).");
    ctx.cases("nested", 120, 2500, 4, |c| {
        let mut cfg = det_cfg(c);
        cfg.size = cfg.size.min(40);
        cfg.init = cfg.init.min(40);
        cfg.gens = cfg.gens.min(4);
        let plain = pool(1, || det_run(&cfg, None)).map_err(|p| Viol(format!("{cfg:?}: {p}")))?;
        cfg.inner = Some(c.pick(&PLACES));
        let deepest = Inner::new(c, None)?;
        let inner = if c.chance(0.3) { Inner::new(c, Some(deepest.clone()))? } else { deepest.clone() };
        deepest.visits.store(0, SeqCst);
        let n = c.pick(&[0usize, 1, 2, 3, 4, 8]);
        let nested = det_in(n, &cfg, Some(inner.clone())).map_err(|p| Viol(format!("{cfg:?} with evolutions inside, on {n} threads: {p}")))?;
        for i in [&inner, &deepest] {
            if let Some(b) = i.bad.lock().unwrap().take() {
                fail!("on {n} threads: {b}");
            }
        }
        if let Some(b) = SHARED.lock().unwrap().clone() {
            fail!("on {n} threads: {b}");
        }
        same_shown(&plain, &nested, &format!("{cfg:?} without and with evolutions inside, on {n} threads"))?;
        let v = inner.visits.load(SeqCst);
        c.count("evolutions inside", v);
        c.count("evolutions inside, two levels deep", if inner.deeper.is_some() { deepest.visits.load(SeqCst) } else { 0 });
        c.count("started while another waited on the same thread", inner.stolen.load(SeqCst));
        if v > 0 {
            c.sig((cfg.inner, cfg.algo, cfg.own, cfg.size, n, inner.deeper.is_some()));
        }
        c.sample(|| format!("{cfg:?}, {v} evolutions inside on {n} threads"));
        Ok(())
    });
    ctx.cases("waiting", 100, 1200, 8, |c| {
        let mut cfg = det_cfg(c);
        cfg.size = c.rng.gen_range(24..60);
        cfg.init = cfg.size;
        cfg.gens = 4;
        cfg.elitism = 0.0;
        cfg.fit = 1;
        let plain = pool(1, || det_run(&cfg, None)).map_err(|p| Viol(format!("{cfg:?}: {p}")))?;
        cfg.inner = Some(c.pick(&[Place::Evaluate, Place::Evaluate, Place::Improve]));
        let mut inner = Inner::new(c, None)?;
        {
            let i = Arc::get_mut(&mut inner).unwrap();
            for (k, alone) in i.cfgs.iter_mut().zip(i.alone.iter_mut()) {
                k.size = c.pick(&[6, 8, 12]);
                k.init = k.size;
                k.gens = 3;
                k.fit = 1;
                k.elitism = 0.0;
                k.busy = true;
                *alone = pool(1, || det_run(k, None)).map_err(|p| Viol(format!("{k:?}: {p}")))?;
            }
        }
        let n = c.pick(&[3usize, 4, 4, 5]);
        let nested = det_in(n, &cfg, Some(inner.clone())).map_err(|p| Viol(format!("{cfg:?} with evolutions inside, on {n} threads: {p}")))?;
        if let Some(b) = inner.bad.lock().unwrap().take().or(SHARED.lock().unwrap().clone()) {
            fail!("on {n} threads: {b}");
        }
        same_shown(&plain, &nested, &format!("{cfg:?} without and with evolutions inside, on {n} threads"))?;
        c.count("evolutions inside", inner.visits.load(SeqCst));
        c.count("started while another waited on the same thread", inner.stolen.load(SeqCst));
        c.sig(("waiting", cfg.inner, cfg.algo, cfg.own, cfg.size, n));
        Ok(())
    });
    ctx.require("started while another waited on the same thread", 100);
    ctx.require("evolutions inside", 1000);
    ctx.require("evolutions inside, two levels deep", 300);
}
