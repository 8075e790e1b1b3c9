//! C14-C26: monitors of whole evolutions.

use crate::evo::*;
use crate::popst::floor_band;
use crate::rt::*;
use crate::sel::{expected, strategy, Fi};
use crate::stat::*;
use crate::{dispatch, ensure, fail};
use rand::prelude::*;
use rusty_genes::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

// ------------------------------------------------------------------------------------------- case generation

const SIZES: [usize; 14] = [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 25, 33, 50];
const FITS: [Fit; 12] = [
    Fit::Tiny,
    Fit::Ulp,
    Fit::Rugged,
    Fit::Plateau,
    Fit::Sum,
    Fit::Negative,
    Fit::Constant,
    Fit::SomeInvalid,
    Fit::MostInvalid,
    Fit::Offset,
    Fit::Declining,
    Fit::Pulse,
];

fn elitism(c: &mut Case, size: usize) -> f64 {
    match c.below(6) {
        0 => 0.0,
        1 => c.pick(&[0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 0.999_999, 1.0 - f64::EPSILON / 2.0]),
        2 => c.below(size) as f64 / size as f64,
        // exactly one offspring per generation is missing
        3 => ((size - 1) as f64 / size as f64 * (1.0 + f64::EPSILON)).min(1.0 - f64::EPSILON),
        // just short of a whole number of elite members
        4 => ((c.rng.gen_range(1..=size) as f64 - c.pick(&[1e-10, 1e-8, 1e-6, 1e-4, 0.01])) / size as f64).clamp(0.0, 1.0 - f64::EPSILON),
        _ => c.rng.gen::<f64>(),
    }
}
fn rate(c: &mut Case) -> f64 {
    match c.below(4) {
        0 => 0.0,
        1 => 1.0,
        _ => c.rng.gen(),
    }
}
fn range(c: &mut Case) -> (f64, f64) {
    let (a, b) = (rate(c), rate(c));
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}
pub fn any_cfg(c: &mut Case) -> Cfg {
    let mut size = c.pick(&SIZES);
    let mut gens = c.pick(&[0, 1, 2, 3, 5, 8, 12]);
    let mut threads = c.pick(&[1, 1, 2, 3, 4]);
    if c.chance(if c.deep { 0.03 } else { 0.015 }) {
        // large populations
        size = c.pick(&[64, 100, 128, 200, 255, 256, 257, 500, 1000]);
        gens = gens.min(3);
        threads = c.pick(&[1, 4, 8]);
    } else if c.chance(if c.deep { 0.04 } else { 0.02 }) {
        // long runs
        size = c.pick(&[1, 2, 3, 5, 8, 12]);
        gens = c.pick(&[20, 33, 50, 65, 101, 130, 300]);
    }
    let algo = c.pick(&[Algo::Ga, Algo::Ga, Algo::Aga, Algo::Aga, Algo::Custom]);
    let init = if algo == Algo::Custom { c.pick(&[size, size, 1, 2 * size, size + 1, (size / 2).max(1)]) } else { size };
    let flavor = c.pick(&[Flavor::Default, Flavor::Survive, Flavor::Breed]);
    Cfg {
        algo,
        flavor,
        threads,
        size,
        init,
        elitism: elitism(c, size),
        cx: range(c),
        mx: range(c),
        interval: c.pick(&[0, 1, 1, 2, 3, 5]),
        strategy: strategy(c, size),
        gens,
        fit: c.pick(&FITS),
        len: c.pick(&[1, 2, 3, 5, 8, 12]),
        alphabet: c.pick(&[2, 3, 10, 250]),
        own_validity: c.chance(0.15),
        unique: flavor == Flavor::Breed && c.chance(0.5),
        nested: c.chance(0.1),
        jitter: c.chance(0.3),
        sample: 0,
        pre: c.pick(&[Pre::Nothing, Pre::Nothing, Pre::Rates, Pre::Selector(0), Pre::Selector(2)]),
        seed: c.rng.gen(),
    }
}
pub fn genome(c: &mut Case, cfg: &Cfg) -> Vec<u8> {
    (0..cfg.len).map(|_| c.rng.gen_range(0..cfg.alphabet)).collect()
}
pub fn any_start(c: &mut Case, cfg: &Cfg) -> Start {
    match c.below(4) {
        0 => Start::Random(c.rng.gen()),
        1 => Start::Single(genome(c, cfg)),
        _ => {
            let n = c.pick(&[cfg.size, cfg.size, 1, 2, 3 * cfg.size, cfg.size + 1, (cfg.size / 2).max(1)]);
            let mut v: Vec<Vec<u8>> = (0..n).map(|_| genome(c, cfg)).collect();
            if n > 1 && c.chance(0.3) {
                for _ in 0..n / 2 {
                    let (a, b) = (c.below(n), c.below(n));
                    v[a] = v[b].clone();
                }
            }
            Start::Given(v)
        }
    }
}
fn one_run(c: &mut Case, cfg: &Cfg) -> Trace {
    let start = any_start(c, cfg);
    let pre = c.chance(0.5);
    run_fresh(cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: pre }).0
}

// ------------------------------------------------------------------------------------------------- trace tools

impl Trace {
    pub fn name(&self) -> String {
        let k = &self.cfg;
        let st = match &self.start {
            Start::Random(_) => "random".to_string(),
            Start::Single(_) => "single".to_string(),
            Start::Given(v) => format!("given {}", v.len()),
        };
        format!(
            "{:?}/{:?} size {} (initial {}) elitism {} {:?} fitness {:?} start {st}, {} generations on {} threads",
            k.algo, k.flavor, k.size, k.init, k.elitism, k.strategy, k.fit, k.gens, k.threads
        )
    }
    /// Log entries before the first, between, and after the last progress calls.
    pub fn segs(&self) -> Vec<&[Ev]> {
        let mut v = vec![];
        let mut from = 0;
        for (i, e) in self.log.iter().enumerate() {
            match e {
                Ev::Progress { .. } => v.push(&self.log[from..i]),
                Ev::ProgressEnd { .. } => from = i + 1,
                _ => {}
            }
        }
        v.push(&self.log[from..]);
        v
    }
    /// Whether the run found no valid individual to start from.
    fn barren(&self) -> bool {
        self.snaps.is_empty() && !self.log.iter().any(|e| matches!(e, Ev::Eval { valid: true, .. }))
    }
    /// A run that must have come back normally; `None` if it rightly refused to start.
    pub fn out(&self) -> R<Option<&Out>> {
        if let Some(b) = &self.bad {
            fail!("{}: {b}", self.name());
        }
        match &self.out {
            Ok(o) => {
                ensure!(!self.snaps.is_empty(), "{}: the run returned without calling the progress closure", self.name());
                Ok(Some(o))
            }
            Err(Panicked::Other(_)) if self.barren() => Ok(None),
            Err(p) => fail!("{}: after {} generations: {p}", self.name(), self.snaps.len()),
        }
    }
    fn genes(&self, i: usize) -> HashSet<(&[u8], u64)> {
        self.snaps[i].mem.iter().map(|m| (&m.g[..], m.fit.to_bits())).collect()
    }
}

/// Bounds on the number of elites a population of the configured size carries over.
fn elites(cfg: &Cfg) -> (usize, usize) {
    if cfg.algo == Algo::Custom {
        return (1, 1);
    }
    let (a, b) = floor_band(0, cfg.size as u64, cfg.elitism);
    (a as usize, b as usize)
}

// ----------------------------------------------------------------------------- C11, C12 as runs show them

pub fn c11_runs(ctx: &Ctx) {
    ctx.rule("Besides, whole evolutions: every population shown to the progress closure is checked the same way.");
    ctx.cases("runs", 600, 8000, 8, |c| {
        let mut cfg = any_cfg(c);
        if c.chance(0.6) {
            // small alphabets and ties: duplicates all the time
            cfg.alphabet = 2;
            cfg.len = c.rng.gen_range(1..8);
            cfg.fit = c.pick(&[Fit::Plateau, Fit::Constant, Fit::Sum, Fit::Pulse]);
        }
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        for (i, s) in t.snaps.iter().enumerate() {
            let what = || format!("{}: population {i}", t.name());
            let n = s.mem.len();
            ensure!(n > 0, "{} is empty", what());
            let g: HashSet<&Vec<u8>> = s.mem.iter().map(|m| &m.g).collect();
            ensure!(g.len() == n, "{} has {n} members, but only {} different ones", what(), g.len());
            ensure!(s.mem.windows(2).all(|w| w[0].fit <= w[1].fit), "{} is not in ascending order of fitness", what());
            let (lo, hi) = (s.mem[0].fit, s.mem[n - 1].fit);
            let st = &s.stats;
            ensure!(
                st.count() == n && st.min() == lo && st.max() == hi && st.arg_min() < n && st.arg_max() < n,
                "{}: stats {st} for {n} members of {lo}..={hi}",
                what()
            );
            ensure!(s.mem[st.arg_min()].fit == lo && s.mem[st.arg_max()].fit == hi, "{}: wrong position of the extremes", what());
            ensure!(s.best.fit == hi, "{}: fittest has fitness {} of at most {hi}", what(), s.best.fit);
            let avg = s.mem.iter().map(|m| m.fit).sum::<f64>() / n as f64;
            let var = if n < 2 { 0.0 } else { s.mem.iter().map(|m| (m.fit - avg).powi(2)).sum::<f64>() / (n - 1) as f64 };
            let big = lo.abs().max(hi.abs());
            let u = f64::EPSILON * n as f64 * 8.0;
            ensure!((st.avg() - avg).abs() <= u * big, "{}: average {} instead of {avg}", what(), st.avg());
            ensure!(
                (st.var() - var).abs() <= u * (var + big * var.sqrt()) + 64.0 * (f64::EPSILON * big).powi(2),
                "{}: variance {} instead of {var}",
                what(),
                st.var()
            );
            c.count("populations of runs checked", 1);
            c.evals(1);
            if n > 1 {
                c.sig((n, s.hash));
            }
        }
        Ok(())
    });
    ctx.require("populations of runs checked", 1000);
}

pub fn c12_runs(ctx: &Ctx) {
    ctx.rule("Besides, whole evolutions: generation and stagnation as shown to the progress closure are recomputed from the populations it has seen.");
    ctx.cases("runs", 600, 8000, 8, |c| {
        let mut cfg = any_cfg(c);
        if c.chance(0.5) {
            cfg.fit = c.pick(&[Fit::Plateau, Fit::Declining, Fit::Constant, Fit::Pulse]);
        }
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        let mut stag = 0;
        let mut best = f64::NEG_INFINITY;
        let mut moves = String::new();
        for (i, s) in t.snaps.iter().enumerate() {
            let now = s.mem.iter().map(|m| m.fit).fold(f64::NEG_INFINITY, f64::max);
            if i > 0 {
                stag = if now > best { 0 } else { stag + 1 };
                moves.push(if now > best { '+' } else if now == best { '=' } else { '-' });
            }
            best = now;
            ensure!(
                s.gen == i && s.stag == stag,
                "{}: population {i} reports generation {} and stagnation {} instead of {stag}; {moves}",
                t.name(),
                s.gen,
                s.stag
            );
            c.evals(1);
            c.count("generations of runs checked", 1);
        }
        if moves.len() > 1 {
            c.sig(("run", moves));
        }
        Ok(())
    });
    ctx.require("generations of runs checked", 1000);
}

// ---------------------------------------------------------------------------------------------------- C31

pub fn c31_live(ctx: &Ctx) {
    ctx.cases("individuals", 1500, 20_000, 8, |c| {
        let mut cfg = any_cfg(c);
        if c.chance(0.3) {
            cfg.size = c.pick(&[1, 2, 3, 5, 8]);
            cfg.init = cfg.size;
            cfg.elitism = elitism(c, cfg.size);
            cfg.gens = c.pick(&[30, 60, 120]);
        }
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        let most = cfg.size.max(cfg.init).max(t.initial.len());
        for (i, s) in t.snaps.iter().enumerate() {
            ensure!(
                s.live <= 3 * most as i64 + 8,
                "{}: {} individuals are alive at progress call {i}, the population has {} of at most {most} members",
                t.name(),
                s.live,
                s.mem.len()
            );
            c.count("individuals alive counted", s.live as u64);
        }
        c.evals(t.snaps.len() as u64);
        c.sig(("live", cfg.algo, cfg.flavor, cfg.size, cfg.threads, t.snaps.len()));
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------------- C14

fn check_elitism(t: &Trace) -> R<u64> {
    let k = elites(&t.cfg).0;
    let mut seen = 0;
    for i in 1..t.snaps.len() {
        let prev = &t.snaps[i - 1].mem;
        let kk = k.min(prev.len());
        if kk == 0 {
            continue;
        }
        let mut f: Vec<f64> = prev.iter().map(|m| m.fit).collect();
        f.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let kth = f[kk - 1];
        let now = t.genes(i);
        let mut kept = 0;
        for m in prev {
            let here = now.contains(&(&m.g[..], m.fit.to_bits()));
            if m.fit >= kth && here {
                kept += 1;
            }
            ensure!(
                here || m.fit <= kth,
                "{}: generation {i} lost {:?} of fitness {} although {kk} elites reach down to {kth}",
                t.name(),
                m.g,
                m.fit
            );
        }
        ensure!(kept >= kk, "{}: generation {i} kept {kept} of {kk} elites", t.name());
        let best = t.snaps[i].mem.iter().map(|m| m.fit).fold(f64::NEG_INFINITY, f64::max);
        ensure!(best >= f[0], "{}: the best fitness fell from {} to {best} in generation {i}", t.name(), f[0]);
        ensure!(
            t.snaps[i].stats.max() >= t.snaps[i - 1].stats.max(),
            "{}: the reported best fitness fell in generation {i}",
            t.name()
        );
        seen += kk as u64;
    }
    Ok(seen)
}

pub fn c14(ctx: &Ctx) {
    crate::giant::evolutions(ctx);
    crate::longrun::long(ctx);
    ctx.rule("A case is one evolution (genetic, adaptive or user-defined algorithm; default or own breeding, any selection, 1..4 threads, sizes 1..50, initial lists of other lengths) whose populations are recorded at each progress call; elites of each are looked for in the next, by genome and fitness. Non-trivial: generations in which some but not all members are elites, by distinct (algorithm, size, elites, members, fitness shape).");
    ctx.cases("runs", 3000, 60_000, 8, |c| {
        let mut cfg = any_cfg(c);
        if c.chance(0.5) {
            cfg.fit = c.pick(&[Fit::Declining, Fit::Plateau, Fit::Rugged]);
            cfg.flavor = c.pick(&[Flavor::Survive, Flavor::Breed]);
        }
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        let n = check_elitism(&t)?;
        c.count("elites followed", n);
        c.count("generations", t.snaps.len() as u64 - 1);
        c.sample(|| t.name());
        let k = elites(&cfg).0;
        for s in &t.snaps[1..] {
            if k > 0 && k < s.mem.len() {
                c.sig((cfg.algo, cfg.size, k, s.mem.len(), cfg.fit));
            }
        }
        Ok(())
    });
    ctx.require("elites followed", 1000);
}

// ---------------------------------------------------------------------------------------------------- C15

fn check_quota(t: &Trace) -> R<u64> {
    let (lo, hi) = elites(&t.cfg);
    let segs = t.segs();
    let mut seen = 0;
    for i in 1..t.snaps.len() {
        let prev = &t.snaps[i - 1].mem;
        let quota_of = |k: usize| t.cfg.size.saturating_sub(k.min(prev.len()));
        let (qa, qb) = (quota_of(hi), quota_of(lo));
        let ev = segs[i];
        let evals = ev.iter().filter(|e| matches!(e, Ev::Eval { .. })).count();
        ensure!(
            (qa..=qb).contains(&evals),
            "{}: generation {i} bred {evals} offspring, its quota is {qb} ({} members before)",
            t.name(),
            prev.len()
        );
        let next = &t.snaps[i].mem;
        ensure!(next.len() <= t.cfg.size, "{}: generation {i} has {} members", t.name(), next.len());
        ensure!(!next.is_empty(), "{}: generation {i} is empty", t.name());
        if t.cfg.flavor == Flavor::Breed {
            let bred: Vec<(u64, u64)> =
                ev.iter().filter_map(|e| if let Ev::BreedEnd { id, g } = e { Some((*id, *g)) } else { None }).collect();
            ensure!(bred.len() == evals, "{}: {} breedings, {evals} evaluations", t.name(), bred.len());
            let k = t.cfg.size.saturating_sub(evals).min(prev.len());
            // the members carried over, by rank; ties make the choice of the last ones free
            let mut f: Vec<f64> = prev.iter().map(|m| m.fit).collect();
            f.sort_by(|a, b| b.partial_cmp(a).unwrap());
            let bg: HashSet<u64> = bred.iter().map(|b| b.1).collect();
            let ng: HashSet<u64> = next.iter().map(|m| hash64(&m.g)).collect();
            for b in &bg {
                ensure!(ng.contains(b), "{}: an offspring bred for generation {i} is not in it", t.name());
            }
            let mut carried = 0;
            for m in next {
                if bg.contains(&hash64(&m.g)) {
                    continue;
                }
                carried += 1;
                let ok = k > 0 && m.fit >= f[k - 1] && prev.iter().any(|p| p.id == m.id);
                ensure!(ok, "{}: a member of generation {i} is neither bred nor an elite", t.name());
            }
            ensure!(carried <= k, "{}: generation {i} carried over {carried} members instead of {k}", t.name());
            if t.cfg.unique && t.cfg.fit != Fit::MostInvalid && t.cfg.fit != Fit::SomeInvalid && !t.cfg.own_validity {
                ensure!(
                    next.len() == bred.len() + k,
                    "{}: generation {i} has {} members of {} different offspring and {k} elites",
                    t.name(),
                    next.len(),
                    bred.len()
                );
                ensure!(
                    prev.len() < lo || next.len() == t.cfg.size,
                    "{}: generation {i} has {} of {} members",
                    t.name(),
                    next.len(),
                    t.cfg.size
                );
            }
        }
        seen += evals as u64;
    }
    Ok(seen)
}

pub fn c15(ctx: &Ctx) {
    crate::giant::evolutions(ctx);
    crate::longrun::long(ctx);
    ctx.rule("A case is one evolution with all breedings and evaluations logged; per generation the number bred is compared with the quota, and the next population with elites plus offspring. Quotas of 0 and 1 are generated on purpose. Non-trivial: by distinct (algorithm, flavor, size, quota class, threads).");
    ctx.cases("runs", 3000, 60_000, 8, |c| {
        let mut cfg = any_cfg(c);
        if c.chance(0.5) {
            cfg.flavor = Flavor::Breed;
            cfg.unique = c.chance(0.6);
        }
        if c.chance(0.35) {
            // one missing offspring
            match cfg.algo {
                Algo::Custom => cfg.size = 2,
                _ => cfg.elitism = (cfg.size - 1) as f64 / cfg.size as f64 * (1.0 + f64::EPSILON),
            }
        }
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        let n = check_quota(&t)?;
        c.count("offspring", n);
        c.sample(|| t.name());
        for (i, s) in t.segs().iter().enumerate().skip(1).take(t.snaps.len() - 1) {
            let q = s.iter().filter(|e| matches!(e, Ev::Eval { .. })).count();
            c.count(if q == 0 { "quota 0" } else if q == 1 { "quota 1" } else { "quota 2+" }, 1);
            c.sig((cfg.algo, cfg.flavor, cfg.size, q, t.snaps[i - 1].mem.len() > cfg.size, cfg.threads));
        }
        Ok(())
    });
    ctx.cases("own algorithm", 300, 5000, 8, crate::ext::c15_own);
    ctx.require("more elites than places", 100);
    ctx.require("quota 1", 500);
    ctx.require("quota 2+", 1000);
}

// ---------------------------------------------------------------------------------------------------- C16

fn check_members(t: &Trace, w: &World) -> R<u64> {
    let mut seen = 0;
    let mut all: Vec<(&Mem, String)> = vec![];
    for (i, s) in t.snaps.iter().enumerate() {
        for m in &s.mem {
            all.push((m, format!("generation {i}")));
        }
    }
    match &t.out {
        Ok(Out::One(m)) => all.push((m, "the result".into())),
        Ok(Out::Many(v)) => all.extend(v.iter().map(|m| (m, "the result".to_string()))),
        _ => {}
    }
    for (m, where_) in all {
        ensure!(!m.dirty, "{}: {where_} shows an individual that changed after it was last evaluated", t.name());
        ensure!(m.valid, "{}: {where_} contains an invalid individual {:?} of fitness {}", t.name(), m.g, m.fit);
        let f = w.fitness(&m.g);
        ensure!(
            f.to_bits() == m.fit.to_bits(),
            "{}: {where_} shows {:?} with fitness {} instead of {f}",
            t.name(),
            m.g,
            m.fit
        );
        seen += 1;
    }
    Ok(seen)
}

fn check_initial_evals(t: &Trace) -> R<u64> {
    let segs = t.segs();
    let mut ids: HashMap<u64, u64> = HashMap::new();
    let mut insts: HashSet<u64> = HashSet::new();
    let mut n = 0;
    for e in segs[0] {
        if let Ev::Eval { id, inst, .. } = e {
            *ids.entry(*id).or_default() += 1;
            ensure!(insts.insert(*inst), "{}: an initial individual was evaluated twice", t.name());
            n += 1;
        }
    }
    let want: HashSet<u64> = match &t.start {
        Start::Given(_) => t.initial.iter().map(|m| m.id).collect(),
        Start::Random(_) => {
            segs[0].iter().filter_map(|e| if let Ev::New { id, .. } = e { Some(*id) } else { None }).collect()
        }
        Start::Single(_) => t
            .initial
            .iter()
            .map(|m| m.id)
            .chain(segs[0].iter().filter_map(|e| if let Ev::Mut { to, .. } = e { Some(*to) } else { None }))
            .collect(),
    };
    for id in &want {
        let k = ids.get(id).copied().unwrap_or(0);
        ensure!(k == 1, "{}: an initial individual was evaluated {k} times before the first generation", t.name());
    }
    ensure!(ids.len() == want.len(), "{}: {} initial individuals, {} evaluated", t.name(), want.len(), ids.len());
    for (i, s) in segs.iter().enumerate().skip(1) {
        for e in s.iter() {
            if let Ev::Eval { dirty, .. } = e {
                ensure!(*dirty, "{}: an individual that had not changed was evaluated again in generation {i}", t.name());
            }
        }
    }
    Ok(n)
}

/// An individual that leaves its validity to the library.
#[derive(Clone, Debug, PartialEq)]
struct Plain(f64, f64);
impl Individual for Plain {
    fn fitness(&self) -> f64 {
        self.1
    }
}
struct PlainModel;
impl EvolutionModel for PlainModel {
    type Individual = Plain;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        SmallRng::seed_from_u64(3)
    }
    fn crossover(&self, a: &Plain, b: &Plain, rng: &mut SmallRng) -> Plain {
        Plain(if rng.gen() { a.0 } else { b.0 }, 77.0)
    }
    fn mutate(&self, i: &mut Plain, rng: &mut SmallRng) {
        i.0 = *[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.5, 2.5, -3.5, 1e308, rng.gen()].choose(rng).unwrap();
    }
    fn evaluate(&self, i: &mut Plain) {
        i.1 = i.0;
    }
}

pub fn c16(ctx: &Ctx) {
    crate::giant::evolutions(ctx);
    ctx.rule("A case is one evolution in which every individual carries a version that each change renews and evaluation confirms; stale individuals pretend a very high fitness; many fitness functions give NaN, infinities or call individuals invalid. Every member shown or returned is checked, evaluations of initial individuals are counted one by one. Non-trivial: runs in which something invalid was evaluated, by distinct (algorithm, flavor, size, start, fitness shape, number of members).");
    ctx.cases("runs", 3000, 60_000, 8, |c| {
        let mut cfg = any_cfg(c);
        if c.chance(0.6) {
            cfg.fit = c.pick(&[Fit::SomeInvalid, Fit::MostInvalid]);
            cfg.own_validity = c.chance(0.5);
        }
        let start = any_start(c, &cfg);
        let pre = c.chance(0.5);
        let (t, w) = run_fresh(&cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: pre });
        let invalid = t.log.iter().filter(|e| matches!(e, Ev::Eval { valid: false, .. })).count();
        if t.out()?.is_none() {
            ensure!(t.out.is_err(), "{}: started without a valid individual", t.name());
            ensure!(
                !t.log.iter().any(|e| matches!(e, Ev::Progress { .. } | Ev::Breed { .. } | Ev::Cross { .. } | Ev::PreGen { .. })),
                "{}: went on without a valid individual",
                t.name()
            );
            c.count("refused: nothing valid", 1);
            c.sig((cfg.algo, "refused", cfg.size, cfg.fit));
            return Ok(());
        }
        ensure!(
            t.segs()[0].iter().any(|e| matches!(e, Ev::Eval { valid: true, .. })),
            "{}: the progress closure was called although no initial individual is valid",
            t.name()
        );
        let n = check_members(&t, &w)?;
        let k = check_initial_evals(&t)?;
        c.count("members", n);
        c.count("initial evaluations", k);
        c.count("invalid evaluations", invalid as u64);
        c.sample(|| t.name());
        if invalid > 0 {
            c.sig((cfg.algo, cfg.flavor, cfg.size, cfg.fit, hash64(&t.snaps.iter().map(|s| s.mem.len()).collect::<Vec<_>>())));
        }
        Ok(())
    });
    ctx.cases("default validity", 400, 8000, 8, |c| {
        let n = c.rng.gen_range(1..20);
        let mut v: Vec<Plain> = vec![];
        for _ in 0..n {
            let bad = c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            let x = if c.chance(0.5) { bad } else { c.rng.gen() };
            v.push(Plain(x, c.pick(&[0.0, f64::NAN, 5.0])));
        }
        let valid = v.iter().filter(|p| p.0.is_finite()).count();
        let mut shown = 0u64;
        let mut wrong = None;
        let seen_first = std::cell::Cell::new(false);
        let params = GeneticAlgorithmParameters {
            population_size: n,
            elitism_rate: elitism(c, n),
            crossover_rate: rate(c),
            mutation_rate: 0.7,
            selection_strategy: SelectionStrategy::Tournament(2),
        };
        let e = GeneticAlgorithm::build_evolution(PlainModel);
        let r = lib(|| {
            e.evolve_population(v, &params, |p| {
                if !seen_first.replace(true) && p.len() > valid {
                    wrong = Some(format!("{} members of {valid} valid ones", p.len()));
                }
                for i in p.iter() {
                    shown += 1;
                    if !i.fitness().is_finite() || i.0 != i.1 {
                        wrong = Some(format!("member {i:?}"));
                    }
                }
                p.generation() < 6
            })
        });
        if let Some(x) = wrong {
            fail!("individuals with the default validity: {x}");
        }
        if valid == 0 {
            ensure!(r.is_err() && !seen_first.get(), "a run started from individuals without a finite fitness");
            c.count("refused: nothing valid", 1);
        } else if let Err(p) = r {
            fail!("run from {valid} valid individuals: {p}");
        }
        c.count("members", shown);
        c.sig((n, valid));
        Ok(())
    });
    ctx.require("members", 10_000);
    ctx.require("invalid evaluations", 1000);
    ctx.require("refused: nothing valid", 20);
}

// ---------------------------------------------------------------------------------------------------- C17

fn check_result(t: &Trace) -> R<u64> {
    match &t.out {
        Ok(Out::One(m)) => {
            let best = t.snaps.iter().flat_map(|s| &s.mem).map(|m| m.fit).fold(f64::NEG_INFINITY, f64::max);
            ensure!(
                m.fit == best,
                "{}: returned fitness {}, but {best} was among the populations shown",
                t.name(),
                m.fit
            );
            let known = t.snaps.iter().flat_map(|s| &s.mem).any(|x| x.g == m.g && x.fit == m.fit);
            ensure!(known, "{}: the returned individual was in none of the populations shown", t.name());
        }
        Ok(Out::Many(v)) => {
            let last = &t.snaps.last().unwrap().mem;
            let a: Vec<_> = v.iter().map(|m| (&m.g, m.fit, m.id)).collect();
            let b: Vec<_> = last.iter().map(|m| (&m.g, m.fit, m.id)).collect();
            ensure!(a == b, "{}: the population returned is not the one last shown", t.name());
        }
        _ => {}
    }
    Ok(1)
}

pub fn c17(ctx: &Ctx) {
    crate::longrun::long(ctx);
    ctx.rule("A case is one evolution, half of them without elitism and with fitness that gets worse, with every population recorded; the result is compared with all of them. Non-trivial: runs whose best individual is not in the last population, by distinct (algorithm, flavor, size, generation of the best).");
    ctx.cases("runs", 4000, 80_000, 8, |c| {
        let mut cfg = any_cfg(c);
        if c.chance(0.7) {
            cfg.elitism = if c.chance(0.7) { 0.0 } else { 0.5 / cfg.size as f64 };
            cfg.flavor = c.pick(&[Flavor::Survive, Flavor::Breed, Flavor::Breed]);
            cfg.fit = c.pick(&[Fit::Declining, Fit::Rugged, Fit::Negative, Fit::SomeInvalid, Fit::Tiny, Fit::Ulp]);
            cfg.gens = c.rng.gen_range(0..9);
        }
        let start = match c.below(3) {
            0 => any_start(c, &cfg),
            1 => Start::Random(5),
            _ => Start::Single(genome(c, &cfg)),
        };
        let (t, w) = run_fresh(&cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: false });
        let Some(out) = t.out()? else { return Ok(()) };
        check_result(&t)?;
        if let (Start::Single(g), Out::One(m)) = (&start, out) {
            let f = w.fitness(g);
            let valid = f.is_finite() && !(cfg.own_validity && hash64(g) % 3 == 0);
            ensure!(!valid || m.fit >= f, "{}: given fitness {f}, returned {}", t.name(), m.fit);
        }
        c.count(if matches!(out, Out::One(_)) { "individuals returned" } else { "populations returned" }, 1);
        if let Out::One(m) = out {
            if t.snaps.last().unwrap().mem.iter().all(|x| x.fit < m.fit) {
                c.count("best lost on the way", 1);
                let at = t.snaps.iter().position(|s| s.mem.iter().any(|x| x.fit == m.fit)).unwrap();
                c.sig((cfg.algo, cfg.flavor, cfg.size, at, cfg.gens));
            }
        }
        c.sample(|| t.name());
        Ok(())
    });
    ctx.require("best lost on the way", 300);
    ctx.require("populations returned", 300);
}

// ---------------------------------------------------------------------------------------------------- C18

fn base_cfg(c: &mut Case) -> Cfg {
    let mut cfg = any_cfg(c);
    cfg.threads = 1;
    cfg.jitter = false;
    cfg.nested = false;
    cfg.pre = Pre::Nothing;
    cfg
}

/// Evaluated individuals with pairwise different genomes.
fn breeding_stock(c: &mut Case, w: &Arc<World>, n: usize) -> Vec<Ind> {
    let mut seen = HashSet::new();
    let mut v = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 5000 + 20 * n {
        tries += 1;
        let g: Vec<u8> = (0..w.cfg.len.max(if n > 50 { 14 } else { 6 })).map(|_| c.rng.gen_range(0..w.cfg.alphabet.max(4))).collect();
        if !seen.insert(g.clone()) {
            continue;
        }
        let mut i = Ind::new(w, g);
        i.fit = w.fitness(&i.g);
        i.dirty = false;
        if i.is_valid() {
            v.push(i);
        }
    }
    v
}

fn one_breed<M>(c: &mut Case, m: &M, w: &Arc<World>, p: &Population<Ind>, par: &ReproductionParameters<M>, rng: &mut WRng) -> R<(bool, bool)>
where
    M: EvolutionModel<Individual = Ind, Rng = WRng>,
{
    let at = w.at();
    let what = || format!("breeding from {} members with rates {} and {}", p.len(), par.crossover_rate, par.mutation_rate);
    let r = must(what, || m.breed(p, par, rng))?;
    let ev = w.log.lock().unwrap()[at..].to_vec();
    let pos = |f: &dyn Fn(&Ev) -> bool| -> Vec<usize> { ev.iter().enumerate().filter(|(_, e)| f(e)).map(|(i, _)| i).collect() };
    let sel = pos(&|e| matches!(e, Ev::Select { .. }));
    let crs = pos(&|e| matches!(e, Ev::Cross { .. }));
    let mts = pos(&|e| matches!(e, Ev::Mut { .. }));
    let imp = pos(&|e| matches!(e, Ev::Imp { .. }));
    let evl = pos(&|e| matches!(e, Ev::Eval { .. }));
    let srv = pos(&|e| matches!(e, Ev::Surv { .. }));
    let tell = || format!("{}: steps {ev:?}", what());
    ensure!(!sel.is_empty() && crs.len() <= 1 && mts.len() <= 1, "{}", tell());
    ensure!(imp.len() == 1 && evl.len() == 1 && srv.len() <= 1, "{}: improved {} times, evaluated {} times", tell(), imp.len(), evl.len());
    let first = match ev[sel[0]] {
        Ev::Select { idx, .. } => &p[idx],
        _ => unreachable!(),
    };
    // order
    let seq: Vec<usize> = crs.iter().chain(&mts).chain(&imp).chain(&evl).chain(&srv).copied().collect();
    ensure!(seq.windows(2).all(|x| x[0] < x[1]) && sel[0] < seq[0], "{}: wrong order", tell());
    // lineage
    let mut cur = first.id;
    let mut parents = vec![first];
    if let Some(&i) = crs.first() {
        let Ev::Cross { a, b, out } = ev[i] else { unreachable!() };
        let pa = p.iter().find(|x| x.id == a);
        let pb = p.iter().find(|x| x.id == b);
        let (Some(pa), Some(pb)) = (pa, pb) else { fail!("{}: a parent is not in the population", tell()) };
        ensure!(pa != pb, "{}: recombined an individual with itself", tell());
        ensure!(a == first.id || b == first.id, "{}: the first selected parent takes no part", tell());
        let other = if a == first.id { pb } else { pa };
        ensure!(
            sel[1..].iter().any(|&s| s < i && matches!(ev[s], Ev::Select { idx, .. } if p[idx].id == other.id)),
            "{}: the second parent was not selected",
            tell()
        );
        parents.push(other);
        cur = out;
    }
    for i in mts.iter().chain(&imp) {
        let (Ev::Mut { from, to } | Ev::Imp { from, to }) = ev[*i] else { unreachable!() };
        ensure!(from == cur, "{}: step {i} works on another individual", tell());
        cur = to;
    }
    let Ev::Eval { id, valid, .. } = ev[evl[0]] else { unreachable!() };
    ensure!(id == cur, "{}: evaluated another individual", tell());
    let fp = parents.iter().map(|x| x.fit).fold(f64::NEG_INFINITY, f64::max);
    let mut survives = None;
    if let Some(&i) = srv.first() {
        let Ev::Surv { off, off_dirty, parent, parent_fit, ok } = ev[i] else { unreachable!() };
        ensure!(off == cur && !off_dirty, "{}: the survival test got another individual, or an unevaluated one", tell());
        ensure!(
            parents.iter().any(|x| x.id == parent) && f64::from_bits(parent_fit) == fp,
            "{}: the survival test got a parent of fitness {}, the fitter one has {fp}",
            tell(),
            f64::from_bits(parent_fit)
        );
        survives = Some(ok);
    }
    let is_off = r.id == cur;
    let is_fp = parents.iter().any(|x| x.id == r.id && x.fit == fp && x.g == r.g && x.fit.to_bits() == r.fit.to_bits());
    let f = w.fitness(&r.g);
    ensure!(!r.dirty && f.to_bits() == r.fit.to_bits(), "{}: the result was changed after its evaluation", tell());
    let want = match survives {
        _ if !valid => false,
        Some(ok) => ok,
        None if w.cfg.flavor == Flavor::Survive => fail!("{}: no survival test of a valid offspring", tell()),
        // the default test
        None => is_off && f >= fp || !is_off && !offspring_would_win(w, cur, fp),
    };
    if w.cfg.flavor == Flavor::Survive || !valid {
        ensure!(if want { is_off } else { is_fp }, "{}: the result is {} the offspring", tell(), if is_off { "" } else { "not" });
    } else {
        ensure!(want && (is_off || is_fp), "{}: offspring against parent of fitness {fp}, result of fitness {}", tell(), r.fit);
    }
    c.count(if is_off { "offspring won" } else { "parent won" }, 1);
    if !valid {
        c.count("invalid offspring", 1);
    }
    Ok((!crs.is_empty(), !mts.is_empty()))
}
/// Whether the offspring that was not returned had at least the fitness of the fitter parent.
fn offspring_would_win(w: &World, id: u64, fp: f64) -> bool {
    let m = w.evaluated.lock().unwrap();
    m.get(&id).is_some_and(|f| *f >= fp)
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("A case breeds one offspring at a time, directly from a population of 1..12 different members, with a scripted or a real selector and logging callbacks; each breeding's steps, their order and operands, and the competition are checked. Rates are checked as frequencies of the four combinations over thousands of breedings. Non-trivial: by distinct (flavor, size, crossed, mutated, who won).");
    ctx.cases("steps", 6000, 120_000, 8, |c| {
        let mut cfg = base_cfg(c);
        cfg.flavor = c.pick(&[Flavor::Default, Flavor::Survive]);
        let n = if c.chance(0.01) { c.pick(&[100, 300, 1100]) } else { c.pick(&[1, 1, 2, 3, 5, 12]) };
        let w = World::new(cfg.clone());
        w.keep_fitness.store(true, SeqCst);
        set_world(Some(w.clone()));
        let stock = breeding_stock(c, &w, n);
        if stock.is_empty() {
            return Ok(());
        }
        let p = Population::new(stock);
        let (cx, mx) = (rate(c), rate(c));
        macro_rules! with {
            ($m:ident) => {{
                let m = $m(w.clone());
                let script: Vec<usize> = (0..c.rng.gen_range(1..6)).map(|_| c.below(n)).collect();
                let mut par: ReproductionParameters<$m> = Default::default();
                par.crossover_rate = cx;
                par.mutation_rate = mx;
                par.parent_selector = Box::new(ScriptSel { w: w.clone(), script, pos: AtomicU64::new(0) });
                let mut rng = WRng::seeded(&w, c.rng.gen());
                rng.mode = c.below(2) as u8;
                for _ in 0..8 {
                    let (x, m2) = one_breed(c, &m, &w, &p, &par, &mut rng)?;
                    ensure!(!(x && (cx == 0.0 || p.len() == 1)), "recombined at rate {cx} with {} members", p.len());
                    ensure!(!(m2 && mx == 0.0) && (m2 || mx < 1.0), "mutation at rate {mx}: {m2}");
                    c.count("breedings", 1);
                    c.sig((cfg.flavor, p.len(), x, m2, cfg.fit));
                }
            }};
        }
        if cfg.flavor == Flavor::Default {
            with!(DModel)
        } else {
            with!(SModel)
        }
        if let Some(b) = w.bad.lock().unwrap().clone() {
            fail!("{b}");
        }
        c.sample(|| format!("{cfg:?}"));
        Ok(())
    });
    ctx.cases("rates", 150, 3000, 8, |c| {
        let mut cfg = base_cfg(c);
        cfg.flavor = Flavor::Default;
        cfg.fit = c.pick(&[Fit::Rugged, Fit::Constant, Fit::Sum]);
        cfg.own_validity = false;
        let w = World::new(cfg.clone());
        w.keep_fitness.store(true, SeqCst);
        set_world(Some(w.clone()));
        let n = if c.chance(0.05) { c.pick(&[65, 200, 600, 1100, 2100]) } else { c.pick(&[2, 3, 7]) };
        let stock = breeding_stock(c, &w, n);
        let n = stock.len();
        let p = Population::new(stock);
        let (cx, mx) = (rate(c), rate(c));
        let m = DModel(w.clone());
        let mut par: ReproductionParameters<DModel> = Default::default();
        par.crossover_rate = cx;
        par.mutation_rate = mx;
        // neighbouring selections always differ: a partner is always found
        par.parent_selector = Box::new(ScriptSel { w: w.clone(), script: (0..n).collect(), pos: AtomicU64::new(0) });
        let mut rng = WRng::seeded(&w, c.rng.gen());
        let mut cnt = [0u64; 4];
        let total = if c.deep { 8000 } else { 3000 };
        for _ in 0..total {
            let (x, m2) = one_breed(c, &m, &w, &p, &par, &mut rng)?;
            cnt[x as usize * 2 + m2 as usize] += 1;
            w.log.lock().unwrap().clear();
            w.evaluated.lock().unwrap().clear();
        }
        c.count("breedings", total);
        c.count("rate pairs", 1);
        fits(
            || format!("(neither, mutated, crossed, both) at crossover rate {cx} and mutation rate {mx}"),
            &cnt,
            &[(1.0 - cx) * (1.0 - mx), (1.0 - cx) * mx, cx * (1.0 - mx), cx * mx],
        )?;
        c.sig((cx.to_bits(), mx.to_bits()));
        Ok(())
    });
    // real selectors in whole runs: breeding of logged individuals only follows the protocol
    ctx.cases("population of one", 200, 2000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.flavor = Flavor::Default;
        cfg.size = 1;
        cfg.init = 1;
        cfg.cx = (1.0, 1.0);
        cfg.gens = 5;
        cfg.elitism = 0.0;
        let start = Start::Single(genome(c, &cfg));
        let (t, _) = run_fresh(&cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: false });
        if t.out()?.is_some() {
            ensure!(!t.log.iter().any(|e| matches!(e, Ev::Cross { .. })), "{}: recombination in a population of one", t.name());
            c.count("runs of one", 1);
        }
        Ok(())
    });
    // the default survival test
    ctx.cases("default survival", 500, 5000, 8, |c| {
        let cfg = base_cfg(c);
        let w = World::new(cfg);
        set_world(Some(w.clone()));
        let m = DModel(w.clone());
        let p = Population::new(breeding_stock(c, &w, 3).into_iter().chain([{
            let mut i = Ind::new(&w, vec![1]);
            i.fit = 1.0;
            i
        }]).collect());
        let mut rng = WRng::seeded(&w, 1);
        for _ in 0..50 {
            let mut a = Ind::new(&w, vec![1]);
            let mut b = Ind::new(&w, vec![2]);
            let vals = [0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 5e-324, 1.0 + f64::EPSILON];
            a.fit = c.pick(&vals);
            b.fit = c.pick(&vals);
            let r = must(|| "can_survive".into(), || m.can_survive(&a, &b, &p, &mut rng))?;
            ensure!(r == (a.fit >= b.fit), "offspring of fitness {} against parent of fitness {}: survives = {r}", a.fit, b.fit);
        }
        c.evals(49);
        c.count("survival tests", 50);
        Ok(())
    });
    ctx.require("breedings", 10_000);
    ctx.require("rate pairs", 50);
    ctx.require("invalid offspring", 100);
}

// ---------------------------------------------------------------------------------------------------- C19

pub fn c19(ctx: &Ctx) {
    crate::longrun::long(ctx);
    ctx.rule("A case is one adaptive evolution with own breeding that logs the rates it is given; they are compared with the rates computed from the statistics the populations reported. Non-trivial: adjustments with a diversity strictly between 0 and 1, by distinct (ranges, interval, generation, diversity).");
    ctx.cases("runs", 3000, 60_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.algo = Algo::Aga;
        cfg.flavor = Flavor::Breed;
        cfg.pre = Pre::Nothing;
        cfg.init = cfg.size;
        cfg.elitism = if c.chance(0.5) { 0.0 } else { elitism(c, cfg.size) };
        cfg.gens = c.pick(&[3, 6, 10, 14]);
        if c.chance(0.02) {
            cfg.size = cfg.size.min(12);
            cfg.gens = c.pick(&[40, 70, 110, 260]);
        }
        cfg.interval = c.pick(&[0, 1, 1, 1, 2, 3, 4, 7]);
        cfg.fit = c.pick(&[
            Fit::Rugged, Fit::Plateau, Fit::Constant, Fit::Pulse, Fit::Pulse, Fit::Offset, Fit::Sum, Fit::SomeInvalid, Fit::Tiny, Fit::Ulp, Fit::Huge,
        ]);
        cfg.unique = c.chance(0.4);
        if c.chance(0.3) {
            cfg.cx = (0.3, 1.0);
            cfg.mx = (0.1, 1.0);
        }
        let mut start = any_start(c, &cfg);
        if c.chance(0.2) {
            // no diversity to begin with
            let g = genome(c, &cfg);
            start = Start::Given(vec![g; c.pick(&[1, 3])]);
        }
        let (t, _) = run_fresh(&cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: false });
        if t.out()?.is_none() {
            return Ok(());
        }
        check_adaptive(c, &t)?;
        c.sample(|| t.name());
        Ok(())
    });
    ctx.require("rates seen", 3000);
    ctx.require("adjustments inside the range", 500);
    ctx.require("no diversity at first", 100);
}

fn check_adaptive(c: &mut Case, t: &Trace) -> R {
    let cfg = &t.cfg;
    let segs = t.segs();
    let r = t.snaps[0].stats.std();
    if !(r > 0.0) {
        c.count("no diversity at first", 1);
    }
    let mut now: Option<(f64, f64)> = None;
    for i in 1..t.snaps.len() {
        let gen = i - 1;
        let s = t.snaps[gen].stats.std();
        // deviations beyond the floating-point range cannot be compared: only the ranges have to be kept then
        let unknown = !s.is_finite() || !r.is_finite();
        let d = if !(s > 0.0) { 0.0 } else { (s / r).clamp(0.0, 1.0) };
        let at = |a: f64, b: f64, x: f64| a + (b - a) * x;
        let adjusted = gen == 0 || cfg.interval != 0 && gen % cfg.interval == 0;
        let want = if gen == 0 {
            (cfg.cx.1, cfg.mx.0)
        } else if adjusted {
            (at(cfg.cx.0, cfg.cx.1, d), at(cfg.mx.0, cfg.mx.1, 1.0 - d))
        } else {
            match now {
                Some(x) => x,
                None => continue,
            }
        };
        if unknown {
            c.count("deviation beyond all numbers", 1);
        }
        for e in segs[i] {
            let Ev::Breed { cx, mx, .. } = e else { continue };
            let what = || {
                format!(
                    "{}, ranges {:?} and {:?}, interval {}: generation {gen}, deviation {s} of first {r}: crossover rate {cx}, mutation rate {mx}",
                    t.name(),
                    cfg.cx,
                    cfg.mx,
                    cfg.interval
                )
            };
            let tol = if adjusted && gen > 0 { 1e-9 } else { 0.0 };
            let as_wanted = (cx - want.0).abs() <= tol && (mx - want.1).abs() <= tol;
            ensure!(as_wanted || gen > 0 && unknown, "{} instead of {:?}", what(), want);
            let inside = |x: f64, (a, b): (f64, f64)| x >= a - 1e-12 && x <= b + 1e-12;
            ensure!(inside(*cx, cfg.cx) && inside(*mx, cfg.mx), "{}: outside its range", what());
            ensure!(now.is_none_or(|n| adjusted || n == (*cx, *mx)), "{}: changed without an adjustment", what());
            now = Some((*cx, *mx));
            c.count("rates seen", 1);
            if adjusted && d > 0.0 && d < 1.0 && gen > 0 {
                c.count("adjustments inside the range", 1);
                c.sig((d.to_bits(), gen, cfg.interval));
            }
        }
        // a later breeding of the same generation must see the same rates
        if let Some(n) = now {
            for e in segs[i] {
                if let Ev::Breed { cx, mx, .. } = e {
                    ensure!((*cx, *mx) == n, "{}: the rates changed within generation {gen}", t.name());
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------- C20

fn check_selection(c: &mut Case, t: &Trace) -> R {
    let segs = t.segs();
    for i in 1..t.snaps.len() {
        let gen = i - 1;
        let s = &t.snaps[gen];
        let (st, k) = match t.cfg.pre {
            Pre::Strategy(g, st) if gen >= g => (st, gen - g + 1),
            Pre::Selector(g) if gen >= g => {
                // the model's own selector
                let prep: Vec<_> = segs[i].iter().enumerate().filter(|(_, e)| matches!(e, Ev::Prepare { .. })).collect();
                ensure!(prep.len() == 1, "{}: the selector was prepared {} times in generation {gen}", t.name(), prep.len());
                ensure!(*prep[0].1 == Ev::Prepare { pop: s.hash }, "{}: the selector was prepared on another population", t.name());
                let pg = segs[i].iter().position(|e| matches!(e, Ev::PreGen { .. })).unwrap_or(usize::MAX);
                let first = segs[i]
                    .iter()
                    .position(|e| matches!(e, Ev::Breed { .. } | Ev::Select { .. } | Ev::Eval { .. }))
                    .unwrap_or(usize::MAX);
                ensure!(
                    pg < prep[0].0 && prep[0].0 < first,
                    "{}: generation {gen}: pre-generation step at {pg}, preparation at {}, breeding at {first}",
                    t.name(),
                    prep[0].0
                );
                let sel = segs[i].iter().filter(|e| matches!(e, Ev::Select { .. })).count();
                let bred = segs[i].iter().filter(|e| matches!(e, Ev::Eval { .. })).count();
                ensure!(sel >= bred, "{}: {bred} offspring of {sel} selections by the model's selector", t.name());
                for e in segs[i] {
                    if let Ev::Select { pop, .. } = e {
                        ensure!(*pop == s.hash, "{}: generation {gen} selected from another population", t.name());
                    }
                }
                c.count("own selector generations", 1);
                continue;
            }
            _ => (t.cfg.strategy, gen + 1),
        };
        let n = s.mem.len();
        let mut cnt = vec![0u64; n];
        let mut total = 0u64;
        for e in segs[i] {
            if let Ev::Samples { idx } = e {
                for &x in idx {
                    cnt[x as usize] += 1;
                }
                total += idx.len() as u64;
            }
        }
        if total == 0 {
            continue;
        }
        let tt = match st {
            SelectionStrategy::Boltzmann(t, q) => t * q.powi(k as i32),
            _ => 1.0,
        };
        if !(tt > 1e-280 && tt < 1e280) {
            continue;
        }
        let fit: Vec<f64> = s.mem.iter().map(|m| m.fit).collect();
        if st == SelectionStrategy::RouletteWheel && (fit.iter().any(|f| *f < 0.0) || fit.iter().all(|f| *f == 0.0)) {
            continue;
        }
        fits(
            || format!("{}: selections of {st:?} in generation {gen} from {n} members (temperature {tt})", t.name()),
            &cnt,
            &expected(st, &fit, tt),
        )?;
        c.count("selections", total);
        c.count("generations", 1);
        if n > 1 {
            c.sig((format!("{st:?}"), gen, n, t.cfg.algo));
        }
    }
    Ok(())
}

/// Plain strategies whose distribution is sharp enough to tell parameters apart.
fn sharp(c: &mut Case) -> SelectionStrategy {
    match c.below(6) {
        0 => SelectionStrategy::Tournament(c.pick(&[1, 2, 3, 5, 9])),
        1 => SelectionStrategy::RouletteWheel,
        2 => SelectionStrategy::Rank,
        3 => SelectionStrategy::Linear(c.pick(&[1.0, 1.3, 1.8, 2.0, 3.0])),
        4 => SelectionStrategy::Elitist(c.pick(&[0.0, 0.2, 0.5, 0.8, 0.95])),
        _ => SelectionStrategy::Boltzmann(c.pick(&[0.05, 0.3, 1.0, 10.0]), c.pick(&[0.5, 0.8, 0.99, 1.0, 1.5])),
    }
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("A case is one evolution whose own breeding logs the rates it gets and takes hundreds of selections per offspring through the given selector; rates are compared bit by bit, selection counts per generation with the exact distribution of the configured strategy on that generation's population by chi-square at 1e-12. Reruns on one object are compared with runs on fresh objects. Non-trivial: by distinct (strategy with parameters, generation, members, algorithm).");
    ctx.cases("selection", 700, 12_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.algo = c.pick(&[Algo::Ga, Algo::Aga]);
        cfg.flavor = Flavor::Breed;
        cfg.size = c.pick(&[2, 3, 5, 9, 16, 25]);
        cfg.init = cfg.size;
        cfg.elitism = c.pick(&[0.0, 0.0, 0.2]);
        cfg.unique = c.chance(0.7);
        cfg.fit = c.pick(&[Fit::Rugged, Fit::Plateau, Fit::Offset, Fit::Negative, Fit::Rugged]);
        cfg.sample = 12_000 / cfg.size;
        cfg.gens = c.pick(&[2, 4, 7]);
        cfg.strategy = sharp(c);
        cfg.jitter = false;
        cfg.nested = false;
        cfg.pre = match c.below(5) {
            0 => Pre::Strategy(c.below(4), sharp(c)),
            1 => Pre::Selector(c.below(3)),
            2 => Pre::Rates,
            _ => Pre::Nothing,
        };
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        check_selection(c, &t)?;
        c.sample(|| t.name());
        Ok(())
    });
    ctx.cases("own selector", 800, 15_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.pre = Pre::Selector(c.below(3));
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        check_selection(c, &t)
    });
    ctx.cases("rates", 2000, 40_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.algo = c.pick(&[Algo::Ga, Algo::Ga, Algo::Aga]);
        cfg.init = cfg.size;
        cfg.flavor = Flavor::Breed;
        cfg.pre = c.pick(&[Pre::Nothing, Pre::Rates]);
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        let mut changed = false;
        for (i, s) in t.segs().iter().enumerate().skip(1) {
            let own = if cfg.pre == Pre::Rates { pre_rates(i - 1) } else { None };
            changed |= own.is_some();
            let want = match own {
                Some(r) => r,
                None if changed || cfg.algo == Algo::Aga => continue,
                None => (cfg.cx.0, cfg.mx.0),
            };
            for e in s.iter() {
                if let Ev::Breed { cx, mx, .. } = e {
                    ensure!(
                        (*cx, *mx) == want,
                        "{}: generation {} breeds with rates {cx} and {mx} instead of {want:?}{}",
                        t.name(),
                        i - 1,
                        if own.is_some() { " set by the model just before" } else { "" }
                    );
                    c.count(if own.is_some() { "rates set by the model" } else { "configured rates" }, 1);
                }
            }
            c.sig((cfg.algo, want.0.to_bits(), want.1.to_bits(), i));
        }
        Ok(())
    });
    ctx.cases("rerun", 600, 12_000, 8, |c| {
        let mut a = any_cfg(c);
        a.threads = 1;
        a.jitter = false;
        a.nested = false;
        a.gens = a.gens.max(1);
        // both runs share everything but the parameters of the run
        let mut cfgs = vec![a.clone()];
        for _ in 0..c.rng.gen_range(1..4) {
            let mut b = any_cfg(c);
            b.algo = a.algo;
            b.flavor = a.flavor;
            b.threads = 1;
            b.jitter = false;
            b.nested = false;
            b.fit = a.fit;
            b.len = a.len;
            b.alphabet = a.alphabet;
            b.own_validity = a.own_validity;
            b.unique = a.unique;
            b.pre = a.pre;
            b.seed = a.seed;
            cfgs.push(b);
        }
        if c.chance(0.3) {
            // the very same parameters again
            let again = cfgs[0].clone();
            cfgs.push(again);
        }
        let starts: Vec<Start> = cfgs.iter().map(|k| any_start(c, k)).collect();
        let w = World::new(cfgs[0].clone());
        let reruns: Vec<Trace> = in_pool(1, &w, || {
            dispatch!(a, |A, M| {
                let e = <A as EvolutionAlgorithm<M>>::build_evolution(<M as Make>::make(w.clone()));
                cfgs.iter()
                    .zip(&starts)
                    .map(|(k, s)| {
                        w.restart();
                        run_on::<A, M>(&e, &w, &<A as Drive<M>>::params(k), k, &Job { start: s, gens: k.gens, pre_evaluated: false })
                    })
                    .collect()
            })
        });
        for ((k, s), r) in cfgs.iter().zip(&starts).zip(&reruns) {
            let (f, _) = run_fresh(k, &Job { start: s, gens: k.gens, pre_evaluated: false });
            same_runs(&f, r, "a fresh object", "an object used before")?;
            c.count("reruns compared", 1);
            c.sig((k.algo, k.flavor, k.size, f.snaps.len()));
        }
        Ok(())
    });
    ctx.require("selections", 100_000);
    ctx.require("own selector generations", 300);
    ctx.require("configured rates", 1000);
    ctx.require("rates set by the model", 1000);
    ctx.require("reruns compared", 300);
}

/// Compares two runs that must be the same in everything a user can see.
pub fn same_runs(a: &Trace, b: &Trace, an: &str, bn: &str) -> R {
    let oa = a.out()?;
    let ob = b.out()?;
    ensure!(oa.is_some() == ob.is_some(), "{}: starts on only one of {an} and {bn}", a.name());
    let see = |v: &[Mem]| -> Vec<(Vec<u8>, u64)> { v.iter().map(|m| (m.g.clone(), m.fit.to_bits())).collect() };
    ensure!(
        a.snaps.len() == b.snaps.len(),
        "{}: {} populations on {an}, {} on {bn}",
        a.name(),
        a.snaps.len(),
        b.snaps.len()
    );
    for (i, (x, y)) in a.snaps.iter().zip(&b.snaps).enumerate() {
        ensure!(see(&x.mem) == see(&y.mem), "{}: population {i} differs between {an} and {bn}", a.name());
        ensure!((x.gen, x.stag) == (y.gen, y.stag), "{}: population {i}: generation and stagnation differ", a.name());
    }
    match (oa, ob) {
        (Some(Out::One(x)), Some(Out::One(y))) => {
            ensure!((&x.g, x.fit.to_bits()) == (&y.g, y.fit.to_bits()), "{}: results differ between {an} and {bn}", a.name())
        }
        (Some(Out::Many(x)), Some(Out::Many(y))) => {
            ensure!(see(x) == see(y), "{}: resulting populations differ between {an} and {bn}", a.name())
        }
        (None, None) => {}
        _ => fail!("{}: results of different kinds", a.name()),
    }
    let rates = |t: &Trace| -> Vec<(u64, u64)> {
        t.log
            .iter()
            .filter_map(|e| if let Ev::Breed { cx, mx, .. } = e { Some((cx.to_bits(), mx.to_bits())) } else { None })
            .collect()
    };
    ensure!(rates(a) == rates(b), "{}: rates differ between {an} and {bn}", a.name());
    Ok(())
}

// ---------------------------------------------------------------------------------------------------- C21

const OUTSIDE: [f64; 9] =
    [-5e-324, -1e-9, -1.0, f64::NEG_INFINITY, f64::INFINITY, f64::NAN, 1.0 + f64::EPSILON, 2.0, -f64::NAN];
const INSIDE: [f64; 9] = [0.0, -0.0, 5e-324, 1e-9, 0.3, 0.5, 0.999, 1.0 - f64::EPSILON / 2.0, 1.0];

pub fn c21(ctx: &Ctx) {
    ctx.rule("A case is a set of parameters, all valid or with one or more refused values at the edges (just outside, infinite, NaN), given to validation and to a run from each kind of start; or a selector parameter given to constructor, strategy, setter and run. Non-trivial: by distinct (algorithm, faulty fields and values, entry point).");
    ctx.cases("parameters", 6000, 100_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.algo = c.pick(&[Algo::Ga, Algo::Aga]);
        cfg.fit = Fit::Rugged;
        cfg.own_validity = false;
        cfg.threads = 1;
        cfg.jitter = false;
        cfg.gens = 2;
        cfg.strategy = SelectionStrategy::Tournament(2);
        cfg.pre = Pre::Nothing;
        cfg.elitism = c.pick(&INSIDE[..8]);
        cfg.cx = (c.pick(&INSIDE), c.pick(&INSIDE));
        cfg.mx = (c.pick(&INSIDE), c.pick(&INSIDE));
        cfg.init = cfg.size;
        let mut wrong: Vec<String> = vec![];
        let faults = c.pick(&[0, 0, 1, 1, 1, 2]);
        for _ in 0..faults {
            let v = c.pick(&OUTSIDE);
            let field = c.below(if cfg.algo == Algo::Ga { 5 } else { 7 });
            match (cfg.algo, field) {
                (_, 0) => cfg.size = 0,
                (_, 1) => cfg.elitism = v,
                (_, 2) => cfg.elitism = 1.0,
                (_, 3) => cfg.cx.0 = v,
                (_, 4) => cfg.mx.0 = v,
                (_, 5) => cfg.cx.1 = v,
                _ => cfg.mx.1 = v,
            }
            wrong.push(format!("{field}:{v}"));
        }
        cfg.init = cfg.size;
        let ok = wrong.is_empty();
        let what = format!(
            "{:?} with size {}, elitism {}, crossover {:?}, mutation {:?}",
            cfg.algo, cfg.size, cfg.elitism, cfg.cx, cfg.mx
        );
        let v = if cfg.algo == Algo::Ga {
            let p = <GeneticAlgorithm<DModel> as Drive<DModel>>::params(&cfg);
            lib(|| p.validate())
        } else {
            let p = <AdaptiveGeneticAlgorithm<DModel> as Drive<DModel>>::params(&cfg);
            lib(|| p.validate())
        };
        ensure!(v.is_ok() == ok, "validation of {what}: {}", if ok { format!("refused, {}", v.unwrap_err()) } else { "accepted".into() });
        let start = match c.below(3) {
            0 => Start::Random(1),
            1 => Start::Single(genome(c, &cfg)),
            _ => Start::Given((0..3).map(|_| genome(c, &cfg)).collect()),
        };
        let (t, _) = run_fresh(&cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: false });
        if ok {
            if let Err(p) = &t.out {
                fail!("run of {what}: {p}");
            }
            ensure!(t.snaps.len() == 3, "run of {what}: {} progress calls", t.snaps.len());
            c.count("accepted", 1);
        } else {
            ensure!(t.out.is_err(), "a run of {what} returned");
            ensure!(t.snaps.is_empty(), "a run of {what} reached the progress closure");
            ensure!(
                !t.log.iter().any(|e| matches!(e, Ev::Breed { .. } | Ev::Cross { .. } | Ev::Imp { .. } | Ev::PreGen { .. } | Ev::Progress { .. })),
                "a run of {what} bred something"
            );
            c.count("refused", 1);
            c.sig((cfg.algo, &wrong));
        }
        if ok {
            c.sig((cfg.algo, cfg.size, cfg.elitism.to_bits(), cfg.cx.0.to_bits(), cfg.mx.1.to_bits()));
        }
        c.sample(|| what.clone());
        Ok(())
    });
    // every single edge value in every field, alone
    ctx.cases("edges", 2 * 6 * 18 * 2, 2 * 6 * 18 * 2, 8, |c| {
        let i = c.idx as usize;
        let algo = if i % 2 == 0 { Algo::Ga } else { Algo::Aga };
        let field = i / 2 % 6;
        let all: Vec<f64> = OUTSIDE.iter().chain(&INSIDE).copied().collect();
        let v = all[i / 12 % 18];
        let mut cfg = base_cfg(c);
        cfg.algo = algo;
        cfg.flavor = Flavor::Default;
        cfg.size = 4;
        cfg.init = 4;
        cfg.elitism = 0.25;
        cfg.cx = (0.5, 0.7);
        cfg.mx = (0.2, 0.4);
        cfg.strategy = SelectionStrategy::Rank;
        match field {
            0 => cfg.elitism = v,
            1 => cfg.cx.0 = v,
            2 => cfg.mx.0 = v,
            3 => cfg.cx.1 = v,
            4 => cfg.mx.1 = v,
            _ => cfg.size = if i / 12 % 2 == 0 { 0 } else { usize::MAX },
        }
        let ok = match field {
            0 => (0.0..1.0).contains(&v),
            3 | 4 if algo == Algo::Ga => true,
            5 => cfg.size != 0,
            _ => (0.0..=1.0).contains(&v),
        };
        let r = if algo == Algo::Ga {
            let p = <GeneticAlgorithm<DModel> as Drive<DModel>>::params(&cfg);
            lib(|| p.validate())
        } else {
            let p = <AdaptiveGeneticAlgorithm<DModel> as Drive<DModel>>::params(&cfg);
            lib(|| p.validate())
        };
        ensure!(r.is_ok() == ok, "validation of {algo:?} with value {v} in field {field}: accepted = {}", r.is_ok());
        c.count(if ok { "accepted" } else { "refused" }, 1);
        Ok(())
    });
    ctx.cases("defaults", 1, 1, 1, |c| {
        must(|| "default parameters".into(), || GeneticAlgorithmParameters::default().validate())?;
        must(|| "default parameters".into(), || AdaptiveGeneticAlgorithmParameters::default().validate())?;
        let p = GeneticAlgorithmParameters::default();
        ensure!(
            p.population_size == 100
                && p.elitism_rate == 0.01
                && p.crossover_rate == 0.8
                && p.mutation_rate == 0.1
                && p.selection_strategy == SelectionStrategy::RouletteWheel
                && p.initial_population_size() == 100
                && p.max_population_size() == 100,
            "the default parameters are not the documented ones"
        );
        let p = AdaptiveGeneticAlgorithmParameters::default();
        ensure!(
            p.population_size == 100
                && p.elitism_rate == 0.01
                && p.crossover_rate_range == (0.3..1.0)
                && p.mutation_rate_range == (0.1..1.0)
                && p.selection_strategy == SelectionStrategy::RouletteWheel
                && p.parameter_adjustment_interval == 1
                && p.initial_population_size() == 100
                && p.max_population_size() == 100,
            "the default parameters are not the documented ones"
        );
        c.count("accepted", 2);
        Ok(())
    });
    ctx.cases("selectors", 3000, 30_000, 8, |c| {
        let kind = c.below(3);
        let bad = c.chance(0.5);
        let (st, what) = match kind {
            0 => {
                let k = if bad { 0 } else { c.pick(&[1, 2, 10, usize::MAX]) };
                let r = lib(|| TournamentSelection::new(k));
                ensure!(r.is_ok() != bad, "TournamentSelection::new({k}): accepted = {}", r.is_ok());
                if let Ok(s) = r {
                    ensure!(s.size() == k, "tournament size {k} is reported as {}", s.size());
                }
                let mut s = TournamentSelection::new(3);
                let r = lib(|| s.set_size(k));
                ensure!(r.is_ok() != bad, "set_size({k}): accepted = {}", r.is_ok());
                ensure!(s.size() == if bad { 3 } else { k }, "after set_size({k}) the size is {}", s.size());
                (SelectionStrategy::Tournament(k.min(20)), format!("tournament of {k}"))
            }
            1 => {
                let q = if bad { c.pick(&[0.0, -0.0]) } else { c.pick(&[1.0, 0.5, 1e-300, 2.0, 0.99]) };
                let t = c.rng.gen_range(0.1..10.0);
                let r = lib(|| BoltzmannSelection::new(t, q));
                ensure!(r.is_ok() != bad, "BoltzmannSelection::new({t}, {q}): accepted = {}", r.is_ok());
                if let Ok(s) = r {
                    ensure!(s.cooling_rate() == q && s.temperature() == t, "Boltzmann({t}, {q}) reports others");
                }
                let mut s = BoltzmannSelection::new(t, 0.7);
                let r = lib(|| s.set_cooling_rate(q));
                ensure!(r.is_ok() != bad, "set_cooling_rate({q}): accepted = {}", r.is_ok());
                ensure!(s.cooling_rate() == if bad { 0.7 } else { q }, "after set_cooling_rate({q}) it is {}", s.cooling_rate());
                let t2 = c.rng.gen_range(0.1..10.0);
                must(|| format!("set_temperature({t2})"), || s.set_temperature(t2))?;
                ensure!(s.temperature() == t2, "after set_temperature({t2}) it is {}", s.temperature());
                (SelectionStrategy::Boltzmann(t, q), format!("cooling rate {q}"))
            }
            _ => {
                let x = if bad {
                    let mut all = OUTSIDE.to_vec();
                    all.push(1.0);
                    c.pick(&all)
                } else {
                    c.pick(&INSIDE[..8])
                };
                let r = lib(|| ElitistSelection::new(x));
                ensure!(r.is_ok() != bad, "ElitistSelection::new({x}): accepted = {}", r.is_ok());
                if let Ok(s) = r {
                    ensure!(s.ratio() == x, "elitist ratio {x} is reported as {}", s.ratio());
                }
                let mut s = ElitistSelection::new(0.3);
                let r = lib(|| s.set_ratio(x));
                ensure!(r.is_ok() != bad, "set_ratio({x}): accepted = {}", r.is_ok());
                ensure!(s.ratio() == if bad { 0.3 } else { x }, "after set_ratio({x}) it is {}", s.ratio());
                (SelectionStrategy::Elitist(x), format!("ratio {x}"))
            }
        };
        let r = lib(|| st.create_selector::<Fi, SmallRng>());
        ensure!(r.is_ok() != bad, "selector of a strategy with {what}: accepted = {}", r.is_ok());
        let b = c.rng.gen_range(1.0..3.0);
        let mut l = LinearSelection::new(b);
        ensure!(l.bias() == b, "linear bias");
        l.set_bias(b + 1.0);
        ensure!(l.bias() == b + 1.0, "linear bias");
        let mut cfg = base_cfg(c);
        cfg.fit = Fit::Rugged;
        cfg.own_validity = false;
        cfg.strategy = st;
        cfg.gens = 1;
        let start = Start::Given((0..3).map(|_| genome(c, &cfg)).collect());
        let (t, _) = run_fresh(&cfg, &Job { start: &start, gens: 1, pre_evaluated: false });
        ensure!(t.out.is_ok() != bad, "a run with {what}: returned = {}", t.out.is_ok());
        ensure!(!bad || t.snaps.is_empty(), "a run with {what} reached the progress closure");
        c.count(if bad { "selectors refused" } else { "selectors accepted" }, 1);
        c.sig((kind, what));
        Ok(())
    });
    ctx.require("refused", 1000);
    ctx.require("accepted", 1000);
    ctx.require("selectors refused", 500);
}

// ---------------------------------------------------------------------------------------------------- C22

/// A user-defined algorithm that implements and logs every callback.
struct Logged {
    w: Arc<World>,
    model: BModel,
    size: usize,
    par: ReproductionParameters<BModel>,
}
impl From<BModel> for Logged {
    fn from(model: BModel) -> Self {
        Logged { w: model.0.clone(), model, size: 0, par: Default::default() }
    }
}
impl EvolutionAlgorithm<BModel> for Logged {
    type Parameters = CaPar;
    fn model(&self) -> &BModel {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<BModel>, usize) {
        (&self.par, self.size)
    }
    fn configure(&mut self, p: &CaPar) {
        self.w.ev(Ev::Conf);
        self.size = p.max;
    }
    fn initialize_population(&self, mut v: Vec<Ind>) -> Population<Ind> {
        self.w.ev(Ev::Init);
        for i in v.iter_mut() {
            self.model.evaluate(i);
        }
        v.retain(|i| i.is_valid());
        Population::new(v)
    }
    fn select_elites(&self, p: &Population<Ind>, e: &mut Vec<Ind>) {
        if !e.is_empty() {
            self.w.bad(format!("the list of elites already holds {} individuals", e.len()));
        }
        self.w.ev(Ev::Elites { pop: pop_hash(p) });
        // any number of them
        for i in p.iter().take(p.generation() % 3) {
            e.push(i.clone());
        }
    }
    fn prepare_for_next_population(&mut self, p: &Population<Ind>) {
        self.model.pre_generation(p, &mut self.par);
        self.par.parent_selector.prepare(p);
    }
    fn generate_new_population(&self, p: &Population<Ind>, o: &mut Vec<Ind>, pool: &object_pool::Pool<WRng>) {
        if o.len() != (p.generation() % 3).min(p.len()) {
            self.w.bad(format!("generation {} starts with {} elites", p.generation(), o.len()));
        }
        self.w.ev(Ev::Generate { pop: pop_hash(p) });
        let mut rng = pool.pull(|| <BModel as EvolutionModel>::rng());
        while o.len() < self.size {
            o.push(self.model.breed(p, &self.par, &mut rng));
        }
    }
    fn replace_population(&self, p: &mut Population<Ind>, o: &mut Vec<Ind>) {
        self.w.ev(Ev::Replace { pop: pop_hash(p) });
        p.replace(o);
    }
}

fn check_protocol(t: &Trace) -> R<u64> {
    let segs = t.segs();
    let n = t.snaps.len();
    let progress = t.log.iter().filter(|e| matches!(e, Ev::Progress { .. })).count();
    ensure!(progress == n, "{}: {progress} progress calls", t.name());
    ensure!(n == t.cfg.gens + 1, "{}: {n} progress calls although call {} was the first to return false", t.name(), t.cfg.gens + 1);
    for (i, s) in t.snaps.iter().enumerate() {
        ensure!(s.gen == i, "{}: progress call {i} sees generation {}", t.name(), s.gen);
    }
    for (i, s) in segs.iter().enumerate() {
        let breeding = |e: &Ev| {
            matches!(
                e,
                Ev::Breed { .. }
                    | Ev::BreedEnd { .. }
                    | Ev::Cross { .. }
                    | Ev::Imp { .. }
                    | Ev::Eval { .. }
                    | Ev::Surv { .. }
                    | Ev::Mut { .. }
                    | Ev::Select { .. }
                    | Ev::Samples { .. }
            )
        };
        if i == n {
            if let Some(e) = s.iter().find(|e| breeding(e) || matches!(e, Ev::PreGen { .. } | Ev::Prepare { .. } | Ev::New { .. })) {
                fail!("{}: {e:?} after the progress closure returned false", t.name());
            }
            continue;
        }
        let pre: Vec<usize> = s.iter().enumerate().filter(|(_, e)| matches!(e, Ev::PreGen { .. })).map(|x| x.0).collect();
        if i == 0 {
            ensure!(pre.is_empty(), "{}: a pre-generation step before the first progress call", t.name());
            continue;
        }
        let shown = &t.snaps[i - 1];
        ensure!(pre.len() == 1, "{}: {} pre-generation steps in generation {}", t.name(), pre.len(), i - 1);
        ensure!(
            s[pre[0]] == Ev::PreGen { gen: i - 1, pop: shown.hash },
            "{}: generation {}: the pre-generation step saw another population than the progress closure",
            t.name(),
            i - 1
        );
        if let Some(b) = s.iter().position(breeding) {
            ensure!(pre[0] < b, "{}: generation {}: {:?} before the pre-generation step", t.name(), i - 1, s[b]);
        }
        let ids: HashSet<u64> = shown.mem.iter().map(|m| m.id).collect();
        for e in s.iter() {
            match e {
                Ev::Breed { pop, gen, .. } => ensure!(
                    *pop == shown.hash && *gen == i - 1,
                    "{}: generation {} breeds from another population than the one shown",
                    t.name(),
                    i - 1
                ),
                Ev::Cross { a, b, .. } => ensure!(
                    ids.contains(a) && ids.contains(b),
                    "{}: generation {} recombines individuals that are not in the population shown",
                    t.name(),
                    i - 1
                ),
                _ => {}
            }
        }
    }
    Ok(n as u64)
}

pub fn c22(ctx: &Ctx) {
    crate::longrun::long(ctx);
    ctx.rule("A case is one evolution with every callback and progress call logged in one sequence, from each kind of start, stopping at a random generation; the sequence is checked against the protocol. Non-trivial: by distinct (algorithm, flavor, start, size, generations, threads).");
    ctx.cases("runs", 3000, 60_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.gens = c.rng.gen_range(0..10);
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        let n = check_protocol(&t)?;
        c.count("progress calls", n);
        c.sample(|| t.name());
        c.sig((cfg.algo, cfg.flavor, cfg.size, cfg.gens, cfg.threads, std::mem::discriminant(&t.start)));
        Ok(())
    });
    ctx.cases("own algorithm", 1500, 20_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.flavor = Flavor::Breed;
        cfg.algo = Algo::Custom;
        cfg.threads = c.pick(&[1, 2]);
        cfg.gens = c.rng.gen_range(0..8);
        let start = any_start(c, &cfg);
        let w = World::new(cfg.clone());
        let t = in_pool(cfg.threads, &w, || {
            let e = Logged::build_evolution(BModel(w.clone()));
            let p = <Ca<BModel> as Drive<BModel>>::params(&cfg);
            run_on(&e, &w, &p, &cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: false })
        });
        if t.out()?.is_none() {
            return Ok(());
        }
        check_protocol(&t)?;
        check_result(&t)?;
        let segs = t.segs();
        for (i, s) in segs.iter().enumerate() {
            let step = |e: &Ev| match e {
                Ev::Conf => Some("configure"),
                Ev::Init => Some("initialize"),
                Ev::PreGen { .. } => Some("prepare"),
                Ev::Elites { .. } => Some("elites"),
                Ev::Generate { .. } => Some("generate"),
                Ev::Replace { .. } => Some("replace"),
                _ => None,
            };
            let got: Vec<&str> = s.iter().filter_map(step).collect();
            let want: &[&str] = match i {
                0 => &["configure", "initialize"],
                _ if i == t.snaps.len() => &[],
                _ => &["prepare", "elites", "generate", "replace"],
            };
            ensure!(got == want, "{}: between progress calls {i} the callbacks ran as {got:?}", t.name());
            if i > 0 && i < t.snaps.len() {
                for e in s.iter() {
                    if let Ev::Elites { pop } | Ev::Generate { pop } | Ev::Replace { pop } = e {
                        ensure!(*pop == t.snaps[i - 1].hash, "{}: {e:?} on another population than the one shown", t.name());
                    }
                }
            }
            c.count("callback sequences", 1);
        }
        c.sig(("own", cfg.size, cfg.gens, std::mem::discriminant(&start)));
        Ok(())
    });
    ctx.require("progress calls", 5000);
    ctx.require("callback sequences", 1000);
}

// ---------------------------------------------------------------------------------------------------- C23

pub fn c23(ctx: &Ctx) {
    ctx.rule("A case is one evolution (or several at once in one pool) on 1..40 worker threads with delays injected into callbacks and callbacks that use the pool themselves; generators notice overlapping use, their creation is counted per generation, and a watchdog notices that nothing moves any more. Non-trivial: by distinct assignment of breedings to threads (interleavings).");
    ctx.cases("streams", 700, 12_000, 4, |c| {
        let mut cfg = any_cfg(c);
        cfg.threads = c.pick(&[1, 2, 2, 3, 4, 5, 6, 7, 8, 12, 20, 40]);
        cfg.flavor = c.pick(&[Flavor::Breed, Flavor::Breed, Flavor::Default]);
        cfg.size = c.pick(&[1, 2, 3, 8, 16, 40]);
        cfg.init = cfg.size;
        cfg.gens = 60;
        cfg.jitter = c.chance(0.8);
        cfg.nested = c.chance(0.3);
        cfg.fit = c.pick(&[Fit::Rugged, Fit::Sum, Fit::Plateau]);
        cfg.own_validity = false;
        let t = one_run(c, &cfg);
        if t.out()?.is_none() {
            return Ok(());
        }
        watch_streams(c, &t)?;
        Ok(())
    });
    ctx.cases("at once", 200, 3000, 2, |c| {
        let mut cfg = any_cfg(c);
        cfg.threads = c.pick(&[2, 4, 8]);
        cfg.flavor = Flavor::Breed;
        cfg.size = c.pick(&[2, 8, 30]);
        cfg.init = cfg.size;
        cfg.gens = 15;
        cfg.jitter = true;
        cfg.fit = Fit::Rugged;
        cfg.own_validity = false;
        let w = World::new(cfg.clone());
        let starts = [any_start(c, &cfg), any_start(c, &cfg), any_start(c, &cfg)];
        let go = |s: &Start| -> R<usize> {
            dispatch!(cfg, |A, M| {
                let e = <A as EvolutionAlgorithm<M>>::build_evolution(<M as Make>::make(w.clone()));
                let args = Args { tag: 1, w: w.clone() };
                let p = <A as Drive<M>>::params(&cfg);
                let mut n = 0usize;
                let what = || format!("one of three evolutions at once: {cfg:?}");
                must(what, || {
                    match s {
                        Start::Random(_) => drop(e.run(&args, &p, |_| {
                            n += 1;
                            n <= cfg.gens
                        })),
                        Start::Single(g) => drop(e.evolve_individual(Ind::new(&w, g.clone()), &p, |_| {
                            n += 1;
                            n <= cfg.gens
                        })),
                        Start::Given(v) => drop(e.evolve_population(v.iter().map(|g| Ind::new(&w, g.clone())).collect(), &p, |_| {
                            n += 1;
                            n <= cfg.gens
                        })),
                    };
                })?;
                Ok(n)
            })
        };
        let (a, (b, d)) = in_pool(cfg.threads, &w, || rayon::join(|| go(&starts[0]), || rayon::join(|| go(&starts[1]), || go(&starts[2]))));
        for x in [a, b, d] {
            let n = x?;
            ensure!(n == cfg.gens + 1, "one of three evolutions at once stopped after {n} of {} generations", cfg.gens);
        }
        if let Some(b) = w.bad.lock().unwrap().clone() {
            fail!("three evolutions at once: {b}");
        }
        let log = w.log.lock().unwrap();
        let order: Vec<(usize, u64)> =
            log.iter().filter_map(|e| if let Ev::Breed { th, rng, .. } = e { Some((*th, *rng)) } else { None }).collect();
        c.count("evolutions at once", 3);
        c.count("breedings", order.len() as u64);
        c.sig(order);
        Ok(())
    });
    ctx.require("breedings", 10_000);
    ctx.require("generators followed", 500);
    ctx.require("evolutions at once", 100);
}

fn watch_streams(c: &mut Case, t: &Trace) -> R {
    let cfg = &t.cfg;
    let grown = t.snaps.last().unwrap().rngs - t.snaps[0].rngs;
    let gens = t.snaps.len() as u64 - 1;
    // generators may be created on demand, but not again and again
    let bound = if cfg.nested { 8 * cfg.threads as u64 + gens / 2 } else { 2 * cfg.threads as u64 + 2 };
    ensure!(
        grown <= bound,
        "{}: {grown} generators were created during {gens} generations on {} threads",
        t.name(),
        cfg.threads
    );
    // and those in use are not replaced from one generation to the next
    let half = t.snaps.len() / 2;
    if !cfg.nested {
        let early: HashSet<u64> = rng_ids(t, 1..half);
        let late: HashSet<u64> = rng_ids(t, half..t.snaps.len());
        let fresh = late.difference(&early).count();
        ensure!(fresh as u64 <= bound, "{}: {fresh} generators served only the second half of the run", t.name());
    }
    let segs = t.segs();
    let mut order = vec![];
    for s in &segs[1..] {
        for e in s.iter() {
            match e {
                Ev::Breed { th, rng, .. } => order.push((*th, *rng)),
                Ev::Eval { th, .. } if cfg.flavor != Flavor::Breed => order.push((*th, 0)),
                _ => {}
            }
        }
    }
    c.count("breedings", order.len() as u64);
    c.count("generations", gens);
    c.count("generators followed", order.iter().map(|x| x.1).collect::<HashSet<_>>().len() as u64);
    let threads = order.iter().map(|x| x.0).collect::<HashSet<_>>().len();
    c.count(&format!("runs that used {threads} threads"), 1);
    c.sig(order);
    c.sample(|| t.name());
    Ok(())
}
fn rng_ids(t: &Trace, r: std::ops::Range<usize>) -> HashSet<u64> {
    let segs = t.segs();
    r.flat_map(|i| segs[i].iter().filter_map(|e| if let Ev::Breed { rng, .. } = e { Some(*rng) } else { None }).collect::<Vec<_>>())
        .collect()
}

// ---------------------------------------------------------------------------------------------------- C24

pub fn c24(ctx: &Ctx) {
    ctx.rule("A case takes a configuration, counts the calls of every user callback in a run without faults, then repeats the run once per (callback, occurrence) with a panic injected there: all occurrences of small runs, a spread of them otherwise. Checked: the payload reaches the caller, no individual stays alive, and the object runs again like a fresh one. Non-trivial: by distinct (algorithm, flavor, start, callback, occurrence, threads).");
    ctx.cases("faults", 160, 2500, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.threads = c.pick(&[1, 1, 2, 4]);
        cfg.size = c.pick(&[1, 2, 3, 5, 9]);
        cfg.init = cfg.size;
        cfg.gens = c.pick(&[1, 2, 3]);
        cfg.jitter = cfg.threads > 1 && c.chance(0.5);
        cfg.nested = cfg.threads > 1 && c.chance(0.2);
        cfg.fit = c.pick(&[Fit::Rugged, Fit::Plateau, Fit::Declining, Fit::SomeInvalid]);
        cfg.own_validity = false;
        cfg.pre = c.pick(&[Pre::Nothing, Pre::Selector(0), Pre::Rates]);
        let start = any_start(c, &cfg);
        if cfg.threads > 1 && cfg.fit == Fit::SomeInvalid && !matches!(start, Start::Given(_)) {
            // which individuals start depends on the threads, and there may be no valid one
            cfg.fit = Fit::Rugged;
        }
        let job = Job { start: &start, gens: cfg.gens, pre_evaluated: false };
        let (clean, w0) = run_fresh_fine(&cfg, &job);
        if clean.out()?.is_none() {
            ensure!(w0.live.load(SeqCst) == 0, "{}: a refused start leaves {} individuals", clean.name(), w0.live.load(SeqCst));
            return Ok(());
        }
        ensure!(
            w0.live.load(SeqCst) == 0,
            "{}: {} individuals alive after the run and its result are gone",
            clean.name(),
            w0.live.load(SeqCst)
        );
        let live_created = w0.created.load(SeqCst);
        c.count("individuals in clean runs", live_created);
        let calls: Vec<u64> = w0.calls.iter().map(|x| x.load(SeqCst)).collect();
        for cb in CBS {
            let n = calls[cb as usize];
            if n == 0 {
                continue;
            }
            let mut at: Vec<u64> = if n <= 6 {
                (0..n).collect()
            } else {
                let mut v = vec![0, 1, n - 1, n / 2];
                for _ in 0..if c.deep { 12 } else { 3 } {
                    v.push(c.rng.gen_range(0..n));
                }
                v
            };
            at.dedup();
            for k in at {
                one_fault(c, &cfg, &job, cb, k, &clean)?;
            }
        }
        c.sample(|| clean.name());
        Ok(())
    });
    ctx.cases("refused", 1000, 20_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.threads = 1;
        cfg.size = c.pick(&[1, 2, 3, 7, 20]);
        cfg.init = cfg.size;
        cfg.gens = c.pick(&[0, 1, 3]);
        cfg.jitter = false;
        cfg.nested = false;
        let start = any_start(c, &cfg);
        let job = Job { start: &start, gens: cfg.gens, pre_evaluated: false };
        let (clean, _) = run_fresh(&cfg, &job);
        let Some(_) = clean.out()? else { return Ok(()) };
        // what gets refused in between: parameters, or a start without a valid individual
        let mut bad = cfg.clone();
        let how = c.below(4);
        let x = c.pick(&[-0.5, 1.5, f64::NAN, f64::INFINITY]);
        let mut bad_start = start.clone();
        match how {
            0 => bad_start = Start::Given(vec![]),
            1 if cfg.algo != Algo::Custom => {
                bad.elitism = c.pick(&[1.0, -0.25, f64::NAN]);
            }
            2 if cfg.algo == Algo::Ga => bad.mx.0 = x,
            2 if cfg.algo == Algo::Aga => bad.cx.1 = x,
            3 if cfg.algo != Algo::Custom => bad.strategy = SelectionStrategy::Tournament(0),
            _ => {
                bad.size = 0;
                bad.init = 0;
            }
        }
        let w = World::new(cfg.clone());
        let before = c.chance(0.5);
        let times = 1 + c.below(3);
        in_pool(1, &w, || -> R {
            dispatch!(cfg, |A, M| {
                let e = <A as EvolutionAlgorithm<M>>::build_evolution(<M as Make>::make(w.clone()));
                let p = <A as Drive<M>>::params(&cfg);
                let q = <A as Drive<M>>::params(&bad);
                let what = || format!("{}: after a run refused ({how})", clean.name());
                if before {
                    w.restart();
                    let _ = run_on::<A, M>(&e, &w, &p, &cfg, &job);
                }
                for _ in 0..times {
                    w.restart();
                    let t = run_on::<A, M>(&e, &w, &q, &cfg, &Job { start: &bad_start, gens: cfg.gens, pre_evaluated: false });
                    ensure!(t.out.is_err(), "{}: it was not refused", what());
                    drop(t);
                    ensure!(w.live.load(SeqCst) == 0, "{}: {} individuals are left", what(), w.live.load(SeqCst));
                }
                w.restart();
                let t = run_on::<A, M>(&e, &w, &p, &cfg, &job);
                if let Err(o) = &t.out {
                    fail!("{}: the next run on the object: {o}", what());
                }
                same_runs(&clean, &t, "a fresh object", "an object that refused a run").map_err(|v| Viol(format!("{}: {}", what(), v.0)))?;
                drop(t);
                ensure!(w.live.load(SeqCst) == 0, "{}: {} individuals left after the next run", what(), w.live.load(SeqCst));
                Ok(())
            })
        })?;
        c.evals(1);
        c.count("runs after a refused one", 1);
        c.sig((cfg.algo, cfg.flavor, how, before, times, cfg.size, std::mem::discriminant(&start)));
        Ok(())
    });
    ctx.require("faults that struck", 1000);
    ctx.require("reruns after a fault", 1000);
    ctx.require("runs after a refused one", 300);
    for cb in CBS {
        ctx.require(&format!("faults in {cb:?}"), 10);
    }
}

fn one_fault(c: &mut Case, cfg: &Cfg, job: &Job, cb: Cb, k: u64, clean: &Trace) -> R {
    let w = World::new(cfg.clone());
    w.fine.store(true, SeqCst);
    let twice = c.chance(0.3);
    let r: R<bool> = in_pool(cfg.threads, &w, || {
        dispatch!(cfg, |A, M| {
            let e = <A as EvolutionAlgorithm<M>>::build_evolution(<M as Make>::make(w.clone()));
            let p = <A as Drive<M>>::params(cfg);
            let what = || format!("{}: panic in call {k} of {cb:?}", clean.name());
            let mut struck = false;
            for round in 0..if twice { 2 } else { 1 } {
                w.restart();
                w.arm(Some((cb, k)));
                let t = run_on::<A, M>(&e, &w, &p, cfg, job);
                w.arm(None);
                match &t.out {
                    Err(Panicked::Injected(n)) => {
                        ensure!(*n == k, "{}: another panic arrived", what());
                        struck = true;
                    }
                    Err(o) => fail!("{}: the caller got instead: {o}", what()),
                    Ok(_) => ensure!(
                        w.calls[cb as usize].load(SeqCst) <= k,
                        "{}: the panic did not reach the caller of the run",
                        what()
                    ),
                }
                drop(t);
                let left = w.live.load(SeqCst);
                ensure!(left == 0, "{}: {left} individuals {} (round {round})", what(), if left > 0 { "were never dropped" } else { "were dropped twice" });
            }
            w.restart();
            let t = run_on::<A, M>(&e, &w, &p, cfg, job);
            if let Err(o) = &t.out {
                fail!("{}: the next run on the object: {o}", what());
            }
            if cfg.threads == 1 {
                same_runs(clean, &t, "a fresh object", "an object after a panic").map_err(|v| Viol(format!("{}: {}", what(), v.0)))?;
            }
            for r in [check_elitism(&t), check_quota(&t), check_members(&t, &w), check_protocol(&t), check_result(&t)] {
                r.map_err(|v| Viol(format!("{}: the next run: {}", what(), v.0)))?;
            }
            drop(t);
            let left = w.live.load(SeqCst);
            ensure!(left == 0, "{}: {left} individuals left after the next run", what());
            Ok(struck)
        })
    });
    if r? {
        c.count("faults that struck", 1);
        c.count(&format!("faults in {cb:?}"), 1);
        c.sig((cfg.algo, cfg.flavor, cb, k, cfg.threads, std::mem::discriminant(job.start), cfg.size));
    } else {
        c.count("faults not reached", 1);
    }
    c.count("reruns after a fault", 1);
    c.evals(1);
    ensure!(w.live.load(SeqCst) == 0, "individuals left after the object is gone");
    Ok(())
}

// ---------------------------------------------------------------------------------------------------- C25

pub fn c25(ctx: &Ctx) {
    ctx.rule("A case repeats one operator call with a cloned generator and compares results, inputs and generator states; or repeats a whole run on one worker thread, on the same and on a fresh object, and compares everything shown. Non-trivial: by distinct (operator, result) and (algorithm, flavor, size, final population).");
    crate::ops::c25_ops(ctx);
    crate::sel::c25_sel(ctx);
    ctx.cases("runs", 800, 15_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.threads = 1;
        cfg.jitter = false;
        cfg.nested = c.chance(0.1);
        cfg.gens = cfg.gens.max(2);
        let start = any_start(c, &cfg);
        let job = Job { start: &start, gens: cfg.gens, pre_evaluated: false };
        let (a, _) = run_fresh(&cfg, &job);
        let (b, _) = run_fresh(&cfg, &job);
        same_runs(&a, &b, "one fresh object", "another fresh object")?;
        let w = World::new(cfg.clone());
        let more: Vec<Trace> = in_pool(1, &w, || {
            dispatch!(cfg, |A, M| {
                let e = <A as EvolutionAlgorithm<M>>::build_evolution(<M as Make>::make(w.clone()));
                (0..2)
                    .map(|_| {
                        w.restart();
                        run_on::<A, M>(&e, &w, &<A as Drive<M>>::params(&cfg), &cfg, &job)
                    })
                    .collect()
            })
        });
        for m in &more {
            same_runs(&a, m, "a fresh object", "an object run twice")?;
        }
        c.count("runs compared", 3);
        if let Some(s) = a.snaps.last() {
            c.sig((cfg.algo, cfg.flavor, cfg.size, s.hash));
        }
        Ok(())
    });
    ctx.require("runs compared", 500);
}

// ---------------------------------------------------------------------------------------------------- C26

pub fn c26(ctx: &Ctx) {
    crate::giant::evolutions(ctx);
    ctx.rule("A case extends a list of 0..5 individuals by 0..60 (sometimes up to 1000), at random or from a given one, on 1..8 threads; or starts a run of an algorithm whose initial size differs from its maximum, and counts what is created, mutated and evaluated before the first progress call. Non-trivial: by distinct (kind, before, requested, threads).");
    ctx.cases("extend", 3000, 60_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.jitter = c.chance(0.5);
        let w = World::new(cfg.clone());
        let before = c.below(6);
        let n = if c.chance(0.02) { c.pick(&[127, 128, 129, 256, 300, 1000]) } else { c.pick(&[0, 0, 1, 1, 2, 3, 4, 7, 16, 60]) };
        let tag: u64 = c.rng.gen();
        let threads = c.pick(&[1, 2, 3, 4, 8, 16]);
        let mut list: Vec<Ind> = (0..before).map(|_| Ind::new(&w, genome(c, &cfg))).collect();
        let had: Vec<Mem> = list.iter().map(|i| i.mem()).collect();
        let given = c.chance(0.5);
        let mut origin = Ind::new(&w, genome(c, &cfg));
        if c.chance(0.5) {
            origin.fit = w.fitness(&origin.g);
            origin.dirty = false;
        }
        origin.muts = c.below(3) as u32;
        let om = origin.mem();
        let m = DModel(w.clone());
        let args = Args { tag, w: w.clone() };
        let (list, r) = in_pool(threads, &w, move || {
            let r = lib(|| {
                if given {
                    m.extend_population_with(&mut list, n, origin)
                } else {
                    m.extend_population(&mut list, n, &args)
                }
            });
            (list, r)
        });
        let what = format!("extending {before} individuals by {n} {} on {threads} threads", if given { "from a given one" } else { "at random" });
        if let Err(p) = r {
            fail!("{what}: {p}");
        }
        ensure!(list.len() == before + n, "{what} gives {}", list.len());
        let now: Vec<Mem> = list.iter().map(|i| i.mem()).collect();
        ensure!(had.iter().zip(&now).all(|(a, b)| a == b), "{what} changed the individuals that were there");
        let log = w.log.lock().unwrap();
        let new = &now[before..];
        if given {
            let muts = log.iter().filter(|e| matches!(e, Ev::Mut { .. })).count();
            ensure!(muts == n.saturating_sub(1), "{what}: {muts} mutations");
            if let Some(f) = new.first() {
                ensure!(
                    f.id == om.id && f.g == om.g && f.muts == om.muts && f.fit.to_bits() == om.fit.to_bits(),
                    "{what}: the first new one is not an unchanged copy"
                );
            }
            for x in new.iter().skip(1) {
                ensure!(x.muts == om.muts + 1, "{what}: a copy was mutated {} times", x.muts - om.muts);
                ensure!(
                    log.iter().any(|e| *e == Ev::Mut { from: om.id, to: x.id }),
                    "{what}: a new one is not a mutated copy of the given one"
                );
            }
            let ids: HashSet<u64> = new.iter().map(|x| x.id).collect();
            ensure!(ids.len() == new.len(), "{what}: the same individual twice");
        } else {
            let made: Vec<(u64, u64)> = log.iter().filter_map(|e| if let Ev::New { args, id } = e { Some((*args, *id)) } else { None }).collect();
            ensure!(made.len() == n, "{what}: {} were created", made.len());
            ensure!(made.iter().all(|m| m.0 == tag), "{what}: created with other arguments");
            let a: HashSet<u64> = made.iter().map(|m| m.1).collect();
            let b: HashSet<u64> = new.iter().map(|x| x.id).collect();
            ensure!(a == b && b.len() == n, "{what}: the new individuals are not those created");
            ensure!(!log.iter().any(|e| matches!(e, Ev::Mut { .. })), "{what}: mutated");
        }
        ensure!(!log.iter().any(|e| matches!(e, Ev::Eval { .. } | Ev::Cross { .. })), "{what}: evaluated or recombined");
        drop(log);
        if let Some(b) = w.bad.lock().unwrap().clone() {
            fail!("{what}: {b}");
        }
        c.count(if given { "extended from a given one" } else { "extended at random" }, 1);
        if n > 0 {
            c.sig((given, before, n, threads));
        }
        c.sample(|| what.clone());
        Ok(())
    });
    ctx.cases("runs", 2000, 40_000, 8, |c| {
        let mut cfg = any_cfg(c);
        cfg.gens = c.below(2);
        if cfg.algo == Algo::Custom {
            cfg.init = c.pick(&[0, 1, 2, 3, 10, 40]);
        }
        let tag: u64 = c.rng.gen();
        let start = if c.chance(0.5) { Start::Random(tag) } else { Start::Single(genome(c, &cfg)) };
        let (t, _) = run_fresh(&cfg, &Job { start: &start, gens: cfg.gens, pre_evaluated: c.chance(0.5) });
        t.out()?;
        let segs = t.segs();
        let new = segs[0].iter().filter(|e| matches!(e, Ev::New { .. })).count();
        let muts = segs[0].iter().filter(|e| matches!(e, Ev::Mut { .. })).count();
        let evals = segs[0].iter().filter(|e| matches!(e, Ev::Eval { .. })).count();
        let (wn, wm) = if matches!(start, Start::Random(_)) { (cfg.init, 0) } else { (0, cfg.init.saturating_sub(1)) };
        ensure!(
            new == wn && muts == wm && evals == cfg.init,
            "{}: created {new}, mutated {muts}, evaluated {evals} before the first generation",
            t.name()
        );
        for e in segs[0] {
            if let Ev::New { args, .. } = e {
                ensure!(*args == tag, "{}: created with other arguments", t.name());
            }
        }
        for s in &segs[1..] {
            ensure!(!s.iter().any(|e| matches!(e, Ev::New { .. })), "{}: a random individual after the start", t.name());
        }
        if let (Start::Single(_), Some(s0)) = (&start, t.snaps.first()) {
            // the given one takes part if it is valid
            let id = t.initial[0].id;
            let ok = segs[0].iter().any(|e| matches!(e, Ev::Eval { id: i, valid: true, .. } if *i == id));
            ensure!(!ok || s0.mem.iter().any(|m| m.g == t.initial[0].g), "{}: the given individual is missing at the start", t.name());
        }
        if let Some(s0) = t.snaps.first() {
            let valid: HashSet<u64> =
                segs[0].iter().filter_map(|e| if let Ev::Eval { id, valid: true, .. } = e { Some(*id) } else { None }).collect();
            ensure!(s0.mem.iter().all(|m| valid.contains(&m.id)), "{}: a member of the first population comes from elsewhere", t.name());
            ensure!(s0.mem.len() <= valid.len(), "{}: more members than valid initial individuals", t.name());
        }
        c.count("starts", 1);
        c.sig((cfg.algo, cfg.init, cfg.size, wn));
        Ok(())
    });
    ctx.require("extended from a given one", 500);
    ctx.require("extended at random", 500);
    ctx.require("starts", 500);
}
