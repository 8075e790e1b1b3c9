//! C08-C10: selection.

use crate::genes::*;
use crate::rt::*;
use crate::stat::*;
use crate::{ensure, fail};
use rand::prelude::*;
use rusty_genes::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// An individual that is nothing but an identity and a fitness.
#[derive(Clone, Debug)]
pub struct Fi {
    pub id: u64,
    pub fit: f64,
    /// Padding: members are not always small.
    pub pad: [u8; 24],
}
impl PartialEq for Fi {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Individual for Fi {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
pub fn fi(id: u64, fit: f64) -> Fi {
    Fi { id, fit, pad: [id as u8; 24] }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Uniform,
    WithZeros,
    Equal,
    Ties,
    Negative,
    Mixed,
    Huge,
    Tiny,
    Wild,
    Skewed,
    Offset,
}
pub const KINDS: [Kind; 11] = [
    Kind::Uniform,
    Kind::WithZeros,
    Kind::Equal,
    Kind::Ties,
    Kind::Negative,
    Kind::Mixed,
    Kind::Huge,
    Kind::Tiny,
    Kind::Wild,
    Kind::Skewed,
    Kind::Offset,
];

pub fn fitness_list(rng: &mut SmallRng, kind: Kind, n: usize) -> Vec<f64> {
    let e = rng.gen_range(0.1..10.0);
    let zeros = rng.gen_range(0.05..0.95);
    (0..n)
        .map(|i| match kind {
            Kind::Uniform => rng.gen::<f64>() * e,
            Kind::WithZeros => {
                if rng.gen::<f64>() < zeros {
                    0.0
                } else {
                    rng.gen::<f64>() + 0.01
                }
            }
            Kind::Equal => e,
            Kind::Ties => rng.gen_range(0..4) as f64,
            Kind::Negative => -rng.gen::<f64>() * e - 0.01,
            Kind::Mixed => (rng.gen::<f64>() - 0.5) * 2.0 * e,
            Kind::Huge => rng.gen::<f64>() * 1.7e308,
            Kind::Tiny => rng.gen_range(1..100) as f64 * 5e-324,
            Kind::Wild => {
                let x = 10f64.powi(rng.gen_range(-300..300));
                if rng.gen() {
                    x
                } else {
                    -x
                }
            }
            Kind::Skewed => {
                if i == 0 {
                    1000.0 * e
                } else {
                    rng.gen::<f64>()
                }
            }
            Kind::Offset => 1e6 + rng.gen::<f64>() * e,
        })
        .collect()
}

pub fn population(rng: &mut SmallRng, kind: Kind, n: usize) -> Population<Fi> {
    let f = fitness_list(rng, kind, n);
    Population::new(f.into_iter().enumerate().map(|(i, f)| fi(i as u64, f)).collect())
}

pub fn strategy(c: &mut Case, n: usize) -> SelectionStrategy {
    match c.below(6) {
        0 => SelectionStrategy::Tournament(c.pick(&[1usize, 2, 3, 4, 5, 7, 10, n, n + 1, 2 * n, 50])),
        1 => SelectionStrategy::RouletteWheel,
        2 => SelectionStrategy::Rank,
        3 => SelectionStrategy::Linear(bias(c)),
        4 => SelectionStrategy::Elitist(ratio(c, n)),
        _ => SelectionStrategy::Boltzmann(temperature(c), c.pick(&[1.0, 0.5, 0.9, 0.99, 1.01, 2.0])),
    }
}
fn bias(c: &mut Case) -> f64 {
    match c.below(4) {
        0 => c.pick(&[1.0, 1.0 + f64::EPSILON, 1.0 + 1e-12, 1.0 + 1e-9, 1.0 + 1e-6, 1.001, 1.1, 1.25]),
        1 => c.pick(&[1.5, 1.75, 1.999_999, 2.0, 2.0 - f64::EPSILON, 2.0 + 2.0 * f64::EPSILON, 2.000_001, 2.5, 3.0]),
        2 => c.pick(&[5.0, 10.0, 100.0, 1e4, 1e8, 1e16, 1e100, 1e154, 1e200, f64::MAX]),
        _ => 1.0 + c.rng.gen::<f64>() * 2.0,
    }
}
fn ratio(c: &mut Case, n: usize) -> f64 {
    match c.below(4) {
        0 => c.pick(&[0.0, 0.1, 0.25, 0.5, 0.7, 0.9, 0.99, 0.999_999, 1.0 - f64::EPSILON / 2.0, 5e-324]),
        1 => c.below(n) as f64 / n as f64,
        2 => {
            let x = c.below(n) as f64 / n as f64;
            (x + x * f64::EPSILON).min(1.0 - f64::EPSILON)
        }
        _ => c.rng.gen::<f64>(),
    }
}
fn temperature(c: &mut Case) -> f64 {
    match c.below(3) {
        0 => c.pick(&[1.0, 0.1, 5.0, 100.0, 1e-3, 1e3]),
        1 => c.pick(&[1e-300, 1e-100, 1e-10, 1e-5, 1e5, 1e10, 1e100, 1e300, f64::MIN_POSITIVE]),
        _ => 10f64.powf(c.rng.gen_range(-3.0..3.0)),
    }
}

type Sel = Box<dyn SelectionMechanism<Fi, Watch>>;

/// A hostile generator that remembers whether any draw had all its leading 32 bits clear.
pub struct Watch {
    pub h: Hostile,
    pub small: bool,
}
impl RngCore for Watch {
    fn next_u32(&mut self) -> u32 {
        let x = self.h.next_u32();
        self.small |= x == 0;
        x
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.h.next_u64();
        self.small |= x >> 32 == 0;
        x
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.small = true;
        self.h.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.small = true;
        self.h.try_fill_bytes(d)
    }
}

/// A selector, made either through the enum or directly and then reconfigured by its setters.
fn make(c: &mut Case, s: SelectionStrategy) -> R<Sel> {
    let direct = c.chance(0.4);
    must(
        || format!("creating the selector of {s:?}"),
        || -> Sel {
            if !direct {
                return s.create_selector();
            }
            match s {
                SelectionStrategy::Tournament(k) => {
                    let mut x = TournamentSelection::new(3);
                    x.set_size(k);
                    Box::new(x)
                }
                SelectionStrategy::RouletteWheel => Box::new(RouletteWheelSelection::default()),
                SelectionStrategy::Rank => Box::new(RankSelection::default()),
                SelectionStrategy::Linear(b) => {
                    let mut x = LinearSelection::new(1.3);
                    x.set_bias(b);
                    Box::new(x)
                }
                SelectionStrategy::Elitist(r) => {
                    let mut x = ElitistSelection::new(0.3);
                    x.set_ratio(r);
                    Box::new(x)
                }
                SelectionStrategy::Boltzmann(t, k) => {
                    let mut x = BoltzmannSelection::new(3.0, 0.3);
                    x.set_temperature(t);
                    x.set_cooling_rate(k);
                    Box::new(x)
                }
            }
        },
    )
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("A case is a population (11 kinds of fitness, 1..1200 members, some of up to 200000), a strategy with accepted parameters and a generator, ordinary or returning extreme draws, asked for up to 60 selections with preparation repeated in between; each result must be a member, by address. Non-trivial: populations of 2 or more, by distinct (strategy, fitness kind, size, generator mode).");
    ctx.cases("select", 20_000, 600_000, 8, |c| {
        let n = match c.below(10) {
            0 => 1,
            1 => 2,
            2..=7 => c.rng.gen_range(1..30),
            8 => c.rng.gen_range(30..200),
            _ => {
                if c.idx % 10 == 0 {
                    c.rng.gen_range(200..1200)
                } else {
                    c.rng.gen_range(10..40)
                }
            }
        };
        let kind = KINDS[c.below(KINDS.len())];
        let st = strategy(c, n);
        let mut sel = make(c, st)?;
        let pop = population(&mut c.rng, kind, n);
        let other = population(&mut c.rng, kind, n / 2 + 1);
        let mode = c.below(4) as u8;
        let mut rng = Watch { h: Hostile::new(c.rng.gen(), mode), small: false };
        let what = || format!("{st:?} on {n} members of kind {kind:?} (draw mode {mode})");
        c.sample(what);
        let total: f64 = pop.iter().map(|i| i.fit).sum();
        let wheel = st == SelectionStrategy::RouletteWheel && pop[0].fit >= 0.0 && (1e-200..1e300).contains(&total);
        for round in 0..3 {
            if round == 1 {
                must(what, || sel.prepare(&other))?;
                let got = must(what, || with_fuel(100_000, || sel.select(&other, &mut rng).0))?;
                ensure!(got < other.len(), "{}: index {got} in a population of {}", what(), other.len());
            }
            if let SelectionStrategy::Boltzmann(t, k) = st {
                // stay inside the domain: the temperature must remain a positive finite number
                let now = t * f64::powi(k, 2 * round + 3);
                if !(now.is_finite() && now > 0.0) {
                    break;
                }
            }
            must(|| format!("{}: prepare", what()), || sel.prepare(&pop))?;
            for _ in 0..20 {
                rng.small = false;
                let (i, r) = must(what, || with_fuel(100_000, || sel.select(&pop, &mut rng)))?;
                ensure!(i < pop.len(), "{}: index {i}", what());
                ensure!(std::ptr::eq(r, &pop[i]), "{}: returned individual {} with index {i}", what(), r.id);
                if let SelectionStrategy::Elitist(r) = st {
                    let b = (n as f64 * r).floor() as usize;
                    ensure!(i >= b, "{}: index {i} is one of the {b} least fit", what());
                }
                if wheel && !rng.small {
                    ensure!(r.fit > 0.0, "{}: a member of zero fitness (index {i}) was selected", what());
                    c.count("wheel selections with positive total", 1);
                }
                c.count("selections", 1);
            }
        }
        c.evals(60);
        if n > 1 {
            c.sig((name(st), format!("{kind:?}"), n, mode));
        }
        Ok(())
    });
    ctx.cases("huge", 4, 40, 2, |c| {
        let n = c.pick(&[65_535, 65_536, 70_000, 92_681, 92_682, 100_000, 131_073, 200_000]);
        let kind = KINDS[c.below(KINDS.len())];
        let pop = population(&mut c.rng, kind, n);
        let n = pop.len();
        for _ in 0..12 {
            let st = strategy(c, n);
            let mut sel = make(c, st)?;
            let mode = c.below(4) as u8;
            let mut rng = Watch { h: Hostile::new(c.rng.gen(), mode), small: false };
            let what = || format!("{st:?} on {n} members of kind {kind:?} (draw mode {mode})");
            must(|| format!("{}: prepare", what()), || sel.prepare(&pop))?;
            for _ in 0..3 {
                let (i, r) = must(what, || with_fuel(1_000_000, || sel.select(&pop, &mut rng)))?;
                ensure!(i < n, "{}: index {i}", what());
                ensure!(std::ptr::eq(r, &pop[i]), "{}: returned individual {} with index {i}", what(), r.id);
                if let SelectionStrategy::Elitist(r) = st {
                    let b = (n as f64 * r).floor() as usize;
                    ensure!(i >= b, "{}: index {i} is one of the {b} least fit", what());
                }
                c.count("selections from huge populations", 1);
            }
            c.evals(3);
            c.sig((name(st), format!("{kind:?}"), n, mode));
        }
        c.sample(|| format!("{n} members of kind {kind:?}"));
        Ok(())
    });
    ctx.require("selections", 500_000);
    ctx.require("selections from huge populations", 100);
}

fn name(s: SelectionStrategy) -> &'static str {
    match s {
        SelectionStrategy::Tournament(_) => "tournament",
        SelectionStrategy::RouletteWheel => "wheel",
        SelectionStrategy::Boltzmann(..) => "boltzmann",
        SelectionStrategy::Rank => "rank",
        SelectionStrategy::Linear(_) => "linear",
        SelectionStrategy::Elitist(_) => "elitist",
    }
}

/// The exact distribution over ranks; `t` is the current Boltzmann temperature.
pub fn expected(st: SelectionStrategy, fit: &[f64], t: f64) -> Vec<f64> {
    let n = fit.len();
    let nf = n as f64;
    match st {
        SelectionStrategy::Tournament(k) => (0..n)
            .map(|i| ((i + 1) as f64 / nf).powi(k as i32) - (i as f64 / nf).powi(k as i32))
            .collect(),
        SelectionStrategy::RouletteWheel => {
            let total: f64 = fit.iter().sum();
            fit.iter().map(|f| f / total).collect()
        }
        SelectionStrategy::Boltzmann(..) => {
            let m = fit.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let w: Vec<f64> = fit.iter().map(|f| ((f - m) / t).exp()).collect();
            let s: f64 = w.iter().sum();
            w.iter().map(|x| x / s).collect()
        }
        SelectionStrategy::Rank => (0..n).map(|i| (i + 1) as f64 / (nf * (nf + 1.0) / 2.0)).collect(),
        SelectionStrategy::Elitist(r) => {
            let b = (nf * r).floor() as usize;
            (0..n).map(|i| if i < b { 0.0 } else { 1.0 / (n - b) as f64 }).collect()
        }
        SelectionStrategy::Linear(b) => {
            let xmax = if b > 2.0 { 1.0 / (b - 1.0) } else { 1.0 };
            let cdf = |x: f64| if x >= xmax { 1.0 } else { x * (b - (b - 1.0) * x) };
            (0..n).map(|i| cdf((n - i) as f64 / nf) - cdf((n - i - 1) as f64 / nf)).collect()
        }
    }
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("A case is a strategy with parameters and a population of 1..60 (sometimes 1500) members; 30k+ selections from a uniform generator are compared with the exact distribution by chi-square at 1e-12, impossible ranks must not occur; selectors are reused on other populations and prepared several times before. Non-trivial: 2 or more ranks of positive probability, by distinct (strategy with parameters, fitness kind, size).");
    ctx.cases("frequencies", 600, 8_000, 8, |c| {
        let n = match c.below(8) {
            0 => c.rng.gen_range(1..4),
            1..=5 => c.rng.gen_range(2..16),
            6 => c.rng.gen_range(16..60),
            _ => {
                if c.idx % 7 == 0 {
                    600
                } else {
                    c.rng.gen_range(2..100)
                }
            }
        };
        let which = c.idx % 6;
        let mut st = strategy(c, n);
        while discriminant(st) != which {
            st = strategy(c, n);
        }
        if let SelectionStrategy::Boltzmann(_, k) = st {
            // temperatures that spread the probability, and extreme ones
            let t = match c.below(3) {
                0 => c.rng.gen_range(0.05..5.0),
                1 => c.pick(&[1e-3, 1e-2, 20.0, 1e3, 1e-4, 1e6]),
                _ => temperature(c).clamp(1e-280, 1e280),
            };
            st = SelectionStrategy::Boltzmann(t, k);
        }
        let kind = loop {
            let k = KINDS[c.below(KINDS.len())];
            let ok = match st {
                SelectionStrategy::RouletteWheel => {
                    matches!(k, Kind::Uniform | Kind::WithZeros | Kind::Equal | Kind::Ties | Kind::Skewed | Kind::Offset)
                }
                _ => true,
            };
            if ok {
                break k;
            }
        };
        let mut pop = population(&mut c.rng, kind, n);
        if st == SelectionStrategy::RouletteWheel && pop.iter().all(|i| i.fit == 0.0) {
            return Ok(());
        }
        let mut sel = make(c, st)?;
        // earlier life of the selector: prepared on (and used with) other populations
        let warm = c.below(4);
        let mut prepared = 0i32;
        for _ in 0..warm {
            let k = if st == SelectionStrategy::RouletteWheel { Kind::Uniform } else { KINDS[c.below(4)] };
            let m = c.rng.gen_range(1..2 * n + 2);
            let p = population(&mut c.rng, k, m);
            sel.prepare(&p);
            prepared += 1;
            let mut rng = Watch { h: Hostile::new(c.rng.gen(), 0), small: false };
            sel.select(&p, &mut rng);
        }
        if c.chance(0.3) {
            // the population object itself was something else before
            let mut p2 = population(&mut c.rng, Kind::Uniform, n + 3);
            sel.prepare(&p2);
            prepared += 1;
            let mut v: Vec<Fi> = pop.into();
            v.shuffle(&mut c.rng);
            p2.replace(&mut v);
            pop = p2;
        }
        if c.chance(0.4) && n > 2 {
            // another one of as many members, equally fit at both ends, or in all but one place
            let mut v: Vec<Fi> = pop.iter().cloned().collect();
            let (lo, hi) = (v[0].fit, v[n - 1].fit);
            let one = 1 + c.below(n - 2);
            let few = c.rng.gen::<bool>();
            for i in 1..n - 1 {
                if i == one || !few {
                    v[i].fit = lo + (hi / 2.0 - lo / 2.0) * 2.0 * c.rng.gen::<f64>();
                }
            }
            if v.iter().all(|i| i.fit.is_finite()) {
                sel.prepare(&Population::new(v));
                prepared += 1;
                c.count("prepared for a similar population before", 1);
            }
        }
        must(|| format!("{st:?}: prepare"), || sel.prepare(&pop))?;
        prepared += 1;
        let t = match st {
            SelectionStrategy::Boltzmann(t, k) => t * k.powi(prepared),
            _ => 1.0,
        };
        if !(t.is_finite() && t > 1e-290) {
            return Ok(());
        }
        let fit: Vec<f64> = pop.iter().map(|i| i.fit).collect();
        let pr = expected(st, &fit, t);
        let draws = (n * 400).clamp(30_000, 200_000);
        let mut cnt = vec![0u64; n];
        let what = || format!("{st:?} on {n} members of kind {kind:?} after {prepared} preparations");
        let mut rng = Watch { h: Hostile::new(c.rng.gen(), 0), small: false };
        for _ in 0..draws {
            let (i, _) = must(what, || sel.select(&pop, &mut rng))?;
            ensure!(i < n, "{}: index {i}", what());
            cnt[i] += 1;
        }
        fits(what, &cnt, &pr)?;
        c.count("selections", draws as u64);
        c.count(name(st), 1);
        c.sample(what);
        if pr.iter().filter(|p| **p > 1e-6).count() > 1 {
            c.sig((format!("{st:?}"), format!("{kind:?}"), n));
        }
        Ok(())
    });
    ctx.cases("many", 30, 240, 8, |c| {
        let n = c.pick(&[1000usize, 1025, 4097, 10_000, 20_000, 65_537, 70_000, 100_000]);
        let st = match c.idx % 6 {
            0 => SelectionStrategy::Tournament(c.pick(&[1usize, 2, 3, 10])),
            1 => SelectionStrategy::RouletteWheel,
            2 => SelectionStrategy::Rank,
            3 => SelectionStrategy::Linear(c.pick(&[1.0, 1.5, 2.0, 3.0])),
            4 => SelectionStrategy::Elitist(c.pick(&[0.0, 0.5, 0.9, 0.999])),
            _ => SelectionStrategy::Boltzmann(c.pick(&[0.3, 2.0, 50.0]), 1.0),
        };
        let kind = c.pick(&[Kind::Uniform, Kind::Offset, Kind::Skewed]);
        let pop = population(&mut c.rng, kind, n);
        let n = pop.len();
        let mut sel = make(c, st)?;
        let t = if let SelectionStrategy::Boltzmann(t, _) = st { t } else { 1.0 };
        must(|| format!("{st:?}: prepare"), || sel.prepare(&pop))?;
        let fit: Vec<f64> = pop.iter().map(|i| i.fit).collect();
        let bins = 24;
        let mut pr = vec![0.0; bins];
        for (i, p) in expected(st, &fit, t).into_iter().enumerate() {
            pr[i * bins / n] += p;
        }
        let slow = matches!(st, SelectionStrategy::RouletteWheel | SelectionStrategy::Rank | SelectionStrategy::Boltzmann(..));
        let draws = if slow { (200_000_000 / n).clamp(3000, 30_000) } else { 60_000 };
        let mut cnt = vec![0u64; bins];
        let what = || format!("{st:?} on {n} members of kind {kind:?}, binned");
        let mut rng = Watch { h: Hostile::new(c.rng.gen(), 0), small: false };
        for _ in 0..draws {
            let (i, r) = must(what, || sel.select(&pop, &mut rng))?;
            ensure!(i < n && std::ptr::eq(r, &pop[i]), "{}: index {i}", what());
            cnt[i * bins / n] += 1;
        }
        fits(what, &cnt, &pr)?;
        c.count("selections", draws as u64);
        c.sig((format!("{st:?}"), format!("{kind:?}"), n));
        Ok(())
    });
    // the temperature itself
    ctx.cases("cooling", 300, 3000, 8, |c| {
        let t = c.rng.gen_range(0.01..100.0);
        let k = c.pick(&[0.5, 0.9, 0.99, 1.0, 1.5, 0.75]);
        let mut b = BoltzmannSelection::new(t, k);
        ensure!(b.temperature() == t && b.cooling_rate() == k, "BoltzmannSelection::new({t}, {k}) reports others");
        let mut want = t;
        for i in 0..c.rng.gen_range(1..40) {
            let kd = KINDS[c.below(4)];
            let n = c.rng.gen_range(1..20);
            let mut p = population(&mut c.rng, kd, n);
            // at whatever generation and however long without progress
            for _ in 0..c.below(7) {
                let mut v: Vec<Fi> = p.iter().cloned().collect();
                p.replace(&mut v);
            }
            SelectionMechanism::<Fi, Watch>::prepare(&mut b, &p);
            want *= k;
            let mut rng = Watch { h: Hostile::new(c.rng.gen(), 0), small: false };
            for _ in 0..c.below(4) {
                b.select(&p, &mut rng);
                b.select_distinct(&p, &mut rng, 3, &p[0]);
            }
            ensure!(
                (b.temperature() / want - 1.0).abs() < 1e-9,
                "temperature {} instead of {want} after {} preparations from {t} at rate {k}",
                b.temperature(),
                i + 1
            );
            c.count("preparations", 1);
        }
        c.sig(("cooling", t.to_bits(), k.to_bits()));
        Ok(())
    });
    for k in ["tournament", "wheel", "boltzmann", "rank", "linear", "elitist"] {
        ctx.require(k, 40);
    }
}

fn discriminant(s: SelectionStrategy) -> u64 {
    match s {
        SelectionStrategy::Tournament(_) => 0,
        SelectionStrategy::RouletteWheel => 1,
        SelectionStrategy::Boltzmann(..) => 2,
        SelectionStrategy::Rank => 3,
        SelectionStrategy::Linear(_) => 4,
        SelectionStrategy::Elitist(_) => 5,
    }
}

/// A mechanism that selects by a script and counts its selections.
struct Script {
    script: Vec<usize>,
    at: AtomicUsize,
}
impl SelectionMechanism<Fi, Watch> for Script {
    fn prepare(&mut self, _: &Population<Fi>) {}
    fn select<'a>(&self, p: &'a Population<Fi>, _: &mut Watch) -> (usize, &'a Fi) {
        let k = self.at.fetch_add(1, SeqCst);
        if k > 100_000 {
            std::panic::panic_any(Budget);
        }
        let i = self.script[k % self.script.len()];
        (i, &p[i])
    }
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("A case asks for a distinct partner with a number of attempts from 0 to 40: from a scripted mechanism whose every selection is known and counted, and from each real strategy, whose answer must be that of the same selections made one by one. Non-trivial: by distinct (script, excluded, attempts) or (strategy, size, attempts).");
    ctx.cases("scripted", 20_000, 500_000, 8, |c| {
        let n = c.rng.gen_range(1..8);
        let pop = population(&mut c.rng, Kind::Ties, n);
        let len = c.rng.gen_range(1..12);
        let ex_i = c.below(n);
        let stubborn = c.chance(0.6);
        let script: Vec<usize> = (0..len).map(|_| if stubborn && c.chance(0.7) { ex_i } else { c.below(n) }).collect();
        let tries = c.pick(&[0usize, 1, 2, 3, 3, 4, 5, 10, 40]);
        // the excluded individual: a member, an equal copy of one, or a stranger
        let excluded = match c.below(4) {
            0 => fi(1_000_000, 1.0),
            1 => fi(pop[ex_i].id, 77.0), // equal by identity, other fitness
            _ => pop[ex_i].clone(),
        };
        let m = Script { script: script.clone(), at: AtomicUsize::new(0) };
        let mut rng = Watch { h: Hostile::new(c.rng.gen(), 0), small: false };
        let by_ref = c.chance(0.3) && excluded == pop[ex_i];
        let ex: &Fi = if by_ref { &pop[ex_i] } else { &excluded };
        let what = || format!("script {script:?}, excluded {ex:?}, {tries} attempts");
        let got = must(what, || m.select_distinct(&pop, &mut rng, tries, ex))?;
        let calls = m.at.load(SeqCst);
        let first = (0..tries).find(|&k| pop[script[k % len]] != *ex);
        ensure!(calls <= tries, "{}: {calls} selections", what());
        match (got, first) {
            (None, None) => {
                c.count("nothing found", 1);
                ensure!(calls == tries, "{}: gave up after {calls} selections", what());
            }
            (Some((i, r)), Some(k)) => {
                c.count("found", 1);
                ensure!(i < n && std::ptr::eq(r, &pop[i]), "{}: index {i} with individual {r:?}", what());
                ensure!(r != ex, "{}: returned the excluded individual", what());
                ensure!(i == script[k % len], "{}: returned {i}, not the first different one {}", what(), script[k % len]);
                ensure!(calls == k + 1, "{}: {calls} selections instead of {}", what(), k + 1);
            }
            (None, Some(k)) => fail!("{}: nothing, although attempt {k} yields a different individual", what()),
            (Some(r), None) => fail!("{}: returned {r:?} although every attempt yields the excluded one", what()),
        }
        c.sig((&script, ex_i, tries));
        c.sample(what);
        Ok(())
    });
    ctx.cases("strategies", 8_000, 200_000, 8, |c| {
        let n = if c.chance(0.02) { c.rng.gen_range(10..2000) } else { c.rng.gen_range(1..10) };
        let kind = KINDS[c.below(6)];
        let pop = population(&mut c.rng, kind, n);
        let st = strategy(c, n);
        if let SelectionStrategy::Boltzmann(t, k) = st {
            if !(t * k > 0.0 && (t * k).is_finite()) {
                return Ok(());
            }
        }
        let mut sel = make(c, st)?;
        sel.prepare(&pop);
        for _ in 0..8 {
            let tries = c.pick(&[0usize, 1, 2, 3, 10, 40]);
            let ex = &pop[if c.chance(0.5) { n - 1 } else { c.below(n) }];
            let seed = c.rng.gen();
            let mode = c.below(4) as u8;
            let mut r1 = Watch { h: Hostile::new(seed, mode), small: false };
            let mut r2 = Watch { h: Hostile::new(seed, mode), small: false };
            let what = || format!("{st:?} on {n} members, excluded {}, {tries} attempts", ex.id);
            let got = must(what, || with_fuel(200_000, || sel.select_distinct(&pop, &mut r1, tries, ex)))?;
            let mut want = None;
            for _ in 0..tries {
                let (i, r) = must(what, || sel.select(&pop, &mut r2))?;
                if r != ex {
                    want = Some(i);
                    break;
                }
            }
            if let Some((i, r)) = got {
                ensure!(i < n && std::ptr::eq(r, &pop[i]), "{}: index {i} with individual {}", what(), r.id);
                ensure!(r != ex, "{}: returned the excluded individual", what());
            }
            ensure!(got.map(|g| g.0) == want, "{}: {:?} instead of {want:?}", what(), got.map(|g| g.0));
            c.count(if want.is_some() { "found" } else { "nothing found" }, 1);
            c.evals(1);
            c.sig((name(st), n, tries));
        }
        Ok(())
    });
    ctx.require("found", 5_000);
    ctx.require("nothing found", 2_000);
}

/// Equal populations and generators in equal states give equal selections and leave equal states.
pub fn c25_sel(ctx: &Ctx) {
    ctx.cases("selection", 4000, 80_000, 8, |c| {
        let n = if c.chance(0.01) { c.pick(&[300usize, 1025, 5000, 20_000, 70_000]) } else { c.rng.gen_range(1..40) };
        let kind = KINDS[c.below(KINDS.len())];
        let st = strategy(c, n);
        let pop = population(&mut c.rng, kind, n);
        let twin = Population::new(pop.iter().cloned().collect());
        if pop.iter().map(|i| i.id).ne(twin.iter().map(|i| i.id)) {
            // ties were ordered differently
            return Ok(());
        }
        let mode = c.below(2) as u8;
        let h = Hostile::new(c.rng.gen(), mode);
        let mut a = Watch { h: h.clone(), small: false };
        let mut b = Watch { h, small: false };
        let what = || format!("{st:?} on {n} members of kind {kind:?}");
        let go = |p: &Population<Fi>, r: &mut Watch| -> R<Vec<Option<usize>>> {
            let mut s: Sel = must(what, || st.create_selector())?;
            must(what, || {
                with_fuel(100_000 + 400 * n as u64, || {
                    s.prepare(p);
                    let mut v: Vec<Option<usize>> = (0..20).map(|_| Some(s.select(p, r).0)).collect();
                    v.push(s.select_distinct(p, r, 3, &p[0]).map(|x| x.0));
                    v
                })
            })
        };
        // the sum of many depends on how they are split among threads, unless there is one
        let (x, y) = if n < 300 { (go(&pop, &mut a)?, go(&twin, &mut b)?) } else { crate::popst::pool(0).install(|| Ok::<_, Viol>((go(&pop, &mut a)?, go(&twin, &mut b)?)))? };
        ensure!(x == y, "{}: {x:?} and then {y:?} from equal generators", what());
        ensure!(a.h == b.h, "{}: equal generators end in different states", what());
        c.count("selections repeated", 21);
        c.sig((name(st), n, x));
        Ok(())
    });
    ctx.require("selections repeated", 20_000);
}
