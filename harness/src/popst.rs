//! C11-C13, C27, C28: population, statistics, interpolation, fitness order.

use crate::ensure;
use crate::genes::{cutv, with_fuel};
use crate::rt::*;
use crate::sel::{fi, fitness_list, Fi, Kind};
use rand::prelude::*;
use rusty_genes::*;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;

pub fn pool(n: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let p = P.get_or_init(|| {
        [1usize, 2, 3, 8]
            .iter()
            .map(|&k| rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap())
            .collect()
    });
    &p[n % 4]
}

// ---------------------------------------------------------------------------------------------- C11

/// A list of individuals in which equal individuals have equal fitness, but equal fitness is common.
fn duplicates(c: &mut Case, n: usize) -> (Vec<Fi>, usize) {
    // distinct keys, their fitness drawn from few or many values
    let keys = match c.below(5) {
        0 => 1,
        1 => c.rng.gen_range(1..=n.min(4)),
        2 => c.rng.gen_range(1..=n),
        3 => n,
        _ => (n / 2).max(1),
    };
    let kind = c.pick(&[Kind::Uniform, Kind::Equal, Kind::Ties, Kind::Ties, Kind::Mixed, Kind::WithZeros, Kind::Huge, Kind::Tiny, Kind::Wild]);
    let mut fit = fitness_list(&mut c.rng, kind, keys);
    if c.chance(0.1) {
        for f in fit.iter_mut() {
            if c.rng.gen() {
                *f = if c.rng.gen() { 0.0 } else { -0.0 };
            }
        }
    }
    let mut v: Vec<Fi> = (0..n)
        .map(|i| {
            let k = if i < keys { i } else { c.rng.gen_range(0..keys) };
            fi(k as u64, fit[k])
        })
        .collect();
    match c.below(5) {
        0 => v.sort_by(|a, b| a.fit.partial_cmp(&b.fit).unwrap()),
        1 => v.sort_by(|a, b| b.fit.partial_cmp(&a.fit).unwrap()),
        2 => {} // every key once, then the copies
        _ => v.shuffle(&mut c.rng),
    }
    (v, keys)
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol || (a.is_nan() && b.is_nan())
}

/// Everything C11 says about one population made from `list`.
fn check_population(pop: &Population<Fi>, list: &[Fi], what: &str) -> R {
    let mut want: HashMap<u64, f64> = HashMap::new();
    for i in list {
        want.insert(i.id, i.fit);
    }
    let show = || format!("{what}: members {} of {}", cutv(&pop.iter().map(|i| (i.id, i.fit)).collect::<Vec<_>>()), cutv(&list.iter().map(|i| (i.id, i.fit)).collect::<Vec<_>>()));
    let mut seen = HashSet::new();
    for i in pop.iter() {
        ensure!(seen.insert(i.id), "individual {} is there twice; {}", i.id, show());
        ensure!(
            want.get(&i.id).map(|f| f.to_bits()) == Some(i.fit.to_bits()) && i.pad == [i.id as u8; 24],
            "individual {} with fitness {} was not in the list; {}",
            i.id,
            i.fit,
            show()
        );
    }
    ensure!(seen.len() == want.len(), "{} of {} individuals were lost; {}", want.len() - seen.len(), want.len(), show());
    for w in pop.windows(2) {
        ensure!(w[0].fit <= w[1].fit, "not in ascending order of fitness; {}", show());
    }
    let f: Vec<f64> = pop.iter().map(|i| i.fit).collect();
    let s = pop.stats();
    let n = f.len();
    ensure!(s.count() == n, "stats count {} of {n} members", s.count());
    ensure!(s.min() == f[0], "stats minimum {} instead of {}", s.min(), f[0]);
    ensure!(s.max() == f[n - 1], "stats maximum {} instead of {}", s.max(), f[n - 1]);
    let (am, ax) = (f.iter().position(|x| *x == f[0]).unwrap(), f.iter().position(|x| *x == f[n - 1]).unwrap());
    ensure!(s.arg_min() == am, "stats position of the minimum is {} instead of {am}; {}", s.arg_min(), show());
    ensure!(s.arg_max() == ax, "stats position of the maximum is {} instead of {ax}; {}", s.arg_max(), show());
    let big = f.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    if big == 0.0 || (1e-100..1e100).contains(&big) {
        let avg = f.iter().sum::<f64>() / n as f64;
        let var = if n < 2 { 0.0 } else { f.iter().map(|x| (x - avg).powi(2)).sum::<f64>() / (n - 1) as f64 };
        let u = f64::EPSILON * n as f64 * 8.0;
        ensure!(close(s.avg(), avg, u * big), "stats average {} instead of {avg}; {}", s.avg(), show());
        ensure!(close(s.var(), var, u * (var + big * var.sqrt()) + 64.0 * (f64::EPSILON * big).powi(2)), "stats variance {} instead of {var}; {}", s.var(), show());
        ensure!(close(s.std(), s.var().sqrt(), 1e-12 * s.std()), "stats deviation {} for variance {}", s.std(), s.var());
    }
    ensure!(pop.fittest().fitness() == f[n - 1], "fittest has fitness {} of at most {}; {}", pop.fittest().fitness(), f[n - 1], show());
    ensure!(pop.iter().any(|i| std::ptr::eq(i, pop.fittest())), "fittest is not a member");
    Ok(())
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("A case builds, converts or replaces a population from a list with repeated individuals and fitness ties (sizes 1..120, and up to 30000 to reach the parallel sort, in pools of 1 to 8 threads) and checks members, order, statistics and fittest. Non-trivial: lists with at least one repeated individual or one tie, by distinct list content.");
    ctx.cases("small", 30_000, 800_000, 8, |c| {
        let n = if c.chance(0.5) { c.rng.gen_range(1..10) } else { c.rng.gen_range(1..120) };
        c11_case(c, n)
    });
    ctx.cases("large", 60, 1200, 4, |c| {
        let n = c.rng.gen_range(2000..30_000);
        let k = c.below(4);
        let p = pool(k);
        p.install(|| c11_large(c, n))
    });
    ctx.rule("Besides, lists of 65537 to 140000 individuals.");
    ctx.cases("giant", 6, 24, 3, |c| {
        let n = c.pick(&[65_537usize, 65_600, 70_000, 131_075, 140_000]);
        let k = c.below(4);
        pool(k).install(|| c11_large(c, n))
    });
    crate::evochk::c11_runs(ctx);
    ctx.require("lists with interleaved duplicates", 500);
    ctx.require("populations checked", 20_000);
}

fn interleaved(list: &[Fi]) -> bool {
    // two different individuals of equal fitness, one of them repeated
    let mut m: HashMap<u64, HashMap<u64, u32>> = HashMap::new();
    for i in list {
        *m.entry((i.fit + 0.0).to_bits()).or_default().entry(i.id).or_default() += 1;
    }
    m.values().any(|x| x.len() > 1 && x.values().any(|k| *k > 1))
}

fn c11_case(c: &mut Case, n: usize) -> R {
    let (list, keys) = duplicates(c, n);
    let what = format!("{n} individuals, {keys} distinct");
    c.sample(|| format!("{what}: {}", cutv(&list.iter().map(|i| (i.id, i.fit)).collect::<Vec<_>>())));
    let build = |l: Vec<Fi>, way: usize| -> R<Population<Fi>> {
        must(
            || what.clone(),
            || match way {
                0 => Population::new(l),
                1 => Population::try_from(l).map_err(|_| ()).expect("a non-empty list is a population"),
                2 => {
                    let mut p = Population::new(vec![fi(9999, 0.5), fi(9998, 0.25)]);
                    let mut l = l;
                    p.replace(&mut l);
                    p
                }
                _ => {
                    let mut p = Population::new(l.clone());
                    let mut l = l;
                    p.replace(&mut l);
                    p.replace(&mut l);
                    p
                }
            },
        )
    };
    if interleaved(&list) {
        c.count("lists with interleaved duplicates", 1);
    }
    if list.len() > 1 {
        c.sig(list.iter().map(|i| (i.id, i.fit.to_bits())).collect::<Vec<_>>());
    }
    let way = c.below(4);
    let pop = build(list.clone(), way)?;
    check_population(&pop, &list, &what)?;
    let ids: Vec<u64> = pop.iter().map(|i| i.id).collect();
    let best = pop.stats().max();
    if c.chance(0.5) {
        let f = must(|| what.clone(), || pop.take_fittest())?;
        ensure!(f.fit == best && ids.contains(&f.id), "take_fittest gave {} of fitness {}, best is {best}", f.id, f.fit);
    } else {
        let v: Vec<Fi> = pop.into();
        ensure!(v.iter().map(|i| i.id).eq(ids.iter().copied()), "conversion to a list changed the members or their order");
    }
    c.count("populations checked", 1);
    Ok(())
}

fn c11_large(c: &mut Case, n: usize) -> R {
    let keys = c.pick(&[n, n / 2, n - 1, n / 10, 3]);
    // ties are bounded so that a quadratic comparison inside a tie stays affordable
    let levels = c.pick(&[n, n / 3, n / 20 + 1]);
    // also values that agree in their first digits, of both signs, of very different sizes
    let shape = c.below(6);
    let fit: Vec<f64> = (0..keys)
        .map(|_| {
            let l = c.rng.gen_range(0..levels) as f64;
            match shape {
                0 => 1.0 + l * f64::EPSILON,
                1 => -1e15 + l,
                2 => l - (levels / 2) as f64,
                3 => (l / levels as f64 * 80.0).exp2(),
                _ => l / 7.0,
            }
        })
        .collect();
    let mut list: Vec<Fi> = (0..n)
        .map(|i| {
            let k = if i < keys { i } else { c.rng.gen_range(0..keys) };
            fi(k as u64, fit[k])
        })
        .collect();
    match c.below(4) {
        0 => list.sort_by(|a, b| a.fit.partial_cmp(&b.fit).unwrap()),
        1 => list.sort_by(|a, b| b.fit.partial_cmp(&a.fit).unwrap()),
        _ => list.shuffle(&mut c.rng),
    }
    let what = format!("{n} individuals, {keys} distinct, {levels} fitness levels of shape {shape}");
    let pop = must(|| what.clone(), || Population::new(list.clone()))?;
    check_population(&pop, &list, &what)?;
    if interleaved(&list) {
        c.count("lists with interleaved duplicates", 1);
    }
    c.count("populations checked", 1);
    c.sig((n, keys, levels, shape, c.idx));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C12

pub fn c12(ctx: &Ctx) {
    crate::giant::replacements(ctx);
    crate::evochk::c12_runs(ctx);
    ctx.rule("A case is a history of up to 60, sometimes 1200, replacements of one population (improving, worsening, keeping or tying the best, long stagnations, growing and shrinking); after each the counters and the returned old members are compared with a sequential model; empty lists must be refused. Non-trivial: by distinct history of best-fitness changes.");
    ctx.cases("history", 15_000, 400_000, 8, |c| {
        let wide = if c.chance(0.02) { 400 } else { 12 };
        let n = c.rng.gen_range(1..wide);
        let (list, _) = duplicates(c, n);
        let mut pop = must(|| "new".into(), || Population::new(list))?;
        ensure!(pop.generation() == 0 && pop.stagnation() == 0, "a new population is at generation {} with stagnation {}", pop.generation(), pop.stagnation());
        let most = if c.chance(0.1) {
            60
        } else if wide == 12 && c.chance(0.005) {
            1200
        } else {
            15
        };
        let steps = c.rng.gen_range(1..most);
        let (mut stag, mut moves) = (0usize, String::new());
        let mut spare: Vec<Fi> = Vec::new();
        for step in 1..=steps {
            let old: Vec<(u64, u64)> = pop.iter().map(|i| (i.id, i.fit.to_bits())).collect();
            let best = pop.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
            let kinds = if most > 60 && step > 100 && c.chance(0.95) { 2 } else { 6 };
            let mut next: Vec<Fi> = match c.below(kinds) {
                // the best stays exactly as it is
                0 | 1 => {
                    let mut v: Vec<Fi> = pop.iter().cloned().collect();
                    if v.len() > 500 {
                        v.drain(..400);
                    }
                    if c.rng.gen() {
                        v.push(fi(c.rng.gen_range(5000..6000), best - 1.0 - c.rng.gen::<f64>()));
                    }
                    if c.rng.gen() {
                        v.push(fi(c.rng.gen_range(6000..7000), best));
                    }
                    v
                }
                // a minimal or a clear improvement
                2 => {
                    let f = if c.rng.gen() { next_up(best) } else { best + 1.0 };
                    vec![fi(c.rng.gen(), f), fi(1, best)]
                }
                // a minimal or a clear decline
                3 => {
                    let f = if c.rng.gen() { -next_up(-best) } else { best - 1.0 };
                    vec![fi(c.rng.gen(), f)]
                }
                _ => {
                    let n = c.rng.gen_range(1..wide);
                    duplicates(c, n).0
                }
            };
            // reuse the caller's list as the engine does
            if c.rng.gen() {
                spare.clear();
                spare.append(&mut next);
                next = std::mem::take(&mut spare);
            }
            let new_best = next.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
            must(|| "replace".into(), || pop.replace(&mut next))?;
            if new_best > best {
                stag = 0
            } else {
                stag += 1
            }
            moves.push(match new_best.partial_cmp(&best).unwrap() {
                Ordering::Greater => '+',
                Ordering::Equal => '=',
                Ordering::Less => '-',
            });
            let what = || format!("after replacement {step} of {moves} (best {best} -> {new_best})");
            ensure!(pop.generation() == step, "{}: generation is {}", what(), pop.generation());
            ensure!(pop.stagnation() == stag, "{}: stagnation is {} instead of {stag}", what(), pop.stagnation());
            let back: Vec<(u64, u64)> = next.iter().map(|i| (i.id, i.fit.to_bits())).collect();
            ensure!(back == old, "{}: the caller's list holds {back:?} instead of the old members {old:?}", what());
            spare = next;
            c.evals(1);
            c.count("replacements", 1);
        }
        if moves.len() > 1 {
            c.sig(&moves);
        }
        c.sample(|| moves.clone());
        match lib(|| {
            let mut e: Vec<Fi> = Vec::with_capacity(4);
            pop.replace(&mut e);
        }) {
            Ok(()) => crate::fail!("replacing with an empty list did not panic"),
            Err(_) => c.count("empty lists refused", 1),
        }
        if lib(|| Population::<Fi>::new(Vec::new())).is_ok() {
            crate::fail!("a population was built from an empty list");
        }
        let cap = c.below(10);
        match lib(|| Population::<Fi>::try_from(Vec::with_capacity(cap))) {
            Ok(Err(v)) => ensure!(v.is_empty(), "the list came back with members"),
            Ok(Ok(_)) => crate::fail!("an empty list was converted to a population"),
            Err(p) => crate::fail!("converting an empty list: {p}"),
        }
        Ok(())
    });
    // far beyond what small counters can count
    ctx.cases("long", 1, 2, 8, |c| {
        let steps = if c.deep { 300_000 } else { 70_000 };
        // improvements are so rare that stagnation gets long too, or frequent
        let every = c.pick(&[0usize, 0, 3, 1000]);
        let mut best = c.rng.gen_range(-3.0..3.0);
        let mut pop = must(|| "new".into(), || Population::new(vec![fi(1, best)]))?;
        let mut stag = 0usize;
        let mut list: Vec<Fi> = vec![];
        for step in 1..=steps {
            let better = every != 0 && c.below(every) == 0;
            if better {
                best += 1.0;
            }
            list.clear();
            list.push(fi(step as u64 % 7, best));
            if step % 3 == 0 {
                list.push(fi(10, best - 1.0));
            }
            must(|| "replace".into(), || pop.replace(&mut list))?;
            stag = if better { 0 } else { stag + 1 };
            ensure!(pop.generation() == step, "after {step} replacements the generation is {}", pop.generation());
            ensure!(pop.stagnation() == stag, "after {stag} replacements without improvement the stagnation is {}", pop.stagnation());
        }
        c.evals(steps as u64);
        c.count("replacements in long histories", steps as u64);
        c.sig((every, steps, c.idx));
        Ok(())
    });
    ctx.require("replacements", 50_000);
    ctx.require("replacements in long histories", 1_000_000);
    ctx.require("empty lists refused", 10_000);
}

fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    if !x.is_finite() {
        return x;
    }
    let y = f64::from_bits(if x > 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 });
    if y.is_finite() {
        y
    } else {
        x
    }
}

// ---------------------------------------------------------------------------------------------- C13

/// Exact reference over samples that are integers divided by `1 << sh`.
struct Exact {
    avg: f64,
    var: f64,
    min: f64,
    max: f64,
    arg_min: usize,
    arg_max: usize,
    big: f64,
}
fn exact(x: &[i64], sh: u32) -> Exact {
    let n = x.len() as i128;
    let s: i128 = x.iter().map(|v| *v as i128).sum();
    let sc = 2f64.powi(-(sh as i32));
    let c = s / n; // shift by an integer near the mean: exact and small
    let (s1, s2) = x.iter().fold((0i128, 0i128), |(a, b), v| {
        let d = *v as i128 - c;
        (a + d, b + d * d)
    });
    let var = if n < 2 { 0.0 } else { (n * s2 - s1 * s1) as f64 / (n * (n - 1)) as f64 };
    let (mut im, mut ix) = (0, 0);
    for (i, v) in x.iter().enumerate() {
        if *v < x[im] {
            im = i
        }
        if *v > x[ix] {
            ix = i
        }
    }
    Exact {
        avg: (c as f64 + s1 as f64 / n as f64) * sc,
        var: var * sc * sc,
        min: x[im] as f64 * sc,
        max: x[ix] as f64 * sc,
        arg_min: im,
        arg_max: ix,
        big: x.iter().map(|v| v.unsigned_abs()).max().unwrap() as f64 * sc,
    }
}

fn samples(c: &mut Case, n: usize) -> (Vec<i64>, u32) {
    let sh = c.pick(&[0u32, 0, 1, 10, 20]);
    let w = c.pick(&[1i64, 2, 5, 100, 1000, 1 << 20]);
    let off = match c.below(6) {
        0 => 1i64 << 40,
        1 => -(1i64 << 40),
        2 => c.rng.gen_range(-(1i64 << 45)..1 << 45),
        3 => c.rng.gen_range(-1000..1000),
        _ => 0,
    };
    let mut v: Vec<i64> = (0..n).map(|_| off + c.rng.gen_range(-w..=w)).collect();
    match c.below(8) {
        0 => v.sort(),
        1 => {
            v.sort();
            v.reverse()
        }
        2 => v.iter_mut().for_each(|x| *x = off),
        3 => {
            // one outlier
            let i = c.below(n);
            v[i] += c.pick(&[-1i64, 1]) * (w << 12);
        }
        4 => {
            // a jump half way
            for x in v[n / 2..].iter_mut() {
                *x += w << 6
            }
        }
        _ => {}
    }
    (v, sh)
}

struct Got {
    count: usize,
    min: f64,
    max: f64,
    arg_min: usize,
    arg_max: usize,
    avg: f64,
    var: f64,
    std: f64,
}
fn of_stats(s: &Stats) -> Option<Got> {
    Some(Got { count: s.count(), min: s.min()?, max: s.max()?, arg_min: s.arg_min()?, arg_max: s.arg_max()?, avg: s.avg()?, var: s.var()?, std: s.std()? })
}
fn of_pop(s: &PopulatedStats) -> Got {
    Got { count: s.count(), min: s.min(), max: s.max(), arg_min: s.arg_min(), arg_max: s.arg_max(), avg: s.avg(), var: s.var(), std: s.std() }
}
fn agree(g: &Got, e: &Exact, n: usize, what: &str) -> R {
    ensure!(g.count == n, "{what}: count {} instead of {n}", g.count);
    ensure!(g.min == e.min && g.arg_min == e.arg_min, "{what}: minimum {} at {} instead of {} at {}", g.min, g.arg_min, e.min, e.arg_min);
    ensure!(g.max == e.max && g.arg_max == e.arg_max, "{what}: maximum {} at {} instead of {} at {}", g.max, g.arg_max, e.max, e.arg_max);
    let u = f64::EPSILON * (n as f64 + 4.0) * 4.0;
    ensure!((g.avg - e.avg).abs() <= u * e.big, "{what}: average {} instead of {}", g.avg, e.avg);
    let tol = u * (e.var + e.big * e.var.sqrt()) + (f64::EPSILON * e.big).powi(2) * 64.0 * n as f64;
    ensure!((g.var - e.var).abs() <= tol, "{what}: variance {} instead of {} (tolerance {tol:e})", g.var, e.var);
    ensure!((g.std - g.var.sqrt()).abs() <= 1e-14 * g.std, "{what}: deviation {} for variance {}", g.std, g.var);
    Ok(())
}
/// Compares a text form with the values the getters report.
fn text_ok(t: &str, g: &Got, p: Option<usize>, what: &str) -> R {
    let labels = ["Samples", "Min", "Max", "Average", "Variance", "STD"];
    let vals = [g.count as f64, g.min, g.max, g.avg, g.var, g.std];
    let parts: Vec<&str> = t.split(';').map(|s| s.trim()).collect();
    ensure!(parts.len() == 6, "{what}: text {t:?} has {} parts", parts.len());
    for (i, part) in parts.iter().enumerate() {
        let (l, v) = part.split_once(':').unwrap_or(("", ""));
        let v = v.trim();
        ensure!(l.trim() == labels[i], "{what}: part {i} of the text {t:?} is not {}", labels[i]);
        let want = match (i, p) {
            (0, _) => format!("{}", g.count),
            (_, Some(p)) => format!("{:.p$}", vals[i]),
            (_, None) => {
                ensure!(v.parse::<f64>().ok() == Some(vals[i]), "{what}: text {t:?} shows {v} for {} = {}", labels[i], vals[i]);
                continue;
            }
        };
        ensure!(v == want, "{what}: text {t:?} shows {v} for {} = {want}", labels[i]);
    }
    Ok(())
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("A case is a sequence of 1..2000 (some up to 300000) dyadic samples (large offsets, sorted, constant, outliers, jumps) summarised by recording, by collecting and in mixed ways, with snapshots on the way, compared with exact 128-bit integer arithmetic; the tolerance is that of a stable one-pass algorithm for the sequence's condition number. Non-trivial: 2 or more different samples, by distinct sequence.");
    ctx.cases("long", 8, 60, 8, |c| {
        let n = match c.below(3) {
            0 => c.pick(&[4096usize, 65_535, 65_536, 65_537, 100_000]),
            1 => c.rng.gen_range(2000..20_000),
            _ => c.rng.gen_range(2000..300_000),
        };
        let (x, sh) = samples(c, n);
        let sc = 2f64.powi(-(sh as i32));
        let f: Vec<f64> = x.iter().map(|v| *v as f64 * sc).collect();
        let what = format!("{n} samples {}", cutv(&f));
        c.sig((n, sh, x[0], x[n / 2], x[n - 1]));
        let e = exact(&x, sh);
        let all: Stats = must(|| what.clone(), || f.iter().copied().collect())?;
        agree(&of_stats(&all).ok_or(Viol(format!("{what}: no values")))?, &e, n, &format!("{what} collected"))?;
        let mut s = Stats::default();
        must(|| what.clone(), || f.iter().for_each(|v| s.record(*v)))?;
        agree(&of_stats(&s).ok_or(Viol(format!("{what}: no values")))?, &e, n, &format!("{what} recorded"))?;
        c.evals(1);
        c.count("samples in long sequences", n as u64);
        Ok(())
    });
    ctx.cases("sequence", 8_000, 250_000, 8, |c| {
        let n = match c.below(10) {
            0 => 1,
            1 => 2,
            2..=7 => c.rng.gen_range(1..50),
            8 => c.rng.gen_range(50..400),
            _ => c.rng.gen_range(400..2000),
        };
        let (x, sh) = samples(c, n);
        let sc = 2f64.powi(-(sh as i32));
        let f: Vec<f64> = x.iter().map(|v| *v as f64 * sc).collect();
        let what = format!("{n} samples {}", cutv(&f));
        c.sample(|| what.clone());
        if x.iter().any(|v| *v != x[0]) {
            c.sig((&x, sh));
        }
        let e = exact(&x, sh);
        if e.var > 0.0 && e.big / e.var.sqrt() > 1e7 {
            c.count("ill-conditioned sequences", 1);
        }
        let all: Stats = must(|| what.clone(), || f.iter().copied().collect())?;
        agree(&of_stats(&all).ok_or(Viol(format!("{what}: no values")))?, &e, n, &format!("{what} collected"))?;
        // recording, with snapshots
        let mut s = Stats::default();
        let mut snaps: Vec<(usize, PopulatedStats)> = vec![];
        let cut = c.below(n + 1);
        if cut > 0 && c.rng.gen() {
            s = f[..cut].iter().copied().collect();
        } else {
            for v in &f[..cut] {
                s.record(*v);
            }
        }
        for (k, v) in f[cut..].iter().enumerate() {
            if c.rng.gen_range(0..n) < 4 {
                let q = s.snapshot();
                ensure!(q.is_some() == (cut + k > 0), "{what}: snapshot after {} samples: {q:?}", cut + k);
                if let Some(q) = q {
                    snaps.push((cut + k, q));
                }
            }
            must(|| what.clone(), || s.record(*v))?;
        }
        agree(&of_stats(&s).ok_or(Viol(format!("{what}: no values")))?, &e, n, &format!("{what} recorded"))?;
        snaps.push((n, s.snapshot().ok_or(Viol(format!("{what}: no snapshot")))?));
        for (k, q) in &snaps {
            agree(&of_pop(q), &exact(&x[..*k], sh), *k, &format!("{what}: snapshot after {k}"))?;
            c.count("snapshots checked", 1);
        }
        let p: PopulatedStats = must(|| what.clone(), || all.try_into())?.map_err(|_| Viol(format!("{what}: not convertible")))?;
        agree(&of_pop(&p), &e, n, &format!("{what}, populated"))?;
        // text
        let g = of_stats(&all).unwrap();
        let pr = if c.chance(0.2) { c.pick(&[9usize, 12, 15, 16, 17, 18, 20, 25, 40, 80]) } else { c.below(9) };
        text_ok(&must(|| what.clone(), || format!("{all:.pr$}"))?, &g, Some(pr), &what)?;
        text_ok(&must(|| what.clone(), || format!("{p:.pr$}"))?, &g, Some(pr), &what)?;
        text_ok(&must(|| what.clone(), || format!("{all}"))?, &g, None, &what)?;
        text_ok(&must(|| what.clone(), || format!("{p}"))?, &g, None, &what)?;
        // overriding the positions
        let mut q = p;
        let (a, b) = (c.below(n), c.below(n));
        must(|| what.clone(), || q.set_arg_min(a))?;
        let (g0, g1) = (of_pop(&p), of_pop(&q));
        let same = |g0: &Got, g1: &Got| g0.count == g1.count && g0.min == g1.min && g0.max == g1.max && g0.avg == g1.avg && g0.var == g1.var && g0.std == g1.std;
        ensure!(g1.arg_min == a && g1.arg_max == g0.arg_max && same(&g0, &g1), "{what}: set_arg_min({a}) changed something else");
        must(|| what.clone(), || q.set_arg_max(b))?;
        let g1 = of_pop(&q);
        ensure!(g1.arg_min == a && g1.arg_max == b && same(&g0, &g1), "{what}: set_arg_max({b}) changed something else");
        for bad in [n, n + 1, usize::MAX] {
            ensure!(lib(|| { let mut q = p; q.set_arg_min(bad) }).is_err(), "set_arg_min({bad}) of {n} samples was accepted");
            ensure!(lib(|| { let mut q = p; q.set_arg_max(bad) }).is_err(), "set_arg_max({bad}) of {n} samples was accepted");
        }
        c.count("summaries checked", 3);
        c.evals(3);
        Ok(())
    });
    ctx.cases("empty", 4, 4, 1, |c| {
        for s in [Stats::default(), std::iter::empty().collect::<Stats>()] {
            ensure!(s.count() == 0, "empty summary counts {}", s.count());
            ensure!(
                s.min().is_none() && s.max().is_none() && s.arg_min().is_none() && s.arg_max().is_none() && s.avg().is_none() && s.var().is_none() && s.std().is_none(),
                "an empty summary reports values"
            );
            ensure!(s.snapshot().is_none(), "an empty summary has a snapshot");
            ensure!(PopulatedStats::try_from(s).is_err(), "an empty summary became a populated one");
            let t = must(|| "empty text".into(), || format!("{s}{s:.3}"))?;
            ensure!(!t.contains(|ch: char| ch.is_ascii_digit()), "an empty summary shows {t:?}");
        }
        c.sig("empty");
        Ok(())
    });
    ctx.require("summaries checked", 15_000);
    ctx.require("ill-conditioned sequences", 300);
}

// ---------------------------------------------------------------------------------------------- C27

/// `floor(min + (max - min) * ratio)` within `d` of the exact value, as (lowest, highest) admissible result.
pub fn floor_band(min: u64, max: u64, r: f64) -> (u64, u64) {
    // ratio = m * 2^-e exactly
    let b = r.to_bits();
    let (m, e) = if r == 0.0 {
        (0u64, 0i32)
    } else {
        let ex = ((b >> 52) & 0x7ff) as i32;
        let fr = b & ((1 << 52) - 1);
        if ex == 0 {
            (fr, 1074)
        } else {
            (fr | 1 << 52, 1075 - ex)
        }
    };
    let w = (max - min) as u128 * m as u128; // < 2^105
    let (q, exact_int) = if e >= 127 {
        (0u64, w == 0)
    } else if e >= 0 {
        ((w >> e) as u64, w & ((1u128 << e) - 1) == 0)
    } else {
        ((w << -e) as u64, true)
    };
    let lo_exact = min + q;
    // distance to the neighbouring integers, in floating point
    let frac = if exact_int { 0.0 } else if e >= 127 { r * (max - min) as f64 } else { (w & ((1u128 << e) - 1)) as f64 / (1u128 << e) as f64 };
    let d = (max as f64) * f64::EPSILON * 2.0;
    (if frac < d { lo_exact.saturating_sub(1).max(min) } else { lo_exact }, if frac > 1.0 - d { lo_exact + 1 } else { lo_exact })
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("A case is a pair of bounds (equal, adjacent, tiny, huge, up to 2^52 for integers) with 40 ascending ratios including 0, 1 and their neighbours, all multiples of 1/n and random ones; values are compared with exact rational arithmetic, neighbours for monotony. Non-trivial: max > min, by distinct bounds.");
    ctx.cases("integer", 20_000, 500_000, 8, |c| {
        let big = |c: &mut Case| {
            let s = c.rng.gen_range(0..=52u32);
            c.rng.gen_range(0..=1u64 << s)
        };
        let (a, b) = match c.below(5) {
            0 => (0, c.rng.gen_range(0..200)),
            1 => {
                let x = big(c);
                (x, x)
            }
            2 => {
                let x = big(c).min((1 << 52) - 1);
                (x, x + 1)
            }
            _ => (big(c), big(c)),
        };
        let (min, max) = (a.min(b), a.max(b));
        let mut rs = vec![0.0, 1.0, f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 0.5, 5e-324, 0.1, 0.01, 0.3, 0.7, 0.9, 0.99];
        let k = c.rng.gen_range(1..60);
        for i in 0..=k.min(15) {
            rs.push(i as f64 / k as f64);
        }
        for _ in 0..10 {
            rs.push(c.rng.gen());
        }
        // just short of and just beyond a whole number
        if max > min {
            let w = (max - min) as f64;
            for _ in 0..8 {
                let d = 10f64.powi(-c.rng.gen_range(1..14));
                let k = c.rng.gen_range(0..=max - min) as f64;
                rs.push(((k + if c.rng.gen() { d } else { -d }) / w).clamp(0.0, 1.0));
            }
        }
        rs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut last: Option<(f64, usize)> = None;
        for r in rs {
            let what = || format!("interpolate_usize({min}, {max}, {r:?})");
            let v = must(what, || interpolate_usize(min as usize, max as usize, r))?;
            ensure!((min as usize..=max as usize).contains(&v), "{} = {v} is outside", what());
            if r == 0.0 || r == 1.0 {
                ensure!(v as u64 == if r == 0.0 { min } else { max }, "{} = {v}", what());
            }
            let (lo, hi) = floor_band(min, max, r);
            ensure!((lo..=hi).contains(&(v as u64)), "{} = {v}, exact value rounds down to {lo}..={hi}", what());
            if let Some((r0, v0)) = last {
                ensure!(v >= v0, "{} = {v} is below the value {v0} at ratio {r0:?}", what());
            }
            last = Some((r, v));
            c.count("values checked", 1);
            c.evals(1);
        }
        if max > min {
            c.sig((min, max));
        }
        c.sample(|| format!("{min}..{max}"));
        Ok(())
    });
    ctx.cases("float", 20_000, 500_000, 8, |c| {
        let x = |c: &mut Case| -> f64 {
            let s = if c.rng.gen() { 1.0 } else { -1.0 };
            match c.below(6) {
                0 => 0.0,
                1 => s * c.pick(&[1.0, 0.1, 0.3, 0.5, 0.99, 5e-324, 1e-300]),
                2 => s * 10f64.powi(c.rng.gen_range(-280..280)),
                3 => s * c.rng.gen_range(0..100) as f64,
                _ => s * c.rng.gen::<f64>(),
            }
        };
        let (a, b) = (x(c), x(c));
        let (min, max) = if c.chance(0.1) { (a, a) } else { (a.min(b), a.max(b)) };
        let mut rs = vec![0.0, 1.0, f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 0.5, 5e-324, 0.25];
        for _ in 0..15 {
            rs.push(c.rng.gen());
        }
        rs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let tol = 4.0 * f64::EPSILON * (min.abs() + max.abs()) + 1e-320;
        let mut last: Option<(f64, f64)> = None;
        for r in rs {
            let what = || format!("interpolate_f64({min:?}, {max:?}, {r:?})");
            let v = must(what, || interpolate_f64(min, max, r))?;
            // a differently rounded reference, equally exact
            let want = min * (1.0 - r) + max * r;
            ensure!((v - want).abs() <= tol, "{} = {v:?} instead of {want:?}", what());
            ensure!(v >= min - tol && v <= max + tol, "{} = {v:?} is outside", what());
            if let Some((r0, v0)) = last {
                ensure!(v >= v0, "{} = {v:?} is below the value {v0:?} at ratio {r0:?}", what());
            }
            last = Some((r, v));
            c.count("values checked", 1);
            c.evals(1);
        }
        if max > min {
            c.sig((min.to_bits(), max.to_bits()));
        }
        Ok(())
    });
    ctx.require("values checked", 500_000);
}

// ---------------------------------------------------------------------------------------------- C28

pub fn c28(ctx: &Ctx) {
    ctx.rule("A case is a list of 2..40 individuals (ties, signed zeros, denormals, huge and adjacent values); all pairs are compared through every entry point, lists are sorted, maximised, heaped, searched; wrappers are read, changed and unwrapped. Non-trivial: by distinct list.");
    ctx.cases("order", 6_000, 150_000, 8, |c| {
        let most = if c.chance(0.2) { 40 } else { 10 };
        let n = c.rng.gen_range(2..most);
        let kind = crate::sel::KINDS[c.below(11)];
        let mut f = fitness_list(&mut c.rng, kind, n);
        for i in 1..n {
            match c.below(8) {
                0 => f[i] = next_up(f[i - 1]),
                1 => f[i] = f[i - 1],
                2 => f[i] = if c.rng.gen() { 0.0 } else { -0.0 },
                3 => f[i] = c.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324]),
                _ => {}
            }
        }
        let v: Vec<Fi> = f.iter().enumerate().map(|(i, x)| fi(i as u64 / 2, *x)).collect();
        let w: Vec<IndividualWrapper<Fi>> = v.iter().map(|i| IndividualWrapper::from(i.clone())).collect();
        c.sig(f.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        c.sample(|| format!("{f:?}"));
        for i in 0..n {
            for j in 0..n {
                let want = f[i].partial_cmp(&f[j]).unwrap();
                let what = || format!("fitness {:?} against {:?}", f[i], f[j]);
                let got = must(what, || compare_fitness(&v[i], &v[j]))?;
                ensure!(got == want, "compare_fitness of {}: {got:?}", what());
                let (a, b) = (&w[i], &w[j]);
                ensure!((a == b) == (want == Ordering::Equal), "== of wrappers, {}: {}", what(), a == b);
                ensure!((a != b) == (want != Ordering::Equal), "!= of wrappers, {}: {}", what(), a != b);
                ensure!(a.cmp(b) == want, "cmp of wrappers, {}: {:?}", what(), a.cmp(b));
                ensure!(a.partial_cmp(b) == Some(want), "partial_cmp of wrappers, {}: {:?}", what(), a.partial_cmp(b));
                ensure!(
                    (a < b) == (want == Ordering::Less) && (a > b) == (want == Ordering::Greater) && (a <= b) == (want != Ordering::Greater) && (a >= b) == (want != Ordering::Less),
                    "<, >, <=, >= of wrappers, {}",
                    what()
                );
                ensure!(a.max(b).fitness() == f[i].max(f[j]) && a.min(b).fitness() == f[i].min(f[j]), "max or min of wrappers, {}", what());
                let k = c.rng.gen_range(0..n);
                let (lo, hi) = if f[i] <= f[j] { (i, j) } else { (j, i) };
                let got = (&w[k]).clamp(&w[lo], &w[hi]).fitness();
                ensure!(got == f[k].clamp(f[lo], f[hi]), "a wrapper of fitness {:?} clamped to {:?} and {:?}: {got:?}", f[k], f[lo], f[hi]);
                c.count("pairs compared", 1);
            }
        }
        let mut want = f.clone();
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut s: Vec<IndividualWrapper<Fi>> = v.iter().cloned().map(Into::into).collect();
        must(|| "sorting wrappers".into(), || s.sort())?;
        ensure!(s.iter().map(|x| x.fitness()).eq(want.iter().copied()), "sorted wrappers are out of order: {f:?}");
        s.shuffle(&mut c.rng);
        s.sort_unstable();
        ensure!(s.iter().map(|x| x.fitness()).eq(want.iter().copied()), "unstably sorted wrappers are out of order: {f:?}");
        // the same by value
        for _ in 0..4 {
            let mut x: Vec<usize> = (0..3).map(|_| c.below(n)).collect();
            x.sort_by(|a, b| f[*a].partial_cmp(&f[*b]).unwrap());
            let k = c.below(n);
            let one = |i: usize| IndividualWrapper::from(v[i].clone());
            let got = one(k).clamp(one(x[0]), one(x[2])).fitness();
            ensure!(got == f[k].clamp(f[x[0]], f[x[2]]), "a wrapper of fitness {:?} clamped to {:?} and {:?}: {got:?}", f[k], f[x[0]], f[x[2]]);
            let (a, b) = (one(k).max(one(x[1])).fitness(), one(k).min(one(x[1])).fitness());
            ensure!(a == f[k].max(f[x[1]]) && b == f[k].min(f[x[1]]), "max and min of wrappers of {:?} and {:?}: {a:?} and {b:?}", f[k], f[x[1]]);
        }
        let mut h: std::collections::BinaryHeap<_> = w.into_iter().collect();
        for x in want.iter().rev() {
            ensure!(h.pop().map(|i| i.fitness()) == Some(*x), "a heap of wrappers is out of order: {f:?}");
        }
        let mut l = v.clone();
        l.sort_by(compare_fitness);
        ensure!(l.iter().map(|x| x.fit).eq(want.iter().copied()), "sorting by compare_fitness: {f:?}");
        ensure!(v.iter().max_by(|a, b| compare_fitness(*a, *b)).unwrap().fit == want[n - 1], "maximum by compare_fitness: {f:?}");
        // access and unwrapping
        let mut x = IndividualWrapper::from(fi(7, f[0]));
        ensure!(x.id == 7 && x.fitness().to_bits() == f[0].to_bits() && x.is_valid(), "a wrapper shows something else");
        x.id = 8;
        x.fit = f[1];
        x.pad = [9; 24];
        ensure!(x.fitness().to_bits() == f[1].to_bits(), "a change through a wrapper did not take effect");
        ensure!(x == IndividualWrapper::from(fi(1, f[1])), "a changed wrapper compares by its old fitness");
        let y = x.take();
        ensure!(y.id == 8 && y.fit.to_bits() == f[1].to_bits() && y.pad == [9; 24], "unwrapping gave {y:?}");
        // a type that owns memory goes through unchanged and is dropped once
        let t = std::sync::Arc::new(());
        let o = IndividualWrapper::from(Owner { t: t.clone(), s: vec![1, 2, 3] });
        ensure!(std::sync::Arc::strong_count(&t) == 2, "wrapping copied the individual");
        let o = o.take();
        ensure!(std::sync::Arc::strong_count(&t) == 2 && o.s == [1, 2, 3], "unwrapping copied or lost the individual");
        drop(IndividualWrapper::from(o));
        ensure!(std::sync::Arc::strong_count(&t) == 1, "a wrapper leaked its individual");
        let _ = with_fuel(1, || ());
        Ok(())
    });
    ctx.require("pairs compared", 100_000);
}

#[derive(Clone, PartialEq)]
struct Owner {
    t: std::sync::Arc<()>,
    s: Vec<u8>,
}
impl Individual for Owner {
    fn fitness(&self) -> f64 {
        1.0
    }
}
