//! C01-C07: crossover, mutation and random helpers.

use crate::genes::*;
use crate::rt::*;
use crate::stat::*;
use crate::{ensure, fail};
use rand::prelude::*;
use rusty_genes::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::ops::Range;

pub const PERM: [CrossoverStrategy; 6] = [
    CrossoverStrategy::GeneralizedPartition2,
    CrossoverStrategy::SequentialConstructive,
    CrossoverStrategy::EdgeRecombination,
    CrossoverStrategy::PartiallyMapped,
    CrossoverStrategy::Order,
    CrossoverStrategy::Cycle,
];

macro_rules! with_gene {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k % 11 {
            0 => $f::<u8>($($a),*),
            1 => $f::<i32>($($a),*),
            2 => $f::<usize>($($a),*),
            3 => $f::<i64>($($a),*),
            4 => $f::<char>($($a),*),
            5 => $f::<(i8, u16)>($($a),*),
            6 => $f::<&'static str>($($a),*),
            7 => $f::<Tok<0>>($($a),*),
            8 => $f::<Tok<1>>($($a),*),
            9 => $f::<Tok<2>>($($a),*),
            _ => $f::<Tok<3>>($($a),*),
        }
    };
}

pub(crate) use with_gene;

macro_rules! with_large_gene {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k % 5 {
            0 => $f::<usize>($($a),*),
            1 => $f::<i32>($($a),*),
            2 => $f::<i64>($($a),*),
            3 => $f::<(i8, u16)>($($a),*),
            _ => $f::<&'static str>($($a),*),
        }
    };
}

/// Sizes 0..=max: which (n, k-th permutation) is case `idx` of the exhaustive enumeration.
fn small_case(idx: u64, max: u64) -> Option<(usize, u64)> {
    let mut i = idx;
    for n in 0..=max {
        let f = factorial(n);
        if i < f {
            return Some((n as usize, i));
        }
        i -= f;
    }
    None
}
fn small_total(max: u64) -> u64 {
    (0..=max).map(factorial).sum()
}
fn small_pair<G: Gene>(c: &mut Case, max: u64) -> Option<Pair<G>> {
    let (n, k) = small_case(c.idx, max)?;
    let mut a: Vec<usize> = (0..n).collect();
    let rel = nth_perm(n, k);
    if c.chance(0.5) {
        a.shuffle(&mut c.rng);
    }
    let b = rel.iter().map(|&i| a[i]).collect();
    let off = c.below(G::MAX - n + 1);
    Some(Pair::new(a, b, off))
}

fn call<G: Gene>(p: &Pair<G>, what: &str, f: impl FnOnce() -> Vec<G>) -> R<Vec<G>> {
    must(|| format!("{what}; {}", p.show()), || with_fuel(fuel(p.n()), f))
}

fn pivots(c: &mut Case, n: usize, all: bool) -> Vec<usize> {
    if all || n <= 6 {
        (0..n).collect()
    } else {
        let mut v = vec![0, n - 1, c.below(n)];
        v.dedup();
        v
    }
}
fn ranges(c: &mut Case, n: usize, all: bool) -> Vec<Range<usize>> {
    if all || n <= 5 {
        return (0..=n).flat_map(|s| (s..=n).map(move |e| s..e)).collect();
    }
    let mut v = vec![0..n, 0..0, n..n, 0..1, n - 1..n, 0..n - 1, 1..n];
    for _ in 0..5 {
        let (a, b) = (c.below(n + 1), c.below(n + 1));
        v.push(a.min(b)..a.max(b));
    }
    let a = c.below(n + 1);
    v.push(a..a);
    v
}

fn hostile(c: &mut Case, mode: u8) -> Hostile {
    Hostile::new(c.rng.gen(), mode)
}

// ---------------------------------------------------------------------------------------------- C01

pub fn c01(ctx: &Ctx) {
    crate::giant::genes(ctx);
    ctx.rule("A case is a pair of parents (all permutation pairs of up to 6 (quick) / 7 (thorough) genes; random and structured pairs of up to 600 genes; ten gene types incl. counted, hash-colliding and reversed-order genes) on which all operators run with many pivots, ranges, partition selectors and generators; non-trivial: at least 2 genes, counted by distinct (type, parents) pair.");
    let m = if ctx.deep() { 7 } else { 6 };
    ctx.cases("small", small_total(m), small_total(m), 8, |c| {
        let k = c.idx;
        with_gene!(k % 3 + 7, c01_small, c, m)
    });
    ctx.cases("random", 3000, 60_000, 8, |c| {
        let k = c.idx;
        with_gene!(k, c01_random, c)
    });
    ctx.cases("large", 2, 6, 8, |c| {
        let k = c.idx;
        with_large_gene!(k, c01_large, c)
    });
    ctx.cases("spx", 1500, 20_000, 8, c01_spx);
    ctx.cases("spx-large", 4, 20, 8, c01_spx_large);
    ctx.require("enum calls", 10_000);
    ctx.require("function calls", 10_000);
}

fn c01_small<G: Gene>(c: &mut Case, m: u64) -> R {
    match small_pair::<G>(c, m) {
        Some(p) => c01_pair(c, &p, true),
        None => Ok(()),
    }
}
fn c01_random<G: Gene>(c: &mut Case) -> R {
    let p = random_pair_of::<G>(c, 600);
    c01_pair(c, &p, false)
}

/// Parents of a thousand and more genes: thresholds a small genome never reaches.
fn large_pair_of<G: Gene>(c: &mut Case) -> Pair<G> {
    let n = match c.below(3) {
        0 => c.pick(&[1000usize, 1023, 1024, 1025, 2000, 2047, 2048, 2049]),
        1 => c.rng.gen_range(601..1500),
        _ => c.rng.gen_range(1000..3000),
    };
    let mut a: Vec<usize> = (0..n).collect();
    if c.chance(0.7) {
        a.shuffle(&mut c.rng);
    }
    let b = relate(c, &a);
    c.count("pairs of more than 600 genes", 1);
    Pair::new(a, b, 0)
}
fn c01_large<G: Gene>(c: &mut Case) -> R {
    let p = large_pair_of::<G>(c);
    let n = p.n();
    c.sig((G::NAME, &p.i1, &p.i2));
    for st in PERM {
        let mut rng = hostile(c, 0);
        let what = format!("{st:?} (enum)");
        let off = call(&p, &what, || st.crossover(&p.p1, &p.p2, &mut rng))?;
        p.perm_of(&off, &what)?;
    }
    for r in [0..0, 0..n, n / 3..n / 2, n - 1..n] {
        let what = format!("PMX with range {r:?}");
        let off = call(&p, &what, || partially_mapped_crossover(&p.p1, &p.p2, r.clone()))?;
        p.perm_of(&off, &what)?;
        let what = format!("OX with range {r:?}");
        let off = call(&p, &what, || order_crossover(&p.p1, &p.p2, r.clone()))?;
        p.perm_of(&off, &what)?;
    }
    c.count("enum calls", 6);
    c.count("function calls", 8);
    c.evals(14);
    Ok(())
}
fn c01_spx_large(c: &mut Case) -> R {
    let n = match c.below(2) {
        0 => c.pick(&[4096usize, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000]),
        _ => c.rng.gen_range(600..200_000),
    };
    let a: Vec<u8> = vec![0; n];
    let b: Vec<u8> = vec![1; n];
    c.sig(("spx", n));
    for _ in 0..20 {
        let mut rng = hostile(c, 0);
        let o = must(|| format!("SPX on {n} genes"), || CrossoverStrategy::SinglePoint.crossover(&a, &b, &mut rng))?;
        ensure!(o.len() == n, "SPX returned {} genes for parents of {n}", o.len());
    }
    for pt in [0, n / 2, n - 1, n, n + 1, usize::MAX, c.below(n)] {
        let o = must(|| format!("SPX at {pt} on {n} genes"), || single_point_crossover(&a, &b, pt))?;
        ensure!(o.len() == n, "SPX at {pt} returned {} genes for parents of {n}", o.len());
        ensure!(o.iter().filter(|x| **x == 0).count() == pt.min(n), "SPX at {pt} on {n} genes kept the wrong number of genes");
    }
    c.evals(27);
    Ok(())
}

fn c01_pair<G: Gene>(c: &mut Case, p: &Pair<G>, all: bool) -> R {
    let n = p.n();
    c.sample(|| p.show());
    if n >= 2 {
        c.sig((G::NAME, &p.i1, &p.i2));
    }
    for st in PERM {
        let modes: &[u8] = if n > 200 { &[0] } else { &[0, 0, 1, 2, 3] };
        for &mode in modes {
            let mut rng = hostile(c, mode);
            let what = format!("{st:?} (enum, rng mode {mode})");
            let off = call(p, &what, || st.crossover(&p.p1, &p.p2, &mut rng))?;
            p.perm_of(&off, &what)?;
            c.count("enum calls", 1);
        }
    }
    for v in pivots(c, n, all && n <= 6) {
        let g = p.genes[v];
        let what = format!("SCX with pivot #{v}");
        let off = call(p, &what, || sequential_constructive_crossover(&p.p1, &p.p2, g))?;
        p.perm_of(&off, &what)?;
        let what = format!("ERX with pivot #{v}");
        let off = call(p, &what, || edge_recombination_crossover(&p.p1, &p.p2, g))?;
        p.perm_of(&off, &what)?;
        c.count("function calls", 2);
    }
    for r in ranges(c, n, all) {
        let what = format!("PMX with range {r:?}");
        let off = call(p, &what, || partially_mapped_crossover(&p.p1, &p.p2, r.clone()))?;
        p.perm_of(&off, &what)?;
        let what = format!("OX with range {r:?}");
        let off = call(p, &what, || order_crossover(&p.p1, &p.p2, r.clone()))?;
        p.perm_of(&off, &what)?;
        c.count("function calls", 2);
    }
    let off = call(p, "CX", || cycle_crossover(&p.p1, &p.p2))?;
    p.perm_of(&off, "CX")?;
    for s in 0..4u64 {
        let seed = c.rng.gen::<u64>();
        let mut t = 0u64;
        let what = format!("GPX2 with selector {s}");
        let off = call(p, &what, || {
            generalized_partition_2_crossover(&p.p1, &p.p2, |_, parts| {
                t += 1;
                match s {
                    0 => 0,
                    1 => parts.len() - 1,
                    2 => parts.len() / 2,
                    _ => (mix(seed, t) % parts.len() as u64) as usize,
                }
            })
        })?;
        p.perm_of(&off, &what)?;
    }
    c.count("function calls", 5);
    let s = spent();
    c.count("counted gene operations", s);
    c.evals(20);
    Ok(())
}

fn c01_spx(c: &mut Case) -> R {
    let n = pick_size(c, 600);
    let k = c.pick(&[1usize, 2, 3, 50]);
    let a: Vec<u16> = (0..n).map(|_| c.rng.gen_range(0..k) as u16).collect();
    let b: Vec<u16> = (0..n).map(|_| c.rng.gen_range(0..k) as u16).collect();
    c.sig(("spx", &a, &b));
    for mode in 0..4 {
        let mut rng = hostile(c, mode);
        let o = must(
            || format!("SPX enum on {a:?} {b:?}"),
            || with_fuel(fuel(n), || CrossoverStrategy::SinglePoint.crossover(&a, &b, &mut rng)),
        )?;
        ensure!(o.len() == n, "SPX returned {} genes for parents of {n}", o.len());
        c.count("enum calls", 1);
    }
    for pt in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX, c.below(n + 3)] {
        let o = must(|| format!("SPX at {pt} on {n} genes"), || single_point_crossover(&a, &b, pt))?;
        ensure!(o.len() == n, "SPX at {pt} returned {} genes for parents of {n}", o.len());
        c.count("function calls", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C02

pub fn c02(ctx: &Ctx) {
    crate::giant::lengths(ctx);
    ctx.rule("A case is a pair of genomes of different lengths (one empty, off by one, prefix, unrelated, same genes with one lost; both orders) offered to all 7 strategies and 7 functions; non-trivial: every case, by distinct (lengths, relation, gene type).");
    ctx.cases("mismatch", 2500, 40_000, 8, |c| {
        let k = c.idx;
        with_gene!(k, c02_case, c)
    });
    let w = if ctx.deep() { 60 } else { 24 };
    ctx.cases("lengths", w * w, w * w, 8, |c| {
        let (a, b) = ((c.idx / w) as usize, (c.idx % w) as usize);
        if a != b {
            let k = c.idx;
            with_gene!(k % 3 + 7, c02_len, c, a, b)?;
        }
        Ok(())
    });
    ctx.require("calls refused", 10_000);
}

fn c02_len<G: Gene>(c: &mut Case, a: usize, b: usize) -> R {
    if a == b {
        return Ok(());
    }
    let g: Vec<G> = (0..a.max(b)).map(G::mk).collect();
    c.sig((G::NAME, a, b, "prefix"));
    c02_pair(c, &g[..a], &g[..b])
}

fn c02_case<G: Gene>(c: &mut Case) -> R {
    let p = random_pair_of::<G>(c, 300);
    let n = p.n();
    let (mut a, mut b) = (p.p1.clone(), p.p2.clone());
    let rel = c.below(6);
    match rel {
        0 if n > 0 => {
            b.pop();
        }
        1 if n > 0 => {
            b.remove(c.below(n));
        }
        2 => {
            let k = c.below(n + 1);
            if k < n {
                b.truncate(k)
            } else {
                b.insert(0, G::mk(n % G::MAX))
            }
        }
        3 => b.push(G::mk(n % G::MAX)),
        4 if n > 0 => b.clear(),
        _ => {
            let extra = c.rng.gen_range(1..5);
            for i in 0..extra {
                b.insert(c.rng.gen_range(0..=b.len()), G::mk((n + i) % G::MAX));
            }
        }
    }
    if c.chance(0.5) {
        std::mem::swap(&mut a, &mut b);
    }
    c.sig((G::NAME, a.len(), b.len(), rel));
    c02_pair(c, &a, &b)
}

fn c02_pair<G: Gene>(c: &mut Case, a: &[G], b: &[G]) -> R {
    let m = a.len().max(b.len());
    let lo = a.len().min(b.len());
    c.sample(|| format!("{} genes: lengths {} and {}", G::NAME, a.len(), b.len()));
    let refused = |c: &mut Case, what: String, f: &mut dyn FnMut() -> Vec<G>| -> R {
        match lib(|| with_fuel(fuel(m), &mut *f)) {
            Ok(v) => fail!("{what} returned {} genes for parents of lengths {} and {} instead of panicking", v.len(), a.len(), b.len()),
            Err(Panicked::Budget) => fail!("{what} did not return for parents of lengths {} and {}", a.len(), b.len()),
            Err(_) => {
                c.count("calls refused", 1);
                c.evals(1);
                Ok(())
            }
        }
    };
    for st in PERM.into_iter().chain([CrossoverStrategy::SinglePoint]) {
        let mode = c.pick(&[0u8, 0, 1]);
        let mut rng = hostile(c, mode);
        refused(c, format!("{st:?} (enum)"), &mut || st.crossover(a, b, &mut rng))?;
    }
    // arguments that fit the shorter parent
    let s = c.below(lo + 1);
    let e = c.rng.gen_range(s..=lo);
    for r in [s..e, 0..lo, 0..0, lo..lo] {
        refused(c, format!("PMX {r:?}"), &mut || partially_mapped_crossover(a, b, r.clone()))?;
        refused(c, format!("OX {r:?}"), &mut || order_crossover(a, b, r.clone()))?;
    }
    refused(c, "CX".into(), &mut || cycle_crossover(a, b))?;
    for pt in [0, s, lo, lo + 1, m, m + 1] {
        refused(c, format!("SPX {pt}"), &mut || single_point_crossover(a, b, pt))?;
    }
    refused(c, "GPX2".into(), &mut || generalized_partition_2_crossover(a, b, |_, _| 0))?;
    for pv in [a.first(), b.first(), a.last(), b.last()].into_iter().flatten().copied() {
        refused(c, "SCX".into(), &mut || sequential_constructive_crossover(a, b, pv))?;
        refused(c, "ERX".into(), &mut || edge_recombination_crossover(a, b, pv))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C03

fn pos_of(v: &[usize]) -> Vec<usize> {
    let mut p = vec![usize::MAX; v.len()];
    for (i, &g) in v.iter().enumerate() {
        p[g] = i;
    }
    p
}

pub fn ref_spx<T: Copy>(a: &[T], b: &[T], pt: usize) -> Vec<T> {
    (0..a.len()).map(|i| if i < pt { a[i] } else { b[i] }).collect()
}
pub fn ref_pmx(a: &[usize], b: &[usize], r: &Range<usize>) -> Vec<usize> {
    let pa = pos_of(a);
    (0..a.len())
        .map(|i| {
            if r.contains(&i) {
                return a[i];
            }
            let mut g = b[i];
            while r.contains(&pa[g]) {
                g = b[pa[g]];
            }
            g
        })
        .collect()
}
pub fn ref_ox(a: &[usize], b: &[usize], r: &Range<usize>) -> Vec<usize> {
    let n = a.len();
    let mut out = a.to_vec();
    let kept: HashSet<usize> = a[r.clone()].iter().copied().collect();
    let fill: Vec<usize> = (0..n).map(|k| b[(r.end + k) % n]).filter(|g| !kept.contains(g)).collect();
    let slots = (0..n).map(|k| (r.end + k) % n).filter(|i| !r.contains(i));
    for (s, g) in slots.zip(fill) {
        out[s] = g;
    }
    out
}
pub fn ref_cx(a: &[usize], b: &[usize]) -> (Vec<usize>, usize) {
    let n = a.len();
    let pa = pos_of(a);
    let mut cyc = vec![usize::MAX; n];
    let mut k = 0;
    for s in 0..n {
        if cyc[s] == usize::MAX {
            let mut i = s;
            while cyc[i] == usize::MAX {
                cyc[i] = k;
                i = pa[b[i]];
            }
            k += 1;
        }
    }
    ((0..n).map(|i| if cyc[i] % 2 == 0 { a[i] } else { b[i] }).collect(), k)
}

pub fn c03(ctx: &Ctx) {
    crate::giant::genes(ctx);
    ctx.rule("A case is a parent pair (exhaustive up to 6/7 genes with every range and point, random and structured up to 600 genes) whose SPX/PMX/OX/CX offspring are compared gene by gene with executable reference models, enum results with the set of admissible results; non-trivial: parents differ and n >= 3, by distinct pair.");
    let m = if ctx.deep() { 7 } else { 6 };
    ctx.cases("small", small_total(m), small_total(m), 8, |c| {
        let k = c.idx;
        with_gene!(k, c03_small, c, m)
    });
    ctx.cases("random", 5000, 100_000, 8, |c| {
        let k = c.idx;
        with_gene!(k, c03_random, c)
    });
    ctx.cases("large", 1, 3, 8, |c| {
        let k = c.idx;
        with_large_gene!(k, c03_large, c)
    });
    ctx.cases("spx", 2000, 30_000, 8, c03_spx);
    ctx.require("offspring compared", 40_000);
}
fn c03_small<G: Gene>(c: &mut Case, m: u64) -> R {
    match small_pair::<G>(c, m) {
        Some(p) => c03_pair(c, &p, true),
        None => Ok(()),
    }
}
fn c03_random<G: Gene>(c: &mut Case) -> R {
    let p = random_pair_of::<G>(c, 600);
    c03_pair(c, &p, false)
}
fn c03_large<G: Gene>(c: &mut Case) -> R {
    let p = large_pair_of::<G>(c);
    let n = p.n();
    c.sig((G::NAME, &p.i1, &p.i2));
    let (x, y) = (c.below(n), c.below(n));
    for r in [0..0, n..n, 0..n, n / 2..n / 2, x.min(y)..x.max(y), 0..x, y..n] {
        let what = format!("PMX with range {r:?}");
        let o = call(&p, &what, || partially_mapped_crossover(&p.p1, &p.p2, r.clone()))?;
        same(c, &p, &what, &o, &ref_pmx(&p.i1, &p.i2, &r))?;
        let what = format!("OX with range {r:?}");
        let o = call(&p, &what, || order_crossover(&p.p1, &p.p2, r.clone()))?;
        same(c, &p, &what, &o, &ref_ox(&p.i1, &p.i2, &r))?;
    }
    let o = call(&p, "CX", || cycle_crossover(&p.p1, &p.p2))?;
    same(c, &p, "CX", &o, &ref_cx(&p.i1, &p.i2).0)?;
    for pt in [0, n, n + 1, x, y] {
        let o = call(&p, &format!("SPX at {pt}"), || single_point_crossover(&p.p1, &p.p2, pt))?;
        same(c, &p, &format!("SPX at {pt}"), &o, &ref_spx(&p.i1, &p.i2, pt))?;
    }
    Ok(())
}
fn same<G: Gene>(c: &mut Case, p: &Pair<G>, what: &str, got: &[G], want: &[usize]) -> R {
    let ix = p.ixs(got)?;
    c.count("offspring compared", 1);
    c.evals(1);
    ensure!(ix == want, "{what}: offspring {} differs from the definition's {}; {}", cutv(&ix), cutv(want), p.show());
    Ok(())
}
fn c03_pair<G: Gene>(c: &mut Case, p: &Pair<G>, all: bool) -> R {
    let n = p.n();
    c.sample(|| p.show());
    if n >= 3 && p.i1 != p.i2 {
        c.sig((G::NAME, &p.i1, &p.i2));
    }
    if n == 0 {
        return Ok(());
    }
    for r in ranges(c, n, all) {
        let what = format!("PMX with range {r:?}");
        let o = call(p, &what, || partially_mapped_crossover(&p.p1, &p.p2, r.clone()))?;
        same(c, p, &what, &o, &ref_pmx(&p.i1, &p.i2, &r))?;
        let what = format!("OX with range {r:?}");
        let o = call(p, &what, || order_crossover(&p.p1, &p.p2, r.clone()))?;
        same(c, p, &what, &o, &ref_ox(&p.i1, &p.i2, &r))?;
    }
    let (want, cycles) = ref_cx(&p.i1, &p.i2);
    c.count(if cycles > 2 { "pairs with more than 2 cycles" } else { "pairs with 1 or 2 cycles" }, 1);
    let o = call(p, "CX", || cycle_crossover(&p.p1, &p.p2))?;
    same(c, p, "CX", &o, &want)?;
    let mut rng = hostile(c, 1);
    let o = call(p, "CX (enum)", || CrossoverStrategy::Cycle.crossover(&p.p1, &p.p2, &mut rng))?;
    same(c, p, "CX (enum)", &o, &want)?;
    let pts: Vec<usize> = if n <= 6 { (0..n + 2).collect() } else { vec![0, 1, n - 1, n, n + 1, usize::MAX, c.below(n)] };
    for pt in pts {
        let o = call(p, &format!("SPX at {pt}"), || single_point_crossover(&p.p1, &p.p2, pt))?;
        same(c, p, &format!("SPX at {pt}"), &o, &ref_spx(&p.i1, &p.i2, pt))?;
    }
    if n <= 14 {
        let rs: Vec<Range<usize>> = (0..n).flat_map(|s| (s + 1..=n).map(move |e| s..e)).collect();
        let pmx: HashSet<Vec<usize>> = rs.iter().map(|r| ref_pmx(&p.i1, &p.i2, r)).collect();
        let ox: HashSet<Vec<usize>> = rs.iter().map(|r| ref_ox(&p.i1, &p.i2, r)).collect();
        for _ in 0..4 {
            let mode = c.pick(&[0u8, 0, 1]);
            let mut rng = hostile(c, mode);
            let o = call(p, "PMX (enum)", || CrossoverStrategy::PartiallyMapped.crossover(&p.p1, &p.p2, &mut rng))?;
            let ix = p.ixs(&o)?;
            ensure!(pmx.contains(&ix), "PMX (enum): {ix:?} results from no range; {}", p.show());
            let o = call(p, "OX (enum)", || CrossoverStrategy::Order.crossover(&p.p1, &p.p2, &mut rng))?;
            let ix = p.ixs(&o)?;
            ensure!(ox.contains(&ix), "OX (enum): {ix:?} results from no range; {}", p.show());
            let o = call(p, "SPX (enum)", || CrossoverStrategy::SinglePoint.crossover(&p.p1, &p.p2, &mut rng))?;
            let ix = p.ixs(&o)?;
            ensure!(
                (0..=n).any(|pt| ref_spx(&p.i1, &p.i2, pt) == ix),
                "SPX (enum): {ix:?} results from no point; {}",
                p.show()
            );
            c.evals(3);
        }
    } else {
        // larger genomes: the kept segment identifies the range
        for _ in 0..2 {
            let mut rng = hostile(c, 0);
            for st in [CrossoverStrategy::PartiallyMapped, CrossoverStrategy::Order] {
                let o = call(p, "enum", || st.crossover(&p.p1, &p.p2, &mut rng))?;
                let ix = p.ixs(&o)?;
                ensure!(ix.len() == n, "{st:?}: wrong length");
                // maximal runs agreeing with parent 1 are the only candidates for the kept range
                let mut ok = false;
                let mut s = 0;
                while s < n && !ok {
                    if ix[s] != p.i1[s] {
                        s += 1;
                        continue;
                    }
                    let mut e = s;
                    while e < n && ix[e] == p.i1[e] {
                        e += 1;
                    }
                    // the kept range lies in s..e and genes next to it may agree by chance
                    let budget = 3000;
                    let mut tried = 0;
                    'o: for x in s..e {
                        for y in (x + 1..=e).rev() {
                            let w = if st == CrossoverStrategy::Order {
                                ref_ox(&p.i1, &p.i2, &(x..y))
                            } else {
                                ref_pmx(&p.i1, &p.i2, &(x..y))
                            };
                            if w == ix {
                                ok = true;
                                break 'o;
                            }
                            tried += 1;
                            if tried > budget {
                                c.count("enum range search given up", 1);
                                ok = true;
                                break 'o;
                            }
                        }
                    }
                    s = e;
                }
                ensure!(ok, "{st:?} (enum): {} results from no range; {}", cutv(&ix), p.show());
                c.evals(1);
            }
        }
    }
    Ok(())
}
fn c03_spx(c: &mut Case) -> R {
    // genomes that are not permutations
    let n = pick_size(c, 300);
    let k = c.pick(&[1usize, 2, 5, 1000]);
    let a: Vec<i32> = (0..n).map(|_| c.rng.gen_range(0..k) as i32).collect();
    let b: Vec<i32> = (0..n).map(|_| c.rng.gen_range(0..k) as i32).collect();
    if a != b {
        c.sig(("spx", &a, &b));
    }
    for pt in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX, c.below(n + 3)] {
        let o = must(|| format!("SPX at {pt}"), || single_point_crossover(&a, &b, pt))?;
        ensure!(o == ref_spx(&a, &b, pt), "SPX at {pt}: {o:?} for {a:?} and {b:?}");
        c.count("offspring compared", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C04

pub fn ref_scx(a: &[usize], b: &[usize], pivot: usize) -> Vec<usize> {
    let n = a.len();
    let (pa, pb) = (pos_of(a), pos_of(b));
    let mut used = vec![false; n];
    let mut out = vec![pivot];
    used[pivot] = true;
    let mut cur = pivot;
    let mut first_free = 0;
    while out.len() < n {
        let s1 = a[(pa[cur] + 1) % n];
        let s2 = b[(pb[cur] + 1) % n];
        let g = match (used[s1], used[s2]) {
            (false, false) => {
                if pb[s1] < pa[s2] {
                    s1
                } else {
                    s2
                }
            }
            (false, true) => s1,
            (true, false) => s2,
            _ => {
                while used[a[first_free]] {
                    first_free += 1;
                }
                a[first_free]
            }
        };
        out.push(g);
        used[g] = true;
        cur = g;
    }
    out
}

/// Checks an ERX offspring step by step; returns (steps with a neighbour, ties, fallbacks).
fn check_erx(a: &[usize], b: &[usize], o: &[usize]) -> R<(u64, u64, u64)> {
    let n = a.len();
    let mut nb: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    for v in [a, b] {
        for i in 0..n {
            let g = v[i];
            for h in [v[(i + 1) % n], v[(i + n - 1) % n]] {
                if h != g {
                    nb[g].insert(h);
                }
            }
        }
    }
    let mut used = vec![false; n];
    let (mut steps, mut ties, mut falls) = (0, 0, 0);
    for w in o.windows(2) {
        let (cur, next) = (w[0], w[1]);
        used[cur] = true;
        let free = |g: usize| nb[g].iter().filter(|h| !used[**h]).count();
        let cand: Vec<usize> = nb[cur].iter().copied().filter(|h| !used[*h]).collect();
        ensure!(!used[next], "gene #{next} reused");
        if cand.is_empty() {
            falls += 1;
            continue;
        }
        steps += 1;
        let best = cand.iter().map(|&g| free(g)).min().unwrap();
        if cand.iter().filter(|&&g| free(g) == best).count() > 1 {
            ties += 1;
        }
        ensure!(
            cand.contains(&next),
            "after #{cur} comes #{next}, not one of its unused neighbours {cand:?}; offspring {}",
            cutv(o)
        );
        ensure!(
            free(next) == best,
            "after #{cur} comes #{next} with {} unused neighbours although one with {best} was available; offspring {}",
            free(next),
            cutv(o)
        );
    }
    Ok((steps, ties, falls))
}

pub fn c04(ctx: &Ctx) {
    crate::giant::genes(ctx);
    ctx.rule("A case is a parent pair and pivots (exhaustive up to 6/7 genes, random and structured up to 600); SCX is compared with a reference model, ERX is checked step by step against the recomputed neighbour lists (any tie order accepted); non-trivial: n >= 3 and parents differ, by distinct pair.");
    let m = if ctx.deep() { 7 } else { 6 };
    ctx.cases("small", small_total(m), small_total(m), 8, |c| {
        let k = c.idx;
        with_gene!(k, c04_small, c, m)
    });
    ctx.cases("random", 4000, 80_000, 8, |c| {
        let k = c.idx;
        with_gene!(k, c04_random, c)
    });
    ctx.cases("large", 1, 3, 8, |c| {
        let k = c.idx;
        with_large_gene!(k, c04_large, c)
    });
    ctx.require("ERX steps along a link", 50_000);
    ctx.require("ERX fallbacks", 100);
    ctx.require("SCX offspring", 10_000);
}
fn c04_small<G: Gene>(c: &mut Case, m: u64) -> R {
    match small_pair::<G>(c, m) {
        Some(p) => c04_pair(c, &p, true),
        None => Ok(()),
    }
}
fn c04_random<G: Gene>(c: &mut Case) -> R {
    let p = random_pair_of::<G>(c, 600);
    c04_pair(c, &p, false)
}
fn c04_large<G: Gene>(c: &mut Case) -> R {
    let p = large_pair_of::<G>(c);
    c04_pair(c, &p, false)
}
fn c04_pair<G: Gene>(c: &mut Case, p: &Pair<G>, all: bool) -> R {
    let n = p.n();
    if n == 0 {
        return Ok(());
    }
    c.sample(|| p.show());
    if n >= 3 && p.i1 != p.i2 {
        c.sig((G::NAME, &p.i1, &p.i2));
    }
    let erx = |c: &mut Case, what: &str, o: Vec<G>, pv: Option<usize>| -> R {
        let ix = p.perm_of(&o, what)?;
        if let Some(v) = pv {
            ensure!(ix[0] == v, "{what}: starts with #{} instead of the pivot; {}", ix[0], p.show());
        }
        let (s, t, f) = check_erx(&p.i1, &p.i2, &ix).map_err(|e| Viol(format!("{what}: {}; {}", e.0, p.show())))?;
        c.count("ERX steps along a link", s);
        c.count("ERX ties", t);
        c.count("ERX fallbacks", f);
        c.evals(1);
        Ok(())
    };
    for v in pivots(c, n, all) {
        let g = p.genes[v];
        let what = format!("SCX with pivot #{v}");
        let o = call(p, &what, || sequential_constructive_crossover(&p.p1, &p.p2, g))?;
        same(c, p, &what, &o, &ref_scx(&p.i1, &p.i2, v))?;
        c.count("SCX offspring", 1);
        let what = format!("ERX with pivot #{v}");
        let o = call(p, &what, || edge_recombination_crossover(&p.p1, &p.p2, g))?;
        erx(c, &what, o, Some(v))?;
    }
    for _ in 0..2 {
        let mode = c.pick(&[0u8, 1]);
        let mut rng = hostile(c, mode);
        let o = call(p, "SCX (enum)", || CrossoverStrategy::SequentialConstructive.crossover(&p.p1, &p.p2, &mut rng))?;
        let ix = p.perm_of(&o, "SCX (enum)")?;
        ensure!(ix == ref_scx(&p.i1, &p.i2, ix[0]), "SCX (enum): {} is not what its pivot gives; {}", cutv(&ix), p.show());
        let o = call(p, "ERX (enum)", || CrossoverStrategy::EdgeRecombination.crossover(&p.p1, &p.p2, &mut rng))?;
        erx(c, "ERX (enum)", o, None)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C05

pub fn edges(v: &[usize]) -> HashSet<(usize, usize)> {
    let n = v.len();
    let mut e = HashSet::new();
    for i in 0..n {
        let (x, y) = (v[i], v[(i + 1) % n]);
        if x != y {
            e.insert((x.min(y), x.max(y)));
        }
    }
    e
}

pub fn c05(ctx: &Ctx) {
    crate::giant::genes(ctx);
    ctx.rule("A case is a permutation pair of at least 2 genes (exhaustive up to 6/7, random and structured up to 600); common neighbours are compared with recomputed edge sets in both argument orders, chains with their definition, GPX2 offspring and selector arguments with the chains under five selector functions and the enum; non-trivial: at least one shared adjacency and parents differ, by distinct pair.");
    let m = if ctx.deep() { 7 } else { 6 };
    ctx.cases("small", small_total(m), small_total(m), 8, |c| {
        let k = c.idx;
        with_gene!(k, c05_small, c, m)
    });
    ctx.cases("random", 3000, 60_000, 8, |c| {
        let k = c.idx;
        with_gene!(k, c05_random, c)
    });
    ctx.cases("large", 2, 6, 8, |c| {
        let k = c.idx;
        with_large_gene!(k, c05_large, c)
    });
    ctx.require("selector calls checked", 20_000);
    ctx.require("shared adjacencies seen", 20_000);
}
fn c05_small<G: Gene>(c: &mut Case, m: u64) -> R {
    match small_pair::<G>(c, m) {
        Some(p) => c05_pair(c, &p),
        None => Ok(()),
    }
}
fn c05_random<G: Gene>(c: &mut Case) -> R {
    let p = random_pair_of::<G>(c, 600);
    c05_pair(c, &p)
}
fn c05_large<G: Gene>(c: &mut Case) -> R {
    let p = large_pair_of::<G>(c);
    c05_pair(c, &p)
}
fn c05_pair<G: Gene>(c: &mut Case, p: &Pair<G>) -> R {
    let n = p.n();
    if n < 2 {
        return Ok(());
    }
    let (e1, e2) = (edges(&p.i1), edges(&p.i2));
    let shared: HashSet<(usize, usize)> = e1.intersection(&e2).copied().collect();
    c.count("shared adjacencies seen", shared.len() as u64);
    c.sample(|| format!("{}; {} shared adjacencies", p.show(), shared.len()));
    if !shared.is_empty() && p.i1 != p.i2 {
        c.sig((G::NAME, &p.i1, &p.i2));
    }
    for (x, y, o) in [(&p.p1, &p.p2, "parent1, parent2"), (&p.p2, &p.p1, "parent2, parent1")] {
        let cn = must(|| format!("common_neighbors({o}); {}", p.show()), || with_fuel(fuel(n), || common_neighbors(x, y)))?;
        let mut got = HashSet::new();
        for (g, h) in &cn {
            let ix = p.ixs(&[*g, *h])?;
            ensure!(
                got.insert((ix[0].min(ix[1]), ix[0].max(ix[1]))),
                "common_neighbors({o}) lists #{} - #{} twice; {}",
                ix[0],
                ix[1],
                p.show()
            );
        }
        ensure!(
            got == shared,
            "common_neighbors({o}): wrong pairs; missing {:?}, extra {:?}; {}",
            shared.difference(&got).collect::<Vec<_>>(),
            got.difference(&shared).collect::<Vec<_>>(),
            p.show()
        );
        c.evals(1);
    }
    let chains = must(|| format!("common_partitions; {}", p.show()), || with_fuel(fuel(n), || common_partitions(&p.p1, &p.p2)))?;
    let ch: Vec<Vec<usize>> = chains.iter().map(|x| p.ixs(x)).collect::<R<_>>()?;
    let mut used = vec![false; n];
    let edge = |a: usize, b: usize| shared.contains(&(a.min(b), a.max(b)));
    for x in &ch {
        ensure!(!x.is_empty(), "common_partitions: empty chain; {}", p.show());
        for &g in x {
            ensure!(!std::mem::replace(&mut used[g], true), "common_partitions: gene #{g} in two places; {ch:?}; {}", p.show());
        }
        for w in x.windows(2) {
            ensure!(edge(w[0], w[1]), "common_partitions: #{} and #{} are not adjacent in both; {}", w[0], w[1], p.show());
        }
        let last = *x.last().unwrap();
        for g in 0..n {
            ensure!(
                used[g] || !edge(last, g),
                "common_partitions: chain {x:?} ends at #{last} although its shared neighbour #{g} is unused; {}",
                p.show()
            );
        }
    }
    ensure!(used.iter().all(|&u| u), "common_partitions: genes missing from {ch:?}; {}", p.show());
    c.evals(1);
    // GPX2 under several selectors, with the protocol checked at every call
    for s in 0..5u64 {
        let seed = c.rng.gen::<u64>();
        let mut t = 0u64;
        let mut left = chains.clone();
        let mut want: Vec<G> = Vec::new();
        let mut bad: Option<String> = None;
        let o = call(p, &format!("GPX2 with selector {s}"), || {
            generalized_partition_2_crossover(&p.p1, &p.p2, |last, parts| {
                t += 1;
                if bad.is_none() {
                    if last != want.last() {
                        bad = Some(format!("call {t}: last gene shown is {last:?}, placed {:?}", want.last()));
                    }
                    let key = |v: &[Vec<G>]| {
                        let mut k: Vec<Vec<usize>> = v.iter().map(|x| x.iter().map(|g| p.ix(g).unwrap_or(usize::MAX)).collect()).collect();
                        k.sort();
                        k
                    };
                    if key(parts) != key(&left) {
                        bad = Some(format!("call {t}: chains shown {:?}, not yet placed {:?}", key(parts), key(&left)));
                    }
                }
                let i = match s {
                    0 => 0,
                    1 => parts.len() - 1,
                    2 => (mix(seed, t) % parts.len() as u64) as usize,
                    3 => parts.iter().enumerate().max_by_key(|(_, x)| x.len()).unwrap().0,
                    _ => parts.iter().enumerate().min_by_key(|(_, x)| x.len()).unwrap().0,
                };
                want.extend(parts[i].iter().copied());
                if let Some(k) = left.iter().position(|x| *x == parts[i]) {
                    left.remove(k);
                }
                i
            })
        })?;
        c.count("selector calls checked", t);
        if let Some(b) = bad {
            fail!("GPX2 with selector {s}, {b}; {}", p.show());
        }
        ensure!(left.is_empty(), "GPX2 finished with chains {left:?} never shown; {}", p.show());
        ensure!(
            o == want,
            "GPX2 with selector {s}: offspring {:?} is not the chains in the chosen order {:?}; {}",
            cutv(&p.ixs(&o)?),
            cutv(&p.ixs(&want)?),
            p.show()
        );
        c.evals(1);
    }
    let first: HashMap<usize, &Vec<usize>> = ch.iter().map(|x| (x[0], x)).collect();
    for mode in [0, 1] {
        let mut rng = hostile(c, mode);
        let o = call(p, "GPX2 (enum)", || CrossoverStrategy::GeneralizedPartition2.crossover(&p.p1, &p.p2, &mut rng))?;
        let ix = p.perm_of(&o, "GPX2 (enum)")?;
        let mut i = 0;
        while i < n {
            match first.get(&ix[i]) {
                Some(x) if ix[i..].starts_with(x) => i += x.len(),
                _ => fail!("GPX2 (enum): {} is not a sequence of the shared chains {ch:?}; {}", cutv(&ix), p.show()),
            }
        }
        c.evals(1);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C06

const MUT: [MutationStrategy; 5] = [
    MutationStrategy::Swap,
    MutationStrategy::Scramble,
    MutationStrategy::Inversion,
    MutationStrategy::Insertion,
    MutationStrategy::Duplicate,
];

fn by_fn<G: Copy, Q: Rng>(m: MutationStrategy, g: &mut [G], r: &mut Q) {
    match m {
        MutationStrategy::Swap => swap_mutation(g, r),
        MutationStrategy::Scramble => scramble_mutation(g, r),
        MutationStrategy::Inversion => inversion_mutation(g, r),
        MutationStrategy::Insertion => insertion_mutation(g, r),
        MutationStrategy::Duplicate => duplicate_mutation(g, r),
    }
}

/// Is `b` what the mutation may make of `a`? Genes of `a` are pairwise different.
fn effect_ok<G: PartialEq + Debug>(m: MutationStrategy, a: &[G], b: &[G]) -> R {
    let n = a.len();
    ensure!(b.len() == n, "length changed from {n} to {}", b.len());
    if n < 2 {
        ensure!(a == b, "genome of {n} genes changed");
        return Ok(());
    }
    let diff: Vec<usize> = (0..n).filter(|&i| a[i] != b[i]).collect();
    match m {
        MutationStrategy::Swap => {
            ensure!(
                diff.len() == 2 && a[diff[0]] == b[diff[1]] && a[diff[1]] == b[diff[0]],
                "not an exchange of two positions (changed positions {:?})",
                diff
            );
        }
        MutationStrategy::Inversion => {
            ensure!(diff.len() >= 2, "nothing reversed");
            let (s, e) = (diff[0], diff[diff.len() - 1]);
            ensure!((s..=e).all(|i| a[i] == b[s + e - i]), "not a reversed segment (changed {s}..={e})");
        }
        MutationStrategy::Insertion => {
            ensure!(diff.len() >= 2, "no gene moved");
            let (s, e) = (diff[0], diff[diff.len() - 1]);
            let fwd = b[e] == a[s] && (s..e).all(|i| b[i] == a[i + 1]);
            let back = b[s] == a[e] && (s..e).all(|i| b[i + 1] == a[i]);
            ensure!(fwd || back, "not a move of one gene (changed {s}..={e})");
        }
        MutationStrategy::Scramble => {
            let mut seen = vec![false; n];
            for g in b {
                match a.iter().enumerate().position(|(i, x)| x == g && !seen[i]) {
                    Some(i) => seen[i] = true,
                    None => fail!("gene {g:?} invented or repeated"),
                }
            }
        }
        MutationStrategy::Duplicate => {
            ensure!(diff.len() == 1, "{} positions changed instead of one", diff.len());
            ensure!(a.iter().any(|g| *g == b[diff[0]]), "position {} got a gene that is nowhere in the genome", diff[0]);
        }
    }
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("A case is a genome (0-600 genes; unique genes of ten types, repeated genes, heap-owning genes for the generic functions) mutated several times by every kind through enum and function with ordinary and hostile generators; every before/after pair is classified; non-trivial: at least 2 genes, by distinct (kind, n, changed positions).");
    ctx.cases("unique", 4000, 80_000, 8, |c| {
        let k = c.idx;
        with_gene!(k, c06_unique, c)
    });
    ctx.cases("large", 5, 40, 8, c06_large);
    ctx.cases("repeated", 2000, 20_000, 8, c06_repeated);
    ctx.cases("owning", 500, 5000, 8, c06_owning);
    ctx.require("mutations checked", 50_000);
}
fn c06_unique<G: Gene>(c: &mut Case) -> R {
    let n = pick_size(c, 600.min(G::MAX));
    let mut a: Vec<G> = (0..n).map(G::mk).collect();
    a.shuffle(&mut c.rng);
    for m in MUT {
        for rep in 0..6 {
            let mode = [0u8, 0, 0, 1, 2, 3][rep];
            let via_enum = c.rng.gen::<bool>();
            let mut rng = hostile(c, mode);
            let mut b = a.clone();
            let what = || format!("{m:?} ({}, rng mode {mode}) on {n} {} genes", if via_enum { "enum" } else { "fn" }, G::NAME);
            must(what, || {
                with_fuel(fuel(n), || if via_enum { m.mutate(&mut b, &mut rng) } else { by_fn(m, &mut b, &mut rng) })
            })?;
            effect_ok(m, &a, &b).map_err(|e| Viol(format!("{}: {}; before {} after {}", what(), e.0, cutv(&a), cutv(&b))))?;
            c.count("mutations checked", 1);
            c.evals(1);
            if n >= 2 {
                let d: Vec<usize> = (0..n).filter(|&i| a[i] != b[i]).take(3).collect();
                c.sig((format!("{m:?}"), n, d));
            }
            if m != MutationStrategy::Duplicate && c.chance(0.3) {
                a = b;
            }
        }
    }
    c.sample(|| format!("{} {} genes", n, G::NAME));
    Ok(())
}
fn c06_large(c: &mut Case) -> R {
    let n = match c.below(3) {
        0 => c.pick(&[1000usize, 1024, 4096, 65_535, 65_536, 65_537]),
        1 => c.rng.gen_range(601..5000),
        _ => c.rng.gen_range(600..100_000),
    };
    let a: Vec<u32> = (0..n as u32).collect();
    let m = MUT[c.idx as usize % 5];
    for _ in 0..6 {
        let via_enum = c.rng.gen::<bool>();
        let mut rng = hostile(c, 0);
        let mut b = a.clone();
        must(|| format!("{m:?} on {n} genes"), || if via_enum { m.mutate(&mut b, &mut rng) } else { by_fn(m, &mut b, &mut rng) })?;
        if m == MutationStrategy::Scramble {
            let mut t = b;
            t.sort_unstable();
            ensure!(t == a, "{m:?} on {n} genes: genes lost or gained");
        } else {
            effect_ok(m, &a, &b).map_err(|e| Viol(format!("{m:?} on {n} genes in ascending order: {}", e.0)))?;
        }
        c.count("mutations checked", 1);
        c.count("mutations of more than 600 genes", 1);
    }
    c.sig((format!("{m:?}"), n));
    Ok(())
}
fn c06_repeated(c: &mut Case) -> R {
    let n = pick_size(c, 200);
    let k = c.pick(&[1usize, 2, 3, 7]);
    let a: Vec<u8> = (0..n).map(|_| c.rng.gen_range(0..k) as u8).collect();
    for m in MUT {
        let mode = c.pick(&[0u8, 1]);
        let mut rng = hostile(c, mode);
        let mut b = a.clone();
        must(|| format!("{m:?} on {a:?}"), || with_fuel(fuel(n), || m.mutate(&mut b, &mut rng)))?;
        let hist = |v: &[u8]| {
            let mut h = [0usize; 256];
            v.iter().for_each(|x| h[*x as usize] += 1);
            h
        };
        ensure!(b.len() == n, "{m:?}: length changed");
        if m == MutationStrategy::Duplicate {
            let d: Vec<usize> = (0..n).filter(|&i| a[i] != b[i]).collect();
            ensure!(d.len() <= 1 && d.iter().all(|&i| a.contains(&b[i])), "{m:?}: {a:?} became {b:?}");
        } else {
            ensure!(hist(&a) == hist(&b), "{m:?}: genes lost or gained: {a:?} became {b:?}");
        }
        if n < 2 {
            ensure!(a == b, "{m:?}: short genome changed");
        }
        c.count("mutations checked", 1);
        c.sig((format!("{m:?}"), &a, &b));
    }
    Ok(())
}
fn c06_owning(c: &mut Case) -> R {
    use std::sync::Arc;
    let n = pick_size(c, 60);
    let a: Vec<Arc<usize>> = (0..n).map(Arc::new).collect();
    for m in [MutationStrategy::Swap, MutationStrategy::Scramble, MutationStrategy::Inversion, MutationStrategy::Insertion] {
        let mut rng = hostile(c, 0);
        let mut b = a.clone();
        must(|| format!("{m:?} on {n} owning genes"), || match m {
            MutationStrategy::Swap => swap_mutation(&mut b, &mut rng),
            MutationStrategy::Scramble => scramble_mutation(&mut b, &mut rng),
            MutationStrategy::Inversion => inversion_mutation(&mut b, &mut rng),
            _ => insertion_mutation(&mut b, &mut rng),
        })?;
        effect_ok(m, &a, &b).map_err(|e| Viol(format!("{m:?} on owning genes: {}; {a:?} -> {b:?}", e.0)))?;
        ensure!(a.iter().all(|x| Arc::strong_count(x) == 2), "{m:?}: a gene was leaked or dropped");
        c.count("mutations checked", 1);
        c.sig((format!("{m:?}"), n, "owning"));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C07

/// Probability of each segment (start, length) by the documented rule for lengths lo..=hi in n.
fn segments(n: usize, lo: usize, hi: usize) -> Vec<(usize, usize, f64)> {
    let mut v = vec![];
    for len in lo..=hi {
        for s in 0..=n - len {
            v.push((s, len, 1.0 / (hi - lo + 1) as f64 / (n - len + 1) as f64));
        }
    }
    v
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("A case draws one helper or mutation many times for one n (and length bounds) from a uniform generator and compares the outcome frequencies with the exact distribution (chi-square at 1e-12, impossible outcomes must not occur), or checks bounds for huge n and refusal of invalid requests; non-trivial: by distinct (what, parameters).");
    ctx.cases("pair", 60, 400, 8, |c| {
        let n = if c.idx < 12 { c.idx as usize + 2 } else { c.rng.gen_range(2..30) };
        let mut rng = SmallRng::seed_from_u64(c.rng.gen());
        let draws = 400 * n * n + 20_000;
        let mut cnt = vec![0u64; n * n];
        for _ in 0..draws {
            let (a, b) = must(|| format!("random_pair({n})"), || random_pair(n, &mut rng))?;
            ensure!(a < n && b < n && a != b, "random_pair({n}) = ({a}, {b})");
            cnt[a * n + b] += 1;
        }
        let pr: Vec<f64> = (0..n * n).map(|i| if i / n == i % n { 0.0 } else { 1.0 / (n * (n - 1)) as f64 }).collect();
        fits(|| format!("random_pair({n})"), &cnt, &pr)?;
        c.count("draws", draws as u64);
        c.sig(("pair", n));
        Ok(())
    });
    ctx.cases("pair-large", 60, 500, 8, |c| {
        let n = match c.idx % 4 {
            0 => c.rng.gen_range(30..5000),
            1 => c.pick(&[255usize, 256, 257, 1000, 1023, 1024, 1025, 65_535, 65_536, 65_537]),
            2 => c.rng.gen_range(1usize << 20..1 << 40),
            _ => usize::MAX - c.below(3),
        };
        let mut rng = SmallRng::seed_from_u64(c.rng.gen());
        let k = 16usize;
        let bin = |x: usize| ((x as u128 * k as u128) / n as u128) as usize;
        let mut cnt = vec![0u64; k * k];
        for _ in 0..40_000 {
            let (a, b) = must(|| format!("random_pair({n})"), || random_pair(n, &mut rng))?;
            ensure!(a < n && b < n && a != b, "random_pair({n}) = ({a}, {b})");
            cnt[bin(a) * k + bin(b)] += 1;
        }
        let edge = |i: usize| ((i as u128 * n as u128).div_ceil(k as u128)) as f64;
        let w: Vec<f64> = (0..k).map(|i| edge(i + 1) - edge(i)).collect();
        let nn = n as f64;
        let pr: Vec<f64> = (0..k * k)
            .map(|i| {
                let (x, y) = (w[i / k], w[i % k]);
                (x * y - if i / k == i % k { x } else { 0.0 }) / (nn * (nn - 1.0))
            })
            .collect();
        fits(|| format!("random_pair({n}), binned"), &cnt, &pr)?;
        // neighbouring results: the wrap-around of the exclusion must not favour a difference
        c.count("draws", 40_000);
        c.sig(("pair-large", n));
        Ok(())
    });
    ctx.cases("range", 150, 1200, 8, |c| {
        let n: usize = if c.idx < 10 { c.idx as usize + 1 } else { c.rng.gen_range(1..24) };
        let plain = c.chance(0.4);
        let (lo, hi) = if plain {
            (1, n)
        } else {
            match c.below(5) {
                0 => (0, n),
                1 => (n, n),
                2 => {
                    let x = c.below(n + 1);
                    (x, x)
                }
                _ => {
                    let (a, b) = (c.below(n + 1), c.below(n + 1));
                    (a.min(b), a.max(b))
                }
            }
        };
        let seg = segments(n, lo, hi);
        let ix: HashMap<(usize, usize), usize> = seg.iter().enumerate().map(|(i, s)| ((s.0, s.1), i)).collect();
        let mut rng = SmallRng::seed_from_u64(c.rng.gen());
        let draws = 200 * seg.len() + 20_000;
        let mut cnt = vec![0u64; seg.len()];
        let what = || if plain { format!("random_range({n})") } else { format!("bounded_random_range({n}, {lo}, {hi})") };
        for _ in 0..draws {
            let r = must(what, || if plain { random_range(n, &mut rng) } else { bounded_random_range(n, lo, hi, &mut rng) })?;
            match (r.start <= r.end).then(|| ix.get(&(r.start, r.end - r.start))).flatten() {
                Some(&i) => cnt[i] += 1,
                None => fail!("{} = {r:?} is not allowed", what()),
            }
        }
        fits(what, &cnt, &seg.iter().map(|s| s.2).collect::<Vec<_>>())?;
        c.count("draws", draws as u64);
        c.sig(("range", n, lo, hi, plain));
        Ok(())
    });
    ctx.cases("range-large", 80, 800, 8, |c| {
        let n = match c.idx % 3 {
            0 => c.rng.gen_range(24..3000),
            1 => c.pick(&[255usize, 256, 257, 1023, 1024, 1025, 65_536]),
            _ => c.rng.gen_range(1usize << 20..1 << 40),
        };
        let (a, b) = (c.rng.gen_range(0..=n), c.rng.gen_range(0..=n));
        let (lo, hi) = if c.chance(0.3) { (1, n) } else { (a.min(b), a.max(b)) };
        let mut rng = Hostile::new(c.rng.gen(), 0);
        let k = 12u128;
        let mut lens = vec![0u64; k as usize];
        let mut pos = vec![0u64; 10];
        let span = (hi - lo) as u128 + 1;
        for _ in 0..20_000 {
            let r = must(|| format!("bounded_random_range({n},{lo},{hi})"), || bounded_random_range(n, lo, hi, &mut rng))?;
            ensure!(
                r.start <= r.end && r.end <= n && (lo..=hi).contains(&(r.end - r.start)),
                "bounded_random_range({n},{lo},{hi}) = {r:?}"
            );
            let l = r.end - r.start;
            lens[((l - lo) as u128 * k / span) as usize] += 1;
            if n - l >= 1000 {
                pos[(r.start as u128 * 10 / ((n - l) as u128 + 1)) as usize] += 1;
            }
        }
        let edge = |i: u128| (i * span).div_ceil(k) as f64;
        let pr: Vec<f64> = (0..k).map(|i| (edge(i + 1) - edge(i)) / span as f64).collect();
        fits(|| format!("length of bounded_random_range({n},{lo},{hi}), binned"), &lens, &pr)?;
        if hi + 50_000 < n {
            fits(|| format!("position of bounded_random_range({n},{lo},{hi}), binned"), &pos, &[0.1; 10])?;
        }
        for mode in 1..4 {
            let mut rng = hostile(c, mode);
            for _ in 0..20 {
                let r = must(|| "bounded_random_range".into(), || with_fuel(100_000, || bounded_random_range(n, lo, hi, &mut rng)))?;
                ensure!(
                    r.start <= r.end && r.end <= n && (lo..=hi).contains(&(r.end - r.start)),
                    "bounded_random_range({n},{lo},{hi}) = {r:?}"
                );
                let (a, b) = must(|| "random_pair".into(), || with_fuel(100_000, || random_pair(n, &mut rng)))?;
                ensure!(a < n && b < n && a != b, "random_pair({n}) = ({a},{b})");
            }
        }
        c.count("draws", 20_000);
        c.sig(("range-large", n, lo, hi));
        Ok(())
    });
    ctx.cases("refused", 300, 3000, 8, |c| {
        let mut rng = hostile(c, 0);
        let refused = |what: String, r: Result<String, Panicked>| -> R {
            match r {
                Ok(v) => fail!("{what} gave {v} instead of panicking"),
                Err(Panicked::Budget) => fail!("{what} does not terminate"),
                Err(_) => Ok(()),
            }
        };
        for n in [0, 1] {
            refused(format!("random_pair({n})"), lib(|| with_fuel(100_000, || format!("{:?}", random_pair(n, &mut rng)))))?;
        }
        refused("random_range(0)".into(), lib(|| with_fuel(100_000, || format!("{:?}", random_range(0, &mut rng)))))?;
        let n = c.rng.gen_range(0..50usize);
        let lo = c.rng.gen_range(1..=n + 1);
        let hi = c.below(lo);
        refused(
            format!("bounded_random_range({n},{lo},{hi})"),
            lib(|| with_fuel(100_000, || format!("{:?}", bounded_random_range(n, lo, hi, &mut rng)))),
        )?;
        c.count("invalid requests refused", 4);
        c.sig(("refused", n, lo, hi));
        Ok(())
    });
    // distribution of mutations on a genome of distinct genes
    ctx.cases("mutation", 140, 800, 8, c07_mutation);
    ctx.cases("mutation-large", 60, 300, 8, c07_mutation_large);
    ctx.cases("mutation-giant", 40, 400, 8, c07_mutation_giant);
    ctx.require("draws", 1_000_000);
    ctx.require("mutations drawn", 1_000_000);
}

fn c07_mutation(c: &mut Case) -> R {
    let m = MUT[c.idx as usize % 5];
    let n = 2 + (c.idx as usize / 5) % if m == MutationStrategy::Scramble { 5 } else { 11 };
    let id: Vec<u8> = (0..n as u8).collect();
    let mut pr: HashMap<Vec<u8>, f64> = HashMap::new();
    let mut add = |g: Vec<u8>, p: f64| *pr.entry(g).or_default() += p;
    let pairs = (n * (n - 1)) as f64;
    match m {
        MutationStrategy::Swap | MutationStrategy::Duplicate | MutationStrategy::Insertion => {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        let mut g = id.clone();
                        match m {
                            MutationStrategy::Swap => g.swap(i, j),
                            MutationStrategy::Duplicate => g[j] = g[i],
                            _ => {
                                let x = g.remove(i);
                                g.insert(j, x);
                            }
                        }
                        add(g, 1.0 / pairs);
                    }
                }
            }
        }
        MutationStrategy::Inversion => {
            for (s, l, p) in segments(n, 2, n) {
                let mut g = id.clone();
                g[s..s + l].reverse();
                add(g, p);
            }
        }
        MutationStrategy::Scramble => {
            for (s, l, p) in segments(n, 2, n) {
                let f = factorial(l as u64);
                for k in 0..f {
                    let mut g = id.clone();
                    let q = nth_perm(l, k);
                    for (t, &x) in q.iter().enumerate() {
                        g[s + t] = id[s + x];
                    }
                    add(g, p / f as f64);
                }
            }
        }
    }
    let outcomes: Vec<Vec<u8>> = pr.keys().cloned().collect();
    let ix: HashMap<&Vec<u8>, usize> = outcomes.iter().enumerate().map(|(i, g)| (g, i)).collect();
    let mut cnt = vec![0u64; outcomes.len()];
    let draws = (outcomes.len() * 300).clamp(20_000, 400_000);
    let via_enum = c.rng.gen::<bool>();
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    for _ in 0..draws {
        let mut g = id.clone();
        must(|| format!("{m:?} on {n} genes"), || if via_enum { m.mutate(&mut g, &mut rng) } else { by_fn(m, &mut g, &mut rng) })?;
        match ix.get(&g) {
            Some(&i) => cnt[i] += 1,
            None => fail!("{m:?} made {g:?} of {n} ordered genes, which it cannot"),
        }
    }
    let p: Vec<f64> = outcomes.iter().map(|g| pr[g]).collect();
    if let Some(i) = (0..p.len()).find(|&i| cnt[i] == 0 && p[i] * draws as f64 > 40.0) {
        fail!("{m:?} never made {:?} of {n} ordered genes in {draws} draws (expected {:.0} times)", outcomes[i], p[i] * draws as f64);
    }
    fits(|| format!("{m:?} on {n} genes"), &cnt, &p)?;
    c.count("mutations drawn", draws as u64);
    c.sig((format!("{m:?}"), n, via_enum));
    c.sample(|| format!("{m:?} on {n} genes: {} outcomes, {draws} draws", cnt.len()));
    Ok(())
}

/// Larger genomes: marginals. For every mutation the distribution of (first, last) changed position or of
/// where each gene goes is known exactly.
fn c07_mutation_large(c: &mut Case) -> R {
    let m = MUT[c.idx as usize % 5];
    let n = c.pick(&[12usize, 20, 33, 64, 65, 100, 130, 257]);
    let draws = 30_000usize;
    let id: Vec<u16> = (0..n as u16).collect();
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    // changed[i]: how often position i differs; goes[b]: binned displacement of a probe gene
    let probe = c.below(n);
    let mut at = vec![0u64; n]; // where the probe gene ends up
    let mut lost = 0u64;
    for _ in 0..draws {
        let mut g = id.clone();
        must(|| format!("{m:?} on {n} genes"), || m.mutate(&mut g, &mut rng))?;
        effect_ok(m, &id, &g).map_err(|e| Viol(format!("{m:?} on {n} genes: {}", e.0)))?;
        if m == MutationStrategy::Duplicate {
            match g.iter().enumerate().position(|(i, x)| i != probe && *x as usize == probe) {
                Some(i) => at[i] += 1,
                None if g[probe] as usize == probe => at[probe] += 1,
                None => lost += 1,
            }
        } else {
            at[g.iter().position(|x| *x as usize == probe).unwrap_or(0)] += 1;
        }
    }
    let nf = n as f64;
    let pairs = nf * (nf - 1.0);
    let mut pr = vec![0.0; n];
    match m {
        MutationStrategy::Swap => {
            for (j, p) in pr.iter_mut().enumerate() {
                *p = if j == probe { (nf - 1.0) * (nf - 2.0) / pairs } else { 2.0 / pairs };
            }
        }
        MutationStrategy::Duplicate => {
            // (src,dst): src = probe -> copied to dst; dst = probe -> lost; otherwise stays
            for (j, p) in pr.iter_mut().enumerate() {
                *p = if j == probe { (pairs - 2.0 * (nf - 1.0)) / pairs } else { 1.0 / pairs };
            }
            pr.push((nf - 1.0) / pairs);
            at.push(lost);
        }
        MutationStrategy::Insertion => {
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        continue;
                    }
                    let to = if i == probe {
                        j
                    } else if i < probe && j >= probe {
                        probe - 1
                    } else if i > probe && j <= probe {
                        probe + 1
                    } else {
                        probe
                    };
                    pr[to] += 1.0 / pairs;
                }
            }
        }
        MutationStrategy::Inversion => {
            for (s, l, p) in segments(n, 2, n) {
                let to = if (s..s + l).contains(&probe) { 2 * s + l - 1 - probe } else { probe };
                pr[to] += p;
            }
        }
        MutationStrategy::Scramble => {
            for (s, l, p) in segments(n, 2, n) {
                if (s..s + l).contains(&probe) {
                    for q in pr[s..s + l].iter_mut() {
                        *q += p / l as f64;
                    }
                } else {
                    pr[probe] += p;
                }
            }
        }
    }
    fits(|| format!("{m:?} on {n} genes: where gene {probe} goes"), &at, &pr)?;
    c.count("mutations drawn", draws as u64);
    c.sig((format!("{m:?}"), n, probe));
    Ok(())
}

/// Long genomes: which places change, binned, and how a scrambled segment is mixed.
fn c07_mutation_giant(c: &mut Case) -> R {
    let m = MUT[c.idx as usize % 5];
    let n = c.pick(&[300usize, 513, 1025, 2049, 4097, 10_001, 32_769, 65_537, 66_000, 100_000]);
    let via_enum = c.rng.gen::<bool>();
    let (rounds, each) = (20, if m == MutationStrategy::Scramble { 50 } else { 200 });
    let id: Vec<u32> = (0..n as u32).collect();
    let mut rng = Hostile::new(c.rng.gen(), 0);
    const K: usize = 8;
    let bin = |x: usize| x * K / n;
    let mut pairs = vec![0u64; K * K];
    let mut lens = vec![0u64; K];
    let mut starts = vec![0u64; K];
    let mut mixed = vec![0u64; 16];
    let what = || format!("{m:?} ({}) on {n} genes", if via_enum { "enum" } else { "fn" });
    for _ in 0..rounds * each {
        let mut g = id.clone();
        must(what, || if via_enum { m.mutate(&mut g, &mut rng) } else { by_fn(m, &mut g, &mut rng) })?;
        let (Some(first), Some(last)) = (g.iter().zip(&id).position(|(a, b)| a != b), g.iter().zip(&id).rposition(|(a, b)| a != b)) else {
            ensure!(m == MutationStrategy::Scramble, "{} changes nothing", what());
            continue;
        };
        match m {
            MutationStrategy::Swap => pairs[bin(first) * K + bin(last)] += 1,
            MutationStrategy::Duplicate => {
                ensure!(first == last, "{} changes places {first} and {last}", what());
                pairs[bin(g[first] as usize) * K + bin(first)] += 1;
            }
            MutationStrategy::Insertion => {
                // the gene that is moved is found at one end of what changed
                let (from, to) = if g[first] as usize == last { (last, first) } else { (first, last) };
                ensure!(g[to] as usize == from, "{} moves no gene between {first} and {last}", what());
                pairs[bin(from) * K + bin(to)] += 1;
            }
            _ => {
                // the ends of a scrambled segment may stay by chance; of a long one that does not show
                let l = last - first + 1;
                lens[(l - 2).min(n - 2) * K / (n - 1)] += 1;
                if n - l >= 200 {
                    starts[first * K / (n - l + 1)] += 1;
                }
                if m == MutationStrategy::Scramble && l >= 64 {
                    let x = first + c.rng.gen_range(0..l);
                    mixed[(g[x] as usize - first) * 4 / l * 4 + (x - first) * 4 / l] += 1;
                }
            }
        }
    }
    let total = (rounds * each) as u64;
    let width: Vec<f64> = (0..K).map(|i| (0..n).filter(|&x| n <= 4097 && bin(x) == i).count() as f64).collect();
    let width: Vec<f64> = if n <= 4097 { width } else { (0..K).map(|i| (((i + 1) * n).div_ceil(K) - (i * n).div_ceil(K)) as f64).collect() };
    let all = (n * (n - 1)) as f64;
    match m {
        MutationStrategy::Swap => {
            // unordered: the lower bin comes first
            let pr: Vec<f64> = (0..K * K)
                .map(|i| {
                    let (a, b) = (i / K, i % K);
                    match a.cmp(&b) {
                        std::cmp::Ordering::Less => 2.0 * width[a] * width[b] / all,
                        std::cmp::Ordering::Equal => width[a] * (width[a] - 1.0) / all,
                        _ => 0.0,
                    }
                })
                .collect();
            fits(|| format!("places exchanged by {}, binned", what()), &pairs, &pr)?;
        }
        MutationStrategy::Duplicate | MutationStrategy::Insertion => {
            let mut pr: Vec<f64> = (0..K * K)
                .map(|i| {
                    let (a, b) = (i / K, i % K);
                    width[a] * (width[b] - if a == b { 1.0 } else { 0.0 }) / all
                })
                .collect();
            if m == MutationStrategy::Insertion {
                // a move by one place can be read in two ways, and is always read as one downwards
                let next = 1.0 / all;
                for a in 0..K - 1 {
                    pr[a * K + a + 1] -= next;
                    pr[(a + 1) * K + a] += next;
                }
            }
            fits(|| format!("gene and place of {}, binned", what()), &pairs, &pr)?;
        }
        _ => {
            let m1 = n - 1;
            let pr: Vec<f64> = (0..K).map(|i| (((i + 1) * m1).div_ceil(K) - (i * m1).div_ceil(K)) as f64 / m1 as f64).collect();
            if m == MutationStrategy::Inversion || n > 100_000 / 2 {
                fits(|| format!("length of the segment of {}, binned", what()), &lens, &pr)?;
            } else {
                // by chance a gene of a scrambled segment stays: only what is grossly wrong
                for (i, p) in pr.iter().enumerate() {
                    let e = p * total as f64;
                    ensure!((lens[i] as f64 - e).abs() < 8.0 * e.sqrt() + 0.02 * e + 5.0, "length of the segment of {}: {} of {e:.0} in bin {i}", what(), lens[i]);
                }
            }
            if starts.iter().sum::<u64>() >= 400 && n >= 10_000 {
                fits(|| format!("start of the segment of {}, binned", what()), &starts, &[1.0 / K as f64; K])?;
            }
            if m == MutationStrategy::Scramble && n >= 1000 {
                for (i, x) in mixed.iter().enumerate() {
                    let e = mixed.iter().sum::<u64>() as f64 / 16.0;
                    ensure!((*x as f64 - e).abs() < 8.0 * e.sqrt() + 0.1 * e + 5.0, "genes of the scrambled segment by {}: {x} of {e:.0} from quarter {} in quarter {}", what(), i / 4, i % 4);
                }
            }
        }
    }
    c.count("mutations drawn", total);
    c.count("mutations of long genomes drawn", total);
    c.sig((format!("{m:?}"), n, "giant", via_enum));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C30

pub fn c30(ctx: &Ctx) {
    ctx.rule("A case uses one crossover strategy of the enum many times on one pair of parents with a uniform generator and compares the frequencies of the offspring (or of the first gene, the point, the order of the chains) with the exact distribution of the strategy's random choice (chi-square at 1e-12, impossible outcomes must not occur); CX is used with generators in different states and has to give one offspring; non-trivial: by distinct (strategy, parents).");
    ctx.cases("range", 60, 300, 8, c30_range);
    ctx.cases("pivot", 40, 200, 8, c30_pivot);
    ctx.cases("point", 30, 150, 8, c30_point);
    ctx.cases("chains", 40, 200, 8, c30_chains);
    ctx.cases("range-large", 8, 60, 8, c30_range_large);
    ctx.cases("pivot-large", 6, 40, 8, c30_pivot_large);
    ctx.cases("chains-large", 4, 30, 8, c30_chains_large);
    ctx.cases("cycle", 100, 500, 8, |c| {
        let p = random_pair_of::<usize>(c, 100);
        let mut first = None;
        for _ in 0..8 {
            let mode = c.pick(&[0u8, 1, 2, 3]);
            let mut rng = hostile(c, mode);
            let o = call(&p, "CX (enum)", || CrossoverStrategy::Cycle.crossover(&p.p1, &p.p2, &mut rng))?;
            let o = first.get_or_insert(o.clone()) == &o;
            ensure!(o, "CX gives different offspring for the same parents; {}", p.show());
            c.evals(1);
        }
        c.count("offspring drawn", 8);
        c.sig(("cx", &p.i1, &p.i2));
        Ok(())
    });
    ctx.require("offspring drawn", 500_000);
    ctx.require("offspring of long parents drawn", 30_000);
}

fn drawn_parents(c: &mut Case, n: usize) -> Pair<usize> {
    let mut a: Vec<usize> = (0..n).collect();
    if c.chance(0.7) {
        a.shuffle(&mut c.rng);
    }
    let b = if c.chance(0.5) {
        let mut b = a.clone();
        b.shuffle(&mut c.rng);
        b
    } else {
        relate(c, &a)
    };
    Pair::new(a, b, 0)
}

/// PMX and OX: the offspring's distribution follows from the range's.
fn c30_range(c: &mut Case) -> R {
    let st = [CrossoverStrategy::PartiallyMapped, CrossoverStrategy::Order][c.idx as usize % 2];
    let n = if c.idx < 24 { 1 + c.idx as usize / 2 } else { c.rng.gen_range(2..36) };
    let p = drawn_parents(c, n);
    let mut pr: HashMap<Vec<usize>, f64> = HashMap::new();
    for (s, l, q) in segments(n, 1, n) {
        let r = s..s + l;
        let o = if st == CrossoverStrategy::Order { ref_ox(&p.i1, &p.i2, &r) } else { ref_pmx(&p.i1, &p.i2, &r) };
        *pr.entry(o).or_default() += q;
    }
    let outcomes: Vec<Vec<usize>> = pr.keys().cloned().collect();
    let ix: HashMap<&Vec<usize>, usize> = outcomes.iter().enumerate().map(|(i, g)| (g, i)).collect();
    let pv: Vec<f64> = outcomes.iter().map(|g| pr[g]).collect();
    let draws = (outcomes.len() * 120).clamp(5_000, 60_000);
    let mut cnt = vec![0u64; outcomes.len()];
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    for _ in 0..draws {
        let o = call(&p, &format!("{st:?} (enum)"), || st.crossover(&p.p1, &p.p2, &mut rng))?;
        match ix.get(&o) {
            Some(&i) => cnt[i] += 1,
            None => fail!("{st:?} (enum): {} results from no range; {}", cutv(&o), p.show()),
        }
    }
    fits(|| format!("{st:?} (enum), offspring; {}", p.show()), &cnt, &pv)?;
    if let Some(i) = (0..pv.len()).find(|&i| cnt[i] == 0 && pv[i] * draws as f64 > 40.0) {
        fail!("{st:?} (enum) never gives {:?} in {draws} draws; {}", outcomes[i], p.show());
    }
    c.count("offspring drawn", draws as u64);
    c.sig((format!("{st:?}"), &p.i1, &p.i2));
    c.sample(|| format!("{st:?}: {} different offspring, {draws} draws; {}", outcomes.len(), p.show()));
    Ok(())
}

/// PMX and OX on long parents: the second parent is the first one turned by one gene, so the offspring agrees with
/// the first parent exactly in the range (and everywhere if at most one gene is outside).
fn c30_range_large(c: &mut Case) -> R {
    let st = [CrossoverStrategy::PartiallyMapped, CrossoverStrategy::Order][c.idx as usize % 2];
    let n = c.pick(&[65usize, 100, 129, 200, 257, 300, 520]);
    let mut a: Vec<usize> = (0..n).collect();
    a.shuffle(&mut c.rng);
    let mut b = a.clone();
    b.rotate_left(1);
    let p: Pair<usize> = Pair::new(a, b, 0);
    const B: usize = 8;
    let draws = if n > 300 { 4000 } else { 8000 };
    let mut cnt = vec![0u64; B * B];
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    for _ in 0..draws {
        let o = call(&p, &format!("{st:?} (enum)"), || st.crossover(&p.p1, &p.p2, &mut rng))?;
        ensure!(o.len() == n, "{st:?} (enum) gives {} genes for {n}", o.len());
        let kept: Vec<usize> = (0..n).filter(|i| o[*i] == p.p1[*i]).collect();
        let (mut l, s) = (kept.len(), kept.first().copied().unwrap_or(0));
        let whole = l == 0 || kept[l - 1] - s == l - 1;
        ensure!(l > 0 && l != n - 1 && whole, "{st:?} (enum) keeps the positions {} of the first parent", cutv(&kept));
        // the place among equally likely ones, with a uniform part for what the offspring does not tell
        let mut place = |k: usize, of: usize| ((k as f64 + c.rng.gen::<f64>()) / of as f64 * B as f64) as usize;
        let start = if l == n { place(0, 1) } else { place(s, n - l + 1) };
        if l == n {
            l -= place(0, 1) % 2;
        }
        cnt[place(l - 1, n).min(B - 1) * B + start.min(B - 1)] += 1;
    }
    fits(|| format!("{st:?} (enum) on {n} genes: length and start of the range"), &cnt, &[1.0 / (B * B) as f64; B * B])?;
    c.count("offspring drawn", draws as u64);
    c.count("offspring of long parents drawn", draws as u64);
    c.sig((format!("{st:?}"), &p.i1));
    Ok(())
}

fn c30_pivot_large(c: &mut Case) -> R {
    let st = [CrossoverStrategy::SequentialConstructive, CrossoverStrategy::EdgeRecombination][c.idx as usize % 2];
    let n = c.pick(&[200usize, 256, 257, 300, 400]);
    let p = drawn_parents(c, n);
    const B: usize = 20;
    let draws = 1500;
    // by position in the first parent and, to see preferences for single genes of low or high number, by gene
    let (mut by_place, mut by_gene) = (vec![0u64; B], vec![0u64; B]);
    let place: HashMap<usize, usize> = p.p1.iter().enumerate().map(|(i, g)| (*g, i)).collect();
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    for _ in 0..draws {
        let o = call(&p, &format!("{st:?} (enum)"), || st.crossover(&p.p1, &p.p2, &mut rng))?;
        ensure!(!o.is_empty() && o[0] < n, "{st:?} (enum) gives {}", cutv(&o));
        by_place[place[&o[0]] * B / n] += 1;
        by_gene[o[0] * B / n] += 1;
    }
    let edge = |i: usize| (i * n).div_ceil(B);
    let pr: Vec<f64> = (0..B).map(|i| (edge(i + 1) - edge(i)) as f64 / n as f64).collect();
    fits(|| format!("{st:?} (enum) on {n} genes: place of the first gene"), &by_place, &pr)?;
    fits(|| format!("{st:?} (enum) on {n} genes: first gene"), &by_gene, &pr)?;
    c.count("offspring drawn", draws as u64);
    c.count("offspring of long parents drawn", draws as u64);
    c.sig((format!("{st:?}"), &p.i1, &p.i2));
    Ok(())
}

fn c30_chains_large(c: &mut Case) -> R {
    let k = c.pick(&[65usize, 100, 129, 150, 260]);
    // chains of two, three or four genes, in random order and direction in the second parent
    let mut chains: Vec<Vec<usize>> = vec![];
    let mut g = 0;
    for _ in 0..k {
        let l = c.rng.gen_range(2..5);
        chains.push((g..g + l).collect());
        g += l;
    }
    let a: Vec<usize> = chains.concat();
    chains.shuffle(&mut c.rng);
    let p: Pair<usize> = Pair::new(a, chains.concat(), 0);
    let parts = must(|| "common_partitions".into(), || common_partitions(&p.p1, &p.p2))?;
    let k = parts.len();
    const B: usize = 16;
    let draws = 800;
    let of: HashMap<usize, usize> = parts.iter().enumerate().flat_map(|(i, x)| x.iter().map(move |g| (*g, i))).collect();
    let mut at = [vec![0u64; B], vec![0u64; B], vec![0u64; B]];
    let probe = c.below(k);
    let mut probed = vec![0u64; B];
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    for _ in 0..draws {
        let o = call(&p, "GPX2 (enum)", || CrossoverStrategy::GeneralizedPartition2.crossover(&p.p1, &p.p2, &mut rng))?;
        let mut order: Vec<usize> = vec![];
        for g in &o {
            match of.get(g) {
                Some(&x) if order.last() != Some(&x) => order.push(x),
                Some(_) => {}
                None => fail!("GPX2 (enum): {} is not of the parents", cutv(&o)),
            }
        }
        ensure!(order.len() == k, "GPX2 (enum): {} runs of genes of one chain instead of {k}", order.len());
        for (n, i) in [0, k / 2, k - 1].into_iter().enumerate() {
            at[n][order[i] * B / k] += 1;
        }
        probed[order.iter().position(|x| *x == probe).unwrap_or(0) * B / k] += 1;
    }
    let edge = |i: usize| (i * k).div_ceil(B);
    let pr: Vec<f64> = (0..B).map(|i| (edge(i + 1) - edge(i)) as f64 / k as f64).collect();
    for (n, x) in at.iter().chain([&probed]).enumerate() {
        let what = ["the first chain", "the chain in the middle", "the last chain", "the place of one chain"][n];
        fits(|| format!("GPX2 (enum), {k} chains: {what}"), x, &pr)?;
    }
    c.count("offspring drawn", draws as u64);
    c.count("offspring of long parents drawn", draws as u64);
    c.sig(("gpx2", &p.i1, &p.i2));
    Ok(())
}

/// SCX and ERX: the first gene is the pivot.
fn c30_pivot(c: &mut Case) -> R {
    let st = [CrossoverStrategy::SequentialConstructive, CrossoverStrategy::EdgeRecombination][c.idx as usize % 2];
    let n = if c.idx < 24 { 1 + c.idx as usize / 2 } else { c.pick(&[20, 31, 32, 33, 64, 65, 100, 128, 129]) };
    let p = drawn_parents(c, n);
    let draws = (n * 150).clamp(3_000, 20_000);
    let mut cnt = vec![0u64; n];
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    for _ in 0..draws {
        let o = call(&p, &format!("{st:?} (enum)"), || st.crossover(&p.p1, &p.p2, &mut rng))?;
        ensure!(!o.is_empty() && o[0] < n, "{st:?} (enum) gives {}; {}", cutv(&o), p.show());
        cnt[o[0]] += 1;
    }
    fits(|| format!("{st:?} (enum), first gene; {}", p.show()), &cnt, &vec![1.0 / n as f64; n])?;
    c.count("offspring drawn", draws as u64);
    c.sig((format!("{st:?}"), &p.i1, &p.i2));
    c.sample(|| format!("{st:?}: first genes of {draws} offspring; {}", p.show()));
    Ok(())
}

/// SPX: how many genes come from the first parent.
fn c30_point(c: &mut Case) -> R {
    let n = match c.idx {
        0..=11 => 1 + c.idx as usize,
        12..=20 => c.pick(&[31usize, 32, 33, 64, 65, 100, 128, 255, 256, 257, 1000]),
        _ => c.rng.gen_range(1000..20_000),
    };
    let (a, b) = (vec![0u8; n], vec![1u8; n]);
    let draws = if n > 300 { 8_000 } else { 20_000 };
    let bins = n.min(40);
    let mut cnt = vec![0u64; bins];
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    for _ in 0..draws {
        let o = must(|| format!("SPX on {n} genes"), || CrossoverStrategy::SinglePoint.crossover(&a, &b, &mut rng))?;
        let pt = o.iter().position(|x| *x == 1).unwrap_or(n);
        ensure!(o[pt..].iter().all(|x| *x == 1), "SPX (enum) is no prefix and suffix: {}", cutv(&o));
        ensure!(pt < n, "SPX (enum) on {n} genes takes nothing from the second parent");
        cnt[pt * bins / n] += 1;
    }
    let edge = |i: usize| (i * n).div_ceil(bins);
    let pr: Vec<f64> = (0..bins).map(|i| (edge(i + 1) - edge(i)) as f64 / n as f64).collect();
    fits(|| format!("SPX (enum) on {n} genes: point"), &cnt, &pr)?;
    c.count("offspring drawn", draws as u64);
    c.sig(("spx", n));
    Ok(())
}

/// GPX2: every order of the chains is equally likely.
fn c30_chains(c: &mut Case) -> R {
    let k = if c.idx % 2 == 0 { c.rng.gen_range(1..=5usize) } else { c.rng.gen_range(6..=40) };
    // chains of known lengths, glued together in two orders which share nothing at the joints (mostly)
    let mut chains: Vec<Vec<usize>> = vec![];
    let mut g = 0;
    for _ in 0..k {
        let l = c.rng.gen_range(1..6);
        chains.push((g..g + l).collect());
        g += l;
    }
    let a: Vec<usize> = chains.concat();
    let mut sh = chains.clone();
    sh.shuffle(&mut c.rng);
    for x in sh.iter_mut() {
        if c.rng.gen() {
            x.reverse();
        }
    }
    let p: Pair<usize> = Pair::new(a, sh.concat(), 0);
    let parts = must(|| "common_partitions".into(), || common_partitions(&p.p1, &p.p2))?;
    let k = parts.len();
    let (draws, cells) = if k <= 5 { (12_000usize, factorial(k as u64) as usize) } else { (10_000, k * k) };
    let mut cnt = vec![0u64; cells];
    let mut firsts = vec![0u64; k];
    let at: HashMap<usize, usize> = parts.iter().enumerate().map(|(i, x)| (x[0], i)).collect();
    let mut rng = SmallRng::seed_from_u64(c.rng.gen());
    let (probe, other) = (c.below(k), c.below(k));
    let perms: HashMap<Vec<usize>, usize> =
        if k <= 5 { (0..cells as u64).map(|i| (nth_perm(k, i), i as usize)).collect() } else { HashMap::new() };
    for _ in 0..draws {
        let o = call(&p, "GPX2 (enum)", || CrossoverStrategy::GeneralizedPartition2.crossover(&p.p1, &p.p2, &mut rng))?;
        let order: Vec<usize> = {
            let mut v = vec![];
            let mut i = 0;
            while i < o.len() {
                match at.get(&o[i]) {
                    Some(&x) if o[i..].starts_with(&parts[x]) => {
                        v.push(x);
                        i += parts[x].len();
                    }
                    _ => fail!("GPX2 (enum): {} is no sequence of the shared chains; {}", cutv(&o), p.show()),
                }
            }
            v
        };
        ensure!(order.len() == k, "GPX2 (enum): {} chains instead of {k}; {}", order.len(), p.show());
        firsts[order[0]] += 1;
        if k <= 5 {
            match perms.get(&order) {
                Some(&i) => cnt[i] += 1,
                None => fail!("GPX2 (enum): chain order {order:?}; {}", p.show()),
            }
        } else {
            let pos = |x: usize| order.iter().position(|y| *y == x).unwrap_or(0);
            cnt[pos(probe) * k + pos(other)] += 1;
        }
    }
    let kf = k as f64;
    let pr: Vec<f64> = if k <= 5 {
        vec![1.0 / cells as f64; cells]
    } else if probe == other {
        (0..cells).map(|i| if i / k == i % k { 1.0 / kf } else { 0.0 }).collect()
    } else {
        (0..cells).map(|i| if i / k == i % k { 0.0 } else { 1.0 / (kf * (kf - 1.0)) }).collect()
    };
    fits(|| format!("GPX2 (enum), order of {k} chains; {}", p.show()), &cnt, &pr)?;
    fits(|| format!("GPX2 (enum), first of {k} chains; {}", p.show()), &firsts, &vec![1.0 / kf; k])?;
    c.count("offspring drawn", draws as u64);
    c.sig(("gpx2", &p.i1, &p.i2));
    c.sample(|| format!("GPX2: {k} chains, {draws} draws; {}", p.show()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C25 (part)

/// Equal inputs and generators in equal states give equal results and leave equal states.
pub fn c25_ops(ctx: &Ctx) {
    ctx.cases("operators", 4000, 80_000, 8, |c| {
        let k = c.idx;
        with_gene!(k, c25_case, c)
    });
    ctx.cases("helpers", 4000, 60_000, 8, |c| {
        let mode = c.below(2) as u8;
        let h = hostile(c, mode);
        let n = c.rng.gen_range(2..300);
        let min = c.rng.gen_range(1..=n);
        let max = c.rng.gen_range(min..=n);
        let go = |h: &mut Hostile| {
            with_fuel(1_000_000, || {
                (
                    random_pair(n, h),
                    random_range(n, h),
                    bounded_random_range(n, min, max, h),
                    random_pair(n, h),
                )
            })
        };
        let (mut a, mut b) = (h.clone(), h);
        let what = || format!("random helpers with n={n}, bounds {min}..={max}");
        let x = must(what, || go(&mut a))?;
        let y = must(what, || go(&mut b))?;
        ensure!(x == y, "{}: {x:?} and then {y:?} from equal generators", what());
        ensure!(a == b, "{}: equal generators end in different states", what());
        c.count("helper calls repeated", 4);
        c.sig((n, x));
        Ok(())
    });
    ctx.cases("long", 4, 60, 8, |c| {
        let n = c.pick(&[600usize, 1025, 4097, 5000, 10_001, 65_537, 70_000]);
        let h = Hostile::new(c.rng.gen(), 0);
        let mut p1: Vec<u32> = (0..n as u32).collect();
        p1.shuffle(&mut c.rng);
        let mut p2 = p1.clone();
        // close relatives, as PMX and CX take long for others
        for _ in 0..40 {
            let (i, l) = (c.below(n - 100), c.rng.gen_range(2..100));
            p2[i..i + l].rotate_left(1);
        }
        let (q1, q2) = (p1.clone(), p2.clone());
        for m in MUT {
            let (mut a, mut b) = (h.clone(), h.clone());
            let (mut x, mut y) = (p1.clone(), p1.clone());
            for _ in 0..3 {
                must(|| format!("{m:?} of {n} genes"), || m.mutate(&mut x, &mut a))?;
                must(|| format!("{m:?} of {n} genes"), || m.mutate(&mut y, &mut b))?;
            }
            ensure!(x == y && a == b, "{m:?} of {n} genes: equal generators give different results or end states");
            c.count("operator calls repeated", 3);
        }
        let mut strategies = vec![CrossoverStrategy::SinglePoint];
        if n <= 10_001 {
            strategies.extend([CrossoverStrategy::PartiallyMapped, CrossoverStrategy::Order, CrossoverStrategy::Cycle]);
        }
        if n <= 5000 {
            strategies.extend([CrossoverStrategy::SequentialConstructive, CrossoverStrategy::GeneralizedPartition2]);
        }
        for s in strategies {
            let (mut a, mut b) = (h.clone(), h.clone());
            let x = must(|| format!("{s:?} of {n} genes"), || s.crossover(&p1, &p2, &mut a))?;
            let y = must(|| format!("{s:?} of {n} genes"), || s.crossover(&q1, &q2, &mut b))?;
            ensure!(x == y && a == b, "{s:?} of {n} genes: equal generators give different results or end states");
            c.count("operator calls repeated", 1);
        }
        ensure!(p1 == q1 && p2 == q2, "a crossover of {n} genes changed its parents");
        c.count("long genomes", 1);
        c.sig(("long", n));
        Ok(())
    });
    ctx.require("operator calls repeated", 20_000);
    ctx.require("helper calls repeated", 5000);
}

fn c25_case<G: Gene>(c: &mut Case) -> R {
    let p = random_pair_of::<G>(c, 200);
    let n = p.n();
    let (q1, q2) = (p.p1.clone(), p.p2.clone());
    for s in PERM.iter().chain(&[CrossoverStrategy::SinglePoint]) {
        if matches!(s, CrossoverStrategy::EdgeRecombination) {
            continue;
        }
        let mode = c.below(2) as u8;
        let h = hostile(c, mode);
        let (mut a, mut b) = (h.clone(), h);
        let nm = format!("{s:?}");
        let x = call(&p, &nm, || s.crossover(&p.p1, &p.p2, &mut a))?;
        // the second call gets copies of the parents elsewhere in memory
        let y = call(&p, &nm, || s.crossover(&q1, &q2, &mut b))?;
        ensure!(x == y, "{nm}: different offspring from equal generators; {}", p.show());
        ensure!(a == b, "{nm}: equal generators end in different states; {}", p.show());
        c.count("operator calls repeated", 1);
        c.sig((&nm, p.ixs(&x)?));
    }
    if n > 0 {
        let pivot = p.p1[c.below(n)];
        let r = {
            let (a, b) = (c.below(n + 1), c.below(n + 1));
            a.min(b)..a.max(b)
        };
        let fs: [(&str, Box<dyn Fn(&[G], &[G]) -> Vec<G>>); 6] = [
            ("sequential_constructive_crossover", Box::new(move |a, b| sequential_constructive_crossover(a, b, pivot))),
            ("partially_mapped_crossover", Box::new({
                let r = r.clone();
                move |a, b| partially_mapped_crossover(a, b, r.clone())
            })),
            ("order_crossover", Box::new({
                let r = r.clone();
                move |a, b| order_crossover(a, b, r.clone())
            })),
            ("cycle_crossover", Box::new(|a, b| cycle_crossover(a, b))),
            ("single_point_crossover", Box::new({
                let k = r.start;
                move |a, b| single_point_crossover(a, b, k)
            })),
            ("generalized_partition_2_crossover", Box::new(|a, b| {
                let mut k = 0usize;
                generalized_partition_2_crossover(a, b, |_, v| {
                    k += 7;
                    k % v.len()
                })
            })),
        ];
        for (nm, f) in &fs {
            let x = call(&p, nm, || f(&p.p1, &p.p2))?;
            let y = call(&p, nm, || f(&q1, &q2))?;
            ensure!(x == y, "{nm}: different offspring from equal inputs; {}", p.show());
            c.count("operator calls repeated", 1);
        }
        if n >= 2 {
            let x = call(&p, "common_partitions", || common_partitions(&p.p1, &p.p2).into_iter().flatten().collect())?;
            let y = call(&p, "common_partitions", || common_partitions(&q1, &q2).into_iter().flatten().collect())?;
            ensure!(x == y, "common_partitions: different results from equal inputs; {}", p.show());
            let x = common_neighbors(&p.p1, &p.p2);
            let y = common_neighbors(&q1, &q2);
            ensure!(x == y, "common_neighbors: different results from equal inputs; {}", p.show());
        }
    }
    ensure!(p.p1 == q1 && p.p2 == q2, "a crossover changed its parents; {}", p.show());
    for m in MUT {
        let mode = c.below(2) as u8;
        let h = hostile(c, mode);
        for direct in [false, true] {
            let (mut a, mut b) = (h.clone(), h.clone());
            let (mut x, mut y) = (p.p1.clone(), p.p1.clone());
            let go = |g: &mut Vec<G>, r: &mut Hostile| {
                must(|| format!("{m:?} of {n} genes"), || {
                    with_fuel(fuel(n), || if direct { by_fn(m, g, r) } else { m.mutate(g, r) })
                })
            };
            go(&mut x, &mut a)?;
            go(&mut y, &mut b)?;
            ensure!(x == y && a == b, "{m:?} of {n} genes: equal generators give different results or end states");
            c.count("operator calls repeated", 1);
        }
    }
    Ok(())
}
