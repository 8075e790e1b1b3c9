//! C29: the OneMax problem.

use crate::genes::Hostile;
use crate::rt::*;
use crate::stat::*;
use crate::{ensure, fail};
use rand::prelude::*;
use rusty_genes::one_max::*;
use rusty_genes::*;

fn fitness(g: &[bool]) -> f64 {
    g.iter().filter(|b| **b).count() as f64 / g.len() as f64
}
fn length(c: &mut Case) -> usize {
    match c.below(4) {
        0 => c.pick(&[1, 2, 3, 4, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        1 if c.chance(0.01) => c.rng.gen_range(600..40_000),
        1 => c.rng.gen_range(1..600),
        _ => c.rng.gen_range(1..40),
    }
}
fn genome(c: &mut Case, n: usize) -> Vec<bool> {
    match c.below(4) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => {
            let p = c.rng.gen::<f64>();
            (0..n).map(|_| c.rng.gen::<f64>() < p).collect()
        }
        _ => (0..n).map(|_| c.rng.gen()).collect(),
    }
}
fn show(g: &[bool]) -> String {
    g.iter().take(80).map(|b| if *b { '1' } else { '0' }).collect()
}

pub fn c29(ctx: &Ctx) {
    crate::giant::bits(ctx);
    ctx.rule("A case creates, evaluates, recombines or mutates OneMax individuals of 1..600 bits, or runs a whole evolution of them; creation is also judged as a distribution (each bit, each pair of neighbouring bits). Non-trivial: by distinct (operation, genomes).");
    let m = OneMaxEvolutionModel;
    ctx.cases("evaluate", 20_000, 300_000, 8, |c| {
        let n = length(c);
        let g = genome(c, n);
        let mut i = OneMax::from(g.clone());
        must(|| "evaluate".into(), || m.evaluate(&mut i))?;
        ensure!(i.genome() == g, "evaluation changed the bits {}", show(&g));
        let f = i.fitness();
        ensure!(f == fitness(&g), "{n} bits {} have fitness {f} instead of {}", show(&g), fitness(&g));
        ensure!((0.0..=1.0).contains(&f) && (f == 1.0) == g.iter().all(|b| *b), "fitness {f} of {}", show(&g));
        ensure!(i.is_valid(), "an evaluated individual is invalid");
        c.count("evaluations", 1);
        c.sig(g);
        Ok(())
    });
    ctx.cases("cross", 6000, 100_000, 8, |c| {
        let n = length(c);
        let (a, b) = (genome(c, n), genome(c, n));
        let (x, y) = (OneMax::from(a.clone()), OneMax::from(b.clone()));
        let mut rng = SmallRng::seed_from_u64(c.rng.gen());
        for _ in 0..6 {
            let o = must(|| format!("recombination of {} and {}", show(&a), show(&b)), || m.crossover(&x, &y, &mut rng))?;
            let o = o.genome();
            ensure!(o.len() == n, "recombination of {n} bits gives {}", o.len());
            // a prefix of the first parent followed by a suffix of the second
            let k = (0..n).take_while(|&i| o[i] == a[i]).count();
            ensure!(
                o[k..] == b[k..],
                "{} is not a prefix of {} followed by a suffix of {}",
                show(o),
                show(&a),
                show(&b)
            );
            c.count("recombinations", 1);
        }
        c.sig((a, b));
        Ok(())
    });
    ctx.cases("mutate", 6000, 100_000, 8, |c| {
        let n = length(c);
        let g = genome(c, n);
        let mut rng = SmallRng::seed_from_u64(c.rng.gen());
        for _ in 0..6 {
            let mut i = OneMax::from(g.clone());
            must(|| format!("mutation of {}", show(&g)), || m.mutate(&mut i, &mut rng))?;
            let o = i.genome();
            ensure!(o.len() == n, "mutation of {n} bits gives {}", o.len());
            let d: Vec<usize> = (0..n).filter(|&k| o[k] != g[k]).collect();
            ensure!(d.len() <= 1, "mutation of {} changed {} bits", show(&g), d.len());
            if let Some(&k) = d.first() {
                ensure!(
                    g.iter().enumerate().any(|(j, b)| j != k && *b == o[k]),
                    "mutation of {} set bit {k} to a value found nowhere else",
                    show(&g)
                );
                c.count("mutations that changed a bit", 1);
            }
            c.count("mutations", 1);
        }
        c.sig(g);
        Ok(())
    });
    ctx.cases("create", 60, 800, 8, |c| {
        let n = c.pick(&[1usize, 2, 3, 5, 8, 17, 33, 64, 65, 100]);
        let total = 20_000u64;
        let mut ones = vec![0u64; n];
        let mut pairs = vec![[0u64; 4]; n.saturating_sub(1)];
        let mut far = vec![[0u64; 4]; n.saturating_sub(n / 2)];
        let mut rng = SmallRng::seed_from_u64(c.rng.gen());
        for _ in 0..total {
            let i: OneMax = must(|| "creation".into(), || RandomIndividual::new_random(&n, &mut rng))?;
            let g = i.genome();
            ensure!(g.len() == n, "{} bits created instead of {n}", g.len());
            for k in 0..n {
                ones[k] += g[k] as u64;
                if k + 1 < n {
                    pairs[k][g[k] as usize * 2 + g[k + 1] as usize] += 1;
                }
                if n > 1 && k + n / 2 < n {
                    far[k][g[k] as usize * 2 + g[k + n / 2] as usize] += 1;
                }
            }
        }
        for k in 0..n {
            binom(|| format!("bit {k} of {n} is one"), ones[k], total, 0.5)?;
        }
        for (k, p) in pairs.iter().enumerate() {
            fits(|| format!("bits {k} and {} of {n}", k + 1), p, &[0.25; 4])?;
        }
        if n > 1 {
            for (k, p) in far.iter().enumerate() {
                fits(|| format!("bits {k} and {} of {n}", k + n / 2), p, &[0.25; 4])?;
            }
        }
        c.count("individuals created", total);
        Ok(())
    });
    ctx.cases("create with any generator", 2000, 20_000, 8, |c| {
        let n = if c.chance(0.1) { 0 } else { length(c) };
        let mode = c.below(4) as u8;
        let mut rng = Hostile::new(c.rng.gen(), mode);
        let i: OneMax = must(|| "creation".into(), || crate::genes::with_fuel(100_000, || RandomIndividual::new_random(&n, &mut rng)))?;
        ensure!(i.genome().len() == n, "{} bits created instead of {n}", i.genome().len());
        c.count("individuals created", 1);
        Ok(())
    });
    ctx.cases("runs", 300, 6000, 8, |c| {
        let n = length(c).min(200);
        let size = c.pick(&[1, 2, 5, 20, 60]);
        let stop = c.rng.gen_range(0..25);
        let mut shown = 0u64;
        let mut bad: Option<String> = None;
        let mut best = -1.0f64;
        let mut watch = |p: &Population<OneMax>| {
            for i in p.iter() {
                shown += 1;
                if i.genome().len() != n || i.fitness() != fitness(i.genome()) {
                    bad = Some(format!("member {} of fitness {}", show(i.genome()), i.fitness()));
                }
            }
            best = best.max(p.fittest().fitness());
            p.generation() < stop && p.fittest().fitness() < 1.0
        };
        let given = genome(c, n);
        let st = crate::sel::strategy(c, size);
        let elitism_rate = c.pick(&[0.0, 0.1, 0.5]);
        let kind = c.below(4);
        let (cr, mr) = (c.rng.gen::<f64>(), c.rng.gen::<f64>());
        let ga = GeneticAlgorithmParameters { population_size: size, elitism_rate, crossover_rate: cr, mutation_rate: mr, selection_strategy: st };
        let aga = AdaptiveGeneticAlgorithmParameters {
            population_size: size,
            elitism_rate,
            crossover_rate_range: 0.2..0.9,
            mutation_rate_range: 0.1..0.8,
            selection_strategy: st,
            parameter_adjustment_interval: c.below(3),
        };
        let what = format!("OneMax of {n} bits, size {size}, {st:?}, kind {kind}");
        let r = lib(|| match kind {
            0 => GeneticAlgorithm::build_evolution(OneMaxEvolutionModel).run(&n, &ga, &mut watch),
            1 => AdaptiveGeneticAlgorithm::build_evolution(OneMaxEvolutionModel).run(&n, &aga, &mut watch),
            2 => GeneticAlgorithm::build_evolution(OneMaxEvolutionModel).evolve_individual(OneMax::from(given.clone()), &ga, &mut watch),
            _ => AdaptiveGeneticAlgorithm::build_evolution(OneMaxEvolutionModel)
                .evolve_individual(OneMax::from(given.clone()), &aga, &mut watch),
        });
        if let Some(b) = bad {
            fail!("{what}: {b}");
        }
        match r {
            Err(p) => fail!("{what}: {p}"),
            Ok(o) => {
                ensure!(o.genome().len() == n, "{what}: the result has {} bits", o.genome().len());
                ensure!(o.fitness() == fitness(o.genome()), "{what}: fitness {} of {}", o.fitness(), show(o.genome()));
                ensure!(o.fitness() == best, "{what}: fitness {} returned, {best} seen", o.fitness());
            }
        }
        c.count("members", shown);
        c.count("runs", 1);
        c.sig((n, size, kind, shown));
        c.sample(|| what.clone());
        Ok(())
    });
    ctx.require("evaluations", 10_000);
    ctx.require("recombinations", 10_000);
    ctx.require("mutations that changed a bit", 5000);
    ctx.require("individuals created", 100_000);
    ctx.require("runs", 100);
}
