//! Goodness-of-fit monitor.

use crate::ensure;
use crate::rt::*;

fn ln_gamma(x: f64) -> f64 {
    const G: [f64; 9] = [
        0.999_999_999_999_809_9,
        676.5203681218851,
        -1259.1392167224028,
        771.323_428_777_653_1,
        -176.615_029_162_140_6,
        12.507343278686905,
        -0.13857109526572012,
        9.984_369_578_019_572e-6,
        1.5056327351493116e-7,
    ];
    if x < 0.5 {
        return (std::f64::consts::PI / (std::f64::consts::PI * x).sin()).ln() - ln_gamma(1.0 - x);
    }
    let x = x - 1.0;
    let mut a = G[0];
    let t = x + 7.5;
    for (i, g) in G.iter().enumerate().skip(1) {
        a += g / (x + i as f64);
    }
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Natural logarithm of the upper regularised incomplete gamma function Q(a, x).
fn ln_q(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if x < a + 1.0 {
        let mut sum = 1.0 / a;
        let mut del = sum;
        let mut ap = a;
        for _ in 0..100_000 {
            ap += 1.0;
            del *= x / ap;
            sum += del;
            if del.abs() < sum.abs() * 1e-16 {
                break;
            }
        }
        let p = (sum.ln() - x + a * x.ln() - ln_gamma(a)).exp();
        return (1.0 - p).max(1e-300).ln();
    }
    let mut b = x + 1.0 - a;
    let mut c = 1.0 / 1e-300;
    let mut d = 1.0 / b;
    let mut h = d;
    for i in 1..100_000 {
        let an = -(i as f64) * (i as f64 - a);
        b += 2.0;
        d = an * d + b;
        if d.abs() < 1e-300 {
            d = 1e-300;
        }
        c = b + an / c;
        if c.abs() < 1e-300 {
            c = 1e-300;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-15 {
            break;
        }
    }
    -x + a * x.ln() - ln_gamma(a) + h.ln()
}

/// ln of the p-value of a chi-square statistic.
pub fn ln_p(chi2: f64, dof: usize) -> f64 {
    if dof == 0 {
        0.0
    } else {
        ln_q(dof as f64 / 2.0, chi2 / 2.0)
    }
}

/// ln(1e-12): the error rate of one goodness-of-fit verdict.
const LN_ALPHA: f64 = -27.63;

/// Checks observed counts against exact probabilities. Outcomes of (almost) zero probability must not
/// occur; the others are compared by chi-square, cells with small expectation being pooled.
pub fn fits(what: impl Fn() -> String, counts: &[u64], probs: &[f64]) -> R {
    let total: u64 = counts.iter().sum();
    let psum: f64 = probs.iter().sum();
    ensure!(counts.len() == probs.len(), "{}: {} outcomes for {} cells", what(), counts.len(), probs.len());
    assert!((psum - 1.0).abs() < 1e-6, "bad reference distribution: sums to {psum}");
    let n = total as f64;
    let (mut chi2, mut cells) = (0.0, 0usize);
    let (mut pool_c, mut pool_e) = (0.0, 0.0);
    for (i, (&c, &p)) in counts.iter().zip(probs).enumerate() {
        let e = n * p / psum;
        if e < 1e-9 {
            ensure!(c == 0, "{}: outcome {i} of probability {p:e} occurred {c} times in {total}", what());
            continue;
        }
        if e < 25.0 {
            pool_c += c as f64;
            pool_e += e;
        } else {
            chi2 += (c as f64 - e).powi(2) / e;
            cells += 1;
        }
    }
    if pool_e >= 25.0 {
        chi2 += (pool_c - pool_e).powi(2) / pool_e;
        cells += 1;
    } else if pool_e > 0.0 {
        // Bernstein bound for a pooled cell too small for chi-square.
        let d = pool_c - pool_e;
        let bound = -(d * d / 2.0) / (pool_e + d.abs() / 3.0);
        ensure!(d <= 0.0 || bound > LN_ALPHA, "{}: rare outcomes occurred {pool_c} times, expected {pool_e:.2}", what());
    }
    if cells >= 2 {
        let lp = ln_p(chi2, cells - 1);
        ensure!(
            lp > LN_ALPHA,
            "{}: distribution differs (chi2={chi2:.1}, dof={}, ln p={lp:.1}); observed {:?}, expected {:?}",
            what(),
            cells - 1,
            head(counts),
            head(&probs.iter().map(|p| (p * n * 10.0).round() / 10.0).collect::<Vec<_>>())
        );
    }
    Ok(())
}

fn head<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().take(24).cloned().collect()
}

/// Checks a binomial count.
pub fn binom(what: impl Fn() -> String, hits: u64, n: u64, p: f64) -> R {
    fits(what, &[hits, n - hits], &[p, 1.0 - p])
}
