//! Instrumented genes and random generators, and generators of genome pairs.

use crate::rt::*;
use rand::prelude::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    static SPENT: Cell<u64> = const { Cell::new(0) };
}

/// Runs `f` with a budget of gene operations (comparisons, hashes) and random draws.
pub fn with_fuel<T>(n: u64, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FUEL.with(|x| x.set(u64::MAX));
        }
    }
    let _r = Reset;
    FUEL.with(|x| x.set(n));
    f()
}

#[inline]
pub fn burn() {
    FUEL.with(|x| {
        let v = x.get();
        if v != u64::MAX {
            if v == 0 {
                x.set(u64::MAX); // unwinding may compare again
                std::panic::panic_any(Budget);
            }
            x.set(v - 1);
            SPENT.with(|s| s.set(s.get().wrapping_add(1)));
        }
    })
}

pub fn spent() -> u64 {
    SPENT.with(|s| s.replace(0))
}

/// Generous bound on the number of gene operations and draws of one operator call on `n` genes. The
/// operators are at most cubic with small constants (colliding hashes included).
pub fn fuel(n: usize) -> u64 {
    let m = n as u64 + 4;
    5_000 + 200 * m * m * m
}

/// A gene whose comparisons and hashes are counted. `MODE` 0: plain; 1: all hashes collide; 2: reversed order; 3: ordered like
/// sets of bits by inclusion, most of them incomparable.
#[derive(Clone, Copy, Debug)]
pub struct Tok<const MODE: u8>(pub u32);
impl<const M: u8> PartialEq for Tok<M> {
    fn eq(&self, o: &Self) -> bool {
        burn();
        self.0 == o.0
    }
}
impl<const M: u8> Eq for Tok<M> {}
impl<const M: u8> Hash for Tok<M> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        burn();
        if M != 1 {
            h.write_u32(self.0)
        }
    }
}
impl<const M: u8> PartialOrd for Tok<M> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        burn();
        match M {
            2 => Some(o.0.cmp(&self.0)),
            3 if self.0 == o.0 => Some(Ordering::Equal),
            3 if self.0 & o.0 == self.0 => Some(Ordering::Less),
            3 if self.0 & o.0 == o.0 => Some(Ordering::Greater),
            3 => None,
            _ => Some(self.0.cmp(&o.0)),
        }
    }
}

/// A gene type with an injection from small integers.
pub trait Gene: Copy + PartialOrd + Eq + Hash + Debug {
    const NAME: &'static str;
    const MAX: usize;
    fn mk(i: usize) -> Self;
}
macro_rules! gene {
    ($t:ty, $n:expr, $max:expr, |$i:ident| $e:expr) => {
        impl Gene for $t {
            const NAME: &'static str = $n;
            const MAX: usize = $max;
            fn mk($i: usize) -> Self {
                $e
            }
        }
    };
}
gene!(u8, "u8", 256, |i| (i as u8).wrapping_mul(37));
gene!(i32, "i32", 1 << 20, |i| (i as u32).wrapping_mul(2_654_435_761) as i32);
gene!(usize, "usize", 1 << 20, |i| i);
gene!(i64, "i64", 1 << 20, |i| if i % 2 == 0 { i64::MAX - i as i64 } else { i64::MIN + i as i64 });
gene!(char, "char", 50_000, |i| char::from_u32(i as u32 + 33).unwrap());
gene!((i8, u16), "(i8,u16)", 1 << 20, |i| ((i % 200) as u8 as i8, (i / 200) as u16));
gene!(&'static str, "&str", 4096, |i| word(i));
gene!(Tok<0>, "Tok", 64, |i| Tok((i as u32).wrapping_mul(2_654_435_761)));
gene!(Tok<1>, "Tok/colliding", 40, |i| Tok(i as u32));
gene!(Tok<2>, "Tok/reversed", 64, |i| Tok(i as u32));
gene!(Tok<3>, "Tok/partly ordered", 64, |i| Tok(i as u32));

fn word(i: usize) -> &'static str {
    use std::sync::OnceLock;
    static W: OnceLock<Vec<&'static str>> = OnceLock::new();
    W.get_or_init(|| {
        (0..4096usize)
            .map(|i| &*Box::leak(format!("g{:x}", mix(i as u64, 7) >> 40 << 12 | i as u64).into_boxed_str()))
            .collect()
    })[i]
}

/// A pair of parents as index permutations plus the gene table.
pub struct Pair<G> {
    pub genes: Vec<G>,
    pub p1: Vec<G>,
    pub p2: Vec<G>,
    pub i1: Vec<usize>,
    pub i2: Vec<usize>,
    back: HashMap<u64, Vec<(usize, G)>>,
}

impl<G: Gene> Pair<G> {
    pub fn new(i1: Vec<usize>, i2: Vec<usize>, off: usize) -> Self {
        let n = i1.len();
        let genes: Vec<G> = (0..n).map(|i| G::mk((i + off) % G::MAX)).collect();
        let mut back: HashMap<u64, Vec<(usize, G)>> = HashMap::new();
        for (i, g) in genes.iter().enumerate() {
            back.entry(hash64(g)).or_default().push((i, *g));
        }
        Pair {
            p1: i1.iter().map(|&i| genes[i]).collect(),
            p2: i2.iter().map(|&i| genes[i]).collect(),
            genes,
            i1,
            i2,
            back,
        }
    }
    pub fn n(&self) -> usize {
        self.i1.len()
    }
    /// Index of a gene, if it is one of the parents' genes.
    pub fn ix(&self, g: &G) -> Option<usize> {
        self.back.get(&hash64(g))?.iter().find(|(_, x)| x == g).map(|p| p.0)
    }
    pub fn ixs(&self, v: &[G]) -> R<Vec<usize>> {
        v.iter()
            .map(|g| self.ix(g).ok_or_else(|| Viol(format!("gene {g:?} is not a gene of the parents ({})", self.show()))))
            .collect()
    }
    pub fn show(&self) -> String {
        let cut = |v: &Vec<usize>| {
            if v.len() <= 40 {
                format!("{v:?}")
            } else {
                format!("{:?}.. (n={})", &v[..40], v.len())
            }
        };
        format!("{} genes, parent1={} parent2={}", G::NAME, cut(&self.i1), cut(&self.i2))
    }
    pub fn perm_of(&self, v: &[G], what: &str) -> R<Vec<usize>> {
        let n = self.n();
        let ix = self.ixs(v).map_err(|e| Viol(format!("{what}: {}", e.0)))?;
        if ix.len() != n {
            crate::fail!("{what}: offspring has {} genes instead of {n}; {}", ix.len(), self.show());
        }
        let mut seen = vec![false; n];
        for &i in &ix {
            if std::mem::replace(&mut seen[i], true) {
                crate::fail!("{what}: gene #{i} occurs twice in offspring {:?}; {}", cutv(&ix), self.show());
            }
        }
        Ok(ix)
    }
}

pub fn cutv<T: Debug>(v: &[T]) -> String {
    if v.len() <= 40 {
        format!("{v:?}")
    } else {
        format!("{:?}.. (n={})", &v[..40], v.len())
    }
}

pub fn pick_size(c: &mut Case, max: usize) -> usize {
    let r = c.rng.gen::<f64>();
    let n = if r < 0.45 {
        c.rng.gen_range(0..8)
    } else if r < 0.80 {
        c.rng.gen_range(5..40)
    } else if r < 0.97 || !c.deep && c.idx % 8 != 0 {
        let s = [30, 31, 32, 33, 50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 200];
        c.pick(&s)
    } else {
        let s = [255, 256, 257, 300, 400, 511, 512, 513, 600];
        c.pick(&s)
    };
    n.min(max)
}

/// A second parent in some relation to the first.
pub fn relate(c: &mut Case, a: &[usize]) -> Vec<usize> {
    let n = a.len();
    let mut b = a.to_vec();
    if n < 2 {
        return b;
    }
    match c.below(12) {
        0 => {}
        1 => b.reverse(),
        2 => b.rotate_left(c.rng.gen_range(1..n)),
        3 => {
            b.rotate_left(c.rng.gen_range(0..n));
            b.reverse();
        }
        4 => {
            // few swaps
            for _ in 0..c.rng.gen_range(1..4) {
                let (i, j) = (c.below(n), c.below(n));
                b.swap(i, j);
            }
        }
        5 => {
            // invert a segment
            let (i, j) = (c.below(n), c.below(n));
            b[i.min(j)..=i.max(j)].reverse();
        }
        6 => {
            // move a block
            let (i, j) = (c.below(n), c.below(n));
            let (i, j) = (i.min(j), i.max(j));
            let k = c.rng.gen_range(0..=(j - i));
            b[i..=j].rotate_left(k);
        }
        7 => {
            // transposition of neighbours everywhere: many 2-cycles
            for k in (0..n - 1).step_by(2) {
                b.swap(k, k + 1);
            }
        }
        8 => {
            // shuffle inside blocks: many short cycles
            let w = c.rng.gen_range(2..=n.min(8));
            for ch in b.chunks_mut(w) {
                ch.shuffle(&mut c.rng);
            }
        }
        9 => {
            // shuffle blocks: long common chains
            let w = c.rng.gen_range(1..=n.min(8));
            let mut bl: Vec<Vec<usize>> = b.chunks(w).map(|x| x.to_vec()).collect();
            bl.shuffle(&mut c.rng);
            for x in bl.iter_mut() {
                if c.rng.gen() {
                    x.reverse();
                }
            }
            b = bl.concat();
        }
        _ => b.shuffle(&mut c.rng),
    }
    b
}

pub fn random_pair_of<G: Gene>(c: &mut Case, max: usize) -> Pair<G> {
    let n = pick_size(c, max.min(G::MAX));
    let mut a: Vec<usize> = (0..n).collect();
    if c.chance(0.7) {
        a.shuffle(&mut c.rng);
    }
    let b = relate(c, &a);
    let off = if c.chance(0.5) { 0 } else { c.below(G::MAX - n + 1) };
    Pair::new(a, b, off)
}

/// The `k`-th permutation of `0..n`.
pub fn nth_perm(n: usize, mut k: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = Vec::with_capacity(n);
    for i in (1..=n as u64).rev() {
        let f = factorial(i - 1);
        let d = (k / f) as usize;
        k %= f;
        out.push(pool.remove(d));
    }
    out
}
pub fn factorial(n: u64) -> u64 {
    (1..=n).product()
}

/// A random generator that sometimes returns extreme bit patterns; draws are counted against the fuel.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hostile {
    pub inner: SmallRng,
    pub mode: u8,
    pub draws: u64,
}
impl Hostile {
    /// `mode` 0: ordinary; 1: mixes in extremes often; 2: starts with all-zero draws, 3: with all-one draws.
    pub fn new(seed: u64, mode: u8) -> Self {
        Hostile { inner: SmallRng::seed_from_u64(seed), mode, draws: 0 }
    }
    fn extreme(&mut self) -> Option<u64> {
        burn();
        self.draws += 1;
        match self.mode {
            0 => None,
            1 => match self.inner.gen_range(0..8u8) {
                0 => Some(0),
                1 => Some(u64::MAX),
                2 => Some(1u64 << self.inner.gen_range(0..64u32)),
                3 => Some(!(self.inner.next_u64() >> self.inner.gen_range(40..64u32))),
                4 => Some(self.inner.next_u64() >> self.inner.gen_range(0..60u32)),
                _ => None,
            },
            2 if self.draws <= 6 => Some(0),
            3 if self.draws <= 6 => Some(u64::MAX),
            _ => None,
        }
    }
}
impl RngCore for Hostile {
    fn next_u32(&mut self) -> u32 {
        match self.extreme() {
            Some(x) => (x >> 32) as u32 | (x as u32 & 1),
            None => self.inner.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self.extreme() {
            Some(x) => x,
            None => self.inner.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        rand_fill(self, d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        rand_fill(self, d);
        Ok(())
    }
}
pub fn rand_fill<T: RngCore>(r: &mut T, d: &mut [u8]) {
    for ch in d.chunks_mut(8) {
        let x = r.next_u64().to_le_bytes();
        ch.copy_from_slice(&x[..ch.len()]);
    }
}
