//! Runtime of the monitors: deterministic cases, coverage counters, verdicts, watchdog, replay.
//!
//! Verdicts are three-valued: exit 0 (held on everything observed), exit 1 (a violation, with a replay
//! file), exit 3 (inconclusive: harness fault, too few observations, watchdog without proof of a hang).

use rand::prelude::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Viol(pub String);
pub type R<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::rt::Viol(format!($($a)*))) } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::rt::Viol(format!($($a)*))) };
}

/// Payload of a panic raised by an instrumented gene or RNG whose step budget is used up.
pub struct Budget;
/// Payload of a panic injected into a user callback.
pub struct Injected(pub u64);

#[derive(Debug, Clone)]
pub enum Panicked {
    /// A step budget ran out: the code under test did not finish in a generous number of logical steps.
    Budget,
    Injected(u64),
    Other(String),
}

impl std::fmt::Display for Panicked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Panicked::Budget => write!(f, "step budget exhausted (no termination)"),
            Panicked::Injected(n) => write!(f, "injected panic {n}"),
            Panicked::Other(m) => write!(f, "panic: {m}"),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}
/// Location and message of the last panic on any thread (rayon forwards panics between threads).
static LAST_ANY: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload_text(info.payload());
        if std::env::var_os("VH_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc.clone(), msg.clone()));
        if let Ok(mut g) = LAST_ANY.lock() {
            *g = Some((loc, msg));
        }
    }));
}

fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-text payload>".into()
    }
}

/// Calls into the code under test.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(if p.is::<Budget>() {
            Panicked::Budget
        } else if let Some(i) = p.downcast_ref::<Injected>() {
            Panicked::Injected(i.0)
        } else {
            let m = payload_text(&*p);
            let loc = LAST_ANY
                .lock()
                .ok()
                .and_then(|g| g.clone())
                .filter(|(_, am)| *am == m)
                .map(|(l, _)| l)
                .unwrap_or_default();
            Panicked::Other(format!("{m} [{loc}]"))
        }),
    }
}

/// Calls into the code under test where a panic is a violation.
pub fn must<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> R<T> {
    lib(f).map_err(|p| Viol(format!("{}: {p}", what())))
}

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub sigs: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub journal: Option<String>,
    pub cov: Mutex<Cov>,
    pub rules: Mutex<Vec<String>>,
    pub mins: Mutex<Vec<(String, u64)>>,
    pub start: Instant,
    /// Multiplies the number of randomly generated cases.
    pub scale: u64,
    /// Few cases, for C38; what is observed is not judged to be enough.
    pub brief: bool,
}

pub struct Case {
    pub rng: SmallRng,
    pub idx: u64,
    pub deep: bool,
    pub cov: Cov,
}

impl Case {
    /// Counts oracle evaluations beyond the one every case counts for.
    pub fn evals(&mut self, n: u64) {
        self.cov.evals += n;
    }
    /// Records the signature of a non-trivial situation.
    pub fn sig<H: std::hash::Hash>(&mut self, h: H) {
        self.cov.sigs.insert(hash64(&h));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.cov.counts.get_mut(k) {
            *v += n
        } else {
            self.cov.counts.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 3 || (self.idx % 97 == 0 && self.idx < 400) {
            let s = f();
            if self.cov.samples.len() < 4 {
                self.cov.samples.push(s.chars().take(600).collect());
            }
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.rng.gen_range(0..n)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.rng.gen::<f64>() < p
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.rng.gen_range(0..xs.len())]
    }
}

pub fn hash64<H: std::hash::Hash + ?Sized>(h: &H) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    h.hash(&mut s);
    s.finish()
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

struct Slot {
    kind: String,
    idx: u64,
}

static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(Vec::new());
static COMPLETIONS: AtomicU64 = AtomicU64::new(0);
static FOUND: Mutex<Option<(String, u64, String)>> = Mutex::new(None);
static DONE: AtomicBool = AtomicBool::new(false);
static META: OnceLock<(String, String, u64)> = OnceLock::new();

pub fn write_replay(prop: &str, tier: &str, seed: u64, kind: &str, idx: u64, msg: &str) -> String {
    let dir = std::env::var("VH_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{}-{idx}-s{seed}.txt", kind.replace(' ', "_"));
    let body = format!(
        "property={prop}\ntier={tier}\nseed={seed}\nkind={kind}\nidx={idx}\nmessage={}\n",
        msg.replace('\n', "\\n")
    );
    let _ = std::fs::write(&path, body);
    path
}

/// Marks where the library's work begins and ends in the trace of system calls that C38 reads.
pub fn fence(what: &str) {
    use std::io::Write;
    if std::env::var_os("VH_FENCE").is_some() {
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().write_all(format!("VH-{what}\n").as_bytes());
    }
}

pub fn report(ctx: &Ctx, kind: &str, idx: u64, msg: &str) -> ! {
    DONE.store(true, SeqCst);
    fence("END");
    let path = write_replay(&ctx.prop, &ctx.tier, ctx.seed, kind, idx, msg);
    println!("[{}] case {kind}#{idx}: {msg}", ctx.prop);
    println!("VIOLATION property={} replay={path}", ctx.prop);
    ctx.write_evidence(1);
    std::process::exit(1)
}

pub fn inconclusive(msg: &str) -> ! {
    DONE.store(true, SeqCst);
    fence("END");
    println!("INCONCLUSIVE: {msg}");
    std::process::exit(3)
}

fn cpu_seconds() -> f64 {
    // utime + stime of the whole process
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let t: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let tick = |i: usize| t.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (tick(11) + tick(12)) / 100.0
}

/// True if no thread of this process but the calling one is runnable.
fn all_asleep() -> bool {
    let me = std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .unwrap_or_default();
    let Ok(dir) = std::fs::read_dir("/proc/self/task") else {
        return false;
    };
    for e in dir.flatten() {
        if e.file_name().to_string_lossy() == me {
            continue;
        }
        let s = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        let st = s.rsplit(')').next().unwrap_or("").split_whitespace().next().unwrap_or("R");
        if st != "S" {
            return false;
        }
    }
    true
}

/// Hang detection. A hang is reported as a violation only on logical grounds: either every thread of
/// the process is blocked (deadlock: no timers are in use), or the cases under way, which normally need
/// a few milliseconds to two seconds, have burned 240 s of this process's own CPU time without one
/// finishing (endless loop). Wall time alone gives an inconclusive exit.
pub fn start_watchdog(prop: String, tier: String, seed: u64) {
    let _ = META.set((prop, tier, seed));
    std::thread::spawn(|| {
        let mut last = (0u64, Instant::now(), cpu_seconds());
        let mut asleep = 0u32;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            if DONE.load(SeqCst) {
                return;
            }
            let busy = SLOTS.lock().unwrap().iter().any(|s| s.is_some());
            let c = COMPLETIONS.load(SeqCst);
            if c != last.0 || !busy {
                last = (c, Instant::now(), cpu_seconds());
                asleep = 0;
                continue;
            }
            let wall = last.1.elapsed().as_secs_f64();
            if wall > 10.0 {
                asleep = if all_asleep() { asleep + 1 } else { 0 };
            }
            if wall > 20.0 {
                // a violation is already known; some other case does not come back
                if let Some((kind, idx, msg)) = FOUND.lock().unwrap().clone() {
                    let (p, t, s) = META.get().unwrap().clone();
                    if DONE.swap(true, SeqCst) {
                        return;
                    }
                    fence("END");
                    let path = write_replay(&p, &t, s, &kind, idx, &msg);
                    println!("[{p}] case {kind}#{idx}: {msg}");
                    println!("VIOLATION property={p} replay={path}");
                    std::process::exit(1);
                }
            }
            let why = if asleep >= 80 {
                Some("deadlock: every thread has been blocked for 20 s with a case under way".to_string())
            } else if cpu_seconds() - last.2 > 240.0 {
                Some("no termination: 240 s of CPU time spent without any case finishing".to_string())
            } else {
                None
            };
            if let Some(why) = why {
                let (p, t, s) = META.get().unwrap().clone();
                let slots = SLOTS.lock().unwrap();
                let slot = slots.iter().flatten().next();
                let (kind, idx) = slot.map(|s| (s.kind.clone(), s.idx)).unwrap_or_default();
                if DONE.swap(true, SeqCst) {
                    return;
                }
                fence("END");
                let path = write_replay(&p, &t, s, &kind, idx, &why);
                println!("[{p}] case {kind}#{idx}: {why}");
                println!("VIOLATION property={p} replay={path}");
                std::process::exit(1);
            }
            if wall > 780.0 {
                inconclusive("no case finished for 780 s of wall time");
            }
        }
    });
}

impl Ctx {
    pub fn deep(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn rule(&self, s: &str) {
        self.rules.lock().unwrap().push(s.to_string());
    }

    /// The run is inconclusive unless the named counter reached `n` (scaled by nothing).
    pub fn require(&self, name: &str, n: u64) {
        self.mins.lock().unwrap().push((name.to_string(), n));
    }

    /// Runs cases `0..n` of one kind on `threads` threads; every case is a function of (seed, kind, idx).
    pub fn cases<F>(&self, kind: &str, quick: u64, thorough: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        let scale = if kind == "giant" { 1 } else { self.scale };
        // kinds with the same number of cases in both tiers are enumerations
        let n = if quick == thorough {
            quick
        } else if self.deep() {
            thorough * scale
        } else {
            quick * scale
        };
        let base = mix(mix(self.seed, hash64(&self.prop)), hash64(kind));
        let next = AtomicU64::new(0);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let broken: Mutex<Option<String>> = Mutex::new(None);
        let (from, to, reps) = match &self.only {
            Some((k, i)) if k == kind => (*i, *i + 1, 20),
            Some(_) => return,
            None => (0, n, 1),
        };
        next.store(from, SeqCst);
        let threads = if self.only.is_some() || self.journal.is_some() { 1 } else { threads };
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || {
                        let slot = {
                            let mut s = SLOTS.lock().unwrap();
                            s.push(None);
                            s.len() - 1
                        };
                        let mut acc = Cov::default();
                        loop {
                            let idx = next.fetch_add(1, SeqCst);
                            if idx >= to || DONE.load(SeqCst) {
                                break;
                            }
                            if let Some((i, _)) = &*found.lock().unwrap() {
                                if *i < idx {
                                    break;
                                }
                            }
                            if let Some(j) = &self.journal {
                                let _ = std::fs::write(j, format!("kind={kind}\nidx={idx}\n"));
                            }
                            SLOTS.lock().unwrap()[slot] = Some(Slot { kind: kind.to_string(), idx });
                            for _ in 0..reps {
                                let mut case = Case {
                                    rng: SmallRng::seed_from_u64(mix(base, idx)),
                                    idx,
                                    deep: self.deep(),
                                    cov: Cov { evals: 1, ..Default::default() },
                                };
                                let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                                merge(&mut acc, std::mem::take(&mut case.cov));
                                let viol = match r {
                                    Ok(Ok(())) => None,
                                    Ok(Err(v)) => Some(v.0),
                                    Err(p) => {
                                        let (loc, msg) = LAST_PANIC.with(|l| l.borrow().clone());
                                        if p.is::<Budget>() || loc.starts_with("/repo/") {
                                            Some(format!("unexpected panic: {msg} [{loc}]"))
                                        } else {
                                            *broken.lock().unwrap() =
                                                Some(format!("{kind}#{idx}: panic in the harness: {msg} [{loc}]"));
                                            None
                                        }
                                    }
                                };
                                if let Some(m) = viol {
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map_or(true, |(i, _)| idx < *i) {
                                        *FOUND.lock().unwrap() = Some((kind.to_string(), idx, m.clone()));
                                        *g = Some((idx, m));
                                    }
                                    break;
                                }
                            }
                            SLOTS.lock().unwrap()[slot] = None;
                            COMPLETIONS.fetch_add(1, SeqCst);
                        }
                        merge(&mut self.cov.lock().unwrap(), acc);
                    })
                    .unwrap();
            }
        });
        {
            let mut c = self.cov.lock().unwrap();
            *c.counts.entry(format!("cases:{kind}")).or_default() += to - from;
        }
        if let Some((idx, m)) = found.into_inner().unwrap() {
            report(self, kind, idx, &m);
        }
        if let Some(b) = broken.into_inner().unwrap() {
            inconclusive(&b);
        }
    }

    pub fn finish(&self) -> ! {
        crate::more::show_most();
        DONE.store(true, SeqCst);
        fence("END");
        if self.only.is_none() && !self.brief {
            let c = self.cov.lock().unwrap();
            for (k, n) in self.mins.lock().unwrap().iter() {
                let have = c.counts.get(k).copied().unwrap_or(0);
                if have < *n {
                    drop(c);
                    inconclusive(&format!("monitor observed too little: {k} = {have} < {n}"));
                }
            }
            if c.sigs.is_empty() {
                drop(c);
                inconclusive("no non-trivial case was observed");
            }
        }
        self.write_evidence(0);
        let c = self.cov.lock().unwrap();
        println!(
            "[{}] held on {} evaluations, {} distinct non-trivial; {:?}",
            self.prop,
            c.evals,
            c.sigs.len(),
            c.counts
        );
        std::process::exit(0)
    }

    fn write_evidence(&self, violations: u64) {
        if self.only.is_some() {
            return;
        }
        let Ok(path) = std::env::var("VH_EVIDENCE") else { return };
        let Ok(c) = self.cov.lock() else { return };
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"observed\": {{",
            js(&self.prop),
            js(&self.tier),
            self.seed,
            js(if self.prop == "C24" { "fault_enumeration" } else { "exploration" }),
            c.evals,
            c.sigs.len(),
            js(&self.rules.lock().unwrap().join(" ")),
        );
        for (i, (k, v)) in c.counts.iter().enumerate() {
            let _ = write!(s, "{}{}: {}", if i == 0 { "" } else { ", " }, js(k), v);
        }
        s.push_str("},\n  \"samples\": [");
        for (i, x) in c.samples.iter().take(8).enumerate() {
            let _ = write!(s, "{}{}", if i == 0 { "" } else { ", " }, js(x));
        }
        let _ = write!(
            s,
            "]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            js("holds on the executions observed; nothing is claimed about inputs or schedules that were not run"),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        if let Some(d) = std::path::Path::new(&path).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(&path, s) {
            println!("cannot write {path}: {e}");
        }
    }
}

fn merge(a: &mut Cov, b: Cov) {
    a.evals += b.evals;
    a.sigs.extend(b.sigs);
    for (k, v) in b.counts {
        *a.counts.entry(k).or_default() += v;
    }
    for s in b.samples {
        if a.samples.len() < 8 {
            a.samples.push(s);
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
