//! Running suites of generated cases, shrinking failures, and reporting.
use crate::json::J;
use crate::tape::{Src, hash_str, mix, shrink};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub enum Stop {
    /// The generated case is outside the domain of the property.
    Discard(&'static str),
    /// The property does not hold; `sig` identifies the kind of failure.
    Fail { sig: String, msg: String },
    /// The check could not decide (a fault of the check or of its surroundings).
    Error(String),
}
pub type R<T = ()> = Result<T, Stop>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Stop::Fail { sig: sig.into(), msg: msg.into() })
}
pub fn err<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Error(msg.into()))
}

/// When each thread last showed signs of life, in milliseconds; zero if it need not.
static BEATS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
const MAIN: usize = 63;
/// A case in this process that takes longer does not end.
const STALL: u64 = 60_000;
thread_local!(static SLOT: Cell<usize> = const { Cell::new(MAIN) });

fn now() -> u64 {
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// A sign of life.
pub fn beat() {
    BEATS[SLOT.get()].store(now(), Ordering::Relaxed);
}

/// No sign of life is to be expected until the next one.
pub fn pause() {
    BEATS[SLOT.get()].store(0, Ordering::Relaxed);
}

fn stalled(slot: usize) -> bool {
    let b = BEATS[slot].load(Ordering::Relaxed);
    b != 0 && now().saturating_sub(b) > STALL
}

/// Runs f on this thread; if it stalls, runs g, which does not return.
fn guarded<T>(g: impl FnOnce() + Send, f: impl FnOnce() -> T) -> T {
    let done = AtomicBool::new(false);
    let slot = SLOT.get();
    beat();
    std::thread::scope(|sc| {
        let done = &done;
        sc.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                if stalled(slot) {
                    return g();
                }
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
        });
        let r = f();
        done.store(true, Ordering::Relaxed);
        pause();
        r
    })
}

#[derive(Default)]
pub struct Ctx {
    pub thorough: bool,
    pub want_show: bool,
    pub shown: Option<String>,
    /// Where shown text goes at once, for cases that may never end.
    pub sink: Option<Arc<Mutex<String>>>,
    pub evals: u64,
    pub keys: Vec<u64>,
    pub classes: BTreeMap<String, u64>,
    pub worker: usize,
}

impl Ctx {
    /// Records one evaluated case, with its identity if it is non-trivial.
    pub fn case(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            self.keys.push(k);
        }
    }
    pub fn class(&mut self, name: &str) {
        *self.classes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn classn(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.classes.entry(name.to_string()).or_insert(0) += n;
        }
    }
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.want_show {
            let t = f();
            if let Some(s) = &self.sink {
                *s.lock().unwrap() = t.clone();
            }
            self.shown = Some(t);
        }
    }
    /// A fresh scratch file name stem for this worker.
    pub fn scratch(&self) -> PathBuf {
        scratch_dir().join(format!("w{}", self.worker))
    }
}

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);

pub fn scratch_dir() -> PathBuf {
    let mut g = SCRATCH.lock().unwrap();
    if g.is_none() {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = PathBuf::from(format!("{base}/pv-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        *g = Some(d);
    }
    g.clone().unwrap()
}

pub fn remove_scratch() {
    if let Some(d) = SCRATCH.lock().unwrap().take() {
        let _ = std::fs::remove_dir_all(d);
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if QUIET.with(|q| q.get()) == 0 {
            default(info);
        }
    }));
}

/// Runs code under test; a panic becomes Err(message).
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

static STDERR: Mutex<()> = Mutex::new(());

/// What the function writes to the standard error stream.
pub fn written<T>(ctx: &Ctx, f: impl FnOnce() -> T) -> R<(T, String)> {
    use std::os::fd::AsRawFd;
    let io = |e: std::io::Error| Stop::Error(e.to_string());
    let d = ctx.scratch();
    std::fs::create_dir_all(&d).map_err(io)?;
    let p = d.join("stderr");
    let file = std::fs::File::create(&p).map_err(io)?;
    let _one = STDERR.lock().unwrap_or_else(|e| e.into_inner());
    // the function does not unwind
    let r = unsafe {
        let old = dup(2);
        if old < 0 || dup2(file.as_raw_fd(), 2) < 0 {
            return err("cannot redirect the standard error stream");
        }
        let r = f();
        dup2(old, 2);
        close(old);
        r
    };
    Ok((r, String::from_utf8_lossy(&std::fs::read(&p).map_err(io)?).into_owned()))
}

#[derive(Clone)]
pub struct Cfg {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub known: Vec<(String, String)>, // (signature, description)
    pub only: Option<String>,
    /// Seconds after which no new cases are started.
    pub time: f64,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub evals: u64,
    pub keys: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub discards: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
    pub known_hits: BTreeMap<String, u64>,
    pub per_suite: Vec<(String, u64, u64, f64)>,
}

pub struct Failure {
    pub suite: String,
    pub sig: String,
    pub msg: String,
    pub tape: Vec<u32>,
    /// The seed of a case that has no tape.
    pub fresh: Option<u64>,
    pub shown: String,
}

pub enum Outcome {
    Held,
    Failed(Failure),
    Errored(String),
}

pub trait Suite: Sync {
    fn name(&self) -> &str;
    fn run(&self, cfg: &Cfg, stats: &mut Stats) -> Outcome;
    /// Runs one case from a tape.
    fn one(&self, tape: &[u32], ctx: &mut Ctx) -> (R, Vec<u32>);
    fn flaky(&self) -> bool {
        false
    }
    /// Runs the case of a seed.
    fn from_seed(&self, seed: u64, ctx: &mut Ctx) -> (R, Vec<u32>);
}

/// Runs a case until it fails, at most so many times.
fn try_one(s: &dyn Suite, times: usize, tape: &[u32], ctx: &mut Ctx) -> (R, Vec<u32>) {
    for _ in 1..times {
        let r = s.one(tape, ctx);
        if matches!(r.0, Err(Stop::Fail { .. })) {
            return r;
        }
    }
    s.one(tape, ctx)
}

pub struct Simple {
    pub name: String,
    pub quick: u64,
    pub thorough: u64,
    pub shrink_budget: usize,
    /// What is looked for may show on some runs only.
    pub flaky: bool,
    pub f: Box<dyn Fn(&mut Src, &mut Ctx) -> R + Sync>,
}

pub fn suite(name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Src, &mut Ctx) -> R + Sync + 'static) -> Box<dyn Suite> {
    Box::new(Simple { name: name.to_string(), quick, thorough, shrink_budget: 3000, flaky: false, f: Box::new(f) })
}

pub fn suite_b(name: &str, quick: u64, thorough: u64, budget: usize, f: impl Fn(&mut Src, &mut Ctx) -> R + Sync + 'static) -> Box<dyn Suite> {
    Box::new(Simple { name: name.to_string(), quick, thorough, shrink_budget: budget, flaky: false, f: Box::new(f) })
}

/// A suite whose failures need not show on every run; one that was seen is reported.
pub fn suite_flaky(name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Src, &mut Ctx) -> R + Sync + 'static) -> Box<dyn Suite> {
    Box::new(Simple { name: name.to_string(), quick, thorough, shrink_budget: 300, flaky: true, f: Box::new(f) })
}

/// A fixed list of cases, all of them run.
pub fn fixed(name: &str, n: u64, f: impl Fn(usize, &mut Ctx) -> R + Sync + 'static) -> Box<dyn Suite> {
    suite_b(name, n, n, 0, move |s, ctx| {
        let i = s.below(n as usize);
        f(i, ctx)
    })
}

pub fn threads() -> usize {
    std::env::var("PV_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16))
}

impl Simple {
    fn exec(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        beat();
        match catch_unwind(AssertUnwindSafe(|| (self.f)(src, ctx))) {
            Ok(r) => r,
            Err(_) => Err(Stop::Error(format!("the check itself panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))),
        }
    }
}

impl Suite for Simple {
    fn name(&self) -> &str {
        &self.name
    }
    fn flaky(&self) -> bool {
        self.flaky
    }
    fn from_seed(&self, seed: u64, ctx: &mut Ctx) -> (R, Vec<u32>) {
        let mut src = Src::fresh(seed);
        let r = self.exec(&mut src, ctx);
        (r, src.used)
    }
    fn one(&self, tape: &[u32], ctx: &mut Ctx) -> (R, Vec<u32>) {
        let mut src = Src::replay(tape);
        let r = self.exec(&mut src, ctx);
        (r, src.used)
    }
    fn run(&self, cfg: &Cfg, stats: &mut Stats) -> Outcome {
        let base = if cfg.thorough { self.thorough } else { self.quick };
        let is_fixed = self.shrink_budget == 0;
        let total = if is_fixed { base } else { ((base as f64 * cfg.scale) as u64).max(1) };
        let t0 = Instant::now();
        let late = AtomicBool::new(false);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let shared: Mutex<(Stats, Option<(u64, String, String, Vec<u32>)>, Option<String>)> = Mutex::new((Stats::default(), None, None));
        let sample_every = (total / 4).max(1);
        let at: Vec<AtomicU64> = (0..threads()).map(|_| AtomicU64::new(0)).collect();
        let running = AtomicUsize::new(threads());
        std::thread::scope(|sc| {
            let (at, running) = (&at, &running);
            let watch = || {
                while running.load(Ordering::Relaxed) > 0 {
                    if let Some(w) = (0..threads()).find(|w| stalled(*w)) {
                        // again, to see that it was not for want of time
                        let i = at[w].load(Ordering::Relaxed);
                        stop.store(true, Ordering::Relaxed);
                        let sink = Arc::new(Mutex::new(String::new()));
                        let seed = mix(&[cfg.seed, hash_str(&cfg.property), hash_str(&self.name), i]);
                        let mut ctx = Ctx { thorough: cfg.thorough, worker: MAIN, want_show: true, sink: Some(sink.clone()), ..Ctx::default() };
                        let mut src = if is_fixed { Src::replay(&[i as u32]) } else { Src::fresh(seed) };
                        let report = || {
                            let shown = sink.lock().unwrap().clone();
                            let f = Failure { suite: self.name.clone(), sig: "does not end".into(), msg: format!("the code under test does not end on case {i}"), tape: if is_fixed { vec![i as u32] } else { vec![] }, fresh: (!is_fixed).then_some(seed), shown };
                            leave(cfg, f, &self.name, at.iter().map(|a| a.load(Ordering::Relaxed)).max().unwrap_or(0));
                        };
                        let _ = guarded(report, || self.exec(&mut src, &mut ctx));
                        eprintln!("ERROR property={} suite {} case {i} took very long, once", cfg.property, self.name);
                        remove_scratch();
                        std::process::exit(3);
                    }
                    std::thread::sleep(std::time::Duration::from_millis(20));
                }
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, watch).unwrap();
            for w in 0..threads() {
                let next = &next;
                let late = &late;
                let stop = &stop;
                let shared = &shared;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local = Stats::default();
                        SLOT.set(w);
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if !is_fixed && t0.elapsed().as_secs_f64() > cfg.time {
                                late.store(true, Ordering::Relaxed);
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= total {
                                break;
                            }
                            at[w].store(i, Ordering::Relaxed);
                            let mut ctx = Ctx { thorough: cfg.thorough, worker: w, want_show: i % sample_every == sample_every / 2, ..Ctx::default() };
                            let mut src = if is_fixed { Src::replay(&[i as u32]) } else { Src::fresh(mix(&[cfg.seed, hash_str(&cfg.property), hash_str(&self.name), i])) };
                            let r = self.exec(&mut src, &mut ctx);
                            local.cases += 1;
                            local.evals += ctx.evals;
                            for k in ctx.keys.drain(..) {
                                local.keys.insert(k);
                            }
                            for (k, v) in std::mem::take(&mut ctx.classes) {
                                *local.classes.entry(k).or_insert(0) += v;
                            }
                            match r {
                                Ok(()) => {
                                    if let Some(s) = ctx.shown.take() {
                                        local.samples.push((self.name.clone(), s));
                                    }
                                }
                                Err(Stop::Discard(why)) => *local.discards.entry(format!("{}: {}", self.name, why)).or_insert(0) += 1,
                                Err(Stop::Fail { sig, msg }) => {
                                    if cfg.known.iter().any(|(s, _)| *s == sig) {
                                        *local.known_hits.entry(sig).or_insert(0) += 1;
                                    } else {
                                        let mut g = shared.lock().unwrap();
                                        if g.1.as_ref().is_none_or(|f| f.0 > i) {
                                            g.1 = Some((i, sig, msg, src.used.clone()));
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                Err(Stop::Error(e)) => {
                                    let mut g = shared.lock().unwrap();
                                    g.2.get_or_insert(format!("suite {} case {i}: {e}", self.name));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        pause();
                        let mut g = shared.lock().unwrap();
                        merge(&mut g.0, local);
                        drop(g);
                        running.fetch_sub(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
        });
        let (mut st, failure, error) = shared.into_inner().unwrap();
        if late.into_inner() {
            *st.classes.entry(format!("suite {} ended by the time limit", self.name)).or_insert(0) += 1;
        }
        let (cases, evals) = (st.cases, st.evals);
        merge(stats, st);
        stats.per_suite.push((self.name.clone(), cases, evals, t0.elapsed().as_secs_f64()));
        if let Some((_, sig, msg, tape)) = failure {
            return finish_failure(self, sig, msg, tape, std::env::var("PV_BUDGET").ok().and_then(|v| v.parse().ok()).unwrap_or(self.shrink_budget), cfg);
        }
        if let Some(e) = error {
            return Outcome::Errored(e);
        }
        Outcome::Held
    }
}

pub fn merge(a: &mut Stats, b: Stats) {
    a.cases += b.cases;
    a.evals += b.evals;
    a.keys.extend(b.keys);
    for (k, v) in b.classes {
        *a.classes.entry(k).or_insert(0) += v;
    }
    for (k, v) in b.discards {
        *a.discards.entry(k).or_insert(0) += v;
    }
    for (k, v) in b.known_hits {
        *a.known_hits.entry(k).or_insert(0) += v;
    }
    a.samples.extend(b.samples);
}

pub fn finish_failure(s: &dyn Suite, sig: String, msg: String, tape: Vec<u32>, budget: usize, cfg: &Cfg) -> Outcome {
    let (mut sig, mut msg) = (sig, msg);
    let t0 = Instant::now();
    // confirm first: a failure that does not reproduce is not reported
    let mut ctx = Ctx { thorough: cfg.thorough, ..Ctx::default() };
    match try_one(s, if s.flaky() { 20 } else { 3 }, &tape, &mut ctx).0 {
        Err(Stop::Fail { .. }) => (),
        _ if s.flaky() => return Outcome::Failed(Failure { suite: s.name().to_string(), sig, msg: format!("(seen once, not in 20 further runs) {msg}"), tape, fresh: None, shown: String::new() }),
        Err(Stop::Error(e)) => return Outcome::Errored(format!("failure {sig} ({msg}) not confirmed: {e}")),
        _ => return Outcome::Errored(format!("failure {sig} ({msg}) did not reproduce")),
    }
    let is_known = |g: &str| cfg.known.iter().any(|(k, _)| k == g);
    let best = Mutex::new((tape.clone(), msg.clone()));
    let stuck = || {
        let (tape, msg) = best.lock().unwrap().clone();
        leave(cfg, Failure { suite: s.name().to_string(), sig: sig.clone(), msg: format!("{msg} (not shrunk further, for that leads to cases that do not end)"), tape, fresh: None, shown: String::new() }, s.name(), 1);
    };
    let small = guarded(stuck, || shrink(tape.clone(), budget, |t| {
        if t0.elapsed().as_secs() > 120 {
            return None;
        }
        let mut ctx = Ctx { thorough: cfg.thorough, ..Ctx::default() };
        match try_one(s, if s.flaky() { 4 } else { 1 }, t, &mut ctx) {
            (Err(Stop::Fail { sig: g, msg: m }), used) if g == sig && !is_known(&g) => {
                *best.lock().unwrap() = (used.clone(), m);
                Some(used)
            }
            _ => None,
        }
    }));
    let mut ctx = Ctx { thorough: cfg.thorough, want_show: true, ..Ctx::default() };
    let (r, _) = try_one(s, if s.flaky() { 20 } else { 3 }, &small, &mut ctx);
    if let Err(Stop::Fail { sig: g, msg: m }) = r {
        sig = g;
        msg = m;
    }
    Outcome::Failed(Failure { suite: s.name().to_string(), sig, msg, tape: small, fresh: None, shown: ctx.shown.unwrap_or_default() })
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub suites: Vec<Box<dyn Suite>>,
}

fn report(cfg: &Cfg, f: &Failure, root: &Path) {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", cfg.property, f.suite.replace(' ', "_")));
    let j = J::obj(vec![
        ("property", J::s(cfg.property.clone())),
        ("suite", J::s(f.suite.clone())),
        ("signature", J::s(f.sig.clone())),
        ("message", J::s(f.msg.clone())),
        ("seed", J::Int(cfg.seed as i64)),
        ("tape", J::Arr(f.tape.iter().map(|v| J::Int(*v as i64)).collect())),
        ("case_seed", J::s(f.fresh.map_or(String::new(), |v| v.to_string()))),
        ("case", J::s(f.shown.clone())),
    ]);
    if let Err(e) = std::fs::write(&path, j.render() + "\n") {
        eprintln!("cannot write replay: {e}");
    }
    println!("{}: {} [{}]\n{}", f.suite, f.msg, f.sig, f.shown);
    println!("VIOLATION property={} replay={}", cfg.property, path.display());
}

/// Reports a failure and ends the process, whatever its other threads do.
fn leave(cfg: &Cfg, f: Failure, suite: &str, cases: u64) {
    let root = PathBuf::from(std::env::var("PV_ROOT").unwrap_or_else(|_| ".".into()));
    let coverage = J::obj(vec![
        ("evaluations", J::Int(cases.max(1) as i64)),
        ("distinct_nontrivial", J::Int(1)),
        ("rule", J::s(format!("The run ended early in suite {suite}, on a case that does not end; only cases begun are counted."))),
        ("samples", J::Arr(vec![J::s(f.shown.chars().take(1500).collect::<String>())])),
    ]);
    let ev = J::obj(vec![
        ("property", J::s(cfg.property.clone())),
        ("tier", J::s(if cfg.thorough { "thorough" } else { "quick" })),
        ("seed", J::Int(cfg.seed as i64)),
        ("level", J::s("exploration")),
        ("coverage", coverage),
        ("assumptions", J::Arr(vec![])),
        ("wall_s", J::Num(now() as f64 / 1000.0)),
        ("violations", J::Int(1)),
    ]);
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::write(root.join("evidence").join(format!("{}.json", cfg.property)), ev.render() + "\n");
    report(cfg, &f, &root);
    remove_scratch();
    std::process::exit(1);
}

pub fn run_prop(p: &Prop, cfg: &Cfg, root: &Path) -> i32 {
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let mut failure = None;
    let mut error = None;
    let cfg = &Cfg { time: cfg.time / p.suites.len() as f64, ..cfg.clone() };
    for s in &p.suites {
        if let Some(o) = &cfg.only
            && s.name() != o
        {
            continue;
        }
        match s.run(cfg, &mut stats) {
            Outcome::Held => (),
            Outcome::Failed(f) => {
                failure = Some(f);
                break;
            }
            Outcome::Errored(e) => {
                error = Some(e);
                break;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    for (name, cases, evals, secs) in &stats.per_suite {
        println!("suite {name}: {cases} cases, {evals} evaluations, {secs:.1} s");
    }
    if std::env::var("PV_VERBOSE").is_ok() {
        println!("classes: {:?}", stats.classes);
        println!("discards: {:?}", stats.discards);
        for s in &stats.samples {
            println!("sample [{}]: {}", s.0, s.1);
        }
    }
    let cut = |s: &str| -> String { if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s.to_string() } };
    let mut samples: Vec<J> = vec![];
    let mut per: BTreeMap<&str, usize> = BTreeMap::new();
    for (su, s) in &stats.samples {
        let n = per.entry(su).or_insert(0);
        *n += 1;
        if *n <= 3 {
            samples.push(J::obj(vec![("suite", J::s(su.clone())), ("case", J::s(cut(s)))]));
        }
    }
    if samples.is_empty()
        && let Some(f) = &failure
    {
        samples.push(J::s(cut(&f.shown)));
    }
    let cmap = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect());
    let coverage = J::obj(vec![
        ("evaluations", J::Int(stats.evals as i64)),
        ("distinct_nontrivial", J::Int(stats.keys.len() as i64)),
        ("rule", J::s(p.rule)),
        ("samples", J::Arr(samples)),
        ("cases", J::Int(stats.cases as i64)),
        ("classes", cmap(&stats.classes)),
        ("discarded", cmap(&stats.discards)),
        ("known_finding_hits", cmap(&stats.known_hits)),
        (
            "suites",
            J::Arr(stats.per_suite.iter().map(|(n, c, e, s)| J::obj(vec![("name", J::s(n.clone())), ("cases", J::Int(*c as i64)), ("evaluations", J::Int(*e as i64)), ("seconds", J::Num(*s))])).collect()),
        ),
    ]);
    let ev = J::obj(vec![
        ("property", J::s(p.id)),
        ("tier", J::s(if cfg.thorough { "thorough" } else { "quick" })),
        ("seed", J::Int(cfg.seed as i64)),
        ("level", J::s("exploration")),
        ("coverage", coverage),
        ("assumptions", J::Arr(p.assumptions.iter().map(|s| J::s(*s)).collect())),
        ("wall_s", J::Num(wall)),
        ("violations", J::Int(failure.is_some() as i64)),
    ]);
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", p.id)), ev.render() + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    for (sig, desc) in &cfg.known {
        println!("KNOWN-FINDING: property={} {} [{}; met {} times in this run]", p.id, desc, sig, stats.known_hits.get(sig).copied().unwrap_or(0));
    }
    if let Some(f) = failure {
        report(cfg, &f, root);
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR property={} {e}", p.id);
        return 3;
    }
    println!("HELD property={} {} evaluations, {} distinct non-trivial, {:.1} s", p.id, stats.evals, stats.keys.len(), wall);
    0
}

pub fn replay(p: &Prop, file: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {}", file.display());
        return 3;
    };
    let Ok(j) = J::parse(&text) else {
        eprintln!("cannot parse {}", file.display());
        return 3;
    };
    let suite = j.get("suite").and_then(|s| s.str()).unwrap_or("");
    let tape: Vec<u32> = j.get("tape").map(|t| t.arr().iter().filter_map(|v| v.int()).map(|v| v as u32).collect()).unwrap_or_default();
    for s in &p.suites {
        if s.name() == suite {
            let mut ctx = Ctx { want_show: true, ..Ctx::default() };
            let seed: Option<u64> = j.get("case_seed").and_then(|s| s.str()).and_then(|s| s.parse().ok());
            let stuck = || {
                println!("does not end\nVIOLATION property={} replay={}", p.id, file.display());
                remove_scratch();
                std::process::exit(1);
            };
            let (r, _) = guarded(stuck, || match seed {
                Some(n) => s.from_seed(n, &mut ctx),
                None => try_one(&**s, if s.flaky() { 20 } else { 3 }, &tape, &mut ctx),
            });
            println!("{}", ctx.shown.clone().unwrap_or_default());
            return match r {
                Ok(()) => {
                    println!("the case passes");
                    0
                }
                Err(Stop::Discard(w)) => {
                    println!("discarded: {w}");
                    0
                }
                Err(Stop::Fail { sig, msg }) => {
                    println!("{msg} [{sig}]\nVIOLATION property={} replay={}", p.id, file.display());
                    1
                }
                Err(Stop::Error(e)) => {
                    eprintln!("ERROR {e}");
                    3
                }
            };
        }
    }
    eprintln!("no suite {suite}");
    3
}
