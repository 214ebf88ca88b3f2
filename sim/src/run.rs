//! Runs one simulated execution in a forked child, and the campaign over many seeds.
use crate::rt::rng::Rng;
use crate::rt::sched::Policy;
use crate::rt::{clock, entropy, sched};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation: `class` is stable (used to match minimised runs and known findings).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub class: String,
    pub msg: String,
}
pub fn fail<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure_p {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { return Err($crate::run::Fail { class: $class.to_string(), msg: format!($($a)*) }); } };
}

/// What a simulated run records about itself.
#[derive(Default)]
pub struct Ctx {
    pub counts: BTreeMap<String, u64>,
    pub digest: u64,
    pub sim_s: f64,
    pub nontrivial: bool,
    pub threads: usize,
    pub seed: u64,
}
impl Ctx {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn dig(&mut self, v: u64) {
        self.digest = (self.digest ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    pub fn digf(&mut self, v: f64) {
        self.dig(v.to_bits());
    }
    pub fn digs(&mut self, v: &str) {
        for b in v.bytes() {
            self.dig(b as u64);
        }
    }
    pub fn disk(&mut self, d: &crate::rt::disk::Disk) {
        for (k, n) in &d.fired {
            self.add(&format!("fault:{k}"), *n);
        }
    }
}

pub type Outcome = Result<(), Fail>;

pub struct Prop {
    pub id: &'static str,
    /// Builds the scenario of run number `i` of the campaign.
    pub make: fn(&mut Rng, u64, Tier) -> Value,
    pub run: fn(&Value, &mut Ctx) -> Outcome,
    /// Number of runs for quick / thorough
    pub runs: (u64, u64),
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    /// Counters that must not stay at zero in a campaign (reach probes).
    pub must_hit: &'static [&'static str],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub property: String,
    pub seed: u64,
    pub threads: usize,
    pub policy: Policy,
    pub clock_jump: f64,
    #[serde(default)]
    pub verbose: bool,
    pub scenario: Value,
    #[serde(default)]
    pub decisions: Vec<(u64, u16)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Res {
    pub status: String, // pass | violation | invalid | error
    pub class: String,
    pub msg: String,
    pub counts: BTreeMap<String, u64>,
    pub digest: u64,
    pub sim_s: f64,
    pub nontrivial: bool,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub contended: u64,
    pub hash: u64,
    pub threads_seen: usize,
    pub decisions: Vec<(u64, u16)>,
}

/// A scenario that cannot be run (only met while minimising).
pub const INVALID: &str = "invalid-scenario";

pub fn draw_spec(p: &Prop, master: u64, i: u64, tier: Tier) -> Spec {
    let idh = p.id.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let seed = Rng::fork(master ^ idh.wrapping_mul(0x2545F4914F6CDD1D), i).next();
    let mut r = Rng::fork(seed, 1);
    let scenario = (p.make)(&mut r, i, tier);
    let mut r = Rng::fork(seed, 2);
    let threads = *r.pick(&[1usize, 2, 2, 3, 4, 4, 6, 8]);
    let mean = *r.pick(&[3.0, 10.0, 30.0, 100.0, 300.0, 1000.0, 10000.0, f64::INFINITY]);
    let mean = if mean.is_finite() { mean } else { 1e15 };
    let p_sync = *r.pick(&[0.02, 0.1, 0.3, 0.6, 0.9]);
    let policy = match r.below(10) {
        0..=4 => Policy::Uniform { mean, p_sync },
        5..=7 => Policy::Prio { mean, p_sync },
        8 => Policy::RoundRobin { every: *r.pick(&[1u64, 7, 50, 400]) },
        _ => Policy::Sequential,
    };
    let clock_jump = *r.pick(&[0.0, 0.0, 0.05, 0.5]);
    let verbose = r.chance(0.3);
    Spec { property: p.id.into(), seed, threads, policy, clock_jump, verbose, scenario, decisions: vec![] }
}

// ---- in the child --------------------------------------------------------------------------------
/// Formats every log record and drops it, so that the code in log statements runs too.
struct Sink;
static SINK: Sink = Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = format!("{}", r.args());
    }
    fn flush(&self) {}
}
static mut RESULT_FD: i32 = -1;
static PANIC_MSG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static CTX: clock::Shared<Option<Ctx>> = clock::Shared::new(None);

fn finish(mut r: Res) -> ! {
    sched::stop();
    let s = sched::state();
    if let Some(c) = CTX.get().take() {
        r.counts = c.counts;
        r.digest = c.digest;
        r.sim_s = c.sim_s;
        r.nontrivial = c.nontrivial;
    }
    let ck = clock::CLOCK.get();
    if ck.stalls > 0 {
        *r.counts.entry("fault:process_stall".into()).or_default() += ck.stalls;
    }
    if ck.jumps > 0 {
        *r.counts.entry("fault:clock_jump".into()).or_default() += ck.jumps;
    }
    r.steps = s.step;
    r.switches = s.switches;
    r.preempts = s.preempts;
    r.contended = s.contended;
    r.hash = s.hash;
    r.threads_seen = s.threads_seen;
    if r.status == "violation" {
        r.decisions = std::mem::take(&mut s.decisions);
    }
    let b = serde_json::to_vec(&r).unwrap();
    let mut off = 0;
    unsafe {
        while off < b.len() {
            let n = libc::write(RESULT_FD, b[off..].as_ptr() as *const _, b.len() - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        libc::_exit(0)
    }
}

fn on_stuck(why: &str) -> ! {
    finish(Res {
        status: "violation".into(),
        class: if why.starts_with("deadlock") { "deadlock".into() } else { "no-progress".into() },
        msg: why.to_string(),
        ..Default::default()
    })
}

fn child_main(p: &'static Prop, spec: Spec, fd: i32, scratch: String) -> ! {
    unsafe {
        RESULT_FD = fd;
        let lim = libc::rlimit { rlim_cur: 40, rlim_max: 45 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        std::env::set_var("RAYON_NUM_THREADS", spec.threads.to_string());
        // Files are named relative to the scratch folder, so that no path depends on the process.
        std::env::set_current_dir(&scratch).expect("scratch folder");
    }
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut m) = PANIC_MSG.lock()
            && m.is_empty()
        {
            *m = format!("{i}");
        }
    }));
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            *CTX.get() = Some(Ctx { threads: spec.threads, seed: spec.seed, ..Default::default() });
            *sched::ON_STUCK.get() = Some(on_stuck);
            entropy::start(spec.seed);
            let _ = log::set_logger(&SINK);
            log::set_max_level(if spec.verbose { log::LevelFilter::Debug } else { log::LevelFilter::Off });
            let policy = if spec.decisions.is_empty() { spec.policy.clone() } else { Policy::Replay };
            sched::start(spec.seed, policy, spec.decisions.clone(), 200_000_000);
            clock::start(spec.seed, spec.clock_jump, 2000);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&spec.scenario, CTX.get().as_mut().unwrap())));
            sched::stop();
            let mut res = Res::default();
            match r {
                Ok(Ok(())) => res.status = "pass".into(),
                Ok(Err(f)) => {
                    res.status = if f.class == INVALID { "invalid" } else { "violation" }.into();
                    res.class = f.class;
                    res.msg = f.msg;
                }
                Err(_) => {
                    res.status = "violation".into();
                    let m = PANIC_MSG.lock().map(|m| m.clone()).unwrap_or_default();
                    res.class = format!("panic:{}", panic_site(&m));
                    res.msg = m;
                }
            }
            finish(res)
        })
        .expect("could not start the simulation thread");
    let _ = h.join();
    unsafe { libc::_exit(97) }
}

/// `panicked at nyx-core/src/x.rs:12:3:\nmsg` -> the file and the message, without line numbers.
pub fn panic_site(m: &str) -> String {
    let first = m.lines().next().unwrap_or("");
    let at = first.split("panicked at ").nth(1).unwrap_or(first);
    let mut it = at.split(':');
    let file = it.next().unwrap_or("");
    let file = file.rsplit("src/").next().unwrap_or(file);
    let msg: String = m.lines().nth(1).unwrap_or("").chars().take(60).collect();
    format!("{file}:{msg}")
}

/// Runs `f`, catching panics: Err(site: message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    if let Ok(mut m) = PANIC_MSG.lock() {
        m.clear();
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC_MSG.lock().map(|m| m.clone()).unwrap_or_default();
            Err(m)
        }
    }
}

// ---- in the parent -------------------------------------------------------------------------------
struct Slot {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    idx: usize,
    scratch: String,
}

fn launch(p: &'static Prop, spec: &Spec, idx: usize, root: &str) -> Slot {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
    }
    let scratch = format!("{root}/s{idx}");
    let _ = std::fs::create_dir_all(&scratch);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        child_main(p, spec.clone(), fds[1], scratch);
    }
    unsafe { libc::close(fds[1]) };
    Slot { pid, fd: fds[0], buf: vec![], idx, scratch }
}

fn reap(s: Slot) -> (usize, Res) {
    let mut st = 0;
    unsafe {
        libc::close(s.fd);
        libc::waitpid(s.pid, &mut st, 0);
    }
    let _ = std::fs::remove_dir_all(&s.scratch);
    let res = if let Ok(r) = serde_json::from_slice::<Res>(&s.buf) {
        r
    } else if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGKILL || sig == libc::SIGTERM {
            Res { status: "error".into(), msg: format!("child killed by signal {sig}"), ..Default::default() }
        } else {
            let class = if sig == libc::SIGXCPU { "no-progress".to_string() } else { format!("abort:signal{sig}") };
            Res { status: "violation".into(), class, msg: format!("the run ended by signal {sig}"), ..Default::default() }
        }
    } else {
        Res { status: "error".into(), msg: format!("child exit status {st:#x}, output of {} bytes", s.buf.len()), ..Default::default() }
    };
    (s.idx, res)
}

/// Runs the specs yielded by `next` on `workers` processes; calls `done` for each; stops asking when `next` returns None.
pub fn pool(p: &'static Prop, workers: usize, mut next: impl FnMut(usize) -> Option<Spec>, mut done: impl FnMut(usize, Spec, Res)) {
    let root = scratch_root();
    let mut live: Vec<(Slot, Spec)> = vec![];
    let mut idx = 0;
    let mut more = true;
    loop {
        while more && live.len() < workers {
            match next(idx) {
                Some(s) => {
                    live.push((launch(p, &s, idx, &root), s));
                    idx += 1;
                }
                None => more = false,
            }
        }
        if live.is_empty() {
            break;
        }
        let mut pf: Vec<libc::pollfd> = live.iter().map(|(s, _)| libc::pollfd { fd: s.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        let mut i = 0;
        let mut finished = vec![];
        while i < live.len() {
            if pf[i].revents != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { libc::read(live[i].0.fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n > 0 {
                    live[i].0.buf.extend_from_slice(&b[..n as usize]);
                } else {
                    finished.push(i);
                }
            }
            i += 1;
        }
        for i in finished.into_iter().rev() {
            let (s, spec) = live.remove(i);
            let (ix, r) = reap(s);
            done(ix, spec, r);
        }
    }
    let _ = std::fs::remove_dir(&root);
}

fn scratch_root() -> String {
    let base = std::env::var("NYXSIM_SCRATCH").unwrap_or_else(|_| "/tmp/nyxsim".into());
    // The path must not depend on the process: file names appear in recorded results.
    let r = format!("{base}/{}", std::process::id());
    std::fs::create_dir_all(&r).unwrap();
    r
}

pub fn run_one(p: &'static Prop, spec: &Spec) -> Res {
    let mut out = None;
    let mut s = Some(spec.clone());
    pool(p, 1, |_| s.take(), |_, _, r| out = Some(r));
    out.unwrap()
}

/// Runs the candidates in parallel and returns the first (in order) that satisfies `keep`.
fn first_that(p: &'static Prop, cands: Vec<Spec>, workers: usize, keep: impl Fn(&Res) -> bool) -> Option<(Spec, Res)> {
    for chunk in cands.chunks(workers) {
        let mut it = chunk.iter().cloned();
        let mut got: Vec<(usize, Spec, Res)> = vec![];
        pool(p, workers, |_| it.next(), |i, s, r| got.push((i, s, r)));
        got.sort_by_key(|g| g.0);
        for (_, s, r) in got {
            if keep(&r) {
                return Some((s, r));
            }
        }
    }
    None
}

/// Smaller variants of a JSON scenario: arrays shortened, numbers shrunk, options dropped.
fn shrinks(v: &Value) -> Vec<Value> {
    fn rec(v: &Value, out: &mut Vec<Value>, put: &dyn Fn(Value) -> Value) {
        match v {
            Value::Array(a) => {
                let n = a.len();
                if n > 1 {
                    out.push(put(Value::Array(a[..n / 2].to_vec())));
                    out.push(put(Value::Array(a[n / 2..].to_vec())));
                }
                if n > 0 && n <= 24 {
                    for i in 0..n {
                        let mut b = a.clone();
                        b.remove(i);
                        out.push(put(Value::Array(b)));
                    }
                }
                for i in 0..n.min(24) {
                    rec(&a[i], out, &|x| {
                        let mut b = a.clone();
                        b[i] = x;
                        put(Value::Array(b))
                    });
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    if k.starts_with('_') {
                        continue;
                    }
                    rec(x, out, &|y| {
                        let mut b = o.clone();
                        b.insert(k.clone(), y);
                        put(Value::Object(b))
                    });
                }
            }
            Value::Number(n) => {
                if let Some(u) = n.as_u64() {
                    for c in [0, 1, 2, u / 2, u.saturating_sub(1)] {
                        if c < u {
                            out.push(put(json!(c)));
                        }
                    }
                } else if let Some(i) = n.as_i64() {
                    out.push(put(json!(i / 2)));
                    out.push(put(json!(0)));
                }
            }
            Value::Bool(true) => out.push(put(Value::Bool(false))),
            _ => {}
        }
    }
    let mut out = vec![];
    rec(v, &mut out, &|x| x);
    out.dedup();
    out
}

fn minimise(p: &'static Prop, spec: Spec, res: Res, workers: usize, budget_s: f64) -> (Spec, Res) {
    let t0 = Instant::now();
    let class = res.class.clone();
    let same = |r: &Res| r.status == "violation" && r.class == class;
    let (mut best, mut bres) = (spec, res);
    best.decisions.clear();
    // 1. The simplest schedule that still fails.
    let mut c = vec![];
    for (threads, policy) in [(1, Policy::Sequential), (2, Policy::Sequential), (2, best.policy.clone()), (best.threads, Policy::Sequential)] {
        c.push(Spec { threads, policy, ..best.clone() });
    }
    c.push(Spec { clock_jump: 0.0, ..best.clone() });
    if let Some((s, r)) = first_that(p, c, workers, same) {
        (best, bres) = (s, r);
    }
    // 2. The smallest scenario.
    'outer: while t0.elapsed().as_secs_f64() < budget_s * 0.6 {
        let cands: Vec<Spec> = shrinks(&best.scenario).into_iter().map(|v| Spec { scenario: v, ..best.clone() }).collect();
        for ch in cands.chunks(workers * 4) {
            if t0.elapsed().as_secs_f64() > budget_s * 0.6 {
                break 'outer;
            }
            if let Some((s, r)) = first_that(p, ch.to_vec(), workers, same) {
                (best, bres) = (s, r);
                continue 'outer;
            }
        }
        break;
    }
    // 3. The shortest schedule: keep only the decisions that matter.
    if !bres.decisions.is_empty() {
        let full = Spec { decisions: bres.decisions.clone(), ..best.clone() };
        let r = run_one(p, &full);
        if same(&r) {
            best = full;
            bres = r;
            let mut n = 2usize;
            while best.decisions.len() > 1 && t0.elapsed().as_secs_f64() < budget_s {
                let len = best.decisions.len();
                let sz = len.div_ceil(n);
                let mut cands = vec![];
                for k in 0..n {
                    let (a, b) = ((k * sz).min(len), ((k + 1) * sz).min(len));
                    if a < b && b - a < len {
                        let mut d = best.decisions.clone();
                        d.drain(a..b);
                        cands.push(Spec { decisions: d, ..best.clone() });
                    }
                }
                match first_that(p, cands, workers, same) {
                    Some((s, r)) => {
                        best = s;
                        bres = r;
                        n = n.saturating_sub(1).max(2);
                    }
                    None if n >= len => break,
                    None => n = (n * 2).min(len),
                }
            }
        }
    }
    bres.decisions.clear();
    (best, bres)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub master_seed: u64,
    pub spec: Spec,
}

#[derive(Deserialize, Default)]
pub struct KnownFile {
    #[serde(default)]
    pub known: Vec<Known>,
}
#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub what: String,
}

pub struct Report {
    pub exit: i32,
}

pub fn campaign(p: &'static Prop, tier: Tier, master: u64, out_dir: &str, runs_override: Option<u64>, cap_s: f64) -> Report {
    let t0 = Instant::now();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    let total = runs_override.unwrap_or(if tier == Tier::Quick { p.runs.0 } else { p.runs.1 });
    println!("property={} tier={tier:?} VERIF_SEED={master} planned_runs={total} workers={workers}", p.id);
    let known: KnownFile = std::fs::read_to_string(format!("{out_dir}/known_findings.json"))
        .ok()
        .map(|s| serde_json::from_str(&s).expect("known_findings.json"))
        .unwrap_or_default();
    let known: Vec<Known> = known.known.into_iter().filter(|k| k.property == p.id).collect();

    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut steps, mut switches, mut preempts, mut contended, mut sim_s) = (0u64, 0u64, 0u64, 0u64, 0u64, 0f64);
    let mut inter: BTreeSet<u64> = BTreeSet::new();
    let mut inter_nt: BTreeSet<u64> = BTreeSet::new();
    let mut digests: BTreeSet<u64> = BTreeSet::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut by_threads: BTreeMap<usize, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut first_bad: Option<(u64, Spec, Res)> = None;
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    let stop = std::cell::Cell::new(false);
    let mut rechecks: Vec<(Spec, u64, u64, u64)> = vec![];

    pool(
        p,
        workers,
        |i| {
            if i as u64 >= total || stop.get() || t0.elapsed().as_secs_f64() > cap_s {
                None
            } else {
                Some(draw_spec(p, master, i as u64, tier))
            }
        },
        |i, spec, r| {
            done += 1;
            steps += r.steps;
            switches += r.switches;
            preempts += r.preempts;
            contended += r.contended;
            sim_s += r.sim_s;
            for (k, n) in &r.counts {
                *counts.entry(k.clone()).or_default() += n;
            }
            *by_threads.entry(spec.threads).or_default() += 1;
            inter.insert(r.hash);
            if r.nontrivial && r.switches > 0 {
                inter_nt.insert(r.hash);
            }
            digests.insert(r.digest);
            if r.nontrivial {
                let sh = serde_json::to_string(&spec.scenario).unwrap().bytes().fold(r.hash, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
                distinct.insert(sh);
            }
            match r.status.as_str() {
                "pass" => {
                    if i % 97 == 3 && rechecks.len() < 40 {
                        rechecks.push((spec.clone(), r.hash, r.digest, r.steps));
                    }
                    if samples.len() < 3 && r.nontrivial {
                        let mut s = serde_json::to_value(&spec).unwrap();
                        truncate(&mut s);
                        samples.push(json!({"run": i, "spec": s, "counts": r.counts, "switches": r.switches, "steps": r.steps}));
                    }
                }
                "violation" => {
                    if let Some(k) = known.iter().find(|k| r.class == k.class) {
                        let e = known_hits.entry(k.class.clone()).or_insert((0, k.what.clone()));
                        e.0 += 1;
                    } else if first_bad.as_ref().is_none_or(|b| (i as u64) < b.0) {
                        first_bad = Some((i as u64, spec, r));
                        stop.set(true);
                    }
                }
                _ => errors.push(format!("run {i} (seed {}): {} {}", spec.seed, r.status, r.msg)),
            }
        },
    );
    // Same seed, second execution in another process: everything recorded must agree.
    let mut replay_checked = 0;
    let mut diverged = vec![];
    if first_bad.is_none() {
        let specs: Vec<Spec> = rechecks.iter().map(|x| x.0.clone()).collect();
        let mut it = specs.into_iter();
        pool(p, workers, |_| it.next(), |i, s, r| {
            replay_checked += 1;
            let (_, h, d, st) = &rechecks[i];
            if r.status != "pass" || r.hash != *h || r.digest != *d || r.steps != *st {
                diverged.push(format!("seed {}: hash {:x}/{:x} digest {:x}/{:x} steps {}/{} {}", s.seed, h, r.hash, d, r.digest, st, r.steps, r.msg));
            }
        });
    }
    let wall_search = t0.elapsed().as_secs_f64();
    let mut exit = 0;
    for (c, (n, what)) in &known_hits {
        println!("KNOWN-FINDING: property={} {what} [{c}, met in {n} runs]", p.id);
    }
    let mut violation = Value::Null;
    if let Some((i, spec, res)) = first_bad {
        println!("run {i} seed {} violates: [{}] {}", spec.seed, res.class, res.msg);
        // A run that had to be killed is slow to repeat: simplify its schedule only.
        let budget = if res.msg.contains("signal") {
            1.0
        } else if tier == Tier::Quick {
            60.0
        } else {
            120.0
        };
        let (s, r) = minimise(p, spec, res, workers, budget);
        let dir = format!("{out_dir}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{:016x}.json", p.id, s.seed);
        let rp = Replay { property: p.id.into(), class: r.class.clone(), message: r.msg.clone(), master_seed: master, spec: s };
        std::fs::File::create(&path).unwrap().write_all(serde_json::to_string_pretty(&rp).unwrap().as_bytes()).unwrap();
        println!("minimised: [{}] {}", r.class, r.msg);
        println!("VIOLATION property={} replay={path}", p.id);
        violation = json!({"class": r.class, "message": r.msg, "replay": path});
        exit = 1;
    } else if !errors.is_empty() {
        for e in errors.iter().take(5) {
            println!("HARNESS-ERROR {e}");
        }
        exit = 2;
    } else if !diverged.is_empty() {
        for e in diverged.iter().take(5) {
            println!("HARNESS-ERROR a repeated run diverged: {e}");
        }
        exit = 2;
    }
    let missed: Vec<&str> = p.must_hit.iter().copied().filter(|k| counts.get(*k).copied().unwrap_or(0) == 0).collect();
    if exit == 0 && !missed.is_empty() && runs_override.is_none() {
        println!("note: probes never hit in this campaign: {missed:?}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| k.starts_with("fault:")).collect();
    let probes: BTreeMap<&String, &u64> = counts.iter().filter(|(k, _)| !k.starts_with("fault:")).collect();
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": master,
        "level": "exploration",
        "wall_s": wall,
        "violations": if exit == 1 { 1 } else { 0 },
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_per_hour": (done as f64 / wall_search.max(1e-9) * 3600.0).round(),
            "simulated_time_s": sim_s,
            "faults_injected": faults,
            "probes": probes,
            "probes_never_hit": missed,
            "distinct_interleavings": inter.len(),
            "distinct_interleavings_of_nontrivial_runs": inter_nt.len(),
            "interleaving_measure": "64-bit hash of the sequence of scheduling decisions (from thread, to thread, voluntary or forced) of a run",
            "distinct_result_digests": digests.len(),
            "yield_points": steps, "context_switches": switches, "preemptions": preempts, "futex_blocks": contended,
            "runs_by_virtual_thread_count": by_threads,
            "runs_repeated_for_determinism": replay_checked,
            "runs_diverged": diverged.len(),
            "known_findings_met": known_hits.iter().map(|(k, v)| json!({"class": k, "runs": v.0})).collect::<Vec<_>>(),
            "real_components": p.real,
            "stubbed_components": p.stub,
            "violation": violation,
        },
        "assumptions": [
            "sampled search: a clean campaign is evidence, not proof",
            "preemption happens at allocations, synchronisation, clock, file and workload-declared points, not between arbitrary instructions",
            "planetary constants and ephemerides are synthetic (the repository's kernels are Git-LFS pointers here)"
        ],
    });
    let dir = format!("{out_dir}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {done} runs, {} distinct non-trivial, {} interleavings, {switches} switches, {sim_s:.0} s simulated, {wall:.1} s wall, exit {exit}",
        p.id,
        distinct.len(),
        inter.len()
    );
    Report { exit }
}

fn truncate(v: &mut Value) {
    match v {
        Value::Array(a) => {
            if a.len() > 12 {
                a.truncate(12);
                a.push(json!("..."));
            }
            a.iter_mut().for_each(truncate);
        }
        Value::Object(o) => o.values_mut().for_each(truncate),
        _ => {}
    }
}
