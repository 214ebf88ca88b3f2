//! Seeded cooperative scheduler over real OS threads.
//!
//! Exactly one registered thread holds the baton and runs; the others are parked in a futex of their
//! own. A thread gives the baton away only at intercepted points: futex waits and wakes (all std
//! mutexes, condvars, channels, parking), sched_yield, thread creation and join, clock readings, file
//! operations, memory allocations and the explicit `point()` calls of the workloads. Who runs next is
//! decided by the seeded PRNG, or read from a recorded schedule.
use super::clock::{self, Shared};
use super::raw;
use super::rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const MAX_THREADS: usize = 64;
/// Marks a recorded decision about which futex waiter is woken.
const WAKE: u16 = 0x8000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Free,
    Runnable,
    Futex { addr: usize, mask: u32, deadline: u64 },
    Join(usize),
    Sleep { deadline: u64 },
    Exited,
}

struct Th {
    st: St,
    timed_out: bool,
    prio: u64,
    pthread: u64,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Policy {
    /// Preempt at random points (mean number of yield points between preemptions), pick uniformly.
    Uniform { mean: f64, p_sync: f64 },
    /// Random priorities, lowered at random change points (probabilistic concurrency testing).
    Prio { mean: f64, p_sync: f64 },
    /// Rotate at every synchronisation point and every `every` other points.
    RoundRobin { every: u64 },
    /// Never preempt; at a forced switch run the lowest numbered thread.
    Sequential,
    /// Follow a recorded schedule, otherwise as Sequential.
    Replay,
}

pub struct Sched {
    th: [Th; MAX_THREADS],
    n: usize,
    cur: usize,
    pub step: u64,
    next_event: u64,
    pub policy: Policy,
    rng: Rng,
    pub decisions: Vec<(u64, u16)>,
    replay_at: usize,
    pub recording: bool,
    pub max_steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub preempts: u64,
    pub forced: u64,
    pub contended: u64,
    pub threads_seen: usize,
}

const EMPTY: Th = Th { st: St::Free, timed_out: false, prio: 0, pthread: 0 };
static S: Shared<Sched> = Shared::new(Sched {
    th: [EMPTY; MAX_THREADS],
    n: 0,
    cur: 0,
    step: 0,
    next_event: u64::MAX,
    policy: Policy::Sequential,
    rng: Rng::new(0),
    decisions: Vec::new(),
    replay_at: 0,
    recording: true,
    max_steps: u64::MAX,
    switches: 0,
    hash: 0xcbf29ce484222325,
    preempts: 0,
    forced: 0,
    contended: 0,
    threads_seen: 0,
});
static WORDS: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ID: Cell<i32> = const { Cell::new(-1) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// Ends the process when the simulated program cannot go on (deadlock, step budget).
pub static ON_STUCK: Shared<Option<fn(&str) -> !>> = Shared::new(None);

fn stuck(why: &str) -> ! {
    if let Some(f) = *ON_STUCK.get() {
        f(why)
    }
    std::process::abort()
}

#[inline]
pub fn is_sim_thread() -> bool {
    ACTIVE.load(Ordering::Relaxed) && ID.with(|c| c.get()) >= 0
}

pub fn state() -> &'static mut Sched {
    S.get()
}

/// Makes the calling thread the first simulated thread and holder of the baton.
pub fn start(seed: u64, policy: Policy, replay: Vec<(u64, u16)>, max_steps: u64) {
    let s = S.get();
    s.n = 1;
    s.cur = 0;
    s.step = 0;
    s.rng = Rng::fork(seed, 0x5CED);
    s.policy = policy;
    s.decisions = replay;
    s.replay_at = 0;
    s.max_steps = max_steps;
    s.th[0].st = St::Runnable;
    s.th[0].prio = s.rng.next() >> 1;
    s.threads_seen = 1;
    ID.with(|c| c.set(0));
    s.plan_next();
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Stops simulating: the calling thread goes on alone (the others stay parked).
pub fn stop() {
    ACTIVE.store(false, Ordering::SeqCst);
    clock::CLOCK.get().active = false;
}

impl Sched {
    fn plan_next(&mut self) {
        self.next_event = match &self.policy {
            Policy::Uniform { mean, .. } | Policy::Prio { mean, .. } => {
                let m = *mean;
                self.step.saturating_add(self.rng.skip(m))
            }
            Policy::RoundRobin { every } => self.step.saturating_add((*every).max(1)),
            Policy::Sequential => u64::MAX,
            Policy::Replay => {
                while self.replay_at < self.decisions.len() && self.decisions[self.replay_at].0 <= self.step {
                    self.replay_at += 1;
                }
                self.decisions.get(self.replay_at).map(|d| d.0).unwrap_or(u64::MAX)
            }
        };
        if self.next_event > self.max_steps {
            self.next_event = self.max_steps;
        }
    }

    fn runnable(&self) -> ([u16; MAX_THREADS], usize) {
        let mut r = [0u16; MAX_THREADS];
        let mut k = 0;
        for i in 0..self.n {
            if self.th[i].st == St::Runnable {
                r[k] = i as u16;
                k += 1;
            }
        }
        (r, k)
    }

    /// Picks the thread to run next. `forced`: the current thread cannot go on.
    fn choose(&mut self, forced: bool, give_way: bool) -> usize {
        let (r, k) = self.runnable();
        if k == 0 {
            return usize::MAX;
        }
        let cur = self.cur;
        match &self.policy {
            Policy::Replay => {
                while self.replay_at < self.decisions.len() && self.decisions[self.replay_at].0 < self.step {
                    self.replay_at += 1;
                }
                if let Some(&(st, t)) = self.decisions.get(self.replay_at)
                    && st == self.step
                {
                    self.replay_at += 1;
                    if t & WAKE == 0 && (t as usize) < self.n && self.th[t as usize].st == St::Runnable {
                        return t as usize;
                    }
                }
                if forced || give_way { self.rotate(&r, k) } else { cur }
            }
            Policy::Sequential => {
                if forced || give_way { self.rotate(&r, k) } else { cur }
            }
            Policy::RoundRobin { .. } => self.rotate(&r, k),
            Policy::Uniform { .. } => {
                let mut c = r[self.rng.below(k as u64) as usize] as usize;
                if !forced && c == cur && k > 1 {
                    c = r[self.rng.below(k as u64) as usize] as usize;
                }
                c
            }
            Policy::Prio { .. } => {
                if !forced {
                    // Change point or voluntary yield: the current thread falls behind all others.
                    let low = r[..k].iter().map(|&i| self.th[i as usize].prio).min().unwrap();
                    self.th[cur].prio = low.saturating_sub(1 + self.rng.below(4));
                }
                *r[..k].iter().max_by_key(|&&i| (self.th[i as usize].prio, i)).unwrap() as usize
            }
        }
    }

    fn rotate(&self, r: &[u16], k: usize) -> usize {
        for &i in &r[..k] {
            if i as usize > self.cur {
                return i as usize;
            }
        }
        r[0] as usize
    }
}

fn note(s: &mut Sched, to: usize, kind: u8) {
    if s.recording && s.policy != Policy::Replay {
        s.decisions.push((s.step, to as u16));
    }
    s.hash = (s.hash ^ (((s.cur as u64) << 24) | ((to as u64) << 8) | kind as u64)).wrapping_mul(0x100000001b3);
}

fn hand_over(s: &mut Sched, to: usize) {
    let me = s.cur;
    s.switches += 1;
    s.cur = to;
    WORDS[to].store(1, Ordering::Release);
    raw::futex_wake(WORDS[to].as_ptr());
    if s.th[me].st != St::Exited {
        wait_baton(me);
    }
}

fn wait_baton(me: usize) {
    while WORDS[me].load(Ordering::Acquire) == 0 {
        raw::futex_wait(WORDS[me].as_ptr(), 0);
    }
    WORDS[me].store(0, Ordering::Relaxed);
}

/// The current thread is blocked (its state says on what): run others until it is runnable again.
fn block(s: &mut Sched) {
    s.forced += 1;
    loop {
        let to = s.choose(true, true);
        if to == usize::MAX {
            // Nothing is runnable: jump the clock to the next deadline.
            let mut best: Option<(u64, usize)> = None;
            for i in 0..s.n {
                let d = match s.th[i].st {
                    St::Futex { deadline, .. } | St::Sleep { deadline } => deadline,
                    _ => u64::MAX,
                };
                if d != u64::MAX && best.is_none_or(|b| d < b.0) {
                    best = Some((d, i));
                }
            }
            match best {
                None => stuck("deadlock: every thread is blocked"),
                Some((d, i)) => {
                    let c = clock::CLOCK.get();
                    c.mono_ns = c.mono_ns.max(d);
                    s.th[i].timed_out = true;
                    s.th[i].st = St::Runnable;
                    continue;
                }
            }
        }
        s.step += 1;
        note(s, to, 1);
        s.plan_next();
        if to == s.cur {
            return;
        }
        hand_over(s, to);
        return;
    }
}

/// A possible preemption point that is not a synchronisation operation.
#[inline]
pub fn point() {
    if !ACTIVE.load(Ordering::Relaxed) || ID.with(|c| c.get()) < 0 || BUSY.with(|c| c.get()) {
        return;
    }
    let s = S.get();
    s.step += 1;
    if s.step >= s.next_event {
        preempt(s, false);
    }
}

#[cold]
fn preempt(s: &mut Sched, give_way: bool) {
    BUSY.with(|c| c.set(true));
    if s.step >= s.max_steps {
        stuck("step budget exhausted: no progress");
    }
    let to = s.choose(false, give_way);
    note(s, to, 0);
    s.plan_next();
    BUSY.with(|c| c.set(false));
    if to != s.cur {
        s.preempts += 1;
        hand_over(s, to);
    }
}

/// A synchronisation point (futex wake, thread creation, sched_yield...).
pub fn sync_point(give_way: bool) {
    if !is_sim_thread() || BUSY.with(|c| c.get()) {
        return;
    }
    let s = S.get();
    s.step += 1;
    let go = give_way
        || s.step >= s.next_event
        || match &s.policy {
            Policy::Uniform { p_sync, .. } | Policy::Prio { p_sync, .. } => {
                let p = *p_sync;
                s.rng.chance(p)
            }
            Policy::RoundRobin { .. } => true,
            _ => false,
        };
    if go {
        preempt(s, give_way);
    }
}

/// Returns 0, or an errno.
pub fn futex_wait(addr: *const u32, val: u32, mask: u32, deadline: u64) -> i32 {
    let s = S.get();
    sync_point(false);
    let a = unsafe { &*(addr as *const AtomicU32) };
    if a.load(Ordering::SeqCst) != val {
        return libc::EAGAIN;
    }
    s.contended += 1;
    BUSY.with(|c| c.set(true));
    let me = s.cur;
    s.th[me].timed_out = false;
    s.th[me].st = St::Futex { addr: addr as usize, mask, deadline };
    block(s);
    BUSY.with(|c| c.set(false));
    if s.th[me].timed_out {
        s.th[me].timed_out = false;
        return libc::ETIMEDOUT;
    }
    0
}

pub fn futex_wake(addr: *const u32, max: u32, mask: u32) -> isize {
    let s = S.get();
    let mut woken = 0u32;
    while woken < max {
        let mut w = [0usize; MAX_THREADS];
        let mut k = 0;
        for i in 0..s.n {
            if let St::Futex { addr: a, mask: m, .. } = s.th[i].st
                && a == addr as usize
                && m & mask != 0
            {
                w[k] = i;
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        // Which waiter wakes first is a scheduling decision too (recorded when it is not the first).
        let mut pick = w[0];
        if k > 1 {
            s.step += 1;
            match s.policy {
                Policy::Sequential => {}
                Policy::Replay => {
                    while s.replay_at < s.decisions.len() && s.decisions[s.replay_at].0 < s.step {
                        s.replay_at += 1;
                    }
                    if let Some(&(st, t)) = s.decisions.get(s.replay_at)
                        && st == s.step
                    {
                        s.replay_at += 1;
                        if t & WAKE != 0 && w[..k].contains(&((t & !WAKE) as usize)) {
                            pick = (t & !WAKE) as usize;
                        }
                    }
                    s.plan_next();
                }
                _ => {
                    pick = w[s.rng.below(k as u64) as usize];
                    if pick != w[0] && s.recording {
                        // The push may allocate, which must not be a preemption point here.
                        let busy = BUSY.with(|c| c.replace(true));
                        s.decisions.push((s.step, pick as u16 | WAKE));
                        BUSY.with(|c| c.set(busy));
                    }
                }
            }
        }
        s.th[pick].st = St::Runnable;
        woken += 1;
    }
    sync_point(false);
    woken as isize
}

pub fn sleep_until(deadline: u64) {
    let s = S.get();
    BUSY.with(|c| c.set(true));
    let me = s.cur;
    s.th[me].st = St::Sleep { deadline };
    block(s);
    BUSY.with(|c| c.set(false));
}

// ---- threads -----------------------------------------------------------------------------------

/// Registers a thread about to be created; returns its slot.
pub fn new_slot() -> usize {
    let s = S.get();
    if s.n >= MAX_THREADS {
        stuck("too many simulated threads");
    }
    let i = s.n;
    s.n += 1;
    s.threads_seen += 1;
    s.th[i].st = St::Runnable;
    s.th[i].prio = s.rng.next() >> 1;
    WORDS[i].store(0, Ordering::Relaxed);
    i
}

pub fn set_pthread(slot: usize, p: u64) {
    S.get().th[slot].pthread = p;
}

pub fn enter(slot: usize) {
    wait_baton(slot);
    ID.with(|c| c.set(slot as i32));
}

pub fn leave() {
    let s = S.get();
    let me = s.cur;
    ID.with(|c| c.set(-1));
    s.th[me].st = St::Exited;
    for i in 0..s.n {
        if s.th[i].st == St::Join(me) {
            s.th[i].st = St::Runnable;
        }
    }
    block(s);
}

/// Blocks until the thread has left the simulation; false when it is not a simulated thread.
pub fn join(pthread: u64) -> bool {
    let s = S.get();
    let Some(t) = (0..s.n).rev().find(|&i| s.th[i].pthread == pthread && s.th[i].st != St::Free) else {
        return false;
    };
    if s.th[t].st != St::Exited {
        BUSY.with(|c| c.set(true));
        let me = s.cur;
        s.th[me].st = St::Join(t);
        block(s);
        BUSY.with(|c| c.set(false));
    }
    true
}
