//! Virtual clocks. While a simulated run is active, CLOCK_MONOTONIC starts at a seeded value and
//! advances by a seeded amount at each reading; CLOCK_REALTIME may also jump forward or backward.
use super::rng::Rng;
use super::sched;
use std::cell::UnsafeCell;

pub struct ClockState {
    pub active: bool,
    pub mono_ns: u64,
    pub real_off_ns: i128,
    pub max_tick_ns: u64,
    pub jump_prob: f64,
    pub rng: Rng,
    pub readings: u64,
    pub jumps: u64,
    pub stalls: u64,
    /// The latest wall clock readings handed out, in seconds since 1970.
    pub wall: [i64; 64],
    pub walls: usize,
}
pub struct Shared<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub const fn new(t: T) -> Self {
        Shared(UnsafeCell::new(t))
    }
    /// Only the thread that holds the scheduler's baton (or the only thread) may call this.
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

pub static CLOCK: Shared<ClockState> = Shared::new(ClockState {
    active: false,
    mono_ns: 0,
    real_off_ns: 0,
    max_tick_ns: 1000,
    jump_prob: 0.0,
    rng: Rng::new(0),
    readings: 0,
    jumps: 0,
    stalls: 0,
    wall: [0; 64],
    walls: 0,
});

/// Starts the virtual clocks; `jump_prob` is the chance that a reading of the wall clock meets a jump.
pub fn start(seed: u64, jump_prob: f64, max_tick_ns: u64) {
    let c = CLOCK.get();
    c.rng = Rng::fork(seed, 0xC10C);
    c.mono_ns = 1_000_000_000 + c.rng.below(1 << 50);
    // Somewhere between 1990 and 2060.
    c.real_off_ns = (631_152_000 + c.rng.below(2_208_988_800) as i128) * 1_000_000_000;
    c.jump_prob = jump_prob;
    c.max_tick_ns = max_tick_ns;
    c.readings = 0;
    c.jumps = 0;
    c.stalls = 0;
    c.active = true;
}

pub fn now_mono() -> u64 {
    CLOCK.get().mono_ns
}

/// Returns the simulated reading, or None to use the real clock.
pub fn read(clk: i32) -> Option<(i64, i64)> {
    if !sched::is_sim_thread() {
        return None;
    }
    let c = CLOCK.get();
    if !c.active {
        return None;
    }
    c.readings += 1;
    c.mono_ns += 1 + c.rng.below(c.max_tick_ns.max(1));
    if c.jump_prob > 0.0 && c.rng.chance(c.jump_prob * 0.2) {
        // The process was stalled for up to ten minutes.
        c.stalls += 1;
        c.mono_ns += c.rng.below(600_000_000_000);
    }
    let ns: i128 = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => {
            if c.jump_prob > 0.0 && c.rng.chance(c.jump_prob) {
                c.jumps += 1;
                // Jumps of up to +-10 days, or a few milliseconds.
                let span: i128 = if c.rng.chance(0.5) { 864_000_000_000_000 } else { 5_000_000 };
                let d = c.rng.below(2 * span as u64 + 1) as i128 - span;
                c.real_off_ns = (c.real_off_ns + d).max(0);
            }
            let w = c.mono_ns as i128 + c.real_off_ns;
            c.wall[c.walls % 64] = (w / 1_000_000_000) as i64;
            c.walls += 1;
            w
        }
        _ => c.mono_ns as i128,
    };
    Some(((ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as i64))
}
