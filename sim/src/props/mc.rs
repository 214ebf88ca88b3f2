//! Monte Carlo: P01 (every run, whatever the schedule), P02 (failed runs and reports), P03 (resume),
//! P04 (what a run's recorded dispersions mean).
use crate::{campaign, ensure_p, ran};
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, u};
use anise::analysis::event::{Condition, Event};
use anise::analysis::prelude::{OrbitalElement, ScalarExpr};
use hifitime::{Epoch, TimeUnits, Unit};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::dynamics::SpacecraftDynamics;
use nyx_space::mc::{DispersedState, MonteCarlo, MvnSpacecraft, StateDispersion};
use nyx_space::md::StateParameter;
use nyx_space::md::trajectory::Traj;
use nyx_space::propagators::{PropagationError, Propagator};
use rand_distr::Distribution;
use rand_pcg::Pcg64Mcg;
use serde_json::{Value, json};
use std::sync::mpsc::channel;

pub const PARAMS: &[StateParameter] = &[
    StateParameter::Element(OrbitalElement::X),
    StateParameter::Element(OrbitalElement::Y),
    StateParameter::Element(OrbitalElement::Z),
    StateParameter::Element(OrbitalElement::VX),
    StateParameter::Element(OrbitalElement::VY),
    StateParameter::Element(OrbitalElement::VZ),
    StateParameter::Element(OrbitalElement::SemiMajorAxis),
    StateParameter::Element(OrbitalElement::Inclination),
    StateParameter::Element(OrbitalElement::Rmag),
    StateParameter::Cr(),
    StateParameter::Cd(),
    StateParameter::PropMass(),
];

fn draw_disp(r: &mut Rng) -> Value {
    // Distinct parameters only: the same one twice (or two that say the same) has no inverse mapping.
    let mut ps: Vec<usize> = if r.chance(0.3) {
        vec![r.us(6, 8)]
    } else {
        let mut c = vec![0, 1, 2, 3, 4, 5];
        r.shuffle(&mut c);
        c.truncate(r.us(1, 4));
        c
    };
    for p in 9..12 {
        if r.chance(0.2) {
            ps.push(p);
        }
    }
    let v: Vec<Value> = ps
        .into_iter()
        .map(|p| {
            let s = match p {
                0..=2 => r.range(1, 50) * 1000,
                3..=5 => r.range(1, 20),
                6 | 8 => r.range(1, 30) * 1000,
                7 => r.range(1, 20),
                9 | 10 => r.range(1, 50),
                _ => r.range(1, 100),
            };
            // Standard deviations and means in thousandths
            json!({"p": p, "sd_m": s, "mean_m": if r.chance(0.25) { r.range(-3, 3) * s / 2 } else { 0 }})
        })
        .collect();
    json!(v)
}

pub fn draw_mc(r: &mut Rng, tier: Tier) -> Value {
    let mut sc = world::draw_sc(r);
    sc["peri"] = json!(r.range(7200, 9000));
    let mut d = world::draw_dyn(r);
    let peri = sc["peri"].as_f64().unwrap();
    // A state-dependent failure met by some of the runs: the threshold lies inside the spread.
    if r.chance(0.5) {
        let rmag = world::spacecraft(&sc).orbit.rmag_km();
        if r.chance(0.6) {
            d["fail_above"] = json!(rmag + r.uni(-20.0, 60.0));
        } else {
            d["fail_below"] = json!(rmag + r.uni(-60.0, 20.0));
        }
    }
    let _ = peri;
    let n = if r.chance(0.06) { r.us(0, 1) } else { r.us(2, if tier == Tier::Quick { 12 } else { 24 }) };
    let event = r.chance(0.3);
    json!({
        "sc": sc, "dyn": d, "prop": world::draw_prop(r), "disp": draw_disp(r), "n": n, "mcseed": r.below(1 << 40),
        "dur_s": if event { r.range(2000, 9000) } else if r.chance(0.15) { -r.range(60, 2400) } else { r.range(60, 2400) },
        "event": event, "trigger": r.range(1, 2), "skip": r.below(n as u64 + 3), "ref_first": r.chance(0.5), "twice": r.chance(0.4),
    })
}

fn generator(v: &Value) -> Result<MvnSpacecraft, Fail> {
    let mut sc = world::spacecraft(&v["sc"]);
    sc.stm = None;
    let disp: Vec<StateDispersion> = v["disp"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|d| StateDispersion::builder().param(PARAMS[u(d, "p") as usize % PARAMS.len()]).std_dev(f(d, "sd_m") * 1e-3).mean(f(d, "mean_m") * 1e-3).build())
        .collect();
    if disp.is_empty() {
        return fail(INVALID, "no dispersion");
    }
    if (0..disp.len()).any(|k| (0..k).any(|l| disp[k].param == disp[l].param)) {
        return fail(INVALID, "repeated parameter");
    }
    MvnSpacecraft::new(sc, disp).map_err(|e| Fail { class: "generator".into(), msg: format!("{e}") })
}

pub fn event() -> Event {
    Event::new(ScalarExpr::Element(OrbitalElement::Z), Condition::Equals(0.0))
}

pub struct Case {
    pub generator: MvnSpacecraft,
    pub prop: Propagator<SpacecraftDynamics>,
    pub seed: u128,
    pub n: usize,
    pub skip: usize,
    pub end: Epoch,
    pub v: Value,
}
pub fn case(v: &Value) -> Result<Case, Fail> {
    let g = generator(v)?;
    let start = g.template.orbit.epoch;
    Ok(Case {
        prop: world::propagator(&v["prop"], world::dynamics(&v["dyn"])),
        seed: (u(v, "mcseed") as u128) << 13 | 5,
        n: u(v, "n") as usize,
        skip: u(v, "skip") as usize,
        end: start + world::i(v, "dur_s").seconds(),
        generator: g,
        v: v.clone(),
    })
}
impl Case {
    pub fn mc(&self) -> MonteCarlo<Spacecraft, MvnSpacecraft> {
        MonteCarlo::new(self.generator.template, self.generator.clone(), "sim".to_string(), Some(self.seed))
    }
    pub fn samples(&self, n: usize) -> Vec<DispersedState<Spacecraft>> {
        let mut rng = Pcg64Mcg::new(self.seed);
        (0..n).map(|_| self.generator.sample(&mut rng)).collect()
    }
    /// The same propagation on its own, without the Monte Carlo machinery.
    pub fn alone(&self, s: Spacecraft) -> Result<(Spacecraft, Traj<Spacecraft>), PropagationError> {
        let al = world::almanac();
        if b(&self.v, "event") {
            let dur = self.end - s.orbit.epoch;
            return self.prop.with(s, al).quiet().until_nth_event(dur, &event(), None, u(&self.v, "trigger").max(1) as usize);
        }
        let (tx, rx) = channel();
        let mut inst = self.prop.with(s, al).quiet();
        let end = inst.until_epoch_with_channel(self.end, tx)?;
        let mut states: Vec<Spacecraft> = std::iter::once(s).chain(rx.into_iter()).collect();
        states.sort_by_key(|s| s.orbit.epoch);
        states.dedup_by_key(|s| s.orbit.epoch);
        Ok((end, Traj { name: None, states }))
    }
}

/// One finished run, in types the harness can name.
pub struct Ran {
    pub index: usize,
    pub dispersed_state: DispersedState<Spacecraft>,
    pub result: Result<(Spacecraft, Traj<Spacecraft>), String>,
}
/// Runs the campaign (nyx's result type cannot be named outside of nyx, hence a macro).
#[macro_export]
macro_rules! campaign {
    ($c:expr, $skip:expr, $n:expr) => {{
        let mc = $c.mc();
        let al = $crate::world::almanac();
        let skip: Option<usize> = $skip;
        if $crate::world::b(&$c.v, "event") {
            let dur = $c.end - $c.generator.template.orbit.epoch;
            let tr = $crate::world::u(&$c.v, "trigger").max(1) as usize;
            match skip {
                None => mc.run_until_nth_event::<_, fn(nyx_space::Spacecraft) -> bool>($c.prop.clone(), al, dur, &$crate::props::mc::event(), tr, $n),
                Some(k) => mc.resume_run_until_nth_event($c.prop.clone(), al, k, dur, &$crate::props::mc::event(), tr, $n),
            }
        } else {
            match skip {
                None => mc.run_until_epoch($c.prop.clone(), al, $c.end, $n),
                Some(k) => mc.resume_run_until_epoch($c.prop.clone(), al, k, $c.end, $n),
            }
        }
    }};
}
#[macro_export]
macro_rules! ran {
    ($res:expr) => {
        $res.runs
            .iter()
            .map(|r| $crate::props::mc::Ran {
                index: r.index,
                dispersed_state: r.dispersed_state.clone(),
                result: r.result.as_ref().map(|p| (p.state, p.traj.clone())).map_err(|e| format!("{e}")),
            })
            .collect::<Vec<$crate::props::mc::Ran>>()
    };
}

type Alone = Result<(Spacecraft, Traj<Spacecraft>), PropagationError>;

fn compare(runs: &[Ran], want: &[DispersedState<Spacecraft>], alone: &[Alone], ctx: &mut Ctx) -> Outcome {
    ensure_p!(runs.len() == want.len(), "run-count", "{} runs asked, {} reported", want.len(), runs.len());
    for (i, run) in runs.iter().enumerate() {
        ensure_p!(run.index == i, "run-order", "position {i} holds run #{}", run.index);
        ensure_p!(
            world::same(&run.dispersed_state.state, &want[i].state),
            "run-sample",
            "run {i} started from {} and not from the {i}-th sample {}",
            world::show(&run.dispersed_state.state),
            world::show(&want[i].state)
        );
        ensure_p!(
            run.dispersed_state.actual_dispersions == want[i].actual_dispersions,
            "run-dispersions",
            "run {i}: dispersions {:?} instead of {:?}",
            run.dispersed_state.actual_dispersions,
            want[i].actual_dispersions
        );
        match (&run.result, &alone[i]) {
            (Ok(a), Ok(c)) => {
                ensure_p!(world::same(&a.0, &c.0), "run-result", "run {i} ended in {} but alone in {}", world::show(&a.0), world::show(&c.0));
                ensure_p!(
                    world::same_states(&a.1.states, &c.1.states),
                    "run-trajectory",
                    "run {i}: trajectory of {} states differs from the isolated one of {} states",
                    a.1.states.len(),
                    c.1.states.len()
                );
                world::dig_state(ctx, &a.0);
                ctx.sim_s += (a.1.last().orbit.epoch - a.1.first().orbit.epoch).to_seconds().abs();
            }
            (Err(a), Err(c)) => {
                ensure_p!(*a == format!("{c}"), "run-error", "run {i} failed with `{a}` but alone with `{c}`");
                ctx.hit("run failed in the dynamics");
            }
            (Ok(_), Err(e)) => return fail("run-result", format!("run {i} succeeded but fails alone: {e}")),
            (Err(e), Ok(_)) => return fail("run-result", format!("run {i} failed with `{e}` but succeeds alone")),
        }
    }
    let bad = alone.iter().filter(|a| a.is_err()).count();
    if bad > 0 && bad < alone.len() {
        ctx.hit("failed and successful runs mixed");
    }
    Ok(())
}

fn run_p01(v: &Value, ctx: &mut Ctx) -> Outcome {
    let c = case(v)?;
    let want = c.samples(c.n);
    let mut alone: Vec<Alone> = vec![];
    if b(v, "ref_first") {
        alone = want.iter().map(|s| c.alone(s.state)).collect();
    }
    let gen_states = c.mc().generate_states(0, c.n, Some(c.seed));
    ensure_p!(
        gen_states.len() == c.n && gen_states.iter().enumerate().all(|(i, (k, s))| *k == i && world::same(&s.state, &want[i].state)),
        "generate-states",
        "generate_states differs from the sequence of samples"
    );
    let res = ran!(campaign!(c, None, c.n));
    if alone.is_empty() {
        alone = want.iter().map(|s| c.alone(s.state)).collect();
    }
    compare(&res, &want, &alone, ctx)?;
    if b(v, "twice") {
        let res = ran!(campaign!(c, None, c.n));
        compare(&res, &want, &alone, ctx)?;
        ctx.hit("campaign repeated in one process");
    }
    ctx.nontrivial = c.n >= 2;
    ctx.hit(if b(v, "event") { "until nth event" } else { "until epoch" });
    Ok(())
}

pub static P01: Prop = Prop {
    id: "P01",
    make: |r, _, t| draw_mc(r, t),
    run: run_p01,
    runs: (900, 30000),
    rule: "a Monte Carlo campaign of 0 to 12 (24) runs with drawn orbit, dynamics, integrator, dispersions, failure threshold, thread count and scheduling policy; non-trivial when at least two runs; distinct by scenario and interleaving hash",
    real: &["nyx mc, propagators, dynamics, md::trajectory", "rayon and std threads, channels and locks (real code, scheduled by the simulator)", "rand, anise"],
    stub: &["planetary constants and ephemerides (synthetic)", "clocks and OS entropy (simulated)", "a zero-force acceleration model that offers preemption points and fails past a drawn radius"],
    must_hit: &["until epoch", "until nth event", "failed and successful runs mixed", "campaign repeated in one process"],
};

// ---- P02: failed runs and reports ------------------------------------------------------------------
fn run_p02(v: &Value, ctx: &mut Ctx) -> Outcome {
    let c = case(v)?;
    let res = campaign!(c, None, c.n);
    let fallback = if b(v, "fallback") { Some(-12345.678) } else { None };
    let params: Vec<StateParameter> = (0..3).map(|k| PARAMS[(u(v, "mcseed") as usize / (k * 7 + 1)) % PARAMS.len()]).collect();
    let extra = [StateParameter::Isp(), StateParameter::Thrust()];
    let step = (f(v, "step_s").max(7.0)) * Unit::Second;
    let start = c.generator.template.orbit.epoch.min(c.end);
    let (a, z) = (start + f(v, "from_s") * Unit::Second, start + (f(v, "from_s") + f(v, "span_s")) * Unit::Second);
    let (mut ok, mut bad) = (0, 0);
    for p in params.iter().chain(extra.iter()).copied() {
        let (mut first, mut last, mut every, mut between) = (vec![], vec![], vec![], vec![]);
        for run in &res.runs {
            match &run.result {
                Ok(r) => {
                    ok += 1;
                    let mut put = |o: &mut Vec<f64>, s: &Spacecraft| match s.value(p) {
                        Ok(x) => o.push(x),
                        Err(_) => {
                            ctx.hit("parameter not available in a state");
                            if let Some(x) = fallback {
                                o.push(x)
                            }
                        }
                    };
                    let st = &r.traj.states;
                    put(&mut first, &st[0]);
                    put(&mut last, &st[st.len() - 1]);
                    let (t0, t1) = (st[0].orbit.epoch, st[st.len() - 1].orbit.epoch);
                    let mut k = 0i64;
                    while t0 + step * k <= t1 {
                        let s = r.traj.at(t0 + step * k).map_err(|e| Fail { class: "interpolation".into(), msg: format!("{e}") })?;
                        put(&mut every, &s);
                        k += 1;
                    }
                    let (t0, t1) = (t0.max(a), t1.min(z));
                    let mut k = 0i64;
                    while t0 + step * k <= t1 {
                        let s = r.traj.at(t0 + step * k).map_err(|e| Fail { class: "interpolation".into(), msg: format!("{e}") })?;
                        put(&mut between, &s);
                        k += 1;
                    }
                }
                Err(_) => {
                    bad += 1;
                    if let Some(x) = fallback {
                        for o in [&mut first, &mut last, &mut every, &mut between] {
                            o.push(x);
                        }
                    }
                }
            }
        }
        let eq = |x: &Vec<f64>, y: &Vec<f64>| x.len() == y.len() && x.iter().zip(y).all(|(m, n)| m.to_bits() == n.to_bits());
        for (name, got, want) in [
            ("first_values_of", res.first_values_of(p, fallback), &first),
            ("last_values_of", res.last_values_of(p, fallback), &last),
            ("every_value_of", res.every_value_of(p, step, fallback), &every),
            ("every_value_of_between", res.every_value_of_between(p, step, a, z, fallback), &between),
        ] {
            ensure_p!(eq(&got, want), format!("report:{name}"), "{name}({p:?}) gives {} values {:?}... instead of {} {:?}...", got.len(), &got[..got.len().min(4)], want.len(), &want[..want.len().min(4)]);
            ctx.add("report values checked", got.len() as u64);
        }
    }
    for p in PARAMS.iter().copied() {
        let listed = c.generator.dispersions.iter().any(|d| d.param == p);
        match res.dispersion_values_of(p) {
            Ok(vals) => {
                ensure_p!(listed || res.runs.is_empty(), "report:dispersions", "{p:?} was not dispersed but reported");
                ensure_p!(vals.len() == res.runs.len(), "report:dispersions", "{} dispersions for {} runs", vals.len(), res.runs.len());
                for (i, (x, run)) in vals.iter().zip(&res.runs).enumerate() {
                    let delta = run.dispersed_state.state.value(p).unwrap() - c.generator.template.value(p).unwrap();
                    ensure_p!((x - delta).abs() <= 1e-9 * (1.0 + delta.abs()), "dispersion-sign", "run {i}: the dispersion of {p:?} is reported as {x} but the run started {delta} away from the template");
                }
            }
            Err(_) => ensure_p!(!listed, "report:dispersions", "{p:?} was dispersed but is not reported"),
        }
    }
    // Where each dispersed parameter is a component of the state, nothing else may have moved.
    let direct = |p: &StateParameter| (0..6).chain(9..12).any(|k| PARAMS[k] == *p);
    if c.generator.dispersions.iter().all(|d| direct(&d.param)) {
        for (i, run) in res.runs.iter().enumerate() {
            for p in (0..6).chain(9..12).map(|k| PARAMS[k]) {
                let delta = run.dispersed_state.state.value(p).unwrap() - c.generator.template.value(p).unwrap();
                match c.generator.dispersions.iter().find(|d| d.param == p) {
                    None => ensure_p!(delta.abs() < 1e-7, "dispersion-leak", "run {i}: {p:?} was not dispersed but moved by {delta}"),
                    Some(d) => {
                        let (m, s) = (d.mean.unwrap_or(0.0), d.std_dev.unwrap_or(0.0));
                        ensure_p!((delta - m).abs() <= 8.0 * s + 1e-7, "dispersion-size", "run {i}: {p:?} moved by {delta} with mean {m} and deviation {s}");
                        ensure_p!(s == 0.0 || delta != 0.0, "dispersion-missing", "run {i}: {p:?} was not dispersed");
                        ctx.hit("dispersion size checked");
                    }
                }
            }
        }
    }
    if ok > 0 && bad > 0 {
        ctx.nontrivial = true;
        ctx.hit("failed and successful runs mixed");
    }
    if ok == 0 && bad > 0 {
        ctx.hit("all runs failed");
    }
    Ok(())
}
pub static P02: Prop = Prop {
    id: "P02",
    make: |r, _, t| {
        let mut v = draw_mc(r, t);
        v["fallback"] = json!(r.chance(0.5));
        v["step_s"] = json!(r.range(20, 600));
        v["from_s"] = json!(r.range(-300, 1500));
        v["span_s"] = json!(r.range(0, 3000));
        if v["dyn"]["fail_above"].is_null() && v["dyn"]["fail_below"].is_null() && r.chance(0.7) {
            let rmag = world::spacecraft(&v["sc"]).orbit.rmag_km();
            v["dyn"]["fail_above"] = json!(rmag + r.uni(-20.0, 100.0));
        }
        v
    },
    run: run_p02,
    runs: (900, 30000),
    rule: "a Monte Carlo campaign in which the dynamics fail past a drawn radius, then every report function; non-trivial when failed and successful runs are mixed; distinct by scenario and interleaving hash",
    real: P01.real,
    stub: P01.stub,
    must_hit: &["failed and successful runs mixed", "all runs failed", "parameter not available in a state"],
};

// ---- P03: resume -------------------------------------------------------------------------------------
fn run_p03(v: &Value, ctx: &mut Ctx) -> Outcome {
    let c = case(v)?;
    let full = campaign!(c, None, c.n);
    let skip = c.skip.min(c.n + 4);
    // The first part of the campaign ran, the process died, the campaign is resumed for the rest (and more).
    let rest = (c.n + 2).saturating_sub(skip);
    let part = campaign!(c, Some(skip), rest);
    let all = c.samples(skip + rest);
    ensure_p!(part.runs.len() == rest, "resume-count", "{rest} runs asked, {} reported", part.runs.len());
    for (i, run) in part.runs.iter().enumerate() {
        ensure_p!(run.index == i, "resume-order", "position {i} holds run #{}", run.index);
        ensure_p!(
            world::same(&run.dispersed_state.state, &all[skip + i].state),
            "resume-sample",
            "resumed run {i} started from {} and not from sample {} {}",
            world::show(&run.dispersed_state.state),
            skip + i,
            world::show(&all[skip + i].state)
        );
        if let Some(orig) = full.runs.get(skip + i) {
            ctx.nontrivial = true;
            match (&run.result, &orig.result) {
                (Ok(a), Ok(c)) => {
                    ensure_p!(world::same(&a.state, &c.state) && world::same_states(&a.traj.states, &c.traj.states), "resume-result", "resumed run {i} differs from run {} of the full campaign", skip + i);
                    world::dig_state(ctx, &a.state);
                    ctx.sim_s += (a.traj.last().orbit.epoch - a.traj.first().orbit.epoch).to_seconds().abs();
                }
                (Err(a), Err(c)) => ensure_p!(format!("{a}") == format!("{c}"), "resume-result", "errors differ: {a} / {c}"),
                _ => return fail("resume-result", format!("resumed run {i} and run {} of the full campaign: one failed", skip + i)),
            }
        }
    }
    let g = c.mc().generate_states(skip, rest, Some(c.seed));
    ensure_p!(
        g.len() == rest && g.iter().enumerate().all(|(i, (k, s))| *k == i && world::same(&s.state, &all[skip + i].state)),
        "resume-generate",
        "generate_states with skip {skip} differs from the samples after {skip}"
    );
    ctx.hit(if skip == 0 { "skip nothing" } else if skip >= c.n { "skip everything" } else { "resume midway" });
    Ok(())
}
pub static P03: Prop = Prop {
    id: "P03",
    make: |r, _, t| draw_mc(r, t),
    run: run_p03,
    runs: (700, 25000),
    rule: "a full campaign and the same campaign stopped at a drawn run and resumed, each under its own interleaving; non-trivial when the resumed part overlaps the full one; distinct by scenario and interleaving hash",
    real: P01.real,
    stub: P01.stub,
    must_hit: &["resume midway", "skip everything"],
};
