//! Propagation: P04 (trajectories and histories of legs), P05 (streaming and shared propagators), P06 (events).
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::rt::sched;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use anise::analysis::event::{Condition, Event};
use anise::analysis::prelude::{OrbitalElement, ScalarExpr};
use hifitime::{Duration, Epoch, TimeUnits, Unit};
use nyx_space::{Spacecraft, State};
use nyx_space::dynamics::SpacecraftDynamics;
use nyx_space::md::trajectory::Traj;
use nyx_space::propagators::{IntegratorMethod, PropInstance, PropagationError, Propagator};
use serde_json::{Value, json};
use std::sync::mpsc::channel;

pub fn prop_of(v: &Value) -> Propagator<SpacecraftDynamics> {
    let mut p = world::propagator(&v["prop"], world::dynamics(&v["dyn"]));
    match u(v, "frame") {
        1 => p.opts.integration_frame = Some(world::moon_j2k()),
        2 => p.opts.integration_frame = Some(world::eme2k()),
        _ => {}
    }
    p
}
pub fn err(e: PropagationError) -> String {
    format!("{e}")
}

/// One leg driven through the plain channel interface of an instance, on the caller's thread.
fn leg_states(inst: &mut PropInstance<SpacecraftDynamics>, dur: Duration) -> Result<(Spacecraft, Vec<Spacecraft>), String> {
    let (tx, rx) = channel();
    let end = inst.for_duration_with_channel(dur, tx).map_err(err)?;
    Ok((end, rx.into_iter().collect()))
}

/// What every trajectory must satisfy, whatever built it.
pub fn check_traj(t: &Traj<Spacecraft>, start: &Spacecraft, end: &Spacecraft, probe: u64) -> Outcome {
    let s = &t.states;
    ensure_p!(!s.is_empty(), "traj-empty", "the trajectory is empty");
    for w in s.windows(2) {
        ensure_p!(w[0].orbit.epoch < w[1].orbit.epoch, "traj-order", "{} is followed by {}", w[0].orbit.epoch, w[1].orbit.epoch);
    }
    let (a, z) = if start.orbit.epoch <= end.orbit.epoch { (start, end) } else { (end, start) };
    ensure_p!(world::same(&s[0], a), "traj-first", "the trajectory starts with {} instead of {}", world::show(&s[0]), world::show(a));
    ensure_p!(world::same(&s[s.len() - 1], z), "traj-last", "the trajectory ends with {} instead of {}", world::show(&s[s.len() - 1]), world::show(z));
    for x in s {
        ensure_p!(x.orbit.frame.ephem_origin_match(start.orbit.frame) && x.orbit.frame.orient_origin_match(start.orbit.frame), "traj-frame", "a state at {} is in frame {} but the propagation started in {}", x.orbit.epoch, x.orbit.frame, start.orbit.frame);
    }
    let k = (probe as usize) % s.len();
    let got = t.at(s[k].orbit.epoch).map_err(|e| Fail { class: "traj-at".into(), msg: format!("stored epoch not found: {e}") })?;
    ensure_p!(world::same(&got, &s[k]), "traj-at", "at() of a stored epoch returned another state");
    for bad in [s[0].orbit.epoch - 1.nanoseconds(), s[s.len() - 1].orbit.epoch + 1.nanoseconds()] {
        ensure_p!(t.at(bad).is_err(), "traj-at", "at() outside of the trajectory returned a state");
    }
    Ok(())
}

fn run_p04(v: &Value, ctx: &mut Ctx) -> Outcome {
    let p = prop_of(v);
    let al = world::almanac();
    let mut sc = world::spacecraft(&v["sc"]);
    if b(v, "stm") {
        sc.enable_stm();
    }
    let legs = v["legs"].as_array().cloned().unwrap_or_default();
    let mut inst = p.with(sc, al.clone());
    let mut reff = p.with(sc, al.clone()).quiet();
    for (n, leg) in legs.iter().enumerate() {
        let dur = i(leg, "dur_s").seconds();
        let start = inst.state;
        let (ts, te) = (start.orbit.epoch, start.orbit.epoch + dur);
        let want = leg_states(&mut reff, dur);
        let got: Result<(Spacecraft, Option<Traj<Spacecraft>>), String> = match u(leg, "kind") {
            0 => inst.for_duration(dur).map(|s| (s, None)).map_err(err),
            1 => inst.for_duration_with_traj(dur).map(|(s, t)| (s, Some(t))).map_err(err),
            2 => inst.until_epoch(te).map(|s| (s, None)).map_err(err),
            _ => inst.until_epoch_with_traj(te).map(|(s, t)| (s, Some(t))).map_err(err),
        };
        match (got, want) {
            (Ok((end, traj)), Ok((wend, wstates))) => {
                ensure_p!(world::same(&end, &wend), "leg-end", "leg {n}: ended in {} but {} when streamed", world::show(&end), world::show(&wend));
                ensure_p!(end.orbit.epoch == te, "leg-epoch", "leg {n} ended at {} instead of {te}", end.orbit.epoch);
                ensure_p!(world::same(&inst.state, &end), "leg-state", "leg {n}: the propagator holds another state than the one returned");
                ensure_p!(end.orbit.frame.ephem_origin_match(start.orbit.frame), "leg-frame", "leg {n} started in {} and ended in {}", start.orbit.frame, end.orbit.frame);
                ctx.sim_s += dur.to_seconds().abs();
                world::dig_state(ctx, &end);
                if let Some(t) = traj {
                    check_traj(&t, &start, &end, u(v, "probe"))?;
                    // Exactly the streamed states and the start, whatever threads collected them.
                    let mut all = wstates.clone();
                    if dur != Duration::ZERO {
                        all.push(start);
                    } else {
                        all = vec![start];
                    }
                    all.sort_by_key(|s| s.orbit.epoch);
                    ensure_p!(world::same_states(&t.states, &all), "traj-states", "leg {n}: the trajectory holds {} states, the stream {} (with the start)", t.states.len(), all.len());
                    // A fresh instance, advanced step by step: no step may be missing.
                    if n == 0 && dur != Duration::ZERO {
                        let mut one = p.with(sc, al.clone()).quiet();
                        let sign = if dur.is_negative() { -1.0 } else { 1.0 };
                        let fixed = p.opts.fixed_step;
                        if p.opts.integration_frame.is_none() {
                            one.set_step(sign * p.opts.init_step, fixed);
                            let mut k = if dur.is_negative() { t.states.len() - 1 } else { 0 };
                            // The last state ends a shortened step: compared with the stream above.
                            for done in 1..t.states.len() {
                                ensure_p!(world::same(&t.states[k], &one.state), "traj-steps", "state {k} of {} is {} but stepping gives {}", t.states.len(), world::show(&t.states[k]), world::show(&one.state));
                                // Near the end, adaptive steps are chosen with the time left in mind.
                                let left = (end.orbit.epoch - one.state.orbit.epoch).abs();
                                if done + 1 == t.states.len() || (!fixed && left < p.opts.max_step.max(p.opts.init_step)) {
                                    break;
                                }
                                one.single_step().map_err(|e| Fail { class: "traj-steps".into(), msg: err(e) })?;
                                let d = one.latest_details();
                                if !fixed {
                                    let o = &p.opts;
                                    ensure_p!(d.error <= o.tolerance || d.step.abs() <= o.min_step + 1.nanoseconds() || d.attempts >= o.attempts, "step-error", "a step of {} was accepted with error {:e} (tolerance {:e}) after {} attempts", d.step, d.error, o.tolerance, d.attempts);
                                    ensure_p!(d.step.abs() <= o.max_step.max(o.init_step) + 1.nanoseconds(), "step-max", "a step of {} was taken, the largest allowed is {}", d.step, o.max_step);
                                    ctx.hit("adaptive step accepted within tolerance");
                                }
                                k = if dur.is_negative() { k.wrapping_sub(1) } else { k + 1 };
                            }
                            ctx.hit("trajectory compared with single steps");
                        }
                    }
                    ctx.hit(if dur.is_negative() { "backward trajectory" } else { "forward trajectory" });
                    ctx.add("trajectory states", t.states.len() as u64);
                    if t.states.len() > 3 {
                        ctx.nontrivial = true;
                    }
                }
            }
            (Err(a), Err(c)) => {
                ensure_p!(a == c, "leg-error", "leg {n}: {a} / {c}");
                ctx.hit("leg failed in the dynamics");
                return Ok(());
            }
            (a, c) => return fail("leg-error", format!("leg {n}: {:?} but streamed {:?}", a.map(|x| world::show(&x.0)), c.map(|x| world::show(&x.0)))),
        }
    }
    // The same history leg by leg in the other direction comes back to the start.
    if b(v, "round") && !b(v, "stm") {
        let total = inst.state.orbit.epoch - sc.orbit.epoch;
        if total != Duration::ZERO && p.method != IntegratorMethod::RungeKutta4 && !p.opts.fixed_step {
            let back = inst.until_epoch(sc.orbit.epoch).map_err(|e| Fail { class: "round-trip".into(), msg: err(e) })?;
            let d = (back.orbit.radius_km - sc.orbit.radius_km).norm();
            // Loose: accumulated truncation error of all the steps there and back.
            let tol = 1e-3 + p.opts.tolerance * 1e6 * (1.0 + total.to_seconds().abs() / 100.0);
            ensure_p!(d <= tol, "round-trip", "going back over {total} ended {d} km away from the start (tolerance {tol})");
            ctx.hit("round trip");
        }
    }
    Ok(())
}

fn draw_legs(r: &mut Rng, max: i64) -> Value {
    let n = r.us(1, 4);
    json!(
        (0..n)
            .map(|_| {
                let d = match r.below(12) {
                    0 => 0,
                    1..=3 => -r.range(1, max),
                    4 => r.range(1, 30),
                    5 => *r.pick(&[10i64, 30, 60, 90, 120]) * r.range(1, 8),
                    _ => r.range(1, max),
                };
                json!({"kind": r.below(4), "dur_s": d})
            })
            .collect::<Vec<_>>()
    )
}
pub fn draw_prop_case(r: &mut Rng) -> Value {
    let sc = world::draw_sc(r);
    let mut d = world::draw_dyn(r);
    if r.chance(0.15) {
        d["fail_after_s"] = json!(i(&sc, "epoch_s") + r.range(60, 4000));
    }
    json!({"sc": sc, "dyn": d, "prop": world::draw_prop(r)})
}
pub static P04: Prop = Prop {
    id: "P04",
    make: |r, _, t| {
        let mut v = draw_prop_case(r);
        v["legs"] = draw_legs(r, if t == Tier::Quick { 5000 } else { 20000 });
        v["frame"] = json!(if r.chance(0.8) { 0 } else { r.range(1, 2) });
        v["stm"] = json!(r.chance(0.15));
        v["probe"] = json!(r.below(1000));
        v["round"] = json!(r.chance(0.5));
        v
    },
    run: run_p04,
    runs: (2500, 60000),
    rule: "a history of 1 to 4 propagation legs (forward, backward, zero length; plain, until an epoch, with a trajectory) on one propagator instance; non-trivial when a trajectory has more than three states; distinct by scenario and interleaving hash",
    real: &["nyx propagators, dynamics, md::trajectory", "rayon par_bridge, std channels and locks (real code, scheduled by the simulator)", "anise"],
    stub: &["planetary constants and ephemerides (synthetic)", "clocks (simulated, with stalls)", "a zero-force acceleration model with preemption points and a drawn failure date"],
    must_hit: &["forward trajectory", "backward trajectory", "leg failed in the dynamics", "round trip", "trajectory compared with single steps"],
};

// ---- P05 ---------------------------------------------------------------------------------------------
fn run_p05(v: &Value, ctx: &mut Ctx) -> Outcome {
    let p = prop_of(v);
    let al = world::almanac();
    let crafts: Vec<Value> = v["crafts"].as_array().cloned().unwrap_or_default();
    if crafts.is_empty() {
        return fail(INVALID, "no spacecraft");
    }
    struct Done {
        end: Result<Spacecraft, String>,
        states: Vec<Spacecraft>,
        hung: bool,
    }
    // Every producer and every consumer on its own thread, all sharing one propagator and one almanac.
    let got: Vec<Done> = std::thread::scope(|scope| {
        let hs: Vec<_> = crafts
            .iter()
            .map(|c| {
                let (p, al) = (&p, al.clone());
                scope.spawn(move || {
                    let sc = world::spacecraft(&c["sc"]);
                    let (tx, rx) = channel::<Spacecraft>();
                    let limit = c["hang_up"].as_u64().map(|x| x as usize);
                    let slow = u(c, "slow");
                    let consumer = scope.spawn(move || {
                        let mut out = vec![];
                        if limit == Some(0) {
                            drop(rx);
                            return out;
                        }
                        while let Ok(s) = rx.recv() {
                            for _ in 0..slow {
                                sched::point();
                            }
                            if slow > 20 {
                                std::thread::sleep(std::time::Duration::from_millis(slow));
                            }
                            out.push(s);
                            if limit.is_some_and(|l| out.len() >= l) {
                                break;
                            }
                        }
                        out
                    });
                    let mut inst = p.with(sc, al);
                    let end = if b(c, "epoch") {
                        inst.until_epoch_with_channel(sc.orbit.epoch + i(c, "dur_s").seconds(), tx)
                    } else {
                        inst.for_duration_with_channel(i(c, "dur_s").seconds(), tx)
                    };
                    let states = consumer.join().unwrap();
                    Done { end: end.map_err(err), states, hung: limit.is_some() }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (n, (c, d)) in crafts.iter().zip(&got).enumerate() {
        let sc = world::spacecraft(&c["sc"]);
        let dur = i(c, "dur_s").seconds();
        let alone = p.with(sc, al.clone()).quiet().for_duration(dur).map_err(err);
        // The sequence the stream must carry: the trajectory without its start, in propagation order.
        let traj = p.with(sc, al.clone()).quiet().for_duration_with_traj(dur).map_err(err);
        match (&d.end, &alone) {
            (Ok(a), Ok(w)) => {
                ensure_p!(world::same(a, w), "stream-end", "spacecraft {n}: streamed propagation ended in {} but {} alone", world::show(a), world::show(w));
                let mut want = traj.map_err(|e| Fail { class: "stream-end".into(), msg: e })?.1.states;
                if dur.is_negative() {
                    want.reverse();
                }
                let want: Vec<Spacecraft> = want.into_iter().skip(1).collect();
                if d.hung {
                    ensure_p!(d.states.len() <= want.len() && world::same_states(&d.states, &want[..d.states.len()]), "stream-prefix", "spacecraft {n}: the {} states received before hanging up are not the first states", d.states.len());
                    ctx.hit("fault:consumer hung up");
                } else {
                    ensure_p!(world::same_states(&d.states, &want), "stream-states", "spacecraft {n}: {} states received, {} expected, or not the same", d.states.len(), want.len());
                    if let Some(l) = d.states.last() {
                        ensure_p!(world::same(l, a), "stream-last", "spacecraft {n}: the last state received is not the end state");
                    }
                }
                if want.len() > 3 && crafts.len() > 1 {
                    ctx.nontrivial = true;
                }
                ctx.sim_s += dur.to_seconds().abs();
                world::dig_state(ctx, a);
                ctx.add("streamed states", d.states.len() as u64);
            }
            (Err(a), Err(w)) => {
                ensure_p!(a == w, "stream-error", "{a} / {w}");
                ctx.hit("a producer failed in the dynamics");
            }
            _ => return fail("stream-end", format!("spacecraft {n}: streamed {:?}, alone {:?}", d.end.as_ref().map(world::show), alone.as_ref().map(world::show))),
        }
        if u(c, "slow") > 0 {
            ctx.hit("fault:slow consumer");
        }
    }
    Ok(())
}
pub static P05: Prop = Prop {
    id: "P05",
    make: |r, _, t| {
        let mut v = draw_prop_case(r);
        let n = r.us(1, 4);
        let max = if t == Tier::Quick { 4000 } else { 15000 };
        v["crafts"] = json!(
            (0..n)
                .map(|_| {
                    let d = if r.chance(0.2) { -r.range(1, max) } else { r.range(1, max) };
                    json!({"sc": world::draw_sc(r), "dur_s": d, "slow": if r.chance(0.4) { r.range(1, 40) } else { 0 },
                           "hang_up": if r.chance(0.35) { json!(r.below(12)) } else { Value::Null }, "epoch": r.chance(0.5)})
                })
                .collect::<Vec<_>>()
        );
        v["frame"] = json!(if r.chance(0.85) { 0 } else { r.range(1, 2) });
        v
    },
    run: run_p05,
    runs: (1500, 50000),
    rule: "1 to 4 producers and as many consumers (prompt, slow, hanging up after 0 to 11 states) on threads of their own, sharing one propagator; non-trivial with two or more producers and more than three states; distinct by scenario and interleaving hash",
    real: P04.real,
    stub: P04.stub,
    must_hit: &["fault:consumer hung up", "fault:slow consumer", "streamed states"],
};

// ---- P06 ---------------------------------------------------------------------------------------------
fn event_of(v: &Value) -> Event {
    let s = |e| ScalarExpr::Element(e);
    let mut e = match u(v, "event") {
        0 => Event::apoapsis(),
        1 => Event::periapsis(),
        2 => Event::new(s(OrbitalElement::Z), Condition::Equals(f(v, "z_km"))),
        3 => Event::new(s(OrbitalElement::VZ), Condition::Equals(0.0)),
        4 => Event::new(s(OrbitalElement::X), Condition::Equals(f(v, "z_km"))),
        _ => Event::new(s(OrbitalElement::TrueAnomaly), Condition::Equals(f(v, "ta"))),
    };
    if b(v, "fine") {
        e.epoch_precision = Unit::Millisecond * 1;
    }
    e
}
fn eval_in(e: &Event, s: &Spacecraft, frame: Option<anise::prelude::Frame>) -> Result<f64, Fail> {
    let al = world::almanac();
    let o = match frame {
        Some(fr) => al.transform_to(s.orbit, fr, None).map_err(|x| Fail { class: "event-eval".into(), msg: format!("{x}") })?,
        None => s.orbit,
    };
    e.eval(o, &al).map_err(|x| Fail { class: "event-eval".into(), msg: format!("{x}") })
}
fn crossings(e: &Event, states: &[Spacecraft], frame: Option<anise::prelude::Frame>) -> Result<Vec<usize>, Fail> {
    let mut out = vec![];
    let ev = |s: &Spacecraft| eval_in(e, s, frame);
    let mut prev = ev(&states[0])?;
    for (k, s) in states.iter().enumerate().skip(1) {
        let y = ev(s)?;
        let hit = if e.scalar.is_angle() { prev.signum() != y.signum() && (y - prev).abs() < 180.0 } else { prev * y < 0.0 };
        if hit {
            out.push(k);
        }
        prev = y;
    }
    Ok(out)
}
fn run_p06(v: &Value, ctx: &mut Ctx) -> Outcome {
    let p = prop_of(v);
    let al = world::almanac();
    let sc = world::spacecraft(&v["sc"]);
    let e = event_of(v);
    let max = i(v, "dur_s").seconds();
    let back = max.is_negative();
    let trig = u(v, "trigger").max(1) as usize;
    // Plane crossings may be asked for in another frame than the propagation's.
    let ef = match (u(v, "event"), u(v, "event_frame")) {
        (2..=4, 1) => Some(world::iau_earth()),
        (2..=4, 2) => Some(world::moon_j2k()),
        _ => None,
    };
    // The reference: the whole propagation, then a scan of all its steps.
    let (_, full) = p.with(sc, al.clone()).quiet().for_duration_with_traj(max).map_err(|x| Fail { class: INVALID.into(), msg: err(x) })?;
    let mut steps = full.states.clone();
    if back {
        steps.reverse();
    }
    let cross = crossings(&e, &steps, ef)?;
    let mut inst = p.with(sc, al.clone());
    let got = if trig == 1 && b(v, "short") { inst.until_event(max, &e, ef) } else { inst.until_nth_event(max, &e, ef, trig) };
    match got {
        Ok((s, traj)) => {
            ensure_p!(cross.len() >= trig, "event-count", "event #{trig} reported at {} but the whole propagation crosses only {} times", s.orbit.epoch, cross.len());
            let k = cross[trig - 1];
            let (t0, t1) = (steps[k - 1].orbit.epoch, steps[k].orbit.epoch);
            let (lo, hi) = (t0.min(t1), t0.max(t1));
            ensure_p!(s.orbit.epoch >= lo && s.orbit.epoch <= hi, "event-epoch", "event #{trig} reported at {} but the {trig}-th crossing is between {lo} and {hi}", s.orbit.epoch);
            for w in traj.states.windows(2) {
                ensure_p!(w[0].orbit.epoch < w[1].orbit.epoch, "event-traj-order", "{} is followed by {}", w[0].orbit.epoch, w[1].orbit.epoch);
            }
            let mut pre: Vec<Spacecraft> = steps[..=k].to_vec();
            if back {
                pre.reverse();
            }
            ensure_p!(world::same_states(&traj.states, &pre), "event-traj", "the trajectory has {} states, the propagation up to the crossing has {}", traj.states.len(), pre.len());
            // The root lies within the event's precision of the returned epoch.
            let at = |t: Epoch| -> Result<f64, Fail> {
                let s = traj.at(t).map_err(|x| Fail { class: "event-at".into(), msg: format!("{x}") })?;
                eval_in(&e, &s, ef)
            };
            let pr = e.epoch_precision * 2.0;
            let (a, z) = ((s.orbit.epoch - pr).max(lo), (s.orbit.epoch + pr).min(hi));
            let (ya, yz) = (at(a)?, at(z)?);
            ensure_p!(ya * yz <= 0.0 || at(s.orbit.epoch)?.abs() < 1e-6, "event-root", "no crossing within {pr} of the reported {}: {ya} and {yz}", s.orbit.epoch);
            if ef.is_some() {
                ctx.hit("event found in another frame");
            }
            ctx.hit(if back { "event found backward" } else { "event found forward" });
            if trig > 1 {
                ctx.hit("later occurrence found");
            }
            ctx.nontrivial = true;
            world::dig_state(ctx, &s);
        }
        Err(x) => {
            // The last, shortened step is documented not to be searched.
            let found = cross.iter().filter(|&&k| k + 1 < steps.len()).count();
            ensure_p!(found < trig, "event-missed", "event #{trig} not found ({x}) but the propagation crosses {} times before its last step", found);
            match x {
                PropagationError::NthEventError { nth, found: n } => {
                    ensure_p!(nth == trig && n <= cross.len() && n >= found, "event-error", "reported {n} of {nth} crossings; there are {}", cross.len());
                }
                other => return fail("event-error", format!("unexpected error {other}")),
            }
            ctx.hit("event not found");
        }
    }
    ctx.sim_s += max.to_seconds().abs();
    // The instance stays usable.
    let from = inst.state;
    let more = i(v, "then_s").seconds();
    if more != Duration::ZERO {
        let a = inst.for_duration(more).map_err(|x| Fail { class: "event-then".into(), msg: err(x) })?;
        ensure_p!(a.orbit.epoch == from.orbit.epoch + more, "event-then", "after the search, propagating for {more} ended at {}", a.orbit.epoch);
        ctx.hit("propagated after the search");
    }
    Ok(())
}
pub static P06: Prop = Prop {
    id: "P06",
    make: |r, _, _| {
        let mut v = draw_prop_case(r);
        v["dyn"]["fail_after_s"] = Value::Null;
        if r.chance(0.7) {
            v["sc"]["ecc_m"] = json!(r.range(20, 400));
        }
        v["event"] = json!(r.below(6));
        v["z_km"] = json!(*r.pick(&[0i64, 0, 500, -1200, 3000]));
        v["ta"] = json!(r.range(5, 355));
        v["trigger"] = json!(*r.pick(&[1, 1, 1, 2, 2, 3]));
        v["fine"] = json!(r.chance(0.5));
        v["short"] = json!(r.chance(0.5));
        let d = r.range(1000, 25000);
        v["dur_s"] = json!(if r.chance(0.25) { -d } else { d });
        v["then_s"] = json!(*r.pick(&[0i64, 600, -600]));
        v["frame"] = json!(0);
        v["event_frame"] = json!(if r.chance(0.4) { r.range(1, 2) } else { 0 });
        v
    },
    run: run_p06,
    runs: (1200, 60000),
    rule: "a search for the n-th event (apses, plane or altitude crossings, true anomaly) forward or backward; non-trivial when an event is found; distinct by scenario and interleaving hash",
    real: P04.real,
    stub: P04.stub,
    must_hit: &["event found forward", "event found backward", "event found in another frame", "later occurrence found", "event not found", "propagated after the search"],
};

// ---- P14: state transition matrices -------------------------------------------------------------------
fn make_p14(r: &mut Rng, _: u64, _: Tier) -> Value {
    let mut dy = world::draw_dyn(r);
    dy["drag"] = json!(false);
    dy["srp_est"] = json!(r.chance(0.5));
    let n = r.range(1, 4);
    let sail = b(&dy, "srp") && r.chance(0.4);
    json!({"sc": world::draw_sc(r), "dyn": dy, "prop": world::draw_prop(r), "frame": *r.pick(&[0, 0, 0, 2]), "sail": sail,
        "legs": (0..n).map(|_| json!({"dur_s": r.range(20, 2400) * if r.chance(0.3) { -1 } else { 1 }, "kind": r.below(2), "reset": r.chance(0.3)})).collect::<Vec<_>>()})
}
fn run_p14(v: &Value, ctx: &mut Ctx) -> Outcome {
    let p = prop_of(v);
    let al = world::almanac();
    let mut sc = world::spacecraft(&v["sc"]);
    // A large sail makes the sensitivity to Cr visible, but also the edges of the eclipses, whose gradient is not modelled.
    let sail = b(v, "sail");
    sc.srp.area_m2 = if sail { 60.0 } else { 3.0 };
    let legs: Vec<Value> = v["legs"].as_array().cloned().unwrap_or_default().into_iter().filter(|l| i(l, "dur_s") != 0).collect();
    if legs.is_empty() {
        return fail(INVALID, "no leg");
    }
    let bad = |e: PropagationError| Fail { class: "stm-error".into(), msg: err(e) };
    // With the matrix, maybe reset between legs, and collected by threads.
    let mut inst = p.with(sc.with_stm(), al.clone()).quiet();
    let mut total = nalgebra::SMatrix::<f64, 9, 9>::identity();
    let mut since = total;
    for l in &legs {
        let d = i(l, "dur_s").seconds();
        let end = if u(l, "kind") == 1 {
            let (e, t) = inst.for_duration_with_traj(d).map_err(bad)?;
            let z = if d.is_negative() { t.first() } else { t.last() };
            ensure_p!(z.stm == e.stm && e.stm.is_some(), "stm-traj", "the trajectory ends with another state transition matrix than the propagation");
            e
        } else {
            inst.for_duration(d).map_err(bad)?
        };
        since = end.stm.expect("stm");
        if b(l, "reset") {
            total = since * total;
            since = nalgebra::SMatrix::identity();
            inst.state.reset_stm();
            ctx.hit("reset");
        }
        ctx.sim_s += d.to_seconds().abs();
    }
    let phi = since * total;
    let end = inst.state;
    // Without it, from perturbed states.
    let fly = |x: Spacecraft| -> Result<Spacecraft, Fail> {
        let mut q = p.with(x, al.clone()).quiet();
        for l in &legs {
            q.for_duration(i(l, "dur_s").seconds()).map_err(bad)?;
        }
        Ok(q.state)
    };
    let plain = fly(sc)?;
    let (dr, dv) = ((plain.orbit.radius_km - end.orbit.radius_km).norm(), (plain.orbit.velocity_km_s - end.orbit.velocity_km_s).norm());
    ensure_p!(dr < 1e-5 && dv < 1e-8 && plain.orbit.epoch == end.orbit.epoch, "stm-state", "computing the state transition matrix moves the end state by {dr:e} km and {dv:e} km/s");
    let mut num = nalgebra::SMatrix::<f64, 6, 6>::zeros();
    for c in 0..6 {
        let h = if c < 3 { 1e-2 } else { 1e-5 };
        let (mut lo, mut hi) = (sc, sc);
        if c < 3 {
            lo.orbit.radius_km[c] -= h;
            hi.orbit.radius_km[c] += h;
        } else {
            lo.orbit.velocity_km_s[c - 3] -= h;
            hi.orbit.velocity_km_s[c - 3] += h;
        }
        let (a, z) = (fly(lo)?.orbit, fly(hi)?.orbit);
        for q in 0..3 {
            num[(q, c)] = (z.radius_km[q] - a.radius_km[q]) / (2.0 * h);
            num[(q + 3, c)] = (z.velocity_km_s[q] - a.velocity_km_s[q]) / (2.0 * h);
        }
    }
    // In km and m/s, so that all blocks have similar sizes.
    let w = |q: usize| if q < 3 { 1.0 } else { 1e3 };
    let scale = |m: f64, q: usize, c: usize| m * w(q) / w(c);
    let mut size: f64 = 1.0;
    let mut worst = (0.0f64, 0, 0);
    for q in 0..6 {
        for c in 0..6 {
            size = size.max(scale(num[(q, c)], q, c).abs());
            let d = scale(num[(q, c)] - phi[(q, c)], q, c).abs();
            if !(d <= worst.0) {
                worst = (d, q, c);
            }
        }
    }
    ensure_p!(worst.0 <= if sail { 2e-2 } else { 2e-4 } * size, "stm-derivative", "entry ({},{}) of the state transition matrix is {:e}, the propagation changes by {:e}", worst.1, worst.2, phi[(worst.1, worst.2)], num[(worst.1, worst.2)]);
    for q in 0..6 {
        for c in 6..9 {
            ensure_p!(c == 6 || phi[(q, c)] == 0.0, "stm-parameters", "entry ({q},{c}) is {}", phi[(q, c)]);
        }
    }
    if b(&v["dyn"], "srp") {
        let est = b(&v["dyn"], "srp_est");
        let (mut lo, mut hi) = (sc, sc);
        lo.srp.coeff_reflectivity -= 0.2;
        hi.srp.coeff_reflectivity = (hi.srp.coeff_reflectivity + 0.2).min(2.0);
        let h = hi.srp.coeff_reflectivity - lo.srp.coeff_reflectivity;
        let (a, z) = (fly(lo)?.orbit, fly(hi)?.orbit);
        let d = (z.radius_km - a.radius_km) / h;
        let got = phi.fixed_view::<3, 1>(0, 6).into_owned();
        if est {
            // The entry and exit of an eclipse and the step selection of the integrator leave a noise of about a millimetre.
            ensure_p!((d - got).norm() <= 0.03 * d.norm() + 3e-6, "stm-parameters", "the sensitivity to Cr is {got:?} but the propagation changes by {d:?}");
            ctx.hit(if d.norm() > 1e-4 { "cr" } else { "cr-small" });
        } else {
            ensure_p!(got.norm() == 0.0, "stm-parameters", "Cr is not estimated but has the sensitivity {got:?}");
        }
    }
    ctx.nontrivial = legs.len() > 1;
    if legs.iter().any(|l| i(l, "dur_s") < 0) {
        ctx.hit("backward");
    }
    for x in phi.iter() {
        ctx.digf(*x);
    }
    Ok(())
}
pub static P14: Prop = Prop {
    id: "P14",
    make: make_p14,
    run: run_p14,
    runs: (700, 60_000),
    rule: "the composed matrix equals central differences of the real propagation over the same history of legs",
    real: &["nyx-space propagators, dynamics and gradients, trajectory collection, rayon"],
    stub: &["almanac (synthetic constants and ephemerides)", "system clock", "scheduler"],
    must_hit: &["reset", "cr", "backward"],
};
