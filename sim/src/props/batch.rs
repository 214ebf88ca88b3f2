//! Batch least squares (P23).
use super::od::{self, Kind, M9, V9};
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use hifitime::{Epoch, Unit};
use nyx_space::od::blse::{BLSSolver, BatchLeastSquares};
use nyx_space::od::msr::{MeasurementType, TrackingDataArc};
use nyx_space::od::prelude::GroundStation;
use nyx_space::{Spacecraft, State};
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// What the usable measurements say about a state: information, gradient and sum of squares.
struct Fit {
    info: M9,
    grad: V9,
    cost: f64,
    used: usize,
    edge: bool,
}
fn fit(v: &Value, dev: &BTreeMap<String, GroundStation>, at: Spacecraft, arc: &TrackingDataArc) -> Result<Fit, Fail> {
    let mut o = Fit { info: M9::zeros(), grad: V9::zeros(), cost: 0.0, used: 0, edge: false };
    let mut cur: Option<(Epoch, Spacecraft, M9)> = None;
    for m in arc.measurements.iter().filter(|m| !m.rejected) {
        let Some(g) = dev.get(&m.tracker) else { continue };
        if m.epoch < at.epoch() {
            continue;
        }
        let (sc, phi) = match cur {
            Some((e, s, p)) if e == m.epoch => (s, p),
            _ => od::step(v, at, m.epoch)?,
        };
        cur = Some((m.epoch, sc, phi));
        let el = od::elevation(g, &sc);
        o.edge |= el.abs() < 1e-2;
        if el < 0.0 {
            continue;
        }
        let (dr, dv) = od::los(g, &sc);
        let rho = dr.norm();
        for (ty, obs) in &m.data {
            if !g.measurement_types.contains(ty) {
                continue;
            }
            let mut h = V9::zeros();
            for c in 0..3 {
                if od::is_angle(*ty) {
                    h[c] = od::angle_partial(g, &sc, *ty, c);
                } else if *ty == MeasurementType::Range {
                    h[c] = dr[c] / rho;
                } else {
                    h[c] = dv[c] / rho - dr.dot(&dv) / rho * dr[c] / (rho * rho);
                    h[c + 3] = dr[c] / rho;
                }
            }
            let h = phi.transpose() * h;
            let w = od::sigma(*ty).powi(-2);
            let r = obs - od::ideal(g, &sc, *ty);
            o.info += h * h.transpose() * w;
            o.grad += h * (r * w);
            o.cost += w * r * r;
            o.used += 1;
        }
    }
    Ok(o)
}
fn make_p23(r: &mut Rng, _: u64, tier: Tier) -> Value {
    let mut v = od::draw_common(r);
    let n = r.range(2, if tier == Tier::Quick { 20 } else { 40 });
    let faults = *r.pick(&[0.0, 0.2, 0.5]);
    v["msrs"] = od::draw_msrs(r, &[1, 2, 6, 8, 9], n, faults);
    let (rate, mut t) = (*r.pick(&[30i64, 60, 120, 240]), r.range(0, 100));
    for m in v["msrs"].as_array_mut().unwrap() {
        t += if r.chance(0.15) { 0 } else { rate };
        m["t"] = json!(t);
        if i(m, "kind") == 0 && r.chance(0.4) {
            // Another station also sees the spacecraft.
            m["kind"] = json!(9);
        }
    }
    if r.chance(0.7) {
        for k in ["moon", "sun", "srp"] {
            v["dyn"][k] = json!(false);
        }
        v["dyn"]["points"] = json!(0);
    }
    let types = *r.pick(&[2, 2, 4, 8]);
    v["order"] = json!((0..6).map(|_| r.below(types)).collect::<Vec<_>>());
    v["prop"] = json!({"method": *r.pick(&[0, 0, 1, 1, 2]), "fixed": r.chance(0.2), "step_s": *r.pick(&[30, 60]), "tol_e": 12, "max_s": *r.pick(&[60, 120, 300])});
    v["lm"] = json!(r.chance(0.3));
    v["scaled"] = json!(r.chance(0.7));
    v["batch_step_s"] = json!(*r.pick(&[10, 30, 60, 120]));
    v["iters"] = json!(*r.pick(&[6, 10, 10]));
    v["first"] = json!(r.chance(0.3));
    v["shift_s"] = if r.chance(0.1) { json!(r.range(1, 600)) } else { json!(0) };
    if r.chance(0.05) {
        let k = r.below(n as u64) as usize;
        v["msrs"][k]["kind"] = json!(5);
    }
    if r.chance(0.04) {
        v["dyn"]["fail_after_s"] = json!(i(&v["sc"], "epoch_s") + r.range(-100, 4000));
    }
    v
}
fn run_p23(v: &Value, ctx: &mut Ctx) -> Outcome {
    let mut v = v.clone();
    if b(&v, "first") && v["msrs"].as_array().is_some_and(|l| !l.is_empty()) {
        // A measurement of the initial epoch.
        v["msrs"][0]["t"] = json!(0);
        v["msrs"][0]["ms"] = json!(0);
    }
    let v = &v;
    let (mut arc, kinds) = od::arc_of(v, ctx)?;
    arc.sort();
    let guess = {
        let mut g = world::spacecraft(&v["sc"]);
        if i(v, "shift_s") > 0 {
            // An initial guess after some measurements.
            let to = g.epoch() + Unit::Second * i(v, "shift_s");
            let mut calm = v.clone();
            calm["dyn"]["fail_after_s"] = Value::Null;
            g = od::step(&calm, g, to)?.0;
            g.stm = None;
        }
        g
    };
    let dev = od::stations(v);
    let lm = b(v, "lm");
    let blse = BatchLeastSquares::builder()
        .prop(od::prop_of(v))
        .devices(dev.clone())
        .solver(if lm { BLSSolver::LevenbergMarquardt } else { BLSSolver::NormalEquations })
        .max_iterations(u(v, "iters").max(1) as usize)
        .max_step(f(v, "batch_step_s").max(1.0) * Unit::Second)
        .lm_use_diag_scaling(b(v, "scaled"))
        .almanac(world::almanac())
        .build();
    let kept = arc.measurements.iter().filter(|m| !m.rejected).count();
    let usable: Vec<_> = arc.measurements.iter().filter(|m| !m.rejected && dev.contains_key(&m.tracker) && m.epoch >= guess.epoch()).collect();
    let nan = usable.iter().any(|m| m.data.iter().any(|(t, x)| !x.is_finite() && dev[&m.tracker].measurement_types.contains(t)));
    let may_fail = v["dyn"]["fail_after_s"].is_i64();
    let sol = match blse.estimate(guess, &arc) {
        Ok(s) => s,
        Err(e) => {
            if kept < 2 {
                ctx.hit("fault:too few measurements");
            } else if may_fail {
                ctx.hit("fault:failing dynamics");
            } else if nan {
                ctx.hit("fault:not a number");
            } else {
                // Too few or too similar measurements may throw an iterate into the Earth.
                let far = usable.len() < 6 || v["order"].as_array().is_some_and(|a| a.iter().any(|o| o.as_u64().unwrap_or(0) > 1));
                ensure_p!(far, "batch-error", "{e} although {} measurements are usable", usable.len());
            }
            ctx.nontrivial = true;
            return Ok(());
        }
    };
    ensure_p!(kept >= 2, "batch-few", "an estimate from {kept} measurements");
    ensure_p!(sol.estimated_state.epoch() == guess.epoch(), "batch-epoch", "the estimate is at {} instead of {}", sol.estimated_state.epoch(), guess.epoch());
    ensure_p!(sol.num_iterations <= u(v, "iters").max(1) as usize, "batch-iterations", "{} iterations", sol.num_iterations);
    let last = usable.last().map(|m| m.epoch).unwrap_or(guess.epoch());
    ctx.sim_s = (last - guess.epoch()).to_seconds() * sol.num_iterations as f64;
    if may_fail {
        ctx.hit("dynamics did not fail");
        return Ok(());
    }
    let at = fit(v, &dev, sol.estimated_state, &arc)?;
    if nan {
        let seen = usable.iter().filter(|m| m.data.iter().any(|(t, x)| !x.is_finite() && dev[&m.tracker].measurement_types.contains(t))).any(|m| od::step(v, sol.estimated_state, m.epoch).is_ok_and(|(s, _)| od::elevation(&dev[&m.tracker], &s) > 0.05));
        ensure_p!(!seen || sol.num_iterations == 0, "batch-nan", "a measurement which is not a number was used");
        return Ok(());
    }
    if at.edge {
        ctx.hit("close-call");
        return Ok(());
    }
    // The cost reported for any state is the one of the usable measurements.
    let unknown = arc.measurements.iter().any(|m| !m.rejected && !dev.contains_key(&m.tracker));
    let before = fit(v, &dev, guess, &arc)?;
    if !before.edge {
        let rms = blse.evaluate(guess, &arc).map_err(|e| Fail { class: "batch-evaluate".into(), msg: format!("{e}") })?;
        let want = (before.cost / kept as f64).sqrt();
        ensure_p!(unknown || (rms - want).abs() <= 5e-3 * want + 0.02, "batch-evaluate", "the weighted RMS of the initial guess is {rms} instead of {want}");
        ctx.hit("evaluated");
    }
    ensure_p!(!lm || at.cost <= before.cost * 1.01 + 1.0, "batch-worse", "the estimate fits worse ({}) than the initial guess ({})", at.cost, before.cost);
    if !sol.converged {
        ensure_p!(sol.num_iterations == u(v, "iters").max(1) as usize, "batch-converged", "stopped after {} iterations without converging", sol.num_iterations);
        ctx.hit("not converged");
        ctx.nontrivial = true;
        return Ok(());
    }
    ctx.hit(if lm { "converged LM" } else { "converged" });
    ensure_p!(sol.final_corr_pos_km < 1e-4, "batch-converged", "converged with a correction of {} km", sol.final_corr_pos_km);
    let info = at.info + M9::identity();
    let Some(cov) = info.try_inverse() else { return fail(INVALID, "singular") };
    // Ill-conditioned problems lose digits in any method.
    let scale = {
        let d = V9::from_fn(|k, _| 1.0 / info[(k, k)].sqrt());
        let c = M9::from_fn(|r, c| info[(r, c)] * d[r] * d[c]);
        let e = c.symmetric_eigenvalues();
        e.max() / e.min().max(1e-300)
    };
    // Convergence is on the position only: where the velocity is poorly observed, the last iterates still differ.
    let observed = (0..3).all(|k| cov[(k, k)] < 1e-2 && cov[(k + 3, k + 3)] < 4e-8);
    if scale < 1e9 && observed {
        let d = od::cov_diff(&sol.covariance, &cov, &cov);
        ensure_p!(d < 2e-2, "batch-covariance", "the covariance differs from that of the {} usable observables by {d:e} sigma^2 (standard deviations {:?} instead of {:?})", at.used, sol.covariance.diagonal().map(|x| x.abs().sqrt()).as_slice(), cov.diagonal().map(|x| x.abs().sqrt()).as_slice());
        ctx.hit("covariance");
        if !lm {
            // A further correction from the usable measurements is negligible.
            let dx = cov * at.grad;
            let size = od::dev_diff(&dx, &V9::zeros(), &cov);
            let km = dx.fixed_rows::<3>(0).norm();
            ensure_p!(km < 2e-4 || size < 2e-2, "batch-estimate", "the measurements would move the converged estimate by another {km} km, {size} sigma");
            ctx.hit("estimate");
        }
    }
    if !unknown {
        let want = (at.cost / kept as f64).sqrt();
        let rms = blse.evaluate(sol.estimated_state, &arc).map_err(|e| Fail { class: "batch-evaluate".into(), msg: format!("{e}") })?;
        ensure_p!((rms - want).abs() <= 5e-3 * want + 0.02, "batch-evaluate", "the weighted RMS of the estimate is {rms} instead of {want}");
    }
    if kinds.iter().any(|k| *k != Kind::Good) {
        ctx.hit("fault:converged despite faults");
    }
    ctx.nontrivial = true;
    world::dig_state(ctx, &sol.estimated_state);
    Ok(())
}
pub static P23: Prop = Prop {
    id: "P23",
    make: make_p23,
    run: run_p23,
    runs: (700, 40_000),
    rule: "one arc with lost, partial, flagged, unknown and simultaneous measurements, whose batch estimate is compared with the normal equations of the usable measurements",
    real: &["nyx batch least squares, ground stations, dynamics and propagators"],
    stub: &["almanac (synthetic constants and ephemerides)", "scheduler"],
    must_hit: &["converged", "converged LM", "covariance", "estimate", "evaluated", "fault:msr-Unknown", "fault:msr-Flagged", "fault:msr-Missing", "fault:not a number", "fault:too few measurements", "fault:failing dynamics"],
};
