//! Differential correction (P24).
use super::mission::to_inertial;
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use anise::analysis::prelude::OrbitalElement as Oe;
use anise::prelude::{Frame, Orbit};
use hifitime::{Epoch, TimeUnits};
use nalgebra::Vector3;
use nyx_space::dynamics::SpacecraftDynamics;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::md::opti::solution::TargeterSolution;
use nyx_space::md::prelude::{Objective, Propagator};
use nyx_space::md::targeter::Targeter;
use nyx_space::md::{StateParameter, Variable, Vary};
use nyx_space::{Spacecraft, State};
use serde_json::{Value, json};

const VARS: [Vary; 6] = [Vary::PositionX, Vary::PositionY, Vary::PositionZ, Vary::VelocityX, Vary::VelocityY, Vary::VelocityZ];
const ELS: [Oe; 10] = [Oe::X, Oe::Y, Oe::Z, Oe::VX, Oe::VY, Oe::VZ, Oe::Rmag, Oe::SemiMajorAxis, Oe::Eccentricity, Oe::Inclination];
const MU: f64 = 398600.435436096;

/// An element of an orbit, from its definition.
fn element(k: usize, o: &Orbit) -> Result<f64, Fail> {
    let (r, v) = (o.radius_km, o.velocity_km_s);
    let mu = o.frame.mu_km3_s2().unwrap_or(MU);
    Ok(match ELS[k] {
        Oe::X => r.x,
        Oe::Y => r.y,
        Oe::Z => r.z,
        Oe::VX => v.x,
        Oe::VY => v.y,
        Oe::VZ => v.z,
        Oe::Rmag => r.norm(),
        Oe::SemiMajorAxis => 1.0 / (2.0 / r.norm() - v.norm_squared() / mu),
        Oe::Eccentricity => (v.cross(&r.cross(&v)) / mu - r / r.norm()).norm(),
        _ => (r.cross(&v).z / r.cross(&v).norm()).acos().to_degrees(),
    })
}
fn in_frame(o: &Orbit, fr: Option<Frame>) -> Result<Orbit, Fail> {
    match fr {
        None => Ok(*o),
        Some(fr) => world::almanac().transform_to(*o, fr, None).map_err(|e| Fail { class: INVALID.into(), msg: format!("{e}") }),
    }
}

fn make_p24(r: &mut Rng, _: u64, _tier: Tier) -> Value {
    let mut v = json!({"sc": world::draw_sc(r), "dyn": world::draw_dyn(r), "prop": world::draw_prop(r)});
    v["sc"]["ecc_m"] = json!(*r.pick(&[1, 5, 20, 100, 200]));
    if f(&v["prop"], "step_s") < 30.0 {
        v["prop"]["step_s"] = json!(30);
    }
    // Low orders take tiny steps at these tolerances.
    if u(&v["prop"], "method") > 1 {
        v["prop"]["fixed"] = json!(true);
    }
    v["prop"]["max_s"] = json!(*r.pick(&[300, 600]));
    v["dyn"]["drag"] = json!(false);
    v["dyn"]["srp"] = json!(r.chance(0.1));
    v["dyn"]["points"] = json!(*r.pick(&[0, 0, 1]));
    let kind = *r.pick(&["dv", "dv", "vnc", "vnc", "dr", "any"]);
    v["kind"] = json!(kind);
    v["local"] = json!(*r.pick(&[0, 0, 1, 2, 3]));
    v["dual"] = json!(kind != "vnc" && r.chance(0.3));
    v["pre_s"] = json!(*r.pick(&[0, 0, 60, 900, 5000, -600]));
    v["arc_pm"] = if r.chance(0.8) { json!(r.range(50, 400)) } else { json!(*r.pick(&[-300, -100, 600, 900, 1500])) };
    let nv = if r.chance(0.6) { 3 } else { r.us(1, 3) };
    let pick_n = |r: &mut Rng, n: usize, lo: i64, hi: i64| {
        let mut l: Vec<i64> = (lo..=hi).collect();
        r.shuffle(&mut l);
        l.truncate(n);
        l
    };
    v["vars"] = json!(match kind {
        "dr" => pick_n(r, nv, 0, 2),
        "any" => pick_n(r, nv, 0, 5),
        _ => pick_n(r, nv, 3, 5),
    });
    let no = if r.chance(0.5) { nv } else { r.us(1, 3) };
    v["objs"] = json!(if r.chance(0.6) { pick_n(r, no, 0, 2) } else { pick_n(r, no, 0, 9) });
    v["obj_frame"] = json!(*r.pick(&[0, 0, 0, 1, 2]));
    v["tol_e"] = json!(r.range(2, 6));
    // The correction that the objectives are made from, in units of 1 m or 1 m/s.
    v["true"] = json!((0..6).map(|_| r.range(-40, 40)).collect::<Vec<_>>());
    v["reach"] = json!(!r.chance(0.12));
    v["zero"] = json!(r.chance(0.05));
    v["guess"] = json!((0..3).map(|_| if r.chance(0.3) { r.range(-20, 20) } else { 0 }).collect::<Vec<_>>());
    v["max_step_m"] = json!(*r.pick(&[200, 200, 500, 20]));
    v["bound"] = if r.chance(0.25) { json!([-r.range(0, 60), r.range(0, 60)]) } else { Value::Null };
    v["iters"] = json!(*r.pick(&[30, 30, 40, 3, 1]));
    if !b(&v, "reach") {
        v["iters"] = json!(r.range(1, 5));
        v["prop"] = json!({"method": r.below(6), "fixed": true, "step_s": *r.pick(&[30, 60, 120])});
    }
    v["pert_e"] = json!(*r.pick(&[4, 4, 5, 3]));
    if r.chance(0.3) {
        match r.below(8) {
            6 | 7 => v["dyn"]["fail_pert"] = json!(r.range(1, 9)),
            0 => v["dyn"]["fail_at_pm"] = json!(r.range(-200, 1200)),
            1 => v["dyn"]["fail_rel_m"] = json!(*r.pick(&[0, 1, 5, 20, 100, 500, 2000, -500])),
            2 => v["dyn"]["fail_rel_lo_m"] = json!(*r.pick(&[0, -1, -5, -20, -100, -500, -2000, 500])),
            3 => v["bad"] = json!("step"),
            4 => v["bad"] = json!("objective"),
            _ => {
                v["bad"] = json!(*r.pick(&["local-position", "bounds"]));
                if v["bad"] == "local-position" {
                    v["vars"][0] = json!(r.below(3));
                }
            }
        }
    }
    v
}

struct Case {
    v: Value,
    calm: Propagator<SpacecraftDynamics>,
    x0: Spacecraft,
    corr: Epoch,
    end: Epoch,
    local: Option<LocalFrame>,
    fr: Option<Frame>,
    vars: Vec<usize>,
    objs: Vec<usize>,
}
fn go<const V: usize, const O: usize>(c: &Case, ctx: &mut Ctx) -> Outcome {
    let v = &c.v;
    let invalid = |e: String| Fail { class: INVALID.into(), msg: e };
    let variables: [Variable; V] = std::array::from_fn(|k| {
        let mut x: Variable = VARS[c.vars[k]].into();
        let unit = if c.vars[k] < 3 { 10.0 } else { 1.0 };
        x = x.with_initial_guess(v["guess"][k].as_f64().unwrap_or(0.0) * 1e-3 * unit).with_pert(10f64.powi(-(u(v, "pert_e").clamp(2, 6) as i32)) * unit);
        x.max_step = f(v, "max_step_m").max(1.0) * 1e-3 * unit;
        // Iterates must not dive to the centre of the Earth.
        x = x.with_min(-0.3 * unit).with_max(0.3 * unit);
        if let Some(l) = v["bound"].as_array() {
            x = x.with_min(l[0].as_f64().unwrap_or(0.0).min(0.0) * 1e-3 * unit).with_max(l[1].as_f64().unwrap_or(0.0).max(0.0) * 1e-3 * unit);
            x.init_guess = x.apply_bounds(x.init_guess);
        }
        match v["bad"].as_str() {
            Some("step") if k == V - 1 => x.max_step = -x.max_step,
            Some("bounds") if k == V - 1 => (x.min_value, x.max_value) = (x.max_value + 1.0, x.max_value),
            _ => {}
        }
        x
    });
    // The state to correct and the objectives.
    let start = c.calm.with(c.x0, world::almanac()).until_epoch(c.corr).map_err(|e| invalid(format!("{e}")))?;
    let corrected = |dx: &[f64]| {
        let (mut dr, mut dv) = (Vector3::zeros(), Vector3::zeros());
        for (k, d) in c.vars.iter().zip(dx) {
            if *k < 3 { dr[*k] += d } else { dv[*k - 3] += d }
        }
        let mut s = start;
        if let Some(fr) = c.local {
            dv = to_inertial(fr, s.orbit.radius_km, s.orbit.velocity_km_s, dv);
        }
        s.orbit.radius_km += dr;
        s.orbit.velocity_km_s += dv;
        s
    };
    let truth: Vec<f64> = (0..V).map(|k| if b(v, "zero") { variables[k].init_guess } else { variables[k].apply_bounds(v["true"][k].as_f64().unwrap_or(0.0) * 1e-3 * if c.vars[k] < 3 { 10.0 } else { 1.0 }) }).collect();
    let truth_f = c.calm.with(corrected(&truth), world::almanac()).until_epoch(c.end).map_err(|e| invalid(format!("{e}")))?;
    let truth_f = in_frame(&truth_f.orbit, c.fr)?;
    let tol0 = 10f64.powi(-(u(v, "tol_e").clamp(2, 6) as i32));
    let mut objectives = [Objective::new(StateParameter::Element(Oe::X), 0.0); O];
    for k in 0..O {
        let e = c.objs[k];
        let scale = match e {
            3..=5 => 1e-3,
            8 => 1e-4,
            9 => 1e-3,
            _ => 1.0,
        };
        let mut want = element(e, &truth_f)?;
        if !b(v, "reach") {
            want += 5e4 * scale;
        }
        objectives[k] = Objective::within_tolerance(StateParameter::Element(ELS[e]), want, tol0 * scale);
    }
    let bad = v["bad"].as_str().unwrap_or("");
    if bad == "objective" {
        objectives[O - 1].parameter = StateParameter::PropMass();
    }
    // Dynamics that fail: after an epoch, or near the radius of the final state.
    let mut c_dyn = v["dyn"].clone();
    if let Some(x) = v["dyn"]["fail_pert"].as_i64() {
        // Dynamics that fail between the first run and its perturbed runs.
        let extremes = |dx: &[f64]| -> Result<(f64, f64), Fail> {
            let (last, t) = c.calm.with(corrected(dx), world::almanac()).until_epoch_with_traj(c.end).map_err(|e| invalid(format!("{e}")))?;
            Ok(t.states.iter().map(|s| s.orbit.rmag_km()).chain([last.orbit.rmag_km()]).fold((f64::MAX, 0.0f64), |(l, h), r| (l.min(r), h.max(r))))
        };
        let at: Vec<f64> = variables.iter().map(|x| x.init_guess).collect();
        let (lo, hi) = extremes(&at)?;
        for k in 0..V {
            let mut there = at.clone();
            there[k] += variables[k].perturbation;
            let (l, h) = extremes(&there)?;
            let w = x as f64 * 0.1;
            if h > hi + 1e-9 {
                c_dyn["fail_above"] = json!(hi + w * (h - hi));
                break;
            } else if l < lo - 1e-9 {
                c_dyn["fail_below"] = json!(lo + w * (l - lo));
                break;
            }
        }
    }
    let prop = world::propagator(&v["prop"], world::dynamics(&c_dyn));
    let fails = ["fail_above", "fail_below", "fail_after_s"].iter().any(|k| c_dyn[k].is_number());
    let dual = b(v, "dual");
    let tgt = Targeter { prop: &prop, objectives, objective_frame: c.fr, variables, correction_frame: c.local, iterations: u(v, "iters").max(1) as usize };
    let shot = || -> Result<Result<TargeterSolution<V, O>, String>, Fail> {
        match no_panic(|| if dual { tgt.try_achieve_dual(c.x0, c.corr, c.end, world::almanac()) } else { tgt.try_achieve_from(c.x0, c.corr, c.end, world::almanac()) }) {
            Ok(r) => Ok(r.map_err(|e| format!("{e}"))),
            Err(p) => fail("targeter-panic", format!("panic: {p}")),
        }
    };
    let res = shot()?;
    let period = c.x0.orbit.period().map(|d| d.to_seconds()).unwrap_or(6000.0);
    let arc = (c.end - c.corr).to_seconds();
    // Bad problems are refused.
    let refused = bad != "" && (bad != "local-position" || (c.local.is_some() && c.vars.iter().any(|k| *k < 3))) || (dual && c.local.is_some());
    if refused {
        ensure_p!(res.is_err(), "targeter-accepts", "a solution of a problem it cannot solve ({bad}, hyperdual: {dual}, local frame {:?})", c.local);
        ctx.hit(&format!("fault:refused {bad}"));
        ctx.nontrivial = true;
        return Ok(());
    }
    let sol = match res {
        Ok(s) => s,
        Err(e) => {
            if fails {
                ctx.hit("fault:failing dynamics");
                ctx.nontrivial = true;
                return Ok(());
            }
            ensure_p!(!b(v, "zero") || !b(v, "reach"), "targeter-guess", "{e} although the initial guess achieves the objectives");
            // Small well-posed problems are solved.
            let easy = b(v, "reach") && V == 3 && O == 3 && c.objs.iter().all(|k| *k < 3) && c.vars.iter().all(|k| *k > 2) && v["bound"].is_null() && u(v, "iters") >= 30 && arc > 0.05 * period && arc < 0.4 * period && c.fr.is_none_or(|fr| !dual || fr == world::moon_j2k());
            ensure_p!(!easy, "targeter-unsolved", "{e}: to move by at most 40 m/s per axis over {arc} s of an orbit of {period} s");
            ctx.hit("no solution");
            return Ok(());
        }
    };
    ctx.nontrivial = true;
    ctx.hit(if dual { "solved hyperdual" } else if c.local.is_some() { "solved local" } else { "solved" });
    if c.fr.is_some() {
        ctx.hit("objective frame");
    }
    ctx.sim_s = arc.abs() * (sol.iterations + 1) as f64;
    ensure_p!(sol.iterations <= tgt.iterations, "targeter-iterations", "{} iterations of at most {}", sol.iterations, tgt.iterations);
    ensure_p!(sol.corrected_state.epoch() == c.corr && sol.achieved_state.epoch() == c.end, "targeter-epoch", "corrected at {} and achieved at {}, asked for {} and {}", sol.corrected_state.epoch(), sol.achieved_state.epoch(), c.corr, c.end);
    for (k, x) in variables.iter().enumerate() {
        let d = sol.correction[k];
        ensure_p!(d <= x.max_value + 1e-9 && d >= x.min_value - 1e-9, "targeter-bounds", "the correction {d} of {:?} is not within [{}, {}]", x.component, x.min_value, x.max_value);
        ensure_p!((d - x.init_guess).abs() <= sol.iterations as f64 * x.max_step + 1e-9, "targeter-step", "{:?} moved by {} in {} steps of at most {}", x.component, d - x.init_guess, sol.iterations, x.max_step);
    }
    let want = corrected(sol.correction.as_slice());
    let (dr, dv) = ((want.orbit.radius_km - sol.corrected_state.orbit.radius_km).norm(), (want.orbit.velocity_km_s - sol.corrected_state.orbit.velocity_km_s).norm());
    ensure_p!(dr < 1e-9 && dv < 1e-9, "targeter-corrected", "the corrected state is not the initial state with the correction {:?} in frame {:?}: {dr} km, {dv} km/s off", sol.correction.as_slice(), c.local);
    ensure_p!(sol.corrected_state.mass == start.mass, "targeter-corrected", "the correction changed the mass");
    // Flying the corrected state achieves the objectives.
    let end = match c.calm.with(sol.corrected_state.with_stm_off(), world::almanac()).until_epoch(c.end) {
        Ok(s) => s,
        Err(e) => return fail("targeter-achieved", format!("the corrected state cannot be flown: {e}")),
    };
    let off = (end.orbit.radius_km - sol.achieved_state.orbit.radius_km).norm();
    // The integration with the transition matrix takes the same steps, so only rounding differs.
    ensure_p!(off < 1e-5, "targeter-achieved", "the corrected state flies to {off} km of the achieved state");
    let o = in_frame(&end.orbit, c.fr)?;
    let mut clear = true;
    for k in 0..O {
        let got = element(c.objs[k], &o)?;
        let err = (got - objectives[k].desired_value).abs();
        let noise = match c.objs[k] {
            0..=2 | 6 => 1e-7,
            7 => 1e-9 * (1e3 + got.abs()),
            8 => 1e-8 * (1.0 + got.abs()),
            _ => 1e-8,
        };
        clear &= err < objectives[k].tolerance - noise;
        ensure_p!(err <= objectives[k].tolerance + noise, "targeter-objective", "{:?} is {got}, not {} within {}, with the correction {:?} in frame {:?}", ELS[c.objs[k]], objectives[k].desired_value, objectives[k].tolerance, sol.correction.as_slice(), c.local);
        ensure_p!((sol.achieved_errors[k].abs() - err).abs() <= noise, "targeter-errors", "the error of {:?} is reported as {} instead of {err}", ELS[c.objs[k]], sol.achieved_errors[k]);
    }
    if clear && !fails {
        let (xf, traj) = match no_panic(|| tgt.apply_with_traj(&sol, world::almanac())) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return fail("targeter-apply", format!("the solution is refused: {e}")),
            Err(p) => return fail("targeter-panic", format!("panic: {p}")),
        };
        let off = (xf.orbit.radius_km - end.orbit.radius_km).norm();
        ensure_p!(off < 1e-5 && xf.epoch() == c.end, "targeter-apply", "the solution flies to {off} km of the achieved state at {}", xf.epoch());
        let (a, z) = if arc >= 0.0 { (traj.first(), traj.last()) } else { (traj.last(), traj.first()) };
        ensure_p!(a.epoch() == c.corr && world::same(z, &xf) && (a.orbit.velocity_km_s - sol.corrected_state.orbit.velocity_km_s).norm() < 1e-12, "targeter-apply", "the trajectory runs from {} to {}", a.epoch(), z.epoch());
        ctx.hit("applied");
    }
    // The same solution in any schedule.
    let again = shot()?;
    match again {
        Ok(s) => ensure_p!(world::same(&s.corrected_state, &sol.corrected_state) && s.correction.iter().zip(sol.correction.iter()).all(|(a, b)| a.to_bits() == b.to_bits()) && s.iterations == sol.iterations, "targeter-schedule", "another run found {:?} in {} iterations instead of {:?} in {}", s.correction.as_slice(), s.iterations, sol.correction.as_slice(), sol.iterations),
        Err(e) => return fail("targeter-schedule", format!("another run failed: {e}")),
    }
    world::dig_state(ctx, &sol.corrected_state);
    Ok(())
}
trait StmOff {
    fn with_stm_off(self) -> Self;
}
impl StmOff for Spacecraft {
    fn with_stm_off(mut self) -> Self {
        self.stm = None;
        self
    }
}
fn run_p24(v: &Value, ctx: &mut Ctx) -> Outcome {
    let mut v = v.clone();
    let list = |k: &str| -> Vec<usize> { v[k].as_array().map(|l| l.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect()).unwrap_or_default() };
    let (mut vars, mut objs) = (list("vars"), list("objs"));
    vars.truncate(3);
    objs.truncate(3);
    vars.retain(|k| *k < 6);
    objs.retain(|k| *k < ELS.len());
    if vars.is_empty() || objs.is_empty() {
        return fail(INVALID, "nothing to do");
    }
    let x0 = world::spacecraft(&v["sc"]);
    let period = x0.orbit.period().map(|d| d.to_seconds()).unwrap_or(6000.0);
    let corr = x0.epoch() + i(&v, "pre_s").seconds();
    let end = corr + ((i(&v, "arc_pm") as f64 * 1e-3 * period).round() as i64).seconds();
    if corr == end {
        return fail(INVALID, "no arc");
    }
    let mut local = match v["kind"].as_str() {
        Some("vnc") => Some([LocalFrame::VNC, LocalFrame::RIC, LocalFrame::RCN, LocalFrame::Inertial][u(&v, "local") as usize % 4]),
        _ => None,
    };
    if v["bad"] == "local-position" {
        local = Some(LocalFrame::VNC);
    }
    let fr = match u(&v, "obj_frame") {
        1 => Some(world::moon_j2k()),
        2 => Some(world::iau_earth()),
        _ => None,
    };
    let mut calm = v["dyn"].clone();
    for k in ["fail_above", "fail_below", "fail_after_s"] {
        calm[k] = Value::Null;
    }
    calm["points"] = json!(0);
    let calm = world::propagator(&v["prop"], world::dynamics(&calm));
    if let Some(pm) = v["dyn"]["fail_at_pm"].as_i64() {
        let s = (corr + (pm as f64 * 1e-3 * (end - corr).to_seconds()).seconds() - world::t0()).to_seconds();
        v["dyn"]["fail_after_s"] = json!(s as i64);
    }
    if v["dyn"]["fail_rel_m"].is_i64() || v["dyn"]["fail_rel_lo_m"].is_i64() {
        // Just beyond the extreme radii of the flight without correction.
        let (last, t) = calm.with(x0, world::almanac()).until_epoch(corr).and_then(|s| calm.with(s, world::almanac()).until_epoch_with_traj(end)).map_err(|e| Fail { class: INVALID.into(), msg: format!("{e}") })?;
        let radii: Vec<f64> = t.states.iter().map(|s| s.orbit.rmag_km()).chain([last.orbit.rmag_km(), x0.orbit.rmag_km()]).collect();
        let (lo, hi) = radii.iter().fold((f64::MAX, 0.0f64), |(l, h), r| (l.min(*r), h.max(*r)));
        if let Some(m) = v["dyn"]["fail_rel_m"].as_i64() {
            v["dyn"]["fail_above"] = json!(hi + m as f64 * 1e-3);
        }
        if let Some(m) = v["dyn"]["fail_rel_lo_m"].as_i64() {
            v["dyn"]["fail_below"] = json!(lo + m as f64 * 1e-3);
        }
    }
    let (nv, no) = (vars.len(), objs.len());
    let c = Case { v, calm, x0, corr, end, local, fr, vars, objs };
    match (nv, no) {
        (1, 1) => go::<1, 1>(&c, ctx),
        (1, 2) => go::<1, 2>(&c, ctx),
        (1, _) => go::<1, 3>(&c, ctx),
        (2, 1) => go::<2, 1>(&c, ctx),
        (2, 2) => go::<2, 2>(&c, ctx),
        (2, _) => go::<2, 3>(&c, ctx),
        (_, 1) => go::<3, 1>(&c, ctx),
        (_, 2) => go::<3, 2>(&c, ctx),
        _ => go::<3, 3>(&c, ctx),
    }
}
pub static P24: Prop = Prop {
    id: "P24",
    make: make_p24,
    run: run_p24,
    runs: (800, 60_000),
    rule: "one targeting problem: made from a known correction, out of reach, ill-defined, or with dynamics failing near the solution; its perturbed runs are spread over the simulated threads",
    real: &["nyx targeter (finite differences in rayon threads, hyperdual), dynamics, propagators and trajectories"],
    stub: &["almanac (synthetic constants and ephemerides)", "scheduler"],
    must_hit: &["solved", "solved local", "solved hyperdual", "objective frame", "applied", "no solution", "fault:failing dynamics", "fault:refused step", "fault:refused objective", "fault:refused local-position"],
};
