//! Powered flight (P20) and mission sequences (P21).
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use anise::analysis::prelude::OrbitalElement;
use anise::constants::celestial_objects::{MOON, SUN};
use anise::constants::frames::{EARTH_J2000, SUN_J2000};
use anise::prelude::Frame;
use anise::structure::spacecraft::{DragData, Mass, SRPData};
use hifitime::{Duration, Epoch, TimeUnits, Unit};
use nalgebra::Vector3;
use nyx_space::cosmic::GuidanceMode;
use nyx_space::dynamics::guidance::mnvr::{ImpulsiveManeuver, MnvrRepr};
use nyx_space::dynamics::guidance::{GuidanceLaw, Kluever, LocalFrame, Maneuver, ObjectiveEfficiency, ObjectiveWeight, Ruggiero, Thruster};
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::{Drag, OrbitalDynamics, PointMasses, SolarPressure, SpacecraftDynamics};
use nyx_space::md::StateParameter;
use nyx_space::md::prelude::{Objective, Traj};
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::{Spacecraft, State};
use serde_json::{Value, json};
use std::sync::Arc;

const G0: f64 = 9.80665;
const FRAMES: [LocalFrame; 4] = [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::RCN, LocalFrame::VNC];

fn unit(v: &Value) -> Vector3<f64> {
    let (a, d) = ((f(v, "az_deg")).to_radians(), (f(v, "el_deg")).to_radians());
    Vector3::new(d.cos() * a.cos(), d.cos() * a.sin(), d.sin())
}
/// Local axes as columns, from their definition.
pub fn axes(fr: LocalFrame, r: Vector3<f64>, v: Vector3<f64>) -> [Vector3<f64>; 3] {
    let h = r.cross(&v).normalize();
    match fr {
        LocalFrame::Inertial => [Vector3::x(), Vector3::y(), Vector3::z()],
        LocalFrame::RIC | LocalFrame::RCN => [r.normalize(), h.cross(&r.normalize()), h],
        LocalFrame::VNC => [v.normalize(), h, v.normalize().cross(&h)],
    }
}
pub fn to_inertial(fr: LocalFrame, r: Vector3<f64>, v: Vector3<f64>, x: Vector3<f64>) -> Vector3<f64> {
    let a = axes(fr, r, v);
    a[0] * x[0] + a[1] * x[1] + a[2] * x[2]
}
/// The burn of a scenario, whose window is relative to `t0`.
struct Burn {
    start: Epoch,
    end: Epoch,
    lvl: f64,
    frame: LocalFrame,
    az: [f64; 3],
    el: [f64; 3],
    fixed: bool,
    dir: Vector3<f64>,
}
impl Burn {
    fn of(v: &Value, t0: Epoch) -> Self {
        let start = t0 + i(v, "from_s").seconds();
        let ang = |k: &str, q: &str| [f(v, k).to_radians(), f(v, &format!("{q}_mdeg_s")) * 1e-3f64.to_radians(), f(v, &format!("{q}_udeg_s2")) * 1e-6f64.to_radians()];
        Burn {
            start,
            end: start + i(v, "for_s").max(1).seconds(),
            lvl: f(v, "lvl_pct") * 1e-2,
            frame: FRAMES[u(v, "frame") as usize % 4],
            az: ang("az_deg", "az"),
            el: ang("el_deg", "el"),
            fixed: b(v, "fixed"),
            dir: unit(v),
        }
    }
    fn law(&self) -> Maneuver {
        let poly = |c: [f64; 3]| {
            if c[2] != 0.0 {
                CommonPolynomial::Quadratic { a: c[2], b: c[1], c: c[0] }
            } else if c[1] != 0.0 {
                CommonPolynomial::Linear { a: c[1], b: c[0] }
            } else {
                CommonPolynomial::Constant { a: c[0] }
            }
        };
        Maneuver {
            start: self.start,
            end: self.end,
            thrust_prct: self.lvl,
            representation: if self.fixed { MnvrRepr::Vector(self.dir) } else { MnvrRepr::Angles { azimuth: poly(self.az), elevation: poly(self.el) } },
            frame: self.frame,
        }
    }
    fn on(&self, t: Epoch) -> bool {
        t >= self.start && t <= self.end
    }
    fn at(&self, t: Epoch, r: Vector3<f64>, v: Vector3<f64>) -> Vector3<f64> {
        let x = if self.fixed {
            self.dir
        } else {
            let s = (t - self.start).to_seconds();
            let p = |c: [f64; 3]| c[0] + c[1] * s + c[2] * s * s;
            let (a, d) = (p(self.az), p(self.el));
            Vector3::new(d.cos() * a.cos(), d.cos() * a.sin(), d.sin())
        };
        to_inertial(self.frame, r, v, x)
    }
}
fn draw_burn(r: &mut Rng, span_s: i64) -> Value {
    let rates = r.chance(0.5);
    json!({
        "from_s": r.range(-span_s / 4, span_s), "for_s": r.range(1, span_s), "lvl_pct": *r.pick(&[100, 100, 50, 30, 75]), "frame": r.below(4), "fixed": r.chance(0.5),
        "az_deg": r.range(-180, 180), "el_deg": r.range(-80, 80),
        "az_mdeg_s": if rates { r.range(-100, 100) } else { 0 }, "el_mdeg_s": if rates { r.range(-20, 20) } else { 0 },
        "az_udeg_s2": if rates && r.chance(0.5) { r.range(-20, 20) } else { 0 }, "el_udeg_s2": 0,
    })
}
fn ruggiero_objectives(v: &Value, sc: &Spacecraft) -> Vec<Objective> {
    let o = sc.orbit;
    let mut l = vec![];
    for q in v.as_array().cloned().unwrap_or_default() {
        let (e, now) = match u(&q, "el") {
            0 => (OrbitalElement::SemiMajorAxis, o.sma_km()),
            1 => (OrbitalElement::Eccentricity, o.ecc()),
            _ => (OrbitalElement::Inclination, o.inc_deg()),
        };
        let (d, tol) = match u(&q, "el") {
            0 => (f(&q, "d"), 1.0),
            1 => (f(&q, "d") * 1e-5, 1e-4),
            _ => (f(&q, "d") * 1e-4, 1e-3),
        };
        let want = now.unwrap_or(0.0) + d;
        l.push(Objective::within_tolerance(StateParameter::Element(e), if u(&q, "el") == 1 { want.max(1e-3) } else { want }, tol));
    }
    l
}
/// 2: deep in the shadow of the Earth; 0: clearly in sunlight; 1: near the edge.
fn shadow(s: &Spacecraft) -> u8 {
    let al = world::almanac();
    let Ok(sun) = al.transform(SUN_J2000, s.orbit.frame, s.orbit.epoch, None) else { return 1 };
    let d = sun.radius_km.normalize();
    let along = s.orbit.radius_km.dot(&d);
    let off = (s.orbit.radius_km - d * along).norm();
    // The moon is far from the line to the sun for an edge verdict only if its direction differs.
    let Ok(moon) = al.transform(world::moon_j2k(), s.orbit.frame, s.orbit.epoch, None) else { return 1 };
    let to_moon = (moon.radius_km - s.orbit.radius_km).normalize();
    let to_sun = (sun.radius_km - s.orbit.radius_km).normalize();
    if to_moon.dot(&to_sun) > 0.99 {
        return 1;
    }
    if along < 0.0 && off < 6200.0 && along > -60_000.0 {
        2
    } else if along > 0.0 || off > 6378.0 + 200.0 - 0.006 * along {
        0
    } else {
        1
    }
}
/// The state after `dt` seconds by a fine Runge-Kutta of Kepler's force and a thrust.
fn rk(s: &Spacecraft, dt: f64, rate: f64, acc_n: f64, dir: &dyn Fn(Epoch, Vector3<f64>, Vector3<f64>, f64) -> Vector3<f64>) -> (Vector3<f64>, Vector3<f64>, f64) {
    let mu = s.orbit.frame.mu_km3_s2().unwrap();
    let n = (dt.abs() / 4.0).ceil().max(1.0) as usize;
    let h = dt / n as f64;
    let other = s.mass.dry_mass_kg + s.mass.extra_mass_kg;
    let der = |t: f64, r: Vector3<f64>, v: Vector3<f64>, m: f64| {
        let mut a = r * (-mu / r.norm().powi(3));
        if acc_n > 0.0 {
            a += dir(s.orbit.epoch + t * Unit::Second, r, v, m) * (acc_n * 1e-3 / (other + m));
        }
        (v, a, -rate)
    };
    let (mut r, mut v, mut m) = (s.orbit.radius_km, s.orbit.velocity_km_s, s.mass.prop_mass_kg);
    for k in 0..n {
        let t = h * k as f64;
        let a = der(t, r, v, m);
        let c = der(t + h / 2.0, r + a.0 * (h / 2.0), v + a.1 * (h / 2.0), m + a.2 * (h / 2.0));
        let d = der(t + h / 2.0, r + c.0 * (h / 2.0), v + c.1 * (h / 2.0), m + c.2 * (h / 2.0));
        let e = der(t + h, r + d.0 * h, v + d.1 * h, m + d.2 * h);
        r += (a.0 + c.0 * 2.0 + d.0 * 2.0 + e.0) * (h / 6.0);
        v += (a.1 + c.1 * 2.0 + d.1 * 2.0 + e.1) * (h / 6.0);
        m += (a.2 + c.2 * 2.0 + d.2 * 2.0 + e.2) * (h / 6.0);
    }
    (r, v, m)
}

// ---- P20 ---------------------------------------------------------------------------------------------
fn make_p20(r: &mut Rng, _: u64, _: Tier) -> Value {
    let mut sc = world::draw_sc(r);
    sc["ecc_m"] = json!(*r.pick(&[1, 20, 100]));
    sc["prop"] = json!(*r.pick(&[1, 3, 20, 100, 400]));
    let law = r.below(6);
    let span = if law < 4 { r.range(300, 4000) } else { r.range(3000, 12_000) };
    let legs: Vec<Value> = (0..r.range(1, 4)).map(|_| json!({"dur_s": if r.chance(0.15) { -r.range(60, span / 2) } else { r.range(60, span) }, "how": r.below(3)})).collect();
    json!({
        "sc": sc, "law": law, "burn": draw_burn(r, span), "legs": legs,
        "thrust_mn": *r.pick(&[90, 500, 5_000, 25_000, 400_000]), "isp_s": *r.pick(&[220, 300, 1650, 3000]),
        "decr": r.chance(0.8), "no_thruster": r.chance(0.04), "bad_lvl": r.chance(0.04), "bad_dir": r.chance(0.04), "mode": r.below(3), "extra": r.range(0, 50),
        "eclipse": if r.chance(0.6) { json!(*r.pick(&[1, 20, 80])) } else { Value::Null },
        "objs": (0..r.range(1, 2)).map(|_| json!({"el": r.below(3), "d": r.range(-300, 300)})).collect::<Vec<_>>(),
        "prop": {"method": *r.pick(&[0, 0, 1, 3]), "fixed": r.chance(0.4), "step_s": *r.pick(&[5, 10, 20, 30]), "tol_e": 12, "max_s": *r.pick(&[30, 60])},
        "replay": r.chance(0.3),
    })
}
fn run_p20(v: &Value, ctx: &mut Ctx) -> Outcome {
    let mut sc = world::spacecraft(&v["sc"]);
    let t0 = sc.epoch();
    sc.mass.extra_mass_kg = f(v, "extra");
    let mut thr = Thruster { thrust_N: f(v, "thrust_mn").max(1.0) * 1e-3, isp_s: f(v, "isp_s").max(50.0) };
    if u(v, "law") >= 4 {
        // Closed loop laws are for low thrust: keep the orbit an orbit.
        thr.thrust_N = thr.thrust_N.min(1e-3 * sc.mass.dry_mass_kg);
    }
    if !b(v, "no_thruster") {
        sc.thruster = Some(thr);
    }
    let finite = u(v, "law") < 4;
    sc.mode = match u(v, "mode") {
        0 => GuidanceMode::Coast,
        1 => GuidanceMode::Thrust,
        _ if finite => GuidanceMode::Coast,
        _ => GuidanceMode::Inhibit,
    };
    let mut burn = Burn::of(&v["burn"], t0);
    if b(v, "bad_lvl") {
        burn.lvl = 1.5;
    }
    if b(v, "bad_dir") {
        burn.dir *= 1.7;
        burn.fixed = true;
    }
    let objs = ruggiero_objectives(&v["objs"], &sc);
    let ecl = v["eclipse"].as_i64().map(|x| x as f64);
    let law: Arc<dyn GuidanceLaw> = match u(v, "law") {
        4 => {
            let mut l = Ruggiero::simple(&objs, sc).map_err(|e| Fail { class: INVALID.into(), msg: format!("{e}") })?;
            if let Some(x) = ecl {
                l = Ruggiero::from_max_eclipse(&objs, sc, x).map_err(|e| Fail { class: INVALID.into(), msg: format!("{e}") })?;
            }
            l
        }
        5 => {
            let w = vec![1.0; objs.len()];
            match ecl {
                Some(x) => Kluever::from_max_eclipse(&objs, &w, x),
                None => Arc::new(Kluever { objectives: objs.iter().map(|o| ObjectiveWeight { objective: *o, weight: 1.0 }).collect(), max_eclipse_prct: None }),
            }
        }
        _ => Arc::new(burn.law()),
    };
    let orb = OrbitalDynamics::two_body();
    let dynamics = if b(v, "decr") { SpacecraftDynamics::from_guidance_law(orb, law.clone()) } else { SpacecraftDynamics::from_guidance_law_no_decr(orb, law.clone()) };
    let mut prop = v["prop"].clone();
    if !finite {
        // A closed loop law switches its direction: adaptive steps would chatter at the smallest step.
        prop["fixed"] = json!(true);
    }
    let p = world::propagator(&prop, dynamics);
    let rate = |s: f64| s * thr.thrust_N / (thr.isp_s * G0);
    let lvl = if finite { burn.lvl } else { 1.0 };
    let max_step = f(&v["prop"], "step_s").max(f(&v["prop"], "max_s")).max(1.0);
    let want_mode = |s: &Spacecraft, before: GuidanceMode| -> Option<GuidanceMode> {
        if finite {
            return Some(if burn.on(s.epoch()) { GuidanceMode::Thrust } else { GuidanceMode::Coast });
        }
        if before == GuidanceMode::Inhibit {
            return Some(GuidanceMode::Inhibit);
        }
        let mut done = true;
        for o in &objs {
            let x = s.value(o.parameter).ok()?;
            let err = (x - o.desired_value).abs();
            if (err - o.tolerance).abs() < 1e-9 * (1.0 + o.desired_value.abs()) {
                return None;
            }
            done &= err <= o.tolerance;
        }
        if done {
            return Some(GuidanceMode::Coast);
        }
        match (ecl, shadow(s)) {
            (None, _) | (Some(_), 0) => Some(GuidanceMode::Thrust),
            (Some(_), 2) => Some(GuidanceMode::Coast),
            _ => None,
        }
    };
    let mut profile: Option<(Traj<Spacecraft>, Spacecraft)> = None;
    let legs = v["legs"].as_array().cloned().unwrap_or_default();
    for (n, leg) in legs.iter().enumerate() {
        let dur = i(leg, "dur_s").seconds();
        if dur == Duration::ZERO {
            continue;
        }
        let mut inst = p.with(sc, world::almanac()).quiet();
        let ran = match u(leg, "how") {
            0 => inst.for_duration_with_traj(dur).map(|(e, t)| (e, Some(t))),
            1 => inst.until_epoch_with_traj(sc.epoch() + dur).map(|(e, t)| (e, Some(t))),
            _ => inst.for_duration(dur).map(|e| (e, None)),
        };
        let (lo, hi) = if dur.is_negative() { (sc.epoch() + dur, sc.epoch()) } else { (sc.epoch(), sc.epoch() + dur) };
        // Seconds of this leg in the burn, give or take a step at each side.
        let overlap = if finite { (hi.min(burn.end) - lo.max(burn.start)).to_seconds().max(-1e9) } else { (hi - lo).to_seconds() };
        let (end, traj) = match ran {
            Ok(x) => x,
            Err(e) => {
                let m = format!("{e}");
                let msg = format!("leg {n}: {m}");
                if b(v, "no_thruster") {
                    ctx.hit("fault:no thruster");
                } else if b(v, "bad_lvl") && finite {
                    ensure_p!(overlap > -max_step, "burn-error", "{msg} although the burn is not in this leg");
                    ctx.hit("fault:throttle out of range");
                } else if b(v, "bad_dir") && finite {
                    ensure_p!(overlap > -max_step, "burn-error", "{msg} although the burn is not in this leg");
                    ctx.hit("fault:direction not a unit vector");
                } else {
                    let need = rate(lvl) * (overlap + 2.0 * max_step).max(0.0);
                    ensure_p!(b(v, "decr") && !dur.is_negative() && sc.mass.prop_mass_kg < need, "burn-error", "{msg} although {} kg of propellant were left for {overlap} s of thrust at {} kg/s", sc.mass.prop_mass_kg, rate(lvl));
                    ctx.hit("fault:propellant exhausted");
                }
                ctx.nontrivial = true;
                ctx.digs(&m);
                return Ok(());
            }
        };
        ctx.sim_s += dur.to_seconds().abs();
        ensure_p!(!b(v, "no_thruster"), "burn-no-thruster", "leg {n}: guided flight without a thruster");
        ensure_p!(!(finite && (b(v, "bad_lvl") || b(v, "bad_dir"))) || overlap < 2.0 * max_step, "burn-invalid", "leg {n}: thrust with an invalid throttle or direction");
        ensure_p!(end.mass.prop_mass_kg >= 0.0, "burn-negative", "leg {n}: {} kg of propellant left", end.mass.prop_mass_kg);
        ensure_p!(end.epoch() == sc.epoch() + dur, "burn-epoch", "leg {n}: ended at {}", end.epoch());
        ensure_p!(!finite || !b(v, "decr") || dur.is_negative() || sc.mass.prop_mass_kg - rate(lvl) * (overlap - 2.0 * max_step).max(0.0) >= -1e-9, "burn-free", "leg {n}: {overlap} s of thrust from {} kg of propellant", sc.mass.prop_mass_kg);
        let mut states = match &traj {
            Some(t) => t.states.clone(),
            None => vec![],
        };
        if dur.is_negative() {
            states.reverse();
        }
        let mut thrusting = 0.0;
        for k in 1..states.len() {
            let (a, z) = (states[k - 1], states[k]);
            let dt = (z.epoch() - a.epoch()).to_seconds();
            // The mode of the step is the one decided at its start.
            let mode = if k == 1 {
                match want_mode(&a, a.mode) {
                    Some(m) => m,
                    None => continue,
                }
            } else {
                a.mode
            };
            if let Some(m) = want_mode(&z, mode) {
                ensure_p!(z.mode == m, "burn-mode", "leg {n}: {:?} instead of {m:?} at {} (burn from {} to {}, eclipse limit {ecl:?}, shadow {})", z.mode, z.epoch(), burn.start, burn.end, shadow(&z));
                ctx.hit(&format!("{m:?}"));
            }
            ensure_p!(z.mass.dry_mass_kg == sc.mass.dry_mass_kg && z.mass.extra_mass_kg == sc.mass.extra_mass_kg, "burn-dry", "leg {n}: the dry or extra mass changed");
            let on = mode == GuidanceMode::Thrust;
            let used = a.mass.prop_mass_kg - z.mass.prop_mass_kg;
            if !on || !b(v, "decr") {
                ensure_p!(used == 0.0, "burn-mass", "leg {n}: {used} kg used in {dt} s from {} although {mode:?}", a.epoch());
            } else if finite || u(v, "law") == 5 {
                let w = rate(lvl) * dt;
                ensure_p!((used - w).abs() <= 1e-9 * (1.0 + w.abs()) + 1e-12 * a.mass.prop_mass_kg, "burn-mass", "leg {n}: {used} kg used in {dt} s of thrust from {} instead of {w}", a.epoch());
            } else {
                let w = rate(lvl) * dt;
                // The law may switch within a step, and some weights of an integrator are negative or above one.
                ensure_p!(used.abs() <= 4.0 * w.abs() + 1e-12, "burn-mass", "leg {n}: {used} kg used in {dt} s of thrust from {}", a.epoch());
            }
            // A recorded direction is the applied one.
            if let Some(m) = want_mode(&z, mode) {
                match z.thrust_direction() {
                    Some(d) => {
                        ensure_p!(m == GuidanceMode::Thrust, "burn-direction", "leg {n}: a thrust direction recorded at {} while {m:?}", z.epoch());
                        if finite && !b(v, "bad_dir") {
                            let w = burn.at(z.epoch(), z.orbit.radius_km, z.orbit.velocity_km_s);
                            ensure_p!((d - w).norm() < 1e-9, "burn-direction", "leg {n}: recorded direction {d:?} instead of {w:?}");
                        }
                    }
                    None => ensure_p!(!finite || lvl <= 0.0 || m != GuidanceMode::Thrust, "burn-direction", "leg {n}: no thrust direction recorded at {} while thrusting", z.epoch()),
                }
            }
            if on {
                thrusting += dt.abs();
            }
            // The motion, for a law whose thrust does not switch within the step.
            if finite || !on {
                let (r, w, _) = rk(&a, dt, if b(v, "decr") && on { rate(lvl) } else { 0.0 }, if on { lvl * thr.thrust_N } else { 0.0 }, &|t, r, w, _| burn.at(t, r, w));
                let (dr, dv) = ((r - z.orbit.radius_km).norm(), (w - z.orbit.velocity_km_s).norm());
                let scale = if on { lvl * thr.thrust_N * 1e-3 / a.mass_kg() * dt.abs() } else { 0.0 };
                // A fixed step of a fourth order method is the least accurate.
                let (tr, tv) = if u(&v["prop"], "method") == 3 { (5e-4, 5e-6 + 1e-5 * scale) } else { (2e-5, 2e-8 + 1e-5 * scale) };
                ensure_p!(dr < tr && dv < tv, "burn-motion", "leg {n}: {dr} km and {dv} km/s from the motion under {} N in {dt} s from {} ({mode:?})", lvl * thr.thrust_N, a.epoch());
            }
            world::dig_state(ctx, &z);
        }
        if thrusting > 0.0 {
            ctx.hit("thrust");
        }
        // Between the states, the propellant lies between what they hold.
        if let Some(t) = &traj
            && t.states.len() > 1
        {
            for q in 1..6u64 {
                let k = 1 + ((q * 7919 + dur.to_seconds().abs() as u64) % (t.states.len() as u64 - 1)) as usize;
                let (a, z) = (&t.states[k - 1], &t.states[k]);
                let at = a.epoch() + (z.epoch() - a.epoch()) * (q as f64 * 0.17);
                if at <= a.epoch() || at >= z.epoch() {
                    continue;
                }
                let x = t.at(at).map_err(|e| Fail { class: "burn-at".into(), msg: format!("leg {n}: {e}") })?;
                let (lo, hi) = (a.mass.prop_mass_kg.min(z.mass.prop_mass_kg), a.mass.prop_mass_kg.max(z.mass.prop_mass_kg));
                let m = x.mass.prop_mass_kg;
                ensure_p!(m >= lo - 1e-9 && m <= hi + 1e-9, "burn-at-mass", "leg {n}: {m} kg of propellant interpolated at {at} between {} kg and {} kg", a.mass.prop_mass_kg, z.mass.prop_mass_kg);
                ensure_p!(x.mass.dry_mass_kg == sc.mass.dry_mass_kg && x.mass.extra_mass_kg == sc.mass.extra_mass_kg && x.thruster == a.thruster && x.epoch() == at, "burn-at-mass", "leg {n}: interpolated at {at}: {}", world::show(&x));
                ctx.hit("interpolated mass");
            }
        }
        if finite && overlap > 0.0 && traj.is_some() {
            ensure_p!((thrusting - overlap).abs() <= 2.0 * max_step + 1.0, "burn-duration", "leg {n}: {thrusting} s of thrust in {overlap} s of burn");
        }
        if let Some(t) = traj
            && n == 0
            && !dur.is_negative()
        {
            profile = Some((t, end));
        }
        sc = end;
    }
    ctx.nontrivial = true;
    // Flying the recorded profile of a constant burn again.
    if b(v, "replay") && finite && burn.fixed && burn.frame == LocalFrame::Inertial && burn.lvl == 1.0 {
        if let Some((t, end)) = profile {
            let first = t.states[0];
            if !burn.on(first.epoch()) || first.mode == GuidanceMode::Thrust {
                let g = t.to_thrust_direction_replay();
                let d = if b(v, "decr") { SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), g) } else { SpacecraftDynamics::from_guidance_law_no_decr(OrbitalDynamics::two_body(), g) };
                let again = world::propagator(&v["prop"], d).with(first, world::almanac()).quiet().until_epoch(end.epoch());
                let e = again.map_err(|e| Fail { class: "burn-replay".into(), msg: format!("{e}") })?;
                let du = (e.mass.prop_mass_kg - end.mass.prop_mass_kg).abs();
                let dv = (e.orbit.velocity_km_s - end.orbit.velocity_km_s).norm();
                // Up to one step less or more at each change of mode: integrators evaluate the law across steps.
                let slack = 2.0 * max_step;
                let near = 1e-8 + 20.0 * slack * thr.thrust_N * 1e-3 / end.mass_kg();
                ensure_p!(du <= rate(1.0) * slack + 1e-9 && dv < near, "burn-replay", "replaying the profile used {du} kg more or less and ends with {dv} km/s of difference");
                ctx.hit("replay");
            }
        }
    }
    Ok(())
}
pub static P20: Prop = Prop {
    id: "P20",
    make: make_p20,
    run: run_p20,
    runs: (1500, 60_000),
    rule: "one history of guided legs (burns in any frame, Ruggiero, Kluever; missing thrusters, invalid throttles, running dry), every step compared with the burn window, the rocket equation and an independent integration",
    real: &["nyx spacecraft dynamics, guidance laws, propagators and trajectories"],
    stub: &["almanac (synthetic constants and ephemerides)", "scheduler"],
    must_hit: &["thrust", "Thrust", "Coast", "Inhibit", "replay", "fault:no thruster", "fault:throttle out of range", "fault:direction not a unit vector", "fault:propellant exhausted"],
};

// ---- P21 ---------------------------------------------------------------------------------------------
fn make_p21(r: &mut Rng, _: u64, _: Tier) -> Value {
    let n = r.range(1, 5);
    let phases: Vec<Value> = (0..n)
        .map(|_| {
            let dur = r.range(120, 3000);
            json!({
                "dur_s": dur, "prop": r.below(6), "thr": r.below(2), "law": if r.chance(0.25) { r.range(1, 2) } else { 0 },
                "objs": (0..r.range(1, 2)).map(|_| json!({"el": r.below(3), "d": r.range(-300, 300)})).collect::<Vec<_>>(), "ev_prop": r.range(0, 9), "ev_extra": r.range(0, 20), "burn": if r.chance(0.35) { draw_burn(r, dur) } else { Value::Null }, "no_mass": r.chance(0.2),
                "event": r.below(8), "ev_frame": r.below(4), "ev_dv": [r.range(-20, 20), r.range(-20, 20), r.range(-20, 20)], "ev_mass": r.range(1, 30), "ev_full": r.chance(0.5),
                "disabled": r.chance(0.12),
            })
        })
        .collect();
    let mut sc = world::draw_sc(r);
    sc["prop"] = json!(*r.pick(&[1, 50, 400]));
    sc["dry"] = json!(r.range(800, 2000));
    json!({
        "sc": sc, "phases": phases, "until": r.range(-1, n), "cuts": (0..3).map(|_| r.range(0, n)).collect::<Vec<_>>(), "late": r.chance(0.2), "no_setup": r.chance(0.1), "ghost": r.chance(0.1),
        "method": r.below(3), "step_s": *r.pick(&[10, 30, 60]), "fixed": r.chance(0.4), "thrust_mn": *r.pick(&[500, 5_000, 200_000]),
    })
}
fn event_of(p: &Value) -> Option<DiscreteEvent> {
    let dv = Vector3::from_iterator((0..3).map(|k| p["ev_dv"][k].as_f64().unwrap_or(0.0) * 1e-3));
    let m = f(p, "ev_mass");
    let props = PhysicalProperties {
        mass: Some(Mass { dry_mass_kg: m, prop_mass_kg: 0.1 * f(p, "ev_prop"), extra_mass_kg: f(p, "ev_extra") }),
        srp: b(p, "ev_full").then_some(SRPData { area_m2: 0.01 * m, coeff_reflectivity: 0.002 * m }),
        drag: b(p, "ev_full").then_some(DragData { area_m2: 0.02 * m, coeff_drag: 0.001 * m }),
    };
    let mnvr = ImpulsiveManeuver { local_frame: FRAMES[u(p, "ev_frame") as usize % 4], dv_km_s: dv };
    match u(p, "event") {
        1 => Some(DiscreteEvent::Staging { impulsive_maneuver: Some(mnvr), decrement_properties: Some(props) }),
        2 => Some(DiscreteEvent::Docking { impulsive_maneuver: Some(mnvr), increment_properties: Some(props) }),
        3 => Some(DiscreteEvent::Staging { impulsive_maneuver: None, decrement_properties: Some(props) }),
        4 => Some(DiscreteEvent::Docking { impulsive_maneuver: Some(mnvr), increment_properties: None }),
        5 => Some(DiscreteEvent::FrameSwap { new_frame: world::moon_j2k() }),
        6 => Some(DiscreteEvent::FrameSwap { new_frame: world::eme2k() }),
        _ => None,
    }
}
/// What the event of a phase does to the state.
fn apply(p: &Value, mut s: Spacecraft) -> Spacecraft {
    let kind = u(p, "event");
    let m = f(p, "ev_mass");
    if [1, 2, 4].contains(&kind) {
        let dv = Vector3::from_iterator((0..3).map(|k| p["ev_dv"][k].as_f64().unwrap_or(0.0) * 1e-3));
        s.orbit.velocity_km_s += to_inertial(FRAMES[u(p, "ev_frame") as usize % 4], s.orbit.radius_km, s.orbit.velocity_km_s, dv);
    }
    if [1, 2, 3].contains(&kind) {
        let q = if kind == 2 { 1.0 } else { -1.0 };
        s.mass.dry_mass_kg += q * m;
        s.mass.prop_mass_kg += q * 0.1 * f(p, "ev_prop");
        s.mass.extra_mass_kg += q * f(p, "ev_extra");
        if b(p, "ev_full") {
            s.srp.area_m2 += q * 0.01 * m;
            s.srp.coeff_reflectivity += q * 0.002 * m;
            s.drag.area_m2 += q * 0.02 * m;
            s.drag.coeff_drag += q * 0.001 * m;
        }
    }
    let swap = |s: &mut Spacecraft, fr: Frame| {
        if !fr.ephem_origin_match(s.orbit.frame) {
            s.orbit = world::almanac().transform_to(s.orbit, fr, None).unwrap();
        }
    };
    match kind {
        5 => swap(&mut s, world::moon_j2k()),
        6 => swap(&mut s, world::eme2k()),
        _ => {}
    }
    s
}
fn near(a: &Spacecraft, z: &Spacecraft) -> bool {
    let m = |s: &Spacecraft| [s.mass.dry_mass_kg, s.mass.prop_mass_kg, s.mass.extra_mass_kg, s.srp.area_m2, s.srp.coeff_reflectivity, s.drag.area_m2, s.drag.coeff_drag];
    a.epoch() == z.epoch()
        && a.orbit.frame.ephem_origin_match(z.orbit.frame)
        && a.orbit.frame.orient_origin_match(z.orbit.frame)
        && (a.orbit.radius_km - z.orbit.radius_km).norm() < 1e-6
        && (a.orbit.velocity_km_s - z.orbit.velocity_km_s).norm() < 1e-9
        && m(a).iter().zip(m(z)).all(|(x, y)| (x - y).abs() < 1e-9)
}
fn run_p21(v: &Value, ctx: &mut Ctx) -> Outcome {
    let al = world::almanac();
    let sc = world::spacecraft(&v["sc"]);
    let phases = v["phases"].as_array().cloned().unwrap_or_default();
    if phases.is_empty() {
        return fail(INVALID, "no phase");
    }
    let mut seq = SpacecraftSequence::default();
    let step = f(v, "step_s").max(1.0) * Unit::Second;
    let options = if b(v, "fixed") {
        IntegratorOptions::with_fixed_step(step)
    } else {
        IntegratorOptions::builder().init_step(step).min_step(1e-3 * Unit::Second).max_step(300.0 * Unit::Second).tolerance(1e-11).error_ctrl(ErrorControl::RSSCartesianStep).build()
    };
    let method = [IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78, IntegratorMethod::DormandPrince45][u(v, "method") as usize % 3];
    let srp = SolarPressure::default_no_estimation(vec![EARTH_J2000], &al).map_err(|e| Fail { class: INVALID.into(), msg: format!("{e}") })?;
    let drag = Drag::earth_exp(&al).map_err(|e| Fail { class: INVALID.into(), msg: format!("{e}") })?;
    let moon = || Some(PointMasses::new(vec![MOON]));
    let models = [(None, None, None), (moon(), None, None), (Some(PointMasses::new(vec![SUN])), None, None), (None, Some(srp.clone()), None), (None, None, Some(drag.clone())), (moon(), Some(srp), Some(drag))];
    for (k, (m, s, d)) in models.iter().enumerate() {
        let accel_models = AccelModels { point_masses: m.clone(), gravity_field: None, solid_tides: None };
        let force_models = ForceModels { solar_pressure: s.as_deref().cloned(), drag: d.as_deref().copied() };
        seq.propagators.insert(format!("prop{k}"), PropagatorConfig { method, options, dynamics: Dynamics { accel_models, force_models } });
    }
    let n_props = models.len() as u64;
    let thr = [Thruster { thrust_N: f(v, "thrust_mn").max(1.0) * 1e-3, isp_s: 300.0 }, Thruster { thrust_N: f(v, "thrust_mn").max(1.0) * 0.4e-3, isp_s: 210.0 }];
    seq.thruster_sets.insert("thr0".into(), thr[0]);
    seq.thruster_sets.insert("thr1".into(), thr[1]);
    let law_of = |p: &Value| if b(v, "fixed") && f(v, "thrust_mn") < 1e3 { u(p, "law") } else { 0 };
    let objs = |p: &Value| ruggiero_objectives(&p["objs"], &sc);
    let ruggiero = |p: &Value| objs(p).into_iter().map(|objective| ObjectiveEfficiency { objective, efficiency: 0.0 }).collect::<Vec<_>>();
    let kluever = |p: &Value| objs(p).into_iter().map(|objective| ObjectiveWeight { objective, weight: 1.0 }).collect::<Vec<_>>();
    let mut start = vec![sc.epoch()];
    for p in &phases {
        start.push(*start.last().unwrap() + i(p, "dur_s").max(1).seconds());
    }
    // A phase around the moon keeps to simple gravity.
    for (k, p) in phases.iter().enumerate() {
        let guidance = p["burn"].is_object().then(|| {
            let law = match law_of(p) {
                1 => SteeringLaw::Ruggiero { objectives: ruggiero(p), max_eclipse_prct: None },
                2 => SteeringLaw::Kluever { objectives: kluever(p), max_eclipse_prct: None },
                _ => SteeringLaw::FiniteBurn(Burn::of(&p["burn"], start[k]).law()),
            };
            Box::new(GuidanceConfig { thruster_model: format!("thr{}", u(p, "thr") % 2), disable_prop_mass: b(p, "no_mass"), law })
        });
        seq.seq.insert(start[k], Phase::Activity { name: format!("phase{k}"), propagator: format!("prop{}", u(p, "prop") % n_props), guidance, on_entry: event_of(p).map(Box::new), disabled: b(p, "disabled") });
    }
    let n = phases.len();
    ensure_p!(seq.validate().is_err(), "sequence-validate", "a sequence without an end is accepted");
    seq.seq.insert(start[n], Phase::Terminate);
    if b(v, "ghost") {
        let mut bad = seq.clone();
        bad.propagators.remove(&format!("prop{}", u(&phases[0], "prop") % n_props));
        ensure_p!(bad.setup(al.clone()).is_err(), "sequence-validate", "an undefined propagator is accepted");
        ctx.hit("fault:undefined propagator");
    }
    let name = |k: usize| format!("phase{k}");
    if b(v, "no_setup") && !phases.iter().all(|p| b(p, "disabled")) {
        ensure_p!(seq.propagate(sc, None, al.clone()).is_err(), "sequence-setup", "a sequence was propagated without being set up");
        ctx.hit("fault:not set up");
    }
    seq.setup(al.clone()).map_err(|e| Fail { class: "sequence-setup".into(), msg: e })?;
    if b(v, "late") {
        let mut s = sc;
        s.orbit.epoch = start[n] + 1.seconds();
        ensure_p!(seq.propagate(s, None, al.clone()).is_err(), "sequence-late", "a state after the end of the sequence was propagated");
        ctx.hit("fault:start after the end");
    }
    // The phases one by one.
    let until = if i(v, "until") < 0 { n } else { (i(v, "until") as usize).min(n) };
    let mut x = sc;
    let mut want: Vec<(usize, Spacecraft, Spacecraft, Traj<Spacecraft>)> = vec![];
    let mut broken: Option<String> = None;
    for k in 0..until {
        let p = &phases[k];
        if b(p, "disabled") {
            continue;
        }
        let first = apply(p, x);
        let (m, s, dr) = &models[(u(p, "prop") % n_props) as usize];
        let accel_models: Vec<Arc<dyn nyx_space::dynamics::AccelModel + Sync>> = m.iter().map(|m| Arc::new(m.clone()) as Arc<dyn nyx_space::dynamics::AccelModel + Sync>).collect();
        let mut d = SpacecraftDynamics::new(OrbitalDynamics::new(accel_models));
        if let Some(s) = s {
            d.force_models.push(s.clone());
        }
        if let Some(dr) = dr {
            d.force_models.push(dr.clone());
        }
        let mut go = first;
        if p["burn"].is_object() {
            go.thruster = Some(thr[u(p, "thr") as usize % 2]);
            d.guid_law = Some(match law_of(p) {
                1 => Arc::new(Ruggiero { objectives: ruggiero(p), max_eclipse_prct: None, init_state: go }),
                2 => Arc::new(Kluever { objectives: kluever(p), max_eclipse_prct: None }),
                _ => Arc::new(Burn::of(&p["burn"], start[k]).law()),
            });
            d.decrement_mass = !b(p, "no_mass");
            if law_of(p) > 0 {
                ctx.hit("closed loop phase");
            }
            if want.iter().any(|(j, ..)| phases[*j]["burn"].is_object() && u(&phases[*j], "thr") % 2 != u(p, "thr") % 2) {
                ctx.hit("thruster switch");
            }
        }
        match Propagator::new(d, method, options).with(go, al.clone()).quiet().until_epoch_with_traj(start[k + 1]) {
            Ok((e, t)) => {
                want.push((k, first, e, t));
                x = e;
            }
            Err(e) => {
                broken = Some(format!("{e}"));
                break;
            }
        }
    }
    let target = if i(v, "until") < 0 { None } else { Some(if until < n { name(until) } else { "no such phase".into() }) };
    let whole = seq.propagate(sc, target.clone(), al.clone());
    let whole = match (whole, &broken) {
        (Ok(w), None) => w,
        (Err(_), Some(_)) => {
            ctx.hit("fault:failing phase");
            ctx.nontrivial = true;
            return Ok(());
        }
        (Ok(w), Some(e)) => return fail("sequence-error", format!("{} trajectories although a phase fails: {e}", w.len())),
        (Err(e), None) => return fail("sequence-error", format!("{e} although every phase succeeds alone")),
    };
    ctx.sim_s += (start[until] - sc.epoch()).to_seconds();
    ensure_p!(whole.len() == want.len(), "sequence-phases", "{} trajectories instead of {} (until {target:?})", whole.len(), want.len());
    for (t, (k, first, end, alone)) in whole.iter().zip(&want) {
        ensure_p!(t.name.as_deref() == Some(name(*k).as_str()), "sequence-name", "{:?} instead of {}", t.name, name(*k));
        ensure_p!(near(t.first(), first), "sequence-entry", "{} starts with {} instead of {} (event {})", name(*k), world::show(t.first()), world::show(first), u(&phases[*k], "event"));
        ensure_p!(near(t.last(), end) || (t.last().orbit.radius_km - end.orbit.radius_km).norm() < 1e-3, "sequence-end", "{} ends with {} instead of {}", name(*k), world::show(t.last()), world::show(end));
        ensure_p!(t.last().epoch() == start[*k + 1], "sequence-end", "{} ends at {}", name(*k), t.last().epoch());
        ensure_p!((t.last().mass.prop_mass_kg - end.mass.prop_mass_kg).abs() < 1e-6, "sequence-mass", "{} ends with {} kg of propellant instead of {}", name(*k), t.last().mass.prop_mass_kg, end.mass.prop_mass_kg);
        ensure_p!(t.states.windows(2).all(|w| w[0].epoch() < w[1].epoch()) && t.states.len() + 2 > alone.states.len() / 2, "sequence-states", "{} has {} states instead of {}", name(*k), t.states.len(), alone.states.len());
        if event_of(&phases[*k]).is_some() {
            ctx.hit("event");
        }
        if phases[*k]["burn"].is_object() {
            ctx.hit("guided phase");
        }
        for s in &t.states {
            world::dig_state(ctx, s);
        }
    }
    // Stopped before a phase and resumed from the last recorded state.
    if phases.iter().all(|p| !b(p, "disabled")) {
        let mut cuts: Vec<usize> = v["cuts"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).filter(|x| *x < until).collect()).unwrap_or_default();
        cuts.sort();
        cuts.dedup();
        let mut got: Vec<Traj<Spacecraft>> = vec![];
        let mut at = sc;
        let bad = |e: String| Fail { class: "sequence-resume".into(), msg: e };
        for c in &cuts {
            let part = seq.propagate(at, Some(name(*c)), al.clone()).map_err(|e| bad(format!("until {}: {e}", name(*c))))?;
            if let Some(t) = part.last() {
                at = *t.last();
            }
            got.extend(part);
        }
        got.extend(seq.propagate(at, target, al.clone()).map_err(|e| bad(format!("{e}")))?);
        ensure_p!(got.len() == whole.len(), "sequence-resume", "{} phases when stopped at {cuts:?} instead of {}", got.len(), whole.len());
        for (a, z) in got.iter().zip(&whole) {
            ensure_p!(a.name == z.name && world::same_states(&a.states, &z.states), "sequence-resume", "{:?} differs when the sequence is stopped at {cuts:?}", z.name);
        }
        if !cuts.is_empty() {
            ctx.hit("fault:stopped and resumed");
            ctx.nontrivial = true;
        }
    } else {
        ctx.hit("disabled");
        ctx.nontrivial = true;
    }
    Ok(())
}
pub static P21: Prop = Prop {
    id: "P21",
    make: make_p21,
    run: run_p21,
    runs: (1500, 60_000),
    rule: "one mission sequence with events, burns, disabled phases and faults, whole and stopped and resumed at drawn phases, compared with its phases one by one",
    real: &["nyx spacecraft sequences, dynamics, guidance, propagators and trajectories"],
    stub: &["almanac (synthetic constants and ephemerides)", "scheduler"],
    must_hit: &["event", "guided phase", "closed loop phase", "thruster switch", "disabled", "fault:stopped and resumed", "fault:failing phase", "fault:not set up", "fault:start after the end", "fault:undefined propagator"],
};
