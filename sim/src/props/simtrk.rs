//! Simulated tracking: P15 (measurements of a schedule) and P16 (schedules).
use super::od::{self, SITES};
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, i, u};
use anise::structure::location::TerrainMask;
use hifitime::{Duration, Epoch, TimeUnits, Unit};
use nalgebra::Vector3;
use nyx_space::Spacecraft;
use nyx_space::md::prelude::Traj;
use nyx_space::od::msr::{MeasurementType, TrackingDataArc};
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::prelude::*;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrackingArcSim, TrkConfig};
use serde_json::{Value, json};
use std::collections::BTreeMap;

const TYPES: [MeasurementType; 4] = [MeasurementType::Range, MeasurementType::Doppler, MeasurementType::Azimuth, MeasurementType::Elevation];
fn sigma(t: MeasurementType) -> f64 {
    match t {
        MeasurementType::Range => 2e-3,
        MeasurementType::Doppler => 1e-6,
        _ => 1e-3,
    }
}
fn station(k: usize, d: &Value) -> GroundStation {
    let (n, lat, lon) = SITES[k % SITES.len()];
    let mut g = GroundStation::from_point(n.to_string(), lat, lon, 0.1 * k as f64, world::iau_earth());
    if i(d, "mask_deg") != 0 {
        g.location.terrain_mask = vec![TerrainMask { azimuth_deg: 0.0, elevation_mask_deg: i(d, "mask_deg") as f64 }];
    }
    g.location.terrain_mask_ignored = false;
    let bits = u(d, "types");
    for (q, t) in TYPES.iter().enumerate() {
        if bits >> q & 1 == 1 {
            let white_noise = if b(d, "quiet") { None } else { Some(WhiteNoise::constant_white_noise(sigma(*t))) };
            g = g.with_msr_type(*t, StochasticNoise { white_noise, bias: None });
        }
    }
    if u(d, "integ_s") > 0 {
        g = g.with_integration_time(Some(Unit::Second * u(d, "integ_s") as i64));
    }
    if b(d, "ts_noise") {
        g.timestamp_noise_s = Some(StochasticNoise { white_noise: Some(WhiteNoise::constant_white_noise(1e-3)), bias: None });
    }
    g
}
fn mask(d: &Value) -> f64 {
    i(d, "mask_deg") as f64
}
fn orbit_traj(v: &Value, ctx: &mut Ctx) -> Result<Traj<Spacecraft>, Fail> {
    let p = world::propagator(&v["prop"], world::dynamics(&json!({})));
    let dur = Unit::Second * i(v, "dur_s").max(600);
    let bad = |e: String| Fail { class: INVALID.into(), msg: e };
    let sc = world::spacecraft(&v["sc"]);
    let (_, t) = p.with(sc, world::almanac()).quiet().for_duration_with_traj(dur).map_err(|e| bad(format!("{e}")))?;
    ctx.sim_s += dur.to_seconds();
    Ok(t)
}
/// Range, range rate, azimuth and elevation from vectors.
fn aer(g: &GroundStation, sc: &Spacecraft) -> [f64; 4] {
    let al = world::almanac();
    let (dr, dv) = od::los(g, sc);
    let at = |g: &GroundStation| al.transform_to(g.to_orbit(sc.orbit.epoch, &al).unwrap(), sc.orbit.frame, None).unwrap().radius_km;
    let here = at(g);
    let mut h = g.clone();
    h.location.height_km += 1.0;
    let up = (at(&h) - here).normalize();
    let mut h = g.clone();
    h.location.latitude_deg += 1e-2;
    let to_north = at(&h) - here;
    let north = (to_north - up * up.dot(&to_north)).normalize();
    let east = north.cross(&up);
    let d: Vector3<f64> = dr.normalize();
    let el = d.dot(&up).clamp(-1.0, 1.0).asin().to_degrees();
    let az = d.dot(&east).atan2(d.dot(&north)).to_degrees().rem_euclid(360.0);
    [dr.norm(), dr.dot(&dv) / dr.norm(), az, el]
}
fn wrap180(x: f64) -> f64 {
    (x + 180.0).rem_euclid(360.0) - 180.0
}

// ---- P15 ---------------------------------------------------------------------------------------------
fn make_p15(r: &mut Rng, _: u64, _: Tier) -> Value {
    let mut sc = world::draw_sc(r);
    if r.chance(0.5) {
        sc["peri"] = json!(r.range(9000, 30000));
    }
    let dur = r.range(3000, 20000);
    let n = r.range(1, 4);
    let mut ks: Vec<usize> = (0..SITES.len()).collect();
    for q in (1..ks.len()).rev() {
        ks.swap(q, r.below(q as u64 + 1) as usize);
    }
    let devs: Vec<Value> = ks[..n as usize]
        .iter()
        .map(|k| {
            let sampling = *r.pick(&[7, 10, 30, 60, 90, 300]);
            let mut at = r.range(-600, 1000);
            let strands: Vec<Value> = (0..r.range(1, 4))
                .map(|_| {
                    let a = at;
                    let z = a + r.range(sampling, sampling * 60);
                    at = z + r.range(1, 3000);
                    json!([a, z])
                })
                .collect();
            json!({"site": k, "mask_deg": *r.pick(&[0, 0, 5, 10]), "types": r.range(1, 15), "integ_s": *r.pick(&[0, 0, 1, 60]), "quiet": r.chance(0.2), "ts_noise": r.chance(0.15), "sampling_s": sampling, "strands": strands})
        })
        .collect();
    json!({"sc": sc, "prop": world::draw_prop(r), "dur_s": dur, "devs": devs, "rng": r.below(1 << 40), "copies": r.range(1, 3), "again": r.chance(0.3)})
}
type Sim = TrackingArcSim<Spacecraft, GroundStation>;
fn devices(v: &Value) -> Vec<(usize, Value)> {
    v["devs"].as_array().cloned().unwrap_or_default().into_iter().map(|d| (u(&d, "site") as usize % SITES.len(), d)).collect()
}
fn sim_of(v: &Value, traj: &Traj<Spacecraft>, seed: u64) -> Result<Sim, String> {
    let t0 = world::spacecraft(&v["sc"]).orbit.epoch;
    let (mut dev, mut cfg) = (BTreeMap::new(), BTreeMap::new());
    for (k, d) in devices(v) {
        let g = station(k, &d);
        let strands = d["strands"].as_array().cloned().unwrap_or_default().iter().map(|s| Strand { start: t0 + Unit::Second * s[0].as_i64().unwrap_or(0), end: t0 + Unit::Second * s[1].as_i64().unwrap_or(0) }).collect();
        cfg.insert(g.name.clone(), TrkConfig { scheduler: None, sampling: Unit::Second * u(&d, "sampling_s").max(1) as i64, strands: Some(strands) });
        dev.insert(g.name.clone(), g);
    }
    Sim::with_seed(dev, traj.clone(), cfg, seed).map_err(|e| format!("{e}"))
}
fn same_arc(a: &TrackingDataArc, z: &TrackingDataArc) -> bool {
    format!("{:?}", a.measurements) == format!("{:?}", z.measurements)
}
fn run_p15(v: &Value, ctx: &mut Ctx) -> Outcome {
    let traj = orbit_traj(v, ctx)?;
    let al = world::almanac();
    let devs = devices(v);
    let names: Vec<usize> = devs.iter().map(|(k, _)| *k).collect();
    if devs.is_empty() || names.iter().any(|k| names.iter().filter(|x| *x == k).count() > 1) || devs.iter().any(|(_, d)| u(d, "types") & 15 == 0) {
        return fail(INVALID, "no device");
    }
    for (_, d) in &devs {
        let st = d["strands"].as_array().cloned().unwrap_or_default();
        let bad = st.is_empty() || st.windows(2).any(|w| w[0][1].as_i64() >= w[1][0].as_i64()) || st.iter().any(|s| s[1].as_i64().unwrap_or(0) - s[0].as_i64().unwrap_or(0) < u(d, "sampling_s").max(1) as i64);
        if bad {
            return fail(INVALID, "strands overlap or are too short");
        }
    }
    let err = |e: String| Fail { class: "sim-error".into(), msg: format!("the simulation was refused: {e}") };
    let seed = u(v, "rng");
    let mut sim = sim_of(v, &traj, seed).map_err(err)?;
    let arc = sim.generate_measurements(&al).map_err(|e| err(format!("{e}")))?;
    // Other simulators, some with the same seed, run at the same time.
    let copies = u(v, "copies").max(1);
    let others: Vec<Result<TrackingDataArc, String>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..copies)
            .map(|c| {
                let (al, traj) = (&al, &traj);
                s.spawn(move || sim_of(v, traj, seed + c / 2 * 77)?.generate_measurements(al).map_err(|e| format!("{e}")))
            })
            .collect();
        h.into_iter().map(|h| h.join().expect("join")).collect()
    });
    for (c, o) in others.into_iter().enumerate() {
        let o = o.map_err(err)?;
        if c < 2 {
            ensure_p!(same_arc(&arc, &o), "sim-repeat", "the same seed gave {} measurements once and {} the next time, or other values", arc.measurements.len(), o.measurements.len());
            ctx.hit("same seed at the same time");
        }
    }
    check_arc(v, ctx, &traj, &arc)?;
    if b(v, "again") {
        let more = sim.generate_measurements(&al).map_err(|e| err(format!("{e}")))?;
        check_arc(v, ctx, &traj, &more)?;
        if !arc.measurements.is_empty() && devs.iter().all(|(_, d)| !b(d, "quiet")) {
            ensure_p!(!same_arc(&arc, &more), "sim-again", "generating measurements again repeated the noise");
            ctx.hit("again");
        }
    }
    ctx.nontrivial = !arc.measurements.is_empty();
    for m in &arc.measurements {
        for x in m.data.values() {
            ctx.digf(*x);
        }
    }
    Ok(())
}
fn check_arc(v: &Value, ctx: &mut Ctx, traj: &Traj<Spacecraft>, arc: &TrackingDataArc) -> Outcome {
    let t0 = world::spacecraft(&v["sc"]).orbit.epoch;
    for w in arc.measurements.windows(2) {
        ensure_p!(w[0].epoch <= w[1].epoch, "sim-order", "a measurement at {} follows one at {}", w[1].epoch, w[0].epoch);
    }
    let (first, last) = (traj.first().orbit.epoch, traj.last().orbit.epoch);
    let mut seen = 0;
    for (k, d) in devices(v) {
        let g = station(k, &d);
        let integ = Unit::Second * u(&d, "integ_s") as i64;
        let two = u(&d, "integ_s") > 0;
        let mut mine: Vec<_> = arc.measurements.iter().filter(|m| m.tracker == g.name).collect();
        seen += mine.len();
        let slack = if b(&d, "ts_noise") { 0.01.seconds() } else { Duration::ZERO };
        let mut sum = [0.0f64; 4];
        let mut count = 0;
        for s in d["strands"].as_array().cloned().unwrap_or_default() {
            let (a, z) = (t0 + Unit::Second * s[0].as_i64().unwrap_or(0), t0 + Unit::Second * s[1].as_i64().unwrap_or(0));
            let mut e: Epoch = a;
            while e <= z {
                let pos = mine.iter().position(|m| (m.epoch - e).abs() <= slack);
                let got = pos.map(|p| mine.remove(p));
                let at = |e: Epoch| traj.at(e).ok().map(|x| aer(&g, &x));
                let (one, other) = (at(e), if two { at(e - integ) } else { None });
                let known = one.is_some() && (!two || other.is_some());
                let what = format!("{} at {e}", g.name);
                if !known {
                    ensure_p!(got.is_none(), "sim-outside", "{what}: a measurement outside of the trajectory from {first} to {last}");
                } else {
                    let one = one.unwrap();
                    let el = other.map_or(one[3], |o: [f64; 4]| o[3].min(one[3])) - mask(&d);
                    // A one way strand that starts before the trajectory is skipped.
                    let skipped = !two && a < first;
                    ensure_p!(el < 1e-3 || skipped || got.is_some(), "sim-missing", "{what}: no measurement although the vehicle is {el} deg above the mask");
                    ensure_p!(el > -1e-3 || got.is_none(), "sim-invisible", "{what}: a measurement although the vehicle is {el} deg above the mask");
                    if let Some(m) = got {
                        let want: Vec<MeasurementType> = TYPES.iter().enumerate().filter(|(q, _)| u(&d, "types") >> q & 1 == 1).map(|(_, t)| *t).collect();
                        ensure_p!(m.data.len() == want.len() && !m.rejected, "sim-types", "{what}: {} observables instead of {want:?}", m.data.len());
                        for (q, t) in TYPES.iter().enumerate().filter(|(_, t)| want.contains(t)) {
                            let Some(x) = m.data.get(t) else { return fail("sim-types", format!("{what}: no {t:?}")) };
                            let mut ideal = one[q];
                            if let Some(o) = other {
                                ideal = if q == 2 { o[2] + wrap180(one[2] - o[2]) / 2.0 } else { (o[q] + one[q]) / 2.0 };
                                if q == 2 && wrap180(one[2] - o[2]).abs() < (one[2] - o[2]).abs() {
                                    ctx.hit("azimuth through north");
                                }
                            }
                            let sig = if b(&d, "quiet") { 0.0 } else { sigma(*t) } / if two { 2f64.sqrt() } else { 1.0 };
                            let num = match q {
                                0 => 1e-6,
                                1 => 1e-9,
                                2 => 2e-3 / (one[3].to_radians().cos().max(1e-6)),
                                _ => 1e-4,
                            };
                            let d = if q == 2 { wrap180(x - ideal) } else { x - ideal };
                            ensure_p!(x.is_finite() && d.abs() <= 8.0 * sig + num, "sim-value", "{what}: {t:?} is {x} but the geometry says {ideal} with the noise {sig}");
                            if sig > 0.0 && num < 1e-2 * sig {
                                sum[q] += (d / sig).powi(2);
                            } else if sig > 0.0 {
                                sum[q] += 1.0;
                            }
                        }
                        count += 1;
                        ctx.hit(if two { "two way" } else { "one way" });
                    } else {
                        ctx.hit("invisible");
                    }
                }
                e += Unit::Second * u(&d, "sampling_s").max(1) as i64;
            }
        }
        if count >= 60 && !b(&d, "quiet") {
            for (q, t) in TYPES.iter().enumerate().filter(|(q, _)| u(&d, "types") >> q & 1 == 1) {
                let x = sum[q] / count as f64;
                ensure_p!((0.2..3.5).contains(&x), "sim-noise", "{}: the noise on {t:?} has {x} times the configured variance over {count} samples", g.name);
            }
            ctx.hit("noise level");
        }
        ensure_p!(mine.is_empty(), "sim-extra", "{} has a measurement at {} which is not a sample of a strand", g.name, mine[0].epoch);
    }
    ensure_p!(seen == arc.measurements.len(), "sim-extra", "{} measurements of unknown trackers", arc.measurements.len() - seen);
    Ok(())
}
pub static P15: Prop = Prop {
    id: "P15",
    make: make_p15,
    run: run_p15,
    runs: (1800, 100_000),
    rule: "every sample of every strand has a measurement exactly when the geometry allows one, with the value of the geometry plus the configured noise, and the same seed repeats the arc",
    real: &["nyx-space tracking simulator, ground stations, noise models, trajectory interpolation, propagators"],
    stub: &["almanac (synthetic constants and ephemerides)", "system clock", "scheduler"],
    must_hit: &["one way", "two way", "invisible", "same seed at the same time", "noise level", "again", "azimuth through north"],
};

// ---- P16 ---------------------------------------------------------------------------------------------
fn make_p16(r: &mut Rng, _: u64, _: Tier) -> Value {
    let mut sc = world::draw_sc(r);
    sc["peri"] = json!(*r.pick(&[7000, 8000, 10000, 14000, 20000, 26000]));
    let n = r.range(1, 6);
    let mut ks: Vec<usize> = (0..SITES.len()).collect();
    for q in (1..ks.len()).rev() {
        ks.swap(q, r.below(q as u64 + 1) as usize);
    }
    let same = r.chance(0.4).then(|| r.below(3));
    let devs: Vec<Value> = ks[..n as usize]
        .iter()
        .map(|k| {
            let mut d = json!({"site": k, "mask_deg": *r.pick(&[0, 5, 10]), "types": 1, "sampling_s": *r.pick(&[10, 30, 60, 120]), "handoff": same.unwrap_or(r.below(3)), "min": *r.pick(&[1, 10, 30]), "align_s": *r.pick(&[0, 1, 1, 10])});
            if r.chance(0.3) {
                d["on_s"] = json!(r.range(60, 7200));
                d["off_s"] = json!(r.range(60, 20000));
            }
            d
        })
        .collect();
    json!({"sc": sc, "prop": world::draw_prop(r), "dur_s": r.range(5000, 40000), "devs": devs})
}
fn scheduled(v: &Value, traj: &Traj<Spacecraft>, overlap: bool) -> Result<Sim, String> {
    let (mut dev, mut cfg) = (BTreeMap::new(), BTreeMap::new());
    for (k, d) in devices(v) {
        let g = station(k, &d);
        let handoff = match u(&d, "handoff") {
            _ if overlap => Handoff::Overlap,
            0 => Handoff::Eager,
            1 => Handoff::Greedy,
            _ => Handoff::Overlap,
        };
        let cadence = if u(&d, "on_s") > 0 { Cadence::Intermittent { on: Unit::Second * u(&d, "on_s") as i64, off: Unit::Second * u(&d, "off_s").max(1) as i64 } } else { Cadence::Continuous };
        let sample_alignment = if u(&d, "align_s") > 0 { Some(Unit::Second * u(&d, "align_s") as i64) } else { None };
        let s = Scheduler { handoff, cadence, min_samples: u(&d, "min") as u32, sample_alignment };
        cfg.insert(g.name.clone(), TrkConfig { scheduler: Some(s), sampling: Unit::Second * u(&d, "sampling_s").max(1) as i64, strands: None });
        dev.insert(g.name.clone(), g);
    }
    Sim::with_seed(dev, traj.clone(), cfg, 3).map_err(|e| format!("{e}"))
}
fn run_p16(v: &Value, ctx: &mut Ctx) -> Outcome {
    let traj = orbit_traj(v, ctx)?;
    let al = world::almanac();
    let devs = devices(v);
    let names: Vec<usize> = devs.iter().map(|(k, _)| *k).collect();
    if devs.is_empty() || names.iter().any(|k| names.iter().filter(|x| *x == k).count() > 1) {
        return fail(INVALID, "no device");
    }
    let err = |e: String| Fail { class: "schedule-error".into(), msg: format!("the schedule was refused: {e}") };
    let plain = scheduled(v, &traj, true).map_err(err)?.generate_schedule(&al).map_err(|e| err(format!("{e}")))?;
    let mut sim = scheduled(v, &traj, false).map_err(err)?;
    let got = sim.generate_schedule(&al).map_err(|e| err(format!("{e}")))?;
    sim.build_schedule(&al).map_err(|e| err(format!("{e}")))?;
    ensure_p!(sim.configs == got, "schedule-repeat", "building the schedule gave another schedule than generating it");
    let (first, last) = (traj.first().orbit.epoch, traj.last().orbit.epoch);
    let strands = |m: &BTreeMap<String, TrkConfig>, n: &str| m[n].strands.clone().unwrap_or_default();
    for (k, d) in &devs {
        let g = station(*k, d);
        let c = &got[&g.name];
        ensure_p!(c.scheduler.is_none() && c.strands.is_some() && c.sampling == Unit::Second * u(d, "sampling_s").max(1) as i64, "schedule-config", "{}: not a schedule of strands: {c:?}", g.name);
        let s = strands(&plain, &g.name);
        let align = Unit::Second * u(d, "align_s") as i64;
        let eps = align * 0.5 + 1.seconds();
        for w in s.windows(2) {
            ensure_p!(w[0].end < w[1].start, "schedule-order", "{}: {} is followed by {}", g.name, w[0], w[1]);
            if u(d, "on_s") > 0 {
                ensure_p!(w[1].start - w[0].end >= Unit::Second * u(d, "off_s").max(1) as i64, "schedule-cadence", "{}: {} follows {} too soon", g.name, w[1], w[0]);
            }
        }
        for x in &s {
            if u(d, "on_s") > 0 {
                ensure_p!(x.duration() <= Unit::Second * u(d, "on_s") as i64, "schedule-cadence", "{}: {x} is longer than the cadence allows", g.name);
            }
            if align > Duration::ZERO && u(d, "on_s") == 0 {
                ensure_p!(x.start == x.start.round(align) && x.end == x.end.round(align), "schedule-alignment", "{}: {x} is not aligned", g.name);
            }
            ensure_p!(x.start <= x.end && x.start >= first - eps && x.end <= last + eps, "schedule-span", "{}: {x} is not within the trajectory", g.name);
        }
        // Visible exactly during the strands, as far as cadence and the minimum length allow.
        let step = 20.seconds();
        let up = |e: Epoch| traj.at(e).ok().map(|x| od::elevation(&g, &x) - mask(d));
        let mut pass: Option<Epoch> = None;
        let mut e = first;
        let mut passes: Vec<(Epoch, Epoch)> = vec![];
        while e <= last {
            let el = up(e).unwrap_or(-90.0);
            let inside = s.iter().any(|x| x.start + eps < e && e < x.end - eps);
            ensure_p!(!inside || el > -0.05, "schedule-invisible", "{}: tracking at {e} with the vehicle {el} deg above the mask", g.name);
            if el > 0.0 {
                pass.get_or_insert(e);
            } else if let Some(a) = pass.take() {
                passes.push((a, e - step));
            }
            e += step;
        }
        if let Some(a) = pass {
            passes.push((a, e - step));
        }
        for (a, z) in passes {
            let min = Unit::Second * (u(d, "sampling_s").max(1) * u(d, "min")) as i64;
            let tracked = s.iter().filter(|x| x.start <= z + eps && x.end >= a - eps).count();
            if z - a > min + 1.seconds() && u(d, "on_s") == 0 {
                ensure_p!(tracked == 1, "schedule-missed", "{}: {tracked} strands for the pass from {a} to {z}", g.name);
                let x = s.iter().find(|x| x.start <= z + eps && x.end >= a - eps).unwrap();
                ensure_p!(x.start <= a + eps && x.end >= z - eps, "schedule-missed", "{}: {x} does not cover the pass from {a} to {z}", g.name);
                ctx.hit("pass tracked");
            } else if z - a + step * 2.0 < min - 2.seconds() {
                ensure_p!(tracked == 0, "schedule-short", "{}: a strand for the pass from {a} to {z}, shorter than {min}", g.name);
                ctx.hit("short pass");
            }
        }
        if u(d, "on_s") > 0 && !s.is_empty() {
            ctx.hit("intermittent");
        }
    }
    // Hand-offs.
    struct One {
        name: String,
        hand: u64,
        sampling: Duration,
        s: Strand,
    }
    let mut all: Vec<One> = vec![];
    for (k, d) in &devs {
        let name = SITES[*k].0.to_string();
        for s in strands(&got, &name) {
            all.push(One { name: name.clone(), hand: u(d, "handoff").min(2), sampling: Unit::Second * u(d, "sampling_s").max(1) as i64, s });
        }
    }
    for x in &all {
        ensure_p!(x.s.start <= x.s.end, "handoff-empty", "{}: {} ends before it starts", x.name, x.s);
        for y in all.iter().filter(|y| y.name != x.name && y.s.start > x.s.start && y.s.start <= x.s.end) {
            ensure_p!(x.hand == 2, "handoff-overlap", "{} tracks over {} although {} starts at {} and its hand-off is not Overlap", x.name, x.s, y.name, y.s.start);
            ctx.hit("overlap");
        }
    }
    for (k, d) in &devs {
        let name = SITES[*k].0.to_string();
        let sampling = Unit::Second * u(d, "sampling_s").max(1) as i64;
        let hand = u(d, "handoff").min(2);
        let now = strands(&got, &name);
        for o in strands(&plain, &name) {
            let kept: Vec<&Strand> = now.iter().filter(|x| x.start >= o.start && x.end <= o.end).collect();
            // Greedy strands that hold the vehicle when this one could start.
            let held = |until: Epoch| all.iter().any(|x| x.name != name && x.hand == 1 && x.s.start <= o.start && x.s.end + sampling == until) || all.iter().any(|x| x.name != name && x.hand == 1 && x.s.start < until && x.s.end + sampling == until);
            match kept[..] {
                [x] => {
                    if x.start != o.start {
                        ensure_p!(held(x.start), "handoff-delay", "{name}: {o} became {x} although no greedy tracker ends a sample before");
                        ctx.hit("greedy hand-off");
                    }
                    if x.end != o.end {
                        ensure_p!(hand == 0 && all.iter().any(|y| y.name != name && y.s.start == x.end + sampling), "handoff-early", "{name}: {o} became {x} although its hand-off is {hand} or no tracker follows");
                        ctx.hit("eager hand-off");
                    }
                }
                [] => {
                    let greedy = all.iter().any(|x| x.name != name && x.hand == 1 && x.s.start <= o.end && x.s.end + sampling > o.end);
                    let eager = hand == 0 && all.iter().any(|y| y.name != name && y.s.start >= o.start && y.s.start - sampling < o.start + (o.end - o.start)) ;
                    ensure_p!(greedy || eager, "handoff-lost", "{name}: {o} was dropped although nobody else tracks");
                    ctx.hit("strand given up");
                }
                _ => return fail("handoff-split", format!("{name}: {o} became {} strands", kept.len())),
            }
        }
        ensure_p!(now.len() <= strands(&plain, &name).len(), "handoff-extra", "{name}: {} strands from {}", now.len(), strands(&plain, &name).len());
    }
    ctx.nontrivial = !all.is_empty();
    for x in &all {
        ctx.digs(&format!("{}{}", x.name, x.s));
    }
    Ok(())
}
pub static P16: Prop = Prop {
    id: "P16",
    make: make_p16,
    run: run_p16,
    runs: (450, 40_000),
    rule: "strands are the passes found by sampling the elevation, cut by cadence and minimum length; the hand-off rules hold for every pair of strands",
    real: &["nyx-space scheduler, anise visibility search, rayon, trajectory interpolation, propagators"],
    stub: &["almanac (synthetic constants and ephemerides)", "system clock", "scheduler"],
    must_hit: &["pass tracked", "short pass", "intermittent", "greedy hand-off", "eager hand-off", "overlap"],
};
