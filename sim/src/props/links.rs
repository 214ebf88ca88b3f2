//! P29: links between spacecraft, to ground assets, and position fixes: simulated measurements and the filters which use them.
use super::od::{Res, hash01};
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use anise::prelude::{Aberration, Frame, Orbit};
use hifitime::{Duration, Epoch, TimeUnits, Unit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, DMatrix, DVector, SVector, Vector3};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::prelude::Traj;
use nyx_space::od::groundpnt::GroundAsset;
use nyx_space::od::groundpnt::ground_dynamics::GroundDynamics;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::prelude::*;
use nyx_space::od::simulator::{Strand, TrackingArcSim, TrkConfig};
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use serde_json::{Value, json};
use std::collections::BTreeMap;

const XYZ: [MeasurementType; 3] = [MeasurementType::X, MeasurementType::Y, MeasurementType::Z];
fn sigma(t: MeasurementType) -> f64 {
    match t {
        MeasurementType::Doppler => 1e-6,
        MeasurementType::Range => 2e-3,
        _ => 5e-3,
    }
}
fn noise_of(t: MeasurementType, quiet: bool) -> StochasticNoise {
    StochasticNoise { white_noise: if quiet { None } else { Some(WhiteNoise::constant_white_noise(sigma(t))) }, bias: None }
}

// ---- vehicles ----------------------------------------------------------------------------------------
fn frame_of(moon: bool, fixed: bool) -> Frame {
    match (moon, fixed) {
        (false, false) => world::eme2k(),
        (false, true) => world::iau_earth(),
        (true, false) => world::moon_j2k(),
        (true, true) => world::almanac().frame_info(anise::constants::frames::IAU_MOON_FRAME).unwrap(),
    }
}
/// Equatorial and polar radius.
fn shape(moon: bool) -> (f64, f64) {
    if moon { (1737.4, 1737.4) } else { (6378.14, 6356.75) }
}
fn start_of(v: &Value) -> Epoch {
    world::t0() + i(v, "epoch_s").seconds()
}
fn vehicle(v: &Value, o: &Value) -> Spacecraft {
    let moon = b(o, "moon");
    let (a, _) = shape(moon);
    let ecc = (f(o, "ecc_m") * 1e-3).clamp(1e-4, 0.5);
    let sma = a * (1.0 + f(o, "alt_m").max(30.0) * 1e-3) / (1.0 - ecc);
    Spacecraft::from(Orbit::keplerian(sma, ecc, f(o, "inc"), f(o, "raan"), f(o, "aop"), f(o, "ta"), start_of(v), frame_of(moon, false)))
}
fn dynamics() -> SpacecraftDynamics {
    SpacecraftDynamics::new(OrbitalDynamics::two_body())
}
fn prop(v: &Value) -> Propagator<SpacecraftDynamics> {
    let s = Unit::Second * i(v, "step_s").max(5);
    Propagator::new(dynamics(), IntegratorMethod::RungeKutta89, IntegratorOptions::with_fixed_step(s))
}
fn bad(e: impl std::fmt::Display) -> Fail {
    Fail { class: INVALID.into(), msg: format!("{e}") }
}
fn fly(v: &Value, o: &Value, from_s: i64, to_s: i64) -> Result<Traj<Spacecraft>, Fail> {
    let sc = prop(v).with(vehicle(v, o), world::almanac()).quiet().for_duration(Unit::Second * from_s).map_err(bad)?;
    let (_, mut t) = prop(v).with(sc, world::almanac()).quiet().for_duration_with_traj(Unit::Second * (to_s - from_s).max(60)).map_err(bad)?;
    if b(o, "fixed") {
        let fr = frame_of(b(o, "moon"), true);
        for s in t.states.iter_mut() {
            s.orbit = world::almanac().transform_to(s.orbit, fr, None).map_err(bad)?;
        }
    }
    Ok(t)
}
fn transmitters(v: &Value) -> Result<Vec<InterlinkTxSpacecraft>, Fail> {
    let mut out = vec![];
    for (k, o) in v["tx"].as_array().cloned().unwrap_or_default().iter().enumerate() {
        let mut traj = fly(v, o, i(o, "from_s"), i(o, "to_s"))?;
        traj.name = Some(format!("Tx{k}"));
        let quiet = b(o, "quiet");
        let types: &[MeasurementType] = match u(o, "types") {
            1 => &[MeasurementType::Doppler, MeasurementType::Range],
            2 => &[MeasurementType::Range],
            3 => &[MeasurementType::Doppler],
            _ => &[MeasurementType::Range, MeasurementType::Doppler],
        };
        out.push(InterlinkTxSpacecraft {
            traj,
            measurement_types: types.iter().copied().collect(),
            integration_time: (u(o, "integ_s") > 0).then(|| Unit::Second * u(o, "integ_s") as i64),
            timestamp_noise_s: b(o, "ts_noise").then(|| StochasticNoise { white_noise: Some(WhiteNoise::constant_white_noise(1e-3)), bias: None }),
            stochastic_noises: Some(types.iter().map(|t| (*t, noise_of(*t, quiet))).collect::<IndexMap<_, _>>()),
            ab_corr: if b(o, "lt") { Aberration::LT } else { None },
        });
    }
    Ok(out)
}
fn asset0(v: &Value) -> GroundAsset {
    let a = &v["asset"];
    let fr = frame_of(b(a, "moon"), true);
    let (mut lat, mut lon) = (f(a, "lat"), f(a, "lon"));
    if b(a, "near") {
        // Not far from the ground track
        let sc = vehicle(v, &v["tx"][0]);
        let t = Unit::Second * (i(v, "dur_s") / 3);
        if let Some(o) = prop(v).with(sc, world::almanac()).quiet().for_duration(t).ok().and_then(|s| world::almanac().transform_to(s.orbit, fr, None).ok()) {
            let r = o.radius_km;
            lat = ((r.z / r.norm()).asin().to_degrees() + lat / 6.0).clamp(-88.0, 88.0);
            lon = r.y.atan2(r.x).to_degrees() + lon / 12.0;
        }
    }
    let mut g = GroundAsset::from_fixed(lat, lon, f(a, "h_m") * 1e-3, start_of(v), fr);
    g.latitude_rate_deg_s = f(a, "dlat") * 1e-6;
    g.longitude_rate_deg_s = f(a, "dlon") * 1e-6;
    g.height_rate_km_s = f(a, "dh") * 1e-6;
    g
}

// ---- geometry ----------------------------------------------------------------------------------------
/// Position and velocity of an asset on its body, and the local vertical.
fn on_ground(moon: bool, x: &[f64; 6]) -> (Vector3<f64>, Vector3<f64>, Vector3<f64>) {
    let (a, p) = shape(moon);
    let e2 = 1.0 - (p / a).powi(2);
    let (sf, cf) = x[0].to_radians().sin_cos();
    let (sl, cl) = x[1].to_radians().sin_cos();
    let w = (1.0 - e2 * sf * sf).sqrt();
    let (n, m) = (a / w, a * (1.0 - e2) / (w * w * w));
    let up = Vector3::new(cf * cl, cf * sl, sf);
    let north = Vector3::new(-sf * cl, -sf * sl, cf);
    let east = Vector3::new(-sl, cl, 0.0);
    let r = Vector3::new((n + x[2]) * cf * cl, (n + x[2]) * cf * sl, (n * (1.0 - e2) + x[2]) * sf);
    let vel = north * (x[3].to_radians() * (m + x[2])) + east * (x[4].to_radians() * (n + x[2]) * cf) + up * x[5];
    (r, vel, up)
}
fn range_rate(dr: &Vector3<f64>, dv: &Vector3<f64>) -> [f64; 2] {
    [dr.norm(), dr.dot(dv) / dr.norm()]
}
fn transmitter_at(tx: &InterlinkTxSpacecraft, e: Epoch, fr: Frame) -> Option<Orbit> {
    let o = tx.traj.at(e).ok()?.orbit;
    world::almanac().transform_to(o, fr, None).ok()
}
/// Range and range rate, and by how much the line of sight clears the body (km for spacecraft, degrees for assets).
fn link_sc(tx: &InterlinkTxSpacecraft, moon_tx: bool, rx: &Spacecraft) -> Option<([f64; 2], f64)> {
    let al = world::almanac();
    let a = transmitter_at(tx, rx.orbit.epoch, rx.orbit.frame)?;
    let obs = range_rate(&(rx.orbit.radius_km - a.radius_km), &(rx.orbit.velocity_km_s - a.velocity_km_s));
    // Distance of the segment from the centre of the body of the transmitter.
    let fr = frame_of(moon_tx, false);
    let p = al.transform_to(a, fr, None).ok()?.radius_km;
    let q = al.transform_to(rx.orbit, fr, None).ok()?.radius_km;
    let d = q - p;
    let s = (-p.dot(&d) / d.norm_squared()).clamp(0.0, 1.0);
    Some((obs, (p + d * s).norm() - shape(moon_tx).0))
}
fn link_ground(tx: &InterlinkTxSpacecraft, moon: bool, e: Epoch, x: &[f64; 6]) -> Option<([f64; 2], f64)> {
    let a = transmitter_at(tx, e, frame_of(moon, true))?;
    let (r, vel, up) = on_ground(moon, x);
    let dr = a.radius_km - r;
    Some((range_rate(&dr, &(a.velocity_km_s - vel)), (dr.normalize().dot(&up)).clamp(-1.0, 1.0).asin().to_degrees()))
}
fn vec_asset(g: &GroundAsset) -> [f64; 6] {
    [g.latitude_deg, g.longitude_deg, g.height_km, g.latitude_rate_deg_s, g.longitude_rate_deg_s, g.height_rate_km_s]
}

// ---- scenario ----------------------------------------------------------------------------------------
fn draw_orbit(r: &mut Rng, moon: bool) -> Value {
    json!({"moon": moon, "alt_m": *r.pick(&[60, 150, 400, 1000, 2500]) + r.range(0, 50), "ecc_m": r.range(1, 300), "inc": r.range(3, 150), "raan": r.range(0, 359), "aop": r.range(0, 359), "ta": r.range(0, 359)})
}
fn make(r: &mut Rng, _: u64, tier: Tier) -> Value {
    let kind = *r.pick(&[0, 0, 0, 1, 1, 2]);
    let moon = r.chance(0.3);
    let dur = r.range(900, if tier == Tier::Quick { 6000 } else { 20000 });
    let n = if kind == 0 { r.range(1, 3) } else { 1 };
    let single = r.chance(0.25);
    let tx: Vec<Value> = (0..n)
        .map(|_| {
            let m = if kind == 0 && r.chance(0.12) { !moon } else { moon };
            let mut o = draw_orbit(r, m);
            if kind == 1 {
                o["alt_m"] = json!(r.range(300, 3000));
            }
            o["fixed"] = json!(r.chance(0.2));
            o["from_s"] = json!(if r.chance(0.15) { r.range(0, dur / 2) } else { -700 });
            o["to_s"] = json!(if r.chance(0.2) { dur / 2 + r.range(100, dur / 2) } else { dur + 700 });
            o["types"] = json!(if single { r.range(2, 3) } else { r.range(0, 1) });
            o["integ_s"] = json!(*r.pick(&[0, 0, 0, 1, 60]));
            o["ts_noise"] = json!(r.chance(0.1));
            o["quiet"] = json!(r.chance(0.15));
            o["lt"] = json!(m == moon && r.chance(0.3));
            let sampling = *r.pick(&[10, 30, 60, 120]);
            o["sampling_s"] = json!(sampling);
            let mut at = r.range(-300, 600);
            let st: Vec<Value> = (0..r.range(1, 3))
                .map(|_| {
                    let a = at;
                    let z = a + r.range(sampling, sampling * 50);
                    at = z + r.range(1, 1500);
                    json!([a, z])
                })
                .collect();
            o["strands"] = json!(st);
            o
        })
        .collect();
    let mut types: Vec<u64> = vec![0, 1, 2];
    for q in (1..3usize).rev() {
        types.swap(q, r.below(q as u64 + 1) as usize);
    }
    if r.chance(0.4) {
        types.truncate(r.range(1, 2) as usize);
    }
    let still = r.chance(0.4);
    let faults = *r.pick(&[0.0, 0.15, 0.4]);
    json!({"kind": kind, "epoch_s": r.range(-200_000, 200_000), "dur_s": dur, "step_s": *r.pick(&[10, 30, 60]), "tx": tx, "rx": draw_orbit(r, moon), "xyz": types, "m": r.range(1, 3),
        "asset": {"moon": moon, "near": r.chance(0.8), "lat": r.range(-85, 85), "lon": r.range(-180, 180), "h_m": r.range(-400, 5000), "dlat": if still { 0 } else { r.range(-200, 200) }, "dlon": if still { 0 } else { r.range(-200, 200) }, "dh": if still { 0 } else { r.range(-2000, 2000) }},
        "rng": r.below(1 << 40), "ckf": r.chance(0.4), "reject": if r.chance(0.5) { json!(*r.pick(&[3.0, 5.0, 10.0])) } else { Value::Null }, "max_step_s": *r.pick(&[10, 60, 300]),
        "truth": r.below(1 << 40), "sig": *r.pick(&[0.01, 0.1, 1.0]), "faults": faults, "fseed": r.below(1 << 40), "max_msr": if tier == Tier::Quick { 40 } else { 200 }, "cut": r.chance(0.06), "export": r.chance(0.3)})
}

// ---- simulated measurements --------------------------------------------------------------------------
struct Dev<'a> {
    name: String,
    cfg: &'a Value,
    types: Vec<MeasurementType>,
}
fn strands(v: &Value, o: &Value) -> Vec<(Epoch, Epoch)> {
    let t0 = start_of(v);
    o["strands"].as_array().cloned().unwrap_or_default().iter().map(|s| (t0 + Unit::Second * s[0].as_i64().unwrap_or(0), t0 + Unit::Second * s[1].as_i64().unwrap_or(0))).collect()
}
fn trk_cfg(v: &Value, o: &Value) -> TrkConfig {
    TrkConfig { scheduler: None, sampling: Unit::Second * u(o, "sampling_s").max(1) as i64, strands: Some(strands(v, o).into_iter().map(|(start, end)| Strand { start, end }).collect()) }
}
/// `at` gives the values and the clearance at an epoch if everybody's position is known.
fn check_arc(v: &Value, ctx: &mut Ctx, devs: &[Dev], arc: &TrackingDataArc, edge: f64, at: &dyn Fn(usize, Epoch) -> Option<(Vec<f64>, f64)>) -> Outcome {
    for w in arc.measurements.windows(2) {
        ensure_p!(w[0].epoch <= w[1].epoch, "link-order", "a measurement at {} follows one at {}", w[1].epoch, w[0].epoch);
    }
    let mut seen = 0;
    for (k, d) in devs.iter().enumerate() {
        let mut mine: Vec<&Measurement> = arc.measurements.iter().filter(|m| m.tracker == d.name).collect();
        seen += mine.len();
        let integ = Unit::Second * u(d.cfg, "integ_s") as i64;
        let two = u(d.cfg, "integ_s") > 0 && u(v, "kind") != 2;
        let ts = b(d.cfg, "ts_noise") && u(v, "kind") != 2;
        let slack = if ts { 0.01.seconds() } else { Duration::ZERO };
        let (mut sum, mut count, mut shift) = (vec![0.0; d.types.len()], 0, 0.0);
        for (a, z) in strands(v, d.cfg) {
            let mut unknown = false;
            let mut e = a;
            while e <= z {
                let pos = mine.iter().position(|m| (m.epoch - e).abs() <= slack);
                let got = pos.map(|p| mine.remove(p));
                let what = format!("{} at {e}", d.name);
                let (one, other) = (at(k, e), if two { at(k, e - integ) } else { None });
                if one.is_none() || (two && other.is_none()) {
                    ensure_p!(got.is_none(), "link-outside", "{what}: a measurement outside of a trajectory");
                    unknown = true;
                    ctx.hit("outside");
                } else {
                    let (one, mut clear) = one.unwrap();
                    if let Some((_, c)) = &other {
                        clear = clear.min(*c);
                    }
                    ensure_p!(clear < edge || unknown || got.is_some(), "link-missing", "{what}: no measurement although the line of sight clears the body by {clear}");
                    ensure_p!(clear > -edge || got.is_none(), "link-blocked", "{what}: a measurement although the line of sight is {} inside of the body", -clear);
                    if let Some(m) = got {
                        ensure_p!(m.data.len() == d.types.len() && !m.rejected, "link-types", "{what}: {} observables instead of {:?}", m.data.len(), d.types);
                        for (q, t) in d.types.iter().enumerate() {
                            let Some(x) = m.data.get(t) else { return fail("link-types", format!("{what}: no {t:?}")) };
                            let ideal = other.as_ref().map_or(one[q], |(o, _)| (o[q] + one[q]) / 2.0);
                            let sig = if b(d.cfg, "quiet") { 0.0 } else { sigma(*t) } / if two { 2f64.sqrt() } else { 1.0 };
                            let num = if *t == MeasurementType::Doppler { 1e-9 } else { 1e-6 };
                            let dx = x - ideal;
                            ensure_p!(x.is_finite() && dx.abs() <= 8.0 * sig + num, "link-value", "{what}: {t:?} is {x} but the geometry says {ideal} with the noise {sig}");
                            sum[q] += if sig > 0.0 { (dx / sig).powi(2) } else { 1.0 };
                        }
                        shift += (m.epoch - e).to_seconds().abs();
                        count += 1;
                        ctx.hit(if two { "integrated" } else { "instantaneous" });
                    } else {
                        ctx.hit("blocked");
                    }
                }
                e += Unit::Second * u(d.cfg, "sampling_s").max(1) as i64;
            }
        }
        if count >= 60 {
            for (q, t) in d.types.iter().enumerate() {
                let x = sum[q] / count as f64;
                ensure_p!((0.2..3.5).contains(&x), "link-noise", "{}: the noise on {t:?} has {x} times the configured variance over {count} samples", d.name);
            }
            ensure_p!(!ts || shift > 0.0, "link-noise", "{}: no timestamp noise over {count} samples", d.name);
            ctx.hit("noise level");
        }
        ensure_p!(mine.is_empty(), "link-extra", "{} has a measurement at {} which is not a sample of a strand", d.name, mine[0].epoch);
    }
    ensure_p!(seen == arc.measurements.len(), "link-extra", "{} measurements of unknown trackers", arc.measurements.len() - seen);
    Ok(())
}
/// What may happen to measurements on their way to the filter. Returns whether one is not a number.
fn damage(v: &Value, ctx: &mut Ctx, arc: &mut TrackingDataArc) -> bool {
    let (p, s) = (f(v, "faults"), u(v, "fseed"));
    let mut nan = false;
    let mut out = vec![];
    for (k, m) in arc.measurements.iter().take(u(v, "max_msr").max(2) as usize).enumerate() {
        let mut m = m.clone();
        if hash01(s, 3 * k as u64) >= p {
            out.push(m);
            continue;
        }
        let which = (hash01(s, 3 * k as u64 + 2) * m.data.len() as f64) as usize;
        match (hash01(s, 3 * k as u64 + 1) * 30.0) as u64 {
            0..=4 => ctx.hit("fault:msr-lost"),
            5..=9 => {
                out.push(m.clone());
                out.push(m);
                ctx.hit("fault:msr-repeated");
            }
            10..=13 => {
                m.rejected = true;
                out.push(m);
                ctx.hit("fault:msr-flagged");
            }
            14..=17 => {
                m.tracker = "Nobody".into();
                out.push(m);
                ctx.hit("fault:msr-unknown");
            }
            18..=22 => {
                let (t, x) = m.data.get_index_mut(which).unwrap();
                *x += 40.0 * sigma(*t);
                out.push(m);
                ctx.hit("fault:msr-outlier");
            }
            23..=28 => {
                if m.data.len() > 1 {
                    m.data.shift_remove_index(which);
                }
                out.push(m);
                ctx.hit("fault:msr-partial");
            }
            _ => {
                *m.data.get_index_mut(which).unwrap().1 = f64::NAN;
                nan = true;
                out.push(m);
                ctx.hit("fault:msr-nan");
            }
        }
    }
    arc.measurements = out;
    nan
}

// ---- filter ------------------------------------------------------------------------------------------
struct Row<S> {
    epoch: Epoch,
    nominal: S,
    after: S,
    dev: DVector<f64>,
    p: DMatrix<f64>,
    pbar: DMatrix<f64>,
    predicted: bool,
    res: Option<Res>,
    gain: Option<DMatrix<f64>>,
}
fn dm<R: nalgebra::Dim, C: nalgebra::Dim, T: nalgebra::RawStorage<f64, R, C>>(m: &nalgebra::Matrix<f64, R, C, T>) -> DMatrix<f64> {
    DMatrix::from_iterator(m.nrows(), m.ncols(), m.iter().copied())
}
macro_rules! rows {
    ($sol:expr) => {{
        let s = $sol;
        (0..s.estimates.len())
            .map(|k| Row {
                epoch: s.estimates[k].epoch(),
                nominal: s.estimates[k].nominal_state,
                after: s.estimates[k].state(),
                dev: DVector::from_iterator(s.estimates[k].state_deviation.len(), s.estimates[k].state_deviation.iter().copied()),
                p: dm(&s.estimates[k].covar),
                pbar: dm(&s.estimates[k].covar_bar),
                predicted: s.estimates[k].predicted,
                res: s.residuals[k].as_ref().map(|r| Res {
                    epoch: r.epoch,
                    prefit: DVector::from_iterator(r.prefit.len(), r.prefit.iter().copied()),
                    postfit: DVector::from_iterator(r.postfit.len(), r.postfit.iter().copied()),
                    ratio: r.ratio,
                    rejected: r.rejected,
                    tracker: r.tracker.clone(),
                    types: r.msr_types.iter().copied().collect(),
                    real: DVector::from_iterator(r.real_obs.len(), r.real_obs.iter().copied()),
                    comp: DVector::from_iterator(r.computed_obs.len(), r.computed_obs.iter().copied()),
                }),
                gain: s.gains[k].as_ref().map(|g| dm(g)),
            })
            .collect::<Vec<_>>()
    }};
}
/// What the reference filter knows about a kind of state.
struct Model<'a, S> {
    n: usize,
    m: usize,
    /// Propagates and gives the transition matrix.
    step: &'a dyn Fn(&S, Epoch) -> Result<(S, DMatrix<f64>), Fail>,
    vec: &'a dyn Fn(&S) -> DVector<f64>,
    /// Device by tracker: residual name and types.
    device: &'a dyn Fn(&str) -> Option<(String, Vec<MeasurementType>)>,
    /// Expected value, its partials and the clearance.
    expect: &'a dyn Fn(&str, &S, MeasurementType) -> Option<(f64, DVector<f64>, f64)>,
    edge: f64,
    /// How far the reference may be off, by component.
    tol: &'a dyn Fn(usize) -> f64,
}
fn max_cov(a: &DMatrix<f64>, z: &DMatrix<f64>, scale: &DMatrix<f64>) -> f64 {
    let mut w: f64 = 0.0;
    for r in 0..a.nrows() {
        for c in 0..a.ncols() {
            let d = (a[(r, c)] - z[(r, c)]).abs() / ((scale[(r, r)].abs() * scale[(c, c)].abs()).sqrt() + 1e-30);
            w = if d.is_nan() { f64::INFINITY } else { w.max(d) };
        }
    }
    w
}
fn max_dev(a: &DVector<f64>, z: &DVector<f64>, scale: &DMatrix<f64>) -> f64 {
    let mut w: f64 = 0.0;
    for k in 0..a.len() {
        let d = (a[k] - z[k]).abs() / (scale[(k, k)].abs().sqrt() + 1e-12);
        w = if d.is_nan() { f64::INFINITY } else { w.max(d) };
    }
    w
}
fn check_filter<S: Copy>(v: &Value, ctx: &mut Ctx, md: &Model<S>, init: (Epoch, S, DMatrix<f64>), arc: &TrackingDataArc, h: &[Row<S>]) -> Outcome {
    let ckf = b(v, "ckf");
    let (n, m) = (md.n, md.m);
    let limit = v["reject"].as_f64();
    let max = Unit::Second * i(v, "max_step_s").max(1);
    let (mut at, mut post, mut p, mut x) = (init.0, init.1, init.2, DVector::<f64>::zeros(n));
    let mut k = 0;
    let mut skipped = false;
    let time = |post: &S, p: &DMatrix<f64>, x: &DVector<f64>, e: &Row<S>, what: &str| -> Result<(DMatrix<f64>, DVector<f64>), Fail> {
        let (nom, phi) = (md.step)(post, e.epoch)?;
        let d = (md.vec)(&nom) - (md.vec)(&e.nominal);
        for q in 0..n {
            ensure_p!(d[q].abs() < (md.tol)(q), "link-reference", "{what}: component {q} of the reference is off the motion of the previous state by {:e}", d[q]);
        }
        let pbar = &phi * p * phi.transpose();
        let c = max_cov(&e.pbar, &pbar, &pbar);
        ensure_p!(c < 1e-5, "link-covariance-propagation", "{what}: the predicted covariance differs from Phi P Phi' by {c:e} sigma^2");
        Ok((pbar, if ckf { phi * x } else { DVector::zeros(n) }))
    };
    for (q, msr) in arc.measurements.iter().enumerate() {
        while k < h.len() && h[k].epoch < msr.epoch {
            let e = &h[k];
            let what = format!("prediction {k} at {} before measurement {q}", e.epoch);
            let gap = e.epoch - at;
            ensure_p!(e.res.is_none() && e.predicted && e.gain.is_none(), "link-history", "{what} has a residual although no measurement is due");
            ensure_p!(gap > Duration::ZERO && (gap <= max || skipped), "link-history", "{what} is {gap} after the previous entry, with steps up to {max}");
            let (_, xbar) = time(&post, &p, &x, e, &what)?;
            let d = max_dev(&e.dev, &xbar, &e.pbar);
            ensure_p!(d < 1e-5 && e.p == e.pbar, "link-prediction", "{what}: the deviation is off by {d:e} sigma or the covariance is not the predicted one");
            (at, post, p, x) = (e.epoch, e.nominal, e.p.clone(), e.dev.clone());
            skipped = false;
            k += 1;
        }
        let what = format!("measurement {q} of {} at {}", msr.tracker, msr.epoch);
        if msr.rejected {
            ensure_p!(k < h.len() && h[k].epoch == msr.epoch && h[k].res.is_none() && h[k].predicted, "link-history", "{what} is flagged as rejected but is not a plain prediction");
            let e = &h[k];
            let (_, xbar) = time(&post, &p, &x, e, &what)?;
            let d = max_dev(&e.dev, &xbar, &e.pbar);
            ensure_p!(d < 1e-5 && e.p == e.pbar, "link-flagged", "{what} is flagged as rejected but changed the estimate");
            (at, post, p, x) = (e.epoch, e.nominal, e.p.clone(), e.dev.clone());
            skipped = false;
            k += 1;
            continue;
        }
        let Some((name, types)) = (md.device)(&msr.tracker) else {
            skipped = true;
            continue;
        };
        for win in types.chunks(m) {
            if !win.iter().any(|t| msr.data.contains_key(t)) {
                skipped = at < msr.epoch;
                continue;
            }
            let (nom, _) = (md.step)(&post, msr.epoch)?;
            let clear = (md.expect)(&msr.tracker, &nom, win[0]).map_or(f64::NEG_INFINITY, |x| x.2);
            let here = k < h.len() && h[k].epoch == msr.epoch && h[k].res.is_some();
            if clear < -md.edge || (clear < md.edge && !here) {
                skipped = true;
                ctx.hit("not expected");
                continue;
            }
            ensure_p!(k < h.len(), "link-history", "{what}: {win:?} is missing in the solution");
            let e = &h[k];
            ensure_p!(e.epoch == msr.epoch, "link-history", "{what}: the solution continues at {} instead", e.epoch);
            let Some(r) = &e.res else { return fail("link-history", format!("{what}: no residual for {win:?}")) };
            ensure_p!(r.tracker.as_deref() == Some(name.as_str()) && r.types == win && r.epoch == msr.epoch, "link-history", "{what}: the residual is of {:?} {:?} at {} instead of {name} {win:?}", r.tracker, r.types, r.epoch);
            let (_, xbar) = time(&post, &p, &x, e, &what)?;
            let pbar = e.pbar.clone();
            let mut hm = DMatrix::<f64>::zeros(m, n);
            let (mut pre, mut rm) = (DVector::<f64>::zeros(m), DMatrix::<f64>::identity(m, m));
            for (row, ty) in win.iter().enumerate() {
                rm[(row, row)] = sigma(*ty).powi(2);
                let Some(obs) = msr.data.get(ty).copied() else { continue };
                let Some((comp, part, _)) = (md.expect)(&msr.tracker, &e.nominal, *ty) else { return fail("link-history", format!("{what}: used outside of the trajectory")) };
                let tol = if *ty == MeasurementType::Doppler { 1e-9 } else { 1e-6 } + 1e-9 * comp.abs();
                ensure_p!((r.comp[row] - comp).abs() < tol, "link-computed", "{what}: computed {ty:?} is {} and the geometry says {comp}", r.comp[row]);
                ensure_p!((r.real[row] - obs).abs() <= 1e-12 * obs.abs(), "link-observed", "{what}: the filter used {ty:?}={} instead of {obs}", r.real[row]);
                ensure_p!((r.prefit[row] - (obs - comp)).abs() < tol, "link-prefit", "{what}: prefit of {ty:?} is {} instead of {}", r.prefit[row], obs - comp);
                pre[row] = r.prefit[row];
                hm.set_row(row, &part.transpose());
            }
            let s = &hm * &pbar * hm.transpose() + &rm;
            let Some(si) = s.clone().try_inverse() else { return fail("link-innovation", format!("{what}: singular innovation")) };
            let ratio = ((pre.transpose() * &si * &pre)[(0, 0)] / m as f64).max(0.0).sqrt();
            ensure_p!((r.ratio - ratio).abs() <= 2e-4 * ratio + 1e-6, "link-ratio", "{what}: residual ratio {} instead of {ratio}", r.ratio);
            let near = limit.is_some_and(|l| (ratio - l).abs() <= 5e-4 * l + 1e-6);
            ensure_p!(near || r.rejected == limit.is_some_and(|l| ratio > l), "link-rejection", "{what}: ratio {ratio} with the limit {limit:?}, but rejected={}", r.rejected);
            if r.rejected {
                let d = max_dev(&e.dev, &xbar, &pbar);
                ensure_p!(d < 1e-5 && e.p == pbar && e.gain.is_none() && e.predicted, "link-rejected", "{what} was rejected but changed the estimate");
                post = e.nominal;
                ctx.hit("edited");
            } else {
                let gain = &pbar * hm.transpose() * &si;
                let Some(got) = &e.gain else { return fail("link-gain", format!("{what} was accepted without a gain")) };
                for q in 0..n {
                    for c in 0..m {
                        let scale = pbar[(q, q)].sqrt() * si[(c, c)].sqrt();
                        ensure_p!((got[(q, c)] - gain[(q, c)]).abs() <= 2e-4 * scale + 1e-14, "link-gain", "{what}: gain ({q},{c}) is {} instead of {}", got[(q, c)], gain[(q, c)]);
                    }
                }
                let inno = if ckf { &pre - &hm * &xbar } else { pre.clone() };
                let new = &xbar + got * &inno;
                let d = max_dev(&e.dev, &new, &pbar);
                ensure_p!(d < 1e-4, "link-update", "{what}: the state deviation is off by {d:e} sigma");
                let j = DMatrix::identity(n, n) - got * &hm;
                let pn = &j * &pbar * j.transpose() + got * &rm * got.transpose();
                let d = max_cov(&e.p, &pn, &pbar);
                ensure_p!(d < 1e-5, "link-covariance", "{what}: the updated covariance is off by {d:e} predicted sigma^2");
                ensure_p!(!e.predicted, "link-history", "{what}: the update is marked as a prediction");
                post = if ckf { e.nominal } else { e.after };
                ctx.hit("accepted");
            }
            (at, p, x) = (e.epoch, e.p.clone(), e.dev.clone());
            skipped = false;
            k += 1;
        }
    }
    ensure_p!(k == h.len(), "link-history", "the solution has {} entries but the measurements account for {k}", h.len());
    Ok(())
}
fn kf(v: &Value) -> (KalmanVariant, Option<SigmaRejection>, Duration) {
    (if b(v, "ckf") { KalmanVariant::DeviationTracking } else { KalmanVariant::ReferenceUpdate }, v["reject"].as_f64().map(|n| SigmaRejection { num_sigmas: n }), Unit::Second * i(v, "max_step_s").max(1))
}
fn vec9(s: &Spacecraft) -> DVector<f64> {
    DVector::from_iterator(9, s.to_vector().iter().take(9).copied())
}
fn step_sc(v: &Value, s: &Spacecraft, to: Epoch) -> Result<(Spacecraft, DMatrix<f64>), Fail> {
    if s.orbit.epoch == to {
        return Ok((*s, DMatrix::identity(9, 9)));
    }
    let z = prop(v).with(s.with_stm(), world::almanac()).quiet().until_epoch(to).map_err(|e| Fail { class: "link-error".into(), msg: format!("{e}") })?;
    let phi = dm(&z.stm.expect("stm"));
    Ok((z, phi))
}
fn tol_sc(q: usize) -> f64 {
    if q < 3 { 1e-5 } else if q < 6 { 1e-8 } else { 1e-9 }
}
fn init_sc(v: &Value, truth: &Spacecraft) -> KfEstimate<Spacecraft> {
    let mut sc = *truth;
    let s = f(v, "sig");
    let mut d = SVector::<f64, 9>::zeros();
    for k in 0..3 {
        sc.orbit.radius_km[k] += s * (2.0 * hash01(u(v, "truth"), k as u64) - 1.0);
        sc.orbit.velocity_km_s[k] += 1e-3 * s * (2.0 * hash01(u(v, "truth"), k as u64 + 3) - 1.0);
        d[k] = s * s;
        d[k + 3] = 1e-6 * s * s;
    }
    if u(v, "truth") % 3 == 0 {
        // Parameters which the links do not observe.
        d[6] = 1e-2;
        d[7] = 2e-2;
        d[8] = 3e-2;
    }
    KfEstimate::from_diag(sc, d)
}
/// A filter must give an error when a measurement is not a number or its transmitter is unknown at that time.
fn verdict<T>(ctx: &mut Ctx, got: Result<T, String>, nan: Option<String>, lost: Option<String>) -> Result<Option<T>, Fail> {
    match (got, nan.or(lost)) {
        (Ok(_), Some(why)) => fail("link-error-swallowed", format!("the arc was processed although {why}")),
        (Err(_), Some(_)) => {
            ctx.hit("failed");
            Ok(None)
        }
        (Err(e), None) => fail("link-error", format!("the arc was refused: {e}")),
        (Ok(x), None) => Ok(Some(x)),
    }
}
fn not_a_number(arc: &TrackingDataArc, known: &dyn Fn(&str) -> bool) -> Option<String> {
    arc.measurements.iter().find(|m| !m.rejected && known(&m.tracker) && m.data.values().any(|x| !x.is_finite())).map(|m| format!("the measurement of {} at {} is not a number", m.tracker, m.epoch))
}

fn run(v: &Value, ctx: &mut Ctx) -> Outcome {
    let al = world::almanac();
    let kind = u(v, "kind");
    let dur = i(v, "dur_s").max(300);
    let list = v["tx"].as_array().cloned().unwrap_or_default();
    if list.is_empty() {
        return fail(INVALID, "no device");
    }
    for o in &list {
        let st = strands(v, o);
        if st.is_empty() || st.windows(2).any(|w| w[0].1 >= w[1].0) || st.iter().any(|s| s.1 - s.0 < Unit::Second * u(o, "sampling_s").max(1) as i64) || i(o, "to_s") <= i(o, "from_s") + 60 {
            return fail(INVALID, "strands");
        }
    }
    ctx.sim_s += dur as f64;
    let refused = |e: String| Fail { class: "link-sim-error".into(), msg: format!("the simulation was refused: {e}") };
    if kind == 2 {
        return run_xyz(v, ctx, &list[0], dur);
    }
    let txs = transmitters(v)?;
    let types: Vec<Vec<MeasurementType>> = txs.iter().map(|t| t.measurement_types.iter().copied().collect()).collect();
    let pick = |t: MeasurementType, x: &[f64; 2]| if t == MeasurementType::Range { x[0] } else { x[1] };
    if kind == 0 {
        let truth = fly(v, &v["rx"], 0, dur)?;
        let devs: Vec<Dev> = txs.iter().enumerate().map(|(k, t)| Dev { name: t.traj.name.clone().unwrap(), cfg: &list[k], types: types[k].clone() }).collect();
        let map: BTreeMap<String, InterlinkTxSpacecraft> = txs.iter().map(|t| (t.traj.name.clone().unwrap(), t.clone())).collect();
        let cfg: BTreeMap<String, TrkConfig> = devs.iter().map(|d| (d.name.clone(), trk_cfg(v, d.cfg))).collect();
        let sim = || TrackingArcSim::<Spacecraft, InterlinkTxSpacecraft>::with_seed(map.clone(), truth.clone(), cfg.clone(), u(v, "rng")).map_err(|e| format!("{e}"))?.generate_measurements(&al).map_err(|e| format!("{e}"));
        let mut arc = sim().map_err(refused)?;
        let again = std::thread::scope(|s| s.spawn(sim).join().expect("join")).map_err(refused)?;
        ensure_p!(format!("{:?}", arc.measurements) == format!("{:?}", again.measurements), "link-repeat", "the same seed gave another arc");
        let at = |k: usize, e: Epoch| {
            let rx = truth.at(e).ok()?;
            let (x, c) = link_sc(&txs[k], b(&list[k], "moon"), &rx)?;
            Some((types[k].iter().map(|t| pick(*t, &x)).collect(), c))
        };
        check_arc(v, ctx, &devs, &arc, 1e-3, &at)?;
        for m in &arc.measurements {
            m.data.values().for_each(|x| ctx.digf(*x));
        }
        // The filter does not integrate.
        let index = |n: &str| devs.iter().position(|d| d.name == n);
        arc.measurements.retain(|m| m.epoch > start_of(v));
        let _ = damage(v, ctx, &mut arc);
        if arc.measurements.len() < 2 {
            return Ok(());
        }
        let mut proc: BTreeMap<String, InterlinkTxSpacecraft> = map.clone();
        let cut = start_of(v) + Unit::Second * (dur / 3);
        for t in proc.values_mut() {
            t.integration_time = None;
            t.stochastic_noises = Some(t.measurement_types.iter().map(|x| (*x, noise_of(*x, false))).collect());
            if b(v, "cut") {
                t.traj.states.retain(|s| s.orbit.epoch <= cut);
            }
        }
        if proc.values().any(|t| t.traj.states.len() < 2) {
            return Ok(());
        }
        let lost = arc.measurements.iter().find(|m| !m.rejected && proc.get(&m.tracker).is_some_and(|t| t.traj.at(m.epoch).is_err())).map(|m| format!("{} has no position at {}", m.tracker, m.epoch));
        if lost.is_some() {
            ctx.hit("fault:transmitter-lost");
        }
        let init = init_sc(v, truth.first());
        let (variant, rej, max) = kf(v);
        let nan = not_a_number(&arc, &|n| index(n).is_some());
        let two = u(&list[0], "types") < 2;
        let got = if two {
            let mut od = KalmanODProcess::<SpacecraftDynamics, Const<2>, Const<3>, InterlinkTxSpacecraft>::new(prop(v), variant, rej, proc.clone(), al.clone());
            od.max_step = max;
            od.process_arc(init, &arc).map(|s| rows!(s)).map_err(|e| format!("{e}"))
        } else {
            let mut od = KalmanODProcess::<SpacecraftDynamics, Const<1>, Const<3>, InterlinkTxSpacecraft>::new(prop(v), variant, rej, proc.clone(), al.clone());
            od.max_step = max;
            od.process_arc(init, &arc).map(|s| rows!(s)).map_err(|e| format!("{e}"))
        };
        let Some(h) = verdict(ctx, got, nan, lost)? else { return Ok(()) };
        let expect = |n: &str, s: &Spacecraft, ty: MeasurementType| {
            let k = index(n)?;
            let (x, c) = link_sc(&proc[n], b(&list[k], "moon"), s)?;
            let a = transmitter_at(&proc[n], s.orbit.epoch, s.orbit.frame)?;
            let (dr, dv) = (s.orbit.radius_km - a.radius_km, s.orbit.velocity_km_s - a.velocity_km_s);
            let mut p = DVector::zeros(9);
            for q in 0..3 {
                if ty == MeasurementType::Range {
                    p[q] = dr[q] / x[0];
                } else {
                    p[q] = dv[q] / x[0] - x[1] * dr[q] / (x[0] * x[0]);
                    p[q + 3] = dr[q] / x[0];
                }
            }
            Some((pick(ty, &x), p, c))
        };
        let md = Model { n: 9, m: if two { 2 } else { 1 }, step: &|s, e| step_sc(v, s, e), vec: &vec9, device: &|n| index(n).map(|k| (n.to_string(), types[k].clone())), expect: &expect, edge: 1e-3, tol: &tol_sc };
        check_filter(v, ctx, &md, (init.epoch(), init.nominal_state, dm(&init.covar)), &arc, &h)?;
        ctx.hit("spacecraft");
        ctx.nontrivial = !h.is_empty();
        h.iter().for_each(|e| ctx.digf(e.dev[0]));
        return Ok(());
    }
    // A ground asset
    let moon = b(&v["asset"], "moon");
    let g0 = asset0(v);
    let gprop = Propagator::new(GroundDynamics {}, IntegratorMethod::RungeKutta89, IntegratorOptions::with_fixed_step(Unit::Second * i(v, "step_s").max(5)));
    let (last, truth) = gprop.with(g0, al.clone()).quiet().for_duration_with_traj(Unit::Second * dur).map_err(|e| Fail { class: "link-asset".into(), msg: format!("{e}") })?;
    let x0 = vec_asset(&g0);
    let moved = |x: &[f64; 6], dt: f64| [x[0] + x[3] * dt, x[1] + x[4] * dt, x[2] + x[5] * dt, x[3], x[4], x[5]];
    let close = |a: &[f64; 6], z: &[f64; 6]| (0..6).all(|q| (a[q] - z[q]).abs() < 1e-9);
    ensure_p!(close(&vec_asset(&last), &moved(&x0, dur as f64)) && last.epoch == start_of(v) + Unit::Second * dur, "link-asset", "the asset moved to {:?} in {dur} s, from {x0:?}", vec_asset(&last));
    let mid = start_of(v) + Unit::Second * dur * hash01(u(v, "fseed"), 999);
    let g = truth.at(mid).map_err(|e| Fail { class: "link-asset".into(), msg: format!("{e}") })?;
    ensure_p!(close(&vec_asset(&g), &moved(&x0, (mid - start_of(v)).to_seconds())) && g.epoch == mid, "link-asset", "the asset is at {:?} after {}", vec_asset(&g), mid - start_of(v));
    // Speed over ground there and back
    let sez = g.velocity_sez_m_s().map_err(|e| Fail { class: "link-asset".into(), msg: format!("{e}") })?;
    let (_, vel, up) = on_ground(moon, &vec_asset(&g));
    ensure_p!((sez.norm() - 1e3 * vel.norm()).abs() < 1e-6 + 1e-6 * sez.norm() && (sez[2] - 1e3 * vel.dot(&up)).abs() < 1e-6, "link-asset", "the asset goes {} m/s instead of {}", sez.norm(), 1e3 * vel.norm());
    let back = GroundAsset { latitude_rate_deg_s: 0.0, longitude_rate_deg_s: 0.0, height_rate_km_s: 0.0, ..g }.with_velocity_sez_m_s(sez[0], sez[1], sez[2]).map_err(|e| Fail { class: "link-asset".into(), msg: format!("{e}") })?;
    ensure_p!((0..6).all(|q| (vec_asset(&back)[q] - vec_asset(&g)[q]).abs() < 1e-9 * (1.0 + vec_asset(&g)[q].abs())), "link-asset", "the velocity {sez:?} gives {:?} instead of {:?}", vec_asset(&back), vec_asset(&g));
    let name = "GroundAsset".to_string();
    let dev = Dev { name: name.clone(), cfg: &list[0], types: types[0].clone() };
    let map = BTreeMap::from([(name.clone(), txs[0].clone())]);
    let cfg = BTreeMap::from([(name.clone(), trk_cfg(v, &list[0]))]);
    let sim = || TrackingArcSim::<GroundAsset, InterlinkTxSpacecraft>::with_seed(map.clone(), truth.clone(), cfg.clone(), u(v, "rng")).map_err(|e| format!("{e}"))?.generate_measurements(&al).map_err(|e| format!("{e}"));
    let mut arc = sim().map_err(refused)?;
    let again = std::thread::scope(|s| s.spawn(sim).join().expect("join")).map_err(refused)?;
    ensure_p!(format!("{:?}", arc.measurements) == format!("{:?}", again.measurements), "link-repeat", "the same seed gave another arc");
    let at = |_: usize, e: Epoch| {
        truth.at(e).ok()?;
        let (x, c) = link_ground(&txs[0], moon, e, &moved(&x0, (e - start_of(v)).to_seconds()))?;
        Some((types[0].iter().map(|t| pick(*t, &x)).collect(), c))
    };
    check_arc(v, ctx, &[dev], &arc, 1e-3, &at)?;
    for m in &arc.measurements {
        m.data.values().for_each(|x| ctx.digf(*x));
    }
    arc.measurements.retain(|m| m.epoch > start_of(v));
    let _ = damage(v, ctx, &mut arc);
    if arc.measurements.len() < 2 {
        return Ok(());
    }
    let mut t = txs[0].clone();
    t.integration_time = None;
    t.stochastic_noises = Some(t.measurement_types.iter().map(|x| (*x, noise_of(*x, false))).collect());
    if b(v, "cut") {
        let cut = start_of(v) + Unit::Second * (dur / 3);
        t.traj.states.retain(|s| s.orbit.epoch <= cut);
        if t.traj.states.len() < 2 {
            return Ok(());
        }
    }
    let lost = arc.measurements.iter().find(|m| !m.rejected && m.tracker == name && t.traj.at(m.epoch).is_err()).map(|m| format!("the transmitter has no position at {}", m.epoch));
    if lost.is_some() {
        ctx.hit("fault:transmitter-lost");
    }
    let nan = not_a_number(&arc, &|n| n == name);
    let s = f(v, "sig");
    let scale = [1e-2, 1e-2, 0.5, 1e-5, 1e-5, 1e-4].map(|x| x * s);
    let mut guess = g0;
    let mut d = SVector::<f64, 6>::zeros();
    let mut off = SVector::<f64, 6>::zeros();
    for q in 0..6 {
        off[q] = scale[q] * (2.0 * hash01(u(v, "truth"), q as u64) - 1.0);
        d[q] = scale[q] * scale[q];
    }
    guess = guess + off;
    let init = KfEstimate::from_diag(guess, d);
    let (variant, rej, max) = kf(v);
    let two = types[0].len() == 2;
    let proc = BTreeMap::from([(name.clone(), t.clone())]);
    let step = |s: &GroundAsset, e: Epoch| -> Result<(GroundAsset, DMatrix<f64>), Fail> {
        let dt = (e - s.epoch).to_seconds();
        let x = moved(&vec_asset(s), dt);
        let mut phi = DMatrix::identity(6, 6);
        for q in 0..3 {
            phi[(q, q + 3)] = dt;
        }
        Ok((GroundAsset { latitude_deg: x[0], longitude_deg: x[1], height_km: x[2], latitude_rate_deg_s: x[3], longitude_rate_deg_s: x[4], height_rate_km_s: x[5], epoch: e, ..*s }, phi))
    };
    let expect = |_: &str, s: &GroundAsset, ty: MeasurementType| {
        let x = vec_asset(s);
        let (o, c) = link_ground(&t, moon, s.epoch, &x)?;
        let mut p = DVector::zeros(6);
        for q in 0..6 {
            let hq = [1e-4, 1e-4, 1e-2, 1e-6, 1e-6, 1e-4][q];
            let (mut a, mut z) = (x, x);
            a[q] -= hq;
            z[q] += hq;
            p[q] = (pick(ty, &link_ground(&t, moon, s.epoch, &z)?.0) - pick(ty, &link_ground(&t, moon, s.epoch, &a)?.0)) / (2.0 * hq);
        }
        Some((pick(ty, &o), p, c))
    };
    let vec6 = |s: &GroundAsset| DVector::from_row_slice(&vec_asset(s));
    let md = Model { n: 6, m: if two { 2 } else { 1 }, step: &step, vec: &vec6, device: &|n| (n == name).then(|| ("Tx0".to_string(), types[0].clone())), expect: &expect, edge: 1e-3, tol: &|_| 1e-9 };
    let from = (init.epoch(), init.nominal_state, dm(&init.covar));
    let h = if two {
        let mut od = KalmanODProcess::<GroundDynamics, Const<2>, Const<3>, InterlinkTxSpacecraft>::new(gprop.clone(), variant, rej, proc, al.clone());
        od.max_step = max;
        let got = od.process_arc(init, &arc).map_err(|e| format!("{e}"));
        let Some(sol) = verdict(ctx, got, nan, lost)? else { return Ok(()) };
        let h: Vec<Row<GroundAsset>> = rows!(&sol);
        if b(v, "export") && sol.measurement_types.len() == 2 {
            check_export(v, ctx, &sol, &h)?;
        }
        h
    } else {
        let mut od = KalmanODProcess::<GroundDynamics, Const<1>, Const<3>, InterlinkTxSpacecraft>::new(gprop.clone(), variant, rej, proc, al.clone());
        od.max_step = max;
        let got = od.process_arc(init, &arc).map(|s| rows!(s)).map_err(|e| format!("{e}"));
        let Some(h) = verdict(ctx, got, nan, lost)? else { return Ok(()) };
        h
    };
    check_filter(v, ctx, &md, from, &arc, &h)?;
    ctx.hit("asset");
    ctx.nontrivial = !h.is_empty();
    h.iter().for_each(|e| ctx.digf(e.dev[0]));
    Ok(())
}
type PntSol = ODSolution<GroundAsset, KfEstimate<GroundAsset>, Const<2>, InterlinkTxSpacecraft>;
fn check_export(v: &Value, ctx: &mut Ctx, sol: &PntSol, h: &[Row<GroundAsset>]) -> Outcome {
    use arrow::array::{Array, AsArray};
    if h.is_empty() {
        return Ok(());
    }
    let path = std::path::PathBuf::from("asset.parquet");
    let (mut lo, mut hi) = (0, h.len());
    let mut cfg = nyx_space::io::ExportCfg::default();
    if hash01(u(v, "fseed"), 5) < 0.5 {
        let a = (hash01(u(v, "fseed"), 6) * h.len() as f64) as usize;
        let z = a + (hash01(u(v, "fseed"), 7) * (h.len() - a) as f64) as usize;
        cfg.start_epoch = Some(h[a].epoch);
        cfg.end_epoch = Some(h[z].epoch);
        lo = h.iter().position(|e| e.epoch >= h[a].epoch).unwrap();
        hi = h.iter().rposition(|e| e.epoch <= h[z].epoch).unwrap() + 1;
        ctx.hit("export window");
    }
    let out = sol.to_parquet(&path, cfg).map_err(|e| Fail { class: "link-export".into(), msg: format!("the export was refused: {e}") })?;
    let file = std::fs::File::open(&out).map_err(|e| Fail { class: "link-export".into(), msg: format!("{e}") })?;
    let rd = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(file).and_then(|b| b.build()).map_err(|e| Fail { class: "link-export".into(), msg: format!("{e}") })?;
    let mut n = lo;
    for batch in rd {
        let batch = batch.map_err(|e| Fail { class: "link-export".into(), msg: format!("{e}") })?;
        for row in 0..batch.num_rows() {
            ensure_p!(n < hi, "link-export", "the file has more rows than the {} estimates of its window", hi - lo);
            let e = &h[n];
            let get = |name: &str| -> Option<f64> {
                let k = batch.schema().fields().iter().position(|f| f.name().starts_with(name))?;
                let c = batch.column(k).as_primitive_opt::<arrow::datatypes::Float64Type>()?;
                if c.is_null(row) { None } else { Some(c.value(row)) }
            };
            let x = vec_asset(&e.after);
            let close = |a: Option<f64>, z: f64| a.is_some_and(|a| (a.is_nan() && z.is_nan()) || (a - z).abs() <= 1e-12 * z.abs().max(1e-9));
            for (q, name) in ["latitude (deg)", "longitude (deg)", "height (km)"].iter().enumerate() {
                let k = batch.schema().fields().iter().position(|f| f.name().eq_ignore_ascii_case(name));
                let got = k.and_then(|k| batch.column(k).as_primitive_opt::<arrow::datatypes::Float64Type>().map(|c| c.value(row)));
                ensure_p!(close(got, x[q]), "link-export", "row {n}: {name} is {got:?} instead of {} (columns {:?})", x[q], batch.schema().fields().iter().map(|f| f.name().clone()).take(5).collect::<Vec<_>>());
            }
            let items = ["Latitude", "Longitude", "Altitude"];
            for a in 0..3 {
                for z in a..3 {
                    let got = get(&format!("Covariance {}*{} ", items[a], items[z]));
                    ensure_p!(close(got, e.p[(a, z)]), "link-export", "row {n}: covariance ({a},{z}) is {got:?} instead of {}", e.p[(a, z)]);
                }
            }
            for (q, ty) in sol.measurement_types.iter().enumerate() {
                let r = e.res.as_ref().and_then(|r| r.types.iter().position(|t| t == ty).map(|k| (r, k)));
                for (name, want) in [("Prefit residual", r.map(|(r, k)| r.prefit[k])), ("Postfit residual", r.map(|(r, k)| r.postfit[k])), ("Real observation", r.map(|(r, k)| r.real[k])), ("Computed observation", r.map(|(r, k)| r.comp[k]))] {
                    let got = get(&format!("{name}: {ty:?}"));
                    ensure_p!(got.is_some() == want.is_some() && want.is_none_or(|w| close(got, w)), "link-export", "row {n}: {name} of {ty:?} is {got:?} instead of {want:?}");
                }
                for a in 0..3 {
                    let got = get(&format!("Gain {}*{ty:?}", items[a]));
                    let want = e.gain.as_ref().map(|g| g[(a, q)]);
                    ensure_p!(got.is_some() == want.is_some() && want.is_none_or(|w| close(got, w)), "link-export", "row {n}: gain of {ty:?} is {got:?} instead of {want:?}");
                }
            }
            n += 1;
        }
    }
    ensure_p!(n == hi, "link-export", "the file has {} rows for {} estimates", n - lo, hi - lo);
    ctx.hit("export");
    Ok(())
}
/// Position fixes on board.
fn run_xyz(v: &Value, ctx: &mut Ctx, o: &Value, dur: i64) -> Outcome {
    let al = world::almanac();
    let truth = fly(v, &v["rx"], 0, dur)?;
    let mut seen = IndexSet::new();
    let types: Vec<MeasurementType> = v["xyz"].as_array().cloned().unwrap_or_default().iter().map(|t| XYZ[t.as_u64().unwrap_or(0) as usize % 3]).filter(|t| seen.insert(*t)).collect();
    if types.is_empty() {
        return fail(INVALID, "no types");
    }
    let dev = |quiet: bool| types.iter().fold(PositionDevice::new("Fix".into()), |d, t| d.with_noise(*t, noise_of(*t, quiet)));
    let comp = |t: MeasurementType| XYZ.iter().position(|x| *x == t).unwrap();
    let map = BTreeMap::from([("Fix".to_string(), dev(b(o, "quiet")))]);
    let cfg = BTreeMap::from([("Fix".to_string(), trk_cfg(v, o))]);
    let sim = || TrackingArcSim::<Spacecraft, PositionDevice>::with_seed(map.clone(), truth.clone(), cfg.clone(), u(v, "rng")).map_err(|e| format!("{e}"))?.generate_measurements(&al).map_err(|e| format!("{e}"));
    let refused = |e: String| Fail { class: "link-sim-error".into(), msg: format!("the simulation was refused: {e}") };
    let mut arc = sim().map_err(refused)?;
    let again = std::thread::scope(|s| s.spawn(sim).join().expect("join")).map_err(refused)?;
    ensure_p!(format!("{:?}", arc.measurements) == format!("{:?}", again.measurements), "link-repeat", "the same seed gave another arc");
    let at = |_: usize, e: Epoch| {
        let s = truth.at(e).ok()?;
        Some((types.iter().map(|t| s.orbit.radius_km[comp(*t)]).collect(), 1.0))
    };
    check_arc(v, ctx, &[Dev { name: "Fix".into(), cfg: o, types: types.clone() }], &arc, 1e-3, &at)?;
    arc.measurements.retain(|m| m.epoch > start_of(v));
    let _ = damage(v, ctx, &mut arc);
    if arc.measurements.len() < 2 {
        return Ok(());
    }
    let init = init_sc(v, truth.first());
    let (variant, rej, max) = kf(v);
    let proc = BTreeMap::from([("Fix".to_string(), dev(false))]);
    let m = u(v, "m").clamp(1, 3) as usize;
    macro_rules! go {
        ($n:literal) => {{
            let mut od = KalmanODProcess::<SpacecraftDynamics, Const<$n>, Const<3>, PositionDevice>::new(prop(v), variant, rej, proc, al.clone());
            od.max_step = max;
            od.process_arc(init, &arc).map(|s| rows!(s)).map_err(|e| format!("{e}"))
        }};
    }
    let got = match m {
        1 => go!(1),
        2 => go!(2),
        _ => go!(3),
    };
    let nan = not_a_number(&arc, &|n| n == "Fix");
    let Some(h) = verdict(ctx, got, nan, None)? else { return Ok(()) };
    let expect = |_: &str, s: &Spacecraft, ty: MeasurementType| {
        let mut p = DVector::zeros(9);
        p[comp(ty)] = 1.0;
        Some((s.orbit.radius_km[comp(ty)], p, 1.0))
    };
    let md = Model { n: 9, m, step: &|s, e| step_sc(v, s, e), vec: &vec9, device: &|n| (n == "Fix").then(|| ("Fix".to_string(), types.clone())), expect: &expect, edge: 1e-3, tol: &tol_sc };
    check_filter(v, ctx, &md, (init.epoch(), init.nominal_state, dm(&init.covar)), &arc, &h)?;
    ctx.hit("position");
    ctx.nontrivial = !h.is_empty();
    h.iter().for_each(|e| ctx.digf(e.dev[0]));
    Ok(())
}
pub static P29: Prop = Prop {
    id: "P29",
    make,
    run,
    runs: (1500, 60_000),
    rule: "simulated links and fixes are exactly the samples which the geometry allows, with its values, and every entry of a filter history follows from the Kalman equations with independent partials",
    real: &["nyx-space links between spacecraft, ground assets and their dynamics and export, position fixes, tracking simulator, Kalman filters, propagators"],
    stub: &["almanac (synthetic constants and ephemerides)", "system clock", "scheduler"],
    must_hit: &["spacecraft", "asset", "position", "integrated", "instantaneous", "blocked", "outside", "accepted", "edited", "failed", "noise level", "export", "export window", "fault:transmitter-lost"],
};
