//! Orbit determination: P11 (filter histories), P12 (junk data), P13 (stop, resume and predict).
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use hifitime::{Duration, Epoch, TimeUnits, Unit};
use indexmap::IndexMap;
use nalgebra::{DMatrix, DVector, SMatrix, SVector, Vector3};
use anise::prelude::Orbit;
use anise::ephemerides::ephemeris::LocalFrame;
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::dynamics::SpacecraftDynamics;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::prelude::*;
use nyx_space::od::{SpacecraftKalmanOD, SpacecraftKalmanScalarOD};
use nyx_space::propagators::Propagator;
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub type M9 = SMatrix<f64, 9, 9>;
pub type V9 = SVector<f64, 9>;

pub const SITES: [(&str, f64, f64); 6] = [("North", 80.0, 10.0), ("South", -80.0, -60.0), ("Zero", 5.0, 0.0), ("East", -5.0, 90.0), ("Far", 8.0, 180.0), ("West", 2.0, 270.0)];

/// What one entry of a solution says.
#[derive(Clone)]
pub struct Entry {
    pub est: KfEstimate<Spacecraft>,
    pub res: Option<Res>,
    pub gain: Option<DMatrix<f64>>,
}
#[derive(Clone)]
pub struct Res {
    pub epoch: Epoch,
    pub prefit: DVector<f64>,
    pub postfit: DVector<f64>,
    pub ratio: f64,
    pub rejected: bool,
    pub tracker: Option<String>,
    pub types: Vec<MeasurementType>,
    pub real: DVector<f64>,
    pub comp: DVector<f64>,
}
#[macro_export]
macro_rules! od_entries {
    ($sol:expr) => {{
        let s = $sol;
        (0..s.estimates.len())
            .map(|k| $crate::props::od::Entry {
                est: s.estimates[k],
                res: s.residuals[k].as_ref().map(|r| $crate::props::od::Res {
                    epoch: r.epoch,
                    prefit: nalgebra::DVector::from_iterator(r.prefit.len(), r.prefit.iter().copied()),
                    postfit: nalgebra::DVector::from_iterator(r.postfit.len(), r.postfit.iter().copied()),
                    ratio: r.ratio,
                    rejected: r.rejected,
                    tracker: r.tracker.clone(),
                    types: r.msr_types.iter().copied().collect(),
                    real: nalgebra::DVector::from_iterator(r.real_obs.len(), r.real_obs.iter().copied()),
                    comp: nalgebra::DVector::from_iterator(r.computed_obs.len(), r.computed_obs.iter().copied()),
                }),
                gain: s.gains[k].as_ref().map(|g| nalgebra::DMatrix::from_iterator(g.nrows(), g.ncols(), g.iter().copied())),
            })
            .collect::<Vec<_>>()
    }};
}
/// The two sizes of measurement vectors that spacecraft filters have.
pub enum Od {
    One(SpacecraftKalmanScalarOD),
    Two(SpacecraftKalmanOD),
}
pub type Hist = Result<Vec<Entry>, String>;
impl Od {
    pub fn size(&self) -> usize {
        match self {
            Od::One(_) => 1,
            Od::Two(_) => 2,
        }
    }
    pub fn process(&self, e: KfEstimate<Spacecraft>, a: &TrackingDataArc) -> Hist {
        match self {
            Od::One(o) => o.process_arc(e, a).map(|s| od_entries!(s)).map_err(|e| format!("{e}")),
            Od::Two(o) => o.process_arc(e, a).map(|s| od_entries!(s)).map_err(|e| format!("{e}")),
        }
    }
    pub fn predict(&self, e: KfEstimate<Spacecraft>, d: Duration, until: bool) -> Hist {
        match (self, until) {
            (Od::One(o), false) => o.predict_for(e, d).map(|s| od_entries!(s)).map_err(|e| format!("{e}")),
            (Od::Two(o), false) => o.predict_for(e, d).map(|s| od_entries!(s)).map_err(|e| format!("{e}")),
            (Od::One(o), true) => o.predict_until(e, e.epoch() + d).map(|s| od_entries!(s)).map_err(|e| format!("{e}")),
            (Od::Two(o), true) => o.predict_until(e, e.epoch() + d).map(|s| od_entries!(s)).map_err(|e| format!("{e}")),
        }
    }
}

pub fn hash01(a: u64, b: u64) -> f64 {
    let mut r = Rng::fork(a, b);
    (r.next() >> 11) as f64 / (1u64 << 53) as f64
}
/// Standard normal deviate fixed by its arguments.
fn gauss(a: u64, b: u64) -> f64 {
    let (x, y) = (hash01(a, 2 * b + 1).max(1e-12), hash01(a, 2 * b + 2));
    (-2.0 * x.ln()).sqrt() * (std::f64::consts::TAU * y).cos()
}
pub fn sigma(ty: MeasurementType) -> f64 {
    match ty {
        MeasurementType::Range => 2e-3,
        MeasurementType::Doppler => 1e-6,
        _ => 1e-3,
    }
}
pub fn noise_of(ty: MeasurementType) -> StochasticNoise {
    StochasticNoise { white_noise: Some(WhiteNoise::constant_white_noise(sigma(ty))), bias: None }
}
/// `order`: 0 range and Doppler, 1 Doppler and range, 2 range only, 3 Doppler only, more with angles.
pub fn stations(v: &Value) -> BTreeMap<String, GroundStation> {
    let fr = world::iau_earth();
    let mut out = BTreeMap::new();
    for (k, (n, lat, lon)) in SITES.iter().enumerate() {
        let mut g = GroundStation::from_point(n.to_string(), *lat, *lon, 0.1 * k as f64, fr);
        g.location.terrain_mask_ignored = !b(v, "mask");
        let order = v["order"].as_array().and_then(|a| a.get(k)).and_then(|x| x.as_u64()).unwrap_or(0);
        let types: &[MeasurementType] = match order {
            1 => &[MeasurementType::Doppler, MeasurementType::Range],
            2 => &[MeasurementType::Range],
            3 => &[MeasurementType::Doppler],
            4 => &[MeasurementType::Range, MeasurementType::Doppler, MeasurementType::Azimuth],
            5 => &[MeasurementType::Azimuth, MeasurementType::Elevation],
            6 => &[MeasurementType::Elevation, MeasurementType::Range, MeasurementType::Azimuth, MeasurementType::Doppler],
            7 => &[MeasurementType::Doppler, MeasurementType::Elevation, MeasurementType::Range],
            _ => &[MeasurementType::Range, MeasurementType::Doppler],
        };
        for t in types {
            g = g.with_msr_type(*t, noise_of(*t));
        }
        out.insert(n.to_string(), g);
    }
    out
}
pub fn prop_of(v: &Value) -> Propagator<SpacecraftDynamics> {
    world::propagator(&v["prop"], world::dynamics(&v["dyn"]))
}
fn snc_of(v: &Value, start: Epoch) -> Vec<ProcessNoise3D> {
    v["snc"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|s| {
            let q = 10f64.powi(-(u(s, "e") as i32));
            let vals = [q, q * 2.0, q * 0.5];
            let off = Unit::Second * i(s, "off_s").max(1);
            let mut p = ProcessNoise3D::from_diagonal(&vals, off, None);
            if b(s, "decay") {
                p = ProcessNoise3D::with_decay(&vals, off, &[1e-3, 2e-3, 5e-4], None);
            }
            if s["from_s"].is_i64() {
                p.start_time = Some(start + Unit::Second * i(s, "from_s"));
            }
            p.local_frame = [None, Some(LocalFrame::RIC), Some(LocalFrame::VNC), Some(LocalFrame::Inertial)][u(s, "lf") as usize % 4];
            p
        })
        .collect()
}
pub fn od_of(v: &Value, start: Epoch) -> Od {
    let variant = if b(v, "ckf") { KalmanVariant::DeviationTracking } else { KalmanVariant::ReferenceUpdate };
    let rej = v["reject"].as_f64().map(|n| if n == 3.0 { SigmaRejection::default() } else { SigmaRejection { num_sigmas: n } });
    let max = Unit::Second * i(v, "max_step_s").max(1);
    if u(v, "m") == 1 {
        let mut o = SpacecraftKalmanScalarOD::new(prop_of(v), variant, rej, stations(v), world::almanac());
        o.process_noise = snc_of(v, start);
        o.max_step = max;
        Od::One(o)
    } else {
        let mut o = SpacecraftKalmanOD::new(prop_of(v), variant, rej, stations(v), world::almanac());
        o.process_noise = snc_of(v, start);
        o.max_step = max;
        Od::Two(o)
    }
}
pub fn initial(v: &Value) -> KfEstimate<Spacecraft> {
    let sc = world::spacecraft(&v["sc"]);
    let (sr, sv) = (f(v, "sig_r").max(1e-3), f(v, "sig_v").max(1e-6));
    let mut d = V9::zeros();
    for k in 0..3 {
        d[k] = sr * sr;
        d[k + 3] = sv * sv;
    }
    if b(v, "est_c") {
        d[6] = 1e-4;
        d[7] = 1e-3;
    }
    KfEstimate::from_diag(sc, d)
}
pub fn truth0(v: &Value) -> Spacecraft {
    let mut sc = world::spacecraft(&v["sc"]);
    let (sr, sv) = (f(v, "sig_r"), f(v, "sig_v"));
    for k in 0..3 {
        sc.orbit.radius_km[k] += sr * (2.0 * hash01(u(v, "truth"), k as u64) - 1.0);
        sc.orbit.velocity_km_s[k] += sv * (2.0 * hash01(u(v, "truth"), k as u64 + 3) - 1.0);
    }
    sc
}
/// Line of sight of the station to the spacecraft, in the frame of the spacecraft.
pub fn los(g: &GroundStation, sc: &Spacecraft) -> (Vector3<f64>, Vector3<f64>) {
    let al = world::almanac();
    let o = al.transform_to(g.to_orbit(sc.orbit.epoch, &al).unwrap(), sc.orbit.frame, None).unwrap();
    (sc.orbit.radius_km - o.radius_km, sc.orbit.velocity_km_s - o.velocity_km_s)
}
/// Elevation from geometry, degrees above the local horizon of the ellipsoid.
pub fn elevation(g: &GroundStation, sc: &Spacecraft) -> f64 {
    let al = world::almanac();
    let (dr, _) = los(g, sc);
    let mut up = g.clone();
    up.location.height_km += 1.0;
    let a = al.transform_to(g.to_orbit(sc.orbit.epoch, &al).unwrap(), sc.orbit.frame, None).unwrap();
    let z = al.transform_to(up.to_orbit(sc.orbit.epoch, &al).unwrap(), sc.orbit.frame, None).unwrap();
    let n = (z.radius_km - a.radius_km).normalize();
    (dr.normalize().dot(&n)).clamp(-1.0, 1.0).asin().to_degrees()
}
pub fn ideal(g: &GroundStation, sc: &Spacecraft, ty: MeasurementType) -> f64 {
    let (dr, dv) = los(g, sc);
    match ty {
        MeasurementType::Range => dr.norm(),
        MeasurementType::Doppler => dr.dot(&dv) / dr.norm(),
        MeasurementType::Elevation => elevation(g, sc),
        _ => {
            let al = world::almanac();
            let at = |lon: f64, h: f64| {
                let mut s = g.clone();
                s.location.longitude_deg += lon;
                s.location.height_km += h;
                al.transform_to(s.to_orbit(sc.orbit.epoch, &al).unwrap(), sc.orbit.frame, None).unwrap().radius_km
            };
            let east = (at(1e-2, 0.0) - at(-1e-2, 0.0)).normalize();
            let up = (at(0.0, 1.0) - at(0.0, 0.0)).normalize();
            let az = dr.dot(&east).atan2(dr.dot(&up.cross(&east))).to_degrees();
            if az < 0.0 { az + 360.0 } else { az }
        }
    }
}

/// Partial derivative of an angle in a component of the position, by differences.
pub fn angle_partial(g: &GroundStation, sc: &Spacecraft, ty: MeasurementType, c: usize) -> f64 {
    let (mut up, mut lo) = (*sc, *sc);
    up.orbit.radius_km[c] += 0.1;
    lo.orbit.radius_km[c] -= 0.1;
    (ideal(g, &up, ty) - ideal(g, &lo, ty)) / 0.2
}
pub fn is_angle(ty: MeasurementType) -> bool {
    matches!(ty, MeasurementType::Azimuth | MeasurementType::Elevation)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Good,
    Unknown,
    Flagged,
    Outlier,
    Zero,
    NaN,
    Missing,
    Duplicate,
    Invisible,
    Extra,
}
pub const KINDS: [Kind; 10] = [Kind::Good, Kind::Unknown, Kind::Flagged, Kind::Outlier, Kind::Zero, Kind::NaN, Kind::Missing, Kind::Duplicate, Kind::Invisible, Kind::Extra];

/// The measurements which reach the filter, in time order, and what happened to each.
pub fn arc_of(v: &Value, ctx: &mut Ctx) -> Result<(TrackingDataArc, Vec<Kind>), Fail> {
    let dev = stations(v);
    let mut truth_v = v.clone();
    truth_v["dyn"]["fail_after_s"] = Value::Null;
    let p = prop_of(&truth_v);
    let al = world::almanac();
    let mut inst = p.with(truth0(v), al.clone()).quiet();
    let t0 = inst.state.orbit.epoch;
    let (mut ms, mut kinds): (Vec<Measurement>, Vec<Kind>) = (vec![], vec![]);
    let mut list = v["msrs"].as_array().cloned().unwrap_or_default();
    list.sort_by_key(|m| (i(m, "t").max(0), i(m, "ms")));
    for (n, m) in list.iter().enumerate() {
        let t = t0 + Unit::Second * i(m, "t").max(0) + Unit::Millisecond * i(m, "ms");
        if t > inst.state.orbit.epoch {
            inst.until_epoch(t).map_err(|e| Fail { class: INVALID.into(), msg: format!("truth: {e}") })?;
        }
        let sc = inst.state;
        let kind = KINDS[u(m, "kind") as usize % KINDS.len()];
        let mut rank: Vec<_> = dev.values().map(|g| (elevation(g, &sc), g)).collect();
        rank.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        let (_, g) = match kind {
            Kind::Invisible => rank[5],
            Kind::Extra => rank[1],
            _ => rank[0],
        };
        let mut data = IndexMap::new();
        for (k, ty) in [MeasurementType::Range, MeasurementType::Doppler].into_iter().enumerate() {
            let mut x = ideal(g, &sc, ty);
            // Only the noise up to 2.5 sigma: an outlier is injected on purpose.
            x += sigma(ty) * gauss(u(m, "val"), k as u64).clamp(-2.5, 2.5);
            if ty == MeasurementType::Range && v["modulus"].is_i64() {
                x = x.rem_euclid(f(v, "modulus").max(10.0));
            }
            match kind {
                // Without editing a gross error throws the orbit into the Earth: keep it moderate.
                Kind::Outlier | Kind::Zero if v["reject"].is_null() => x += 40.0 * sigma(ty),
                Kind::Outlier if u(m, "which") != 1 - k as u64 => x = if ty == MeasurementType::Range { x * f(m, "scale").max(0.01) } else { x + 3.0 * f(m, "scale") },
                Kind::Zero if u(m, "which") != 1 - k as u64 => x = if ty == MeasurementType::Range || x.abs() > 0.5 { 0.0 } else { 50.0 },
                Kind::NaN if u(m, "which") % 2 == k as u64 => x = if n % 2 == 0 { f64::NAN } else { f64::INFINITY },
                Kind::Missing if u(m, "which") % 2 == k as u64 => continue,
                _ => {}
            }
            data.insert(ty, x);
        }
        for ty in [MeasurementType::Azimuth, MeasurementType::Elevation] {
            let (x, el) = (ideal(g, &sc, ty), elevation(g, &sc));
            let azimuth = ty == MeasurementType::Azimuth;
            // The residual of an azimuth next to north, or of any at the zenith, is not claimed.
            if !g.measurement_types.contains(&ty) || (kind == Kind::Missing && u(m, "which") == 2) || (azimuth && (!(5.0..355.0).contains(&x) || el > 80.0)) {
                continue;
            }
            data.insert(ty, x + sigma(ty) * gauss(u(m, "val"), 2 + azimuth as u64).clamp(-2.5, 2.5));
        }
        let tracker = if kind == Kind::Unknown { "Nowhere".to_string() } else { g.name.clone() };
        let msr = Measurement { tracker, epoch: t, data, rejected: kind == Kind::Flagged };
        ctx.hit(&format!("fault:msr-{kind:?}"));
        if kind == Kind::Duplicate {
            ms.push(msr.clone());
            kinds.push(Kind::Good);
        }
        ms.push(msr);
        kinds.push(kind);
    }
    let mut arc = TrackingDataArc { measurements: ms, ..Default::default() };
    arc.force_reject = b(v, "force");
    if v["modulus"].is_i64() {
        arc.set_moduli(MeasurementType::Range, f(v, "modulus").max(10.0));
    }
    Ok((arc, kinds))
}

/// Fresh propagation with the state transition matrix.
pub fn step(v: &Value, from: Spacecraft, to: Epoch) -> Result<(Spacecraft, M9), Fail> {
    if from.orbit.epoch == to {
        return Ok((from, M9::identity()));
    }
    let s = prop_of(v).with(from.with_stm(), world::almanac()).quiet().until_epoch(to).map_err(|e| Fail { class: "od-accepts-failed-propagation".into(), msg: format!("the filter went from {} to {to} but the propagation fails: {e}", from.orbit.epoch) })?;
    Ok((s, s.stm.expect("stm")))
}
/// Process noise over a gap, from the documented model: constant acceleration noise over the gap.
/// A noise given in a local frame keeps the diagonal of its rotation, as documented.
fn noise(v: &Value, start: Epoch, init: Epoch, at: &Orbit, gap: Duration) -> M9 {
    let to = at.epoch;
    let dt = gap.to_seconds();
    for s in v["snc"].as_array().cloned().unwrap_or_default().iter().rev() {
        if s["from_s"].is_i64() && start + Unit::Second * i(s, "from_s") > to {
            continue;
        }
        if gap > Unit::Second * i(s, "off_s").max(1) {
            continue;
        }
        let q = 10f64.powi(-(u(s, "e") as i32));
        let mut out = M9::zeros();
        let (r, vel) = (at.radius_km.normalize(), at.velocity_km_s.normalize());
        let h = at.radius_km.cross(&at.velocity_km_s).normalize();
        let axes = match u(s, "lf") % 4 {
            1 => [r, h.cross(&r), h],
            2 => [vel, h, vel.cross(&h)],
            _ => [Vector3::x(), Vector3::y(), Vector3::z()],
        };
        let mut diag = [0.0; 3];
        for (axis, (w, d)) in axes.iter().zip([(1.0, 1e-3), (2.0, 2e-3), (0.5, 5e-4)]) {
            let mut qk = q * w;
            if b(s, "decay") {
                qk *= (-d * (to - init).to_seconds()).exp();
            }
            for k in 0..3 {
                diag[k] += qk * axis[k] * axis[k];
            }
        }
        for (k, qk) in diag.into_iter().enumerate() {
            out[(k, k)] = qk * dt.powi(4) / 4.0;
            out[(k, k + 3)] = qk * dt.powi(3) / 2.0;
            out[(k + 3, k)] = qk * dt.powi(3) / 2.0;
            out[(k + 3, k + 3)] = qk * dt * dt;
        }
        return out;
    }
    M9::zeros()
}
/// Largest difference of two covariances relative to the standard deviations of `scale`.
pub fn cov_diff(a: &M9, b: &M9, scale: &M9) -> f64 {
    let mut w: f64 = 0.0;
    for r in 0..9 {
        for c in 0..9 {
            let s = (scale[(r, r)].abs() * scale[(c, c)].abs()).sqrt() + 1e-24;
            let d = (a[(r, c)] - b[(r, c)]).abs() / s;
            w = if d.is_nan() { f64::INFINITY } else { w.max(d) };
        }
    }
    w
}
/// Largest difference of two state vectors in standard deviations of `scale`; without uncertainty, absolute.
pub fn dev_diff(a: &V9, b: &V9, scale: &M9) -> f64 {
    let mut w: f64 = 0.0;
    for k in 0..9 {
        let s = scale[(k, k)].abs().sqrt() + 1e-9;
        let d = (a[k] - b[k]).abs() / s;
        w = if d.is_nan() { f64::INFINITY } else { w.max(d) };
    }
    w
}
pub fn vec9(s: &Spacecraft) -> V9 {
    let v = s.to_vector();
    V9::from_iterator(v.iter().take(9).copied())
}
fn check_cov(e: &Entry, what: &str) -> Outcome {
    let p = e.est.covar;
    let mut c = M9::zeros();
    for r in 0..9 {
        for q in 0..9 {
            let s = (p[(r, r)] * p[(q, q)]).sqrt();
            ensure_p!(p[(r, q)].is_finite() && p[(r, r)] >= 0.0, "cov-psd", "{what}: covariance ({r},{q}) is {} with variance {}", p[(r, q)], p[(r, r)]);
            let asym = (p[(r, q)] - p[(q, r)]).abs();
            ensure_p!(asym <= 1e-7 * s + 1e-24, "cov-symmetry", "{what}: covariance ({r},{q}) differs from ({q},{r}) by {asym:e}");
            c[(r, q)] = if s > 0.0 { 0.5 * (p[(r, q)] + p[(q, r)]) / s } else { 0.0 };
        }
    }
    let low = c.symmetric_eigenvalues().min();
    ensure_p!(low >= -1e-6, "cov-psd", "{what}: the covariance is not positive (correlation eigenvalue {low:e})");
    Ok(())
}
/// Checks a time update, or the time update part of a measurement update.
#[allow(clippy::too_many_arguments)]
fn check_time(v: &Value, e: &Entry, from: &KfEstimate<Spacecraft>, post: &Spacecraft, start: Epoch, init: Epoch, ckf: bool, what: &str) -> Result<(M9, V9), Fail> {
    let to = e.est.nominal_state.orbit.epoch;
    let (nom, phi) = step(v, *post, to)?;
    let (a, z) = (&nom.orbit, &e.est.nominal_state.orbit);
    let (dr, dv) = ((a.radius_km - z.radius_km).norm(), (a.velocity_km_s - z.velocity_km_s).norm());
    ensure_p!(dr < 1e-5 + 1e-9 * a.radius_km.norm() && dv < 3e-8 + 1e-9 * a.velocity_km_s.norm(), "od-reference", "{what}: the reference is off the propagation of the previous state by {dr:e} km and {dv:e} km/s");
    let dc = (vec9(&nom) - vec9(&e.est.nominal_state)).fixed_rows::<3>(6).norm();
    ensure_p!(dc < 1e-9, "od-reference", "{what}: the reference differs in Cr, Cd or mass by {dc:e}");
    let pbar = phi * from.covar * phi.transpose() + noise(v, start, init, &e.est.nominal_state.orbit, to - from.epoch());
    let d = cov_diff(&e.est.covar_bar, &pbar, &pbar);
    ensure_p!(d < 1e-5, "od-covariance-propagation", "{what}: the predicted covariance differs from Phi P Phi' + Q by {d:e} sigma^2");
    let xbar = if ckf { phi * from.state_deviation } else { V9::zeros() };
    Ok((pbar, xbar))
}

/// Walks the history of a filter and checks every entry against the measurements.
fn check_history(v: &Value, ctx: &mut Ctx, od: &Od, init: &KfEstimate<Spacecraft>, arc: &TrackingDataArc, h: &[Entry]) -> Outcome {
    let m = od.size();
    let ckf = b(v, "ckf");
    let dev = stations(v);
    let start = init.epoch();
    let max = Unit::Second * i(v, "max_step_s").max(1);
    let limit = if arc.force_reject { Some(0.0) } else { v["reject"].as_f64() };
    let mut prev = *init;
    let mut post = init.nominal_state;
    let mut k = 0;
    let mut skipped = false;
    for (n, msr) in arc.measurements.iter().enumerate() {
        // Predictions up to the measurement
        while k < h.len() && h[k].est.epoch() < msr.epoch {
            let e = &h[k];
            let what = format!("prediction {k} at {} before measurement {n}", e.est.epoch());
            ensure_p!(e.res.is_none() && e.gain.is_none() && e.est.predicted, "od-history", "{what} has a residual although no measurement is due");
            let gap = e.est.epoch() - prev.epoch();
            ensure_p!(gap > Duration::ZERO && (gap <= max || skipped), "od-history", "{what} is {gap} after the previous entry, with steps up to {max}");
            let (_, xbar) = check_time(v, e, &prev, &post, start, start, ckf, &what)?;
            let d = dev_diff(&e.est.state_deviation, &xbar, &e.est.covar_bar);
            ensure_p!(d < 1e-5, "od-deviation", "{what}: the state deviation is off by {d:e} sigma");
            ensure_p!(e.est.covar == e.est.covar_bar, "od-covariance", "{what}: covariance and predicted covariance differ");
            check_cov(e, &what)?;
            prev = e.est;
            post = e.est.nominal_state;
            skipped = false;
            k += 1;
        }
        let what = format!("measurement {n} of {} at {}", msr.tracker, msr.epoch);
        if msr.rejected {
            ensure_p!(k < h.len() && h[k].est.epoch() == msr.epoch && h[k].res.is_none() && h[k].est.predicted, "od-history", "{what} is flagged as rejected but is not a plain prediction in the solution");
            let e = &h[k];
            let (_, xbar) = check_time(v, e, &prev, &post, start, start, ckf, &what)?;
            let d = dev_diff(&e.est.state_deviation, &xbar, &e.est.covar_bar);
            ensure_p!(d < 1e-5 && e.est.covar == e.est.covar_bar, "od-flagged", "{what} is flagged as rejected but changed the estimate");
            prev = e.est;
            post = e.est.nominal_state;
            skipped = false;
            k += 1;
            ctx.hit("flagged");
            continue;
        }
        let Some(g) = dev.get(&msr.tracker) else {
            skipped = true;
            ctx.hit("unknown");
            continue;
        };
        let types: Vec<_> = g.measurement_types.iter().copied().collect();
        for win in types.chunks(m) {
            if !win.iter().any(|t| msr.data.contains_key(t)) {
                skipped = prev.epoch() < msr.epoch;
                continue;
            }
            // The filter may only skip the measurement if the station does not see the expected spacecraft.
            let (nom, _) = step(v, post, msr.epoch)?;
            let el = elevation(g, &nom);
            if el < -1e-3 {
                skipped = true;
                ctx.hit("invisible");
                continue;
            }
            if el < 1e-3 && !(k < h.len() && h[k].est.epoch() == msr.epoch && h[k].res.is_some()) {
                skipped = true;
                continue;
            }
            ensure_p!(k < h.len(), "od-history", "{what}: {win:?} is missing in the solution");
            let e = &h[k];
            ensure_p!(e.est.epoch() == msr.epoch, "od-history", "{what}: the solution continues at {} instead", e.est.epoch());
            let Some(r) = &e.res else { return fail("od-history", format!("{what}: no residual for {win:?}")) };
            ensure_p!(r.tracker.as_deref() == Some(msr.tracker.as_str()) && r.types == win && r.epoch == msr.epoch, "od-history", "{what}: the residual is of {:?} {:?} at {} instead of {win:?}", r.tracker, r.types, r.epoch);
            let (_, xbar) = check_time(v, e, &prev, &post, start, start, ckf, &what)?;
            let pbar = e.est.covar_bar;
            // Sensitivity and expected observation from the geometry
            let nom = e.est.nominal_state;
            let (dr, dv) = los(g, &nom);
            let rho = dr.norm();
            let mut hm = DMatrix::<f64>::zeros(m, 9);
            let (mut pre, mut rm) = (DVector::<f64>::zeros(m), DMatrix::<f64>::identity(m, m));
            for (row, ty) in win.iter().enumerate() {
                rm[(row, row)] = sigma(*ty).powi(2);
                let Some(obs) = msr.data.get(ty).copied() else { continue };
                let mut obs = obs;
                let comp = ideal(g, &nom, *ty);
                if let Some(md) = arc.moduli.as_ref().and_then(|x| x.get(ty)) {
                    // Next to the boundary of two intervals both are right.
                    let k = (comp / md).floor();
                    let other = ((comp + 1e-6) / md).floor().max(((comp - 1e-6) / md).floor());
                    obs += if other != k && (r.real[row] - obs - other * md).abs() < 1e-6 { other * md } else { k * md };
                }
                pre[row] = obs - comp;
                let angle = is_angle(*ty);
                if angle && (pre[row].abs() > 180.0 || (el > 85.0 && *ty == MeasurementType::Azimuth)) {
                    return fail(INVALID, "azimuth next to north or the zenith");
                }
                let tol = match ty {
                    MeasurementType::Doppler => 1e-9,
                    _ => 1e-6,
                } + 1e-9 * comp.abs();
                ensure_p!((r.comp[row] - comp).abs() < tol, "od-computed", "{what}: computed {ty:?} is {} and the geometry says {comp}", r.comp[row]);
                ensure_p!((r.real[row] - obs).abs() <= 1e-9 * obs.abs().max(1.0), "od-observed", "{what}: the filter used {ty:?}={} instead of {obs}", r.real[row]);
                ensure_p!((r.prefit[row] - pre[row]).abs() < tol + 1e-9 * obs.abs(), "od-prefit", "{what}: prefit of {ty:?} is {} instead of {}", r.prefit[row], pre[row]);
                pre[row] = r.prefit[row];
                for c in 0..3 {
                    if angle {
                        hm[(row, c)] = angle_partial(g, &nom, *ty, c);
                    } else if *ty == MeasurementType::Range {
                        hm[(row, c)] = dr[c] / rho;
                    } else {
                        hm[(row, c)] = dv[c] / rho - dr.dot(&dv) / rho * dr[c] / (rho * rho);
                        hm[(row, c + 3)] = dr[c] / rho;
                    }
                }
            }
            let p = DMatrix::from_iterator(9, 9, pbar.iter().copied());
            let s = &hm * &p * hm.transpose() + &rm;
            let Some(si) = s.clone().try_inverse() else { return fail("od-innovation", format!("{what}: singular innovation")) };
            let ratio = ((pre.transpose() * &si * &pre)[(0, 0)] / m as f64).max(0.0).sqrt();
            ensure_p!((r.ratio - ratio).abs() <= 1e-4 * ratio + 1e-7, "od-ratio", "{what}: residual ratio {} instead of {ratio}", r.ratio);
            let edge = limit.is_some_and(|l| (ratio - l).abs() <= 2e-4 * l + 1e-7);
            let reject = limit.is_some_and(|l| ratio > l);
            ensure_p!(edge || r.rejected == reject, "od-rejection", "{what}: ratio {ratio} with the limit {limit:?}, but rejected={}", r.rejected);
            if r.rejected {
                let d = dev_diff(&e.est.state_deviation, &xbar, &pbar);
                ensure_p!(d < 1e-5 && e.est.covar == pbar && e.gain.is_none() && e.est.predicted, "od-rejected", "{what} was rejected but changed the estimate");
                post = e.est.nominal_state;
                ctx.hit("edited");
            } else {
                let gain = &p * hm.transpose() * &si;
                let Some(got) = &e.gain else { return fail("od-gain", format!("{what} was accepted without a gain")) };
                let mut x = DVector::from_iterator(9, xbar.iter().copied());
                for q in 0..9 {
                    for c in 0..m {
                        let scale = pbar[(q, q)].sqrt() * si[(c, c)].sqrt();
                        ensure_p!((got[(q, c)] - gain[(q, c)]).abs() <= 1e-4 * scale + 1e-12, "od-gain", "{what}: gain ({q},{c}) is {} instead of {}", got[(q, c)], gain[(q, c)]);
                    }
                }
                let inno = if ckf { &pre - &hm * &x } else { pre.clone() };
                x += got * &inno;
                let x9 = V9::from_iterator(x.iter().copied());
                let d = dev_diff(&e.est.state_deviation, &x9, &pbar);
                ensure_p!(d < 1e-4, "od-update", "{what}: the state deviation is off by {d:e} sigma");
                let j = DMatrix::identity(9, 9) - &gain * &hm;
                let pn = &j * &p * j.transpose() + &gain * &rm * gain.transpose();
                let pn = M9::from_iterator(pn.iter().copied());
                let d = cov_diff(&e.est.covar, &pn, &pbar);
                ensure_p!(d < 1e-6, "od-covariance", "{what}: the updated covariance is off by {d:e} predicted sigma^2");
                if !ckf {
                    let pf = &pre - &hm * &x;
                    for row in 0..m {
                        ensure_p!((r.postfit[row] - pf[row]).abs() <= 1e-4 * si[(row, row)].sqrt().recip() + 1e-9, "od-postfit", "{what}: postfit {} instead of {}", r.postfit[row], pf[row]);
                    }
                }
                for q in 0..9 {
                    ensure_p!(e.est.covar[(q, q)] <= pbar[(q, q)] * (1.0 + 1e-9) + 1e-24, "od-information", "{what}: variance {q} grew from {} to {}", pbar[(q, q)], e.est.covar[(q, q)]);
                }
                ensure_p!(!e.est.predicted, "od-history", "{what}: the update is marked as a prediction");
                post = if ckf { e.est.nominal_state } else { e.est.state() };
                ctx.hit("accepted");
            }
            check_cov(e, &what)?;
            prev = e.est;
            skipped = false;
            k += 1;
        }
    }
    ensure_p!(k == h.len(), "od-history", "the solution has {} entries but the measurements account for {k}", h.len());
    Ok(())
}

pub fn draw_msrs(r: &mut Rng, kinds: &[u64], n: i64, p_fault: f64) -> Value {
    let mut t = r.range(0, 200);
    let rate = *r.pick(&[1i64, 10, 60, 60, 120]);
    json!(
        (0..n)
            .map(|_| {
                t += if r.chance(0.15) { r.range(1, 40) * 60 } else if r.chance(0.15) { 0 } else { rate };
                json!({"t": t, "ms": if r.chance(0.2) { r.range(0, 999) } else { 0 }, "val": r.below(1 << 40), "kind": if r.chance(p_fault) { *r.pick(kinds) } else { 0 },
                    "which": r.below(3), "scale": *r.pick(&[0.05, 0.1, 0.5, 2.0, 10.0])})
            })
            .collect::<Vec<_>>()
    )
}
pub fn draw_common(r: &mut Rng) -> Value {
    let mut sc = world::draw_sc(r);
    sc["peri"] = json!(r.range(12_000, 20_000));
    sc["ecc_m"] = json!(r.range(1, 200));
    let mut dy = world::draw_dyn(r);
    dy["drag"] = json!(false);
    let mut prop = world::draw_prop(r);
    prop["step_s"] = json!(*r.pick(&[10, 30, 60]));
    let sig_r = *r.pick(&[0.01, 0.1, 1.0, 10.0]);
    json!({"sc": sc, "dyn": dy, "prop": prop, "truth": r.below(1 << 40), "sig_r": sig_r, "sig_v": sig_r * 1e-3, "est_c": r.chance(0.2),
        "order": (0..6).map(|_| { let n = if r.chance(0.3) { 4 } else { 2 }; r.below(n) }).collect::<Vec<_>>(),
        "ckf": r.chance(0.4), "m": r.range(1, 2), "reject": if r.chance(0.6) { json!(*r.pick(&[3.0, 4.0, 6.0, 10.0])) } else { Value::Null },
        "max_step_s": *r.pick(&[10, 60, 60, 300]), "mask": r.chance(0.5)})
}
pub fn draw_snc(r: &mut Rng) -> Value {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3]);
    json!((0..n).map(|k| json!({"e": r.range(12, 20), "off_s": *r.pick(&[5, 60, 120, 3600]), "decay": r.chance(0.3), "lf": *r.pick(&[0, 0, 1, 2, 3]), "from_s": if k > 0 || r.chance(0.2) { json!(r.range(0, 3000)) } else { Value::Null }})).collect::<Vec<_>>())
}
fn make_p11(r: &mut Rng, _: u64, tier: Tier) -> Value {
    let mut v = draw_common(r);
    let n = r.range(2, if tier == Tier::Quick { 14 } else { 40 });
    let faults = *r.pick(&[0.0, 0.2, 0.5]);
    v["msrs"] = draw_msrs(r, &[1, 2, 3, 3, 4, 6, 6, 7, 8, 9], n, faults);
    v["snc"] = draw_snc(r);
    v["force"] = json!(r.chance(0.05));
    if r.chance(0.3) {
        v["order"] = json!((0..6).map(|_| r.below(8)).collect::<Vec<_>>());
    }
    v["modulus"] = if r.chance(0.2) { json!(*r.pick(&[500, 8000, 75660])) } else { Value::Null };
    if r.chance(0.05) {
        let k = r.below(n as u64) as usize;
        v["msrs"][k]["kind"] = json!(5);
    }
    if r.chance(0.04) {
        v["dyn"]["fail_after_s"] = json!(i(&v["sc"], "epoch_s") + r.range(-100, 4000));
    }
    v
}
pub fn valid(arc: &TrackingDataArc) -> Outcome {
    if arc.measurements.len() < 2 {
        return fail(INVALID, "too few measurements");
    }
    Ok(())
}
fn run_p11(v: &Value, ctx: &mut Ctx) -> Outcome {
    let (arc, kinds) = arc_of(v, ctx)?;
    let init = initial(v);
    let od = od_of(v, init.epoch());
    if arc.measurements.len() < 2 {
        ensure_p!(od.process(init, &arc).is_err(), "od-too-few", "an arc of {} measurements was processed", arc.measurements.len());
        return Ok(());
    }
    let dev = stations(v);
    let before = arc.measurements.clone();
    let got = od.process(init, &arc);
    ensure_p!(format!("{before:?}") == format!("{:?}", arc.measurements), "od-arc-changed", "the tracking arc was changed");
    // Measurements that are not numbers must be reported, whatever else is in the arc.
    let bad = arc.measurements.iter().find(|m| !m.rejected && dev.get(&m.tracker).is_some_and(|g| g.measurement_types.iter().any(|t| m.data.get(t).is_some_and(|x| !x.is_finite()))));
    let last = arc.measurements.last().unwrap().epoch;
    if let Some(s) = v["dyn"]["fail_after_s"].as_i64() {
        let fails = world::t0() + s.seconds();
        ctx.hit("fault:dynamics");
        if last > init.epoch() && last - fails > Unit::Second * 700 && init.epoch() < last {
            ensure_p!(got.is_err(), "od-error-swallowed", "the dynamics fail after {fails}, but the arc until {last} was processed");
        }
        if got.is_err() {
            ctx.hit("failed");
            return Ok(());
        }
    }
    if let Some(m) = bad {
        ensure_p!(got.is_err(), "od-not-a-number", "the measurement of {} at {} is not a number, but the arc was processed", m.tracker, m.epoch);
        ctx.hit("failed");
        return Ok(());
    }
    let h = match got {
        Ok(h) => h,
        Err(e) => return fail("od-error", format!("the arc was refused: {e}")),
    };
    check_history(v, ctx, &od, &init, &arc, &h)?;
    ctx.nontrivial = kinds.iter().any(|k| *k != Kind::Good);
    ctx.sim_s = (last - init.epoch()).to_seconds();
    for e in &h {
        world::dig_state(ctx, &e.est.nominal_state);
    }
    Ok(())
}
pub static P11: Prop = Prop {
    id: "P11",
    make: make_p11,
    run: run_p11,
    runs: (2400, 120_000),
    rule: "every entry of the solution is accounted for by the arc and recomputed with an independent Kalman step",
    real: &["nyx-space orbit determination process and Kalman filter, propagation, ground stations, rayon"],
    stub: &["almanac (synthetic constants and ephemerides)", "tracking network (measurements computed by the harness from a simulated truth)", "system clock", "scheduler"],
    must_hit: &["accepted", "edited", "unknown", "flagged", "invisible", "failed", "fault:msr-Missing", "fault:msr-Duplicate", "fault:msr-Extra", "fault:msr-Outlier", "fault:msr-Zero", "fault:dynamics"],
};

// ---- P12: junk ---------------------------------------------------------------------------------------
fn make_p12(r: &mut Rng, _: u64, tier: Tier) -> Value {
    let mut v = draw_common(r);
    v["reject"] = if r.chance(0.7) { json!(*r.pick(&[4.0, 6.0, 10.0])) } else { Value::Null };
    let n = r.range(3, if tier == Tier::Quick { 14 } else { 40 });
    // Gross errors are junk only where the filter edits them.
    let kinds: &[u64] = if v["reject"].is_null() { &[1, 2, 8] } else { &[1, 2, 3, 3, 4, 8] };
    let p = *r.pick(&[0.2, 0.5, 0.7]);
    v["msrs"] = draw_msrs(r, kinds, n, p);
    let (x, y) = (r.below(n as u64) as usize, r.below(n as u64 - 1) as usize);
    v["msrs"][x]["kind"] = json!(0);
    v["msrs"][(x + 1 + y) % n as usize]["kind"] = json!(0);
    for m in v["msrs"].as_array_mut().unwrap() {
        m["which"] = json!(2);
        m["scale"] = json!(*r.pick(&[0.1, 0.5, 10.0, 1000.0]));
    }
    v
}
fn run_p12(v: &Value, ctx: &mut Ctx) -> Outcome {
    let (arc, kinds) = arc_of(v, ctx)?;
    let init = initial(v);
    let od = od_of(v, init.epoch());
    let mut clean = arc.clone();
    clean.measurements = arc.measurements.iter().zip(&kinds).filter(|(_, k)| matches!(k, Kind::Good)).map(|(m, _)| m.clone()).collect();
    valid(&clean)?;
    if kinds.iter().any(|k| matches!(k, Kind::NaN | Kind::Missing | Kind::Duplicate | Kind::Extra)) {
        return fail(INVALID, "not junk");
    }
    let run = |a: &TrackingDataArc| od.process(init, a).map_err(|e| Fail { class: "od-error".into(), msg: format!("an arc with {} measurements was refused: {e}", a.measurements.len()) });
    let (dirty, pure) = (run(&arc)?, run(&clean)?);
    let good: Vec<Epoch> = clean.measurements.iter().map(|m| m.epoch).collect();
    let junk: Vec<(Epoch, String)> = arc.measurements.iter().zip(&kinds).filter(|(_, k)| !matches!(k, Kind::Good)).map(|(m, _)| (m.epoch, m.tracker.clone())).collect();
    // Editing decisions too close to the limit could go either way.
    let limit = v["reject"].as_f64();
    if let Some(l) = limit {
        if dirty.iter().chain(&pure).filter_map(|e| e.res.as_ref()).any(|r| (r.ratio - l).abs() < 0.01 * l) {
            ctx.hit("close-call");
            return Ok(());
        }
    }
    for e in &dirty {
        if let Some(r) = &e.res {
            let t = r.tracker.clone().unwrap_or_default();
            if !good.contains(&r.epoch) && junk.contains(&(r.epoch, t.clone())) {
                ensure_p!(r.rejected, "junk-used", "the junk measurement of {t} at {} was accepted with the ratio {}", r.epoch, r.ratio);
            }
        }
    }
    let acc = |h: &[Entry]| h.iter().filter(|e| e.res.as_ref().is_some_and(|r| !r.rejected)).count();
    ensure_p!(acc(&dirty) == acc(&pure), "junk-decisions", "{} updates were accepted with junk in the arc and {} without", acc(&dirty), acc(&pure));
    let last = clean.measurements.last().unwrap().epoch;
    let at = |h: &[Entry]| h.iter().rev().find(|e| e.est.epoch() == last && e.res.as_ref().is_some_and(|r| !r.rejected)).cloned();
    let (Some(a), Some(z)) = (at(&dirty), at(&pure)) else {
        ctx.hit("last-edited");
        return Ok(());
    };
    let d = dev_diff(&vec9(&a.est.state()), &vec9(&z.est.state()), &z.est.covar);
    ensure_p!(d < 1e-2, "junk-state", "junk in the arc moved the estimate at {last} by {d:e} sigma");
    let d = cov_diff(&a.est.covar, &z.est.covar, &z.est.covar);
    ensure_p!(d < 1e-3, "junk-covariance", "junk in the arc changed the covariance at {last} by {d:e} sigma^2");
    ctx.nontrivial = !junk.is_empty();
    ctx.hit("compared");
    ctx.sim_s = 2.0 * (last - init.epoch()).to_seconds();
    world::dig_state(ctx, &a.est.state());
    Ok(())
}
pub static P12: Prop = Prop {
    id: "P12",
    make: make_p12,
    run: run_p12,
    runs: (2400, 120_000),
    rule: "the estimate after the last good measurement is the same with and without the junk",
    real: P11.real,
    stub: P11.stub,
    must_hit: &["compared", "fault:msr-Unknown", "fault:msr-Flagged", "fault:msr-Outlier", "fault:msr-Zero", "fault:msr-Invisible"],
};

// ---- P13: crash, resume and predict ------------------------------------------------------------------
fn make_p13(r: &mut Rng, _: u64, tier: Tier) -> Value {
    let mut v = draw_common(r);
    let n = r.range(4, if tier == Tier::Quick { 16 } else { 50 });
    let p = *r.pick(&[0.0, 0.2, 0.4]);
    v["msrs"] = draw_msrs(r, &[1, 2, 3, 6, 6, 7, 8, 9], n, p);
    let fixed = b(&v["prop"], "fixed") || u(&v["prop"], "method") == 3;
    v["snc"] = if fixed || r.chance(0.2) { draw_snc(r) } else { json!([]) };
    v["cuts"] = json!((0..r.range(1, 3)).map(|_| r.range(0, 999)).collect::<Vec<_>>());
    v["mid"] = json!(r.chance(0.4));
    v["predict_s"] = json!(*r.pick(&[1, 59, 600, 1234, 5400]));
    v["until"] = json!(r.chance(0.5));
    v["pred_from"] = json!(r.range(0, 999));
    v
}
fn run_p13(v: &Value, ctx: &mut Ctx) -> Outcome {
    let (arc, kinds) = arc_of(v, ctx)?;
    valid(&arc)?;
    let init = initial(v);
    let od = od_of(v, init.epoch());
    let err = |e: String| Fail { class: "od-error".into(), msg: format!("the filter failed: {e}") };
    let full = od.process(init, &arc).map_err(err)?;
    if full.is_empty() {
        return fail(INVALID, "nothing processed");
    }
    let ckf = b(v, "ckf");
    let decays = v["snc"].as_array().is_some_and(|a| a.iter().any(|s| b(s, "decay")));
    let fixed = b(&v["prop"], "fixed") || u(&v["prop"], "method") == 3;
    let no_noise = v["snc"].as_array().is_none_or(|a| a.is_empty());
    // Crash and resume: only the last estimate survives. The decay of a process noise restarts with the filter.
    // Process noise depends on the prediction steps, which a measurement without an entry splits.
    let same_steps = fixed && !kinds.iter().any(|k| matches!(k, Kind::Unknown | Kind::Invisible | Kind::Missing));
    if !decays && (same_steps || no_noise) {
        let mut est = init;
        let mut from = 0usize;
        let mut stitched: Vec<Entry> = vec![];
        let mut cuts: Vec<usize> = v["cuts"].as_array().cloned().unwrap_or_default().iter().map(|c| (c.as_u64().unwrap_or(0) as usize * arc.measurements.len()) / 1000).collect();
        cuts.sort_unstable();
        cuts.push(arc.measurements.len());
        for c in cuts {
            // A filter needs two measurements, so shorter pieces are merged with the next one.
            if c < from + 2 || (arc.measurements.len() - c == 1) {
                continue;
            }
            let mut part = arc.clone();
            part.measurements = arc.measurements[from..c].to_vec();
            let h = od.process(est, &part).map_err(err)?;
            let mut used = h.len();
            let mut next = c;
            if b(v, "mid") && c < arc.measurements.len() {
                // The crash loses everything after some prediction in the gap before a measurement.
                if let Some(k) = (0..h.len()).rev().find(|k| h[*k].est.predicted && h[*k].res.is_none() && part.measurements.iter().all(|m| m.epoch != h[*k].est.epoch())) {
                    let t = h[k].est.epoch();
                    let n = from + part.measurements.iter().filter(|m| m.epoch < t).count();
                    if arc.measurements.len() - n >= 2 {
                        used = k + 1;
                        next = n;
                        ctx.hit("crash-mid");
                    }
                }
            }
            if let Some(e) = h[..used].last() {
                est = e.est;
            }
            stitched.extend(h[..used].iter().cloned());
            if next < arc.measurements.len() {
                ctx.hit("fault:crash");
            }
            from = next;
        }
        if from < arc.measurements.len() {
            let mut part = arc.clone();
            part.measurements = arc.measurements[from..].to_vec();
            if part.measurements.len() >= 2 {
                stitched.extend(od.process(est, &part).map_err(err)?);
            } else {
                return fail(INVALID, "last piece too short");
            }
        }
        let limit = v["reject"].as_f64();
        if full.iter().chain(&stitched).filter_map(|e| e.res.as_ref()).any(|r| limit.is_some_and(|l| (r.ratio - l).abs() < 0.01 * l)) {
            ctx.hit("close-call");
        } else {
            let up = |h: &[Entry]| h.iter().filter(|e| e.res.is_some()).cloned().collect::<Vec<_>>();
            let (a, z) = (up(&full), up(&stitched));
            ensure_p!(a.len() == z.len(), "resume-history", "{} measurement entries with restarts, {} without", z.len(), a.len());
            for (x, y) in a.iter().zip(&z) {
                let (rx, ry) = (x.res.as_ref().unwrap(), y.res.as_ref().unwrap());
                ensure_p!(rx.epoch == ry.epoch && rx.tracker == ry.tracker && rx.types == ry.types && rx.rejected == ry.rejected, "resume-history", "with restarts {:?} at {} (rejected={}) instead of {:?} at {} (rejected={})", ry.tracker, ry.epoch, ry.rejected, rx.tracker, rx.epoch, rx.rejected);
                let d = dev_diff(&vec9(&x.est.state()), &vec9(&y.est.state()), &x.est.covar);
                ensure_p!(d < 1e-2, "resume-state", "at {} the resumed filter is off by {d:e} sigma", rx.epoch);
                let d = cov_diff(&x.est.covar, &y.est.covar, &x.est.covar);
                ensure_p!(d < 1e-3, "resume-covariance", "at {} the covariance of the resumed filter is off by {d:e} sigma^2", rx.epoch);
            }
            ctx.hit("compared");
        }
    }
    // Predictions continue from any estimate of the filter.
    let from = &full[(i(v, "pred_from").unsigned_abs() as usize * full.len() / 1000).min(full.len() - 1)];
    let dur = Unit::Second * i(v, "predict_s").max(1);
    let h = od.predict(from.est, dur, b(v, "until")).map_err(err)?;
    let max = Unit::Second * i(v, "max_step_s").max(1);
    let start = from.est.epoch();
    ensure_p!(h.len() >= 2, "predict-history", "the prediction has {} entries", h.len());
    ensure_p!(h[0].est.epoch() == start && h[0].est == from.est, "predict-history", "the prediction does not start with the estimate it was given");
    let (mut prev, mut post) = (from.est, if ckf || from.est.predicted { from.est.nominal_state } else { from.est.state() });
    post.stm = None;
    for (k, e) in h.iter().enumerate().skip(1) {
        let what = format!("prediction {k} at {}", e.est.epoch());
        let gap = e.est.epoch() - prev.epoch();
        ensure_p!(gap > Duration::ZERO && gap <= max, "predict-history", "{what} is {gap} after the previous entry, with steps of {max}");
        ensure_p!(e.res.is_none() && e.gain.is_none() && e.est.predicted, "predict-history", "{what} is not a prediction");
        let (_, xbar) = check_time(v, e, &prev, &post, init.epoch(), start, ckf, &what)?;
        let d = dev_diff(&e.est.state_deviation, &xbar, &e.est.covar_bar);
        ensure_p!(d < 1e-5, "predict-deviation", "{what}: the state deviation is off by {d:e} sigma");
        ensure_p!(e.est.covar == e.est.covar_bar, "predict-covariance", "{what}: covariance and predicted covariance differ");
        check_cov(e, &what)?;
        prev = e.est;
        post = e.est.nominal_state;
    }
    ensure_p!(prev.epoch() == start + dur, "predict-end", "the prediction for {dur} from {start} ends at {}", prev.epoch());
    ctx.nontrivial = true;
    ctx.hit("predicted");
    ctx.sim_s = (arc.measurements.last().unwrap().epoch - init.epoch()).to_seconds() * 2.0 + dur.to_seconds();
    world::dig_state(ctx, &full.last().unwrap().est.state());
    Ok(())
}
pub static P13: Prop = Prop {
    id: "P13",
    make: make_p13,
    run: run_p13,
    runs: (1500, 100_000),
    rule: "a filter restarted from its last estimate gives the estimates of an uninterrupted one; predictions are recomputed step by step",
    real: P11.real,
    stub: P11.stub,
    must_hit: &["compared", "predicted", "fault:crash", "crash-mid"],
};
