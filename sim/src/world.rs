//! The simulated world: synthetic planetary constants and ephemerides, and builders of the objects the
//! workloads propagate. Everything is drawn from JSON so that scenarios can be minimised and replayed.
use crate::rt::rng::Rng;
use crate::rt::sched;
use anise::analysis::prelude::OrbitalElement;
use anise::astro::Aberration;
use anise::constants::frames::{EARTH_J2000, EARTH_MOON_BARYCENTER_J2000, IAU_EARTH_FRAME, MOON_J2000, SSB_J2000};
use anise::ephemerides::ephemeris::Ephemeris;
use anise::naif::daf::DafDataType as DataType;
use anise::prelude::{Almanac, Frame, Orbit};
use anise::structure::PlanetaryDataSet;
use anise::structure::planetocentric::PlanetaryData;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use anise::structure::planetocentric::phaseangle::PhaseAngle;
use hifitime::{Duration, Epoch, TimeUnits, Unit};
use nalgebra::{Matrix3, Vector3};
use nyx_space::Spacecraft;
use nyx_space::cosmic::{DragData, Mass, SRPData};
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::dynamics::{AccelModel, Drag, DynamicsError, GravityField, OrbitalDynamics, SolarPressure, SpacecraftDynamics};
use nyx_space::io::gravity::GravityFieldData;
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use serde_json::{Value, json};
use std::sync::{Arc, OnceLock};

static ALMANAC: OnceLock<Arc<Almanac>> = OnceLock::new();

/// All simulated missions start within +-10 days of this date.
pub fn t0() -> Epoch {
    Epoch::from_gregorian_utc_hms(2024, 2, 29, 12, 0, 0)
}

fn body(id: i32, mu: f64, radius: f64, polar: f64, ra: [f64; 3], dec: [f64; 3], pm: [f64; 3]) -> PlanetaryData {
    PlanetaryData {
        object_id: id,
        parent_id: 1,
        mu_km3_s2: mu,
        shape: Some(Ellipsoid::from_spheroid(radius, polar)),
        pole_right_ascension: PhaseAngle::maybe_new(&ra),
        pole_declination: PhaseAngle::maybe_new(&dec),
        prime_meridian: PhaseAngle::maybe_new(&pm),
        ..Default::default()
    }
}

fn circular(name: &str, id: i32, center: Frame, radius: f64, period_days: f64, phase: f64, incl: f64, step: Duration, span: Duration) -> anise::naif::SPK {
    let mut e = Ephemeris::new(name.to_string());
    let w = std::f64::consts::TAU / (period_days * 86400.0);
    let (start, end) = (t0() - span, t0() + span);
    let mut t = start;
    while t <= end {
        let a = phase + w * (t - t0()).to_seconds();
        let (s, c) = a.sin_cos();
        let (si, ci) = incl.sin_cos();
        let o = Orbit::new(
            radius * c,
            radius * s * ci,
            radius * s * si,
            -radius * w * s,
            radius * w * c * ci,
            radius * w * c * si,
            t,
            center,
        );
        e.insert_orbit(o);
        t += step;
    }
    e.to_spice_bsp(id, Some(DataType::Type13HermiteUnequalStep)).expect("synthetic SPK")
}

pub fn init() {
    ALMANAC.get_or_init(|| Arc::new(build()));
    // Frames and constants used by every run are looked up once here, outside any simulated run.
    let _ = eme2k();
    let _ = iau_earth();
}

fn build() -> Almanac {
    let mut ds = PlanetaryDataSet::default();
    let z = [0.0, 0.0, 0.0];
    ds.push(body(10, 132712440041.9394, 696000.0, 696000.0, z, [90.0, 0.0, 0.0], z), Some(10), Some("Sun")).unwrap();
    ds.push(
        body(399, 398600.435436096, 6378.14, 6356.75, [0.0, -0.641, 0.0], [90.0, -0.557, 0.0], [190.147, 360.9856235, 0.0]),
        Some(399),
        Some("Earth"),
    )
    .unwrap();
    ds.push(body(301, 4902.800066163796, 1737.4, 1737.4, [270.0, 0.0, 0.0], [66.5, 0.0, 0.0], [38.3, 13.17635815, 0.0]), Some(301), Some("Moon"))
        .unwrap();
    let day = Unit::Day * 1;
    let span = Unit::Day * 60;
    Almanac::default()
        .with_planetary_data_as(ds, Some("pck".to_string()))
        .with_spk_as(circular("Sun", 10, SSB_J2000, 700000.0, 4332.0, 0.4, 0.1, day, span), Some("sun".into()))
        .with_spk_as(circular("EMB", 3, SSB_J2000, 149597870.7, 365.25, 1.2, 0.4, day, span), Some("emb".into()))
        .with_spk_as(circular("Earth", 399, EARTH_MOON_BARYCENTER_J2000, 4671.0, 27.32, 0.7, 0.4, Unit::Hour * 6, span), Some("earth".into()))
        .with_spk_as(
            circular("Moon", 301, EARTH_MOON_BARYCENTER_J2000, 379729.0, 27.32, 0.7 + std::f64::consts::PI, 0.4, Unit::Hour * 6, span),
            Some("moon".into()),
        )
}

pub fn almanac() -> Arc<Almanac> {
    ALMANAC.get().expect("world::init").clone()
}
pub fn eme2k() -> Frame {
    almanac().frame_info(EARTH_J2000).unwrap()
}
pub fn iau_earth() -> Frame {
    almanac().frame_info(IAU_EARTH_FRAME).unwrap()
}
pub fn moon_j2k() -> Frame {
    almanac().frame_info(MOON_J2000).unwrap()
}

// ---- JSON access -----------------------------------------------------------------------------------
pub fn f(v: &Value, k: &str) -> f64 {
    v[k].as_f64().unwrap_or(0.0)
}
pub fn u(v: &Value, k: &str) -> u64 {
    v[k].as_u64().unwrap_or(0)
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}
pub fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or(false)
}

// ---- orbits and spacecraft ---------------------------------------------------------------------------
/// An Earth orbit whose perigee stays above the atmosphere.
pub fn draw_sc(r: &mut Rng) -> Value {
    let peri = r.range(6900, 9000);
    let ecc_m = *r.pick(&[1, 5, 20, 100, 200, 400]);
    json!({
        "peri": peri, "ecc_m": ecc_m, "inc": r.range(5, 120), "raan": r.range(0, 359), "aop": r.range(0, 359),
        "ta": r.range(0, 359), "epoch_s": r.range(-200_000, 200_000), "dry": r.range(50, 2000), "prop": r.range(1, 500),
        "cr_m": r.range(1000, 2000), "cd_m": r.range(1500, 2500), "extra": *r.pick(&[0, 0, 35]),
    })
}
pub fn epoch_of(v: &Value) -> Epoch {
    t0() + i(v, "epoch_s").seconds() + (i(v, "epoch_ns") as f64).nanoseconds()
}
pub fn orbit(v: &Value) -> Orbit {
    let ecc = f(v, "ecc_m") * 1e-3;
    let peri = f(v, "peri").max(6700.0);
    let sma = peri / (1.0 - ecc);
    Orbit::keplerian(sma, ecc.max(1e-4), f(v, "inc"), f(v, "raan"), f(v, "aop"), f(v, "ta"), epoch_of(v), eme2k())
}
pub fn spacecraft(v: &Value) -> Spacecraft {
    Spacecraft {
        orbit: orbit(v),
        mass: Mass { dry_mass_kg: f(v, "dry").max(1.0), prop_mass_kg: f(v, "prop"), extra_mass_kg: f(v, "extra") },
        srp: SRPData { area_m2: 3.0, coeff_reflectivity: f(v, "cr_m").max(1000.0) * 1e-3 },
        drag: DragData { area_m2: 2.0, coeff_drag: f(v, "cd_m").max(1000.0) * 1e-3 },
        thruster: if b(v, "thruster") { Some(Thruster { thrust_N: 5.0, isp_s: 300.0 }) } else { None },
        ..Default::default()
    }
}

/// An acceleration model that does nothing but offer preemption points, and can fail on demand: the
/// failure depends only on the state, so the same run fails in every schedule.
pub struct Probe {
    pub fail_above_km: Option<f64>,
    pub fail_below_km: Option<f64>,
    pub fail_after: Option<Epoch>,
    pub points: u32,
}
impl std::fmt::Display for Probe {
    fn fmt(&self, fm: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(fm, "simulation probe")
    }
}
impl Probe {
    fn check(&self, osc: &Orbit) -> Result<(), DynamicsError> {
        for _ in 0..self.points {
            sched::point();
        }
        let r = osc.rmag_km();
        if self.fail_above_km.is_some_and(|x| r > x) || self.fail_below_km.is_some_and(|x| r < x) || self.fail_after.is_some_and(|t| osc.epoch > t) {
            return Err(DynamicsError::MasslessSpacecraft);
        }
        Ok(())
    }
}
impl AccelModel for Probe {
    fn eom(&self, osc: &Orbit, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
        self.check(osc)?;
        Ok(Vector3::zeros())
    }
    fn gradient(&self, osc: &Orbit, _: &Almanac) -> Result<(Vector3<f64>, Matrix3<f64>), DynamicsError> {
        self.check(osc)?;
        Ok((Vector3::zeros(), Matrix3::zeros()))
    }
}

pub fn draw_dyn(r: &mut Rng) -> Value {
    json!({
        "moon": r.chance(0.3), "sun": r.chance(0.2), "j2": r.chance(0.3), "srp": r.chance(0.2), "drag": r.chance(0.15),
        "points": r.range(0, 3),
        "fail_above": Value::Null, "fail_below": Value::Null, "fail_after_s": Value::Null,
    })
}
pub fn orbital_dynamics(v: &Value) -> OrbitalDynamics {
    let al = almanac();
    let mut models: Vec<Arc<dyn AccelModel + Sync>> = vec![];
    models.push(Arc::new(Probe {
        fail_above_km: v["fail_above"].as_f64(),
        fail_below_km: v["fail_below"].as_f64(),
        fail_after: v["fail_after_s"].as_i64().map(|s| t0() + s.seconds()),
        points: u(v, "points") as u32,
    }));
    let mut bodies = vec![];
    if b(v, "moon") {
        bodies.push(301);
    }
    if b(v, "sun") {
        bodies.push(10);
    }
    if !bodies.is_empty() {
        let corr = if b(v, "lt") { Aberration::new("LT").unwrap_or(None) } else { None };
        models.push(Arc::new(nyx_space::dynamics::PointMasses::with_correction(bodies, corr)));
    }
    if b(v, "j2") {
        let f = al.frame_info(IAU_EARTH_FRAME).unwrap();
        models.push(GravityField::new(GravityFieldData::from_j2(-4.84165371736e-4, f)));
    }
    OrbitalDynamics::new(models)
}
pub fn dynamics(v: &Value) -> SpacecraftDynamics {
    let al = almanac();
    let mut d = SpacecraftDynamics::new(orbital_dynamics(v));
    if b(v, "srp") {
        d.force_models.push(if b(v, "srp_est") { SolarPressure::new(vec![EARTH_J2000], &al).unwrap() } else { SolarPressure::default_no_estimation(vec![EARTH_J2000], &al).unwrap() });
    }
    if b(v, "drag") {
        d.force_models.push(Drag::earth_exp(&al).unwrap());
    }
    d
}

pub fn draw_prop(r: &mut Rng) -> Value {
    json!({"method": r.below(6), "fixed": r.chance(0.35), "step_s": *r.pick(&[10, 30, 60, 90, 120]), "tol_e": r.range(9, 12), "max_s": *r.pick(&[60, 120, 300, 600])})
}
pub fn propagator<D: nyx_space::dynamics::Dynamics<StateType = Spacecraft>>(v: &Value, d: D) -> Propagator<D> {
    let m = match u(v, "method") {
        0 => IntegratorMethod::RungeKutta89,
        1 => IntegratorMethod::DormandPrince78,
        2 => IntegratorMethod::DormandPrince45,
        3 => IntegratorMethod::RungeKutta4,
        4 => IntegratorMethod::CashKarp45,
        _ => IntegratorMethod::Verner56,
    };
    let fixed = b(v, "fixed") || m == IntegratorMethod::RungeKutta4;
    let step = f(v, "step_s").max(1.0) * Unit::Second;
    let o = if fixed {
        IntegratorOptions::with_fixed_step(step)
    } else {
        IntegratorOptions::builder()
            .init_step(step)
            .min_step(1e-3 * Unit::Second)
            .max_step(f(v, "max_s").max(f(v, "step_s")).max(1.0) * Unit::Second)
            .tolerance(10f64.powi(-(u(v, "tol_e").clamp(6, 12) as i32)))
            .error_ctrl(ErrorControl::RSSCartesianStep)
            .build()
    };
    Propagator::new(d, m, o)
}

// ---- exact comparison -----------------------------------------------------------------------------
/// Every number of the state, bit for bit.
pub fn bits(s: &Spacecraft) -> Vec<u64> {
    let (c, n) = s.orbit.epoch.to_tai_duration().to_parts();
    let mut v = vec![c as u64, n];
    v.extend(s.orbit.radius_km.iter().map(|x| x.to_bits()));
    v.extend(s.orbit.velocity_km_s.iter().map(|x| x.to_bits()));
    for x in [s.mass.dry_mass_kg, s.mass.prop_mass_kg, s.mass.extra_mass_kg, s.srp.area_m2, s.srp.coeff_reflectivity, s.drag.area_m2, s.drag.coeff_drag] {
        v.push(x.to_bits());
    }
    v.push(s.mode as u64);
    v.push(s.orbit.frame.ephemeris_id as u64);
    v.push(s.orbit.frame.orientation_id as u64);
    if let Some(stm) = s.stm {
        v.extend(stm.iter().map(|x| x.to_bits()));
    }
    v
}
pub fn same(a: &Spacecraft, b: &Spacecraft) -> bool {
    bits(a) == bits(b)
}
pub fn same_states(a: &[Spacecraft], b: &[Spacecraft]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
pub fn dig_state(c: &mut crate::run::Ctx, s: &Spacecraft) {
    for b in bits(s) {
        c.dig(b);
    }
}
/// A plain-text rendering precise enough to see differences.
pub fn show(s: &Spacecraft) -> String {
    format!(
        "{} r=({:.9},{:.9},{:.9}) v=({:.12},{:.12},{:.12}) m={:.9} cr={:.9} cd={:.9}",
        s.orbit.epoch,
        s.orbit.radius_km.x,
        s.orbit.radius_km.y,
        s.orbit.radius_km.z,
        s.orbit.velocity_km_s.x,
        s.orbit.velocity_km_s.y,
        s.orbit.velocity_km_s.z,
        s.mass.prop_mass_kg,
        s.srp.coeff_reflectivity,
        s.drag.coeff_drag
    )
}
pub const ELEMENTS: &[OrbitalElement] = &[
    OrbitalElement::SemiMajorAxis,
    OrbitalElement::Eccentricity,
    OrbitalElement::Inclination,
    OrbitalElement::RAAN,
    OrbitalElement::X,
    OrbitalElement::VZ,
    OrbitalElement::Rmag,
    OrbitalElement::Vmag,
];
