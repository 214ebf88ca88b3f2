//! The motion a propagation follows (P26) and the gravity fields it is given (P27).
use super::traj::err;
use crate::ensure_p;
use crate::io::{self, Art, Torn};
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, IAU_MOON_FRAME, MOON_J2000, SUN_J2000};
use anise::prelude::{Frame, Orbit};
use hifitime::{Duration, Epoch, TimeUnits, Unit};
use nalgebra::{Matrix3, Vector3, Vector6};
use nyx_space::dynamics::{AccelModel, GravityField, OrbitalDynamics, PointMasses, SolarPressure, SolidTides, SpacecraftDynamics};
use nyx_space::io::gravity::{GravityFieldConfig, GravityFieldData};
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::Spacecraft;
use serde_json::{Value, json};
use std::io::Write as _;
use std::sync::Arc;

type V3 = Vector3<f64>;

// ---- gravity fields ------------------------------------------------------------------------------------
/// The coefficients of a field, fully normalised: (degree, order, C, S).
#[derive(Clone)]
pub struct Field {
    pub rows: Vec<(usize, usize, f64, f64)>,
}
fn draw_field(r: &mut Rng) -> Value {
    let n = r.range(2, 8);
    json!({"n": n, "full": r.chance(0.7), "seed": r.below(1 << 40), "deg": r.range(0, 10), "ord": r.range(0, 10), "fmt": r.below(2), "gz": r.chance(0.5), "one": r.chance(0.2), "comment": r.chance(0.3)})
}
fn field_of(v: &Value) -> Field {
    let mut r = Rng::new(u(v, "seed"));
    let mut rows = vec![];
    for n in (if b(v, "one") { 1 } else { 2 })..=u(v, "n").clamp(2, 12) as usize {
        for m in 0..=n {
            let s = 1e-5 / (n * n) as f64;
            let mut g = || (r.range(-999_999, 999_999) as f64) * 1e-6 * s;
            let (c, sn) = (g(), if m == 0 { 0.0 } else { g() });
            rows.push((n, m, if (n, m) == (2, 0) { -4.84165e-4 } else { c }, sn));
        }
    }
    Field { rows }
}
/// The field as a file, and the coefficients as printed in it.
fn field_text(v: &Value, fld: &Field) -> (String, Field) {
    let mut out = String::new();
    let mut rows = vec![];
    if u(v, "fmt") == 0 {
        out.push_str("  0.6378136300E+04, 0.3986004415E+06, 0.0, 8, 8, 1, 0.0, 0.0\n");
        for (n, m, c, s) in &fld.rows {
            let (cs, ss) = (format!("{c:.12E}"), format!("{s:.12E}"));
            let line = match (n + m) % 3 {
                0 => format!("{n:5},{m:5},{cs},{ss}, 1.0E-12, 1.0E-12\n"),
                1 => format!("{n:5} {m:5}  {}  {}\n", cs.replace('E', "D"), ss.replace('E', "D")),
                _ => format!("{n:5}{m:5} {cs} {ss} 1.0E-12 1.0E-12\n").replacen(&format!("{n:5}{m:5}"), &format!("{n:5} {m:5}"), 1),
            };
            out.push_str(&line);
            rows.push((*n, *m, cs.parse().unwrap(), ss.parse().unwrap()));
        }
    } else {
        out.push_str("C  A COMMENT\nPOTFIELD  8  8  1 3.986004415E+14 6.378136300E+06 1.0\n");
        for (n, m, c, s) in &fld.rows {
            // Fixed columns: without room for a space between the values if the second is negative.
            let cof = |x: f64| {
                let t = format!("{x:.14e}");
                let (a, e) = t.split_once('e').unwrap();
                let e: i32 = e.parse().unwrap();
                format!("{a}E{}{:02}", if e < 0 { "-" } else { "+" }, e.abs())
            };
            let (cs, ss) = (cof(*c), cof(*s));
            let line = if *m == 0 { format!("RECOEF  {n:3}{m:3}   {cs:>21}\n") } else { format!("RECOEF  {n:3} {m:3}   {cs:>21}{ss:>21}\n") };
            let line = line.replacen(&format!("{n:3}{m:3}"), &format!("{n:3} {m:3}"), 1);
            out.push_str(&line);
            rows.push((*n, *m, cs.parse().unwrap(), if *m == 0 { 0.0 } else { ss.parse().unwrap() }));
            if b(v, "comment") && *m == *n {
                out.push_str("C  ANOTHER COMMENT\n");
            }
        }
        out.push_str("END\n");
    }
    (out, Field { rows })
}
fn gz(text: &str) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
    e.write_all(text.as_bytes()).unwrap();
    e.finish().unwrap()
}
impl Field {
    fn upto(&self, deg: usize, ord: usize) -> Field {
        Field { rows: self.rows.iter().filter(|(n, m, ..)| *n <= deg && *m <= ord).cloned().collect() }
    }
    /// The acceleration at a body fixed position beyond the point mass, by Cunningham's recursion.
    fn accel(&self, r: V3, mu: f64, re: f64) -> V3 {
        let nmax = self.rows.iter().map(|x| x.0).max().unwrap_or(0);
        let (r2, w) = (r.norm_squared(), nmax + 2);
        let rho = re * re / r2;
        let (x0, y0, z0) = (re * r.x / r2, re * r.y / r2, re * r.z / r2);
        let mut vv = vec![vec![0.0; w]; w];
        let mut ww = vec![vec![0.0; w]; w];
        vv[0][0] = re / r2.sqrt();
        for m in 0..w {
            if m > 0 {
                let k = (2 * m - 1) as f64;
                vv[m][m] = k * (x0 * vv[m - 1][m - 1] - y0 * ww[m - 1][m - 1]);
                ww[m][m] = k * (x0 * ww[m - 1][m - 1] + y0 * vv[m - 1][m - 1]);
            }
            for n in m + 1..w {
                let (a, c) = ((2 * n - 1) as f64 / (n - m) as f64, (n + m - 1) as f64 / (n - m) as f64);
                let (pv, pw) = if n >= m + 2 { (vv[n - 2][m], ww[n - 2][m]) } else { (0.0, 0.0) };
                vv[n][m] = a * z0 * vv[n - 1][m] - c * rho * pv;
                ww[n][m] = a * z0 * ww[n - 1][m] - c * rho * pw;
            }
        }
        let fact = |k: usize| (1..=k).fold(1.0f64, |a, x| a * x as f64);
        let mut a = V3::zeros();
        for (n, m, c, s) in &self.rows {
            let (n, m) = (*n, *m);
            let k = ((if m == 0 { 1.0 } else { 2.0 }) * (2 * n + 1) as f64 * fact(n - m) / fact(n + m)).sqrt();
            let (c, s) = (c * k, s * k);
            if m == 0 {
                a.x -= c * vv[n + 1][1];
                a.y -= c * ww[n + 1][1];
            } else {
                let g = 0.5 * (n - m + 1) as f64 * (n - m + 2) as f64;
                a.x += 0.5 * (-c * vv[n + 1][m + 1] - s * ww[n + 1][m + 1]) + g * (c * vv[n + 1][m - 1] + s * ww[n + 1][m - 1]);
                a.y += 0.5 * (-c * ww[n + 1][m + 1] + s * vv[n + 1][m + 1]) + g * (-c * ww[n + 1][m - 1] + s * vv[n + 1][m - 1]);
            }
            a.z += (n - m + 1) as f64 * (-c * vv[n + 1][m] - s * ww[n + 1][m]);
        }
        a * (mu / (re * re))
    }
}

// ---- the reference motion --------------------------------------------------------------------------------
struct Model {
    center: Frame,
    fixed: Frame,
    mu: f64,
    bodies: Vec<Frame>,
    field: Option<Field>,
    tides: bool,
    /// Cr A / m of solar pressure
    srp: Option<f64>,
}
fn mu_of(f: Frame) -> f64 {
    world::almanac().frame_info(f).unwrap().mu_km3_s2().unwrap()
}
impl Model {
    fn dcm(&self, t: Epoch) -> Matrix3<f64> {
        world::almanac().rotate(self.center, self.fixed, t).unwrap().rot_mat
    }
    fn at(&self, body: Frame, t: Epoch) -> V3 {
        world::almanac().transform(body, self.center, t, None).unwrap().radius_km
    }
    /// The share of the Sun which the central body hides, from the overlap of two discs.
    fn shade(&self, t: Epoch, r: V3) -> f64 {
        let s = self.at(SUN_J2000, t) - r;
        let re = self.center.mean_equatorial_radius_km().unwrap();
        let (a, bb) = ((696_000.0 / s.norm()).asin(), (re / r.norm()).asin());
        let c = (-(r.dot(&s)) / (r.norm() * s.norm())).clamp(-1.0, 1.0).acos();
        if c >= a + bb {
            return 0.0;
        }
        if c <= bb - a {
            return 1.0;
        }
        let x = (c * c + a * a - bb * bb) / (2.0 * c);
        let y = (a * a - x * x).max(0.0).sqrt();
        let area = a * a * (x / a).clamp(-1.0, 1.0).acos() + bb * bb * ((c - x) / bb).clamp(-1.0, 1.0).acos() - c * y;
        area / (std::f64::consts::PI * a * a)
    }
    fn accel(&self, t: Epoch, r: V3) -> V3 {
        let mut a = -r * (self.mu / r.norm().powi(3));
        for &bd in &self.bodies {
            let p = self.at(bd, t);
            let d = p - r;
            a += (d / d.norm().powi(3) - p / p.norm().powi(3)) * mu_of(bd);
        }
        let re = self.center.mean_equatorial_radius_km().unwrap();
        if let Some(fld) = &self.field {
            let d = self.dcm(t);
            a += d.transpose() * fld.accel(d * r, self.mu, re);
        }
        if self.tides {
            // The response of degree n to a body is k_n times its tidal potential at the surface, outwards.
            for (bd, deg) in [(MOON_J2000, 3), (SUN_J2000, 2)] {
                let p = self.at(bd, t);
                let (rn, pn) = (r.norm(), p.norm());
                let (ur, up) = (r / rn, p / pn);
                let c = ur.dot(&up);
                for n in 2..=deg {
                    let (k, leg, dleg) = if n == 2 { (0.3019, 1.5 * c * c - 0.5, 3.0 * c) } else { (0.093, 2.5 * c * c * c - 1.5 * c, 7.5 * c * c - 1.5) };
                    let w = k * mu_of(bd) * re.powi(2 * n + 1) / pn.powi(n + 1) / rn.powi(n + 2);
                    a += (up - ur * c) * (w * dleg) - ur * (w * leg * (n + 1) as f64);
                }
            }
        }
        if let Some(k) = self.srp {
            let s = r - self.at(SUN_J2000, t);
            let au: f64 = 149_597_870.700;
            a += s / s.norm() * ((1.0 - self.shade(t, r)) * 1e-3 * k * 1367.0 / 299_792_458.0 * (au / s.norm()).powi(2));
        }
        a
    }
    fn rhs(&self, t: Epoch, y: &Vector6<f64>) -> Vector6<f64> {
        let a = self.accel(t, y.fixed_rows::<3>(0).into_owned());
        Vector6::new(y[3], y[4], y[5], a.x, a.y, a.z)
    }
    /// Gragg-Bulirsch-Stoer extrapolation in short steps.
    fn fly(&self, t0: Epoch, y0: Vector6<f64>, t1: Epoch) -> Vector6<f64> {
        let (mut t, mut y) = (t0, y0);
        let sign = if t1 < t0 { -1.0 } else { 1.0 };
        while t != t1 {
            let r = y.fixed_rows::<3>(0).norm();
            let left = (t1 - t).to_seconds().abs();
            let mut h = (0.1 * (r.powi(3) / self.mu).sqrt()).min(600.0);
            let last = left <= h * 1.0001;
            if last {
                h = left;
            }
            let hh = h * sign;
            let f0 = self.rhs(t, &y);
            let mut tab: Vec<Vector6<f64>> = vec![];
            for k in 1..=6usize {
                let n = 2 * k;
                let s = hh / n as f64;
                let (mut z0, mut z1) = (y, y + f0 * s);
                for j in 1..n {
                    let z2 = z0 + self.rhs(t + (s * j as f64).seconds(), &z1) * (2.0 * s);
                    z0 = z1;
                    z1 = z2;
                }
                let mut cur = (z0 + z1 + self.rhs(t + hh.seconds(), &z1) * s) * 0.5;
                let prev = std::mem::take(&mut tab);
                tab.push(cur);
                for (j, p) in prev.iter().enumerate() {
                    let q = (n as f64 / (n - 2 * (j + 1)) as f64).powi(2);
                    cur += (cur - p) / (q - 1.0);
                    tab.push(cur);
                }
            }
            y = tab[tab.len() - 1];
            t = if last { t1 } else { t + hh.seconds() };
        }
        y
    }
}
pub fn y_of(o: &Orbit) -> Vector6<f64> {
    Vector6::new(o.radius_km.x, o.radius_km.y, o.radius_km.z, o.velocity_km_s.x, o.velocity_km_s.y, o.velocity_km_s.z)
}

// ---- P26 -------------------------------------------------------------------------------------------------
fn draw_p26(r: &mut Rng) -> Value {
    let mut sc = world::draw_sc(r);
    let hyper = r.chance(0.08);
    if hyper {
        sc["ecc_m"] = json!(*r.pick(&[1100, 1400]));
        sc["ta"] = json!(r.range(0, 80));
    } else if r.chance(0.2) {
        sc["ecc_m"] = json!(*r.pick(&[600, 720]));
    }
    let n = r.us(1, 4);
    let back = r.chance(0.35);
    let legs: Vec<Value> = (0..n)
        .map(|_| {
            let d = match r.below(6) {
                0 => r.range(1, 60),
                1..=3 => r.range(60, 1500),
                _ => r.range(1000, 6000),
            };
            let turn = r.chance(0.1);
            json!({"dur_s": if back != turn { -d } else { d }, "ns": if r.chance(0.3) { r.range(0, 999_999_999) } else { 0 }, "traj": r.chance(0.5)})
        })
        .collect();
    json!({
        "sc": sc, "moon_center": r.chance(0.2), "legs": legs, "stm": r.chance(0.15),
        "moon": r.chance(0.4), "sun": r.chance(0.3), "earth": r.chance(0.5), "field": if r.chance(0.5) { draw_field(r) } else { Value::Null }, "tides": r.chance(0.2), "srp": r.chance(0.2),
        "points": r.range(0, 2), "center_at": if r.chance(0.3) { json!(r.below(3)) } else { Value::Null }, "iframe": r.chance(0.12),
        "method": r.below(6), "fixed": r.chance(0.25), "step_s": *r.pick(&[5, 10, 20, 30, 60, 120]), "tol_e": r.range(8, 12), "ctrl": r.below(7),
        "init_s": *r.pick(&[1, 10, 60, 300, 1200]), "max_s": *r.pick(&[30, 120, 600, 1800, 2700]), "probe": r.below(1 << 30),
    })
}
fn ctrl_of(k: u64) -> ErrorControl {
    match k % 7 {
        0 => ErrorControl::RSSCartesianStep,
        1 => ErrorControl::RSSCartesianState,
        2 => ErrorControl::RSSState,
        3 => ErrorControl::RSSStep,
        4 => ErrorControl::LargestError,
        5 => ErrorControl::LargestState,
        _ => ErrorControl::LargestStep,
    }
}
fn method_of(k: u64) -> IntegratorMethod {
    match k % 6 {
        0 => IntegratorMethod::RungeKutta89,
        1 => IntegratorMethod::DormandPrince78,
        2 => IntegratorMethod::DormandPrince45,
        3 => IntegratorMethod::RungeKutta4,
        4 => IntegratorMethod::CashKarp45,
        _ => IntegratorMethod::Verner56,
    }
}
fn load_field(v: &Value, center: Frame, name: &str) -> Result<(GravityFieldData, Field), Fail> {
    let (text, fld) = field_text(v, &field_of(v));
    let zip = b(v, "gz");
    let path = format!("{name}.{}{}", if u(v, "fmt") == 0 { "sha" } else { "cof" }, if zip { ".gz" } else { "" });
    std::fs::write(&path, if zip { gz(&text) } else { text.into_bytes() }).expect("scratch file");
    let (deg, ord) = (u(v, "deg").min(12) as usize, u(v, "ord").min(12) as usize);
    let frame = world::almanac().frame_info(center).unwrap();
    let d = if u(v, "fmt") == 0 { GravityFieldData::from_shadr(&path, deg, ord, zip, frame) } else { GravityFieldData::from_cof(&path, deg, ord, zip, frame) };
    let d = d.map_err(|e| Fail { class: "field-load".into(), msg: format!("{e}") })?;
    Ok((d, fld.upto(deg, ord)))
}
fn run_p26(v: &Value, ctx: &mut Ctx) -> Outcome {
    let al = world::almanac();
    let lunar = b(v, "moon_center");
    let (center, fixed) = if lunar { (world::moon_j2k(), IAU_MOON_FRAME) } else { (world::eme2k(), IAU_EARTH_FRAME) };
    let mut sc = world::spacecraft(&v["sc"]);
    if lunar {
        let e = f(&v["sc"], "ecc_m") * 1e-3;
        let peri = f(&v["sc"], "peri").max(6700.0) - 4900.0;
        sc.orbit = Orbit::keplerian(peri / (1.0 - e), e.max(1e-4), f(&v["sc"], "inc"), f(&v["sc"], "raan"), f(&v["sc"], "aop"), f(&v["sc"], "ta"), world::epoch_of(&v["sc"]), center);
    }
    if b(v, "stm") {
        sc.enable_stm();
    }
    // The real dynamics, and the same thing in formulas of the harness.
    let mut models: Vec<Arc<dyn AccelModel + Sync>> = vec![Arc::new(world::Probe { fail_above_km: None, fail_below_km: None, fail_after: None, points: u(v, "points") as u32 })];
    let mut m = Model { center, fixed, mu: center.mu_km3_s2().unwrap(), bodies: vec![], field: None, tides: false, srp: None };
    let mut ids = vec![];
    if b(v, "moon") && !lunar {
        ids.push(301);
        m.bodies.push(MOON_J2000);
    }
    if b(v, "earth") && lunar {
        ids.push(399);
        m.bodies.push(EARTH_J2000);
    }
    if b(v, "sun") {
        ids.push(10);
        m.bodies.push(SUN_J2000);
    }
    // The centre itself may be listed too: it attracts once.
    if v["center_at"].is_number() {
        let k = u(v, "center_at") as usize % (ids.len() + 1);
        ids.insert(k, if lunar { 301 } else { 399 });
        ctx.hit("centre among the bodies");
    }
    if !ids.is_empty() {
        models.push(Arc::new(PointMasses::new(ids)));
    }
    if v["field"].is_object() {
        let (data, fld) = load_field(&v["field"], fixed, "field")?;
        models.push(GravityField::new(data));
        m.field = Some(fld);
        ctx.hit("gravity field");
    }
    if b(v, "tides") && !lunar {
        models.push(Arc::new(SolidTides::earth_moon_system(world::iau_earth(), world::moon_j2k(), &al).map_err(|e| Fail { class: "tides".into(), msg: format!("{e}") })?));
        m.tides = true;
        ctx.hit("tides");
    }
    let mut dynamics = SpacecraftDynamics::new(OrbitalDynamics::new(models));
    if b(v, "srp") {
        dynamics.force_models.push(SolarPressure::default_no_estimation(vec![if lunar { MOON_J2000 } else { EARTH_J2000 }], &al).unwrap());
        m.srp = Some(sc.srp.coeff_reflectivity * sc.srp.area_m2 / sc.mass_kg());
        ctx.hit("solar pressure");
    }
    let method = method_of(u(v, "method"));
    let fixed_step = b(v, "fixed") || method == IntegratorMethod::RungeKutta4;
    let tol = 10f64.powi(-(u(v, "tol_e").clamp(8, 12) as i32));
    let ctrl = ctrl_of(u(v, "ctrl"));
    let min_step = 1e-3 * Unit::Second;
    let mut opts = if fixed_step {
        IntegratorOptions::with_fixed_step(f(v, "step_s").clamp(1.0, 120.0) * Unit::Second)
    } else {
        let max = f(v, "max_s").max(10.0);
        IntegratorOptions::builder().init_step(f(v, "init_s").clamp(1.0, max) * Unit::Second).min_step(min_step).max_step(max * Unit::Second).tolerance(tol).error_ctrl(ctrl).build()
    };
    // A spacecraft given in a rotating frame is integrated in an inertial one.
    if b(v, "iframe") {
        opts.integration_frame = Some(center);
        sc.orbit = al.transform_to(sc.orbit, al.frame_info(fixed).unwrap(), None).unwrap();
        ctx.hit("another integration frame");
    }
    let inertial = |s: &Spacecraft| al.transform_to(s.orbit, center, None).map_err(|e| Fail { class: "motion-frame".into(), msg: format!("{e}") });
    let p = Propagator::new(dynamics, method, opts);
    let mut inst = p.with(sc, al.clone()).quiet();
    for (k, leg) in v["legs"].as_array().cloned().unwrap_or_default().iter().enumerate() {
        let dur = i(leg, "dur_s").seconds() + (i(leg, "ns") as f64).nanoseconds();
        if dur == Duration::ZERO {
            continue;
        }
        let start = inst.state;
        let (end, traj) = inst.for_duration_with_traj(dur).map_err(|e| Fail { class: "motion-error".into(), msg: err(e) })?;
        ctx.sim_s += dur.to_seconds().abs();
        world::dig_state(ctx, &end);
        ensure_p!(end.mass == start.mass && end.srp == start.srp && end.drag == start.drag, "motion-constants", "leg {k} changed the mass or the coefficients: {} became {}", world::show(&start), world::show(&end));
        // The states in the order they were computed.
        let mut st = traj.states.clone();
        for x in st.iter_mut() {
            x.orbit = inertial(x)?;
        }
        if dur.is_negative() {
            st.reverse();
            ctx.hit("backward motion");
        }
        if !fixed_step && st.len() == 2 {
            ctx.hit("adaptive leg of a single step");
        }
        ctx.hit(if fixed_step { "fixed steps" } else { "adaptive steps" });
        // What each step may be wrong by: rounding and the resolution of the clock, the edges of the shadow, and the truncation.
        let limits = |a: &Spacecraft, z: &Spacecraft| {
            let h = (z.orbit.epoch - a.orbit.epoch).to_seconds().abs();
            let (ra, va) = (a.orbit.rmag_km(), a.orbit.vmag_km_s());
            let mut fr = 1e-11 * ra + 2e-9 * va;
            let mut fv = fr / ra * va * 2.0 + 1e-13;
            if let Some(q) = m.srp {
                let s = [0.0, 0.25, 0.5, 0.75, 1.0].map(|x| {
                    let p = a.orbit.radius_km * (1.0 - x) + z.orbit.radius_km * x;
                    m.shade(a.orbit.epoch + (z.orbit.epoch - a.orbit.epoch) * x, p)
                });
                if s.iter().any(|x| *x != s[0] || (*x != 0.0 && *x != 1.0)) || h > 60.0 {
                    let acc = 1e-3 * q * 1400.0 / 299_792_458.0;
                    fv += acc * h;
                    fr += acc * h * h;
                }
            }
            if b(v, "iframe") {
                // The rates of the rotation are finite differences: their noise grows with the distance.
                fr += 1e-8 + 3e-14 * ra * h;
                fv += 1e-10 + 3e-14 * ra;
            }
            let (lr, lv) = if fixed_step {
                let x = (h * (m.mu / a.orbit.rmag_km().min(z.orbit.rmag_km()).powi(3)).sqrt()).max(1e-3);
                let e = match method {
                    IntegratorMethod::RungeKutta4 => x.powi(5),
                    IntegratorMethod::DormandPrince45 | IntegratorMethod::CashKarp45 => x.powi(6),
                    IntegratorMethod::Verner56 => x.powi(7),
                    _ => x.powi(8),
                };
                (e * ra, e * va)
            } else {
                let (dr, dv) = ((z.orbit.radius_km - a.orbit.radius_km).norm(), (z.orbit.velocity_km_s - a.orbit.velocity_km_s).norm());
                match ctrl {
                    ErrorControl::RSSCartesianStep => (tol * if dr > 0.3 { dr } else { 1.0 }, tol * if dv > 0.3 { dv } else { 1.0 }),
                    ErrorControl::RSSCartesianState => (tol * ra, tol * va),
                    ErrorControl::RSSStep | ErrorControl::LargestStep => (tol * dr.max(1.0) * 2.0, tol * dr.max(1.0) * 2.0),
                    ErrorControl::LargestError => (tol * dr.max(1.0) * 2.0, tol * dv.max(1.0) * 2.0),
                    _ => (tol * ra * 2.0 + tol * 1e3, tol * ra * 2.0 + tol * 1e3),
                }
            };
            (fr, fv, lr, lv)
        };
        // A few of the steps, each against the reference from the state it started at.
        let mut r = Rng::new(u(v, "probe").wrapping_add(k as u64));
        let mut which: Vec<usize> = (0..6.min(st.len() - 1)).map(|_| r.us(1, st.len() - 1)).collect();
        which.push(st.len() - 1);
        which.push(1);
        which.sort();
        which.dedup();
        for j in which {
            let (a, z) = (&st[j - 1], &st[j]);
            let y = m.fly(a.orbit.epoch, y_of(&a.orbit), z.orbit.epoch) - y_of(&z.orbit);
            let (er, ev) = (y.fixed_rows::<3>(0).norm(), y.fixed_rows::<3>(3).norm());
            let (fr, fv, lr, lv) = limits(a, z);
            let q = ((er - fr).max(0.0) / lr).max((ev - fv).max(0.0) / lv);
            ensure_p!(
                q <= 10.0,
                "motion-step",
                "leg {k}, step {j} of {}: {method:?} ({}) from {} over {} ends {er:e} km and {ev:e} km/s from the motion, the tolerance is {lr:e} km and {lv:e} km/s",
                st.len() - 1,
                if fixed_step { "fixed".to_string() } else { format!("{ctrl:?}, {tol:e}") },
                a.orbit.epoch,
                z.orbit.epoch - a.orbit.epoch
            );
        }
        // The whole leg: the errors of the steps grow at most like the motion of neighbouring orbits.
        let y = m.fly(st[0].orbit.epoch, y_of(&st[0].orbit), st[st.len() - 1].orbit.epoch) - y_of(&st[st.len() - 1].orbit);
        let (mut sr, mut sv) = (0.0, 0.0);
        for w in st.windows(2) {
            let (fr, fv, lr, lv) = limits(&w[0], &w[1]);
            sr += fr + 10.0 * lr;
            sv += fv + 10.0 * lv;
        }
        let rp = st.iter().map(|s| s.orbit.rmag_km()).fold(f64::MAX, f64::min);
        let n = (2.0 * m.mu / rp.powi(3)).sqrt();
        let grow = 1.0 + 6.0 * n * dur.to_seconds().abs();
        let lim = grow * (sr + sv / n) * 2.0;
        let er = y.fixed_rows::<3>(0).norm();
        ensure_p!(er <= lim, "motion-leg", "leg {k} ends {er:e} km from the motion after {dur} ({method:?}); its {} steps allow {lim:e} km", st.len() - 1);
        // Between the states.
        let all = &traj.states;
        for _ in 0..4 {
            let t = all[0].orbit.epoch + (dur.abs().to_seconds() * r.range(1, 999_999) as f64 * 1e-6).seconds();
            let q = all.partition_point(|s| s.orbit.epoch <= t);
            if q == 0 || q == all.len() {
                continue;
            }
            let got = traj.at(t).map_err(|e| Fail { class: "motion-at".into(), msg: format!("{e}") })?;
            ensure_p!(got.orbit.epoch == t && got.orbit.frame == start.orbit.frame, "motion-at", "asked for {t} in {}, got {} in {}", start.orbit.frame, got.orbit.epoch, got.orbit.frame);
            ensure_p!(got.mass == start.mass && got.srp == start.srp && got.drag == start.drag, "motion-constants", "interpolating changed the mass or the coefficients: {}", world::show(&got));
            let (a, z) = (&all[q - 1], &all[q]);
            let near = if t - a.orbit.epoch < z.orbit.epoch - t { a } else { z };
            let y = m.fly(near.orbit.epoch, y_of(&inertial(near)?), t) - y_of(&inertial(&got)?);
            let (er, ev) = (y.fixed_rows::<3>(0).norm(), y.fixed_rows::<3>(3).norm());
            let step = |w: usize| (all[w + 1].orbit.epoch - all[w].orbit.epoch).to_seconds();
            let inner = q >= 7 && q + 7 <= all.len() && (q - 7..q + 6).all(|w| step(w) * 8.0 > step(q - 1));
            let far = (all[q].orbit.radius_km - all[q - 1].orbit.radius_km).norm();
            let (mut ea, mut ez) = (*a, *z);
            (ea.orbit, ez.orbit) = (inertial(a)?, inertial(z)?);
            let (fr, fv, sr, sv) = limits(&ea, &ez);
            let h = step(q - 1);
            let own = 10.0 * (fr + sr + (fv + sv) * h);
            let (lr, lv) = if inner { (1e-4 + own, 1e-6 + 2.0 * own / h) } else { (1.0 + 0.01 * far + 1e3 * own, 0.03 + 1e3 * own / h) };
            ctx.hit(if inner { "interpolated inside" } else { "interpolated near an end" });
            ensure_p!(er <= lr && ev <= lv, "motion-at", "interpolated at {t} (state {q} of {}): {er:e} km and {ev:e} km/s from the motion", all.len());
        }
        if st.len() > 3 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}
pub static P26: Prop = Prop {
    id: "P26",
    make: |r, _, _| draw_p26(r),
    run: run_p26,
    runs: (1000, 60000),
    rule: "a history of 1 to 4 legs, forward and backward, of a spacecraft around the Earth or the Moon with drawn force models, integrator, error control and steps, its trajectory collected by the simulated threads; steps, legs and interpolated states compared with an independent integration of independent formulas; non-trivial when a trajectory has more than three states; distinct by scenario and interleaving hash",
    real: &["nyx propagators, all integration methods and error controls", "nyx point masses, gravity fields and their files, solid tides, solar pressure and shadow", "nyx md::trajectory interpolation", "rayon, std channels and threads (real code, scheduled by the simulator)", "anise"],
    stub: &["planetary constants and ephemerides (synthetic)", "gravity fields (synthetic)", "clocks (simulated, with stalls)", "a zero-force acceleration model with preemption points"],
    must_hit: &["fixed steps", "adaptive steps", "adaptive leg of a single step", "backward motion", "gravity field", "tides", "solar pressure", "another integration frame", "interpolated inside", "interpolated near an end"],
};

// ---- P27 -------------------------------------------------------------------------------------------------
fn draw_p27(r: &mut Rng) -> Value {
    let fld = draw_field(r);
    json!({
        "field": fld, "moon": r.chance(0.3), "conf": r.chance(0.5), "dir": [r.range(-1000, 1000), r.range(-1000, 1000), r.range(-1000, 1000)], "pole": r.chance(0.1), "alt": r.range(1010, 3000),
        "junk": if r.chance(0.3) { json!(r.range(1, 5)) } else { Value::Null }, "line": r.below(60), "t": r.range(-300_000, 300_000),
        "rfaults": io::draw_read_faults(r), "cut": if r.chance(0.5) { json!(r.range(0, 999)) } else { Value::Null }, "zeros": r.chance(0.3),
    })
}
fn run_p27(v: &Value, ctx: &mut Ctx) -> Outcome {
    let al = world::almanac();
    let w = &v["field"];
    let fixed = if b(v, "moon") { IAU_MOON_FRAME } else { IAU_EARTH_FRAME };
    let frame = al.frame_info(fixed).unwrap();
    let (text, printed) = field_text(w, &field_of(w));
    let (deg, ord, zip, sha) = (u(w, "deg").min(12) as usize, u(w, "ord").min(12) as usize, b(w, "gz"), u(w, "fmt") == 0);
    let ext = match (sha, zip) {
        (true, true) => "tab.gz",
        (true, false) => "tab",
        (false, true) => "cof.gz",
        (false, false) => "cof",
    };
    let conf = b(v, "conf");
    let load = |p: &str| -> Result<GravityFieldData, String> {
        let r = if conf {
            GravityFieldData::from_config(GravityFieldConfig { degree: deg, order: ord, filepath: p.into(), gunzipped: zip, frame: fixed.into() }, &al)
        } else if sha {
            GravityFieldData::from_shadr(p, deg, ord, zip, frame)
        } else {
            GravityFieldData::from_cof(p, deg, ord, zip, frame)
        };
        r.map_err(|e| format!("{e}"))
    };
    let rows = |d: &GravityFieldData| -> Vec<String> {
        let mut o = vec![];
        for n in 1..=d.max_degree_n() {
            for m in 0..=n.min(d.max_order_m()) {
                let (c, s) = d.cs_nm(n, m);
                if c != 0.0 || s != 0.0 {
                    o.push(format!("{n} {m} {} {}", io::bits(c), io::bits(s)));
                }
            }
        }
        o
    };
    let path = format!("field.{ext}");
    std::fs::write(&path, if zip { gz(&text) } else { text.clone().into_bytes() }).expect("scratch file");
    if conf {
        ctx.hit("from a configuration");
    }
    ctx.hit(ext);
    let data = match no_panic(|| load(&path)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return fail("field-load", format!("{path}: {e}")),
        Err(p) => return fail("panic:field", p),
    };
    let want = printed.upto(deg, ord);
    // Coefficients which are zero say nothing.
    let lines: Vec<String> = want.rows.iter().filter(|x| x.2 != 0.0 || x.3 != 0.0).map(|(n, m, c, s)| format!("{n} {m} {} {}", io::bits(*c), io::bits(*s))).collect();
    let got = rows(&data);
    ensure_p!(got == lines, "field-coefficients", "{path} to degree {deg} and order {ord}: {} coefficients instead of {}, first different: {:?}", got.len(), lines.len(), got.iter().zip(&lines).find(|(a, b)| a != b));
    // The acceleration and its gradient.
    let (mu, re) = (frame.mu_km3_s2().unwrap(), frame.mean_equatorial_radius_km().unwrap());
    let mut dir = V3::new(v["dir"][0].as_f64().unwrap_or(1.0), v["dir"][1].as_f64().unwrap_or(0.0), v["dir"][2].as_f64().unwrap_or(0.0));
    if b(v, "pole") || dir.norm() < 1.0 {
        dir = V3::new(0.0, 0.0, if dir.z < 0.0 { -1.0 } else { 1.0 });
        ctx.hit("above a pole");
    }
    let r = dir / dir.norm() * (re * f(v, "alt").max(1001.0) * 1e-3);
    let t = world::t0() + i(v, "t").seconds();
    let center = if b(v, "moon") { world::moon_j2k() } else { world::eme2k() };
    let d = al.rotate(center, fixed, t).unwrap().rot_mat;
    let o = Orbit::from_cartesian_pos_vel(Vector6::new(0.0, 0.0, 0.0, 0.0, 0.0, 0.0), t, center);
    let mut o = o;
    o.radius_km = d.transpose() * r;
    o.velocity_km_s = V3::new(1.0, 2.0, 3.0);
    let model = GravityField::new(data);
    let bad = |e: nyx_space::dynamics::DynamicsError| Fail { class: "field-accel".into(), msg: format!("{e}") };
    let a = no_panic(|| model.eom(&o, &al)).map_err(|p| Fail { class: "panic:field".into(), msg: p })?.map_err(bad)?;
    let (ga, g) = no_panic(|| model.gradient(&o, &al)).map_err(|p| Fail { class: "panic:field".into(), msg: p })?.map_err(bad)?;
    let refa = d.transpose() * want.accel(r, mu, re);
    let scale = mu / r.norm_squared() * 1e-6;
    ensure_p!((a - refa).norm() <= 1e-8 * scale + 1e-9 * refa.norm(), "field-accel", "at {r:?} the acceleration is {a:?} instead of {refa:?}");
    ensure_p!((a - ga).norm() <= 1e-10 * scale + 1e-10 * refa.norm(), "field-gradient", "the acceleration with its gradient is {ga:?} instead of {a:?}");
    let h = 1e-3 * r.norm();
    for k in 0..3 {
        // Fourth order differences of the reference.
        let at = |x: f64| {
            let mut q = o.radius_km;
            q[k] += x;
            d.transpose() * want.accel(d * q, mu, re)
        };
        let col = (at(-2.0 * h) - at(-h) * 8.0 + at(h) * 8.0 - at(2.0 * h)) / (12.0 * h);
        let e = (g.column(k) - col).norm();
        ensure_p!(e <= 1e-6 * (refa.norm() + scale) / r.norm() * 30.0, "field-gradient", "at {r:?} column {k} of the gradient is {:?} instead of {col:?}", g.column(k));
    }
    if !want.rows.is_empty() {
        ctx.nontrivial = true;
    }
    // A damaged number is reported, unless it lies beyond what was asked for.
    let mut ls: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    let data_lines: Vec<usize> = (0..ls.len()).filter(|k| if sha { *k > 0 } else { ls[*k].starts_with("RECOEF") }).collect();
    if v["junk"].is_number() {
        let k = data_lines[u(v, "line") as usize % data_lines.len()];
        let (n, _, _, _) = printed.rows[data_lines.iter().position(|x| *x == k).unwrap()];
        let toks: Vec<String> = ls[k].replace(',', " ").split_whitespace().map(|s| s.to_string()).collect();
        let which = (u(v, "junk") as usize - 1) % 3 + if sha { 0 } else { 1 };
        let mut nt = toks.clone();
        nt[which] = format!("{}x", nt[which]);
        ls[k] = nt.join(" ");
        let p = format!("junk.{ext}");
        let body = ls.join("\n") + "\n";
        std::fs::write(&p, if zip { gz(&body) } else { body.into_bytes() }).expect("scratch file");
        match no_panic(|| load(&p)) {
            Ok(Err(_)) => ctx.hit("fault:damaged number"),
            Ok(Ok(g)) => ensure_p!(n > deg && rows(&g) == lines, "field-junk", "line {k} is `{}`, but the field was loaded", ls[k]),
            Err(q) => return fail("panic:field", format!("{q} with the line `{}`", ls[k])),
        }
    }
    let mut vv = v.clone();
    if !zip {
        // Text without an end mark: a cut may only lose coefficients and alter that of the line it hits.
        if let Some(c) = v["cut"].as_i64() {
            let k = (text.len() as i64 * c / 1000) as usize;
            let p = format!("cut.{ext}");
            std::fs::write(&p, &text.as_bytes()[..k]).expect("scratch file");
            let whole = text[..k].matches('\n').count();
            let kept = data_lines.iter().filter(|x| **x < whole).count();
            match no_panic(|| load(&p)) {
                Ok(Ok(g)) => {
                    let exp: Vec<String> = Field { rows: printed.rows[..kept].to_vec() }.upto(deg, ord).rows.iter().filter(|x| x.2 != 0.0 || x.3 != 0.0).map(|(n, m, c, s)| format!("{n} {m} {} {}", io::bits(*c), io::bits(*s))).collect();
                    let g = rows(&g);
                    // The line which the cut hits may still read as some coefficient, new or known.
                    let odd: std::collections::BTreeSet<String> = g.iter().filter(|x| !exp.contains(x)).chain(exp.iter().filter(|x| !g.contains(x))).map(|x| x.split(' ').take(2).collect::<Vec<_>>().join(" ")).collect();
                    ensure_p!(odd.len() <= 1, "field-cut", "the first {k} bytes gave other coefficients for {odd:?}");
                }
                Ok(Err(_)) => ctx.hit("failed import reported"),
                Err(q) => return fail("panic:field", format!("{q} importing the first {k} of {} bytes", text.len())),
            }
            ctx.hit("fault:truncated_file");
        }
        vv["cut"] = Value::Null;
    }
    let art = Art { name: "field", ext, write: Box::new(|p| Ok(p.to_string())), load: Some(Box::new(|p| load(p).map(|d| rows(&d)))), want: None, torn: Torn::Rejects };
    io::read_case(ctx, &vv, &art, &path)?;
    Ok(())
}
pub static P27: Prop = Prop {
    id: "P27",
    make: |r, _, _| draw_p27(r),
    run: run_p27,
    runs: (15_000, 600_000),
    rule: "one synthetic gravity field written by the harness in one of the supported formats, compressed or not, loaded directly or through a configuration to a drawn degree and order, without and with read faults, damaged numbers and truncation; coefficients compared with the text, accelerations and gradients with an independent recursion; non-trivial when some coefficient was asked for or a fault fired",
    real: &["nyx gravity field files, configurations and accelerations", "flate2, std file I/O above the system calls"],
    stub: &["open, read and clock system calls (faults injected)", "planetary constants and orientations (synthetic)"],
    must_hit: &["from a configuration", "tab", "tab.gz", "cof", "cof.gz", "above a pole", "fault:damaged number", "fault:open_error", "fault:read_error", "fault:read_eintr", "fault:short_read", "fault:truncated_file", "failed import reported"],
};
