//! Random draws: the distribution which was asked for (P28).
use super::mission::axes;
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, u};
use hifitime::Unit;
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::Orbit;
use nalgebra::{DMatrix, DVector, Matrix3, SMatrix, SVector, Vector3};
use nyx_space::Spacecraft;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::mc::{MonteCarlo, MvnSpacecraft, StateDispersion};
use nyx_space::md::StateParameter;
use nyx_space::od::noise::{Stochastics, WhiteNoise};
use nyx_space::od::prelude::{Estimate, KfEstimate};
use nyx_space::od::process::SpacecraftUncertainty;
use rand_distr::Distribution;
use rand_pcg::Pcg64Mcg;
use serde_json::{Value, json};

type V9 = SVector<f64, 9>;
type M9 = SMatrix<f64, 9, 9>;
use OrbitalElement as E;
/// Where the Keplerian elements start in the list.
const KEPLER: usize = 6;
/// Elements, and the size of a small dispersion of each.
const ELEMENTS: &[(E, f64)] = &[
    (E::X, 1e-1),
    (E::Y, 1e-1),
    (E::Z, 1e-1),
    (E::VX, 1e-4),
    (E::VY, 1e-4),
    (E::VZ, 1e-4),
    (E::SemiMajorAxis, 1e-1),
    (E::Eccentricity, 1e-5),
    (E::Inclination, 1e-3),
    (E::RAAN, 1e-3),
    (E::AoP, 1e-3),
    (E::TrueAnomaly, 1e-3),
    (E::Rmag, 1e-1),
    (E::Vmag, 1e-4),
];
fn element(e: E, o: &Orbit) -> f64 {
    match e {
        E::X => o.radius_km.x,
        E::Y => o.radius_km.y,
        E::Z => o.radius_km.z,
        E::VX => o.velocity_km_s.x,
        E::VY => o.velocity_km_s.y,
        E::VZ => o.velocity_km_s.z,
        E::SemiMajorAxis => o.sma_km().unwrap(),
        E::Eccentricity => o.ecc().unwrap(),
        E::Inclination => o.inc_deg().unwrap(),
        E::RAAN => o.raan_deg().unwrap(),
        E::AoP => o.aop_deg().unwrap(),
        E::TrueAnomaly => o.ta_deg().unwrap(),
        E::Rmag => o.radius_km.norm(),
        _ => o.velocity_km_s.norm(),
    }
}
fn angle(e: E) -> bool {
    matches!(e, E::Inclination | E::RAAN | E::AoP | E::TrueAnomaly)
}
fn wrap(e: E, d: f64) -> f64 {
    if angle(e) { (d + 540.0).rem_euclid(360.0) - 180.0 } else { d }
}
/// The change of an element with the Cartesian state.
fn gradient(e: E, o: &Orbit) -> [f64; 6] {
    let mut g = [0.0; 6];
    for (k, x) in g.iter_mut().enumerate() {
        let h = if k < 3 { o.radius_km.norm() * 1e-4 } else { o.velocity_km_s.norm() * 1e-4 };
        let at = |d: f64| {
            let mut q = *o;
            if k < 3 { q.radius_km[k] += d } else { q.velocity_km_s[k - 3] += d }
            element(e, &q)
        };
        let base = element(e, o);
        let d = |m: f64| wrap(e, at(m * h) - base) - wrap(e, at(-m * h) - base);
        *x = (8.0 * d(1.0) - d(2.0)) / (12.0 * h);
    }
    g
}
fn vec9(s: &Spacecraft, o: &Spacecraft) -> V9 {
    let (r, v) = (s.orbit.radius_km - o.orbit.radius_km, s.orbit.velocity_km_s - o.orbit.velocity_km_s);
    V9::from_column_slice(&[r.x, r.y, r.z, v.x, v.y, v.z, s.srp.coeff_reflectivity - o.srp.coeff_reflectivity, s.drag.coeff_drag - o.drag.coeff_drag, s.mass.prop_mass_kg - o.mass.prop_mass_kg])
}
/// Everything but what a draw may change.
fn rest(s: &Spacecraft, o: &Spacecraft) -> bool {
    let mut q = *s;
    q.orbit.radius_km = o.orbit.radius_km;
    q.orbit.velocity_km_s = o.orbit.velocity_km_s;
    q.srp.coeff_reflectivity = o.srp.coeff_reflectivity;
    q.drag.coeff_drag = o.drag.coeff_drag;
    q.mass.prop_mass_kg = o.mass.prop_mass_kg;
    q == *o && q.mass == o.mass && q.srp == o.srp && q.drag == o.drag && q.thruster == o.thruster && q.mode == o.mode
}
/// Rounding of the components of a state.
fn eps9() -> DVector<f64> {
    DVector::from_column_slice(&[1e-10, 1e-10, 1e-10, 1e-13, 1e-13, 1e-13, 1e-13, 1e-13, 1e-11])
}
/// Compares a sample with a normal distribution: the bounds are some eight deviations of the statistics wide.
fn judge(what: &str, xs: &[DVector<f64>], mean: &DVector<f64>, cov: &DMatrix<f64>, floor: &DVector<f64>, slack: f64) -> Outcome {
    let (n, k) = (xs.len() as f64, mean.len());
    let m = xs.iter().fold(DVector::zeros(k), |a, x| a + x) / n;
    let mut c = DMatrix::zeros(k, k);
    for x in xs {
        let d = x - &m;
        c += &d * d.transpose();
    }
    c /= n - 1.0;
    for i in 0..k {
        let s = cov[(i, i)].max(0.0).sqrt();
        ensure_p!((m[i] - mean[i]).abs() <= s * (8.0 / n.sqrt() + slack) + floor[i] + 1e-3 * slack * mean[i].abs(), &format!("{what}-mean"), "component {i}: the mean of {n} draws is {:e} instead of {:e} (deviation {s:e})", m[i], mean[i]);
        for j in 0..=i {
            let z = cov[(j, j)].max(0.0).sqrt();
            let lim = s * z * (8.0 * (if i == j { 2f64 } else { 1.0 + (cov[(i, j)] / (s * z + f64::MIN_POSITIVE)).powi(2) } / n).sqrt() + 40.0 / n + 2.0 * slack) + s * floor[j] + z * floor[i] + floor[i] * floor[j];
            ensure_p!((c[(i, j)] - cov[(i, j)]).abs() <= lim, &format!("{what}-covariance"), "components {i} and {j}: the covariance of {n} draws is {:e} instead of {:e} (deviations {s:e} and {z:e})", c[(i, j)], cov[(i, j)]);
        }
    }
    Ok(())
}
fn draw_p28(r: &mut Rng) -> Value {
    let mut sc = world::draw_sc(r);
    sc["ecc_m"] = json!(*r.pick(&[50, 100, 200, 400]));
    sc["inc"] = json!(r.range(20, 150));
    for k in ["raan", "aop", "ta"] {
        sc[k] = json!(r.range(15, 165) + if r.chance(0.5) { 180 } else { 0 });
    }
    let mut es: Vec<usize> = match r.below(5) {
        0 | 1 => {
            let mut c: Vec<usize> = (0..6).collect();
            r.shuffle(&mut c);
            c.truncate(r.us(0, 6));
            c
        }
        2 | 3 => {
            let mut c: Vec<usize> = (6..12).collect();
            r.shuffle(&mut c);
            c.truncate(r.us(1, 4));
            c
        }
        _ => vec![12, 13],
    };
    if r.chance(0.3) {
        es.sort();
    }
    let disp: Vec<Value> = es.iter().map(|e| json!({"e": e, "sd": if r.chance(0.1) { 0 } else { r.range(20, 500) }, "mean": if r.chance(0.4) { r.range(-900, 900) } else { 0 }, "none": r.chance(0.05)})).collect();
    let sig: Vec<i64> = (0..9).map(|_| if r.chance(0.2) { 0 } else { r.range(1, 900) }).collect();
    json!({
        "sc": sc, "kind": r.below(7), "disp": disp, "cr": if r.chance(0.4) { r.range(1, 200) } else { 0 }, "cd": if r.chance(0.4) { r.range(1, 200) } else { 0 }, "mass": if r.chance(0.4) { r.range(1, 200) } else { 0 },
        "off": r.range(-300, 300), "seed": r.below(1 << 60), "skip": if r.chance(0.5) { 0 } else { r.range(1, 200) }, "sig": sig, "corr": r.below(1 << 40), "frame": r.below(4), "bad": r.chance(0.15), "ro": r.below(5), "thruster": r.chance(0.3),
    })
}
fn run_p28(v: &Value, ctx: &mut Ctx) -> Outcome {
    let mut ov = v["sc"].clone();
    // Elements away from their singularities.
    for (k, lo, hi) in [("ecc_m", 50.0, 400.0), ("inc", 20.0, 150.0)] {
        ov[k] = json!(f(&ov, k).clamp(lo, hi));
    }
    for k in ["raan", "aop", "ta"] {
        let x = f(&ov, k);
        ov[k] = json!(if x < 180.0 { x.clamp(15.0, 165.0) } else { x.clamp(195.0, 345.0) });
    }
    let mut sc = world::spacecraft(&ov);
    if b(v, "thruster") {
        sc.thruster = Some(nyx_space::dynamics::guidance::Thruster { thrust_N: 1.0, isp_s: 200.0 });
    }
    let kind = u(v, "kind") % 7;
    let n = 3000usize;
    let seed = u(v, "seed") as u128;
    let skip = u(v, "skip") as usize;
    let bad = |e: String| Fail { class: "draw-error".into(), msg: e };
    match kind {
        // Dispersions of elements, coefficients and mass.
        0 | 1 | 5 => {
            let mut disp = vec![];
            let mut rows: Vec<([f64; 9], f64, f64)> = vec![];
            let zero = kind == 1;
            for d in v["disp"].as_array().cloned().unwrap_or_default() {
                let (e, s) = ELEMENTS[u(&d, "e") as usize % ELEMENTS.len()];
                if disp.iter().any(|x: &StateDispersion| x.param == StateParameter::Element(e)) {
                    return fail(INVALID, "repeated");
                }
                let (sd, mean) = (if f(&d, "sd") > 0.0 { f(&d, "sd").max(20.0) * 1e-2 * s } else { 0.0 }, f(&d, "mean") * 1e-2 * s);
                let g = gradient(e, &sc.orbit);
                let mut row = [0.0; 9];
                row[..6].copy_from_slice(&g);
                rows.push((row, if zero { 0.0 } else { mean }, sd));
                let x = StateDispersion { param: StateParameter::Element(e), mean: Some(mean), std_dev: Some(sd) };
                if b(&d, "none") && sd == 0.0 {
                    disp.push(StateDispersion { std_dev: None, ..x });
                } else if mean == 0.0 && sd > 1e-9 && !zero {
                    disp.push(if b(&d, "none") { StateDispersion { mean: None, ..x } } else { StateDispersion::zero_mean(x.param, sd) });
                } else {
                    disp.push(x);
                }
            }
            let orbital = rows.len();
            for (k, (key, p, unit)) in [("cr", StateParameter::Cr(), 1e-3), ("cd", StateParameter::Cd(), 1e-3), ("mass", StateParameter::PropMass(), 1e-3)].into_iter().enumerate() {
                if f(v, key) > 0.0 {
                    let (sd, mean) = (f(v, key) * unit, if u(v, "ro") % 3 == 0 { 0.0 } else { f(v, "off") * unit });
                    let mut row = [0.0; 9];
                    row[6 + k] = 1.0;
                    rows.push((row, if zero { 0.0 } else { mean }, sd));
                    let at = if b(v, "bad") { 0 } else { disp.len() };
                    // Without a mean or a deviation, it is zero.
                    disp.insert(at, StateDispersion { param: p, mean: if mean == 0.0 { None } else { Some(mean) }, std_dev: if sd == 0.0 { None } else { Some(sd) } });
                }
            }
            if disp.is_empty() {
                return Ok(());
            }
            // What cannot be dispersed is refused.
            let ro = [StateParameter::DryMass(), StateParameter::TotalMass(), StateParameter::Isp(), StateParameter::Thrust(), StateParameter::GuidanceMode()][u(v, "ro") as usize % 5];
            let mut with = disp.clone();
            with.push(StateDispersion::zero_mean(ro, 1.0));
            match no_panic(|| MvnSpacecraft::new(sc, with).is_err()) {
                Ok(true) => ctx.hit("fault:not dispersable"),
                Ok(false) => return fail("draw-readonly", format!("{ro:?} was accepted as a dispersion")),
                Err(p) => return fail("panic:draw", p),
            }
            let g = if zero { MvnSpacecraft::zero_mean(sc, disp.clone()) } else { MvnSpacecraft::new(sc, disp.clone()) }.map_err(|e| bad(format!("{e}")))?;
            let k = rows.len();
            let jac = DMatrix::from_fn(k, 9, |i, j| rows[i].0[j]);
            let mean = DVector::from_fn(k, |i, _| rows[i].1);
            let cov = DMatrix::from_fn(k, k, |i, j| if i == j { rows[i].2.powi(2) } else { 0.0 });
            let plain = orbital == 0 || v["disp"].as_array().unwrap().iter().all(|d| u(d, "e") < 6);
            // What a draw moves: for plain components only those, for elements the least change which gives them.
            let least = |d: &V9| -> f64 {
                let x = DVector::from_column_slice(d.as_slice());
                let jt = jac.transpose();
                // Scaled so that positions and velocities weigh as they are: the least norm of km and km/s.
                let q = jt.clone().qr().q();
                let inside = &q * (q.transpose() * &x);
                (x - inside).norm()
            };
            // The code inverts the square of this matrix: no claim where that loses the digits.
            if orbital > 0 {
                let j6 = jac.view((0, 0), (orbital, 6)).into_owned();
                let prod: f64 = j6.row_iter().map(|r| r.norm()).product();
                let vol: f64 = if orbital <= 6 { j6.singular_values().iter().product() } else { 0.0 };
                if prod > 3e3 * vol {
                    return Ok(());
                }
            }
            // Rounding, and the inverse of a nearly singular set of elements.
            let unit = |i: usize| if i < orbital { ELEMENTS[u(&v["disp"][i], "e") as usize % ELEMENTS.len()].1 } else { 0.0 };
            let most = (0..orbital).map(|i| (rows[i].2 + rows[i].1.abs()) / unit(i)).fold(0.0, f64::max);
            let floor = DVector::from_fn(k, |i, _| (0..9).map(|j| rows[i].0[j].abs() * eps9()[j]).sum::<f64>() + if plain { 0.0 } else { 1e-4 * most * unit(i) });
            let mut xs = vec![];
            if kind == 5 {
                for s in 0..n {
                    let e = KfEstimate::from_dispersions(sc, disp.clone(), Some(seed + s as u128)).map_err(|e| bad(format!("{e}")))?;
                    let d = e.state_deviation;
                    ensure_p!(rest(&e.nominal_state, &sc) && vec9(&e.nominal_state, &sc).norm() == 0.0, "estimate-nominal", "the nominal state of an estimate from dispersions changed");
                    for i in 0..9 {
                        let w = (3.0 * d[i]).powi(2);
                        ensure_p!((0..9).all(|j| (e.covar[(i, j)] - if i == j { w } else { 0.0 }).abs() <= 1e-12 * w), "estimate-covar", "row {i} of the covariance does not follow the deviation {:e}", d[i]);
                    }
                    let mut dev = vec9(&e.state(), &sc) - d;
                    let cr = sc.srp.coeff_reflectivity + d[6];
                    if !(0.0..=2.0).contains(&cr) {
                        // No such reflectivity: the state holds the nearest one.
                        dev[6] = 0.0;
                    }
                    ensure_p!(dev.fixed_rows::<3>(0).norm() < 1e-9 && dev.fixed_rows::<6>(3).norm() < 1e-9, "estimate-state", "the state of the estimate is not its nominal state and deviation");
                    // The deviation is the draw of the same seed.
                    if s < 20 {
                        let w = g.sample(&mut Pcg64Mcg::new(seed + s as u128));
                        let dd = vec9(&w.state, &sc) - d;
                        ensure_p!(dd.norm() < 1e-9, "estimate-sign", "the estimate's state is {:?} from the nominal one, the draw of the same seed {:?}", d.as_slice(), vec9(&w.state, &sc).as_slice());
                    }
                    xs.push(&jac * DVector::from_column_slice(d.as_slice()));
                }
                ctx.hit("estimates from dispersions");
            } else {
                let mc = MonteCarlo::new(sc, g, "draws".to_string(), Some(seed));
                let got = mc.generate_states(skip, n, Some(seed));
                ensure_p!(got.len() == n, "draw-count", "{} draws instead of {n}", got.len());
                for (_, s) in &got {
                    ensure_p!(rest(&s.state, &sc), "draw-rest", "a draw changed something else: {}", world::show(&s.state));
                    let d = vec9(&s.state, &sc);
                    if plain {
                        for j in 0..9 {
                            if (0..k).all(|i| rows[i].0[j].abs() < 1e-6 || rows[i].2 == 0.0 && rows[i].1 == 0.0) {
                                ensure_p!(d[j].abs() < 1e-10, "draw-other", "component {j} moved by {:e} though not dispersed", d[j]);
                            }
                        }
                    } else {
                        let out = least(&d);
                        ensure_p!(out <= 1e-4 * d.norm() + 1e-9, "draw-least", "a draw moved the state by {:e} ({:e} of it without effect on the elements)", d.norm(), out);
                    }
                    for (p, x) in &s.actual_dispersions {
                        if let StateParameter::Element(e) = p {
                            let w = element(*e, &s.state.orbit) - element(*e, &sc.orbit);
                            ensure_p!((x - w).abs() < 1e-7 * (1.0 + w.abs()), "draw-actual", "{e:?}: reported {x:e} instead of {w:e}");
                        }
                    }
                    xs.push(&jac * DVector::from_column_slice(d.as_slice()));
                }
                ctx.hit(if zero { "zero mean" } else if plain { "components" } else { "elements" });
            }
            judge(if kind == 5 { "estimate" } else { "draw" }, &xs, &mean, &cov, &floor, 1e-3)?;
            ctx.digf(xs[0][0]);
        }
        // A full covariance.
        2 | 3 => {
            let mut r = Rng::new(u(v, "corr"));
            let unit = [1e-2, 1e-2, 1e-2, 1e-5, 1e-5, 1e-5, 1e-4, 1e-4, 1e-3];
            let sig = |i: usize| v["sig"][i].as_f64().unwrap_or(1.0).max(1.0) * unit[i];
            let mut cov = M9::zeros();
            let a = M9::from_fn(|_, _| r.uni(-1.0, 1.0)) + M9::identity();
            let mut c = a * a.transpose();
            let dg: Vec<f64> = (0..9).map(|i| c[(i, i)].sqrt()).collect();
            for i in 0..9 {
                for j in 0..9 {
                    c[(i, j)] /= dg[i] * dg[j];
                }
            }
            for i in 0..9 {
                for j in 0..9 {
                    let x = if i <= j { c[(i, j)] } else { c[(j, i)] };
                    cov[(i, j)] = x * sig(i) * sig(j);
                }
            }
            let mean = V9::from_fn(|i, _| if b(v, "thruster") { 0.0 } else { f(v, "off") * 1e-2 * unit[i] });
            // Not a covariance.
            let mut neg = cov;
            let q = u(v, "ro") as usize % 9;
            neg[(q, q)] = -neg[(q, q)];
            match no_panic(|| MvnSpacecraft::from_spacecraft_cov(sc, neg, mean).is_err()) {
                Ok(true) => ctx.hit("fault:not a covariance"),
                Ok(false) => return fail("draw-negative", format!("a variance of {:e} was accepted", neg[(q, q)])),
                Err(p) => return fail("panic:draw", p),
            }
            let g = if kind == 2 {
                MvnSpacecraft::from_spacecraft_cov(sc, cov, mean).map_err(|e| bad(format!("{e}")))?
            } else {
                let mut e = KfEstimate::from_covar(sc, cov);
                // The uncertainty of each element, to first order.
                let grads: Vec<SVector<f64, 6>> = ELEMENTS.iter().map(|(k, _)| SVector::<f64, 6>::from_column_slice(&gradient(*k, &sc.orbit))).collect();
                let p6 = cov.fixed_view::<6, 6>(0, 0).into_owned();
                let size = |g: &SVector<f64, 6>| (0..6).map(|i| g[i].abs() * p6[(i, i)].sqrt()).sum::<f64>();
                for (g, (k, _)) in grads.iter().zip(ELEMENTS.iter()) {
                    let (got, want) = (e.sigma_for(*k).map_err(|e| bad(format!("{e}")))?, (g.transpose() * p6 * g)[(0, 0)].max(0.0).sqrt());
                    ensure_p!((got - want).abs() <= 1e-4 * size(g), "estimate-sigma", "the uncertainty of {k:?} is {got:e} instead of {want:e}");
                }
                let kep = e.keplerian_covar();
                for i in 0..6 {
                    for j in 0..6 {
                        let (a, z) = (&grads[i + KEPLER], &grads[j + KEPLER]);
                        let want = (a.transpose() * p6 * z)[(0, 0)];
                        ensure_p!((kep[(i, j)] - want).abs() <= 1e-4 * size(a) * size(z), "estimate-sigma", "the covariance of the elements {i} and {j} is {:e} instead of {want:e}", kep[(i, j)]);
                    }
                }
                ctx.hit("uncertainty of elements");
                e.state_deviation = mean;
                e.to_random_variable().map_err(|e| bad(format!("{e}")))?
            };
            let mut rng = Pcg64Mcg::new(seed);
            let mut xs = vec![];
            for _ in 0..n {
                let s = g.sample(&mut rng);
                ensure_p!(rest(&s.state, &sc), "draw-rest", "a draw changed something else: {}", world::show(&s.state));
                xs.push(DVector::from_column_slice(vec9(&s.state, &sc).as_slice()));
            }
            judge("draw", &xs, &DVector::from_column_slice(mean.as_slice()), &DMatrix::from_fn(9, 9, |i, j| cov[(i, j)]), &eps9(), 1e-3)?;
            ctx.hit("full covariance");
            ctx.digf(xs[0][0]);
        }
        // Uncertainties in a local frame.
        4 => {
            let unit = [1e-2, 1e-2, 1e-2, 1e-5, 1e-5, 1e-5, 1e-4, 1e-4, 1e-3];
            let s: Vec<f64> = (0..9).map(|i| v["sig"][i].as_f64().unwrap_or(1.0) * unit[i]).collect();
            let fr = [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN][u(v, "frame") as usize % 4];
            let make = |s: &[f64]| {
                let un = SpacecraftUncertainty::builder().nominal(sc).x_km(s[0]).y_km(s[1]).z_km(s[2]).vx_km_s(s[3]).vy_km_s(s[4]).vz_km_s(s[5]).coeff_reflectivity(s[6]).coeff_drag(s[7]).mass_kg(s[8]);
                if fr == LocalFrame::Inertial && b(v, "thruster") { un.frame(fr).build() } else if fr == LocalFrame::Inertial { SpacecraftUncertainty { frame: None, ..un.frame(fr).build() } } else { un.frame(fr).build() }
            };
            let mut neg = s.clone();
            neg[u(v, "ro") as usize % 9] = -0.1;
            ensure_p!(make(&neg).to_estimate().is_err(), "uncertainty-negative", "a negative uncertainty was accepted");
            let un = make(&s);
            let e = un.to_estimate().map_err(|e| bad(format!("{e}")))?;
            ensure_p!(rest(&e.nominal_state, &sc) && vec9(&e.nominal_state, &sc).norm() == 0.0, "uncertainty-nominal", "the nominal state changed");
            // Draws have the covariance of the estimate.
            let mut xs = vec![];
            for k in 0..n {
                let d = match no_panic(|| un.to_estimate_randomized(Some(seed + k as u128))) {
                    Ok(x) => x.map_err(|e| bad(format!("{e}")))?,
                    Err(p) => return fail("panic:draw", format!("{p} ({fr:?}, {s:?})")),
                };
                ensure_p!(rest(&d.nominal_state, &sc) && d.covar == e.covar, "uncertainty-rest", "a randomized estimate has another covariance or spacecraft");
                xs.push(DVector::from_column_slice(vec9(&d.nominal_state, &sc).as_slice()));
            }
            judge("uncertainty", &xs, &DVector::zeros(9), &DMatrix::from_fn(9, 9, |i, j| e.covar[(i, j)]), &eps9(), 1e-3)?;
            for i in 6..9 {
                for j in 0..9 {
                    let w = if i == j { s[i] * s[i] } else { 0.0 };
                    ensure_p!((e.covar[(i, j)] - w).abs() <= 1e-12 * w && (e.covar[(j, i)] - w).abs() <= 1e-12 * w, "uncertainty-covar", "entry ({i}, {j}) is {:e} instead of {w:e}", e.covar[(i, j)]);
                }
            }
            // The rotation: of the axes, with or without their own motion.
            let ax = axes(fr, sc.orbit.radius_km, sc.orbit.velocity_km_s);
            let r3 = if fr == LocalFrame::Inertial { Matrix3::identity() } else { Matrix3::from_columns(&ax) };
            let mut rot = SMatrix::<f64, 6, 6>::zeros();
            rot.fixed_view_mut::<3, 3>(0, 0).copy_from(&r3);
            rot.fixed_view_mut::<3, 3>(3, 3).copy_from(&r3);
            let dcm = sc.orbit.dcm_to_inertial(fr).map_err(|e| bad(format!("{e}")))?.state_dcm();
            let p = SMatrix::<f64, 6, 6>::from_diagonal(&SVector::<f64, 6>::from_column_slice(&s[..6]).map(|x| x * x));
            let got = e.covar.fixed_view::<6, 6>(0, 0).into_owned();
            let like = |w: &SMatrix<f64, 6, 6>, frac: f64| {
                (0..6).all(|i| (0..6).all(|j| {
                    let m = |k: usize| if k < 3 { s[..3].iter().fold(0.0, |a: f64, x| a.max(*x)) } else { s[3..6].iter().fold(0.0, |a: f64, x| a.max(*x)) + 1e-9 };
                    (got[(i, j)] - w[(i, j)]).abs() <= frac * m(i) * m(j) + 1e-15
                }))
            };
            ctx.hit(&format!("{fr:?}"));
            ctx.digf(got[(0, 0)]);
            if !like(&(rot * p * rot.transpose()), 1e-6) && !like(&(dcm * p * dcm.transpose()), 1e-2) {
                let class = if like(&(dcm.transpose() * p * dcm), 1e-6) && fr != LocalFrame::Inertial { "uncertainty-inverse-rotation" } else { "uncertainty-rotation" };
                return fail(class, format!("sigmas {:?} in {fr:?} gave the covariance {:?}", &s[..6], got.as_slice()));
            }
        }
        // White noise of a measurement.
        _ => {
            // Noise per second of an integration.
            let dt = 1.0 + f(v, "skip");
            match (WhiteNoise::new(1e-3 * dt, Unit::Second * dt), WhiteNoise::new(-1e-3, Unit::Second * dt), WhiteNoise::new(1e-3, Unit::Second * 0), WhiteNoise::new(1e-3, Unit::Second * -1)) {
                (Ok(w), Err(_), Err(_), Err(_)) => ensure_p!((w.sigma * dt - 1e-3 * dt).abs() < 1e-12 * dt && w.mean == 0.0, "noise-rate", "noise of {:e} integrated over {dt} s has a deviation of {:e} per second", 1e-3 * dt, w.sigma),
                _ => return fail("noise-rate", "noise over an interval is refused, or negative noise or time accepted"),
            }
            let wn = WhiteNoise { mean: f(v, "off") * 1e-3, sigma: 1e-3 * (1.0 + f(v, "skip")) };
            let mut w = wn;
            let mut rng = Pcg64Mcg::new(seed);
            let t = sc.orbit.epoch;
            ensure_p!((wn.covariance(t) - wn.sigma.powi(2)).abs() < 1e-15, "noise-covariance", "{:e} instead of {:e}", wn.covariance(t), wn.sigma.powi(2));
            let xs: Vec<DVector<f64>> = (0..n).map(|_| DVector::from_element(1, w.sample(t, &mut rng))).collect();
            judge("noise", &xs, &DVector::from_element(1, wn.mean), &DMatrix::from_element(1, 1, wn.sigma.powi(2)), &DVector::from_element(1, 1e-12), 1e-6)?;
            let ys: Vec<DVector<f64>> = (0..n)
                .map(|_| {
                    let x: Vector3<f64> = nyx_space::mc::helpers::unit_vector_from_seed(&mut rng);
                    DVector::from_column_slice(x.as_slice())
                })
                .collect();
            ensure_p!(ys.iter().all(|y| (y.norm() - 1.0).abs() < 1e-12), "unit-vector", "a unit vector of another length");
            judge("unit-vector", &ys, &DVector::zeros(3), &(DMatrix::identity(3, 3) / 3.0), &DVector::from_element(3, 1e-12), 1e-6)?;
            ctx.hit("white noise and directions");
            ctx.digf(xs[0][0]);
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
pub static P28: Prop = Prop {
    id: "P28",
    make: |r, _, _| draw_p28(r),
    run: run_p28,
    runs: (4000, 200_000),
    rule: "3000 seeded draws of one distribution: dispersed elements, components, coefficients and mass, a full covariance, an estimate, an uncertainty in a local frame, or measurement noise; mean and covariance compared with the requested ones by bounds of eight deviations of the statistic; every run is non-trivial; distinct by scenario",
    real: &["MvnSpacecraft, MonteCarlo::generate_states, KfEstimate, SpacecraftUncertainty, WhiteNoise, anise orbit functions"],
    stub: &["randomness: the generators are seeded by the simulator"],
    must_hit: &["zero mean", "components", "elements", "estimates from dispersions", "full covariance", "uncertainty of elements", "Inertial", "RIC", "white noise and directions", "fault:not dispersable", "fault:not a covariance"],
};
