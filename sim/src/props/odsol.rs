//! Orbit determination solutions: P17 (exports), P18 (imports), P19 (views of a solution), P30 (statistics).
use super::od::{self, Od};
use crate::ensure_p;
use crate::io::{self, Art, Torn, bits};
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use anise::analysis::prelude::OrbitalElement;
use hifitime::{Epoch, Unit};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::io::ExportCfg;
use nyx_space::linalg::{DimName, U1, U2};
use nyx_space::md::StateParameter;
use nyx_space::od::estimate::KfEstimate;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::prelude::*;
use nyx_space::od::process::{NormalizedConsistency, ODSolution};
use serde_json::{Value, json};
use std::collections::BTreeMap;

type Sol<M> = ODSolution<Spacecraft, KfEstimate<Spacecraft>, M, GroundStation>;

fn epoch_line(e: Epoch) -> String {
    // Files hold epochs to the microsecond.
    let (c, n) = e.to_tai_duration().to_parts();
    format!("{c} {}", n / 1000)
}
macro_rules! res_line {
    ($r:expr, $all:expr) => {
        match &$r {
            None => "-".to_string(),
            Some(r) => {
                let mut t: Vec<MeasurementType> = r.msr_types.iter().copied().filter(|t| $all.contains(t)).collect();
                t.sort_by_key(|x| format!("{x:?}"));
                let o = |x: Option<f64>| x.map_or("?".into(), bits);
                let per: Vec<String> = t.iter().map(|t| format!("{t:?}:{}/{}/{}/{}/{}", o(r.prefit(*t)), o(r.postfit(*t)), o(r.trk_noise(*t)), o(r.real_obs(*t)), o(r.computed_obs(*t)))).collect();
                let w: Vec<String> = r.whitened_resid.iter().map(|x| bits(*x)).collect();
                format!("{} {:?} {} {} [{}] {}", epoch_line(r.epoch), r.tracker, r.rejected, bits(r.ratio), per.join(" "), w.join(" "))
            }
        }
    };
}
/// Everything a file keeps of one entry.
macro_rules! sol_lines {
    ($s:expr) => {{
        let s = $s;
        (0..s.estimates.len())
            .map(|k| {
                let e = &s.estimates[k];
                let x = e.state();
                let o = x.orbit;
                let mut l = vec![epoch_line(x.orbit.epoch), format!("{}/{}", o.frame.ephemeris_id, o.frame.orientation_id)];
                l.extend(o.radius_km.iter().chain(o.velocity_km_s.iter()).map(|y| bits(*y)));
                l.extend([x.srp.coeff_reflectivity, x.drag.coeff_drag, x.mass.dry_mass_kg, x.mass.prop_mass_kg, x.srp.area_m2, x.drag.area_m2].iter().map(|y| bits(*y)));
                for r in 0..9 {
                    for c in r..9 {
                        l.push(bits(e.covar[(r, c)]));
                    }
                }
                l.push(res_line!(s.residuals[k], s.measurement_types));
                l.push(match &s.gains[k] {
                    None => "-".into(),
                    Some(g) => g.iter().map(|x| bits(*x)).collect::<Vec<_>>().join(" "),
                });
                l.push(match &s.filter_smoother_ratios[k] {
                    None => "-".into(),
                    Some(g) => g.iter().map(|x| bits(*x)).collect::<Vec<_>>().join(" "),
                });
                l.join("|")
            })
            .collect::<Vec<String>>()
    }};
}
/// Calls `$f` with the solution of the scenario, whatever its size.
macro_rules! with_solution {
    ($v:expr, $ctx:expr, $f:ident $(, $x:expr)*) => {{
        let (arc, _) = od::arc_of($v, $ctx)?;
        od::valid(&arc)?;
        let init = od::initial($v);
        let bad = |e: String| Fail { class: INVALID.into(), msg: format!("no solution: {e}") };
        $ctx.sim_s += (arc.measurements.last().unwrap().epoch - init.epoch()).to_seconds();
        match od::od_of($v, init.epoch()) {
            Od::One(o) => {
                let mut sol = o.process_arc(init, &arc).map_err(|e| bad(format!("{e}")))?;
                if b($v, "smooth") && sol.estimates.len() > 1 {
                    sol = sol.smooth(&world::almanac()).map_err(|e| bad(format!("{e}")))?;
                    $ctx.hit("smoothed");
                }
                one::$f($v, $ctx, sol $(, $x)*)
            }
            Od::Two(o) => {
                let mut sol = o.process_arc(init, &arc).map_err(|e| bad(format!("{e}")))?;
                if b($v, "smooth") && sol.estimates.len() > 1 {
                    sol = sol.smooth(&world::almanac()).map_err(|e| bad(format!("{e}")))?;
                    $ctx.hit("smoothed");
                }
                two::$f($v, $ctx, sol $(, $x)*)
            }
        }
    }};
}
const PARAMS: [StateParameter; 5] = [
    StateParameter::Element(OrbitalElement::Rmag),
    StateParameter::Element(OrbitalElement::VZ),
    StateParameter::Element(OrbitalElement::VelocityDeclination),
    StateParameter::PropMass(),
    StateParameter::Element(OrbitalElement::SemiMajorAxis),
];
fn cfg_of(v: &Value, epochs: &[Epoch]) -> ExportCfg {
    let at = |pm: i64| epochs[((epochs.len() - 1) as f64 * pm as f64 / 1000.0) as usize];
    let mut c = ExportCfg { timestamp: b(v, "stamp"), ..Default::default() };
    if v["start_pm"].is_i64() {
        c.start_epoch = Some(at(i(v, "start_pm")) - Unit::Millisecond * 1);
    }
    if v["end_pm"].is_i64() {
        c.end_epoch = Some(at(i(v, "end_pm")) + Unit::Millisecond * 1);
    }
    if u(v, "fields") > 0 {
        c.fields = Some((0..5).filter(|k| u(v, "fields") >> k & 1 == 1).map(|k| PARAMS[k]).collect());
    }
    c
}
fn draw(r: &mut Rng) -> Value {
    let mut v = od::draw_common(r);
    let n = r.range(2, 10);
    v["msrs"] = od::draw_msrs(r, &[1, 2, 3, 6, 6, 7, 8, 9], n, 0.3);
    v["snc"] = od::draw_snc(r);
    v["max_step_s"] = json!(*r.pick(&[60, 300, 900]));
    v["smooth"] = json!(r.chance(0.2));
    v["stamp"] = json!(r.chance(0.1));
    v["start_pm"] = if r.chance(0.25) { json!(r.range(0, 600)) } else { Value::Null };
    v["end_pm"] = if r.chance(0.25) { json!(r.range(500, 1000)) } else { Value::Null };
    v
}
fn run_files(v: &Value, ctx: &mut Ctx, read: bool) -> Outcome {
    with_solution!(v, ctx, files_of, read)
}
pub static P17: Prop = Prop {
    id: "P17",
    make: |r, _, _| {
        let mut v = draw(r);
        v["fields"] = json!(if r.chance(0.25) { r.range(1, 31) } else { 0 });
        v["faults"] = io::draw_write_faults(r);
        v["old"] = json!(r.chance(0.3));
        v
    },
    run: |v, ctx| run_files(v, ctx, false),
    runs: (1400, 100_000),
    rule: "one filter solution (maybe smoothed, of a window or chosen fields) exported to parquet without and then with drawn disk faults, and its columns compared with the solution; non-trivial when a fault fired",
    real: &["nyx orbit determination solutions, parquet reader and writer", "arrow, parquet, std file I/O above the system calls"],
    stub: &["write, open, read and clock system calls (faults injected)", "almanac (synthetic constants and ephemerides)"],
    must_hit: &["fault:open_error", "fault:write_error", "fault:write_error_sticky", "fault:disk_full", "fault:write_eintr", "fault:short_write", "fault:crash_torn_write", "torn file imported", "all fields", "chosen fields", "window", "ric", "round trip", "smoothed"],
};
pub static P18: Prop = Prop {
    id: "P18",
    make: |r, _, _| {
        let mut v = draw(r);
        v["rfaults"] = io::draw_read_faults(r);
        v["cut"] = if r.chance(0.6) { json!(r.range(0, 999)) } else { Value::Null };
        v["zeros"] = json!(r.chance(0.3));
        // Several batches, or several pages of each column.
        v["rows"] = json!(if r.chance(0.008) { 20_500 } else if r.chance(0.02) { 1100 } else { 0 });
        if u(&v, "rows") > 0 {
            v["rfaults"] = json!([{"kind": if r.chance(0.8) { 21 } else { 20 + r.below(7) }, "pm": -1, "rpm": r.range(0, 1000), "errno": r.below(5), "max": 4096}]);
        }
        v
    },
    run: |v, ctx| run_files(v, ctx, true),
    runs: (2000, 100_000),
    rule: "one filter solution exported, then imported through drawn read faults and from a truncated or zero-filled copy; non-trivial when a fault fired",
    real: P17.real,
    stub: P17.stub,
    must_hit: &["fault:open_error", "fault:read_error", "fault:read_eintr", "fault:short_read", "fault:truncated_file", "round trip", "failed import reported", "import through short or interrupted reads", "smoothed", "several batches", "several pages"],
};

// ---- P19 ---------------------------------------------------------------------------------------------
fn make_p19(r: &mut Rng, _: u64, _: Tier) -> Value {
    let mut v = draw(r);
    let n = r.range(2, 14);
    v["msrs"] = od::draw_msrs(r, &[1, 2, 3, 6, 6, 7, 8, 9], n, 0.3);
    v["smooth"] = json!(false);
    v["ops"] = json!((0..r.range(1, 5)).map(|_| json!({"op": r.below(9), "arg": r.below(6), "mask": r.below(1 << 50)})).collect::<Vec<_>>());
    v
}
fn run_p19(v: &Value, ctx: &mut Ctx) -> Outcome {
    with_solution!(v, ctx, views_of)
}
fn times(l: &[Epoch]) -> bool {
    l.windows(2).all(|w| w[0] <= w[1])
}
pub static P19: Prop = Prop {
    id: "P19",
    make: make_p19,
    run: run_p19,
    runs: (5000, 200_000),
    rule: "histories of filters, splits, merges, lookups and smoothing on the solution of a faulty tracking arc, compared with a list of entries",
    real: &["nyx orbit determination filters and solutions"],
    stub: &["almanac (synthetic constants and ephemerides)", "scheduler"],
    must_hit: &["merge", "split", "smoothed", "smoothed residual", "trajectory", "filter_by_tracker", "filter_by_msr_type", "exclude_tracker", "drop_time_updates"],
};
fn make_p30(r: &mut Rng, _: u64, tier: Tier) -> Value {
    let mut v = make_p19(r, 0, tier);
    // Sometimes enough residuals for the tests to have power.
    let n = if r.chance(0.15) { r.range(15, 40) } else { r.range(2, 12) };
    v["msrs"] = od::draw_msrs(r, &[1, 2, 3, 6, 6, 7, 8, 9], n, 0.3);
    v["smooth"] = json!(r.chance(0.1));
    v["alpha_m"] = if r.chance(0.3) { Value::Null } else { json!(*r.pick(&[1, 10, 50, 100, 320])) };
    v["thr_m"] = json!(*r.pick(&[0, 500, 1000, 2000, 3000, 6000]));
    v["err_m"] = json!(*r.pick(&[300, 1000, 1000, 3000]));
    v["err"] = json!(r.below(1 << 40));
    v["truth_cut"] = json!(r.chance(0.1));
    for op in v["ops"].as_array_mut().unwrap() {
        op["op"] = json!(r.below(5));
    }
    v
}
fn run_p30(v: &Value, ctx: &mut Ctx) -> Outcome {
    with_solution!(v, ctx, stats_of)
}
/// The standard normal distribution, by Simpson's rule.
fn phi(x: f64) -> f64 {
    let n = 400;
    let h = x / n as f64;
    let g = |t: f64| (-0.5 * t * t).exp();
    let mut s = g(0.0) + g(x);
    for k in 1..n {
        s += g(h * k as f64) * if k % 2 == 1 { 4.0 } else { 2.0 };
    }
    0.5 + s * h / 3.0 / std::f64::consts::TAU.sqrt()
}
/// Approximate bounds of a chi-square variable with `k` degrees of freedom (Wilson and Hilferty).
fn chi2_bounds(k: f64, alpha: f64) -> (f64, f64) {
    let (mut lo, mut hi) = (0.0, 9.0);
    for _ in 0..80 {
        let m = 0.5 * (lo + hi);
        if phi(m) < 1.0 - alpha / 2.0 { lo = m } else { hi = m }
    }
    let (c, d) = (1.0 - 2.0 / (9.0 * k), lo * (2.0 / (9.0 * k)).sqrt());
    (k * (c - d).powi(3), k * (c + d).powi(3))
}
pub static P30: Prop = Prop {
    id: "P30",
    make: make_p30,
    run: run_p30,
    runs: (3000, 100_000),
    rule: "one solution of a faulty tracking arc, seen through filters, splits and merges, whose statistics are compared with sums over its list of residuals and errors",
    real: &["nyx orbit determination filters, solutions and their statistics"],
    stub: &["almanac (synthetic constants and ephemerides)", "scheduler", "the true trajectory (the estimates plus drawn errors)"],
    must_hit: &["rms", "time updates among the residuals", "rejected residuals", "no accepted residual", "nis", "nees", "power", "truth lost", "one scalar residual", "normality"],
};

/// The checks, for each measurement size.
macro_rules! sized {
    ($m:ident, $size:ty) => {
        mod $m {
            use super::*;
            type M = $size;
            pub fn files_of(v: &Value, ctx: &mut Ctx, sol: Sol<M>, read: bool) -> Outcome {
                if sol.estimates.is_empty() {
                    // Nothing was processed: there is nothing to export.
                    ensure_p!(sol.to_parquet("/nonexistent/od.parquet", ExportCfg::default()).is_err(), "content:od", "an empty solution was exported");
                    return Ok(());
                }
                let s = |e: &dyn std::fmt::Display| format!("{e}");
                let mut sol = sol;
                if u(v, "rows") > 0 {
                    while sol.estimates.len() < (u(v, "rows") as usize).min(30_000) {
                        sol = sol.clone().merge(sol);
                    }
                    ctx.hit(if sol.estimates.len() > 20_000 { "several pages" } else { "several batches" });
                }
                let sol = &sol;
                let epochs: Vec<Epoch> = sol.estimates.iter().map(|e| e.epoch()).collect();
                let cfg = cfg_of(v, &epochs);
                let keep: Vec<usize> = (0..epochs.len()).filter(|k| cfg.start_epoch.is_none_or(|a| epochs[*k] >= a) && cfg.end_epoch.is_none_or(|z| epochs[*k] <= z)).collect();
                let all = sol_lines!(sol);
                let want: Vec<String> = keep.iter().map(|k| all[*k].clone()).collect();
                let full = cfg.fields.is_none();
                let ep = &epochs;
                let a = Art {
                    name: "od",
                    ext: "parquet",
                    write: Box::new(move |p| sol.to_parquet(p, cfg_of(v, ep)).map(|x| x.to_string_lossy().into_owned()).map_err(|e| s(&e))),
                    load: if full { Some(Box::new(move |p| Sol::<M>::from_parquet(p, BTreeMap::new()).map(|x| sol_lines!(&x)).map_err(|e| s(&e)))) } else { None },
                    want: full.then_some(want),
                    torn: Torn::Rejects,
                };
                if read {
                    let mut quiet = v.clone();
                    quiet["faults"] = json!([]);
                    let path = io::write_case(ctx, &quiet, &a)?;
                    return io::read_case(ctx, v, &a, &path);
                }
                let path = io::write_case(ctx, v, &a)?;
                // The file without nyx.
                let bad = |e: String| Fail { class: "content:od".into(), msg: e };
                let names = io::pq_names(&path).map_err(bad)?;
                let col = |p: &str, q: &str| -> Result<Vec<Option<String>>, Fail> {
                    let n = names.iter().find(|n| n.starts_with(p) && n.contains(q)).ok_or_else(|| bad(format!("no column {p}..{q}")))?;
                    io::pq_col(&path, n).map_err(bad)
                };
                let when = col("Epoch (UTC)", "")?;
                ensure_p!(when.len() == keep.len(), "content:od", "{} rows for {} entries", when.len(), keep.len());
                for (row, k) in keep.iter().enumerate() {
                    let e = when[row].clone().and_then(|e| Epoch::from_gregorian_str(&e).ok());
                    ensure_p!(e.is_some_and(|e| (e - epochs[*k]).abs() < Unit::Microsecond * 1), "content:od", "row {row} is at {:?} instead of {}", when[row], epochs[*k]);
                }
                let num = |c: &Option<String>| c.as_ref().and_then(|x| u64::from_str_radix(x, 16).ok()).map(f64::from_bits);
                for fld in cfg.fields.clone().unwrap_or_else(|| PARAMS.to_vec()) {
                    if !full || names.contains(&format!("{fld}")) {
                        let c = io::pq_col(&path, &format!("{fld}")).map_err(bad)?;
                        for (row, k) in keep.iter().enumerate() {
                            let w = sol.estimates[*k].state().value(fld).ok().map(bits);
                            ensure_p!(c[row] == w, "content:od", "row {row} of {fld:?} is {:?} instead of {w:?}", c[row]);
                        }
                    }
                }
                let names9 = ["X", "Y", "Z", "Vx", "Vy", "Vz", "Cr", "Cd", "Mass"];
                for (q, n) in names9.iter().enumerate() {
                    let cov = col(&format!("Covariance {n}*{n} ("), "")?;
                    let sig = names.iter().find(|x| x.starts_with(&format!("Sigma {n} (")) && !x.contains("(RIC)") && x.matches('(').count() == 2).cloned();
                    let sig = sig.map(|n| io::pq_col(&path, &n)).transpose().map_err(bad)?;
                    let ric = if q < 6 { Some(col(&format!("Sigma {n} (RIC)"), "")?) } else { None };
                    for (row, k) in keep.iter().enumerate() {
                        let e = &sol.estimates[*k];
                        let p = e.covar;
                        ensure_p!(cov[row].as_ref() == Some(&bits(p[(q, q)])), "content:od", "row {row} of the variance of {n} is {:?}", num(&cov[row]));
                        if let Some(s) = &sig {
                            ensure_p!(s[row].as_ref() == Some(&bits(p[(q, q)].sqrt())), "content:od", "row {row} of the sigma of {n} is {:?}", num(&s[row]));
                        }
                        if let Some(c) = &ric {
                            let o = e.state().orbit;
                            let r = o.radius_km.normalize();
                            let h = o.radius_km.cross(&o.velocity_km_s);
                            let c_ = h.normalize();
                            let axes = [r, c_.cross(&r), c_];
                            let w = h.norm() / o.radius_km.norm_squared();
                            let mut row6 = nalgebra::SVector::<f64, 6>::zeros();
                            for x in 0..3 {
                                row6[x + if q < 3 { 0 } else { 3 }] = axes[q % 3][x];
                            }
                            if q >= 3 {
                                // The axes rotate with the rate w about the third one.
                                let d = [axes[1] * w, axes[0] * -w, r * 0.0];
                                for x in 0..3 {
                                    row6[x] = d[q - 3][x];
                                }
                            }
                            let var = (row6.transpose() * p.fixed_view::<6, 6>(0, 0) * row6)[(0, 0)];
                            let got = num(&c[row]).unwrap_or(f64::NAN);
                            let scale = (0..3).map(|x| p[(x + q / 3 * 3, x + q / 3 * 3)]).fold(0.0, f64::max) + if q >= 3 { w * w * (p[(0, 0)] + p[(1, 1)] + p[(2, 2)]) } else { 0.0 };
                            // The rotation rate comes from finite differences over milliseconds of elements near their singularities.
                            let tol = if q < 3 { 1e-3 } else { 0.15 };
                            ensure_p!((got * got - var).abs() <= tol * (var.abs() + scale) || (got.is_nan() && var <= tol * scale), "content:od-ric", "row {row}: the RIC sigma of {n} is {got} instead of {}", var.sqrt());
                            ctx.hit("ric");
                        }
                    }
                }
                let (trk, ratio, rej) = (col("Tracker", "")?, col("Residual ratio", "")?, col("Residual Rejected", "")?);
                for (row, k) in keep.iter().enumerate() {
                    let r = &sol.residuals[*k];
                    ensure_p!(trk[row] == r.as_ref().and_then(|r| r.tracker.clone()) && ratio[row] == r.as_ref().map(|r| bits(r.ratio)) && rej[row].as_ref().map(|x| x.contains("true")) == r.as_ref().map(|r| r.rejected), "content:od", "row {row} has the residual {:?} {:?} {:?}", trk[row], ratio[row], rej[row]);
                }
                for ty in &sol.measurement_types {
                    for (what, f) in [("Prefit residual", 0), ("Postfit residual", 1), ("Measurement noise", 2), ("Real observation", 3), ("Computed observation", 4)] {
                        let c = col(&format!("{what}: {ty:?} ("), "")?;
                        for (row, k) in keep.iter().enumerate() {
                            let w = sol.residuals[*k].as_ref().and_then(|r| match f {
                                0 => r.prefit(*ty),
                                1 => r.postfit(*ty),
                                2 => r.trk_noise(*ty),
                                3 => r.real_obs(*ty),
                                _ => r.computed_obs(*ty),
                            });
                            ensure_p!(c[row] == w.map(bits), "content:od", "row {row} of {what} of {ty:?} is {:?} instead of {w:?}", num(&c[row]));
                        }
                    }
                }
                ctx.hit(if full { "all fields" } else { "chosen fields" });
                if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() {
                    ctx.hit("window");
                }
                Ok(())
            }
            pub fn stats_of(v: &Value, ctx: &mut Ctx, mut sol: Sol<M>) -> Outcome {
                for op in v["ops"].as_array().cloned().unwrap_or_default() {
                    let trk = od::SITES[u(&op, "arg") as usize % 6].0.to_string();
                    sol = match u(&op, "op") {
                        0 => sol.drop_time_updates(),
                        1 => sol.filter_by_tracker(trk),
                        2 => sol.exclude_tracker(trk),
                        3 => {
                            let x = sol.clone().drop_time_updates();
                            x.merge(sol)
                        }
                        _ => sol,
                    };
                }
                let dim = M::dim() as f64;
                let all: Vec<_> = sol.residuals.iter().flatten().collect();
                let kept: Vec<_> = all.iter().filter(|r| !r.rejected).collect();
                let n = all.len() as f64;
                let near = |a: f64, z: f64, tol: f64| a == z || (a - z).abs() <= tol * z.abs().max(1e-300) || (a.is_nan() && z.is_nan());
                if all.len() < sol.estimates.len() && !all.is_empty() {
                    ctx.hit("time updates among the residuals");
                }
                if kept.len() < all.len() {
                    ctx.hit("rejected residuals");
                }
                if !all.is_empty() {
                    let rms = |f: &dyn Fn(usize) -> f64| ((0..all.len()).map(f).sum::<f64>() / n).sqrt();
                    for (name, got, want) in [
                        ("prefit residuals", sol.rms_prefit_residuals(), rms(&|k| all[k].prefit.iter().map(|x| x * x).sum())),
                        ("postfit residuals", sol.rms_postfit_residuals(), rms(&|k| all[k].postfit.iter().map(|x| x * x).sum())),
                        ("residual ratios", sol.rms_residual_ratios(), rms(&|k| all[k].ratio * all[k].ratio)),
                    ] {
                        ensure_p!(near(got, want, 1e-9), "stats-rms", "the RMS of the {} of {} entries with {n} residuals is {got} instead of {want}", name, sol.estimates.len());
                        ctx.digs(&bits(got));
                    }
                    ctx.hit("rms");
                }
                let thr = f(v, "thr_m") * 1e-3;
                match sol.residual_ratio_within_threshold(thr) {
                    Ok(x) => {
                        let w = all.iter().filter(|r| r.ratio >= -thr && r.ratio <= thr).count() as f64 / n;
                        ensure_p!(!all.is_empty() && near(x, w, 1e-12), "stats-share", "{x} of the ratios are within {thr} instead of {w}");
                    }
                    Err(e) => ensure_p!(all.is_empty(), "stats-share", "the share of the ratios failed with {n} residuals: {e}"),
                }
                // The innovations.
                let alpha = v["alpha_m"].as_f64().map(|a| a.max(1.0) * 1e-3);
                let verdict = |name: &str, c: &NormalizedConsistency, sum: f64, k: f64, tol: f64| -> Outcome {
                    let (lo, hi) = chi2_bounds(k, alpha.unwrap_or(0.05));
                    ensure_p!(near(c.normalized_sum, sum, tol), &format!("stats-{name}"), "the sum is {} instead of {sum}", c.normalized_sum);
                    ensure_p!(c.k == k, &format!("stats-{name}"), "{} degrees of freedom instead of {k}", c.k);
                    ensure_p!((c.lower_bound - lo).abs() <= 1e-6 * k && (c.upper_bound - hi).abs() <= 1e-6 * k, &format!("stats-{name}"), "the bounds for {k} degrees are {} and {} instead of {lo} and {hi}", c.lower_bound, c.upper_bound);
                    let s = c.normalized_sum;
                    if (s - c.lower_bound).abs() > 1e-9 && (s - c.upper_bound).abs() > 1e-9 {
                        let want = (s < c.lower_bound, s > c.lower_bound && s < c.upper_bound, s > c.upper_bound);
                        ensure_p!((c.is_underconfident(), c.is_consistent(), c.is_overconfident()) == want, &format!("stats-{name}"), "{s} within {} and {} was judged {:?}", c.lower_bound, c.upper_bound, (c.is_underconfident(), c.is_consistent(), c.is_overconfident()));
                    }
                    ensure_p!(c.has_statistical_power() == (k > 35.0) && c.is_nees == (name == "nees"), &format!("stats-{name}"), "the test is not what it says it is");
                    Ok(())
                };
                match sol.nis_consistency(alpha) {
                    Ok(c) => {
                        ensure_p!(!kept.is_empty(), "stats-nis", "a test of nothing");
                        let k = kept.len() as f64 * dim;
                        verdict("nis", &c, kept.iter().map(|r| r.whitened_resid.iter().map(|x| x * x).sum::<f64>()).sum(), k, 1e-9)?;
                        ctx.hit("nis");
                        if k > 35.0 {
                            ctx.hit("power");
                        }
                        ctx.digs(&bits(c.normalized_sum));
                    }
                    Err(e) => {
                        ensure_p!(kept.is_empty(), "stats-nis", "the test failed with {} residuals: {e}", kept.len());
                        ctx.hit("no accepted residual");
                    }
                }
                // Their distribution: the largest difference is at a sample, before or after its step.
                let mut w: Vec<f64> = kept.iter().flat_map(|r| r.whitened_resid.iter().copied().collect::<Vec<_>>()).collect();
                w.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let m = w.len() as f64;
                let mean = w.iter().sum::<f64>() / m;
                let dev = (w.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / m).sqrt();
                if w.len() == 1 {
                    ctx.hit("one scalar residual");
                }
                match (sol.ks_test_normality(), sol.is_normal(alpha)) {
                    (Ok(d), Ok(yes)) => {
                        ensure_p!(w.len() > 1, "stats-normal", "a test of {m} residuals");
                        let up = w.iter().enumerate().map(|(k, x)| ((k + 1) as f64 / m - phi((x - mean) / dev)).abs()).fold(0.0, f64::max);
                        let dn = w.iter().enumerate().map(|(k, x)| (k as f64 / m - phi((x - mean) / dev)).abs()).fold(0.0, f64::max);
                        ensure_p!((d - up).abs() < 1e-6 || (d - up.max(dn)).abs() < 1e-6, "stats-normal", "the Kolmogorov-Smirnov statistic of {m} residuals is {d} instead of {up} or {dn}");
                        let crit = |n: f64| (-(alpha.unwrap_or(0.05) / 2.0).ln() / 2.0).sqrt() / n.sqrt();
                        // Whether samples or residuals are counted is left open.
                        if d < crit(m) - 1e-9 || d > crit(kept.len() as f64) + 1e-9 {
                            ensure_p!(yes == (d < crit(m)), "stats-normal", "a statistic of {d} of {m} residuals was judged {yes} at {alpha:?}");
                        }
                        ctx.hit("normality");
                    }
                    (Err(_), Err(_)) => ensure_p!(w.len() < 2 || dev == 0.0, "stats-normal", "the test failed with {m} residuals"),
                    (a, z) => return fail("stats-normal", format!("{m} residuals: {} and {}", a.is_ok(), z.is_ok())),
                }
                // The errors of the estimates after the first, against a truth known at their epochs.
                let size = if b(v, "est_c") { 8 } else { 6 };
                let mut truth: Vec<Spacecraft> = vec![];
                for e in &sol.estimates {
                    let k = truth.len() as u64;
                    if truth.last().is_some_and(|t| t.orbit.epoch == e.epoch()) {
                        continue;
                    }
                    let mut t = e.state();
                    let g = |x: u64| (2.0 * od::hash01(u(v, "err").wrapping_add(k), x) - 1.0) * f(v, "err_m") * 1e-3 * e.covar[(x as usize, x as usize)].max(0.0).sqrt();
                    for x in 0..3 {
                        t.orbit.radius_km[x] += g(x as u64);
                        t.orbit.velocity_km_s[x] += g(x as u64 + 3);
                    }
                    if size == 8 {
                        t.srp.coeff_reflectivity += g(6);
                        t.drag.coeff_drag += g(7);
                    }
                    truth.push(t);
                }
                let mut traj = nyx_space::md::prelude::Traj::<Spacecraft>::new();
                let cut = b(v, "truth_cut") && truth.len() > 2;
                if cut {
                    truth.pop();
                }
                traj.states = truth.clone();
                match sol.nees_consistency(&traj, alpha) {
                    Err(e) => {
                        ensure_p!(cut || sol.estimates.len() < 2, "stats-nees", "the test failed with {} estimates: {e}", sol.estimates.len());
                        if cut {
                            ctx.hit("truth lost");
                        }
                    }
                    Ok(c) => {
                        ensure_p!(sol.estimates.len() > 1, "stats-nees", "a test of nothing");
                        ensure_p!(!cut, "stats-nees", "the test passed although the truth at the last estimate is not known");
                        let (mut sum, mut worst) = (0.0, 1.0f64);
                        for e in sol.estimates.iter().skip(1) {
                            let t = truth.iter().find(|t| t.orbit.epoch == e.epoch()).unwrap();
                            let err = (od::vec9(&e.state()) - od::vec9(t)).rows(0, size).into_owned();
                            let p = e.covar.view((0, 0), (size, size)).into_owned();
                            let p = (&p + p.transpose()) * 0.5;
                            let eig = p.clone().symmetric_eigen().eigenvalues;
                            worst = worst.max(if eig.min() > 0.0 { eig.max() / eig.min() } else { f64::INFINITY });
                            match p.cholesky() {
                                Some(c) => sum += err.dot(&c.solve(&err)),
                                None => worst = f64::INFINITY,
                            }
                        }
                        let k = ((sol.estimates.len() - 1) * size) as f64;
                        if worst < 1e12 {
                            verdict("nees", &c, sum, k, 1e-14 * worst + 1e-6)?;
                            ctx.hit("nees");
                        } else {
                            ensure_p!(c.k == k, "stats-nees", "{} degrees of freedom instead of {k}", c.k);
                            ctx.hit("nees of a nearly singular covariance");
                        }
                    }
                }
                ctx.nontrivial = true;
                Ok(())
            }
            pub fn views_of(v: &Value, ctx: &mut Ctx, mut sol: Sol<M>) -> Outcome {
                let sorted = |mut l: Vec<String>| {
                    l.sort();
                    l
                };
                for op in v["ops"].as_array().cloned().unwrap_or_default() {
                    let before = sol_lines!(&sol);
                    let n = before.len();
                    let trk = od::SITES[u(&op, "arg") as usize % 6].0.to_string();
                    let ty = if u(&op, "arg") % 2 == 0 { MeasurementType::Range } else { MeasurementType::Doppler };
                    let rows = |f: &dyn Fn(usize) -> bool| -> Vec<String> { (0..n).filter(|k| f(*k)).map(|k| before[k].clone()).collect() };
                    let by = |k: usize| sol.residuals[k].as_ref().is_some_and(|r| r.tracker.as_deref() == Some(trk.as_str()));
                    let with = |k: usize| sol.residuals[k].as_ref().is_some_and(|r| r.msr_types.contains(&ty));
                    let kind = u(&op, "op");
                    let (name, next, want) = match kind {
                        0 => ("drop_time_updates", sol.clone().drop_time_updates(), Some(rows(&|k| sol.residuals[k].is_some()))),
                        1 => ("filter_by_tracker", sol.clone().filter_by_tracker(trk.clone()), Some(rows(&by))),
                        2 => ("filter_by_msr_type", sol.clone().filter_by_msr_type(ty), Some(rows(&with))),
                        3 => ("exclude_tracker", sol.clone().exclude_tracker(trk.clone()), Some(rows(&|k| !by(k)))),
                        4 | 5 => {
                            // Two parts, each in time order, merged again.
                            let part = |one: bool| {
                                let mut p = sol.clone();
                                let m = |k: usize| (u(&op, "mask") >> (k % 50) & 1 == 1) == one;
                                let pick = |k: &usize| m(*k);
                                p.estimates = (0..n).filter(pick).map(|k| sol.estimates[k]).collect();
                                p.residuals = (0..n).filter(pick).map(|k| sol.residuals[k].clone()).collect();
                                p.gains = (0..n).filter(pick).map(|k| sol.gains[k]).collect::<Vec<_>>();
                                p.filter_smoother_ratios = (0..n).filter(pick).map(|k| sol.filter_smoother_ratios[k]).collect();
                                p
                            };
                            ("merge", part(kind == 4).merge(part(kind != 4)), None)
                        }
                        6 => {
                            let pieces = sol.clone().split();
                            let mut pairs: Vec<(String, String)> = vec![];
                            for r in sol.residuals.iter().flatten() {
                                for t in &r.msr_types {
                                    pairs.push((r.tracker.clone().unwrap_or_default(), format!("{t:?}")));
                                }
                            }
                            let entries = pairs.len();
                            pairs.sort();
                            pairs.dedup();
                            ensure_p!(pieces.len() == pairs.len(), "solution-split", "{} parts for {} pairs of tracker and observable", pieces.len(), pairs.len());
                            let mut count = 0;
                            for p in &pieces {
                                let l = sol_lines!(p);
                                count += l.len();
                                ensure_p!(!l.is_empty() && l.iter().all(|x| before.contains(x)), "solution-split", "a part has no entries or entries of its own");
                                let one: Vec<_> = p.residuals.iter().flatten().map(|r| r.tracker.clone()).collect();
                                ensure_p!(one.windows(2).all(|w| w[0] == w[1]) && p.residuals.iter().all(|r| r.is_some()), "solution-split", "a part has several trackers");
                            }
                            ensure_p!(count == entries, "solution-split", "{count} entries in the parts for {entries} observations");
                            ctx.hit("split");
                            continue;
                        }
                        7 => {
                            if n == 0 {
                                ensure_p!(sol.to_traj().is_err(), "solution-traj", "a trajectory of nothing");
                                continue;
                            }
                            let t = sol.to_traj().map_err(|e| Fail { class: "solution-traj".into(), msg: format!("{e}") })?;
                            let mut e: Vec<Epoch> = sol.estimates.iter().map(|x| x.epoch()).collect();
                            e.dedup();
                            ensure_p!(t.states.len() == e.len() && t.states.windows(2).all(|w| w[0].epoch() < w[1].epoch()), "solution-traj", "{} states for {} epochs", t.states.len(), e.len());
                            ensure_p!(t.states.iter().all(|x| sol.estimates.iter().any(|y| world::same(&y.state(), x))), "solution-traj", "a state which is not an estimate");
                            for (k, x) in e.iter().enumerate() {
                                let Some(r) = sol.at(*x) else { return fail("solution-at", format!("nothing at {x}")) };
                                ensure_p!(r.estimate.epoch() == *x && sol.estimates.contains(&r.estimate) && r.residual.as_ref().is_none_or(|r| r.epoch == *x), "solution-at", "at {x} the record is of {}", r.estimate.epoch());
                                if k > 0 {
                                    ensure_p!(sol.at(e[k - 1] + (*x - e[k - 1]) * 0.5).is_none(), "solution-at", "a record between the estimates before {x}");
                                }
                            }
                            ensure_p!(sol.accepted_residuals().iter().all(|r| !r.rejected) && sol.rejected_residuals().iter().all(|r| r.rejected) && sol.accepted_residuals().len() + sol.rejected_residuals().len() == sol.residuals.iter().flatten().count(), "solution-residuals", "accepted and rejected residuals do not add up");
                            ctx.hit("trajectory");
                            continue;
                        }
                        _ => {
                            let sm = match sol.clone().smooth(&world::almanac()) {
                                Ok(s) => s,
                                Err(e) => {
                                    ensure_p!(n <= 1, "solution-smooth", "the smoother failed: {e}");
                                    continue;
                                }
                            };
                            ensure_p!(sm.estimates.len() == n && sm.residuals.len() == n && sm.gains.len() == n && sm.filter_smoother_ratios.len() == n, "solution-smooth", "{n} entries became {}/{}/{}/{}", sm.estimates.len(), sm.residuals.len(), sm.gains.len(), sm.filter_smoother_ratios.len());
                            for k in 0..n {
                                ensure_p!(sm.estimates[k].epoch() == sol.estimates[k].epoch(), "solution-smooth", "entry {k} moved to {}", sm.estimates[k].epoch());
                                match (&sol.residuals[k], &sm.residuals[k]) {
                                    (None, None) => {}
                                    (Some(a), Some(z)) => {
                                        ensure_p!(a.epoch == z.epoch && a.tracker == z.tracker && a.msr_types == z.msr_types && a.real_obs == z.real_obs && a.rejected == z.rejected, "solution-smooth", "entry {k} at {} got the residual of {:?} at {}", a.epoch, z.tracker, z.epoch);
                                        // The last entry is not smoothed.
                                        if k + 1 < n {
                                            ensure_p!(z.postfit == z.real_obs - z.computed_obs, "solution-smooth", "entry {k}: the smoothed residual is {} although {} was observed and {} computed", z.postfit, z.real_obs, z.computed_obs);
                                            let mut dev = sol.devices[z.tracker.as_ref().unwrap()].clone();
                                            if let Ok(Some(m)) = dev.measure_instantaneous(sm.estimates[k].state(), None, &world::almanac()) {
                                                for t in &z.msr_types {
                                                    let (x, y) = (m.data.get(t).copied(), z.computed_obs(*t));
                                                    ensure_p!(x == y, "solution-smooth", "entry {k}: the smoothed state gives {t:?} {x:?} and not {y:?}");
                                                }
                                            }
                                        }
                                        ctx.hit("smoothed residual");
                                    }
                                    (Some(_), None) => {}
                                    (None, Some(z)) => return fail("solution-smooth", format!("entry {k}, a prediction, got the residual of {:?} at {}", z.tracker, z.epoch)),
                                }
                            }
                            ensure_p!(n == 0 || sm.is_smoother_run() == (n > 1), "solution-smooth", "not marked as smoothed");
                            ctx.hit("smoothed");
                            if u(&op, "mask") & 1 == 1 {
                                sol = sm;
                            }
                            continue;
                        }
                    };
                    let en = next.estimates.len();
                    ensure_p!(next.residuals.len() == en && next.gains.len() == en && next.filter_smoother_ratios.len() == en, "solution-aligned", "{name} left {en}/{}/{}/{} entries", next.residuals.len(), next.gains.len(), next.filter_smoother_ratios.len());
                    let got = sol_lines!(&next);
                    ensure_p!(times(&next.estimates.iter().map(|e| e.epoch()).collect::<Vec<_>>()), "solution-order", "{name} left the entries out of order");
                    match want {
                        Some(w) => ensure_p!(got == w, &format!("solution-{name}"), "{} entries instead of {}, or others", got.len(), w.len()),
                        None => ensure_p!(sorted(got.clone()) == sorted(before.clone()), "solution-merge", "merging two parts gave other entries"),
                    }
                    ctx.hit(name);
                    sol = next;
                }
                ctx.nontrivial = true;
                for l in sol_lines!(&sol) {
                    ctx.digs(&l);
                }
                Ok(())
            }
        }
    };
}
sized!(one, U1);
sized!(two, U2);
