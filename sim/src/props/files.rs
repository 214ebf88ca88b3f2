//! Trajectory files: P07 (exports under write faults), P08 (imports under read faults and torn files).
use super::traj::err;
use crate::ensure_p;
use crate::io::{self, Art, Torn, bits};
use crate::rt::clock;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, i, u};
use anise::analysis::prelude::OrbitalElement;
use hifitime::{Epoch, TimeUnits, Unit};
use nyx_space::io::ExportCfg;
use nyx_space::md::StateParameter;
use nyx_space::md::trajectory::{Interpolatable, Traj};
use nyx_space::{Spacecraft, State};
use serde_json::{Value, json};
use std::str::FromStr;

fn build(v: &Value) -> Result<Traj<Spacecraft>, Fail> {
    let sc = world::spacecraft(&v["sc"]);
    let p = world::propagator(&v["prop"], world::dynamics(&v["dyn"]));
    let (_, t) = p.with(sc, world::almanac()).quiet().for_duration_with_traj(i(v, "dur_s").max(1).seconds()).map_err(|e| Fail { class: INVALID.into(), msg: err(e) })?;
    Ok(t)
}
const PARAMS: [StateParameter; 6] = [
    StateParameter::Element(OrbitalElement::Rmag),
    StateParameter::Element(OrbitalElement::Z),
    StateParameter::Element(OrbitalElement::TrueAnomaly),
    StateParameter::PropMass(),
    StateParameter::Isp(),
    StateParameter::Element(OrbitalElement::VX),
];
fn cfg_of(v: &Value, t: &Traj<Spacecraft>) -> ExportCfg {
    let span = t.last().epoch() - t.first().epoch();
    let at = |pm: i64| t.first().epoch() + (span * (pm as f64 / 1000.0)).round(1.seconds());
    let mut c = ExportCfg::default();
    if v["start_pm"].is_i64() {
        c.start_epoch = Some(at(i(v, "start_pm")));
    }
    if v["end_pm"].is_i64() {
        c.end_epoch = Some(at(i(v, "end_pm")));
    }
    if u(v, "step_s") > 0 {
        c.step = Some(i(v, "step_s").seconds());
    }
    if u(v, "fields") > 0 {
        c.fields = Some((0..6).filter(|k| u(v, "fields") >> k & 1 == 1).map(|k| PARAMS[k]).collect());
    }
    if b(v, "meta") {
        c.metadata = Some([("Mission".to_string(), "simulated".to_string())].into());
    }
    c.timestamp = b(v, "stamp");
    c
}
/// The states an export with this configuration must hold.
fn selected(t: &Traj<Spacecraft>, c: &ExportCfg) -> Result<Vec<Spacecraft>, Fail> {
    if c.start_epoch.is_none() && c.end_epoch.is_none() && c.step.is_none() {
        return Ok(t.states.clone());
    }
    let step = c.step.unwrap_or(1.minutes());
    let end = c.end_epoch.unwrap_or(t.last().epoch()).min(t.last().epoch());
    let mut e = c.start_epoch.unwrap_or(t.first().epoch()).max(t.first().epoch());
    let mut out = vec![];
    while e <= end {
        out.push(t.at(e).map_err(|x| Fail { class: "at".into(), msg: format!("{x}") })?);
        e += step;
    }
    Ok(out)
}
fn line(s: &Spacecraft, oem: bool) -> String {
    let (c, n) = s.orbit.epoch.to_tai_duration().to_parts();
    // Both formats hold epochs to the microsecond.
    let n = n / 1000;
    let mut x = vec![format!("{c} {n} {}/{}", s.orbit.frame.ephemeris_id, s.orbit.frame.orientation_id)];
    x.extend(s.orbit.radius_km.iter().chain(s.orbit.velocity_km_s.iter()).map(|y| if oem { format!("{y:.4}") } else { bits(*y) }));
    if !oem {
        x.push(format!("{} {} {:?} {:?}", bits(s.mass.dry_mass_kg), bits(s.mass.prop_mass_kg), s.thruster.map(|t| (bits(t.thrust_N), bits(t.isp_s))), s.mode));
    }
    x.join(" ")
}
fn same_epoch(text: &str, e: Epoch) -> bool {
    Epoch::from_gregorian_str(text).is_ok_and(|x| (x - e).abs() < Unit::Microsecond * 1)
}

/// The exported file, read without nyx, holds exactly the selected states.
fn check_pq(path: &str, sel: &[Spacecraft], fields: &[StateParameter], name: &str) -> Outcome {
    let bad = |e: String| Fail { class: format!("content:{name}"), msg: e };
    let ep = io::pq_col(path, "Epoch (UTC)").map_err(bad)?;
    ensure_p!(ep.len() == sel.len(), &format!("content:{name}"), "{} rows for {} states", ep.len(), sel.len());
    for (k, (e, s)) in ep.iter().zip(sel).enumerate() {
        ensure_p!(e.as_ref().is_some_and(|e| same_epoch(e, s.epoch())), &format!("content:{name}"), "row {k} is at {e:?} instead of {}", s.epoch());
    }
    for fld in fields {
        if *fld == StateParameter::GuidanceMode() {
            continue;
        }
        if sel.iter().all(|s| s.value(*fld).is_err()) {
            continue;
        }
        let col = io::pq_col(path, &format!("{fld}")).map_err(bad)?;
        for (k, (c, s)) in col.iter().zip(sel).enumerate() {
            let w = s.value(*fld).ok().map(bits);
            ensure_p!(*c == w, &format!("content:{name}"), "row {k} of {fld:?} is {c:?} instead of {w:?}");
        }
    }
    Ok(())
}

fn art<'a>(v: &'a Value, t: &'a Traj<Spacecraft>, other: &'a Traj<Spacecraft>) -> Art<'a> {
    let s = |e: &dyn std::fmt::Display| format!("{e}");
    let load: io::Rd<'a> = Box::new(move |p| Traj::<Spacecraft>::from_parquet(p).map(|t| t.states.iter().map(|s| line(s, false)).collect()).map_err(|e| s(&e)));
    let cfg = cfg_of(v, t);
    match u(v, "what") {
        0 => Art {
            name: "traj",
            ext: "parquet",
            write: Box::new(move |p| {
                let c = ExportCfg { fields: None, ..cfg_of(v, t) };
                t.to_parquet(p, c).map(|x| x.to_string_lossy().into_owned()).map_err(|e| s(&e))
            }),
            load: Some(load),
            want: selected(t, &cfg).ok().map(|x| x.iter().map(|s| line(s, false)).collect()),
            torn: Torn::Rejects,
        },
        1 => Art {
            name: "traj-fields",
            ext: "parquet",
            write: Box::new(move |p| t.to_parquet(p, cfg_of(v, t)).map(|x| x.to_string_lossy().into_owned()).map_err(|e| s(&e))),
            load: None,
            want: None,
            torn: Torn::NoImport,
        },
        2 => Art {
            name: "groundtrack",
            ext: "parquet",
            write: Box::new(move |p| t.to_groundtrack_parquet(p, world::iau_earth(), None, &world::almanac()).map(|x| x.to_string_lossy().into_owned()).map_err(|e| s(&e))),
            load: None,
            want: None,
            torn: Torn::NoImport,
        },
        3 => Art {
            name: "ric",
            ext: "parquet",
            write: Box::new(move |p| t.ric_diff_to_parquet(other, p, cfg_of(v, t)).map(|x| x.to_string_lossy().into_owned()).map_err(|e| s(&e))),
            load: None,
            want: None,
            torn: Torn::NoImport,
        },
        _ => Art {
            name: "oem",
            ext: "oem",
            write: Box::new(move |p| t.to_oem_file(p, "2024-001A".into(), Some("SIM".into()), Some("craft".into()), ExportCfg { timestamp: false, ..cfg_of(v, t) }).map(|_| p.to_string()).map_err(|e| s(&e))),
            load: Some(Box::new(move |p| Traj::<Spacecraft>::from_oem_file(p, None).map(|t| t.states.iter().map(|s| line(s, true)).collect()).map_err(|e| s(&e)))),
            want: selected(t, &cfg).ok().map(|x| x.iter().map(|s| line(s, true)).collect()),
            torn: Torn::Prefix,
        },
    }
}
/// A timestamped name carries a date that the wall clock gave during the export.
fn stamp_ok(path: &str, v: &Value, a: &Art, ctx: &mut Ctx) -> Outcome {
    if b(v, "stamp") && a.ext == "parquet" && a.name != "groundtrack" {
        // ref-traj-2024-03-01T00-00-00.parquet
        let base = format!("ref-{}-", a.name);
        let st = path.strip_prefix(&base).and_then(|x| x.strip_suffix(".parquet")).unwrap_or("");
        let (d, h) = st.split_once('T').unwrap_or(("", ""));
        let c = clock::CLOCK.get();
        if c.walls <= 64 {
            let e = Epoch::from_str(&format!("{d}T{} UTC", h.replace('-', ":"))).map(|e| e.to_unix_seconds() as i64);
            ensure_p!(e.is_ok_and(|e| c.wall[..c.walls].contains(&e)), "stamp", "exported as {path} but the clock never showed that date");
            ctx.hit("timestamped name");
        }
    } else {
        ensure_p!(path == format!("ref-{}.{}", a.name, a.ext), "stamp", "exported as {path}");
    }
    Ok(())
}

fn run_p07(v: &Value, ctx: &mut Ctx) -> Outcome {
    let t = build(v)?;
    let mut v2 = v.clone();
    v2["sc"]["ta"] = json!(i(&v["sc"], "ta") + 1);
    let other = if u(v, "what") == 3 { build(&v2)? } else { Traj::new() };
    let a = art(v, &t, &other);
    let path = io::write_case(ctx, v, &a)?;
    stamp_ok(&path, v, &a, ctx)?;
    let cfg = cfg_of(v, &t);
    let sel = selected(&t, &cfg)?;
    match u(v, "what") {
        0 => check_pq(&path, &sel, &Spacecraft::export_params(), a.name)?,
        1 => check_pq(&path, &sel, &cfg.fields.clone().unwrap_or_else(Spacecraft::export_params), a.name)?,
        2 => {
            let bf = t.to_frame(world::iau_earth(), &world::almanac()).map_err(|e| Fail { class: INVALID.into(), msg: format!("{e}") })?;
            let sel = selected(&bf, &ExportCfg { step: Some(1.minutes()), ..Default::default() })?;
            check_pq(&path, &sel, &[StateParameter::Element(OrbitalElement::Latitude), StateParameter::Element(OrbitalElement::Longitude), StateParameter::Element(OrbitalElement::Height)], a.name)?
        }
        3 => {
            let c = ExportCfg {
                start_epoch: Some(t.first().epoch().max(other.first().epoch())),
                end_epoch: Some(t.last().epoch().min(other.last().epoch())),
                step: Some(cfg.step.unwrap_or(1.minutes())),
                ..Default::default()
            };
            check_pq(&path, &selected(&t, &c)?, &[], a.name)?
        }
        _ => {}
    }
    ctx.hit(&format!("exported {}", a.name));
    ctx.sim_s += i(v, "dur_s") as f64;
    Ok(())
}
fn draw_traj(r: &mut Rng) -> Value {
    let mut sc = world::draw_sc(r);
    sc["thruster"] = json!(r.chance(0.4));
    let mut prop = world::draw_prop(r);
    prop["tol_e"] = json!(r.range(9, 11));
    let mut d = world::draw_dyn(r);
    d["points"] = json!(0);
    json!({"sc": sc, "dyn": d, "prop": prop, "dur_s": r.range(200, 20000), "what": r.below(5),
        "step_s": if r.chance(0.4) { *r.pick(&[1i64, 10, 60, 333]) } else { 0 },
        "start_pm": if r.chance(0.25) { json!(r.range(-200, 500)) } else { Value::Null },
        "end_pm": if r.chance(0.25) { json!(r.range(500, 1200)) } else { Value::Null },
        "fields": if r.chance(0.5) { r.range(1, 63) } else { 0 }, "meta": r.chance(0.3), "stamp": r.chance(0.3)})
}
pub static P07: Prop = Prop {
    id: "P07",
    make: |r, _, _| {
        let mut v = draw_traj(r);
        v["faults"] = io::draw_write_faults(r);
        v["old"] = json!(r.chance(0.3));
        v
    },
    run: run_p07,
    runs: (1100, 60000),
    rule: "one trajectory export (parquet, selected fields, ground track, RIC difference, OEM) without and then with drawn disk faults; non-trivial when a fault fired; distinct by scenario and interleaving hash",
    real: &["nyx trajectory exports and imports, arrow and parquet writers, anise OEM writer", "std file I/O above the system calls"],
    stub: &["write, open, fsync and clock system calls (faults injected)", "planetary constants and ephemerides (synthetic)"],
    must_hit: &["fault:open_error", "fault:write_error", "fault:write_error_sticky", "fault:disk_full", "fault:write_eintr", "fault:short_write", "fault:crash_torn_write", "torn file imported", "export over a longer file", "exported oem", "exported ric", "exported groundtrack"],
};

fn run_p08(v: &Value, ctx: &mut Ctx) -> Outcome {
    let t = build(v)?;
    let a = art(v, &t, &t);
    let mut quiet = v.clone();
    quiet["faults"] = json!([]);
    quiet["old"] = json!(false);
    let path = io::write_case(ctx, &quiet, &a)?;
    io::read_case(ctx, v, &a, &path)?;
    ctx.sim_s += i(v, "dur_s") as f64;
    Ok(())
}
pub static P08: Prop = Prop {
    id: "P08",
    make: |r, _, _| {
        let mut v = draw_traj(r);
        v["what"] = json!(*r.pick(&[0, 0, 4]));
        v["fields"] = json!(0);
        v["rfaults"] = io::draw_read_faults(r);
        v["cut"] = if r.chance(0.6) { json!(r.range(0, 999)) } else { Value::Null };
        v["zeros"] = json!(v["what"] == json!(0) && r.chance(0.3));
        if r.chance(0.03) {
            // Several pages of each column.
            v["what"] = json!(0);
            v["dur_s"] = json!(r.range(21_000, 23_000));
            v["step_s"] = json!(1);
            v["start_pm"] = Value::Null;
            v["end_pm"] = Value::Null;
            v["rfaults"] = json!([{"kind": if r.chance(0.8) { 21 } else { 20 + r.below(7) }, "pm": -1, "rpm": r.range(0, 1000), "errno": r.below(5), "max": 4096}]);
        }
        v
    },
    run: run_p08,
    runs: (900, 60000),
    rule: "one trajectory exported, then imported through drawn read faults and from a truncated or zero-filled copy; non-trivial when a fault fired; distinct by scenario and interleaving hash",
    real: P07.real,
    stub: P07.stub,
    must_hit: &["fault:open_error", "fault:read_error", "fault:read_eintr", "fault:short_read", "fault:truncated_file", "round trip", "failed import reported", "import through short or interrupted reads"],
};
