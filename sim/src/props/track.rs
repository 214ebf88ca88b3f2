//! Tracking data files: P09 (exports), P10 (imports).
use crate::ensure_p;
use crate::io::{self, Art, Torn, bits};
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, i, u};
use hifitime::{Epoch, TimeScale, TimeUnits, Unit};
use indexmap::IndexMap;
use nyx_space::io::ExportCfg;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use serde_json::{Value, json};
use std::collections::HashMap;

pub const TYPES: [MeasurementType; 4] = [MeasurementType::Range, MeasurementType::Doppler, MeasurementType::Azimuth, MeasurementType::Elevation];
pub const STATIONS: [&str; 3] = ["Madrid", "Canberra 2", "Goldstone"];

/// A list of measurements in time order, one per (epoch, tracker).
pub fn draw_msrs(r: &mut Rng, max: i64) -> Value {
    let n = r.range(1, max);
    let mut t = r.range(0, 100_000);
    let uniform = r.chance(0.5);
    let all = r.range(1, 15);
    json!(
        (0..n)
            .map(|_| {
                t += *r.pick(&[1i64, 10, 60, 60, 60, 600]);
                json!({"t": t, "ns": if r.chance(0.1) { r.range(0, 999_999) * 1000 } else { 0 }, "trk": r.below(3), "mask": if uniform { all } else { r.range(1, 15) }, "val": r.below(1 << 40), "scale": r.below(3)})
            })
            .collect::<Vec<_>>()
    )
}
fn value(m: &Value, k: usize) -> f64 {
    let x = (u(m, "val").wrapping_mul(2 * k as u64 + 3) & ((1 << 40) - 1)) as f64 / (1u64 << 40) as f64;
    let x = match k {
        0 => 200.0 + x * 4e4,
        1 => (x - 0.5) * 16.0,
        2 => x * 360.0,
        _ => x * 90.0,
    };
    // Eight decimals, which a text format can hold exactly.
    if b(m, "short") { (x * 256.0).round() / 256.0 } else { x }
}
pub fn msr_of(m: &Value) -> Measurement {
    let e = world::t0() + i(m, "t").seconds() + Unit::Nanosecond * i(m, "ns");
    let e = match u(m, "scale") {
        1 => e.to_time_scale(TimeScale::TAI),
        2 => e.to_time_scale(TimeScale::GPST),
        _ => e.to_time_scale(TimeScale::UTC),
    };
    let mut data = IndexMap::new();
    for (k, ty) in TYPES.iter().enumerate() {
        if u(m, "mask") >> k & 1 == 1 {
            data.insert(*ty, value(m, k));
        }
    }
    Measurement { tracker: STATIONS[u(m, "trk") as usize % 3].into(), epoch: e, data, rejected: b(m, "rej") }
}
pub fn arc_of(v: &Value) -> TrackingDataArc {
    let mut a = TrackingDataArc { measurements: v.as_array().cloned().unwrap_or_default().iter().filter(|m| u(m, "mask") > 0).map(msr_of).collect(), ..Default::default() };
    a.sort();
    a
}
/// One line per observation, in arc order.
pub fn lines(ms: &[Measurement]) -> Vec<String> {
    let mut out = vec![];
    for m in ms {
        let (c, n) = m.epoch.to_tai_duration().to_parts();
        let mut d: Vec<_> = m.data.iter().map(|(k, x)| format!("{k:?}={}", bits(*x))).collect();
        d.sort();
        for x in d {
            out.push(format!("{c} {} {} {x}", n / 1000, m.tracker));
        }
    }
    out
}
fn cfg_of(v: &Value, a: &TrackingDataArc) -> ExportCfg {
    let n = a.measurements.len();
    let at = |pm: i64| a.measurements[((n - 1) as f64 * pm as f64 / 1000.0) as usize].epoch;
    let mut c = ExportCfg { timestamp: b(v, "stamp"), ..Default::default() };
    if v["start_pm"].is_i64() {
        c.start_epoch = Some(at(i(v, "start_pm")));
    }
    if v["end_pm"].is_i64() {
        c.end_epoch = Some(at(i(v, "end_pm")) + 500.milliseconds());
    }
    c
}
/// The measurements that an export keeps: from the start to the end. An explicit end falls between
/// measurements here: whether an end on a measurement keeps it is not specified.
fn selected(a: &TrackingDataArc, c: &ExportCfg) -> Vec<Measurement> {
    a.measurements.iter().filter(|m| c.start_epoch.is_none_or(|s| m.epoch >= s) && c.end_epoch.is_none_or(|e| m.epoch <= e)).cloned().collect()
}
fn art<'a>(v: &'a Value, arc: &'a TrackingDataArc) -> Art<'a> {
    let s = |e: &dyn std::fmt::Display| format!("{e}");
    let cfg = cfg_of(v, arc);
    let sel = selected(arc, &cfg);
    let aliases: Option<HashMap<String, String>> = b(v, "alias").then(|| [("Madrid".to_string(), "DSS 65".to_string())].into());
    let back: Option<HashMap<String, String>> = aliases.as_ref().map(|_| [("DSS 65".to_string(), "Madrid".to_string())].into());
    match u(v, "what") {
        0 => Art {
            name: "arc",
            ext: "parquet",
            write: Box::new(move |p| arc.to_parquet(p, cfg_of(v, arc)).map(|x| x.to_string_lossy().into_owned()).map_err(|e| s(&e))),
            load: Some(Box::new(move |p| TrackingDataArc::from_parquet(p).map(|a| lines(&a.measurements)).map_err(|e| s(&e)))),
            want: Some(lines(&sel)),
            torn: Torn::Rejects,
        },
        _ => Art {
            name: "tdm",
            ext: "tdm",
            write: Box::new(move |p| arc.clone().to_tdm_file("craft".into(), aliases.clone(), p, cfg_of(v, arc)).map(|x| x.to_string_lossy().into_owned()).map_err(|e| s(&e))),
            load: Some(Box::new(move |p| TrackingDataArc::from_tdm(p, back.clone()).map(|a| lines(&a.measurements)).map_err(|e| s(&e)))),
            want: Some(lines(&sel)),
            torn: Torn::Part,
        },
    }
}
fn draw(r: &mut Rng) -> Value {
    let what = r.below(2);
    let mut msrs = draw_msrs(r, 60);
    for m in msrs.as_array_mut().unwrap() {
        m["short"] = json!(what == 1);
    }
    json!({"msrs": msrs, "what": what, "stamp": r.chance(0.2), "alias": r.chance(0.3),
        "start_pm": if r.chance(0.25) { json!(r.range(0, 600)) } else { Value::Null },
        "end_pm": if r.chance(0.25) { json!(r.range(600, 1000)) } else { Value::Null }})
}
fn check_input(arc: &TrackingDataArc) -> Outcome {
    if arc.measurements.is_empty() {
        return fail(INVALID, "no measurement");
    }
    Ok(())
}
fn run_p09(v: &Value, ctx: &mut Ctx) -> Outcome {
    let arc = arc_of(&v["msrs"]);
    check_input(&arc)?;
    let before = lines(&arc.measurements);
    let a = art(v, &arc);
    let path = io::write_case(ctx, v, &a)?;
    ensure_p!(lines(&arc.measurements) == before, "arc-changed", "exporting changed the arc");
    if u(v, "what") == 0 {
        let sel = selected(&arc, &cfg_of(v, &arc));
        let bad = |e: String| Fail { class: "content:arc".into(), msg: e };
        let ep = io::pq_col(&path, "Epoch (UTC)").map_err(bad)?;
        let tr = io::pq_col(&path, "Tracking device").map_err(bad)?;
        ensure_p!(ep.len() == sel.len(), "content:arc", "{} rows for {} measurements", ep.len(), sel.len());
        for (k, m) in sel.iter().enumerate() {
            let e = ep[k].clone().and_then(|e| Epoch::from_gregorian_str(&e).ok());
            ensure_p!(e.is_some_and(|e| (e - m.epoch).abs() < Unit::Microsecond * 1) && tr[k].as_ref() == Some(&m.tracker), "content:arc", "row {k} is {:?} {:?} instead of {} {}", ep[k], tr[k], m.epoch, m.tracker);
        }
        for ty in TYPES {
            if sel.iter().any(|m| m.data.contains_key(&ty)) {
                let col = io::pq_col(&path, &format!("{ty:?} ({})", ty.unit())).map_err(bad)?;
                for (k, m) in sel.iter().enumerate() {
                    let w = m.data.get(&ty).map(|x| bits(*x));
                    ensure_p!(col[k] == w, "content:arc", "row {k} of {ty:?} is {:?} instead of {w:?}", col[k]);
                }
            }
        }
    }
    ctx.hit(&format!("exported {}", a.name));
    ctx.sim_s += arc.duration().unwrap_or_default().to_seconds();
    Ok(())
}
fn run_p10(v: &Value, ctx: &mut Ctx) -> Outcome {
    let arc = arc_of(&v["msrs"]);
    check_input(&arc)?;
    let a = art(v, &arc);
    let mut quiet = v.clone();
    quiet["faults"] = json!([]);
    let path = io::write_case(ctx, &quiet, &a)?;
    io::read_case(ctx, v, &a, &path)?;
    ctx.sim_s += arc.duration().unwrap_or_default().to_seconds();
    Ok(())
}
pub static P09: Prop = Prop {
    id: "P09",
    make: |r, _, _| {
        let mut v = draw(r);
        v["faults"] = io::draw_write_faults(r);
        v["old"] = json!(r.chance(0.3));
        v
    },
    run: run_p09,
    runs: (20000, 600000),
    rule: "one tracking arc (mixed trackers, observables and time scales) exported to parquet or CCSDS TDM without and then with drawn disk faults; non-trivial when a fault fired; distinct by scenario and interleaving hash",
    real: &["nyx tracking data arcs, parquet and TDM readers and writers", "arrow, parquet, std file I/O above the system calls"],
    stub: &["write, open, read and clock system calls (faults injected)"],
    must_hit: &["fault:open_error", "fault:write_error", "fault:write_error_sticky", "fault:disk_full", "fault:write_eintr", "fault:short_write", "fault:crash_torn_write", "torn file imported", "exported arc", "exported tdm", "round trip"],
};
pub static P10: Prop = Prop {
    id: "P10",
    make: |r, _, _| {
        let mut v = draw(r);
        v["rfaults"] = io::draw_read_faults(r);
        v["cut"] = if r.chance(0.6) { json!(r.range(0, 999)) } else { Value::Null };
        v["zeros"] = json!(v["what"] == json!(0) && r.chance(0.3));
        v
    },
    run: run_p10,
    runs: (20000, 600000),
    rule: "one tracking arc exported, then imported through drawn read faults and from a truncated or zero-filled copy; non-trivial when a fault fired; distinct by scenario and interleaving hash",
    real: P09.real,
    stub: P09.stub,
    must_hit: &["fault:open_error", "fault:read_error", "fault:read_eintr", "fault:short_read", "fault:truncated_file", "round trip", "failed import reported", "import through short or interrupted reads"],
};
