//! Tracking data files of other producers (P25).
use super::track::lines;
use crate::ensure_p;
use crate::io::{self, Art, Torn};
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, f, i, u};
use hifitime::efmt::{Format, Formatter};
use hifitime::{Epoch, TimeScale, TimeUnits};
use nyx_space::od::msr::{MeasurementType, TrackingDataArc};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::str::FromStr;

const TRACKERS: [&str; 4] = ["DSS-14", "DSS-34", "DSS-65", "KIRUNA"];
const SCALES: [(&str, TimeScale); 4] = [("UTC", TimeScale::UTC), ("TAI", TimeScale::TAI), ("GPS", TimeScale::GPST), ("TT", TimeScale::TT)];
const RATIOS: [(i32, i32); 3] = [(240, 221), (880, 749), (1, 1)];
const C_KM_S: f64 = 299_792.458;

fn draw(r: &mut Rng) -> Value {
    let n = r.range(1, 6);
    let segs: Vec<Value> = (0..n)
        .map(|_| {
            json!({
                "trk": r.below(4), "ts": r.below(4), "two_way": r.chance(0.5), "kind": r.below(4), "t": r.range(0, 40) * 60, "step_s": *r.pick(&[1, 10, 60]),
                "n": r.range(1, 12), "val": r.below(1 << 40), "ratio": r.below(3), "rate": r.range(-5, 5), "corr": r.below(4), "corr_m": r.range(-4000, 4000),
                "inst": r.chance(0.5), "comment": r.chance(0.3), "ramp": r.chance(0.4),
            })
        })
        .collect();
    json!({
        "segs": segs, "alias": r.chance(0.4), "modulus": if r.chance(0.3) { json!(r.range(1, 100_000)) } else { Value::Null }, "again": if r.chance(0.25) { json!(r.below(6)) } else { Value::Null },
        "swap": if r.chance(0.4) { json!([r.below(6), r.below(6)]) } else { Value::Null }, "junk": if r.chance(0.2) { json!(r.range(1, 5)) } else { Value::Null }, "tabs": r.chance(0.3),
        "rfaults": io::draw_read_faults(r), "cut": if r.chance(0.5) { json!(r.range(0, 999)) } else { Value::Null },
    })
}
/// The text of a segment, and what its records mean: (epoch, observable, value).
fn segment(v: &Value, s: &Value) -> (String, Vec<(Epoch, MeasurementType, f64)>) {
    use MeasurementType::*;
    let mut o = String::new();
    let (ts_name, ts) = SCALES[u(s, "ts") as usize % 4];
    let freq = u(s, "kind") % 4 == 3;
    let two_way = b(s, "two_way") || freq;
    let ind = if b(v, "tabs") { "\t" } else { "" };
    let fmt = Format::from_str("%Y-%m-%dT%H:%M:%S.%f").unwrap();
    let at = |k: i64| world::t0() + (i(s, "t") + k * i(s, "step_s").max(1)).seconds();
    let show = |e: Epoch| format!("{}", Formatter::new(e.to_time_scale(ts), fmt));
    let num = |k: i64, j: u64| (u(s, "val").wrapping_mul(2 * j + 3).wrapping_add((k as u64).wrapping_mul(0x9e37_79b9_7f4a)) & ((1 << 40) - 1)) as f64 / (1u64 << 40) as f64;
    let mut w = |t: &str| writeln!(o, "{ind}{t}").unwrap();
    w("META_START");
    if b(s, "comment") {
        w("COMMENT made = by hand");
    }
    w(&format!("TIME_SYSTEM = {ts_name}"));
    w(&format!("START_TIME = {}", show(at(0))));
    w(&format!("PARTICIPANT_1 = {}", TRACKERS[u(s, "trk") as usize % 4]));
    w("PARTICIPANT_2 = craft");
    w("MODE = SEQUENTIAL");
    w(if two_way { "PATH = 1,2,1" } else { "PATH = 1,2" });
    let (num_r, den_r) = RATIOS[u(s, "ratio") as usize % 3];
    if freq {
        w(&format!("TURNAROUND_NUMERATOR = {num_r}"));
        w(&format!("TURNAROUND_DENOMINATOR = {den_r}"));
    }
    // Corrections are in the units of the observable: only given where these are those of nyx.
    let corr = if two_way { 0 } else { u(s, "corr") % 4 };
    let c = f(s, "corr_m") / 1024.0;
    if corr >= 1 {
        w(&format!("CORRECTIONS_APPLIED = {}", if corr == 1 { "YES" } else { "NO" }));
        w(&format!("CORRECTION_RANGE = {c}"));
        if corr == 3 {
            w(&format!("CORRECTION_ANGLE_1 = {}", -c));
        }
    }
    if let Some(m) = v["modulus"].as_i64() {
        w("RANGE_UNITS = km");
        w(&format!("RANGE_MODULUS = {m}"));
    }
    w("META_STOP");
    w("");
    w("DATA_START");
    let half = if two_way { 0.5 } else { 1.0 };
    let mut out = vec![];
    let mut tx = (at(0), 2.1e9 + (num(0, 7) * 1e6).round(), f(s, "rate"));
    for k in 0..i(s, "n").max(1) {
        let e = at(k);
        let t = show(e);
        let rec = |x: f64| (x * 1024.0).round() / 1024.0;
        match u(s, "kind") % 4 {
            0 | 1 => {
                let (range, dop) = (rec(200.0 + 4e4 * num(k, 0)), rec(16.0 * (num(k, 1) - 0.5)));
                w(&format!("RANGE = {t} {range}"));
                out.push((e, Range, range * half + if corr >= 2 { c } else { 0.0 }));
                if u(s, "kind") % 4 == 1 {
                    w(&format!("{} = {t}   {dop}", if b(s, "inst") { "DOPPLER_INSTANTANEOUS" } else { "DOPPLER_INTEGRATED" }));
                    out.push((e, Doppler, dop * half));
                }
            }
            2 => {
                let (az, el) = (rec(360.0 * num(k, 2)), rec(90.0 * num(k, 3)));
                w(&format!("ANGLE_1 = {t} {az}"));
                w(&format!("ANGLE_2 = {t} {el}"));
                out.push((e, Azimuth, az - if corr == 3 { c } else { 0.0 }));
                out.push((e, Elevation, el));
            }
            _ => {
                let now = tx.1 + tx.2 * (e - tx.0).to_seconds();
                if k == 0 {
                    w(&format!("TRANSMIT_FREQ = {t} {:.6}", tx.1));
                    w(&format!("TRANSMIT_FREQ_RATE = {t} {:.6}", tx.2));
                } else if b(s, "ramp") && k % 3 == 0 {
                    // The ramp bends here.
                    tx = (e, now, -tx.2 + 1.0);
                    w(&format!("TRANSMIT_FREQ_RATE = {t} {:.6}", tx.2));
                } else if b(s, "inst") && k % 4 == 1 {
                    // A new frequency, on the ramp or off it.
                    tx = (e, now + if b(s, "ramp") { 50.0 } else { 0.0 }, tx.2);
                    w(&format!("TRANSMIT_FREQ = {t} {:.6}", tx.1));
                }
                let now = tx.1 + tx.2 * (e - tx.0).to_seconds();
                let ratio = num_r as f64 / den_r as f64;
                let rho = rec(16.0 * (num(k, 4) - 0.5));
                w(&format!("RECEIVE_FREQ = {t} {:.6}", now * ratio * (1.0 - 2.0 * rho / C_KM_S)));
                out.push((e, Doppler, rho));
            }
        }
    }
    w("DATA_STOP");
    w("");
    (o, out)
}
fn run(v: &Value, ctx: &mut Ctx) -> Outcome {
    let mut segs = v["segs"].as_array().cloned().unwrap_or_default();
    if segs.is_empty() {
        return fail(INVALID, "no segment");
    }
    let n = segs.len();
    if let Some(k) = v["again"].as_u64() {
        let s = segs[k as usize % n].clone();
        segs.push(s);
        ctx.hit("fault:segment delivered twice");
    }
    if v["swap"].is_array() {
        segs.swap(v["swap"][0].as_u64().unwrap_or(0) as usize % n, v["swap"][1].as_u64().unwrap_or(0) as usize % n);
    }
    let alias: Option<HashMap<String, String>> = b(v, "alias").then(|| [("DSS-34".to_string(), "Canberra".to_string()), ("KIRUNA".to_string(), "Kiruna".to_string())].into());
    let name = |s: &Value| {
        let t = TRACKERS[u(s, "trk") as usize % 4].to_string();
        alias.as_ref().and_then(|a| a.get(&t).cloned()).unwrap_or(t)
    };
    let mut text = String::from("CCSDS_TDM_VERS = 2.0\nCREATION_DATE = 2024-02-29T00:00:00\nORIGINATOR = elsewhere\n\n");
    let mut want: BTreeMap<(Epoch, String), BTreeMap<String, f64>> = BTreeMap::new();
    for (k, s) in segs.iter().enumerate() {
        let (t, recs) = segment(v, s);
        // Two segments which contradict each other are not specified.
        let clash = recs.iter().any(|(e, ty, x)| want.get(&(*e, name(s))).and_then(|m| m.get(&format!("{ty:?}"))).is_some_and(|y| (x - y).abs() > 1e-12));
        if clash {
            continue;
        }
        if k > 0 {
            ctx.hit("several segments");
        }
        if u(s, "kind") % 4 == 3 {
            ctx.hit("frequencies");
        }
        if u(s, "kind") % 4 == 2 && b(s, "two_way") {
            ctx.hit("two-way angles");
        }
        if u(s, "kind") % 4 != 3 && !b(s, "two_way") && u(s, "corr") % 4 >= 2 {
            ctx.hit("corrections");
        }
        text.push_str(&t);
        for (e, ty, x) in recs {
            want.entry((e, name(s))).or_default().insert(format!("{ty:?}"), x);
        }
    }
    let junk = match u(v, "junk") {
        1 => Some(text.replacen("PATH = 1,2", "PATH = 1,2,3,4", 1)),
        2 => Some(text.replacen("TIME_SYSTEM = ", "TIME_SYSTEM = MARS-", 1)),
        3 => Some(text.replacen("DATA_STOP", "PLASMA_DELAY = 2024-02-29T00:00:00 1.0\nDATA_STOP", 1)),
        4 => Some(text.replacen("DATA_STOP", "RANGE = 2024-02-29T00:00:00 1.0x\nDATA_STOP", 1)),
        5 => Some(text.replacen("DATA_STOP", "RANGE = 2024-02-31T00:00:00 1.0\nDATA_STOP", 1)),
        _ => None,
    };
    if let Some(bad) = junk {
        std::fs::write("junk.tdm", bad).expect("scratch file");
        let r = no_panic(|| TrackingDataArc::from_tdm("junk.tdm", alias.clone()));
        match r {
            Ok(Err(_)) => ctx.hit("fault:unsupported record"),
            Ok(Ok(_)) => return fail("tdm-junk", format!("a file with an unsupported record (kind {}) was imported", u(v, "junk"))),
            Err(p) => return fail("panic:tdm", format!("{p} importing an unsupported record")),
        }
    }
    std::fs::write("in.tdm", &text).expect("scratch file");
    let arc = match no_panic(|| TrackingDataArc::from_tdm("in.tdm", alias.clone())) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return fail("tdm-error", format!("{e}")),
        Err(p) => return fail("panic:tdm", p),
    };
    let want: Vec<_> = want.into_iter().collect();
    ensure_p!(arc.measurements.len() == want.len(), "tdm-records", "{} measurements instead of {}", arc.measurements.len(), want.len());
    for (m, ((e, trk), data)) in arc.measurements.iter().zip(&want) {
        ensure_p!((m.epoch - *e).abs() < 1.microseconds() && m.tracker == *trk, "tdm-tag", "{} {} instead of {e} {trk}", m.epoch, m.tracker);
        let got: BTreeMap<String, f64> = m.data.iter().map(|(k, x)| (format!("{k:?}"), *x)).collect();
        ensure_p!(got.keys().eq(data.keys()), "tdm-types", "{e} {trk}: {:?} instead of {:?}", got.keys(), data.keys());
        for (k, x) in data {
            ensure_p!((got[k] - x).abs() < 1e-8, "tdm-value", "{e} {trk}: {k} is {} instead of {x}", got[k]);
        }
        ensure_p!(!m.rejected, "tdm-value", "{e} {trk} is rejected");
    }
    let md = arc.moduli.as_ref().and_then(|m| m.get(&MeasurementType::Range).copied());
    ensure_p!(md == v["modulus"].as_i64().map(|x| x as f64), "tdm-modulus", "the range modulus is {md:?} instead of {:?}", v["modulus"]);
    let al = alias.clone();
    let a = Art {
        name: "tdm",
        ext: "tdm",
        write: Box::new(|p| Ok(p.to_string())),
        load: Some(Box::new(move |p| TrackingDataArc::from_tdm(p, al.clone()).map(|a| lines(&a.measurements)).map_err(|e| format!("{e}")))),
        want: None,
        torn: Torn::Part,
    };
    io::read_case(ctx, v, &a, "in.tdm")?;
    ctx.sim_s += arc.duration().unwrap_or_default().to_seconds();
    Ok(())
}
pub static P25: Prop = Prop {
    id: "P25",
    make: |r, _, _| draw(r),
    run,
    runs: (20_000, 600_000),
    rule: "one CCSDS TDM of another producer with several segments (stations, time systems, one and two way, frequencies, corrections), in drawn order and with segments delivered twice, imported without and with read faults and truncation, compared with the meaning of each record in its own segment",
    real: &["nyx CCSDS TDM reader and tracking data arcs", "std file I/O above the system calls"],
    stub: &["open, read and clock system calls (faults injected)", "the producer of the file"],
    must_hit: &["several segments", "frequencies", "two-way angles", "corrections", "fault:segment delivered twice", "fault:unsupported record", "fault:open_error", "fault:read_error", "fault:read_eintr", "fault:short_read", "fault:truncated_file", "failed import reported"],
};
