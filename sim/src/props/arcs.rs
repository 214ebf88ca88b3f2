//! Editing tracking arcs (P22).
use super::track::{self, STATIONS, TYPES};
use crate::ensure_p;
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{self, b, i, u};
use hifitime::{Duration, Epoch, TimeUnits};
use nyx_space::State;
use nyx_space::md::prelude::Traj;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::ops::Bound;

type Row = (Epoch, String, BTreeMap<usize, u64>, bool);
fn kind(t: &MeasurementType) -> usize {
    TYPES.iter().position(|x| x == t).unwrap_or(9)
}
fn rows(a: &TrackingDataArc) -> Vec<Row> {
    a.measurements.iter().map(|m| (m.epoch, m.tracker.clone(), m.data.iter().map(|(k, x)| (kind(k), x.to_bits())).collect(), m.rejected)).collect()
}
fn bound<T>(how: u64, x: T) -> Bound<T> {
    match how % 3 {
        0 => Bound::Included(x),
        1 => Bound::Excluded(x),
        _ => Bound::Unbounded,
    }
}
fn inside<T: PartialOrd>(lo: &Bound<T>, hi: &Bound<T>, x: &T) -> bool {
    (match lo {
        Bound::Included(a) => x >= a,
        Bound::Excluded(a) => x > a,
        Bound::Unbounded => true,
    }) && (match hi {
        Bound::Included(a) => x <= a,
        Bound::Excluded(a) => x < a,
        Bound::Unbounded => true,
    })
}
/// Rows in the order of time and tracker, later rows of the same epoch and tracker joined to the first.
fn joined(l: &[Row]) -> Vec<Row> {
    let mut m: BTreeMap<(Epoch, String), (BTreeMap<usize, u64>, bool)> = BTreeMap::new();
    for (e, t, d, r) in l {
        let x = m.entry((*e, t.clone())).or_default();
        x.0.extend(d.clone());
        x.1 |= *r;
    }
    m.into_iter().map(|((e, t), (d, r))| (e, t, d, r)).collect()
}
fn show(l: &[Row]) -> String {
    l.iter().take(4).map(|r| format!("{} {} {:?}{}", r.0, r.1, r.2.keys(), if r.3 { " rejected" } else { "" })).collect::<Vec<_>>().join("; ")
}
fn same(what: &str, got: &TrackingDataArc, want: &[Row]) -> Outcome {
    let g = rows(got);
    if g == *want {
        return Ok(());
    }
    let n = g.iter().zip(want).position(|(a, z)| a != z).unwrap_or(g.len().min(want.len()));
    ensure_p!(false, "arc-edit", "{what}: {} measurements instead of {}, first different at {n}: {} instead of {}", g.len(), want.len(), show(&g[n.min(g.len())..]), show(&want[n.min(want.len())..]));
    Ok(())
}

fn make_p22(r: &mut Rng, _: u64, t: Tier) -> Value {
    let mut msrs = track::draw_msrs(r, if t == Tier::Quick { 60 } else { 150 });
    let regular = r.chance(0.3);
    if let Some(l) = msrs.as_array_mut() {
        let step = *r.pick(&[1i64, 10]);
        for (k, m) in l.iter_mut().enumerate() {
            if regular {
                m["t"] = json!(k as i64 / 2 * step);
                m["ns"] = json!(0);
                m["trk"] = json!(k % 2);
            } else if r.chance(0.2) {
                // Simultaneous with another measurement.
                m["ns"] = json!(0);
                m["t"] = json!(m["t"].as_i64().unwrap_or(0) / 600 * 600);
            }
            m["scale"] = json!(0);
            m["rej"] = json!(r.chance(0.1));
        }
    }
    // Arcs as delivered: each holds some measurements, wholly or one observable of it, possibly again or with another value.
    let n = msrs.as_array().map(|l| l.len()).unwrap_or(0) as i64;
    let files: Vec<Value> = (0..r.range(1, 5)).map(|_| json!((0..r.range(0, 2 * n)).map(|_| json!({"m": r.below(n.max(1) as u64), "mask": if r.chance(0.5) { 15 } else { r.range(1, 15) }, "other": r.chance(0.15)})).collect::<Vec<_>>())).collect();
    let ops: Vec<Value> = (0..r.range(1, 10)).map(|_| json!({"op": r.below(13), "a": r.range(-100, 1100), "z": r.range(0, 1100), "lo": r.below(3), "hi": r.below(3), "trk": r.below(4), "ty": r.below(4), "step_s": *r.pick(&[1, 2, 5, 20, 60, 300, 3600]), "on": r.chance(0.6)})).collect();
    json!({"msrs": msrs, "files": files, "ops": ops, "shuffle": r.below(1 << 32), "moduli": (0..5).map(|_| if r.chance(0.3) { r.range(100, 5000) } else { 0 }).collect::<Vec<_>>(), "sc": world::draw_sc(r), "traj": r.range(2, 30)})
}
fn run_p22(v: &Value, ctx: &mut Ctx) -> Outcome {
    let all: Vec<Measurement> = v["msrs"].as_array().cloned().unwrap_or_default().iter().map(track::msr_of).collect();
    let mut rng = Rng::fork(u(v, "shuffle"), 1);
    let mut model: Vec<Row> = vec![];
    let mut arc = TrackingDataArc::default();
    let mut moduli: BTreeMap<usize, u64> = BTreeMap::new();
    for (n, f) in v["files"].as_array().cloned().unwrap_or_default().iter().enumerate() {
        let mut l: Vec<Measurement> = vec![];
        for d in f.as_array().cloned().unwrap_or_default() {
            let Some(m) = all.get(u(&d, "m") as usize) else { continue };
            let mut m = m.clone();
            m.data.retain(|k, _| u(&d, "mask") >> kind(k) & 1 == 1);
            if m.data.is_empty() {
                continue;
            }
            if b(&d, "other") {
                m.data.values_mut().for_each(|x| *x += 1.0 + l.len() as f64);
                ctx.hit("fault:conflicting value");
            }
            if l.iter().any(|o| o.epoch == m.epoch && o.tracker == m.tracker) {
                ctx.hit("fault:duplicate or partial");
            }
            if l.last().is_some_and(|o| o.epoch > m.epoch) {
                ctx.hit("fault:reordered");
            }
            l.push(m);
        }
        let mut a = TrackingDataArc { measurements: l, ..Default::default() };
        let before = rows(&a);
        model.extend(before.clone());
        if n % 2 == 0 {
            a.sort();
            same("sorted", &a, &joined(&before))?;
        }
        let w = v["moduli"][n].as_i64().unwrap_or(0);
        if w > 0 {
            a.set_moduli(TYPES[n % 4], w as f64);
            moduli.entry(n % 4).or_insert((w as f64).to_bits());
        }
        a.set_moduli(TYPES[(n + 1) % 4], if n % 2 == 0 { 0.0 } else { f64::NAN });
        if n == 0 {
            a.sort();
            arc = a;
        } else if n % 2 == 1 {
            arc += a;
        } else {
            arc = arc + a;
        }
        model = joined(&model);
        same("merged", &arc, &model)?;
    }
    let mod_of = |a: &TrackingDataArc| -> BTreeMap<usize, u64> { a.moduli.clone().unwrap_or_default().iter().map(|(k, x)| (kind(k), x.to_bits())).collect() };
    ensure_p!(mod_of(&arc) == moduli, "arc-moduli", "merging gives the moduli {:?} instead of {moduli:?}", arc.moduli);
    for (n, op) in v["ops"].as_array().cloned().unwrap_or_default().iter().enumerate() {
        let (first, span) = match (model.first(), model.last()) {
            (Some(a), Some(z)) => (a.0, z.0 - a.0),
            _ => (world::t0(), 1.hours()),
        };
        let epoch_at = |q: i64| {
            // Half of the bounds fall on a measurement.
            if b(op, "on") && !model.is_empty() { model[(q.unsigned_abs() as usize) % model.len()].0 } else { first + span * (q as f64 * 1e-3) }
        };
        let (a, z) = (epoch_at(i(op, "a")), epoch_at(i(op, "z")));
        let (lo, hi) = (bound(u(op, "lo"), a), bound(u(op, "hi"), z));
        let trk = STATIONS.get(u(op, "trk") as usize).copied().unwrap_or("Nowhere").to_string();
        let ty = u(op, "ty") as usize % 4;
        let what = format!("operation {n} ({})", u(op, "op"));
        let keep = arc.clone();
        match u(op, "op") {
            0 => {
                model.retain(|m| inside(&lo, &hi, &m.0));
                arc = arc.filter_by_epoch((lo, hi));
                ctx.hit("filter epoch");
            }
            1 => {
                model.retain(|m| !inside(&lo, &hi, &m.0));
                arc = arc.exclude_by_epoch((lo, hi));
                ctx.hit("exclude epoch");
            }
            2 => {
                model.iter_mut().for_each(|m| m.3 |= inside(&lo, &hi, &m.0));
                arc = arc.reject_by_epoch((lo, hi));
                ctx.hit("reject epoch");
            }
            3 => {
                let (dl, dh) = (bound(u(op, "lo"), a - first), bound(u(op, "hi"), z - first));
                model.retain(|m| inside(&dl, &dh, &(m.0 - first)));
                arc = arc.filter_by_offset((dl, dh));
                ctx.hit("filter offset");
            }
            4 => {
                model.retain(|m| m.1 == trk);
                arc = arc.filter_by_tracker(trk);
                ctx.hit("filter tracker");
            }
            5 => {
                model.retain(|m| m.1 != trk);
                arc = arc.exclude_tracker(trk);
                ctx.hit("exclude tracker");
            }
            6 => {
                model.iter_mut().for_each(|m| m.2.retain(|k, _| *k == ty));
                model.retain(|m| !m.2.is_empty());
                arc = arc.filter_by_measurement_type(TYPES[ty]);
                ctx.hit("filter type");
            }
            7 => {
                model.iter_mut().for_each(|m| m.2.retain(|k, _| *k != ty));
                model.retain(|m| !m.2.is_empty());
                arc = arc.exclude_measurement_type(TYPES[ty]);
                ctx.hit("exclude type");
            }
            8 => {
                model.iter_mut().for_each(|m| m.3 |= m.1 == trk);
                arc = arc.reject_by_tracker(&trk);
                ctx.hit("reject tracker");
            }
            9 => {
                let d = (i(op, "step_s") * 3).seconds();
                ensure_p!(arc.chunk(Duration::ZERO).is_empty() && arc.chunk(-d).is_empty(), "arc-chunk", "{what}: chunks without a duration");
                let mut parts = arc.chunk(d);
                for (k, p) in parts.iter().enumerate() {
                    ensure_p!(!p.is_empty() && p.duration().is_some_and(|x| x <= d), "arc-chunk", "{what}: chunk {k} of {:?}", p.duration());
                    ensure_p!(p.force_reject == arc.force_reject && mod_of(p) == mod_of(&arc) && p.source == arc.source, "arc-chunk", "{what}: chunk {k} lost the moduli or the rejection");
                    // As long as possible: the next measurement does not fit.
                    if let Some(q) = parts.get(k + 1) {
                        ensure_p!(q.start_epoch().unwrap() - p.start_epoch().unwrap() > d, "arc-chunk", "{what}: chunk {} could be a part of the one before", k + 1);
                    }
                }
                let flat: Vec<Row> = parts.iter().flat_map(rows).collect();
                ensure_p!(flat == model, "arc-chunk", "{what}: chunks hold {} of {} measurements", flat.len(), model.len());
                rng.shuffle(&mut parts);
                let force = arc.force_reject;
                let mut it = parts.into_iter();
                if let Some(mut x) = it.next() {
                    for y in it {
                        x += y;
                    }
                    x.force_reject = force;
                    arc = x;
                }
                ctx.hit("chunk and merge");
            }
            10 => {
                let step = i(op, "step_s").seconds();
                let mut want: Vec<(Epoch, String, BTreeMap<usize, f64>, bool)> = vec![];
                let mut trks: Vec<String> = model.iter().map(|m| m.1.clone()).collect();
                trks.sort();
                trks.dedup();
                for t in trks {
                    let l: Vec<&Row> = model.iter().filter(|m| m.1 == t).collect();
                    let cur = l.windows(2).map(|w| w[1].0 - w[0].0).min().unwrap_or(Duration::MAX);
                    if cur >= step {
                        want.extend(l.iter().map(|m| (m.0, t.clone(), m.2.iter().map(|(k, x)| (*k, f64::from_bits(*x))).collect(), m.3)));
                        continue;
                    }
                    let w = (step.to_seconds() / cur.to_seconds()).round().max(1.0) as usize;
                    for k in (0..l.len()).step_by(w) {
                        let win = &l[k.saturating_sub(w / 2)..(k + w / 2 + 1).min(l.len())];
                        let rej = win.iter().all(|m| m.3);
                        let mut d: BTreeMap<usize, (f64, f64)> = BTreeMap::new();
                        for m in win.iter().filter(|m| m.3 == rej) {
                            for (q, x) in &m.2 {
                                let e = d.entry(*q).or_default();
                                *e = (e.0 + f64::from_bits(*x), e.1 + 1.0);
                            }
                        }
                        want.push((l[k].0, t.clone(), d.into_iter().map(|(q, (s, c))| (q, s / c)).collect(), rej));
                    }
                }
                want.sort_by(|a, z| (a.0, &a.1).cmp(&(z.0, &z.1)));
                arc = arc.downsample(step);
                ensure_p!(arc.len() == want.len(), "arc-downsample", "{what}: {} measurements instead of {} for a step of {step}", arc.len(), want.len());
                for (g, w) in arc.measurements.iter().zip(&want) {
                    let gd: BTreeMap<usize, f64> = g.data.iter().map(|(k, x)| (kind(k), *x)).collect();
                    let near = gd.len() == w.2.len() && gd.iter().all(|(k, x)| w.2.get(k).is_some_and(|y| (x - y).abs() <= 1e-9 * (1.0 + y.abs())));
                    ensure_p!(g.epoch == w.0 && g.tracker == w.1 && g.rejected == w.3 && near, "arc-downsample", "{what}: {} {} {gd:?} (rejected {}) instead of {} {} {:?} (rejected {}) for a step of {step}", g.epoch, g.tracker, g.rejected, w.0, w.1, w.2, w.3);
                }
                if want.len() < model.len() {
                    ctx.hit("downsample");
                }
                model = rows(&arc);
            }
            11 => {
                for m in model.iter_mut() {
                    for (k, x) in m.2.iter_mut() {
                        if let Some(w) = moduli.get(k) {
                            *x = (f64::from_bits(*x) % f64::from_bits(*w)).to_bits();
                        }
                    }
                }
                arc.apply_moduli();
                ctx.hit("apply moduli");
            }
            _ => {
                arc = arc.resid_vs_ref_check();
                ensure_p!(arc.force_reject, "arc-force", "{what}: not rejected");
            }
        }
        same(&what, &arc, &model)?;
        ensure_p!(mod_of(&arc) == moduli || model.is_empty(), "arc-moduli", "{what} gives the moduli {:?} instead of {moduli:?}", arc.moduli);
        ensure_p!(arc.force_reject == (keep.force_reject || u(op, "op") > 11), "arc-force", "{what} changed the rejection of the whole arc");
        // What the arc tells of itself.
        ensure_p!(arc.len() == model.len() && arc.is_empty() == model.is_empty() && arc.start_epoch() == model.first().map(|m| m.0) && arc.end_epoch() == model.last().map(|m| m.0), "arc-view", "{what}: {} measurements from {:?} to {:?}", arc.len(), arc.start_epoch(), arc.end_epoch());
        if model.len() > 1 {
            let w = model.windows(2).map(|w| w[1].0 - w[0].0).min();
            ensure_p!(arc.min_duration_sep() == w, "arc-view", "{what}: {:?} between measurements instead of {w:?}", arc.min_duration_sep());
        }
        let trks: std::collections::BTreeSet<String> = model.iter().map(|m| m.1.clone()).collect();
        let tys: std::collections::BTreeSet<usize> = model.iter().flat_map(|m| m.2.keys().copied()).collect();
        ensure_p!(arc.unique_aliases().into_iter().collect::<std::collections::BTreeSet<_>>() == trks && arc.unique_types().iter().map(kind).collect::<std::collections::BTreeSet<_>>() == tys, "arc-view", "{what}: trackers {:?} and types {:?}", arc.unique_aliases(), arc.unique_types());
        // Equality looks at all of the measurements, in both directions.
        let equal = rows(&keep).iter().map(|m| (m.0, m.1.clone(), m.2.clone())).eq(rows(&arc).iter().map(|m| (m.0, m.1.clone(), m.2.clone())));
        ensure_p!(!equal || (keep == arc && arc == keep), "arc-equality", "{what}: equal arcs differ");
        let differs = keep.len() != arc.len() || keep.measurements.iter().zip(&arc.measurements).any(|(a, z)| a.epoch != z.epoch || a.tracker != z.tracker || a.data.len() != z.data.len());
        ensure_p!(!differs || !(keep == arc || arc == keep), "arc-equality", "{what}: different arcs are equal");
        ctx.dig(arc.len() as u64);
        for m in rows(&arc) {
            m.2.values().for_each(|x| ctx.dig(*x));
        }
        if !model.is_empty() {
            ctx.nontrivial = true;
        }
    }
    // The same windows of a trajectory.
    let sc = world::spacecraft(&v["sc"]);
    let mut traj = Traj::<nyx_space::Spacecraft>::new();
    for k in 0..i(v, "traj").clamp(2, 200) {
        let mut s = sc;
        s.orbit.epoch = sc.epoch() + (k * 60).seconds();
        traj.states.push(s);
    }
    for op in v["ops"].as_array().cloned().unwrap_or_default() {
        let (a, z) = ((i(&op, "a") / 60 * if b(&op, "on") { 60 } else { 59 }).seconds(), (i(&op, "z") / 60 * if b(&op, "on") { 60 } else { 59 }).seconds());
        let (lo, hi) = (bound(u(&op, "lo"), a), bound(u(&op, "hi"), z));
        let want: Vec<Epoch> = traj.states.iter().map(|s| s.epoch()).filter(|e| inside(&lo, &hi, &(*e - sc.epoch()))).collect();
        let got: Vec<Epoch> = traj.clone().filter_by_offset((lo, hi)).states.iter().map(|s| s.epoch()).collect();
        ensure_p!(got == want, "arc-traj", "a trajectory window ({lo:?}, {hi:?}) holds {} states instead of {}", got.len(), want.len());
    }
    Ok(())
}
pub static P22: Prop = Prop {
    id: "P22",
    make: make_p22,
    run: run_p22,
    runs: (6000, 300_000),
    rule: "one set of measurements delivered in pieces with duplicates, conflicts and reordering, merged and edited by a drawn history of operations, compared with a list of rows after each",
    real: &["nyx tracking arcs and measurements, trajectory windows"],
    stub: &["scheduler"],
    must_hit: &["fault:duplicate or partial", "fault:reordered", "fault:conflicting value", "filter offset", "filter epoch", "exclude epoch", "reject epoch", "exclude type", "filter type", "filter tracker", "exclude tracker", "reject tracker", "chunk and merge", "downsample", "apply moduli"],
};
