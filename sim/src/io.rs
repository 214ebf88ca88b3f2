//! Exports and imports under disk faults: the part that does not depend on what is exported.
use crate::ensure_p;
use crate::rt::disk::{self, Fault};
use crate::rt::rng::Rng;
use crate::run::*;
use crate::world::{b, i, u};
use arrow::array::{Array, RecordBatchReader, Float64Array, StringArray, UInt32Array};
use arrow::datatypes::DataType;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// How an importer treats a file that stops early.
#[derive(Clone, Copy, PartialEq)]
pub enum Torn {
    /// It must refuse it.
    Rejects,
    /// A text format without an end mark: it may load a prefix of the records.
    Prefix,
    /// It may load part of the records but never an altered one.
    Part,
    /// There is no importer.
    NoImport,
}

pub type Wr<'a> = Box<dyn Fn(&str) -> Result<String, String> + 'a>;
pub type Rd<'a> = Box<dyn Fn(&str) -> Result<Vec<String>, String> + 'a>;

pub struct Art<'a> {
    pub name: &'static str,
    pub ext: &'static str,
    /// Exports to this path and returns the path of the file written.
    pub write: Wr<'a>,
    /// Imports with nyx: one line per record.
    pub load: Option<Rd<'a>>,
    /// What the import must give (when it is exact).
    pub want: Option<Vec<String>>,
    pub torn: Torn,
}

pub fn bits(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}

/// Reads a parquet file independently of nyx: one line per schema field and per row.
pub fn pq_dump(path: &str) -> Result<Vec<String>, String> {
    let f = std::fs::File::open(path).map_err(|e| format!("{e}"))?;
    let bld = ParquetRecordBatchReaderBuilder::try_new(f).map_err(|e| format!("{e}"))?;
    let mut out = vec![];
    if let Some(kv) = bld.metadata().file_metadata().key_value_metadata() {
        let mut m: Vec<String> = kv
            .iter()
            .filter(|x| !x.key.starts_with("ARROW") && !x.key.starts_with("Created on"))
            .map(|x| format!("meta {} = {}", x.key, x.value.clone().unwrap_or_default()))
            .collect();
        m.sort();
        out.extend(m);
    }
    let rd = bld.build().map_err(|e| format!("{e}"))?;
    for f in rd.schema().fields() {
        let mut m: Vec<String> = f.metadata().iter().map(|(k, v)| format!("{k}={v}")).collect();
        m.sort();
        out.push(format!("field {} {} {}", f.name(), f.data_type(), m.join(" ")));
    }
    for batch in rd {
        let batch = batch.map_err(|e| format!("{e}"))?;
        for r in 0..batch.num_rows() {
            let mut row = vec![];
            for c in batch.columns() {
                row.push(if c.is_null(r) {
                    "null".to_string()
                } else {
                    match c.data_type() {
                        DataType::Float64 => bits(c.as_any().downcast_ref::<Float64Array>().unwrap().value(r)),
                        DataType::Utf8 => c.as_any().downcast_ref::<StringArray>().unwrap().value(r).to_string(),
                        DataType::UInt32 => c.as_any().downcast_ref::<UInt32Array>().unwrap().value(r).to_string(),
                        o => arrow::util::display::array_value_to_string(c, r).map(|s| format!("{o}:{s}")).map_err(|e| format!("{e}"))?,
                    }
                });
            }
            out.push(format!("row {}", row.join(" ")));
        }
    }
    Ok(out)
}
/// The columns of a parquet file.
pub fn pq_names(path: &str) -> Result<Vec<String>, String> {
    let f = std::fs::File::open(path).map_err(|e| format!("{e}"))?;
    let bld = ParquetRecordBatchReaderBuilder::try_new(f).map_err(|e| format!("{e}"))?;
    Ok(bld.schema().fields().iter().map(|f| f.name().clone()).collect())
}
/// One column of a parquet file: None for a null.
pub fn pq_col(path: &str, name: &str) -> Result<Vec<Option<String>>, String> {
    let f = std::fs::File::open(path).map_err(|e| format!("{e}"))?;
    let rd = ParquetRecordBatchReaderBuilder::try_new(f).map_err(|e| format!("{e}"))?.build().map_err(|e| format!("{e}"))?;
    let mut out = vec![];
    for batch in rd {
        let batch = batch.map_err(|e| format!("{e}"))?;
        let c = batch.column_by_name(name).ok_or(format!("no column `{name}`"))?;
        for r in 0..batch.num_rows() {
            out.push(if c.is_null(r) {
                None
            } else {
                Some(match c.data_type() {
                    DataType::Float64 => bits(c.as_any().downcast_ref::<Float64Array>().unwrap().value(r)),
                    DataType::Utf8 => c.as_any().downcast_ref::<StringArray>().unwrap().value(r).to_string(),
                    _ => arrow::util::display::array_value_to_string(c, r).map_err(|e| format!("{e}"))?,
                })
            });
        }
    }
    Ok(out)
}

/// The content of any exported file, for comparing two exports (creation dates left out).
pub fn dump(path: &str) -> Result<Vec<String>, String> {
    if path.ends_with(".parquet") {
        return pq_dump(path);
    }
    let s = std::fs::read(path).map_err(|e| format!("{e}"))?;
    Ok(String::from_utf8_lossy(&s).lines().filter(|l| !l.starts_with("CREATION_DATE") && !l.contains("Generated by")).map(|l| l.to_string()).collect())
}

const ERRNOS: [i32; 6] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EROFS, libc::EINTR];
pub fn draw_write_faults(r: &mut Rng) -> Value {
    let n = *r.pick(&[0usize, 1, 1, 1, 1, 2]);
    json!(
        (0..n)
            .map(|_| json!({"kind": r.below(9), "pm": *r.pick(&[0i64, 1000, 999, 990, 10, -1]), "rpm": r.range(0, 1000), "errno": r.below(5), "max": *r.pick(&[1i64, 3, 17, 200, 4096])}))
            .collect::<Vec<_>>()
    )
}
pub fn draw_read_faults(r: &mut Rng) -> Value {
    let n = *r.pick(&[0usize, 1, 1, 1, 2]);
    json!(
        (0..n)
            .map(|_| json!({"kind": 20 + r.below(7), "pm": *r.pick(&[0i64, 1000, -1, -1]), "rpm": r.range(0, 1000), "errno": r.below(5), "max": *r.pick(&[1i64, 3, 17, 200, 4096])}))
            .collect::<Vec<_>>()
    )
}
/// A drawn position out of `total`, either at an edge or anywhere.
fn pos(v: &Value, total: u64) -> u64 {
    let pm = i(v, "pm");
    let pm = if pm < 0 { i(v, "rpm") } else { pm };
    (total as f64 * pm as f64 / 1000.0).round() as u64
}
fn plan(v: &Value, s: &disk::Disk) -> Vec<Fault> {
    let mut out = vec![];
    for f in v.as_array().cloned().unwrap_or_default() {
        let errno = ERRNOS[(u(&f, "errno") as usize).min(4)];
        let max = i(&f, "max").max(1) as u64;
        let last = |n: u64| pos(&f, n.saturating_sub(1));
        out.push(match u(&f, "kind") {
            0 => Fault::Open { op: 0, errno: [libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EROFS, libc::EIO][u(&f, "errno").min(4) as usize] },
            1 => Fault::Write { op: last(s.writes), errno },
            2 => Fault::WriteFrom { op: last(s.writes), errno },
            3 | 4 => Fault::DiskFull { bytes: last(s.bytes) },
            5 => Fault::WriteIntr { op: last(s.writes) },
            6 => Fault::ShortWrite { op: last(s.writes), max },
            7 => Fault::ShortWrites { max: max.max(s.bytes / 500 + 1) },
            8 => Fault::Crash { bytes: last(s.bytes) },
            20 => Fault::Open { op: 0, errno: [libc::EACCES, libc::EMFILE, libc::ENOENT, libc::ENFILE, libc::EIO][u(&f, "errno").min(4) as usize] },
            21 | 22 => Fault::Read { op: last(s.reads), errno: libc::EIO, sticky: u(&f, "errno") > 2 },
            23 => Fault::ReadIntr { op: last(s.reads) },
            24 => Fault::ShortRead { op: last(s.reads), max },
            _ => Fault::ShortReads { max: max.max(s.bytes_read / 500 + 1) },
        });
    }
    out
}
fn note(ctx: &mut Ctx, d: &disk::Disk) {
    for (k, n) in &d.fired {
        ctx.add(&format!("fault:{k}"), *n);
    }
}
fn first_diff(a: &[String], b: &[String]) -> String {
    for k in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(k).map(|s| s.as_str()).unwrap_or("<nothing>"), b.get(k).map(|s| s.as_str()).unwrap_or("<nothing>"));
        if x != y {
            let same = x.chars().zip(y.chars()).take_while(|(a, b)| a == b).count().saturating_sub(60);
            let c = |s: &str| s.chars().skip(same).take(200).collect::<String>();
            return format!("line {k} (from character {same}) is `{}` instead of `{}` ({} and {} lines)", c(x), c(y), a.len(), b.len());
        }
    }
    "no difference".into()
}
/// At most one record (the one where the file stops), or none, differs from the complete file's.
fn subset(got: &[String], all: &[String], torn: Torn) -> bool {
    let mut left: BTreeMap<&String, usize> = BTreeMap::new();
    for l in all {
        *left.entry(l).or_default() += 1;
    }
    let mut odd = 0;
    for l in got {
        match left.get_mut(l) {
            Some(n) if *n > 0 => *n -= 1,
            _ => odd += 1,
        }
    }
    odd <= (torn == Torn::Prefix) as usize && got.len() <= all.len()
}
fn panicked<T>(r: Result<T, String>, what: &str, name: &str) -> Result<T, Fail> {
    r.map_err(|m| Fail { class: format!("panic:{name}:{}", panic_site(&m)), msg: format!("{what} panicked: {m}") })
}

/// Exports once without and once with faults; `v.faults` and `v.old` (a longer file in the way).
/// Returns the path of the complete reference file.
pub fn write_case(ctx: &mut Ctx, v: &Value, a: &Art) -> Result<String, Fail> {
    let n = a.name;
    let refp = format!("ref-{n}.{}", a.ext);
    disk::arm(&[]);
    let r = no_panic(|| (a.write)(&refp));
    let s = disk::disarm();
    let refp = panicked(r, "a fault-free export", n)?.map_err(|e| Fail { class: format!("export-fails:{n}"), msg: format!("the fault-free export failed: {e}") })?;
    let full = dump(&refp).map_err(|e| Fail { class: format!("export-unreadable:{n}"), msg: format!("{refp}: {e}") })?;
    if let (Some(ld), Some(w)) = (&a.load, &a.want) {
        let got = panicked(no_panic(|| ld(&refp)), "an import", n)?.map_err(|e| Fail { class: format!("import-fails:{n}"), msg: format!("importing a fault-free export failed: {e}") })?;
        ensure_p!(got == *w, &format!("round-trip:{n}"), "imported {}", first_diff(&got, w));
        ctx.hit("round trip");
    }
    let faults = plan(&v["faults"], &s);
    let out = format!("out-{n}.{}", a.ext);
    if b(v, "old") {
        std::fs::write(&out, vec![b'#'; s.bytes as usize + 5000]).expect("scratch file");
        ctx.hit("export over a longer file");
    }
    disk::arm(&faults);
    let r = no_panic(|| (a.write)(&out));
    let d = disk::disarm();
    note(ctx, &d);
    let r = panicked(r, &format!("an export with {faults:?}"), n)?;
    let crash = d.fired.contains_key("crash_torn_write");
    let outp = r.as_ref().ok().cloned().unwrap_or(out.clone());
    if crash {
        // Only the bytes written before the crash survive.
        if let Some(ld) = &a.load {
            let got = panicked(no_panic(|| ld(&outp)), "importing a torn file", n)?;
            match (a.torn, got) {
                (Torn::Rejects, Ok(g)) => return fail(&format!("torn-accepted:{n}"), format!("a file torn after {faults:?} of {} bytes loaded as {} records", s.bytes, g.len())).map(|_: ()| String::new()),
                (Torn::Prefix | Torn::Part, Ok(g)) => {
                    let w = ld(&refp).map_err(|e| Fail { class: format!("import-fails:{n}"), msg: e })?;
                    ensure_p!(subset(&g, &w, a.torn), &format!("torn-altered:{n}"), "a torn file loaded with {}", first_diff(&g, &w));
                }
                _ => {}
            }
            ctx.hit("torn file imported");
        }
    } else if d.hard {
        let tail = d.writes >= s.writes;
        ensure_p!(
            r.is_err(),
            &format!("silent{}:{n}", if tail { "-tail" } else { "" }),
            "the export reported success although {faults:?} hit it ({:?}); the file has {} of {} bytes",
            d.fired,
            std::fs::metadata(&outp).map(|m| m.len()).unwrap_or(0),
            s.bytes
        );
        ctx.hit("failed export reported");
    } else {
        if let Err(e) = &r {
            return fail(&format!("export-fails:{n}"), format!("the export failed with only {:?}: {e}", d.fired)).map(|_: ()| String::new());
        }
        let got = dump(&outp).map_err(|e| Fail { class: format!("export-incomplete:{n}"), msg: format!("{:?}: {e}", d.fired) })?;
        ensure_p!(got == full, &format!("export-incomplete:{n}"), "after {:?}: {}", d.fired, first_diff(&got, &full));
        ctx.hit("complete export");
    }
    if !d.fired.is_empty() {
        ctx.nontrivial = true;
        // Once the faults stop, the same export over whatever was left succeeds.
        let again = panicked(no_panic(|| (a.write)(&out)), "the export repeated without faults", n)?.map_err(|e| Fail { class: format!("export-retry:{n}"), msg: e })?;
        let got = dump(&again).map_err(|e| Fail { class: format!("export-retry:{n}"), msg: e })?;
        ensure_p!(got == full, &format!("export-retry:{n}"), "repeated after {:?}: {}", d.fired, first_diff(&got, &full));
        ctx.hit("export repeated after the faults");
    }
    for l in &full {
        ctx.dig(l.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    }
    Ok(refp)
}

/// Imports a complete file with read faults (`v.rfaults`), then a truncated copy (`v.cut`, in thousandths).
pub fn read_case(ctx: &mut Ctx, v: &Value, a: &Art, path: &str) -> Outcome {
    let n = a.name;
    let Some(ld) = &a.load else { return Ok(()) };
    disk::arm(&[]);
    let want = no_panic(|| ld(path));
    let s = disk::disarm();
    let want = panicked(want, "an import", n)?.map_err(|e| Fail { class: format!("import-fails:{n}"), msg: e })?;
    let faults = plan(&v["rfaults"], &s);
    disk::arm(&faults);
    let r = no_panic(|| ld(path));
    let d = disk::disarm();
    note(ctx, &d);
    let r = panicked(r, &format!("an import with {faults:?}"), n)?;
    if d.hard {
        if let Ok(g) = &r {
            // A reader may skip a read that it does not need; the data must then be complete.
            ensure_p!(*g == want, &format!("import-partial:{n}"), "with {faults:?} the import succeeded with {}", first_diff(g, &want));
        } else {
            ctx.hit("failed import reported");
        }
        ctx.nontrivial = true;
    } else {
        match &r {
            Ok(g) => ensure_p!(*g == want, &format!("import-differs:{n}"), "after {:?}: {}", d.fired, first_diff(g, &want)),
            Err(e) => return fail(&format!("import-fails:{n}"), format!("the import failed with only {:?}: {e}", d.fired)),
        }
        if !d.fired.is_empty() {
            ctx.nontrivial = true;
            ctx.hit("import through short or interrupted reads");
        }
    }
    if v["cut"].is_number() {
        let all = std::fs::read(path).expect("the reference file");
        let k = ((all.len() as f64 * i(v, "cut") as f64 / 1000.0) as usize).min(all.len().saturating_sub(1));
        let cutp = format!("cut-{n}.{}", a.ext);
        let mut part = all[..k].to_vec();
        if b(v, "zeros") {
            // A lost write inside an allocated file reads back as zeros.
            part.resize(all.len(), 0);
        }
        if part == all {
            return Ok(());
        }
        std::fs::write(&cutp, &part).expect("scratch file");
        let r = panicked(no_panic(|| ld(&cutp)), &format!("importing the first {k} of {} bytes (zeros: {})", all.len(), b(v, "zeros")), n)?;
        match (a.torn, r) {
            (Torn::Rejects, Ok(g)) => return fail(&format!("torn-accepted:{n}"), format!("{k} of {} bytes loaded as {} records", all.len(), g.len())),
            (Torn::Prefix | Torn::Part, Ok(g)) => {
                ensure_p!(subset(&g, &want, a.torn), &format!("torn-altered:{n}"), "{k} of {} bytes loaded with {}", all.len(), first_diff(&g, &want));
            }
            _ => {}
        }
        ctx.hit("fault:truncated_file");
        ctx.nontrivial = true;
    }
    // Afterwards the same process imports the whole file.
    let g = panicked(no_panic(|| ld(path)), "an import", n)?.map_err(|e| Fail { class: format!("import-fails:{n}"), msg: e })?;
    ensure_p!(g == want, &format!("import-differs:{n}"), "once the faults stopped: {}", first_diff(&g, &want));
    Ok(())
}
