//! Deterministic simulation of nyx-space: see /verif/DESIGN.md.
mod io;
mod props;
mod rt;
mod run;
mod world;

use run::Tier;

fn main() {
    rt::entropy::start(0x0DD_5EED);
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("NYXSIM_OUT").unwrap_or_else(|_| "/verif".into());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = props::find(&args[2]);
            let tier = if args.get(3).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let runs = std::env::var("NYXSIM_RUNS").ok().and_then(|s| s.parse().ok());
            let cap = std::env::var("NYXSIM_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 150.0 } else { 600.0 });
            world::init();
            run::campaign(p, tier, seed, &out, runs, cap).exit
        }
        Some("replay") => {
            let rp: run::Replay = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file");
            let p = props::find(&rp.property);
            world::init();
            let r = run::run_one(p, &rp.spec);
            println!("{} [{}] {} (steps {}, switches {}, interleaving {:016x}, digest {:016x})", r.status, r.class, r.msg, r.steps, r.switches, r.hash, r.digest);
            if r.status == "violation" && r.class == rp.class {
                println!("VIOLATION property={} replay={}", rp.property, args[2]);
                1
            } else if r.status == "pass" {
                0
            } else {
                2
            }
        }
        // One run, printed: nyxsim one P01 <i>
        Some("one") => {
            let p = props::find(&args[2]);
            let i: u64 = args[3].parse().unwrap();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let mut spec = run::draw_spec(p, seed, i, Tier::Quick);
            if let Ok(s) = std::env::var("NYXSIM_SCENARIO") {
                spec.scenario = serde_json::from_str(&s).unwrap();
            }
            world::init();
            println!("{}", serde_json::to_string(&spec).unwrap());
            let mut r = run::run_one(p, &spec);
            r.decisions.truncate(20);
            println!("{}", serde_json::to_string_pretty(&r).unwrap());
            0
        }
        // Event-log comparison for the determinism study: nyxsim log P01 <from> <to>
        Some("log") => {
            let p = props::find(&args[2]);
            let (a, b): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let w = std::env::var("NYXSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
            world::init();
            let mut lines = vec![];
            run::pool(
                p,
                w,
                |i| if a + (i as u64) < b { Some(run::draw_spec(p, seed, a + i as u64, Tier::Quick)) } else { None },
                |i, s, r| lines.push((i, format!("{} seed={} {} [{}] steps={} switches={} hash={:016x} digest={:016x} {:?}", a + i as u64, s.seed, r.status, r.class, r.steps, r.switches, r.hash, r.digest, r.counts))),
            );
            lines.sort();
            for l in lines {
                println!("{}", l.1);
            }
            0
        }
        Some("list") => {
            for p in props::ALL {
                println!("{} quick={} thorough={}", p.id, p.runs.0, p.runs.1);
            }
            0
        }
        _ => {
            eprintln!("usage: nyxsim check <ID> quick|thorough | replay <file> | one <ID> <i> | log <ID> <a> <b> | list");
            2
        }
    };
    std::process::exit(code);
}
