mod checks;
mod cluster;
mod driver;
mod follower;
mod gen;
mod leader;
mod interpose;
mod oracle;
mod rig;
mod rng;
mod stable;
mod fuzz;
mod stores;
mod votes;
mod wire;
mod world;

use cluster::*;
use driver::*;

/// explore PROFILE CASES SEED [KIND]
fn explore(a: &[String]) {
    let p = checks::profile(&a[0]);
    let n: u64 = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let kind = a.get(3).cloned();
    let o = Opts { property: "explore".into(), tier: "quick".into(), seed, verif: "/tmp/vp".into(), threads: 8, scale: 1.0 };
    let w = Watch::new(300);
    let exec = |c: &Case, tr: bool| -> CaseResult {
        let r = execute(c, tr);
        let mut out = CaseResult { digest: r.digest, stats: r.stats.clone(), trace: r.trace.clone(), nontrivial: true, ..Default::default() };
        out.stats.insert("virtual_ms".into(), r.virtual_ms);
        for v in &r.violations {
            let k = format!("{:?}", v.kind);
            if !out.other.contains(&k) { out.other.push(k.clone()); }
            if kind.as_deref() == Some(&k) || (kind.as_deref() == Some("first") && out.fails.is_empty()) {
                out.fails.push(Fail { class: k, msg: v.msg.clone() });
            }
        }
        if tr { for v in &r.violations { out.trace.push(format!("{v:?}")); } }
        out
    };
    let sec = search(&o, &w, Search { name: &a[0], rule: "", strategy: &|| gen::case(p.clone()), cases: n, exec: &exec }).unwrap();
    println!("{} cases in {:.1} s; {:?}", sec.generated, sec.wall_s, sec.other);
    println!("{:?}", sec.stats);
    for f in &sec.fails { println!("{f:?} shrunk with {} runs", sec.shrunk); }
}

fn main() {
    world::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("explore") => explore(&args[1..]),
        Some("run") => {
            let s = std::fs::read_to_string(&args[1]).unwrap();
            let r: Replay<Case> = serde_json::from_str(&s).unwrap();
            let out = execute(&r.case, true);
            for l in out.trace { println!("{l}"); }
            for v in out.violations { println!("{v:?}"); }
        }
        Some("check") => {
            let id = args[1].clone();
            let tier = args.get(2).cloned().unwrap_or("quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
            let verif = std::env::var("VP_VERIF").unwrap_or("/verif".into());
            let scale = std::env::var("VP_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
            let o = Opts { property: id, tier, seed, verif, threads: 8, scale };
            match checks::check(&o) {
                Ok(c) => std::process::exit(c),
                Err(e) => {
                    eprintln!("ERROR: {e:#}");
                    std::process::exit(2);
                }
            }
        }
        Some("replay") => match checks::replay("/verif", &args[1]) {
            Ok(c) => std::process::exit(c),
            Err(e) => {
                eprintln!("ERROR: {e:#}");
                std::process::exit(2);
            }
        },
        _ => {
            eprintln!("usage: vp check ID [quick|thorough] | replay FILE | explore PROFILE CASES SEED [KIND] | run FILE");
            std::process::exit(2);
        }
    }
}
