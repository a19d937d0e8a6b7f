//! One check per property: which generated inputs, which oracle, what counts as non-trivial.

use crate::cluster::{execute, Case};
use crate::driver::*;
use crate::gen::{self, Profile};
use crate::oracle::Kind::{self, *};
use proptest::strategy::BoxedStrategy;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub type Stats = BTreeMap<String, u64>;

/// A part of a check: a generator and an oracle.
pub struct Sec {
    pub name: String,
    pub rule: String,
    pub run: Box<dyn Fn(&Opts, &Watch) -> anyhow::Result<Section>>,
    pub replay: Box<dyn Fn(&str) -> anyhow::Result<CaseResult>>,
}

pub fn sec<C, S, X>(name: &str, rule: &str, quick: u64, thorough: u64, strategy: S, exec: X) -> Sec
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
    S: Fn() -> BoxedStrategy<C> + Sync + 'static,
    X: Fn(&C, bool) -> CaseResult + Sync + Clone + 'static,
{
    let (n, r) = (name.to_string(), rule.to_string());
    let x2 = exec.clone();
    Sec {
        name: name.into(),
        rule: rule.into(),
        run: Box::new(move |o, w| {
            let cases = if o.thorough() { thorough } else { quick };
            search(o, w, Search { name: &n, rule: &r, strategy: &strategy, cases, exec: &exec })
        }),
        replay: Box::new(move |s| {
            let r: Replay<C> = serde_json::from_str(s)?;
            Ok(x2(&r.case, true))
        }),
    }
}

fn g(s: &Stats, k: &str) -> u64 {
    s.get(k).copied().unwrap_or(0)
}

/// Histories of a simulated cluster.
fn sim(name: &str, p: Profile, quick: u64, thorough: u64, rule: &str, nontrivial: fn(&Stats) -> bool, kinds: &'static [Kind]) -> Sec {
    sec(
        name,
        rule,
        quick,
        thorough,
        move || gen::case(p.clone()),
        move |c: &Case, tr| {
            let r = execute(c, tr);
            let mut out = CaseResult { digest: r.digest, trace: r.trace, ..Default::default() };
            if g(&r.stats, "harness_panic") > 0 {
                out.broken = Some("the simulation panicked".into());
                return out;
            }
            out.nontrivial = nontrivial(&r.stats);
            out.stats = r.stats;
            out.stats.insert("virtual_ms".into(), r.virtual_ms);
            out.stats.insert("messages".into(), r.rpcs);
            for v in r.violations {
                let k = format!("{:?}", v.kind);
                if kinds.contains(&v.kind) {
                    if tr {
                        out.trace.push(format!("VIOLATED {k} at {} ms: {}", v.at_ms, v.msg));
                    }
                    out.fails.push(Fail { class: k, msg: format!("at {} ms: {}", v.at_ms, v.msg) });
                } else if !out.other.contains(&k) {
                    out.other.push(k);
                }
            }
            out
        },
    )
}

const ELECTION: &[Kind] = &[TwoLeaders, DoubleVote, BallotRegress, VoteNotPersisted, ForeignEntry];
const LOG: &[Kind] = &[LogMismatch, ChainBroken, ForeignEntry];
const COMMIT: &[Kind] = &[CommittedLost, NotDurable, LeaderIncomplete, LostWrite, ApplyDiverge];
const MACHINE: &[Kind] = &[ApplyDiverge, StateDiverge, ApplyOrder];
const LINEAR: &[Kind] = &[StaleRead, BadReadValue, BadWriteResp, WriteRealTime, LostWrite, DupExec];
const ONCE: &[Kind] = &[DupExec, BadWriteResp, StateDiverge, ApplyDiverge];
const SNAP: &[Kind] = &[
    SnapshotContent, CompactionLoss, StateDiverge, ApplyDiverge, ApplyOrder, LostWrite, RestartFailed, Convergence, Liveness, CommittedLost,
    LeaderIncomplete, ConfigNotDurable, BadReadValue, TaskPanic, Livelock, LogMismatch, ChainBroken,
];
const CRASH: &[Kind] = &[
    RestartFailed, Convergence, Liveness, TwoLeaders, DoubleVote, BallotRegress, VoteNotPersisted, LogMismatch, ChainBroken, ForeignEntry,
    CommittedLost, NotDurable, LeaderIncomplete, ApplyDiverge, StateDiverge, ApplyOrder, DupExec, BadWriteResp, LostWrite, StaleRead,
    BadReadValue, SnapshotContent, CompactionLoss, ConfigNotDurable, TaskPanic, Livelock,
];
const MEMBER: &[Kind] = &[
    ConfigJump, ConfigOverlap, ConfigNotDurable, TwoLeaders, DoubleVote, CommittedLost, NotDurable, LeaderIncomplete, ApplyDiverge,
    StateDiverge, ApplyOrder, LostWrite, Convergence, Liveness, LivenessRemoved, TaskPanic, Livelock, RestartFailed, LogMismatch,
];
const LIVE: &[Kind] = &[Liveness, LivenessRemoved, Convergence, TaskPanic, Livelock, RestartFailed];
const ALL: &[Kind] = &[
    TwoLeaders, DoubleVote, BallotRegress, VoteNotPersisted, LogMismatch, ChainBroken, ForeignEntry, CommittedLost, NotDurable,
    LeaderIncomplete, ApplyDiverge, StateDiverge, ApplyOrder, DupExec, BadWriteResp, LostWrite, WriteRealTime, StaleRead, BadReadValue,
    ConfigJump, ConfigOverlap, ConfigNotDurable, SnapshotContent, CompactionLoss, RestartFailed, Liveness, LivenessRemoved, Convergence,
    TaskPanic, Livelock, DetachLeak, ShardMix,
];

pub fn profile(name: &str) -> Profile {
    let d = Profile::default();
    match name {
        "base" => d,
        "calm" => Profile { lossy: 0, slow: 0, fail_io: 0, ..d },
        "dup" => Profile { dup: 10, retries: 3, read: 4, ..d },
        "read" => Profile { read: 10, poll: 5, isolate: 6, timeout_now: 3, ..d },
        "snap" => Profile { snapshot: 10, bounce: 8, ..d },
        "member" => Profile { spare: 2, nodes: (1, 3), add: 8, remove: 6, changes: 4, ..d },
        "membersnap" => Profile { spare: 2, nodes: (1, 3), add: 6, remove: 4, changes: 3, snapshot: 6, bounce: 6, ..d },
        "shards" => Profile { shards: (2, 3), read: 5, ..d },
        "crash" => Profile { crash_at: 14, crash_all: 2, crash: 2, bounce: 6, snapshot: 3, ..d },
        "detach" => Profile { shards: (2, 3), nodes: (3, 4), detach: 6, read: 4, ..d },
        "dupsnap" => Profile { dup: 10, retries: 3, snapshot: 10, bounce: 8, lossy: 0, fail_io: 0, slow: 0, crash_at: 0, partition: 0, oneway: 0, ..d },
        "elect" => Profile { isolate: 8, timeout_now: 6, bounce: 8, crash_at: 6, write: 5, burst: 3, wait: 6, ..d },
        _ => panic!("no profile {name}"),
    }
}

fn contended(s: &Stats) -> bool {
    g(s, "terms_with_leader") >= 3 && g(s, "partitions") + g(s, "restarts") >= 1
}
const R_CONTENDED: &str = "history of a generated cluster (faults, client requests and their times drawn at random), executed against the real library in simulated time; non-trivial when at least 3 terms got a leader and a node was restarted or cut off";
fn truncated(s: &Stats) -> bool {
    g(s, "terms_with_leader") >= 2 && g(s, "writes") >= 3 && (g(s, "truncated_entries") >= 1 || g(s, "restarts") >= 1)
}
const R_TRUNC: &str = "generated cluster history; non-trivial when at least 2 terms got a leader, 3 writes were issued, and conflicting entries were replaced or a node restarted";
fn reads(s: &Stats) -> bool {
    g(s, "reads_ok") >= 4 && g(s, "writes_ok") >= 3 && g(s, "terms_with_leader") >= 2
}
const R_READS: &str = "generated cluster history; non-trivial when 3 writes and 4 reads succeeded and at least 2 terms got a leader";
fn dups(s: &Stats) -> bool {
    g(s, "dup_requests") >= 1 && g(s, "writes_ok") >= 2
}
const R_DUPS: &str = "generated cluster history in which requests are sent several times, at once and later, through several nodes; non-trivial when at least one request was duplicated and 2 requests succeeded";
fn snaps(s: &Stats) -> bool {
    g(s, "compactions") + g(s, "snapshot_installs") >= 1
}
const R_SNAPS: &str = "generated cluster history with snapshots offered by applications at any time; non-trivial when a log was compacted or a snapshot was installed from a leader";
fn crashes(s: &Stats) -> bool {
    g(s, "restarts") >= 2
}
const R_CRASH: &str = "generated cluster history with nodes killed at a chosen step of their storage or application; non-trivial when at least 2 restarts happened";
fn members(s: &Stats) -> bool {
    g(s, "config_changes") >= 4
}
const R_MEMBER: &str = "generated cluster history with concurrent additions and removals; non-trivial when at least 4 configurations entered a log";
fn faulty(s: &Stats) -> bool {
    g(s, "partitions") + g(s, "restarts") >= 2
}
const R_FAULTY: &str = "generated cluster history; non-trivial when at least 2 partitions or restarts happened before the faults ended";
fn shards(s: &Stats) -> bool {
    g(s, "writes_ok") >= 2 && g(s, "partitions") + g(s, "restarts") + g(s, "detaches") >= 1
}
const R_SHARDS: &str = "generated history of 2 or 3 shards on the same nodes; non-trivial when 2 writes succeeded and a node was cut off or restarted or a shard was detached";

pub fn sections(id: &str) -> Vec<Sec> {
    let p = profile;
    match id {
        "C01" => vec![
            sim("elections", p("elect"), 500, 9000, R_CONTENDED, contended, ELECTION),
            sim("crashes", p("crash"), 200, 4000, R_CONTENDED, contended, ELECTION),
            sim("membership", p("member"), 250, 4000, R_MEMBER, members, ELECTION),
        ],
        "C02" => vec![
            sim("logs", p("base"), 450, 9000, R_TRUNC, truncated, LOG),
            sim("snapshots", p("snap"), 300, 5000, R_TRUNC, truncated, LOG),
        ],
        "C03" => vec![
            sim("commits", p("base"), 350, 7000, R_TRUNC, truncated, COMMIT),
            sim("crashes", p("crash"), 250, 4000, R_TRUNC, truncated, COMMIT),
            sim("membership", p("member"), 250, 4000, R_MEMBER, members, COMMIT),
        ],
        "C04" => vec![
            sim("replicas", p("base"), 350, 7000, R_TRUNC, truncated, MACHINE),
            sim("snapshots", p("snap"), 350, 6000, R_SNAPS, snaps, MACHINE),
        ],
        "C05" => vec![
            sim("registers", p("read"), 450, 9000, R_READS, reads, LINEAR),
            sim("membership", Profile { read: 7, poll: 3, ..p("member") }, 250, 4000, R_READS, reads, LINEAR),
        ],
        "C06" => vec![
            sim("duplicates", p("dup"), 550, 12000, R_DUPS, dups, ONCE),
            sim("crashes", Profile { dup: 12, retries: 3, snapshot: 0, ..p("crash") }, 200, 4000, R_DUPS, dups, ONCE),
        ],
        "C07" => vec![
            sim("snapshots", p("snap"), 600, 11000, R_SNAPS, snaps, SNAP),
            sim("membership", p("membersnap"), 350, 5000, R_SNAPS, snaps, SNAP),
        ],
        "C08" => vec![sim("crashes", p("crash"), 600, 12000, R_CRASH, crashes, CRASH), sim("snapshots", Profile { crash_at: 10, ..p("snap") }, 250, 4000, R_CRASH, crashes, CRASH)],
        "C09" => vec![
            sim("membership", p("member"), 700, 14000, R_MEMBER, members, MEMBER),
            sim("snapshots", p("membersnap"), 300, 5000, R_MEMBER, members, MEMBER),
        ],
        "C10" => vec![
            sim("faults", p("base"), 250, 6000, R_FAULTY, faulty, LIVE),
            sim("snapshots", p("snap"), 250, 5000, R_FAULTY, faulty, LIVE),
            sim("membership", p("member"), 250, 5000, R_FAULTY, faulty, LIVE),
        ],
        "C11" => vec![
            sim("shards", p("shards"), 150, 3500, R_SHARDS, shards, ALL),
            sim("detach", p("detach"), 200, 3500, R_SHARDS, shards, ALL),
        ],
        "C14" => vec![sec("votes", crate::votes::RULE, 700, 40000, crate::votes::case, crate::votes::exec)],
        "C15" => vec![sec("follower", crate::follower::RULE, 1000, 40000, crate::follower::case, crate::follower::exec)],
        "C16" => vec![sec("leader", crate::leader::RULE, 3500, 150000, crate::leader::case, crate::leader::exec)],
        "C17" => vec![sec("entry", crate::stable::ENTRY_RULE, 110, 6000, crate::stable::entry_case, crate::stable::exec)],
        "C19" => vec![sec("attacks", crate::fuzz::RULE, 200, 8000, crate::fuzz::case, crate::fuzz::exec)],
        "C18" => vec![sec("leaders", crate::stable::RULE, 170, 6000, crate::stable::case, crate::stable::exec)],
        "C20" => vec![sec("minority", crate::stable::MINORITY_RULE, 150, 6000, crate::stable::minority_case, crate::stable::exec)],
        "C12" | "C13" => crate::stores::sections(id),
        _ => vec![],
    }
}

#[derive(serde::Deserialize)]
pub struct Known {
    pub property: String,
    pub section: String,
    pub classes: Vec<String>,
    pub what: String,
    pub file: String,
}

fn print(s: &str) {
    println!("{s}");
    use std::io::Write;
    std::io::stdout().flush().ok();
}

/// Known findings: fixed histories that are replayed on every run.
fn known(o: &Opts, w: &Watch) -> anyhow::Result<(u64, Vec<(Fail, String)>)> {
    let path = format!("{}/known-findings.json", o.verif);
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path)?)?;
    let mut n = 0;
    let mut bad = vec![];
    for k in v["findings"].as_array().cloned().unwrap_or_default() {
        let k: Known = serde_json::from_value(k)?;
        if k.property != o.property {
            continue;
        }
        let f = format!("{}/{}", o.verif, k.file);
        let secs = sections(&o.property);
        let s = secs.iter().find(|s| s.name == k.section).ok_or_else(|| anyhow::anyhow!("no section {}", k.section))?;
        let r = (s.replay)(&std::fs::read_to_string(&f)?)?;
        w.kick();
        n += 1;
        if let Some(b) = r.broken {
            anyhow::bail!("{b}");
        }
        let mut hit = false;
        for x in r.fails {
            if k.classes.contains(&x.class) {
                hit = true;
            } else {
                bad.push((x, f.clone()));
            }
        }
        if hit {
            print(&format!("KNOWN-FINDING: property={} {}", o.property, k.what));
        }
    }
    Ok((n, bad))
}

/// 0: held; 1: violated
pub fn check(o: &Opts) -> anyhow::Result<i32> {
    let t0 = std::time::Instant::now();
    let w = Watch::new(240);
    let secs = sections(&o.property);
    anyhow::ensure!(!secs.is_empty(), "no check for {}", o.property);
    let only = std::env::var("VP_SECTION").ok();
    let mut done = vec![];
    let mut violations = 0;
    for s in &secs {
        if only.as_ref().map(|x| *x != s.name).unwrap_or(false) {
            continue;
        }
        let r = (s.run)(o, &w)?;
        let bad = !r.fails.is_empty();
        for (_, f, path) in &r.fails {
            violations += 1;
            print(&format!("{}/{}: {}: {}", o.property, s.name, f.class, f.msg));
            print(&format!("VIOLATION property={} replay={}", o.property, path));
        }
        done.push(r);
        if bad {
            break;
        }
    }
    let (replayed, bad) = known(o, &w)?;
    for (f, path) in bad {
        violations += 1;
        print(&format!("{}: {}: {}", o.property, f.class, f.msg));
        print(&format!("VIOLATION property={} replay={}", o.property, path));
    }
    let rule: Vec<String> = done.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect();
    let samples: Vec<_> = done.iter().flat_map(|s| s.samples.iter().take(2).map(|x| serde_json::json!({"section": s.name, "case": x}))).collect();
    let per: BTreeMap<_, _> = done
        .iter()
        .map(|s| {
            (s.name.clone(), serde_json::json!({"generated": s.generated, "nontrivial": s.nontrivial, "distinct_nontrivial": s.distinct.len(), "wall_s": s.wall_s, "observed": s.stats, "seen_in_passing": s.other, "shrink_runs": s.shrunk}))
        })
        .collect();
    let ev = serde_json::json!({
        "property": o.property,
        "tier": o.tier,
        "seed": o.seed,
        "level": level(&o.property),
        "coverage": {
            "evaluations": done.iter().map(|s| s.generated).sum::<u64>(),
            "distinct_nontrivial": done.iter().map(|s| s.distinct.len() as u64).sum::<u64>(),
            "rule": rule.join(" | "),
            "samples": samples,
            "sections": per,
            "known_histories_replayed": replayed,
        },
        "assumptions": assumptions(&o.property),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = format!("{}/evidence", o.verif);
    std::fs::create_dir_all(&dir)?;
    std::fs::write(format!("{dir}/{}.json", o.property), serde_json::to_string_pretty(&ev)?)?;
    print(&format!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        o.property,
        done.iter().map(|s| s.generated).sum::<u64>(),
        done.iter().map(|s| s.distinct.len()).sum::<usize>(),
        violations,
        t0.elapsed().as_secs_f64()
    ));
    Ok(if violations > 0 { 1 } else { 0 })
}

pub fn level(id: &str) -> &'static str {
    match id {
        "C08" | "C13" => "fault_enumeration",
        _ => "exploration",
    }
}

fn assumptions(id: &str) -> Vec<&'static str> {
    match id {
        "C12" | "C13" => vec!["redb keeps its own guarantees on a device that honours sync"],
        _ => vec![
            "time is virtual and a node's tasks run on one thread: schedules differ by message, storage and timer delays and by task order, not by data races",
            "the transport delivers the bytes of a request unchanged; gRPC is replaced by HTTP/2 over in-memory pipes",
            "stores and the application of the simulated nodes behave as specified by their traits",
        ],
    }
}

pub fn replay(verif: &str, path: &str) -> anyhow::Result<i32> {
    let s = std::fs::read_to_string(path)?;
    let v: serde_json::Value = serde_json::from_str(&s)?;
    let id = v["property"].as_str().unwrap_or("").to_string();
    let name = v["section"].as_str().unwrap_or("").to_string();
    let secs = sections(&id);
    let sc = secs.iter().find(|x| x.name == name).ok_or_else(|| anyhow::anyhow!("no section {name} of {id}"))?;
    let _ = verif;
    let r = (sc.replay)(&s)?;
    for l in &r.trace {
        println!("{l}");
    }
    if let Some(b) = r.broken {
        anyhow::bail!("{b}");
    }
    for f in &r.fails {
        println!("{}: {}", f.class, f.msg);
    }
    if r.fails.is_empty() {
        println!("{id}/{name}: the property held on this input");
        return Ok(0);
    }
    println!("VIOLATION property={id} replay={path}");
    Ok(1)
}
