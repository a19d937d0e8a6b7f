//! Case generation, parallel execution, shrinking, replay files, evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, Serialize, serde::Deserialize)]
pub struct Fail {
    /// class of the failure; shrinking keeps it
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct CaseResult {
    pub fails: Vec<Fail>,
    pub nontrivial: bool,
    /// what makes this case distinct from others
    pub digest: u64,
    pub stats: BTreeMap<String, u64>,
    /// failures of other properties seen in passing
    pub other: Vec<String>,
    pub trace: Vec<String>,
    /// the harness itself failed
    pub broken: Option<String>,
}

pub struct Opts {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub verif: String,
    pub threads: usize,
    pub scale: f64,
}

impl Opts {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

pub struct Section {
    pub name: String,
    pub rule: String,
    pub generated: u64,
    pub nontrivial: u64,
    pub distinct: BTreeSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub other: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub wall_s: f64,
    pub fails: Vec<(String, Fail, String)>, // (section, fail, replay path)
    pub shrunk: u64,
}

/// Abort with an error (never a violation) when the harness makes no progress in real time.
pub struct Watch {
    last: Arc<AtomicU64>,
}
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn secs() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_secs()
}
impl Watch {
    pub fn new(limit: u64) -> Watch {
        secs();
        let last = Arc::new(AtomicU64::new(secs()));
        let l2 = last.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            let l = l2.load(Ordering::Relaxed);
            if secs().saturating_sub(l) > limit {
                eprintln!("ERROR: a generated case didn't finish within {limit} s of real time; no verdict");
                std::process::exit(2);
            }
        });
        Watch { last }
    }
    pub fn kick(&self) {
        self.last.store(secs(), Ordering::Relaxed);
    }
}

fn runner(seed: u64, prop: &str, section: &str, idx: u64) -> TestRunner {
    let h = crate::rng::mix(&[seed, crate::rng::hash_bytes(prop.as_bytes()), crate::rng::hash_bytes(section.as_bytes()), idx]);
    let mut s = [0u8; 32];
    let mut r = crate::rng::Rng::new(h);
    for c in s.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &s),
    )
}

#[derive(Serialize, serde::Deserialize)]
pub struct Replay<C> {
    pub property: String,
    pub section: String,
    pub fail: Fail,
    pub case: C,
}

pub struct Search<'a, C> {
    pub name: &'a str,
    pub rule: &'a str,
    pub strategy: &'a (dyn Fn() -> BoxedStrategy<C> + Sync),
    pub cases: u64,
    pub exec: &'a (dyn Fn(&C, bool) -> CaseResult + Sync),
}

pub fn search<C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static>(o: &Opts, watch: &Watch, s: Search<C>) -> anyhow::Result<Section> {
    let t0 = Instant::now();
    let n = ((s.cases as f64) * o.scale).ceil().max(1.0) as u64;
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let broken = Mutex::new(None::<String>);
    let sec = Mutex::new(Section {
        name: s.name.into(),
        rule: s.rule.into(),
        generated: 0,
        nontrivial: 0,
        distinct: BTreeSet::new(),
        stats: BTreeMap::new(),
        other: BTreeMap::new(),
        samples: vec![],
        wall_s: 0.0,
        fails: vec![],
        shrunk: 0,
    });
    let sample_at: BTreeSet<u64> = [0, n / 3, 2 * n / 3].into_iter().collect();
    let stop = AtomicBool::new(false);
    let slow = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..o.threads.min(n as usize).max(1) {
            let mk = s.strategy;
            let (next, first_fail, sec, broken, stop, sample_at, slow) = (&next, &first_fail, &sec, &broken, &stop, &sample_at, &slow);
            let exec = s.exec;
            let name = s.name;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || { let st = mk(); loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > first_fail.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let mut r = runner(o.seed, &o.property, name, i);
                    let tree = match st.new_tree(&mut r) {
                        Ok(t) => t,
                        Err(e) => {
                            *broken.lock().unwrap() = Some(format!("generator: {e}"));
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    };
                    let c = tree.current();
                    let t = Instant::now();
                    let res = exec(&c, false);
                    if t.elapsed() > Duration::from_secs(10) {
                        slow.fetch_add(1, Ordering::Relaxed);
                        if std::env::var("VP_DEBUG").is_ok() {
                            eprintln!("slow case {i}: {:?} {}", t.elapsed(), serde_json::to_string(&c).unwrap());
                        }
                    }
                    watch.kick();
                    if let Some(b) = res.broken {
                        eprintln!("case {i}: {b}: {}", serde_json::to_string(&c).unwrap());
                        *broken.lock().unwrap() = Some(b);
                        stop.store(true, Ordering::SeqCst);
                        break;
                    }
                    let mut g = sec.lock().unwrap();
                    g.generated += 1;
                    for (k, v) in &res.stats {
                        *g.stats.entry(k.clone()).or_insert(0) += v;
                    }
                    for k in res.other {
                        *g.other.entry(k).or_insert(0) += 1;
                    }
                    if res.nontrivial {
                        g.nontrivial += 1;
                        g.distinct.insert(res.digest);
                    }
                    if sample_at.contains(&i) {
                        g.samples.push(serde_json::json!({"case": i, "nontrivial": res.nontrivial, "input": serde_json::to_value(&c).unwrap(), "observed": res.stats}));
                    }
                    if !res.fails.is_empty() {
                        first_fail.fetch_min(i, Ordering::SeqCst);
                    }
                }})
                .unwrap();
        }
    });
    if let Some(b) = broken.into_inner().unwrap() {
        anyhow::bail!("harness failure: {b}");
    }
    let mut sec = sec.into_inner().unwrap();
    let ff = first_fail.load(Ordering::SeqCst);
    if ff != u64::MAX {
        // Shrink, keeping the class of the failure.
        let mut r = runner(o.seed, &o.property, s.name, ff);
        let mut tree = (s.strategy)().new_tree(&mut r).unwrap();
        let mut best = tree.current();
        let mut res = (s.exec)(&best, false);
        watch.kick();
        // A case of real threads may need several tries.
        for _ in 0..20 {
            if !res.fails.is_empty() {
                break;
            }
            res = (s.exec)(&best, false);
            watch.kick();
        }
        anyhow::ensure!(!res.fails.is_empty(), "case {ff} of {} failed once but not again: the harness isn't deterministic", s.name);
        let class = res.fails[0].class.clone();
        let mut fail = res.fails[0].clone();
        let t = Instant::now();
        let budget = 400;
        let mut k = 0;
        let mut more = tree.simplify();
        while more && k < budget && t.elapsed() < Duration::from_secs(120) {
            k += 1;
            let c = tree.current();
            let res = (s.exec)(&c, false);
            watch.kick();
            if let Some(f) = res.fails.iter().find(|f| f.class == class) {
                fail = f.clone();
                best = c;
                more = tree.simplify();
            } else {
                more = tree.complicate();
            }
        }
        sec.shrunk = k;
        let res = (s.exec)(&best, true);
        let rep = Replay { property: o.property.clone(), section: s.name.to_string(), fail: fail.clone(), case: best };
        let js = serde_json::to_string(&rep)?;
        let dir = format!("{}/replays", o.verif);
        std::fs::create_dir_all(&dir)?;
        let path = format!("{dir}/{}-{}-{:08x}.json", o.property, s.name, crate::rng::hash_bytes(js.as_bytes()) as u32);
        std::fs::write(&path, js)?;
        if !res.trace.is_empty() {
            std::fs::write(path.replace(".json", ".trace"), res.trace.join("\n"))?;
        }
        sec.fails.push((s.name.to_string(), fail, path));
    }
    sec.wall_s = t0.elapsed().as_secs_f64();
    if std::env::var("VP_DEBUG").is_ok() {
        eprintln!("[{}] {} cases {:.1}s nontrivial {} distinct {} other {:?}", sec.name, sec.generated, sec.wall_s, sec.nontrivial, sec.distinct.len(), sec.other);
        eprintln!("   {:?}", sec.stats);
    }
    Ok(sec)
}
