//! C15: one real follower, all leaders played by the harness from a generated history of leaders.

use crate::cluster::{make_snapshot, simulate};
use crate::driver::*;
use crate::oracle::Kind as K;
use crate::rig::*;
use crate::wire::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sorock::process::{Clock, Entry};
use std::collections::BTreeMap;
use std::sync::Arc;

const MEMBERS: usize = 5;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sel {
    /// relative to the first entry the follower lacks
    Next(i8),
    /// anywhere in the log of the leader
    Frac(u8),
    /// at the snapshot of the leader
    Snap,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FOp {
    /// entries of the log of a leader; `t`: 0 is the newest leader so far, 1 the next one, negative are older ones
    Stream { t: i8, l: Sel, n: u8, cut: Option<u8>, gap_ms: u16, bg: bool },
    Beat { t: i8, c: u8, n: u8, bg: bool },
    /// a candidate of a term in which nobody is elected
    Vote { up: u8, ahead: bool, force: bool, pre: bool },
    Wait { ms: u16 },
    /// the application makes a snapshot
    Snapshot,
    /// the leader can't send its snapshots
    Fetch { ok: bool },
    Restart { down_ms: u16 },
    CrashAt { steps: u8, down_ms: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    pub seed: u64,
    pub store: StoreProf,
    pub queue: bool,
    pub terms: Vec<TermSpec>,
    /// log at the start: a part of the log of one of the first leaders
    pub start: Option<(u8, u8)>,
    pub ops: Vec<FOp>,
}

fn term_spec() -> impl Strategy<Value = TermSpec> {
    let kind = prop_oneof![6 => Just(Kind::Exec), 1 => Just(Kind::Config), 1 => Just(Kind::Complete)];
    (0u8..3, 1u8..MEMBERS as u8, any::<u8>(), any::<u8>(), prop::collection::vec(kind, 0..9), any::<u8>(), prop::option::weighted(0.35, any::<u8>()))
        .prop_map(|(gap, leader, parent, cut, entries, commit, snap)| TermSpec { gap, leader, parent, cut, entries, commit, snap })
}
pub fn store_strategy() -> BoxedStrategy<StoreProf> {
    let z = |hi: u32| prop_oneof![2 => Just(0u32), 2 => 1..hi];
    (z(60), z(60), prop_oneof![3 => Just(0u32), 1 => 1u32..4], z(40), prop_oneof![4 => z(60), 1 => 100u32..900])
        .prop_map(|(a, b, r, c, d)| StoreProf { ins_pre: a, ins_post: b, read: r, ballot: c, app: d, err: 0 })
        .boxed()
}

fn fop() -> impl Strategy<Value = FOp> {
    let t = || prop_oneof![6 => Just(0i8), 3 => Just(1i8), 1 => Just(2i8), 2 => -2i8..0];
    let sel = prop_oneof![5 => Just(Sel::Next(0)), 3 => (-4i8..5).prop_map(Sel::Next), 2 => any::<u8>().prop_map(Sel::Frac), 2 => Just(Sel::Snap)];
    let cut = prop::option::weighted(0.15, 0u8..6);
    prop_oneof![
        10 => (t(), sel, prop_oneof![1 => Just(0u8), 6 => 1u8..6, 3 => 1u8..20], cut, prop_oneof![3 => Just(0u16), 1 => 1u16..300], prop::bool::weighted(0.2))
            .prop_map(|(t, l, n, cut, gap_ms, bg)| FOp::Stream { t, l, n, cut, gap_ms, bg }),
        6 => (t(), prop_oneof![2 => Just(255u8), 1 => any::<u8>()], 1u8..4, prop::bool::weighted(0.15)).prop_map(|(t, c, n, bg)| FOp::Beat { t, c, n, bg }),
        1 => (0u8..3, any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(up, ahead, force, pre)| FOp::Vote { up, ahead, force, pre }),
        2 => (1u16..4000).prop_map(|ms| FOp::Wait { ms }),
        1 => Just(FOp::Snapshot),
        1 => any::<bool>().prop_map(|ok| FOp::Fetch { ok }),
        1 => (1u16..2000).prop_map(|down_ms| FOp::Restart { down_ms }),
        1 => (0u8..30, 1u16..2000).prop_map(|(steps, down_ms)| FOp::CrashAt { steps, down_ms }),
    ]
}

pub fn case() -> BoxedStrategy<FCase> {
    (
        any::<u64>().no_shrink(),
        store_strategy(),
        any::<bool>(),
        prop::collection::vec(term_spec(), 2..7),
        prop::option::weighted(0.6, (any::<u8>(), any::<u8>())),
        prop::collection::vec(fop(), 6..34),
    )
        .prop_map(|(seed, store, queue, terms, start, ops)| FCase { seed, store, queue, terms, start, ops })
        .boxed()
}

const KINDS: &[K] = &[
    K::BallotRegress, K::ChainBroken, K::LogMismatch, K::CompactionLoss, K::SnapshotContent, K::ApplyOrder, K::CommittedLost,
    K::RestartFailed, K::TaskPanic, K::Livelock, K::StateDiverge, K::ApplyDiverge,
];

struct Sim {
    r: Rig,
    u: Arc<Universe>,
    /// index of the newest leader that sent something
    cur: usize,
    // the model
    term: u64,
    voted: Option<String>,
    log: BTreeMap<u64, Clock>,
    snap: u64,
    commit_lo: u64,
    commit_hi: u64,
    fetch_ok: bool,
    /// something ran at the same time: states are looked up instead of predicted
    blurred: bool,
    inc: u64,
    bg: Vec<tokio::task::JoinHandle<()>>,
    fails: Vec<Fail>,
    stats: BTreeMap<String, u64>,
}

impl Sim {
    fn fail(&mut self, class: &str, msg: String) {
        let now = self.r.w.now();
        self.r.w.t(|| format!("VIOLATED {class}: {msg}"));
        if self.fails.len() < 5 {
            self.fails.push(Fail { class: class.into(), msg: format!("at {now} ms: {msg}") });
        }
    }
    fn stat(&mut self, k: &str) {
        *self.stats.entry(k.into()).or_insert(0) += 1;
    }

    /// Nothing crashed since the last look.
    fn steady(&self) -> bool {
        let st = self.r.w.lock();
        let n = &st.nodes[0];
        n.up && n.fuse.is_none() && n.inc == self.inc
    }

    fn pick(&self, t: i8) -> usize {
        (self.cur as i64 + t as i64).clamp(0, self.u.terms.len() as i64 - 1) as usize
    }

    /// Entries of the log of the leader which the follower holds from its beginning.
    fn matched(&self, k: usize) -> u64 {
        let l = &self.u.terms[k].log;
        let disk = self.r.log(0, 0);
        // equal clocks imply equal predecessors
        disk.iter().rev().find(|(i, e)| l.get(i).map(|x| x.this_clock) == Some(e.this_clock)).map(|x| *x.0).unwrap_or(0)
    }

    fn lookup(&mut self) {
        let b = self.r.ballot(0, 0);
        self.term = b.as_ref().map(|x| x.0).unwrap_or(0);
        self.voted = b.and_then(|x| x.1);
        let l = self.r.log(0, 0);
        self.snap = l.iter().rev().find(|(_, e)| matches!(decode_cmd(&e.command), Cmd::Snapshot(_))).map(|x| *x.0).unwrap_or(0);
        self.log = l.iter().map(|(i, e)| (*i, e.this_clock)).collect();
    }

    /// Wait for requests in the background and let the node finish.
    async fn settle(&mut self) {
        for h in std::mem::take(&mut self.bg) {
            h.await.ok();
        }
        for _ in 0..60 {
            if self.r.w.lock().nodes[0].up {
                break;
            }
            self.r.ms(200).await;
        }
        self.r.ms(2500).await;
        self.lookup();
        self.blurred = false;
        let inc = self.r.w.lock().nodes[0].inc;
        if inc != self.inc {
            self.inc = inc;
            self.stat("restarts");
            // What was announced is forgotten.
            self.commit_lo = 0;
        }
    }

    /// Durable effects since the last look.
    fn events(&mut self) {
        let ev = std::mem::take(self.r.w.lock().ev.as_mut().unwrap());
        let u = self.u.clone();
        for e in ev {
            match e {
                Ev::Insert { old, e, ballot, .. } => {
                    let c = e.this_clock;
                    if old == Some(c) && matches!(decode_cmd(&e.command), Cmd::Snapshot(_)) {
                        // own snapshot or the leader's
                        self.stat("snapshot_replaces_entry");
                        continue;
                    }
                    let (t, v) = ballot.unwrap_or((0, None));
                    let Some(l) = u.of_term(t) else {
                        self.fail("Foreign", format!("entry {c:?} was stored while the current term is {t} which has no leader"));
                        continue;
                    };
                    if v.as_deref() != Some(&uri_of(l.leader)) {
                        self.fail("Foreign", format!("entry {c:?} was stored in term {t} but the leader is known as {v:?} instead of {}", uri_of(l.leader)));
                    }
                    let want = l.log.get(&c.index);
                    let same = want.map(|x| x.this_clock == c && x.prev_clock == e.prev_clock && (x.command == e.command || is_snap(&x.command) || is_snap(&e.command))).unwrap_or(false);
                    if !same {
                        self.fail("Foreign", format!("entry {c:?} was stored in term {t} but the leader of the term has {:?} there", want.map(|x| x.this_clock)));
                    }
                    if old == Some(c) {
                        self.stat("rewritten_same");
                    }
                    self.stat("inserted");
                }
                Ev::DelFrom { gone, ballot, .. } => {
                    let t = ballot.map(|b| b.0).unwrap_or(0);
                    self.stats.entry("truncated".into()).and_modify(|x| *x += gone.len() as u64).or_insert(gone.len() as u64);
                    if let (Some(l), Some(g)) = (u.of_term(t), gone.first()) {
                        match l.log.get(&g.index) {
                            Some(x) if x.this_clock == *g => {
                                self.fail("Shortened", format!("{} entries from {g:?} were removed in term {t} but the first one is in the log of its leader", gone.len()));
                            }
                            None => {
                                self.fail("Shortened", format!("{} entries from {g:?} were removed in term {t} but the log of its leader ends before", gone.len()));
                            }
                            _ => {}
                        }
                    } else if let Some(g) = gone.first() {
                        self.fail("Shortened", format!("{} entries from {g:?} were removed in term {t} which has no leader", gone.len()));
                    }
                }
                Ev::Ballot { .. } => {}
            }
        }
    }

    /// What the follower has to do with a stream. Returns the number of accepted entries, None: an error.
    fn predict(&mut self, k: usize, window: std::ops::Range<u64>, cut: Option<u64>) -> Option<u64> {
        let t = &self.u.clone().terms[k];
        if t.term < self.term {
            return None;
        }
        self.term = t.term;
        self.voted = Some(uri_of(t.leader));
        let mut n = 0;
        for (i, e) in t.log.range(window) {
            if cut == Some(n) {
                break;
            }
            if *i <= self.snap {
                n += 1;
                continue;
            }
            if is_snap(&e.command) {
                if self.log.get(i) != Some(&e.this_clock) {
                    if !self.fetch_ok && *i != 1 {
                        return None;
                    }
                    self.log.split_off(i);
                    self.log.insert(*i, e.this_clock);
                    self.snap = *i;
                }
                n += 1;
                continue;
            }
            match self.log.get(&e.prev_clock.index) {
                Some(c) if *c == e.prev_clock => {}
                _ => break,
            }
            if self.log.get(i) != Some(&e.this_clock) {
                self.log.split_off(i);
                self.log.insert(*i, e.this_clock);
            }
            n += 1;
        }
        Some(n)
    }

    /// Snapshots of its own application.
    fn adopt(&mut self) {
        let l = self.r.log(0, 0);
        if let Some((i, e)) = l.iter().rev().find(|(_, e)| is_snap(&e.command)) {
            if *i > self.snap && *i <= self.commit_hi && self.log.get(i) == Some(&e.this_clock) {
                self.snap = *i;
            }
        }
    }

    fn compare(&mut self, what: &str) {
        self.adopt();
        let disk: BTreeMap<u64, Clock> = self.r.log(0, 0).iter().map(|(i, e)| (*i, e.this_clock)).collect();
        let want: BTreeMap<u64, Clock> = self.log.range(self.snap.max(1)..).map(|(i, c)| (*i, *c)).collect();
        let have: BTreeMap<u64, Clock> = disk.range(self.snap.max(1)..).map(|(i, c)| (*i, *c)).collect();
        if want != have {
            self.fail("Log", format!("after {what} the log is {} but has to be {}", brief(&have), brief(&want)));
            self.log = disk;
        }
        let b = self.r.ballot(0, 0).unwrap_or((0, None));
        if b != (self.term, self.voted.clone()) {
            let (t, v) = (self.term, self.voted.clone());
            self.fail("Ballot", format!("after {what} the ballot is {b:?} but has to be {:?}", (t, v)));
            self.lookup();
        }
    }

    /// The application has executed exactly what was announced.
    async fn executed(&mut self) {
        let mut bad = None;
        for k in 0..300 {
            if k > 0 {
                self.r.ms(200).await;
            }
            let (ops, up) = {
                let st = self.r.w.lock();
                (st.nodes[0].apps.get(&0).map(|a| a.ops.clone()).unwrap_or_default(), st.nodes[0].up)
            };
            if !up {
                continue;
            }
            let all = self.u.state_at(self.commit_hi).ops;
            if ops.len() > all.len() || ops[..] != all[..ops.len()] {
                bad = Some(format!("executed {ops:?}, announced up to {}: {all:?}", self.commit_hi));
                break;
            }
            bad = None;
            if self.commit_lo >= self.snap {
                let need = self.u.state_at(self.commit_lo).ops;
                if ops.len() < need.len() {
                    bad = Some(format!("executed {ops:?} but up to {} is announced: {need:?}", self.commit_lo));
                    continue;
                }
            }
            break;
        }
        if let Some(b) = bad {
            self.fail("Executed", b);
        }
    }

    async fn op(&mut self, op: &FOp) {
        self.r.w.t(|| format!("-- {op:?}"));
        let inc = self.r.w.lock().nodes[0].inc;
        if (inc != self.inc || !self.r.w.lock().nodes[0].up) && !matches!(op, FOp::Wait { .. }) {
            self.settle().await;
        }
        match op {
            FOp::Stream { t, l, n, cut, gap_ms, bg } => {
                let k = self.pick(*t);
                let u = self.u.clone();
                let tl = &u.terms[k];
                if tl.term >= self.term {
                    self.cur = self.cur.max(k);
                }
                let at = match l {
                    Sel::Next(d) => (self.matched(k) + 1).saturating_add_signed(*d as i64),
                    Sel::Frac(f) => 1 + *f as u64 * tl.last() / 256,
                    Sel::Snap => tl.snap,
                };
                let at = at.clamp(1, tl.last());
                let window = at..(at + *n as u64).min(tl.last() + 1);
                let (cut, gap) = (cut.map(|c| c as u64), *gap_ms as u64);
                if *bg {
                    self.blurred = true;
                    let (r, u) = (Rig { w: self.r.w.clone(), pup: self.r.pup.clone() }, u.clone());
                    self.bg.push(tokio::spawn(async move {
                        let tl = &u.terms[k];
                        r.stream(0, tl.leader, 0, tl.term, &tl.log, window, cut, gap).await.ok();
                    }));
                    self.r.ms(5).await;
                    return;
                }
                let res = self.r.stream(0, tl.leader, 0, tl.term, &tl.log, window.clone(), cut, gap).await;
                let up = self.steady();
                if self.blurred || !up {
                    self.blurred = true;
                    return;
                }
                self.stat("streams");
                self.adopt();
                let stale = tl.term < self.term;
                if stale {
                    self.stat("stale_messages");
                }
                let before = self.log.clone();
                let want = self.predict(k, window.clone(), cut);
                if self.log.len() < before.len() || before.iter().any(|(i, c)| self.log.get(i) != Some(c)) {
                    self.stat("conflicts");
                }
                let what = format!("the stream {window:?} (cut {cut:?}) of term {}", tl.term);
                match (&want, &res) {
                    (None, Err(CallErr::Status(_))) => {}
                    (Some(n), Ok(r)) => {
                        let last = self.log.keys().next_back().copied().unwrap_or(0);
                        if r.n_inserted != *n || r.log_last_index != last {
                            self.fail("Count", format!("{what}: answer {r:?} but {n} entries are accepted and the last index is {last}"));
                        }
                    }
                    _ => self.fail("Count", format!("{what}: answer {res:?}, expected {want:?}")),
                }
                self.compare(&what);
            }
            FOp::Beat { t, c, n, bg } => {
                let k = self.pick(*t);
                let u = self.u.clone();
                let tl = &u.terms[k];
                if tl.term >= self.term {
                    self.cur = self.cur.max(k);
                }
                // Only what the follower has accepted from this leader or a position that is safe for every log which has
                // no conflict with the leader's.
                let m = self.matched(k);
                let disk = self.r.log(0, 0);
                let clean = disk.keys().next_back().copied().unwrap_or(0) <= m;
                let top = if clean && !self.blurred { tl.commit } else { tl.commit.min(m) };
                // the stream in the background may replace entries
                let commit = top * (*c as u64 + 1) / 256;
                if *bg {
                    self.blurred = true;
                    self.commit_hi = self.commit_hi.max(commit);
                    let (r, u) = (Rig { w: self.r.w.clone(), pup: self.r.pup.clone() }, u.clone());
                    self.bg.push(tokio::spawn(async move {
                        let tl = &u.terms[k];
                        r.heartbeat(0, tl.leader, 0, tl.term, commit).await.ok();
                    }));
                    return;
                }
                for _ in 0..*n {
                    let res = self.r.heartbeat(0, tl.leader, 0, tl.term, commit).await;
                    let up = self.steady();
                    self.commit_hi = self.commit_hi.max(commit);
                    if self.blurred || !up {
                        self.blurred = true;
                        return;
                    }
                    self.stat("heartbeats");
                    if tl.term < self.term {
                        self.stat("stale_messages");
                    } else {
                        self.term = tl.term;
                        self.voted = Some(uri_of(tl.leader));
                        let last = self.log.keys().next_back().copied().unwrap_or(0);
                        self.commit_lo = self.commit_lo.max(commit.min(last));
                        if res.is_err() {
                            self.fail("Heartbeat", format!("heartbeat of term {}: {res:?}", tl.term));
                        }
                    }
                    self.compare(&format!("a heartbeat of term {} with commit index {commit}", tl.term));
                    self.r.ms(100).await;
                }
                if tl.term >= self.term {
                    self.executed().await;
                }
            }
            FOp::Vote { up, ahead, force, pre } => {
                if self.blurred {
                    self.settle().await;
                }
                let last = self.log.values().next_back().copied().unwrap_or(Clock { term: 0, index: 0 });
                let cand = self.u.terms[self.cur].leader % 4 + 1;
                let v = VoteRequest {
                    shard_id: 0,
                    vote_term: self.term + *up as u64,
                    candidate_id: uri_of(cand),
                    candidate_clock: Some(crate::wire::Clock { term: if *ahead { last.term + 1 } else { last.term }, index: last.index.saturating_sub(!*ahead as u64) }),
                    force_vote: *force,
                    pre_vote: *pre,
                };
                // A vote may not be given in the term of a later leader to somebody else.
                if self.u.of_term(v.vote_term).is_some() && !*pre {
                    return;
                }
                self.r.vote(0, &v).await.ok();
                self.lookup();
            }
            FOp::Wait { ms } => {
                self.r.ms(*ms as u64).await;
            }
            FOp::Snapshot => {
                if self.blurred {
                    self.settle().await;
                }
                let before: BTreeMap<u64, Clock> = self.log.clone();
                make_snapshot(&self.r.w, 0, 0);
                self.r.ms(2500).await;
                self.lookup();
                let l = self.log.clone();
                for (i, c) in before.range(self.snap..) {
                    if l.get(i) != Some(c) {
                        self.fail("Log", format!("making a snapshot changed the log: {} became {}", brief(&before), brief(&l)));
                        break;
                    }
                }
            }
            FOp::Fetch { ok } => {
                if self.blurred {
                    self.settle().await;
                }
                self.fetch_ok = *ok;
                fill_snaps(&self.r, &self.u, *ok);
            }
            FOp::Restart { down_ms } => {
                self.r.w.crash(0);
                self.r.ms(*down_ms as u64).await;
                self.r.w.restart(0).await;
                self.settle().await;
            }
            FOp::CrashAt { steps, down_ms } => {
                let mut st = self.r.w.lock();
                if st.nodes[0].up {
                    st.nodes[0].fuse = Some((*steps as u32, *down_ms as u32));
                }
            }
        }
    }
}

fn is_snap(c: &[u8]) -> bool {
    matches!(decode_cmd(c), Cmd::Snapshot(_))
}
fn brief(l: &BTreeMap<u64, Clock>) -> String {
    l.iter().map(|(i, c)| format!("{i}:{}", c.term)).collect::<Vec<_>>().join(" ")
}

pub fn fill_snaps(r: &Rig, u: &Universe, ok: bool) {
    let mut s = r.pup.s();
    s.snaps.clear();
    for t in &u.terms {
        if t.snap > 1 && ok {
            let b = bincode::serialize(&u.state_at(t.snap)).unwrap();
            s.snaps.insert((t.leader, t.snap), Some(b.into()));
        }
    }
}

async fn run(c: FCase, trace: bool) -> CaseResult {
    let r = Rig::new(c.seed, 1, MEMBERS, 1, calm_net(), c.store.clone(), c.queue, trace);
    let u = Arc::new(Universe::build(MEMBERS, &c.terms));
    fill_snaps(&r, &u, true);
    u.register(&r.w, 0);
    let mut cur = 0;
    if let Some((t, len)) = c.start {
        let k = t as usize % u.terms.len().min(3);
        let tl = &u.terms[k];
        cur = k;
        let n = 1 + len as u64 * tl.last() / 256;
        let mut st = r.w.lock();
        let d = st.nodes[0].disks.get_mut(&0).unwrap();
        d.log = tl.log.range(..=n).map(|(i, e)| (*i, e.clone())).collect::<BTreeMap<u64, Entry>>();
        if tl.snap > 1 && tl.snap <= n {
            d.snaps.insert(tl.snap, u.state_at(tl.snap));
        }
        d.ballot = Some((tl.term, Some(uri_of(tl.leader))));
    }
    r.w.start_node(0).await.ok();
    let mut s = Sim {
        r,
        u,
        cur,
        term: 0,
        voted: None,
        log: BTreeMap::new(),
        snap: 0,
        commit_lo: 0,
        commit_hi: 0,
        fetch_ok: true,
        blurred: false,
        inc: 0,
        bg: vec![],
        fails: vec![],
        stats: BTreeMap::new(),
    };
    // what was executed before the start
    s.lookup();
    s.inc = s.r.w.lock().nodes[0].inc;
    for op in &c.ops {
        s.op(op).await;
        s.events();
        if s.blurred && s.bg.len() >= 3 {
            s.settle().await;
            s.events();
            s.executed().await;
        }
        if !s.fails.is_empty() {
            break;
        }
    }
    if s.fails.is_empty() {
        s.r.w.lock().nodes[0].fuse = None;
        s.settle().await;
        s.events();
        s.executed().await;
        // The newest leader brings the follower up.
        if s.fails.is_empty() {
            s.fetch_ok = true;
            fill_snaps(&s.r, &s.u, true);
            let u = s.u.clone();
            let k = u.terms.iter().position(|t| t.term >= s.term);
            if let Some(k) = k {
                let tl = &u.terms[k];
                s.cur = s.cur.max(k);
                for at in [tl.snap, 1] {
                    let w = at..tl.last() + 1;
                    let want = s.predict(k, w.clone(), None);
                    let res = s.r.stream(0, tl.leader, 0, tl.term, &tl.log, w.clone(), None, 0).await;
                    if res.as_ref().ok().map(|r| r.n_inserted) != want {
                        s.fail("Count", format!("the stream {w:?} of term {}: answer {res:?}, expected {want:?}", tl.term));
                    }
                    s.compare("the last stream");
                }
                s.r.heartbeat(0, tl.leader, 0, tl.term, tl.commit).await.ok();
                s.commit_lo = tl.commit;
                s.commit_hi = s.commit_hi.max(tl.commit);
                s.executed().await;
                s.stat("completed");
            }
            s.events();
        }
    }
    s.r.w.finish_panics();
    let mut out = CaseResult { ..Default::default() };
    {
        let mut st = s.r.w.lock();
        for v in &st.orc.violations {
            if KINDS.contains(&v.kind) {
                s.fails.push(Fail { class: format!("{:?}", v.kind), msg: format!("at {} ms: {}", v.at_ms, v.msg) });
            }
        }
        out.trace = st.trace.take().unwrap_or_default();
        let d: Vec<u64> = st.nodes[0].disks[&0].log.iter().flat_map(|(i, e)| [*i, e.this_clock.term]).chain([st.rpcs, s.term]).collect();
        out.digest = crate::rng::mix(&[crate::rng::mix(&d), s.stats.values().fold(0, |a, b| a.wrapping_mul(31).wrapping_add(*b))]);
        for k in ["compactions", "snapshots_saved", "snapshot_installs", "crash_points"] {
            if let Some(v) = st.orc.stats.get(k) {
                s.stats.insert(k.into(), *v);
            }
        }
    }
    s.r.w.crash(0);
    sorock::verif_hooks::set_connector(None);
    out.fails = s.fails;
    out.stats = s.stats;
    let g = |k: &str| out.stats.get(k).copied().unwrap_or(0);
    out.nontrivial = g("inserted") >= 5 && g("streams") >= 4 && (g("truncated") >= 1 || g("stale_messages") >= 1 || g("restarts") >= 1 || g("snapshots_saved") >= 1);
    out
}

pub fn exec(c: &FCase, trace: bool) -> CaseResult {
    let c = c.clone();
    simulate(c.seed, move || run(c, trace)).unwrap_or_else(|| CaseResult { broken: Some("the simulation panicked".into()), ..Default::default() })
}

pub const RULE: &str = "generated history of leaders (terms, logs that branch, commitments, compactions), and generated streams, heartbeats, votes, restarts and crashes sent to one real follower which is compared with a model after each message; non-trivial when at least 5 entries were stored, 4 streams compared, and entries were removed, a stale message ignored, the node restarted, or a snapshot fetched";
