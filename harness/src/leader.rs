//! C16: one real leader, the followers are played by the harness with logs of their own.

use crate::cluster::{make_snapshot, simulate};
use crate::driver::*;
use crate::follower::store_strategy;
use crate::oracle::{AppState, Kind as K};
use crate::rig::*;
use crate::rng::Rng;
use crate::wire::*;
use crate::world::*;
use bytes::Bytes;
use futures::future::BoxFuture;
use proptest::prelude::*;
use prost::Message;
use serde::{Deserialize, Serialize};
use sorock::process::{Clock as LClock, Entry};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mode {
    /// in 1000
    pub lose_resp: u16,
    pub reject: u16,
    pub partial: u16,
    pub slow: u16,
    pub late: u16,
    pub slow_ms: u16,
    pub fail_fetch: u16,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LOp {
    Write { n: u8 },
    Wait { ms: u16 },
    Down { p: u8 },
    Up { p: u8 },
    Behave { p: u8, m: Mode },
    Snapshot,
    /// a follower took part in an election that failed
    NewTerm { p: u8, up: u8 },
    /// a follower leads for a while
    Usurp { spread: u8, entries: u8, part: u8, commit: bool, stay_ms: u16, back: bool },
    /// a follower leads for a while when a response to the leader is on its way
    Overtake { p: u8, n: u8, ms: u16, late_ms: u16, by: u8, part: u8, then: u8 },
    Restart { down_ms: u16 },
    CrashAt { steps: u8, down_ms: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Start {
    /// whose log and how much of it
    pub term: u8,
    pub len: u8,
    pub empty: bool,
    pub compacted: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LCase {
    pub seed: u64,
    pub n: u8,
    pub store: StoreProf,
    pub queue: bool,
    pub net: NetProf,
    pub terms: Vec<TermSpec>,
    pub own_cut: u8,
    pub own_compacted: bool,
    pub starts: Vec<Start>,
    pub ops: Vec<LOp>,
}

fn mode() -> impl Strategy<Value = Mode> {
    let p = || prop_oneof![2 => Just(0u16), 1 => 50u16..500];
    (p(), p(), p(), p(), p(), prop_oneof![1u16..3000, 1u16..9000], p()).prop_map(|(lose_resp, reject, partial, slow, late, slow_ms, fail_fetch)| Mode { lose_resp, reject, partial, slow, late, slow_ms, fail_fetch })
}

fn lop() -> impl Strategy<Value = LOp> {
    prop_oneof![
        8 => prop_oneof![3 => 1u8..4, 1 => 4u8..20].prop_map(|n| LOp::Write { n }),
        6 => prop_oneof![2 => 1u16..1000, 2 => 1000u16..6000].prop_map(|ms| LOp::Wait { ms }),
        3 => any::<u8>().prop_map(|p| LOp::Down { p }),
        3 => any::<u8>().prop_map(|p| LOp::Up { p }),
        3 => (any::<u8>(), mode()).prop_map(|(p, m)| LOp::Behave { p, m }),
        2 => Just(LOp::Snapshot),
        1 => (any::<u8>(), 1u8..4).prop_map(|(p, up)| LOp::NewTerm { p, up }),
        3 => (any::<u8>(), 0u8..4, any::<u8>(), any::<bool>(), prop_oneof![3 => 0u16..400, 1 => 0u16..4000], any::<bool>())
            .prop_map(|(spread, entries, part, commit, stay_ms, back)| LOp::Usurp { spread, entries, part, commit, stay_ms, back }),
        2 => (any::<u8>(), 1u8..8, 1u16..200, 100u16..9000, any::<u8>(), any::<u8>(), 0u8..8)
            .prop_map(|(p, n, ms, late_ms, by, part, then)| LOp::Overtake { p, n, ms, late_ms, by, part, then }),
        1 => (1u16..3000).prop_map(|down_ms| LOp::Restart { down_ms }),
        1 => (0u8..30, 1u16..3000).prop_map(|(steps, down_ms)| LOp::CrashAt { steps, down_ms }),
    ]
}

fn term_spec() -> impl Strategy<Value = TermSpec> {
    let kind = prop_oneof![6 => Just(Kind::Exec), 1 => Just(Kind::Complete)];
    (0u8..3, any::<u8>(), any::<u8>(), prop::collection::vec(kind, 0..9), any::<u8>(), prop::option::weighted(0.4, any::<u8>()))
        .prop_map(|(gap, parent, cut, entries, commit, snap)| TermSpec { gap, leader: 1, parent, cut, entries, commit, snap })
}

pub fn case() -> BoxedStrategy<LCase> {
    let z = |hi: u32| prop_oneof![3 => Just(0u32), 2 => 1..hi];
    let net = (1u32..20, z(80), z(150), 1u32..3000).prop_map(|(lat, drop_req, long, long_ms)| NetProf { lat_lo: 1, lat_hi: 1 + lat, drop_req, drop_resp: 0, long, long_ms, cut: 0, hold: false });
    let start = (any::<u8>(), any::<u8>(), prop::bool::weighted(0.1), any::<bool>()).prop_map(|(term, len, empty, compacted)| Start { term, len, empty, compacted });
    (
        any::<u64>().no_shrink(),
        prop_oneof![1 => Just(1u8), 2 => Just(2), 5 => Just(3), 2 => Just(4), 6 => Just(5)],
        (store_strategy(), any::<bool>(), net),
        prop::collection::vec(term_spec(), 1..6),
        (any::<u8>(), any::<bool>()),
        prop::collection::vec(start, 4),
        prop::collection::vec(lop(), 4..24),
    )
        .prop_map(|(seed, n, (store, queue, net), terms, (own_cut, own_compacted), starts, ops)| LCase { seed, n, store, queue, net, terms, own_cut, own_compacted, starts, ops })
        .boxed()
}

struct Foll {
    up: bool,
    term: u64,
    /// voted for another follower
    taken: bool,
    mode: Option<Mode>,
}

struct Shared {
    rng: Rng,
    f: Vec<Foll>,
    /// everything up to here may be executed and announced
    est: u64,
    /// commit position announced to a follower
    /// the entry there if another leader committed it
    must: Option<LClock>,
    told: BTreeMap<usize, u64>,
    /// terms of which a follower was the leader
    led: BTreeSet<u64>,
    /// the log of the leader from its beginning
    hist: BTreeMap<u64, LClock>,
    /// entries that were ever in its log and their predecessors
    seen: HashMap<(u64, u64), LClock>,
    fails: Vec<Fail>,
    stats: BTreeMap<String, u64>,
}

struct Play {
    w: Arc<World>,
    n: usize,
    first_own: u64,
    s: Mutex<Shared>,
    rig: Mutex<Option<Arc<Rig>>>,
}

fn is_snap(e: &Entry) -> bool {
    e.command.len() >= 4 && e.command[0] == 2
}
fn snap_of(l: &BTreeMap<u64, Entry>) -> u64 {
    l.iter().rev().find(|x| is_snap(x.1)).map(|x| *x.0).unwrap_or(0)
}

impl Play {
    fn lk(&self) -> std::sync::MutexGuard<'_, Shared> {
        self.s.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn fail(&self, class: &str, msg: String) {
        let now = self.w.now();
        self.w.t(|| format!("VIOLATED {class}: {msg}"));
        let mut s = self.lk();
        if s.fails.len() < 5 {
            s.fails.push(Fail { class: class.into(), msg: format!("at {now} ms: {msg}") });
        }
    }
    fn stat(&self, k: &str) {
        *self.lk().stats.entry(k.into()).or_insert(0) += 1;
    }
    fn disk(&self, n: usize) -> BTreeMap<u64, Entry> {
        self.w.lock().nodes[n].disks[&0].log.clone()
    }

    /// Entries of the term which the majority has accepted allow everything before them.
    fn establish(&self, term: u64) {
        if term < self.first_own {
            return;
        }
        let logs: Vec<_> = (0..self.n).map(|i| self.disk(i)).collect();
        let snaps: Vec<u64> = logs.iter().map(snap_of).collect();
        let est = self.lk().est;
        let mut best = est;
        for (i, e) in logs[0].range(est + 1..).rev() {
            if e.this_clock.term != term {
                continue;
            }
            let have = (0..self.n).filter(|p| logs[*p].get(i).map(|x| x.this_clock) == Some(e.this_clock) || snaps[*p] >= *i).count();
            if have * 2 > self.n {
                best = *i;
                break;
            }
        }
        self.lk().est = best;
    }

    /// Keep up with the log of the leader.
    fn follow(&self) {
        let mut s = self.lk();
        for e in std::mem::take(self.w.lock().ev.as_mut().unwrap()) {
            match e {
                Ev::Insert { e, .. } => {
                    s.hist.insert(e.this_clock.index, e.this_clock);
                    s.seen.insert((e.this_clock.term, e.this_clock.index), e.prev_clock);
                }
                Ev::DelFrom { gone, .. } => {
                    if let Some(c) = gone.first() {
                        s.hist.split_off(&c.index);
                    }
                    *s.stats.entry("leader_truncated".into()).or_insert(0) += 1;
                }
                _ => {}
            }
        }
    }

    /// The longest common beginning.
    fn matched(&self, p: usize) -> u64 {
        let b = self.disk(p);
        self.follow();
        let s = self.lk();
        let m = b.iter().rev().find(|(i, e)| s.hist.get(i) == Some(&e.this_clock)).map(|x| *x.0).unwrap_or(0);
        // what is compacted is committed
        m.max(snap_of(&b))
    }

    fn audit(&self, how: &str) {
        let (ballot, last) = {
            let st = self.w.lock();
            let n = &st.nodes[0];
            (n.disks[&0].ballot.clone(), n.apps.get(&0).map(|a| a.last_index()).unwrap_or(0))
        };
        if let Some((t, Some(v))) = &ballot {
            if *v == uri_of(0) {
                self.establish(*t);
            }
        }
        let est = self.lk().est;
        if last > est {
            self.fail("Executed", format!("({how}) the leader executed up to {last} but only {est} is accepted by a majority with an entry of its term"));
        }
    }

    fn replication(self: Arc<Self>, dst: usize, msgs: Vec<Bytes>) -> BoxFuture<'static, Answer> {
        Box::pin(async move {
            let mut head = None;
            let mut entries: Vec<(LClock, Bytes)> = vec![];
            for m in msgs {
                match ReplicationStreamChunk::decode(m).ok().and_then(|c| c.elem) {
                    Some(Elem::Header(h)) => head = Some(h),
                    Some(Elem::Entry(e)) => {
                        let c = e.clock.unwrap_or_default();
                        entries.push((LClock { term: c.term, index: c.index }, e.command));
                    }
                    None => break,
                }
            }
            let Some(h) = head else { return Err(()) };
            let pc = h.prev_clock.unwrap_or_default();
            let mut prev = LClock { term: pc.term, index: pc.index };
            // slow before the entries are stored
            let (m, slow) = {
                let mut s = self.lk();
                if !s.f[dst].up {
                    return Err(());
                }
                let m = s.f[dst].mode.clone();
                let slow = m.as_ref().map(|m| if s.rng.permille(m.slow as u32) { s.rng.range(1, m.slow_ms as u64) } else { 0 }).unwrap_or(0);
                (m, slow)
            };
            if slow > 0 {
                tokio::time::sleep(std::time::Duration::from_millis(slow)).await;
            }
            {
                let mut s = self.lk();
                if !s.f[dst].up || h.sender_term < s.f[dst].term {
                    *s.stats.entry("stale_streams".into()).or_insert(0) += 1;
                    return Err(());
                }
                if s.led.contains(&h.sender_term) {
                    drop(s);
                    self.fail("TwoLeaders", format!("streams in term {} which belongs to another leader", h.sender_term));
                    return Err(());
                }
                s.f[dst].term = h.sender_term;
                s.f[dst].taken = false;
                if let Some(m) = &m {
                    if !entries.is_empty() && s.rng.permille(m.reject as u32) {
                        *s.stats.entry("rejects".into()).or_insert(0) += 1;
                        drop(s);
                        let last = self.disk(dst).keys().next_back().copied().unwrap_or(0);
                        return Ok(vec![ReplicationStreamResponse { n_inserted: 0, log_last_index: last }.encode_to_vec().into()]);
                    }
                }
            }
            self.stat("streams");
            // The entries come from the log of the leader.
            self.follow();
            let mut at = prev;
            for (c, _) in &entries {
                if c.index != at.index + 1 || c.term < at.term || c.term > h.sender_term {
                    self.fail("Stream", format!("to n{dst} in term {}: {c:?} follows {at:?}", h.sender_term));
                }
                let pred = self.lk().seen.get(&(c.term, c.index)).copied();
                if pred != Some(at) {
                    self.fail("Stream", format!("to n{dst}: {c:?} after {at:?} isn't in the log of the leader where its predecessor is {pred:?}"));
                }
                at = *c;
            }
            // store
            let limit = {
                let mut s = self.lk();
                match &m {
                    Some(m) if s.rng.permille(m.partial as u32) => s.rng.below(entries.len() as u64 + 1) as usize,
                    _ => usize::MAX,
                }
            };
            let mut n = 0;
            let mut changed = false;
            for (k, (c, cmd)) in entries.into_iter().enumerate() {
                if k >= limit {
                    self.stat("partial");
                    break;
                }
                let log = self.disk(dst);
                let snap = snap_of(&log);
                if c.index <= snap || log.get(&c.index).map(|e| e.this_clock) == Some(c) {
                    n += 1;
                    prev = c;
                    continue;
                }
                let e = Entry { prev_clock: prev, this_clock: c, command: cmd };
                if is_snap(&e) {
                    let ok = c.index == 1 || self.fetch(dst, c.index, &m).await;
                    if !ok {
                        self.stat("fetch_failed");
                        return Err(());
                    }
                    // it took time
                    let mut s = self.lk();
                    if !s.f[dst].up || h.sender_term < s.f[dst].term {
                        return Err(());
                    }
                    *s.stats.entry("snapshots_sent".into()).or_insert(0) += 1;
                } else if log.get(&e.prev_clock.index).map(|x| x.this_clock) != Some(e.prev_clock) {
                    self.stat("inconsistent");
                    break;
                }
                let mut st = self.w.lock();
                let l = &mut st.nodes[dst].disks.get_mut(&0).unwrap().log;
                let gone = l.split_off(&c.index);
                if is_snap(&e) {
                    l.clear();
                }
                l.insert(c.index, e);
                drop(st);
                if !gone.is_empty() {
                    self.stat("conflicts");
                }
                changed = true;
                n += 1;
                prev = c;
            }
            if changed {
                self.establish(h.sender_term);
            }
            if let Some(m) = &m {
                let mut s = self.lk();
                if s.rng.permille(m.lose_resp as u32) {
                    return Err(());
                }
            }
            let slow = {
                let mut s = self.lk();
                m.as_ref().map(|m| if s.rng.permille(m.late as u32) { s.rng.range(1, m.slow_ms as u64) } else { 0 }).unwrap_or(0)
            };
            let last = self.disk(dst).keys().next_back().copied().unwrap_or(0);
            if slow > 0 {
                tokio::time::sleep(std::time::Duration::from_millis(slow)).await;
            }
            if !self.lk().f[dst].up {
                return Err(());
            }
            Ok(vec![ReplicationStreamResponse { n_inserted: n, log_last_index: last }.encode_to_vec().into()])
        })
    }

    async fn fetch(&self, dst: usize, index: u64, m: &Option<Mode>) -> bool {
        if let Some(m) = m {
            let mut s = self.lk();
            if s.rng.permille(m.fail_fetch as u32) {
                return false;
            }
        }
        let Some(rig) = self.rig.lock().unwrap().clone() else { return false };
        let r = rig.raw(0, Rpc::Snapshot, full_body(frame(&GetSnapshotRequest { shard_id: 0, index })), 20_000).await;
        let Ok(b) = r else { return false };
        let mut sp = Splitter::default();
        sp.push(&b);
        let mut data = vec![];
        while let Some(c) = sp.next() {
            if let Ok(c) = SnapshotChunk::decode(c) {
                data.extend_from_slice(&c.data);
            }
        }
        rig.pup.s().snaps.insert((dst, index), Some(data.clone().into()));
        match bincode::deserialize::<AppState>(&data) {
            Ok(a) => {
                let bad = self.w.lock().orc.check_state(0, &a);
                if a.last_index() > index || bad.is_some() {
                    self.fail("Snapshot", format!("n{dst} got snapshot {index} ending at {}: {bad:?}", a.last_index()));
                }
            }
            Err(e) => self.fail("Snapshot", format!("n{dst} got snapshot {index} of {} bytes: {e}", data.len())),
        }
        true
    }

    fn heartbeat(&self, dst: usize, msg: &Bytes) -> Answer {
        let Ok(h) = Heartbeat::decode(msg.clone()) else { return Err(()) };
        let mut newer = HeartbeatResponse::default();
        for (_, c) in h.leader_commit_states {
            {
                let mut s = self.lk();
                if !s.f[dst].up {
                    return Err(());
                }
                if c.leader_term < s.f[dst].term {
                    newer.newer_terms.insert(0, s.f[dst].term);
                    *s.stats.entry("newer_terms_told".into()).or_insert(0) += 1;
                    continue;
                }
                s.f[dst].term = c.leader_term;
                s.f[dst].taken = false;
            }
            self.stat("heartbeats");
            let m = self.matched(dst);
            if c.leader_commit_index > m {
                self.fail("Announced", format!("n{dst} has accepted entries up to {m} but is told to commit {}", c.leader_commit_index));
            }
            self.audit("heartbeat");
            let est = self.lk().est;
            if c.leader_commit_index > est {
                self.fail("Announced", format!("commit position {} is announced but only {est} is accepted by a majority with an entry of the term", c.leader_commit_index));
            }
            self.lk().told.insert(dst, c.leader_commit_index);
        }
        Ok(vec![newer.encode_to_vec().into()])
    }

    fn vote(&self, dst: usize, msg: &Bytes) -> Answer {
        let Ok(v) = VoteRequest::decode(msg.clone()) else { return Err(()) };
        let mut s = self.lk();
        if !s.f[dst].up {
            return Err(());
        }
        // Nobody becomes leader without what is committed.
        let own = self.disk(0);
        let full = s.must.as_ref().map(|c| snap_of(&own) >= c.index || own.get(&c.index).map(|e| e.this_clock) == Some(*c)).unwrap_or(true);
        let f = &mut s.f[dst];
        let ok = full && (v.vote_term > f.term || (v.vote_term == f.term && !f.taken));
        if ok && !v.pre_vote {
            f.term = v.vote_term;
            f.taken = false;
        }
        let r = VoteResponse { vote_granted: ok, term: f.term };
        Ok(vec![r.encode_to_vec().into()])
    }
}

struct Glue(Arc<Play>);
impl Script for Glue {
    fn serve(&self, _p: &Pup, _src: usize, dst: usize, kind: Rpc, msgs: &[Bytes]) -> Option<BoxFuture<'static, Answer>> {
        let first = msgs.first().cloned().unwrap_or_default();
        match kind {
            Rpc::Replication => Some(self.0.clone().replication(dst, msgs.to_vec())),
            Rpc::Heartbeat => {
                let r = self.0.heartbeat(dst, &first);
                Some(Box::pin(async move { r }))
            }
            Rpc::Vote => {
                let r = self.0.vote(dst, &first);
                Some(Box::pin(async move { r }))
            }
            _ => None,
        }
    }
}

async fn write(rig: Arc<Rig>, play: Arc<Play>, op: u64, limit_ms: u64) -> bool {
    let m = WriteRequest { shard_id: 0, message: op_payload(op, 0, 0), request_id: format!("w{op}") };
    let r: Result<Response, CallErr> = rig.unary(0, Rpc::Write, &m, limit_ms).await;
    rig.w.t(|| format!("write {op}: {r:?}"));
    if r.is_err() {
        return false;
    }
    play.stat("acked");
    play.audit("acknowledged");
    let at = play.disk(0).iter().find(|(_, e)| matches!(decode_cmd(&e.command), Cmd::Exec { request_id, .. } if request_id == format!("w{op}"))).map(|x| *x.0);
    let est = play.lk().est;
    match at {
        Some(i) if i > est => play.fail("Acknowledged", format!("write {op} at index {i} is acknowledged but only {est} is accepted by a majority with an entry of the term")),
        None => {
            let done = rig.w.lock().nodes[0].apps.get(&0).map(|a| a.ops.iter().any(|x| x.1 == op)).unwrap_or(true);
            if !done {
                play.fail("Acknowledged", format!("write {op} is acknowledged but neither in the log nor executed"));
            }
        }
        _ => {}
    }
    true
}

/// A follower is elected in a newer term, overwrites the logs of others and falls silent.
async fn usurp(rig: &Arc<Rig>, play: &Arc<Play>, spread: u8, entries: u8, part: u8, commit: bool, stay_ms: u16) {
    let n = play.n;
    play.audit("usurp");
    let logs: Vec<_> = (0..n).map(|i| play.disk(i)).collect();
    let last = |l: &BTreeMap<u64, Entry>| l.values().next_back().map(|e| (e.this_clock.term, e.this_clock.index)).unwrap_or((0, 0));
    let (p, term, ask) = {
        let mut s = play.lk();
        let est = s.est;
        // it knows everything which is committed
        let want = s.must.filter(|c| c.index == est).or(s.hist.get(&est).copied());
        let knows = |i: usize| !logs[i].is_empty() && (snap_of(&logs[i]) >= est || logs[i].get(&est).map(|e| e.this_clock) == want);
        let voters = |p: usize| (0..n).filter(|i| last(&logs[*i]) <= last(&logs[p]) && (*i == 0 || s.f[*i].up)).collect::<Vec<_>>();
        let able: Vec<usize> = (1..n).filter(|i| s.f[*i].up && knows(*i) && voters(*i).len() * 2 > n).collect();
        if able.is_empty() {
            return;
        }
        let p = able[spread as usize % able.len()];
        let mut voters = voters(p);
        if voters.len() * 2 > n + 2 {
            // a majority is enough
            voters.retain(|i| *i == p || *i == 0 || spread >> (i % 8) & 1 == 1);
            if voters.len() * 2 <= n {
                return;
            }
        }
        let ask = (voters.len() - voters.contains(&0) as usize) * 2 <= n;
        let own = play.w.lock().nodes[0].disks[&0].ballot.as_ref().map(|x| x.0).unwrap_or(0);
        let term = s.f.iter().map(|f| f.term).max().unwrap().max(own) + 1;
        for v in voters {
            if v > 0 {
                s.f[v].term = term;
                s.f[v].taken = true;
            }
        }
        *s.stats.entry("usurpations".into()).or_insert(0) += 1;
        (p, term, ask)
    };
    play.w.t(|| format!("n{p} leads term {term}"));
    if ask {
        // The vote of the leader is necessary.
        let c = last(&logs[p]);
        let v = VoteRequest { shard_id: 0, vote_term: term, candidate_id: uri_of(p), candidate_clock: Some(Clock { term: c.0, index: c.1 }), force_vote: true, pre_vote: false };
        match rig.vote(0, &v).await {
            Ok(r) if r.vote_granted => {}
            _ => return,
        }
        play.audit("deposed");
        let s = play.lk();
        let est = s.est;
        let want = s.must.filter(|c| c.index == est).or(s.hist.get(&est).copied());
        if snap_of(&logs[p]) < est && logs[p].get(&est).map(|e| e.this_clock) != want {
            drop(s);
            play.fail("Vote", format!("voted for n{p} whose log ends at {c:?} although {est} is committed"));
            return;
        }
    }
    rig.heartbeat(0, p, 0, term, 0).await.ok();
    if play.w.lock().nodes[0].disks[&0].ballot != Some((term, Some(uri_of(p)))) {
        return;
    }
    play.lk().led.insert(term);
    let mut log = logs[p].clone();
    let mut prev = log.values().next_back().unwrap().this_clock;
    for k in 0..=entries as u64 {
        let e = mk(prev, term, &if k == 0 { Cmd::Barrier(term) } else { Cmd::Complete { request_id: format!("u{term}-{k}") } });
        prev = e.this_clock;
        log.insert(prev.index, e);
    }
    {
        let mut s = play.lk();
        if s.f[p].term != term {
            return;
        }
        let mut st = play.w.lock();
        for q in 1..n {
            if q == p || (spread >> ((q + 3) % 8) & 1 == 1 && s.f[q].up && s.f[q].term <= term) {
                st.nodes[q].disks.get_mut(&0).unwrap().log = log.clone();
                s.f[q].term = term;
                s.f[q].taken = true;
            }
        }
    }
    let snaps = rig.pup.s().snaps.clone();
    for (a, b) in snaps {
        for q in 1..n {
            rig.pup.s().snaps.entry((q, a.1)).or_insert(b.clone());
        }
    }
    let top = prev.index;
    let bottom = snap_of(&log).max(*log.keys().next().unwrap());
    let to = bottom + part as u64 * (top - bottom + 2) / 256;
    let send = |to: u64| {
        let (rig, log) = (rig.clone(), log.clone());
        async move { rig.stream(0, p, 0, term, &log, bottom..to, None, 0).await }
    };
    if to > bottom {
        send(to).await.ok();
    }
    rig.ms(stay_ms as u64).await;
    let holders = (0..n).filter(|q| play.disk(*q).get(&top).map(|e| e.this_clock) == Some(prev)).count();
    let current = (1..n).all(|q| play.lk().f[q].term <= term) && play.w.lock().nodes[0].disks[&0].ballot.as_ref().map(|x| x.0) == Some(term);
    if commit && current && holders * 2 > n {
        {
            let mut s = play.lk();
            s.est = top;
            s.must = Some(prev);
            *s.stats.entry("usurper_commits".into()).or_insert(0) += 1;
        }
        // Everybody learns it in the end.
        for _ in 0..300 {
            if play.disk(0).get(&top).map(|e| e.this_clock) == Some(prev) {
                rig.heartbeat(0, p, 0, term, top).await.ok();
                break;
            }
            send(top + 1).await.ok();
            rig.ms(200).await;
        }
    }
    play.follow();
}

async fn run(c: LCase, trace: bool) -> CaseResult {
    let n = c.n as usize;
    let rig = Arc::new(Rig::new(c.seed, 1, n, 1, c.net.clone(), c.store.clone(), c.queue, trace));
    let w = rig.w.clone();
    let u = Universe::build(n, &c.terms);
    let own = u.terms.last().unwrap();
    let mut f: Vec<Foll> = vec![];
    let cut;
    {
        let mut st = w.lock();
        let keep = u.committed.keys().next_back().copied().unwrap().max(own.snap);
        cut = keep + c.own_cut as u64 * (own.last() - keep + 1) / 256;
        let own_term;
        {
            let d = st.nodes[0].disks.get_mut(&0).unwrap();
            d.log = own.log.range(..=cut).map(|(i, e)| (*i, e.clone())).collect();
            if own.snap > 1 {
                d.snaps.insert(own.snap, u.state_at(own.snap));
                if c.own_compacted {
                    d.log = d.log.split_off(&own.snap);
                }
            }
            own_term = own.term;
            d.ballot = Some((own_term, None));
        }
        f.push(Foll { up: true, term: 0, taken: false, mode: None });
        for (p, s) in c.starts.iter().take(n - 1).enumerate() {
            let t = &u.terms[s.term as usize % u.terms.len()];
            let len = 1 + s.len as u64 * t.last() / 256;
            let d = st.nodes[p + 1].disks.get_mut(&0).unwrap();
            if !s.empty {
                d.log = t.log.range(..=len).map(|(i, e)| (*i, e.clone())).collect();
                if s.compacted && t.snap > 1 && t.snap <= len {
                    d.log = d.log.split_off(&t.snap);
                }
            }
            f.push(Foll { up: true, term: if s.empty { 0 } else { t.term }, taken: false, mode: None });
        }
    }
    u.register(&w, 0);
    for p in 1..n {
        for t in &u.terms {
            if t.snap > 1 {
                rig.pup.s().snaps.insert((p, t.snap), Some(bincode::serialize(&u.state_at(t.snap)).unwrap().into()));
            }
        }
    }
    let first_own = own.term + 1;
    let play = Arc::new(Play {
        w: w.clone(),
        n,
        first_own,
        s: Mutex::new(Shared {
            rng: Rng::new(crate::rng::mix(&[c.seed, 0x16])),
            f,
            est: u.committed.keys().next_back().copied().unwrap(),
            must: None,
            led: Default::default(),
            told: BTreeMap::new(),
            seen: own.log.range(..=cut).map(|(_, e)| ((e.this_clock.term, e.this_clock.index), e.prev_clock)).collect(),
            hist: own.log.range(..=cut).map(|(i, e)| (*i, e.this_clock)).collect(),
            fails: vec![],
            stats: BTreeMap::new(),
        }),
        rig: Mutex::new(Some(rig.clone())),
    });
    *rig.pup.script.lock().unwrap() = Some(Arc::new(Glue(play.clone())));
    w.start_node(0).await.ok();
    let mut op = 1_000_000u64;
    let mut clients = vec![];
    for o in &c.ops {
        w.t(|| format!("-- {o:?}"));
        let p = |p: u8| if n > 1 { Some(1 + p as usize % (n - 1)) } else { None };
        match o {
            LOp::Write { n } => {
                for _ in 0..*n {
                    op += 1;
                    clients.push(tokio::spawn(write(rig.clone(), play.clone(), op, 20_000)));
                }
                tokio::task::yield_now().await;
            }
            LOp::Wait { ms } => rig.ms(*ms as u64).await,
            LOp::Down { p: x } => {
                if let Some(p) = p(*x) {
                    play.lk().f[p].up = false;
                    play.stat("downs");
                }
            }
            LOp::Up { p: x } => {
                if let Some(p) = p(*x) {
                    play.lk().f[p].up = true;
                }
            }
            LOp::Behave { p: x, m } => {
                if let Some(p) = p(*x) {
                    play.lk().f[p].mode = Some(m.clone());
                }
            }
            LOp::Snapshot => {
                if w.lock().nodes[0].up {
                    make_snapshot(&w, 0, 0);
                }
            }
            LOp::NewTerm { p: x, up } => {
                if let Some(p) = p(*x) {
                    let mut s = play.lk();
                    let t = w.lock().nodes[0].disks[&0].ballot.as_ref().map(|x| x.0).unwrap_or(0);
                    let f = &mut s.f[p];
                    f.term = f.term.max(t + *up as u64);
                }
            }
            LOp::Usurp { spread, entries, part, commit, stay_ms, back } => {
                usurp(&rig, &play, *spread, *entries, *part, *commit, *stay_ms).await;
                if *back {
                    let _: Result<(), _> = rig.unary(0, Rpc::TimeoutNow, &TimeoutNow { shard_id: 0 }, 20_000).await;
                }
            }
            LOp::Overtake { p: x, n: k, ms, late_ms, by, part, then } => {
                if let Some(p) = p(*x) {
                    let quiet = Mode { lose_resp: 0, reject: 1000, partial: 0, slow: 0, late: 0, slow_ms: *late_ms, fail_fetch: 0 };
                    let old: Vec<_> = {
                        let mut s = play.lk();
                        (0..n)
                            .map(|q| {
                                s.f[q].up = true;
                                s.f[q].mode.replace(if q == p { Mode { reject: 0, late: 1000, ..quiet.clone() } } else { quiet.clone() })
                            })
                            .collect()
                    };
                    for i in 0..*k + 1 + *then {
                        if i == *k {
                            rig.ms(*ms as u64).await;
                            for (q, m) in old.iter().enumerate() {
                                play.lk().f[q].mode = m.clone();
                            }
                            usurp(&rig, &play, *by, by % 2, *part, false, 0).await;
                            let _: Result<(), _> = rig.unary(0, Rpc::TimeoutNow, &TimeoutNow { shard_id: 0 }, 20_000).await;
                            rig.ms(50).await;
                        }
                        op += 1;
                        clients.push(tokio::spawn(write(rig.clone(), play.clone(), op, 20_000)));
                    }
                }
            }
            LOp::Restart { down_ms } => {
                w.crash(0);
                rig.ms(*down_ms as u64).await;
                w.restart(0).await;
            }
            LOp::CrashAt { steps, down_ms } => {
                let mut st = w.lock();
                if st.nodes[0].up {
                    st.nodes[0].fuse = Some((*steps as u32, *down_ms as u32));
                }
            }
        }
        play.audit("step");
        if !play.lk().fails.is_empty() {
            break;
        }
    }
    let failed = !play.lk().fails.is_empty();
    if !failed {
        // The faults end except that a minority stays down.
        w.lock().nodes[0].fuse = None;
        w.lock().reliable = true;
        for _ in 0..100 {
            if w.lock().nodes[0].up {
                break;
            }
            rig.ms(100).await;
        }
        let down: Vec<usize> = {
            let mut s = play.lk();
            let mut xs: Vec<usize> = (1..n).collect();
            for i in (1..xs.len()).rev() {
                let j = s.rng.below(i as u64 + 1) as usize;
                xs.swap(i, j);
            }
            let k = s.rng.below((n as u64 - 1) / 2 + 1) as usize;
            xs.truncate(k);
            for p in 1..n {
                s.f[p].up = !xs.contains(&p);
                s.f[p].mode = None;
            }
            xs
        };
        w.t(|| format!("-- the faults end, {down:?} stay down"));
        let mut ok = false;
        let t0 = w.now();
        while w.now() < t0 + 120_000 {
            op += 1;
            if write(rig.clone(), play.clone(), op, 10_000).await {
                ok = true;
                break;
            }
            rig.ms(300).await;
        }
        if !ok {
            play.fail("Stuck", format!("no write is acknowledged for 120 s although all members but {down:?} answer"));
        }
        for p in 1..n {
            play.lk().f[p].up = true;
        }
        w.t(|| "-- everybody is up".to_string());
        if down.is_empty() {
            play.stat("ended_with_all");
        }
        let mut why = String::new();
        let t0 = w.now();
        while w.now() < t0 + 180_000 {
            why.clear();
            let own = play.disk(0);
            let last = own.keys().next_back().copied().unwrap_or(0);
            let snap = snap_of(&own);
            for p in 1..n {
                let l = play.disk(p);
                let psnap = snap_of(&l);
                let from = snap.max(psnap);
                let a: Vec<_> = own.range(from..).map(|x| x.1.this_clock).collect();
                let b: Vec<_> = l.range(from..).map(|x| x.1.this_clock).collect();
                if a != b {
                    why = format!("the log of n{p} is {:?}.. but the leader's {:?}.. from {from}", b.iter().map(|c| c.term).collect::<Vec<_>>(), a.iter().map(|c| c.term).collect::<Vec<_>>());
                }
                let told = play.lk().told.get(&p).copied().unwrap_or(0);
                if why.is_empty() && told != last {
                    why = format!("n{p} is told to commit {told} of {last}");
                }
            }
            let ops = w.lock().nodes[0].apps.get(&0).map(|a| a.last_index()).unwrap_or(0);
            let want = own.iter().rev().find(|(_, e)| matches!(decode_cmd(&e.command), Cmd::Exec { .. })).map(|x| *x.0).unwrap_or(0);
            if why.is_empty() && ops < want {
                why = format!("the leader executed up to {ops}, its log has an operation at {want}");
            }
            if why.is_empty() || !play.lk().fails.is_empty() {
                break;
            }
            rig.ms(1000).await;
        }
        if !why.is_empty() {
            play.fail("Stuck", format!("not converged 180 s after all members answer: {why}"));
        } else {
            play.stat("converged");
        }
        play.audit("end");
    }
    for c in clients {
        c.abort();
    }
    w.finish_panics();
    let mut out = CaseResult { ..Default::default() };
    let (mut fails, mut stats) = {
        let mut s = play.lk();
        (std::mem::take(&mut s.fails), std::mem::take(&mut s.stats))
    };
    {
        let mut st = w.lock();
        for v in &st.orc.violations {
            if [K::ApplyOrder, K::StateDiverge, K::ApplyDiverge, K::TaskPanic, K::RestartFailed, K::Livelock, K::SnapshotContent, K::CompactionLoss].contains(&v.kind) {
                fails.push(Fail { class: format!("{:?}", v.kind), msg: format!("at {} ms: {}", v.at_ms, v.msg) });
            }
        }
        out.trace = st.trace.take().unwrap_or_default();
        let d: Vec<u64> = st.nodes[0].disks[&0].log.iter().flat_map(|(i, e)| [*i, e.this_clock.term]).chain([st.rpcs]).collect();
        out.digest = crate::rng::mix(&[crate::rng::mix(&d), stats.values().fold(0, |a, b| a.wrapping_mul(31).wrapping_add(*b))]);
        for k in ["compactions", "snapshots_saved", "crash_points", "restarts"] {
            if let Some(v) = st.orc.stats.get(k) {
                stats.insert(k.into(), *v);
            }
        }
    }
    w.crash(0);
    *rig.pup.script.lock().unwrap() = None;
    *play.rig.lock().unwrap() = None;
    sorock::verif_hooks::set_connector(None);
    out.fails = fails;
    out.stats = stats;
    let g = |k: &str| out.stats.get(k).copied().unwrap_or(0);
    out.nontrivial = g("streams") >= 5 && g("acked") >= 1 && g("conflicts") + g("inconsistent") + g("rejects") + g("partial") + g("snapshots_sent") + g("stale_streams") >= 1;
    out
}

pub fn exec(c: &LCase, trace: bool) -> CaseResult {
    let c = c.clone();
    simulate(c.seed, move || run(c, trace)).unwrap_or_else(|| CaseResult { broken: Some("the simulation panicked".into()), ..Default::default() })
}

pub const RULE: &str = "one real leader in clusters of 1 to 5 with generated logs, followers played with generated logs (empty, behind, ahead, conflicting, compacted) that reject, lose, delay and partly accept streams, go down and move to newer terms; every announcement, execution and acknowledgement is compared with what the followers have accepted; non-trivial when at least 5 streams were answered, a write acknowledged, and a conflict, rejection, partial acceptance, snapshot transfer or stale stream occurred";
