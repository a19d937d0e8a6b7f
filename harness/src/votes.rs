//! C14: one real voter, candidates and leaders are played by the harness.

use crate::cluster::simulate;
use crate::driver::*;
use crate::follower::store_strategy;
use crate::oracle::Kind as K;
use crate::rig::*;
use crate::wire::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sorock::process::{Clock as LClock, Entry};
use std::collections::{BTreeMap, BTreeSet};

const MEMBERS: usize = 5;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Req {
    pub cand: u8,
    /// relative to the term of the voter
    pub term: i8,
    /// last entry of the candidate relative to the voter's
    pub cterm: i8,
    pub cindex: i8,
    pub force: bool,
    pub pre: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum VOp {
    Ask(Req),
    /// the same request again
    Again { after_ms: u16 },
    /// candidates at the same time
    Race { term: i8, reqs: Vec<(u8, i8, i8, bool, u16)> },
    /// a leader sends heartbeats
    Beats { leader: u8, up: u8, n: u8, gap_ms: u16 },
    /// heartbeats from the leader of an older term
    Stale { leader: u8, back: u8, n: u8, gap_ms: u16 },
    /// the leader of the current term appends entries
    Entries { n: u8, up: u8 },
    Silence { ms: u32 },
    /// the others let the node become the leader
    Lead { timeout_now: bool },
    /// the others stop answering with votes and entries
    Alone,
    Restart { down_ms: u16 },
    CrashAt { steps: u8, down_ms: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VCase {
    pub seed: u64,
    pub store: StoreProf,
    /// terms of the entries, as increments
    pub log: Vec<u8>,
    /// term of the ballot above the last entry's, and who got the vote
    pub ballot: (u8, Option<u8>),
    pub member: bool,
    pub ops: Vec<VOp>,
}

fn req() -> impl Strategy<Value = Req> {
    (
        1u8..MEMBERS as u8,
        prop_oneof![5 => Just(1i8), 3 => Just(0), 1 => Just(-1), 1 => -5i8..6],
        prop_oneof![5 => Just(0i8), 2 => Just(-1), 2 => Just(1), 1 => -4i8..4],
        prop_oneof![5 => Just(0i8), 2 => Just(-1), 2 => Just(1), 1 => -5i8..5],
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(cand, term, cterm, cindex, force, pre)| Req { cand, term, cterm, cindex, force, pre })
}

fn vop() -> impl Strategy<Value = VOp> {
    prop_oneof![
        12 => req().prop_map(VOp::Ask),
        2 => (0u16..3000).prop_map(|after_ms| VOp::Again { after_ms }),
        2 => (0i8..3, prop::collection::vec((1u8..5, -1i8..2, -1i8..2, any::<bool>(), 0u16..60), 2..5)).prop_map(|(term, reqs)| VOp::Race { term, reqs }),
        5 => (1u8..5, prop_oneof![3 => Just(0u8), 2 => Just(1), 1 => 0u8..4], prop_oneof![4 => 8u8..20, 2 => 1u8..8, 1 => 20u8..200], prop_oneof![4 => Just(300u16), 1 => 10u16..2000])
            .prop_map(|(leader, up, n, gap_ms)| VOp::Beats { leader, up, n, gap_ms }),
        2 => (1u8..5, 1u8..3, prop_oneof![4 => 8u8..30, 2 => 1u8..8], prop_oneof![4 => Just(300u16), 1 => 10u16..2000]).prop_map(|(leader, back, n, gap_ms)| VOp::Stale { leader, back, n, gap_ms }),
        2 => (1u8..4, 0u8..2).prop_map(|(n, up)| VOp::Entries { n, up }),
        4 => prop_oneof![2 => 1u32..1000, 1 => 1000u32..20_000, 3 => 21_000u32..90_000].prop_map(|ms| VOp::Silence { ms }),
        1 => any::<bool>().prop_map(|timeout_now| VOp::Lead { timeout_now }),
        1 => Just(VOp::Alone),
        1 => (1u16..5000).prop_map(|down_ms| VOp::Restart { down_ms }),
        1 => (0u8..8, 1u16..5000).prop_map(|(steps, down_ms)| VOp::CrashAt { steps, down_ms }),
    ]
}

pub fn case() -> BoxedStrategy<VCase> {
    (
        any::<u64>().no_shrink(),
        store_strategy(),
        prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => 1u8..4], 0..8),
        (0u8..4, prop::option::of(0u8..MEMBERS as u8)),
        prop::bool::weighted(0.85),
        prop::collection::vec(vop(), 5..32),
    )
        .prop_map(|(seed, store, log, ballot, member, ops)| VCase { seed, store, log, ballot, member, ops })
        .boxed()
}

struct Sim {
    r: Rig,
    member: bool,
    boot: u64,
    inc: u64,
    /// leader of a term
    leaders: BTreeMap<u64, usize>,
    /// the candidate which got the vote in a term
    votes: BTreeMap<u64, String>,
    /// regular heartbeats of one leader: since when and until when
    live_at: Option<u64>,
    /// the last sign of a leader; longest pause between the signs since the voter started
    last_beat: u64,
    max_gap: u64,
    /// the voter may start elections which succeed
    ambitious: bool,
    last_req: Option<VoteRequest>,
    fails: Vec<Fail>,
    stats: BTreeMap<String, u64>,
}

/// What is known about the voter before a request.
struct Before {
    ballot: (u64, Option<String>),
    clock: LClock,
    live: bool,
    silent: bool,
    leads: bool,
    inc: u64,
}

impl Sim {
    fn fail(&mut self, class: &str, msg: String) {
        let now = self.r.w.now();
        self.r.w.t(|| format!("VIOLATED {class}: {msg}"));
        if self.fails.len() < 5 {
            self.fails.push(Fail { class: class.into(), msg: format!("at {now} ms: {msg}") });
        }
    }
    fn stat(&mut self, k: &str) {
        *self.stats.entry(k.into()).or_insert(0) += 1;
    }
    fn node_inc(&self) -> u64 {
        self.r.w.lock().nodes[0].inc
    }
    fn steady(&self) -> bool {
        let st = self.r.w.lock();
        let n = &st.nodes[0];
        n.up && n.fuse.is_none()
    }
    fn clock(&self) -> LClock {
        self.r.log(0, 0).values().next_back().map(|e| e.this_clock).unwrap_or(LClock { term: 0, index: 0 })
    }
    fn ballot(&self) -> (u64, Option<String>) {
        self.r.ballot(0, 0).unwrap_or((0, None))
    }

    /// The term in which the voter leads: it sent heartbeats to everybody in the last 500 ms.
    fn leads(&self) -> Option<u64> {
        if !self.member {
            // it steps down
            return None;
        }
        let now = self.r.pup.start.elapsed().as_millis() as u64;
        let t = self.ballot().0;
        let s = self.r.pup.s();
        let from: BTreeSet<usize> = s.heartbeats.iter().rev().take(100).filter(|h| h.0 > self.boot && h.0 + 500 >= now && h.3 == t).map(|h| h.1).collect();
        (from.len() == MEMBERS - 1).then_some(t)
    }

    /// The silence after which the leader must be suspected.
    fn patience(&self) -> u64 {
        20_000.max(8 * self.max_gap + 1000)
    }

    async fn wait_up(&mut self) {
        for _ in 0..100 {
            if self.r.w.lock().nodes[0].up {
                break;
            }
            self.r.ms(100).await;
        }
        let inc = self.node_inc();
        if inc != self.inc {
            self.inc = inc;
            self.stat("restarts");
            self.boot = self.r.pup.start.elapsed().as_millis() as u64;
            self.r.ms(300).await;
            self.live_at = None;
            self.last_beat = self.r.w.now();
            self.max_gap = 1000;
        }
    }

    fn before(&self) -> Before {
        let now = self.r.w.now();
        let leads = self.leads().is_some();
        Before {
            ballot: self.ballot(),
            clock: self.clock(),
            live: leads || self.live_at.map(|t| t + 200 >= now).unwrap_or(false),
            silent: !leads && now > self.last_beat + self.patience(),
            leads,
            inc: self.node_inc(),
        }
    }

    fn judge(&mut self, b: &Before, v: &VoteRequest, res: &Result<VoteResponse, CallErr>, alone: bool) {
        if self.node_inc() != b.inc || !self.steady() {
            self.live_at = None;
            if let Ok(r) = res {
                if r.vote_granted && !v.pre_vote {
                    self.granted(v);
                }
            }
            return;
        }
        let Ok(r) = res else {
            self.fail("NoAnswer", format!("{v:?}: {res:?}"));
            return;
        };
        let c = v.candidate_clock.unwrap();
        let after = self.ballot();
        let what = format!("{} for {} in term {} (force={}, last entry {}@{})", if v.pre_vote { "pre-vote" } else { "vote" }, v.candidate_id, v.vote_term, v.force_vote, c.index, c.term);
        let me = format!("term {}, voted {:?}, last entry {}@{}", b.ballot.0, b.ballot.1, b.clock.index, b.clock.term);
        let behind = (c.term, c.index) < (b.clock.term, b.clock.index);
        self.stat("requests");
        let mut deny = vec![];
        if v.vote_term < b.ballot.0 {
            deny.push("the term is old");
        }
        if behind {
            deny.push("its log is older");
        }
        if v.vote_term == b.ballot.0 && b.ballot.1.as_ref().map(|x| *x != v.candidate_id).unwrap_or(false) {
            deny.push("the vote is given to another one");
        }
        if b.live && !v.force_vote {
            deny.push(if b.leads { "the voter leads" } else { "the leader is alive" });
        }
        for d in &deny {
            self.stat(&format!("deny: {d}"));
        }
        if r.vote_granted {
            self.stat("granted");
            if !deny.is_empty() {
                self.fail("Granted", format!("{what} was granted although {}; voter: {me}", deny.join(", ")));
            }
            if !v.pre_vote {
                self.granted(v);
                if after != (v.vote_term, Some(v.candidate_id.clone())) && alone && !self.ambitious {
                    self.fail("NotStored", format!("{what} was granted but the ballot is {after:?}"));
                }
                self.live_at = None;
            }
        } else {
            self.stat("refused");
            let must = alone && !self.ambitious && v.vote_term > b.ballot.0 && !behind && (v.force_vote || (b.silent && !b.leads));
            let must = must || (alone && b.leads && v.force_vote && v.vote_term > b.ballot.0 && !behind);
            if must {
                self.fail("Refused", format!("{what} was refused; voter: {me}, leader silent={}", b.silent));
            }
        }
        if !alone {
            return;
        }
        let quiet = !self.ambitious || b.leads;
        if quiet && (v.pre_vote || (b.live && !v.force_vote)) && after != b.ballot {
            self.fail("Changed", format!("{what} changed the ballot from {:?} to {after:?}", b.ballot));
        }
        if quiet && !r.vote_granted && after != b.ballot && after != (v.vote_term.max(b.ballot.0), None) {
            self.fail("Changed", format!("{what} was refused but the ballot became {after:?} instead of {:?}", b.ballot));
        }
        if r.term > after.0 {
            self.fail("Term", format!("{what}: the answer has term {} but the ballot is {after:?}", r.term));
        }
    }

    fn granted(&mut self, v: &VoteRequest) {
        if self.leaders.get(&v.vote_term).map(|l| uri_of(*l)) == Some(v.candidate_id.clone()) {
            // it has been elected already
            return;
        }
        match self.votes.get(&v.vote_term).cloned() {
            None => {
                self.votes.insert(v.vote_term, v.candidate_id.clone());
            }
            Some(c) if c == v.candidate_id => self.stat("granted_again"),
            Some(c) => self.fail("TwoVotes", format!("votes for {c} and {} in term {}", v.candidate_id, v.vote_term)),
        }
    }

    fn request(&self, q: &Req) -> VoteRequest {
        let (b, c) = (self.ballot(), self.clock());
        VoteRequest {
            shard_id: 0,
            vote_term: b.0.saturating_add_signed(q.term as i64),
            candidate_id: uri_of(q.cand as usize),
            candidate_clock: Some(Clock { term: c.term.saturating_add_signed(q.cterm as i64), index: c.index.saturating_add_signed(q.cindex as i64) }),
            force_vote: q.force,
            pre_vote: q.pre,
        }
    }

    async fn ask(&mut self, v: VoteRequest) {
        let b = self.before();
        let res = self.r.vote(0, &v).await;
        self.judge(&b, &v, &res, true);
        // The role: a leader goes on unless it follows somebody in a newer term.
        if b.leads && self.node_inc() == b.inc && self.steady() {
            let granted = matches!(&res, Ok(r) if r.vote_granted);
            let t0 = self.r.pup.start.elapsed().as_millis() as u64;
            if v.pre_vote || (!v.force_vote) {
                self.r.ms(900).await;
                if self.node_inc() == b.inc && self.steady() && self.leads() != Some(b.ballot.0) {
                    self.fail("Deposed", format!("the voter doesn't lead term {} any more after {v:?}", b.ballot.0));
                }
                self.stat("leader_kept");
            } else if granted && v.vote_term > b.ballot.0 {
                self.r.ms(2000).await;
                let late = self.r.pup.s().heartbeats.iter().find(|h| h.0 > t0 + 1000 && h.3 == b.ballot.0).cloned();
                if let Some(h) = late {
                    self.fail("TwoRoles", format!("heartbeat {h:?} of term {} long after the vote in term {}", b.ballot.0, v.vote_term));
                }
                self.stat("leader_deposed");
            }
        }
        self.last_req = Some(v);
    }

    async fn op(&mut self, op: &VOp) {
        self.r.w.t(|| format!("-- {op:?}"));
        self.wait_up().await;
        match op {
            VOp::Ask(q) => {
                let v = self.request(q);
                self.ask(v).await;
            }
            VOp::Again { after_ms } => {
                self.r.ms(*after_ms as u64).await;
                self.wait_up().await;
                if let Some(v) = self.last_req.clone() {
                    self.ask(v).await;
                }
            }
            VOp::Race { term, reqs } => {
                self.stat("races");
                let b = self.before();
                let mut futs = vec![];
                for (cand, ct, ci, force, at) in reqs {
                    let v = self.request(&Req { cand: *cand, term: *term, cterm: *ct, cindex: *ci, force: *force, pre: false });
                    let r = Rig { w: self.r.w.clone(), pup: self.r.pup.clone() };
                    let at = *at as u64;
                    futs.push(tokio::spawn(async move {
                        r.ms(at).await;
                        let res = r.vote(0, &v).await;
                        (v, res)
                    }));
                }
                let n = futs.len();
                for f in futs {
                    let Ok((v, res)) = f.await else { continue };
                    // The others can only raise the term and use up the vote.
                    let b = Before { ballot: b.ballot.clone(), clock: b.clock, live: b.live && n <= 1, silent: false, leads: b.leads, inc: b.inc };
                    self.judge(&b, &v, &res, false);
                }
            }
            VOp::Beats { leader, up, n, gap_ms } => {
                let t = self.ballot().0 + *up as u64;
                if self.leads() == Some(t) {
                    return;
                }
                let l = match (self.leaders.get(&t), self.ballot()) {
                    (Some(l), _) => *l,
                    // the node itself may have been elected
                    (None, (bt, Some(v))) if bt == t && v == uri_of(0) => return,
                    _ => *leader as usize,
                };
                self.leaders.insert(t, l);
                let inc = self.node_inc();
                let mut ok = true;
                for k in 0..*n {
                    if k > 0 {
                        self.r.ms(*gap_ms as u64).await;
                    }
                    let now = self.r.w.now();
                    let gap = now.saturating_sub(self.last_beat);
                    let r = self.r.heartbeat(0, l, 0, t, 0).await;
                    let steady = self.node_inc() == inc && self.steady();
                    if steady && matches!(&r, Ok(x) if x.newer_terms.is_empty()) {
                        // An outage that was noticed tells nothing about the next leader.
                        if gap <= self.patience() {
                            self.max_gap = self.max_gap.max(gap);
                        } else {
                            self.stat("outages");
                        }
                        self.last_beat = self.r.w.now();
                        if self.ballot() != (t, Some(uri_of(l))) && !self.ambitious {
                            let b = self.ballot();
                            self.fail("Ballot", format!("after a heartbeat of {} in term {t} the ballot is {b:?}", uri_of(l)));
                        }
                    } else {
                        ok = false;
                        break;
                    }
                }
                self.live_at = (ok && *n >= 8 && *gap_ms == 300).then(|| self.r.w.now());
                if self.live_at.is_some() {
                    self.stat("live_leader");
                }
            }
            VOp::Stale { leader, back, n, gap_ms } => {
                let t = self.ballot().0;
                if t < *back as u64 {
                    return;
                }
                self.stat("stale_leader");
                let inc = self.node_inc();
                for _ in 0..*n {
                    let (b, quiet) = (self.ballot(), !self.ambitious);
                    let r = self.r.heartbeat(0, *leader as usize, 0, t - *back as u64, 0).await;
                    if self.node_inc() != inc || !self.steady() {
                        break;
                    }
                    match r {
                        Ok(x) if x.newer_terms.get(&0).map(|x| *x >= b.0).unwrap_or(false) => {}
                        r => self.fail("Stale", format!("heartbeat of term {} was answered with {r:?} in term {}", t - *back as u64, b.0)),
                    }
                    if quiet && self.ballot() != b {
                        self.fail("Stale", format!("heartbeat of term {} changed the ballot from {b:?} to {:?}", t - *back as u64, self.ballot()));
                    }
                    self.r.ms(*gap_ms as u64).await;
                }
            }
            VOp::Entries { n, up } => {
                let t = self.ballot().0 + *up as u64;
                let Some(l) = self.leaders.get(&t).copied() else { return };
                if self.leads().is_some() || t < self.clock().term {
                    return;
                }
                let mut prev = self.clock();
                let at = prev.index + 1;
                let mut log = BTreeMap::new();
                for k in 0..*n {
                    let e = if prev.index == 0 { mk(prev, 0, &Cmd::Snapshot(BTreeSet::new())) } else { mk(prev, t, &Cmd::Complete { request_id: format!("x{k}") }) };
                    prev = e.this_clock;
                    log.insert(prev.index, e);
                }
                self.r.stream(0, l, 0, t, &log, at..at + *n as u64, None, 0).await.ok();
                self.stat("entries");
            }
            VOp::Silence { ms } => {
                self.r.ms(*ms as u64).await;
            }
            VOp::Lead { timeout_now } => {
                {
                    let mut s = self.r.pup.s();
                    s.grant = true;
                    s.accept = true;
                }
                self.ambitious = true;
                if *timeout_now {
                    let _: Result<(), _> = self.r.unary(0, Rpc::TimeoutNow, &TimeoutNow { shard_id: 0 }, 20_000).await;
                }
                for _ in 0..200 {
                    if self.leads().is_some() {
                        break;
                    }
                    self.r.ms(300).await;
                }
                if self.leads().is_some() {
                    self.stat("led");
                    // A term has one leader.
                    let t = self.ballot().0;
                    self.votes.entry(t).or_insert(uri_of(0));
                }
            }
            VOp::Alone => {
                {
                    let mut s = self.r.pup.s();
                    s.grant = false;
                }
                // an election which is going on may still succeed
                self.r.ms(5000).await;
                self.ambitious = false;
            }
            VOp::Restart { down_ms } => {
                self.r.w.crash(0);
                self.r.ms(*down_ms as u64).await;
                self.r.w.restart(0).await;
                self.wait_up().await;
            }
            VOp::CrashAt { steps, down_ms } => {
                let mut st = self.r.w.lock();
                if st.nodes[0].up {
                    st.nodes[0].fuse = Some((*steps as u32, *down_ms as u32));
                }
            }
        }
    }

    /// The votes the node gave to itself, and the order of ballots.
    fn events(&mut self) {
        let ev = std::mem::take(self.r.w.lock().ev.as_mut().unwrap());
        for e in ev {
            if let Ev::Ballot { new: (t, Some(v)), .. } = e {
                if v == uri_of(0) {
                    match self.votes.get(&t).cloned() {
                        None => {
                            self.votes.insert(t, v);
                        }
                        Some(c) if c == v => {}
                        Some(c) => self.fail("TwoVotes", format!("votes for {c} and itself in term {t}")),
                    }
                }
            }
        }
    }
}

async fn run(c: VCase, trace: bool) -> CaseResult {
    let r = Rig::new(c.seed, 1, MEMBERS, 1, calm_net(), c.store.clone(), false, trace);
    {
        let mut st = r.w.lock();
        let d = st.nodes[0].disks.get_mut(&0).unwrap();
        let mut term = 0;
        if !c.log.is_empty() {
            let all: BTreeSet<String> = (if c.member { 0 } else { 1 }..MEMBERS).map(uri_of).collect();
            let e1 = mk(LClock { term: 0, index: 0 }, 0, &Cmd::Snapshot(BTreeSet::new()));
            let e2 = mk(e1.this_clock, 0, &Cmd::Config(all));
            let mut prev = e2.this_clock;
            let mut log: BTreeMap<u64, Entry> = [(1, e1), (2, e2)].into_iter().collect();
            for k in &c.log {
                term += *k as u64;
                if term > 0 {
                    let e = mk(prev, term, &Cmd::Barrier(term));
                    prev = e.this_clock;
                    log.insert(prev.index, e);
                }
            }
            d.log = log;
        }
        d.ballot = Some((term + c.ballot.0 as u64, if term + c.ballot.0 as u64 == 0 { None } else { c.ballot.1.map(|x| uri_of(x as usize)) }));
    }
    let (t, v) = r.ballot(0, 0).unwrap();
    let mut votes = BTreeMap::new();
    if let Some(v) = v {
        votes.insert(t, v);
    }
    r.w.start_node(0).await.ok();
    let inc = r.w.lock().nodes[0].inc;
    let mut s = Sim {
        inc,
        r,
        member: c.member,
        boot: 0,
        leaders: BTreeMap::new(),
        votes,
        live_at: None,
        last_beat: 0,
        max_gap: 1000,
        ambitious: false,
        last_req: None,
        fails: vec![],
        stats: BTreeMap::new(),
    };
    for op in &c.ops {
        s.op(op).await;
        s.events();
        if !s.fails.is_empty() {
            break;
        }
    }
    s.r.w.finish_panics();
    let mut out = CaseResult { ..Default::default() };
    {
        let mut st = s.r.w.lock();
        for v in &st.orc.violations {
            if [K::BallotRegress, K::TaskPanic, K::RestartFailed, K::Livelock].contains(&v.kind) {
                s.fails.push(Fail { class: format!("{:?}", v.kind), msg: format!("at {} ms: {}", v.at_ms, v.msg) });
            }
        }
        out.trace = st.trace.take().unwrap_or_default();
        let d = st.nodes[0].disks[&0].ballot.clone().unwrap_or((0, None));
        out.digest = crate::rng::mix(&[d.0, st.rpcs, s.stats.values().fold(0, |a, b| a.wrapping_mul(31).wrapping_add(*b))]);
    }
    s.r.w.crash(0);
    sorock::verif_hooks::set_connector(None);
    out.fails = s.fails;
    out.stats = s.stats;
    let g = |k: &str| out.stats.get(k).copied().unwrap_or(0);
    out.nontrivial = g("granted") >= 1 && g("refused") >= 2 && (g("live_leader") + g("restarts") + g("races") + g("led")) >= 1;
    out
}

pub fn exec(c: &VCase, trace: bool) -> CaseResult {
    let c = c.clone();
    simulate(c.seed, move || run(c, trace)).unwrap_or_else(|| CaseResult { broken: Some("the simulation panicked".into()), ..Default::default() })
}

pub const RULE: &str = "generated log, ballot and history of vote requests (all combinations of term, last entry, force, pre-vote), heartbeats, entries, silence, own leadership, restarts and crashes sent to one real voter, whose answers and ballot are compared with the rules of voting; non-trivial when at least one request was granted and two refused, and a live leader, restart, race or own leadership occurred";
