//! C18: who leads, watched while nodes come and go and clients work.

use crate::cluster::{make_snapshot, simulate};
use crate::driver::*;
use crate::oracle::Kind as K;
use crate::world::*;
use proptest::prelude::*;
use sorock::client::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Who {
    /// the leader of the shard
    Leader(u8),
    /// another member of the shard
    Other(u8, u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    Wait { ms: u16 },
    Write { via: u8, shard: u8, n: u8 },
    Read { via: u8, shard: u8, n: u8 },
    Snapshot { node: u8, shard: u8 },
    /// crash and restart
    Bounce { who: Who, down_ms: u16 },
    /// nobody reaches the node for a while
    Isolate { who: Who, ms: u32 },
    /// two nodes don't reach each other for a while
    Cut { a: Who, b: Who, ms: u16 },
    TimeoutNow { who: Who },
    /// the leader is removed (and added again later)
    RemoveLeader { shard: u8 },
    Add { shard: u8 },
    Settle,
    /// Every node is asked to do the same while a leader works.
    Probe { shard: u8, kind: u8 },
    /// No node reaches another one for a while, and every node is asked to do the same.
    Headless { shard: u8, kind: u8, ms: u16 },
    /// A node that leads nothing suffers: 0 its storage hangs, 1 fails sometimes, 2 always, 3 is very slow,
    /// 4 it receives nothing, 5 it sends nothing.
    Hurt { who: Who, how: u8, ms: u32 },
    /// Requests while a minority is away or suffers: 0 writes, 1 reads, 2 both, 3 a suffering member is removed and
    /// added.
    Ask { shard: u8, kind: u8, n: u8, via: u8 },
    /// When everybody is back, the leader fails.
    Relapse { shard: u8, gap: u16, ms: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    pub seed: u64,
    pub nodes: u8,
    pub shards: u8,
    pub net: NetProf,
    pub store: StoreProf,
    pub queue: bool,
    pub ops: Vec<(u16, SOp)>,
    /// answers are checked instead of leadership
    #[serde(default)]
    pub entry: bool,
    /// requests are watched while a minority suffers
    #[serde(default)]
    pub minority: bool,
}

fn who() -> impl Strategy<Value = Who> {
    prop_oneof![2 => (0u8..8).prop_map(Who::Leader), 3 => (0u8..8, 0u8..5).prop_map(|(s, k)| Who::Other(s, k))]
}

fn sop() -> impl Strategy<Value = SOp> {
    let dur = || prop_oneof![2 => 1u16..3000, 3 => 3000u16..40_000];
    let long = || prop_oneof![3 => 1u32..3000, 5 => 3000u32..40_000, 1 => 40_000u32..150_000];
    prop_oneof![
        4 => prop_oneof![1u16..3000, 3000u16..30_000].prop_map(|ms| SOp::Wait { ms }),
        4 => (any::<u8>(), 0u8..8, 1u8..12).prop_map(|(via, shard, n)| SOp::Write { via, shard, n }),
        2 => (any::<u8>(), 0u8..8, 1u8..12).prop_map(|(via, shard, n)| SOp::Read { via, shard, n }),
        2 => (any::<u8>(), 0u8..8).prop_map(|(node, shard)| SOp::Snapshot { node, shard }),
        3 => (who(), dur()).prop_map(|(who, down_ms)| SOp::Bounce { who, down_ms }),
        3 => (who(), long()).prop_map(|(who, ms)| SOp::Isolate { who, ms }),
        2 => (who(), who(), dur()).prop_map(|(a, b, ms)| SOp::Cut { a, b, ms }),
        2 => who().prop_map(|who| SOp::TimeoutNow { who }),
        1 => (0u8..8).prop_map(|shard| SOp::RemoveLeader { shard }),
        1 => (0u8..8).prop_map(|shard| SOp::Add { shard }),
        3 => Just(SOp::Settle),
        2 => (0u8..8, 0u16..6000, long()).prop_map(|(shard, gap, ms)| SOp::Relapse { shard, gap, ms }),
    ]
}

pub fn case() -> BoxedStrategy<SCase> {
    let net = (1u32..10, 1u32..15, any::<bool>()).prop_map(|(lo, d, hold)| NetProf { lat_lo: lo, lat_hi: lo + d, drop_req: 0, drop_resp: 0, long: 0, long_ms: 1, cut: 0, hold });
    let z = |hi: u32| prop_oneof![2 => Just(0u32), 1 => 1..hi];
    let store = (z(8), z(8), z(4), z(8), z(8)).prop_map(|(ins_pre, ins_post, read, ballot, app)| StoreProf { ins_pre, ins_post, read, ballot, app, err: 0 });
    (
        any::<u64>().no_shrink(),
        prop_oneof![1 => Just(2u8), 5 => Just(3), 1 => Just(4), 3 => Just(5)],
        prop_oneof![3 => Just(1u8), 2 => 2u8..4, 1 => 4u8..7],
        net,
        store,
        any::<bool>(),
        prop::collection::vec((0u16..1500, sop()), 3..16),
    )
        .prop_map(|(seed, nodes, shards, net, store, queue, ops)| SCase { seed, nodes, shards, net, store, queue, ops, entry: false, minority: false })
        .boxed()
}

pub fn entry_case() -> BoxedStrategy<SCase> {
    let op = || {
        prop_oneof![
            4 => (0u8..8, 0u8..6).prop_map(|(shard, kind)| SOp::Probe { shard, kind }),
            1 => (0u8..8, 0u8..4, 1000u16..20_000).prop_map(|(shard, kind, ms)| SOp::Headless { shard, kind, ms }),
            6 => sop(),
        ]
    };
    (case(), prop::collection::vec((0u16..1500, op()), 3..14)).prop_map(|(c, ops)| SCase { ops, entry: true, ..c }).boxed()
}

pub fn minority_case() -> BoxedStrategy<SCase> {
    let other = || (0u8..8, 0u8..5).prop_map(|(s, k)| Who::Other(s, k));
    let dur = || prop_oneof![2 => 1u32..3000, 5 => 3000u32..40_000, 1 => 40_000u32..100_000];
    let op = move || {
        prop_oneof![
            9 => (0u8..8, 0u8..4, 1u8..8, any::<u8>()).prop_map(|(shard, kind, n, via)| SOp::Ask { shard, kind, n, via }),
            8 => (other(), 0u8..6, dur()).prop_map(|(who, how, ms)| SOp::Hurt { who, how, ms }),
            2 => (other(), dur()).prop_map(|(who, ms)| SOp::Bounce { who, down_ms: ms.min(60_000) as u16 }),
            2 => (other(), dur()).prop_map(|(who, ms)| SOp::Isolate { who, ms }),
            2 => (any::<u8>(), 0u8..8).prop_map(|(node, shard)| SOp::Snapshot { node, shard }),
            2 => (any::<u8>(), 0u8..8, 1u8..20).prop_map(|(via, shard, n)| SOp::Write { via, shard, n }),
            2 => prop_oneof![1u16..3000, 3000u16..30_000].prop_map(|ms| SOp::Wait { ms }),
            1 => Just(SOp::Settle),
        ]
    };
    let shards = prop_oneof![4 => Just(1u8), 1 => Just(2u8)];
    let nodes = prop_oneof![5 => Just(3u8), 1 => Just(4), 4 => Just(5)];
    (case(), shards, nodes, prop::collection::vec((0u16..1500, op()), 4..18))
        .prop_map(|(c, shards, nodes, ops)| SCase { ops, shards, nodes, minority: true, ..c })
        .boxed()
}

/// It takes so long at most until a new leader is at work.
const TAKEOVER: u64 = 60_000;
/// No election for so long after a new leader appeared: it is at work.
const CALM: u64 = 10_000;
const BEAT: u64 = 2_000;

enum Phase {
    Calm { leader: usize, term: u64, since: u64 },
    Stir { since: u64, why: String },
}

struct Watch {
    shards: Vec<Phase>,
    members: Vec<BTreeSet<usize>>,
    /// members whose membership isn't certain
    unsure: Vec<BTreeSet<usize>>,
    /// up and reachable since
    ok: Vec<Option<u64>>,
    /// pairs that don't reach each other; since when others do
    cuts: BTreeMap<(usize, usize), u64>,
    pair_ok: BTreeMap<(usize, usize), u64>,
    top: Vec<u64>,
    changed: Vec<u64>,
    /// a removed leader that has to hand over, since when
    hands: Vec<Option<(usize, u64)>>,
    /// since when a node runs without interruption
    up: Vec<u64>,
    fails: Vec<Fail>,
    stats: BTreeMap<String, u64>,
    takeover_max: u64,
}

struct Cx {
    w: Arc<World>,
    n: usize,
    minority: bool,
    cl: Arc<crate::cluster::Ctx>,
    s: Mutex<Watch>,
}

impl Cx {
    fn lk(&self) -> std::sync::MutexGuard<'_, Watch> {
        self.s.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn stat(&self, k: &str) {
        *self.lk().stats.entry(k.into()).or_insert(0) += 1;
    }

    fn look(&self) {
        let now = self.w.now();
        let mut g = self.lk();
        let g = &mut *g;
        let mut st = self.w.lock();
        let st = &mut *st;
        let mut fail = |g: &mut Vec<Fail>, class: &str, msg: String| {
            if let Some(t) = &mut st.trace {
                t.push(format!("{now:>7} VIOLATED {class}: {msg}"));
            }
            if g.len() < 5 {
                g.push(Fail { class: class.into(), msg: format!("at {now} ms: {msg}") });
            }
        };
        for e in std::mem::take(st.ev.as_mut().unwrap()) {
            let Ev::Ballot { node, shard, new } = e else { continue };
            let s = shard as usize;
            if let Some((at, t)) = st.claims.get(&(shard, node)) {
                // A leader has no reason to vote for itself in the next term, whoever tells it to.
                if *t + 1 == new.0 && new.1.as_deref() == Some(uri_of(node).as_str()) && *at > g.up[node] && g.members[s].contains(&node) && !g.unsure[s].contains(&node) {
                    let m = format!("shard {s}: n{node}, the leader of term {t}, started an election for term {}", new.0);
                    fail(&mut g.fails, "Again", m);
                }
            }
            if new.0 > g.top[s] {
                g.top[s] = new.0;
                g.changed[s] = now;
                if let Phase::Calm { leader, term, since } = &g.shards[s] {
                    let m = format!("shard {s}: n{node} is in term {} although n{leader} works as the leader of term {term} since {since}", new.0);
                    g.shards[s] = Phase::Stir { since: now, why: "failure".into() };
                    fail(&mut g.fails, "Deposed", m);
                }
            }
        }
        for s in 0..g.shards.len() {
            if let Some((l, at)) = g.hands[s] {
                let done = st.handed.get(&(s as u32, l)).map(|x| *x >= at).unwrap_or(false);
                if done {
                    *g.stats.entry("handed_over".into()).or_insert(0) += 1;
                    g.hands[s] = None;
                } else if g.changed[s] > at || now > at + 10_000 {
                    g.hands[s] = None;
                    let m = format!("shard {s}: leader n{l}, which was removed at {at}, did not hand over the leadership");
                    fail(&mut g.fails, "NoHandOver", m);
                }
            }
            let claim = st.orc.shards.get(&(s as u32)).and_then(|x| x.leaders.iter().next_back().map(|x| (*x.0, x.1 .0)));
            match &g.shards[s] {
                Phase::Stir { since, why } => {
                    let since = *since;
                    if let Some((t, l)) = claim {
                        let uri = uri_of(l);
                        let all = g.members[s].iter().filter(|m| g.ok[**m].map(|x| x + 3000 < now).unwrap_or(false)).all(|m| {
                            *m == l
                                || g.cuts.contains_key(&(l.min(*m), l.max(*m)))
                                || g.unsure[s].contains(m)
                                || st.nodes[*m].disks[&(s as u32)].ballot.as_ref().map(|b| b.0 == t && b.1.as_deref() == Some(&uri)).unwrap_or(false)
                        });
                        if t == g.top[s] && all && g.members[s].contains(&l) && g.ok[l].is_some() && now >= g.changed[s] + CALM {
                            let took = g.changed[s].saturating_sub(since);
                            g.takeover_max = g.takeover_max.max(took);
                            if took > 0 {
                                *g.stats.entry("takeovers".into()).or_insert(0) += 1;
                            }
                            g.shards[s] = Phase::Calm { leader: l, term: t, since: now };
                            continue;
                        }
                    }
                    if now > since + TAKEOVER {
                        let m = format!("shard {s}: nobody works as the leader {TAKEOVER} ms after: {why}; the last is {claim:?}, top term {}", g.top[s]);
                        g.shards[s] = Phase::Stir { since: now, why: "failure".into() };
                        fail(&mut g.fails, "NoLeader", m);
                    }
                }
                Phase::Calm { leader, term, since } => {
                    let (l, t, since) = (*leader, *term, *since);
                    if g.ok[l].is_none() {
                        continue;
                    }
                    for m in &g.members[s] {
                        if *m == l || g.unsure[s].contains(m) || g.cuts.contains_key(&(l.min(*m), l.max(*m))) {
                            continue;
                        }
                        let Some(at) = g.ok[*m] else { continue };
                        let at = at.max(since).max(g.pair_ok.get(&(l.min(*m), l.max(*m))).copied().unwrap_or(0)).max(g.ok[l].unwrap());
                        if now < at + 5000 {
                            continue;
                        }
                        let last = st.beats.get(&(s as u32, l, *m)).copied();
                        if last.map(|(x, y)| x + BEAT < now || y != t).unwrap_or(true) {
                            let msg = format!("shard {s}: the last heartbeat from leader n{l} of term {t} to n{m} is {last:?} (time, term)");
                            fail(&mut g.fails, "Heartbeat", msg);
                        }
                    }
                    // Who led before has stepped down.
                    for x in 0..self.n {
                        let reach = g.ok[x].map(|a| now > a + 8000).unwrap_or(false) && now > since + 8000;
                        if x != l && reach && g.members[s].contains(&x) && !g.unsure[s].contains(&x) && !g.cuts.keys().any(|c| c.0 == x || c.1 == x) {
                            if let Some((at, term)) = st.claims.get(&(s as u32, x)) {
                                if *at + 1000 > now {
                                    let msg = format!("shard {s}: n{x} still sends heartbeats as the leader of term {term} although n{l} leads term {t}");
                                    fail(&mut g.fails, "StillLeads", msg);
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    async fn pass(&self, ms: u64) {
        let end = self.w.now() + ms;
        loop {
            self.look();
            let now = self.w.now();
            if now >= end {
                break;
            }
            tokio::time::sleep(Duration::from_millis((end - now).min(100))).await;
        }
    }

    /// All shards have a leader at work.
    async fn settle(&self) {
        for _ in 0..4000 {
            if self.lk().shards.iter().all(|p| matches!(p, Phase::Calm { .. })) || !self.lk().fails.is_empty() {
                return;
            }
            self.pass(100).await;
        }
    }

    fn leader(&self, s: usize) -> usize {
        self.w.lock().orc.shards.get(&(s as u32)).and_then(|x| x.leaders.iter().next_back().map(|x| x.1 .0)).unwrap_or(0)
    }

    fn who(&self, w: &Who) -> (usize, usize) {
        let ns = self.lk().shards.len();
        match w {
            Who::Leader(s) => (*s as usize % ns, self.leader(*s as usize % ns)),
            Who::Other(s, k) => {
                let s = *s as usize % ns;
                let l = self.leader(s);
                (s, (l + 1 + *k as usize % (self.n - 1)) % self.n)
            }
        }
    }

    /// Shards whose leader must be replaced when the node stops, if that is possible.
    fn may_lose(&self, x: usize) -> Option<Vec<usize>> {
        let v = self.may_lose_any(x)?;
        (v.is_empty() || !self.minority).then_some(v)
    }

    fn may_lose_any(&self, x: usize) -> Option<Vec<usize>> {
        let now = self.w.now();
        let g = self.lk();
        if g.ok[x].is_none() || !g.cuts.is_empty() {
            return None;
        }
        let mut v = vec![];
        for s in 0..g.shards.len() {
            if !g.unsure[s].is_empty() {
                return None;
            }
            let m = &g.members[s];
            // Who was away a moment ago may not know the leader yet.
            let rest = m.iter().filter(|i| **i != x && g.ok[**i].map(|at| at == 0 || at + 5000 < now).unwrap_or(false)).count();
            let led = match &g.shards[s] {
                Phase::Calm { leader, .. } => *leader == x,
                Phase::Stir { .. } => true,
            };
            if !m.contains(&x) && !led {
                continue;
            }
            // The leader resigns or is deposed if it doesn't reach the majority.
            if rest * 2 <= m.len() {
                return None;
            }
            if led {
                v.push(s);
            }
        }
        Some(v)
    }

    fn stir(&self, s: usize, why: String) {
        let now = self.w.now();
        let mut g = self.lk();
        g.changed[s] = now;
        g.shards[s] = Phase::Stir { since: now, why };
    }

    fn lose(&self, x: usize, shards: &[usize], why: &str) {
        {
            let mut g = self.lk();
            g.ok[x] = None;
            g.hands.fill(None);
        }
        for s in shards {
            self.stir(*s, format!("n{x} {why} at {}", self.w.now()));
        }
        if shards.is_empty() {
            self.stat("followers_lost");
        } else {
            self.stat("leaders_lost");
        }
    }
}

async fn change(cx: &Arc<Cx>, add: bool, via: usize, node: usize, shard: u32, limit: u64) -> bool {
    let mut cli = RaftClient::new(cx.w.client_channel(via));
    let server_id = uri_of(node);
    cx.w.t(|| format!("client add={add} n{node} shard {shard} via n{via}"));
    let f = async {
        if add {
            cli.add_server(AddServerRequest { shard_id: shard, server_id }).await.is_ok()
        } else {
            cli.remove_server(RemoveServerRequest { shard_id: shard, server_id }).await.is_ok()
        }
    };
    tokio::time::timeout(Duration::from_millis(limit), f).await.unwrap_or(false)
}

async fn run(c: SCase, trace: bool) -> CaseResult {
    let n = c.nodes.max(2) as usize;
    let shards = c.shards.max(1) as usize;
    let w = World::new(c.seed, n, shards as u32, c.net.clone(), c.store.clone(), c.queue, trace);
    w.lock().ev = Some(vec![]);
    let cx = Arc::new(Cx {
        w: w.clone(),
        n,
        minority: c.minority,
        cl: crate::cluster::Ctx::new(&w, n),
        s: Mutex::new(Watch {
            shards: (0..shards).map(|_| Phase::Stir { since: 0, why: "the start".into() }).collect(),
            members: vec![(0..n).collect(); shards],
            unsure: vec![BTreeSet::new(); shards],
            ok: vec![Some(0); n],
            cuts: BTreeMap::new(),
            pair_ok: BTreeMap::new(),
            top: vec![0; shards],
            changed: vec![0; shards],
            hands: vec![None; shards],
            up: vec![0; n],
            fails: vec![],
            stats: BTreeMap::new(),
            takeover_max: 0,
        }),
    });
    for i in 0..n {
        w.start_node(i).await.ok();
    }
    for s in 0..shards {
        let boot = s % n;
        let mut seq = vec![boot];
        seq.extend((0..n).filter(|x| *x != boot));
        for i in seq {
            for _ in 0..60 {
                if change(&cx, true, boot, i, s as u32, 5000).await {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(300)).await;
            }
        }
        cx.stir(s, "the start".into());
    }
    cx.settle().await;
    let mut bg = tokio::task::JoinSet::new();
    for (d, o) in &c.ops {
        cx.pass(*d as u64).await;
        if !cx.lk().fails.is_empty() {
            break;
        }
        w.t(|| format!("-- {o:?}"));
        match o {
            SOp::Wait { ms } => cx.pass(*ms as u64).await,
            SOp::Settle => cx.settle().await,
            SOp::Write { via, shard, n: k } => {
                for _ in 0..*k {
                    let (cl, via, shard) = (cx.cl.clone(), *via as usize % n, *shard as u32 % shards as u32);
                    bg.spawn(async move {
                        cl.write(via, shard, 0, 20_000, 0).await;
                    });
                }
            }
            SOp::Read { via, shard, n: k } => {
                for _ in 0..*k {
                    let (cl, via, shard) = (cx.cl.clone(), *via as usize % n, *shard as u32 % shards as u32);
                    bg.spawn(async move {
                        cl.read(via, shard, 20_000, false).await;
                    });
                }
            }
            SOp::Probe { shard, kind } => probe(&cx, *shard as usize % shards, *kind).await,
            SOp::Headless { shard, kind, ms } => headless(&cx, *shard as usize % shards, *kind, *ms as u64).await,
            SOp::Ask { shard, kind, n: k, via } => ask(&cx, *shard as usize % shards, *kind, *k, *via as usize).await,
            SOp::Hurt { who, how, ms } => {
                let (_, x) = cx.who(who);
                if let Some(v) = cx.may_lose_any(x).filter(|v| v.is_empty()) {
                    cx.lose(x, &v, "suffers");
                    cx.stat(["hurt_hangs", "hurt_fails_sometimes", "hurt_fails", "hurt_slow", "hurt_deaf", "hurt_mute"][*how as usize % 6]);
                    hurt(&w, x, *how, true);
                    let (cx, how, ms) = (cx.clone(), *how, *ms as u64);
                    bg.spawn(async move {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                        hurt(&cx.w, x, how, false);
                        let now = cx.w.now();
                        cx.w.t(|| format!("n{x} is well"));
                        cx.lk().ok[x] = Some(now);
                    });
                }
            }
            SOp::Snapshot { node, shard } => {
                make_snapshot(&w, *node as usize % n, *shard as u32 % shards as u32);
                cx.stat("snapshots");
            }
            SOp::Bounce { who, down_ms } => {
                let (_, x) = cx.who(who);
                if let Some(v) = cx.may_lose(x) {
                    cx.lose(x, &v, "crashed");
                    cx.lk().up[x] = u64::MAX;
                    w.crash(x);
                    let (cx, ms) = (cx.clone(), *down_ms as u64);
                    bg.spawn(async move {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                        cx.w.restart(x).await;
                        let now = cx.w.now();
                        let mut g = cx.lk();
                        g.ok[x] = Some(now);
                        g.up[x] = now;
                    });
                }
            }
            SOp::Isolate { .. } | SOp::Relapse { .. } => {
                let (who, ms) = match o {
                    SOp::Isolate { who, ms } => (who.clone(), ms),
                    SOp::Relapse { shard, gap, ms } => {
                        for _ in 0..1000 {
                            if cx.lk().ok.iter().all(|x| x.is_some()) && cx.lk().cuts.is_empty() {
                                break;
                            }
                            cx.pass(100).await;
                        }
                        cx.pass(5100 + *gap as u64).await;
                        (Who::Leader(*shard), ms)
                    }
                    _ => unreachable!(),
                };
                let (_, x) = cx.who(&who);
                if let Some(v) = cx.may_lose(x) {
                    cx.lose(x, &v, "isolated");
                    block(&w, x, None, true);
                    let (cx, ms) = (cx.clone(), *ms as u64);
                    bg.spawn(async move {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                        block(&cx.w, x, None, false);
                        let now = cx.w.now();
                        cx.w.t(|| format!("n{x} is reachable"));
                        cx.lk().ok[x] = Some(now);
                    });
                }
            }
            SOp::Cut { a, b, ms } => {
                let ((_, a), (_, b)) = (cx.who(a), cx.who(b));
                // Only when both reach the majority of every shard otherwise.
                let fine = {
                    let g = cx.lk();
                    a != b && g.cuts.is_empty() && n >= 3 && g.ok.iter().all(|x| x.is_some()) && g.unsure.iter().all(|u| u.is_empty()) && g.members.iter().all(|m| m.len() == n) && g.shards.iter().all(|p| matches!(p, Phase::Calm { .. }))
                };
                if fine {
                    cx.lk().cuts.insert((a.min(b), a.max(b)), w.now());
                    block(&w, a, Some(b), true);
                    cx.stat("cuts");
                    let (cx, ms) = (cx.clone(), *ms as u64);
                    bg.spawn(async move {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                        block(&cx.w, a, Some(b), false);
                        let now = cx.w.now();
                        let mut g = cx.lk();
                        g.cuts.remove(&(a.min(b), a.max(b)));
                        g.pair_ok.insert((a.min(b), a.max(b)), now);
                    });
                }
            }
            SOp::TimeoutNow { who } => {
                let (s, x) = cx.who(who);
                let fine = {
                    let g = cx.lk();
                    let m = &g.members[s];
                    g.cuts.is_empty() && g.ok[x].is_some() && m.contains(&x) && g.unsure[s].is_empty() && m.iter().filter(|i| g.ok[**i].is_some()).count() * 2 > m.len()
                };
                if fine {
                    cx.lk().hands[s] = None;
                    cx.stir(s, format!("n{x} was told to become the leader at {}", w.now()));
                    cx.stat("transfers");
                    let mut cli = RaftClient::new(w.client_channel(x));
                    let r = TimeoutNow { shard_id: s as u32 };
                    bg.spawn(async move {
                        tokio::time::timeout(Duration::from_secs(20), cli.send_timeout_now(r)).await.ok();
                    });
                }
            }
            SOp::RemoveLeader { shard } => {
                let s = *shard as usize % shards;
                let l = cx.leader(s);
                let fine = {
                    let g = cx.lk();
                    g.cuts.is_empty() && g.members[s].len() >= 3 && g.members[s].contains(&l) && g.unsure[s].is_empty() && g.ok.iter().all(|x| x.is_some()) && matches!(g.shards[s], Phase::Calm { .. })
                };
                if fine {
                    cx.lk().unsure[s].insert(l);
                    cx.stir(s, format!("leader n{l} was removed at {}", w.now()));
                    let now = w.now();
                    // Who was away a moment ago may interfere.
                    if cx.lk().ok.iter().all(|x| x.map(|at| at == 0 || at + 5000 < now).unwrap_or(false)) {
                        cx.lk().hands[s] = Some((l, now));
                    }
                    let ok = change(&cx, false, l, l, s as u32, 20_000).await;
                    cx.look();
                    if !ok {
                        cx.lk().hands[s] = None;
                    }
                    if ok {
                        cx.stat("leaders_removed");
                        let mut g = cx.lk();
                        g.unsure[s].remove(&l);
                        g.members[s].remove(&l);
                    }
                }
            }
            SOp::Add { shard } => {
                let s = *shard as usize % shards;
                let missing = (0..n).find(|i| !cx.lk().members[s].contains(i));
                let fine = {
                    let g = cx.lk();
                    g.cuts.is_empty() && g.unsure[s].is_empty() && g.ok.iter().all(|x| x.is_some()) && matches!(g.shards[s], Phase::Calm { .. })
                };
                if let (Some(x), true) = (missing, fine) {
                    cx.lk().unsure[s].insert(x);
                    let l = cx.leader(s);
                    let ok = change(&cx, true, l, x, s as u32, 20_000).await;
                    cx.look();
                    if ok {
                        cx.stat("added");
                        let now = w.now();
                        let mut g = cx.lk();
                        g.unsure[s].remove(&x);
                        g.members[s].insert(x);
                        g.pair_ok.insert((l.min(x), l.max(x)), now);
                    }
                }
            }
        }
    }
    // Everything that was lost comes back.
    while tokio::time::timeout(Duration::from_millis(100), bg.join_next()).await.map(|x| x.is_some()).unwrap_or(true) {
        cx.look();
    }
    cx.settle().await;
    cx.pass(15_000).await;
    w.finish_panics();
    let mut out = CaseResult { ..Default::default() };
    if c.entry || c.minority {
        crate::cluster::final_checks(&cx.cl, true);
    }
    let mut g = cx.lk();
    let mut fails = std::mem::take(&mut g.fails);
    let mine = |f: &Fail| ["NotServed", "Different", "Impossible", "Loop"].contains(&f.class.as_str());
    fails.retain(|f| if c.minority { ["HeldUp", "Deposed"].contains(&f.class.as_str()) } else { mine(f) == c.entry });
    let mut stats = std::mem::take(&mut g.stats);
    for b in [5, 10, 20, 40, 80] {
        if g.takeover_max > b * 1000 {
            stats.insert(format!("takeover_over_{b}s"), 1);
        }
    }
    drop(g);
    stats.insert("acked".into(), cx.cl.acked());
    {
        let mut st = w.lock();
        for v in &st.orc.violations {
            let kinds: &[K] = if c.entry || c.minority {
                &[K::BadWriteResp, K::LostWrite, K::WriteRealTime, K::StaleRead, K::BadReadValue, K::DupExec, K::ShardMix, K::ConfigNotDurable, K::TaskPanic, K::RestartFailed, K::Livelock]
            } else {
                &[K::TwoLeaders, K::DoubleVote, K::TaskPanic, K::RestartFailed, K::Livelock]
            };
            if kinds.contains(&v.kind) {
                fails.push(Fail { class: format!("{:?}", v.kind), msg: format!("at {} ms: {}", v.at_ms, v.msg) });
            }
        }
        out.trace = st.trace.take().unwrap_or_default();
        if let Some(x) = st.forwards.values().max().filter(|x| **x > 16 && c.entry) {
            fails.push(Fail { class: "Loop".into(), msg: format!("a request was sent {x} times from node to node") });
        }
        stats.insert("forwarded".into(), st.forwards.len() as u64);
        let d: Vec<u64> = st.orc.shards.values().flat_map(|s| s.leaders.iter().flat_map(|(t, l)| [*t, l.0 as u64]).collect::<Vec<_>>()).chain([st.rpcs]).collect();
        out.digest = crate::rng::mix(&d);
    }
    for i in 0..n {
        w.crash(i);
    }
    sorock::verif_hooks::set_connector(None);
    out.fails = fails;
    out.stats = stats;
    let q = |k: &str| out.stats.get(k).copied().unwrap_or(0);
    out.nontrivial = if c.entry { q("probes") >= 1 && q("probes") + q("headless") >= 2 } else { false };
    if c.minority {
        out.nontrivial = q("asked") >= 1 && q("acked") >= 1;
        return out;
    }
    out.nontrivial |= !c.entry && q("followers_lost") + q("leaders_lost") + q("cuts") + q("transfers") + q("leaders_removed") >= 2;
    out
}

/// One request of a kind to a node. None: it wasn't answered in time.
async fn one(cx: &Arc<Cx>, s: usize, kind: u8, via: usize, limit: u64) -> Option<bool> {
    let s = s as u32;
    let t0 = cx.w.now();
    let ok = match kind {
        0 | 1 => cx.cl.write(via, s, 0, limit as u32, 0).await,
        2 => cx.cl.read(via, s, limit as u32, false).await,
        // a member is added again: nothing changes
        3 => change(cx, true, via, cx.leader(s as usize), s, limit).await,
        _ => {
            let mut cli = RaftClient::new(cx.w.client_channel(via));
            let req = ReadRequest { shard_id: 1000, message: Default::default() };
            tokio::time::timeout(Duration::from_millis(limit), cli.read(req)).await.map(|x| x.is_ok()).unwrap_or(false)
        }
    };
    (ok || cx.w.now() < t0 + limit).then_some(ok)
}

async fn probe(cx: &Arc<Cx>, s: usize, kind: u8) {
    let ready = |cx: &Arc<Cx>| {
        let now = cx.w.now();
        let g = cx.lk();
        let l = match &g.shards[s] {
            Phase::Calm { leader, since, .. } if *since + 1000 < now => Some(*leader),
            _ => None,
        };
        let fine = g.cuts.is_empty() && g.unsure[s].is_empty() && g.ok.iter().all(|x| x.map(|at| at == 0 || at + 5000 < now).unwrap_or(false));
        l.filter(|_| fine).map(|l| (l, g.top[s]))
    };
    for _ in 0..600 {
        if ready(cx).is_some() || !cx.lk().fails.is_empty() {
            break;
        }
        cx.pass(100).await;
    }
    let Some((l, term)) = ready(cx) else { return };
    let members = cx.lk().members[s].clone();
    cx.stat("probes");
    cx.stat(["probes_write", "probes_writes", "probes_read", "probes_add", "probes_unknown_shard", "probes_membership"][kind as usize % 6]);
    let fail = |class: &str, msg: String| {
        cx.look();
        // A leader that was replaced meanwhile is another matter.
        let mut g = cx.lk();
        if g.top[s] == term && g.fails.len() < 5 {
            cx.w.t(|| format!("VIOLATED {class}: {msg}"));
            g.fails.push(Fail { class: class.into(), msg: format!("at {} ms: shard {s}: {msg}", cx.w.now()) });
        }
    };
    match kind {
        // one after another
        0 | 2 | 3 => {
            for via in &members {
                let r = one(cx, s, kind, *via, 10_000).await;
                if r != Some(true) {
                    fail("NotServed", format!("request of kind {kind} via n{via} got {r:?} while n{l} leads"));
                }
            }
        }
        // all at once
        1 => {
            let f = members.iter().map(|via| one(cx, s, 1, *via, 10_000));
            let rs = futures::future::join_all(f).await;
            for (via, r) in members.iter().zip(rs) {
                if r != Some(true) {
                    fail("NotServed", format!("write via n{via} got {r:?} while n{l} leads"));
                }
            }
        }
        4 => {
            for via in 0..cx.n {
                let r = one(cx, s, 4, via, 10_000).await;
                if r != Some(false) {
                    fail("Different", format!("read of an unknown shard via n{via} got {r:?}"));
                }
            }
        }
        // a follower is removed and added through each member in turn
        _ => {
            if members.len() < 3 {
                return;
            }
            let vias: Vec<usize> = members.iter().copied().collect();
            for (k, via) in vias.iter().enumerate() {
                let others: Vec<usize> = members.iter().copied().filter(|x| *x != l).collect();
                let x = others[(k + kind as usize) % others.len()];
                for add in [false, true] {
                    cx.lk().unsure[s].insert(x);
                    let ok = cx.cl.server_change(add, *via, x, s as u32, 10_000).await;
                    if !ok {
                        // stays unsure
                        fail("NotServed", format!("{} of n{x} via n{via} failed while n{l} leads", if add { "addition" } else { "removal" }));
                        cx.stat("unsure");
                        return;
                    }
                    let now = cx.w.now();
                    let mut g = cx.lk();
                    g.unsure[s].remove(&x);
                    if add {
                        g.members[s].insert(x);
                        g.pair_ok.insert((l.min(x), l.max(x)), now);
                    } else {
                        g.members[s].remove(&x);
                    }
                }
            }
        }
    }
}

/// Without a majority nothing is executed, whoever is asked.
async fn headless(cx: &Arc<Cx>, s: usize, kind: u8, ms: u64) {
    {
        let g = cx.lk();
        let fine = g.cuts.is_empty() && g.unsure.iter().all(|u| u.is_empty()) && g.ok.iter().all(|x| x.is_some()) && g.members.iter().all(|m| m.len() >= 2);
        if !fine {
            return;
        }
    }
    cx.stat("headless");
    for x in 0..cx.n {
        cx.lk().ok[x] = None;
        block(&cx.w, x, None, true);
    }
    let ns = cx.lk().shards.len();
    for i in 0..ns {
        cx.stir(i, format!("nobody reached anybody at {}", cx.w.now()));
    }
    cx.lk().hands.fill(None);
    cx.pass(500).await;
    let t0 = cx.w.now();
    let asked = {
        let members = cx.lk().members[s].clone();
        let cx = cx.clone();
        tokio::spawn(async move {
            let f = members.iter().map(|via| one(&cx, s, kind.min(2), *via, 60_000));
            let f = futures::future::join_all(f.map(|f| async {
                let r = f.await;
                (r, cx.w.now())
            }))
            .await;
            (members, f)
        })
    };
    cx.pass(ms).await;
    let end = cx.w.now();
    cx.w.t(|| "nodes reach each other".into());
    for x in 0..cx.n {
        block(&cx.w, x, None, false);
        cx.lk().ok[x] = Some(end);
    }
    let Ok((members, rs)) = asked.await else { return };
    cx.look();
    for (via, (r, at)) in members.iter().zip(rs) {
        if r == Some(true) && at < end {
            cx.lk().fails.push(Fail { class: "Impossible".into(), msg: format!("at {at} ms: shard {s}: n{via} answered a request of kind {kind} although no node reached another one from {t0} to {end}") });
        }
        if r.is_some() {
            cx.stat("headless_answered");
        }
    }
}

fn hurt(w: &World, x: usize, how: u8, on: bool) {
    let mut st = w.lock();
    let n = st.nodes.len();
    match how % 6 {
        4 | 5 => {
            for i in (0..n).filter(|i| *i != x) {
                if how % 6 == 4 {
                    st.blocked[i][x] = on;
                } else {
                    st.blocked[x][i] = on;
                }
            }
        }
        k => {
            if on {
                st.hurt.insert(x, Hurt { hang: k == 0, err: [0, 300, 1000, 0][k as usize], slow: if k == 3 { 700 } else { 0 } });
            } else {
                st.hurt.remove(&x);
            }
        }
    }
}

/// A request takes so long at most while the leader and a majority are well.
const SERVED: u64 = 5_000;

async fn ask(cx: &Arc<Cx>, s: usize, kind: u8, n: u8, via: usize) {
    let now = cx.w.now();
    let (l, term, well, members) = {
        let g = cx.lk();
        let Phase::Calm { leader, since, .. } = &g.shards[s] else { return };
        let well: Vec<usize> = g.members[s].iter().copied().filter(|m| g.ok[*m].map(|at| at == 0 || at + 5000 < now).unwrap_or(false)).collect();
        if *since + 1000 > now || !g.unsure[s].is_empty() || !g.cuts.is_empty() || !well.contains(leader) || well.len() * 2 <= g.members[s].len() {
            return;
        }
        (*leader, g.top[s], well, g.members[s].clone())
    };
    let ill: Vec<usize> = members.iter().copied().filter(|m| cx.lk().ok[*m].is_none()).collect();
    let fail = |msg: String| {
        cx.look();
        let mut g = cx.lk();
        if g.top[s] == term && g.fails.len() < 5 {
            cx.w.t(|| format!("VIOLATED HeldUp: {msg}"));
            g.fails.push(Fail { class: "HeldUp".into(), msg: format!("at {} ms: shard {s}: {msg}; n{l} leads, {well:?} of {members:?} are well, asked at {now}", cx.w.now()) });
        }
    };
    let via = if via % 3 == 0 { well[via / 3 % well.len()] } else { l };
    cx.stat(if ill.is_empty() { "asked_all_well" } else { "asked" });
    match kind {
        0..=2 => {
            let f = (0..n).map(|i| {
                let read = kind == 1 || kind == 2 && i % 2 == 1;
                async move { (read, one(cx, s, if read { 2 } else { 0 }, via, SERVED).await) }
            });
            for (read, r) in futures::future::join_all(f).await {
                if r != Some(true) {
                    fail(format!("{} via n{via} got {r:?}", if read { "read" } else { "write" }));
                }
            }
        }
        _ => {
            let Some(x) = ill.get(n as usize % ill.len().max(1)).copied() else { return };
            if members.len() < 3 {
                return;
            }
            cx.stat("members_replaced");
            for add in [false, true] {
                cx.lk().unsure[s].insert(x);
                let ok = cx.cl.server_change(add, via, x, s as u32, SERVED).await;
                if !ok {
                    fail(format!("{} of n{x} via n{via} failed", if add { "addition" } else { "removal" }));
                    return;
                }
                let now = cx.w.now();
                let mut g = cx.lk();
                g.unsure[s].remove(&x);
                if add {
                    g.members[s].insert(x);
                    g.pair_ok.insert((l.min(x), l.max(x)), now);
                } else {
                    g.members[s].remove(&x);
                }
            }
        }
    }
}

fn block(w: &World, x: usize, y: Option<usize>, on: bool) {
    let mut st = w.lock();
    let n = st.nodes.len();
    for i in 0..n {
        if y.map(|y| y == i).unwrap_or(i != x) {
            st.blocked[x][i] = on;
            st.blocked[i][x] = on;
        }
    }
}

pub fn exec(c: &SCase, trace: bool) -> CaseResult {
    let c = c.clone();
    simulate(c.seed, move || run(c, trace)).unwrap_or_else(|| CaseResult { broken: Some("the simulation panicked".into()), ..Default::default() })
}

pub const RULE: &str = "clusters of 2 to 5 nodes with 1 to 6 shards on a network without loss, under writes, reads and snapshots, while a minority of nodes crashes, restarts, is isolated or cut off from one other node, leaders are removed, and leadership is transferred; non-trivial when at least two such events happened";

pub const MINORITY_RULE: &str = "clusters of 3 to 5 nodes with 1 or 2 shards, in which nodes that lead nothing, always less than half of the members, crash, are isolated, deaf or mute, or have hanging, slow or failing storage, one after another and at the same time, while snapshots are made; non-trivial when requests were sent in such a situation";

pub const ENTRY_RULE: &str = "the clusters and events of C18, and periods without any majority, in which every member is asked to execute the same write, read or membership change, alone and all at once; answers are compared with the sequence of executed requests; non-trivial when all members were asked at least once while a leader worked, and twice in total";
