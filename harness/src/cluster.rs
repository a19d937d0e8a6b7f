//! One simulated cluster history: a generated case, its execution, and the checks at the end.

use crate::oracle::{Kind, Oracle, Violation};
use crate::world::*;
use bytes::Bytes;
use sorock::client::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Op {
    Write { via: u8, shard: u8, retries: u8, timeout_ms: u32, pad: u16 },
    /// `n` concurrent writes
    Burst { via: u8, shard: u8, n: u8 },
    /// the same request sent to several nodes at once
    DupWrite { via: u8, shard: u8, n: u8, gap_ms: u16 },
    Read { via: u8, shard: u8, timeout_ms: u32 },
    /// reads one after the other through all the nodes
    Poll { shard: u8, n: u8, gap_ms: u16 },
    Crash { who: Who },
    Restart { who: Who },
    /// crash after so many more steps of storage or application and come back
    CrashAt { who: Who, steps: u16, down_ms: u16 },
    CrashAll { down_ms: u16 },
    /// stop the process of a shard on a node
    Detach { who: Who, shard: u8 },
    /// start the process of a shard which isn't running
    Attach { node: u8, shard: u8 },
    /// crash and come back
    Bounce { who: Who, down_ms: u16 },
    /// nodes of the mask are cut from the others
    Partition { mask: u8 },
    /// the current leader is cut from everybody (`with` more nodes on its side)
    IsolateLeader { shard: u8, with: u8 },
    OneWay { src: u8, dst: u8 },
    Heal,
    AddServer { via: u8, node: u8, shard: u8 },
    RemoveServer { via: u8, node: u8, shard: u8 },
    /// changes of the membership, one right after the other
    Changes { shard: u8, seq: Vec<(bool, Who)>, gap_ms: u16 },
    TimeoutNow { who: Who, shard: u8 },
    Snapshot { who: Who, shard: u8 },
    Wait { ms: u16 },
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Who {
    Node(u8),
    Leader(u8),
    /// k-th node that isn't the leader
    Follower(u8, u8),
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Case {
    pub seed: u64,
    pub nodes: u8,
    /// size of the initial cluster
    pub initial: u8,
    pub shards: u8,
    pub net: NetProf,
    pub store: StoreProf,
    pub queue: bool,
    pub ops: Vec<(u32, Op)>,
}

#[derive(Clone, Debug)]
struct WriteRec {
    op: u64,
    shard: u32,
    invoked: u64,
    done: Option<(u64, WriteResp)>,
}
#[derive(Clone, Debug)]
struct ReadRec {
    shard: u32,
    invoked: u64,
    done_at: u64,
    resp: ReadResp,
    token: u64,
}

#[derive(Default)]
struct History {
    writes: Vec<WriteRec>,
    reads: Vec<ReadRec>,
    next: u64,
    config_acks: Vec<(u64, u32, usize, bool)>,
    read_errs: u64,
    inflight: u64,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub stats: BTreeMap<String, u64>,
    pub virtual_ms: u64,
    pub rpcs: u64,
    pub trace: Vec<String>,
    pub digest: u64,
}

pub struct Ctx {
    pub w: Arc<World>,
    h: Mutex<History>,
    chans: Vec<tonic::transport::Channel>,
}

impl Ctx {
    pub fn new(w: &Arc<World>, n: usize) -> Arc<Self> {
        Arc::new(Ctx { w: w.clone(), h: Mutex::new(History::default()), chans: (0..n).map(|i| w.client_channel(i)).collect() })
    }
    /// Executed requests which were acknowledged.
    pub fn acked(&self) -> u64 {
        self.h().writes.iter().filter(|w| w.done.is_some()).count() as u64
    }
    fn h(&self) -> std::sync::MutexGuard<'_, History> {
        self.h.lock().unwrap()
    }
    fn cli(&self, i: usize) -> RaftClient {
        RaftClient::new(self.chans[i].clone())
    }

    fn leader(&self, shard: u32) -> Option<usize> {
        let st = self.w.lock();
        st.orc.shards.get(&shard).and_then(|s| s.leaders.iter().next_back().map(|x| x.1 .0))
    }

    fn who(&self, w: Who, n: usize) -> usize {
        match w {
            Who::Node(i) => i as usize % n,
            Who::Leader(s) => self.leader(s as u32 % self.w.shards).unwrap_or(0),
            Who::Follower(s, k) => {
                let l = self.leader(s as u32 % self.w.shards).unwrap_or(0);
                if n == 1 {
                    return 0;
                }
                (l + 1 + (k as usize % (n - 1))) % n
            }
        }
    }

    pub async fn write(self: &Arc<Self>, via: usize, shard: u32, retries: u8, timeout_ms: u32, pad: usize) -> bool {
        let (k, op) = {
            let mut h = self.h();
            h.next += 1;
            let op = h.next;
            h.writes.push(WriteRec { op, shard, invoked: self.w.now(), done: None });
            (h.writes.len() - 1, op)
        };
        let req_id = format!("r{op}");
        self.write_req(k, op, &req_id, via, shard, retries, timeout_ms, pad).await
    }

    #[allow(clippy::too_many_arguments)]
    async fn write_req(
        self: &Arc<Self>,
        k: usize,
        op: u64,
        req_id: &str,
        via: usize,
        shard: u32,
        retries: u8,
        timeout_ms: u32,
        pad: usize,
    ) -> bool {
        let n = self.chans.len();
        for attempt in 0..=retries as usize {
            let to = (via + attempt) % n;
            self.w.t(|| format!("client write op {op} shard {shard} -> n{to} (attempt {attempt})"));
            let req = WriteRequest {
                shard_id: shard,
                message: op_payload(op, shard, pad),
                request_id: req_id.to_string(),
            };
            let mut cli = self.cli(to);
            let r = tokio::time::timeout(Duration::from_millis(timeout_ms as u64), cli.write(req)).await;
            if let Ok(Ok(resp)) = r {
                let now = self.w.now();
                let b = resp.into_inner().message;
                match bincode::deserialize::<WriteResp>(&b) {
                    Ok(r) => {
                        self.w.t(|| format!("client write op {op} done {r:?}"));
                        let mut st = self.w.lock();
                        st.orc.stat("writes_ok");
                        if r.op != op || r.shard != shard {
                            let m = format!("write of op {op} (shard {shard}) answered with {r:?}");
                            st.orc.fail(Kind::BadWriteResp, now, m);
                        }
                        drop(st);
                        let mut h = self.h();
                        if h.writes[k].done.is_none() {
                            h.writes[k].done = Some((now, r));
                        } else if h.writes[k].done.as_ref().map(|x| &x.1) != Some(&r) {
                            let m = format!("op {op} answered with {r:?} and {:?}", h.writes[k].done);
                            drop(h);
                            self.w.lock().orc.fail(Kind::BadWriteResp, now, m);
                        }
                    }
                    Err(_) => {
                        self.w.lock().orc.fail(Kind::BadWriteResp, now, format!("op {op}: undecodable response {b:?}"));
                    }
                }
                return true;
            }
            if attempt < retries as usize {
                tokio::time::sleep(Duration::from_millis(50)).await;
            }
        }
        self.w.lock().orc.stat("writes_unknown");
        false
    }

    pub async fn read(self: &Arc<Self>, via: usize, shard: u32, timeout_ms: u32, snapshot: bool) -> bool {
        let token = {
            let mut h = self.h();
            h.next += 1;
            h.next
        };
        let invoked = self.w.now();
        let mut m = op_payload(token, shard, 0).to_vec();
        if snapshot {
            m.push(b'S');
        }
        let mut cli = self.cli(via);
        let req = ReadRequest { shard_id: shard, message: m.into() };
        let r = tokio::time::timeout(Duration::from_millis(timeout_ms as u64), cli.read(req)).await;
        match r {
            Ok(Ok(resp)) => {
                let b: Bytes = resp.into_inner().message;
                let now = self.w.now();
                match bincode::deserialize::<ReadResp>(&b) {
                    Ok(r) => {
                        self.w.t(|| format!("client read via n{via} -> {r:?}"));
                        self.w.lock().orc.stat("reads_ok");
                        self.h().reads.push(ReadRec { shard, invoked, done_at: now, resp: r, token });
                    }
                    Err(_) => self.w.lock().orc.fail(Kind::BadReadValue, now, format!("undecodable {b:?}")),
                }
                true
            }
            _ => {
                self.h().read_errs += 1;
                false
            }
        }
    }

    pub async fn server_change(self: &Arc<Self>, add: bool, via: usize, node: usize, shard: u32, timeout_ms: u64) -> bool {
        self.w.t(|| format!("client {} n{node} shard {shard} via n{via}", if add { "add" } else { "remove" }));
        let mut cli = self.cli(via);
        let server_id = uri_of(node);
        let ok = if add {
            let f = cli.add_server(AddServerRequest { shard_id: shard, server_id });
            matches!(tokio::time::timeout(Duration::from_millis(timeout_ms), f).await, Ok(Ok(_)))
        } else {
            let f = cli.remove_server(RemoveServerRequest { shard_id: shard, server_id });
            matches!(tokio::time::timeout(Duration::from_millis(timeout_ms), f).await, Ok(Ok(_)))
        };
        if ok {
            let now = self.w.now();
            self.w.t(|| format!("client {} n{node} OK", if add { "add" } else { "remove" }));
            let mut st = self.w.lock();
            st.orc.stat("config_acks");
            let st = &mut *st;
            let good = config_committed(&st.nodes, shard, node, add);
            if !good {
                let m = format!("shard {shard}: {} of n{node} was acknowledged but no majority stores such a configuration", if add { "addition" } else { "removal" });
                st.orc.fail(Kind::ConfigNotDurable, now, m);
            }
            drop(st);
            self.h().config_acks.push((now, shard, node, add));
        }
        ok
    }

    fn set_partition(&self, side: &BTreeSet<usize>) {
        let mut st = self.w.lock();
        let n = st.nodes.len();
        for a in 0..n {
            for b in 0..n {
                st.blocked[a][b] = side.contains(&a) != side.contains(&b);
            }
        }
    }
    fn heal(&self) {
        let mut st = self.w.lock();
        for r in st.blocked.iter_mut() {
            for x in r.iter_mut() {
                *x = false;
            }
        }
    }
}

/// A configuration with (without) `node` is stored by a majority of its members.
fn config_committed(nodes: &Vec<Node>, shard: u32, node: usize, present: bool) -> bool {
    use crate::oracle::Disks;
    let uri = uri_of(node);
    for n in 0..nodes.len() {
        let Some(log) = nodes.log(n, shard) else { continue };
        for (i, m, _) in Oracle::configs(log) {
            if m.contains(&uri) != present {
                continue;
            }
            let holders = Oracle::holders(nodes, shard, i, log[&i].this_clock.term);
            let members: BTreeSet<usize> = m.iter().filter_map(|u| idx_of(u)).collect();
            let c = members.iter().filter(|x| holders.contains(x)).count();
            if c * 2 > members.len() {
                return true;
            }
            if members.is_empty() {
                return true;
            }
        }
    }
    false
}

pub const LIVENESS_MS: u64 = 300_000;

async fn run(case: &Case, trace: bool) -> Outcome {
    let n = case.nodes.max(1) as usize;
    let shards = case.shards.max(1) as u32;
    let w = World::new(case.seed, n, shards, case.net.clone(), case.store.clone(), case.queue, trace);
    let chans = (0..n).map(|i| w.client_channel(i)).collect();
    let cx = Arc::new(Ctx { w: w.clone(), h: Mutex::new(History::default()), chans });
    // The cluster is formed on a reliable network.
    w.lock().reliable = true;
    for i in 0..n {
        if let Err(e) = w.start_node(i).await {
            w.lock().orc.fail(Kind::RestartFailed, 0, format!("n{i} can't start: {e:#}"));
        }
    }
    let initial = (case.initial.max(1) as usize).min(n);
    for s in 0..shards {
        let boot = s as usize % initial;
        let mut seq = vec![boot];
        seq.extend((0..initial).filter(|x| *x != boot));
        for i in seq {
            let mut ok = false;
            for _ in 0..60 {
                if cx.server_change(true, boot, i, s, 5000).await {
                    ok = true;
                    break;
                }
                tokio::time::sleep(Duration::from_millis(300)).await;
            }
            if !ok {
                let now = w.now();
                w.lock().orc.fail(Kind::Liveness, now, format!("n{i} can't be added to shard {s} on a reliable network"));
                break;
            }
        }
    }
    w.lock().reliable = false;
    let formed = w.now();

    let mut bg = tokio::task::JoinSet::new();
    for (d, op) in &case.ops {
        tokio::time::sleep(Duration::from_millis(*d as u64)).await;
        if w.lock().livelock {
            break;
        }
        w.t(|| format!("OP {op:?}"));
        let cx2 = cx.clone();
        match op.clone() {
            Op::Write { via, shard, retries, timeout_ms, pad } => {
                let via = via as usize % n;
                let shard = shard as u32 % shards;
                bg.spawn(async move {
                    cx2.write(via, shard, retries, timeout_ms, pad as usize).await;
                });
            }
            Op::Burst { via, shard, n: k } => {
                let shard = shard as u32 % shards;
                for j in 0..k {
                    let cx2 = cx.clone();
                    let via = (via as usize + if j % 3 == 2 { 1 } else { 0 }) % n;
                    bg.spawn(async move {
                        cx2.write(via, shard, 0, 20_000, 0).await;
                    });
                }
            }
            Op::DupWrite { via, shard, n: k, gap_ms } => {
                let shard = shard as u32 % shards;
                let (rec, op) = {
                    let mut h = cx.h();
                    h.next += 1;
                    let op = h.next;
                    h.writes.push(WriteRec { op, shard, invoked: w.now(), done: None });
                    (h.writes.len() - 1, op)
                };
                w.lock().orc.stat("dup_requests");
                for j in 0..k.max(2) {
                    let cx2 = cx.clone();
                    let via = (via as usize + (j as usize / 2)) % n;
                    bg.spawn(async move {
                        tokio::time::sleep(Duration::from_millis(gap_ms as u64 * j as u64)).await;
                        let id = format!("r{op}");
                        cx2.write_req(rec, op, &id, via, shard, 1, 8_000, 0).await;
                    });
                }
            }
            Op::Read { via, shard, timeout_ms } => {
                let via = via as usize % n;
                let shard = shard as u32 % shards;
                bg.spawn(async move {
                    cx2.read(via, shard, timeout_ms, false).await;
                });
            }
            Op::Poll { shard, n: k, gap_ms } => {
                let shard = shard as u32 % shards;
                bg.spawn(async move {
                    for j in 0..k as usize {
                        let cx3 = cx2.clone();
                        tokio::spawn(async move { cx3.read(j % n, shard, 3_000, false).await });
                        tokio::time::sleep(Duration::from_millis(gap_ms as u64)).await;
                    }
                });
            }
            Op::Crash { who } => {
                let i = cx.who(who, n);
                if w.lock().nodes[i].up {
                    w.lock().orc.stat("crashes");
                    w.crash(i);
                }
            }
            Op::Restart { who } => {
                let i = cx.who(who, n);
                w.restart(i).await;
            }
            Op::Bounce { who, down_ms } => {
                let i = cx.who(who, n);
                if w.lock().nodes[i].up {
                    w.lock().orc.stat("crashes");
                    w.crash(i);
                    let w2 = w.clone();
                    bg.spawn(async move {
                        tokio::time::sleep(Duration::from_millis(down_ms as u64)).await;
                        w2.restart(i).await;
                    });
                }
            }
            Op::CrashAt { who, steps, down_ms } => {
                let i = cx.who(who, n);
                let mut st = w.lock();
                if st.nodes[i].up {
                    st.orc.stat("crashes");
                    st.nodes[i].fuse = Some((steps as u32, down_ms as u32));
                }
            }
            Op::CrashAll { down_ms } => {
                for i in 0..n {
                    if w.lock().nodes[i].up {
                        w.lock().orc.stat("crashes");
                        w.crash(i);
                    }
                    let w2 = w.clone();
                    bg.spawn(async move {
                        tokio::time::sleep(Duration::from_millis(down_ms as u64 + i as u64 * 40)).await;
                        w2.restart(i).await;
                    });
                }
            }
            Op::Detach { who, shard } => {
                let i = cx.who(who, n);
                w.detach(i, shard as u32 % shards);
            }
            Op::Attach { node, shard } => {
                let w2 = w.clone();
                bg.spawn(async move { w2.reattach(node as usize % n, shard as u32 % shards).await });
            }
            Op::Partition { mask } => {
                let side: BTreeSet<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
                w.lock().orc.stat("partitions");
                cx.set_partition(&side);
            }
            Op::IsolateLeader { shard, with } => {
                if let Some(l) = cx.leader(shard as u32 % shards) {
                    let mut side: BTreeSet<usize> = [l].into();
                    for k in 0..with as usize {
                        side.insert((l + 1 + k) % n);
                    }
                    w.lock().orc.stat("partitions");
                    cx.set_partition(&side);
                }
            }
            Op::OneWay { src, dst } => {
                w.lock().blocked[src as usize % n][dst as usize % n] = src as usize % n != dst as usize % n;
            }
            Op::Heal => cx.heal(),
            Op::AddServer { via, node, shard } => {
                let (via, node, shard) = (via as usize % n, node as usize % n, shard as u32 % shards);
                // AddServer of a node to itself while it knows no cluster bootstraps a new cluster.
                if via != node {
                    bg.spawn(async move {
                        cx2.server_change(true, via, node, shard, 20_000).await;
                    });
                }
            }
            Op::RemoveServer { via, node, shard } => {
                let (via, node, shard) = (via as usize % n, node as usize % n, shard as u32 % shards);
                // never remove the last server
                let left = {
                    let st = w.lock();
                    latest_config(&st.nodes, shard).map(|c| c.len()).unwrap_or(0)
                };
                if left > 1 {
                    bg.spawn(async move {
                        cx2.server_change(false, via, node, shard, 20_000).await;
                    });
                }
            }
            Op::Changes { shard, seq, gap_ms } => {
                let shard = shard as u32 % shards;
                bg.spawn(async move {
                    for (add, who) in seq {
                        let node = cx2.who(who, n);
                        for k in 0..3 {
                            let via = cx2.leader(shard).unwrap_or(0) + if k == 2 { 1 } else { 0 };
                            let via = via % n;
                            let left = {
                                let st = cx2.w.lock();
                                latest_config(&st.nodes, shard).map(|c| c.len()).unwrap_or(0)
                            };
                            if if add { via == node } else { left <= 1 } {
                                break;
                            }
                            if cx2.server_change(add, via, node, shard, 8_000).await {
                                break;
                            }
                            tokio::time::sleep(Duration::from_millis(100)).await;
                        }
                        tokio::time::sleep(Duration::from_millis(gap_ms as u64)).await;
                    }
                });
            }
            Op::TimeoutNow { who, shard } => {
                let i = cx.who(who, n);
                let shard = shard as u32 % shards;
                bg.spawn(async move {
                    let mut cli = cx2.cli(i);
                    let f = cli.send_timeout_now(TimeoutNow { shard_id: shard });
                    tokio::time::timeout(Duration::from_secs(20), f).await.ok();
                });
            }
            Op::Snapshot { who, shard } => {
                let i = cx.who(who, n);
                make_snapshot(&w, i, shard as u32 % shards);
            }
            Op::Wait { ms } => tokio::time::sleep(Duration::from_millis(ms as u64)).await,
        }
    }

    // ---- faults end
    cx.heal();
    {
        let mut st = w.lock();
        st.reliable = true;
        st.net.hold = false;
        for n in st.nodes.iter_mut() {
            n.fuse = None;
        }
    }
    w.t(|| "HEAL ALL".to_string());
    for i in 0..n {
        w.restart(i).await;
        for s in 0..shards {
            w.reattach(i, s).await;
        }
    }
    let healed = w.now();
    let mut progress = true;
    let livelock = || w.lock().livelock;
    for s in 0..shards {
        let mut ok = false;
        let mut k = 0usize;
        while w.now() < healed + LIVENESS_MS && !livelock() {
            if cx.write(k % n, s, 0, 10_000, 0).await {
                ok = true;
                break;
            }
            k += 1;
            tokio::time::sleep(Duration::from_millis(500)).await;
        }
        if !ok && !livelock() {
            progress = false;
            let now = w.now();
            let d = describe(&w, s);
            let mut st = w.lock();
            let st = &mut *st;
            match electable(&st.nodes, s) {
                // All the servers were removed.
                None => st.orc.stat("emptied"),
                Some(e) => {
                    let kind = if e { Kind::Liveness } else { Kind::LivenessRemoved };
                    st.orc.fail(kind, now, format!("shard {s}: no write succeeds {} ms after all faults ended: {d}", now - healed));
                }
            }
        }
    }
    // let the outstanding client requests finish
    let t = w.now();
    while !bg.is_empty() && w.now() < t + 60_000 {
        tokio::select! {
            _ = bg.join_next() => {}
            _ = tokio::time::sleep(Duration::from_secs(1)) => {}
        }
    }
    bg.abort_all();

    if progress && !livelock() {
        // linearizable final reads
        for s in 0..shards {
            for i in 0..n {
                cx.read(i, s, 5_000, false).await;
            }
        }
        // convergence of the members
        let t = w.now();
        for s in 0..shards {
            let mut why = String::new();
            let mut ok = false;
            while w.now() < t + LIVENESS_MS {
                match converged(&w, s) {
                    Ok(()) => {
                        ok = true;
                        break;
                    }
                    Err(e) => why = e,
                }
                if livelock() {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1000)).await;
            }
            if !ok && !livelock() {
                let now = w.now();
                w.lock().orc.fail(Kind::Convergence, now, format!("shard {s}: {why}"));
            }
        }
    }
    final_checks(&cx, progress);
    w.finish_panics();

    let now = w.now();
    let mut st = w.lock();
    let mut stats: BTreeMap<String, u64> = st.orc.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let h = cx.h();
    stats.insert("writes".into(), h.writes.len() as u64);
    stats.insert("reads".into(), h.reads.len() as u64);
    stats.insert("formed_ms".into(), formed);
    let terms: u64 = st.orc.shards.values().map(|s| s.leaders.len() as u64).sum();
    stats.insert("terms_with_leader".into(), terms);
    stats.insert("recovery_ms".into(), now - healed);
    let mut digest = vec![now, st.rpcs];
    for (k, v) in &stats {
        digest.push(crate::rng::hash_bytes(k.as_bytes()));
        digest.push(*v);
    }
    for node in &st.nodes {
        for s in 0..shards {
            let d = &node.disks[&s];
            for (i, e) in &d.log {
                digest.push(*i);
                digest.push(e.this_clock.term);
                digest.push(crate::rng::hash_bytes(&e.command));
            }
        }
    }
    let out = Outcome {
        violations: st.orc.violations.clone(),
        stats,
        virtual_ms: now,
        rpcs: st.rpcs,
        trace: st.trace.take().unwrap_or_default(),
        digest: crate::rng::mix(&digest),
    };
    drop(h);
    drop(st);
    // tear down
    for i in 0..n {
        w.crash(i);
    }
    sorock::verif_hooks::set_connector(None);
    out
}

pub fn make_snapshot(w: &Arc<World>, i: usize, s: u32) {
    let now = w.now();
    let mut st = w.lock();
    let st = &mut *st;
    let n = &mut st.nodes[i];
    if !n.up {
        return;
    }
    let (Some(app), Some(&cur)) = (n.apps.get(&s).cloned(), n.app_cursor.get(&s)) else { return };
    if app.last_index() == 0 || cur != app.last_index() {
        return;
    }
    st.orc.stat("snapshots_made");
    if let Some(t) = &mut st.trace {
        t.push(format!("{now:>7} n{i}/{s} app makes snapshot@{cur}"));
    }
    n.disks.get_mut(&s).unwrap().snaps.insert(cur, app);
}

/// The latest configuration that is committed (stored by a majority of it), else the newest known.
pub fn latest_config(nodes: &Vec<Node>, shard: u32) -> Option<BTreeSet<usize>> {
    use crate::oracle::Disks;
    let mut best: Option<(u64, u64, BTreeSet<usize>)> = None;
    for n in 0..nodes.len() {
        let Some(log) = nodes.log(n, shard) else { continue };
        if let Some((i, m, _)) = Oracle::configs(log).pop() {
            let lt = log.iter().next_back().map(|(_, e)| e.this_clock.term).unwrap_or(0);
            if best.as_ref().map(|b| (b.0, b.1) < (lt, i)).unwrap_or(true) {
                best = Some((lt, i, m.iter().filter_map(|u| idx_of(u)).collect()));
            }
        }
    }
    best.map(|b| b.2)
}

/// Whether some node that belongs to its own latest configuration has a log good enough to be
/// elected by the majority of it. None if there is no member any more.
fn electable(nodes: &Vec<Node>, s: u32) -> Option<bool> {
    use crate::oracle::Disks;
    let last = |n: usize| {
        nodes.log(n, s).and_then(|l| l.iter().next_back().map(|(i, e)| (e.this_clock.term, *i))).unwrap_or((0, 0))
    };
    if latest_config(nodes, s).map(|c| c.is_empty()).unwrap_or(true) {
        return None;
    }
    for n in 0..nodes.len() {
        let Some(log) = nodes.log(n, s) else { continue };
        let Some((_, m, _)) = Oracle::configs(log).pop() else { continue };
        let m: BTreeSet<usize> = m.iter().filter_map(|u| idx_of(u)).collect();
        if m.contains(&n) && m.iter().filter(|x| last(**x) <= last(n)).count() > m.len() / 2 {
            return Some(true);
        }
    }
    Some(false)
}

fn converged(w: &Arc<World>, s: u32) -> Result<(), String> {
    let st = w.lock();
    let Some(members) = latest_config(&st.nodes, s) else {
        return Err("no configuration".into());
    };
    let max = st.orc.shards.get(&s).map(|x| x.applied.len()).unwrap_or(0);
    let mut states = vec![];
    for &m in &members {
        let Some(a) = st.nodes[m].apps.get(&s) else {
            return Err(format!("n{m} has no application state"));
        };
        states.push((m, a.ops.len(), a.hash));
    }
    let mut tails = vec![];
    for &m in &members {
        let l = &st.nodes[m].disks[&s].log;
        tails.push((m, l.iter().next_back().map(|(i, e)| (*i, e.this_clock.term))));
    }
    if states.iter().any(|x| (x.1, x.2) != (states[0].1, states[0].2)) || states[0].1 < max {
        return Err(format!("states (node, ops, hash) {states:?}, {max} ops executed, log tails {tails:?}"));
    }
    if tails.iter().any(|x| x.1 != tails[0].1) {
        return Err(format!("log tails {tails:?}"));
    }
    Ok(())
}

fn describe(w: &Arc<World>, s: u32) -> String {
    let st = w.lock();
    let mut out = vec![];
    for (i, n) in st.nodes.iter().enumerate() {
        let d = &n.disks[&s];
        let tail = d.log.iter().next_back().map(|(i, e)| (*i, e.this_clock.term));
        let head = d.log.keys().next();
        let cfg = Oracle::configs(&d.log).pop().map(|c| (c.0, c.1.iter().filter_map(|u| idx_of(u)).collect::<Vec<_>>()));
        out.push(format!("n{i}: up={} ballot={:?} log {head:?}..{tail:?} config {cfg:?} ops {:?}", n.up, d.ballot, n.apps.get(&s).map(|a| a.ops.len())));
    }
    out.join("; ")
}

pub fn final_checks(cx: &Arc<Ctx>, progress: bool) {
    let h = cx.h();
    let mut st = cx.w.lock();
    let st = &mut *st;
    let shard_ids: Vec<u32> = (0..cx.w.shards).collect();
    for s in shard_ids {
        let (applied, _terms) = match st.orc.shards.get(&s) {
            Some(x) => (x.applied.clone(), ()),
            None => continue,
        };
        let by_pos: BTreeMap<usize, (u64, u64, u64)> = applied.iter().map(|(i, x)| (x.1, (*i, x.0, x.2))).collect();
        let mut errs: Vec<(Kind, u64, String)> = vec![];

        let writes: Vec<&WriteRec> = h.writes.iter().filter(|x| x.shard == s).collect();
        for wr in &writes {
            if let Some((t, r)) = &wr.done {
                match by_pos.get(&(r.pos as usize)) {
                    Some(&(i, op, hash)) => {
                        if op != wr.op || hash != r.hash || i != r.index {
                            errs.push((Kind::BadWriteResp, *t, format!("op {} answered {r:?}; position {} is op {op} at index {i}", wr.op, r.pos)));
                        }
                    }
                    None => errs.push((Kind::LostWrite, *t, format!("op {} acknowledged at position {} which doesn't exist", wr.op, r.pos))),
                }
            }
        }
        // real-time order of writes: everything completed before an invocation is ordered before it
        let mut pos_of: BTreeMap<u64, usize> = BTreeMap::new();
        for (p, x) in &by_pos {
            pos_of.entry(x.1).or_insert(*p);
        }
        let mut done: Vec<(u64, usize, u64)> = writes
            .iter()
            .filter_map(|x| x.done.as_ref().map(|d| (d.0, d.1.pos as usize, x.op)))
            .collect();
        done.sort();
        let mut pre = vec![];
        let mut mx = (0usize, 0u64);
        for d in &done {
            if d.1 > mx.0 {
                mx = (d.1, d.2);
            }
            pre.push((d.0, mx));
        }
        let before = |t: u64| -> (usize, u64) {
            // latest position among writes done strictly before t
            let k = pre.partition_point(|x| x.0 < t);
            if k == 0 {
                (0, 0)
            } else {
                pre[k - 1].1
            }
        };
        for wr in &writes {
            if let Some(&p) = pos_of.get(&wr.op) {
                let (bp, bop) = before(wr.invoked);
                if bp > p {
                    errs.push((Kind::WriteRealTime, wr.invoked, format!("op {} (invoked at {}) is at position {p} before op {bop} (position {bp}) which completed earlier", wr.op, wr.invoked)));
                }
            }
        }
        // reads
        let mut reads: Vec<&ReadRec> = h.reads.iter().filter(|x| x.shard == s).collect();
        reads.sort_by_key(|x| x.done_at);
        let mut rpre: Vec<(u64, u64)> = vec![];
        let mut best = 0u64;
        for r in &reads {
            best = best.max(r.resp.count);
            rpre.push((r.done_at, best));
        }
        for r in &reads {
            if r.resp.shard != s || r.resp.token != r.token {
                errs.push((Kind::ShardMix, r.done_at, format!("read {} of shard {s} answered by {:?}", r.token, r.resp)));
            }
            let state_ok = if r.resp.count == 0 {
                true
            } else {
                by_pos.get(&(r.resp.count as usize)).map(|x| x.2 == r.resp.hash).unwrap_or(false)
            };
            if !state_ok {
                errs.push((Kind::BadReadValue, r.done_at, format!("read returned {:?} which isn't a prefix of the history", r.resp)));
            }
            let (bp, bop) = before(r.invoked);
            let k = rpre.partition_point(|x| x.0 < r.invoked);
            let rp = if k == 0 { 0 } else { rpre[k - 1].1 };
            let need = (bp as u64).max(rp);
            if r.resp.count < need {
                let m = format!(
                    "read issued at {} served by n{} at {} returned {} ops; op {bop} at position {bp} had completed before, an earlier read had returned {rp}",
                    r.invoked, r.resp.node, r.resp.at_ms, r.resp.count
                );
                errs.push((Kind::StaleRead, r.done_at, m));
            }
        }
        // acknowledged writes are in the final state
        if progress {
            if let Some(members) = latest_config(&st.nodes, s) {
                for m in members {
                    let Some(a) = st.nodes[m].apps.get(&s) else { continue };
                    let have: BTreeSet<u64> = a.ops.iter().map(|x| x.1).collect();
                    let mut dups: BTreeMap<u64, usize> = BTreeMap::new();
                    for o in &a.ops {
                        *dups.entry(o.1).or_default() += 1;
                    }
                    for (o, c) in dups {
                        if c > 1 {
                            errs.push((Kind::DupExec, cx.w.now(), format!("n{m}: op {o} executed {c} times")));
                        }
                    }
                    if a.ops.len() >= by_pos.len() {
                        for wr in &writes {
                            if wr.done.is_some() && !have.contains(&wr.op) {
                                errs.push((Kind::LostWrite, cx.w.now(), format!("acknowledged op {} is missing on n{m}", wr.op)));
                            }
                        }
                    }
                }
            }
        }
        for (k, t, m) in errs {
            st.orc.fail(k, t, format!("shard {s}: {m}"));
        }
    }
}

/// Execute a case in a thread of its own; a pure function of the case.
pub fn execute(case: &Case, trace: bool) -> Outcome {
    let case = case.clone();
    simulate(case.seed, move || async move { run(&case, trace).await }).unwrap_or_else(|| {
        let mut o = Outcome::default();
        o.stats.insert("harness_panic".into(), 1);
        o
    })
}

/// Run a future in virtual time. None: the harness panicked.
pub fn simulate<T, F, X>(seed: u64, f: F) -> Option<T>
where
    T: Send + 'static,
    F: FnOnce() -> X + Send + 'static,
    X: std::future::Future<Output = T>,
{
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            crate::interpose::seed_only(seed);
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .start_paused(true)
                .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
                .build()
                .unwrap();
            SIM.with(|x| x.set(true));
            let out = rt.block_on(async {
                crate::interpose::activate(seed);
                f().await
            });
            drop(rt);
            crate::interpose::deactivate();
            SIM.with(|x| x.set(false));
            out
        })
        .unwrap()
        .join()
        .ok()
}
