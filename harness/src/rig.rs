//! A real node among peers that are played by the harness.

use crate::wire::*;
use crate::world::*;
use bytes::Bytes;
use futures::future::BoxFuture;
use http_body_util::BodyExt;
use prost::Message;
use sorock::process::Entry;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What a peer answers: None isn't an answer.
pub type Answer = Result<Vec<Bytes>, ()>;

/// Overrides the default behaviour of the peers.
pub trait Script: Send + Sync {
    fn serve(&self, p: &Pup, src: usize, dst: usize, kind: Rpc, msgs: &[Bytes]) -> Option<BoxFuture<'static, Answer>>;
}

#[derive(Default)]
pub struct PupState {
    /// answer of the peers to requests for votes
    pub grant: bool,
    pub reply_term: u64,
    /// accept all entries
    pub accept: bool,
    /// (time, receiver, shard, term, commit index)
    pub heartbeats: Vec<(u64, usize, u32, u64, u64)>,
    pub votes: Vec<(u64, usize, VoteRequest)>,
    /// content of the snapshots of a peer; None: the transfer fails
    pub snaps: HashMap<(usize, u64), Option<Bytes>>,
    pub fetched: u64,
}

pub struct Pup {
    pub real: usize,
    pub st: Mutex<PupState>,
    pub script: Mutex<Option<Arc<dyn Script>>>,
    pub start: tokio::time::Instant,
}

impl Pup {
    pub fn s(&self) -> std::sync::MutexGuard<'_, PupState> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn now(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }
}

fn one<M: Message>(m: &M) -> Answer {
    Ok(vec![m.encode_to_vec().into()])
}

impl Puppet for Pup {
    fn owns(&self, dst: usize) -> bool {
        dst >= self.real
    }
    fn serve(&self, src: usize, dst: usize, kind: Rpc, msgs: Vec<Bytes>) -> BoxFuture<'static, Answer> {
        let first = msgs.first().cloned().unwrap_or_default();
        match kind {
            Rpc::Heartbeat => {
                if let Ok(h) = Heartbeat::decode(first.clone()) {
                    let now = self.now();
                    for (s, c) in h.leader_commit_states {
                        self.s().heartbeats.push((now, dst, s, c.leader_term, c.leader_commit_index));
                    }
                }
            }
            Rpc::Vote => {
                if let Ok(v) = VoteRequest::decode(first.clone()) {
                    let now = self.now();
                    self.s().votes.push((now, dst, v));
                }
            }
            _ => {}
        }
        let script = self.script.lock().unwrap().clone();
        if let Some(f) = script.and_then(|s| s.serve(self, src, dst, kind, &msgs)) {
            return f;
        }
        let r = match kind {
            Rpc::Heartbeat => one(&HeartbeatResponse::default()),
            Rpc::Vote => {
                let s = self.s();
                one(&VoteResponse { vote_granted: s.grant, term: s.reply_term })
            }
            Rpc::Replication => {
                if self.s().accept {
                    let n = msgs.len().saturating_sub(1) as u64;
                    let prev = ReplicationStreamChunk::decode(first).ok().and_then(|c| match c.elem {
                        Some(Elem::Header(h)) => h.prev_clock.map(|c| c.index),
                        _ => None,
                    });
                    one(&ReplicationStreamResponse { n_inserted: n, log_last_index: prev.unwrap_or(0) + n })
                } else {
                    Err(())
                }
            }
            Rpc::Snapshot => match GetSnapshotRequest::decode(first) {
                Ok(r) => {
                    let mut s = self.s();
                    s.fetched += 1;
                    match s.snaps.get(&(dst, r.index)) {
                        Some(Some(b)) => Ok(b.chunks(40).map(|c| SnapshotChunk { data: Bytes::copy_from_slice(c) }.encode_to_vec().into()).collect()),
                        _ => Err(()),
                    }
                }
                Err(_) => Err(()),
            },
            _ => Err(()),
        };
        Box::pin(async move { r })
    }
}

pub struct Rig {
    pub w: Arc<World>,
    pub pup: Arc<Pup>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum CallErr {
    /// grpc status other than 0
    Status(String),
    Timeout,
}

pub fn calm_net() -> NetProf {
    NetProf { lat_lo: 1, lat_hi: 5, drop_req: 0, drop_resp: 0, long: 0, long_ms: 0, cut: 0, hold: false }
}

impl Rig {
    /// `real` nodes run the library, peers up to `all` are played.
    pub fn new(seed: u64, real: usize, all: usize, shards: u32, net: NetProf, store: StoreProf, queue: bool, trace: bool) -> Rig {
        let pup = Arc::new(Pup { real, st: Mutex::new(PupState::default()), script: Mutex::new(None), start: tokio::time::Instant::now() });
        let w = World::with_puppet(seed, all, shards, net, store, queue, trace, Some(pup.clone()));
        w.lock().ev = Some(vec![]);
        Rig { w, pup }
    }

    pub async fn raw(&self, dst: usize, kind: Rpc, body: tonic::body::BoxBody, limit_ms: u64) -> Result<Bytes, CallErr> {
        let req = http::Request::builder()
            .method("POST")
            .version(http::Version::HTTP_2)
            .uri(format!("{}{}", uri_of(dst).trim_end_matches('/'), kind.path()))
            .header("content-type", "application/grpc")
            .header("te", "trailers")
            .body(())
            .unwrap();
        let (parts, _) = req.into_parts();
        let f = async {
            let resp = self.w.call(dst, parts, body).await;
            let (p, b) = resp.into_parts();
            let b = match b.collect().await {
                Ok(b) => b,
                Err(e) => return Err(CallErr::Status(format!("{e}"))),
            };
            let st = b.trailers().and_then(|t| t.get("grpc-status").cloned()).or(p.headers.get("grpc-status").cloned());
            let data = b.to_bytes();
            match st {
                Some(s) if s.as_bytes() == b"0" => Ok(data),
                Some(s) => Err(CallErr::Status(s.to_str().unwrap_or("?").to_string())),
                None => Err(CallErr::Status("none".into())),
            }
        };
        match tokio::time::timeout(Duration::from_millis(limit_ms), f).await {
            Ok(r) => r,
            Err(_) => Err(CallErr::Timeout),
        }
    }

    pub async fn unary<M: Message, R: Message + Default>(&self, dst: usize, kind: Rpc, m: &M, limit_ms: u64) -> Result<R, CallErr> {
        let d = self.raw(dst, kind, full_body(frame(m)), limit_ms).await?;
        let mut sp = Splitter::default();
        sp.push(&d);
        let m = sp.next().ok_or(CallErr::Status("no message".into()))?;
        R::decode(m).map_err(|e| CallErr::Status(e.to_string()))
    }

    pub async fn heartbeat(&self, dst: usize, leader: usize, shard: u32, term: u64, commit: u64) -> Result<HeartbeatResponse, CallErr> {
        self.w.t(|| format!("p{leader} heartbeat term {term} commit {commit}"));
        let m = Heartbeat {
            leader_id: uri_of(leader),
            leader_commit_states: [(shard, LeaderCommitState { leader_term: term, leader_commit_index: commit })].into_iter().collect(),
        };
        self.unary(dst, Rpc::Heartbeat, &m, 20_000).await
    }

    pub async fn vote(&self, dst: usize, v: &VoteRequest) -> Result<VoteResponse, CallErr> {
        let r: Result<VoteResponse, CallErr> = self.unary(dst, Rpc::Vote, v, 20_000).await;
        self.w.t(|| format!("{} requests vote force={} pre={} term {} clock {:?}: {r:?}", v.candidate_id, v.force_vote, v.pre_vote, v.vote_term, v.candidate_clock));
        r
    }

    /// Entries of `log` in the window; the stream breaks after `cut` entries.
    #[allow(clippy::too_many_arguments)]
    pub async fn stream(
        &self,
        dst: usize,
        sender: usize,
        shard: u32,
        term: u64,
        log: &BTreeMap<u64, Entry>,
        window: std::ops::Range<u64>,
        cut: Option<u64>,
        gap_ms: u64,
    ) -> Result<ReplicationStreamResponse, CallErr> {
        let first = log.get(&window.start);
        let prev = match first {
            Some(e) => e.prev_clock,
            None => log.values().next_back().map(|e| e.this_clock).unwrap_or(sorock::process::Clock { term: 0, index: 0 }),
        };
        self.w.t(|| format!("p{sender} stream term {term} {window:?} cut {cut:?} gap {gap_ms}"));
        let c = |c: sorock::process::Clock| Some(Clock { term: c.term, index: c.index });
        let mut chunks = vec![ReplicationStreamChunk {
            elem: Some(Elem::Header(ReplicationStreamHeader { shard_id: shard, sender_id: uri_of(sender), prev_clock: c(prev), sender_term: term })),
        }];
        for (_, e) in log.range(window.clone()) {
            chunks.push(ReplicationStreamChunk { elem: Some(Elem::Entry(ReplicationStreamEntry { clock: c(e.this_clock), command: e.command.clone() })) });
        }
        let d = self.raw(dst, Rpc::Replication, chunks_body(chunks, cut.map(|x| x + 1), gap_ms), 60_000).await?;
        let mut sp = Splitter::default();
        sp.push(&d);
        let m = sp.next().ok_or(CallErr::Status("no message".into()))?;
        let r = ReplicationStreamResponse::decode(m).map_err(|e| CallErr::Status(e.to_string()));
        self.w.t(|| format!("  -> {r:?}"));
        r
    }

    pub fn log(&self, node: usize, shard: u32) -> BTreeMap<u64, Entry> {
        self.w.lock().nodes[node].disks[&shard].log.clone()
    }
    pub fn ballot(&self, node: usize, shard: u32) -> Option<(u64, Option<String>)> {
        self.w.lock().nodes[node].disks[&shard].ballot.clone()
    }
    pub async fn ms(&self, ms: u64) {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
}

pub fn chunks_body(chunks: Vec<ReplicationStreamChunk>, cut: Option<u64>, gap_ms: u64) -> tonic::body::BoxBody {
    let st = async_stream::stream! {
        for (i, c) in chunks.into_iter().enumerate() {
            if cut == Some(i as u64) {
                yield Err(tonic::Status::unavailable("cut"));
                return;
            }
            if gap_ms > 0 && i > 0 {
                tokio::time::sleep(Duration::from_millis(gap_ms)).await;
            }
            yield Ok(http_body::Frame::data(frame(&c)));
        }
    };
    let st: std::pin::Pin<Box<dyn futures::Stream<Item = Result<http_body::Frame<Bytes>, tonic::Status>> + Send>> = Box::pin(st);
    tonic::body::boxed(http_body_util::StreamBody::new(st))
}

// ---------------------------------------------------------------------- histories of leaders

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    Exec,
    Config,
    Complete,
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct TermSpec {
    /// terms without a leader before this one
    pub gap: u8,
    pub leader: u8,
    /// which of the possible earlier logs it starts from, and how much of it
    pub parent: u8,
    pub cut: u8,
    pub entries: Vec<Kind>,
    /// how far it commits
    pub commit: u8,
    /// it compacted its log
    pub snap: Option<u8>,
}

pub struct TermLog {
    pub term: u64,
    pub leader: usize,
    pub log: BTreeMap<u64, Entry>,
    /// committed by this leader
    pub commit: u64,
    pub snap: u64,
}
impl TermLog {
    pub fn last(&self) -> u64 {
        *self.log.keys().next_back().unwrap()
    }
}

pub struct Universe {
    pub terms: Vec<TermLog>,
    /// everything that is ever committed
    pub committed: BTreeMap<u64, Entry>,
}

pub fn mk(prev: sorock::process::Clock, term: u64, c: &Cmd) -> Entry {
    Entry { prev_clock: prev, this_clock: sorock::process::Clock { term, index: prev.index + 1 }, command: encode_cmd(c) }
}

impl Universe {
    /// A history of leaders as elections produce it: each one starts from a log that holds everything committed before.
    pub fn build(members: usize, specs: &[TermSpec]) -> Universe {
        let all: BTreeSet<String> = (0..members).map(uri_of).collect();
        let z = sorock::process::Clock { term: 0, index: 0 };
        let e1 = mk(z, 0, &Cmd::Snapshot(BTreeSet::new()));
        let e2 = mk(e1.this_clock, 0, &Cmd::Config(all.clone()));
        let base: BTreeMap<u64, Entry> = [(1, e1), (2, e2)].into_iter().collect();
        let mut raw: Vec<(u64, BTreeMap<u64, Entry>)> = vec![(0, base.clone())];
        let mut out = vec![];
        let mut commit = 2u64;
        let mut committed = base.clone();
        let (mut term, mut op) = (0, 0u64);
        for s in specs {
            term += 1 + s.gap as u64;
            let good: Vec<usize> = (0..raw.len())
                .filter(|i| {
                    let l = &raw[*i].1;
                    l.get(&commit).map(|e| e.this_clock) == committed.get(&commit).map(|e| e.this_clock)
                })
                .collect();
            let p = &raw[good[s.parent as usize % good.len()]].1;
            let len = *p.keys().next_back().unwrap();
            let keep = commit + (s.cut as u64 * (len - commit + 1)) / 256;
            let mut log: BTreeMap<u64, Entry> = p.range(..=keep).map(|(i, e)| (*i, e.clone())).collect();
            let mut prev = log.values().next_back().unwrap().this_clock;
            let mut push = |log: &mut BTreeMap<u64, Entry>, c: &Cmd| {
                let e = mk(prev, term, c);
                prev = e.this_clock;
                log.insert(e.this_clock.index, e);
            };
            push(&mut log, &Cmd::Barrier(term));
            let first = prev_index(&log);
            for k in &s.entries {
                let c = match k {
                    Kind::Exec => {
                        op += 1;
                        Cmd::Exec { message: op_payload(op, 0, 0).to_vec(), request_id: format!("u{op}") }
                    }
                    Kind::Complete => Cmd::Complete { request_id: format!("u{op}") },
                    Kind::Config => {
                        let mut m = config_at(&log, u64::MAX);
                        let x = uri_of(members - 1);
                        if !m.remove(&x) {
                            m.insert(x);
                        }
                        Cmd::Config(m)
                    }
                };
                push(&mut log, &c);
            }
            let last = prev_index(&log);
            // nothing or at least the first entry of the term
            let room = last - first + 2;
            let k = s.commit as u64 * room / 256;
            if k > 0 {
                commit = first + k - 1;
            }
            for (i, e) in log.range(..=commit) {
                committed.insert(*i, e.clone());
            }
            raw.push((term, log.clone()));
            let mut snap = 1;
            if let Some(x) = s.snap {
                let execs: Vec<u64> = log.range(..=commit).filter(|(_, e)| matches!(decode_cmd(&e.command), Cmd::Exec { .. })).map(|x| *x.0).collect();
                if !execs.is_empty() {
                    snap = execs[x as usize * execs.len() / 256];
                    let m = config_at(&log, snap);
                    log.get_mut(&snap).unwrap().command = encode_cmd(&Cmd::Snapshot(m));
                }
            }
            out.push(TermLog { term, leader: s.leader as usize, log, commit, snap });
        }
        Universe { terms: out, committed }
    }

    pub fn of_term(&self, t: u64) -> Option<&TermLog> {
        self.terms.iter().find(|x| x.term == t)
    }

    /// Tell the oracle what the peers have executed.
    pub fn register(&self, w: &World, shard: u32) {
        let all = self.state_at(u64::MAX);
        let mut st = w.lock();
        let mut a = crate::oracle::AppState::default();
        for (i, op) in all.ops {
            a.apply(i, op);
            let (n, h) = (a.ops.len(), a.hash);
            st.orc.applied(0, shard, 1, i, op, n, h);
        }
    }

    /// State of the application after the committed entries up to `i`.
    pub fn state_at(&self, i: u64) -> crate::oracle::AppState {
        let mut a = crate::oracle::AppState::default();
        for (k, e) in self.committed.range(..=i) {
            if let Cmd::Exec { message, .. } = decode_cmd(&e.command) {
                a.apply(*k, u64::from_le_bytes(message[..8].try_into().unwrap()));
            }
        }
        a
    }
}

fn prev_index(l: &BTreeMap<u64, Entry>) -> u64 {
    *l.keys().next_back().unwrap()
}

pub fn config_at(l: &BTreeMap<u64, Entry>, i: u64) -> BTreeSet<String> {
    for (_, e) in l.range(..=i).rev() {
        match decode_cmd(&e.command) {
            Cmd::Config(m) | Cmd::Snapshot(m) => return m,
            _ => {}
        }
    }
    BTreeSet::new()
}
