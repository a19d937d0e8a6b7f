//! A node with stores in memory, a small application, raw calls of its RPCs, and peers played by the demonstration.
#![allow(dead_code)]
pub use crate::wire::{decode_cmd, encode_cmd, frame_raw, Cmd, Elem, Heartbeat, LeaderCommitState, ReplicationStreamChunk, ReplicationStreamEntry, ReplicationStreamHeader, ReplicationStreamResponse, Splitter, VoteRequest, VoteResponse};
pub use crate::wire::{ReadRequest, WriteRequest, Response, ServerRequest, SnapshotChunk, GetSnapshotRequest, KernRequest, TimeoutNow};
use bytes::Bytes;
use futures::future::BoxFuture;
use futures::StreamExt;
use http_body_util::BodyExt;
pub use prost::Message;
use sorock::process::*;
use sorock::{NodeId, RaftNode};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::body::BoxBody;

#[derive(Default)]
pub struct Disk {
    pub log: BTreeMap<u64, Entry>,
    pub ballot: Option<Ballot>,
    pub snaps: BTreeMap<u64, Vec<u8>>,
    /// delay of log insertions and ballot saving
    pub slow_ms: u64,
    pub slow_ballot_ms: u64,
    pub slow_app_ms: u64,
}
pub type D = Arc<Mutex<Disk>>;
/// executed operations: (index, payload)
pub type A = Arc<Mutex<Vec<(u64, Vec<u8>)>>>;

pub struct Log(pub D);
pub struct Bal(pub D);
pub struct App(pub D, pub A);

#[async_trait::async_trait]
impl RaftLogStore for Log {
    async fn insert_entry(&self, i: Index, e: Entry) -> anyhow::Result<()> {
        let ms = self.0.lock().unwrap().slow_ms;
        if ms > 0 {
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        self.0.lock().unwrap().log.insert(i, e);
        Ok(())
    }
    async fn delete_entries_before(&self, i: Index) -> anyhow::Result<()> {
        let mut d = self.0.lock().unwrap();
        d.log = d.log.split_off(&i);
        Ok(())
    }
    async fn delete_entries_from(&self, i: Index) -> anyhow::Result<()> {
        self.0.lock().unwrap().log.split_off(&i);
        Ok(())
    }
    async fn get_entry(&self, i: Index) -> anyhow::Result<Option<Entry>> {
        Ok(self.0.lock().unwrap().log.get(&i).cloned())
    }
    async fn get_head_index(&self) -> anyhow::Result<Index> {
        Ok(self.0.lock().unwrap().log.keys().next().copied().unwrap_or(0))
    }
    async fn get_last_index(&self) -> anyhow::Result<Index> {
        Ok(self.0.lock().unwrap().log.keys().next_back().copied().unwrap_or(0))
    }
}
#[async_trait::async_trait]
impl RaftBallotStore for Bal {
    async fn save_ballot(&self, b: Ballot) -> anyhow::Result<()> {
        let ms = self.0.lock().unwrap().slow_ballot_ms;
        if ms > 0 {
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        self.0.lock().unwrap().ballot = Some(b);
        Ok(())
    }
    async fn load_ballot(&self) -> anyhow::Result<Ballot> {
        Ok(self.0.lock().unwrap().ballot.clone().unwrap_or(Ballot::new()))
    }
}
#[async_trait::async_trait]
impl RaftApp for App {
    async fn process_read(&self, _: &[u8]) -> anyhow::Result<Bytes> {
        Ok(bincode::serialize(&*self.1.lock().unwrap())?.into())
    }
    async fn process_write(&self, m: &[u8], i: Index) -> anyhow::Result<Bytes> {
        let t = self.0.lock().unwrap().slow_app_ms;
        if t > 0 {
            ms(t).await;
        }
        let mut a = self.1.lock().unwrap();
        a.push((i, m.to_vec()));
        Ok(Bytes::from(format!("{}", a.len())))
    }
    async fn install_snapshot(&self, i: Index) -> anyhow::Result<()> {
        let d = self.0.lock().unwrap();
        let s = d.snaps.get(&i).ok_or(anyhow::anyhow!("no snapshot {i}"))?;
        *self.1.lock().unwrap() = bincode::deserialize(s)?;
        Ok(())
    }
    async fn save_snapshot(&self, mut st: SnapshotStream, i: Index) -> anyhow::Result<()> {
        let mut b = vec![];
        while let Some(x) = st.next().await {
            b.extend_from_slice(&x?);
        }
        self.0.lock().unwrap().snaps.insert(i, b);
        Ok(())
    }
    async fn open_snapshot(&self, i: Index) -> anyhow::Result<SnapshotStream> {
        let d = self.0.lock().unwrap();
        let s = d.snaps.get(&i).ok_or(anyhow::anyhow!("no snapshot {i}"))?.clone();
        Ok(Box::pin(futures::stream::iter(vec![Ok(Bytes::from(s))])))
    }
    async fn delete_snapshots_before(&self, i: Index) -> anyhow::Result<()> {
        let mut d = self.0.lock().unwrap();
        d.snaps = d.snaps.split_off(&i);
        Ok(())
    }
    async fn get_latest_snapshot(&self) -> anyhow::Result<Index> {
        Ok(self.0.lock().unwrap().snaps.keys().next_back().copied().unwrap_or(0))
    }
}

pub fn uri(port: u16) -> String {
    format!("http://127.0.0.1:{port}/")
}
pub fn entry(i: u64, prev_term: u64, term: u64, cmd: &Cmd) -> Entry {
    Entry { prev_clock: Clock { term: prev_term, index: i - 1 }, this_clock: Clock { term, index: i }, command: encode_cmd(cmd) }
}
pub fn exec(op: &str) -> Cmd {
    Cmd::Exec { message: op.as_bytes().to_vec(), request_id: format!("id-{op}") }
}
pub fn members(m: &[u16]) -> BTreeSet<String> {
    m.iter().map(|p| uri(*p)).collect()
}
/// log of entries with the given terms, the first one being the initial snapshot with the membership
pub fn log(m: &[u16], cmds: &[(u64, Cmd)]) -> BTreeMap<u64, Entry> {
    let mut l = BTreeMap::new();
    l.insert(1, entry(1, 0, 0, &Cmd::Snapshot(BTreeSet::new())));
    let mut pt = 0;
    let mut i = 2;
    l.insert(2, entry(2, 0, 0, &Cmd::Config(members(m))));
    for (t, c) in cmds {
        i += 1;
        l.insert(i, entry(i, pt, *t, c));
        pt = *t;
    }
    l
}

pub struct Node {
    pub port: u16,
    pub node: RaftNode,
    pub disk: D,
    pub app: A,
    pub call: Arc<dyn Fn(http::Request<BoxBody>) -> BoxFuture<'static, http::Response<BoxBody>> + Send + Sync>,
    pub server: Option<tokio::task::JoinHandle<()>>,
    shards: Vec<u32>,
}
fn caller<S>(svc: S) -> Arc<dyn Fn(http::Request<BoxBody>) -> BoxFuture<'static, http::Response<BoxBody>> + Send + Sync>
where
    S: tonic::codegen::Service<http::Request<BoxBody>, Response = http::Response<BoxBody>, Error = std::convert::Infallible> + Clone + Send + Sync + 'static,
    S::Future: Send + 'static,
{
    Arc::new(move |r| {
        let mut s = svc.clone();
        Box::pin(async move {
            match s.call(r).await {
                Ok(x) => x,
                Err(e) => match e {},
            }
        })
    })
}
impl Node {
    /// A node with one shard 0. `serve`: listens on the port.
    pub async fn start(port: u16, disk: D, serve: bool) -> Node {
        Self::start_shards(port, vec![(0, disk)], serve).await
    }
    pub async fn start_shards(port: u16, disks: Vec<(u32, D)>, serve: bool) -> Node {
        let node = RaftNode::new(NodeId::new(uri(port).parse().unwrap()));
        let app: A = Default::default();
        for (k, (s, d)) in disks.iter().enumerate() {
            let a = if k == 0 { app.clone() } else { Default::default() };
            let p = RaftProcess::new(App(d.clone(), a), Log(d.clone()), Bal(d.clone()), node.get_driver(*s)).await.expect("start");
            node.attach_process(*s, p);
        }
        let svc = sorock::raft_service::new(node.clone());
        let server = if serve {
            let s2 = sorock::raft_service::new(node.clone());
            let addr = format!("127.0.0.1:{port}").parse().unwrap();
            Some(tokio::spawn(async move {
                tonic::transport::Server::builder().add_service(s2).serve(addr).await.expect("serve");
            }))
        } else {
            None
        };
        Node { port, node, disk: disks[0].1.clone(), app, call: caller(svc), server, shards: disks.iter().map(|x| x.0).collect() }
    }
    pub fn stop(&mut self) {
        if let Some(s) = self.server.take() {
            s.abort();
        }
        for s in &self.shards {
            self.node.detach_process(*s);
        }
    }
    pub async fn raw(&self, method: &str, frames: Vec<Vec<u8>>) -> Result<Vec<Bytes>, String> {
        let body = http_body_util::StreamBody::new(futures::stream::iter(
            frames.into_iter().map(|m| Ok::<_, tonic::Status>(http_body::Frame::data(frame_raw(&m)))),
        ));
        let req = http::Request::builder()
            .method("POST")
            .uri(format!("http://127.0.0.1:{}/sorock.Raft/{method}", self.port))
            .header("content-type", "application/grpc")
            .header("te", "trailers")
            .body(tonic::body::boxed(body))
            .unwrap();
        let f = (self.call)(req);
        let r = tokio::spawn(f).await.map_err(|_| "panicked".to_string())?;
        let (p, b) = r.into_parts();
        let b = b.collect().await.map_err(|e| e.to_string())?;
        let tr = b.trailers().cloned().unwrap_or_default();
        let st = tr.get("grpc-status").or(p.headers.get("grpc-status")).map(|x| x.to_str().unwrap().to_string()).unwrap_or("0".into());
        if st != "0" {
            return Err(format!("status {st}"));
        }
        let mut sp = Splitter::default();
        sp.push(&b.to_bytes());
        let mut out = vec![];
        while let Some(m) = sp.next() {
            out.push(m);
        }
        Ok(out)
    }
    pub async fn vote(&self, term: u64, who: &str, last: (u64, u64), force: bool, pre: bool) -> Result<bool, String> {
        let v = VoteRequest { shard_id: 0, vote_term: term, candidate_id: who.into(), candidate_clock: Some(crate::wire::Clock { term: last.0, index: last.1 }), force_vote: force, pre_vote: pre };
        let r = self.raw("RequestVote", vec![v.encode_to_vec()]).await?;
        Ok(VoteResponse::decode(r[0].clone()).unwrap().vote_granted)
    }
    pub async fn heartbeat(&self, shard: u32, leader: &str, term: u64, commit: u64) -> Result<(), String> {
        let h = Heartbeat { leader_id: leader.into(), leader_commit_states: [(shard, LeaderCommitState { leader_term: term, leader_commit_index: commit })].into() };
        self.raw("SendHeartbeat", vec![h.encode_to_vec()]).await.map(|_| ())
    }
    pub async fn stream(&self, leader: &str, term: u64, prev: (u64, u64), es: &[Entry]) -> Result<(u64, u64), String> {
        let r = self.raw("SendReplicationStream", stream_frames(0, leader, term, prev, es)).await?;
        let r = ReplicationStreamResponse::decode(r[0].clone()).unwrap();
        Ok((r.n_inserted, r.log_last_index))
    }
    pub async fn write(&self, op: &str) -> Result<Bytes, String> {
        self.write_id(op, &format!("id-{op}")).await
    }
    pub async fn write_id(&self, op: &str, id: &str) -> Result<Bytes, String> {
        let w = WriteRequest { shard_id: 0, message: op.as_bytes().to_vec().into(), request_id: id.into() };
        let r = self.raw("Write", vec![w.encode_to_vec()]).await?;
        Ok(Response::decode(r[0].clone()).unwrap().message)
    }
    pub async fn read(&self) -> Result<Vec<(u64, Vec<u8>)>, String> {
        let w = ReadRequest { shard_id: 0, message: Bytes::new() };
        let r = self.raw("Read", vec![w.encode_to_vec()]).await?;
        Ok(bincode::deserialize(&Response::decode(r[0].clone()).unwrap().message).unwrap())
    }
    pub async fn server(&self, add: bool, shard: u32, id: &str) -> Result<(), String> {
        let q = ServerRequest { shard_id: shard, server_id: id.into() };
        self.raw(if add { "AddServer" } else { "RemoveServer" }, vec![q.encode_to_vec()]).await.map(|_| ())
    }
    pub fn clocks(&self) -> Vec<(u64, u64)> {
        self.disk.lock().unwrap().log.iter().map(|(i, e)| (*i, e.this_clock.term)).collect()
    }
    pub fn ballot(&self) -> (u64, Option<String>) {
        let b = self.disk.lock().unwrap().ballot.clone().unwrap_or(Ballot::new());
        (b.cur_term, b.voted_for.map(|x| x.to_string()))
    }
    pub fn applied(&self) -> Vec<(u64, String)> {
        self.app.lock().unwrap().iter().map(|(i, m)| (*i, String::from_utf8_lossy(m).to_string())).collect()
    }
}
pub fn stream_frames(shard: u32, leader: &str, term: u64, prev: (u64, u64), es: &[Entry]) -> Vec<Vec<u8>> {
    let h = ReplicationStreamHeader { shard_id: shard, sender_id: leader.into(), prev_clock: Some(crate::wire::Clock { term: prev.0, index: prev.1 }), sender_term: term };
    let mut v = vec![ReplicationStreamChunk { elem: Some(Elem::Header(h)) }.encode_to_vec()];
    for e in es {
        let x = ReplicationStreamEntry { clock: Some(crate::wire::Clock { term: e.this_clock.term, index: e.this_clock.index }), command: e.command.clone() };
        v.push(ReplicationStreamChunk { elem: Some(Elem::Entry(x)) }.encode_to_vec());
    }
    v
}
/// A peer played by the demonstration. The handler gets the method and the messages.
pub type Handler = Arc<dyn Fn(String, Vec<Bytes>) -> BoxFuture<'static, Result<Vec<Vec<u8>>, ()>> + Send + Sync>;
#[derive(Clone)]
pub struct Peer(pub Handler);
impl tonic::server::NamedService for Peer {
    const NAME: &'static str = "sorock.Raft";
}
impl tonic::codegen::Service<http::Request<BoxBody>> for Peer {
    type Response = http::Response<BoxBody>;
    type Error = std::convert::Infallible;
    type Future = BoxFuture<'static, Result<Self::Response, Self::Error>>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Self::Error>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: http::Request<BoxBody>) -> Self::Future {
        let h = self.0.clone();
        Box::pin(async move {
            let m = req.uri().path().rsplit('/').next().unwrap_or("").to_string();
            let b = req.into_body().collect().await.map(|x| x.to_bytes()).unwrap_or_default();
            let mut sp = Splitter::default();
            sp.push(&b);
            let mut v = vec![];
            while let Some(x) = sp.next() {
                v.push(x);
            }
            let (fr, st) = match h(m, v).await {
                Ok(o) => (o, "0"),
                Err(()) => (vec![], "14"),
            };
            let mut t = http::HeaderMap::new();
            t.insert("grpc-status", st.parse().unwrap());
            let data: Vec<u8> = fr.iter().flat_map(|m| frame_raw(m).to_vec()).collect();
            let body = http_body_util::Full::new(Bytes::from(data)).map_err(|e| match e {}).with_trailers(async move { Some(Ok::<_, std::convert::Infallible>(t)) });
            Ok(http::Response::builder().header("content-type", "application/grpc").body(tonic::body::boxed(body)).unwrap())
        })
    }
}
pub async fn peer(port: u16, h: impl Fn(String, Vec<Bytes>) -> BoxFuture<'static, Result<Vec<Vec<u8>>, ()>> + Send + Sync + 'static) -> tokio::task::JoinHandle<()> {
    let p = Peer(Arc::new(h));
    let addr = format!("127.0.0.1:{port}").parse().unwrap();
    let j = tokio::spawn(async move {
        tonic::transport::Server::builder().add_service(p).serve(addr).await.expect("serve");
    });
    tokio::time::sleep(Duration::from_millis(100)).await;
    j
}
/// free ports
pub fn ports<const N: usize>() -> [u16; N] {
    let ls: Vec<_> = (0..N).map(|_| std::net::TcpListener::bind("127.0.0.1:0").unwrap()).collect();
    let mut out = [0; N];
    for (i, l) in ls.iter().enumerate() {
        out[i] = l.local_addr().unwrap().port();
    }
    out
}
pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}
/// Wait until the condition holds.
pub async fn until(limit_ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let t = std::time::Instant::now();
    while t.elapsed() < Duration::from_millis(limit_ms) {
        if f() {
            return true;
        }
        ms(20).await;
    }
    f()
}
pub fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let f = i.location().map(|l| l.file().to_string()).unwrap_or_default();
        if !f.contains("raft_service") {
            eprintln!("{i}");
        }
    }));
}
impl Node {
    /// Write, trying again while there is no leader.
    pub async fn write_ok(&self, op: &str) {
        for k in 0..100 {
            if self.write_id(op, &format!("{op}-{k}")).await.is_ok() {
                return;
            }
            ms(200).await;
        }
        panic!("no write succeeds");
    }
    /// A cluster of this node alone.
    pub async fn bootstrap(&self) {
        for _ in 0..50 {
            if self.server(true, 0, &uri(self.port)).await.is_ok() && self.write_id("first", "first").await.is_ok() {
                return;
            }
            ms(200).await;
        }
        panic!("no cluster");
    }
    /// The application makes a snapshot of its state.
    pub fn snapshot(&self) -> u64 {
        let a = self.app.lock().unwrap();
        let i = a.last().unwrap().0;
        self.disk.lock().unwrap().snaps.insert(i, bincode::serialize(&*a).unwrap());
        i
    }
}
pub fn verdict(ok: bool, what: &str) -> ! {
    if ok {
        println!("held: {what}");
        std::process::exit(0);
    }
    println!("VIOLATED: {what}");
    std::process::exit(1);
}

/// A voter which keeps its log in memory. `accept`: takes entries, `grant`: grants votes.
#[derive(Default)]
pub struct Fol {
    pub log: BTreeMap<u64, (u64, Vec<u8>)>,
    pub accept: bool,
    pub grant: bool,
    pub up: bool,
    /// (time, shard, term, commit)
    pub heartbeats: Vec<(std::time::Instant, u32, u64, u64)>,
    /// (pre, forced, term)
    pub votes: Vec<(bool, bool, u64)>,
    pub timeout_now: u32,
    pub snapshots: u32,
    pub kern: u32,
}
pub type F = Arc<Mutex<Fol>>;
pub fn fol(accept: bool, grant: bool) -> F {
    Arc::new(Mutex::new(Fol { accept, grant, up: true, ..Default::default() }))
}
pub async fn follower(port: u16, f: F) -> tokio::task::JoinHandle<()> {
    peer(port, move |m, msgs| {
        let f = f.clone();
        Box::pin(async move {
            let mut f = f.lock().unwrap();
            if !f.up {
                return Err(());
            }
            match m.as_str() {
                "RequestVote" => {
                    let v = VoteRequest::decode(msgs[0].clone()).unwrap();
                    f.votes.push((v.pre_vote, v.force_vote, v.vote_term));
                    Ok(vec![VoteResponse { vote_granted: f.grant }.encode_to_vec()])
                }
                "SendHeartbeat" => {
                    let h = Heartbeat::decode(msgs[0].clone()).unwrap();
                    for (s, x) in h.leader_commit_states {
                        f.heartbeats.push((std::time::Instant::now(), s, x.leader_term, x.leader_commit_index));
                    }
                    Ok(vec![vec![]])
                }
                "SendReplicationStream" => {
                    let mut prev = (0, 0);
                    let mut n = 0;
                    for x in &msgs {
                        match ReplicationStreamChunk::decode(x.clone()).unwrap().elem {
                            Some(Elem::Header(h)) => prev = h.prev_clock.map(|c| (c.term, c.index)).unwrap(),
                            Some(Elem::Entry(e)) => {
                                let c = e.clock.unwrap();
                                let snap = matches!(decode_cmd(&e.command), Cmd::Snapshot(_));
                                let good = snap || f.log.get(&prev.1).map(|p| p.0 == prev.0).unwrap_or(false);
                                if !f.accept || !good {
                                    break;
                                }
                                if f.log.get(&c.index).map(|o| o.0 != c.term).unwrap_or(false) {
                                    f.log.split_off(&c.index);
                                }
                                f.log.insert(c.index, (c.term, e.command.to_vec()));
                                prev = (c.term, c.index);
                                n += 1;
                            }
                            None => break,
                        }
                    }
                    if !f.accept {
                        return Err(());
                    }
                    let last = f.log.keys().next_back().copied().unwrap_or(0);
                    Ok(vec![ReplicationStreamResponse { n_inserted: n, log_last_index: last }.encode_to_vec()])
                }
                "SendTimeoutNow" => {
                    f.timeout_now += 1;
                    Ok(vec![vec![]])
                }
                "ProcessKernRequest" => {
                    f.kern += 1;
                    Ok(vec![vec![]])
                }
                _ => Err(()),
            }
        })
    })
    .await
}
