//! The simulated world: nodes with disks, an in-memory network with faults, and virtual time.

use crate::oracle::{AppState, Kind, Oracle};
use crate::rng::{mix, Rng};
use crate::wire::*;
use bytes::Bytes;
use futures::future::BoxFuture;
use futures::StreamExt;
use http_body_util::BodyExt;
use sorock::process::*;
use sorock::{NodeId, RaftNode};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tonic::body::BoxBody;
use tower::util::BoxCloneService;

pub type Svc = BoxCloneService<http::Request<BoxBody>, http::Response<BoxBody>, std::convert::Infallible>;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct NetProf {
    pub lat_lo: u32,
    pub lat_hi: u32,
    /// per mille of requests lost before delivery
    pub drop_req: u32,
    /// per mille of responses lost
    pub drop_resp: u32,
    /// per mille of requests delayed up to long_ms
    pub long: u32,
    pub long_ms: u32,
    /// per mille of replication streams cut in the middle
    pub cut: u32,
    /// messages into a partition are held (and delivered late) instead of failing
    pub hold: bool,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct StoreProf {
    /// upper bound of the delay before / after the effect of a log insert
    pub ins_pre: u32,
    pub ins_post: u32,
    pub read: u32,
    /// ballot store: 0 = synchronous
    pub ballot: u32,
    pub app: u32,
    /// per mille of log/ballot store operations that fail
    pub err: u32,
}

#[derive(Default)]
pub struct ShardDisk {
    pub log: BTreeMap<u64, Entry>,
    pub ballot: Option<(u64, Option<String>)>,
    pub snaps: BTreeMap<u64, AppState>,
    wq: VecDeque<(u64, WriteOp)>,
}

#[derive(Clone)]
pub enum Ev {
    /// the ballot is the one stored at that time
    Insert { node: usize, shard: u32, old: Option<sorock::process::Clock>, e: Entry, ballot: Option<(u64, Option<String>)> },
    /// the removed entries and the one before them
    DelFrom { node: usize, shard: u32, gone: Vec<sorock::process::Clock>, ballot: Option<(u64, Option<String>)> },
    Ballot { node: usize, shard: u32, new: (u64, Option<String>) },
}

enum WriteOp {
    Insert(u64, Entry, tokio::sync::oneshot::Sender<()>),
    DelBefore(u64, tokio::sync::oneshot::Sender<()>),
    DelFrom(u64, tokio::sync::oneshot::Sender<()>),
}

pub struct Node {
    pub uri: String,
    pub inc: u64,
    pub up: bool,
    pub node: Option<RaftNode>,
    pub svc: Option<Svc>,
    pub tasks: Vec<tokio::task::AbortHandle>,
    pub disks: HashMap<u32, ShardDisk>,
    /// states of the running applications: shard -> state
    pub apps: HashMap<u32, AppState>,
    /// last index passed to the app of the current incarnation
    pub app_cursor: HashMap<u32, u64>,
    pub starts: u64,
    /// crash when this many more store/application steps were made; then stay down for so many ms
    pub fuse: Option<(u32, u32)>,
    /// shards which aren't attached at start
    pub detached: HashMap<u32, u64>,
    /// fences the stores of a process that was detached
    pub fence: HashMap<u32, u64>,
    /// last time the process of the shard used its stores
    pub last_use: HashMap<u32, u64>,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Hurt {
    /// every use of stores and applications hangs
    pub hang: bool,
    /// per mille of uses of the stores that fail
    pub err: u32,
    /// every use of stores and applications takes so long
    pub slow: u32,
}

pub struct State {
    pub rng: Rng,
    pub nodes: Vec<Node>,
    pub orc: Oracle,
    pub reliable: bool,
    pub blocked: Vec<Vec<bool>>,
    pub counters: HashMap<(u8, u64, u64), u64>,
    pub net: NetProf,
    pub trace: Option<Vec<String>>,
    /// durable effects in order, when recorded
    pub ev: Option<Vec<Ev>>,
    /// messages sent between nodes, when recorded
    pub capture: Option<std::collections::VecDeque<(Rpc, Vec<Bytes>)>>,
    /// how often nodes sent a client's request to other nodes
    pub forwards: HashMap<Vec<u8>, u32>,
    /// the last TimeoutNow sent by a node in a shard
    pub handed: HashMap<(u32, usize), u64>,
    /// the last heartbeat of (shard, leader, follower) which arrived: time and term
    pub beats: HashMap<(u32, usize, usize), (u64, u64)>,
    /// the last heartbeat of (shard, leader) which was sent: time and term
    pub claims: HashMap<(u32, usize), (u64, u64)>,
    /// nodes with failing or hanging stores
    pub hurt: HashMap<usize, Hurt>,
    burst: (u64, u64),
    pub livelock: bool,
    pub rpcs: u64,
}

pub struct World {
    pub seed: u64,
    pub shards: u32,
    pub store: StoreProf,
    pub st: Mutex<State>,
    pub start: tokio::time::Instant,
    pub redb_like_queue: bool,
    /// observers may veto/replace: used by the puppet harness
    pub puppet: Option<Arc<dyn Puppet>>,
}

/// Handles requests sent to peers that are played by the harness.
pub trait Puppet: Send + Sync {
    fn owns(&self, dst: usize) -> bool;
    fn serve(&self, src: usize, dst: usize, kind: Rpc, msgs: Vec<Bytes>) -> BoxFuture<'static, Result<Vec<Bytes>, ()>>;
}

pub fn uri_of(i: usize) -> String {
    format!("http://n{i}:1/")
}
pub fn node_id(i: usize) -> NodeId {
    NodeId::new(uri_of(i).parse().unwrap())
}
pub fn idx_of(uri: &str) -> Option<usize> {
    // names of hosts are case-insensitive
    let uri = uri.to_ascii_lowercase();
    let s = uri.strip_prefix("http://n")?;
    let end = s.find(|c: char| !c.is_ascii_digit())?;
    s[..end].parse().ok()
}
pub const CLIENT: usize = 1000;
/// longer than every client waits
pub const DETACH_GRACE: u64 = 25_000;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Rpc {
    Write,
    Read,
    Kern,
    Vote,
    AddServer,
    RemoveServer,
    Replication,
    Snapshot,
    Heartbeat,
    TimeoutNow,
    Unknown,
}
impl Rpc {
    pub fn of(path: &str) -> Rpc {
        match path.rsplit('/').next().unwrap_or("") {
            "Write" => Rpc::Write,
            "Read" => Rpc::Read,
            "ProcessKernRequest" => Rpc::Kern,
            "RequestVote" => Rpc::Vote,
            "AddServer" => Rpc::AddServer,
            "RemoveServer" => Rpc::RemoveServer,
            "SendReplicationStream" => Rpc::Replication,
            "GetSnapshot" => Rpc::Snapshot,
            "SendHeartbeat" => Rpc::Heartbeat,
            "SendTimeoutNow" => Rpc::TimeoutNow,
            _ => Rpc::Unknown,
        }
    }
    pub fn path(self) -> &'static str {
        match self {
            Rpc::Write => "/sorock.Raft/Write",
            Rpc::Read => "/sorock.Raft/Read",
            Rpc::Kern => "/sorock.Raft/ProcessKernRequest",
            Rpc::Vote => "/sorock.Raft/RequestVote",
            Rpc::AddServer => "/sorock.Raft/AddServer",
            Rpc::RemoveServer => "/sorock.Raft/RemoveServer",
            Rpc::Replication => "/sorock.Raft/SendReplicationStream",
            Rpc::Snapshot => "/sorock.Raft/GetSnapshot",
            Rpc::Heartbeat => "/sorock.Raft/SendHeartbeat",
            Rpc::TimeoutNow => "/sorock.Raft/SendTimeoutNow",
            Rpc::Unknown => "/",
        }
    }
}

thread_local! {
    pub static IN_HANDLER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static BG_PANICS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
    pub static SIM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Install once: panics of request handlers are how the service reports errors, panics of
/// background tasks are recorded, others are printed.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let sim = SIM.try_with(|x| x.get()).unwrap_or(false);
        if !sim {
            // redb panics when it is used after its device failed
            if !info.location().map(|l| l.file().contains("/redb-")).unwrap_or(false) {
                default(info);
            }
            return;
        }
        if IN_HANDLER.with(|x| x.get()) {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if loc.contains("/verif/harness") || loc.starts_with("src/") {
            eprintln!("harness panic at {loc}: {msg}");
        }
        BG_PANICS.with(|x| x.borrow_mut().push(format!("{loc}: {msg}")));
    }));
}

pub struct Marked<F>(pub F);
impl<F: std::future::Future + Unpin> std::future::Future for Marked<F> {
    type Output = Result<F::Output, ()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let old = IN_HANDLER.with(|x| x.replace(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Pin::new(&mut self.0).poll(cx)));
        IN_HANDLER.with(|x| x.set(old));
        match r {
            Ok(Poll::Ready(x)) => Poll::Ready(Ok(x)),
            Ok(Poll::Pending) => Poll::Pending,
            Err(_) => Poll::Ready(Err(())),
        }
    }
}

impl crate::oracle::Disks for Vec<Node> {
    fn n(&self) -> usize {
        self.len()
    }
    fn log(&self, node: usize, shard: u32) -> Option<&BTreeMap<u64, Entry>> {
        self.get(node)?.disks.get(&shard).map(|d| &d.log)
    }
    fn uri(&self, node: usize) -> String {
        self[node].uri.clone()
    }
    fn term(&self, node: usize, shard: u32) -> u64 {
        self[node].disks.get(&shard).and_then(|d| d.ballot.as_ref()).map(|b| b.0).unwrap_or(0)
    }
    fn index_of(&self, uri: &str) -> Option<usize> {
        idx_of(uri).filter(|i| *i < self.len())
    }
}

impl World {
    pub fn new(seed: u64, n: usize, shards: u32, net: NetProf, store: StoreProf, redb_like_queue: bool, trace: bool) -> Arc<World> {
        Self::with_puppet(seed, n, shards, net, store, redb_like_queue, trace, None)
    }

    #[allow(clippy::too_many_arguments)]
    pub fn with_puppet(
        seed: u64,
        n: usize,
        shards: u32,
        net: NetProf,
        store: StoreProf,
        redb_like_queue: bool,
        trace: bool,
        puppet: Option<Arc<dyn Puppet>>,
    ) -> Arc<World> {
        let nodes = (0..n)
            .map(|i| Node {
                uri: uri_of(i),
                inc: 0,
                up: false,
                node: None,
                svc: None,
                tasks: vec![],
                disks: (0..shards).map(|s| (s, ShardDisk::default())).collect(),
                apps: HashMap::new(),
                app_cursor: HashMap::new(),
                starts: 0,
                fuse: None,
                detached: HashMap::new(),
                fence: HashMap::new(),
                last_use: HashMap::new(),
            })
            .collect();
        let w = Arc::new(World {
            seed,
            shards,
            store,
            st: Mutex::new(State {
                rng: Rng::new(seed),
                nodes,
                orc: Oracle::new(),
                reliable: false,
                blocked: vec![vec![false; n]; n],
                counters: HashMap::new(),
                net,
                trace: if trace { Some(vec![]) } else { None },
                ev: None,
                capture: None,
                forwards: HashMap::new(),
                handed: HashMap::new(),
                beats: HashMap::new(),
                claims: HashMap::new(),
                hurt: HashMap::new(),
                burst: (0, 0),
                livelock: false,
                rpcs: 0,
            }),
            start: tokio::time::Instant::now(),
            redb_like_queue,
            puppet,
        });
        let w2 = Arc::downgrade(&w);
        sorock::verif_hooks::set_connector(Some(Box::new(move |src, dst, ep| {
            let w = w2.upgrade().expect("world is gone");
            let src = idx_of(&src.to_string()).unwrap_or(CLIENT);
            let inc = w.inc(src);
            let dst = idx_of(&dst.to_string()).unwrap_or(usize::MAX);
            w.channel(src, inc, dst, ep)
        })));
        w
    }

    pub fn now(&self) -> u64 {
        tokio::time::Instant::now().duration_since(self.start).as_millis() as u64
    }

    pub fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn tracing(&self) -> bool {
        self.lock().trace.is_some()
    }

    pub fn t(&self, f: impl FnOnce() -> String) {
        let now = self.now();
        let mut st = self.lock();
        if let Some(t) = &mut st.trace {
            let s = f();
            t.push(format!("{now:>7} {s}"));
        }
    }

    pub fn inc(&self, i: usize) -> u64 {
        if i >= CLIENT {
            return 0;
        }
        self.lock().nodes.get(i).map(|n| n.inc).unwrap_or(0)
    }

    pub fn alive(&self, i: usize, inc: u64) -> bool {
        if i >= CLIENT {
            return true;
        }
        let st = self.lock();
        st.nodes.get(i).map(|n| n.up && n.inc == inc).unwrap_or(false)
    }

    /// Per (stream, a, b) pseudo random value: independent of the order of other decisions.
    fn draw(st: &mut State, seed: u64, stream: u8, a: u64, b: u64) -> Rng {
        let c = st.counters.entry((stream, a, b)).or_insert(0);
        *c += 1;
        Rng::new(mix(&[seed, stream as u64, a, b, *c]))
    }

    /// Bound the work done at one instant of virtual time.
    pub fn tick(&self) -> bool {
        let now = self.now();
        let mut st = self.lock();
        if st.burst.0 != now {
            st.burst = (now, 0);
        }
        st.burst.1 += 1;
        if st.burst.1 > 200_000 {
            if !st.livelock {
                st.livelock = true;
                st.orc.fail(Kind::Livelock, now, "no progress of time after 200000 storage operations".into());
            }
            return false;
        }
        true
    }

    // ------------------------------------------------------------------ network

    pub fn channel(self: &Arc<Self>, src: usize, src_inc: u64, dst: usize, ep: tonic::transport::Endpoint) -> tonic::transport::Channel {
        let w = Arc::downgrade(self);
        ep.connect_with_connector_lazy(tower::service_fn(move |_uri: http::Uri| {
            let w = w.clone();
            async move {
                let Some(w) = w.upgrade() else {
                    return Err(std::io::Error::from(std::io::ErrorKind::ConnectionRefused));
                };
                w.connect(src, src_inc, dst).await
            }
        }))
    }

    async fn connect(
        self: Arc<Self>,
        src: usize,
        src_inc: u64,
        dst: usize,
    ) -> std::io::Result<hyper_util::rt::TokioIo<tokio::io::DuplexStream>> {
        tokio::time::sleep(Duration::from_millis(1)).await;
        let puppet = self.puppet.as_ref().map(|p| p.owns(dst)).unwrap_or(false);
        let dst_inc = {
            let st = self.lock();
            match st.nodes.get(dst) {
                Some(n) if n.up || puppet => n.inc,
                None if puppet => 0,
                _ => return Err(std::io::ErrorKind::ConnectionRefused.into()),
            }
        };
        let (a, b) = tokio::io::duplex(1 << 16);
        let w = self.clone();
        let svc = hyper::service::service_fn(move |req: http::Request<hyper::body::Incoming>| {
            let w = w.clone();
            async move { Ok::<_, std::convert::Infallible>(w.handle(src, src_inc, dst, dst_inc, req).await) }
        });
        let exec = NodeExec { w: self.clone(), node: dst };
        let conn = hyper::server::conn::http2::Builder::new(exec.clone())
            .timer(hyper_util::rt::TokioTimer::new())
            .serve_connection(hyper_util::rt::TokioIo::new(b), svc);
        exec.spawn(async move {
            conn.await.ok();
        });
        Ok(hyper_util::rt::TokioIo::new(a))
    }

    fn is_blocked(&self, src: usize, dst: usize) -> bool {
        if src >= CLIENT {
            return false;
        }
        let st = self.lock();
        st.blocked.get(src).and_then(|r| r.get(dst)).copied().unwrap_or(false)
    }

    /// Wait until the link is usable. Err: the message is lost.
    async fn pass_link(&self, src: usize, dst: usize) -> Result<(), ()> {
        if !self.is_blocked(src, dst) {
            return Ok(());
        }
        let (hold, wait) = {
            let mut st = self.lock();
            let hold = st.net.hold;
            let mut r = Self::draw(&mut st, self.seed, 1, src as u64, dst as u64);
            (hold, if hold { r.range(1000, 20_000) } else { r.range(1, 1000) })
        };
        let deadline = self.now() + wait;
        while self.now() < deadline {
            tokio::time::sleep(Duration::from_millis(if hold { 97 } else { wait.max(1) })).await;
            if hold && !self.is_blocked(src, dst) {
                return Ok(());
            }
        }
        Err(())
    }

    async fn handle(
        self: Arc<Self>,
        src: usize,
        src_inc: u64,
        dst: usize,
        dst_inc: u64,
        req: http::Request<hyper::body::Incoming>,
    ) -> http::Response<BoxBody> {
        let kind = Rpc::of(req.uri().path());
        let (parts, body) = req.into_parts();
        let (d1, d2, drop_req, drop_resp, cut, chunk_delay) = {
            let now = self.now();
            let mut st = self.lock();
            st.rpcs += 1;
            let _ = now;
            let reliable = st.reliable;
            let net = st.net.clone();
            let mut r = Self::draw(&mut st, self.seed, 16 + kind as u8, src as u64, dst as u64);
            if src == dst && kind != Rpc::TimeoutNow {
                (1, 0, false, false, None, 0)
            } else {
                let mut d1 = r.range(net.lat_lo as u64, net.lat_hi as u64).max(1);
                let mut d2 = r.range(net.lat_lo as u64, net.lat_hi as u64);
                let client = src >= CLIENT;
                let (l1, l2) = (r.permille(net.long), r.permille(net.long));
                let (e1, e2) = (r.below(net.long_ms as u64 + 1), r.below(net.long_ms as u64 + 1));
                let dr = r.permille(net.drop_req);
                let ds = r.permille(net.drop_resp);
                let cu = r.permille(net.cut);
                let at = r.below(4);
                let cd = if r.permille(200) { r.range(1, net.lat_hi as u64) } else { 0 };
                if reliable {
                    (d1.min(20), d2.min(20), false, false, None, 0)
                } else {
                    if l1 {
                        d1 += e1;
                    }
                    if l2 {
                        d2 += e2;
                    }
                    (d1, d2, dr && !client, ds, if cu { Some(at) } else { None }, cd)
                }
            }
        };

        if kind == Rpc::Replication {
            return self.handle_stream(src, dst, dst_inc, parts, body, (d1, d2, drop_req, drop_resp, cut, chunk_delay)).await;
        }

        let data = match body.collect().await {
            Ok(x) => x.to_bytes(),
            Err(_) => return unavailable("request body"),
        };
        if !self.alive(src, src_inc) {
            futures::future::pending::<()>().await;
        }
        let mut sp = Splitter::default();
        sp.push(&data);
        let msg = sp.next().unwrap_or_default();
        self.observe_send(src, kind, &msg);
        self.record(kind, || vec![msg.clone()]);

        if self.pass_link(src, dst).await.is_err() {
            return unavailable("partition");
        }
        tokio::time::sleep(Duration::from_millis(d1)).await;
        if drop_req {
            return unavailable("request lost");
        }
        if kind == Rpc::Heartbeat && src < CLIENT {
            self.observe_beat(src, dst, &msg);
        }
        if let Some(p) = self.puppet.as_ref().filter(|p| p.owns(dst)) {
            return match p.serve(src, dst, kind, vec![msg]).await {
                Ok(out) => grpc_response(out),
                Err(()) => unavailable("puppet"),
            };
        }
        if !self.alive(dst, dst_inc) {
            return unavailable("dead");
        }
        let mut resp = self.call(dst, parts, full_body(data)).await;

        if kind != Rpc::Snapshot {
            let (p, b) = resp.into_parts();
            let b = match b.collect().await {
                Ok(x) => x,
                Err(_) => return unavailable("response body"),
            };
            let trailers = b.trailers().cloned();
            let data = b.to_bytes();
            self.observe_response(src, dst, kind, &msg, &data, trailers.as_ref(), &p.headers);
            tokio::time::sleep(Duration::from_millis(d2)).await;
            if drop_resp {
                return unavailable("response lost");
            }
            if self.pass_link(dst, src).await.is_err() {
                return unavailable("partition");
            }
            resp = http::Response::from_parts(p, body_with_trailers(data, trailers));
        } else {
            tokio::time::sleep(Duration::from_millis(d2)).await;
            if drop_resp || self.is_blocked(dst, src) {
                return unavailable("response lost");
            }
            if let Some(k) = cut {
                // the snapshot stream breaks in the middle
                let (p, b) = resp.into_parts();
                let s = http_body_util::BodyDataStream::new(b);
                let s = s.take(k as usize).map(|x| x.map(http_body::Frame::data)).chain(futures::stream::once(async {
                    Err(tonic::Status::unavailable("cut"))
                }));
                resp = http::Response::from_parts(p, tonic::body::boxed(http_body_util::StreamBody::new(Box::pin(s))));
            }
        }
        resp
    }

    async fn handle_stream(
        self: Arc<Self>,
        src: usize,
        dst: usize,
        dst_inc: u64,
        parts: http::request::Parts,
        body: hyper::body::Incoming,
        fate: (u64, u64, bool, bool, Option<u64>, u64),
    ) -> http::Response<BoxBody> {
        let (d1, d2, drop_req, drop_resp, cut, chunk_delay) = fate;
        if self.pass_link(src, dst).await.is_err() {
            return unavailable("partition");
        }
        tokio::time::sleep(Duration::from_millis(d1)).await;
        if drop_req {
            return unavailable("request lost");
        }
        let owned = self.puppet.as_ref().map(|p| p.owns(dst)).unwrap_or(false);
        if !owned && !self.alive(dst, dst_inc) {
            return unavailable("dead");
        }
        let w = self.clone();
        let recording = self.lock().capture.is_some();
        let frames = async_stream::stream! {
            let mut seen = vec![];
            let mut data = http_body_util::BodyDataStream::new(body);
            let mut sp = Splitter::default();
            let mut n = 0u64;
            'outer: while let Some(x) = data.next().await {
                let Ok(x) = x else { break };
                sp.push(&x);
                while let Some(m) = sp.next() {
                    if cut == Some(n) {
                        yield Err(tonic::Status::unavailable("cut"));
                        break 'outer;
                    }
                    n += 1;
                    w.observe_stream(src, dst, &m);
                    if recording {
                        seen.push(m.clone());
                    }
                    if chunk_delay > 0 {
                        tokio::time::sleep(Duration::from_millis(chunk_delay)).await;
                    }
                    yield Ok(m);
                }
            }
            if recording {
                w.record(Rpc::Replication, || seen);
            }
        };
        if owned {
            let msgs: Vec<Bytes> = frames.filter_map(|x| async move { x.ok() }).collect().await;
            let p = self.puppet.as_ref().unwrap();
            return match p.serve(src, dst, Rpc::Replication, msgs).await {
                Ok(out) => grpc_response(out),
                Err(()) => unavailable("puppet"),
            };
        }
        let body = http_body_util::StreamBody::new(Box::pin(
            frames.map(|x: Result<Bytes, tonic::Status>| x.map(|m| http_body::Frame::data(frame_raw(&m)))),
        )
            as Pin<Box<dyn futures::Stream<Item = Result<http_body::Frame<Bytes>, tonic::Status>> + Send>>);
        let resp = self.call(dst, parts, tonic::body::boxed(body)).await;
        let (p, b) = resp.into_parts();
        let b = match b.collect().await {
            Ok(x) => x,
            Err(_) => return unavailable("response body"),
        };
        let trailers = b.trailers().cloned();
        let data = b.to_bytes();
        if self.tracing() {
            let mut sp = Splitter::default();
            sp.push(&data);
            let m = sp.next().and_then(|m| <ReplicationStreamResponse as prost::Message>::decode(m).ok());
            self.t(|| format!("n{src} <- n{dst} replication {m:?}"));
        }
        tokio::time::sleep(Duration::from_millis(d2)).await;
        if drop_resp {
            return unavailable("response lost");
        }
        if self.pass_link(dst, src).await.is_err() {
            return unavailable("partition");
        }
        http::Response::from_parts(p, body_with_trailers(data, trailers))
    }

    /// Invoke the gRPC service of a node.
    pub async fn call(&self, dst: usize, parts: http::request::Parts, body: BoxBody) -> http::Response<BoxBody> {
        use tower::Service;
        let svc = self.lock().nodes.get(dst).and_then(|n| n.svc.clone());
        let Some(mut svc) = svc else {
            return unavailable("no service");
        };
        let req = http::Request::from_parts(parts, body);
        let fut = Box::pin(async move { svc.call(req).await });
        match Marked(fut).await {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => match e {},
            Err(()) => grpc_error(13, "handler panicked"),
        }
    }

    fn record(&self, kind: Rpc, f: impl FnOnce() -> Vec<Bytes>) {
        let mut st = self.lock();
        if let Some(c) = &mut st.capture {
            // Old messages of every kind are kept.
            if c.iter().filter(|x| x.0 == kind).count() >= 60 {
                let k = c.iter().position(|x| x.0 == kind).unwrap();
                c.remove(k);
            }
            c.push_back((kind, f()));
        }
    }

    fn observe_send(&self, src: usize, kind: Rpc, msg: &Bytes) {
        use prost::Message;
        let now = self.now();
        match kind {
            Rpc::Heartbeat => {
                if src >= CLIENT {
                    return;
                }
                if let Ok(h) = Heartbeat::decode(msg.clone()) {
                    let mut st = self.lock();
                    let st = &mut *st;
                    let mut v: Vec<_> = h.leader_commit_states.into_iter().collect();
                    v.sort_by_key(|x| x.0);
                    for (shard, s) in v {
                        if let Some(at) = st.nodes[src].detached.get(&shard) {
                            if now > *at + DETACH_GRACE - 3_000 {
                                let m = format!("n{src}/{shard}: detached at {at} but still sends heartbeats at {now}");
                                st.orc.fail(Kind::DetachLeak, now, m);
                            }
                        }
                        st.orc.leader_claim(now, shard, s.leader_term, src, "heartbeat");
                        st.claims.insert((shard, src), (now, s.leader_term));
                        st.orc.committed_upto(now, &st.nodes, shard, src, s.leader_commit_index, "heartbeat");
                    }
                }
            }
            Rpc::Vote => {
                if let Ok(v) = VoteRequest::decode(msg.clone()) {
                    let mut st = self.lock();
                    if !v.pre_vote && src < CLIENT {
                        st.orc.stat("elections");
                        st.orc.vote_granted(now, v.shard_id, src, v.vote_term, &v.candidate_id);
                    }
                    drop(st);
                    self.t(|| format!("n{src} request vote {v:?}"));
                }
            }
            Rpc::Write | Rpc::Read if src < CLIENT => {
                *self.lock().forwards.entry(msg.to_vec()).or_insert(0) += 1;
                self.t(|| format!("n{src} forwards {kind:?}"));
            }
            Rpc::TimeoutNow if src < CLIENT => {
                if let Ok(t) = TimeoutNow::decode(msg.clone()) {
                    self.lock().handed.insert((t.shard_id, src), now);
                    self.t(|| format!("n{src} timeout now {t:?}"));
                }
            }
            _ => {}
        }
    }

    fn observe_stream(&self, src: usize, dst: usize, msg: &Bytes) {
        use prost::Message;
        if let Ok(c) = ReplicationStreamChunk::decode(msg.clone()) {
            match c.elem {
                Some(Elem::Header(h)) => {
                    let now = self.now();
                    if h.sender_term > 0 && src < CLIENT {
                        self.lock().orc.leader_claim(now, h.shard_id, h.sender_term, src, "replication");
                    }
                    self.t(|| format!("n{src} -> n{dst} replication header {h:?}"));
                }
                Some(Elem::Entry(e)) => {
                    self.t(|| format!("n{src} -> n{dst} replication entry {:?} {:?}", e.clock, decode_cmd(&e.command)));
                }
                None => self.t(|| format!("n{src} -> n{dst} replication none")),
            }
        }
    }

    fn observe_beat(&self, src: usize, dst: usize, msg: &Bytes) {
        use prost::Message;
        let Ok(h) = Heartbeat::decode(msg.clone()) else { return };
        self.t(|| format!("n{src} heartbeat to n{dst}: {:?}", h.leader_commit_states.iter().map(|(s, c)| (*s, c.leader_term)).collect::<std::collections::BTreeMap<_, _>>()));
        let now = self.now();
        let mut st = self.lock();
        for (shard, s) in h.leader_commit_states {
            st.beats.insert((shard, src, dst), (now, s.leader_term));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn observe_response(
        &self,
        src: usize,
        dst: usize,
        kind: Rpc,
        req: &Bytes,
        data: &Bytes,
        trailers: Option<&http::HeaderMap>,
        headers: &http::HeaderMap,
    ) {
        use prost::Message;
        let ok = trailers
            .and_then(|t| t.get("grpc-status"))
            .or(headers.get("grpc-status"))
            .map(|s| s.as_bytes() == b"0")
            .unwrap_or(false);
        let now = self.now();
        if kind == Rpc::Vote && ok {
            let mut sp = Splitter::default();
            sp.push(data);
            let Some(m) = sp.next() else { return };
            if let (Ok(v), Ok(r)) = (VoteRequest::decode(req.clone()), VoteResponse::decode(m)) {
                self.t(|| format!("n{dst} vote to n{src} {} pre={} term={}", r.vote_granted, v.pre_vote, v.vote_term));
                let mut st = self.lock();
                let st = &mut *st;
                if r.vote_granted && !v.pre_vote {
                    st.orc.vote_granted(now, v.shard_id, dst, v.vote_term, &v.candidate_id);
                    let leader = st.orc.shards.get(&v.shard_id).and_then(|s| s.leaders.get(&v.vote_term)).map(|x| x.0);
                    let b = st.nodes.get(dst).and_then(|n| n.disks.get(&v.shard_id)).and_then(|d| d.ballot.clone());
                    let good = match &b {
                        None => false,
                        Some((t, _)) if *t > v.vote_term => true,
                        Some((t, vf)) => {
                            *t == v.vote_term
                                && (vf.as_deref() == Some(&v.candidate_id)
                                    || vf.as_ref().and_then(|x| idx_of(x)).is_some() && vf.as_ref().and_then(|x| idx_of(x)) == leader)
                        }
                    };
                    if !good {
                        let m = format!("n{dst} granted term {} to {} but its ballot is {b:?}", v.vote_term, v.candidate_id);
                        st.orc.fail(Kind::VoteNotPersisted, now, m);
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ disk

    fn apply_write(&self, st: &mut State, now: u64, node: usize, shard: u32, op: WriteOp) {
        match op {
            WriteOp::Insert(i, e, tx) => {
                let d = st.nodes[node].disks.get_mut(&shard).unwrap();
                let old = d.log.insert(i, e.clone());
                let ballot = d.ballot.clone();
                let s = &mut *st;
                if let Some(ev) = &mut s.ev {
                    ev.push(Ev::Insert { node, shard, old: old.as_ref().map(|x| x.this_clock), e: e.clone(), ballot });
                }
                s.orc.inserted(now, &s.nodes, shard, node, i, old.as_ref(), &e);
                if let Some(t) = &mut s.trace {
                    t.push(format!("{now:>7} n{node}/{shard} log[{i}] = {:?}", crate::oracle::EntryInfo::of(&e)));
                }
                tx.send(()).ok();
            }
            WriteOp::DelBefore(i, tx) => {
                let d = st.nodes[node].disks.get_mut(&shard).unwrap();
                let before = d.log.len();
                let had = d.log.keys().next().map(|k| *k < i).unwrap_or(false);
                d.log = d.log.split_off(&i);
                if had {
                    let covered = match d.log.get(&i) {
                        Some(e) => matches!(decode_cmd(&e.command), Cmd::Snapshot(_)),
                        None => false,
                    };
                    let stored = i == 1 || d.snaps.contains_key(&i);
                    let after = d.log.len();
                    st.orc.stat("compactions");
                    if !covered || !stored {
                        let m = format!("n{node}/{shard}: removed {} entries before {i}; snapshot entry there: {covered}, snapshot stored: {stored}", before - after);
                        st.orc.fail(Kind::CompactionLoss, now, m);
                    }
                    if let Some(t) = &mut st.trace {
                        t.push(format!("{now:>7} n{node}/{shard} log compacted before {i}"));
                    }
                }
                tx.send(()).ok();
            }
            WriteOp::DelFrom(i, tx) => {
                let d = st.nodes[node].disks.get_mut(&shard).unwrap();
                let gone = d.log.split_off(&i);
                let ballot = d.ballot.clone();
                if let Some(ev) = &mut st.ev {
                    ev.push(Ev::DelFrom { node, shard, gone: gone.values().map(|e| e.this_clock).collect(), ballot });
                }
                let term = st.nodes[node].disks[&shard].ballot.as_ref().map(|b| b.0).unwrap_or(0);
                for (k, e) in &gone {
                    st.orc.stat("truncated_entries");
                    st.orc.removed(now, term, shard, node, *k, e, "truncated");
                }
                if !gone.is_empty() {
                    if let Some(t) = &mut st.trace {
                        t.push(format!("{now:>7} n{node}/{shard} log truncated from {i}"));
                    }
                }
                tx.send(()).ok();
            }
        }
    }

    fn drain_writes(&self, node: usize, inc: u64, shard: u32) {
        let now = self.now();
        let mut st = self.lock();
        if !(st.nodes[node].up && st.nodes[node].inc == inc) {
            return;
        }
        loop {
            let d = st.nodes[node].disks.get_mut(&shard).unwrap();
            match d.wq.front() {
                Some((t, _)) if *t <= now => {
                    let (_, op) = d.wq.pop_front().unwrap();
                    self.apply_write(&mut st, now, node, shard, op);
                }
                _ => return,
            }
        }
    }

    /// Crash: everything in memory is gone; the disk keeps what was written.
    pub fn crash(&self, i: usize) {
        drop(self.take_down(i));
    }

    fn take_down(&self, i: usize) -> impl Sized + Send {
        let (tasks, node, svc) = {
            let mut st = self.lock();
            let n = &mut st.nodes[i];
            n.up = false;
            n.inc += 1;
            n.fuse = None;
            for d in n.disks.values_mut() {
                d.wq.clear();
            }
            n.apps.clear();
            n.app_cursor.clear();
            (std::mem::take(&mut n.tasks), n.node.take(), n.svc.take())
        };
        for t in tasks {
            t.abort();
        }
        self.t(|| format!("n{i} CRASH"));
        (node, svc)
    }

    pub async fn restart(self: &Arc<Self>, i: usize) {
        if self.lock().nodes[i].up {
            return;
        }
        self.lock().orc.stat("restarts");
        // A node that can't use its storage because of an injected error is started again.
        for k in 0..20 {
            match self.start_node(i).await {
                Ok(()) => return,
                Err(e) => {
                    let injected = format!("{e:#}").contains("injected");
                    self.crash(i);
                    if !injected || k == 19 {
                        let now = self.now();
                        self.lock().orc.fail(Kind::RestartFailed, now, format!("n{i} can't start: {e:#}"));
                        return;
                    }
                }
            }
        }
    }

    pub async fn start_node(self: &Arc<Self>, i: usize) -> anyhow::Result<()> {
        let inc = {
            let mut st = self.lock();
            let n = &mut st.nodes[i];
            if n.up {
                return Ok(());
            }
            n.up = true;
            n.inc += 1;
            n.starts += 1;
            n.inc
        };
        self.t(|| format!("n{i} START"));
        let node = RaftNode::new(node_id(i));
        for s in 0..self.shards {
            if self.lock().nodes[i].detached.contains_key(&s) {
                continue;
            }
            let r = self.attach(&node, i, inc, s).await;
            if !self.alive(i, inc) {
                return Ok(());
            }
            r?;
        }
        let svc = self.make_service(node.clone());
        let mut st = self.lock();
        let n = &mut st.nodes[i];
        if n.inc == inc && n.up {
            n.node = Some(node);
            n.svc = Some(svc);
        }
        Ok(())
    }

    pub fn make_service(&self, node: RaftNode) -> Svc {
        let svc = sorock::raft_service::new(node);
        BoxCloneService::new(svc)
    }

    pub async fn attach(self: &Arc<Self>, node: &RaftNode, i: usize, inc: u64, s: u32) -> anyhow::Result<()> {
        {
            let mut st = self.lock();
            let n = &mut st.nodes[i];
            n.disks.entry(s).or_default();
            n.apps.insert(s, AppState::default());
            n.app_cursor.insert(s, 0);
        }
        let fence = {
            let mut st = self.lock();
            let f = st.nodes[i].fence.entry(s).or_insert(0);
            *f += 1;
            *f
        };
        let log = MemLog { w: self.clone(), node: i, inc, fence, shard: s };
        let ballot = MemBallot { w: self.clone(), node: i, inc, fence, shard: s };
        let app = SimApp { w: self.clone(), node: i, inc, fence, shard: s };
        let p = RaftProcess::new(app, log, ballot, node.get_driver(s)).await?;
        node.attach_process(s, p);
        Ok(())
    }

    /// Stop the process of a shard. Its stores are kept.
    pub fn detach(self: &Arc<Self>, i: usize, s: u32) {
        let now = self.now();
        let node = {
            let mut st = self.lock();
            let n = &mut st.nodes[i];
            if !n.up || n.detached.contains_key(&s) || n.node.is_none() {
                return;
            }
            n.detached.insert(s, now);
            n.node.clone()
        };
        self.lock().orc.stat("detaches");
        self.t(|| format!("n{i}/{s} DETACH"));
        if let Some(node) = node {
            node.detach_process(s);
        }
    }

    /// Start the process of a shard again after all the requests to the old process have ended.
    pub async fn reattach(self: &Arc<Self>, i: usize, s: u32) {
        let (at, inc0) = {
            let st = self.lock();
            match st.nodes[i].detached.get(&s) {
                Some(at) => (*at, st.nodes[i].inc),
                None => return,
            }
        };
        while self.now() < at + DETACH_GRACE {
            tokio::time::sleep(Duration::from_millis(500)).await;
        }
        let (node, inc) = {
            let now = self.now();
            let mut st = self.lock();
            let st = &mut *st;
            let n = &mut st.nodes[i];
            if n.detached.get(&s) != Some(&at) {
                return;
            }
            let last = n.last_use.get(&s).copied().unwrap_or(0);
            if n.inc == inc0 && last > at + DETACH_GRACE - 3_000 {
                let m = format!("n{i}/{s}: detached at {at} but its process still uses its stores at {last}");
                st.orc.fail(Kind::DetachLeak, now, m);
            }
            n.detached.remove(&s);
            if !n.up || n.node.is_none() {
                // attached at the next start
                return;
            }
            (n.node.clone().unwrap(), n.inc)
        };
        self.lock().orc.stat("reattaches");
        self.t(|| format!("n{i}/{s} ATTACH"));
        if let Err(e) = self.attach(&node, i, inc, s).await {
            let now = self.now();
            if !format!("{e:#}").contains("injected") {
                self.lock().orc.fail(Kind::RestartFailed, now, format!("n{i}/{s} can't be attached again: {e:#}"));
            }
        }
    }

    pub fn client_channel(self: &Arc<Self>, dst: usize) -> tonic::transport::Channel {
        let ep = tonic::transport::Endpoint::from_shared(uri_of(dst)).unwrap();
        self.channel(CLIENT, 0, dst, ep)
    }

    pub fn finish_panics(&self) {
        let ps = BG_PANICS.with(|x| std::mem::take(&mut *x.borrow_mut()));
        let now = self.now();
        let mut st = self.lock();
        for p in ps {
            st.orc.fail(Kind::TaskPanic, now, p);
        }
    }
}

// ---------------------------------------------------------------------- executor of a node

#[derive(Clone)]
struct NodeExec {
    w: Arc<World>,
    node: usize,
}
impl NodeExec {
    fn spawn<F>(&self, f: F)
    where
        F: std::future::Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let h = tokio::spawn(f).abort_handle();
        if let Some(n) = self.w.lock().nodes.get_mut(self.node) {
            if n.tasks.len() > 256 {
                n.tasks.retain(|t| !t.is_finished());
            }
            n.tasks.push(h);
        }
    }
}
impl<F> hyper::rt::Executor<F> for NodeExec
where
    F: std::future::Future + Send + 'static,
    F::Output: Send + 'static,
{
    fn execute(&self, fut: F) {
        self.spawn(fut);
    }
}

// ---------------------------------------------------------------------- bodies

pub fn full_body(b: Bytes) -> BoxBody {
    tonic::body::boxed(http_body_util::Full::new(b))
}

fn body_with_trailers(b: Bytes, trailers: Option<http::HeaderMap>) -> BoxBody {
    let mut frames: Vec<Result<http_body::Frame<Bytes>, tonic::Status>> = vec![];
    if !b.is_empty() {
        frames.push(Ok(http_body::Frame::data(b)));
    }
    if let Some(t) = trailers {
        frames.push(Ok(http_body::Frame::trailers(t)));
    }
    tonic::body::boxed(http_body_util::StreamBody::new(futures::stream::iter(frames)))
}

fn grpc_response(msgs: Vec<Bytes>) -> http::Response<BoxBody> {
    let mut out = vec![];
    for m in msgs {
        out.extend_from_slice(&frame_raw(&m));
    }
    let mut t = http::HeaderMap::new();
    t.insert("grpc-status", "0".parse().unwrap());
    http::Response::builder()
        .header("content-type", "application/grpc")
        .body(body_with_trailers(out.into(), Some(t)))
        .unwrap()
}

fn grpc_error(code: u32, m: &str) -> http::Response<BoxBody> {
    http::Response::builder()
        .header("content-type", "application/grpc")
        .header("grpc-status", code.to_string())
        .header("grpc-message", m.replace(' ', "%20"))
        .body(tonic::body::empty_body())
        .unwrap()
}
fn unavailable(m: &str) -> http::Response<BoxBody> {
    grpc_error(14, m)
}

// ---------------------------------------------------------------------- stores

pub struct MemLog {
    w: Arc<World>,
    node: usize,
    inc: u64,
    fence: u64,
    shard: u32,
}

async fn gate(w: &Arc<World>, node: usize, inc: u64, shard: u32, fence: u64) {
    let fenced = {
        let now = w.now();
        let mut st = w.lock();
        let n = &mut st.nodes[node];
        n.last_use.insert(shard, now);
        n.fence.get(&shard) != Some(&fence)
    };
    if fenced || !w.alive(node, inc) || !w.tick() {
        futures::future::pending::<()>().await;
    }
    if w.lock().hurt.contains_key(&node) {
        suffer(w, node).await;
        if !w.alive(node, inc) || w.lock().nodes[node].fence.get(&shard) != Some(&fence) {
            futures::future::pending::<()>().await;
        }
    }
    let down_ms = {
        let mut st = w.lock();
        match &mut st.nodes[node].fuse {
            Some((0, d)) => Some(*d),
            Some((k, _)) => {
                *k -= 1;
                None
            }
            None => None,
        }
    };
    if let Some(down_ms) = down_ms {
        w.lock().orc.stat("crash_points");
        let gone = w.take_down(node);
        let w = w.clone();
        tokio::spawn(async move {
            drop(gone);
            tokio::time::sleep(Duration::from_millis(down_ms as u64)).await;
            w.restart(node).await;
        });
        futures::future::pending::<()>().await;
    }
}

/// What befell the node, not its profile.
async fn suffer(w: &World, node: usize) {
    let mut slept = 0;
    loop {
        let h = w.lock().hurt.get(&node).copied().unwrap_or_default();
        if !h.hang && slept >= h.slow {
            break;
        }
        tokio::time::sleep(Duration::from_millis(50)).await;
        slept += 50;
    }
}

async fn delay(w: &World, stream: u8, node: usize, shard: u32, max: u32) {
    if max == 0 {
        return;
    }
    let (d, y) = {
        let mut st = w.lock();
        let max = if st.reliable { max.min(3) } else { max };
        let mut r = World::draw(&mut st, w.seed, stream, node as u64, shard as u64);
        // mostly short
        let d = if r.permille(700) { 0 } else { r.below(max as u64 + 1) };
        (d, r.below(3))
    };
    if d > 0 {
        tokio::time::sleep(Duration::from_millis(d)).await;
    } else {
        for _ in 0..y {
            tokio::task::yield_now().await;
        }
    }
}

fn store_err(w: &World, node: usize) -> anyhow::Result<()> {
    let hurt = w.lock().hurt.get(&node).map(|h| h.err).unwrap_or(0);
    if hurt > 0 {
        let mut st = w.lock();
        let mut r = World::draw(&mut st, w.seed, 10, node as u64, 0);
        anyhow::ensure!(!r.permille(hurt), "injected storage error");
    }
    if w.store.err == 0 {
        return Ok(());
    }
    let mut st = w.lock();
    if st.reliable {
        return Ok(());
    }
    let mut r = World::draw(&mut st, w.seed, 9, node as u64, 0);
    anyhow::ensure!(!r.permille(w.store.err), "injected storage error");
    Ok(())
}

impl MemLog {
    async fn write(&self, stream: u8, f: impl FnOnce(tokio::sync::oneshot::Sender<()>) -> WriteOp) -> anyhow::Result<()> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        store_err(w, self.node)?;
        let (tx, rx) = tokio::sync::oneshot::channel();
        let op = f(tx);
        if w.redb_like_queue {
            // Queued: takes effect in order, even if the caller goes away.
            let now = w.now();
            let at = {
                let mut st = w.lock();
                let max = if st.reliable { w.store.ins_pre.min(3) } else { w.store.ins_pre };
                let mut r = World::draw(&mut st, w.seed, stream, self.node as u64, self.shard as u64);
                let d = if r.permille(600) { 0 } else { r.below(max as u64 + 1) };
                let disk = st.nodes[self.node].disks.get_mut(&self.shard).unwrap();
                let at = disk.wq.back().map(|x| x.0).unwrap_or(0).max(now + d);
                disk.wq.push_back((at, op));
                at
            };
            if at <= now {
                w.drain_writes(self.node, self.inc, self.shard);
            } else {
                let (w2, node, inc, shard) = (w.clone(), self.node, self.inc, self.shard);
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_millis(at - now)).await;
                    w2.drain_writes(node, inc, shard);
                });
            }
        } else {
            delay(w, stream, self.node, self.shard, w.store.ins_pre).await;
            gate(w, self.node, self.inc, self.shard, self.fence).await;
            let now = w.now();
            let mut st = w.lock();
            w.apply_write(&mut st, now, self.node, self.shard, op);
        }
        if rx.await.is_err() {
            futures::future::pending::<()>().await;
        }
        delay(w, stream + 1, self.node, self.shard, w.store.ins_post).await;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        Ok(())
    }

    async fn read(&self) -> anyhow::Result<()> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        if w.store.read > 0 {
            delay(w, 6, self.node, self.shard, w.store.read).await;
            gate(w, self.node, self.inc, self.shard, self.fence).await;
        }
        Ok(())
    }
    fn with<R>(&self, f: impl FnOnce(&BTreeMap<u64, Entry>) -> R) -> R {
        let st = self.w.lock();
        f(&st.nodes[self.node].disks[&self.shard].log)
    }
}

#[async_trait::async_trait]
impl RaftLogStore for MemLog {
    async fn insert_entry(&self, i: Index, e: Entry) -> anyhow::Result<()> {
        self.write(2, |tx| WriteOp::Insert(i, e, tx)).await
    }
    async fn delete_entries_before(&self, i: Index) -> anyhow::Result<()> {
        self.write(4, |tx| WriteOp::DelBefore(i, tx)).await
    }
    async fn delete_entries_from(&self, i: Index) -> anyhow::Result<()> {
        self.write(2, |tx| WriteOp::DelFrom(i, tx)).await
    }
    async fn get_entry(&self, i: Index) -> anyhow::Result<Option<Entry>> {
        self.read().await?;
        Ok(self.with(|l| l.get(&i).cloned()))
    }
    async fn get_head_index(&self) -> anyhow::Result<Index> {
        self.read().await?;
        Ok(self.with(|l| l.keys().next().copied().unwrap_or(0)))
    }
    async fn get_last_index(&self) -> anyhow::Result<Index> {
        self.read().await?;
        Ok(self.with(|l| l.keys().next_back().copied().unwrap_or(0)))
    }
}

pub struct MemBallot {
    w: Arc<World>,
    node: usize,
    inc: u64,
    fence: u64,
    shard: u32,
}
#[async_trait::async_trait]
impl RaftBallotStore for MemBallot {
    async fn save_ballot(&self, v: Ballot) -> anyhow::Result<()> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        store_err(w, self.node)?;
        if w.store.ballot > 0 {
            delay(w, 10, self.node, self.shard, w.store.ballot).await;
            gate(w, self.node, self.inc, self.shard, self.fence).await;
        }
        {
            let now = w.now();
            let mut st = w.lock();
            let d = st.nodes[self.node].disks.get_mut(&self.shard).unwrap();
            let old = d.ballot.clone();
            let new = (v.cur_term, v.voted_for.map(|x| x.to_string()));
            d.ballot = Some(new.clone());
            if let Some(ev) = &mut st.ev {
                ev.push(Ev::Ballot { node: self.node, shard: self.shard, new: new.clone() });
            }
            if old.as_ref() != Some(&new) {
                if let Some(t) = &mut st.trace {
                    t.push(format!("{now:>7} n{}/{} ballot {new:?}", self.node, self.shard));
                }
            }
            if let Some(o) = old {
                if o.0 > new.0 {
                    let m = format!("n{}/{}: ballot {o:?} -> {new:?}", self.node, self.shard);
                    st.orc.fail(Kind::BallotRegress, now, m);
                }
            }
        }
        if w.store.ballot > 0 {
            delay(w, 11, self.node, self.shard, w.store.ballot).await;
            gate(w, self.node, self.inc, self.shard, self.fence).await;
        }
        Ok(())
    }
    async fn load_ballot(&self) -> anyhow::Result<Ballot> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        if w.store.ballot > 0 {
            delay(w, 12, self.node, self.shard, w.store.ballot).await;
            gate(w, self.node, self.inc, self.shard, self.fence).await;
        }
        let st = w.lock();
        let b = st.nodes[self.node].disks[&self.shard].ballot.clone();
        Ok(match b {
            None => Ballot::new(),
            Some((t, v)) => Ballot {
                cur_term: t,
                voted_for: v.map(|x| x.parse().unwrap()),
            },
        })
    }
}

// ---------------------------------------------------------------------- application

pub struct SimApp {
    w: Arc<World>,
    node: usize,
    inc: u64,
    fence: u64,
    shard: u32,
}

/// Write payload: 8 bytes op id, 4 bytes shard, padding.
pub fn op_payload(op: u64, shard: u32, pad: usize) -> Bytes {
    let mut v = op.to_le_bytes().to_vec();
    v.extend_from_slice(&shard.to_le_bytes());
    v.resize(v.len() + pad, 7);
    v.into()
}

#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
pub struct WriteResp {
    pub op: u64,
    pub shard: u32,
    pub pos: u64,
    pub hash: u64,
    pub index: u64,
}
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct ReadResp {
    pub shard: u32,
    pub count: u64,
    pub hash: u64,
    pub last_index: u64,
    pub node: u64,
    pub token: u64,
    pub at_ms: u64,
}

#[async_trait::async_trait]
impl RaftApp for SimApp {
    async fn process_read(&self, request: &[u8]) -> anyhow::Result<Bytes> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        delay(w, 13, self.node, self.shard, w.store.app).await;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        let now = w.now();
        let mut st = w.lock();
        let mut head = request.get(..12).map(|x| x.to_vec()).unwrap_or_default();
        if head.is_empty() {
            // not from a client of the simulation
            head.resize(8, 0);
            head.extend_from_slice(&self.shard.to_le_bytes());
        }
        let token = u64::from_le_bytes(head[..8].try_into()?);
        let shard = u32::from_le_bytes(head[8..12].try_into()?);
        if shard != self.shard {
            let m = format!("read for shard {shard} processed by shard {}", self.shard);
            st.orc.fail(Kind::ShardMix, now, m);
        }
        let app = st.nodes[self.node].apps[&self.shard].clone();
        if request.get(12) == Some(&b'S') {
            // make a snapshot of the current state
            if app.last_index() > 0 {
                let idx = st.nodes[self.node].app_cursor[&self.shard];
                if idx == app.last_index() {
                    st.orc.stat("snapshots_made");
                    if let Some(t) = &mut st.trace {
                        t.push(format!("{now:>7} n{}/{} snapshot@{idx} made", self.node, self.shard));
                    }
                    st.nodes[self.node].disks.get_mut(&self.shard).unwrap().snaps.insert(idx, app.clone());
                }
            }
        }
        let r = ReadResp {
            shard: self.shard,
            count: app.ops.len() as u64,
            hash: app.hash,
            last_index: app.last_index(),
            node: self.node as u64,
            token,
            at_ms: now,
        };
        Ok(bincode::serialize(&r)?.into())
    }

    async fn process_write(&self, request: &[u8], entry_index: Index) -> anyhow::Result<Bytes> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        delay(w, 14, self.node, self.shard, w.store.app).await;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        let now = w.now();
        let mut st = w.lock();
        let st = &mut *st;
        let op = u64::from_le_bytes(request[..8].try_into()?);
        let shard = u32::from_le_bytes(request[8..12].try_into()?);
        if shard != self.shard {
            let m = format!("write for shard {shard} processed by shard {}", self.shard);
            st.orc.fail(Kind::ShardMix, now, m);
        }
        let n = &mut st.nodes[self.node];
        let cur = n.app_cursor.insert(self.shard, entry_index).unwrap_or(0);
        let app = n.apps.get_mut(&self.shard).unwrap();
        app.apply(entry_index, op);
        let (pos, hash) = (app.ops.len(), app.hash);
        if let Some(t) = &mut st.trace {
            t.push(format!("{now:>7} n{}/{} apply@{entry_index} op {op}", self.node, self.shard));
        }
        if entry_index <= cur {
            let m = format!("n{}/{shard}: executed index {entry_index} after index {cur}", self.node);
            st.orc.fail(Kind::ApplyOrder, now, m);
        }
        // the entry must be what the log holds
        if let Some(e) = st.nodes[self.node].disks[&self.shard].log.get(&entry_index) {
            if let Cmd::Exec { message, .. } = decode_cmd(&e.command) {
                if message != request {
                    let m = format!("n{}/{shard}: executed op {op} at {entry_index} which isn't the log entry", self.node);
                    st.orc.fail(Kind::ApplyDiverge, now, m);
                }
            }
        }
        st.orc.committed_upto(now, &st.nodes, self.shard, self.node, entry_index, "apply");
        st.orc.applied(now, self.shard, self.node, entry_index, op, pos, hash);
        Ok(bincode::serialize(&WriteResp {
            op,
            shard: self.shard,
            pos: pos as u64,
            hash,
            index: entry_index,
        })?
        .into())
    }

    async fn install_snapshot(&self, snapshot_index: Index) -> anyhow::Result<()> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        delay(w, 15, self.node, self.shard, w.store.app).await;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        let now = w.now();
        let mut st = w.lock();
        let st = &mut *st;
        if let Some(t) = &mut st.trace {
            t.push(format!("{now:>7} n{}/{} install snapshot@{snapshot_index}", self.node, self.shard));
        }
        let n = &mut st.nodes[self.node];
        let Some(s) = n.disks[&self.shard].snaps.get(&snapshot_index).cloned() else {
            let m = format!("n{}/{}: snapshot {snapshot_index} to be installed isn't in the snapshot store", self.node, self.shard);
            st.orc.fail(Kind::SnapshotContent, now, m);
            anyhow::bail!("no snapshot");
        };
        let cur = n.app_cursor.insert(self.shard, snapshot_index).unwrap_or(0);
        n.apps.insert(self.shard, s.clone());
        st.orc.stat("snapshot_installs");
        if snapshot_index < cur {
            let m = format!("n{}/{}: installed snapshot {snapshot_index} after index {cur}", self.node, self.shard);
            st.orc.fail(Kind::ApplyOrder, now, m);
        }
        if let Some(e) = st.orc.check_state(self.shard, &s) {
            let m = format!("n{}/{} install@{snapshot_index}: {e}", self.node, self.shard);
            st.orc.fail(Kind::SnapshotContent, now, m);
        }
        if s.last_index() != snapshot_index {
            let m = format!("n{}/{}: snapshot {snapshot_index} holds the state at {}", self.node, self.shard, s.last_index());
            st.orc.fail(Kind::SnapshotContent, now, m);
        }
        st.orc.committed_upto(now, &st.nodes, self.shard, self.node, snapshot_index, "install");
        Ok(())
    }

    async fn save_snapshot(&self, mut sst: SnapshotStream, snapshot_index: Index) -> anyhow::Result<()> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        let mut buf = vec![];
        while let Some(x) = sst.next().await {
            buf.extend_from_slice(&x?);
        }
        let s: AppState = bincode::deserialize(&buf)?;
        delay(w, 15, self.node, self.shard, w.store.app).await;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        let now = w.now();
        let mut st = w.lock();
        st.orc.stat("snapshots_saved");
        if let Some(t) = &mut st.trace {
            t.push(format!("{now:>7} n{}/{} save snapshot@{snapshot_index}", self.node, self.shard));
        }
        if s.last_index() != snapshot_index {
            let m = format!("n{}/{}: received snapshot {snapshot_index} holds the state at {}", self.node, self.shard, s.last_index());
            st.orc.fail(Kind::SnapshotContent, now, m);
        }
        st.nodes[self.node].disks.get_mut(&self.shard).unwrap().snaps.insert(snapshot_index, s);
        Ok(())
    }

    async fn open_snapshot(&self, snapshot_index: Index) -> anyhow::Result<SnapshotStream> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        let st = w.lock();
        let s = st.nodes[self.node].disks[&self.shard].snaps.get(&snapshot_index).cloned();
        let Some(s) = s else { anyhow::bail!("no snapshot") };
        let b = bincode::serialize(&s)?;
        let chunks: Vec<anyhow::Result<Bytes>> = b.chunks(64).map(|c| Ok(Bytes::copy_from_slice(c))).collect();
        Ok(Box::pin(futures::stream::iter(chunks)))
    }

    async fn delete_snapshots_before(&self, i: Index) -> anyhow::Result<()> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        let mut st = w.lock();
        let d = st.nodes[self.node].disks.get_mut(&self.shard).unwrap();
        d.snaps = d.snaps.split_off(&i);
        Ok(())
    }

    async fn get_latest_snapshot(&self) -> anyhow::Result<Index> {
        let w = &self.w;
        gate(w, self.node, self.inc, self.shard, self.fence).await;
        let st = w.lock();
        Ok(st.nodes[self.node].disks[&self.shard].snaps.keys().next_back().copied().unwrap_or(0))
    }
}

#[allow(dead_code)]
pub fn unused(_: HashSet<u8>) {}
