//! C19: an attacker sends malformed, mutated, replayed and untimely messages to a cluster at work.

use crate::cluster::{final_checks, make_snapshot, simulate};
use crate::driver::*;
use crate::oracle::Kind as K;
use crate::wire::*;
use crate::world::*;
use bytes::Bytes;
use http_body_util::BodyExt;
use proptest::prelude::*;
use prost::Message;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

/// Identifiers of nodes, good and bad. The first are the nodes.
const IDS: &[&str] = &[
    "http://n0:1/", "http://n1:1/", "http://n2:1/", "", " ", "foo", "/", "*", "http://", "http://n1:1", "HTTP://N1:1/", "http://evil:1/", "http://n0:1/x?y#z", "http://[::1",
    "http://n1:99999/", "n1:1", "\u{0}", "http://é/", "https://evil:1/", "mailto:x", "http://user:pw@evil:1/", "http://n1:1/\n", "//evil", "http://evil:0/%zz", "LONG", "http://[::1]:7/",
];
fn id(k: u8) -> String {
    match IDS[k as usize % IDS.len()] {
        "LONG" => format!("http://{}:1/", "a".repeat(70_000)),
        x => x.to_string(),
    }
}
fn parses(s: &str) -> bool {
    s.parse::<http::Uri>().is_ok()
}
fn known(s: &str) -> Option<usize> {
    let u = s.parse::<http::Uri>().ok()?;
    (0..3).find(|i| uri_of(*i).parse::<http::Uri>().unwrap() == u)
}

const RPCS: [Rpc; 11] =
    [Rpc::Write, Rpc::Read, Rpc::Kern, Rpc::Vote, Rpc::AddServer, Rpc::RemoveServer, Rpc::Replication, Rpc::Snapshot, Rpc::Heartbeat, Rpc::TimeoutNow, Rpc::Unknown];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mutn {
    Flip(u16, u8),
    Set(u16, u8),
    Cut(u16),
    Insert(u16, Vec<u8>),
    Dup(u16, u16),
    Swap(u16, u16),
}

/// A number relative to the value in use.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Num {
    Rel(i32),
    Abs(u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Chunk {
    Header { shard: u8, sender: u8, term: Num, prev: Option<(Num, Num)> },
    /// an entry; its command
    Entry { clock: Option<(Num, Num)>, cmd: u8, garbage: Vec<u8> },
    /// an entry of the log, relative to its end
    Real { back: u8 },
    Nothing,
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Msg {
    Raw(Vec<u8>),
    /// a message that was sent between the nodes, mutated
    Captured { pick: u16, muts: Vec<Mutn> },
    Vote { shard: u8, term: Num, cand: u8, clock: Option<(Num, Num)>, force: bool, pre: bool },
    Beat { leader: u8, states: Vec<(u8, Num, u64)> },
    Stream(Vec<Chunk>),
    Server { shard: u8, id: u8 },
    Kern { shard: u8, bytes: Vec<u8> },
    Shard { shard: u8, n: Num },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Framing {
    Good,
    Truncated,
    Flag,
    Trailing,
    Empty,
    Twice,
    Split,
    /// the request never ends
    Stall,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FOp {
    Attack { to: u8, rpc: u8, msg: Msg, framing: Framing },
    /// the same again, many times at once
    Flood { n: u8 },
    Client { via: u8, shard: u8, n: u8 },
    /// a server that doesn't exist is added and removed
    Weird { shard: u8, id: u8, via: u8 },
    Restart { node: u8, down_ms: u16 },
    Snapshot { node: u8, shard: u8 },
    Wait { ms: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    pub seed: u64,
    pub shards: u8,
    pub store: StoreProf,
    /// clients work during the attacks
    pub busy: bool,
    pub ops: Vec<FOp>,
}

fn num() -> impl Strategy<Value = Num> {
    prop_oneof![
        6 => prop_oneof![3 => Just(0i32), 3 => Just(1), 3 => Just(-1), 2 => -5i32..6, 1 => -300i32..300].prop_map(Num::Rel),
        1 => prop_oneof![Just(0u64), Just(1), Just(u64::MAX), Just(u64::MAX - 1), Just(1 << 32), Just(1 << 63), any::<u64>()].prop_map(Num::Abs),
    ]
}
fn shard() -> impl Strategy<Value = u8> {
    prop_oneof![8 => 0u8..2, 1 => 2u8..5, 1 => any::<u8>()]
}
fn ids() -> impl Strategy<Value = u8> {
    prop_oneof![3 => 0u8..3, 3 => 0u8..IDS.len() as u8]
}
fn clock() -> impl Strategy<Value = Option<(Num, Num)>> {
    prop::option::weighted(0.9, (num(), num()))
}
fn mutn() -> impl Strategy<Value = Mutn> {
    prop_oneof![
        4 => (any::<u16>(), 0u8..8).prop_map(|(p, b)| Mutn::Flip(p, b)),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(p, b)| Mutn::Set(p, b)),
        2 => any::<u16>().prop_map(Mutn::Cut),
        2 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..6)).prop_map(|(p, b)| Mutn::Insert(p, b)),
        1 => (any::<u16>(), 1u16..40).prop_map(|(p, n)| Mutn::Dup(p, n)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(p, q)| Mutn::Swap(p, q)),
    ]
}
fn chunk() -> impl Strategy<Value = Chunk> {
    prop_oneof![
        2 => (shard(), ids(), num(), clock()).prop_map(|(shard, sender, term, prev)| Chunk::Header { shard, sender, term, prev }),
        5 => (clock(), 0u8..8, prop::collection::vec(any::<u8>(), 0..30)).prop_map(|(clock, cmd, garbage)| Chunk::Entry { clock, cmd, garbage }),
        3 => (0u8..8).prop_map(|back| Chunk::Real { back }),
        1 => Just(Chunk::Nothing),
        2 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Chunk::Bytes),
    ]
}
fn msg() -> impl Strategy<Value = (u8, Msg)> {
    let ix = |r: Rpc| RPCS.iter().position(|x| *x == r).unwrap() as u8;
    let header = (shard(), ids(), num(), clock()).prop_map(|(shard, sender, term, prev)| Chunk::Header { shard, sender, term, prev });
    // A stream as the leader would send it, with one thing wrong.
    let near = (0u8..2, 0u8..6, prop::collection::vec(chunk(), 1..5))
        .prop_map(|(shard, back, mut v)| {
            v.insert(0, Chunk::Header { shard, sender: 255, term: Num::Rel(0), prev: Some((Num::Rel(0), Num::Rel(-(back as i32)))) });
            v
        });
    let small = || prop_oneof![5 => Just(0i32), 1 => Just(1i32), 1 => Just(-1i32), 1 => -3i32..4];
    // The entries which are there, and a wrong one which follows.
    let tail = (0u8..2, 0u8..4, small(), small(), prop_oneof![3 => 4u8..8, 1 => 0u8..4], prop::collection::vec(any::<u8>(), 0..30)).prop_map(|(shard, back, t, i, cmd, garbage)| {
        let mut v = vec![Chunk::Header { shard, sender: 255, term: Num::Rel(0), prev: Some((Num::Rel(0), Num::Rel(-(back as i32)))) }];
        v.extend((0..back).rev().map(|back| Chunk::Real { back }));
        v.push(Chunk::Entry { clock: Some((Num::Rel(t), Num::Rel(1 + i))), cmd, garbage });
        v
    });
    prop_oneof![
        4 => tail.prop_map(move |v| (ix(Rpc::Replication), Msg::Stream(v))),
        3 => (0u8..11, prop::collection::vec(any::<u8>(), 0..80)).prop_map(|(r, b)| (r, Msg::Raw(b))),
        6 => (0u8..11, any::<u16>(), prop::collection::vec(mutn(), 0..4)).prop_map(|(r, pick, muts)| (r, Msg::Captured { pick, muts })),
        4 => (shard(), num(), ids(), clock(), any::<bool>(), any::<bool>()).prop_map(move |(shard, term, cand, clock, force, pre)| (ix(Rpc::Vote), Msg::Vote { shard, term, cand, clock, force, pre })),
        4 => (ids(), prop::collection::vec((shard(), num(), prop_oneof![Just(0u64), Just(u64::MAX), 0u64..20]), 0..4)).prop_map(move |(leader, states)| (ix(Rpc::Heartbeat), Msg::Beat { leader, states })),
        3 => (prop::option::weighted(0.85, header), prop::collection::vec(chunk(), 0..5)).prop_map(move |(h, v)| (ix(Rpc::Replication), Msg::Stream(h.into_iter().chain(v).collect()))),
        4 => near.prop_map(move |v| (ix(Rpc::Replication), Msg::Stream(v))),
        2 => (any::<bool>(), shard(), ids()).prop_map(move |(a, shard, id)| (if a { ix(Rpc::AddServer) } else { ix(Rpc::RemoveServer) }, Msg::Server { shard, id })),
        2 => (shard(), prop::collection::vec(any::<u8>(), 0..30)).prop_map(move |(shard, bytes)| (ix(Rpc::Kern), Msg::Kern { shard, bytes })),
        3 => (prop_oneof![Just(Rpc::TimeoutNow), Just(Rpc::Snapshot), Just(Rpc::Write), Just(Rpc::Read)], shard(), num()).prop_map(move |(r, shard, n)| (ix(r), Msg::Shard { shard, n })),
    ]
}

fn fop() -> impl Strategy<Value = FOp> {
    let framing = prop_oneof![
        20 => Just(Framing::Good),
        1 => Just(Framing::Truncated),
        1 => Just(Framing::Flag),
        1 => Just(Framing::Trailing),
        1 => Just(Framing::Empty),
        1 => Just(Framing::Twice),
        2 => Just(Framing::Split),
        2 => Just(Framing::Stall),
    ];
    prop_oneof![
        24 => (0u8..3, msg(), framing).prop_map(|(to, (rpc, msg), framing)| FOp::Attack { to, rpc, msg, framing }),
        1 => (2u8..60).prop_map(|n| FOp::Flood { n }),
        3 => (0u8..3, 0u8..2, 1u8..6).prop_map(|(via, shard, n)| FOp::Client { via, shard, n }),
        1 => (0u8..2, 3u8..IDS.len() as u8, 0u8..3).prop_map(|(shard, id, via)| FOp::Weird { shard, id, via }),
        1 => (0u8..3, 1u16..5000).prop_map(|(node, down_ms)| FOp::Restart { node, down_ms }),
        1 => (0u8..3, 0u8..2).prop_map(|(node, shard)| FOp::Snapshot { node, shard }),
        1 => (1u16..3000).prop_map(|ms| FOp::Wait { ms }),
    ]
}

pub fn case() -> BoxedStrategy<FCase> {
    (any::<u64>().no_shrink(), 1u8..3, crate::follower::store_strategy(), prop::bool::weighted(0.25), prop::collection::vec(fop(), 6..40))
        .prop_map(|(seed, shards, store, busy, ops)| FCase { seed, shards, store, busy, ops })
        .boxed()
}

/// What a message may do.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
enum Effect {
    /// nothing on any disk
    Inert,
    /// what the message says
    Potent,
    /// A protocol without authentication can't resist it.
    Fatal,
}

type Disk = (Option<(u64, Option<String>)>, BTreeMap<u64, (u64, u64)>);

struct Sim {
    w: Arc<World>,
    cl: Arc<crate::cluster::Ctx>,
    shards: u32,
    busy: bool,
    /// nothing happened that may cause an election since
    calm_at: u64,
    last: Option<(usize, Rpc, Vec<Vec<u8>>, Framing)>,
    fresh: u64,
    stalled: tokio::task::JoinSet<Option<Result<usize, String>>>,
    fails: Vec<Fail>,
    stats: BTreeMap<String, u64>,
}

impl Sim {
    fn fail(&mut self, class: &str, msg: String) {
        let now = self.w.now();
        self.w.t(|| format!("VIOLATED {class}: {msg}"));
        if self.fails.len() < 5 {
            self.fails.push(Fail { class: class.into(), msg: format!("at {now} ms: {msg}") });
        }
    }
    fn stat(&mut self, k: &str) {
        *self.stats.entry(k.into()).or_insert(0) += 1;
    }
    async fn ms(&self, ms: u64) {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
    fn ballot(&self, d: usize, s: u32) -> (u64, Option<String>) {
        self.w.lock().nodes[d].disks.get(&s).and_then(|x| x.ballot.clone()).unwrap_or((0, None))
    }
    fn last(&self, d: usize, s: u32) -> (u64, u64) {
        self.w.lock().nodes[d].disks.get(&s).and_then(|x| x.log.values().next_back().map(|e| (e.this_clock.term, e.this_clock.index))).unwrap_or((0, 0))
    }
    fn num(n: &Num, base: u64) -> u64 {
        match n {
            Num::Rel(d) => base.saturating_add_signed(*d as i64),
            Num::Abs(x) => *x,
        }
    }
    fn disks(&self) -> Vec<Disk> {
        let st = self.w.lock();
        let mut v = vec![];
        for n in &st.nodes {
            for s in 0..self.shards {
                if let Some(d) = n.disks.get(&s) {
                    v.push((d.ballot.clone(), d.log.iter().map(|(i, e)| (*i, (e.this_clock.term, crate::rng::mix(&[e.this_clock.index, e.command.iter().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64))])))).collect()));
                }
            }
        }
        v
    }

    /// The bytes of the messages to send.
    fn build(&mut self, to: usize, rpc: Rpc, m: &Msg) -> Vec<Vec<u8>> {
        let sh = |s: u8| s as u32;
        match m {
            Msg::Raw(b) => vec![b.clone()],
            Msg::Captured { pick, muts } => {
                let got: Vec<Vec<Bytes>> = {
                    let st = self.w.lock();
                    st.capture.as_ref().unwrap().iter().filter(|x| x.0 == rpc).map(|x| x.1.clone()).collect()
                };
                if got.is_empty() {
                    return vec![];
                }
                let mut v: Vec<Vec<u8>> = got[*pick as usize * got.len() / 65536].iter().map(|b| b.to_vec()).collect();
                for (k, m) in muts.iter().enumerate() {
                    let j = (k * 7 + *pick as usize) % v.len().max(1);
                    let Some(b) = v.get_mut(j) else { break };
                    let at = |p: u16, n: usize| if n == 0 { 0 } else { p as usize % n };
                    let n = b.len();
                    match m {
                        Mutn::Flip(p, k) if n > 0 => b[at(*p, n)] ^= 1 << k,
                        Mutn::Set(p, x) if n > 0 => b[at(*p, n)] = *x,
                        Mutn::Cut(p) => b.truncate(at(*p, n)),
                        Mutn::Insert(p, x) => {
                            let i = at(*p, n + 1);
                            b.splice(i..i, x.iter().copied());
                        }
                        Mutn::Dup(p, k) if n > 0 => {
                            let i = at(*p, n);
                            let c: Vec<u8> = b[i..(i + *k as usize).min(n)].to_vec();
                            b.splice(i..i, c);
                        }
                        Mutn::Swap(p, q) if n > 0 => b.swap(at(*p, n), at(*q, n)),
                        _ => {}
                    }
                }
                v
            }
            Msg::Vote { shard, term, cand, clock, force, pre } => {
                let (b, l) = (self.ballot(to, sh(*shard)), self.last(to, sh(*shard)));
                let v = VoteRequest {
                    shard_id: sh(*shard),
                    vote_term: Self::num(term, b.0),
                    candidate_id: id(*cand),
                    candidate_clock: clock.as_ref().map(|c| Clock { term: Self::num(&c.0, l.0), index: Self::num(&c.1, l.1) }),
                    force_vote: *force,
                    pre_vote: *pre,
                };
                vec![v.encode_to_vec()]
            }
            Msg::Beat { leader, states } => {
                let m = states.iter().map(|(s, t, c)| (sh(*s), LeaderCommitState { leader_term: Self::num(t, self.ballot(to, sh(*s)).0), leader_commit_index: *c })).collect();
                vec![Heartbeat { leader_id: id(*leader), leader_commit_states: m }.encode_to_vec()]
            }
            Msg::Stream(cs) => {
                let mut shard = 0u32;
                let mut v = vec![];
                for c in cs {
                    let b = match c {
                        Chunk::Header { shard: s, sender, term, prev } => {
                            shard = sh(*s);
                            let (b, l) = (self.ballot(to, shard), self.last(to, shard));
                            let sender_id = if *sender == 255 { b.1.clone().unwrap_or_default() } else { id(*sender) };
                            let h = ReplicationStreamHeader {
                                shard_id: shard,
                                sender_id,
                                prev_clock: prev.as_ref().map(|c| Clock { term: Self::num(&c.0, l.0), index: Self::num(&c.1, l.1) }),
                                sender_term: Self::num(term, b.0),
                            };
                            ReplicationStreamChunk { elem: Some(Elem::Header(h)) }.encode_to_vec()
                        }
                        Chunk::Entry { clock, cmd, garbage } => {
                            let l = self.last(to, shard);
                            let c = match cmd {
                                0 => encode_cmd(&Cmd::Barrier(l.0)),
                                1 => encode_cmd(&Cmd::Complete { request_id: "x".into() }),
                                2 => encode_cmd(&Cmd::Snapshot([uri_of(0), uri_of(1)].into_iter().collect())),
                                3 => encode_cmd(&Cmd::Exec { message: op_payload(u64::MAX, shard, 0).to_vec(), request_id: "y".into() }),
                                4 => encode_cmd(&Cmd::Config([uri_of(0)].into_iter().collect())).slice(..9),
                                _ => garbage.clone().into(),
                            };
                            let e = ReplicationStreamEntry { clock: clock.as_ref().map(|c| Clock { term: Self::num(&c.0, l.0), index: Self::num(&c.1, l.1) }), command: c };
                            ReplicationStreamChunk { elem: Some(Elem::Entry(e)) }.encode_to_vec()
                        }
                        Chunk::Real { back } => {
                            let st = self.w.lock();
                            let Some(d) = st.nodes[to].disks.get(&shard) else { continue };
                            let Some(e) = d.log.values().rev().nth(*back as usize) else { continue };
                            let e = ReplicationStreamEntry { clock: Some(Clock { term: e.this_clock.term, index: e.this_clock.index }), command: e.command.clone() };
                            ReplicationStreamChunk { elem: Some(Elem::Entry(e)) }.encode_to_vec()
                        }
                        Chunk::Nothing => vec![],
                        Chunk::Bytes(b) => b.clone(),
                    };
                    v.push(b);
                }
                v
            }
            Msg::Server { shard, id: k } => vec![ServerRequest { shard_id: sh(*shard), server_id: id(*k) }.encode_to_vec()],
            Msg::Kern { shard, bytes } => vec![KernRequest { shard_id: sh(*shard), message: bytes.clone().into() }.encode_to_vec()],
            Msg::Shard { shard, n } => {
                let s = sh(*shard);
                vec![match rpc {
                    Rpc::Snapshot => GetSnapshotRequest { shard_id: s, index: Self::num(n, self.last(to, s).1) }.encode_to_vec(),
                    Rpc::Write => WriteRequest { shard_id: s, message: op_payload(1 << 40, s, 0), request_id: String::new() }.encode_to_vec(),
                    Rpc::Read => ReadRequest { shard_id: s, message: op_payload(1 << 40, s, 0) }.encode_to_vec(),
                    _ => TimeoutNow { shard_id: s }.encode_to_vec(),
                }]
            }
        }
    }

    /// What the message means, by the rules of the protocol. Writes get an identity of their own.
    fn effect(&mut self, to: usize, rpc: Rpc, ms: &mut Vec<Vec<u8>>) -> Effect {
        use Effect::*;
        let have = |s: u32| s < self.shards;
        if rpc != Rpc::Replication && ms.is_empty() {
            return Inert;
        }
        match rpc {
            Rpc::Unknown | Rpc::Snapshot => Inert,
            Rpc::Read => Inert,
            Rpc::Write => match WriteRequest::decode(&ms[0][..]) {
                Ok(mut m) if have(m.shard_id) => {
                    self.fresh += 1;
                    m.request_id = format!("z{}", self.fresh);
                    m.message = op_payload((1 << 40) + self.fresh, m.shard_id, m.message.len() % 100);
                    ms[0] = m.encode_to_vec();
                    Potent
                }
                _ => Inert,
            },
            Rpc::Kern => match KernRequest::decode(&ms[0][..]) {
                Ok(m) if have(m.shard_id) => {
                    #[derive(Deserialize)]
                    #[allow(dead_code)]
                    enum Kern {
                        Add(#[serde(with = "http_serde::uri")] http::Uri),
                        Remove(#[serde(with = "http_serde::uri")] http::Uri),
                    }
                    match bincode::deserialize::<Kern>(&m.message) {
                        Ok(Kern::Add(u)) if known(&u.to_string()).is_some() => Potent,
                        Ok(_) => Fatal,
                        Err(_) => Inert,
                    }
                }
                _ => Inert,
            },
            Rpc::AddServer | Rpc::RemoveServer => match ServerRequest::decode(&ms[0][..]) {
                Ok(m) if have(m.shard_id) && parses(&m.server_id) => {
                    if rpc == Rpc::AddServer && known(&m.server_id).is_some() {
                        Potent
                    } else {
                        Fatal
                    }
                }
                _ => Inert,
            },
            Rpc::TimeoutNow => match TimeoutNow::decode(&ms[0][..]) {
                Ok(m) if have(m.shard_id) => Potent,
                _ => Inert,
            },
            Rpc::Vote => match VoteRequest::decode(&ms[0][..]) {
                Ok(m) if have(m.shard_id) && parses(&m.candidate_id) && m.candidate_clock.is_some() => {
                    let b = self.ballot(to, m.shard_id);
                    if m.pre_vote || m.vote_term < b.0 {
                        Inert
                    } else if m.vote_term > b.0 + 1000 || (m.vote_term > b.0 && self.forged(&m.candidate_id, m.shard_id, m.vote_term)) {
                        Fatal
                    } else if !m.force_vote && self.calm() {
                        Inert
                    } else {
                        Potent
                    }
                }
                _ => Inert,
            },
            Rpc::Heartbeat => match Heartbeat::decode(&ms[0][..]) {
                Ok(m) if parses(&m.leader_id) => {
                    let mut e = Inert;
                    for (s, c) in &m.leader_commit_states {
                        if !have(*s) {
                            continue;
                        }
                        let b = self.ballot(to, *s);
                        let from_leader = b.1.as_ref().map(|v| known(v) == known(&m.leader_id) && known(v).is_some()).unwrap_or(false);
                        let x = if c.leader_term < b.0 {
                            Inert
                        } else if c.leader_term > b.0 + 1000 || (c.leader_term > b.0 && self.forged(&m.leader_id, *s, c.leader_term)) || (c.leader_commit_index > 0 && !self.settled(*s)) || (c.leader_term == b.0 && !from_leader) {
                            Fatal
                        } else if c.leader_term == b.0 {
                            Inert
                        } else {
                            Potent
                        };
                        if x > e {
                            e = x;
                        }
                    }
                    e
                }
                _ => Inert,
            },
            Rpc::Replication => self.stream_effect(to, ms),
        }
    }

    fn stream_effect(&self, to: usize, ms: &[Vec<u8>]) -> Effect {
        use Effect::*;
        let Some(Ok(ReplicationStreamChunk { elem: Some(Elem::Header(h)) })) = ms.first().map(|m| ReplicationStreamChunk::decode(&m[..])) else { return Inert };
        let Some(mut prev) = h.prev_clock else { return Inert };
        if h.shard_id >= self.shards || !parses(&h.sender_id) {
            return Inert;
        }
        let b = self.ballot(to, h.shard_id);
        if h.sender_term < b.0 {
            return Inert;
        }
        let from_leader = b.1.as_ref().map(|v| known(v) == known(&h.sender_id) && known(v).is_some()).unwrap_or(false);
        if h.sender_term > b.0 + 1000 || (h.sender_term > b.0 && self.forged(&h.sender_id, h.shard_id, h.sender_term)) || (h.sender_term == b.0 && !from_leader) {
            return Fatal;
        }
        let whole = if h.sender_term == b.0 { Inert } else { Potent };
        let log = self.w.lock().nodes[to].disks[&h.shard_id].log.clone();
        let everywhere = |c: &Clock| {
            let st = self.w.lock();
            st.nodes.iter().all(|n| {
                let l = &n.disks[&h.shard_id].log;
                l.get(&c.index).map(|x| x.this_clock.term == c.term).unwrap_or(false) || l.keys().next().map(|f| *f > c.index).unwrap_or(false)
            })
        };
        for m in &ms[1..] {
            let Ok(ReplicationStreamChunk { elem: Some(Elem::Entry(e)) }) = ReplicationStreamChunk::decode(&m[..]) else { return whole };
            let Some(c) = e.clock else { return whole };
            match decode_cmd(&e.command) {
                Cmd::Other => return whole,
                Cmd::Snapshot(_) => {
                    if log.get(&c.index).map(|x| x.this_clock.term == c.term).unwrap_or(false) {
                        prev = c;
                        continue;
                    }
                    // There is no such snapshot to fetch; unless it is covered by one.
                    if log.keys().next().map(|f| c.index < *f).unwrap_or(false) {
                        prev = c;
                        continue;
                    }
                    return if known(&h.sender_id).is_some() { Fatal } else { whole };
                }
                _ => {}
            }
            let first = log.keys().next().copied().unwrap_or(0);
            if c.index <= first && first > 0 {
                prev = c;
                continue;
            }
            match log.get(&prev.index) {
                Some(p) if p.this_clock.term == prev.term && p.this_clock.index == prev.index => {}
                _ => return whole,
            }
            if log.get(&c.index).map(|x| x.this_clock.term == c.term).unwrap_or(false) {
                // It may be overwritten before the message is processed.
                if !self.calm() && !everywhere(&c) {
                    return Fatal;
                }
                prev = c;
                continue;
            }
            // not a successor: it can't be stored
            if Some(c.index) != prev.index.checked_add(1) || c.term < prev.term || c.term > h.sender_term {
                return whole;
            }
            return Fatal;
        }
        whole
    }

    /// The message is said to be of a node which was never a candidate in the term. Following
    /// the votes, requests could go around in circles.
    fn forged(&self, name: &str, s: u32, term: u64) -> bool {
        // where requests would go
        let Some(x) = name.parse::<http::Uri>().ok().and_then(|u| (0..3).find(|i| u.host().map(|h| h.to_ascii_lowercase()) == Some(format!("n{i}")))) else { return false };
        let b = self.ballot(x, s);
        !(b.0 > term || b.0 == term && b.1.as_ref().and_then(|v| known(v)) == Some(x))
    }

    fn calm(&self) -> bool {
        !self.busy && self.w.now() >= self.calm_at
    }

    fn framed(rpc: Rpc, ms: &[Vec<u8>], framing: Framing) -> Vec<Bytes> {
        let mut v: Vec<Bytes> = ms.iter().map(|m| frame_raw(m)).collect();
        match framing {
            Framing::Good | Framing::Stall => {}
            Framing::Truncated => {
                if let Some(l) = v.last_mut() {
                    *l = l.slice(..l.len() - 1);
                }
            }
            Framing::Flag => {
                if let Some(l) = v.last_mut() {
                    let mut x = l.to_vec();
                    x[0] = 1;
                    *l = x.into();
                }
            }
            Framing::Trailing => v.push(Bytes::from_static(&[0, 0, 0])),
            Framing::Empty => v.clear(),
            Framing::Twice => {
                if rpc != Rpc::Replication {
                    v.extend(v.clone());
                }
            }
            Framing::Split => {
                v = v.iter().flat_map(|b| { let k = b.len() / 2; [b.slice(..k), b.slice(k..)] }).collect();
            }
        }
        v
    }

    async fn send(w: Arc<World>, to: usize, rpc: Rpc, frames: Vec<Bytes>, stall: bool, limit: u64) -> Option<Result<usize, String>> {
        let req = http::Request::builder()
            .method("POST")
            .version(http::Version::HTTP_2)
            .uri(format!("{}{}", uri_of(to).trim_end_matches('/'), rpc.path()))
            .header("content-type", "application/grpc")
            .header("te", "trailers")
            .body(())
            .unwrap();
        let (parts, _) = req.into_parts();
        let st = futures::stream::iter(frames.into_iter().map(|b| Ok(http_body::Frame::data(b))));
        let st = futures::StreamExt::chain(st, futures::stream::once(async move {
            if stall {
                std::future::pending::<()>().await;
            }
            Ok(http_body::Frame::data(Bytes::new()))
        }));
        let body = http_body_util::StreamBody::new(Box::pin(st)
            as std::pin::Pin<Box<dyn futures::Stream<Item = Result<http_body::Frame<Bytes>, tonic::Status>> + Send>>);
        let f = async {
            let resp = w.call(to, parts, tonic::body::boxed(body)).await;
            let (p, b) = resp.into_parts();
            let b = match b.collect().await {
                Ok(b) => b,
                Err(e) => return Err(format!("{e}")),
            };
            let st = b.trailers().and_then(|t| t.get("grpc-status").cloned()).or(p.headers.get("grpc-status").cloned());
            match st {
                Some(s) if s.as_bytes() == b"0" => Ok(b.to_bytes().len()),
                Some(s) => Err(s.to_str().unwrap_or("?").to_string()),
                None => Err(format!("http {}", p.status)),
            }
        };
        tokio::time::timeout(Duration::from_millis(limit), f).await.ok()
    }

    async fn attack(&mut self, to: usize, rpc: Rpc, mut ms: Vec<Vec<u8>>, framing: Framing, copies: usize) {
        if self.calm() {
            self.quiesce().await;
        }
        let e = self.effect(to, rpc, &mut ms);
        if e == Effect::Fatal {
            self.stat("skipped");
            return;
        }
        if !self.w.lock().nodes[to].up {
            return;
        }
        let calm = self.calm() && e == Effect::Inert;
        self.w.t(|| format!("attack n{to} {rpc:?} {framing:?} x{copies}: {e:?} (calm={calm}) {:?}", ms.iter().map(|m| m.iter().take(60).map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>()));
        let before = self.disks();
        let limit = if e == Effect::Inert { 20_000 } else { 60_000 };
        let t0 = self.w.now();
        let frames = Self::framed(rpc, &ms, framing);
        let stall = framing == Framing::Stall && rpc != Rpc::Write;
        let rs = if stall {
            for _ in 0..copies {
                self.stalled.spawn(Self::send(self.w.clone(), to, rpc, frames.clone(), true, 300_000));
            }
            self.stat("stalled");
            self.ms(300).await;
            vec![]
        } else {
            futures::future::join_all((0..copies).map(|_| Self::send(self.w.clone(), to, rpc, frames.clone(), false, limit))).await
        };
        self.w.t(|| format!("answered {:?}", rs.first()));
        for r in &rs {
            match r {
                None => {
                    self.fail("Hang", format!("{rpc:?} to n{to} ({e:?}) wasn't answered within {limit} ms: {ms:02x?}"));
                    break;
                }
                Some(Ok(_)) => self.stat("answered_ok"),
                Some(Err(_)) => self.stat("answered_error"),
            }
        }
        self.stat(match e {
            Effect::Inert => "inert",
            _ => "potent",
        });
        self.stat(&format!("attack_{rpc:?}"));
        if e == Effect::Potent {
            if rpc == Rpc::Write || rpc == Rpc::AddServer || rpc == Rpc::Kern {
                self.ms(1000).await;
            } else {
                self.calm_at = self.w.now() + 60_000;
            }
        }
        if calm {
            self.stat("compared");
            if self.w.now() < t0 + 500 {
                self.ms(500).await;
            }
            let after = self.disks();
            for (k, (b, a)) in before.iter().zip(&after).enumerate() {
                let (n, s) = (k as u32 / self.shards, k as u32 % self.shards);
                if b.0 != a.0 {
                    self.fail("Changed", format!("n{n}/{s}: the ballot was {:?} and is {:?} after {rpc:?} to n{to} of {ms:02x?}", b.0, a.0));
                }
                // The head of the log may be replaced by a snapshot.
                let first = a.1.keys().next().copied().unwrap_or(0);
                let x: Vec<_> = b.1.range(first + 1..).collect();
                let y: Vec<_> = a.1.range(first + 1..).collect();
                if x != y {
                    let d = y.iter().find(|z| !x.contains(z)).map(|z| format!("{z:?}")).unwrap_or("entries missing".into());
                    self.fail("Changed", format!("n{n}/{s}: the log changed after {rpc:?} to n{to} of {ms:02x?}: {d}"));
                }
            }
        }
        self.last = Some((to, rpc, ms, framing));
    }

    /// All entries are committed, as far as one can know from the logs.
    fn settled(&self, s: u32) -> bool {
        self.calm() && (1..3).all(|n| self.last(n, s) == self.last(0, s))
    }

    /// Wait until all writes are done.
    async fn quiesce(&self) {
        let mut last = self.disks();
        let mut since = self.w.now();
        for _ in 0..200 {
            let even = (0..self.shards).all(|s| (1..3).all(|n| self.last(n, s) == self.last(0, s)));
            if even && self.w.now() >= since + 700 {
                break;
            }
            self.ms(100).await;
            let d = self.disks();
            if d != last {
                last = d;
                since = self.w.now();
            }
        }
    }

    /// Everybody serves everything again.
    async fn serve(&mut self, why: &str) {
        for s in 0..self.shards {
            for via in 0..3 {
                let end = self.w.now() + 90_000;
                let mut ok = (false, false);
                while self.w.now() < end && ok != (true, true) {
                    if !ok.0 {
                        ok.0 = self.cl.write(via, s, 0, 5_000, 0).await;
                    } else {
                        ok.1 = self.cl.read(via, s, 5_000, false).await;
                    }
                    if ok != (true, true) {
                        self.ms(100).await;
                    }
                }
                if ok != (true, true) {
                    self.fail("NotServing", format!("{why}: shard {s} via n{via}: write={} read={}", ok.0, ok.1));
                    return;
                }
            }
        }
    }

    /// Wait until there is no reason for an election.
    async fn settle(&mut self) {
        if self.w.now() >= self.calm_at {
            return;
        }
        self.serve("after the attack").await;
        let mut top = vec![];
        let mut since = self.w.now();
        for _ in 0..1000 {
            let t: Vec<u64> = (0..3).flat_map(|n| (0..self.shards).map(move |s| (n, s))).map(|(n, s)| self.ballot(n, s).0).collect();
            if t != top {
                top = t;
                since = self.w.now();
            }
            if self.w.now() > since + 15_000 {
                break;
            }
            self.ms(200).await;
        }
        // everybody knows everything
        self.serve("before the next attack").await;
        self.ms(3000).await;
        self.calm_at = self.w.now();
    }
}

async fn run(c: FCase, trace: bool) -> CaseResult {
    let shards = c.shards.clamp(1, 2) as u32;
    let net = NetProf { lat_lo: 1, lat_hi: 5, drop_req: 0, drop_resp: 0, long: 0, long_ms: 1, cut: 0, hold: false };
    let w = World::new(c.seed, 3, shards, net, c.store.clone(), false, trace);
    w.lock().capture = Some(Default::default());
    let cl = crate::cluster::Ctx::new(&w, 3);
    for i in 0..3 {
        w.start_node(i).await.ok();
    }
    for s in 0..shards {
        let boot = s as usize;
        for k in 0..3 {
            for _ in 0..60 {
                if cl.server_change(true, boot, (boot + k) % 3, s, 5000).await {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(300)).await;
            }
        }
    }
    let mut s = Sim { w: w.clone(), cl: cl.clone(), shards, busy: c.busy, calm_at: 1_000_000, last: None, fresh: 0, stalled: Default::default(), fails: vec![], stats: BTreeMap::new() };
    s.settle().await;
    let mut bg = tokio::task::JoinSet::new();
    if c.busy {
        let (cl, seed) = (cl.clone(), c.seed);
        bg.spawn(async move {
            for k in 0u64.. {
                let x = crate::rng::mix(&[seed, k]);
                cl.write(x as usize % 3, (x >> 8) as u32 % shards, 0, 3000, 0).await;
                cl.read((x >> 16) as usize % 3, (x >> 24) as u32 % shards, 3000, false).await;
                tokio::time::sleep(Duration::from_millis((x >> 32) % 2000)).await;
            }
        });
    }
    for o in &c.ops {
        if !s.fails.is_empty() {
            break;
        }
        w.t(|| format!("-- {o:?}"));
        match o {
            FOp::Attack { to, rpc, msg, framing } => {
                let rpc = RPCS[*rpc as usize % RPCS.len()];
                if !c.busy {
                    s.settle().await;
                }
                let ms = s.build(*to as usize % 3, rpc, msg);
                s.attack(*to as usize % 3, rpc, ms, *framing, 1).await;
            }
            FOp::Flood { n } => {
                if let Some((to, rpc, ms, framing)) = s.last.clone() {
                    // one write is one request
                    if rpc != Rpc::Write {
                        s.stat("floods");
                        s.attack(to, rpc, ms, framing, *n as usize).await;
                    }
                }
            }
            FOp::Client { via, shard, n } => {
                for k in 0..*n {
                    if k % 3 == 2 {
                        cl.read(*via as usize % 3, *shard as u32 % shards, 5000, false).await;
                    } else {
                        cl.write(*via as usize % 3, *shard as u32 % shards, 0, 5000, 0).await;
                    }
                }
            }
            FOp::Weird { shard, id: k, via } => {
                let (name, sh) = (id(*k), *shard as u32 % shards);
                if known(&name).is_some() {
                    continue;
                }
                s.settle().await;
                let mut cli = sorock::client::RaftClient::new(w.client_channel(*via as usize % 3));
                let r = tokio::time::timeout(Duration::from_secs(20), cli.add_server(sorock::client::AddServerRequest { shard_id: sh, server_id: name.clone() })).await;
                w.t(|| format!("added {name:.40}: {:?}", r.as_ref().map(|x| x.is_ok())));
                s.stat(if matches!(r, Ok(Ok(_))) { "weird_added" } else { "weird_refused" });
                if !parses(&name) && matches!(r, Ok(Ok(_))) {
                    s.fail("Accepted", format!("server {name:?} was added"));
                }
                s.serve(&format!("server {name:.40} was added")).await;
                if parses(&name) {
                    let mut ok = false;
                    for _ in 0..10 {
                        let r = tokio::time::timeout(Duration::from_secs(10), cli.remove_server(sorock::client::RemoveServerRequest { shard_id: sh, server_id: name.clone() })).await;
                        if matches!(r, Ok(Ok(_))) {
                            ok = true;
                            break;
                        }
                        s.ms(500).await;
                    }
                    if !ok {
                        s.fail("NotServing", format!("server {name:?} can't be removed again"));
                    }
                }
                s.ms(2000).await;
            }
            FOp::Restart { node, down_ms } => {
                s.stat("restarts");
                w.crash(*node as usize % 3);
                s.ms(*down_ms as u64).await;
                w.restart(*node as usize % 3).await;
                s.calm_at = w.now() + 60_000;
            }
            FOp::Snapshot { node, shard } => {
                make_snapshot(&w, *node as usize % 3, *shard as u32 % shards);
                s.ms(3000).await;
                s.calm_at = s.calm_at.max(w.now() + 60_000);
            }
            FOp::Wait { ms } => s.ms(*ms as u64).await,
        }
    }
    s.stalled.abort_all();
    while s.stalled.join_next().await.is_some() {}
    bg.abort_all();
    while bg.join_next().await.is_some() {}
    if s.fails.is_empty() {
        s.serve("at the end").await;
    }
    if s.fails.is_empty() {
        // what is stored is good
        for i in 0..3 {
            w.crash(i);
        }
        for i in 0..3 {
            w.restart(i).await;
        }
        s.serve("after restarts").await;
        s.ms(5000).await;
        final_checks(&cl, true);
    }
    w.finish_panics();
    let mut out = CaseResult { ..Default::default() };
    {
        let mut st = w.lock();
        let kinds = [K::RestartFailed, K::Livelock, K::BadWriteResp, K::LostWrite, K::BadReadValue, K::StaleRead, K::StateDiverge, K::ApplyDiverge, K::ApplyOrder, K::CommittedLost, K::ChainBroken];
        for v in &st.orc.violations {
            if kinds.contains(&v.kind) {
                s.fails.push(Fail { class: format!("{:?}", v.kind), msg: format!("at {} ms: {}", v.at_ms, v.msg) });
            }
        }
        out.trace = st.trace.take().unwrap_or_default();
        out.digest = crate::rng::mix(&[st.rpcs, s.stats.values().fold(0, |a, b| a.wrapping_mul(31).wrapping_add(*b))]);
    }
    for i in 0..3 {
        w.crash(i);
    }
    sorock::verif_hooks::set_connector(None);
    out.fails = s.fails;
    out.stats = s.stats;
    let q = |k: &str| out.stats.get(k).copied().unwrap_or(0);
    let kinds: BTreeSet<&String> = out.stats.keys().filter(|k| k.starts_with("attack_")).collect();
    out.nontrivial = q("inert") + q("potent") >= 4 && kinds.len() >= 3 && (q("compared") >= 2 || c.busy);
    out
}

pub fn exec(c: &FCase, trace: bool) -> CaseResult {
    let c = c.clone();
    simulate(c.seed, move || run(c, trace)).unwrap_or_else(|| CaseResult { broken: Some("the simulation panicked".into()), ..Default::default() })
}

pub const RULE: &str = "random bytes, mutations and replays of captured messages, structured messages with wrong fields, wrong framing and wrong stream shapes sent to all RPCs of the nodes of a working cluster; messages without meaning must leave ballots and logs of all nodes as they were, and after every message all nodes must serve all shards again; non-trivial when at least four messages of three RPCs were sent, and disks were compared twice (or clients worked at the same time)";
