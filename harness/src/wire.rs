//! Harness-side mirror of the public wire format (sorock.proto) and of the log command encoding.

use bytes::{Buf, BufMut, Bytes, BytesMut};
use prost::Message;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, PartialEq, Message)]
pub struct WriteRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: Bytes,
    #[prost(string, tag = "3")]
    pub request_id: String,
}
#[derive(Clone, PartialEq, Message)]
pub struct ReadRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct Response {
    #[prost(bytes = "bytes", tag = "1")]
    pub message: Bytes,
}
#[derive(Clone, Copy, PartialEq, Message)]
pub struct Clock {
    #[prost(uint64, tag = "1")]
    pub term: u64,
    #[prost(uint64, tag = "2")]
    pub index: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct ReplicationStreamHeader {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(string, tag = "2")]
    pub sender_id: String,
    #[prost(message, optional, tag = "3")]
    pub prev_clock: Option<Clock>,
    #[prost(uint64, tag = "4")]
    pub sender_term: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct ReplicationStreamEntry {
    #[prost(message, optional, tag = "1")]
    pub clock: Option<Clock>,
    #[prost(bytes = "bytes", tag = "2")]
    pub command: Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct ReplicationStreamChunk {
    #[prost(oneof = "Elem", tags = "1, 2")]
    pub elem: Option<Elem>,
}
#[derive(Clone, PartialEq, prost::Oneof)]
pub enum Elem {
    #[prost(message, tag = "1")]
    Header(ReplicationStreamHeader),
    #[prost(message, tag = "2")]
    Entry(ReplicationStreamEntry),
}
#[derive(Clone, PartialEq, Message)]
pub struct ReplicationStreamResponse {
    #[prost(uint64, tag = "1")]
    pub n_inserted: u64,
    #[prost(uint64, tag = "2")]
    pub log_last_index: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct GetSnapshotRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(uint64, tag = "2")]
    pub index: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct SnapshotChunk {
    #[prost(bytes = "bytes", tag = "1")]
    pub data: Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct KernRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct VoteRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(uint64, tag = "2")]
    pub vote_term: u64,
    #[prost(string, tag = "3")]
    pub candidate_id: String,
    #[prost(message, optional, tag = "4")]
    pub candidate_clock: Option<Clock>,
    #[prost(bool, tag = "5")]
    pub force_vote: bool,
    #[prost(bool, tag = "6")]
    pub pre_vote: bool,
}
#[derive(Clone, PartialEq, Message)]
pub struct VoteResponse {
    #[prost(bool, tag = "1")]
    pub vote_granted: bool,
    #[prost(uint64, tag = "2")]
    pub term: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct HeartbeatResponse {
    #[prost(map = "uint32, uint64", tag = "1")]
    pub newer_terms: HashMap<u32, u64>,
}
#[derive(Clone, Copy, PartialEq, Message)]
pub struct LeaderCommitState {
    #[prost(uint64, tag = "1")]
    pub leader_term: u64,
    #[prost(uint64, tag = "2")]
    pub leader_commit_index: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct Heartbeat {
    #[prost(string, tag = "1")]
    pub leader_id: String,
    #[prost(map = "uint32, message", tag = "2")]
    pub leader_commit_states: HashMap<u32, LeaderCommitState>,
}
#[derive(Clone, PartialEq, Message)]
pub struct ServerRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(string, tag = "2")]
    pub server_id: String,
}
#[derive(Clone, PartialEq, Message)]
pub struct TimeoutNow {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
}
#[derive(Clone, PartialEq, Message)]
pub struct Empty {}

pub fn frame_raw(m: &[u8]) -> Bytes {
    let mut b = BytesMut::with_capacity(5 + m.len());
    b.put_u8(0);
    b.put_u32(m.len() as u32);
    b.put_slice(m);
    b.freeze()
}

pub fn frame<M: Message>(m: &M) -> Bytes {
    frame_raw(&m.encode_to_vec())
}

/// Incremental gRPC frame splitter.
#[derive(Default)]
pub struct Splitter {
    buf: BytesMut,
}
impl Splitter {
    pub fn push(&mut self, d: &[u8]) {
        self.buf.put_slice(d);
    }
    pub fn next(&mut self) -> Option<Bytes> {
        if self.buf.len() < 5 {
            return None;
        }
        let n = u32::from_be_bytes([self.buf[1], self.buf[2], self.buf[3], self.buf[4]]) as usize;
        if self.buf.len() < 5 + n {
            return None;
        }
        self.buf.advance(5);
        Some(self.buf.split_to(n).freeze())
    }
}

/// Log commands as they appear in log entries.
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Barrier(u64),
    Config(BTreeSet<String>),
    Snapshot(BTreeSet<String>),
    Exec { message: Vec<u8>, request_id: String },
    Complete { request_id: String },
    Other,
}

#[derive(serde::Serialize, serde::Deserialize)]
enum RawCommand {
    Barrier(u64),
    ClusterConfiguration { membership: Vec<Uri> },
    Snapshot { membership: Vec<Uri> },
    ExecuteRequest {
        #[serde(with = "serde_bytes")]
        message: Vec<u8>,
        request_id: String,
    },
    CompleteRequest { request_id: String },
}

#[derive(serde::Serialize, serde::Deserialize)]
struct Uri(#[serde(with = "http_serde::uri")] http::Uri);

pub fn decode_cmd(b: &[u8]) -> Cmd {
    match bincode::deserialize::<RawCommand>(b) {
        Ok(RawCommand::Barrier(t)) => Cmd::Barrier(t),
        Ok(RawCommand::ClusterConfiguration { membership }) => {
            Cmd::Config(membership.iter().map(|u| u.0.to_string()).collect())
        }
        Ok(RawCommand::Snapshot { membership }) => {
            Cmd::Snapshot(membership.iter().map(|u| u.0.to_string()).collect())
        }
        Ok(RawCommand::ExecuteRequest { message, request_id }) => Cmd::Exec { message, request_id },
        Ok(RawCommand::CompleteRequest { request_id }) => Cmd::Complete { request_id },
        Err(_) => Cmd::Other,
    }
}

pub fn encode_cmd(c: &Cmd) -> Bytes {
    let f = |m: &BTreeSet<String>| m.iter().map(|s| Uri(s.parse().unwrap())).collect::<Vec<_>>();
    let raw = match c {
        Cmd::Barrier(t) => RawCommand::Barrier(*t),
        Cmd::Config(m) => RawCommand::ClusterConfiguration { membership: f(m) },
        Cmd::Snapshot(m) => RawCommand::Snapshot { membership: f(m) },
        Cmd::Exec { message, request_id } => RawCommand::ExecuteRequest {
            message: message.clone(),
            request_id: request_id.clone(),
        },
        Cmd::Complete { request_id } => RawCommand::CompleteRequest { request_id: request_id.clone() },
        Cmd::Other => panic!(),
    };
    bincode::serialize(&raw).unwrap().into()
}
