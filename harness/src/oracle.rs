//! Global history monitor: every durable effect, every consensus RPC and every application event of
//! every simulated node is reported here and checked against the guarantees of the system.

use crate::rng::mix;
use crate::wire::{decode_cmd, Cmd};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    /// two different nodes acted as leader of one term
    TwoLeaders,
    /// one voter granted one term to two candidates
    DoubleVote,
    /// a persisted ballot went back to an older term
    BallotRegress,
    /// a granted vote was not durable when the reply left
    VoteNotPersisted,
    /// two entries with the same (term,index) differ
    LogMismatch,
    /// an entry was stored after an entry that is not its predecessor
    ChainBroken,
    /// entry of a term created by a node that isn't the leader of that term
    ForeignEntry,
    /// a committed entry was removed/replaced on a node that stored it
    CommittedLost,
    /// an entry was treated as committed without a majority storing it
    NotDurable,
    /// a new leader lacks a committed entry
    LeaderIncomplete,
    /// two nodes applied different commands at an index
    ApplyDiverge,
    /// a node's state after index i differs from another node's state after i
    StateDiverge,
    /// a node applied indexes out of order / twice
    ApplyOrder,
    /// one request was executed at two different log positions
    DupExec,
    /// response of a write isn't the result of executing it
    BadWriteResp,
    /// acknowledged write is not part of the final state
    LostWrite,
    /// a write that finished before another started is ordered after it
    WriteRealTime,
    /// a read misses a write completed before it was issued
    StaleRead,
    /// a read returned a state that never existed
    BadReadValue,
    /// membership changed by more than one server at a time
    ConfigJump,
    /// membership change started before the previous one was committed
    ConfigOverlap,
    /// acknowledged membership change isn't durable
    ConfigNotDurable,
    /// a snapshot has content that isn't the state at its index
    SnapshotContent,
    /// log entries removed while no snapshot covers them
    CompactionLoss,
    /// a node couldn't restart from its own storage
    RestartFailed,
    /// no progress after faults ended
    Liveness,
    /// no member of any configuration can be elected: the newest log is held by nodes removed by it
    LivenessRemoved,
    /// replicas don't converge after faults ended
    Convergence,
    /// a background task of the library panicked
    TaskPanic,
    /// infinite loop without time advancing
    Livelock,
    /// a detached process goes on
    DetachLeak,
    /// shard isolation broken
    ShardMix,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub kind: Kind,
    pub at_ms: u64,
    pub msg: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EntryInfo {
    pub term: u64,
    pub index: u64,
    pub prev_term: u64,
    pub prev_index: u64,
    pub cmd_hash: u64,
    pub cmd: Cmd,
}

impl EntryInfo {
    pub fn of(e: &sorock::process::Entry) -> Self {
        EntryInfo {
            term: e.this_clock.term,
            index: e.this_clock.index,
            prev_term: e.prev_clock.term,
            prev_index: e.prev_clock.index,
            cmd_hash: crate::rng::hash_bytes(&e.command),
            cmd: decode_cmd(&e.command),
        }
    }
    pub fn clock(&self) -> (u64, u64) {
        (self.term, self.index)
    }
}

/// State of the simulated application: the list of executed operations.
#[derive(Clone, Debug, PartialEq, Default, serde::Serialize, serde::Deserialize)]
pub struct AppState {
    pub ops: Vec<(u64, u64)>, // (log index, op id)
    pub hash: u64,
}
impl AppState {
    pub fn apply(&mut self, index: u64, op: u64) {
        self.ops.push((index, op));
        // the log index is part of the entry, not of the replicated state
        self.hash = mix(&[self.hash, op]);
    }
    pub fn last_index(&self) -> u64 {
        self.ops.last().map(|x| x.0).unwrap_or(0)
    }
}

#[derive(Default)]
pub struct ShardOracle {
    pub leaders: BTreeMap<u64, (usize, &'static str)>,
    pub votes: HashMap<(usize, u64), String>,
    pub by_clock: HashMap<(u64, u64), (EntryInfo, usize)>,
    /// index -> (clock term, max term when known committed, term of the node that knew it)
    pub committed: BTreeMap<u64, (u64, u64, u64)>,
    pub max_term: u64,
    /// index -> (op, position, hash after)
    pub applied: BTreeMap<u64, (u64, usize, u64)>,
    pub ops: HashMap<u64, u64>, // op -> index of first execution
    pub n_config: usize,
    pub n_snapshot_installs: usize,
    pub n_truncations: usize,
    pub n_conflict: usize,
    pub first_config: Option<u64>,
    pub superseded_reads: usize,
}

pub struct Oracle {
    pub shards: HashMap<u32, ShardOracle>,
    pub violations: Vec<Violation>,
    pub stats: BTreeMap<&'static str, u64>,
}

/// Per node view used by checks that need several nodes' disks.
pub trait Disks {
    fn n(&self) -> usize;
    fn log(&self, node: usize, shard: u32) -> Option<&BTreeMap<u64, sorock::process::Entry>>;
    fn uri(&self, node: usize) -> String;
    /// durable term
    fn term(&self, node: usize, shard: u32) -> u64;
    fn index_of(&self, uri: &str) -> Option<usize>;
}

impl Oracle {
    pub fn new() -> Self {
        Oracle {
            shards: HashMap::new(),
            violations: vec![],
            stats: BTreeMap::new(),
        }
    }
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn fail(&mut self, kind: Kind, at_ms: u64, msg: String) {
        if self.violations.len() < 40 && self.violations.iter().filter(|v| v.kind == kind).count() < 3 {
            self.violations.push(Violation { kind, at_ms, msg });
        }
    }
    fn sh(&mut self, shard: u32) -> &mut ShardOracle {
        self.shards.entry(shard).or_default()
    }

    pub fn leader_claim(&mut self, now: u64, shard: u32, term: u64, node: usize, how: &'static str) {
        if term == 0 {
            return;
        }
        let s = self.sh(shard);
        s.max_term = s.max_term.max(term);
        match s.leaders.get(&term) {
            None => {
                s.leaders.insert(term, (node, how));
            }
            Some(&(n, h)) if n != node => {
                let m = format!("shard {shard} term {term}: n{n} ({h}) and n{node} ({how}) both act as leader");
                self.fail(Kind::TwoLeaders, now, m);
            }
            _ => {}
        }
    }

    pub fn vote_granted(&mut self, now: u64, shard: u32, voter: usize, term: u64, candidate: &str) {
        self.stat("votes_granted");
        let s = self.sh(shard);
        match s.votes.get(&(voter, term)) {
            None => {
                s.votes.insert((voter, term), candidate.to_string());
            }
            Some(c) if c != candidate => {
                let m = format!("shard {shard}: n{voter} voted in term {term} for {c} and for {candidate}");
                self.fail(Kind::DoubleVote, now, m);
            }
            _ => {}
        }
    }

    /// Configs present in a log, ascending.
    pub fn configs(log: &BTreeMap<u64, sorock::process::Entry>) -> Vec<(u64, BTreeSet<String>, bool)> {
        let mut out = vec![];
        for (&i, e) in log {
            // cheap pre-filter on the variant tag
            if e.command.len() >= 4 && (e.command[0] == 1 || e.command[0] == 2) {
                match decode_cmd(&e.command) {
                    Cmd::Config(m) => out.push((i, m, false)),
                    Cmd::Snapshot(m) => out.push((i, m, true)),
                    _ => {}
                }
            }
        }
        out
    }

    pub fn holders(d: &dyn Disks, shard: u32, index: u64, term: u64) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        for n in 0..d.n() {
            if let Some(log) = d.log(n, shard) {
                let mut has = log.get(&index).map(|e| e.this_clock.term == term).unwrap_or(false);
                if !has {
                    // covered by a snapshot at a later index
                    has = log.range(index + 1..).any(|(_, e)| {
                        e.command.len() >= 4 && e.command[0] == 2 && e.this_clock.term >= term
                    });
                }
                if has {
                    out.insert(n);
                }
            }
        }
        out
    }

    fn quorum_ok(d: &dyn Disks, holders: &BTreeSet<usize>, config: &BTreeSet<String>) -> bool {
        let members: BTreeSet<usize> = config.iter().filter_map(|u| d.index_of(u)).collect();
        let cnt = members.iter().filter(|n| holders.contains(n)).count();
        // The removal of the last member needs nobody.
        cnt * 2 > members.len() || config.is_empty()
    }

    /// Node `node` treats all entries up to `index` in its own log as committed.
    pub fn committed_upto(&mut self, now: u64, d: &dyn Disks, shard: u32, node: usize, index: u64, how: &str) {
        let Some(log) = d.log(node, shard) else { return };
        let my_term = d.term(node, shard);
        let s = self.sh(shard);
        let max_term = s.max_term;
        let known = s.committed.keys().next_back().copied().unwrap_or(0);
        // agreement on what was committed
        if index <= known {
            if let (Some(c), Some(e)) = (s.committed.get(&index), log.get(&index)) {
                if c.0 != e.this_clock.term {
                    let m = format!(
                        "shard {shard} index {index}: n{node} ({how}) treats an entry of term {} as committed but term {} was committed",
                        e.this_clock.term, c.0
                    );
                    self.fail(Kind::ApplyDiverge, now, m);
                }
            }
            return;
        }
        let mut newly = vec![];
        for (&i, e) in log.range(known + 1..=index) {
            s.committed.insert(i, (e.this_clock.term, max_term, my_term));
            newly.push((i, e.this_clock.term));
        }
        let Some(&(i, term)) = newly.last() else { return };
        // It suffices to check the last one: a log that holds it holds its predecessors (log matching).
        let holders = Self::holders(d, shard, i, term);
        let cfgs = Self::configs(log);
        let last_before = cfgs.iter().rev().find(|c| c.0 <= i).map(|c| c.0);
        let mut cands: Vec<&BTreeSet<String>> = cfgs
            .iter()
            .filter(|c| Some(c.0) == last_before || c.0 > i)
            .map(|c| &c.1)
            .collect();
        if cands.is_empty() {
            cands = cfgs.iter().map(|c| &c.1).collect();
        }
        if cands.is_empty() {
            return;
        }
        if !cands.iter().any(|c| Self::quorum_ok(d, &holders, c)) {
            let m = format!(
                "shard {shard}: n{node} ({how}) treats index {i} (term {term}) as committed; stored only on {holders:?}, configurations {:?}",
                cands
            );
            self.fail(Kind::NotDurable, now, m);
        }
    }

    /// Called after the entry has been written to the disk of `node`.
    pub fn inserted(
        &mut self,
        now: u64,
        d: &dyn Disks,
        shard: u32,
        node: usize,
        key: u64,
        old: Option<&sorock::process::Entry>,
        e: &sorock::process::Entry,
    ) {
        self.stat("log_inserts");
        let info = EntryInfo::of(e);
        if info.index != key {
            self.fail(Kind::ChainBroken, now, format!("n{node} stored entry {:?} under index {key}", info.clock()));
        }
        let is_snap = matches!(info.cmd, Cmd::Snapshot(_));
        let clock = info.clock();

        // --- same clock => same entry
        let mut fresh = false;
        {
            let s = self.sh(shard);
            match s.by_clock.get(&clock).cloned() {
                None => {
                    fresh = true;
                    s.by_clock.insert(clock, (info.clone(), node));
                }
                Some((g, creator)) => {
                    let g_snap = matches!(g.cmd, Cmd::Snapshot(_));
                    let mut bad = None;
                    if (g.prev_term, g.prev_index) != (info.prev_term, info.prev_index) {
                        bad = Some("different predecessor");
                    } else if !is_snap && !g_snap && g.cmd != info.cmd {
                        bad = Some("different command");
                    } else if is_snap && g_snap && g.cmd != info.cmd {
                        bad = Some("different membership in the snapshot entry");
                    }
                    if g_snap && !is_snap {
                        // remember the original command
                        s.by_clock.insert(clock, (info.clone(), creator));
                    }
                    if let Some(b) = bad {
                        let m = format!("shard {shard} clock {clock:?}: n{node} stores {info:?}, seen before (n{creator}) as {g:?}: {b}");
                        self.fail(Kind::LogMismatch, now, m);
                    }
                }
            }
        }

        if fresh && !is_snap {
            // --- the creator must be the leader of the term
            if let Cmd::Barrier(t) = info.cmd {
                self.stat("leaders_elected");
                if t != info.term {
                    self.fail(Kind::ForeignEntry, now, format!("n{node} stored barrier({t}) with clock {clock:?}"));
                }
                self.leader_claim(now, shard, t, node, "barrier");
                self.check_leader_complete(now, d, shard, node, t);
            } else {
                let s = self.sh(shard);
                if info.term > 0 {
                    match s.leaders.get(&info.term) {
                        Some(&(l, _)) if l != node => {
                            let m = format!("shard {shard}: entry {clock:?} was created on n{node} but the leader of term {} is n{l}", info.term);
                            self.fail(Kind::ForeignEntry, now, m);
                        }
                        _ => {}
                    }
                }
            }
            if let Cmd::Config(_) = info.cmd {
                self.check_config(now, d, shard, node, &info);
            }
        }

        // --- a node that replaces an entry by a snapshot knows the configuration at its index
        if let (Cmd::Snapshot(m), Some(o)) = (&info.cmd, old) {
            if o.this_clock == e.this_clock {
                let log = d.log(node, shard).unwrap();
                let at = match decode_cmd(&o.command) {
                    Cmd::Config(c) | Cmd::Snapshot(c) => Some(c),
                    _ => Self::configs(log).into_iter().rev().find(|c| c.0 < info.index).map(|c| c.1),
                };
                if at.is_some() && at.as_ref() != Some(m) {
                    let m = format!("shard {shard} n{node}: snapshot at index {} has membership {m:?}, the configuration there is {at:?}", info.index);
                    self.fail(Kind::SnapshotContent, now, m);
                }
                self.stat("snapshot_entries");
            }
        }

        // --- local chain
        let log = d.log(node, shard).unwrap();
        if !is_snap {
            match log.get(&(info.index.wrapping_sub(1))) {
                Some(p) if p.this_clock.term != info.prev_term || info.prev_index + 1 != info.index => {
                    let m = format!("shard {shard} n{node}: entry {info:?} stored after an entry of term {}", p.this_clock.term);
                    self.fail(Kind::ChainBroken, now, m);
                }
                None => {
                    let m = format!("shard {shard} n{node}: entry {clock:?} stored with a hole before it");
                    self.fail(Kind::ChainBroken, now, m);
                }
                _ => {}
            }
        }
        if let Some(nx) = log.get(&(info.index + 1)) {
            if nx.prev_clock.term != info.term {
                let m = format!(
                    "shard {shard} n{node}: entry {clock:?} replaced its index but the following entry of term {} (prev term {}) was kept",
                    nx.this_clock.term, nx.prev_clock.term
                );
                self.fail(Kind::ChainBroken, now, m);
            }
        }

        // --- committed entries stay
        if let Some(o) = old {
            if o.this_clock.term != info.term {
                self.stat("conflict_overwrites");
                self.removed(now, d.term(node, shard), shard, node, key, o, "overwritten");
            }
        }
    }

    /// A node that is still in a term before the one that committed the entry isn't part of the
    /// majority which committed it: it may remove its copy.
    #[allow(clippy::too_many_arguments)]
    pub fn removed(&mut self, now: u64, node_term: u64, shard: u32, node: usize, key: u64, o: &sorock::process::Entry, how: &str) {
        let s = self.sh(shard);
        s.n_conflict += 1;
        if let Some(c) = s.committed.get(&key) {
            if c.0 == o.this_clock.term && node_term >= c.2 {
                let m = format!("shard {shard} n{node}: committed entry (term {}, index {key}) {how}", c.0);
                self.fail(Kind::CommittedLost, now, m);
            }
        }
    }

    fn check_leader_complete(&mut self, now: u64, d: &dyn Disks, shard: u32, node: usize, term: u64) {
        let log = d.log(node, shard).unwrap();
        let last_snap = log
            .iter()
            .rev()
            .find(|(_, e)| e.command.len() >= 4 && e.command[0] == 2)
            .map(|x| *x.0)
            .unwrap_or(0);
        let s = self.sh(shard);
        let mut bad = None;
        for (&i, &(ct, known_at, _)) in s.committed.iter() {
            if known_at < term && i > last_snap {
                match log.get(&i) {
                    Some(e) if e.this_clock.term == ct => {}
                    other => {
                        bad = Some((i, ct, other.map(|e| e.this_clock.term)));
                        break;
                    }
                }
            }
        }
        if let Some((i, ct, has)) = bad {
            let m = format!("shard {shard}: n{node} became leader of term {term} without committed entry {i} of term {ct} (has {has:?})");
            self.fail(Kind::LeaderIncomplete, now, m);
        }
    }

    fn check_config(&mut self, now: u64, d: &dyn Disks, shard: u32, node: usize, info: &EntryInfo) {
        let Cmd::Config(new) = &info.cmd else { return };
        self.sh(shard).n_config += 1;
        self.stat("config_changes");
        let log = d.log(node, shard).unwrap();
        let cfgs = Self::configs(log);
        let Some((pi, prev, _)) = cfgs.iter().rev().find(|c| c.0 < info.index) else {
            return;
        };
        let diff = new.symmetric_difference(prev).count();
        if diff > 1 {
            let m = format!("shard {shard} n{node}: membership {prev:?} -> {new:?} at index {}", info.index);
            self.fail(Kind::ConfigJump, now, m);
        }
        // the previous configuration must be committed
        let pterm = log[pi].this_clock.term;
        let holders = Self::holders(d, shard, *pi, pterm);
        if diff > 0 && !Self::quorum_ok(d, &holders, prev) {
            let m = format!(
                "shard {shard} n{node}: membership change at index {} started while the previous one (index {pi}) is only on {holders:?} of {prev:?}",
                info.index
            );
            self.fail(Kind::ConfigOverlap, now, m);
        }
    }

    /// Application executed `op` at `index` on `node`, giving state with `pos` operations and `hash`.
    pub fn applied(&mut self, now: u64, shard: u32, node: usize, index: u64, op: u64, pos: usize, hash: u64) {
        self.stat("applies");
        let s = self.sh(shard);
        match s.applied.get(&index) {
            None => {
                let dup = s.ops.get(&op).copied();
                s.applied.insert(index, (op, pos, hash));
                s.ops.entry(op).or_insert(index);
                // consistency of the sequence itself
                let prev = s.applied.range(..index).next_back().map(|(i, x)| (*i, x.1));
                let next = s.applied.range(index + 1..).next().map(|(i, x)| (*i, x.1));
                let mut bad = None;
                if let Some((i, p)) = prev {
                    if p + 1 != pos {
                        bad = Some(format!("previous execution at {i} has position {p}"));
                    }
                } else if pos != 1 {
                    bad = Some("no previous execution".to_string());
                }
                if let Some((i, p)) = next {
                    bad = Some(format!("executed after index {i} (position {p}) is already known"));
                }
                if let Some(b) = bad {
                    let m = format!("shard {shard} n{node}: op {op} at index {index} executed at position {pos}: {b}");
                    self.fail(Kind::StateDiverge, now, m);
                }
                if let Some(i) = dup {
                    let m = format!("shard {shard} n{node}: op {op} executed at index {index} but it was executed at index {i} before");
                    self.fail(Kind::DupExec, now, m);
                }
            }
            Some(&(o, p, h)) => {
                if o != op {
                    let m = format!("shard {shard} index {index}: n{node} executed op {op}, another node executed op {o}");
                    self.fail(Kind::ApplyDiverge, now, m);
                } else if (p, h) != (pos, hash) {
                    let m = format!("shard {shard} n{node}: state after index {index} has {pos} ops, another node has {p} ops");
                    self.fail(Kind::StateDiverge, now, m);
                }
            }
        }
    }

    /// A state (snapshot / install / read) must be a prefix of the global history.
    pub fn check_state(&mut self, shard: u32, st: &AppState) -> Option<String> {
        let s = self.sh(shard);
        if let Some(&(i, op)) = st.ops.last() {
            match s.applied.get(&i) {
                None => return Some(format!("state contains op {op} at index {i} which was never executed")),
                Some(&(o, p, h)) => {
                    if o != op || p != st.ops.len() || h != st.hash {
                        return Some(format!("state ending at index {i} op {op} with {} ops differs from the executed history (op {o}, {p} ops)", st.ops.len()));
                    }
                }
            }
        }
        None
    }
}
