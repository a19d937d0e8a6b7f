//! The redb stores against a map (C12), also across crashes of the storage device (C13).

use crate::checks::{sec, Sec};
use crate::driver::*;
use crate::rng::{hash_bytes, mix, Rng};
use bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sorock::backends::redb::Backend;
use sorock::process::*;
use std::collections::BTreeMap;
use std::io;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- the device

#[derive(Clone, Debug)]
enum Pend {
    Write(u64, Vec<u8>),
    Len(u64),
    Barrier,
}
#[derive(Debug, Default)]
struct DevState {
    synced: Vec<u8>,
    cur: Vec<u8>,
    pending: Vec<Pend>,
    fuse: Option<u64>,
    dead: bool,
    gate: bool,
    at_gate: bool,
    syncs: u64,
}
#[derive(Debug, Clone, Default)]
struct Device(Arc<(Mutex<DevState>, Condvar)>);

fn dead() -> io::Error {
    io::Error::other("the device is gone")
}

impl Device {
    fn with_image(img: Vec<u8>) -> Device {
        let d = Device::default();
        {
            let mut g = d.st();
            g.synced = img.clone();
            g.cur = img;
        }
        d
    }
    fn st(&self) -> std::sync::MutexGuard<'_, DevState> {
        self.0 .0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn burn(g: &mut DevState) -> io::Result<()> {
        if g.dead {
            return Err(dead());
        }
        if let Some(f) = g.fuse {
            if f == 0 {
                g.dead = true;
                return Err(dead());
            }
            g.fuse = Some(f - 1);
        }
        Ok(())
    }
    fn set_gate(&self, on: bool) {
        let mut g = self.st();
        g.gate = on;
        self.0 .1.notify_all();
    }
    fn kill(&self) {
        let mut g = self.st();
        g.dead = true;
        g.gate = false;
        self.0 .1.notify_all();
    }
    /// What the device holds after losing some of the writes that weren't synced.
    fn image(&self, seed: u64) -> (Vec<u8>, usize) {
        let g = self.st();
        let mut img = g.synced.clone();
        let epochs: Vec<&[Pend]> = g.pending.split(|x| matches!(x, Pend::Barrier)).collect();
        let mut r = Rng::new(seed);
        let whole = r.below(epochs.len() as u64) as usize;
        let mode = r.below(4);
        let mut lost = 0;
        for (k, e) in epochs.iter().enumerate() {
            let cut = r.below(e.len() as u64 + 1) as usize;
            for (j, p) in e.iter().enumerate() {
                // redb relies on the length of the file not going back
                let keep = matches!(p, Pend::Len(_))
                    || k < whole
                    || k == whole
                        && match mode {
                            0 => false,
                            1 => j < cut,
                            _ => r.below(2) == 0,
                        };
                if !keep {
                    lost += 1;
                    continue;
                }
                match p {
                    Pend::Write(off, b) => {
                        let end = *off as usize + b.len();
                        if img.len() < end {
                            img.resize(end, 0);
                        }
                        img[*off as usize..end].copy_from_slice(b);
                    }
                    Pend::Len(n) => img.resize(*n as usize, 0),
                    Pend::Barrier => {}
                }
            }
        }
        (img, lost)
    }
}

impl redb::StorageBackend for Device {
    fn len(&self) -> io::Result<u64> {
        let g = self.st();
        if g.dead {
            return Err(dead());
        }
        Ok(g.cur.len() as u64)
    }
    fn read(&self, offset: u64, len: usize) -> io::Result<Vec<u8>> {
        let g = self.st();
        if g.dead {
            return Err(dead());
        }
        let o = offset as usize;
        if o + len > g.cur.len() {
            return Err(io::Error::other("read behind the end"));
        }
        Ok(g.cur[o..o + len].to_vec())
    }
    fn set_len(&self, len: u64) -> io::Result<()> {
        let mut g = self.st();
        Self::burn(&mut g)?;
        g.cur.resize(len as usize, 0);
        g.pending.push(Pend::Len(len));
        Ok(())
    }
    fn sync_data(&self, eventual: bool) -> io::Result<()> {
        let mut g = self.st();
        while g.gate && !g.dead {
            g.at_gate = true;
            g = self.0 .1.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.at_gate = false;
        Self::burn(&mut g)?;
        g.syncs += 1;
        if eventual {
            g.pending.push(Pend::Barrier);
        } else {
            let p = std::mem::take(&mut g.pending);
            for p in p {
                match p {
                    Pend::Write(off, b) => {
                        let end = off as usize + b.len();
                        if g.synced.len() < end {
                            g.synced.resize(end, 0);
                        }
                        g.synced[off as usize..end].copy_from_slice(&b);
                    }
                    Pend::Len(n) => g.synced.resize(n as usize, 0),
                    Pend::Barrier => {}
                }
            }
        }
        Ok(())
    }
    fn write(&self, offset: u64, data: &[u8]) -> io::Result<()> {
        let mut g = self.st();
        Self::burn(&mut g)?;
        let end = offset as usize + data.len();
        if g.cur.len() < end {
            g.cur.resize(end, 0);
        }
        g.cur[offset as usize..end].copy_from_slice(data);
        g.pending.push(Pend::Write(offset, data.to_vec()));
        Ok(())
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Idx {
    Abs(u64),
    /// relative to the last entry
    Last(i8),
    /// relative to the first entry
    Head(i8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Q {
    Ins { s: u8, i: Idx, term: u64, prev: u64, len: u32, fill: u8 },
    DelFrom { s: u8, i: Idx },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    Q(Q),
    DelBefore { s: u8, i: Idx },
    Ballot { s: u8, term: u64, vote: Option<u8> },
    /// another pair of handles of the shard replaces the current one
    Handle { s: u8 },
    Reopen,
    /// operations issued before the first of them is durable
    Group { qs: Vec<Q>, before: Option<(u8, Idx)>, ballot: Option<(u8, u64)>, die: bool },
    /// the device is lost after so many of its operations
    Fuse { n: u16 },
    /// the device is lost between operations
    Die,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StoreCase {
    pub seed: u64,
    pub shards: Vec<u32>,
    pub ops: Vec<SOp>,
}

fn idx() -> BoxedStrategy<Idx> {
    prop_oneof![
        6 => Just(Idx::Last(1)),
        4 => (-4i8..4).prop_map(Idx::Last),
        3 => (-2i8..5).prop_map(Idx::Head),
        3 => (1u64..24).prop_map(Idx::Abs),
        1 => prop_oneof![Just(u64::MAX), Just(u64::MAX - 1), Just(1u64 << 32), Just((1 << 32) - 1), Just(256), any::<u64>()].prop_map(Idx::Abs),
    ]
    .boxed()
}
fn term() -> BoxedStrategy<u64> {
    prop_oneof![8 => 0u64..9, 1 => Just(u64::MAX), 1 => any::<u64>()].boxed()
}
fn q(ns: u8) -> BoxedStrategy<Q> {
    let len = prop_oneof![2 => Just(0u32), 12 => 1u32..80, 3 => 80u32..6000, 1 => 6000u32..90_000];
    prop_oneof![
        7 => (0..ns, idx(), term(), term(), len, any::<u8>()).prop_map(|(s, i, term, prev, len, fill)| Q::Ins { s, i, term, prev, len, fill }),
        2 => (0..ns, idx()).prop_map(|(s, i)| Q::DelFrom { s, i }),
    ]
    .boxed()
}
fn case(crash: bool, one: bool) -> BoxedStrategy<StoreCase> {
    let id = prop_oneof![Just(0u32), Just(1), Just(10), Just(11), Just(100), Just(u32::MAX), Just(u32::MAX - 1), any::<u32>()];
    let n = if one { 1..2usize } else { 1..5usize };
    (any::<u64>().no_shrink(), prop::collection::btree_set(id, n))
        .prop_flat_map(move |(seed, ids)| {
            let ns = ids.len() as u8;
            let mut v: Vec<(u32, BoxedStrategy<SOp>)> = vec![
                (20, q(ns).prop_map(SOp::Q).boxed()),
                (3, (0..ns, idx()).prop_map(|(s, i)| SOp::DelBefore { s, i }).boxed()),
                (4, (0..ns, term(), prop::option::of(0u8..4)).prop_map(|(s, term, vote)| SOp::Ballot { s, term, vote }).boxed()),
                (1, (0..ns).prop_map(|s| SOp::Handle { s }).boxed()),
            ];
            if !one {
                v.push((1, Just(SOp::Reopen).boxed()));
                v.push((
                    4,
                    (prop::collection::vec(q(ns), 2..9), prop::option::of((0..ns, idx())), prop::option::of((0..ns, term())), any::<bool>())
                        .prop_map(move |(qs, before, ballot, die)| SOp::Group { qs, before, ballot, die: die && crash })
                        .boxed(),
                ));
            }
            if crash {
                v.push((3, prop_oneof![0u16..8, 0u16..60].prop_map(|n| SOp::Fuse { n }).boxed()));
                v.push((1, Just(SOp::Die).boxed()));
            }
            (Just(seed), Just(ids.into_iter().collect::<Vec<_>>()), prop::collection::vec(proptest::strategy::Union::new_weighted(v), 4..50))
        })
        .prop_map(|(seed, shards, ops)| StoreCase { seed, shards, ops })
        .boxed()
}

// ---------------------------------------------------------------- execution

type Map = BTreeMap<u64, (Clock, Clock, Bytes)>;
#[derive(Clone, Default, PartialEq)]
struct Model {
    log: Map,
    ballot: (u64, Option<String>),
}
fn show(m: &Map) -> String {
    let v: Vec<String> = m.iter().map(|(i, e)| format!("{i}:(term {} after term {}, {} bytes #{:x})", e.1.term, e.0.term, e.2.len(), hash_bytes(&e.2) as u16)).collect();
    format!("[{}]", v.join(", "))
}

#[derive(Clone)]
struct Handles {
    log: Arc<dyn RaftLogStore>,
    ballot: Arc<dyn RaftBallotStore>,
}

struct Run {
    trace: Vec<String>,
    fails: Vec<Fail>,
    broken: Option<String>,
    stats: BTreeMap<String, u64>,
    nontrivial: bool,
    seen: Vec<std::collections::BTreeSet<u64>>,
}
impl Run {
    fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.into()).or_insert(0) += n;
    }
    fn fail(&mut self, class: &str, msg: String) {
        self.trace.push(format!("VIOLATED {class}: {msg}"));
        self.fails.push(Fail { class: class.into(), msg });
    }
}

fn resolve(m: &Map, i: Idx) -> u64 {
    let head = m.keys().next().copied().unwrap_or(0);
    let last = m.keys().next_back().copied().unwrap_or(0);
    let r = match i {
        Idx::Abs(x) => x,
        Idx::Last(d) => (last as i128 + d as i128).clamp(0, u64::MAX as i128) as u64,
        Idx::Head(d) => (head as i128 + d as i128).clamp(0, u64::MAX as i128) as u64,
    };
    r.max(1)
}
fn entry(i: u64, term: u64, prev: u64, len: u32, fill: u8, salt: u64) -> Entry {
    let mut r = Rng::new(mix(&[salt, fill as u64, i, term]));
    let mut b = vec![0u8; len as usize];
    for c in b.chunks_mut(8) {
        let x = r.next().to_le_bytes();
        c.copy_from_slice(&x[..c.len()]);
    }
    Entry { prev_clock: Clock { term: prev, index: i - 1 }, this_clock: Clock { term, index: i }, command: b.into() }
}
#[derive(Clone)]
enum Done {
    Ins(u64, Entry),
    From(u64),
    Before(u64),
    Ballot(u64, Option<String>),
}
fn apply(m: &mut Model, d: &Done) {
    match d {
        Done::Ins(i, e) => {
            m.log.insert(*i, (e.prev_clock, e.this_clock, e.command.clone()));
        }
        Done::From(i) => {
            m.log.split_off(i);
        }
        Done::Before(i) => m.log = m.log.split_off(i),
        Done::Ballot(t, v) => m.ballot = (*t, v.clone()),
    }
}
fn what(d: &Done) -> String {
    match d {
        Done::Ins(i, e) => format!("insert {i} term {} ({} bytes)", e.this_clock.term, e.command.len()),
        Done::From(i) => format!("delete from {i}"),
        Done::Before(i) => format!("delete before {i}"),
        Done::Ballot(t, v) => format!("save ballot {t} {v:?}"),
    }
}
/// redb panics when it is used after its device failed.
async fn issue(h: Handles, d: Done) -> anyhow::Result<()> {
    use futures::FutureExt;
    match std::panic::AssertUnwindSafe(issue0(h, d)).catch_unwind().await {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            Err(anyhow::anyhow!("panic: {m}"))
        }
    }
}
async fn issue0(h: Handles, d: Done) -> anyhow::Result<()> {
    match d {
        Done::Ins(i, e) => h.log.insert_entry(i, e).await,
        Done::From(i) => h.log.delete_entries_from(i).await,
        Done::Before(i) => h.log.delete_entries_before(i).await,
        Done::Ballot(t, v) => h.ballot.save_ballot(Ballot { cur_term: t, voted_for: v.map(|s| s.parse().unwrap()) }).await,
    }
}
fn vote_uri(v: u8) -> String {
    ["http://127.0.0.1:50001/", "http://n2.example.org:1/", "https://[::1]:65535/", "http://localhost/"][v as usize % 4].into()
}

/// The stores hold exactly what the model says.
async fn same(h: &Handles, m: &Model, keys: &std::collections::BTreeSet<u64>, what_for: &str) -> Result<(), String> {
    let head = h.log.get_head_index().await.map_err(|e| format!("{what_for}: get_head_index: {e:#}"))?;
    let last = h.log.get_last_index().await.map_err(|e| format!("{what_for}: get_last_index: {e:#}"))?;
    let want = (m.log.keys().next().copied().unwrap_or(0), m.log.keys().next_back().copied().unwrap_or(0));
    if (head, last) != want {
        return Err(format!("{what_for}: first and last index are {head} and {last} instead of {} and {}", want.0, want.1));
    }
    for k in keys {
        for i in [k.saturating_sub(1), *k, k.saturating_add(1)] {
            let got = h.log.get_entry(i).await.map_err(|e| format!("{what_for}: get_entry({i}): {e:#}"))?;
            let want = m.log.get(&i);
            match (&got, want) {
                (None, None) => {}
                (Some(g), Some(w)) if g.prev_clock == w.0 && g.this_clock == w.1 && g.command == w.2 => {}
                _ => {
                    let g = got.as_ref().map(|g| format!("{:?} after {:?}, {} bytes", g.this_clock, g.prev_clock, g.command.len()));
                    let w = want.map(|w| format!("{:?} after {:?}, {} bytes", w.1, w.0, w.2.len()));
                    return Err(format!("{what_for}: entry {i} is {g:?} instead of {w:?}"));
                }
            }
        }
    }
    let b = h.ballot.load_ballot().await.map_err(|e| format!("{what_for}: load_ballot: {e:#}"))?;
    let got = (b.cur_term, b.voted_for.map(|x| x.to_string()));
    if got != m.ballot {
        return Err(format!("{what_for}: the ballot is {got:?} instead of {:?}", m.ballot));
    }
    Ok(())
}

fn handles(b: &Backend, s: u32) -> anyhow::Result<Handles> {
    let (l, v) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.get(s))).unwrap_or_else(|_| Err(anyhow::anyhow!("panic")))?;
    Ok(Handles { log: Arc::new(l), ballot: Arc::new(v) })
}
fn open(dev: &Device, shards: &[u32]) -> anyhow::Result<(Backend, Vec<Handles>)> {
    let mut bl = redb::Builder::new();
    bl.set_cache_size(8 << 20);
    let b = Backend::new(bl.create_with_backend(dev.clone())?);
    let h = shards.iter().map(|s| handles(&b, *s)).collect::<anyhow::Result<Vec<_>>>()?;
    Ok((b, h))
}

async fn run(c: &StoreCase, out: &mut Run) -> anyhow::Result<()> {
    let mut dev = Device::default();
    let mut models: Vec<Model> = c.shards.iter().map(|_| Model::default()).collect();
    out.seen = c.shards.iter().map(|_| [1u64].into_iter().collect()).collect();
    let (mut be, mut hs) = open(&dev, &c.shards)?;
    let ns = c.shards.len();
    let mut salt = c.seed;
    let mut overwritten = 0u64;
    for (k, op) in c.ops.iter().enumerate() {
        salt = mix(&[salt, k as u64]);
        out.trace.push(format!("#{k} {op:?}"));
        // operations in flight when the device was lost, per shard: queued ones in order and others
        let mut flight: Option<Vec<(usize, Done)>> = None;
        let mut single: Option<(usize, Done)> = None;
        let prep = |models: &Vec<Model>, q: &Q, j: u64| -> (usize, Done) {
            match q {
                Q::Ins { s, i, term, prev, len, fill } => {
                    let s = *s as usize % ns;
                    let i = resolve(&models[s].log, *i);
                    (s, Done::Ins(i, entry(i, *term, *prev, *len, *fill, mix(&[salt, j]))))
                }
                Q::DelFrom { s, i } => {
                    let s = *s as usize % ns;
                    (s, Done::From(resolve(&models[s].log, *i)))
                }
            }
        };
        match op {
            SOp::Q(q) => single = Some(prep(&models, q, 0)),
            SOp::DelBefore { s, i } => {
                let s = *s as usize % ns;
                single = Some((s, Done::Before(resolve(&models[s].log, *i))));
            }
            SOp::Ballot { s, term, vote } => single = Some((*s as usize % ns, Done::Ballot(*term, vote.map(vote_uri)))),
            SOp::Handle { s } => {
                let s = *s as usize % ns;
                match handles(&be, c.shards[s]) {
                    Ok(h) => hs[s] = h,
                    Err(e) if dev.st().dead => {
                        out.trace.push(format!("opening failed on the dead device: {e:#}"));
                        flight = Some(vec![]);
                    }
                    Err(e) => {
                        out.fail("StoreError", format!("stores of shard {} can't be opened: {e:#}", c.shards[s]));
                        return Ok(());
                    }
                }
            }
            SOp::Reopen => {
                drop(hs);
                drop(be);
                // The thread of the backend lets go of the database.
                let t = Instant::now();
                while Arc::strong_count(&dev.0) > 1 {
                    if t.elapsed() > Duration::from_secs(60) {
                        out.fail("NotReleased", "the database isn't closed after the backend and its stores were dropped".into());
                        return Ok(());
                    }
                    std::thread::sleep(Duration::from_micros(50));
                }
                out.stat("reopened", 1);
                let dead = dev.st().dead;
                if dead {
                    flight = Some(vec![]);
                    // opened below from what the device kept
                    let d2 = Device::default();
                    let (b, h) = open(&d2, &c.shards)?;
                    be = b;
                    hs = h;
                } else {
                    let fuse = dev.st().fuse.take();
                    let img = dev.st().cur.clone();
                    dev = Device::with_image(img);
                    match open(&dev, &c.shards) {
                        Ok((b, h)) => {
                            be = b;
                            hs = h;
                        }
                        Err(e) => {
                            out.fail("StoreError", format!("the database can't be opened again: {e:#}"));
                            return Ok(());
                        }
                    }
                    dev.st().fuse = fuse;
                }
            }
            SOp::Fuse { n } => {
                dev.st().fuse = Some(*n as u64);
                continue;
            }
            SOp::Die => flight = Some(vec![]),
            SOp::Group { qs, before, ballot, die } => {
                let mut todo: Vec<(usize, Done)> = vec![];
                // indices are resolved against what the group has done so far
                let mut ms = models.clone();
                for (j, q) in qs.iter().enumerate() {
                    let (s, d) = prep(&ms, q, j as u64 + 1);
                    apply(&mut ms[s], &d);
                    todo.push((s, d));
                }
                let nq = todo.len();
                if let Some((s, i)) = before {
                    // deletions of a prefix race only with operations they commute with
                    let s = *s as usize % ns;
                    let mut i = resolve(&models[s].log, *i);
                    for (s2, d) in &todo {
                        if let (true, Done::Ins(j, _)) = (s == *s2, d) {
                            i = i.min(*j);
                        }
                    }
                    todo.push((s, Done::Before(i)));
                }
                if let Some((s, t)) = ballot {
                    todo.push((*s as usize % ns, Done::Ballot(*t, Some(vote_uri((*t % 4) as u8)))));
                }
                dev.set_gate(true);
                let mut tasks: Vec<Option<tokio::task::JoinHandle<anyhow::Result<()>>>> = vec![];
                let t0 = Instant::now();
                let mut res: Vec<Option<bool>> = vec![None; todo.len()];
                for (j, (s, d)) in todo.iter().enumerate() {
                    let h = hs[*s].clone();
                    let d = d.clone();
                    let fut = issue(h, d);
                    tasks.push(Some(if j < nq {
                        tokio::spawn(fut)
                    } else {
                        let rt = tokio::runtime::Handle::current();
                        tokio::task::spawn_blocking(move || rt.block_on(fut))
                    }));
                    tokio::task::yield_now().await;
                    if j == 0 {
                        loop {
                            tokio::task::yield_now().await;
                            if dev.st().at_gate || dev.st().dead || tasks[0].as_ref().unwrap().is_finished() {
                                break;
                            }
                            if t0.elapsed() > Duration::from_secs(60) {
                                dev.kill();
                                anyhow::bail!("the first operation of a group made no progress for 60 s");
                            }
                            std::thread::sleep(Duration::from_micros(20));
                        }
                    }
                }
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                out.stat("groups", 1);
                // Whatever is acknowledged although nothing is durable yet must be visible and stay.
                let mut acked = vec![];
                for (j, t) in tasks.iter_mut().enumerate() {
                    if t.as_ref().unwrap().is_finished() {
                        let r = t.take().unwrap().await;
                        res[j] = Some(matches!(r, Ok(Ok(()))));
                        if res[j] == Some(true) {
                            acked.push(j);
                        }
                    }
                }
                for &j in &acked {
                    if let (s, Done::Ins(i, e)) = &todo[j] {
                        if todo[..nq].iter().enumerate().any(|(j2, (s2, d))| j2 != j && s2 == s && !matches!(d, Done::Ins(i2, _) if i2 != i)) {
                            continue;
                        }
                        match hs[*s].log.get_entry(*i).await {
                            Ok(Some(x)) if x.this_clock == e.this_clock && x.command == e.command => {}
                            Ok(_) => {
                                out.fail("NotVisible", format!("shard {}: insertion of entry {i} returned but a read doesn't see it", c.shards[*s]));
                            }
                            Err(_) => {}
                        }
                    }
                }
                if *die {
                    dev.kill();
                } else {
                    dev.set_gate(false);
                }
                for (j, t) in tasks.iter_mut().enumerate() {
                    if let Some(t) = t.take() {
                        match tokio::time::timeout(Duration::from_secs(60), t).await {
                            Ok(r) => res[j] = Some(matches!(r, Ok(Ok(())))),
                            Err(_) => anyhow::bail!("an operation made no progress for 60 s"),
                        }
                    }
                }
                let failed = res.iter().any(|x| *x != Some(true));
                if failed && !dev.st().dead {
                    out.fail("StoreError", format!("an operation failed on a working device: {:?}", res));
                    return Ok(());
                }
                if failed || dev.st().dead {
                    // acknowledged ones happened, of the others a prefix
                    let mut fl = vec![];
                    for (j, x) in todo.iter().enumerate() {
                        if res[j] == Some(true) {
                            if fl.iter().any(|(s2, _): &(usize, Done)| *s2 == x.0) && j < nq {
                                // An earlier one of the shard is in flight: it happened before this.
                                let mut rest = vec![];
                                for (s2, d) in fl.drain(..) {
                                    if s2 == x.0 && matches!(d, Done::Ins(..) | Done::From(..)) {
                                        apply(&mut models[s2], &d);
                                    } else {
                                        rest.push((s2, d));
                                    }
                                }
                                fl = rest;
                            }
                            apply(&mut models[x.0], &x.1);
                        } else {
                            fl.push(x.clone());
                        }
                    }
                    flight = Some(fl);
                } else {
                    for (s, d) in &todo {
                        apply(&mut models[*s], d);
                    }
                }
                for (s, d) in &todo {
                    if let Done::Ins(i, _) | Done::From(i) | Done::Before(i) = d {
                        out.seen[*s].insert(*i);
                    }
                }
                out.stat("operations", todo.len() as u64);
            }
        }
        if let Some((s, d)) = single {
            if let Done::Ins(i, _) | Done::From(i) | Done::Before(i) = &d {
                out.seen[s].insert(*i);
            }
            out.trace.push(format!("   shard {}: {}", c.shards[s], what(&d)));
            let n0 = models[s].log.len();
            let r = match tokio::time::timeout(Duration::from_secs(60), issue(hs[s].clone(), d.clone())).await {
                Ok(r) => r,
                Err(_) => anyhow::bail!("an operation made no progress for 60 s"),
            };
            out.stat("operations", 1);
            match r {
                Ok(()) => {
                    apply(&mut models[s], &d);
                    if !matches!(d, Done::Ballot(..)) && models[s].log.len() <= n0 && n0 > 0 {
                        overwritten += 1;
                    }
                }
                Err(e) => {
                    if dev.st().dead {
                        flight = Some(vec![(s, d)]);
                    } else {
                        out.fail("StoreError", format!("shard {}: {} failed on a working device: {e:#}", c.shards[s], what(&d)));
                        return Ok(());
                    }
                }
            }
        }
        if dev.st().dead && flight.is_none() {
            flight = Some(vec![]);
        }
        if let Some(fl) = flight {
            // crash: what wasn't synced may be lost
            dev.kill();
            let (img, lost) = dev.image(mix(&[salt, 77]));
            out.stat("device_crashes", 1);
            out.stat("lost_device_writes", lost as u64);
            out.stat("in_flight", fl.len() as u64);
            drop(hs);
            drop(be);
            dev = Device::with_image(img);
            match open(&dev, &c.shards) {
                Ok((b, h)) => {
                    be = b;
                    hs = h;
                }
                Err(e) => {
                    out.fail("Unopenable", format!("the database can't be opened after a crash of the device: {e:#}"));
                    return Ok(());
                }
            }
            for s in 0..ns {
                // candidates: prefix of the queued ones, any of the others
                let mine: Vec<&Done> = fl.iter().filter(|x| x.0 == s).map(|x| &x.1).collect();
                let (qd, others): (Vec<&Done>, Vec<&Done>) = mine.into_iter().partition(|d| matches!(d, Done::Ins(..) | Done::From(..)));
                let mut cands = vec![];
                for p in 0..=qd.len() {
                    for mask in 0..(1u32 << others.len()) {
                        let mut m = models[s].clone();
                        for d in &qd[..p] {
                            apply(&mut m, d);
                        }
                        for (b, d) in others.iter().enumerate() {
                            if mask & (1 << b) != 0 {
                                apply(&mut m, d);
                            }
                        }
                        cands.push(m);
                    }
                }
                let mut err = String::new();
                let mut hit = None;
                for m in cands {
                    match same(&hs[s], &m, &out.seen[s], "after the crash").await {
                        Ok(()) => {
                            hit = Some(m);
                            break;
                        }
                        Err(e) => {
                            if err.is_empty() {
                                err = e;
                            }
                        }
                    }
                }
                match hit {
                    Some(m) => models[s] = m,
                    None => {
                        let f: Vec<String> = fl.iter().filter(|x| x.0 == s).map(|x| what(&x.1)).collect();
                        out.fail("LostAfterCrash", format!("shard {}: {err}; acknowledged log {}, in flight {f:?}", c.shards[s], show(&models[s].log)));
                        return Ok(());
                    }
                }
            }
            if lost > 0 {
                out.nontrivial = true;
            }
        } else {
            for s in 0..ns {
                if let Err(e) = same(&hs[s], &models[s], &out.seen[s], &format!("shard {} after #{k}", c.shards[s])).await {
                    if dev.st().dead {
                        break;
                    }
                    out.fail("NotTheMap", e);
                    return Ok(());
                }
            }
        }
    }
    out.stat("entries", models.iter().map(|m| m.log.len() as u64).sum());
    if !c.ops.iter().any(|x| matches!(x, SOp::Fuse { .. } | SOp::Die | SOp::Group { die: true, .. })) {
        out.nontrivial = overwritten >= 1 && models.iter().any(|m| m.log.len() >= 2);
    }
    Ok(())
}

fn result(c: &impl Serialize, out: Run, tr: bool) -> CaseResult {
    let js = serde_json::to_string(c).unwrap_or_default();
    CaseResult {
        digest: hash_bytes(js.as_bytes()),
        nontrivial: out.nontrivial,
        stats: out.stats,
        trace: if tr { out.trace } else { vec![] },
        fails: out.fails,
        broken: out.broken,
        other: vec![],
    }
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}
fn new_run() -> Run {
    Run { trace: vec![], fails: vec![], broken: None, stats: BTreeMap::new(), nontrivial: false, seen: vec![] }
}

fn exec(c: &StoreCase, tr: bool) -> CaseResult {
    let mut out = new_run();
    let c2 = c.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let rt = rt();
        let r = rt.block_on(run(&c2, &mut out));
        rt.shutdown_timeout(Duration::from_secs(5));
        r
    }));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => out.broken = Some(format!("{e:#}")),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            out.fail("Panic", format!("an operation of the stores panicked: {m}"));
        }
    }
    result(c, out, tr)
}

/// Real threads, each with a shard of its own, share a backend.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ThreadCase {
    pub cases: Vec<StoreCase>,
}
fn exec_threads(c: &ThreadCase, tr: bool) -> CaseResult {
    let mut out = new_run();
    let dev = Device::default();
    let ids: Vec<u32> = (0..c.cases.len() as u32).map(|i| [1, 10, 2, 100][i as usize % 4]).collect();
    let (be, hs) = match open(&dev, &ids) {
        Ok(x) => x,
        Err(e) => {
            out.fail("StoreError", format!("{e:#}"));
            return result(c, out, tr);
        }
    };
    let rs: Vec<_> = std::thread::scope(|sc| {
        let js: Vec<_> = c
            .cases
            .iter()
            .zip(hs)
            .zip(&ids)
            .map(|((c, h), id)| {
                let id = *id;
                sc.spawn(move || {
                    rt().block_on(async {
                        let mut m = Model::default();
                        let mut keys = [1u64].into_iter().collect::<std::collections::BTreeSet<_>>();
                        let mut over = 0;
                        for (k, op) in c.ops.iter().enumerate() {
                            let d = match op {
                                SOp::Q(Q::Ins { i, term, prev, len, fill, .. }) => {
                                    let i = resolve(&m.log, *i);
                                    Done::Ins(i, entry(i, *term, *prev, *len, *fill, mix(&[c.seed, k as u64])))
                                }
                                SOp::Q(Q::DelFrom { i, .. }) => Done::From(resolve(&m.log, *i)),
                                SOp::DelBefore { i, .. } => Done::Before(resolve(&m.log, *i)),
                                SOp::Ballot { term, vote, .. } => Done::Ballot(*term, vote.map(vote_uri)),
                                _ => continue,
                            };
                            if let Done::Ins(i, _) | Done::From(i) | Done::Before(i) = &d {
                                keys.insert(*i);
                            }
                            let n0 = m.log.len();
                            if let Err(e) = issue(h.clone(), d.clone()).await {
                                return Err(("StoreError", format!("shard {id}: {}: {e:#}", what(&d))));
                            }
                            apply(&mut m, &d);
                            if m.log.len() <= n0 && n0 > 0 {
                                over += 1;
                            }
                            same(&h, &m, &keys, &format!("shard {id} after #{k} {}", what(&d))).await.map_err(|e| ("NotTheMap", e))?;
                        }
                        Ok((c.ops.len() as u64, over))
                    })
                })
            })
            .collect();
        js.into_iter().map(|j| j.join()).collect()
    });
    drop(be);
    let mut over = 0;
    for r in rs {
        match r {
            Ok(Ok((n, o))) => {
                out.stat("operations", n);
                over += o;
            }
            Ok(Err((k, m))) => out.fail(k, m),
            Err(_) => out.fail("Panic", "an operation of the stores panicked".into()),
        }
    }
    out.nontrivial = over >= 1;
    result(c, out, tr)
}

/// A database file, closed and opened again by the same process.
fn exec_file(c: &StoreCase, tr: bool) -> CaseResult {
    let mut out = new_run();
    let dir = std::env::temp_dir().join(format!("vp-store-{}-{:x}", std::process::id(), hash_bytes(format!("{c:?}{:?}", std::thread::current().id()).as_bytes())));
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join("db");
    let r = rt().block_on(async {
        let mut models: Vec<Model> = c.shards.iter().map(|_| Model::default()).collect();
        let mut keys: Vec<std::collections::BTreeSet<u64>> = c.shards.iter().map(|_| [1u64].into_iter().collect()).collect();
        let ns = c.shards.len();
        let mut opens = 0;
        for (r, part) in c.ops.chunks(c.ops.len() / 3 + 1).enumerate() {
            let t = Instant::now();
            let db = loop {
                match redb::Database::create(&path) {
                    Ok(db) => break db,
                    Err(redb::DatabaseError::DatabaseAlreadyOpen) => {
                        if t.elapsed() > Duration::from_secs(60) {
                            return Err(("NotReleased", "the database is still open after its backend and stores were dropped".to_string()));
                        }
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    Err(e) => return Err(("Unopenable", format!("{e}"))),
                }
            };
            opens += 1;
            let be = Backend::new(db);
            let mut hs = vec![];
            for s in &c.shards {
                hs.push(handles(&be, *s).map_err(|e| ("StoreError", format!("{e:#}")))?);
            }
            for s in 0..ns {
                same(&hs[s], &models[s], &keys[s], &format!("shard {} after opening {r}", c.shards[s])).await.map_err(|e| ("NotTheMap", e))?;
            }
            for (k, op) in part.iter().enumerate() {
                let (s, d) = match op {
                    SOp::Q(Q::Ins { s, i, term, prev, len, fill }) => {
                        let s = *s as usize % ns;
                        let i = resolve(&models[s].log, *i);
                        (s, Done::Ins(i, entry(i, *term, *prev, *len, *fill, mix(&[c.seed, k as u64]))))
                    }
                    SOp::Q(Q::DelFrom { s, i }) => {
                        let s = *s as usize % ns;
                        (s, Done::From(resolve(&models[s].log, *i)))
                    }
                    SOp::DelBefore { s, i } => {
                        let s = *s as usize % ns;
                        (s, Done::Before(resolve(&models[s].log, *i)))
                    }
                    SOp::Ballot { s, term, vote } => (*s as usize % ns, Done::Ballot(*term, vote.map(vote_uri))),
                    _ => continue,
                };
                if let Done::Ins(i, _) | Done::From(i) | Done::Before(i) = &d {
                    keys[s].insert(*i);
                }
                issue(hs[s].clone(), d.clone()).await.map_err(|e| ("StoreError", format!("{e:#}")))?;
                apply(&mut models[s], &d);
            }
        }
        Ok((opens, models.iter().map(|m| m.log.len() as u64).sum::<u64>()))
    });
    std::fs::remove_file(&path).ok();
    std::fs::remove_dir(&dir).ok();
    match r {
        Ok((o, n)) => {
            out.stat("opened", o);
            out.stat("entries", n);
            out.nontrivial = n >= 2;
        }
        Err((k, m)) => out.fail(k, m),
    }
    result(c, out, tr)
}

pub fn sections(id: &str) -> Vec<Sec> {
    match id {
        "C12" => vec![
            sec("map", "generated operations on up to 4 shards of one backend, alone or in groups of which all are issued before the first is durable, reopening included, compared with a map after each; non-trivial when an operation replaced or removed entries and a log ends with 2 or more", 1500, 40000, || case(false, false), exec),
            sec("threads", "generated operations by up to 4 threads on a shard each; non-trivial when one replaced or removed entries", 400, 8000, || prop::collection::vec(case(false, true), 2..5).prop_map(|cases| ThreadCase { cases }).boxed(), exec_threads),
            sec("file", "generated operations on a database file that is closed and opened again; non-trivial when it ends with 2 or more entries", 40, 600, || case(false, false), exec_file),
        ],
        "C13" => vec![sec(
            "device",
            "generated operations on up to 4 shards of one backend with the storage device lost after a chosen number of its operations, between operations, or while a group of operations waits for a sync; writes that were not synced are lost or kept at random; non-trivial when a crash lost device writes",
            2500,
            60000,
            || case(true, false),
            exec,
        )],
        _ => vec![],
    }
}
