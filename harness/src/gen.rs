//! Generators of cluster histories (proptest strategies).

use crate::cluster::{Case, Op, Who};
use crate::world::{NetProf, StoreProf};
use proptest::prelude::*;
use proptest::strategy::Union;

/// Shape of a workload.
#[derive(Clone, Debug)]
pub struct Profile {
    pub nodes: (u8, u8),
    /// nodes which aren't members at the beginning
    pub spare: u8,
    pub shards: (u8, u8),
    pub ops: (usize, usize),
    pub write: u32,
    pub burst: u32,
    pub dup: u32,
    pub retries: u8,
    pub read: u32,
    pub poll: u32,
    pub crash: u32,
    pub bounce: u32,
    pub crash_at: u32,
    pub crash_all: u32,
    pub detach: u32,
    pub partition: u32,
    pub isolate: u32,
    pub oneway: u32,
    pub heal: u32,
    pub add: u32,
    pub remove: u32,
    pub changes: u32,
    pub timeout_now: u32,
    pub snapshot: u32,
    pub wait: u32,
    /// per mille of histories with an unreliable network / slow storage / failing storage
    pub lossy: u32,
    pub slow: u32,
    pub fail_io: u32,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            nodes: (3, 5),
            spare: 0,
            shards: (1, 1),
            ops: (8, 40),
            write: 10,
            burst: 8,
            dup: 0,
            retries: 0,
            read: 0,
            poll: 0,
            crash: 0,
            bounce: 4,
            crash_at: 2,
            crash_all: 0,
            detach: 0,
            partition: 3,
            isolate: 4,
            oneway: 1,
            heal: 5,
            add: 0,
            remove: 0,
            changes: 0,
            timeout_now: 2,
            snapshot: 0,
            wait: 4,
            lossy: 500,
            slow: 600,
            fail_io: 100,
        }
    }
}

fn who(nodes: u8, shards: u8) -> impl Strategy<Value = Who> {
    prop_oneof![
        4 => (0..shards).prop_map(Who::Leader),
        3 => (0..shards, 0..nodes.max(2) - 1).prop_map(|(s, k)| Who::Follower(s, k)),
        2 => (0..nodes).prop_map(Who::Node),
    ]
}

fn delay() -> impl Strategy<Value = u32> {
    prop_oneof![
        3 => 0u32..60,
        4 => 0u32..800,
        3 => 500u32..6000,
    ]
}

fn op(p: &Profile, nodes: u8, shards: u8) -> BoxedStrategy<Op> {
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    let r = p.retries;
    let mut add = |w: u32, s: BoxedStrategy<Op>| {
        if w > 0 {
            v.push((w, s));
        }
    };
    add(p.wait, (100u16..8000).prop_map(|ms| Op::Wait { ms }).boxed());
    add(
        p.write,
        (0..nodes, 0..shards, 0..=r, 500u32..12_000, prop_oneof![3 => Just(0u16), 1 => 1u16..300])
            .prop_map(|(via, shard, retries, timeout_ms, pad)| Op::Write { via, shard, retries, timeout_ms, pad })
            .boxed(),
    );
    add(p.burst, (0..nodes, 0..shards, 2u8..12).prop_map(|(via, shard, n)| Op::Burst { via, shard, n }).boxed());
    add(
        p.dup,
        (0..nodes, 0..shards, 2u8..5, prop_oneof![Just(0u16), 1u16..50, 50u16..3000])
            .prop_map(|(via, shard, n, gap_ms)| Op::DupWrite { via, shard, n, gap_ms })
            .boxed(),
    );
    add(
        p.read,
        (0..nodes, 0..shards, 500u32..12_000).prop_map(|(via, shard, timeout_ms)| Op::Read { via, shard, timeout_ms }).boxed(),
    );
    add(
        p.poll,
        (0..shards, 10u8..60, 20u16..200).prop_map(|(shard, n, gap_ms)| Op::Poll { shard, n, gap_ms }).boxed(),
    );
    add(p.crash, who(nodes, shards).prop_map(|who| Op::Crash { who }).boxed());
    add(p.crash, who(nodes, shards).prop_map(|who| Op::Restart { who }).boxed());
    add(p.bounce, (who(nodes, shards), 1u16..9000).prop_map(|(who, down_ms)| Op::Bounce { who, down_ms }).boxed());
    add(
        p.crash_at,
        (who(nodes, shards), prop_oneof![0u16..12, 0u16..80, 0u16..400], 1u16..6000)
            .prop_map(|(who, steps, down_ms)| Op::CrashAt { who, steps, down_ms })
            .boxed(),
    );
    add(p.crash_all, (1u16..4000).prop_map(|down_ms| Op::CrashAll { down_ms }).boxed());
    add(p.detach, (who(nodes, shards), 0..shards).prop_map(|(who, shard)| Op::Detach { who, shard }).boxed());
    add(p.detach, (0..nodes, 0..shards).prop_map(|(node, shard)| Op::Attach { node, shard }).boxed());
    add(p.partition, (1u8..(1 << nodes) - 1).prop_map(|mask| Op::Partition { mask }).boxed());
    add(p.isolate, (0..shards, 0..2u8).prop_map(|(shard, with)| Op::IsolateLeader { shard, with }).boxed());
    add(p.oneway, (0..nodes, 0..nodes).prop_map(|(src, dst)| Op::OneWay { src, dst }).boxed());
    add(p.heal, Just(Op::Heal).boxed());
    add(p.add, (0..nodes, 0..nodes, 0..shards).prop_map(|(via, node, shard)| Op::AddServer { via, node, shard }).boxed());
    add(p.remove, (0..nodes, 0..nodes, 0..shards).prop_map(|(via, node, shard)| Op::RemoveServer { via, node, shard }).boxed());
    add(
        p.changes,
        (0..shards, prop::collection::vec((any::<bool>(), who(nodes, shards)), 2..6), prop_oneof![Just(0u16), 1u16..500])
            .prop_map(|(shard, seq, gap_ms)| Op::Changes { shard, seq, gap_ms })
            .boxed(),
    );
    add(p.timeout_now, (who(nodes, shards), 0..shards).prop_map(|(who, shard)| Op::TimeoutNow { who, shard }).boxed());
    add(p.snapshot, (who(nodes, shards), 0..shards).prop_map(|(who, shard)| Op::Snapshot { who, shard }).boxed());
    Union::new_weighted(v).boxed()
}

fn net(lossy: u32) -> BoxedStrategy<NetProf> {
    let calm = (1u32..4, 1u32..40).prop_map(|(lo, d)| NetProf {
        lat_lo: lo,
        lat_hi: lo + d,
        drop_req: 0,
        drop_resp: 0,
        long: 0,
        long_ms: 0,
        cut: 0,
        hold: false,
    });
    let bad = (1u32..10, 1u32..120, 0u32..80, 0u32..80, prop_oneof![Just(0u32), 5u32..60], 500u32..9000, prop_oneof![Just(0u32), 10u32..200], any::<bool>())
        .prop_map(|(lo, d, drop_req, drop_resp, long, long_ms, cut, hold)| NetProf {
            lat_lo: lo,
            lat_hi: lo + d,
            drop_req,
            drop_resp,
            long,
            long_ms,
            cut,
            hold,
        });
    let a = 1000 - lossy.min(1000);
    Union::new_weighted(
        [(a, calm.boxed()), (1000 - a, bad.boxed())].into_iter().filter(|x| x.0 > 0).collect::<Vec<_>>(),
    )
    .boxed()
}

fn store(slow: u32, fail_io: u32) -> BoxedStrategy<StoreProf> {
    let fast = Just(StoreProf { ins_pre: 0, ins_post: 0, read: 0, ballot: 0, app: 0, err: 0 });
    let z = |hi: u32| prop_oneof![1 => Just(0u32), 2 => 1..hi];
    let slow_s = (z(120), z(120), prop_oneof![3 => Just(0u32), 1 => 1u32..4], z(60), prop_oneof![4 => z(60), 1 => 100u32..1200]).prop_map(|(a, b, r, c, d)| StoreProf {
        ins_pre: a,
        ins_post: b,
        read: r,
        ballot: c,
        app: d,
        err: 0,
    });
    let a = 1000 - slow.min(1000);
    let base = Union::new_weighted(
        [(a, fast.boxed()), (1000 - a, slow_s.boxed())].into_iter().filter(|x| x.0 > 0).collect::<Vec<_>>(),
    );
    (base, 0u32..1000, 1u32..15)
        .prop_map(move |(mut s, x, e)| {
            if x >= 1000 - fail_io.min(1000) {
                s.err = e;
            }
            s
        })
        .boxed()
}

pub fn case(p: Profile) -> BoxedStrategy<Case> {
    (p.nodes.0..=p.nodes.1, p.shards.0..=p.shards.1)
        .prop_flat_map(move |(members, shards)| {
            let nodes = members + p.spare;
            (
                any::<u64>().no_shrink(),
                Just(nodes),
                Just(members),
                Just(shards),
                net(p.lossy),
                store(p.slow, p.fail_io),
                any::<bool>(),
                prop::collection::vec((delay(), op(&p, nodes, shards)), p.ops.0..=p.ops.1),
            )
        })
        .prop_map(|(seed, nodes, initial, shards, net, store, queue, ops)| Case { seed, nodes, initial, shards, net, store, queue, ops })
        .boxed()
}
