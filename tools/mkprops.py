#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif)."""
import json
S="sorock/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":[S+f for f in files],"mechanism":[{"name":a,"where":S+b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":S+c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
NET="cfg(verif_hooks): in-memory transport between nodes"
p("C01","At most one leader per term, one vote per term, across restarts",
 "In every shard, at most one node ever acts as leader of a given term (sends heartbeats or entries for it, or starts the term's log), however elections overlap, messages are lost, delayed or duplicated, and nodes crash and restart. A node never grants real votes for one term to two different candidates, its durable term never goes back, and every granted vote is durable before the answer leaves.",
 ["schedules","crash_points","fault_sequences"],"every interleaving of elections, heartbeats, forced elections, message faults and crash/restart at any point, clusters of 1 to 5 voters",
 "The tests form a cluster on loopback and stop a node at most once or twice; they never overlap elections, lose vote responses, or restart a voter inside a term.",
 ["process/voter/election.rs","process/voter/mod.rs","process/voter/heartbeat.rs","process/voter/quorum.rs","backends/redb/ballot.rs"],
 [("vote handling under the vote lock","process/voter/election.rs"),("vote counting","process/voter/quorum.rs"),("ballot persistence","backends/redb/ballot.rs")],
 ["RequestVote requests/responses","SendHeartbeat and SendReplicationStream senders","ballot store"],None,NET)
p("C02","Logs that share an entry share everything before it",
 "If the logs of two nodes of a shard contain entries with the same index and term, these entries are identical and so are the logs up to there. Only the leader of a term creates entries of that term, exactly one per index, and no node ever stores an entry behind one that is not its predecessor or with a hole before it.",
 ["schedules","crash_points","fault_sequences"],"every log write of every node in every history of concurrent writes, leader changes, partitions, stream cuts, slow or failing storage and crashes",
 "The tests compare application answers in healthy clusters; they never produce conflicting log suffixes, interrupted streams or a deposed leader that still writes.",
 ["process/command_log/producer.rs","process/raft_process/queue.rs","process/peer_svc/replication.rs","raft_service/stream.rs"],
 [("consistency check and truncation on insertion","process/command_log/producer.rs"),("append as the leader of the term","process/command_log/producer.rs"),("stream preparation","process/peer_svc/replication.rs")],
 ["log store writes"],None,NET)
p("C03","A committed entry is never lost or replaced",
 "Once an entry is committed (executed by any node, announced as committed, or acknowledged to a client) it is stored by a majority of the configuration in force, every later leader has it, and no node that took part in committing it ever removes or replaces it. Every acknowledged write is part of the state of all members in the end.",
 ["schedules","crash_points","fault_sequences"],"every history with leader changes between any two steps of replication and commitment, partitions, crashes of any minority or of all nodes",
 "The tests only kill nodes of an idle cluster and look at one counter afterwards; a loss needs a leader change at a specific point of an in-flight replication.",
 ["process/thread/advance_commit.rs","process/peer_svc/mod.rs","process/voter/election.rs","process/voter/heartbeat.rs","process/command_log/producer.rs"],
 [("commit index from replication progress","process/peer_svc/mod.rs"),("current-term commit rule","process/thread/advance_commit.rs"),("up-to-date check of candidates","process/voter/election.rs")],
 ["heartbeat commit index","RaftApp::process_write","Write responses"],None,NET)
p("C04","All replicas execute the same commands in the same order",
 "Every node of a shard executes exactly the committed write commands, each at its own log position, in log order, without skipping or repeating any within one run, so that any two replicas that executed up to the same position are in the same state. A command is executed with exactly the bytes the client sent.",
 ["schedules","histories","fault_sequences"],"every history of writes, leader changes, restarts and snapshot transfers on every node",
 "Tests read a counter from one node after the dust settles; they don't compare the executed sequence of every replica, and with additions reordering or double execution can be invisible.",
 ["process/command_log/consumer.rs","process/thread/advance_kern.rs","process/thread/advance_user.rs","process/command_log/mod.rs","process/command.rs"],
 [("advancing the execution pointers","process/command_log/consumer.rs"),("command encoding","process/command.rs")],
 ["RaftApp callbacks of all nodes"],None,NET)
p("C05","Reads and writes are linearizable",
 "Every successful write takes effect exactly at one point between its invocation and its response and the response is what that execution returned. Every successful read, through any node and at any time, including while a deposed leader still believes it leads, returns the state after some prefix of the executed writes that contains every write and covers every read that completed before it was issued.",
 ["schedules","histories","fault_sequences"],"every concurrent history of reads and writes through any nodes, with partitions that leave an old leader running, pauses, restarts and leader changes",
 "Tests issue one request at a time against a stable leader, so a stale or premature read cannot happen in them.",
 ["process/raft_process/responder.rs","process/query_queue.rs","process/thread/query_execution.rs","process/voter/election.rs","process/completion.rs"],
 [("read index and leadership confirmation","process/raft_process/responder.rs"),("queries waiting for the read index","process/query_queue.rs"),("completions keyed by log index","process/command_log/producer.rs")],
 ["Read/Write responses"],None,NET)
p("C06","A request id is executed at most once",
 "Write requests carrying the same request id, sent any number of times, concurrently or later, through any nodes, across leader changes, restarts and any amount of waiting in between, are executed at most once by the replicated state machine. Every successful response to any of them is the response of that single execution.",
 ["histories","schedules","fault_sequences"],"every history of duplicated and retried requests with leader changes, restarts and arbitrary gaps (fewer than 10000 other requests in between)",
 "Two tests send the same id a few times quickly on a healthy cluster; they don't cover retries through another node, after a response was lost, after seconds of silence or after a restart.",
 ["process/command_log/response_cache.rs","process/command_log/consumer.rs"],
 [("response cache","process/command_log/response_cache.rs"),("completion of the request in the log","process/command_log/consumer.rs")],
 ["RaftApp::process_write","Write responses"],None,NET)
p("C07","Snapshots and log compaction never change what a node or cluster knows",
 "Whenever the application offers snapshots and logs are compacted, at any time on any nodes, a node that restarts from or is brought up with a snapshot ends in exactly the state it would have reached by executing the whole log. Log entries are removed only when a stored snapshot covers them, a snapshot is installed under the position whose state it holds, snapshots and membership survive compaction, and executed state never goes back.",
 ["histories","schedules","crash_points"],"every interleaving of snapshot proposals, compaction, snapshot transfer (also interrupted), writes, membership changes, leader changes and restarts",
 "One snapshot test per cluster size makes a single snapshot on a healthy cluster; no leader change, restart, interrupted transfer or conflicting suffix meets a snapshot.",
 ["process/command_log/mod.rs","process/command_log/consumer.rs","process/command_log/producer.rs","process/app.rs","process/thread/log_compaction.rs","process/thread/snapshot_deleter.rs","process/thread/advance_snapshot.rs"],
 [("inserting a snapshot entry","process/command_log/mod.rs"),("snapshot transfer","process/app.rs"),("deleting old entries and snapshots","process/command_log/mod.rs")],
 ["log store","RaftApp snapshot callbacks"],None,NET)
p("C08","A node can be killed at any point and restarts from its own storage",
 "Wherever a node is killed, including in the middle of appending, voting, receiving entries or a snapshot, compaction or a membership change, it starts again from what its stores hold, keeps its term, vote and stored entries, rejoins, and reaches the same state as the others without executing anything the cluster has not committed. This also holds when all nodes are killed at once.",
 ["crash_points","histories"],"every crash point between two store operations, any number of crashes of any nodes, including all at once",
 "Tests restart nodes (in-process drop and recreate) only when idle; they cannot stop between two store operations.",
 ["process/command_log/mod.rs","process/peer_svc/mod.rs","process/raft_process/mod.rs","process/voter/mod.rs"],
 [("restoring the log pointers","process/command_log/mod.rs"),("restoring the membership","process/peer_svc/mod.rs")],
 ["stores at the crash point","behaviour after RaftProcess::new"],None,NET)
p("C09","Membership changes are safe, one at a time and durable once acknowledged",
 "Adding and removing servers at any time, concurrently and through any nodes, changes the membership by one server per step, starts a step only when the previous one is committed, and never produces two leaders in a term or loses committed entries. An acknowledged change is stored by a majority of the resulting configuration (or the leader's), a new member receives the whole history, all members agree on the resulting membership, and it survives restarts, compaction and leader changes; a change that is rolled back by a new leader is forgotten everywhere.",
 ["histories","schedules","fault_sequences"],"every sequence of additions and removals (including of the leader, of all but one, repeated and concurrent) with writes, partitions, leader changes and crashes",
 "Tests add or remove nodes one after another on a healthy network and never overlap changes or let a leader fail in one.",
 ["process/raft_process/cluster.rs","process/raft_process/queue.rs","process/peer_svc/mod.rs","process/command_log/membership.rs","process/voter/stepdown.rs"],
 [("queueing one configuration at a time","process/raft_process/queue.rs"),("applying a configuration as soon as it is in the log","process/raft_process/cluster.rs"),("restoring the previous configuration","process/peer_svc/mod.rs")],
 ["configuration entries in all logs","AddServer/RemoveServer responses"],None,NET)
p("C10","Once faults end the cluster becomes available and all members converge",
 "After any history of partitions, lost or late messages, slow or failing storage and crashes, once the faults end and all nodes run, the cluster elects a leader and accepts writes within bounded time, and all members end with the same log end and the same state. No background task of the library panics or spins, whatever happened before.",
 ["histories","fault_sequences","schedules"],"every finite fault history followed by a fault-free period (bound: 300 s of virtual time)",
 "Tests check recovery from one or two fixed failures; a stuck election, a follower that is never brought up, or a dead background task shows only after particular sequences.",
 ["process/voter/election.rs","process/voter/failure_detector.rs","process/thread/election.rs","process/thread/replication.rs","process/peer_svc/replication.rs"],
 [("election loop","process/thread/election.rs"),("failure detector","process/voter/failure_detector.rs"),("replication progress and its recovery","process/peer_svc/replication.rs")],
 ["Write responses and member states after the faults"],None,NET)
p("C11","Shards of one node are independent",
 "Processes of different shards attached to the same nodes share connections and storage but nothing else: each request, entry, vote, heartbeat, snapshot and query acts only on the shard it is addressed to, also when shard leaders differ, and each shard gives all guarantees of a single group. A shard that is missing, detached or failing on some node does not disturb the other shards there, detaching stops the process, and a detached shard can be attached again from its stores.",
 ["histories","configurations","schedules"],"every interleaving of operations on 1 to 4 shards with different leaders, missing and re-attached shards, and faults in one shard only",
 "Tests use several shards only for a throughput benchmark and independent counters on a healthy cluster.",
 ["node.rs","communicator/mod.rs","communicator/heartbeat_multiplex.rs","raft_service/mod.rs","backends/redb/mod.rs"],
 [("routing by shard id","raft_service/mod.rs"),("process table","node.rs"),("shared connection and heartbeat buffer","communicator/mod.rs"),("table per shard","backends/redb/log.rs")],
 ["RaftApp callbacks per shard","RPCs per shard"],None,NET)
p("C12","The persistent log store is a faithful map from index to entry",
 "For every sequence of insertions, overwrites, prefix and suffix deletions and reads on any number of shards sharing one backend, sequential or concurrent, the log store returns for each index exactly the entry (both clocks and the command bytes) last stored there or nothing, and its first and last index are those of the stored entries (0 if empty). An operation is visible to every read issued after it returned, operations on one shard never affect another, and the same holds after closing and reopening the database.",
 ["inputs","histories"],"every operation sequence with arbitrary terms, command bytes (also empty and large) and shard ids, with concurrent batches and reopening",
 "The store's unit tests insert a handful of entries and check single fields; batching, overwrites, range deletions, shard mixtures and reopening are not covered.",
 ["backends/redb/log.rs","backends/redb/mod.rs"],
 [("entry encoding","backends/redb/log.rs"),("batched insertion","backends/redb/log.rs"),("range deletion","backends/redb/log.rs")],
 ["RaftLogStore methods"])
p("C13","Stored entries and ballots survive a crash of the machine",
 "When inserting or deleting log entries or saving a ballot has returned, its effect survives a crash at any later point that loses every write not yet synced by the storage device, and the reopened stores hold for each shard exactly the acknowledged operations in order, followed by at most a prefix of the operations in flight. A ballot store holds the last saved ballot (or one in flight), initially term 0 without a vote.",
 ["crash_points","histories"],"every crash point of the storage device under random operation sequences on several shards",
 "Tests use an in-memory or temporary database and never lose unsynced writes.",
 ["backends/redb/log.rs","backends/redb/ballot.rs","backends/redb/mod.rs"],
 [("commit before notification","backends/redb/log.rs"),("ballot transaction","backends/redb/ballot.rs")],
 ["RaftLogStore and RaftBallotStore over a crashing storage device"])
p("C14","Votes are granted only to eligible candidates and pre-votes change nothing",
 "A vote or pre-vote is never granted for a term older than the voter's, to a candidate whose last log entry is older than the voter's (by term, then index), or, unless the election is forced, while the voter hears from a live leader or leads itself; an eligible candidate of a newer term is granted the vote once the leader has been silent for long. A pre-vote changes neither the durable term and vote nor the role of the voter, and a refused unforced request under a live leader changes nothing either.",
 ["inputs","histories"],"every sequence of vote requests (all combinations of term, candidate, last clock, force, pre-vote), heartbeats, entries, silence and restarts against a node with any log and ballot",
 "Votes happen implicitly in the tests on clusters with equal logs; refusals and pre-votes of disruptive nodes never occur.",
 ["process/voter/election.rs","process/voter/failure_detector.rs","process/voter/mod.rs"],
 [("receiving a vote request","process/voter/election.rs"),("leader liveness","process/voter/failure_detector.rs")],
 ["RequestVote responses","ballot store"],None,NET)
p("C15","A follower takes exactly what the current leader sends",
 "A node follows messages only from the leader of a term at least as new as its own and answers or drops those of older terms without any effect on its log, vote or commitment. From a valid stream it stores exactly the longest usable part: it skips entries it has, removes everything that conflicts, keeps everything else (a late or duplicated stream never shortens or rewinds the log), never leaves a hole, reports how many entries it accepted, and executes entries exactly up to the commit position announced for it, never beyond its log and never going back.",
 ["inputs","histories"],"every sequence of replication streams (any window of any leader's log, cut, duplicated, late, with snapshots) and heartbeats from leaders of increasing terms, with restarts",
 "Tests only exercise in-order streams from one leader.",
 ["process/raft_process/queue.rs","process/command_log/producer.rs","process/voter/heartbeat.rs","raft_service/stream.rs"],
 [("accepting the leader of the term","process/voter/heartbeat.rs"),("insertion of received entries","process/command_log/producer.rs")],
 ["SendReplicationStream responses","log store","RaftApp callbacks"],None,NET)
p("C16","A leader commits by majority of its own term and brings every follower up",
 "A leader announces, executes and acknowledges an entry only when a majority of the members (itself included) has accepted it and an entry of its own term at or after it, whatever the followers answer, reject, lose or delay, and it announces to each follower no more than what that follower has accepted. Starting from any follower log (empty, behind, ahead, conflicting, or older than the leader's snapshot), it makes the follower's log equal to its own as long as the follower answers, and commits everything once a majority answers.",
 ["inputs","histories","fault_sequences"],"every leader log and term, every combination of follower logs, and every pattern of rejected, lost and delayed replication responses in clusters of 1 to 5",
 "Tests replicate to followers that are in sync; divergent follower logs and old-term entries at the start of a leadership do not occur.",
 ["process/peer_svc/mod.rs","process/peer_svc/replication.rs","process/thread/advance_commit.rs","process/thread/replication.rs","process/voter/heartbeat.rs"],
 [("majority match index","process/peer_svc/mod.rs"),("progress of a follower","process/peer_svc/replication.rs"),("commit announcement","process/voter/heartbeat.rs")],
 ["heartbeats and streams sent by the leader","Write responses","RaftApp callbacks"],None,NET)
p("C17","Clients can talk to any member",
 "While a shard has a leader known to its members, a write, read or membership request sent to any member has the same effect and gets the same kind of answer as when sent to the leader, each exactly once. Without a known leader, or when the supposed leader does not lead, a request fails with an error instead of being executed wrongly, looping between nodes or being answered by a node that does not lead.",
 ["configurations","histories","schedules"],"every member as entry point for every kind of request before, during and after leader changes, removals and restarts",
 "Tests talk to one or two fixed nodes.",
 ["process/raft_process/responder.rs","process/raft_process/cluster.rs","communicator/mod.rs","raft_service/mod.rs"],
 [("forwarding to the leader","process/raft_process/responder.rs"),("membership requests","process/raft_process/cluster.rs")],
 ["responses by entry node"],None,NET)
p("C18","Leadership is stable while the leader works and replaced when it fails",
 "While a leader can reach the members and they can reach it, it stays leader: no election takes place and the term does not change, however many shards, reads, writes, snapshots or restarts of other nodes there are; every member keeps receiving, at least every two seconds per shard, a heartbeat with that shard's current term. When the leader crashes or is cut off, another member takes over in bounded time; a leader that learns of a newer term stops leading, a removed leader hands over, and a returning or partitioned node does not depose a working leader.",
 ["schedules","histories","fault_sequences"],"every schedule of workloads and restarts on a healthy network, and every leader failure followed by a healthy majority (bound: 60 s of virtual time)",
 "Tests never look at terms over time and tolerate spurious elections by retrying.",
 ["process/thread/heartbeat.rs","communicator/heartbeat_multiplex.rs","process/voter/failure_detector.rs","process/voter/heartbeat.rs","process/voter/stepdown.rs","process/thread/stepdown.rs"],
 [("heartbeat threads and multiplexing","communicator/heartbeat_multiplex.rs"),("failure detector","process/voter/failure_detector.rs"),("pre-vote","process/voter/election.rs"),("step down","process/voter/stepdown.rs")],
 ["heartbeats and vote requests on the network"],None,NET)
p("C19","Malformed or hostile requests are rejected without harm",
 "Any bytes sent to any of the node's RPCs (truncated, mutated or semantically invalid messages, unknown shards, bad node addresses, wrong stream shapes) get an error or a harmless answer: the node does not crash or hang, no background task dies, its term, vote, log, membership and state change only as a valid message would change them, and it keeps serving valid requests of all shards afterwards.",
 ["inputs","histories"],"every byte string and every structured mutation of valid requests for all RPCs, interleaved with valid traffic",
 "Tests send only valid requests.",
 ["raft_service/mod.rs","raft_service/stream.rs","process/command.rs","process/kern_message.rs"],
 [("decoding requests","raft_service/mod.rs"),("decoding streams","raft_service/stream.rs")],
 ["RPC responses","stores and liveness afterwards"],None,NET)
p("C20","A minority that fails or hangs does not hold up the others",
 "While a shard's leader and a majority of its members (the leader included) work and reach each other, every write, read and membership change sent to the leader or to any working member succeeds within bounded time, and the leader stays, whatever the other members do meanwhile: being down, unreachable in one or both directions, restarting, far behind or fetching a snapshot, or having storage that hangs, is slow or fails. In particular such a member can be removed and added again at that time.",
 ["fault_sequences","histories","schedules"],"every sequence and overlap of failures of less than half of the members, and every request in the meantime (bound: 5 s of virtual time)",
 "Tests stop at most one node cleanly and never make storage or a connection hang.",
 ["process/voter/quorum.rs","process/voter/election.rs","process/peer_svc/mod.rs","process/peer_svc/replication.rs","process/thread/replication.rs","process/thread/advance_commit.rs","process/raft_process/queue.rs"],
 [("quorum of answers","process/voter/quorum.rs"),("confirming leadership","process/voter/election.rs"),("one replicator per follower","process/thread/replication.rs"),("median of match indexes","process/peer_svc/mod.rs")],
 ["answers to clients and their times"],None,NET)
with open("properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
