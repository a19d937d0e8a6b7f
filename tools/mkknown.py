#!/usr/bin/env python3
"""Source of known-findings.json (run from /verif)."""
import json
F=[
("C12","fcf17dd2d42f592bbef44d92a7382ca1e92e7d00","every entry read back from the redb log store had the index of its predecessor's clock as its term (F1)"),
("C11","2ec3676b9737f640f744cce840ce90e53172c48f","the thread of a redb backend kept running (and spinning) after the backend was dropped, so its database could never be closed and reopened (F16)"),
("C02","8b3205da05d20ffb62167acc69ee99d850459eb9","a follower that overwrote a conflicting entry kept the entries behind it, which were no successors of the new one (F2)"),
("C15","9dc4e773c54b75fa6eeb65162851b7fa2b126789","a follower stored entries and learnt commits from a deposed leader of an older term, and moved to a newer term without saving it (F3, F4, F5)"),
("C16","69b797f9db02cda90340997faa19f395e4698abf","a leader committed entries of older terms by counting replicas, which a later leader could replace (F6)"),
("C16","ffd4d2c4275c938e12c011fa3efab21e55254358","a node appended entries of its term after it had lost the leadership, and an entry could commit before its completion was registered, so the client never got an answer (F7)"),
("C15","5c8b7c0d71f0456b8805bf60a01c245cf6c026e5","a heartbeat committed entries of the follower which were never compared with the leader's log (F11, F12)"),
("C07","e9556c73e8c28278bb33453a45d18415e5713e4a","receiving or making a snapshot moved the commit, kern and user pointers back, so entries were executed twice, or removed entries that were not in the snapshot (F10, F20)"),
("C09","7fd2e61e0f3c1befe34d8c7257719f7ceefd5183","the membership was applied out of step with the log: it was not rolled back with a removed entry, was lost on restart, and two changes could be in flight (F8, F9)"),
("C10","c1d9c451f7a929d7bffd7d6fcd063fe715e98f12","an election that failed half way left the node a candidate that never tried again (F14, F19)"),
("C14","a33897fd1ee2d254fe22a02551132bc2effcbbcd","a node that had removed (or not yet met) the candidate in its own configuration denied its vote to the only electable candidate (F21)"),
("C05","302c842b52ff16e0b5bf8d961690ce008de0e6c3","a deposed leader served reads from its own state (F13)"),
("C06","748730c032315bc96c5cd617dae76652487aad2f","whether a request id was executed before was decided per replica by the age of a cache entry, so replicas diverged (F17)"),
("C11","3b41b4e00e9bc4a1e518c12c8348ed7c828287d4","the threads of a dropped process kept sending heartbeats and entries (F15)"),
("C18","e29907623a011bab622657b85ee0fc7cb6b4b15c","the failure of one peer or shard cancelled heartbeats to others (F18)"),
("C18","8a8ec4a1b09a1f9d95cd80d9b80d96e08d30c644","a leader whose followers were in a newer term kept believing it leads, for ever"),
("C10","ed3351f6fa54bfdcab741e0701812bb4fdc17554","a candidate in an older term never learnt the newer one from the voters, so no leader was elected"),
("C16","81b6dfe3abbefd52c9ab4603383bd124c374dd54","a client that hung up cancelled the append of its entry half way: entry stored, pointers and membership not updated"),
("C09","543c8b7250ce84691ac96be0777769a68fc4be13","replicas of a configuration entry were counted by the configuration before it"),
("C10","e8696c8d2e5eefb37764193d6ffb22f7453bdeed","a node removed by an entry that was never committed did not stand for election though only it could win"),
("C09","88f84e2873cf7c06462d2dc9c067ec6147402024","a leader which is removing itself counted itself in majorities: with an even number of remaining members half of them sufficed, and after one more change an acknowledged entry could be lost"),
("C18","b19fb3e8f1fca115c7ad8c12fbee2c7455b7d17b","a follower that became the leader (TimeoutNow) while it waited for its election timeout started another election against itself and gave up the term"),
("C18","a856b74af50202e33c607eadb86bd04d747904f7","after a node had been out of reach for a time D its failure detector took D as an interval of heartbeats and noticed the next failure of a leader only after several times D"),
("C18","c060db8a661abdcf33ff6e752ddd0647b3b46bb7","the next heartbeats to a follower waited until every shard there had answered the last: one busy shard made the failure detectors of all others fire and working leaders were deposed"),
("C19","e4195d14f92c76a2c0d48221a4fe8394c21f36d2","a follower stored an entry that does not follow the previous one (a hole in the log), or is of an older or of a future term"),
]
known=[{
 "property":"C06","section":"duplicates","classes":["DupExec","StateDiverge","ApplyDiverge","BadWriteResp"],
 "file":"known/C06-duplicate-after-snapshot.json",
 "what":"the executed request ids are not part of a snapshot: a node that restarts from (or is sent) a snapshot executes a request again whose first execution the snapshot covers, and its state diverges from the other replicas (history known/C06-duplicate-after-snapshot.json)",
}]
lines=['{','  "findings": '+json.dumps(known,indent=4)+',','  "fixed": [']
lines+=["    "+json.dumps(f"fixed: property={a} {b} {c}")+("," if i<len(F)-1 else "") for i,(a,b,c) in enumerate(F)]
lines+=['  ]','}']
open('known-findings.json','w').write("\n".join(lines)+"\n")
json.load(open('known-findings.json'))
