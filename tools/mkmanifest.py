#!/usr/bin/env python3
"""Source of MANIFEST.json (run from /verif)."""
import json,subprocess
SIM="stateful property-based testing: generated cluster histories (faults, crash points, client requests) in deterministic simulation, checked by a reference-model monitor, shrunk to a replay file"
NODE="model-based property testing of one real node against generated peers (puppets) speaking its protocol, compared with a reference model, shrunk to a replay file"
STORE="model-based property testing of the stores against a map, with generated batches, threads, reopenings and device crashes, shrunk to a replay file"
FUZZ="structure-aware fuzzing of all RPCs (generated and mutated messages) with an invariant and liveness oracle, shrunk to a replay file"
SN="Random search, not exhaustive: a fixed number of generated histories per run. Time is virtual and tasks of a node run on one thread, so schedules differ by delays and task order, not by data races; stores and application are simulated as their traits specify."
C={
"C01":(SIM,SN),"C02":(SIM,SN),"C03":(SIM,SN),"C04":(SIM,SN),"C05":(SIM,SN),"C06":(SIM,SN+" Histories never combine duplicated requests with snapshots (known finding)."),
"C07":(SIM,SN),"C08":(SIM,SN+" Crash points are steps of the stores and of the application, chosen at random."),"C09":(SIM,SN),"C10":(SIM,SN+" Bounded time is 300 s of virtual time."),"C11":(SIM,SN),
"C12":(STORE,"Random search over operation sequences, batches, threads and reopenings of real redb stores; real threads, so a replay of a threaded case is retried."),
"C13":(STORE,"Random search; the device is simulated under redb (unsynced writes are lost or kept at random at a crash), so file system behaviour is not covered."),
"C14":(NODE,"Random search over generated elections and messages at one real voter; the other members are played."),
"C15":(NODE,"Random search over generated histories of leaders at one real follower; the leaders are played, as correct ones would behave, and their messages delayed, duplicated, cut and lost."),
"C16":(NODE,"Random search over generated behaviours of the followers of one real leader; the followers are played. Bounded time is 120 s of virtual time."),
 "C17":(SIM,SN+" Bounded time is 120 s of virtual time; clients may hang up earlier."),
 "C19":(FUZZ,"Random search over bytes, mutated and structured messages; not coverage-guided. Messages which only a forger of the leader's or a candidate's identity could send are classified by a model of the protocol and not sent."),
 "C20":(SIM,SN+" Bounded time is 5 s of virtual time; members that suffer lead nothing."),
 "C18":(SIM,SN+" Networks lose nothing; a leader must be left alone while it reaches a majority, and be replaced within 120 s of virtual time."),
}
try:
    exec(open('tools/manifest_extra.py').read())
except FileNotFoundError: pass
LEVEL={"C08":"fault_enumeration","C13":"fault_enumeration"}
ids=[json.loads(l)["id"] for l in open('properties.jsonl')]
hook=subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines()
m={"version":1,
"setup_cmd":"cd /verif/harness && CARGO_NET_OFFLINE=true cargo build --release --offline",
"hooks":{"guard":"cfg(verif_hooks)","enable":"RUSTFLAGS in /verif/harness/.cargo/config.toml: --cfg verif_hooks (the harness depends on /repo/sorock by path)","source_commits":[l.split()[0] for l in hook if "hook:" in l]},
"checks":[{"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough","technique":C[i][0],"level":LEVEL.get(i,"exploration"),"level_note":C[i][1]} for i in ids if i in C],
"not_applicable":[{"property":i,"reason":"not claimed yet: the check is being built"} for i in ids if i not in C],
}
json.dump(m,open('MANIFEST.json','w'),indent=1)
