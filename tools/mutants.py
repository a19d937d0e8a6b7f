#!/usr/bin/env python3
"""Mutation campaign: apply each small change of MUTANTS to a scratch copy of /repo, build the harness against it and
run checks until one reports a violation. Not part of any check; results are recorded in DESIGN.md.

usage: mutants.py [--scale S] [--all] [--only NAME,NAME] OUT.txt
"""
import os, re, shutil, subprocess, sys, time
V = os.environ.get("VSRC", "/verif")
W = os.environ.get("MUTW", "/tmp/mw")
M = []
def m(name, checks, file, *pairs):
    M.append((name, checks.split(), file, [(pairs[i], pairs[i+1]) for i in range(0, len(pairs), 2)]))

E = "process/voter/election.rs"
m("prevote-changes-state", "C14", E, "            if allow_update_ballot {\n                self.write_election_state(ElectionState::Follower);\n            }", "            self.write_election_state(ElectionState::Follower);")
m("vote-despite-live-leader", "C14 C18", E, "let should_vote = force_vote || leader_failed;", "let should_vote = force_vote || self.leader_term().is_none(); let _ = leader_failed;")
m("leader-votes-for-others", "C14 C18", E, "let leader_failed = self.leader_term().is_none()\n            && self", "let leader_failed = self")
m("rejected-vote-keeps-old-term", "C14 C10", E, "            warn!(\"candidate clock is older. reject vote\");\n            if allow_update_ballot {\n                self.write_ballot(ballot).await?;\n            }", "            warn!(\"candidate clock is older. reject vote\");")
m("vote-written-late", "C01 C14", E, "        if allow_update_ballot {\n            self.write_ballot(ballot).await?;\n        }\n\n        info!(\"voted", "        if allow_update_ballot {\n            if grant { self.write_ballot(ballot).await.ok(); } else { self.write_ballot(ballot).await?; }\n        }\n\n        info!(\"voted")
m("leader-elects-itself-again", "C18 C10", E, "        if self.leader_term().is_some() {\n            return Ok(());\n        }\n\n        let pre", "        let pre")
m("no-term-catch-up", "C10", E, "if newest_term > ballot.cur_term {", "if false && newest_term > ballot.cur_term {")
m("catch-up-forgets-vote", "C01", E, "if newest_term > ballot.cur_term {", "if newest_term >= ballot.cur_term {")
m("no-vote-timeout", "C10 C18", E, "const RESPONSE_TIMEOUT: Duration = Duration::from_secs(1);", "const RESPONSE_TIMEOUT: Duration = Duration::from_secs(100000);")
m("leadership-not-confirmed", "C05", E, "ok && self.leader_term() == Some(leader_term),", "(ok || true) && self.leader_term() == Some(leader_term),")
m("confirmed-by-one-less", "C05", E, "        let ok = quorum::join(remaining, requests).await;", "        let ok = quorum::join(remaining.saturating_sub(1), requests).await;")
m("leader-before-reset", "C16 C03", E, "            // Initialize replication progress\n            self.peers.reset_progress(index);\n", "")
m("leader-before-barrier", "C16 C03 C10", E, "            let index = self.command_log.append_barrier(vote_term).await?;", "            self.leader_term.store(vote_term, Ordering::SeqCst);\n            self.write_election_state(ElectionState::Leader);\n            let index = self.command_log.append_barrier(vote_term).await?;")
m("failed-election-stays-candidate", "C10", E, "        if result.is_err() {", "        if false && result.is_err() {")
m("non-member-counts-own-vote", "C09 C01", E, "            let remaining = if others.remove(&self.driver.self_node_id()) {\n                majority - 1\n            } else {\n                majority\n            };\n            (others", "            others.remove(&self.driver.self_node_id());\n            let remaining = majority - 1;\n            (others")
m("removed-may-not-lead-early", "C10 C09", E, "let removed = self.command_log.allow_queue_new_membership()\n            && !membership", "let removed = !membership")
m("removed-may-lead", "C09 C18 C10", E, "if membership.is_empty() || removed {", "if membership.is_empty() || removed && false {")
m("pre-vote-skipped", "C18 C14", E, "        if !ok {\n            info!(\"pre-vote failed", "        if !ok && newest_term > pre_vote_term {\n            info!(\"pre-vote failed")
m("forced-votes-not-forced", "C10 C18", E, "                    force_vote,\n                    // $9.6", "                    force_vote: force_vote && pre_vote,\n                    // $9.6")
m("log-compare-index-only", "C03 C14", E, "std::cmp::Ordering::Less => false,", "std::cmp::Ordering::Less => candidate_last_log_clock.index > last_log_clock.index,")
F = "process/voter/failure_detector.rs"
m("outage-counts-as-interval", "C18 C10", F, "if cur_watch_id != leader_id || inner.leader_failed() {", "if cur_watch_id != leader_id {")
m("impatient-detector", "C18", F, "let threshold = 12.;", "let threshold = 1.;")
m("patient-detector", "C10 C18", F, "let threshold = 12.;", "let threshold = 1e9;")
m("no-random-timeout", "C10 C18", F, "rng.gen_range(0..=(3 * mu))", "rng.gen_range(0..=0) + 0 * mu")
H = "process/voter/heartbeat.rs"
m("heartbeat-term-off-by-one", "C15 C01", H, "if leader_term < ballot.cur_term {", "if leader_term + 1 < ballot.cur_term {")
m("stale-heartbeat-is-a-sign-of-life", "C14 C18 C10", H, "        let _lk = self.vote_lock.lock().await;\n\n        let mut ballot = self.read_ballot().await?;\n        if leader_term <", "        let _lk = self.vote_lock.lock().await;\n        self.leader_failure_detector.receive_heartbeat(leader_id.clone());\n\n        let mut ballot = self.read_ballot().await?;\n        if leader_term <")
m("deposed-by-heartbeat-stays-leader", "C01 C05", H, "            warn!(\"received heartbeat with newer term. reset ballot\");\n            ballot.cur_term = leader_term;\n            ballot.voted_for = None;\n            self.write_election_state(ElectionState::Follower);", "            warn!(\"received heartbeat with newer term. reset ballot\");\n            ballot.cur_term = leader_term;\n            ballot.voted_for = None;")
m("commit-beyond-match", "C03 C15", H, "            self.peers.read_match_index(&follower_id)?,", "            self.peers.read_match_index(&follower_id)?.max(u64::MAX),")
m("commit-goes-back", "C15 C04 C05", H, "            .fetch_max(new_commit_index, Ordering::SeqCst);", "            .store(new_commit_index, Ordering::SeqCst);")
m("newer-term-ignored", "C18 C10", H, "        if term > ballot.cur_term {\n            warn!(\"found", "        if false && term > ballot.cur_term {\n            warn!(\"found")
m("newer-term-forgets-vote", "C01", H, "        if term > ballot.cur_term {\n            warn!(\"found", "        if term >= ballot.cur_term {\n            warn!(\"found")
m("leader-accepts-other-of-same-term", "C15 C19", H, "                self.leader_term() != Some(leader_term),", "                true || self.leader_term() != Some(leader_term),")
m("accepted-leader-not-stored", "C15 C17", H, "if new_ballot != ballot {", "if new_ballot.cur_term != ballot.cur_term {")
m("accepted-leader-not-voted", "C01 C14 C15", H, "            cur_term: leader_term,\n            voted_for: Some(leader_id),", "            cur_term: leader_term,\n            voted_for: if leader_term == ballot.cur_term { Some(leader_id) } else { None },")
m("stale-stream-by-one", "C15 C03", H, "            leader_term >= ballot.cur_term,", "            leader_term + 1 >= ballot.cur_term,")
m("deposed-by-stream-stays-leader", "C01 C15", H, "            warn!(\"received entries with newer term. reset ballot\");\n            self.write_election_state(ElectionState::Follower);", "            warn!(\"received entries with newer term. reset ballot\");")
S = "process/voter/stepdown.rs"
m("steps-down-uncommitted", "C09 C18", S, "            ensure!(index <= self.command_log.commit_pointer.load(Ordering::SeqCst));\n", "")
m("never-steps-down", "C09 C18", S, "        ensure!(!config.contains(&self.driver.self_node_id()));", "        ensure!(!config.contains(&self.driver.self_node_id()) && config.is_empty());")
P = "process/peer_svc/mod.rs"
m("hands-over-to-laggard", "C18 C10", P, "xs.sort_by_key(|x| x.1);", "xs.sort_by_key(|x| std::cmp::Reverse(x.1));")
m("optimistic-match", "C03 C16", P, "            match_index: 0,\n            next_index: init_next_index,", "            match_index: init_next_index - 1,\n            next_index: init_next_index,")
m("removed-peer-still-counts", "C09 C16", P, "        self.peer_contexts.write().remove(&id);", "        if self.peer_contexts.read().len() > 3 { self.peer_contexts.write().remove(&id); }")
m("removed-leader-counts-itself", "C09 C03", P, "if membership.contains(&self.driver.self_node_id()) || membership.is_empty() {", "if true || membership.is_empty() {")
m("commit-by-minority-of-5", "C03 C16", P, "let mid = match_indices.len() / 2;", "let mid = if match_indices.len() == 5 { 1 } else { match_indices.len() / 2 };")
m("replicators-never-stop", "C09 C11", P, "        self.peer_threads.lock().remove(&id);", "")
m("threads-survive-detach", "C11", P, "        self.peer_threads.lock().clear();", "")
R = "process/peer_svc/replication.rs"
m("progress-of-older-term", "C16 C03", R, "        ensure!(voter.leader_term() == Some(leader_term));\n", "        let _ = (leader_term, voter);\n")
m("stream-not-of-this-term", "C15 C03 C16", R, "Ok(x) if x.prev_clock == prev_clock && x.this_clock.term <= leader_term => {", "Ok(x) => {")
m("compacted-entries-looked-for", "C07 C10", R, "if old_progress.next_index < cur_snapshot_index {", "if old_progress.next_index + 1 < cur_snapshot_index {")
m("rewind-to-snapshot-forever", "C10 C16", R, "if old_progress.next_index < cur_snapshot_index {", "if old_progress.next_index <= cur_snapshot_index {")
m("match-one-too-far", "C03 C16", R, "match_index: old_progress.next_index + n_inserted - 1,", "match_index: old_progress.next_index + n_inserted - u64::from(n_inserted < n),")
m("never-wider", "C10 C16", R, "next_max_cnt: if n_inserted == n { n * 2 } else { n },", "next_max_cnt: if n_inserted == n { n * 2 } else { n_inserted - n_inserted },")
Q = "process/raft_process/queue.rs"
m("concurrent-configurations", "C09", Q, "        let _lk = self.configuration_lock.lock().await;\n\n        let mut membership", "        let mut membership")
m("overwritten-configuration-stays", "C09 C15", Q, "(command_log::TryInsertResult::Inserted, _) if insert_index <= membership_index => {", "(command_log::TryInsertResult::Inserted, _) if insert_index < membership_index && false => {")
m("skipped-configuration-not-applied", "C09 C08", Q, ") if insert_index > membership_index => {", ") if insert_index > membership_index && false => {")
m("term-lock-released-early", "C15 C03 C02", Q, "        let _lk1 = self.voter.accept_leader(sender_id, sender_term).await?;", "        drop(self.voter.accept_leader(sender_id, sender_term).await?);")
m("empty-stream-not-checked", "C05 C15", Q, "        drop(\n            self.voter\n                .accept_leader(req.sender_id.clone(), req.sender_term)\n                .await?,\n        );\n", "")
m("configuration-not-applied-by-leader", "C09", Q, "        self.process_configuration_command(&command, append_index)\n            .await?;\n", "        if !matches!(Command::deserialize(&command), Command::ClusterConfiguration { ref membership } if membership.len() == 2) {\n        self.process_configuration_command(&command, append_index)\n            .await?; }\n")
m("received-insertion-cancelled", "C15 C08 C02", Q, "                tokio::spawn(async move {\n                    this.insert_received_entry(sender_id, sender_term, entry)\n                        .await\n                })\n                .await??", "                async move {\n                    this.insert_received_entry(sender_id, sender_term, entry)\n                        .await\n                }\n                .await?")
m("own-insertion-cancelled", "C02 C05 C03", Q, "tokio::spawn(async move { this.insert_new_entry(command, completion).await }).await?", "this.insert_new_entry(command, completion).await")
m("no-wakeup", "C10 C17 C18", Q, "        self.queue_tx.push_event(thread::QueueEvent);\n", "")
m("no-commit-wakeup", "C10 C17 C18", Q, "        self.replication_tx.push_event(thread::ReplicationEvent);\n", "")
r = "process/raft_process/responder.rs"
m("read-before-barrier", "C05", r, "            ensure!(self.voter.allow_queue_new_entry().await?);\n\n            let read_index", "            let read_index")
m("forwarding-loop", "C17", r, "            // This check is to avoid looping.\n            ensure!(self.driver.self_node_id() != leader_id);\n\n", "")
m("membership-acked-early", "C09", r, "            rx.await?;\n", "            drop(rx);\n")
m("vote-response-without-term", "C10", r, "term: self.voter.read_ballot().await?.cur_term,", "term: candidate_term,")
m("log-last-index-wrong", "C16 C10", r, "log_last_index: self.command_log.get_log_last_index().await?,", "log_last_index: self.command_log.get_log_last_index().await?.saturating_sub(1),")
m("insert-count-one-less", "C16 C15", Q, "        Ok(n_inserted)\n", "        Ok(if n_inserted > 2 { n_inserted - 1 } else { n_inserted })\n")
PR = "process/command_log/producer.rs"
m("old-term-appends", "C03 C02", PR, "        ensure!(prev_clock.term == term, Error::NotLeader);\n", "")
m("stale-completion", "C05 C06 C17", PR, "                self.discard_completions_from(this_index);\n", "")
m("stale-completion-after-snapshot", "C05 C07", PR, "                self.discard_completions_from(0);\n", "")
m("snapshot-moves-no-commit", "C07 C08", PR, "                self.commit_pointer\n                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);\n", "")
m("snapshot-moves-no-kern", "C07 C08", PR, "                self.kern_pointer\n                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);\n", "")
m("snapshot-moves-user-back", "C04 C07", PR, "                self.user_pointer\n                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);\n", "                self.user_pointer\n                    .store(snapshot_index - 1, Ordering::SeqCst);\n")
m("snapshot-not-fetched-over-old", "C07 C15", PR, "        if self.is_covered_by_snapshot(entry) {\n            return Ok(());\n        }\n", "        if self.is_covered_by_snapshot(entry) || self.snapshot_pointer.load(Ordering::SeqCst) > 1 {\n            return Ok(());\n        }\n")
m("fetch-failure-ignored", "C07", PR, "                    return Err(e);\n                }\n            }\n            _ => {}", "                    let _ = e;\n                }\n            }\n            _ => {}")
m("consistency-by-index", "C02 C15", PR, "if prev_clock != entry.prev_clock {", "if prev_clock.index != entry.prev_clock.index {")
m("conflicts-kept", "C02 C15", PR, "                self.delete_conflicting_entries(this_index).await?;\n", "")
m("known-entries-inserted-again", "C03 C15", PR, "if old_clock == entry.this_clock {", "if old_clock == entry.this_clock && old_clock.index % 7 != 0 {")
m("same-index-skipped", "C02 C15", PR, "if old_clock == entry.this_clock {", "if old_clock.index == entry.this_clock.index && old_clock.term + 1 >= entry.this_clock.term {")
m("covered-entries-inserted", "C15 C07", PR, "        if self.is_covered_by_snapshot(&entry) {\n            return Ok(TryInsertResult::SkippedInsertion);\n        }\n", "")
m("appends-not-serialised", "C02 C05 C03", PR, "        let _g = self.append_lock.lock().await;\n\n        let prev_clock = self.get_log_last_clock().await?;\n        // Since", "        let prev_clock = self.get_log_last_clock().await?;\n        // Since")
m("failed-append-keeps-completion", "C05 C06 C17", PR, "        if let Err(e) = self.insert_entry(e).await {\n            self.discard_completions_from(append_index);\n", "        if let Err(e) = self.insert_entry(e).await {\n")
CM = "process/command_log/mod.rs"
m("snapshot-always-truncates", "C07 C03", CM, "if old_clock != Some(e.this_clock) {", "if true {")
m("snapshot-never-truncates", "C02 C07 C15", CM, "if old_clock != Some(e.this_clock) {", "if false {")
m("compaction-one-too-far", "C07", CM, "            .delete_entries_before(cur_snapshot_index)", "            .delete_entries_before(cur_snapshot_index + 1)")
m("snapshots-deleted-one-too-far", "C07", CM, "self.app.delete_snapshots_before(cur_snapshot_index).await?;", "self.app.delete_snapshots_before(cur_snapshot_index + 1).await?;")
m("snapshots-never-deleted", "C07", CM, "self.app.delete_snapshots_before(cur_snapshot_index).await?;", "let _ = cur_snapshot_index;")
m("log-never-compacted", "C07", CM, "            .delete_entries_before(cur_snapshot_index)", "            .delete_entries_before(cur_snapshot_index.min(1))")
m("older-snapshot-replaces", "C07 C15", CM, "        ensure!(new_snapshot_index >= cur_snapshot_index);\n", "")
m("any-snapshot-served", "C07 C19", CM, "        ensure!(index == cur_snapshot_index);\n", "        let _ = cur_snapshot_index;\n")
m("restart-at-oldest-snapshot", "C08 C07", CM, "            snapshot_index - 1\n", "            snapshot_index.saturating_sub(2)\n")
m("restart-counts-all-committed", "C03 C08 C15", CM, "self.commit_pointer.store(start_index, Ordering::SeqCst);", "self.commit_pointer.store(log_last_index, Ordering::SeqCst);")
CO = "process/command_log/consumer.rs"
m("completed-requests-again", "C06", CO, "                    response_cache.complete_response(&request_id);", "                    let _ = request_id;")
m("response-lost-when-client-left", "C06", CO, "                                response_cache.insert_response(request_id.clone(), resp);\n                            } else", "                                response_cache.complete_response(&request_id); let _ = resp;\n                            } else")
m("user-pointer-overwritten", "C07 C04", CO, "        self.user_pointer\n            .compare_exchange(\n                cur_user_index,\n                process_index,\n                Ordering::SeqCst,\n                Ordering::SeqCst,\n            )\n            .ok();", "        self.user_pointer.store(process_index, Ordering::SeqCst);")
m("kern-pointer-overwritten", "C07 C04", CO, "        self.kern_pointer\n            .compare_exchange(\n                cur_kern_index,\n                process_index,\n                Ordering::SeqCst,\n                Ordering::SeqCst,\n            )\n            .ok();", "        self.kern_pointer.store(process_index, Ordering::SeqCst);")
m("snapshot-of-the-future", "C07", CO, "            ensure!(proposed_snapshot_index <= self.user_pointer.load(Ordering::SeqCst));\n", "")
m("executes-uncommitted", "C03 C04", CO, "ensure!(cur_kern_index < self.commit_pointer.load(Ordering::SeqCst));", "ensure!(cur_kern_index <= self.commit_pointer.load(Ordering::SeqCst));")
m("kern-never-completes", "C09 C17", CO, "                kern_completion.complete();", "                drop(kern_completion);")
m("snapshot-entry-not-applied", "C07 C08", CO, "                    app.apply_snapshot(process_index).await?;", "                    app.apply_snapshot(process_index).await.ok();")
m("failed-write-skipped", "C04 C10", CO, "let resp = app.process_write(message, process_index).await?;", "let resp = app.process_write(message, process_index).await.unwrap_or_default();")
RC = "process/command_log/response_cache.rs"
m("small-request-memory", "C06", RC, "RecentSet::new(10000)", "RecentSet::new(4)")
m("evicts-newest", "C06", RC, "self.order.pop_front()", "self.order.pop_back()")
m("recent-set-small-and-evicts-wrong", "C06", RC, "RecentSet::new(10000)", "RecentSet::new(40)", "self.order.pop_front()", "self.order.pop_back()")
MS = "process/command_log/membership.rs"
m("membership-ignores-snapshot", "C07 C08", MS, "                Command::Snapshot { .. } => return Ok(Some(i)),\n                Command::ClusterConfiguration", "                Command::ClusterConfiguration")
m("first-snapshot-found", "C07 C08", MS, "for i in (1..=to).rev() {\n            let e = self.get_entry(i).await?;\n            match Command::deserialize(&e.command) {\n                Command::Snapshot { .. } => return Ok(Some(i)),\n                _", "for i in (2..=to).rev() {\n            let e = self.get_entry(i).await?;\n            match Command::deserialize(&e.command) {\n                Command::Snapshot { .. } => return Ok(Some(i)),\n                _")
QQ = "process/query_queue.rs"
m("query-one-early", "C05", QQ, "self.inner.range(..=upto)", "self.inner.range(..=upto + 1)")
QX = "process/thread/query_execution.rs"
m("query-by-kern", "C05", QX, "self.command_log.user_pointer.load", "self.command_log.commit_pointer.load")
CT = "process/thread/advance_commit.rs"
m("commits-older-terms", "C03 C16", CT, "            ensure!(new_commit_term == leader_term);\n", "            let _ = new_commit_term;\n")
m("commit-after-deposed", "C03 C16", CT, "            ensure!(self.voter.leader_term() == Some(leader_term));\n", "")
m("commit-without-configuration-lock", "C09 C16", CT, "        let _lk = self.configuration_lock.lock().await;\n", "")
VM = "process/voter/mod.rs"
m("safe-term-at-least", "C05", VM, "Ok(cur_safe_term == cur_term)", "Ok(cur_safe_term + 1 >= cur_term)")
CL = "process/raft_process/cluster.rs"
m("bootstrap-twice", "C09 C19", CL, "if self.peers.read_membership().is_empty() && req.server_id", "if self.peers.read_membership().len() <= 1 && req.server_id")
m("bootstrap-by-anyone", "C09 C19", CL, "if self.peers.read_membership().is_empty() && req.server_id == self.driver.self_node_id() {", "if self.peers.read_membership().is_empty() {")
HM = "communicator/heartbeat_multiplex.rs"
m("slow-shard-blocks-heartbeats", "C11", HM, "const MAX_INFLIGHT: usize = 32;", "const MAX_INFLIGHT: usize = 1;")
m("one-shard-per-beat", "C11 C18", HM, "let out = buf.drain();", "let out = buf.drain().into_iter().take(1).collect::<HashMap<_, _>>();")
m("newer-term-for-all-shards", "C11", HM, "self.newer_terms.remove(&shard_id)", "self.newer_terms.values().max().copied()")
m("newer-terms-dropped", "C10 C18", HM, "buf.lock().newer_terms.extend(resp.into_inner().newer_terms);", "let _ = (resp, buf);")
SV = "raft_service/mod.rs"
m("one-shard-fails-the-rest", "C11", SV, "for result in futures::future::join_all(futs).await {\n            let (shard_id, newer_term) = result.unwrap();", "for (shard_id, newer_term) in futures::future::try_join_all(futs).await.unwrap() {")
m("unknown-shard-fails-heartbeat", "C11 C19", SV, "if let Some(process) = self.node.get_process(shard_id) {", "if let Some(process) = Some(self.node.get_process(shard_id).unwrap()) {")
CS = "communicator/stream.rs"
m("broken-snapshot-looks-complete", "C07", CS, "    out_stream.map(|result| {", "    out_stream.take_while(|r| futures::future::ready(r.is_ok())).map(|result| {")
N = "node.rs"
m("detach-keeps-process", "C11", N, "self.process.write().remove(&shard_id);", "let p = self.process.write().remove(&shard_id); std::mem::forget(p);")
m("connections-per-wrong-shard", "C11", N, "Communicator::new(conn, self.shard_id)", "Communicator::new(conn, if self.shard_id > 1 { 1 } else { self.shard_id })")
L = "backends/redb/log.rs"
m("suffix-deletion-off-by-one", "C12", L, "tbl.retain_in(index.., |_, _| false)?;", "tbl.retain_in(index + 1.., |_, _| false)?;")
m("prefix-deletion-off-by-one", "C12", L, "tbl.retain_in(..i, |_, _| false)?;", "tbl.retain_in(..=i, |_, _| false)?;")
m("batch-in-first-shard", "C12 C11", L, "let mut tbl = tx.open_table(table_def(&e.space))?;", "let mut tbl = tx.open_table(table_def(&head.space))?;")
m("acknowledged-before-commit", "C13", L, "        tx.commit()?;\n\n        for notifier in notifiers {\n            notifier.send(()).ok();\n        }", "        for notifier in notifiers {\n            notifier.send(()).ok();\n        }\n        tx.commit()?;")
m("large-batches-not-durable", "C13", L, "        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&head", "        let mut tx = self.db.begin_write()?;\n        if tail.len() > 2 { tx.set_durability(redb::Durability::None); }\n        {\n            let mut tbl = tx.open_table(table_def(&head")
m("prev-term-lost", "C12", L, "prev_term: x.prev_clock.term,", "prev_term: x.prev_clock.term.min(x.this_clock.term).min(u32::MAX as u64),")
m("batch-skips-overwritten", "C12", L, "            apply(&mut tbl, e.index, e.inner)?;", "            if e.inner.is_none() || tbl.get(e.index)?.is_none() { apply(&mut tbl, e.index, e.inner)?; }")
m("prefix-deletion-not-durable", "C13", L, "        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;\n            tbl.retain_in(..i", "        let mut tx = self.db.begin_write()?;\n        tx.set_durability(redb::Durability::None);\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;\n            tbl.retain_in(..i")
B = "backends/redb/ballot.rs"
m("ballot-reset-at-open", "C13 C12", B, "if tbl.is_empty()? {", "if tbl.is_empty()? || value::desr(&tbl.get(())?.unwrap().value()).cur_term % 8 == 7 {")
m("ballot-of-shard-prefix", "C12 C11", B, "let space = format!(\"ballot-{shard_id}\");", "let space = format!(\"ballot-{}\", shard_id % 16);")

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    a = sys.argv[1:]
    scale = a[a.index("--scale") + 1] if "--scale" in a else "1"
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    out = a[-1]
    os.makedirs(W, exist_ok=True)
    sh(f"rm -rf {W}/repo; git clone -q /repo {W}/repo; mkdir -p {W}/h {W}/v; cp -r {V}/known {V}/known-findings.json {W}/v/; cp /repo/Cargo.lock {W}/repo/ 2>/dev/null")
    sh(f"rsync -a --exclude target {V}/harness/ {W}/h/; sed -i 's#/repo/sorock#{W}/repo/sorock#' {W}/h/Cargo.toml")
    done = set(l.split()[0] for l in open(out)) if os.path.exists(out) else set()
    names = [x[0] for x in M if x]
    assert len(set(names)) == len(names)
    allc = [f"C{i:02}" for i in range(1, 20)]
    todo = [x for x in M if (only is None or x[0] in only) and x[0] not in done]
    # first check that each applies
    for name, checks, file, pairs in todo:
        s = open(f"{W}/repo/sorock/src/{file}").read()
        for o, n in pairs:
            if s.count(o) < 1: print("DOES NOT APPLY", name, s.count(o))
    for name, checks, file, pairs in todo:
        p = f"{W}/repo/sorock/src/{file}"
        s0 = s = open(p).read()
        if any(o not in s for o, n in pairs): continue
        for o, n in pairs: s = s.replace(o, n, 1)
        open(p, "w").write(s)
        b = sh(f"cd {W}/h && CARGO_NET_OFFLINE=true nice -n 10 cargo build --release --offline")
        res = None
        if b.returncode != 0:
            res = "NOBUILD " + " ".join(re.findall(r"error.*", b.stdout)[:2])
        else:
            order = checks + ([c for c in allc if c not in checks] if "--all" in a else [])
            tried = []
            for c in order:
                t = time.time()
                x = sh(f"cd {W}/h && VP_SCALE={scale} VP_VERIF={W}/v VERIF_SEED=1 nice -n 10 timeout 600 target/release/vp check {c} quick")
                tried.append(c)
                v = re.findall(r"VIOLATION property=(\S+)", x.stdout)
                if x.returncode == 1 and v:
                    k = [l for l in x.stdout.splitlines() if l.strip()]
                    res = f"caught {c} {time.time()-t:.0f}s | " + next((l for l in k if "VIOLATION" not in l and c in l), "")[:160]
                    break
                if x.returncode not in (0, 1):
                    res = f"EXIT{x.returncode} {c} | " + x.stdout.strip().splitlines()[-1][:160]
                    break
            if res is None: res = "MISSED " + ",".join(tried)
        open(p, "w").write(s0)
        with open(out, "a") as f: f.write(f"{name} {res}\n")
main()
