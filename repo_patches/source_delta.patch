From c547e3781b91236a55535f15d6ff3943c06cbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 01/26] hook: let the verification harness supply an in-memory
 transport (cfg verif_hooks)

---
 sorock/src/communicator/mod.rs |  4 ++++
 sorock/src/lib.rs              |  3 +++
 sorock/src/verif_hooks.rs      | 23 +++++++++++++++++++++++
 3 files changed, 30 insertions(+)
 create mode 100644 sorock/src/verif_hooks.rs

diff --git a/sorock/src/communicator/mod.rs b/sorock/src/communicator/mod.rs
index cce561c..a7c396d 100644
--- a/sorock/src/communicator/mod.rs
+++ b/sorock/src/communicator/mod.rs
@@ -31,7 +31,11 @@ impl RaftConnection {
                 // (http2) Send ping even if there is no active streams (default: disabled)
                 .keep_alive_while_idle(true);
 
+            #[cfg(not(verif_hooks))]
             let chan = endpoint.connect_lazy();
+            // The verification harness may supply an in-memory transport.
+            #[cfg(verif_hooks)]
+            let chan = crate::verif_hooks::connect(&self_node_id.0, &dest_node_id.0, endpoint);
             raft::RaftClient::new(chan)
         };
 
diff --git a/sorock/src/lib.rs b/sorock/src/lib.rs
index f91246b..1929be9 100644
--- a/sorock/src/lib.rs
+++ b/sorock/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(unused_must_use)]
+#![allow(unexpected_cfgs)]
 
 pub mod process;
 
@@ -20,6 +21,8 @@ use std::sync::Arc;
 use std::time::Duration;
 use tonic::transport::Uri;
 pub mod reflection_service;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 mod generated {
     pub mod sorock;
diff --git a/sorock/src/verif_hooks.rs b/sorock/src/verif_hooks.rs
new file mode 100644
index 0000000..9cb3d60
--- /dev/null
+++ b/sorock/src/verif_hooks.rs
@@ -0,0 +1,23 @@
+//! Hooks for the verification harness. Compiled only with `--cfg verif_hooks`.
+
+use std::cell::RefCell;
+use tonic::transport::{Channel, Endpoint, Uri};
+
+type Connector = Box<dyn Fn(&Uri, &Uri, Endpoint) -> Channel>;
+
+thread_local! {
+    static CONNECTOR: RefCell<Option<Connector>> = const { RefCell::new(None) };
+}
+
+/// Replace how the connections from this thread are made.
+/// The arguments are the URI of the source node, the destination node and the configured endpoint.
+pub fn set_connector(f: Option<Connector>) {
+    CONNECTOR.with(|x| *x.borrow_mut() = f);
+}
+
+pub(crate) fn connect(src: &Uri, dest: &Uri, endpoint: Endpoint) -> Channel {
+    CONNECTOR.with(|x| match &*x.borrow() {
+        Some(f) => f(src, dest, endpoint),
+        None => endpoint.connect_lazy(),
+    })
+}
-- 
2.43.0


From fcf17dd2d42f592bbef44d92a7382ca1e92e7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 02/26] fix: redb log store decodes the term of an entry from
 the wrong field

An entry read back carried its predecessor's term.
---
 sorock/src/backends/redb/log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index 84b4ae8..e8b197e 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -31,7 +31,7 @@ mod value {
             },
             this_clock: Clock {
                 index: x.cur_index,
-                term: x.prev_term,
+                term: x.cur_term,
             },
             command: x.command,
         }
-- 
2.43.0


From 2ec3676b9737f640f744cce840ce90e53172c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 03/26] fix: stop the redb reaper thread when its backend is
 dropped

Otherwise the thread spins forever and never releases the database.
---
 sorock/src/backends/redb/log.rs | 9 ++++++---
 sorock/src/backends/redb/mod.rs | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index e8b197e..5328d6d 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -66,9 +66,12 @@ impl Reaper {
         (this, tx)
     }
 
-    pub fn reap(&self) -> Result<()> {
+    /// Returns false if there is no sender any more.
+    pub fn reap(&self) -> Result<bool> {
         // Blocked until the first element is received.
-        let head = self.rx.recv()?;
+        let Ok(head) = self.rx.recv() else {
+            return Ok(false);
+        };
         let tail = self.rx.drain();
 
         let mut notifiers = vec![];
@@ -89,7 +92,7 @@ impl Reaper {
         for notifier in notifiers {
             notifier.send(()).ok();
         }
-        Ok(())
+        Ok(true)
     }
 }
 
diff --git a/sorock/src/backends/redb/mod.rs b/sorock/src/backends/redb/mod.rs
index 701a072..b6ab862 100644
--- a/sorock/src/backends/redb/mod.rs
+++ b/sorock/src/backends/redb/mod.rs
@@ -18,8 +18,9 @@ impl Backend {
         let db = Arc::new(redb);
 
         let (reaper, tx) = log::Reaper::new(db.clone());
-        std::thread::spawn(move || loop {
-            reaper.reap().ok();
+        std::thread::spawn(move || {
+            // An error in the database is reported to the waiting inserts by dropping the notifiers.
+            while reaper.reap().unwrap_or(true) {}
         });
 
         Self { db, tx }
-- 
2.43.0


From 8b3205da05d20ffb62167acc69ee99d850459eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 04/26] fix: delete conflicting log entries when a follower
 overwrites its log

Entries after the overwritten index used to survive as a tail of another term.
---
 sorock/src/backends/redb/log.rs            | 39 +++++++++++++++++-----
 sorock/src/process/command_log/mod.rs      | 18 ++++++++++
 sorock/src/process/command_log/producer.rs |  4 +++
 sorock/src/process/mod.rs                  |  3 ++
 4 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index 5328d6d..244a22a 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -42,13 +42,27 @@ fn table_def(space: &str) -> redb::TableDefinition<u64, Vec<u8>> {
     redb::TableDefinition::new(space)
 }
 
+/// Operations are processed in the order they are queued.
 struct LazyInsert {
     index: Index,
-    inner: Entry,
+    /// If it is None, all the entries in `[index, ]` are deleted.
+    inner: Option<Entry>,
     space: String,
     notifier: oneshot::Sender<()>,
 }
 
+fn apply(tbl: &mut redb::Table<u64, Vec<u8>>, index: Index, inner: Option<Entry>) -> Result<()> {
+    match inner {
+        Some(e) => {
+            tbl.insert(index, value::ser(e))?;
+        }
+        None => {
+            tbl.retain_in(index.., |_, _| false)?;
+        }
+    }
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct Sender {
     tx: flume::Sender<LazyInsert>,
@@ -79,12 +93,12 @@ impl Reaper {
         let tx = self.db.begin_write()?;
         {
             let mut tbl = tx.open_table(table_def(&head.space))?;
-            tbl.insert(head.index, value::ser(head.inner))?;
+            apply(&mut tbl, head.index, head.inner)?;
             notifiers.push(head.notifier);
         }
         for e in tail {
             let mut tbl = tx.open_table(table_def(&e.space))?;
-            tbl.insert(e.index, value::ser(e.inner))?;
+            apply(&mut tbl, e.index, e.inner)?;
             notifiers.push(e.notifier);
         }
         tx.commit()?;
@@ -118,13 +132,12 @@ impl LogStore {
         })
     }
 }
-#[async_trait]
-impl RaftLogStore for LogStore {
-    async fn insert_entry(&self, i: Index, e: Entry) -> Result<()> {
+impl LogStore {
+    async fn queue(&self, index: Index, inner: Option<Entry>) -> Result<()> {
         let (tx, rx) = oneshot::channel();
         let e = LazyInsert {
-            index: i,
-            inner: e,
+            index,
+            inner,
             space: self.space.clone(),
             notifier: tx,
         };
@@ -134,6 +147,16 @@ impl RaftLogStore for LogStore {
         rx.await?;
         Ok(())
     }
+}
+#[async_trait]
+impl RaftLogStore for LogStore {
+    async fn insert_entry(&self, i: Index, e: Entry) -> Result<()> {
+        self.queue(i, Some(e)).await
+    }
+
+    async fn delete_entries_from(&self, i: Index) -> Result<()> {
+        self.queue(i, None).await
+    }
 
     async fn delete_entries_before(&self, i: Index) -> Result<()> {
         let tx = self.db.begin_write()?;
diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index ccc0bb5..01cea59 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -109,6 +109,16 @@ impl Inner {
             return Ok(());
         }
 
+        // If the log holds the entry which is replaced by the snapshot then the entries after it
+        // are retained otherwise they may conflict with the snapshot.
+        let old_clock = self
+            .storage
+            .get_entry(new_snapshot_index)
+            .await?
+            .map(|e| e.this_clock);
+        if old_clock != Some(e.this_clock) {
+            self.delete_conflicting_entries(new_snapshot_index).await?;
+        }
         self.storage.insert_entry(new_snapshot_index, e).await?;
 
         self.snapshot_pointer
@@ -146,6 +156,14 @@ impl Inner {
         Ok(())
     }
 
+    /// Delete the entries in `[index, ]`.
+    pub async fn delete_conflicting_entries(&self, index: Index) -> Result<()> {
+        if self.get_log_last_index().await? >= index {
+            self.storage.delete_entries_from(index).await?;
+        }
+        Ok(())
+    }
+
     pub fn allow_queue_new_membership(&self) -> bool {
         self.commit_pointer.load(Ordering::SeqCst) >= self.membership_pointer.load(Ordering::SeqCst)
     }
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index f8b5d9e..b4848e6 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -125,6 +125,10 @@ impl CommandLog {
                     }
                 }
 
+                // If an existing entry conflicts with the new one,
+                // delete the existing entry and all that follow it.
+                self.delete_conflicting_entries(this_index).await?;
+
                 self.insert_entry(entry).await?;
 
                 // discard [this_index, )
diff --git a/sorock/src/process/mod.rs b/sorock/src/process/mod.rs
index 47f897e..58e9c03 100644
--- a/sorock/src/process/mod.rs
+++ b/sorock/src/process/mod.rs
@@ -129,6 +129,9 @@ pub trait RaftLogStore: Sync + Send + 'static {
     /// Delete all the entries in `[, i)` from the log.
     async fn delete_entries_before(&self, i: Index) -> Result<()>;
 
+    /// Delete all the entries in `[i, ]` from the log.
+    async fn delete_entries_from(&self, i: Index) -> Result<()>;
+
     /// Get the entry at index `i` from the log.
     async fn get_entry(&self, i: Index) -> Result<Option<Entry>>;
 
-- 
2.43.0


From 9dc4e773c54b75fa6eeb65162851b7fa2b126789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 05/26] fix: a follower accepts entries only from the leader of
 the current term

The replication stream didn't carry the term of the sender, so a superseded
leader could overwrite entries and count acknowledgements it didn't get in its term.
---
 sorock/proto/sorock.proto                  |   1 +
 sorock/src/communicator/stream.rs          |   1 +
 sorock/src/error.rs                        |   2 +
 sorock/src/generated/sorock.rs             |   2 +
 sorock/src/generated/sorock_descriptor.bin | Bin 8671 -> 8760 bytes
 sorock/src/process/api.rs                  |   2 +
 sorock/src/process/command_log/producer.rs |  24 ++++++--
 sorock/src/process/peer_svc/replication.rs |  61 ++++++++++++++-------
 sorock/src/process/raft_process/queue.rs   |  26 +++++++--
 sorock/src/process/thread/replication.rs   |   7 +--
 sorock/src/process/voter/election.rs       |   1 +
 sorock/src/process/voter/heartbeat.rs      |  36 ++++++++++++
 sorock/src/process/voter/mod.rs            |  12 ++++
 sorock/src/raft_service/stream.rs          |  40 ++++++++------
 14 files changed, 164 insertions(+), 51 deletions(-)

diff --git a/sorock/proto/sorock.proto b/sorock/proto/sorock.proto
index e42daf5..1bc7d85 100644
--- a/sorock/proto/sorock.proto
+++ b/sorock/proto/sorock.proto
@@ -41,6 +41,7 @@ message ReplicationStreamHeader {
   uint32 shard_id = 1;
   string sender_id = 2;
   Clock prev_clock = 3;
+  uint64 sender_term = 4;
 }
 message ReplicationStreamEntry {
   Clock clock = 1;
diff --git a/sorock/src/communicator/stream.rs b/sorock/src/communicator/stream.rs
index a61c01b..e978f16 100644
--- a/sorock/src/communicator/stream.rs
+++ b/sorock/src/communicator/stream.rs
@@ -12,6 +12,7 @@ pub fn into_external_replication_stream(
             term: st.prev_clock.term,
             index: st.prev_clock.index,
         }),
+        sender_term: st.sender_term,
     }))];
     let header_stream = futures::stream::iter(header_stream);
 
diff --git a/sorock/src/error.rs b/sorock/src/error.rs
index 471c620..67c272a 100644
--- a/sorock/src/error.rs
+++ b/sorock/src/error.rs
@@ -17,4 +17,6 @@ pub enum Error {
     PeerNotFound(NodeId),
     #[error("process not found (shard_id={0})")]
     ProcessNotFound(ShardId),
+    #[error("the sender isn't the leader of the current term. (sender_term={0})")]
+    StaleLeader(u64),
 }
diff --git a/sorock/src/generated/sorock.rs b/sorock/src/generated/sorock.rs
index 63a6cb2..ed02634 100644
--- a/sorock/src/generated/sorock.rs
+++ b/sorock/src/generated/sorock.rs
@@ -50,6 +50,8 @@ pub struct ReplicationStreamHeader {
     pub sender_id: ::prost::alloc::string::String,
     #[prost(message, optional, tag = "3")]
     pub prev_clock: ::core::option::Option<Clock>,
+    #[prost(uint64, tag = "4")]
+    pub sender_term: u64,
 }
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ReplicationStreamEntry {
diff --git a/sorock/src/generated/sorock_descriptor.bin b/sorock/src/generated/sorock_descriptor.bin
index e2263d1a4e5519783433ef330325ad06bc320eb1..a4f2cc51395f010b6015e795f346d9f5a1e6009d 100644
GIT binary patch
delta 2578
zcmX|D*-jis6s@kV>8|b`mMK;PHVmr~t66Lo8Em#;vrJ-$A(Fw0nJAKR*f+oQL!|rw
zKaiK?IT9~Xo}&DSKO#~dqnulHd*0^MJ?GS^?e=_G{A20&-Y}hwqgd)5<9CYLSjV0=
zewSFbgNgg;2D`<e9rTP(Kiy!D7_fs7(N8znD?069Y<&9Z2Kz+O4t5)#e!9WOqW%8Y
zaNm>nWB0k})|0<@cWIm!O?#Z2mw!AgpB-G3&ptJ)4)3x0I(9?b7`gv1{vnKhYmWn?
zg!p`aY<^bW;N8EC_h}L<m6N{l2jqh|ALj_<2<Z%A1p`rihKSkJ9LKR#FdGu19)9~O
z0BcA;ipegJ!uZ3|SP4KtD9jLu!@4R%Dg1_O3#>zJM7pU0=^@5QMdwjX*RalmY{b;r
z7@<*5#8Vd|1nUW6<Pjs(!l*Gh>01pDYGXQYrwS?Jxax~jS~3taj;mJ3l*Alw>&y`5
z8t>_49ZD0bhf5x06RIUcRBP?X5M&cw-8P~&YD&zyh#IUZU9@&urpPfZo2^DmfhAA#
z&I5rt9o1zu_)Rx9u@0pf*~TT>shNt5c4{VS%4(3!w6xk7kx|dZ3l}2->$z@8tzSgj
zF((_X1^|9@><0wqTvW(v@SCe|U>QpD(j|=Sfz4NB6k|TBW*HsWe8Jclu~7?R$;C)x
z&=$1wiz&vUbW;H!#v)$;AP^UEd~{$y@LQ~@wSI|FE8>;&OTb#ubv9l?b|qdF0PIQ}
z4+z9kR7kBKApA<atVE)=D%}nOK(|`a(Xv(}cehc4Y_*}0r<2BClkPSoQbM*?k&)$E
z)WEaRds}OM09mS3LTH^2699K=omUM6-MY@A_{79v(kn}(GX6$obqdpM$bctMkZpu+
zBSD00qp~;<H~EnzGR;|->2lC*hVGRmG6&rzzp}hhuf<nxlk;G`*7Y_<o;G=lZ!iGt
zwm1e5h+Cn%A3(6%!VRY0QDxK{@r@U!)I6#{d!uPPl&T`XZSF+?@Z08H1OjoJdl3-)
zw$Y2645b}ewCk_3XSP$3(V6W;?zNx>*-m?hjZvK%^;UfAmQ@YfTkU#LHO1KFI{<(f
zyX*%9;x69-Ao%U_9jK;r-jg#n1^~`-Pr8l(M782%R)cJBDnA{sVmoS#dMDoB{nNIZ
zzSC|+HI!hV&ldm*_BjC%toHd$0>NsZ&$osW9B^;|$POwpN^rozQG@IN!CxUjtx+Gu
z_g>4(yFVYUrysPtW3`mwkTU?l?2yfXV0OqEfM9mW8EPp*nKJ-DR<6h>Lzy$623Z*y
z{`L@}VAMzP$!od$>Cs>5M{VrM7AV6JX8?fN5t{+Q?1(b}!R!bbaKQrf{$ugk9&A9Y
zW7qiuL3Sr{h)#h3N+&^*A-v#|yzRy*72$W%H9#?dz&w=$%%oME262X<J56l+BqC&|
z#eSBdbS6toB$KniP5`2$T8sUd5Q6M%beU!JVLX@5SVwK(Jh1N>Odq=QI{M1d5~wMh
z_fN78P2oZ=a*5i&MPQ#Zhzhccf_)-{AiEfR$ujKfrCehfb%FFUuuTrk9CVlUeOVE@
z%drycaKW$SdoIzRfUCfMMIj5|dG)X>tHI=|+dd4c!Q^UrpG`vJU&|FH(kJ{naE%$v
z5W4HSY>z_BcRl(vqr&C-*%G_pPt}cl!6o|2-UPPuz(m93rXkxf4cSfq9Lpl(-^vA+
i(O2;{pno7m+S&-Z+eZ6-2|;%|@Z!7R<m~w3c>I4g*}c&K

delta 2487
zcmX|D*-jis6s@kV>8`FGmZ@R$*v9M*0vwhQz%j&tVFqwaWQZY>ArTNMGLeUUdFnjn
zJ>nbk9*LJcM)`~=Qa&NSkaMeU&)b~3=bSpV-JU;Q{k#18P@Jup#7LdmuurTQZ31n>
zelh9>1OL+x4u}yqh&uiBgM*^a4H_HLPd_*$dfniF4e6&Jd@8<hgM&7tpMLNY@#Oxu
zct4PTPuv%h+aSp9em2>CPx@n={MT(FtAx0{|JDAYf|0wf&il+5sW3V!J`Id9p^6Z3
zRCk-yC>2Rz!!c=1(G&<ogyI~5IHsF&6auxDSccLw*~X=yKq!|5RMRbaErafvEn{k_
zVyni*w2u*kHjWrY#E7-9YC?V%IuQ_R6T0Z;iYelxdg@Cq;-q?*BM>Ja_2mdtO%4vR
z45cYGXfj$_ECVcUN>!Li8K)lh<OsT{{s9+JTQwt|`-mE>8QtsrG{u;eT}}dkCC^Ho
zBM@hka*kj(+tJCg47EA=h-<V}a}6EEm`ghI8gz4&hb~59)eG^ZkCA}&LRXw$LNVrL
zhm!!nZl3LcK%7rXc@1{+ZS5KBP+O2bVj?NVLPJL}7LsPx1<);&tczi+S`^DZh5>6)
zw>vvSF_xsC3IKLXd;x$!T*B$m#v7Rl_${@xI=|Ga74h2prJ$|ovhz#HZ<Ut?0KZj^
z2L$3OFAE5Et8G3;Dp9IRzkvXdRU0x|RW-4h%Yh<v)%FgaPTH_0{cT94gs#@mk!LMw
zXPJbo*7bm80Bd}fsSI(Y)_B!Gkge%FN=QtcWoj~|QmJgX-dLT&bn7zW2^4hevENA$
zp<8dP4#W+9WvMJUl*<Z`ZN&bSp$6FoKeD1#Z^YMrkBfoL!Z*6j#V^t(Z}JrefZry^
z0D|9U?C%E<{5Elg>CrY>^;Uf2{hGjftNm^?k=>Sj;MM^EyDi>CAP~0_Y7kjL0m5&q
zv&+S3q7B}by{w}{+ivLS(6$r*T0n$s`$><B(QMT_@vV>14AwjCdr>pR*x@?>0J|Nw
z0}AYRxRdz)1_-|$z5~q^V^=<RF#vFwyV7?AAgc9F=QYT7XXi`}yU}9Rd-2`f>&Lb1
zz4i-gp#*z;yZ}hB#|ePow8xhh2u^!^ye$-9pMwKHw%?FZfPK!58f5#({S^YVT6G|P
z2r7$r<?i+DK+_#ls+BSvas~jH9kLk^%nmsN5X=raLn~!C;tT+g9W`W>;fOP!2H6oZ
z{1qTX$*K?Hr=W88PxqhM2W?%35@k5%3;-}YW-}m|9diaCm>nYn?pK7?|54n!gN=yw
z(Kr4`kX>Dl(IF5(sUD>{!UL`sT{q6C2)}y&2*m&b^F)p?lU8vOnH)iPlDhUuM95Bh
zhgpWwsjM=QOim*=0f>@nmBG9Q+3ENS%jg4lCTF-tZQv|&&l$Q9y0bEU<Y)=h6wZdH
zS%;o*E|<APUEn-&&lyAo*?Gym5JHfhk1nzdyLutlSVmnSyNKNV2D1R&MVtFn5`ykx
zvdTK#?@ReT>*zngW#qo1AV%=KeB7VcU~)O&-UZcQa=Eh4Cb12#<SG;C3w{-qT!RHO
zhVH7I?@^5TuEsylsc^ZPdBraHJ9I5ya)~~&*O6;HFwro%ZqGMNLv}s9z_P@KH*$$(
h^ijNtsKNBo)+W&1bhzhB2)dh*mj}_wS^c6u^*=x8u7Cgl

diff --git a/sorock/src/process/api.rs b/sorock/src/process/api.rs
index dcd70f4..e48cec3 100644
--- a/sorock/src/process/api.rs
+++ b/sorock/src/process/api.rs
@@ -46,6 +46,8 @@ pub mod request {
 
     pub struct ReplicationStream {
         pub sender_id: NodeId,
+        /// The term of the sender as the leader.
+        pub sender_term: Term,
         pub prev_clock: Clock,
         pub entries: std::pin::Pin<
             Box<dyn futures::stream::Stream<Item = Option<ReplicationStreamElem>> + Send>,
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index b4848e6..4b696f2 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -43,14 +43,13 @@ impl CommandLog {
         Ok(append_index)
     }
 
-    pub async fn try_insert_entry(
+    /// Make the entry ready to be inserted.
+    pub async fn prepare_insert_entry(
         &self,
-        entry: Entry,
+        entry: &Entry,
         sender_id: NodeId,
         driver: RaftDriver,
-    ) -> Result<TryInsertResult> {
-        // If the entry is snapshot then we should insert this entry without consistency checks.
-        // Old entries before the new snapshot will be garbage collected.
+    ) -> Result<()> {
         match Command::deserialize(&entry.command) {
             Command::Snapshot { .. } => {
                 let Clock {
@@ -74,6 +73,21 @@ impl CommandLog {
                     );
                     return Err(e);
                 }
+            }
+            _ => {}
+        }
+        Ok(())
+    }
+
+    pub async fn try_insert_entry(&self, entry: Entry) -> Result<TryInsertResult> {
+        // If the entry is snapshot then we should insert this entry without consistency checks.
+        // Old entries before the new snapshot will be garbage collected.
+        match Command::deserialize(&entry.command) {
+            Command::Snapshot { .. } => {
+                let Clock {
+                    term: _,
+                    index: snapshot_index,
+                } = entry.this_clock;
 
                 self.insert_snapshot(entry).await?;
 
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index 38a24bf..fd896f4 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -4,21 +4,29 @@ impl PeerSvc {
     /// Prepare a replication stream from the log entries `[l, r)`.
     async fn prepare_replication_stream(
         selfid: NodeId,
+        leader_term: Term,
         command_log: Ref<CommandLog>,
         l: Index,
         r: Index,
     ) -> Result<request::ReplicationStream> {
         let head = command_log.get_entry(l).await?;
+        let prev_clock = head.prev_clock;
 
         let st = async_stream::stream! {
+            let mut prev_clock = prev_clock;
             for idx in l..r {
                 let x = command_log.get_entry(idx).await;
                 let e = match x {
-                    Ok(x) => Some(request::ReplicationStreamElem {
-                        this_clock: x.this_clock,
-                        command: x.command,
-                    }),
-                    Err(_) => None,
+                    // If this node isn't the leader any more, the log may be overwritten by the new leader.
+                    // In this case, the entries don't form the log of this term.
+                    Ok(x) if x.prev_clock == prev_clock && x.this_clock.term <= leader_term => {
+                        prev_clock = x.this_clock;
+                        Some(request::ReplicationStreamElem {
+                            this_clock: x.this_clock,
+                            command: x.command,
+                        })
+                    }
+                    _ => None,
                 };
                 yield e;
             }
@@ -26,12 +34,36 @@ impl PeerSvc {
 
         Ok(request::ReplicationStream {
             sender_id: selfid,
-            prev_clock: head.prev_clock,
+            sender_term: leader_term,
+            prev_clock,
             entries: Box::pin(st),
         })
     }
 
-    pub async fn advance_replication(&self, follower_id: NodeId) -> Result<()> {
+    /// Update the progress only if this node is still the leader of the term
+    /// because the progress is initialized on becoming the leader.
+    fn update_progress(
+        &self,
+        follower_id: NodeId,
+        new_progress: ReplicationProgress,
+        leader_term: Term,
+        voter: &Voter,
+    ) -> Result<()> {
+        let mut peer_contexts = self.peer_contexts.write();
+        ensure!(voter.leader_term() == Some(leader_term));
+        peer_contexts
+            .get_mut(&follower_id)
+            .context(Error::PeerNotFound(follower_id.clone()))?
+            .progress = new_progress;
+        Ok(())
+    }
+
+    pub async fn advance_replication(
+        &self,
+        follower_id: NodeId,
+        leader_term: Term,
+        voter: Ref<Voter>,
+    ) -> Result<()> {
         let peer_context = self
             .peer_contexts
             .read()
@@ -54,11 +86,7 @@ impl PeerSvc {
                 old_progress.next_index, follower_id,
             );
             let new_progress = ReplicationProgress::new(cur_snapshot_index);
-            self.peer_contexts
-                .write()
-                .get_mut(&follower_id)
-                .context(Error::PeerNotFound(follower_id.clone()))?
-                .progress = new_progress;
+            self.update_progress(follower_id, new_progress, leader_term, &voter)?;
             return Ok(());
         }
 
@@ -68,6 +96,7 @@ impl PeerSvc {
 
         let out_stream = Self::prepare_replication_stream(
             self.driver.self_node_id(),
+            leader_term,
             self.command_log.clone(),
             old_progress.next_index,
             old_progress.next_index + n,
@@ -98,12 +127,6 @@ impl PeerSvc {
             },
         };
 
-        self.peer_contexts
-            .write()
-            .get_mut(&follower_id)
-            .context(Error::PeerNotFound(follower_id.clone()))?
-            .progress = new_progress;
-
-        Ok(())
+        self.update_progress(follower_id, new_progress, leader_term, &voter)
     }
 }
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 47f2a29..715440e 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -31,6 +31,14 @@ impl RaftProcess {
     ) -> Result<u64> {
         let mut prev_clock = req.prev_clock;
         let mut n_inserted = 0;
+
+        // Reject the stream from a stale leader even if it has no entry.
+        drop(
+            self.voter
+                .accept_leader(req.sender_id.clone(), req.sender_term)
+                .await?,
+        );
+
         while let Some(Some(cur)) = req.entries.next().await {
             let entry = Entry {
                 prev_clock,
@@ -39,11 +47,19 @@ impl RaftProcess {
             };
             let insert_index = entry.this_clock.index;
             let command = entry.command.clone();
-            match self
-                .command_log
-                .try_insert_entry(entry, req.sender_id.clone(), self.driver.clone())
-                .await?
-            {
+
+            // If the entry is snapshot then the snapshot should be fetched before the insertion.
+            // This may take long so it is done before locking the current term.
+            self.command_log
+                .prepare_insert_entry(&entry, req.sender_id.clone(), self.driver.clone())
+                .await?;
+
+            let _lk = self
+                .voter
+                .accept_leader(req.sender_id.clone(), req.sender_term)
+                .await?;
+
+            match self.command_log.try_insert_entry(entry).await? {
                 command_log::TryInsertResult::Inserted => {
                     self.process_configuration_command(&command, insert_index)
                         .await?
diff --git a/sorock/src/process/thread/replication.rs b/sorock/src/process/thread/replication.rs
index e29307d..c06e3b1 100644
--- a/sorock/src/process/thread/replication.rs
+++ b/sorock/src/process/thread/replication.rs
@@ -10,13 +10,12 @@ pub struct Thread {
 }
 impl Thread {
     async fn advance_once(&self) -> Result<bool> {
-        let election_state = self.voter.read_election_state();
-        if !std::matches!(election_state, voter::ElectionState::Leader) {
+        let Some(leader_term) = self.voter.leader_term() else {
             return Ok(false);
-        }
+        };
 
         self.peers
-            .advance_replication(self.follower_id.clone())
+            .advance_replication(self.follower_id.clone(), leader_term, self.voter.clone())
             .await?;
 
         Ok(true)
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 1047ebb..4046b29 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -227,6 +227,7 @@ impl Voter {
             // Initialize replication progress
             self.peers.reset_progress(index);
 
+            self.leader_term.store(vote_term, Ordering::SeqCst);
             self.write_election_state(ElectionState::Leader);
         } else {
             info!("failed to become leader. now back to follower");
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 9d7ddaf..d2d2ce5 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -41,6 +41,42 @@ impl Voter {
         Ok(())
     }
 
+    /// Make sure the sender of entries is the leader of the current term.
+    /// Until the returned guard is dropped, the current term doesn't change.
+    pub async fn accept_leader(
+        &self,
+        leader_id: NodeId,
+        leader_term: Term,
+    ) -> Result<tokio::sync::MutexGuard<'_, ()>> {
+        let lk = self.vote_lock.lock().await;
+
+        let ballot = self.read_ballot().await?;
+        ensure!(
+            leader_term >= ballot.cur_term,
+            Error::StaleLeader(leader_term)
+        );
+        if leader_term == ballot.cur_term {
+            // Only one leader can be elected per a term.
+            ensure!(
+                self.leader_term() != Some(leader_term),
+                Error::StaleLeader(leader_term)
+            );
+        } else {
+            warn!("received entries with newer term. reset ballot");
+            self.write_election_state(ElectionState::Follower);
+        }
+
+        let new_ballot = Ballot {
+            cur_term: leader_term,
+            voted_for: Some(leader_id),
+        };
+        if new_ballot != ballot {
+            self.write_ballot(new_ballot).await?;
+        }
+
+        Ok(lk)
+    }
+
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
         let ballot = self.read_ballot().await?;
         let leader_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
diff --git a/sorock/src/process/voter/mod.rs b/sorock/src/process/voter/mod.rs
index 34c4a21..6737d79 100644
--- a/sorock/src/process/voter/mod.rs
+++ b/sorock/src/process/voter/mod.rs
@@ -15,6 +15,8 @@ pub enum ElectionState {
 
 pub struct Inner {
     state: spin::Mutex<ElectionState>,
+    /// The last term when this node became the leader.
+    leader_term: AtomicU64,
     ballot: Box<dyn RaftBallotStore>,
 
     /// Serializing any events that may change ballot state simplifies the voter's logic.
@@ -40,6 +42,7 @@ impl Voter {
     ) -> Self {
         let inner = Inner {
             state: spin::Mutex::new(ElectionState::Follower),
+            leader_term: AtomicU64::new(0),
             ballot: Box::new(ballot_store),
             vote_lock: tokio::sync::Mutex::new(()),
             safe_term: AtomicU64::new(0),
@@ -62,6 +65,15 @@ impl Voter {
         *self.state.lock() = e;
     }
 
+    /// The term of the leadership if this node is the leader.
+    pub fn leader_term(&self) -> Option<Term> {
+        let state = self.state.lock();
+        match *state {
+            ElectionState::Leader => Some(self.leader_term.load(Ordering::SeqCst)),
+            _ => None,
+        }
+    }
+
     pub async fn read_ballot(&self) -> Result<Ballot> {
         self.ballot.load_ballot().await
     }
diff --git a/sorock/src/raft_service/stream.rs b/sorock/src/raft_service/stream.rs
index 5ff4e0b..a250adb 100644
--- a/sorock/src/raft_service/stream.rs
+++ b/sorock/src/raft_service/stream.rs
@@ -6,28 +6,31 @@ pub async fn into_internal_replication_stream(
     use raft::replication_stream_chunk::Elem as ChunkElem;
 
     // Get the header of the stream
-    let (shard_id, sender_id, prev_clock) = if let Some(Ok(chunk)) = out_stream.next().await {
-        let e = chunk.elem.context(Error::BadReplicationStream)?;
-        if let ChunkElem::Header(raft::ReplicationStreamHeader {
-            shard_id,
-            sender_id,
-            prev_clock: Some(prev_clock),
-        }) = e
-        {
-            (
+    let (shard_id, sender_id, sender_term, prev_clock) =
+        if let Some(Ok(chunk)) = out_stream.next().await {
+            let e = chunk.elem.context(Error::BadReplicationStream)?;
+            if let ChunkElem::Header(raft::ReplicationStreamHeader {
                 shard_id,
                 sender_id,
-                Clock {
-                    term: prev_clock.term,
-                    index: prev_clock.index,
-                },
-            )
+                prev_clock: Some(prev_clock),
+                sender_term,
+            }) = e
+            {
+                (
+                    shard_id,
+                    sender_id,
+                    sender_term,
+                    Clock {
+                        term: prev_clock.term,
+                        index: prev_clock.index,
+                    },
+                )
+            } else {
+                bail!(Error::BadReplicationStream)
+            }
         } else {
             bail!(Error::BadReplicationStream)
-        }
-    } else {
-        bail!(Error::BadReplicationStream)
-    };
+        };
 
     // Get the entries of the stream
     let entries = async_stream::stream! {
@@ -49,6 +52,7 @@ pub async fn into_internal_replication_stream(
 
     let st = request::ReplicationStream {
         sender_id: sender_id.parse().unwrap(),
+        sender_term,
         prev_clock,
         entries: Box::pin(entries),
     };
-- 
2.43.0


From 69b797f9db02cda90340997faa19f395e4698abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 06/26] fix: commit by counting replicas only the entries from
 the current term

---
 sorock/src/error.rs                         |  2 ++
 sorock/src/process/thread/advance_commit.rs | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/sorock/src/error.rs b/sorock/src/error.rs
index 67c272a..1dd9202 100644
--- a/sorock/src/error.rs
+++ b/sorock/src/error.rs
@@ -13,6 +13,8 @@ pub enum Error {
     EntryNotFound(u64),
     #[error("leader is unknown")]
     LeaderUnknown,
+    #[error("this node isn't the leader")]
+    NotLeader,
     #[error("peer (node_id={0}) not found")]
     PeerNotFound(NodeId),
     #[error("process not found (shard_id={0})")]
diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index 6d078cb..0b496f0 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -10,16 +10,28 @@ pub struct Thread {
 }
 impl Thread {
     async fn run_once(&self) -> Result<()> {
-        let election_state = self.voter.read_election_state();
-        ensure!(std::matches!(election_state, voter::ElectionState::Leader));
+        let leader_term = self.voter.leader_term().context(Error::NotLeader)?;
 
         let cur_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
         let new_commit_index = self.peers.find_new_commit_index().await?;
 
         if new_commit_index > cur_commit_index {
+            // $5.4.2
+            // Only log entries from the leader's current term are committed by counting replicas.
+            // Entries from the previous terms are committed indirectly.
+            let new_commit_term = self
+                .command_log
+                .get_entry(new_commit_index)
+                .await?
+                .this_clock
+                .term;
+            ensure!(new_commit_term == leader_term);
+            // The replicas are counted as the leader of the term.
+            ensure!(self.voter.leader_term() == Some(leader_term));
+
             self.command_log
                 .commit_pointer
-                .store(new_commit_index, Ordering::SeqCst);
+                .fetch_max(new_commit_index, Ordering::SeqCst);
             self.producer.push_event(CommitEvent);
         }
 
-- 
2.43.0


From ffd4d2c4275c938e12c011fa3efab21e55254358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 07/26] fix: append entries only on the log of the leader's
 term and register the completion first

An append racing with a leadership change could reuse the term of another leader's entry,
and an entry could be applied before its completion was registered.
---
 sorock/src/process/command_log/consumer.rs | 13 ++--
 sorock/src/process/command_log/mod.rs      |  5 ++
 sorock/src/process/command_log/producer.rs | 75 +++++++++++++++++-----
 sorock/src/process/raft_process/queue.rs   |  6 +-
 sorock/src/process/voter/election.rs       |  8 +--
 5 files changed, 76 insertions(+), 31 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 4ed8600..34422de 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -1,7 +1,7 @@
 use super::*;
 
 impl CommandLog {
-    pub fn register_completion(&self, index: Index, completion: Completion) {
+    pub(super) fn register_completion(&self, index: Index, completion: Completion) {
         match completion {
             Completion::User(completion) => {
                 self.user_completions.lock().insert(index, completion);
@@ -92,9 +92,14 @@ impl CommandLog {
                                 // This should be queued and replicated to the followers.
                                 // Otherwise followers will never know the request is completed and the context will never be terminated.
                                 let command = Command::CompleteRequest { request_id };
-                                self.append_new_entry(Command::serialize(command), None)
-                                    .await
-                                    .ok();
+                                // The completion belongs to the leader of the term of the entry.
+                                self.append_new_entry(
+                                    Command::serialize(command),
+                                    e.this_clock.term,
+                                    None,
+                                )
+                                .await
+                                .ok();
                             }
                         }
                     }
diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index 01cea59..57523c4 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -143,6 +143,11 @@ impl Inner {
         Ok(last_log_index)
     }
 
+    async fn get_log_last_clock(&self) -> Result<Clock> {
+        let last_log_index = self.get_log_last_index().await?;
+        Ok(self.get_entry(last_log_index).await?.this_clock)
+    }
+
     // This function won't return None because every caller of this function
     // doesn't care about the non-existence of the entry.
     pub async fn get_entry(&self, index: Index) -> Result<Entry> {
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 4b696f2..4962c0c 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -16,21 +16,48 @@ pub enum TryInsertResult {
 }
 
 impl CommandLog {
-    /// Append a new entry to the log.
-    /// If `term` is None, then the term of the last entry is used.
-    /// Otherwise, the given term is used to update the term of the last entry.
-    pub async fn append_new_entry(&self, command: Bytes, term: Option<Term>) -> Result<Index> {
+    /// Append the first entry in the term.
+    pub async fn append_barrier(&self, term: Term) -> Result<Index> {
         let _g = self.append_lock.lock().await;
 
-        let cur_last_log_index = self.get_log_last_index().await?;
-        let prev_clock = self.get_entry(cur_last_log_index).await?.this_clock;
-        let append_index = cur_last_log_index + 1;
-        let this_term = match term {
-            Some(t) => t,
-            None => prev_clock.term,
-        };
+        let prev_clock = self.get_log_last_clock().await?;
+        self.append_after(
+            prev_clock,
+            Command::serialize(Command::Barrier(term)),
+            term,
+            None,
+        )
+        .await
+    }
+
+    /// Append a new entry to the log as the leader of the term.
+    pub async fn append_new_entry(
+        &self,
+        command: Bytes,
+        term: Term,
+        completion: Option<Completion>,
+    ) -> Result<Index> {
+        let _g = self.append_lock.lock().await;
+
+        let prev_clock = self.get_log_last_clock().await?;
+        // Since becoming the leader of the term, all entries in the log are appended by this node.
+        // Otherwise, the log is overwritten by the newer leader.
+        ensure!(prev_clock.term == term, Error::NotLeader);
+
+        self.append_after(prev_clock, command, term, completion)
+            .await
+    }
+
+    async fn append_after(
+        &self,
+        prev_clock: Clock,
+        command: Bytes,
+        term: Term,
+        completion: Option<Completion>,
+    ) -> Result<Index> {
+        let append_index = prev_clock.index + 1;
         let this_clock = Clock {
-            term: this_term,
+            term,
             index: append_index,
         };
         let e = Entry {
@@ -38,11 +65,27 @@ impl CommandLog {
             this_clock,
             command,
         };
-        self.insert_entry(e).await?;
+
+        // The completion should be ready before the entry can be processed.
+        self.discard_completions_from(append_index);
+        if let Some(completion) = completion {
+            self.register_completion(append_index, completion);
+        }
+
+        if let Err(e) = self.insert_entry(e).await {
+            self.discard_completions_from(append_index);
+            return Err(e);
+        }
 
         Ok(append_index)
     }
 
+    /// Discard completions in `[index, ]`.
+    fn discard_completions_from(&self, index: Index) {
+        self.user_completions.lock().split_off(&index);
+        self.kern_completions.lock().split_off(&index);
+    }
+
     /// Make the entry ready to be inserted.
     pub async fn prepare_insert_entry(
         &self,
@@ -80,6 +123,8 @@ impl CommandLog {
     }
 
     pub async fn try_insert_entry(&self, entry: Entry) -> Result<TryInsertResult> {
+        let _g = self.append_lock.lock().await;
+
         // If the entry is snapshot then we should insert this entry without consistency checks.
         // Old entries before the new snapshot will be garbage collected.
         match Command::deserialize(&entry.command) {
@@ -145,9 +190,7 @@ impl CommandLog {
 
                 self.insert_entry(entry).await?;
 
-                // discard [this_index, )
-                self.user_completions.lock().split_off(&this_index);
-                self.kern_completions.lock().split_off(&this_index);
+                self.discard_completions_from(this_index);
 
                 Ok(TryInsertResult::Inserted)
             }
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 715440e..d449338 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -6,16 +6,14 @@ impl RaftProcess {
         command: Bytes,
         completion: Completion,
     ) -> Result<Index> {
+        let leader_term = self.voter.leader_term().context(Error::NotLeader)?;
         ensure!(self.voter.allow_queue_new_entry().await?);
 
         let append_index = self
             .command_log
-            .append_new_entry(command.clone(), None)
+            .append_new_entry(command.clone(), leader_term, Some(completion))
             .await?;
 
-        self.command_log
-            .register_completion(append_index, completion);
-
         self.process_configuration_command(&command, append_index)
             .await?;
 
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 4046b29..5dfa972 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -215,13 +215,7 @@ impl Voter {
             info!("got enough votes from the cluster. promoted to leader");
 
             // As soon as the node becomes the leader, replicate noop entries with term.
-            let index = self
-                .command_log
-                .append_new_entry(
-                    Command::serialize(Command::Barrier(vote_term)),
-                    Some(vote_term),
-                )
-                .await?;
+            let index = self.command_log.append_barrier(vote_term).await?;
             info!("noop barrier is queued at index({index}) (term={vote_term})");
 
             // Initialize replication progress
-- 
2.43.0


From 5c8b7c0d71f0456b8805bf60a01c245cf6c026e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 08/26] fix: a heartbeat advances the commit index only over
 entries known to match the leader's log

A follower used to commit its own conflicting entries, and a stale heartbeat moved the index back.
---
 sorock/src/process/peer_svc/mod.rs    |  8 ++++++++
 sorock/src/process/voter/heartbeat.rs | 15 +++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index dd20fd6..313e506 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -203,6 +203,14 @@ impl PeerSvc {
         Ok(new_commit_index)
     }
 
+    pub fn read_match_index(&self, id: &NodeId) -> Result<Index> {
+        let peer_contexts = self.peer_contexts.read();
+        let peer = peer_contexts
+            .get(id)
+            .context(Error::PeerNotFound(id.clone()))?;
+        Ok(peer.progress.match_index)
+    }
+
     pub fn reset_progress(&self, init_next_index: Index) {
         let mut peer_contexts = self.peer_contexts.write();
         for (_, peer) in peer_contexts.iter_mut() {
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index d2d2ce5..2fbfe69 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -34,9 +34,10 @@ impl Voter {
 
         let new_commit_index =
             std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);
+        // What is once committed is never uncommitted.
         self.command_log
             .commit_pointer
-            .store(new_commit_index, Ordering::SeqCst);
+            .fetch_max(new_commit_index, Ordering::SeqCst);
 
         Ok(())
     }
@@ -78,10 +79,16 @@ impl Voter {
     }
 
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
-        let ballot = self.read_ballot().await?;
-        let leader_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
+        // The ballot may be already updated by the newer leader.
+        let leader_term = self.leader_term().context(Error::NotLeader)?;
+        // The follower may have entries that conflict with this log after the match index.
+        let leader_commit_index = std::cmp::min(
+            self.command_log.commit_pointer.load(Ordering::SeqCst),
+            self.peers.read_match_index(&follower_id)?,
+        );
+        ensure!(self.leader_term() == Some(leader_term));
         let req = request::Heartbeat {
-            leader_term: ballot.cur_term,
+            leader_term,
             leader_commit_index,
         };
         let conn = self.driver.connect(follower_id);
-- 
2.43.0


From e9556c73e8c28278bb33453a45d18415e5713e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 09/26] fix: a snapshot never moves the pointers back

- the snapshot index is restored on restart
- entries covered by the snapshot are not inserted again
- a snapshot that the log already covers is not installed
- a snapshot fetched but not inserted is not taken for the proposed one
- entries processed while a snapshot is inserted don't overwrite the pointers
---
 sorock/src/process/command_log/consumer.rs | 23 ++++++++++++--
 sorock/src/process/command_log/mod.rs      |  2 ++
 sorock/src/process/command_log/producer.rs | 36 ++++++++++++++++++++--
 3 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 34422de..b2447b3 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -17,6 +17,9 @@ impl CommandLog {
         let cur_snapshot_index = self.snapshot_pointer.load(Ordering::SeqCst);
         let proposed_snapshot_index = self.app.get_latest_snapshot().await?;
         if proposed_snapshot_index > cur_snapshot_index {
+            // The snapshot may be fetched from the leader but not inserted.
+            ensure!(proposed_snapshot_index <= self.user_pointer.load(Ordering::SeqCst));
+
             info!("found a newer proposed snapshot@{proposed_snapshot_index} > {cur_snapshot_index}. will move the snapshot index.");
 
             // Calculate membership at the new snapshot index
@@ -111,7 +114,15 @@ impl CommandLog {
             }
         }
 
-        self.user_pointer.store(process_index, Ordering::SeqCst);
+        // The pointer may be moved by the snapshot from the leader.
+        self.user_pointer
+            .compare_exchange(
+                cur_user_index,
+                process_index,
+                Ordering::SeqCst,
+                Ordering::SeqCst,
+            )
+            .ok();
 
         Ok(())
     }
@@ -145,7 +156,15 @@ impl CommandLog {
             }
         }
 
-        self.kern_pointer.store(process_index, Ordering::SeqCst);
+        // The pointer may be moved by the snapshot from the leader.
+        self.kern_pointer
+            .compare_exchange(
+                cur_kern_index,
+                process_index,
+                Ordering::SeqCst,
+                Ordering::SeqCst,
+            )
+            .ok();
 
         Ok(())
     }
diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index 57523c4..fde9468 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -69,6 +69,8 @@ impl CommandLog {
             // so we can restart from installing the snapshot.
             snapshot_index - 1
         };
+        self.snapshot_pointer
+            .store(snapshot_index, Ordering::SeqCst);
         self.commit_pointer.store(start_index, Ordering::SeqCst);
         self.kern_pointer.store(start_index, Ordering::SeqCst);
         self.user_pointer.store(start_index, Ordering::SeqCst);
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 4962c0c..6ffdc92 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -86,6 +86,17 @@ impl CommandLog {
         self.kern_completions.lock().split_off(&index);
     }
 
+    /// Entries in `[, snapshot_index]` are already committed and may be deleted from the log.
+    fn is_covered_by_snapshot(&self, entry: &Entry) -> bool {
+        entry.this_clock.index <= self.snapshot_pointer.load(Ordering::SeqCst)
+    }
+
+    /// If the log contains the same entry then it contains all the preceding entries.
+    async fn contains_entry(&self, entry: &Entry) -> Result<bool> {
+        let old_entry = self.storage.get_entry(entry.this_clock.index).await?;
+        Ok(old_entry.map(|e| e.this_clock) == Some(entry.this_clock))
+    }
+
     /// Make the entry ready to be inserted.
     pub async fn prepare_insert_entry(
         &self,
@@ -93,12 +104,18 @@ impl CommandLog {
         sender_id: NodeId,
         driver: RaftDriver,
     ) -> Result<()> {
+        if self.is_covered_by_snapshot(entry) {
+            return Ok(());
+        }
         match Command::deserialize(&entry.command) {
             Command::Snapshot { .. } => {
                 let Clock {
                     term: _,
                     index: snapshot_index,
                 } = entry.this_clock;
+                if self.contains_entry(entry).await? {
+                    return Ok(());
+                }
                 warn!(
                     "log is too old. replicated a snapshot (idx={}) from leader",
                     snapshot_index
@@ -125,6 +142,10 @@ impl CommandLog {
     pub async fn try_insert_entry(&self, entry: Entry) -> Result<TryInsertResult> {
         let _g = self.append_lock.lock().await;
 
+        if self.is_covered_by_snapshot(&entry) {
+            return Ok(TryInsertResult::SkippedInsertion);
+        }
+
         // If the entry is snapshot then we should insert this entry without consistency checks.
         // Old entries before the new snapshot will be garbage collected.
         match Command::deserialize(&entry.command) {
@@ -134,14 +155,23 @@ impl CommandLog {
                     index: snapshot_index,
                 } = entry.this_clock;
 
+                // The snapshot is not needed because the log already contains all the entries.
+                if self.contains_entry(&entry).await? {
+                    return Ok(TryInsertResult::SkippedInsertion);
+                }
+
                 self.insert_snapshot(entry).await?;
 
+                // The entries skipped by the snapshot are never processed.
+                self.discard_completions_from(0);
+
+                // The pointers are never moved back.
                 self.commit_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
                 self.kern_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
                 self.user_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
 
                 return Ok(TryInsertResult::Inserted);
             }
-- 
2.43.0


From 7fd2e61e0f3c1befe34d8c7257719f7ceefd5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 10/26] fix: a configuration is applied atomically with the log

- concurrent configuration changes could be made from the same configuration
- a cancelled request left a configuration in the log not applied
- truncating the log didn't restore the previous configuration
- a request forwarded to the node itself looped
---
 sorock/src/process/raft_process/mod.rs       |  5 ++
 sorock/src/process/raft_process/queue.rs     | 94 +++++++++++++++++---
 sorock/src/process/raft_process/responder.rs | 36 ++++----
 3 files changed, 102 insertions(+), 33 deletions(-)

diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index e06455c..4f19f1b 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -25,6 +25,10 @@ pub struct RaftProcess {
     peers: PeerSvc,
     query_tx: query_queue::Producer,
     driver: RaftDriver,
+
+    /// Serialize updating the log and applying the configuration in the log.
+    configuration_lock: tokio::sync::Mutex<()>,
+
     _thread_handles: ThreadHandles,
 
     queue_tx: thread::EventProducer<thread::QueueEvent>,
@@ -105,6 +109,7 @@ impl RaftProcess {
             peers,
             query_tx,
             driver,
+            configuration_lock: tokio::sync::Mutex::new(()),
             _thread_handles,
 
             queue_tx,
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index d449338..345312a 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -23,8 +23,75 @@ impl RaftProcess {
         Ok(append_index)
     }
 
-    pub(crate) async fn queue_received_entries(
+    /// Queue a new configuration which is made from the current configuration.
+    pub(crate) async fn queue_new_configuration(
+        &self,
+        req: kern_message::KernRequest,
+        completion: Completion,
+    ) -> Result<Index> {
+        // Without locking, concurrent requests may be made from the same configuration.
+        let _lk = self.configuration_lock.lock().await;
+
+        let mut membership = self.peers.read_membership();
+        match req {
+            kern_message::KernRequest::AddServer(id) => {
+                membership.insert(id);
+            }
+            kern_message::KernRequest::RemoveServer(id) => {
+                membership.remove(&id);
+            }
+        }
+        let command = Command::ClusterConfiguration { membership };
+
+        ensure!(self.command_log.allow_queue_new_membership());
+        self.queue_new_entry(Command::serialize(command), completion)
+            .await
+    }
+
+    /// Insert an entry from the leader and apply the configuration if needed.
+    async fn insert_received_entry(
         &self,
+        sender_id: NodeId,
+        sender_term: Term,
+        entry: Entry,
+    ) -> Result<command_log::TryInsertResult> {
+        let insert_index = entry.this_clock.index;
+        let command = entry.command.clone();
+
+        let _lk1 = self.voter.accept_leader(sender_id, sender_term).await?;
+        let _lk2 = self.configuration_lock.lock().await;
+
+        let result = self.command_log.try_insert_entry(entry).await?;
+
+        let membership_index = self.command_log.membership_pointer.load(Ordering::SeqCst);
+        match (&result, Command::deserialize(&command)) {
+            (
+                command_log::TryInsertResult::Inserted,
+                Command::Snapshot { .. } | Command::ClusterConfiguration { .. },
+            ) => {
+                self.process_configuration_command(&command, insert_index)
+                    .await?
+            }
+            (command_log::TryInsertResult::Inserted, _) if insert_index <= membership_index => {
+                // The last configuration is overwritten. Fallback to the previous one.
+                self.peers.restore_state(Ref(self.voter.clone())).await?
+            }
+            (
+                command_log::TryInsertResult::SkippedInsertion,
+                Command::ClusterConfiguration { .. },
+            ) if insert_index > membership_index => {
+                // Applying the configuration failed after the insertion.
+                self.process_configuration_command(&command, insert_index)
+                    .await?
+            }
+            _ => {}
+        }
+
+        Ok(result)
+    }
+
+    pub(crate) async fn queue_received_entries(
+        self: &Arc<Self>,
         mut req: request::ReplicationStream,
     ) -> Result<u64> {
         let mut prev_clock = req.prev_clock;
@@ -43,25 +110,26 @@ impl RaftProcess {
                 this_clock: cur.this_clock,
                 command: cur.command,
             };
-            let insert_index = entry.this_clock.index;
-            let command = entry.command.clone();
-
             // If the entry is snapshot then the snapshot should be fetched before the insertion.
             // This may take long so it is done before locking the current term.
             self.command_log
                 .prepare_insert_entry(&entry, req.sender_id.clone(), self.driver.clone())
                 .await?;
 
-            let _lk = self
-                .voter
-                .accept_leader(req.sender_id.clone(), req.sender_term)
-                .await?;
+            // The insertion should not be cancelled halfway when the sender cancels the request.
+            let result = {
+                let this = self.clone();
+                let sender_id = req.sender_id.clone();
+                let sender_term = req.sender_term;
+                tokio::spawn(async move {
+                    this.insert_received_entry(sender_id, sender_term, entry)
+                        .await
+                })
+                .await??
+            };
 
-            match self.command_log.try_insert_entry(entry).await? {
-                command_log::TryInsertResult::Inserted => {
-                    self.process_configuration_command(&command, insert_index)
-                        .await?
-                }
+            match result {
+                command_log::TryInsertResult::Inserted => {}
                 command_log::TryInsertResult::SkippedInsertion => {}
                 command_log::TryInsertResult::InconsistentInsertion { want, found } => {
                     warn!("rejected append entry (clock={:?}) for inconsisntency (want:{want:?} != found:{found:?}", cur.this_clock);
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index c7b0c7e..57b792c 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -2,7 +2,7 @@ use super::*;
 
 impl RaftProcess {
     pub(crate) async fn send_replication_stream(
-        &self,
+        self: &Arc<Self>,
         req: request::ReplicationStream,
     ) -> Result<response::ReplicationStream> {
         let n_inserted = self.queue_received_entries(req).await?;
@@ -13,7 +13,10 @@ impl RaftProcess {
         Ok(resp)
     }
 
-    pub(crate) async fn process_kern_request(&self, req: request::KernRequest) -> Result<()> {
+    pub(crate) async fn process_kern_request(
+        self: &Arc<Self>,
+        req: request::KernRequest,
+    ) -> Result<()> {
         let ballot = self.voter.read_ballot().await?;
 
         let Some(leader_id) = ballot.voted_for else {
@@ -25,27 +28,20 @@ impl RaftProcess {
             voter::ElectionState::Leader
         ) {
             let (kern_completion, rx) = completion::prepare_kern_completion();
-            let command = match kern_message::KernRequest::deserialize(&req.message).unwrap() {
-                kern_message::KernRequest::AddServer(id) => {
-                    let mut membership = self.peers.read_membership();
-                    membership.insert(id);
-                    Command::ClusterConfiguration { membership }
-                }
-                kern_message::KernRequest::RemoveServer(id) => {
-                    let mut membership = self.peers.read_membership();
-                    membership.remove(&id);
-                    Command::ClusterConfiguration { membership }
-                }
-            };
-            ensure!(self.command_log.allow_queue_new_membership());
-            self.queue_new_entry(
-                Command::serialize(command),
-                Completion::Kern(kern_completion),
-            )
-            .await?;
+            let req = kern_message::KernRequest::deserialize(&req.message).unwrap();
+
+            // Once the configuration is queued, it should be applied even if the client cancels the request.
+            let this = self.clone();
+            tokio::spawn(async move {
+                this.queue_new_configuration(req, Completion::Kern(kern_completion))
+                    .await
+            })
+            .await??;
 
             rx.await?;
         } else {
+            // This check is to avoid looping.
+            ensure!(self.driver.self_node_id() != leader_id);
             let conn = self.driver.connect(leader_id);
             conn.process_kern_request(req).await?;
         }
-- 
2.43.0


From c1d9c451f7a929d7bffd7d6fcd063fe715e98f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 11/26] fix: an election always ends

Two candidates could wait for each other's vote forever,
and a node failing to queue the barrier stayed Candidate.
---
 sorock/src/process/voter/election.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 5dfa972..d2e5ce7 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -1,5 +1,8 @@
 use super::*;
 
+/// Time to wait for the response of a vote request.
+const VOTE_TIMEOUT: Duration = Duration::from_secs(1);
+
 impl Voter {
     /// Returns grated or not on vote.
     pub async fn receive_vote_request(
@@ -146,9 +149,12 @@ impl Voter {
             .await
             .unwrap_or(false);
 
-        self.post_election(vote_term, ok).await?;
-
-        Ok(())
+        let result = self.post_election(vote_term, ok).await;
+        if result.is_err() {
+            // Otherwise, this node stays Candidate and never starts an election again.
+            self.write_election_state(ElectionState::Follower);
+        }
+        result
     }
 
     /// Request votes to the peers in the cluster and returns whether it got enough votes.
@@ -198,10 +204,11 @@ impl Voter {
                     // We recommend the Pre-Vote extension in deployments that would benefit from additional robustness.
                     pre_vote,
                 };
-                let resp = conn.request_vote(req).await;
+                // Candidates may be waiting for each other with their ballots locked.
+                let resp = tokio::time::timeout(VOTE_TIMEOUT, conn.request_vote(req)).await;
                 match resp {
-                    Ok(granted) => granted,
-                    Err(_) => false,
+                    Ok(Ok(granted)) => granted,
+                    _ => false,
                 }
             });
         }
-- 
2.43.0


From a33897fd1ee2d254fe22a02551132bc2effcbbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 12/26] fix: whether to vote depends only on the failure of the
 leader

A node that doesn't know its membership yet never voted,
and the leader voted for others because it receives no heartbeat.
---
 sorock/src/process/voter/election.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index d2e5ce7..fcbd95a 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -19,7 +19,13 @@ impl Voter {
 
         // If it is a force-vote which is set by TimeoutNow,
         // or it believes the leader has failed, it should vote.
-        let leader_failed = self.get_election_timeout().is_some();
+        // The node may vote even if it isn't in its known membership
+        // because it may be a new node which hasn't received the latest membership.
+        let leader_failed = self.leader_term().is_none()
+            && self
+                .leader_failure_detector
+                .get_election_timeout()
+                .is_some();
         let should_vote = force_vote || leader_failed;
         if !should_vote {
             return Ok(false);
-- 
2.43.0


From 302c842b52ff16e0b5bf8d961690ce008de0e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 13/26] fix: a read confirms the leadership before it is
 executed

A leader that hasn't committed its barrier or that is already superseded returned stale data.
---
 sorock/src/process/raft_process/responder.rs |  8 ++++
 sorock/src/process/voter/election.rs         | 46 ++++++++++++++++++--
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 57b792c..5dd01da 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -64,7 +64,15 @@ impl RaftProcess {
         ) {
             let (user_completion, rx) = completion::prepare_user_completion();
 
+            // Until the barrier is committed, the commit index may be behind the previous leader's.
+            let leader_term = self.voter.leader_term().context(Error::NotLeader)?;
+            ensure!(self.voter.allow_queue_new_entry().await?);
+
             let read_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
+
+            // A newer leader may have committed entries which this node doesn't know.
+            self.voter.confirm_leadership(leader_term).await?;
+
             let query = query_queue::Query {
                 message: req.message,
                 user_completion,
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index fcbd95a..9c6f3b8 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -1,7 +1,7 @@
 use super::*;
 
-/// Time to wait for the response of a vote request.
-const VOTE_TIMEOUT: Duration = Duration::from_secs(1);
+/// Time to wait for the response from a peer.
+const RESPONSE_TIMEOUT: Duration = Duration::from_secs(1);
 
 impl Voter {
     /// Returns grated or not on vote.
@@ -211,7 +211,7 @@ impl Voter {
                     pre_vote,
                 };
                 // Candidates may be waiting for each other with their ballots locked.
-                let resp = tokio::time::timeout(VOTE_TIMEOUT, conn.request_vote(req)).await;
+                let resp = tokio::time::timeout(RESPONSE_TIMEOUT, conn.request_vote(req)).await;
                 match resp {
                     Ok(Ok(granted)) => granted,
                     _ => false,
@@ -223,6 +223,46 @@ impl Voter {
         Ok(ok)
     }
 
+    /// Make sure that the majority hasn't moved to a newer term
+    /// by sending a replication stream without entries.
+    pub async fn confirm_leadership(&self, leader_term: Term) -> Result<()> {
+        let selfid = self.driver.self_node_id();
+        let mut others = self.peers.read_membership();
+        let majority = others.len() / 2 + 1;
+        let remaining = if others.remove(&selfid) {
+            majority - 1
+        } else {
+            majority
+        };
+
+        let log_last_clock = {
+            let last_log_index = self.command_log.get_log_last_index().await?;
+            self.command_log.get_entry(last_log_index).await?.this_clock
+        };
+
+        let mut requests = vec![];
+        for endpoint in others {
+            let conn = self.driver.connect(endpoint);
+            let req = request::ReplicationStream {
+                sender_id: selfid.clone(),
+                sender_term: leader_term,
+                prev_clock: log_last_clock,
+                entries: Box::pin(futures::stream::empty()),
+            };
+            requests.push(async move {
+                let resp = tokio::time::timeout(RESPONSE_TIMEOUT, conn.send_replication_stream(req));
+                matches!(resp.await, Ok(Ok(_)))
+            });
+        }
+
+        let ok = quorum::join(remaining, requests).await;
+        ensure!(
+            ok && self.leader_term() == Some(leader_term),
+            Error::NotLeader
+        );
+        Ok(())
+    }
+
     async fn post_election(&self, vote_term: Term, ok: bool) -> Result<()> {
         if ok {
             info!("got enough votes from the cluster. promoted to leader");
-- 
2.43.0


From 748730c032315bc96c5cd617dae76652487aad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 14/26] fix: whether a request is a duplicate doesn't depend on
 the time

Servers applying the same entry at different time could disagree and diverge.
---
 .../src/process/command_log/response_cache.rs | 39 ++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/sorock/src/process/command_log/response_cache.rs b/sorock/src/process/command_log/response_cache.rs
index 8fbb535..082cb7e 100644
--- a/sorock/src/process/command_log/response_cache.rs
+++ b/sorock/src/process/command_log/response_cache.rs
@@ -1,24 +1,37 @@
 use super::*;
 
-struct TTLSet {
-    cache: moka::sync::Cache<String, ()>,
+use std::collections::VecDeque;
+
+/// The set of the recent keys.
+/// It is only dependent on the history of insertions because all the servers should agree on it.
+struct RecentSet {
+    capacity: usize,
+    keys: HashSet<String>,
+    order: VecDeque<String>,
 }
-impl TTLSet {
-    pub fn new(ttl: Duration) -> Self {
-        let builder = moka::sync::Cache::builder()
-            .initial_capacity(1000)
-            .time_to_live(ttl);
+impl RecentSet {
+    pub fn new(capacity: usize) -> Self {
         Self {
-            cache: builder.build(),
+            capacity,
+            keys: HashSet::new(),
+            order: VecDeque::new(),
         }
     }
 
     pub fn exists(&self, k: &str) -> bool {
-        self.cache.contains_key(k)
+        self.keys.contains(k)
     }
 
-    pub fn insert(&self, k: String) {
-        self.cache.insert(k, ());
+    pub fn insert(&mut self, k: String) {
+        if !self.keys.insert(k.clone()) {
+            return;
+        }
+        self.order.push_back(k);
+        if self.order.len() > self.capacity {
+            if let Some(oldest) = self.order.pop_front() {
+                self.keys.remove(&oldest);
+            }
+        }
     }
 }
 
@@ -27,13 +40,13 @@ impl TTLSet {
 /// response should be cached for a short period.
 pub struct ResponseCache {
     responses: HashMap<String, Bytes>,
-    completes: TTLSet,
+    completes: RecentSet,
 }
 impl ResponseCache {
     pub fn new() -> Self {
         Self {
             responses: HashMap::new(),
-            completes: TTLSet::new(Duration::from_secs(5)),
+            completes: RecentSet::new(10000),
         }
     }
 
-- 
2.43.0


From 3b41b4e00e9bc4a1e518c12c8348ed7c828287d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 15/26] fix: stop the replication and heartbeat threads when
 the process is dropped

A leader detached from its node kept sending heartbeats.
---
 sorock/src/process/peer_svc/mod.rs     | 5 +++++
 sorock/src/process/raft_process/mod.rs | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index 313e506..c0945de 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -180,6 +180,11 @@ impl PeerSvc {
         Ok(())
     }
 
+    /// Stop the threads for the peers. They refer to this service so they aren't stopped by dropping it.
+    pub fn stop_threads(&self) {
+        self.peer_threads.lock().clear();
+    }
+
     pub fn read_membership(&self) -> HashSet<NodeId> {
         self.membership.read().clone()
     }
diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index 4f19f1b..de0887c 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -35,6 +35,12 @@ pub struct RaftProcess {
     replication_tx: thread::EventProducer<thread::ReplicationEvent>,
 }
 
+impl Drop for RaftProcess {
+    fn drop(&mut self) {
+        self.peers.stop_threads();
+    }
+}
+
 impl RaftProcess {
     pub async fn new(
         app: impl RaftApp,
-- 
2.43.0


From e29907623a011bab622657b85ee0fc7cb6b4b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 16/26] fix: a failure in a shard doesn't cancel the heartbeats
 to the other shards

---
 sorock/src/raft_service/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 0440cd8..21eb269 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -206,7 +206,10 @@ impl raft::raft_server::Raft for RaftService {
                 futs.push(async move { process.receive_heartbeat(leader_id, req).await });
             }
         }
-        futures::future::try_join_all(futs).await.unwrap();
+        // A failure in a shard should not cancel the heartbeats to the other shards.
+        for result in futures::future::join_all(futs).await {
+            result.unwrap();
+        }
         Ok(tonic::Response::new(()))
     }
 
-- 
2.43.0


From 8a8ec4a1b09a1f9d95cd80d9b80d96e08d30c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 17/26] fix: a leader steps down when a follower is in a newer
 term

A leader that some followers had left kept the others from electing a new one.
---
 sorock/proto/sorock.proto                     |   6 +++-
 .../src/communicator/heartbeat_multiplex.rs   |  10 +++++--
 sorock/src/communicator/mod.rs                |   5 ++--
 sorock/src/generated/sorock.rs                |  18 ++++++++++--
 sorock/src/generated/sorock_descriptor.bin    | Bin 8760 -> 9063 bytes
 sorock/src/process/raft_process/responder.rs  |   7 +++--
 sorock/src/process/voter/heartbeat.rs         |  26 ++++++++++++++++--
 sorock/src/raft_service/mod.rs                |  17 +++++++++---
 8 files changed, 71 insertions(+), 18 deletions(-)

diff --git a/sorock/proto/sorock.proto b/sorock/proto/sorock.proto
index 1bc7d85..ac0d62e 100644
--- a/sorock/proto/sorock.proto
+++ b/sorock/proto/sorock.proto
@@ -89,6 +89,10 @@ message Heartbeat {
   string leader_id = 1;
   map<uint32, LeaderCommitState> leader_commit_states = 2;
 }
+message HeartbeatResponse {
+  // The terms of the shards in which the heartbeat is stale.
+  map<uint32, uint64> newer_terms = 1;
+}
 
 // Request to add a Raft process with `server_id` to a shard.
 message AddServerRequest {
@@ -118,6 +122,6 @@ service Raft {
   rpc RemoveServer (RemoveServerRequest) returns (google.protobuf.Empty);
   rpc SendReplicationStream (stream ReplicationStreamChunk) returns (ReplicationStreamResponse);
   rpc GetSnapshot (GetSnapshotRequest) returns (stream SnapshotChunk);
-  rpc SendHeartbeat (Heartbeat) returns (google.protobuf.Empty);
+  rpc SendHeartbeat (Heartbeat) returns (HeartbeatResponse);
   rpc SendTimeoutNow (TimeoutNow) returns (google.protobuf.Empty);
 }
\ No newline at end of file
diff --git a/sorock/src/communicator/heartbeat_multiplex.rs b/sorock/src/communicator/heartbeat_multiplex.rs
index b33f8b3..d62e5a5 100644
--- a/sorock/src/communicator/heartbeat_multiplex.rs
+++ b/sorock/src/communicator/heartbeat_multiplex.rs
@@ -5,16 +5,20 @@ use std::collections::HashMap;
 
 pub struct HeartbeatBuffer {
     buf: HashMap<ShardId, request::Heartbeat>,
+    newer_terms: HashMap<ShardId, Term>,
 }
 impl HeartbeatBuffer {
     pub fn new() -> Self {
         Self {
             buf: HashMap::new(),
+            newer_terms: HashMap::new(),
         }
     }
 
-    pub fn push(&mut self, shard_id: ShardId, req: request::Heartbeat) {
+    /// Returns the newer term if the last heartbeat was stale.
+    pub fn push(&mut self, shard_id: ShardId, req: request::Heartbeat) -> Option<Term> {
         self.buf.insert(shard_id, req);
+        self.newer_terms.remove(&shard_id)
     }
 
     fn drain(&mut self) -> HashMap<ShardId, request::Heartbeat> {
@@ -52,6 +56,8 @@ pub async fn run(
             leader_id: self_node_id.to_string(),
             leader_commit_states: states,
         };
-        cli.send_heartbeat(req).await.ok();
+        if let Ok(resp) = cli.send_heartbeat(req).await {
+            buf.lock().newer_terms.extend(resp.into_inner().newer_terms);
+        }
     }
 }
diff --git a/sorock/src/communicator/mod.rs b/sorock/src/communicator/mod.rs
index a7c396d..59ef005 100644
--- a/sorock/src/communicator/mod.rs
+++ b/sorock/src/communicator/mod.rs
@@ -80,8 +80,9 @@ impl Communicator {
         Ok(st)
     }
 
-    pub fn queue_heartbeat(&self, req: request::Heartbeat) {
-        self.conn.heartbeat_buffer.lock().push(self.shard_id, req);
+    /// Returns the newer term if the last heartbeat was stale.
+    pub fn queue_heartbeat(&self, req: request::Heartbeat) -> Option<Term> {
+        self.conn.heartbeat_buffer.lock().push(self.shard_id, req)
     }
 
     pub async fn process_user_write_request(
diff --git a/sorock/src/generated/sorock.rs b/sorock/src/generated/sorock.rs
index ed02634..8a7f5f5 100644
--- a/sorock/src/generated/sorock.rs
+++ b/sorock/src/generated/sorock.rs
@@ -128,6 +128,12 @@ pub struct Heartbeat {
     #[prost(map = "uint32, message", tag = "2")]
     pub leader_commit_states: ::std::collections::HashMap<u32, LeaderCommitState>,
 }
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct HeartbeatResponse {
+    /// The terms of the shards in which the heartbeat is stale.
+    #[prost(map = "uint32, uint64", tag = "1")]
+    pub newer_terms: ::std::collections::HashMap<u32, u64>,
+}
 /// Request to add a Raft process with `server_id` to a shard.
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct AddServerRequest {
@@ -406,7 +412,10 @@ pub mod raft_client {
         pub async fn send_heartbeat(
             &mut self,
             request: impl tonic::IntoRequest<super::Heartbeat>,
-        ) -> std::result::Result<tonic::Response<()>, tonic::Status> {
+        ) -> std::result::Result<
+            tonic::Response<super::HeartbeatResponse>,
+            tonic::Status,
+        > {
             self.inner
                 .ready()
                 .await
@@ -502,7 +511,10 @@ pub mod raft_server {
         async fn send_heartbeat(
             &self,
             request: tonic::Request<super::Heartbeat>,
-        ) -> std::result::Result<tonic::Response<()>, tonic::Status>;
+        ) -> std::result::Result<
+            tonic::Response<super::HeartbeatResponse>,
+            tonic::Status,
+        >;
         async fn send_timeout_now(
             &self,
             request: tonic::Request<super::TimeoutNow>,
@@ -941,7 +953,7 @@ pub mod raft_server {
                     struct SendHeartbeatSvc<T: Raft>(pub Arc<T>);
                     impl<T: Raft> tonic::server::UnaryService<super::Heartbeat>
                     for SendHeartbeatSvc<T> {
-                        type Response = ();
+                        type Response = super::HeartbeatResponse;
                         type Future = BoxFuture<
                             tonic::Response<Self::Response>,
                             tonic::Status,
diff --git a/sorock/src/generated/sorock_descriptor.bin b/sorock/src/generated/sorock_descriptor.bin
index a4f2cc51395f010b6015e795f346d9f5a1e6009d..d45cafa205e225438d25b7865001f093b4edb05c 100644
GIT binary patch
delta 1310
zcmZ{i%}*0S0L6D_x6|#E&~|8RDS<2jlm=}Geh`VoFFuWWAlwLOTUNG;ZS8KqTYB?u
zdiQUTaPj29zreFcFJAo<e6yM9#dv)C-tX<(nf<!;d*_Q0A;0cig(CN9<+IKbdrqP5
z7oCEC;CQua#dG*G7Oglfr~b-!>hHabZX3(dwOrn-)~ls=`G4~Hmm+*9vfCBE-Z@|a
z9X!Zxve?)j{h6GeOtMh3aNck-#MYP1(OT?>{_)C)M~S{Uit&Z)^nc$o+UE}=mo}r^
z)U=DMPyCV%86#$ln@8G-&KNVyn9hwOYntsc(~J>~8^`2&cEdh&9Xt3KyZXlVAw0KG
zKlSW##csLfk{dj8)j`;0&-VPnxszvXf`vp86-_Cn@RH;7JXAU`4amhMwudcoZWgrD
z(ev4@VH~M~m0?j#iHj*kk`4+WLPA+eAy|wgltNoEnUWZ+61gTV9aw3M>B5U}<pC?D
z((DCBB)EB|>2F8zx&2`RsWWRPs7r_yu3Q0uI#<>~A?V5#P^fd|iUfgGmMb8DmB*M^
zQI;#<0V`w0cO5f0H>*VZF#0+7ZO9R;T0EG+#f+Mq0fD}n?1MtECTBpQuZ9`8W~y=1
z(=LK*rXuB86QYi4qRuC`#6buF%coJL2-HMos3iLQg%!ym*&r*@5+Bl_!G)tm2iJ%O
z_azjt#(Yj<u$p97V&ZI?G^3R8vP((<Yp!ks8;Y4wEwU~>16+#+mo6-Dt*JTXiDd4s
ze4WXSHhC&76Ih$ZlmgaHh#ygWxe2U&^RdKmsvWW~tzigUhXy|jk|A)N<PB+tz;)Jk
zC5Jz~OI}Nh0_)NlrO?@(T~G=o-Ng;1P}1E#ktJbn^vI61!a5%sz45n(!S$xp8HMq_
z-s(LSMN4meOSV|t=#vN1vM{Ajr<6iTKcx=L0@lxMNG!sQ0eK>W5nuzllvEPjAZ;rJ
PZm{yGNNe?~U%mYoBtxsK

delta 1017
zcmX|<%Wl&^7=`T_dty%_Ii6gIsOUwZLQz1fib_Qnr9j%!1&`3Aq6wP@<>uH)S$M%C
z_!SWApln#NK)eS_c02=TtbelWr}KZu$4>uV{OGK>&(?=)*MBLpKf!PN%ld1%$n2AB
zrJC6)Y-In`ssC+93guYV{raf#UCMWoIe~Jnt()xgb|(#N#jm}FEK0`-n5B4^)n!S#
z8eC1DAslx7&=3bzYosCSu?G~{(0Uuq)|szN2CY}C%l8;jR?e+uf6QL(T%~1P-FjPj
zU0JW_(+U9U`cwzPVV_ojP}ipwWrk=#D*(_28%?hm&<bSG23YaS#*9!ocg*^f`MW>U
z5NCIu%4dXn#*k(J&^M$$5Dtel1BAXIW=P3|rJRv<Z{u$+^wr2K={jNQx-omEKZFKE
zV^K83K&3`%5Pjojn><`jSeqjKA`>AE!J8EG-wU1kwI+Kl(hyDAB^~N-GZhU(I(xWp
z2-@`E99pVpf@bWPG7fJh@*iDC@Me{5lj+OW5k1aPJYsJta-c;bFa#|M_Y6Ucp1vjx
zUv<u|C`w&;bCLhE;BhXzdG!f}F1-2SC3!;enB7n$pv7X#5IW;WO+zS&AD<XPNqpX=
zl7iw1yP&9GtCT03cP+q6D&`v%@Vw;Ug*in_a@?U7Pw@piqsYUQg{T-p$)aXHm<Mgq
kIwj3le97L>p$}~-_NxZrE$h36;4Rx{AH;Y%ibl`>1D>v3wEzGB

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 5dd01da..0aadad0 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -130,13 +130,14 @@ impl RaftProcess {
         &self,
         leader_id: NodeId,
         req: request::Heartbeat,
-    ) -> Result<()> {
+    ) -> Result<Option<Term>> {
         let term = req.leader_term;
         let leader_commit = req.leader_commit_index;
-        self.voter
+        let newer_term = self
+            .voter
             .receive_heartbeat(leader_id, term, leader_commit)
             .await?;
-        Ok(())
+        Ok(newer_term)
     }
 
     pub(crate) async fn get_snapshot(&self, index: Index) -> Result<SnapshotStream> {
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 2fbfe69..0de6b0f 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -1,18 +1,19 @@
 use super::*;
 
 impl Voter {
+    /// Returns the current term if the heartbeat is stale.
     pub async fn receive_heartbeat(
         &self,
         leader_id: NodeId,
         leader_term: Term,
         leader_commit: Index,
-    ) -> Result<()> {
+    ) -> Result<Option<Term>> {
         let _lk = self.vote_lock.lock().await;
 
         let mut ballot = self.read_ballot().await?;
         if leader_term < ballot.cur_term {
             warn!("heartbeat is stale. rejected");
-            return Ok(());
+            return Ok(Some(ballot.cur_term));
         }
 
         self.leader_failure_detector
@@ -39,6 +40,23 @@ impl Voter {
             .commit_pointer
             .fetch_max(new_commit_index, Ordering::SeqCst);
 
+        Ok(None)
+    }
+
+    /// Step down if this node is the leader of an older term.
+    async fn receive_newer_term(&self, term: Term) -> Result<()> {
+        let _lk = self.vote_lock.lock().await;
+
+        let ballot = self.read_ballot().await?;
+        if term > ballot.cur_term {
+            warn!("found newer term. reset ballot");
+            self.write_election_state(ElectionState::Follower);
+            self.write_ballot(Ballot {
+                cur_term: term,
+                voted_for: None,
+            })
+            .await?;
+        }
         Ok(())
     }
 
@@ -92,7 +110,9 @@ impl Voter {
             leader_commit_index,
         };
         let conn = self.driver.connect(follower_id);
-        conn.queue_heartbeat(req);
+        if let Some(newer_term) = conn.queue_heartbeat(req) {
+            self.receive_newer_term(newer_term).await?;
+        }
         Ok(())
     }
 }
diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 21eb269..162037c 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -191,7 +191,7 @@ impl raft::raft_server::Raft for RaftService {
     async fn send_heartbeat(
         &self,
         request: tonic::Request<raft::Heartbeat>,
-    ) -> std::result::Result<tonic::Response<()>, tonic::Status> {
+    ) -> std::result::Result<tonic::Response<raft::HeartbeatResponse>, tonic::Status> {
         let req = request.into_inner();
         let leader_id: NodeId = req.leader_id.parse().unwrap();
 
@@ -203,14 +203,23 @@ impl raft::raft_server::Raft for RaftService {
             };
             if let Some(process) = self.node.get_process(shard_id) {
                 let leader_id = leader_id.clone();
-                futs.push(async move { process.receive_heartbeat(leader_id, req).await });
+                futs.push(async move {
+                    let newer_term = process.receive_heartbeat(leader_id, req).await?;
+                    Ok::<_, anyhow::Error>((shard_id, newer_term))
+                });
             }
         }
+        let mut newer_terms = std::collections::HashMap::new();
         // A failure in a shard should not cancel the heartbeats to the other shards.
         for result in futures::future::join_all(futs).await {
-            result.unwrap();
+            let (shard_id, newer_term) = result.unwrap();
+            if let Some(newer_term) = newer_term {
+                newer_terms.insert(shard_id, newer_term);
+            }
         }
-        Ok(tonic::Response::new(()))
+        Ok(tonic::Response::new(raft::HeartbeatResponse {
+            newer_terms,
+        }))
     }
 
     async fn send_timeout_now(
-- 
2.43.0


From ed3351f6fa54bfdcab741e0701812bb4fdc17554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 18/26] fix: a candidate learns the newer term from the voters

The node with the best log could be in an older term than the others forever
and then nobody was elected.
---
 sorock/proto/sorock.proto                    |   2 +
 sorock/src/communicator/mod.rs               |   7 ++-
 sorock/src/generated/sorock.rs               |   3 ++
 sorock/src/generated/sorock_descriptor.bin   | Bin 9063 -> 9174 bytes
 sorock/src/process/api.rs                    |   6 +++
 sorock/src/process/raft_process/responder.rs |  10 +++-
 sorock/src/process/voter/election.rs         |  49 +++++++++++++++----
 sorock/src/raft_service/mod.rs               |   3 +-
 8 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/sorock/proto/sorock.proto b/sorock/proto/sorock.proto
index ac0d62e..d221dfc 100644
--- a/sorock/proto/sorock.proto
+++ b/sorock/proto/sorock.proto
@@ -79,6 +79,8 @@ message VoteRequest {
 
 message VoteResponse {
   bool vote_granted = 1;
+  // The current term of the voter.
+  uint64 term = 2;
 }
 
 message LeaderCommitState {
diff --git a/sorock/src/communicator/mod.rs b/sorock/src/communicator/mod.rs
index 59ef005..3dc07bc 100644
--- a/sorock/src/communicator/mod.rs
+++ b/sorock/src/communicator/mod.rs
@@ -142,7 +142,7 @@ impl Communicator {
         })
     }
 
-    pub async fn request_vote(&self, req: request::RequestVote) -> Result<bool> {
+    pub async fn request_vote(&self, req: request::RequestVote) -> Result<response::RequestVote> {
         let req = raft::VoteRequest {
             shard_id: self.shard_id,
             candidate_id: req.candidate_id.to_string(),
@@ -164,6 +164,9 @@ impl Communicator {
             .request_vote(req)
             .await?
             .into_inner();
-        Ok(resp.vote_granted)
+        Ok(response::RequestVote {
+            vote_granted: resp.vote_granted,
+            term: resp.term,
+        })
     }
 }
diff --git a/sorock/src/generated/sorock.rs b/sorock/src/generated/sorock.rs
index 8a7f5f5..8ff833e 100644
--- a/sorock/src/generated/sorock.rs
+++ b/sorock/src/generated/sorock.rs
@@ -113,6 +113,9 @@ pub struct VoteRequest {
 pub struct VoteResponse {
     #[prost(bool, tag = "1")]
     pub vote_granted: bool,
+    /// The current term of the voter.
+    #[prost(uint64, tag = "2")]
+    pub term: u64,
 }
 #[derive(Clone, Copy, PartialEq, ::prost::Message)]
 pub struct LeaderCommitState {
diff --git a/sorock/src/generated/sorock_descriptor.bin b/sorock/src/generated/sorock_descriptor.bin
index d45cafa205e225438d25b7865001f093b4edb05c..33cddc5299884006901e7bd89f74493be6dd908d 100644
GIT binary patch
delta 1454
zcmX|>-%b-j7{zyIx6|FFrR}u*D+pVGC?W<m6(uH$3I!8yP>K|>L?{tZky={lzx4sU
zYkUtA60f{4zJWKsf>*wSXQtn9*VFTz-<<ij+rLYHa^EbM{m!0;-0!xz*!dB?nG(XY
zE2Z-LLFSuR?N#;p{9p7z$orD<!XjiCpUv}Zvgn%6J6}f@gBj1ZBg_=mDidknfAO~D
z@0^s&r4JQfV*H~$zk=_oM^HCBFXDydcu3AWTFJB<)yjg3Cp^z%c2wAF#!C~QEjx;-
zHD}1{!GTd`2rJKqyhs2Z6nJ^!L18lQrW6kfy!^l*<zTI|3|X?q`bEr?o;#vF#MZ}r
zRijtf8^)_{jb2P`I0=R8Wkw*Z0vk{nDDVozgTiFN71{%@(AQ5nSetB~ER##+YbCu*
zRx89d@7_~2V#3}sw!1ZAnA*ZNyd2gMlj|sUoY9qQMb@X1_zDxn{_a(wz$s2lddt{q
zT-ZCtUZ*j-9PBvV#l$6Hm-VYG1TL~m7l8t4*G*^-q}^1Xx=36;_!8Y80<qFXOzyKp
z_lJjA3HN`70tsR78}H2YLg&%g(_r5jR<MNZa6la(06QQU6krF`0Sd4K>X48f4ygkK
zVuu$o+2N2nz(ed19e$Z8A%uNwd@|FW9{*=>><HCC$PQ)d00CH;U{HXSsRI;XWz~Uk
zLxfK7UZ_XI<=BZ6kvwilUX{(r-AMtf%6qh8P?15XK$!qm$EPWW$r_ucNqLPLS8op}
zCUUhN^{k{qtd^Og7_3v4qnO;xDVGOGK9gR0QY*wxXBWG%fI*$HIr1#z&bWHu$XUpp
zB}cU<C#SM>oGq+6drX#%Se?hTLad%pzdt~1#Ol`<D2BB**a{7XOc7WOu3i*OhLCHd
zu4ogv#;qLX@S-%?Hd!3UHTkesU^Xv}YXwMiLcL%>azL7kuL%+sR*NmsU>J}V5A<Eb
z$hDGsM`4`Tn!Te(L21oBA&MicHoH%j14^4GwF0Ewrx)fR)}ETDm@BM+J)%Juv4G=`
d>au!3E^<M?`X4}P7r9{i;T!(3d{jBQ{U0?VhgJXp

delta 1341
zcmX|>-%b-j7{zyIr^D_-TRNrXuh0gFK{NpsQDUN~P$2Qb08%7HX-#OoX_dD0FZ&RE
z3$HLFUU^}B2p_;3<6C%U`b{rS&-XifzS-IS&iviJc0Bgy;Z4Z<&h6FSkMQb^9eEb=
zzNLI2xn*75?8V=E_M6_<nXSP084pXoZ@smB-*<S}md?IA=@0vyhnXdv12*Z8_#q`i
zO1Va1@W2~0%7Gf6APm+aOOs^-I~-uP^1K=21>g?nQg}4u5y_9Ncl{a>j2*c#oflCx
zvTR&45Xj3?9ux+%o-`ifvWX;Nu#VXVS+-CrWt8&LYyOH_Ey8SY$B&=r8d1qltkZst
zD8^238X25MRMp7!>a)9dax9^9@Dm1d$^NQPh{-K1`a9TWRPr<HWAESWPH^V-4`x&)
z<XKX)5LhHni$EbM@5PLVr2JSyFEYwt6=;75V1)su&a*)K!vj{p{;yFWCi%Jb$)4Km
zUC-?W=kBx)i>VGp>HvYTB85RAtVkW85LToPG1Z|&9Uy>}2AJwlq7LwYmC)grjS^Dw
zvh~@X>NQh8gR(1i2dO$#r~?GTDij8VunKj6LRbYIa6g14`Gs|*UyM*w7w(9P6PAjr
zvU}?2lz>$g!$vWvkqM;&Wg@RSzf2q^YiyY&)fP438wIX5tX~x{wNov<L>R0(%g~@Y
zn7Yspz#voJ)S~f#)mOF%Q+NH6t&`_~yA=9;gLA-L#%GPECYRQT<I-ucmt=8Z4G}d8
zSR<ydA3`{=#@$WAaH>tVOM@X`K~w1O1d}0f&9U3Y1lPQuAr9Y3i+vzVfNP0qqmbFU
zHE$F`S_}I7LZm=QYwMIkhNRPG+cY?YkhX{gMuKa{%^3~hdF_=)#zRVb{S~FS(&@0L
zWVuM`h`3P*=_Jg7xxhM08-#h%>9Q9z=mF~r^*@zXx5ES1P3pe^rNDKUpXWv8OSxKp
F@E>lZba?;(

diff --git a/sorock/src/process/api.rs b/sorock/src/process/api.rs
index e48cec3..c48e77c 100644
--- a/sorock/src/process/api.rs
+++ b/sorock/src/process/api.rs
@@ -61,6 +61,12 @@ pub mod request {
 
 pub mod response {
     use super::*;
+    pub struct RequestVote {
+        pub vote_granted: bool,
+        /// The current term of the voter.
+        pub term: Term,
+    }
+
     pub struct ReplicationStream {
         pub n_inserted: u64,
         pub log_last_index: Index,
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 0aadad0..eb7c56e 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -151,7 +151,10 @@ impl RaftProcess {
         Ok(())
     }
 
-    pub(crate) async fn request_vote(&self, req: request::RequestVote) -> Result<bool> {
+    pub(crate) async fn request_vote(
+        &self,
+        req: request::RequestVote,
+    ) -> Result<response::RequestVote> {
         let candidate_term = req.vote_term;
         let candidate_id = req.candidate_id;
         let candidate_clock = req.candidate_clock;
@@ -167,6 +170,9 @@ impl RaftProcess {
                 pre_vote,
             )
             .await?;
-        Ok(vote_granted)
+        Ok(response::RequestVote {
+            vote_granted,
+            term: self.voter.read_ballot().await?.cur_term,
+        })
     }
 }
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 9c6f3b8..ef7fbf7 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -121,12 +121,13 @@ impl Voter {
         };
 
         info!("start pre-vote. try promote at term {pre_vote_term}");
-        let ok = self
+        let (ok, newest_term) = self
             .request_votes(pre_vote_term, force_vote, true)
             .await
-            .unwrap_or(false);
+            .unwrap_or((false, 0));
         if !ok {
             info!("pre-vote failed for term {pre_vote_term}");
+            self.catch_up_term(newest_term).await?;
             return Ok(());
         }
         // --- END pre-vote ---
@@ -150,26 +151,49 @@ impl Voter {
 
         // Try to promote at the term.
         // Failing some I/O operations during election will be considered as election failure.
-        let ok = self
+        let (ok, newest_term) = self
             .request_votes(vote_term, force_vote, false)
             .await
-            .unwrap_or(false);
+            .unwrap_or((false, 0));
 
         let result = self.post_election(vote_term, ok).await;
         if result.is_err() {
             // Otherwise, this node stays Candidate and never starts an election again.
             self.write_election_state(ElectionState::Follower);
         }
-        result
+        result?;
+
+        if !ok {
+            self.catch_up_term(newest_term).await?;
+        }
+        Ok(())
     }
 
-    /// Request votes to the peers in the cluster and returns whether it got enough votes.
+    /// Without catching up with the term of the voters,
+    /// this node can't get votes from them.
+    async fn catch_up_term(&self, newest_term: Term) -> Result<()> {
+        let ballot = self.read_ballot().await?;
+        if newest_term > ballot.cur_term {
+            self.write_election_state(ElectionState::Follower);
+            self.write_ballot(Ballot {
+                cur_term: newest_term,
+                voted_for: None,
+            })
+            .await?;
+        }
+        Ok(())
+    }
+
+    /// Request votes to the peers in the cluster and returns whether it got enough votes
+    /// with the newest term of the voters.
     async fn request_votes(
         &self,
         vote_term: Term,
         force_vote: bool,
         pre_vote: bool,
-    ) -> Result<bool> {
+    ) -> Result<(bool, Term)> {
+        let newest_term = Arc::new(AtomicU64::new(0));
+
         let (others, remaining) = {
             let membership = self.peers.read_membership();
             ensure!(membership.contains(&self.driver.self_node_id()));
@@ -196,6 +220,7 @@ impl Voter {
         for endpoint in others {
             let selfid = self.driver.self_node_id();
             let conn = self.driver.connect(endpoint);
+            let newest_term = newest_term.clone();
             vote_requests.push(async move {
                 let req = request::RequestVote {
                     candidate_id: selfid,
@@ -213,14 +238,17 @@ impl Voter {
                 // Candidates may be waiting for each other with their ballots locked.
                 let resp = tokio::time::timeout(RESPONSE_TIMEOUT, conn.request_vote(req)).await;
                 match resp {
-                    Ok(Ok(granted)) => granted,
+                    Ok(Ok(resp)) => {
+                        newest_term.fetch_max(resp.term, Ordering::SeqCst);
+                        resp.vote_granted
+                    }
                     _ => false,
                 }
             });
         }
 
         let ok = quorum::join(remaining, vote_requests).await;
-        Ok(ok)
+        Ok((ok, newest_term.load(Ordering::SeqCst)))
     }
 
     /// Make sure that the majority hasn't moved to a newer term
@@ -250,7 +278,8 @@ impl Voter {
                 entries: Box::pin(futures::stream::empty()),
             };
             requests.push(async move {
-                let resp = tokio::time::timeout(RESPONSE_TIMEOUT, conn.send_replication_stream(req));
+                let resp =
+                    tokio::time::timeout(RESPONSE_TIMEOUT, conn.send_replication_stream(req));
                 matches!(resp.await, Ok(Ok(_)))
             });
         }
diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 162037c..dc1cb3d 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -108,7 +108,8 @@ impl raft::raft_server::Raft for RaftService {
             .await
             .unwrap();
         Ok(tonic::Response::new(raft::VoteResponse {
-            vote_granted: resp,
+            vote_granted: resp.vote_granted,
+            term: resp.term,
         }))
     }
 
-- 
2.43.0


From 81b6dfe3abbefd52c9ab4603383bd124c374dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:55 +0000
Subject: [PATCH 19/26] fix: appending an entry isn't cancelled halfway

---
 sorock/src/process/raft_process/queue.rs     | 11 +++++++++--
 sorock/src/process/raft_process/responder.rs |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 345312a..53a389f 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -2,10 +2,17 @@ use super::*;
 
 impl RaftProcess {
     pub(crate) async fn queue_new_entry(
-        &self,
+        self: &Arc<Self>,
         command: Bytes,
         completion: Completion,
     ) -> Result<Index> {
+        // The insertion should not be cancelled halfway when the client cancels the request.
+        // Otherwise, the next entry may be inserted at the same index.
+        let this = self.clone();
+        tokio::spawn(async move { this.insert_new_entry(command, completion).await }).await?
+    }
+
+    async fn insert_new_entry(&self, command: Bytes, completion: Completion) -> Result<Index> {
         let leader_term = self.voter.leader_term().context(Error::NotLeader)?;
         ensure!(self.voter.allow_queue_new_entry().await?);
 
@@ -25,7 +32,7 @@ impl RaftProcess {
 
     /// Queue a new configuration which is made from the current configuration.
     pub(crate) async fn queue_new_configuration(
-        &self,
+        self: &Arc<Self>,
         req: kern_message::KernRequest,
         completion: Completion,
     ) -> Result<Index> {
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index eb7c56e..6d2be1f 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -90,7 +90,7 @@ impl RaftProcess {
     }
 
     pub(crate) async fn process_user_write_request(
-        &self,
+        self: &Arc<Self>,
         req: request::UserWriteRequest,
     ) -> Result<Bytes> {
         let ballot = self.voter.read_ballot().await?;
@@ -147,7 +147,9 @@ impl RaftProcess {
 
     pub(crate) async fn send_timeout_now(&self) -> Result<()> {
         info!("received TimeoutNow. try to become a leader.");
-        self.voter.try_promote(true).await?;
+        // The election should not be cancelled halfway when the sender cancels the request.
+        let voter = self.voter.clone();
+        tokio::spawn(async move { voter.try_promote(true).await }).await??;
         Ok(())
     }
 
-- 
2.43.0


From 543c8b7250ce84691ac96be0777769a68fc4be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 20/26] fix: a configuration is applied before its replicas are
 counted

---
 sorock/src/process/raft_process/mod.rs      | 7 +++++--
 sorock/src/process/thread/advance_commit.rs | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index de0887c..b7ab81e 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -27,7 +27,7 @@ pub struct RaftProcess {
     driver: RaftDriver,
 
     /// Serialize updating the log and applying the configuration in the log.
-    configuration_lock: tokio::sync::Mutex<()>,
+    configuration_lock: Arc<tokio::sync::Mutex<()>>,
 
     _thread_handles: ThreadHandles,
 
@@ -77,6 +77,8 @@ impl RaftProcess {
 
         peers.restore_state(Ref(voter.clone())).await?;
 
+        let configuration_lock = Arc::new(tokio::sync::Mutex::new(()));
+
         let _thread_handles = ThreadHandles {
             advance_kern_handle: thread::advance_kern::new(
                 command_log.clone(),
@@ -95,6 +97,7 @@ impl RaftProcess {
                 command_log.clone(),
                 Ref(peers.clone()),
                 Ref(voter.clone()),
+                configuration_lock.clone(),
                 replication_rx.clone(),
                 commit_tx.clone(),
             ),
@@ -115,7 +118,7 @@ impl RaftProcess {
             peers,
             query_tx,
             driver,
-            configuration_lock: tokio::sync::Mutex::new(()),
+            configuration_lock,
             _thread_handles,
 
             queue_tx,
diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index 0b496f0..46e697b 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -5,6 +5,7 @@ pub struct Thread {
     command_log: CommandLog,
     peers: Ref<PeerSvc>,
     voter: Ref<Voter>,
+    configuration_lock: Arc<tokio::sync::Mutex<()>>,
     consumer: EventConsumer<ReplicationEvent>,
     producer: EventProducer<CommitEvent>,
 }
@@ -12,6 +13,9 @@ impl Thread {
     async fn run_once(&self) -> Result<()> {
         let leader_term = self.voter.leader_term().context(Error::NotLeader)?;
 
+        // A configuration in the log should be applied before counting the replicas of the entry.
+        let _lk = self.configuration_lock.lock().await;
+
         let cur_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
         let new_commit_index = self.peers.find_new_commit_index().await?;
 
@@ -55,6 +59,7 @@ pub fn new(
     command_log: CommandLog,
     peers: Ref<PeerSvc>,
     voter: Ref<Voter>,
+    configuration_lock: Arc<tokio::sync::Mutex<()>>,
     consume: EventConsumer<ReplicationEvent>,
     produce: EventProducer<CommitEvent>,
 ) -> ThreadHandle {
@@ -62,6 +67,7 @@ pub fn new(
         command_log,
         peers,
         voter,
+        configuration_lock,
         consumer: consume,
         producer: produce,
     }
-- 
2.43.0


From e8696c8d2e5eefb37764193d6ffb22f7453bdeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 21/26] fix: a node whose removal isn't committed can still be
 elected

---
 sorock/src/process/voter/election.rs | 36 +++++++++++++---------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index ef7fbf7..acb83a1 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -97,13 +97,13 @@ impl Voter {
 
     pub fn get_election_timeout(&self) -> Option<Duration> {
         // This is an optimization to avoid unnecessary election.
-        // If the node doesn't contain itself in its membership,
-        // it can't become a new leader anyway.
-        if !self
-            .peers
-            .read_membership()
-            .contains(&self.driver.self_node_id())
-        {
+        // If the node doesn't contain itself in its committed membership,
+        // it should not become a new leader.
+        // Until its removal is committed, it may be the only node that has the newest log.
+        let membership = self.peers.read_membership();
+        let removed = self.command_log.allow_queue_new_membership()
+            && !membership.contains(&self.driver.self_node_id());
+        if membership.is_empty() || removed {
             return None;
         }
         self.leader_failure_detector.get_election_timeout()
@@ -195,19 +195,15 @@ impl Voter {
         let newest_term = Arc::new(AtomicU64::new(0));
 
         let (others, remaining) = {
-            let membership = self.peers.read_membership();
-            ensure!(membership.contains(&self.driver.self_node_id()));
-
-            let n = membership.len();
-            let mut others = vec![];
-            for id in membership {
-                if id != self.driver.self_node_id() {
-                    others.push(id);
-                }
-            }
-
-            let majority = n / 2 + 1;
-            (others, majority - 1)
+            let mut others = self.peers.read_membership();
+            let majority = others.len() / 2 + 1;
+            // The vote to itself is counted only if it is a member.
+            let remaining = if others.remove(&self.driver.self_node_id()) {
+                majority - 1
+            } else {
+                majority
+            };
+            (others, remaining)
         };
 
         let log_last_clock = {
-- 
2.43.0


From 88f84e2873cf7c06462d2dc9c067ec6147402024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 22/26] fix: don't count a leader which is being removed in
 majorities

---
 sorock/src/process/peer_svc/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index c0945de..b4152e6 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -193,7 +193,12 @@ impl PeerSvc {
         let mut match_indices = vec![];
 
         let last_log_index = self.command_log.get_log_last_index().await?;
-        match_indices.push(last_log_index);
+        // $4.2.2
+        // While the leader is removing itself, it doesn't count itself in majorities.
+        let membership = self.read_membership();
+        if membership.contains(&self.driver.self_node_id()) || membership.is_empty() {
+            match_indices.push(last_log_index);
+        }
 
         let peer_contexts = self.peer_contexts.read();
         for (_, peer) in peer_contexts.iter() {
-- 
2.43.0


From b19fb3e8f1fca115c7ad8c12fbee2c7455b7d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 23/26] fix: don't start an election in a node which has become
 the leader

A follower which waited for its election timeout, or for the ballot, while TimeoutNow made it the
leader started another election against itself and gave up its term.
---
 sorock/src/process/voter/election.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index acb83a1..cdb690d 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -115,6 +115,12 @@ impl Voter {
 
         let _lk = self.vote_lock.lock().await;
 
+        // It may have become the leader while waiting for the election timeout or the lock.
+        // Another election would only interrupt its leadership.
+        if self.leader_term().is_some() {
+            return Ok(());
+        }
+
         let pre_vote_term = {
             let ballot = self.read_ballot().await?;
             ballot.cur_term + 1
-- 
2.43.0


From a856b74af50202e33c607eadb86bd04d747904f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 24/26] fix: an outage isn't a sample of heartbeat intervals

---
 sorock/src/process/voter/failure_detector.rs | 30 ++++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/sorock/src/process/voter/failure_detector.rs b/sorock/src/process/voter/failure_detector.rs
index 01bb26e..b8f642b 100644
--- a/sorock/src/process/voter/failure_detector.rs
+++ b/sorock/src/process/voter/failure_detector.rs
@@ -16,6 +16,16 @@ impl Inner {
             last_ping: Instant::now(),
         }
     }
+
+    fn leader_failed(&self) -> bool {
+        let du = Instant::now() - self.last_ping;
+        let phi = self.detector.normal_dist().phi(du);
+        // Akka suggests threshold is set to 12 in cloud environment
+        // so we take it as a sane default here.
+        // https://doc.akka.io/docs/akka/current/typed/failure-detector.html
+        let threshold = 12.;
+        phi > threshold
+    }
 }
 pub struct FailureDetector {
     inner: spin::RwLock<Inner>,
@@ -32,7 +42,9 @@ impl FailureDetector {
     pub fn receive_heartbeat(&self, leader_id: NodeId) {
         let mut inner = self.inner.write();
         let cur_watch_id = inner.watch_id.clone();
-        if cur_watch_id != leader_id {
+        // The length of an outage isn't an interval of heartbeats.
+        // Otherwise, it takes longer than the outage to detect the next failure.
+        if cur_watch_id != leader_id || inner.leader_failed() {
             *inner = Inner::watch(leader_id);
         }
 
@@ -47,19 +59,7 @@ impl FailureDetector {
     pub fn get_election_timeout(&self) -> Option<Duration> {
         let inner = self.inner.read();
 
-        let fd = &inner.detector;
-        let normal_dist = fd.normal_dist();
-
-        let detected = {
-            let du = Instant::now() - inner.last_ping;
-            let phi = normal_dist.phi(du);
-            // Akka suggests threshold is set to 12 in cloud environment
-            // so we take it as a sane default here.
-            // https://doc.akka.io/docs/akka/current/typed/failure-detector.html
-            let threshold = 12.;
-            phi > threshold
-        };
-        if !detected {
+        if !inner.leader_failed() {
             return None;
         }
 
@@ -70,7 +70,7 @@ impl FailureDetector {
         // This means two random timeouts are sufficiently distant and it mitigates the risk
         // that two promotions conflict.
         let mut rng = rand::thread_rng();
-        let mu = normal_dist.mu().as_millis() as u64;
+        let mu = inner.detector.normal_dist().mu().as_millis() as u64;
         let random_timeout = Duration::from_millis(rng.gen_range(0..=(3 * mu)));
 
         Some(random_timeout)
-- 
2.43.0


From c060db8a661abdcf33ff6e752ddd0647b3b46bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 25/26] fix: a slow shard in a follower doesn't delay the
 heartbeats to the other shards

---
 .../src/communicator/heartbeat_multiplex.rs   | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sorock/src/communicator/heartbeat_multiplex.rs b/sorock/src/communicator/heartbeat_multiplex.rs
index d62e5a5..f97728b 100644
--- a/sorock/src/communicator/heartbeat_multiplex.rs
+++ b/sorock/src/communicator/heartbeat_multiplex.rs
@@ -26,14 +26,21 @@ impl HeartbeatBuffer {
     }
 }
 
-pub async fn run(
-    buf: Arc<Mutex<HeartbeatBuffer>>,
-    mut cli: raft::RaftClient,
-    self_node_id: NodeId,
-) {
+/// The number of the heartbeats that may wait for the responses.
+const MAX_INFLIGHT: usize = 32;
+
+pub async fn run(buf: Arc<Mutex<HeartbeatBuffer>>, cli: raft::RaftClient, self_node_id: NodeId) {
+    // The response takes as long as the slowest shard in the destination takes.
+    // The other shards there need the next heartbeat in the meantime.
+    let mut inflight = tokio::task::JoinSet::new();
     loop {
         tokio::time::sleep(Duration::from_millis(300)).await;
 
+        while inflight.try_join_next().is_some() {}
+        if inflight.len() >= MAX_INFLIGHT {
+            continue;
+        }
+
         let heartbeats = {
             let mut buf = buf.lock();
             let out = buf.drain();
@@ -56,8 +63,12 @@ pub async fn run(
             leader_id: self_node_id.to_string(),
             leader_commit_states: states,
         };
-        if let Ok(resp) = cli.send_heartbeat(req).await {
-            buf.lock().newer_terms.extend(resp.into_inner().newer_terms);
-        }
+        let mut cli = cli.clone();
+        let buf = buf.clone();
+        inflight.spawn(async move {
+            if let Ok(resp) = cli.send_heartbeat(req).await {
+                buf.lock().newer_terms.extend(resp.into_inner().newer_terms);
+            }
+        });
     }
 }
-- 
2.43.0


From e4195d14f92c76a2c0d48221a4fe8394c21f36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 26/26] fix: a follower doesn't store entries which don't
 follow the previous one

---
 sorock/src/process/raft_process/queue.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 53a389f..39296c1 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -68,10 +68,23 @@ impl RaftProcess {
         let _lk1 = self.voter.accept_leader(sender_id, sender_term).await?;
         let _lk2 = self.configuration_lock.lock().await;
 
+        let command_kind = Command::deserialize(&command);
+        // Any entry except snapshot should be made by the sender or its predecessors
+        // and should follow the previous entry.
+        // Otherwise, inserting the entry breaks the log.
+        let (prev, this) = (entry.prev_clock, entry.this_clock);
+        ensure!(
+            matches!(command_kind, Command::Snapshot { .. })
+                || this.index.checked_sub(1) == Some(prev.index)
+                    && prev.term <= this.term
+                    && this.term <= sender_term,
+            "received an invalid entry (prev={prev:?}, this={this:?}, sender_term={sender_term})"
+        );
+
         let result = self.command_log.try_insert_entry(entry).await?;
 
         let membership_index = self.command_log.membership_pointer.load(Ordering::SeqCst);
-        match (&result, Command::deserialize(&command)) {
+        match (&result, command_kind) {
             (
                 command_log::TryInsertResult::Inserted,
                 Command::Snapshot { .. } | Command::ClusterConfiguration { .. },
-- 
2.43.0

