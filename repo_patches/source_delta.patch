From 07c1beceb8f94048583bd4c78bb96ec9fef45b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 01/47] hook: build the client as a library under
 cfg(nargun_verif) for the conformance harness

---
 src/dht/mod.rs |  8 ++++++++
 src/lib.rs     | 24 ++++++++++++++++++++++++
 2 files changed, 32 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/dht/mod.rs b/src/dht/mod.rs
index d31fdae..c101124 100644
--- a/src/dht/mod.rs
+++ b/src/dht/mod.rs
@@ -4,6 +4,14 @@ mod krpc_message;
 mod peer_fetcher;
 mod routing_table;
 
+// verification hook: names the conformance harness needs (see lib.rs)
+#[allow(unexpected_cfgs)]
+#[cfg(nargun_verif)]
+pub mod verif {
+    pub use super::krpc_message::Nodes;
+    pub use super::routing_table::{Node, RoutingTable};
+}
+
 use tracing::error;
 
 use std::net::SocketAddrV4;
diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..9153c76
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,24 @@
+// Verification hook. Without `--cfg nargun_verif` this library is empty; with it, the client is
+// built as a library from the same sources as the binary, so that the conformance harness
+// (which lives outside this repository) can drive it. Nothing here changes what the client does.
+#![allow(unexpected_cfgs)]
+#![allow(macro_expanded_macro_exports_accessed_by_absolute_paths)]
+#![cfg(nargun_verif)]
+
+include!("main.rs");
+
+pub mod verif {
+    pub use crate::capped_growing_interval::CappedGrowingInterval;
+    pub use crate::data_structures::{Bitmap, SerializableBuf, ID, ID_LEN};
+    pub use crate::dht::{start_dht, verif as dht};
+    pub use crate::fs::{Fs, FS};
+    pub use crate::gateway_device::LOCAL_PORT_UDP;
+    pub use crate::peers::{active_peers, connection, peer};
+    pub use crate::torrent_manager::{start_client, TorrentManager};
+    pub use crate::tracker::spawn_tracker_managers;
+    pub use crate::transcoding::metainfo;
+
+    pub mod shutdown {
+        pub use crate::shutdown::{channel, AliveTaskWaiter, Receiver, Sender};
+    }
+}
-- 
2.43.0


From 7f032238b3d340fea03c4dfbb6eac9e331247c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 02/47] fix: rediscovering a known peer must not reset its
 status

---
 src/peers/active_peers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index 12228a6..aa3078c 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -31,7 +31,11 @@ impl Peers {
     }
 
     pub fn insert(&self, peer: Peer) {
-        self.data.lock().unwrap().insert(peer, Status::Unknown);
+        self.data
+            .lock()
+            .unwrap()
+            .entry(peer)
+            .or_insert(Status::Unknown);
     }
 
     // TODO this name is bad. `peers.serve(info_hash)` is clear but only seeing it here is laughably bad.
@@ -135,7 +139,9 @@ where
     fn extend<T: IntoIterator<Item = P>>(&mut self, iter: T) {
         let mut data = self.data.lock().unwrap();
 
-        data.extend(iter.into_iter().map(|peer| (peer.into(), Status::Unknown)));
+        for peer in iter {
+            data.entry(peer.into()).or_insert(Status::Unknown);
+        }
     }
 }
 
-- 
2.43.0


From 03f67fd99bbba6e77d9df19a219f3789b1efc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 03/47] fix: listing good peers must not mark them as active

---
 src/peers/active_peers.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index aa3078c..30e0d4c 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -62,9 +62,18 @@ impl Peers {
             Status::ChokedForTooLong,
         ];
 
-        let mut data = self.data.lock().unwrap();
-
-        let peers = self.activate_peers_in_locked_data(&mut data, limit, &status_priority_order);
+        let data = self.data.lock().unwrap();
+
+        // only a listing: peers must stay available for return_batch_of_bad_peers_and_get_new_batch
+        let peers: Vec<Peer> = status_priority_order
+            .iter()
+            .flat_map(|cur_status| {
+                data.iter()
+                    .filter(move |(_, status)| discriminant(*status) == discriminant(cur_status))
+                    .map(|(peer, _)| peer.to_owned())
+            })
+            .take(limit)
+            .collect();
 
         if peers.is_empty() {
             None
-- 
2.43.0


From 0e039edfe4cf1162e71381509a729cbb40638de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 04/47] fix: order ids by their full numeric value

---
 src/data_structures/id.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index dec4e36..f076e79 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -219,7 +219,6 @@ impl Ord for ID {
     fn cmp(&self, other: &Self) -> Ordering {
         for (self_bit, other_bit) in self.bit_iter().zip(other.bit_iter()) {
             match (self_bit, other_bit) {
-                (true, true) => return Ordering::Equal,
                 (true, false) => return Ordering::Greater,
                 (false, true) => return Ordering::Less,
                 _ => (),
-- 
2.43.0


From 30545e2ed753989eadd788e98156d4b87339317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 05/47] fix: a full own bucket splits for every id in its range

---
 src/dht/routing_table/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/routing_table/bucket.rs b/src/dht/routing_table/bucket.rs
index ed17a70..0c07f93 100644
--- a/src/dht/routing_table/bucket.rs
+++ b/src/dht/routing_table/bucket.rs
@@ -117,7 +117,7 @@ impl Bucket {
     pub fn id_within_bucket_range(&self, own_id: &ID, id: &ID) -> bool {
         match own_id.first_diff_bit_idx(id) {
             None => true,
-            Some(first_diff) => first_diff > self.depth,
+            Some(first_diff) => first_diff >= self.depth,
         }
     }
 
-- 
2.43.0


From f2e54bcffb32265ac11ce96fed0ef3ea281558e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 06/47] fix: return the K good nodes that are closest to the
 requested id

---
 src/dht/routing_table/table.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 29ea2c1..61362a2 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -136,23 +136,15 @@ impl RoutingTable {
     }
 
     pub fn get_closest_nodes(&self, id: &ID) -> Option<Vec<Node>> {
-        let mut nodes = Vec::new();
-
-        let node_bucket_idx = self.find_bucket_idx_by_id(id);
-
-        for bucket in self.data[node_bucket_idx..]
+        let mut nodes: Vec<Node> = self
+            .data
             .iter()
-            .chain(self.data[..node_bucket_idx].iter().rev())
-        {
-            nodes.extend(bucket.iter_over_goods().cloned());
-
-            if nodes.len() >= K_NODE_PER_BUCKET {
-                break;
-            }
-        }
+            .flat_map(|bucket| bucket.iter_over_goods().cloned())
+            .collect();
 
         if !nodes.is_empty() {
             nodes.sort_by(|a, b| a.cmp_by_distance_to_id(b, id));
+            nodes.truncate(K_NODE_PER_BUCKET);
             Some(nodes)
         } else {
             warn!(
-- 
2.43.0


From 40f981d7023b895bbd157f41f3e81cf750a4e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 07/47] fix: an id of the wrong length is a decoding error, not
 a panic

---
 src/data_structures/id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index f076e79..501db0b 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -185,7 +185,8 @@ impl<'de> Deserialize<'de> for ID {
             where
                 E: serde::de::Error,
             {
-                Ok(v.try_into().unwrap())
+                v.try_into()
+                    .map_err(|_| E::invalid_length(v.len(), &self))
             }
         }
         Ok(ID(deserializer.deserialize_byte_buf(Visitor {})?))
-- 
2.43.0


From 31e81bd29547c359f200f027a027313a3f0c8144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 08/47] fix: saving the routing table is atomic and never
 aborts, loading checks what it got

---
 src/dht/routing_table/table.rs | 62 ++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 61362a2..9942d74 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -2,10 +2,11 @@ use super::bucket::Bucket;
 use super::{Node, K_NODE_PER_BUCKET};
 use crate::data_structures::{ID, ID_BIT_COUNT};
 use crate::dht::krpc_message::Nodes;
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use serde::{Deserialize, Serialize};
+use std::collections::HashSet;
 use std::net::SocketAddrV4;
-use tokio::fs::{DirBuilder, File};
+use tokio::fs::{rename, DirBuilder, File};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tracing::{error, warn};
 
@@ -42,24 +43,65 @@ impl RoutingTable {
         let mut file = File::open(path).await?;
         file.read_to_end(&mut buf).await?;
 
-        Ok(bincode::deserialize(&buf)?)
+        let table: Self = bincode::deserialize(&buf)?;
+        table.check_shape()?;
+
+        Ok(table)
+    }
+
+    /// Whatever decodes is not necessarily a table: every bucket has to be at its place and to
+    /// hold only nodes of its range, at most once.
+    fn check_shape(&self) -> Result<()> {
+        if self.data.is_empty() || self.data.len() > ID_BIT_COUNT + 1 {
+            bail!("routing table with {} buckets", self.data.len());
+        }
+
+        let last = self.data.len() - 1;
+
+        for (idx, bucket) in self.data.iter().enumerate() {
+            if bucket.depth() != (idx + 1).min(last) {
+                bail!("bucket {idx} has depth {}", bucket.depth());
+            }
+
+            let mut ids = HashSet::new();
+
+            for node in bucket.iter_nodes() {
+                if self.find_bucket_idx_by_id(&node.id) != idx || !ids.insert(node.id) {
+                    bail!("bucket {idx} can't hold {:?}", node.id);
+                }
+            }
+        }
+
+        Ok(())
     }
 
     pub async fn store(&self) {
-        let mut path = home::home_dir()
-            .ok_or(anyhow!("can't find home dir"))
-            .unwrap();
+        if let Err(e) = self.try_storing_to_disk().await {
+            error!(?e);
+        }
+    }
+
+    async fn try_storing_to_disk(&self) -> Result<()> {
+        let mut path = home::home_dir().ok_or(anyhow!("can't find home dir"))?;
         path.push(APP_DIR_NAME);
 
         let mut builder = DirBuilder::new();
-        builder.recursive(true).create(&path).await.unwrap();
+        builder.recursive(true).create(&path).await?;
 
-        let encoded = bincode::serialize(&self).unwrap();
+        let encoded = bincode::serialize(&self)?;
 
+        // complete the new file before it takes the place of the previous one
+        let tmp_path = path.join(format!("{CACHED_DHT_FILE}.tmp"));
         path.push(CACHED_DHT_FILE);
-        let mut file = File::create(path).await.unwrap();
 
-        file.write_all(&encoded).await.unwrap();
+        let mut file = File::create(&tmp_path).await?;
+        file.write_all(&encoded).await?;
+        file.flush().await?;
+        file.sync_all().await?;
+
+        rename(tmp_path, path).await?;
+
+        Ok(())
     }
 
     pub fn own_id(&self) -> &ID {
-- 
2.43.0


From 3d6aa214bcb1eec25f80a0344e5ba0064902543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 09/47] fix: traffic must not postpone the DHT's periodic work

---
 src/capped_growing_interval.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/capped_growing_interval.rs b/src/capped_growing_interval.rs
index 3ec3e89..67912f8 100644
--- a/src/capped_growing_interval.rs
+++ b/src/capped_growing_interval.rs
@@ -1,9 +1,11 @@
 use std::time::Duration;
-use tokio::time::sleep;
+use tokio::time::{sleep_until, Instant};
+
 pub struct CappedGrowingInterval {
     growth_formula: fn(f64) -> f64,
     iter_count: usize,
     max: f64,
+    deadline: Option<Instant>,
 }
 
 impl CappedGrowingInterval {
@@ -12,17 +14,30 @@ impl CappedGrowingInterval {
             growth_formula,
             iter_count: 0,
             max,
+            deadline: None,
         }
     }
 
+    /// Cancellation safe: a tick which is dropped and awaited again keeps its deadline.
     pub async fn tick(&mut self) {
+        let deadline = match self.deadline {
+            Some(deadline) => deadline,
+            None => Instant::now() + self.next_duration(),
+        };
+        self.deadline = Some(deadline);
+
+        sleep_until(deadline).await;
+
+        self.deadline = None;
+        self.iter_count += 1;
+    }
+
+    fn next_duration(&self) -> Duration {
         let sleep_duration = [(self.growth_formula)(self.iter_count as f64), self.max]
             .into_iter()
             .min_by(|a, b| a.partial_cmp(b).unwrap())
             .unwrap();
 
-        sleep(Duration::from_secs_f64(sleep_duration)).await;
-
-        self.iter_count += 1;
+        Duration::from_secs_f64(sleep_duration)
     }
 }
-- 
2.43.0


From b91af2e96ffada7a6c49cf54b00f99f37f101b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 10/47] fix: rounding zero up is zero, not an overflow

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 28aeedb..6c6594a 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -1,7 +1,7 @@
 #[macro_export]
 macro_rules! unsigned_ceil_div {
     ($numerator:expr, $denominator:expr) => {{
-        1 + (($numerator - 1) / $denominator)
+        $numerator / $denominator + if $numerator % $denominator == 0 { 0 } else { 1 }
     }};
 }
 
-- 
2.43.0


From 80513bd68df09a39f1bd1a9f65ce4d47e288a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 11/47] fix: spare bits of a received bitfield are not pieces

---
 src/data_structures/bitmap.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/data_structures/bitmap.rs b/src/data_structures/bitmap.rs
index c1afbfc..387456c 100644
--- a/src/data_structures/bitmap.rs
+++ b/src/data_structures/bitmap.rs
@@ -33,9 +33,22 @@ impl Bitmap {
             self.data[i] = *d;
         }
 
+        self.clear_spare_bits();
+
         Ok(())
     }
 
+    /// Bits beyond the last piece are no pieces, whatever a peer put there.
+    fn clear_spare_bits(&mut self) {
+        let used_bits = self.len % 8;
+
+        if used_bits != 0 {
+            if let Some(last) = self.data.last_mut() {
+                *last &= !(0xff >> used_bits);
+            }
+        }
+    }
+
     pub fn get(&self, i: usize) -> bool {
         let byte_idx = i / 8;
         let bit_offset = i % 8;
-- 
2.43.0


From 027e5e207effeb3d186c312a9d776f862fb866cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 12/47] fix: shutdown handles cloned after the request are
 notified as well

---
 src/shutdown.rs | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/shutdown.rs b/src/shutdown.rs
index f1aa3f1..e0a4d13 100644
--- a/src/shutdown.rs
+++ b/src/shutdown.rs
@@ -1,13 +1,14 @@
-use tokio::sync::{broadcast, mpsc};
+use std::future::pending;
+use tokio::sync::{mpsc, watch};
 
 pub fn channel() -> (Sender, Receiver) {
-    let (broadcast_tx, _) = broadcast::channel(1);
+    let (requested_tx, requested_rx) = watch::channel(false);
 
     let (tx, rx) = mpsc::channel(1);
     let waiter = AliveTaskWaiter(rx);
 
-    let s = Sender::new(broadcast_tx.clone(), waiter);
-    let r = Receiver::new(broadcast_tx, tx);
+    let s = Sender::new(requested_tx, waiter);
+    let r = Receiver::new(requested_rx, tx);
 
     (s, r)
 }
@@ -22,48 +23,42 @@ impl AliveTaskWaiter {
 }
 
 pub struct Sender {
-    sender: broadcast::Sender<()>,
+    sender: watch::Sender<bool>,
     waiter: AliveTaskWaiter,
 }
 
 impl Sender {
-    fn new(sender: broadcast::Sender<()>, waiter: AliveTaskWaiter) -> Self {
+    fn new(sender: watch::Sender<bool>, waiter: AliveTaskWaiter) -> Self {
         Self { sender, waiter }
     }
 
     pub fn send(self) -> AliveTaskWaiter {
-        let _ = self.sender.send(());
+        let _ = self.sender.send(true);
         self.waiter
     }
 }
 
-#[derive(Debug)]
+// The request is a state and not an event, so that clones made after it was sent see it as well.
+#[derive(Debug, Clone)]
 pub struct Receiver {
-    sender: broadcast::Sender<()>,
-    receiver: broadcast::Receiver<()>,
-    alive_marker: HolderStillAlive,
+    receiver: watch::Receiver<bool>,
+    _alive_marker: HolderStillAlive,
 }
 
 impl Receiver {
-    fn new(sender: broadcast::Sender<()>, alive_marker: HolderStillAlive) -> Self {
+    fn new(receiver: watch::Receiver<bool>, alive_marker: HolderStillAlive) -> Self {
         Self {
-            receiver: sender.subscribe(),
-            sender,
-            alive_marker,
+            receiver,
+            _alive_marker: alive_marker,
         }
     }
 
     pub async fn recv(&mut self) {
-        self.receiver.recv().await.unwrap()
-    }
-}
-
-impl Clone for Receiver {
-    fn clone(&self) -> Self {
-        Self {
-            sender: self.sender.clone(),
-            receiver: self.sender.subscribe(),
-            alive_marker: self.alive_marker.clone(),
+        while !*self.receiver.borrow_and_update() {
+            if self.receiver.changed().await.is_err() {
+                // nobody is left who could request a shutdown
+                pending::<()>().await;
+            }
         }
     }
 }
-- 
2.43.0


From 7d0b63506062cbf9bff421de15906d344a4842ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 13/47] fix: a block is counted once, and receiving one does
 not underflow the pending count

---
 src/peers/connection/pending_pieces.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 996df3a..7502c8c 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -32,7 +32,6 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
-    pending: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -108,9 +107,13 @@ impl PendingPieces {
 
         let block = &mut piece.data[block_idx];
 
+        if matches!(block, Block::Downloaded(_)) {
+            error!("block {block_idx} of piece {piece_idx} is already downloaded");
+            return AddBlockRes::Failed;
+        }
+
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
-        piece.pending -= 1;
 
         if self.blocks_per_piece == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
@@ -228,7 +231,6 @@ impl Piece {
         let data = vec![Block::default(); piece_count];
 
         Self {
-            pending: 0,
             downloaded: 0,
             data,
         }
-- 
2.43.0


From 583203e5a2d0b5736b37b5a0f3d46a680214b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 14/47] fix: a peer is handed no more blocks than it has room
 for

---
 src/peers/connection/pending_pieces.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 7502c8c..57530c0 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -149,6 +149,10 @@ impl PendingPieces {
             |block: &Block| block.is_expired_pending(),
         ];
 
+        if block_buf.capacity() == block_buf.len() {
+            return;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         let now = Instant::now();
@@ -163,10 +167,10 @@ impl PendingPieces {
                 });
 
                 block_buf.push(block_address);
-            }
 
-            if block_buf.capacity() == block_buf.len() {
-                break;
+                if block_buf.capacity() == block_buf.len() {
+                    return;
+                }
             }
         }
     }
-- 
2.43.0


From 115af3586ff67924fe47befc9898b8da82b70e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 15/47] fix: the last block and the last piece are as long as
 what remains

---
 src/peers/connection/connection_handle.rs |  3 +-
 src/peers/connection/downloader.rs        |  4 +-
 src/peers/connection/message.rs           |  2 +-
 src/peers/connection/pending_pieces.rs    | 83 ++++++++++++++---------
 src/torrent_manager.rs                    |  1 +
 5 files changed, 58 insertions(+), 35 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index a96dbbc..e2db251 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -89,6 +89,7 @@ impl Connection {
         own_peer_id: ID,
         info_hash: ID,
         piece_length: usize,
+        total_length: usize,
         dht_handler: mpsc::Sender<SocketAddrV4>,
     ) -> Self {
         let (rec_tx, rec) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
@@ -97,7 +98,7 @@ impl Connection {
             info_hash,
             own_peer_id,
             dht_handler,
-            pending_pieces: PendingPieces::new(piece_length),
+            pending_pieces: PendingPieces::new(piece_length, total_length),
             peers: HashMap::new(),
             rec,
             rec_tx,
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 3a7c391..4bdb565 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -33,14 +33,16 @@ enum BlockStatus {
 pub struct BlockAddress {
     pub piece_idx: usize,
     pub block_idx: usize,
+    pub length: usize,
     status: BlockStatus,
 }
 
 impl BlockAddress {
-    pub fn new(piece_idx: usize, block_idx: usize) -> Self {
+    pub fn new(piece_idx: usize, block_idx: usize, length: usize) -> Self {
         Self {
             piece_idx,
             block_idx,
+            length,
             status: BlockStatus::Queued,
         }
     }
diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index 2682213..93f665c 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -254,7 +254,7 @@ impl From<BlockAddress> for Request {
         Self {
             index: value.piece_idx as u32,
             begin: (value.block_idx * BLOCK_SIZE) as u32,
-            length: BLOCK_SIZE as u32,
+            length: value.length as u32,
         }
     }
 }
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 57530c0..474e0e9 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -20,7 +20,7 @@ const MAINLINE_TCP_REQUEST_TIMEOUT_SECS: u64 = 7;
 #[derive(Clone)]
 pub struct PendingPieces {
     piece_length: usize,
-    blocks_per_piece: usize,
+    total_length: usize,
     copy_owner: Option<Peer>,
     data: Arc<StdMutex<HashMap<usize, Piece>>>,
 }
@@ -32,6 +32,7 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
+    length: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -56,10 +57,10 @@ pub enum AddBlockRes {
 }
 
 impl PendingPieces {
-    pub fn new(piece_length: usize) -> Self {
+    pub fn new(piece_length: usize, total_length: usize) -> Self {
         Self {
             piece_length,
-            blocks_per_piece: unsigned_ceil_div!(piece_length, BLOCK_SIZE),
+            total_length,
             copy_owner: None,
             data: Arc::new(StdMutex::new(HashMap::with_capacity(
                 MAX_PIECES_DOWNLOADING,
@@ -82,22 +83,31 @@ impl PendingPieces {
             bail!("Pending is full");
         }
 
-        data.insert(idx, Piece::new(self.piece_length));
+        let length = self.length_of_piece(idx);
+
+        if length == 0 {
+            bail!("piece {idx} is beyond the end of the torrent");
+        }
+
+        data.insert(idx, Piece::new(length));
 
         Ok(())
     }
 
+    /// All pieces are equally long except for the last one, which is what remains.
+    fn length_of_piece(&self, idx: usize) -> usize {
+        let start = idx.saturating_mul(self.piece_length);
+
+        self.piece_length
+            .min(self.total_length.saturating_sub(start))
+    }
+
     pub fn add_block_data(
         &mut self,
         piece_idx: usize,
         block_idx: usize,
         block_data: Vec<u8>,
     ) -> AddBlockRes {
-        if let Err(e) = self.check_block_bounds(block_idx, &block_data) {
-            error!(?e);
-            return AddBlockRes::Failed;
-        };
-
         let mut data = self.data.lock().unwrap();
 
         let Some(piece) = data.get_mut(&piece_idx) else {
@@ -105,6 +115,11 @@ impl PendingPieces {
             return AddBlockRes::Failed;
         };
 
+        if let Err(e) = piece.check_block_bounds(block_idx, &block_data) {
+            error!(?e);
+            return AddBlockRes::Failed;
+        };
+
         let block = &mut piece.data[block_idx];
 
         if matches!(block, Block::Downloaded(_)) {
@@ -115,7 +130,7 @@ impl PendingPieces {
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
 
-        if self.blocks_per_piece == piece.downloaded {
+        if piece.data.len() == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
             AddBlockRes::AddedLast(FinishedPiece {
                 data: finished_piece.data.into_iter().map(|b| b.into()).collect(),
@@ -182,36 +197,52 @@ impl PendingPieces {
     ) -> impl Iterator<Item = (&'a mut Block, BlockAddress)> + 'a {
         data.iter_mut()
             .filter_map(move |(piece_idx, piece)| {
+                let piece_length = piece.length;
+
                 piece_indexes.contains(piece_idx).then_some(
                     piece
                         .data
                         .iter_mut()
                         .enumerate()
                         .filter_map(move |(block_idx, block)| {
+                            let length = block_length(piece_length, block_idx);
+
                             filter_closure(block)
-                                .then_some((block, BlockAddress::new(*piece_idx, block_idx)))
+                                .then_some((block, BlockAddress::new(*piece_idx, block_idx, length)))
                         }),
                 )
             })
             .flatten()
     }
+}
+
+/// All blocks are equally long except for the last one, which is what remains of the piece.
+fn block_length(piece_length: usize, block_idx: usize) -> usize {
+    BLOCK_SIZE.min(piece_length - block_idx * BLOCK_SIZE)
+}
+
+impl Piece {
+    fn new(length: usize) -> Self {
+        let block_count = unsigned_ceil_div!(length, BLOCK_SIZE);
+        let data = vec![Block::default(); block_count];
+
+        Self {
+            length,
+            downloaded: 0,
+            data,
+        }
+    }
 
     fn check_block_bounds(&self, block_idx: usize, data: &[u8]) -> Result<()> {
-        if block_idx >= self.blocks_per_piece {
+        if block_idx >= self.data.len() {
             bail!(
                 "block index ({}) out of bounds ({})",
                 block_idx,
-                self.blocks_per_piece
+                self.data.len()
             );
         }
 
-        let last_block_in_piece = block_idx + 1 == self.blocks_per_piece;
-
-        let block_size = if last_block_in_piece {
-            self.piece_length % BLOCK_SIZE
-        } else {
-            BLOCK_SIZE
-        };
+        let block_size = block_length(self.length, block_idx);
 
         match block_size.cmp(&data.len()) {
             Ordering::Greater => Err(anyhow!(
@@ -229,18 +260,6 @@ impl PendingPieces {
     }
 }
 
-impl Piece {
-    fn new(size: usize) -> Self {
-        let piece_count = unsigned_ceil_div!(size, BLOCK_SIZE);
-        let data = vec![Block::default(); piece_count];
-
-        Self {
-            downloaded: 0,
-            data,
-        }
-    }
-}
-
 impl Default for Block {
     fn default() -> Self {
         Self::Unbegun
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index d1b20e7..5081ce0 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -94,6 +94,7 @@ impl TorrentManager {
                     own_peer_id,
                     metainfo.info_hash,
                     metainfo.info.piece_length as usize,
+                    metainfo.info.length() as usize,
                     dht_tx,
                 ),
                 fs: FS::new("/home/gvelesa/rust/narpath", metainfo.info.to_owned()).await,
-- 
2.43.0


From 065e0a4c56a0a2d1a0fbc7e928873c325778f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 16/47] fix: a peer's copy of the pending pieces knows its
 owner

---
 src/peers/connection/connection_handle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index e2db251..5270998 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -135,13 +135,16 @@ impl Connection {
             shutdown_rx.clone(),
         );
 
+        let mut pending_pieces = self.pending_pieces.clone();
+        pending_pieces.set_owner_peer(peer);
+
         spawn_piece_downloader(
             peer,
             send_tx,
             self.rec_tx.clone(),
             downloaded_block_rx,
             download_new_piece_rx,
-            self.pending_pieces.clone(),
+            pending_pieces,
             unchoke_waiter,
             shutdown_rx,
         );
-- 
2.43.0


From b0f9c51f81d357db5a6004c29c80c822546c350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 17/47] fix: last piece of a single file is written in full
 when the length is a multiple of the piece length

---
 src/fs/single_file_rw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 782fc41..0b68abb 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -85,7 +85,7 @@ impl SingleFileRw {
         let file = self.files.get_write(&self.torrent_name).await?;
         file.seek(SeekFrom::Start(start as u64)).await?;
 
-        let mut remaining_bytes = (self.info.length() % self.info.piece_length) as usize;
+        let mut remaining_bytes = self.info.length() as usize - start;
         let mut block_iter = piece.data.iter();
 
         while remaining_bytes > 0 {
@@ -96,7 +96,7 @@ impl SingleFileRw {
                     "last piece (idx={}) has less data ({} blocks) than expected ({} bytes)",
                     piece.idx,
                     piece.data.len(),
-                    self.info.length() % self.info.piece_length
+                    self.info.length() as usize - start
                 );
             };
 
-- 
2.43.0


From a0df5d2890fa8f75d58cdaf9d61454e86e0f3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 18/47] fix: opening a stored multi file torrent again neither
 panics nor deletes it

---
 src/fs/multi_file_rw.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index ed46083..a2389b7 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -8,6 +8,7 @@ use anyhow::{bail, Result};
 use async_trait::async_trait;
 use std::io::SeekFrom;
 use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
+use tracing::error;
 
 pub struct MultiFileRw {
     torrent_name: String,
@@ -21,9 +22,9 @@ impl MultiFileRw {
             panic!("mock torrent is not in multi-file mode");
         };
 
-        dir_builder::build_dir_tree(base_dir, &info.name, &files)
-            .await
-            .unwrap();
+        if let Err(e) = dir_builder::build_dir_tree(base_dir, &info.name, &files).await {
+            error!(?e);
+        }
 
         Self {
             torrent_name: format!("{}/{}", base_dir, &info.name),
@@ -135,9 +136,9 @@ async fn write_file_chunk_from_multi_file_piece(
 
 mod dir_builder {
     use crate::transcoding::metainfo;
-    use anyhow::{bail, Result};
+    use anyhow::Result;
     use std::collections::HashSet;
-    use tokio::fs::{remove_dir_all, DirBuilder};
+    use tokio::fs::DirBuilder;
 
     pub async fn build_dir_tree(
         base_dir: &str,
@@ -154,13 +155,11 @@ mod dir_builder {
     async fn create_dirs(working_dir: &str, dirs: &[String]) -> Result<()> {
         let mut builder = DirBuilder::new();
 
-        builder.recursive(false).create(working_dir).await?;
+        // recursive mode accepts directories that exist already
+        builder.recursive(true).create(working_dir).await?;
 
         for dir in dirs.iter() {
-            if let Err(e) = builder.recursive(false).create(dir).await {
-                remove_dir_all(working_dir).await?;
-                bail!(e);
-            }
+            builder.recursive(true).create(dir).await?;
         }
 
         Ok(())
-- 
2.43.0


From 36e3b00899775e2c04c265e49006ccabd3437dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 19/47] fix: empty file at the beginning of a piece does not
 panic

---
 src/fs/multi_file_rw.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index a2389b7..30e5652 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -102,6 +102,11 @@ async fn write_file_chunk_from_multi_file_piece(
     file.seek(SeekFrom::Start(start_within_file as u64)).await?;
 
     let length = end_within_piece - start_within_piece;
+
+    if length == 0 {
+        return Ok(()); // empty file, creating it was enough
+    }
+
     let start_within_block = start_within_piece % BLOCK_SIZE;
     let end_within_block = if end_within_piece % BLOCK_SIZE == 0 {
         BLOCK_SIZE // 0 means full block because it ends at BLOCK_SIZE
-- 
2.43.0


From 76b9d1136ec6229d2046c051f8eeb91b623a28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 20/47] fix: blocks and pieces the torrent doesn't have are
 errors before any I/O

---
 src/fs/mod.rs            | 66 ++++++++++++++++++++++++++++++++++++++++
 src/fs/multi_file_rw.rs  |  6 +++-
 src/fs/single_file_rw.rs |  6 +++-
 3 files changed, 76 insertions(+), 2 deletions(-)

diff --git a/src/fs/mod.rs b/src/fs/mod.rs
index 7235d0f..7e24292 100644
--- a/src/fs/mod.rs
+++ b/src/fs/mod.rs
@@ -3,7 +3,9 @@ mod multi_file_iter;
 mod multi_file_rw;
 mod single_file_rw;
 
+use crate::peers::connection::connection_manager::BLOCK_SIZE;
 use crate::{peers::connection::pending_pieces::FinishedPiece, transcoding::metainfo::Info};
+use anyhow::{ensure, Context};
 
 #[async_trait::async_trait]
 pub trait Fs {
@@ -49,3 +51,67 @@ impl Fs for FS {
         self.0.write_piece(piece).await
     }
 }
+
+/// makes sure that the torrent contains the block and that it fits in the buffer
+fn check_block(
+    info: &Info,
+    index: usize,
+    begin: usize,
+    length: usize,
+    buf: &[u8],
+) -> anyhow::Result<()> {
+    let block_end = index
+        .checked_mul(info.piece_length as usize)
+        .and_then(|piece_start| piece_start.checked_add(begin))
+        .and_then(|block_start| block_start.checked_add(length))
+        .context("block is out of bounds")?;
+
+    ensure!(
+        index < info.pieces.len() && block_end <= info.length() as usize,
+        "block is out of bounds"
+    );
+    ensure!(length <= buf.len(), "block doesn't fit in the buffer");
+
+    Ok(())
+}
+
+/// makes sure that the torrent contains the piece and that its blocks are the whole of it,
+/// the last piece might have padding at the end
+fn check_piece(info: &Info, piece: &FinishedPiece) -> anyhow::Result<()> {
+    let piece_start = piece
+        .idx
+        .checked_mul(info.piece_length as usize)
+        .filter(|start| piece.idx < info.pieces.len() && *start < info.length() as usize)
+        .with_context(|| format!("piece {} is out of bounds", piece.idx))?;
+
+    let is_last = piece.idx == info.pieces.len() - 1;
+    let piece_length = std::cmp::min(
+        info.piece_length as usize,
+        info.length() as usize - piece_start,
+    );
+    let block_count = (piece_length + BLOCK_SIZE - 1) / BLOCK_SIZE;
+
+    ensure!(
+        piece.data.len() == block_count || (is_last && piece.data.len() > block_count),
+        "piece {} has {} blocks instead of {}",
+        piece.idx,
+        piece.data.len(),
+        block_count
+    );
+
+    for (block_idx, block) in piece.data[..block_count].iter().enumerate() {
+        let expected = std::cmp::min(BLOCK_SIZE, piece_length - block_idx * BLOCK_SIZE);
+
+        ensure!(
+            block.len() == expected
+                || (is_last && block_idx == block_count - 1 && block.len() > expected),
+            "block {} of piece {} has {} bytes instead of {}",
+            block_idx,
+            piece.idx,
+            block.len(),
+            expected
+        );
+    }
+
+    Ok(())
+}
diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 30e5652..44672dc 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -1,6 +1,6 @@
 use super::file_cache::FileCache;
 use super::multi_file_iter::FilesInBounds;
-use super::Fs;
+use super::{check_block, check_piece, Fs};
 use crate::peers::connection::connection_manager::BLOCK_SIZE;
 use crate::peers::connection::pending_pieces::FinishedPiece;
 use crate::transcoding::metainfo::{self, Info, Mode};
@@ -44,6 +44,8 @@ impl Fs for MultiFileRw {
         length: usize,
         buf: &mut [u8],
     ) -> Result<()> {
+        check_block(&self.info, index, begin, length, buf)?;
+
         let piece_start = index * self.info.piece_length as usize;
         let block_start = piece_start + begin;
         let block_end = block_start + length;
@@ -67,6 +69,8 @@ impl Fs for MultiFileRw {
     }
 
     async fn write_piece(&mut self, piece: FinishedPiece) -> Result<()> {
+        check_piece(&self.info, &piece)?;
+
         let Self {
             files, file_infos, ..
         } = self;
diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 0b68abb..00ba2e6 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -1,5 +1,5 @@
 use super::file_cache::FileCache;
-use super::Fs;
+use super::{check_block, check_piece, Fs};
 use crate::peers::connection::connection_manager::BLOCK_SIZE;
 use crate::peers::connection::pending_pieces::FinishedPiece;
 use crate::transcoding::metainfo::Info;
@@ -33,6 +33,8 @@ impl Fs for SingleFileRw {
         length: usize,
         buf: &mut [u8],
     ) -> Result<()> {
+        check_block(&self.info, index, begin, length, buf)?;
+
         let piece_start = index * self.info.piece_length as usize;
         let block_start = piece_start + begin;
 
@@ -49,6 +51,8 @@ impl Fs for SingleFileRw {
     }
 
     async fn write_piece(&mut self, piece: FinishedPiece) -> Result<()> {
+        check_piece(&self.info, &piece)?;
+
         match piece.idx {
             idx if idx < self.info.pieces.len() - 1 => {
                 self.write_middle_piece_single_file(piece).await?
-- 
2.43.0


From 4e540936dde4c125012991fe8556e0ab24a8753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 21/47] fix: a failed write of a piece is reported, not lost in
 the background

---
 src/fs/multi_file_rw.rs  | 3 +++
 src/fs/single_file_rw.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 44672dc..62f0ad0 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -140,6 +140,9 @@ async fn write_file_chunk_from_multi_file_piece(
         }
     }
 
+    // writes happen in the background, their errors would be lost otherwise
+    file.flush().await?;
+
     Ok(())
 }
 
diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 00ba2e6..ab7d267 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -80,6 +80,9 @@ impl SingleFileRw {
             file.write_all(&block).await?;
         }
 
+        // writes happen in the background, their errors would be lost otherwise
+        file.flush().await?;
+
         Ok(())
     }
 
@@ -109,6 +112,8 @@ impl SingleFileRw {
             remaining_bytes -= bytes_to_write;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 }
-- 
2.43.0


From b4d309f14edb56a0b8822c4dfff8017e3ac29697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 22/47] fix: file names in a torrent can't lead out of its
 directory

---
 src/transcoding/metainfo.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 9b7fa6b..c9dde92 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -8,7 +8,7 @@ use openssl::sha;
 use std::collections::HashSet;
 use std::fmt;
 use std::fs::File as fsFile;
-use std::io::Read;
+use std::io::{self, Read};
 use std::path::Path;
 
 // TODO I'm not gonna touch FromBencode parts, but it's not good. one more reason to get rid of that shit crate.
@@ -315,7 +315,7 @@ impl FromBencode for Info {
         while let Some(kv) = info.next_pair()? {
             match kv {
                 (b"name", value) => {
-                    name = Some(String::decode_bencode_object(value)?);
+                    name = Some(check_path_component(String::decode_bencode_object(value)?)?);
                 }
                 (b"pieces", value) => {
                     pieces = {
@@ -360,7 +360,13 @@ impl FromBencode for File {
         while let Some(kv) = file.next_pair()? {
             match kv {
                 (b"path", value) => {
-                    path = Some(Vec::<String>::decode_bencode_object(value)?);
+                    let components = Vec::<String>::decode_bencode_object(value)?
+                        .into_iter()
+                        .map(check_path_component)
+                        .collect::<Result<Vec<_>, _>>()?;
+
+                    // without components it would be the directory of the torrent
+                    path = (!components.is_empty()).then_some(components);
                 }
                 (b"length", value) => {
                     length = Some(u64::decode_bencode_object(value)?);
@@ -376,6 +382,21 @@ impl FromBencode for File {
     }
 }
 
+// names come from strangers, they must not lead out of the directory they're meant for
+fn check_path_component(component: String) -> Result<String, bendy::decoding::Error> {
+    match component.as_str() {
+        "" | "." | ".." => Err(malformed(format!("{component:?} is not a file name"))),
+        name if name.contains(['/', '\0']) => {
+            Err(malformed(format!("{component:?} is not a file name")))
+        }
+        _ => Ok(component),
+    }
+}
+
+fn malformed(message: String) -> bendy::decoding::Error {
+    bendy::decoding::Error::malformed_content(io::Error::new(io::ErrorKind::InvalidData, message))
+}
+
 fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
     if raw.is_empty() || raw.len() % ID_LEN > 0 {
         return Err(bendy::decoding::Error::missing_field(format!(
-- 
2.43.0


From 46741a6ab480db6c2b80d614aaf9d420c99bed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 23/47] fix: torrents whose lengths, piece length and piece
 hashes contradict each other are rejected

---
 src/transcoding/metainfo.rs | 39 +++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index c9dde92..4451699 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -234,6 +234,30 @@ impl Info {
             Mode::Multi { files } => files.iter().map(|file| file.length).sum(),
         }
     }
+
+    fn check_piece_count(&self) -> Result<(), bendy::decoding::Error> {
+        let length = match &self.mode {
+            Mode::Single { length } => Some(*length),
+            Mode::Multi { files } => files
+                .iter()
+                .try_fold(0u64, |sum, file| sum.checked_add(file.length)),
+        };
+
+        match (length, self.piece_length) {
+            (Some(length), 1..)
+                if length / self.piece_length + (length % self.piece_length != 0) as u64
+                    == self.pieces.len() as u64 =>
+            {
+                Ok(())
+            }
+            _ => Err(malformed(format!(
+                "{} pieces of {} bytes don't add up to {:?} bytes",
+                self.pieces.len(),
+                self.piece_length,
+                length
+            ))),
+        }
+    }
 }
 
 impl TrackerAddr {
@@ -309,6 +333,7 @@ impl FromBencode for Info {
         let mut piece_length = None;
         let mut pieces = None;
         let mut mode = None;
+        let mut has_both_modes = false;
         let mut name = None;
 
         let mut info = object.try_into_dictionary()?;
@@ -324,6 +349,7 @@ impl FromBencode for Info {
                     };
                 }
                 (b"length", value) => {
+                    has_both_modes |= mode.is_some();
                     mode = Some(Mode::Single {
                         length: u64::decode_bencode_object(value)?,
                     });
@@ -332,6 +358,7 @@ impl FromBencode for Info {
                     piece_length = Some(u64::decode_bencode_object(value)?);
                 }
                 (b"files", value) => {
+                    has_both_modes |= mode.is_some();
                     mode = Some(Mode::Multi {
                         files: Vec::<File>::decode_bencode_object(value)?,
                     });
@@ -340,12 +367,20 @@ impl FromBencode for Info {
             }
         }
 
-        Ok(Info {
+        if has_both_modes {
+            return Err(malformed("both length and files in info".to_string()));
+        }
+
+        let info = Info {
             piece_length: ok_or_missing_field!(piece_length)?,
             pieces: ok_or_missing_field!(pieces)?,
             name: ok_or_missing_field!(name)?,
             mode: ok_or_missing_field!(mode, "length or files")?,
-        })
+        };
+
+        info.check_piece_count()?;
+
+        Ok(info)
     }
 }
 
-- 
2.43.0


From 8d21add9c973a37eb3e182b05591db01530f28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 24/47] fix: piece hashes are not allocated with one layout and
 freed with another

---
 src/transcoding/metainfo.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 4451699..2dee47f 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -432,7 +432,7 @@ fn malformed(message: String) -> bendy::decoding::Error {
     bendy::decoding::Error::malformed_content(io::Error::new(io::ErrorKind::InvalidData, message))
 }
 
-fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
+fn deserialize_pieces_field(raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
     if raw.is_empty() || raw.len() % ID_LEN > 0 {
         return Err(bendy::decoding::Error::missing_field(format!(
             "Info::pieces must be 20-byte SHA1 hash values but it has len={}",
@@ -440,13 +440,11 @@ fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding
         )));
     }
 
-    let piece_hashes = unsafe {
-        let length = raw.len() / ID_LEN;
-        let capacity = raw.capacity() / ID_LEN;
-        let ptr = raw.as_mut_ptr() as *mut ID;
-        std::mem::forget(raw);
-        Vec::from_raw_parts(ptr, length, capacity)
-    };
+    // copied, a buffer of bytes can't be turned into (and later freed as) a buffer of IDs
+    let piece_hashes = raw
+        .chunks_exact(ID_LEN)
+        .map(|hash| ID::new(hash.try_into().expect("chunks are ID_LEN bytes long")))
+        .collect();
 
     Ok(piece_hashes)
 }
-- 
2.43.0


From f4b35f07ec81d76881935cbc06c5a0556cf34350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 25/47] fix: a session opens only after a whole handshake for
 the same torrent

---
 src/peers/connection/handshake.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index b9e8ef8..6e2034f 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,5 +1,5 @@
-use crate::data_structures::ID;
-use anyhow::{anyhow, bail, Result};
+use crate::data_structures::{ID, ID_LEN};
+use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -8,6 +8,8 @@ use tokio::net::TcpStream;
 const PSTRLEN: u8 = 19;
 const PSTR: &[u8] = b"BitTorrent protocol";
 const HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL: usize = 68;
+const INFO_HASH_START: usize = 28;
+const INFO_HASH_END: usize = INFO_HASH_START + ID_LEN;
 
 pub async fn initiate_handshake(
     sock_addr: &SocketAddrV4,
@@ -20,14 +22,15 @@ pub async fn initiate_handshake(
     stream.write_all(handshake.as_ref()).await?;
 
     let mut buf = [0_u8; HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL];
-    let received_byte_cnt = stream.read(&mut buf).await?;
+    stream.read_exact(&mut buf).await?;
 
-    if received_byte_cnt != HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL {
-        Err(anyhow!("can't connect to peer"))
-    } else {
-        Handshake::check_validity(buf.as_ref())?;
-        Ok(stream)
+    Handshake::check_validity(buf.as_ref())?;
+
+    if buf[INFO_HASH_START..INFO_HASH_END] != *info_hash.as_byte_ref() {
+        bail!("peer serves another torrent");
     }
+
+    Ok(stream)
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 73a2ec0fd6e91e0778e6979cb8f258c956a8e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 26/47] fix: a closed connection ends the session and is
 reported as disconnected

---
 src/peers/connection/connection_manager.rs | 32 ++++++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 1db4517..cdf91a2 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -56,7 +56,17 @@ async fn manage_tcp(
     send_rx: mpsc::Receiver<Message>,
     mut shutdown_rx: shutdown::Receiver,
 ) {
-    let Ok(mut stream) = initiate_handshake(&peer.into(), &info_hash, &own_peer_id).await else {
+    let peer_addr = peer.into();
+
+    let stream = select! {
+        _ = shutdown_rx.recv() => return,
+        stream = initiate_handshake(&peer_addr, &info_hash, &own_peer_id) => stream,
+    };
+
+    let Ok(mut stream) = stream else {
+        // nothing can be queued anymore when the end is reported
+        drop(send_rx);
+
         // I can ignore it because if rec is dead, there's not much to do other than shutting down
         let _ = peer_handler
             .send(ConnectionMessage {
@@ -70,10 +80,19 @@ async fn manage_tcp(
     let (read_stream, write_stream) = split(&mut stream);
 
     select! {
-        _ = shutdown_rx.recv() => {},
-        _ = manager_sender(write_stream, send_rx) => {},
-        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, peer_handler) => {},
+        _ = shutdown_rx.recv() => return,
+        _ = manager_sender(write_stream, send_rx) => return,
+        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, &peer_handler) => {},
     };
+
+    drop(stream);
+
+    let _ = peer_handler
+        .send(ConnectionMessage {
+            peer,
+            message: ConMessageType::Disconnected,
+        })
+        .await;
 }
 
 async fn manager_sender(
@@ -99,7 +118,7 @@ async fn manager_receiver(
     mut stream: ReadHalf<&mut TcpStream>,
     piece_handler: mpsc::Sender<Piece>,
     dht_handler: mpsc::Sender<SocketAddrV4>,
-    peer_handler: mpsc::Sender<ConnectionMessage>,
+    peer_handler: &mpsc::Sender<ConnectionMessage>,
 ) {
     let mut buf = vec![0u8; MAX_MESSAGE_BYTES];
     let mut data_start = 0;
@@ -107,6 +126,7 @@ async fn manager_receiver(
 
     loop {
         data_len += match stream.read(&mut buf[data_start + data_len..]).await {
+            Ok(0) => return,
             Ok(len) => len,
             Err(e) => {
                 error!(?e);
@@ -134,7 +154,7 @@ async fn manager_receiver(
 
                 data_start = 0;
 
-                handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
+                handle_message(peer, message, &piece_handler, &dht_handler, peer_handler).await;
             } else {
                 break;
             }
-- 
2.43.0


From 5ca298e8ed5bc967e7390a3128717ea83603a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 27/47] fix: a message is decoded only from its own bytes;
 unknown kinds are skipped, impossible ones end the session

---
 src/peers/connection/connection_manager.rs | 22 ++++++++++++-----
 src/peers/connection/message.rs            | 28 ++++++++++++++++++++++
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index cdf91a2..bd195b5 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -137,13 +137,19 @@ async fn manager_receiver(
         while data_len >= BYTES_IN_LEN_PREFIX {
             let message_len = Message::len(&buf[data_start..]) + BYTES_IN_LEN_PREFIX;
 
+            if message_len > MAX_MESSAGE_BYTES {
+                error!("message of {message_len} bytes is too long");
+                return;
+            }
+
             if message_len <= data_len {
-                let Some(message) = Message::from_buf(&buf) else {
-                    error!("message_len <= data_len but buf can't be deserialize into message");
-                    data_start = 0;
-                    data_len = 0;
-                    break;
-                };
+                let message_buf = &buf[data_start..data_start + message_len];
+                let message = Message::from_buf(message_buf);
+
+                if message.is_none() && Message::is_supported(message_buf) {
+                    error!("length of the message doesn't fit its kind");
+                    return;
+                }
 
                 data_start += message_len;
                 data_len -= message_len;
@@ -154,6 +160,10 @@ async fn manager_receiver(
 
                 data_start = 0;
 
+                let Some(message) = message else {
+                    continue;
+                };
+
                 handle_message(peer, message, &piece_handler, &dht_handler, peer_handler).await;
             } else {
                 break;
diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index 93f665c..6b6a116 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -108,6 +108,12 @@ impl Message {
         } else {
             let id = buf[ID_IDX];
             debug!(id);
+
+            if !Self::has_proper_len(id, len - BYTES_IN_LEN_PREFIX) {
+                warn!("message {id} can't be {len} bytes long");
+                return None;
+            }
+
             match id {
                 CHOKE_ID => Message::Choke,
                 UNCHOKE_ID => Message::Unchoke,
@@ -143,6 +149,28 @@ impl Message {
         Some(message)
     }
 
+    pub fn is_supported(buf: &[u8]) -> bool {
+        Self::len(buf) == 0 || buf[ID_IDX] <= PORT_ID
+    }
+
+    fn has_proper_len(id: u8, len: usize) -> bool {
+        let len = len as u32;
+
+        match id {
+            CHOKE_ID => len == CHOKE_LEN,
+            UNCHOKE_ID => len == UNCHOKE_LEN,
+            INTERESTED_ID => len == INTERESTED_LEN,
+            NOT_INTERESTED_ID => len == NOT_INTERESTED_LEN,
+            HAVE_ID => len == HAVE_LEN,
+            BITFIELD_ID => len >= BITFIELD_LEN,
+            REQUEST_ID => len == REQUEST_LEN,
+            PIECE_ID => len >= PIECE_LEN,
+            CANCEL_ID => len == CANCEL_LEN,
+            PORT_ID => len == PORT_LEN,
+            _ => true,
+        }
+    }
+
     pub fn into_bytes(self) -> Vec<u8> {
         bincode::DefaultOptions::new()
             .with_big_endian()
-- 
2.43.0


From 1a009731394ac93613985ca6d16e131f5a13b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 28/47] fix: a peer whose session has ended can be connected
 again

---
 src/peers/connection/connection_handle.rs | 40 +++++++++++++++++++----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 5270998..192a889 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -159,18 +159,46 @@ impl Connection {
     }
 
     pub async fn recv(&mut self) -> ConnectionMessage {
-        // None is impossible because one copy of tx is stored in self
-        let msg = self.rec.recv().await.unwrap();
+        loop {
+            // None is impossible because one copy of tx is stored in self
+            let msg = self.rec.recv().await.unwrap();
 
-        if let Some(peer_con) = self.peers.get(&msg.peer) {
             match &msg.message {
-                ConMessageType::Choke => peer_con.choker.choke(),
-                ConMessageType::Unchoke => peer_con.choker.unchoke(),
+                ConMessageType::Unreachable | ConMessageType::Disconnected => {
+                    if !self.forget_ended_session(&msg.peer) {
+                        continue;
+                    }
+                }
+                ConMessageType::Choke => {
+                    if let Some(peer_con) = self.peers.get(&msg.peer) {
+                        peer_con.choker.choke();
+                    }
+                }
+                ConMessageType::Unchoke => {
+                    if let Some(peer_con) = self.peers.get(&msg.peer) {
+                        peer_con.choker.unchoke();
+                    }
+                }
                 _ => (),
             }
+
+            return msg;
+        }
+    }
+
+    /// false if the report is about a session which was already replaced or ended by disconnect.
+    fn forget_ended_session(&mut self, peer: &Peer) -> bool {
+        let ended = self
+            .peers
+            .get(peer)
+            .map(|peer_con| peer_con.send_tx.is_closed())
+            .unwrap_or(false);
+
+        if ended {
+            self.disconnect(peer);
         }
 
-        msg
+        ended
     }
 
     pub async fn download_piece(
-- 
2.43.0


From 84a087209893754082982d83d0dff579456ffdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 29/47] fix: the downloader asks for blocks while it is not
 choked, again if they expire, and survives every answer

---
 src/peers/connection/connection_handle.rs | 48 ++++++----------
 src/peers/connection/downloader.rs        | 68 ++++++++++++++---------
 src/peers/connection/pending_pieces.rs    | 18 +++++-
 3 files changed, 74 insertions(+), 60 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 192a889..826cb18 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -11,8 +11,7 @@ use std::collections::{
     HashMap,
 };
 use std::net::SocketAddrV4;
-use std::sync::Arc;
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, watch};
 
 const MESSAGE_CHANNEL_BUFFER: usize = 1 << 5;
 
@@ -34,53 +33,37 @@ struct PeerConnection {
 }
 
 fn choke_lock() -> (ChokeLocker, UnchokeWaiter) {
-    let (tx, rx) = mpsc::channel(1 << 4);
+    let (tx, rx) = watch::channel(true);
 
-    (ChokeLocker { tx }, UnchokeWaiter { rx, choking: true })
-}
-
-enum ChokingStatus {
-    Choke,
-    Unchoke,
+    (ChokeLocker { tx }, UnchokeWaiter { rx })
 }
 
 struct ChokeLocker {
-    tx: mpsc::Sender<ChokingStatus>,
+    tx: watch::Sender<bool>,
 }
 
 impl ChokeLocker {
     fn choke(&self) {
-        self.tx.send(ChokingStatus::Choke);
+        self.tx.send_replace(true);
     }
 
     fn unchoke(&self) {
-        self.tx.send(ChokingStatus::Unchoke);
+        self.tx.send_replace(false);
     }
 }
 
 pub struct UnchokeWaiter {
-    rx: mpsc::Receiver<ChokingStatus>,
-    choking: bool,
+    rx: watch::Receiver<bool>,
 }
 
 impl UnchokeWaiter {
-    pub async fn wait_if_choking(&mut self) {
-        loop {
-            while self.choking {
-                match self.rx.recv().await.unwrap() {
-                    ChokingStatus::Choke => self.choking = true,
-                    ChokingStatus::Unchoke => self.choking = false,
-                }
-            }
+    pub fn is_choking(&self) -> bool {
+        *self.rx.borrow()
+    }
 
-            match self.rx.try_recv() {
-                Ok(m) => match m {
-                    ChokingStatus::Choke => self.choking = true,
-                    ChokingStatus::Unchoke => self.choking = false,
-                },
-                Err(_) => break,
-            }
-        }
+    /// Err means that nobody is left who could change it.
+    pub async fn changed(&mut self) -> Result<()> {
+        Ok(self.rx.changed().await?)
     }
 }
 
@@ -210,12 +193,13 @@ impl Connection {
         match self.peers.get(&peer) {
             None => bail!("peer {:?} is not connected", peer),
             Some(peer_connection) => {
+                // downloader looks for blocks as soon as it gets the command
+                self.pending_pieces.add_piece(piece_idx)?;
+
                 peer_connection
                     .download_new_piece_tx
                     .send(PeerManagerCommand::StartPiece((piece_hash, piece_idx)))
                     .await?;
-
-                self.pending_pieces.add_piece(piece_idx);
             }
         }
 
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 4bdb565..6093a1d 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -12,10 +12,11 @@ use crate::{
 };
 use anyhow::{bail, Result};
 use std::{collections::HashMap, time::Duration};
-use tokio::{select, sync::mpsc, time::sleep};
+use tokio::{select, sync::mpsc, time::interval};
 use tracing::warn;
 
 const ACTIVE_BLOCKS_PER_PEER: usize = 16;
+const EXPIRED_REQUESTS_CHECK_INTERVAL_SECS: u64 = 1;
 
 #[derive(Debug)]
 pub enum PeerManagerCommand {
@@ -85,48 +86,61 @@ async fn manage_piece_downloader(
 ) {
     let mut current_pieces = HashMap::new();
     let mut current_blocks = Vec::with_capacity(ACTIVE_BLOCKS_PER_PEER);
-
-    let mut you_dont_need_to_lock_that_mutex_every_time_counter = 0;
+    let mut interval = interval(Duration::from_secs(EXPIRED_REQUESTS_CHECK_INTERVAL_SECS));
 
     loop {
         select! {
-            _ = shutdown_rx.recv() => { return },
+            _ = shutdown_rx.recv() => break,
             block = downloaded_block_rx.recv() => {
-                foo(peer, block.unwrap(), &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
+                let Some(block) = block else {
+                    break;
+                };
+
+                if let Err(e) = foo(peer, block, &mut pending_pieces, &mut current_blocks, &mut current_pieces, &finished_piece_tx).await {
+                    warn!(?e);
+                }
             },
             command = new_piece_rx.recv() => {
-                match command{
-                    Some(command) => match command{
-                        PeerManagerCommand::StartPiece((piece_hash, piece_idx)) => {current_pieces.insert(piece_idx, piece_hash);},
-                        PeerManagerCommand::StopPiece(piece_idx) => {current_pieces.remove(&piece_idx);},
-                    },
-                    None => todo!(),
+                match command {
+                    Some(PeerManagerCommand::StartPiece((piece_hash, piece_idx))) => { current_pieces.insert(piece_idx, piece_hash); },
+                    Some(PeerManagerCommand::StopPiece(piece_idx)) => { current_pieces.remove(&piece_idx); },
+                    None => break,
                 }
             },
+            res = unchoke_waiter.changed() => {
+                if res.is_err() {
+                    break;
+                }
+            },
+            _ = interval.tick() => {},
         };
 
-        if you_dont_need_to_lock_that_mutex_every_time_counter % (ACTIVE_BLOCKS_PER_PEER / 3) == 0 {
-            pending_pieces.take_not_good_blocks(
-                current_pieces.keys().into_iter().cloned().collect(),
-                &mut current_blocks,
-            );
+        pending_pieces.retain_awaited_blocks(&mut current_blocks);
+
+        if unchoke_waiter.is_choking() {
+            continue;
         }
 
+        pending_pieces.take_not_good_blocks(
+            current_pieces.keys().into_iter().cloned().collect(),
+            &mut current_blocks,
+        );
+
         for queued_block in current_blocks
             .iter_mut()
             .filter(|block| block.status == BlockStatus::Queued)
         {
             if let Err(e) = send_tx.send(Message::Request((*queued_block).into())).await {
                 warn!(?e);
+                break;
             }
 
-            sleep(Duration::from_secs(10)).await;
-
             queued_block.status = BlockStatus::Requested;
         }
-
-        you_dont_need_to_lock_that_mutex_every_time_counter += 1;
     }
+
+    // somebody else may download what this peer has not
+    pending_pieces.cancel_pending(&peer);
 }
 
 async fn foo(
@@ -134,7 +148,7 @@ async fn foo(
     block: Piece,
     pending_pieces: &mut PendingPieces,
     current_blocks: &mut Vec<BlockAddress>,
-    current_pieces: &HashMap<usize, ID>,
+    current_pieces: &mut HashMap<usize, ID>,
     finished_piece_tx: &mpsc::Sender<ConnectionMessage>,
 ) -> Result<()> {
     if block.begin as usize % BLOCK_SIZE > 0 {
@@ -148,29 +162,31 @@ async fn foo(
 
     let block_idx = block.begin as usize / BLOCK_SIZE;
 
-    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) else {
-            bail!("current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) == None");
+    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.piece_idx == piece_idx && block_addr.block_idx == block_idx) else {
+            bail!("block {block_idx} of piece {piece_idx} was not requested");
         };
     let mut removed_block_addr = current_blocks.remove(idx);
 
     match pending_pieces.add_block_data(piece_idx, block_idx, block.block.into_vec().into()) {
-        AddBlockRes::Added => todo!(),
+        AddBlockRes::Added => (),
         AddBlockRes::Failed => {
             removed_block_addr.status = BlockStatus::Queued;
             current_blocks.push(removed_block_addr);
         }
         AddBlockRes::AddedLast(finished_piece) => {
             if Torrent::piece_hash(&finished_piece.data) != *piece_hash {
-                pending_pieces.add_piece(piece_idx);
+                pending_pieces.add_piece(piece_idx)?;
                 bail!("Torrent::piece_hash(&finished_piece.data) != *piece_hash");
             }
 
+            current_pieces.remove(&piece_idx);
+
             finished_piece_tx
                 .send(ConnectionMessage {
                     peer,
                     message: ConMessageType::FinishedPiece(finished_piece),
                 })
-                .await;
+                .await?;
         }
     }
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 474e0e9..46a7e76 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -141,8 +141,6 @@ impl PendingPieces {
         }
     }
 
-    // TODO this should be used, you probably forgot it. remove this # when you find its place.
-    #[allow(dead_code)]
     pub fn cancel_pending(&mut self, from: &Peer) {
         let mut data = self.data.lock().unwrap();
 
@@ -190,6 +188,22 @@ impl PendingPieces {
         }
     }
 
+    /// Forgets blocks which are not awaited from the owner anymore.
+    pub fn retain_awaited_blocks(&self, block_buf: &mut Vec<BlockAddress>) {
+        let Some(owner) = self.copy_owner else {
+            return;
+        };
+
+        let data = self.data.lock().unwrap();
+
+        block_buf.retain(|address| {
+            data.get(&address.piece_idx)
+                .and_then(|piece| piece.data.get(address.block_idx))
+                .map(|block| block.is_expected_from(&owner) && !block.is_expired_pending())
+                .unwrap_or(false)
+        });
+    }
+
     fn filtered_iter_over_blocks<'a>(
         piece_indexes: &'a [usize],
         data: &'a mut HashMap<usize, Piece>,
-- 
2.43.0


From f6510756afa7ab4818c6db5d10d7dbd2adfe5450 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 30/47] hook: the download directory can be set for
 verification builds

---
 src/torrent_manager.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 5081ce0..b5ea307 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -21,6 +21,17 @@ const MAX_ACTIVE_PIECES: usize = 9; // TODO this should come from config
 const MAX_PIECE_PER_PEER: usize = 4;
 const MAX_PEER_PER_PIECE: usize = 3;
 
+#[cfg(not(nargun_verif))]
+fn base_dir() -> String {
+    "/home/gvelesa/rust/narpath".to_owned()
+}
+
+// the conformance harness keeps everything in a scratch directory
+#[cfg(nargun_verif)]
+fn base_dir() -> String {
+    std::env::var("NARGUN_BASE_DIR").unwrap()
+}
+
 pub fn start_client(
     own_peer_id: ID,
     peers: Peers,
@@ -97,7 +108,7 @@ impl TorrentManager {
                     metainfo.info.length() as usize,
                     dht_tx,
                 ),
-                fs: FS::new("/home/gvelesa/rust/narpath", metainfo.info.to_owned()).await,
+                fs: FS::new(&base_dir(), metainfo.info.to_owned()).await,
                 active_peers: HashMap::with_capacity(MAX_ACTIVE_PEERS),
                 inactive_peers: Vec::with_capacity(MAX_ACTIVE_PEERS),
                 peers,
-- 
2.43.0


From 64c9e3cf51246dea8d5f95526f8e475a2641048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 31/47] fix: finished pieces are stored, pieces of lost peers
 are asked of others, and no message stops the manager

---
 src/peers/connection/connection_handle.rs |   5 +
 src/peers/connection/pending_pieces.rs    |   4 +
 src/torrent_manager.rs                    | 130 ++++++++++++++--------
 3 files changed, 90 insertions(+), 49 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 826cb18..75b63fb 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -206,6 +206,11 @@ impl Connection {
         Ok(())
     }
 
+    /// Nobody downloads the piece anymore, what was received of it is dropped.
+    pub fn abandon_piece(&mut self, piece_idx: usize) {
+        self.pending_pieces.remove_piece(piece_idx);
+    }
+
     pub async fn choke(&self, yn: bool, peer: Peer) -> Result<()> {
         let message = if yn { Message::Choke } else { Message::Unchoke };
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 46a7e76..2472d7d 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -94,6 +94,10 @@ impl PendingPieces {
         Ok(())
     }
 
+    pub fn remove_piece(&mut self, idx: usize) {
+        self.data.lock().unwrap().remove(&idx);
+    }
+
     /// All pieces are equally long except for the last one, which is what remains.
     fn length_of_piece(&self, idx: usize) -> usize {
         let start = idx.saturating_mul(self.piece_length);
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index b5ea307..3851c8e 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -1,8 +1,9 @@
 use crate::data_structures::{Bitmap, ID};
-use crate::fs::FS;
+use crate::fs::{Fs, FS};
 use crate::peers::active_peers::{Peers, Status as PeerStatus};
 use crate::peers::connection::connection_handle::Connection;
 use crate::peers::connection::connection_manager::{ConMessageType, ConnectionMessage};
+use crate::peers::connection::pending_pieces::FinishedPiece;
 use crate::peers::peer::Peer;
 use crate::transcoding::metainfo::Torrent;
 use crate::{shutdown, tracker};
@@ -131,7 +132,7 @@ impl TorrentManager {
 
         loop {
             select! {
-                msg = self.connection.recv() => { self.handle_command_tmp(msg) },
+                msg = self.connection.recv() => { self.handle_command_tmp(msg).await },
                 _ = interval.tick() => {
                     self.refresh_peer_list();
                     self.start_downloading_new_pieces().await;
@@ -162,26 +163,17 @@ impl TorrentManager {
     }
 
     async fn start_downloading_new_pieces(&mut self) {
-        for _ in 0..(MAX_ACTIVE_PIECES - self.active_pieces.weight()) {
-            let Some((peer, piece_idx, piece_hash)) = self.select_piece() else {
+        while let Some((peer, piece_idx, piece_hash)) = self.select_piece() {
+            if let Err(e) = self
+                .connection
+                .download_piece(peer, piece_idx, piece_hash)
+                .await
+            {
+                error!(?e);
                 break;
-            };
-
-            self.start_downloading_piece(piece_idx, piece_hash, peer)
-                .await;
-        }
-    }
-
-    async fn start_downloading_piece(&mut self, piece_idx: usize, piece_hash: ID, peer: Peer) {
-        match self
-            .connection
-            .download_piece(peer, piece_idx, piece_hash)
-            .await
-        {
-            Err(e) => error!(?e),
-            Ok(_) => {
-                self.mark_piece_as_ongoing(peer, piece_idx);
             }
+
+            self.mark_piece_as_ongoing(peer, piece_idx);
         }
     }
 
@@ -193,6 +185,31 @@ impl TorrentManager {
 
         self.active_pieces.change(piece_idx, true);
         peer_info.working.change(piece_idx, true);
+        self.assigned_peer_count[piece_idx] += 1;
+    }
+
+    fn mark_piece_as_idle(&mut self, piece_idx: usize) {
+        for peer_info in self.active_peers.values_mut() {
+            peer_info.working.change(piece_idx, false);
+        }
+
+        self.active_pieces.change(piece_idx, false);
+        self.assigned_peer_count[piece_idx] = 0;
+        self.connection.abandon_piece(piece_idx);
+    }
+
+    async fn store_finished_piece(&mut self, piece: FinishedPiece) {
+        let piece_idx = piece.idx;
+
+        self.mark_piece_as_idle(piece_idx);
+
+        match self.fs.write_piece(piece).await {
+            Ok(_) => {
+                self.local_data.change(piece_idx, true);
+            }
+            // the piece will be downloaded again
+            Err(e) => error!(?e),
+        }
     }
 
     fn select_piece(&mut self) -> Option<(Peer, usize, ID)> {
@@ -213,12 +230,17 @@ impl TorrentManager {
     ) -> impl Iterator<Item = (usize, u16, u8)> + Clone + 'a {
         // for future G with question "did I forget to filter active pieces here?", NO!
         // active pieces can be assigned to other peers... that was why you changed pending pieces
+        let can_start_new = self.active_pieces.weight() < MAX_ACTIVE_PIECES;
+
         self.local_data
             .iter()
             .enumerate()
             .zip(self.frequency_map.iter())
             .zip(self.assigned_peer_count.iter())
             .filter(|(((_, downloaded), frequency), _)| !(*downloaded) && **frequency > 0)
+            .filter(move |(((piece_idx, _), _), _)| {
+                can_start_new || self.active_pieces.get(*piece_idx)
+            })
             .map(|(((piece_idx, _), frequency), assigned_peers)| {
                 (piece_idx, *frequency, *assigned_peers)
             })
@@ -227,45 +249,37 @@ impl TorrentManager {
     fn sequential_select_piece(&self) -> Option<(Peer, usize)> {
         let iter = self.iter_over_remaining_downloadable_pieces();
 
-        let mut iter_clone = iter.clone();
-
-        let mut iteration_count = 0;
-        let mut peers_per_piece = 0;
-        let mut pieces_per_peer = 0;
-
-        loop {
-            let x = iter_clone.find(|(piece_idx, _, _)| {
-                self.assigned_peer_count[*piece_idx] as usize == peers_per_piece
-            });
-
-            if let Some((piece_idx, _, _)) = x {
-                if let Some(peer) = self.find_peer_with_piece(piece_idx, pieces_per_peer) {
-                    break Some((peer.to_owned(), piece_idx));
+        for peers_per_piece in 0..MAX_PEER_PER_PIECE {
+            for pieces_per_peer in 0..MAX_PIECE_PER_PEER {
+                let selected = iter
+                    .clone()
+                    .filter(|(_, _, assigned_peers)| *assigned_peers as usize == peers_per_piece)
+                    .find_map(|(piece_idx, _, _)| {
+                        self.find_peer_with_piece(piece_idx, pieces_per_peer)
+                            .map(|peer| (peer.to_owned(), piece_idx))
+                    });
+
+                if selected.is_some() {
+                    return selected;
                 }
             }
-
-            iter_clone = iter.clone();
-            iteration_count += 1;
-            pieces_per_peer = iteration_count % MAX_PIECE_PER_PEER;
-            peers_per_piece = iteration_count / MAX_PIECE_PER_PEER;
-
-            if iteration_count == MAX_PEER_PER_PIECE * MAX_PIECE_PER_PEER {
-                break None;
-            }
         }
+
+        None
     }
 
     fn find_peer_with_piece(&self, piece_idx: usize, pieces_per_peer: usize) -> Option<&Peer> {
         let (peer, _) = self.active_peers.iter().find(|(_, peer_info)| {
             !peer_info.choking
                 && peer_info.haves.get(piece_idx)
+                && !peer_info.working.get(piece_idx)
                 && peer_info.working.weight() == pieces_per_peer
         })?;
 
         Some(peer)
     }
 
-    fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
+    async fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
         let ConnectionMessage { message, peer } = con_msg;
 
         match message {
@@ -295,7 +309,9 @@ impl TorrentManager {
                     .and_modify(|peer_info| peer_info.interested = false);
             }
             ConMessageType::Have(piece_idx) => {
-                if let Occupied(mut peer_info) = self.active_peers.entry(peer) {
+                if piece_idx as usize >= self.local_data.len() {
+                    warn!("{peer:?} has piece {piece_idx} which the torrent doesn't");
+                } else if let Occupied(mut peer_info) = self.active_peers.entry(peer) {
                     let old_have = peer_info.get_mut().haves.change(piece_idx as usize, true);
                     if !old_have {
                         self.frequency_map[piece_idx as usize] += 1;
@@ -305,9 +321,9 @@ impl TorrentManager {
             ConMessageType::Bitfield(bitfield) => {
                 self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
             }
-            ConMessageType::Request(_) => todo!(),
-            ConMessageType::FinishedPiece(_) => todo!(),
-            ConMessageType::Cancel(_) => todo!(),
+            ConMessageType::FinishedPiece(piece) => self.store_finished_piece(piece).await,
+            // every peer is choked, nothing is uploaded
+            ConMessageType::Request(_) | ConMessageType::Cancel(_) => (),
         }
     }
 
@@ -319,7 +335,23 @@ impl TorrentManager {
                 .iter_mut()
                 .zip(peer_info.haves.iter())
                 .filter(|(_, peer_has_piece)| *peer_has_piece)
-                .for_each(|(frequency, _)| *frequency -= 1)
+                .for_each(|(frequency, _)| *frequency -= 1);
+
+            self.release_pieces_of_lost_peer(&peer_info);
+        }
+    }
+
+    fn release_pieces_of_lost_peer(&mut self, peer_info: &PeerInfo) {
+        for (piece_idx, was_working) in peer_info.working.iter().enumerate() {
+            if !was_working {
+                continue;
+            }
+
+            self.assigned_peer_count[piece_idx] -= 1;
+
+            if self.assigned_peer_count[piece_idx] == 0 {
+                self.mark_piece_as_idle(piece_idx);
+            }
         }
     }
 
-- 
2.43.0


From 12fe0409f00f90b5d0127bb02b7f8c05ddce7621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:32 +0000
Subject: [PATCH 32/47] fix: a datagram is decoded without the bytes of earlier
 ones

---
 src/dht/connection/connection_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 4359b83..b6a77fb 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -57,8 +57,8 @@ impl ConnectionManager {
         loop {
             select! {
                 res = self.sock.recv_from(&mut buf) => {
-                    let (_ , from) = res.ok()?;
-                    self.handle_received_message(from, &buf).await;
+                    let (n, from) = res.ok()?;
+                    self.handle_received_message(from, &buf[..n]).await;
                 },
                 send_command = self.send_to_remote.recv() => {
                     self.send(send_command?).await;
-- 
2.43.0


From 97d01f3c1258d08d7ddba9a2070d7ab8fa378daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 33/47] fix: a DHT query is answered only by the node it was
 sent to, and not awaited forever

---
 src/dht/connection/connection_manager.rs | 12 ++--
 src/dht/connection/pending.rs            | 75 +++++++++++++++++++++---
 2 files changed, 74 insertions(+), 13 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index b6a77fb..bc96a38 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -75,8 +75,12 @@ impl ConnectionManager {
                 variant,
             } => {
                 let message = variant.into_message(&self.own_id);
-                self.pending
-                    .insert(message.tid().to_owned(), (&message).into(), resp_returner);
+                self.pending.insert(
+                    message.tid().to_owned(),
+                    (&message).into(),
+                    target,
+                    resp_returner,
+                );
 
                 (message, target)
             }
@@ -126,7 +130,7 @@ impl ConnectionManager {
                 response,
                 ..
             } => self.handle_resp(transaction_id, response, from).await,
-            Message::Error { .. } => (),
+            Message::Error { transaction_id, .. } => self.pending.fail(&transaction_id, &from),
         }
     }
 
@@ -215,7 +219,7 @@ impl ConnectionManager {
         from: SocketAddrV4,
     ) {
         let Some(querying_task_channel) =
-            self.pending.get(&transaction_id, response.borrow().into())
+            self.pending.get(&transaction_id, &from, response.borrow().into())
         else {
             warn!("resp not pending");
             return;
diff --git a/src/dht/connection/pending.rs b/src/dht/connection/pending.rs
index 2053f7f..5f1af3f 100644
--- a/src/dht/connection/pending.rs
+++ b/src/dht/connection/pending.rs
@@ -3,11 +3,21 @@ use crate::{
     data_structures::SerializableBuf,
     dht::krpc_message::{Arguments, Message, Response},
 };
-use std::collections::HashMap;
-use tokio::sync::mpsc;
+use std::{collections::HashMap, net::SocketAddrV4, time::Duration};
+use tokio::{sync::mpsc, time::Instant};
+
+const RESPONSE_TIMEOUT: Duration = Duration::from_secs(60);
 
 #[derive(Clone, Debug)]
-pub struct PendingRequests(HashMap<SerializableBuf, (RequestType, Requester)>);
+pub struct PendingRequests(HashMap<SerializableBuf, PendingRequest>);
+
+#[derive(Clone, Debug)]
+struct PendingRequest {
+    req_type: RequestType,
+    target: SocketAddrV4,
+    sent_at: Instant,
+    requester: Requester,
+}
 
 type Requester = mpsc::Sender<FromConResp>;
 
@@ -24,18 +34,65 @@ impl PendingRequests {
         Self(HashMap::new())
     }
 
-    pub fn get(&mut self, tid: &SerializableBuf, response_type: RequestType) -> Option<Requester> {
-        let (requested_type, _) = self.0.get(tid)?;
+    pub fn get(
+        &mut self,
+        tid: &SerializableBuf,
+        from: &SocketAddrV4,
+        response_type: RequestType,
+    ) -> Option<Requester> {
+        let request = self.0.get(tid)?;
 
-        if *requested_type == response_type {
-            self.0.remove(tid).map(|(_, requester)| requester)
+        if request.is_awaited_from(from) && request.accepts(response_type) {
+            self.0.remove(tid).map(|request| request.requester)
         } else {
             None
         }
     }
 
-    pub fn insert(&mut self, tid: SerializableBuf, req_type: RequestType, requester: Requester) {
-        self.0.insert(tid, (req_type, requester));
+    pub fn fail(&mut self, tid: &SerializableBuf, from: &SocketAddrV4) {
+        if matches!(self.0.get(tid), Some(request) if request.target == *from) {
+            self.0.remove(tid);
+        }
+    }
+
+    pub fn insert(
+        &mut self,
+        tid: SerializableBuf,
+        req_type: RequestType,
+        target: SocketAddrV4,
+        requester: Requester,
+    ) {
+        self.0.retain(|_, request| !request.is_expired());
+
+        self.0.insert(
+            tid,
+            PendingRequest {
+                req_type,
+                target,
+                sent_at: Instant::now(),
+                requester,
+            },
+        );
+    }
+}
+
+impl PendingRequest {
+    fn is_awaited_from(&self, from: &SocketAddrV4) -> bool {
+        self.target == *from && !self.is_expired()
+    }
+
+    fn is_expired(&self) -> bool {
+        self.sent_at.elapsed() >= RESPONSE_TIMEOUT
+    }
+
+    fn accepts(&self, response_type: RequestType) -> bool {
+        // responses to announce_peer look just like those to ping
+        let expected = match self.req_type {
+            RequestType::AnnouncePeer => &RequestType::Ping,
+            ref req_type => req_type,
+        };
+
+        *expected == response_type
     }
 }
 
-- 
2.43.0


From 62af75688359d86a312c25a0f36c515be41df915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 34/47] fix: DHT queries are answered while no nodes are known

---
 src/dht/dht_manager.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dht/dht_manager.rs b/src/dht/dht_manager.rs
index 5347858..17106d0 100644
--- a/src/dht/dht_manager.rs
+++ b/src/dht/dht_manager.rs
@@ -137,11 +137,9 @@ async fn process_find_node_query(
     routing_table: &mut RoutingTable,
     query_id: QueryId,
 ) -> Result<(), ConError> {
-    if let Some(nodes) = routing_table.find_node(&target) {
-        connection.resp_to_find_node(nodes, query_id).await?;
-    };
-
-    Ok(())
+    connection
+        .resp_to_find_node(known_nodes(routing_table, &target), query_id)
+        .await
 }
 
 async fn process_get_peers_query(
@@ -154,13 +152,9 @@ async fn process_get_peers_query(
 ) -> Result<(), ConError> {
     let values_or_nodes = match find_peers(info_hash, torrent_peers, dht_peer_map) {
         Some(peers) => ValuesOrNodes::Values { values: peers },
-        None => {
-            let Some(nodes) = routing_table.find_node(&info_hash) else {
-                return Ok(()); // TODO this is not Ok but it's not crash worthy. maybe I should use non-option rv? it won't ever be empty anyway.
-            };
-
-            ValuesOrNodes::Nodes { nodes }
-        }
+        None => ValuesOrNodes::Nodes {
+            nodes: known_nodes(routing_table, &info_hash),
+        },
     };
 
     connection
@@ -168,6 +162,12 @@ async fn process_get_peers_query(
         .await
 }
 
+fn known_nodes(routing_table: &RoutingTable, id: &ID) -> Nodes {
+    routing_table
+        .find_node(id)
+        .unwrap_or_else(|| Nodes::Closest(Vec::new()))
+}
+
 fn find_peers(info_hash: ID, torrent_peers: &Peers, dht_peer_map: &PeerMap) -> Option<Vec<Peer>> {
     if torrent_peers.serve(&info_hash) {
         torrent_peers.get_good_peers(DHT_MTU / COMPACT_PEER_LEN)
-- 
2.43.0


From 9f533ba628b1fc13f08d39d847621082aeae9100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 35/47] fix: a list of peers fits into a DHT datagram

---
 src/dht/dht_manager.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dht/dht_manager.rs b/src/dht/dht_manager.rs
index 17106d0..823059d 100644
--- a/src/dht/dht_manager.rs
+++ b/src/dht/dht_manager.rs
@@ -22,6 +22,9 @@ use tracing::{instrument, warn};
 
 type PeerMap = HashMap<ID, HashSet<Peer>>;
 
+// every peer is a bencoded string of its own, ids, token and the like need some room as well
+const MAX_PEERS_IN_RESPONSE: usize = (DHT_MTU - 128) / ("6:".len() + COMPACT_PEER_LEN);
+
 const MAX_SECS_INTERVAL_BETWEEN_NODE_REFRESH: f64 = 200.0;
 const INITIAL_SECS_INTERVAL: f64 = 3.0;
 const INTERVAL_GROWTH: fn(f64) -> f64 = |x: f64| INITIAL_SECS_INTERVAL + 0.04 * x.powf(3.0);
@@ -170,13 +173,13 @@ fn known_nodes(routing_table: &RoutingTable, id: &ID) -> Nodes {
 
 fn find_peers(info_hash: ID, torrent_peers: &Peers, dht_peer_map: &PeerMap) -> Option<Vec<Peer>> {
     if torrent_peers.serve(&info_hash) {
-        torrent_peers.get_good_peers(DHT_MTU / COMPACT_PEER_LEN)
+        torrent_peers.get_good_peers(MAX_PEERS_IN_RESPONSE)
     } else {
         let mut rng = thread_rng();
         dht_peer_map.get(&info_hash).map(|peers| {
             peers
                 .iter()
-                .choose_multiple(&mut rng, DHT_MTU / COMPACT_PEER_LEN)
+                .choose_multiple(&mut rng, MAX_PEERS_IN_RESPONSE)
                 .into_iter()
                 .cloned()
                 .collect()
-- 
2.43.0


From e033cd4aefc17749ac7fd4ae72e3d583335276d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 36/47] fix: deeply nested DHT messages are refused instead of
 overflowing the stack

---
 src/dht/krpc_message.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/dht/krpc_message.rs b/src/dht/krpc_message.rs
index c5c30b6..934cd76 100644
--- a/src/dht/krpc_message.rs
+++ b/src/dht/krpc_message.rs
@@ -4,11 +4,13 @@ use crate::{
     dht::routing_table::COMPACT_NODE_LEN,
     peers::peer::Peer,
 };
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
+use bendy::{decoding::Decoder, state_tracker::Token};
 use serde::{de::Unexpected, Deserialize, Deserializer, Serialize, Serializer};
 use std::str;
 
 const MY_TID_LEN: usize = 5;
+const MAX_NESTING: usize = 64;
 
 // TODO fuck bendy! it's the worst decision I've made. I need to impl my own parser for serde.
 #[derive(Debug, Deserialize, Serialize)]
@@ -110,6 +112,27 @@ pub fn rand_tid() -> SerializableBuf {
     SerializableBuf::from(rand::random::<[u8; MY_TID_LEN]>().as_ref())
 }
 
+// parsing is recursive, messages with too many levels would overflow the stack
+fn check_nesting(buf: &[u8]) -> Result<()> {
+    let mut level = 0usize;
+
+    for token in Decoder::new(buf).tokens() {
+        match token.map_err(|e| anyhow!("{}", e))? {
+            Token::List | Token::Dict => level += 1,
+            Token::End => level = level.saturating_sub(1),
+            Token::String(_) | Token::Num(_) => (),
+        }
+
+        ensure!(level <= MAX_NESTING, "message is nested too deeply");
+
+        if level == 0 {
+            break;
+        }
+    }
+
+    Ok(())
+}
+
 // TODO I'm not a fan of these boilerplate methods. I'm not sure if it's bad, but you can think about it.
 impl Message {
     pub fn into_bytes(self) -> Result<Vec<u8>> {
@@ -117,6 +140,7 @@ impl Message {
     }
 
     pub fn from_bytes(buf: &[u8]) -> Result<Self> {
+        check_nesting(buf)?;
         bendy::serde::from_bytes::<Self>(buf).map_err(|e| anyhow!("{}", e))
     }
 
-- 
2.43.0


From e8b1c0b262b4a1a9c2d9c209ea4ae434f2ae00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 37/47] fix: announce parameters extend the query of a tracker
 url

---
 src/tracker/announce.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index 74e4e62..b3ad339 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -25,7 +25,10 @@ impl Announce {
     pub fn as_url(&self) -> String {
         let mut s = self.tracker_url.clone();
 
-        s.push_str("?info_hash=");
+        // the url may have a query of its own
+        s.push(if s.contains('?') { '&' } else { '?' });
+
+        s.push_str("info_hash=");
         s.push_str(urlencoding::encode_binary(self.info_hash.as_byte_ref()).as_ref());
 
         s.push_str("&peer_id=");
-- 
2.43.0


From 2d0490a2d0061f5a84448ff822e4169235f4444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 38/47] fix: the latest tracker id is sent back,
 percent-encoded, whatever bytes it has

---
 src/tracker/announce.rs        | 4 ++--
 src/tracker/response.rs        | 4 ++--
 src/tracker/tracker_manager.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index b3ad339..15ce23e 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -18,7 +18,7 @@ pub struct Announce {
     pub compact: bool,
     pub no_peer_id: bool,
     pub event: Option<AnnounceEvent>,
-    pub tracker_id: Option<String>,
+    pub tracker_id: Option<Vec<u8>>,
 }
 
 impl Announce {
@@ -65,7 +65,7 @@ impl Announce {
 
         if let Some(tracker_id) = &self.tracker_id {
             s.push_str("&trackerid=");
-            s.push_str(tracker_id);
+            s.push_str(urlencoding::encode_binary(tracker_id).as_ref());
         }
 
         s
diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index 81105c8..5f7ded2 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -11,7 +11,7 @@ pub struct Response {
     pub warning_message: Option<String>,
     pub interval: u64,
     pub min_interval: Option<u64>,
-    pub tracker_id: Option<String>,
+    pub tracker_id: Option<Vec<u8>>,
     pub complete: u64,
     pub incomplete: u64,
     pub peers: Vec<Peer>,
@@ -42,7 +42,7 @@ impl FromBencode for Response {
                     min_interval = Some(u64::decode_bencode_object(value)?);
                 }
                 (b"tracker id", value) => {
-                    tracker_id = Some(String::decode_bencode_object(value)?);
+                    tracker_id = Some(AsString::decode_bencode_object(value)?.0);
                 }
                 (b"complete", value) => {
                     complete = Some(u64::decode_bencode_object(value)?);
diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 6ad9e8c..5dd04df 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -84,7 +84,7 @@ async fn manage_http_tracker(
     while let Some(response) = contact_tracker(&announce, &mut shutdown_rx).await {
         peers.extend(&response.peers);
 
-        if announce.tracker_id.is_none() && response.tracker_id.is_some() {
+        if response.tracker_id.is_some() {
             announce.tracker_id = response.tracker_id.clone();
         };
 
-- 
2.43.0


From 5bbeef3502c86aaf09f896fbd8880f4783717a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 39/47] fix: tracker responses need not count seeders and
 leechers

---
 src/tracker/response.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index 5f7ded2..547bcdf 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -79,8 +79,8 @@ impl FromBencode for Response {
             interval: ok_or_missing_field!(interval)?,
             min_interval,
             tracker_id,
-            complete: ok_or_missing_field!(complete)?,
-            incomplete: ok_or_missing_field!(incomplete)?,
+            complete: complete.unwrap_or(0),
+            incomplete: incomplete.unwrap_or(0),
             peers: ok_or_missing_field!(peers)?,
         })
     }
-- 
2.43.0


From b633bbecea51cbb0051ee1b54bfa82fa4b1fc95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 40/47] fix: a tracker is told about the end even if a later
 announce is still being retried

---
 src/tracker/tracker_manager.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 5dd04df..526377d 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -81,7 +81,11 @@ async fn manage_http_tracker(
         tracker_id: None,
     };
 
+    let mut started = false;
+
     while let Some(response) = contact_tracker(&announce, &mut shutdown_rx).await {
+        started = true;
+
         peers.extend(&response.peers);
 
         if response.tracker_id.is_some() {
@@ -89,14 +93,7 @@ async fn manage_http_tracker(
         };
 
         tokio::select! {
-            _ = shutdown_rx.recv() => {
-                announce.event = Some(AnnounceEvent::Stopped);
-                announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
-                // announce.uploaded = TODO
-                // announce.downloaded = TODO
-                let _ = send_request(&announce.as_url()).await;
-                break;
-            },
+            _ = shutdown_rx.recv() => break,
             _ = sleep(Duration::from_secs(response.interval)) => {
                 announce.event = None;
             }
@@ -118,6 +115,15 @@ async fn manage_http_tracker(
         // announce.downloaded = TODO
     }
 
+    // also if the tracker failed to answer since
+    if started {
+        announce.event = Some(AnnounceEvent::Stopped);
+        announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+        // announce.uploaded = TODO
+        // announce.downloaded = TODO
+        let _ = send_request(&announce.as_url()).await;
+    }
+
     trace!("exit");
 }
 
-- 
2.43.0


From 4a376e0a7c5fe8f4b3a224262dd0c1b8d7dda2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 41/47] fix: trackers are told the length of the torrent, not
 of its whole pieces

---
 src/tracker/tracker_manager.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 526377d..a1e7541 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -28,7 +28,7 @@ pub fn spawn_tracker_managers(
         let tracker_url = http_tracker.clone();
         let info_hash = torrent.info_hash;
         let peer_id = *peer_id;
-        let piece_count = torrent.count_pieces() as u64;
+        let length = torrent.info.length();
         let piece_length = torrent.info.piece_length;
         let pieces_downloaded = pieces_downloaded.clone();
         let peers = peers.clone();
@@ -40,7 +40,7 @@ pub fn spawn_tracker_managers(
                 tracker_url,
                 info_hash,
                 peer_id,
-                piece_count,
+                length,
                 piece_length,
                 pieces_downloaded,
                 peers,
@@ -58,7 +58,7 @@ async fn manage_http_tracker(
     tracker_url: String,
     info_hash: ID,
     peer_id: ID,
-    piece_count: u64,
+    length: u64,
     piece_length: u64,
     pieces_downloaded: Arc<AtomicU64>,
     mut peers: Peers,
@@ -74,7 +74,7 @@ async fn manage_http_tracker(
         port: tcp_port,
         uploaded: 0,
         downloaded: 0,
-        left: (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length,
+        left: bytes_left(length, piece_length, &pieces_downloaded),
         compact: true,
         no_peer_id: true,
         event: Some(AnnounceEvent::Started),
@@ -110,7 +110,7 @@ async fn manage_http_tracker(
             }
         }
 
-        announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+        announce.left = bytes_left(length, piece_length, &pieces_downloaded);
         // announce.uploaded = TODO
         // announce.downloaded = TODO
     }
@@ -118,7 +118,7 @@ async fn manage_http_tracker(
     // also if the tracker failed to answer since
     if started {
         announce.event = Some(AnnounceEvent::Stopped);
-        announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+        announce.left = bytes_left(length, piece_length, &pieces_downloaded);
         // announce.uploaded = TODO
         // announce.downloaded = TODO
         let _ = send_request(&announce.as_url()).await;
@@ -127,6 +127,13 @@ async fn manage_http_tracker(
     trace!("exit");
 }
 
+// exact for all or none, the last piece may be shorter than the others
+fn bytes_left(length: u64, piece_length: u64, pieces_downloaded: &AtomicU64) -> u64 {
+    let downloaded = pieces_downloaded.load(Ordering::Relaxed);
+
+    length.saturating_sub(downloaded.saturating_mul(piece_length))
+}
+
 async fn contact_tracker(
     announce: &Announce,
     shutdown_rx: &mut shutdown::Receiver,
-- 
2.43.0


From c9d0f9b71a42e5700ccf1c115009f5f326649bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 42/47] fix: peers listed as dictionaries in a tracker response
 are used

---
 src/tracker/response.rs | 48 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index 547bcdf..82020e8 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -4,6 +4,7 @@ use crate::transcoding::{socketaddr_from_compact_bytes, COMPACT_SOCKADDR_LEN};
 use anyhow::Result;
 use bendy::decoding::{FromBencode, Object};
 use bendy::encoding::AsString;
+use std::net::{Ipv4Addr, SocketAddrV4};
 use tracing::warn;
 
 #[derive(Debug, Clone)]
@@ -51,10 +52,16 @@ impl FromBencode for Response {
                     incomplete = Some(u64::decode_bencode_object(value)?);
                 }
                 (b"peers", value) => {
-                    if let Some(peer_bytes) =
-                        AsString::decode_bencode_object(value).map(|bytes| Some(bytes.0))?
-                    {
-                        let x = peer_bytes
+                    peers = Some(match value {
+                        Object::List(mut list) => {
+                            let mut listed = Vec::new();
+                            while let Some(peer) = list.next_object()? {
+                                listed.extend(decode_peer_dictionary(peer)?);
+                            }
+                            listed
+                        }
+                        compact => AsString::decode_bencode_object(compact)?
+                            .0
                             .chunks_exact(COMPACT_SOCKADDR_LEN)
                             .filter_map(|compact_peer| {
                                 match socketaddr_from_compact_bytes(compact_peer) {
@@ -65,10 +72,8 @@ impl FromBencode for Response {
                                     }
                                 }
                             })
-                            .collect();
-
-                        peers = Some(x);
-                    }
+                            .collect(),
+                    });
                 }
                 _ => (),
             }
@@ -86,6 +91,33 @@ impl FromBencode for Response {
     }
 }
 
+// trackers may list peers as dictionaries despite compact=1; only IPv4 addresses can be used
+fn decode_peer_dictionary(object: Object) -> Result<Option<Peer>, bendy::decoding::Error> {
+    let mut ip = None;
+    let mut port = None;
+
+    let mut peer = object.try_into_dictionary()?;
+    while let Some(kv) = peer.next_pair()? {
+        match kv {
+            (b"ip", value) => {
+                ip = Some(String::decode_bencode_object(value)?);
+            }
+            (b"port", value) => {
+                port = Some(u16::decode_bencode_object(value)?);
+            }
+            _ => (),
+        }
+    }
+
+    let ip = ok_or_missing_field!(ip)?;
+    let port = ok_or_missing_field!(port)?;
+
+    Ok(ip
+        .parse::<Ipv4Addr>()
+        .ok()
+        .map(|ip| Peer::new(SocketAddrV4::new(ip, port))))
+}
+
 #[cfg(test)]
 mod tests {
     use super::Response;
-- 
2.43.0


From f0383a02798a99aa962fc36a7ee6f44357533294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 43/47] fix: a tracker response with a failure reason is a
 failure

---
 src/tracker/response.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index 82020e8..3f21f6c 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -33,6 +33,11 @@ impl FromBencode for Response {
         let mut info = object.try_into_dictionary()?;
         while let Some(kv) = info.next_pair()? {
             match kv {
+                (b"failure reason", value) => {
+                    let reason = AsString::decode_bencode_object(value)?.0;
+                    warn!(reason = %String::from_utf8_lossy(&reason), "tracker refused");
+                    return Err(bendy::decoding::Error::unexpected_field("failure reason"));
+                }
                 (b"warning message", value) => {
                     warning_message = Some(String::decode_bencode_object(value)?);
                 }
-- 
2.43.0


From 8ec4a73d0d88289812f79ad18161af7a8dad62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:32 +0000
Subject: [PATCH 44/47] fix: a search asks no node twice

Nodes forgotten for being far were asked again as soon as another node
listed them, over and over in a large enough network.
---
 src/dht/peer_fetcher.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/dht/peer_fetcher.rs b/src/dht/peer_fetcher.rs
index 9b11eeb..b0dd511 100644
--- a/src/dht/peer_fetcher.rs
+++ b/src/dht/peer_fetcher.rs
@@ -11,7 +11,7 @@ use crate::{
 use anyhow::bail;
 use std::{
     cmp::Ordering,
-    collections::{hash_map::Entry::Vacant, HashMap},
+    collections::{HashMap, HashSet},
     net::SocketAddrV4,
     time::Duration,
 };
@@ -79,6 +79,9 @@ async fn fetch_peers(
     connection: &mut QueryingConnection,
     peers: &mut Peers,
 ) -> Result<(), ConError> {
+    // nodes that get forgotten for being far must not be asked again
+    let mut asked: HashSet<SocketAddrV4> = active_nodes.keys().copied().collect();
+
     for addr in active_nodes.keys() {
         connection.send_get_peers(*info_hash, *addr).await?;
     }
@@ -113,7 +116,14 @@ async fn fetch_peers(
                     token,
                 };
 
-                get_peers_from_new_nodes(*info_hash, nodes, active_nodes, connection).await?;
+                get_peers_from_new_nodes(
+                    *info_hash,
+                    nodes,
+                    active_nodes,
+                    &mut asked,
+                    connection,
+                )
+                .await?;
             }
         }
 
@@ -184,12 +194,13 @@ async fn get_peers_from_new_nodes(
     info_hash: ID,
     new_nodes: Nodes,
     active_nodes: &mut NodeMap,
+    asked: &mut HashSet<SocketAddrV4>,
     connection: &mut QueryingConnection,
 ) -> Result<(), ConError> {
     for Node { addr, id, .. } in new_nodes.iter() {
-        if let Vacant(vacant_entry) = active_nodes.entry(*addr) {
+        if asked.insert(*addr) {
             connection.send_get_peers(info_hash, *addr).await?;
-            vacant_entry.insert(NodeCloseToInfoHash::Unknown(*id));
+            active_nodes.insert(*addr, NodeCloseToInfoHash::Unknown(*id));
         }
     }
 
-- 
2.43.0


From 8a30232e40a7c4ff29a81a891f9a743c3492218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 45/47] fix: late answers to a search don't make the DHT deaf

The search reads answers only while it collects them. In between, the
answers nobody read filled the channel and blocked the task that handles
every datagram, until the next search began.

There is at most one response to a query, so the number of those waiting
is bounded by the number of queries.
---
 src/dht/connection/channel_message/to_connection.rs |  2 +-
 src/dht/connection/connection_handle.rs             | 12 ++++++++----
 src/dht/connection/connection_manager.rs            |  8 ++------
 src/dht/connection/pending.rs                       |  2 +-
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dht/connection/channel_message/to_connection.rs b/src/dht/connection/channel_message/to_connection.rs
index f8b16e8..0cc8889 100644
--- a/src/dht/connection/channel_message/to_connection.rs
+++ b/src/dht/connection/channel_message/to_connection.rs
@@ -8,7 +8,7 @@ use tokio::sync::mpsc;
 #[derive(Debug)]
 pub enum ToCon {
     Query {
-        resp_returner: mpsc::Sender<FromConResp>,
+        resp_returner: mpsc::UnboundedSender<FromConResp>,
         target: SocketAddrV4,
         variant: ToConQuery,
     },
diff --git a/src/dht/connection/connection_handle.rs b/src/dht/connection/connection_handle.rs
index 169fb0e..31c69d4 100644
--- a/src/dht/connection/connection_handle.rs
+++ b/src/dht/connection/connection_handle.rs
@@ -18,8 +18,10 @@ pub struct Connection {
 #[derive(Debug)]
 pub struct QueryingConnection {
     send_message: mpsc::Sender<ToCon>,
-    response_receiver_channel_rx: mpsc::Receiver<FromConResp>,
-    response_receiver_channel_tx: mpsc::Sender<FromConResp>,
+    // unbounded, so that nobody has to wait for a requester that is busy with something else.
+    // there is at most one response for every query
+    response_receiver_channel_rx: mpsc::UnboundedReceiver<FromConResp>,
+    response_receiver_channel_tx: mpsc::UnboundedSender<FromConResp>,
 }
 
 impl QueryingConnection {
@@ -83,7 +85,8 @@ impl QueryingConnection {
 
 impl Clone for QueryingConnection {
     fn clone(&self) -> Self {
-        let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 6);
+        let (response_receiver_channel_tx, response_receiver_channel_rx) =
+            mpsc::unbounded_channel();
         Self {
             send_message: self.send_message.clone(),
             response_receiver_channel_rx,
@@ -95,7 +98,8 @@ impl Clone for QueryingConnection {
 impl Connection {
     pub fn new(own_id: ID) -> Self {
         let (send_to_remote_command_tx, send_to_remote_command_rx) = mpsc::channel(1 << 10);
-        let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 10);
+        let (response_receiver_channel_tx, response_receiver_channel_rx) =
+            mpsc::unbounded_channel();
         let (query_listener_tx, query_listener_rx) = mpsc::channel(1 << 8);
 
         let querying_connection = QueryingConnection {
diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index bc96a38..7e0c0a6 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -129,7 +129,7 @@ impl ConnectionManager {
                 transaction_id,
                 response,
                 ..
-            } => self.handle_resp(transaction_id, response, from).await,
+            } => self.handle_resp(transaction_id, response, from),
             Message::Error { transaction_id, .. } => self.pending.fail(&transaction_id, &from),
         }
     }
@@ -212,7 +212,7 @@ impl ConnectionManager {
         token == self.secret.hash_with_secret(&source_addr.ip().octets())
     }
 
-    async fn handle_resp(
+    fn handle_resp(
         &mut self,
         transaction_id: SerializableBuf,
         response: Response,
@@ -229,13 +229,11 @@ impl ConnectionManager {
             Response::Ping { id } => {
                 querying_task_channel
                     .send(FromConResp::Touch { id, from })
-                    .await
                     .unwrap();
             }
             Response::FindNode { nodes, id } => {
                 querying_task_channel
                     .send(FromConResp::NewNodes { nodes, from, id })
-                    .await
                     .unwrap();
             }
             Response::GetPeers {
@@ -249,13 +247,11 @@ impl ConnectionManager {
                         token,
                         v_or_n: values_or_nodes,
                     })
-                    .await
                     .unwrap();
             }
             Response::AnnouncePeer { id } => {
                 querying_task_channel
                     .send(FromConResp::Touch { id, from })
-                    .await
                     .unwrap();
             }
         }
diff --git a/src/dht/connection/pending.rs b/src/dht/connection/pending.rs
index 5f1af3f..052edae 100644
--- a/src/dht/connection/pending.rs
+++ b/src/dht/connection/pending.rs
@@ -19,7 +19,7 @@ struct PendingRequest {
     requester: Requester,
 }
 
-type Requester = mpsc::Sender<FromConResp>;
+type Requester = mpsc::UnboundedSender<FromConResp>;
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum RequestType {
-- 
2.43.0


From 5c491fb69f8d15ed6b006c7b9858836d1b999c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 46/47] fix: a flood of queries cannot stop the DHT for good

The task that receives datagrams waited for room among the queries it had
handed over, while those who handle them waited for room among what it
should send.
---
 src/dht/connection/connection_handle.rs  | 10 +++++-----
 src/dht/connection/connection_manager.rs |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dht/connection/connection_handle.rs b/src/dht/connection/connection_handle.rs
index 31c69d4..501e49c 100644
--- a/src/dht/connection/connection_handle.rs
+++ b/src/dht/connection/connection_handle.rs
@@ -11,13 +11,15 @@ pub const DHT_MTU: usize = 1300;
 #[derive(Debug)]
 pub struct Connection {
     querying_connection: QueryingConnection,
-    send_message: mpsc::Sender<ToCon>,
+    send_message: mpsc::UnboundedSender<ToCon>,
     query_listener: mpsc::Receiver<FromConQuery>,
 }
 
 #[derive(Debug)]
 pub struct QueryingConnection {
-    send_message: mpsc::Sender<ToCon>,
+    // unbounded, so that those who handle what was received never wait for the one who receives,
+    // while that one waits for them
+    send_message: mpsc::UnboundedSender<ToCon>,
     // unbounded, so that nobody has to wait for a requester that is busy with something else.
     // there is at most one response for every query
     response_receiver_channel_rx: mpsc::UnboundedReceiver<FromConResp>,
@@ -76,7 +78,6 @@ impl QueryingConnection {
 
         self.send_message
             .send(msg)
-            .await
             .map_err(|e| Error::ConDropped {
                 source: Some(Box::new(e)),
             })
@@ -97,7 +98,7 @@ impl Clone for QueryingConnection {
 
 impl Connection {
     pub fn new(own_id: ID) -> Self {
-        let (send_to_remote_command_tx, send_to_remote_command_rx) = mpsc::channel(1 << 10);
+        let (send_to_remote_command_tx, send_to_remote_command_rx) = mpsc::unbounded_channel();
         let (response_receiver_channel_tx, response_receiver_channel_rx) =
             mpsc::unbounded_channel();
         let (query_listener_tx, query_listener_rx) = mpsc::channel(1 << 8);
@@ -170,7 +171,6 @@ impl Connection {
 
         self.send_message
             .send(msg)
-            .await
             .map_err(|e| Error::ConDropped {
                 source: Some(Box::new(e)),
             })
diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 7e0c0a6..ccdbf81 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -14,7 +14,7 @@ pub const MTU: usize = 1300;
 pub struct ConnectionManager {
     own_id: ID,
     sock: UdpSocket,
-    send_to_remote: mpsc::Receiver<ToCon>,
+    send_to_remote: mpsc::UnboundedReceiver<ToCon>,
     query_listener: mpsc::Sender<FromConQuery>,
     pending: PendingRequests,
     secret: ID,
@@ -29,7 +29,7 @@ pub struct QueryId {
 impl ConnectionManager {
     pub fn start(
         own_id: ID,
-        send_to_remote: mpsc::Receiver<ToCon>,
+        send_to_remote: mpsc::UnboundedReceiver<ToCon>,
         query_listener: mpsc::Sender<FromConQuery>,
     ) {
         tokio::spawn(async move {
-- 
2.43.0


From a204126e65818a8b828098707a68288013c9b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 47/47] fix: a peer that doesn't read what it is asked can't
 stop the manager

Its downloader waits until the peer reads. The manager waited for it as
soon as 32 pieces were queued there, and then never returned to anyone
else.
---
 src/peers/connection/connection_handle.rs | 8 ++++----
 src/peers/connection/downloader.rs        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 75b63fb..66457a9 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -29,7 +29,8 @@ struct PeerConnection {
     send_tx: mpsc::Sender<Message>,
     shutdown_tx: shutdown::Sender,
     choker: ChokeLocker,
-    download_new_piece_tx: mpsc::Sender<PeerManagerCommand>,
+    // a peer which doesn't read what it is asked must not stop the others
+    download_new_piece_tx: mpsc::UnboundedSender<PeerManagerCommand>,
 }
 
 fn choke_lock() -> (ChokeLocker, UnchokeWaiter) {
@@ -92,7 +93,7 @@ impl Connection {
         let (send_tx, send_rx) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
         let (shutdown_tx, shutdown_rx) = shutdown::channel();
         let (downloaded_block_tx, downloaded_block_rx) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
-        let (download_new_piece_tx, download_new_piece_rx) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
+        let (download_new_piece_tx, download_new_piece_rx) = mpsc::unbounded_channel();
         let (choker, unchoke_waiter) = choke_lock();
 
         match self.peers.entry(peer) {
@@ -198,8 +199,7 @@ impl Connection {
 
                 peer_connection
                     .download_new_piece_tx
-                    .send(PeerManagerCommand::StartPiece((piece_hash, piece_idx)))
-                    .await?;
+                    .send(PeerManagerCommand::StartPiece((piece_hash, piece_idx)))?;
             }
         }
 
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 6093a1d..c6d6311 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -54,7 +54,7 @@ pub fn spawn_piece_downloader(
     send_tx: mpsc::Sender<Message>,
     finished_piece_tx: mpsc::Sender<ConnectionMessage>,
     downloaded_block_rx: mpsc::Receiver<Piece>,
-    new_piece_rx: mpsc::Receiver<PeerManagerCommand>,
+    new_piece_rx: mpsc::UnboundedReceiver<PeerManagerCommand>,
     pending_pieces: PendingPieces,
     unchoke_waiter: UnchokeWaiter,
     shutdown_rx: shutdown::Receiver,
@@ -79,7 +79,7 @@ async fn manage_piece_downloader(
     send_tx: mpsc::Sender<Message>,
     finished_piece_tx: mpsc::Sender<ConnectionMessage>,
     mut downloaded_block_rx: mpsc::Receiver<Piece>,
-    mut new_piece_rx: mpsc::Receiver<PeerManagerCommand>,
+    mut new_piece_rx: mpsc::UnboundedReceiver<PeerManagerCommand>,
     mut pending_pieces: PendingPieces,
     mut unchoke_waiter: UnchokeWaiter,
     mut shutdown_rx: shutdown::Receiver,
-- 
2.43.0

