From 1038d7c72ab600cccfad7533cf1f1f73b5f92214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 01/22] fix: load index offset chunks from buffers of any
 alignment

Offset chunks are reinterpreted in place from the bytes of an index, whose layers
start at arbitrary byte offsets, but required 8-byte alignment.
---
 src/slice_vector/offsets.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index dd82d31..20b2727 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -145,8 +145,9 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     }
 }
 
-#[repr(C)]
-#[derive(Clone)]
+// packed, since chunks are loaded in place from buffers without any alignment guarantees
+#[repr(C, packed)]
+#[derive(Clone, Copy)]
 pub struct Chunk {
     initial: usize,
     deltas: [DeltaType; OFFSETS_PER_CHUNK],
@@ -163,7 +164,8 @@ impl Chunk {
     }
 
     fn len(self: &Self) -> usize {
-        self.deltas.iter().take_while(|&&x| x != UNUSED).count()
+        let deltas = self.deltas;
+        deltas.iter().take_while(|&&x| x != UNUSED).count()
     }
 
     fn is_empty(self: &Self) -> bool {
-- 
2.43.0


From 851a27636cc149d0d251d24089564ad520c98f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/22] fix: load dense vectors from buffers of any alignment

FixedWidthSliceVector::from_bytes reinterpreted the buffer in place, which is
undefined behaviour (and aborts in debug builds) when it is not aligned for the scalar.
---
 src/io.rs               | 18 ++++++++++++++++++
 src/slice_vector/mod.rs | 23 ++++++++++++++++-------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 49ecdee..50ef2c7 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -8,6 +8,24 @@ pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     elements
 }
 
+pub fn is_aligned_for<T>(bytes: &[u8]) -> bool {
+    bytes.as_ptr() as usize % ::std::mem::align_of::<T>() == 0
+}
+
+// T must be a plain data type, as for `load_bytes_as`
+pub unsafe fn copy_bytes_as<T: Clone>(bytes: &[u8]) -> Vec<T> {
+    let len = bytes.len() / ::std::mem::size_of::<T>();
+    let mut elements = Vec::with_capacity(len);
+    ::std::ptr::copy_nonoverlapping(
+        bytes.as_ptr(),
+        elements.as_mut_ptr() as *mut u8,
+        len * ::std::mem::size_of::<T>(),
+    );
+    elements.set_len(len);
+
+    elements
+}
+
 pub fn write_as_bytes<T, B: Write>(elements: &[T], buffer: &mut B) -> Result<usize> {
     let size = elements.len() * ::std::mem::size_of::<T>();
     let data = unsafe { ::std::slice::from_raw_parts(elements.as_ptr() as *const u8, size) };
diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index bfe6111..72c8a64 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -121,11 +121,18 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
-        let (data, width) = Self::load_mmap(buffer);
+        // slices can only be borrowed from the buffer if they are properly aligned
+        let (data, width) = if io::is_aligned_for::<T>(&buffer[U64_LEN..]) {
+            let (data, width) = Self::load_mmap(buffer);
+            (Cow::Borrowed(data), width)
+        } else {
+            let data = unsafe { io::copy_bytes_as(&buffer[U64_LEN..]) };
+            (Cow::Owned(data), Self::load_width(buffer))
+        };
 
         assert!(width > 0 && data.len() % width == 0);
 
-        Self::Memory(Cow::Borrowed(data), width)
+        Self::Memory(data, width)
     }
 
     /// Returns an iterator over all slices in `self`.
@@ -210,12 +217,14 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         }
     }
 
+    fn load_width(buffer: &[u8]) -> usize {
+        let mut buf = [0x0; U64_LEN];
+        buf.copy_from_slice(&buffer[..U64_LEN]);
+        u64::from_le_bytes(buf) as usize
+    }
+
     fn load_mmap(buffer: &[u8]) -> (&[T], usize) {
-        let width = {
-            let mut buf = [0x0; U64_LEN];
-            buf.copy_from_slice(&buffer[..U64_LEN]);
-            u64::from_le_bytes(buf) as usize
-        };
+        let width = Self::load_width(buffer);
 
         (unsafe { crate::io::load_bytes_as(&buffer[U64_LEN..]) }, width)
     }
-- 
2.43.0


From 7699027da80e82b0e7bacfde995c7aa3ffc34c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 03/22] fix: do not overwrite links added to a node while it is
 being inserted

In a parallel build other threads can connect to a node between the check that it
is empty and its initialization, which lost or duplicated links (and failed a debug
assertion).
---
 src/index/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 5370b1e..7471385 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -832,9 +832,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         }
 
         // if current node is empty, initialize it with the neighbors
-        if layer[idx].read()[0] == UNUSED {
-            Self::initialize_node(&layer[idx], &neighbors[..]);
-        } else {
+        if !Self::initialize_node(&layer[idx], &neighbors[..]) {
             for &(neighbor, d) in &neighbors {
                 Self::connect_nodes(elements, &layer[idx], idx, neighbor, d);
             }
@@ -882,16 +880,21 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         neighbors
     }
 
-    /// Sets neighbors for `node`.
-    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) {
-        debug_assert_eq!(&UNUSED, &node.read()[0]);
-
+    /// Sets neighbors for `node`. Returns `false` (and leaves `node` unchanged) if `node` already
+    /// has neighbors, e.g., because other threads connected to it.
+    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> bool {
         // Write Lock!
         let mut node = node.write();
 
+        if node[0] != UNUSED {
+            return false;
+        }
+
         for (i, &(idx, _)) in neighbors.iter().enumerate().take(node.len()) {
             node[i] = NeighborId::try_from(idx).unwrap();
         }
+
+        true
     }
 
     /// Tries to add `j` as a neighbor to `i`. If the neighbor list is full, uses `select_neighbors`
-- 
2.43.0


From 60e518e2a9f61138e5823526cab416235075fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 04/22] fix: return no results instead of panicking when
 max_search is 0

---
 src/index/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 7471385..9f2b44f 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -1006,6 +1006,10 @@ fn search_for_neighbors<Layer: Graph + ?Sized, Elements: ElementContainer>(
     goal: &Elements::Element,
     max_search: usize,
 ) -> Vec<(usize, NotNan<f32>)> {
+    if max_search == 0 {
+        return Vec::new();
+    }
+
     let mut res: max_size_heap::MaxSizeHeap<(NotNan<f32>, usize)> = max_size_heap::MaxSizeHeap::new(max_search); // TODO: should this really be max_search or num_neighbors?
     let mut pq: BinaryHeap<cmp::Reverse<_>> = BinaryHeap::new();
 
-- 
2.43.0


From 2957afcf2feb7fa7c6ecd41f343b169138c4c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/22] fix: avoid deadlock between a save and a batch that
 needs a new layer

insert_batch kept its read lock on write_lock while recursively acquiring it again
for the remaining elements; a save waiting for the write lock in between blocks the
recursive acquisition forever.
---
 src/index/rw/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5ce3ade..8799477 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -105,10 +105,10 @@ where
             return vec![];
         }
 
-        // signal that writes will happen
-        let _guard = self.write_lock.read();
-
         let (mut inserted, remaining) = {
+            // signal that writes will happen
+            let _guard = self.write_lock.read();
+
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
             let mut layers = self.layers.write();
-- 
2.43.0


From 9e1735ef44a989a5082aeedf6f69c47e95a6e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 06/22] fix: check the capacity while holding the locks in
 insert_batch

Concurrent inserts could pass the check before the last free slot was taken, and then
added a superfluous copy of the last layer.
---
 src/index/rw/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 8799477..f0b41d2 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -114,6 +114,11 @@ where
             let mut layers = self.layers.write();
             let (ref mut current_layer, ref mut prev_layers) = *layers;
 
+            // other threads might have filled up the index before the locks were acquired
+            if elements.len() >= self.max_elements {
+                return vec![];
+            }
+
             // check if it is time to create a new layer
             if elements.len() >= current_layer.len() {
                 *current_layer = {
-- 
2.43.0


From 131724ad553f22e7a0f9ca6ebf829a880a7fdc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 07/22] fix: never shrink a layer when adding a new one in
 insert_batch

With an index that was built with another layer multiplier or size, the next layer
could be computed to be smaller than the number of elements, which failed an assertion.
---
 src/index/rw/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index f0b41d2..bb12f2e 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -128,10 +128,13 @@ where
                     let mut new_layer = current_layer.clone();
                     prev_layers.push(current_layer);
 
-                    let num_elements_in_layer = compute_num_elements_in_layer(
-                        self.max_elements,
-                        self.config.layer_multiplier,
-                        prev_layers.len(),
+                    let num_elements_in_layer = cmp::max(
+                        new_layer.len(),
+                        compute_num_elements_in_layer(
+                            self.max_elements,
+                            self.config.layer_multiplier,
+                            prev_layers.len(),
+                        ),
                     );
 
                     new_layer.resize(num_elements_in_layer, UNUSED);
-- 
2.43.0


From 4e77c2b43a6a9e7b6110b8be815484ba7780a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 08/22] fix: search the first layer of RwGranneBuilder

Searching returned nothing as long as all elements were in the first layer.
---
 src/index/rw/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index bb12f2e..38dacef 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -203,15 +203,18 @@ where
             &*elements,
         );
 
-        if let Some((entrypoint, _)) = index.search(&element, 1, 1).first() {
-            super::search_for_neighbors(current_layer.as_slice(), *entrypoint, &*elements, element, max_search)
-                .into_iter()
-                .take(num_neighbors)
-                .map(|(i, d)| (i, d.into_inner()))
-                .collect()
-        } else {
-            vec![]
+        if elements.is_empty() {
+            return vec![];
         }
+
+        // there are no previous layers as long as all elements fit in the first layer
+        let entrypoint = index.search(&element, 1, 1).first().map_or(0, |r| r.0);
+
+        super::search_for_neighbors(current_layer.as_slice(), entrypoint, &*elements, element, max_search)
+            .into_iter()
+            .take(num_neighbors)
+            .map(|(i, d)| (i, d.into_inner()))
+            .collect()
     }
 
     pub fn get_elements(self: &Self) -> parking_lot::RwLockReadGuard<Elements> {
-- 
2.43.0


From 07104779b82eaab2e1da727f01ec644c5fd35d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 09/22] fix: report errors when the last buffered bytes of a
 save cannot be written

The BufWriters were dropped without being flushed, which ignores errors. In
particular, write_index returned Ok when writing the header failed.
---
 src/elements/embeddings/parsing.rs | 6 +++++-
 src/index/io.rs                    | 1 +
 src/index/rw/mod.rs                | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index d3550b4..9b7a0c1 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -13,7 +13,7 @@ use serde_json;
 use std::cmp;
 use std::collections::HashMap;
 use std::fs::{read_dir, File};
-use std::io::{BufRead, BufReader, BufWriter, Read};
+use std::io::{BufRead, BufReader, BufWriter, Read, Write};
 use std::path::{Path, PathBuf};
 
 pub fn parse_words(words_path: &Path) -> HashMap<String, usize> {
@@ -43,6 +43,7 @@ pub fn parse_elements_and_save_to_disk(
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
+    file.flush().expect("Failed to write elements to disk");
 
     elements.len()
 }
@@ -94,6 +95,7 @@ pub fn parse_elements_and_save_shards_to_disk(
         elements
             .write_range(&mut file, begin, end)
             .expect("Failed to write elements to disk");
+        file.flush().expect("Failed to write elements to disk");
     }
 
     elements.len()
@@ -149,6 +151,8 @@ pub fn compute_embeddings_and_save_to_disk(
             progress_bar.add(vectors.len() as u64);
         }
     }
+
+    file.flush().unwrap();
 }
 
 pub fn parse_elements_in_directory_or_file(
diff --git a/src/index/io.rs b/src/index/io.rs
index 242a6e1..6eae492 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -65,6 +65,7 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
     metadata.resize(METADATA_LEN, b' ');
 
     buffer.write_all(metadata.as_slice())?;
+    buffer.flush()?;
 
     Ok(())
 }
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 38dacef..fbecaf9 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -76,6 +76,7 @@ where
 
         let mut elements_file = BufWriter::new(elements_file);
         elements.write(&mut elements_file)?;
+        elements_file.flush()?;
 
         // this is safe because we have a write lock on self.write_lock, so no writes
         // can happen
-- 
2.43.0


From 09f00b8536fe72d54bdf9c010c032272b3ec2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 10/22] fix: make reorder work for indexes with fewer than two
 layers

---
 src/index/reorder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index dfe9896..5b04247 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -125,6 +125,10 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     }
 
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        if self.num_layers() < 2 {
+            return (0..self.len()).collect();
+        }
+
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
         let mut order_inv = vec![0; self.layer_len(self.num_layers() - 2)];
 
-- 
2.43.0


From 8891ca096cbae5c2b6903dad34c99186e15fda90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 11/22] fix: make reordering work for partially built indexes

The layers were reordered, but permuting the elements then panicked since the
permutation did not cover the elements that are not indexed.
---
 src/index/reorder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index 5b04247..42ecb70 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -57,7 +57,10 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     ```
      */
     pub fn reorder(self: &mut Self, show_progress: bool) -> Vec<usize> {
-        let order = self.compute_order(show_progress);
+        let mut order = self.compute_order(show_progress);
+
+        // elements that are not indexed keep their positions
+        order.extend(self.len()..self.elements.len());
 
         let start_time = time::Instant::now();
 
@@ -104,6 +107,9 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
             order.par_extend(layer_order.into_par_iter().map(|(_key, l)| l));
         }
 
+        // elements that are not indexed keep their positions
+        order.extend(self.len()..self.elements.len());
+
         if show_progress {
             println!("Order computed!");
             println!("Reordering index...");
-- 
2.43.0


From b03edefd843263651e082e66bf04e887ed181a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 12/22] fix: quantize zero vectors without dividing by zero

---
 src/elements/angular_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index 5adef75..eea84f4 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -30,6 +30,7 @@ impl Vector<'static> {
             .iter()
             .map(|s| NotNan::new(s.abs()).unwrap())
             .max()
+            .filter(|&max_value| *max_value > 0.0)
             .unwrap_or_else(|| NotNan::new(MAX_QVALUE).unwrap());
 
         let mut v = Vec::with_capacity(s.len());
-- 
2.43.0


From e148404c300484b2c7ada13a34d3aa2f30b0b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 13/22] fix: count the header in the number of bytes written
 for dense vectors

Writeable::write is documented to return the number of bytes written.
---
 src/slice_vector/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 72c8a64..ad9e73a 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -471,7 +471,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
 
         buffer.write_all(&width.to_le_bytes())?;
 
-        io::write_as_bytes(&data[..], buffer)
+        Ok(U64_LEN + io::write_as_bytes(&data[..], buffer)?)
     }
 }
 
-- 
2.43.0


From 5aa16e459c6a2d0ba066ac5fd4b80f1b362fec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 14/22] fix: load and extend with empty dense vectors

An empty collection (whose width is not known yet) could be written but not loaded,
and could not be used to extend another collection.
---
 src/slice_vector/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index ad9e73a..de2fabd 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -115,7 +115,8 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         // try to fail early
         let (data, width) = slice_vec.load();
 
-        assert!(width > 0 && data.len() % width == 0);
+        // an empty vector might not have a width yet
+        assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
         Ok(slice_vec)
     }
@@ -130,7 +131,8 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
             (Cow::Owned(data), Self::load_width(buffer))
         };
 
-        assert!(width > 0 && data.len() % width == 0);
+        // an empty vector might not have a width yet
+        assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
         Self::Memory(data, width)
     }
@@ -186,6 +188,11 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let (data, width) = self.load_mut();
         let (other_data, other_width) = other.load();
 
+        // nothing to add
+        if other_width == 0 {
+            return;
+        }
+
         if *width == 0 {
             *width = other_width;
         }
-- 
2.43.0


From 7655ce4ef7a94318781ee64bc5ceaaf629164720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 15/22] fix: write empty shards when there are fewer elements
 than shards need

With e.g. 5 elements and 4 shards, the last shard begins after the last element,
which panicked.
---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 9b7a0c1..59378c7 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -77,7 +77,7 @@ pub fn parse_elements_and_save_shards_to_disk(
     for shard in 0..num_shards {
         let output_path = get_shard_name(output_path, shard);
 
-        let begin = shard * shard_size;
+        let begin = std::cmp::min(shard * shard_size, elements.len());
         let end = std::cmp::min((shard + 1) * shard_size, elements.len());
         if show_progress {
             println!(
-- 
2.43.0


From 31a32a8c1a734f0323f75208080fb509b97d44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 16/22] fix: do not allocate space for more results than there
 are nodes

---
 src/index/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 9f2b44f..7c806f3 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -1006,6 +1006,9 @@ fn search_for_neighbors<Layer: Graph + ?Sized, Elements: ElementContainer>(
     goal: &Elements::Element,
     max_search: usize,
 ) -> Vec<(usize, NotNan<f32>)> {
+    // there are never more than `layer.len()` results, do not allocate for more
+    let max_search = cmp::min(max_search, layer.len());
+
     if max_search == 0 {
         return Vec::new();
     }
-- 
2.43.0


From 62338c14f1305ff6ccaf0a9e5c53f47440af4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 17/22] fix: do not add a layer when inserting an empty batch

---
 src/index/rw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index fbecaf9..de0c178 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -102,7 +102,7 @@ where
     }
 
     pub fn insert_batch(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
-        if self.elements.read().len() >= self.max_elements {
+        if elements_to_insert.is_empty() || self.elements.read().len() >= self.max_elements {
             return vec![];
         }
 
-- 
2.43.0


From 49dc57aec170915d595bb829a0070ebd7b820a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 18/22] fix: map the largest magnitude to 127 when quantizing

---
 src/elements/angular_int.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index eea84f4..84f0628 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -36,8 +36,9 @@ impl Vector<'static> {
         let mut v = Vec::with_capacity(s.len());
 
         for x in s {
-            let vi = x * MAX_QVALUE / *max_value;
-            debug_assert!(-MAX_QVALUE - 0.0001 <= vi && vi <= MAX_QVALUE + 0.0001);
+            // exact in f64: the largest value is mapped to MAX_QVALUE and never just below it
+            let vi = f64::from(*x) * f64::from(MAX_QVALUE) / f64::from(*max_value);
+            debug_assert!(f64::from(-MAX_QVALUE) <= vi && vi <= f64::from(MAX_QVALUE));
             v.push(vi as i8);
         }
 
-- 
2.43.0


From 672cebfecd6e7f9d562b885f777fc3fb360a7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:21 +0000
Subject: [PATCH 19/22] fix: read all members of gzip files when parsing
 elements

---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 59378c7..5393515 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -181,7 +181,7 @@ pub fn parse_elements_in_directory_or_file(
             let query_file = File::open(&part).expect(&format!("Input file: {:?} not found", &part));
 
             let elements = if part.to_str().unwrap().ends_with(".gz") {
-                let query_file = flate2::read::GzDecoder::new(query_file);
+                let query_file = flate2::read::MultiGzDecoder::new(query_file);
                 parse_file(query_file, &word_ids)
             } else {
                 parse_file(query_file, &word_ids)
-- 
2.43.0


From 5a7265821802585039d5c932a15671faec685528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 20/22] fix: report an index with too many layers as an error
 instead of panicking

---
 src/index/io.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index/io.rs b/src/index/io.rs
index 6eae492..89a1db6 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -61,7 +61,9 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
     );
 
     let mut metadata = metadata.into_bytes();
-    assert!(metadata.len() <= METADATA_LEN);
+    if metadata.len() > METADATA_LEN {
+        return Err(Error::new(ErrorKind::InvalidInput, "Too many layers for the metadata"));
+    }
     metadata.resize(METADATA_LEN, b' ');
 
     buffer.write_all(metadata.as_slice())?;
-- 
2.43.0


From e0878243b001b09952956070087dc94673c3ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 21/22] fix: normalize vectors whose squared norm over- or
 underflows

---
 src/math.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index e175236..db75e27 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -122,6 +122,8 @@ pub fn sum_into_f32(x: &mut [f32], y: &[f32]) {
 
 #[cfg(not(feature = "blas"))]
 pub fn normalize_f32(x: &mut [f32]) {
+    const MIN_SQUARED_NORM: f32 = 1e-30;
+
     #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
     #[target_feature(enable = "avx2,fma")]
     unsafe fn normalize_avx2(x: &mut [f32]) {
@@ -130,7 +132,22 @@ pub fn normalize_f32(x: &mut [f32]) {
 
     #[inline(always)]
     fn normalize_fallback(x: &mut [f32]) {
-        let norm = dot_product_f32(x, x).sqrt();
+        let mut squared_norm = dot_product_f32(x, x);
+
+        if squared_norm < MIN_SQUARED_NORM || squared_norm == f32::INFINITY {
+            // the squares underflow or overflow
+            let max_value = x.iter().fold(0.0f32, |max_value, xi| max_value.max(xi.abs()));
+
+            if max_value > 0.0 && max_value < f32::INFINITY {
+                for i in 0..x.len() {
+                    x[i] /= max_value;
+                }
+
+                squared_norm = dot_product_f32(x, x);
+            }
+        }
+
+        let norm = squared_norm.sqrt();
 
         if norm > 0.0 {
             for i in 0..x.len() {
-- 
2.43.0


From d9a5963c20ab71b1df0ac53ef00cca3fd4f214c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:10 +0000
Subject: [PATCH 22/22] fix: avoid deadlock when inserting from a thread of
 another rayon pool

---
 src/index/rw/mod.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index de0c178..695631e 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -166,11 +166,30 @@ where
             );
 
             if self.pool.current_num_threads() > 1 {
-                self.pool.install(|| {
-                    ids.par_iter().for_each(|id| {
-                        GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
+                let index_in_pool = || {
+                    self.pool.install(|| {
+                        ids.par_iter().for_each(|id| {
+                            GranneBuilder::index_element(
+                                &self.config,
+                                &*elements,
+                                &index,
+                                current_layer.as_slice(),
+                                *id,
+                            )
+                        })
                     })
-                });
+                };
+
+                if rayon::current_thread_index().is_some() {
+                    // A thread of another rayon pool executes other jobs from that pool while
+                    // waiting for `install`. Those jobs might try to acquire the locks that are
+                    // held here, so let a new thread do the waiting.
+                    std::thread::scope(|scope| {
+                        scope.spawn(index_in_pool);
+                    });
+                } else {
+                    index_in_pool();
+                }
             } else {
                 ids.iter().for_each(|id| {
                     GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
-- 
2.43.0

