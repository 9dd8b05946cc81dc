From 9826c4b33c3690c6b91c8881bada581316e7a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 01/24] fix: per-object delta queries return nothing for
 objects the layer's delta does not mention

The object iterator seeks to the nearest known object. When the requested
object is not part of the delta, that is another object, whose triples
were then returned by triple_additions_o and triple_removals_o. The
disk-based variants already filter on the requested object.
---
 src/layer/internal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index dfb342f..895242d 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -416,7 +416,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_additions_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
@@ -437,7 +438,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_removals_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
-- 
2.43.0


From b2fa4facbe297ee0a3f0c09deebcce80c5c79946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 02/24] fix: querying by predicate 0 returns nothing

0 marks subjects without predicates in the adjacency lists of merged and
rolled up layers. Looking it up in the predicate wavelet tree made queries
for the (non-existent) predicate 0 return triples of other predicates.
---
 src/layer/internal/mod.rs | 10 ++++++++--
 src/storage/layer.rs      |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index 895242d..5d91366 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -372,7 +372,12 @@ impl InternalLayer {
         &self,
         predicate: u64,
     ) -> OptInternalLayerTriplePredicateIterator {
-        match self.pos_predicate_wavelet_tree().lookup(predicate) {
+        // 0 is a placeholder for subjects without any predicate, not a predicate
+        match self
+            .pos_predicate_wavelet_tree()
+            .lookup(predicate)
+            .filter(|_| predicate != 0)
+        {
             Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
                 InternalLayerTriplePredicateIterator::new(
                     lookup,
@@ -391,7 +396,8 @@ impl InternalLayer {
     ) -> OptInternalLayerTriplePredicateIterator {
         match (
             self.neg_predicate_wavelet_tree()
-                .and_then(|t| t.lookup(predicate)),
+                .and_then(|t| t.lookup(predicate))
+                .filter(|_| predicate != 0),
             self.neg_s_p_adjacency_list(),
             self.neg_sp_o_adjacency_list(),
         ) {
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 97c669d..a895c2c 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -2596,7 +2596,8 @@ pub(crate) async fn file_triple_iterator_by_predicate<F: FileLoad + FileStore>(
     let width = s_p_aj.nums().width();
     let wavelet_bits = predicate_wavelet_maps.into();
     let wtree = WaveletTree::from_parts(wavelet_bits, width);
-    Ok(match wtree.lookup(predicate) {
+    // 0 is a placeholder for subjects without any predicate, not a predicate
+    Ok(match wtree.lookup(predicate).filter(|_| predicate != 0) {
         Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
             InternalLayerTriplePredicateIterator::new(lookup, subjects, s_p_aj, sp_o_aj),
         )),
-- 
2.43.0


From 3a68077284f1a10c0ab7dfb117705ca224c7b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 03/24] fix: enumerate the layers of directory and archive
 stores

Layers live in subdirectories named after the first characters of the
layer name, but the enumeration only looked at the root of the store: it
failed on directory stores and found nothing on archive stores.
---
 src/storage/archive.rs   | 33 ++++++++++++++++++++++-----------
 src/storage/directory.rs | 31 +++++++++++++++++++++----------
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index d12b42f..c52966f 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -223,19 +223,30 @@ impl ArchiveBackend for DirectoryArchiveBackend {
 #[async_trait]
 impl ArchiveMetadataBackend for DirectoryArchiveBackend {
     async fn get_layer_names(&self) -> io::Result<Vec<[u32; 5]>> {
+        // archives are grouped in directories named after a prefix of
+        // the layer name.
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            let os_name = direntry.file_name();
-            let name = os_name.to_str().ok_or_else(|| {
-                io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "unexpected non-utf8 directory name",
-                )
-            })?;
-            if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
-                let name_component = &name[..name.len() - 6];
-                result.push(string_to_name(name_component)?);
+        while let Some(prefix_entry) = stream.next_entry().await? {
+            if !prefix_entry.file_type().await?.is_dir()
+                || prefix_entry.file_name().len() != PREFIX_DIR_SIZE
+            {
+                continue;
+            }
+
+            let mut layer_stream = fs::read_dir(prefix_entry.path()).await?;
+            while let Some(direntry) = layer_stream.next_entry().await? {
+                let os_name = direntry.file_name();
+                let name = os_name.to_str().ok_or_else(|| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "unexpected non-utf8 directory name",
+                    )
+                })?;
+                if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
+                    let name_component = &name[..name.len() - 6];
+                    result.push(string_to_name(name_component)?);
+                }
             }
         }
 
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 723e8f1..6e45689 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -32,18 +32,29 @@ impl DirectoryLayerStore {
 impl PersistentLayerStore for DirectoryLayerStore {
     type File = FileBackedStore;
     async fn directories(&self) -> io::Result<Vec<[u32; 5]>> {
+        // layer directories are grouped in directories named after a
+        // prefix of the layer name.
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            if direntry.file_type().await?.is_dir() {
-                let os_name = direntry.file_name();
-                let name = os_name.to_str().ok_or_else(|| {
-                    io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        "unexpected non-utf8 directory name",
-                    )
-                })?;
-                result.push(string_to_name(name)?);
+        while let Some(prefix_entry) = stream.next_entry().await? {
+            if !prefix_entry.file_type().await?.is_dir()
+                || prefix_entry.file_name().len() != PREFIX_DIR_SIZE
+            {
+                continue;
+            }
+
+            let mut layer_stream = fs::read_dir(prefix_entry.path()).await?;
+            while let Some(direntry) = layer_stream.next_entry().await? {
+                if direntry.file_type().await?.is_dir() {
+                    let os_name = direntry.file_name();
+                    let name = os_name.to_str().ok_or_else(|| {
+                        io::Error::new(
+                            io::ErrorKind::InvalidData,
+                            "unexpected non-utf8 directory name",
+                        )
+                    })?;
+                    result.push(string_to_name(name)?);
+                }
             }
         }
 
-- 
2.43.0


From 73bd077dcaf4fa7df69936e88a4ab4eced2128ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 04/24] fix: rollup_upto fails on a layer that already has a
 complete rollup

A complete rollup is a base layer and has no parent file to compare with.
---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index a895c2c..0a3a517 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1770,7 +1770,7 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            if self.layer_parent(rollup).await? == Some(upto) {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
@@ -1805,7 +1805,7 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            if self.layer_parent(rollup).await? == Some(upto) {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
-- 
2.43.0


From d6e6bb36bccb1bea021df996e201cb0ec2150549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 05/24] fix: rollup_upto builds the predicate id map from the
 node and value id maps

---
 src/storage/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 033c510..aa0e97b 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -195,7 +195,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
             layer
                 .immediate_layers_upto(memory_upto)
                 .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
+                .map(|l| l.predicate_id_map().clone()),
         )
         .collect();
 
-- 
2.43.0


From 13a4173ddc89399088f9d332152f92f19ca37e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 06/24] fix: imprecise_rollup_upto loses changes when the
 loaded stack cannot be cut at the requested layer

The rollup contained the changes since the bound that was found, but was
registered as a child of the requested layer.
---
 src/storage/delta.rs |  4 +++-
 src/storage/layer.rs | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index aa0e97b..2358671 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -5,7 +5,9 @@ use crate::layer::*;
 use crate::storage::*;
 use tdb_succinct::*;
 
-async fn safe_upto_bound<S: LayerStore>(
+/// The layer closest to `upto` (at or above it) that the in-memory
+/// stack of `layer` can be cut at.
+pub async fn safe_upto_bound<S: LayerStore>(
     store: &S,
     layer: &InternalLayer,
     upto: [u32; 5],
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 0a3a517..15f3f49 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1811,10 +1811,18 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             }
         }
 
+        // if the given layer was loaded through other rollups, we may
+        // not be able to roll up all the way to upto. The rollup has to
+        // start where we actually end up.
+        let bound = safe_upto_bound(self, &layer, upto).await?;
+        if bound == layer.name() || layer.parent_name() == Some(bound) {
+            return Ok(layer.name());
+        }
+
         let (layer_dir, _parent_layer, child_layer_files) = self
-            .create_child_layer_files_with_cache(upto, cache)
+            .create_child_layer_files_with_cache(bound, cache)
             .await?;
-        imprecise_delta_rollup_upto(self, &layer, upto, child_layer_files).await?;
+        imprecise_delta_rollup_upto(self, &layer, bound, child_layer_files).await?;
         self.finalize(layer_dir).await?;
         Ok(layer_dir)
     }
-- 
2.43.0


From bb86fd8dba8ba81fb331541603e5da791b4e7d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 07/24] fix: rollup_upto panics on a layer loaded as a rollup
 reaching beyond the requested layer

---
 src/storage/delta.rs | 47 +++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 2358671..3b8a9a8 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -153,52 +153,38 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let disk_value_dicts = get_value_dicts_from_disk(store, memory_upto, upto).await?;
     let disk_node_value_idmaps = get_node_value_idmaps_from_disk(store, memory_upto, upto).await?;
     let disk_predicate_idmaps = get_predicate_idmaps_from_disk(store, memory_upto, upto).await?;
+    // if the given layer was loaded as a rollup that reaches beyond
+    // upto, everything comes from disk.
+    let memory_layers = if layer.name() == memory_upto {
+        Vec::new()
+    } else {
+        layer.immediate_layers_upto(memory_upto)
+    };
     let node_dicts: Vec<_> = disk_node_dicts
         .into_iter()
-        .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
-                .map(|l| l.node_dictionary().clone()),
-        )
+        .chain(memory_layers.iter().map(|l| l.node_dictionary().clone()))
         .collect();
     let predicate_dicts: Vec<_> = disk_predicate_dicts
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
+            memory_layers
+                .iter()
                 .map(|l| l.predicate_dictionary().clone()),
         )
         .collect();
     let value_dicts: Vec<_> = disk_value_dicts
         .into_iter()
-        .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
-                .map(|l| l.value_dictionary().clone()),
-        )
+        .chain(memory_layers.iter().map(|l| l.value_dictionary().clone()))
         .collect();
 
     let node_value_idmaps: Vec<_> = disk_node_value_idmaps
         .into_iter()
-        .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
-        )
+        .chain(memory_layers.iter().map(|l| l.node_value_id_map().clone()))
         .collect();
 
     let predicate_idmaps: Vec<_> = disk_predicate_idmaps
         .into_iter()
-        .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
-                .map(|l| l.predicate_id_map().clone()),
-        )
+        .chain(memory_layers.iter().map(|l| l.predicate_id_map().clone()))
         .collect();
 
     merge_string_dictionaries(node_dicts.iter(), files.node_dictionary_files.clone()).await?;
@@ -398,8 +384,11 @@ pub async fn delta_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore>
     .await?;
 
     let disk_changes = store.layer_changes_upto(bound, upto).await?;
-    let memory_changes =
-        InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found");
+    let memory_changes = if layer.name() == bound {
+        InternalTripleStackIterator::from_parts(Vec::new(), Vec::new())
+    } else {
+        InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found")
+    };
     let changes = InternalTripleStackIterator::merge(vec![disk_changes, memory_changes]);
     let additions = changes
         .clone()
-- 
2.43.0


From 06b602a356d864a36106fb2ab5c294e33dbdc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 08/24] fix: memory label store overwrites a head other than
 the one the update was based on

Only versions were compared, which are not unique to one head when a
database is deleted and created again.
---
 src/storage/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 0d8fbfc..75f0b61 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -130,7 +130,7 @@ impl LabelStore for MemoryLabelStore {
                 "label does not exist",
             )),
             Some(old_label) => {
-                if old_label.version + 1 != new_label.version {
+                if old_label != label {
                     Ok(None)
                 } else {
                     labels.insert(new_label.name.clone(), new_label.clone());
-- 
2.43.0


From 7809ca956ef318979f6fc9fd394b18f006578d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 09/24] fix: database with an empty name gets mixed up with one
 named '.label'

The directory label stores derived the name from the file stem.
---
 src/storage/directory.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 6e45689..b48d46b 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -3,7 +3,7 @@
 use locking::*;
 use std::collections::HashMap;
 use std::io::{self, SeekFrom};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::fs;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -179,9 +179,18 @@ fn get_label_from_data(name: String, data: &[u8]) -> io::Result<Label> {
     }
 }
 
+fn label_name_from_path(path: &Path) -> io::Result<String> {
+    // not the file stem, which for a file called '.label' is all of it
+    path.file_name()
+        .and_then(|name| name.to_str())
+        .and_then(|name| name.strip_suffix(".label"))
+        .map(|name| name.to_owned())
+        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "not the path of a label file"))
+}
+
 async fn get_label_from_file<P: Into<PathBuf>>(path: P) -> io::Result<Label> {
     let path: PathBuf = path.into();
-    let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
+    let label = label_name_from_path(&path)?;
 
     let mut file = LockedFile::open(path).await?;
     let mut data = Vec::new();
@@ -194,7 +203,7 @@ async fn get_label_from_exclusive_locked_file<P: Into<PathBuf>>(
     path: P,
 ) -> io::Result<(Label, ExclusiveLockedFile)> {
     let path: PathBuf = path.into();
-    let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
+    let label = label_name_from_path(&path)?;
 
     let mut file = ExclusiveLockedFile::open(path).await?;
     let mut data = Vec::new();
-- 
2.43.0


From f18f39fc0c56d29024cd0c6d8b83d787f75055e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 10/24] fix: a database being created shows up with an empty,
 unreadable label

Concurrent readers failed on it, as did everyone after a crash.
---
 src/storage/directory.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index b48d46b..97cdd78 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -199,6 +199,27 @@ async fn get_label_from_file<P: Into<PathBuf>>(path: P) -> io::Result<Label> {
     get_label_from_data(label, &data)
 }
 
+/// Create a label file that has its contents from the moment it appears.
+///
+/// Concurrent readers, as well as anyone opening the store after a
+/// crash, expect every label file they come across to be complete.
+async fn create_label_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let temp_path = path.with_file_name(format!("{:016x}.new", rand::random::<u64>()));
+    let mut options = fs::OpenOptions::new();
+    options.create_new(true);
+    options.write(true);
+    let mut file = options.open(&temp_path).await?;
+    file.write_all(contents).await?;
+    file.flush().await?;
+    file.sync_all().await?;
+
+    // unlike a rename, this fails if the label was created in the meantime
+    let result = fs::hard_link(&temp_path, path).await;
+    fs::remove_file(&temp_path).await?;
+
+    result
+}
+
 async fn get_label_from_exclusive_locked_file<P: Into<PathBuf>>(
     path: P,
 ) -> io::Result<(Label, ExclusiveLockedFile)> {
@@ -250,10 +271,7 @@ impl LabelStore for DirectoryLabelStore {
             )),
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => {
-                    let mut file = ExclusiveLockedFile::create_and_open(p).await?;
-                    file.write_all(&contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
+                    create_label_file(&p, &contents).await?;
 
                     Ok(Label::new_empty(label))
                 }
@@ -404,13 +422,7 @@ impl LabelStore for CachedDirectoryLabelStore {
             )),
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => {
-                    let mut options = fs::OpenOptions::new();
-                    options.create_new(true);
-                    options.write(true);
-                    let mut file = options.open(p).await?;
-                    file.write_all(contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
+                    create_label_file(&p, contents).await?;
 
                     let l = Label::new_empty(label);
                     labels.insert(label.to_string(), l.clone());
-- 
2.43.0


From 664e83556f0d298e17c92e3b501fbb113b5f246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 11/24] fix: updating a head can leave an unreadable or
 outdated label file behind

The directory label store truncated the file before writing the new
label, so that a crash in between left an empty file. The cached
directory label store did not truncate at all, so that a shorter label
left the end of the previous one in the file and the store could not be
opened again.
---
 src/storage/directory.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 97cdd78..aeebc5d 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -179,6 +179,21 @@ fn get_label_from_data(name: String, data: &[u8]) -> io::Result<Label> {
     }
 }
 
+/// The contents of a label file.
+///
+/// These all have the same length, no matter the version and whether
+/// there is a layer. This way, updating a label file is a single write
+/// which leaves nothing of the old contents, with no need to truncate
+/// the file first.
+fn label_contents(label: &Label) -> Vec<u8> {
+    match label.layer {
+        None => format!("{:0>60}\n\n", label.version).into_bytes(),
+        Some(layer) => {
+            format!("{:0>20}\n{}\n", label.version, layer::name_to_string(layer)).into_bytes()
+        }
+    }
+}
+
 fn label_name_from_path(path: &Path) -> io::Result<String> {
     // not the file stem, which for a file called '.label' is all of it
     path.file_name()
@@ -299,19 +314,13 @@ impl LabelStore for DirectoryLabelStore {
         layer: Option<[u32; 5]>,
     ) -> io::Result<Option<Label>> {
         let new_label = label.with_updated_layer(layer);
-        let contents = match new_label.layer {
-            None => format!("{}\n\n", new_label.version).into_bytes(),
-            Some(layer) => {
-                format!("{}\n{}\n", new_label.version, layer::name_to_string(layer)).into_bytes()
-            }
-        };
+        let contents = label_contents(&new_label);
 
         let mut p = self.path.clone();
         p.push(format!("{}.label", label.name));
         let (retrieved_label, mut file) = get_label_from_exclusive_locked_file(p).await?;
         if retrieved_label == *label {
             // all good, let's a go
-            file.truncate().await?;
             file.write_all(&contents).await?;
             file.flush().await?;
             file.sync_all().await?;
@@ -443,12 +452,7 @@ impl LabelStore for CachedDirectoryLabelStore {
         layer: Option<[u32; 5]>,
     ) -> io::Result<Option<Label>> {
         let new_label = label.with_updated_layer(layer);
-        let contents = match new_label.layer {
-            None => format!("{}\n\n", new_label.version).into_bytes(),
-            Some(layer) => {
-                format!("{}\n{}\n", new_label.version, layer::name_to_string(layer)).into_bytes()
-            }
-        };
+        let contents = label_contents(&new_label);
 
         let mut labels = self.labels.write().await;
         if let Some(retrieved_label) = labels.get(&label.name) {
-- 
2.43.0


From 295660046343a6c3ae4453343722ff8eacdc553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 12/24] fix: registering a rollup can leave an unreadable
 rollup file behind

The rollup file was truncated and then written, so a crash or a
concurrent reader could come across an empty one, after which the
layer could not be loaded any more.
---
 src/storage/archive.rs   |  8 ++------
 src/storage/directory.rs | 28 ++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index c52966f..1b244b7 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -35,6 +35,7 @@ use tdb_succinct::{
 
 use super::{
     consts::{LayerFileEnum, FILENAME_ENUM_MAP},
+    directory::replace_file,
     locking::{ExclusiveLockedFile, LockedFile},
     name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile,
 };
@@ -342,12 +343,7 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
         data.extend_from_slice(b"1\n");
         data.extend_from_slice(name_to_string(rollup).as_bytes());
         data.extend_from_slice(b"\n");
-        let mut file = fs::File::create(path).await?;
-        file.write_all(&data).await?;
-        file.flush().await?;
-        file.sync_all().await?;
-
-        Ok(())
+        replace_file(&path, &data).await
     }
 
     async fn get_parent(&self, id: [u32; 5]) -> io::Result<Option<[u32; 5]>> {
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index aeebc5d..e18fd79 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -123,6 +123,34 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         Ok(())
     }
+
+    async fn write_rollup_file(&self, dir_name: [u32; 5], rollup_name: [u32; 5]) -> io::Result<()> {
+        let mut path = self.path.clone();
+        let dir_name = name_to_string(dir_name);
+        path.push(&dir_name[0..PREFIX_DIR_SIZE]);
+        path.push(dir_name);
+        path.push(consts::FILENAMES.rollup);
+
+        let contents = format!("{}\n{}\n", 1, name_to_string(rollup_name));
+        replace_file(&path, contents.as_bytes()).await
+    }
+}
+
+/// Replace the contents of a file at once.
+///
+/// Concurrent readers, as well as anyone opening the store after a
+/// crash, will see either the old or the new contents.
+pub(crate) async fn replace_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let temp_path = path.with_extension(format!("{:016x}.new", rand::random::<u64>()));
+    let mut options = fs::OpenOptions::new();
+    options.create_new(true);
+    options.write(true);
+    let mut file = options.open(&temp_path).await?;
+    file.write_all(contents).await?;
+    file.flush().await?;
+    file.sync_all().await?;
+
+    fs::rename(&temp_path, path).await
 }
 
 #[derive(Clone)]
-- 
2.43.0


From 861249ee6470e00f7ef7e638b8fb544bf8628c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 13/24] fix: an interrupted commit leaves an incomplete layer
 archive behind

A crash while an archive is written left part of it under the layer's
name. Looking that layer up then panicked, and an interrupted import
could not be repeated.
---
 src/storage/archive.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 1b244b7..6b335ca 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -165,24 +165,14 @@ impl ArchiveBackend for DirectoryArchiveBackend {
         }
     }
 
-    async fn store_layer_file(&self, id: [u32; 5], mut bytes: Bytes) -> io::Result<()> {
+    async fn store_layer_file(&self, id: [u32; 5], bytes: Bytes) -> io::Result<()> {
         let path = self.path_for_layer(id);
         let mut directory_path = path.clone();
         directory_path.pop();
         fs::create_dir_all(&directory_path).await?;
 
-        let mut options = tokio::fs::OpenOptions::new();
-        options.create(true);
-        options.write(true);
-        let mut file = options.open(path).await?;
-        while bytes.remaining() > 0 {
-            let chunk = bytes.chunk();
-            let written = file.write(chunk).await?;
-            bytes.advance(written);
-        }
-
-        file.flush().await?;
-        file.sync_all().await?;
+        // the archive should never be there incompletely, not even after a crash
+        replace_file(&path, &bytes).await?;
 
         if cfg!(unix) {
             // ensure the underlying directory record is properly synchronized
-- 
2.43.0


From e6f9072af3f83086c4cf1846b3d9bd1a841cf585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 14/24] fix: the archive cache grows beyond its limit

The cache size was never updated, so nothing was ever evicted, and
newly stored layers were cached without regard for the limit.
---
 src/storage/archive.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 6b335ca..55e0e75 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -353,7 +353,6 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
 pub struct LruArchiveBackend<M, D> {
     cache: Arc<tokio::sync::Mutex<LruCache<[u32; 5], CacheEntry>>>,
     limit: usize,
-    current: usize,
     metadata_origin: M,
     data_origin: D,
 }
@@ -381,7 +380,6 @@ impl<M, D> LruArchiveBackend<M, D> {
         Self {
             cache,
             limit,
-            current: 0,
             metadata_origin,
             data_origin,
         }
@@ -433,10 +431,19 @@ fn ensure_additional_cache_space(cache: &mut LruCache<[u32; 5], CacheEntry>, mut
     }
 }
 
+fn current_cache_size(cache: &LruCache<[u32; 5], CacheEntry>) -> usize {
+    cache
+        .iter()
+        .map(|(_, entry)| match entry {
+            CacheEntry::Resolved(bytes) => bytes.len(),
+            CacheEntry::Resolving(_) => 0,
+        })
+        .sum()
+}
+
 fn ensure_enough_cache_space(
     cache: &mut LruCache<[u32; 5], CacheEntry>,
     limit: usize,
-    current: usize,
     required: usize,
 ) -> bool {
     if required > limit {
@@ -444,6 +451,7 @@ fn ensure_enough_cache_space(
         return false;
     }
 
+    let current = current_cache_size(cache);
     let remaining = limit - current;
     if remaining < required {
         // we need to clean up some cache spacew to fit this entry
@@ -493,12 +501,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 let mut cache = self.cache.lock().await;
                 match lookup {
                     Ok(bytes) => {
-                        if ensure_enough_cache_space(
-                            &mut *cache,
-                            self.limit_bytes(),
-                            self.current,
-                            bytes.len(),
-                        ) {
+                        if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
                             let cached = cache
                                 .get_mut(&id)
                                 .expect("layer resolving entry not found in cache");
@@ -537,7 +540,11 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
         self.data_origin.store_layer_file(id, bytes.clone()).await?;
 
         let mut cache = self.cache.lock().await;
-        cache.get_or_insert(id, move || CacheEntry::Resolved(bytes));
+        if !cache.contains(&id)
+            && ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len())
+        {
+            cache.put(id, CacheEntry::Resolved(bytes));
+        }
 
         Ok(())
     }
-- 
2.43.0


From b155f99c397305584d3bffc95132bfd9626abbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 15/24] fix: an abandoned lookup makes a layer unreadable
 through the archive cache

When the task that was to resolve a layer got cancelled, everyone
waiting for it, as well as every later reader of that layer, panicked.
---
 src/storage/archive.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 55e0e75..2890258 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -480,9 +480,24 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 // someone is already looking up this layer. we'll wait for them to be done.
                 std::mem::drop(cache);
                 let guard = barrier.read().await;
-                match guard.as_ref().unwrap() {
-                    Ok(bytes) => Ok(bytes.clone()),
-                    Err(kind) => Err(io::Error::new(*kind, "layer resolve failed")),
+                match guard.as_ref() {
+                    Some(Ok(bytes)) => Ok(bytes.clone()),
+                    Some(Err(kind)) => Err(io::Error::new(*kind, "layer resolve failed")),
+                    None => {
+                        // the lookup was abandoned before it was
+                        // done. Get rid of the entry it left behind
+                        // (unless someone else already did) and
+                        // start over.
+                        let mut cache = self.cache.lock().await;
+                        if let Some(CacheEntry::Resolving(current)) = cache.peek(&id) {
+                            if Arc::ptr_eq(current, &barrier) {
+                                drop_from_cache(&mut *cache, id);
+                            }
+                        }
+                        std::mem::drop(cache);
+
+                        self.get_layer_bytes(id).await
+                    }
                 }
             }
             None => {
@@ -495,10 +510,9 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 std::mem::drop(cache);
                 let lookup = self.data_origin.get_layer_bytes(id).await;
 
-                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
-
                 // reacquire cache
                 let mut cache = self.cache.lock().await;
+                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
                 match lookup {
                     Ok(bytes) => {
                         if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
-- 
2.43.0


From 770ff8ac65a0ad7fd3e358e061e3a6a3e07899d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 16/24] fix: import creates layers which are not in the pack,
 and trips over layers already there

Layers that were asked for but are not in the pack got created as empty
layers, which cannot be loaded. A layer already in the store was
replaced by an empty one in memory stores even if the pack does not
have it, and made the import panic in archive stores.
---
 src/storage/pack.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 88002a8..ff20465 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -68,8 +68,9 @@ impl<T: PersistentLayerStore> Packable for T {
         let mut layer_id_set = HashSet::new();
         for id in layer_ids {
             layer_id_set.insert(name_to_string(id));
-            self.create_named_directory(id).await?;
         }
+        // the layers that actually get something out of this import
+        let mut imported = HashSet::new();
 
         let handle = tokio::runtime::Handle::current();
         tokio::task::block_in_place(|| {
@@ -112,7 +113,18 @@ impl<T: PersistentLayerStore> Packable for T {
                     let mut content = Vec::with_capacity(header.size()? as usize);
                     entry.read_to_end(&mut content)?;
 
-                    handle.block_on(async move {
+                    handle.block_on(async {
+                        if !self.directory_exists(layer_id_arr).await? {
+                            self.create_named_directory(layer_id_arr).await?;
+                        } else if self.file_exists(layer_id_arr, &file_name).await?
+                            && self.get_file(layer_id_arr, &file_name).await?.map().await?
+                                == content
+                        {
+                            // this was already here
+                            return Ok(());
+                        }
+
+                        imported.insert(layer_id_arr);
                         let file = self.get_file(layer_id_arr, &file_name).await?;
                         let mut writer = file.open_write().await?;
                         writer.write_all(&content).await?;
@@ -124,9 +136,8 @@ impl<T: PersistentLayerStore> Packable for T {
                 }
             }
 
-            for layer_id in layer_id_set {
-                let layer_id_arr = string_to_name(&layer_id).unwrap();
-                handle.block_on(self.finalize_layer(layer_id_arr))?;
+            for layer_id in imported {
+                handle.block_on(self.finalize_layer(layer_id))?;
             }
 
             Ok(())
-- 
2.43.0


From 6bfe550766784b555654cfb64ca0f13e710f74be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 17/24] fix: predicate count of a layer that is not in the
 cache is its value count

---
 src/storage/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index f49565b..2cec0e7 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -197,7 +197,7 @@ impl LayerStore for CachedLayerStore {
             }
         }
 
-        self.inner.get_value_count(name).await
+        self.inner.get_predicate_count(name).await
     }
 
     async fn get_value_count(&self, name: [u32; 5]) -> io::Result<Option<u64>> {
-- 
2.43.0


From bae636db200283e9662c936312f2fa5263e6dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 18/24] fix: changes of a layer stack repeat those of its top
 layer

---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 15f3f49..fb44720 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -321,8 +321,8 @@ pub trait LayerStore: 'static + Packable + Send + Sync {
         let mut positives = Vec::new();
         let mut negatives = Vec::new();
         walk_backwards_from_disk!(self, name, current, {
-            positives.push(self.triple_additions(name).await?);
-            negatives.push(self.triple_removals(name).await?);
+            positives.push(self.triple_additions(current).await?);
+            negatives.push(self.triple_removals(current).await?);
         });
         positives.reverse();
         negatives.reverse();
-- 
2.43.0


From 4a634c94054f420efa7b3282aeb81bc601e0f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 19/24] fix: applying a delta or diff to a committed builder
 fails silently or panics

---
 src/store/mod.rs | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 9df6b32..6417029 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -169,58 +169,63 @@ impl StoreLayerBuilder {
         // first check what dictionary entries we don't know about, add those
         let triple_additions = delta.triple_additions().await?;
         let triple_removals = delta.triple_removals().await?;
-        rayon::join(
+        // fail when this builder has already been committed, even if there is nothing to apply
+        self.with_builder(|_| ())?;
+        let (added, removed) = rayon::join(
             move || {
-                triple_additions.par_bridge().for_each(|t| {
+                triple_additions.par_bridge().try_for_each(|t| {
                     delta
                         .id_triple_to_string(&t)
-                        .map(|st| self.add_value_triple(st));
-                });
+                        .map_or(Ok(()), |st| self.add_value_triple(st))
+                })
             },
             move || {
-                triple_removals.par_bridge().for_each(|t| {
+                triple_removals.par_bridge().try_for_each(|t| {
                     delta
                         .id_triple_to_string(&t)
-                        .map(|st| self.remove_value_triple(st));
+                        .map_or(Ok(()), |st| self.remove_value_triple(st))
                 })
             },
         );
 
-        Ok(())
+        added.and(removed)
     }
 
     /// Apply the changes required to change our parent layer into the given layer.
     pub fn apply_diff(&self, other: &StoreLayer) -> Result<(), io::Error> {
         // create a child builder and use it directly
         // first check what dictionary entries we don't know about, add those
-        rayon::join(
-            || {
-                if let Some(this) = self.parent() {
-                    this.triples().par_bridge().for_each(|t| {
-                        if let Some(st) = this.id_triple_to_string(&t) {
-                            if !other.value_triple_exists(&st) {
-                                self.remove_value_triple(st).unwrap()
-                            }
+        // fail when this builder has already been committed, even if there is nothing to apply
+        self.with_builder(|_| ())?;
+        let (removed, added) = rayon::join(
+            || match self.parent() {
+                Some(this) => this.triples().par_bridge().try_for_each(|t| {
+                    if let Some(st) = this.id_triple_to_string(&t) {
+                        if !other.value_triple_exists(&st) {
+                            self.remove_value_triple(st)?;
                         }
-                    })
-                };
+                    }
+                    Ok(())
+                }),
+                None => Ok(()),
             },
             || {
-                other.triples().par_bridge().for_each(|t| {
+                other.triples().par_bridge().try_for_each(|t| {
                     if let Some(st) = other.id_triple_to_string(&t) {
                         if let Some(this) = self.parent() {
                             if !this.value_triple_exists(&st) {
-                                self.add_value_triple(st).unwrap()
+                                self.add_value_triple(st)?;
                             }
                         } else {
-                            self.add_value_triple(st).unwrap()
+                            self.add_value_triple(st)?;
                         };
                     }
+                    Ok(())
                 })
             },
         );
 
-        Ok(())
+        removed.and(added)
     }
 }
 
-- 
2.43.0


From 26b2d55c5a2c5694295acd64f6bf6af08a0786f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 20/24] fix: listing databases fails when one is deleted
 meanwhile

---
 src/storage/directory.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index e18fd79..7e0eb6d 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -294,8 +294,12 @@ impl LabelStore for DirectoryLabelStore {
                     )
                 })?;
                 if name.ends_with(".label") {
-                    let label = get_label_from_file(direntry.path()).await?;
-                    result.push(label);
+                    match get_label_from_file(direntry.path()).await {
+                        Ok(label) => result.push(label),
+                        // deleted in the meantime
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        Err(e) => return Err(e),
+                    }
                 }
             }
         }
-- 
2.43.0


From a658551819d881609d4ae40fea83ad8d9bcb1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 21/24] fix: do not let concurrent imports of the same layers
 get in each other's way

---
 src/storage/pack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index ff20465..3ebe6bd 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -37,6 +37,9 @@ pub trait Packable {
     ) -> io::Result<()>;
 }
 
+/// Held while importing, as two imports of the same layer would otherwise both try to write it.
+static IMPORT_LOCK: tokio::sync::Mutex<()> = tokio::sync::Mutex::const_new(());
+
 #[async_trait]
 impl<T: PersistentLayerStore> Packable for T {
     async fn export_layers(
@@ -72,6 +75,7 @@ impl<T: PersistentLayerStore> Packable for T {
         // the layers that actually get something out of this import
         let mut imported = HashSet::new();
 
+        let _guard = IMPORT_LOCK.lock().await;
         let handle = tokio::runtime::Handle::current();
         tokio::task::block_in_place(|| {
             let cursor = io::Cursor::new(pack);
-- 
2.43.0


From b8265a50d27b7ffd6dbdc1a949be03fe278c2d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:22 +0000
Subject: [PATCH 22/24] fix: a failed import leaves layers behind that no later
 import will store

---
 src/storage/pack.rs | 72 +++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 3ebe6bd..0ca9ffd 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fmt::Display;
 use std::io::{self, Read};
 use std::path::PathBuf;
@@ -72,8 +72,6 @@ impl<T: PersistentLayerStore> Packable for T {
         for id in layer_ids {
             layer_id_set.insert(name_to_string(id));
         }
-        // the layers that actually get something out of this import
-        let mut imported = HashSet::new();
 
         let _guard = IMPORT_LOCK.lock().await;
         let handle = tokio::runtime::Handle::current();
@@ -82,6 +80,10 @@ impl<T: PersistentLayerStore> Packable for T {
             let tar = GzDecoder::new(cursor);
             let mut archive = Archive::new(tar);
 
+            // the files of the layers we're interested in. Nothing is
+            // written before all of the pack could be read.
+            let mut layers: BTreeMap<[u32; 5], Vec<(String, Vec<u8>)>> = BTreeMap::new();
+
             // TODO we actually need to validate that these layers, when extracted, will make for a valid store.
             // In terminus-server we are currently already doing this validation. Due to time constraints, we're not implementing it here.
             //
@@ -117,31 +119,18 @@ impl<T: PersistentLayerStore> Packable for T {
                     let mut content = Vec::with_capacity(header.size()? as usize);
                     entry.read_to_end(&mut content)?;
 
-                    handle.block_on(async {
-                        if !self.directory_exists(layer_id_arr).await? {
-                            self.create_named_directory(layer_id_arr).await?;
-                        } else if self.file_exists(layer_id_arr, &file_name).await?
-                            && self.get_file(layer_id_arr, &file_name).await?.map().await?
-                                == content
-                        {
-                            // this was already here
-                            return Ok(());
-                        }
-
-                        imported.insert(layer_id_arr);
-                        let file = self.get_file(layer_id_arr, &file_name).await?;
-                        let mut writer = file.open_write().await?;
-                        writer.write_all(&content).await?;
-                        writer.flush().await?;
-                        writer.sync_all().await?;
-
-                        Ok::<_, io::Error>(())
-                    })?;
+                    layers
+                        .entry(layer_id_arr)
+                        .or_default()
+                        .push((file_name, content));
                 }
             }
 
-            for layer_id in imported {
-                handle.block_on(self.finalize_layer(layer_id))?;
+            // Layers are finished one by one. If one of them fails,
+            // the others are either completely imported, or not
+            // started yet, so that a later import will pick them up.
+            for (layer_id, files) in layers {
+                handle.block_on(import_layer(self, layer_id, files))?;
             }
 
             Ok(())
@@ -149,6 +138,39 @@ impl<T: PersistentLayerStore> Packable for T {
     }
 }
 
+async fn import_layer<S: PersistentLayerStore>(
+    store: &S,
+    layer_id: [u32; 5],
+    files: Vec<(String, Vec<u8>)>,
+) -> io::Result<()> {
+    let mut imported = !store.directory_exists(layer_id).await?;
+    if imported {
+        store.create_named_directory(layer_id).await?;
+    }
+
+    for (file_name, content) in files {
+        if store.file_exists(layer_id, &file_name).await?
+            && store.get_file(layer_id, &file_name).await?.map().await? == content
+        {
+            // this was already here
+            continue;
+        }
+
+        imported = true;
+        let file = store.get_file(layer_id, &file_name).await?;
+        let mut writer = file.open_write().await?;
+        writer.write_all(&content).await?;
+        writer.flush().await?;
+        writer.sync_all().await?;
+    }
+
+    if imported {
+        store.finalize_layer(layer_id).await?;
+    }
+
+    Ok(())
+}
+
 async fn tar_append_file<S: PersistentLayerStore, W: io::Write>(
     store: &S,
     tar: &mut tar::Builder<W>,
-- 
2.43.0


From e626b48d17ea8357d1d5f0feaddaf3870281e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:22 +0000
Subject: [PATCH 23/24] fix: a label created on disk is reported as not created
 when clearing up fails

---
 src/storage/directory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 7e0eb6d..a3d12a5 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -258,7 +258,8 @@ async fn create_label_file(path: &Path, contents: &[u8]) -> io::Result<()> {
 
     // unlike a rename, this fails if the label was created in the meantime
     let result = fs::hard_link(&temp_path, path).await;
-    fs::remove_file(&temp_path).await?;
+    // the label is there now. A file left behind doesn't change that.
+    let _ = fs::remove_file(&temp_path).await;
 
     result
 }
-- 
2.43.0


From 0886c3ca69eb0d8fb61ed22d01f1de2cebca1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 24/24] fix: a cached label that could not be deleted from disk
 is forgotten

---
 src/storage/directory.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index a3d12a5..74e2961 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -513,12 +513,19 @@ impl LabelStore for CachedDirectoryLabelStore {
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
         let mut labels = self.labels.write().await;
-        if labels.remove(name).is_some() {
+        if labels.contains_key(name) {
             let mut p = self.path.clone();
             p.push(format!("{}.label", name));
-            tokio::fs::remove_file(p).await?;
+            let result = tokio::fs::remove_file(p).await;
+            match &result {
+                // it is still there, so it can't be forgotten
+                Err(e) if e.kind() != io::ErrorKind::NotFound => {}
+                _ => {
+                    labels.remove(name);
+                }
+            }
 
-            Ok(true)
+            result.map(|_| true)
         } else {
             Ok(false)
         }
-- 
2.43.0

