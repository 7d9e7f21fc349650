From bae9fb972adb6f1c579808fd8a0d36c1d7734e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 01/25] fix: update in-memory property indexes on deletion in
 release builds

The index removal lived inside debug_assert!, so with debug assertions off
deleting or overwriting an indexed property left the old value in the index.
With them on, removing a property that was never entered into the index
(set on an owner that does not exist) panicked and poisoned the datastore.
---
 lib/src/memory/datastore.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d76a8e2..0de706f 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -263,10 +263,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.vertex_properties.remove(&prop) {
                 let (property_vertex_id, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                    }
                 }
             }
         }
@@ -278,10 +277,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                 let (property_edge, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Edge(property_edge)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Edge(property_edge));
+                    }
                 }
             }
         }
-- 
2.43.0


From dc4bb39090982d7cbeb1dc8dd096093f2ca8455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 02/25] fix: read properties of the vertex with the largest id

all_vertex_properties_for_vertex computed the next id to bound its scan and
panicked for Uuid::max, poisoning the in-memory datastore.
---
 lib/src/memory/datastore.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 0de706f..84935fa 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -6,7 +6,6 @@ use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
 use crate::errors::{Error, Result};
-use crate::util;
 use crate::{Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
 use rmp_serde::decode::Error as RmpDecodeError;
@@ -176,8 +175,10 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
     fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
         let mut vertex_properties = Vec::new();
         let from = &(vertex.id, Identifier::default());
-        let to = &(util::next_uuid(vertex.id).unwrap(), Identifier::default());
-        for ((_prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..to) {
+        for ((prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..) {
+            if prop_vertex_id != &vertex.id {
+                break;
+            }
             vertex_properties.push((*prop_name, prop_value.clone()));
         }
         Ok(Box::new(vertex_properties.into_iter().map(Ok)))
-- 
2.43.0


From 8d896f0a252e2b4f5eebc6e043a326320024163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 03/25] fix: release index entries of values no longer stored
 in memory

Every distinct value an indexed property ever had left an empty set behind,
in memory and in the persisted image, so overwriting one indexed property
repeatedly grew the datastore without bound.
---
 lib/src/memory/datastore.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 84935fa..1eb6f4e 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -266,6 +266,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
                     if let Some(members) = property_container.get_mut(&property_value) {
                         members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                        if members.is_empty() {
+                            property_container.remove(&property_value);
+                        }
                     }
                 }
             }
@@ -280,6 +283,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
                     if let Some(members) = property_container.get_mut(&property_value) {
                         members.remove(&IndexedPropertyMember::Edge(property_edge));
+                        if members.is_empty() {
+                            property_container.remove(&property_value);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 1288ff1f70a3d5a9c9a1b199e2c6c77b931a25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 04/25] fix: report write errors while flushing the in-memory
 image

The BufWriter was dropped without flushing it explicitly, so an error writing
the last block (disk full, file size limit) was swallowed and the truncated
file replaced the previous image although sync reported success.
---
 lib/src/memory/datastore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 1eb6f4e..5a3997d 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::PathBuf;
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
@@ -299,6 +299,7 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
+                buf.flush().map_err(|err| Error::Datastore(Box::new(err)))?;
             }
             temp_path
                 .persist(persist_path)
-- 
2.43.0


From fc9d4120c5e8a63d27c70c317f42286d97a8ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 05/25] fix: write the temporary image next to the configured
 path

It was created in the system's temporary directory, so sync always failed
when the image's path was on another filesystem, as files can't be renamed
across filesystems.
---
 lib/src/memory/datastore.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 5a3997d..3c2c117 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,7 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Write};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
@@ -295,7 +295,13 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
 
     fn sync(&self) -> Result<()> {
         if let Some(ref persist_path) = self.path {
-            let temp_path = NamedTempFile::new().map_err(|err| Error::Datastore(Box::new(err)))?;
+            // The temporary file must be on the same filesystem as the image
+            // for it to be atomically renamed.
+            let dir = match persist_path.parent() {
+                Some(dir) if !dir.as_os_str().is_empty() => dir,
+                _ => Path::new("."),
+            };
+            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
-- 
2.43.0


From 2861f47ce850a620d8a8fcebe8b8acf4c6b2b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 06/25] fix: delete inbound edges along with a vertex in
 rocksdb

Edges read from the reversed index were passed on without reversing them
back, so edges ending at a deleted vertex and their properties remained.
---
 lib/src/rdb/managers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 6707782..3ee29f2 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -116,9 +116,9 @@ impl<'a> VertexManager<'a> {
         {
             let reversed_edge_range_manager = EdgeRangeManager::new_reversed(self.db);
             for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
-                let edge = item?;
-                debug_assert_eq!(edge.outbound_id, id);
-                edge_manager.delete(batch, indexed_properties, &edge)?;
+                let reversed_edge = item?;
+                debug_assert_eq!(reversed_edge.outbound_id, id);
+                edge_manager.delete(batch, indexed_properties, &reversed_edge.reversed())?;
             }
         }
 
-- 
2.43.0


From 00d5084cd3e4c83c61af734d517c214d27d96b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 07/25] fix: keep rocksdb indexes right when a bulk insert
 repeats a property

The previous value was only looked up in the database, not in the batch being
built, so when one bulk insert set an indexed property of an owner twice the
index kept an entry for the earlier value.
---
 lib/src/rdb/datastore.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 7bb989d..01158d0 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use std::sync::{Arc, RwLock};
 
@@ -283,6 +283,12 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
+        // If a property is set several times, only its last value is written:
+        // the index entries of earlier values in the same batch couldn't be
+        // found and removed, as they're not in the database yet.
+        let mut vertex_properties = HashMap::new();
+        let mut edge_properties = HashMap::new();
+
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
@@ -291,17 +297,24 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
                 BulkInsertItem::Edge(ref edge) => {
                     self.edge_manager.set(&mut batch, edge)?;
                 }
-                BulkInsertItem::VertexProperty(id, ref name, ref value) => {
-                    self.vertex_property_manager
-                        .set(&mut batch, &indexed_properties, id, *name, value)?;
+                BulkInsertItem::VertexProperty(id, name, value) => {
+                    vertex_properties.insert((id, name), value);
                 }
-                BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
-                    self.edge_property_manager
-                        .set(&mut batch, &indexed_properties, edge, *name, value)?;
+                BulkInsertItem::EdgeProperty(edge, name, value) => {
+                    edge_properties.insert((edge, name), value);
                 }
             }
         }
 
+        for ((id, name), value) in vertex_properties {
+            self.vertex_property_manager
+                .set(&mut batch, &indexed_properties, id, name, &value)?;
+        }
+        for ((edge, name), value) in edge_properties {
+            self.edge_property_manager
+                .set(&mut batch, &indexed_properties, &edge, name, &value)?;
+        }
+
         self.db.write(batch)?;
         Ok(())
     }
-- 
2.43.0


From 6c9cd9b16b91ab84beb0ca9b55559228384bd9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 08/25] fix: compare values in rocksdb value queries, not just
 their hashes

The value index is keyed by a 64-bit hash of the value. Different values can
have the same hash (e.g. [[1], 2] and [[1, 2]], or -1 and 2^64 - 1), so value
queries returned elements with another value.
---
 lib/src/rdb/datastore.rs | 22 +++++++++++++++++++---
 lib/src/rdb/managers.rs  | 10 ++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 01158d0..fde346a 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -90,6 +90,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         if self.indexed_properties.read().unwrap().contains(&name) {
             let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
             let iter = self.vertex_ids_from_property_value_iterator(iter);
+            // The index only contains hashes of values, which may collide
+            let value_json = serde_json::to_vec(value)?;
+            let iter = iter.filter_map(move |item| match item {
+                Ok(id) => match self.vertex_property_manager.has_value(id, name, &value_json) {
+                    Ok(true) => Some(Ok(id)),
+                    Ok(false) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -149,12 +159,18 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
+            // The index only contains hashes of values, which may collide
+            let value_json = serde_json::to_vec(value)?;
             let iter = self
                 .edge_property_value_manager
                 .iterate_for_value(name, value)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
+                .filter_map(move |item| match item {
+                    Ok((_, _, e)) => match self.edge_property_manager.has_value(&e, name, &value_json) {
+                        Ok(true) => Some(Ok(e)),
+                        Ok(false) => None,
+                        Err(err) => Some(Err(err)),
+                    },
+                    Err(err) => Some(Err(err)),
                 });
             Ok(Some(Box::new(iter)))
         } else {
diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 3ee29f2..012e1fb 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -340,6 +340,11 @@ impl<'a> VertexPropertyManager<'a> {
         }
     }
 
+    pub fn has_value(&self, vertex_id: Uuid, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
+        let value_bytes = self.db.get_cf(&self.cf, self.key(vertex_id, name))?;
+        Ok(value_bytes.is_some_and(|value_bytes| value_bytes == value_json))
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
@@ -454,6 +459,11 @@ impl<'a> EdgePropertyManager<'a> {
         }
     }
 
+    pub fn has_value(&self, edge: &models::Edge, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
+        let value_bytes = self.db.get_cf(&self.cf, self.key(edge, name))?;
+        Ok(value_bytes.is_some_and(|value_bytes| value_bytes == value_json))
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
-- 
2.43.0


From 7d8a63ab1754eaace6771d33bf241c6546e0b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 09/25] fix: make JSON number equality and ordering coherent
 with hashing

3 and 3.0 (and 0.0 and -0.0) were equal but hashed differently, so whether one
was found where the other was stored depended on the hash table. Comparing
large integers with floats through f64 also made equality intransitive:
2^53 and 2^53 + 1 both equalled 9007199254740992.0. Numbers are now compared
exactly, and representations that hash (and are stored) differently are
never equal.
---
 lib/src/models/json.rs | 60 ++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/lib/src/models/json.rs b/lib/src/models/json.rs
index 4e35657..6bed5a2 100644
--- a/lib/src/models/json.rs
+++ b/lib/src/models/json.rs
@@ -1,5 +1,4 @@
 use std::cmp::Ordering;
-use std::convert::TryFrom;
 use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
@@ -56,46 +55,33 @@ fn hash<H: Hasher>(value: &serde_json::Value, state: &mut H) {
     }
 }
 
+/// Compares numbers by their exact mathematical values. An integer and a float
+/// of the same value are different JSON values with different hashes, and so
+/// are the two float zeroes. The integer and the negative zero come first.
+fn number_partial_cmp(first: &serde_json::Number, second: &serde_json::Number) -> Option<Ordering> {
+    fn as_int(value: &serde_json::Number) -> Option<i128> {
+        value.as_i64().map(i128::from).or_else(|| value.as_u64().map(i128::from))
+    }
+
+    fn int_partial_cmp_float(int: i128, float: f64) -> Option<Ordering> {
+        // `as` saturates, so this is right for floats of any magnitude.
+        let ordering = int.cmp(&(float as i128)).then(0.0f64.partial_cmp(&float.fract())?);
+        Some(ordering.then(Ordering::Less))
+    }
+
+    match (as_int(first), as_int(second)) {
+        (Some(first), Some(second)) => Some(first.cmp(&second)),
+        (Some(first), None) => int_partial_cmp_float(first, second.as_f64()?),
+        (None, Some(second)) => int_partial_cmp_float(second, first.as_f64()?).map(Ordering::reverse),
+        (None, None) => Some(first.as_f64()?.total_cmp(&second.as_f64()?)),
+    }
+}
+
 fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<Ordering> {
     match (first, second) {
         (serde_json::Value::Null, serde_json::Value::Null) => Some(Ordering::Equal),
         (serde_json::Value::Bool(v1), serde_json::Value::Bool(v2)) => v1.partial_cmp(v2),
-        (serde_json::Value::Number(v1), serde_json::Value::Number(v2)) => {
-            if v1.is_i64() {
-                let v1 = v1.as_i64().unwrap();
-                if v2.is_i64() {
-                    v1.partial_cmp(&v2.as_i64().unwrap())
-                } else if v2.is_u64() {
-                    match i64::try_from(v2.as_u64().unwrap()) {
-                        Ok(v2) => v1.partial_cmp(&v2),
-                        Err(_) => Some(Ordering::Less),
-                    }
-                } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
-                }
-            } else if v1.is_u64() {
-                let v1 = v1.as_u64().unwrap();
-                if v2.is_i64() {
-                    match u64::try_from(v2.as_i64().unwrap()) {
-                        Ok(v2) => v1.partial_cmp(&v2),
-                        Err(_) => Some(Ordering::Greater),
-                    }
-                } else if v2.is_u64() {
-                    v1.partial_cmp(&v2.as_u64().unwrap())
-                } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
-                }
-            } else {
-                let v1 = v1.as_f64().unwrap();
-                if v2.is_i64() {
-                    v1.partial_cmp(&(v2.as_i64().unwrap() as f64))
-                } else if v2.is_u64() {
-                    v1.partial_cmp(&(v2.as_u64().unwrap() as f64))
-                } else {
-                    v1.partial_cmp(&v2.as_f64().unwrap())
-                }
-            }
-        }
+        (serde_json::Value::Number(v1), serde_json::Value::Number(v2)) => number_partial_cmp(v1, v2),
         (serde_json::Value::String(v1), serde_json::Value::String(v2)) => v1.partial_cmp(v2),
         (serde_json::Value::Array(v1), serde_json::Value::Array(v2)) => {
             partial_cmp_by(v1.iter(), v2.iter(), partial_cmp)
-- 
2.43.0


From db576146e629ce17324f30912d8217efddd12def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 10/25] fix: finish interrupted creation of rocksdb databases

If the process died while the column families of a new database were being
created, the directory could never be opened again. Missing column families
are now created on opening.
---
 lib/src/rdb/datastore.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index fde346a..2529bb4 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -407,13 +407,11 @@ impl RocksdbDatastore {
         let db = match DB::open_cf(&opts, path, CF_NAMES) {
             Ok(db) => db,
             Err(_) => {
-                let mut db = DB::open(&opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, &opts)?;
-                }
-
-                db
+                // Some or all of the column families may be missing, if the
+                // database is new or its creation was interrupted.
+                let mut opts = opts;
+                opts.create_missing_column_families(true);
+                DB::open_cf_with_opts(&opts, path, CF_NAMES.map(|cf_name| (cf_name, opts.clone())))?
             }
         };
 
@@ -437,13 +435,11 @@ impl RocksdbDatastore {
         let db = match DB::open_cf(opts, path, CF_NAMES) {
             Ok(db) => db,
             Err(_) => {
-                let mut db = DB::open(opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, opts)?;
-                }
-
-                db
+                // Some or all of the column families may be missing, if the
+                // database is new or its creation was interrupted.
+                let mut opts = opts.clone();
+                opts.create_missing_column_families(true);
+                DB::open_cf_with_opts(&opts, path, CF_NAMES.map(|cf_name| (cf_name, opts.clone())))?
             }
         };
 
-- 
2.43.0


From 0113145473db7d1b973f31218d8965e3cb0fd01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 11/25] fix: don't consider a property indexed if indexing it
 failed in rocksdb

When reading the existing values or writing the index failed, the property was
left in the set of indexed properties: queries on it succeeded with wrong
answers, and indexing it again did nothing.
---
 lib/src/rdb/datastore.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 2529bb4..f23a5f6 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -337,13 +337,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let mut indexed_properties = self.indexed_properties.write().unwrap();
-        if !indexed_properties.insert(name) {
+        if indexed_properties.contains(&name) {
             return Ok(());
         }
 
+        let mut new_indexed_properties = indexed_properties.clone();
+        new_indexed_properties.insert(name);
+
         let mut batch = WriteBatch::default();
         self.metadata_manager
-            .set_indexed_properties(&mut batch, &indexed_properties)?;
+            .set_indexed_properties(&mut batch, &new_indexed_properties)?;
 
         for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
             let vertex = item?;
@@ -362,6 +365,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         }
 
         self.db.write(batch)?;
+        *indexed_properties = new_indexed_properties;
         Ok(())
     }
 
-- 
2.43.0


From 31188e3e5362c40c99a190b36703bd54f7b17a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 12/25] fix: keep the type of existing vertices in rocksdb bulk
 inserts

Bulk inserting a vertex whose id exists overwrote its type, whereas creating
it otherwise, or bulk inserting it in the in-memory datastore, changes
nothing.
---
 lib/src/rdb/datastore.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index f23a5f6..2242a08 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -304,11 +304,15 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         // found and removed, as they're not in the database yet.
         let mut vertex_properties = HashMap::new();
         let mut edge_properties = HashMap::new();
+        let mut vertex_ids = HashSet::new();
 
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
-                    self.vertex_manager.create(&mut batch, vertex)?;
+                    // As with `create_vertex`, the first one wins
+                    if vertex_ids.insert(vertex.id) && !self.vertex_manager.exists(vertex.id)? {
+                        self.vertex_manager.create(&mut batch, vertex)?;
+                    }
                 }
                 BulkInsertItem::Edge(ref edge) => {
                     self.edge_manager.set(&mut batch, edge)?;
-- 
2.43.0


From 0c2e9d7240cc3ff2799f7b949d1b3a63561c6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 13/25] fix: serialize rocksdb writes that depend on what they
 read

---
 lib/src/rdb/datastore.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 2242a08..f16178d 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashMap, HashSet};
 use std::path::Path;
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, Mutex, RwLock};
 
 use super::managers::*;
 use crate::errors::Result;
@@ -22,6 +22,9 @@ const CF_NAMES: [&str; 8] = [
 
 pub struct RocksdbTransaction<'a> {
     db: &'a DB,
+    // Held by each write operation, from its first read of the database until
+    // its batch is written, so that no other write invalidates what it read.
+    write_lock: Arc<Mutex<()>>,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
     vertex_manager: VertexManager<'a>,
     edge_manager: EdgeManager<'a>,
@@ -207,6 +210,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> Result<()> {
+        let _write_guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -219,6 +223,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {
+        let _write_guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -233,6 +238,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> Result<()> {
+        let _write_guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -246,6 +252,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {
+        let _write_guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -272,6 +279,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_vertex(&mut self, vertex: &Vertex) -> Result<bool> {
+        let _write_guard = self.write_lock.lock().unwrap();
         if self.vertex_manager.exists(vertex.id)? {
             Ok(false)
         } else {
@@ -283,6 +291,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_edge(&mut self, edge: &Edge) -> Result<bool> {
+        let _write_guard = self.write_lock.lock().unwrap();
         if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
             Ok(false)
         } else {
@@ -296,6 +305,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     // We override the default `bulk_insert` implementation because further
     // optimization can be done by using `WriteBatch`s.
     fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
+        let _write_guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -340,6 +350,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
+        let _write_guard = self.write_lock.lock().unwrap();
         let mut indexed_properties = self.indexed_properties.write().unwrap();
         if indexed_properties.contains(&name) {
             return Ok(());
@@ -374,22 +385,30 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
+        let _write_guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for id in vertices.into_iter() {
-            self.vertex_property_manager
-                .set(&mut batch, &indexed_properties, id, name, value)?;
+            // It may have been deleted since it was selected
+            if self.vertex_manager.exists(id)? {
+                self.vertex_property_manager
+                    .set(&mut batch, &indexed_properties, id, name, value)?;
+            }
         }
         self.db.write(batch)?;
         Ok(())
     }
 
     fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<()> {
+        let _write_guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for edge in edges.into_iter() {
-            self.edge_property_manager
-                .set(&mut batch, &indexed_properties, &edge, name, value)?;
+            // It may have been deleted since it was selected
+            if self.edge_range_manager.contains(&edge)? {
+                self.edge_property_manager
+                    .set(&mut batch, &indexed_properties, &edge, name, value)?;
+            }
         }
         self.db.write(batch)?;
         Ok(())
@@ -400,6 +419,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 #[derive(Debug)]
 pub struct RocksdbDatastore {
     db: Arc<DB>,
+    write_lock: Arc<Mutex<()>>,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
 }
 
@@ -428,6 +448,7 @@ impl RocksdbDatastore {
 
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
+            write_lock: Arc::new(Mutex::new(())),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
         }))
     }
@@ -456,6 +477,7 @@ impl RocksdbDatastore {
 
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
+            write_lock: Arc::new(Mutex::new(())),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
         }))
     }
@@ -509,6 +531,7 @@ impl Datastore for RocksdbDatastore {
     fn transaction(&'_ self) -> Self::Transaction<'_> {
         RocksdbTransaction {
             db: &self.db,
+            write_lock: self.write_lock.clone(),
             indexed_properties: self.indexed_properties.clone(),
             vertex_manager: VertexManager::new(&self.db),
             edge_manager: EdgeManager::new(&self.db),
-- 
2.43.0


From c7fe6433041396e85d9863c74bee3d562153fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 14/25] fix: index stored values in rocksdb, not their
 unrounded originals

---
 lib/src/rdb/datastore.rs | 14 ++++++++------
 lib/src/rdb/managers.rs  | 22 ++++++++++++++--------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index f16178d..f93e37f 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -91,12 +91,13 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn vertex_ids_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Uuid>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
-            let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
+            // Values are indexed as they're read back from their stored text
+            let value: Json = serde_json::from_slice(&serde_json::to_vec(value)?)?;
+            let iter = self.vertex_property_value_manager.iterate_for_value(name, &value);
             let iter = self.vertex_ids_from_property_value_iterator(iter);
             // The index only contains hashes of values, which may collide
-            let value_json = serde_json::to_vec(value)?;
             let iter = iter.filter_map(move |item| match item {
-                Ok(id) => match self.vertex_property_manager.has_value(id, name, &value_json) {
+                Ok(id) => match self.vertex_property_manager.has_value(id, name, &value) {
                     Ok(true) => Some(Ok(id)),
                     Ok(false) => None,
                     Err(err) => Some(Err(err)),
@@ -162,13 +163,14 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
+            // Values are indexed as they're read back from their stored text
+            let value: Json = serde_json::from_slice(&serde_json::to_vec(value)?)?;
             // The index only contains hashes of values, which may collide
-            let value_json = serde_json::to_vec(value)?;
             let iter = self
                 .edge_property_value_manager
-                .iterate_for_value(name, value)
+                .iterate_for_value(name, &value)
                 .filter_map(move |item| match item {
-                    Ok((_, _, e)) => match self.edge_property_manager.has_value(&e, name, &value_json) {
+                    Ok((_, _, e)) => match self.edge_property_manager.has_value(&e, name, &value) {
                         Ok(true) => Some(Ok(e)),
                         Ok(false) => None,
                         Err(err) => Some(Err(err)),
diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 012e1fb..d90b4d8 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -340,9 +340,8 @@ impl<'a> VertexPropertyManager<'a> {
         }
     }
 
-    pub fn has_value(&self, vertex_id: Uuid, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
-        let value_bytes = self.db.get_cf(&self.cf, self.key(vertex_id, name))?;
-        Ok(value_bytes.is_some_and(|value_bytes| value_bytes == value_json))
+    pub fn has_value(&self, vertex_id: Uuid, name: models::Identifier, value: &models::Json) -> Result<bool> {
+        Ok(self.get(vertex_id, name)?.as_ref() == Some(value))
     }
 
     pub fn set(
@@ -359,10 +358,14 @@ impl<'a> VertexPropertyManager<'a> {
             self.delete(batch, indexed_properties, vertex_id, name)?;
         }
         let value_json = serde_json::to_vec(value)?;
+        // Index the value as it'll be read back, as that's what its index
+        // entry is looked up with when the property is overwritten or deleted.
+        // This also refuses values that couldn't be read back at all.
+        let stored_value = serde_json::from_slice(&value_json)?;
         batch.put_cf(&self.cf, &key, &value_json);
         if is_indexed {
             let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);
-            vertex_property_value_manager.set(batch, vertex_id, name, value);
+            vertex_property_value_manager.set(batch, vertex_id, name, &stored_value);
         }
         Ok(())
     }
@@ -459,9 +462,8 @@ impl<'a> EdgePropertyManager<'a> {
         }
     }
 
-    pub fn has_value(&self, edge: &models::Edge, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
-        let value_bytes = self.db.get_cf(&self.cf, self.key(edge, name))?;
-        Ok(value_bytes.is_some_and(|value_bytes| value_bytes == value_json))
+    pub fn has_value(&self, edge: &models::Edge, name: models::Identifier, value: &models::Json) -> Result<bool> {
+        Ok(self.get(edge, name)?.as_ref() == Some(value))
     }
 
     pub fn set(
@@ -478,10 +480,14 @@ impl<'a> EdgePropertyManager<'a> {
             self.delete(batch, indexed_properties, edge, name)?;
         }
         let value_json = serde_json::to_vec(value)?;
+        // Index the value as it'll be read back, as that's what its index
+        // entry is looked up with when the property is overwritten or deleted.
+        // This also refuses values that couldn't be read back at all.
+        let stored_value = serde_json::from_slice(&value_json)?;
         batch.put_cf(&self.cf, &key, &value_json);
         if is_indexed {
             let edge_property_value_manager = EdgePropertyValueManager::new(self.db);
-            edge_property_value_manager.set(batch, edge, name, value);
+            edge_property_value_manager.set(batch, edge, name, &stored_value);
         }
         Ok(())
     }
-- 
2.43.0


From 0c1fe7cb73c91892b3b0eadad398521bec323b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 15/25] fix: let the gRPC client receive query outputs of any
 size

---
 proto/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proto/src/client.rs b/proto/src/client.rs
index 035a3b2..b55eafa 100644
--- a/proto/src/client.rs
+++ b/proto/src/client.rs
@@ -89,7 +89,8 @@ impl Client {
     /// * `endpoint`: The server endpoint.
     pub async fn new(endpoint: Endpoint) -> Result<Self, ClientError> {
         let client = crate::ProtoClient::connect(endpoint).await?;
-        Ok(Client(client))
+        // Each output of a query is sent as one message, of any size
+        Ok(Client(client.max_decoding_message_size(usize::MAX)))
     }
 
     /// Pings the server.
-- 
2.43.0


From 7dcb6dcfcc7e9b7f3198a77aa3cfbc73eaf36fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 16/25] fix: reject unknown edge directions in gRPC queries

---
 proto/src/converters.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proto/src/converters.rs b/proto/src/converters.rs
index dcfe8ce..06188c6 100644
--- a/proto/src/converters.rs
+++ b/proto/src/converters.rs
@@ -17,6 +17,7 @@ pub enum ConversionError {
     Uuid { inner: UuidError },
     Validation { inner: ValidationError },
     NoneField { name: String },
+    UnknownEnumValue { name: String },
     UnexpectedResponseType,
 }
 
@@ -38,6 +39,7 @@ impl fmt::Display for ConversionError {
             ConversionError::Uuid { ref inner } => write!(f, "uuid conversion failed: {inner}"),
             ConversionError::Validation { ref inner } => write!(f, "validation conversion failed: {inner}"),
             ConversionError::NoneField { ref name } => write!(f, "proto field '{name}' should not be none"),
+            ConversionError::UnknownEnumValue { ref name } => write!(f, "proto field '{name}' has an unknown value"),
             ConversionError::UnexpectedResponseType => write!(f, "unexpected response type"),
         }
     }
@@ -300,12 +302,16 @@ impl TryInto<indradb::Query> for crate::Query {
             }
 
             crate::QueryVariant::Pipe(q) => {
-                let direction = q.direction().into();
+                // Don't use the generated getter, as it turns unknown values into the default
+                let direction =
+                    crate::EdgeDirection::try_from(q.direction).map_err(|_| ConversionError::UnknownEnumValue {
+                        name: "direction".to_string(),
+                    })?;
                 let limit = q.limit;
                 let t = q.t.map(|t| t.try_into()).transpose()?;
                 let inner = required_field("inner", q.inner)?;
                 indradb::Query::Pipe(indradb::PipeQuery {
-                    direction,
+                    direction: direction.into(),
                     limit,
                     t,
                     inner: Box::new((*inner).try_into()?),
-- 
2.43.0


From 48b1d5ec28d859ce45a19a0a6e7328032a3189b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 17/25] fix: read in-memory images with values of any depth

---
 lib/src/memory/datastore.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 3c2c117..1a769d6 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -439,7 +439,10 @@ impl MemoryDatastore {
         let path = path.into();
         let f = File::open(&path).map_err(RmpDecodeError::InvalidDataRead)?;
         let buf = BufReader::new(f);
-        let internal: InternalMemory = rmp_serde::from_read(buf)?;
+        let mut deserializer = rmp_serde::Deserializer::new(buf);
+        // Values of any depth can be written, so don't limit it for reads
+        deserializer.set_max_depth(usize::MAX);
+        let internal = InternalMemory::deserialize(&mut deserializer)?;
         Ok(Database::new(MemoryDatastore {
             internal: Arc::new(Mutex::new(internal)),
             path: Some(path),
-- 
2.43.0


From 460e5a18401b51a4fd038cee1718dcd67517c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 18/25] fix: keep unflushed contents when repairing a rocksdb
 database

---
 lib/src/rdb/datastore.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index f93e37f..9724435 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -490,6 +490,19 @@ impl RocksdbDatastore {
     /// * `path`: The file path to the rocksdb database.
     /// * `opts`: The rocksdb options used on datastore.
     pub fn repair<P: AsRef<Path>>(path: P, opts: &Options) -> Result<()> {
+        let path = path.as_ref();
+
+        // Rocksdb's repair drops the write-ahead log's contents of column
+        // families that have no table files yet. If the database can still be
+        // opened, write these contents to table files first.
+        let mut open_opts = opts.clone();
+        open_opts.create_if_missing(false);
+        if let Ok(db) = DB::open_cf(&open_opts, path, CF_NAMES) {
+            for cf_name in CF_NAMES {
+                db.flush_cf(db.cf_handle(cf_name).unwrap())?;
+            }
+        }
+
         DB::repair(opts, path)?;
         Ok(())
     }
-- 
2.43.0


From fa78b97be0554fac4413e6e9c546053a9c1a4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 19/25] fix: report an error when a vertex mapper panics

---
 plugins/host/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/host/src/util.rs b/plugins/host/src/util.rs
index 7898486..588aeb7 100644
--- a/plugins/host/src/util.rs
+++ b/plugins/host/src/util.rs
@@ -63,6 +63,8 @@ pub fn map<'a, M: VertexMapper>(txn: &(dyn indradb::Transaction<'a> + 'a), mappe
     let mut first_err = first_err.lock().unwrap();
     if first_err.is_some() {
         Err(first_err.take().unwrap())
+    } else if pool.panic_count() > 0 {
+        Err(Error::Other("a map operation panicked".into()))
     } else {
         Ok(())
     }
-- 
2.43.0


From cdf976795d0e2d1f3e4943b22da64e0480de9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 20/25] fix: compare identifiers by content, so that plugins
 share them with their host

---
 lib/src/models/identifiers.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/src/models/identifiers.rs b/lib/src/models/identifiers.rs
index abc494b..efa66f9 100644
--- a/lib/src/models/identifiers.rs
+++ b/lib/src/models/identifiers.rs
@@ -1,4 +1,5 @@
 use std::convert::TryFrom;
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
 
@@ -10,7 +11,7 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// A string that must be less than 256 characters long, and can only contain
 /// letters, numbers, dashes and underscores. This is used for vertex and edge
 /// types, as well as property names.
-#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]
+#[derive(Eq, Copy, Clone, Debug, Ord, PartialOrd)]
 pub struct Identifier(pub(crate) Intern<String>);
 
 impl Identifier {
@@ -52,6 +53,21 @@ impl Identifier {
     }
 }
 
+// Equality and hashes are determined by content rather than by the interned
+// pointer, because values are interned once per binary: a plugin library has
+// its own interned values, but shares identifiers with its host.
+impl PartialEq for Identifier {
+    fn eq(&self, other: &Self) -> bool {
+        self.0 == other.0 || self.as_str() == other.as_str()
+    }
+}
+
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state);
+    }
+}
+
 impl Default for Identifier {
     fn default() -> Self {
         Self(Intern::new("".to_string()))
-- 
2.43.0


From 6d667cfc2d02099dca01be664d382c2d73cb1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 21/25] fix: don't index values that nothing was set to

---
 lib/src/memory/datastore.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 1a769d6..b6d6688 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -380,6 +380,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
                 .insert((*vertex_id, name), value.clone());
         }
 
+        if vertex_ids.is_empty() {
+            // Don't leave a member-less value behind in the index.
+            return Ok(());
+        }
+
         if let Some(property_container) = self.internal.property_values.get_mut(&name) {
             let property_container = property_container.entry(value.clone()).or_insert_with(HashSet::new);
             for vertex_id in vertex_ids.into_iter() {
@@ -403,6 +408,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
                 .insert((edge.clone(), name), value.clone());
         }
 
+        if edges.is_empty() {
+            // Don't leave a member-less value behind in the index.
+            return Ok(());
+        }
+
         if let Some(property_container) = self.internal.property_values.get_mut(&name) {
             let property_container = property_container.entry(value.clone()).or_insert_with(HashSet::new);
             for edge in edges.into_iter() {
-- 
2.43.0


From 848a424e3251c546241e550d1f3efbbbb5e850e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 22/25] fix: validate deserialized identifiers

---
 lib/src/models/identifiers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/models/identifiers.rs b/lib/src/models/identifiers.rs
index efa66f9..d057bb9 100644
--- a/lib/src/models/identifiers.rs
+++ b/lib/src/models/identifiers.rs
@@ -6,7 +6,7 @@ use std::str::FromStr;
 use crate::errors::{ValidationError, ValidationResult};
 
 use internment::Intern;
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
 
 /// A string that must be less than 256 characters long, and can only contain
 /// letters, numbers, dashes and underscores. This is used for vertex and edge
@@ -112,8 +112,7 @@ impl<'de> Deserialize<'de> for Identifier {
         D: Deserializer<'de>,
     {
         let v: String = Deserialize::deserialize(deserializer)?;
-        let id = unsafe { Identifier::new_unchecked(v) };
-        Ok(id)
+        Identifier::new(v).map_err(D::Error::custom)
     }
 }
 
-- 
2.43.0


From 3abdd9268b7b151aef7a2e546a27b8c181747e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 23/25] fix: report panicking queries to gRPC clients

---
 proto/src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index fdd0451..dc0f657 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -232,7 +232,8 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
         let db = self.db.clone();
         let q: indradb::Query = map_conversion_result(request.into_inner().try_into())?;
         let (tx, rx) = mpsc::channel(CHANNEL_CAPACITY);
-        tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
+        let panic_tx = tx.clone();
+        let handle = tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
             Ok(output) => {
                 for output in output.into_iter() {
                     send(&tx, Ok(output.into()));
@@ -240,6 +241,12 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             }
             Err(err) => send(&tx, Err(err)),
         });
+        tokio::spawn(async move {
+            // Otherwise the stream would just end, as if all was well
+            if let Err(err) = handle.await {
+                let _ = panic_tx.send(Err(Status::internal(format!("{err}")))).await;
+            }
+        });
 
         Ok(Response::new(Box::pin(ReceiverStream::new(rx))))
     }
-- 
2.43.0


From 008ed37ce8bf69be00618acc360148fa6b7fc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 24/25] fix: flush the in-memory image to disk before renaming
 it

---
 lib/src/memory/datastore.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index b6d6688..53ee8fb 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -307,6 +307,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
                 buf.flush().map_err(|err| Error::Datastore(Box::new(err)))?;
             }
+            // Otherwise a power failure could leave an empty image behind
+            temp_path
+                .as_file()
+                .sync_all()
+                .map_err(|err| Error::Datastore(Box::new(err)))?;
             temp_path
                 .persist(persist_path)
                 .map_err(|err| Error::Datastore(Box::new(err)))?;
-- 
2.43.0


From bd4d7f71ec01af54e0d43d3c00307900ecb778b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:06 +0000
Subject: [PATCH 25/25] fix: plugin calls keep the server from answering
 anything else

They ran on the runtime's own threads, where they also waited for the
in-memory datastore's lock: as many long (or waiting) plugin calls as there
are such threads, and not even a ping was answered until they were done.
---
 proto/src/server.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index dc0f657..777ba7e 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -302,14 +302,19 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             indradb::Json::new(serde_json::Value::Null)
         };
 
-        if let Some(plugin) = self.plugins.entries.get(&request.name) {
+        if self.plugins.entries.contains_key(&request.name) {
             let db = self.db.clone();
-            let mut txn = db.datastore.transaction();
-            let response = {
-                plugin
+            let plugins = self.plugins.clone();
+            // Plugins can take long, or wait for others to finish, so they
+            // can't run on the threads that serve all other requests
+            let response = tokio::task::spawn_blocking(move || {
+                let mut txn = db.datastore.transaction();
+                plugins.entries[&request.name]
                     .call(&mut txn, arg)
-                    .map_err(|err| Status::internal(format!("{err}")))?
-            };
+                    .map_err(|err| Status::internal(format!("{err}")))
+            })
+            .await
+            .map_err(|err| Status::internal(format!("{err}")))??;
             Ok(Response::new(crate::ExecutePluginResponse {
                 value: Some(response.into()),
             }))
-- 
2.43.0

