From aa7d9d22cc865c4b399a6a7eb70bdded89832889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 01/37] fix: create a table and its columns in one catalog
 transaction

The table and its first version were committed before the columns were
inserted, so a crash, an error or a concurrent reader in between saw a
table without columns.
---
 src/repository/default.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index aa853d9..b926f69 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -254,8 +254,6 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
         // Create columns
         // TODO this breaks if we have more than (bind limit) columns
         if !schema.fields().is_empty() {
@@ -274,9 +272,11 @@ impl Repository for $repo {
             });
 
             let query = builder.build();
-            query.execute(&self.executor).await.map_err($repo::interpret_error)?;
+            query.execute(&mut *tx).await.map_err($repo::interpret_error)?;
         }
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok((new_table_id, new_version_id))
     }
 
-- 
2.43.0


From 16c3018b494f791813751f055218cb87a12fa060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 02/37] fix: create a table version and its columns in one
 catalog transaction

The new version was committed before the previous version's columns were
copied to it, and the previous version was looked up outside of the
transaction: a crash or an error in between left the latest version
without columns, and a concurrent delete could pull it away.
---
 src/repository/default.rs | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index b926f69..367ad7a 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -301,40 +301,40 @@ impl Repository for $repo {
         uuid: Uuid,
         version: i64,
     ) -> Result<TableVersionId, Error> {
-        // For now we only support linear history
-        let last_version_id: TableVersionId = sqlx::query(r#"SELECT max(table_version.id) AS id
-                FROM table_version
-                JOIN "table" ON table_version.table_id = "table".id
-                WHERE "table".uuid = $1"#)
-            .bind(uuid)
-            .fetch_one(&self.executor)
-            .await.map_err($repo::interpret_error)?
-            .try_get("id").map_err($repo::interpret_error)?;
-
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
 
+        // For now we only support linear history
         let new_version_id = sqlx::query(
-            "INSERT INTO table_version (table_id, version)
-            SELECT table_id, $1 FROM table_version WHERE id = $2
-            RETURNING (id)",
+            r#"INSERT INTO table_version (table_id, version)
+            SELECT table_id, $1 FROM table_version WHERE id = (
+                SELECT max(table_version.id)
+                FROM table_version
+                JOIN "table" ON table_version.table_id = "table".id
+                WHERE "table".uuid = $2
+            )
+            RETURNING (id)"#,
         )
         .bind(version)
-        .bind(last_version_id)
+        .bind(uuid)
         .fetch_one(&mut *tx)
         .await.map_err($repo::interpret_error)?
-        .try_get("id").map_err($repo::interpret_error)?;
-
-        tx.commit().await.map_err($repo::interpret_error)?;
+        .try_get::<TableVersionId, _>("id").map_err($repo::interpret_error)?;
 
         sqlx::query(
             "INSERT INTO table_column (table_version_id, name, type)
-            SELECT $2, name, type FROM table_column WHERE table_version_id = $1;",
+            SELECT $1, name, type FROM table_column WHERE table_version_id = (
+                SELECT max(prev.id)
+                FROM table_version prev
+                JOIN table_version latest ON prev.table_id = latest.table_id
+                WHERE latest.id = $1 AND prev.id < $1
+            )",
         )
-        .bind(last_version_id)
         .bind(new_version_id)
-        .execute(&self.executor)
+        .execute(&mut *tx)
         .await.map_err($repo::interpret_error)?;
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok(new_version_id)
     }
 
-- 
2.43.0


From 62604508b8310e2a066f30878de80776491a0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 03/37] fix: drop every function named in a DROP FUNCTION
 statement

All placeholders referred to the same parameter, so only the first (or
no) function was dropped.
---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 367ad7a..9a18a57 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -489,7 +489,7 @@ impl Repository for $repo {
             AND name IN ({})
             RETURNING id;
             "#,
-            func_names.iter().map(|_| "$2").collect::<Vec<_>>().join(", ")
+            (0..func_names.len()).map(|i| format!("${}", i + 2)).collect::<Vec<_>>().join(", ")
         );
 
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-- 
2.43.0


From 225e195a335fe917737c62796ef02796e1374b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 04/37] fix: keep the version that is served when deleting old
 table versions

delete_old_versions kept the version with the latest creation time, while
the SQLite catalog serves the one with the largest id; after the clock was
set back the served version got deleted.
---
 src/repository/default.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 9a18a57..2f3207e 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -284,10 +284,13 @@ impl Repository for $repo {
         &self,
         table_id: TableId,
     ) -> Result<u64, Error> {
-        let delete_result = sqlx::query(
-            "DELETE FROM table_version WHERE table_id = $1 AND id NOT IN \
-            (SELECT DISTINCT first_value(id) OVER (PARTITION BY table_id ORDER BY creation_time DESC, id DESC) FROM table_version)"
-        )
+        // Keep precisely the version that is being served as the latest one
+        let query = format!(
+            "{} DELETE FROM table_version WHERE table_id = $1 AND id NOT IN \
+            (SELECT id FROM desired_table_versions)",
+            $repo::QUERIES.latest_table_versions
+        );
+        let delete_result = sqlx::query(&query)
             .bind(table_id)
             .execute(&self.executor)
             .await
-- 
2.43.0


From a2804d1f5a2f44a55a36203b611b74d13bb42bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 05/37] fix: convert old column types after the schema
 migrations

The migration from data types to fields stores the old JSON format, so
columns of a database from before that migration stayed unreadable until
the second start.
---
 src/repository/default.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 2f3207e..5d98fa8 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -59,6 +59,11 @@ macro_rules! implement_repository {
 #[async_trait]
 impl Repository for $repo {
     async fn setup(&self) {
+        $repo::MIGRATOR
+            .run(&self.executor)
+            .await
+            .expect("error running migrations");
+
         // TODO remove the entire block a couple of releases past 0.5.7
         {
             // Migrate the old field JSON format to the canonical one
@@ -91,11 +96,6 @@ impl Repository for $repo {
                 }
             }
         }
-
-        $repo::MIGRATOR
-            .run(&self.executor)
-            .await
-            .expect("error running migrations");
     }
 
     async fn list_collections(
-- 
2.43.0


From af6f264fbf8780836f5dc44465a9e95bfd0b7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 06/37] fix: store the deletion status of a dropped table in
 its catalog form

The enum was bound by its Rust variant name, which the table's CHECK
constraint rejects, so every update of a dropped table failed.
---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 5d98fa8..bbb8ac8 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -577,7 +577,7 @@ impl Repository for $repo {
     async fn update_dropped_table(&self, uuid: Uuid, deletion_status: DroppedTableDeletionStatus) -> Result<(), Error> {
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
         sqlx::query("UPDATE dropped_table SET deletion_status = $1 WHERE uuid = $2 RETURNING uuid")
-            .bind(deletion_status)
+            .bind(deletion_status.to_string())
             .bind(uuid)
             .fetch_one(&mut *tx)
             .await.map_err($repo::interpret_error)?;
-- 
2.43.0


From bccfb4413839ba6d00fd0c14c19805c10bef50fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 07/37] fix: do not start with column types left unconverted by
 a catalog error

Errors of the conversion of old column types were ignored: the server
started and could not read the schemas of the tables concerned until it
was restarted. Fail the start-up, as a failing migration does.
---
 src/repository/default.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index bbb8ac8..ada788d 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -74,23 +74,23 @@ impl Repository for $repo {
             }
 
             // Fetch all rows from the table
-            let maybe_rows: Result<Vec<ColumnSchema>, sqlx::Error> = sqlx::query_as::<_, ColumnSchema>("SELECT id, type FROM table_column")
+            let rows: Vec<ColumnSchema> = sqlx::query_as::<_, ColumnSchema>("SELECT id, type FROM table_column")
                 .fetch_all(&self.executor)
-                .await;
-            if let Ok(rows) = maybe_rows {
-                for row in rows {
-                    // Load the `type` value using `arrow_integration_test::field_from_json`
-                    if let Ok(value) = serde_json::from_str::<serde_json::Value>(row.r#type.as_str()) {
-                        if let Ok(field) = arrow_integration_test::field_from_json(&value) {
-                            // Convert the `Field` to a `serde_json` representation
-                            if let Ok(field_json) = serde_json::to_string(&field) {
-                                // Update the table with the new `type` value
-                                let _ = sqlx::query("UPDATE table_column SET type = $1 WHERE id = $2")
-                                    .bind(field_json)
-                                    .bind(row.id)
-                                    .execute(&self.executor)
-                                    .await;
-                            }
+                .await
+                .expect("error reading table columns");
+            for row in rows {
+                // Load the `type` value using `arrow_integration_test::field_from_json`
+                if let Ok(value) = serde_json::from_str::<serde_json::Value>(row.r#type.as_str()) {
+                    if let Ok(field) = arrow_integration_test::field_from_json(&value) {
+                        // Convert the `Field` to a `serde_json` representation
+                        if let Ok(field_json) = serde_json::to_string(&field) {
+                            // Update the table with the new `type` value
+                            sqlx::query("UPDATE table_column SET type = $1 WHERE id = $2")
+                                .bind(field_json)
+                                .bind(row.id)
+                                .execute(&self.executor)
+                                .await
+                                .expect("error migrating table column type");
                         }
                     }
                 }
-- 
2.43.0


From ae06b89c8e6e85f0b73ba931dd0522b0bae91ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 08/37] fix: keep the reserved memory metric exact under
 concurrent reservations

Setting the gauge to the pool's total, read after the pool was changed, lets
a slower thread overwrite it with an older total, which then stays.
---
 src/memory_pool.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/memory_pool.rs b/src/memory_pool.rs
index 739eaad..b66ea95 100644
--- a/src/memory_pool.rs
+++ b/src/memory_pool.rs
@@ -90,17 +90,13 @@ impl MemoryPool for MemoryPoolMetrics {
 
     fn grow(&self, reservation: &MemoryReservation, additional: usize) {
         self.inner.grow(reservation, additional);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        self.metrics.memory_reserved.increment(additional as f64);
         Metrics::register_allocation(reservation, additional, true)
     }
 
     fn shrink(&self, reservation: &MemoryReservation, shrink: usize) {
         self.inner.shrink(reservation, shrink);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        self.metrics.memory_reserved.decrement(shrink as f64);
         Metrics::register_deallocation(reservation, shrink)
     }
 
@@ -110,9 +106,9 @@ impl MemoryPool for MemoryPoolMetrics {
         additional: usize,
     ) -> datafusion_common::Result<()> {
         let result = self.inner.try_grow(reservation, additional);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        if result.is_ok() {
+            self.metrics.memory_reserved.increment(additional as f64);
+        }
 
         Metrics::register_allocation(reservation, additional, result.is_ok());
 
-- 
2.43.0


From 9ec1c74920d79e1eac4d277b621b5f340ab173be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 09/37] fix: write the size of a WASM UDF's input into its four
 bytes only

It was written as eight bytes, past the end of the buffer the guest allocated
if the encoded arguments are shorter than four bytes.
---
 src/wasm_udf/wasm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 9b875be..25280e0 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -188,9 +188,10 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         let ptr: usize = udf_input_ptr.try_into().unwrap();
-        // write size of input buffer first
+        // write size of input buffer first (as an i32, not to run over the 4 bytes it has)
+        let size_prefix = (udf_input_buf.len() as i32).to_ne_bytes();
         self.memory
-            .write(&mut self.store, ptr, &udf_input_buf.len().to_ne_bytes())
+            .write(&mut self.store, ptr, &size_prefix)
             .map_err(|err| {
                 DataFusionError::Internal(format!(
                     "Error copying input buffer size to WASM memory: {err:?}"
-- 
2.43.0


From 11f41c5020477aaf2ded1a7a8e87e8ed10650ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 10/37] fix: decode DECIMAL results of WASM UDFs whose low half
 has its top bit set

This includes all negative values of less than 64 bits: -5 came back as
-5 - 2^64.
---
 src/wasm_udf/wasm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 25280e0..519e380 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -522,7 +522,8 @@ fn messagepack_decode_results(
                                 .ok_or(DataFusionError::Internal(format!("Decimal value high half expected to be integer, found {:?} instead", decimal_array[2])))?;
                             let low = decimal_array[3].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal value low half expected to be integer, found {:?} instead", decimal_array[3])))?;
-                            let value:i128 = (low as i128) + ((high as i128) << 64);
+                            // the low half holds the lower 64 bits, its sign bit is one of them
+                            let value:i128 = (low as u64 as i128) | ((high as i128) << 64);
                             Ok(value)
                         }),
                 )
-- 
2.43.0


From bb893a3883110aa5b8a0a7f48dbaba3a3cadbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 11/37] fix: evaluate WASM UDFs with a literal argument on an
 empty batch

The literal was taken for a batch of one row, and reading the first row of
the empty columns panicked.
---
 src/wasm_udf/wasm.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 519e380..1629b14 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -542,14 +542,15 @@ fn messagepack_decode_results(
 // This is an alternative variant of `datafusion::physical_plan::functions::columnar_values_to_array`,
 // which tries to align scalars with the length of any arrays in the input.
 fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<Vec<ArrayRef>> {
+    // The arrays' length, which may be zero; literals alone make up one row
     let inferred_length = args
         .iter()
-        .map(|v| match v {
-            ColumnarValue::Array(array) => array.len(),
-            ColumnarValue::Scalar(_) => 1,
+        .filter_map(|v| match v {
+            ColumnarValue::Array(array) => Some(array.len()),
+            ColumnarValue::Scalar(_) => None,
         })
         .max()
-        .unwrap_or(0);
+        .unwrap_or(1);
 
     args.iter()
         .map(|arg| arg.clone().into_array(inferred_length))
-- 
2.43.0


From a889166afabaf172b3ab392076f7d5320fc4f38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 12/37] fix: evaluate WASM UDFs that take no arguments

They panicked looking for the length of their first argument.
---
 src/wasm_udf/wasm.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 1629b14..7bc20bc 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -8,7 +8,7 @@ use datafusion::{
         array::{ArrayRef, Float32Array, Float64Array, Int32Array, Int64Array},
         datatypes::{DataType, TimeUnit},
     },
-    common::DataFusionError,
+    common::{DataFusionError, ScalarValue},
     logical_expr::{ScalarFunctionImplementation, ScalarUDF, Volatility},
 };
 
@@ -557,6 +557,15 @@ fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<Vec<ArrayRef>> {
         .collect::<Result<Vec<_>>>()
 }
 
+// A function of no arguments isn't told the number of rows, so its value is a scalar
+fn array_to_columnar_value(array: ArrayRef, is_scalar: bool) -> Result<ColumnarValue> {
+    if is_scalar {
+        ScalarValue::try_from_array(&array, 0).map(ColumnarValue::Scalar)
+    } else {
+        Ok(ColumnarValue::from(array))
+    }
+}
+
 fn make_scalar_function_wasm_messagepack(
     module_bytes: &[u8],
     function_name: &str,
@@ -592,8 +601,8 @@ fn make_scalar_function_wasm_messagepack(
 
         let args = columnar_values_to_array(args)?;
 
-        // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        // Length of the vectorized array (a function of no arguments has one value)
+        let array_len = args.first().map_or(1, |a| a.len());
 
         // Buffer for the results
         let mut encoded_results: Vec<Value> = Vec::with_capacity(array_len);
@@ -619,7 +628,7 @@ fn make_scalar_function_wasm_messagepack(
         }
 
         let array = messagepack_decode_results(&return_type, &encoded_results)?;
-        Ok(ColumnarValue::from(array))
+        array_to_columnar_value(array, args.is_empty())
     };
 
     Ok(Arc::new(inner))
@@ -682,8 +691,8 @@ fn make_scalar_function_from_wasm(
 
         let args = columnar_values_to_array(args)?;
 
-        // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        // Length of the vectorized array (a function of no arguments has one value)
+        let array_len = args.first().map_or(1, |a| a.len());
 
         // Buffer for the results
         let mut results: Vec<Val> = Vec::new();
@@ -761,7 +770,7 @@ fn make_scalar_function_from_wasm(
             ) as ArrayRef,
             _ => panic!("unexpected type"),
         };
-        Ok(ColumnarValue::from(array))
+        array_to_columnar_value(array, args.is_empty())
     };
 
     Ok(Arc::new(inner))
-- 
2.43.0


From 11e656c5c6720d5b8e83d3d3df986610e13cd9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 13/37] fix: fail the WASM UDF, not the server, on bad pointers
 and sizes from the guest

Negative pointers and sizes close to i32::MAX panicked, and a buffer of any
size the guest named was allocated before checking that the guest has it.
---
 src/wasm_udf/wasm.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 7bc20bc..f653b52 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -81,6 +81,15 @@ where
         })
 }
 
+// Size of a buffer for this many bytes and their size prefix
+fn buffer_size(size: usize) -> Result<i32> {
+    i32::try_from(size + SIZE_BYTE_COUNT).map_err(|e| {
+        DataFusionError::Internal(format!(
+            "Buffer of {size:?} bytes is too large for a WASM UDF: {e:?}"
+        ))
+    })
+}
+
 struct WasmMessagePackUDFInstance {
     store: Store<WasiCtx>,
     alloc: TypedFunc<i32, i32>,
@@ -128,7 +137,8 @@ impl WasmMessagePackUDFInstance {
     }
 
     fn read_udf_output(&mut self, udf_output_ptr: i32) -> Result<(Value, i32)> {
-        let ptr: usize = udf_output_ptr.try_into().unwrap();
+        // WASM addresses are unsigned
+        let ptr = udf_output_ptr as u32 as usize;
         let mut size_buffer = [0u8; SIZE_BYTE_COUNT];
         self.memory
             .read(&self.store, ptr, &mut size_buffer)
@@ -142,6 +152,13 @@ impl WasmMessagePackUDFInstance {
                 "Error interpreting output buffer size as i32: {e:?}"
             ))
         })?;
+        // don't take the guest's word for it: the buffer is in its memory, so can't be larger
+        let memory_size = self.memory.data_size(&self.store);
+        if size > memory_size {
+            return Err(DataFusionError::Internal(format!(
+                "Output buffer size {size:?} exceeds the UDF's memory ({memory_size:?} bytes)"
+            )));
+        }
         let mut output_buffer = vec![0_u8; size];
         self.memory
             .read(
@@ -161,8 +178,7 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        let result: (Value, i32) = (output, (size + SIZE_BYTE_COUNT).try_into().unwrap());
-        Ok(result)
+        Ok((output, buffer_size(size)?))
     }
 
     fn write_udf_input(&mut self, input: &Value) -> Result<(i32, i32)> {
@@ -177,17 +193,17 @@ impl WasmMessagePackUDFInstance {
             })?;
         // Total input size will be serialized messagepack bytes prepended by the
         // size of the serialized input (one i32 == 4 bytes)
-        let udf_input_size: usize = udf_input_buf.len() + SIZE_BYTE_COUNT;
+        let udf_input_size = buffer_size(udf_input_buf.len())?;
         // allocate WASM memory for input buffer
         let udf_input_ptr = self
             .alloc
-            .call(&mut self.store, udf_input_size.try_into().unwrap())
+            .call(&mut self.store, udf_input_size)
             .map_err(|e| {
                 DataFusionError::Internal(format!(
                     "Error allocating input buffer in WASM memory: {e:?}"
                 ))
             })?;
-        let ptr: usize = udf_input_ptr.try_into().unwrap();
+        let ptr = udf_input_ptr as u32 as usize;
         // write size of input buffer first (as an i32, not to run over the 4 bytes it has)
         let size_prefix = (udf_input_buf.len() as i32).to_ne_bytes();
         self.memory
@@ -210,7 +226,7 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        Ok((udf_input_ptr, udf_input_size.try_into().unwrap()))
+        Ok((udf_input_ptr, udf_input_size))
     }
 
     pub fn call(&mut self, input: Vec<Value>) -> Result<Value> {
-- 
2.43.0


From 531294d8362bddb077f1cbf2f4133533bd7e81c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 14/37] fix: report arguments and results a WASM function was
 not declared with as errors

A wrong number of arguments, a result of another type and a type that plain
WASM functions do not support each panicked.
---
 src/wasm_udf/wasm.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index f653b52..e9cbfb6 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -703,7 +703,12 @@ fn make_scalar_function_from_wasm(
             })?;
 
         // this is guaranteed by DataFusion based on the function's signature.
-        assert_eq!(args.len(), input_types.len());
+        if args.len() != input_types.len() {
+            return Err(DataFusionError::Internal(format!(
+                "Wrong number of arguments for function {:?}: expected {:?}, received {:?}",
+                function_name, input_types.len(), args.len()
+            )));
+        }
 
         let args = columnar_values_to_array(args)?;
 
@@ -756,33 +761,37 @@ fn make_scalar_function_from_wasm(
         }
 
         // Convert the results back into Arrow (Arc<dyn Array>)
-        // These functions panic on type mismatches, which shouldn't happen because
-        // we pre-validated them above (unless the function returns a different type
-        // than it advertised)
+        // Type mismatches happen if the function returns a different type than it was
+        // declared with
+        let type_mismatch = |r: &Val| {
+            DataFusionError::Execution(format!(
+                "Function {function_name:?} returned {r:?} instead of a value of type {return_type:?}"
+            ))
+        };
         let array = match return_type {
             ValType::I32 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_i32())
-                    .collect::<Int32Array>(),
+                    .map(|r| r.i32().ok_or_else(|| type_mismatch(r)))
+                    .collect::<Result<Int32Array>>()?,
             ) as ArrayRef,
             ValType::I64 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_i64())
-                    .collect::<Int64Array>(),
+                    .map(|r| r.i64().ok_or_else(|| type_mismatch(r)))
+                    .collect::<Result<Int64Array>>()?,
             ) as ArrayRef,
             ValType::F32 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_f32())
-                    .collect::<Float32Array>(),
+                    .map(|r| r.f32().ok_or_else(|| type_mismatch(r)))
+                    .collect::<Result<Float32Array>>()?,
             ) as ArrayRef,
             ValType::F64 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_f64())
-                    .collect::<Float64Array>(),
+                    .map(|r| r.f64().ok_or_else(|| type_mismatch(r)))
+                    .collect::<Result<Float64Array>>()?,
             ) as ArrayRef,
             _ => panic!("unexpected type"),
         };
@@ -811,8 +820,8 @@ pub fn create_udf_from_wasm(
         CreateFunctionLanguage::Wasm => {
             let converted_input_types = input_types
                 .iter()
-                .map(|t| get_wasm_type(t).unwrap())
-                .collect();
+                .map(get_wasm_type)
+                .collect::<Result<_>>()?;
             make_scalar_function_from_wasm(
                 module_bytes,
                 function_name,
-- 
2.43.0


From eaf920ff11b5a151ac0ae8718f96270db85e3324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 15/37] fix: keep cached chunks and range reads at the end of
 an object apart

Bytes of the last chunk were also cached for the chunks past the end of the
object, empty ranges at offset 0 underflowed and a range starting past the
last byte of the last chunk panicked.
---
 src/object_store/cache.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 5b045de..413aea9 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -516,11 +516,13 @@ impl CachingObjectStore {
 
                 for key in &chunk_batch {
                     // Split the next chunk from the batch
-                    let data = if batch_data.len() < self.min_fetch_size as usize {
-                        batch_data.clone()
-                    } else {
-                        batch_data.split_to(self.min_fetch_size as usize)
-                    };
+                    let data = batch_data
+                        .split_to(batch_data.len().min(self.min_fetch_size as usize));
+
+                    // Nothing to cache for chunks past the end of the object
+                    if data.is_empty() {
+                        break;
+                    }
 
                     self.cache_chunk_data(key.clone(), data).await;
                 }
@@ -663,6 +665,10 @@ impl ObjectStore for CachingObjectStore {
             .increment((range.end - range.start).try_into().unwrap());
 
         debug!("{location}-{range:?} get_range");
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         // Expand the range to the next max_fetch_size (+ alignment)
         let start_chunk = range.start / self.min_fetch_size as usize;
         // The final chunk to fetch (inclusively). E.g. with min_fetch_size = 16:
@@ -676,6 +682,13 @@ impl ObjectStore for CachingObjectStore {
 
         // Finally trim away the expanded range from the chunks that are outside the requested range
         let offset = range.start - start_chunk * self.min_fetch_size as usize;
+        if offset >= data.len() {
+            return Err(object_store::Error::Generic {
+                store: "CachingObjectStore",
+                source: format!("Range {range:?} starts beyond the end of {location}")
+                    .into(),
+            });
+        }
         data.advance(offset);
         data.truncate(range.end - range.start);
         debug!("{location}-{range:?} return");
-- 
2.43.0


From a57d78651ef21da953b20f019aa1c6f70c12fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:23 +0000
Subject: [PATCH 16/37] fix: write cache files under a temporary name and count
 their users

A failed write left a truncated file which a later write of the same chunk
took for complete, a reader could see a half-written one, and the eviction of
an old entry of a chunk removed the file the new entry pointed to.
---
 src/object_store/cache.rs | 55 +++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 413aea9..24e9d4d 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -15,9 +15,11 @@ use object_store::{
     PutMultipartOpts, PutOptions, PutPayload, PutResult,
 };
 use tempfile::TempDir;
+use tokio::sync::Mutex;
 use tokio::time::Instant;
 use tracing::{debug, error, warn};
 
+use std::collections::HashMap;
 use std::fmt::Display;
 use std::fmt::{Debug, Formatter};
 
@@ -27,6 +29,7 @@ use std::ops::Range;
 use std::path::{Path, PathBuf};
 
 use moka::policy::EvictionPolicy;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 
@@ -38,32 +41,64 @@ pub const DEFAULT_CACHE_ENTRY_TTL: Duration = Duration::from_secs(3 * 60);
 struct CacheFileManager {
     base_path: PathBuf,
     metrics: CachingObjectStoreMetrics,
+    // Number of cache values pointing to each file: the value of a chunk that gets evicted (or
+    // replaced) and fetched again can briefly co-exist with the previous one, so the file must
+    // go only with the last of them.
+    references: Mutex<HashMap<PathBuf, usize>>,
+    // Used to make the names of temporary files unique
+    writes: AtomicU64,
 }
 
 impl CacheFileManager {
     pub fn new(base_path: PathBuf, metrics: CachingObjectStoreMetrics) -> Self {
-        Self { base_path, metrics }
+        Self {
+            base_path,
+            metrics,
+            references: Default::default(),
+            writes: Default::default(),
+        }
     }
 
+    /// Persist the data for a cache key, adding a reference to the file (released through
+    /// `remove_file`). The file appears under its name only once it is complete.
     async fn write_file(&self, cache_key: &CacheKey, data: Bytes) -> io::Result<PathBuf> {
         let mut path = self.base_path.to_path_buf();
         path.push(cache_key.as_filename());
 
-        // TODO: when does this happen?
-        if path.exists() {
+        if let Some(count) = self.references.lock().await.get_mut(&path) {
             debug!("{cache_key:?} file already exists, skipping write");
             self.metrics.double_write_errors.increment(1);
-            return Ok(path.clone());
+            *count += 1;
+            return Ok(path);
         }
 
         let start = Instant::now();
-        tokio::fs::write(&path, data.as_ref()).await?;
+        let write = self.writes.fetch_add(1, Ordering::Relaxed);
+        let tmp_path = path.with_extension(format!("{write}.tmp"));
+        if let Err(e) = self.write_and_rename(&tmp_path, &path, &data).await {
+            let _ = tokio::fs::remove_file(&tmp_path).await;
+            return Err(e);
+        }
 
         debug!("Written data for {:?} to {:?}", cache_key, path);
         self.metrics.log_cache_disk_write(start, data.len());
         Ok(path)
     }
 
+    async fn write_and_rename(
+        &self,
+        tmp_path: &Path,
+        path: &Path,
+        data: &Bytes,
+    ) -> io::Result<()> {
+        tokio::fs::write(tmp_path, data.as_ref()).await?;
+
+        let mut references = self.references.lock().await;
+        tokio::fs::rename(tmp_path, path).await?;
+        *references.entry(path.to_path_buf()).or_default() += 1;
+        Ok(())
+    }
+
     async fn read_file(&self, path: impl AsRef<Path>) -> io::Result<Bytes> {
         let start = Instant::now();
         tokio::fs::read(path).await.map(|v| {
@@ -72,7 +107,17 @@ impl CacheFileManager {
         })
     }
 
+    /// Release a reference to the file, and remove it if that was the last one
     async fn remove_file(&self, path: impl AsRef<Path> + Debug) -> io::Result<()> {
+        let mut references = self.references.lock().await;
+        if let Some(count) = references.get_mut(path.as_ref())
+            && *count > 1
+        {
+            *count -= 1;
+            return Ok(());
+        }
+
+        references.remove(path.as_ref());
         tokio::fs::remove_file(path.as_ref()).await?;
         debug!("Removed cached data at {:?}", path);
 
-- 
2.43.0


From eda9b6d348ace1358c2549c6ed893b892d4aee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 17/37] fix: write nothing to the object cache's disk when its
 capacity is 0

The cache library drops every entry of a cache without capacity and does not
tell the eviction listener, so the files written for them were never removed.
---
 src/object_store/cache.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 24e9d4d..d9be881 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -585,6 +585,12 @@ impl CachingObjectStore {
     }
 
     async fn cache_chunk_data(&self, key: CacheKey, data: Bytes) {
+        // With no capacity nothing is admitted to the cache, and so nothing would ever be evicted
+        // and removed from the disk either.
+        if self.max_cache_size == 0 {
+            return;
+        }
+
         // Cache the memory value
         let entry = self
             .cache
-- 
2.43.0


From a4cc89b0c824afdd4603399246350eb9c7ba5ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:51 +0000
Subject: [PATCH 18/37] fix: cache entries left in memory, without a file, when
 the read adding them was cancelled

---
 src/object_store/cache.rs | 85 +++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index d9be881..9f4a122 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -591,47 +591,52 @@ impl CachingObjectStore {
             return;
         }
 
-        // Cache the memory value
-        let entry = self
-            .cache
-            .entry_by_ref(&key)
-            .or_insert(CacheValue::Memory(data.clone()))
-            .await;
-
-        // Record the cache capacity here (weighted_size reads a variable and
-        // doesn't scan the cache, so this is a lightweight operation)
-        // Also clone the metric pointer so that we can update it once again once we
-        // wrote it to disk / invalidated for maximum precision.
+        let cache = self.cache.clone();
+        let file_manager = self.file_manager.clone();
         let cache_usage = self.metrics.cache_usage.clone();
-        cache_usage.set(self.cache.weighted_size() as f64);
-
-        // Finally trigger persisting to disk
-        if entry.is_fresh() {
-            let cache = self.cache.clone();
-            let file_manager = self.file_manager.clone();
-            tokio::spawn(async move {
-                // Run pending tasks to avert eviction races.
-                cache.run_pending_tasks().await;
-                let size = data.len();
-                match file_manager.write_file(&key, data).await {
-                    Ok(path) => {
-                        // Write task completed successfully, replace the in-memory cache entry
-                        // with the file-pointer one.
-                        debug!("Upserting file pointer for {key:?} into the cache");
-                        let value = CacheValue::File(path, size);
-                        cache.insert(key, value).await;
-                    }
-                    Err(err) => {
-                        // Write task failed, remove the cache entry; we could also defer that to
-                        // TTL/LRU eviction, but then we risk ballooning the memory usage.
-                        warn!("Invalidating cache entry for {key:?}; failed writing to a file: {err}");
-                        file_manager.metrics.cache_file_write_errors.increment(1);
-                        cache.invalidate(&key).await;
-                    }
-                };
-                cache_usage.set(cache.weighted_size() as f64);
-            });
-        }
+
+        // Add the entry from a separate task: if the caller gets cancelled half way through (e.g.
+        // the query was given up), the memory value mustn't be left without its write task below.
+        let insert = tokio::spawn(async move {
+            // Cache the memory value
+            let entry = cache
+                .entry_by_ref(&key)
+                .or_insert(CacheValue::Memory(data.clone()))
+                .await;
+
+            // Record the cache capacity here (weighted_size reads a variable and
+            // doesn't scan the cache, so this is a lightweight operation)
+            // The write task will update it once again once it wrote the value to disk /
+            // invalidated it for maximum precision.
+            cache_usage.set(cache.weighted_size() as f64);
+
+            // Finally trigger persisting to disk
+            if entry.is_fresh() {
+                tokio::spawn(async move {
+                    // Run pending tasks to avert eviction races.
+                    cache.run_pending_tasks().await;
+                    let size = data.len();
+                    match file_manager.write_file(&key, data).await {
+                        Ok(path) => {
+                            // Write task completed successfully, replace the in-memory cache entry
+                            // with the file-pointer one.
+                            debug!("Upserting file pointer for {key:?} into the cache");
+                            let value = CacheValue::File(path, size);
+                            cache.insert(key, value).await;
+                        }
+                        Err(err) => {
+                            // Write task failed, remove the cache entry; we could also defer that to
+                            // TTL/LRU eviction, but then we risk ballooning the memory usage.
+                            warn!("Invalidating cache entry for {key:?}; failed writing to a file: {err}");
+                            file_manager.metrics.cache_file_write_errors.increment(1);
+                            cache.invalidate(&key).await;
+                        }
+                    };
+                    cache_usage.set(cache.weighted_size() as f64);
+                });
+            }
+        });
+        let _ = insert.await;
     }
 }
 
-- 
2.43.0


From 07175b0f849b0b35b9b4320daa46f1cb20cf3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:56 +0000
Subject: [PATCH 19/37] fix: flush a queue whose rows were all inserted and
 deleted again, instead of panicking

---
 src/sync/planner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index e60dd17..15b3689 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -569,7 +569,8 @@ impl SeafowlSyncPlanner {
             (Some(old_pk_q), Some(new_pk_q)) => old_pk_q.or(new_pk_q),
             (Some(old_pk_q), None) => old_pk_q,
             (None, Some(new_pk_q)) => new_pk_q,
-            _ => panic!("There can be no situation without either old or new PKs"),
+            // All rows were temporary (inserted and deleted again), nothing is affected
+            (None, None) => return Ok(vec![]),
         };
 
         let prune_expr = create_physical_expr(
-- 
2.43.0


From 4c51295fc6699a69890a8da12e12bb7d68e6ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:06 +0000
Subject: [PATCH 20/37] fix: squash each column by its own Changed flag, not by
 the first one's

---
 src/sync/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 39d8e7e..aeac806 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -209,7 +209,7 @@ pub(super) fn squash_batches(
                 }
                 ColumnRole::Changed => {
                     // Insert the indices for both this column...
-                    indices.insert(col_id, &changed_indices[0]);
+                    indices.insert(col_id, &changed_indices[changed_pos]);
 
                     // ... as well as for the actual changed Value column
                     let changed_col_id = schema
@@ -221,7 +221,7 @@ pub(super) fn squash_batches(
                                 .name(),
                         )
                         .expect("Field exists");
-                    indices.insert(changed_col_id, &changed_indices[0]);
+                    indices.insert(changed_col_id, &changed_indices[changed_pos]);
                     changed_pos += 1;
                 }
                 ColumnRole::Value => {
-- 
2.43.0


From 46674cf9e2d086a03799a508753423f3b9268c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:03 +0000
Subject: [PATCH 21/37] fix: squash changes that leave no rows when there are
 Changed columns

---
 src/sync/utils.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index aeac806..ba893ce 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -11,7 +11,7 @@ use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
 use datafusion_common::{DataFusionError, Result};
 use datafusion_expr::{col, lit, Accumulator, Expr};
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
 
@@ -168,7 +168,8 @@ pub(super) fn squash_batches(
     let (mut old_pks, mut new_pks, mut changed_rows) = (
         Vec::with_capacity(rows),
         Vec::with_capacity(rows),
-        VecDeque::with_capacity(rows),
+        // One vector per `Changed` column, even if there turn out to be no rows at all
+        vec![Vec::with_capacity(rows); changed.len()],
     );
     for (id, (old_pk, new_pk, changed_row)) in column_rows.into_iter().enumerate() {
         if temp_rows.contains(&id) {
@@ -178,11 +179,8 @@ pub(super) fn squash_batches(
 
         old_pks.push(old_pk);
         new_pks.push(new_pk);
-        for (idx, changed_row) in changed_row.iter().enumerate() {
-            match changed_rows.get_mut(idx) {
-                None => changed_rows.push_back(vec![*changed_row]),
-                Some(v) => v.push(*changed_row),
-            };
+        for (rows, changed_row) in changed_rows.iter_mut().zip(changed_row) {
+            rows.push(changed_row);
         }
     }
 
@@ -190,8 +188,8 @@ pub(super) fn squash_batches(
     let old_pk_indices = UInt64Array::from(old_pks);
     let new_pk_indices = UInt64Array::from(new_pks);
     let changed_indices = changed_rows
-        .iter()
-        .map(|rows| UInt64Array::from(rows.clone()))
+        .into_iter()
+        .map(UInt64Array::from)
         .collect::<Vec<_>>();
     let mut changed_pos = 0;
     let mut indices: HashMap<usize, &UInt64Array> = HashMap::new();
-- 
2.43.0


From a206bcf0b8d0b1f7106ac2e7803094153f88e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:11 +0000
Subject: [PATCH 22/37] fix: compare all primary key columns when telling moved
 rows from updated ones

---
 src/sync/planner.rs | 48 ++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index 15b3689..7f5c42d 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -293,41 +293,57 @@ impl SeafowlSyncPlanner {
         sync_schema: &SyncSchema,
         sync_df: DataFrame,
     ) -> SyncResult<(SyncSchema, DataFrame)> {
-        // Pick the first Old/New PK for constructing the cases below
-        let (old_pk, new_pk) = sync_schema
+        // Pair up the Old/New PKs for constructing the cases below
+        let pks = sync_schema
             .columns()
             .iter()
-            .find_map(|sc| {
-                if sc.role() == ColumnRole::OldPk {
-                    let old_name = sc.field().name();
-                    let new_name = sync_schema
-                        .column(sc.name(), ColumnRole::NewPk)
-                        .unwrap()
-                        .field()
-                        .name();
-                    Some((col(old_name), col(new_name)))
-                } else {
-                    None
-                }
+            .filter(|sc| sc.role() == ColumnRole::OldPk)
+            .map(|sc| {
+                let old_name = sc.field().name();
+                let new_name = sync_schema
+                    .column(sc.name(), ColumnRole::NewPk)
+                    .unwrap()
+                    .field()
+                    .name();
+                (col(old_name), col(new_name))
             })
+            .collect::<Vec<_>>();
+
+        // It's enough to look at the first PK column when checking for NULLs, since either all or
+        // none of the PK columns are NULL
+        let (old_pk, new_pk) = pks
+            .first()
+            .cloned()
             .expect("At least 1 old PK column must exist");
 
         // Filter out any temp rows
         let sync_df = sync_df
             .filter(old_pk.clone().is_null().and(new_pk.clone().is_null()).not())?;
 
+        // The PK is preserved if all of the columns are, and changed if any of them is
+        let pks_equal = pks
+            .iter()
+            .map(|(old_pk, new_pk)| old_pk.clone().eq(new_pk.clone()))
+            .reduce(Expr::and)
+            .expect("At least 1 old PK column must exist");
+        let pks_differ = pks
+            .iter()
+            .map(|(old_pk, new_pk)| old_pk.clone().not_eq(new_pk.clone()))
+            .reduce(Expr::or)
+            .expect("At least 1 old PK column must exist");
+
         // Construct the conditions for all possible 4 cases that we want to normalize
         let insert = old_pk.clone().is_null().and(new_pk.clone().is_not_null());
         let pk_preserving_update = old_pk
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().eq(new_pk.clone()));
+            .and(pks_equal);
         let pk_changing_update = old_pk
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().not_eq(new_pk.clone()));
+            .and(pks_differ);
 
         let mut projection = vec![];
         let mut unnest_cols = vec![];
-- 
2.43.0


From 9eb4e0ea54ffddd480344cf7689f91124ed6e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 23/37] fix: sync schemas with different numbers of columns are
 not compatible

---
 src/sync/schema/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sync/schema/mod.rs b/src/sync/schema/mod.rs
index 03342d0..d6ca122 100644
--- a/src/sync/schema/mod.rs
+++ b/src/sync/schema/mod.rs
@@ -181,14 +181,16 @@ impl SyncSchema {
     // This is a shallower check than the equality check, since it checks for the sync column roles,
     // names, data types and order (and doesn't inspect the underlying arrows field equality).
     pub fn is_compatible_with(&self, other: &SyncSchema) -> bool {
-        self.columns()
-            .iter()
-            .zip(other.columns().iter())
-            .all(|(this, other)| {
-                this.name == other.name
-                    && this.role == other.role
-                    && this.field().data_type() == other.field().data_type()
-            })
+        self.columns().len() == other.columns().len()
+            && self
+                .columns()
+                .iter()
+                .zip(other.columns().iter())
+                .all(|(this, other)| {
+                    this.name == other.name
+                        && this.role == other.role
+                        && this.field().data_type() == other.field().data_type()
+                })
     }
 }
 
-- 
2.43.0


From c9ab148c2249de3b2e541199ac14d2de577968a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 24/37] fix: lower the gauge of rows in memory when squashing
 removes rows

---
 src/sync/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 46e99bd..202d87d 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -556,7 +556,7 @@ impl SeafowlDataSyncWriter {
                     .squashed_rows
                     .increment(old_rows.saturating_sub(rows) as u64);
                 self.metrics.in_memory_bytes.decrement(size_delta as f64);
-                self.metrics.in_memory_rows.increment(rows_delta as f64);
+                self.metrics.in_memory_rows.decrement(rows_delta as f64);
 
                 self.size -= old_size;
                 self.size += size;
-- 
2.43.0


From 8189dd7511e94204303242a64c41c7f4d1ee9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 25/37] fix: do not report a failed flush as a failure to
 accept the sync message

---
 src/frontend/flight/handler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/frontend/flight/handler.rs b/src/frontend/flight/handler.rs
index 36287b9..eaf6ff7 100644
--- a/src/frontend/flight/handler.rs
+++ b/src/frontend/flight/handler.rs
@@ -17,7 +17,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::{Mutex, RwLock};
 use tonic::{Request, Status};
-use tracing::{debug, error, info};
+use tracing::{debug, error, info, warn};
 use url::Url;
 
 use crate::context::SeafowlContext;
@@ -214,7 +214,12 @@ impl SeafowlFlightHandler {
                     batches,
                 )?;
 
-                sync_writer.flush().await?;
+                // The message has been accepted by now; reporting an error would lead the caller to
+                // send it again, and so to duplicate changes. What couldn't be flushed remains in
+                // memory, and the flush is attempted again upon the next message or flush task run.
+                if let Err(e) = sync_writer.flush().await {
+                    warn!("Error flushing syncs: {e}");
+                }
 
                 let (mem_seq, dur_seq) = sync_writer.stored_sequences(&cmd.origin);
                 Ok(DataSyncResponse {
-- 
2.43.0


From fadc012bb272a7b6de2fe00fcd27e86a5eaeb502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 26/37] fix: advance the durable sequence when a transaction
 ends with all its data flushed

---
 src/sync/writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 202d87d..3bfa2a7 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -283,6 +283,9 @@ impl SeafowlDataSyncWriter {
         if let Some(seq) = sequence_number {
             self.metrics.sequence_memory(&origin, seq);
             self.origin_memory.insert(origin, seq);
+
+            // All data of this transaction may have been flushed already
+            self.advance_durable();
         }
 
         Ok(())
-- 
2.43.0


From 477067619a9f3c826fe46bcf7ef9a44e515f51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:58 +0000
Subject: [PATCH 27/37] fix: pair old and new primary key columns by name when
 squashing

---
 src/sync/utils.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index ba893ce..61b685a 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -81,7 +81,22 @@ pub(super) fn squash_batches(
     };
 
     let (old_pk_cols, (sort_fields, nulls)) = columns(ColumnRole::OldPk);
-    let (new_pk_cols, _) = columns(ColumnRole::NewPk);
+    // Take the new PK columns in the order of the old ones, which may be different in the schema
+    let new_pk_cols = sync_schema
+        .columns()
+        .iter()
+        .filter(|col| col.role() == ColumnRole::OldPk)
+        .map(|old_pk| {
+            sync_schema
+                .columns()
+                .iter()
+                .position(|col| {
+                    col.role() == ColumnRole::NewPk && col.name() == old_pk.name()
+                })
+                .map(|col_id| batch.column(col_id).clone())
+                .expect("Old and new PK columns are the same")
+        })
+        .collect::<Vec<ArrayRef>>();
 
     // NB: we must use the same row converter in order to compare fields, or else the comparison
     // might not make sense:
-- 
2.43.0


From a7bd29f0f7efbfdd72a1e5dd7aea689c2ce07613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:27 +0000
Subject: [PATCH 28/37] fix: append nothing to a sync item whose batch is
 squashed already

---
 src/sync/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 3bfa2a7..9d72600 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -232,13 +232,15 @@ impl SeafowlDataSyncWriter {
                 .and_modify(|entry| {
                     let prev_item = entry.syncs.last_mut().unwrap();
                     let (_, prev_rows) = get_size_and_rows(&prev_item.data);
-                    if prev_item.sync_schema.is_compatible_with(&sync_schema)
+                    // NB: the changes in a squashed batch take effect at once rather than one after
+                    // the other, so nothing can be appended to be squashed together with them.
+                    if !prev_item.is_squashed
+                        && prev_item.sync_schema.is_compatible_with(&sync_schema)
                         && prev_rows + sync_rows <= MAX_ROWS_PER_SYNC
                     {
                         debug!("{}: Appending batch with schema {} to existing sync collection with {} row(s), schema {}", &url, sync_schema, prev_rows, prev_item.sync_schema);
                         // Just append to the last item if the sync schema matches and the row count
                         // is smaller than a predefined value
-                        prev_item.is_squashed = false;
                         prev_item.tx_ids.push(tx_id);
                         prev_item.data.extend(batches.clone());
                     } else {
-- 
2.43.0


From f94a70bcd74b88ea9317e3134df7ad50348ff8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:40 +0000
Subject: [PATCH 29/37] fix: keep the rows for which a DELETE's predicate is
 NULL

---
 src/context/physical.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index ddbd5ab..59ca519 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -54,7 +54,6 @@ use deltalake::protocol::{DeltaOperation, SaveMode};
 use deltalake::DeltaTable;
 use object_store::path::Path;
 use std::ops::Deref;
-use std::ops::Not;
 use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
 use tracing::info;
@@ -413,9 +412,10 @@ impl SeafowlContext {
                             (vec![], vec![])
                         } else {
                             // To simulate the effect of a WHERE clause from a DELETE, we need to use the
-                            // inverse clause in a scan, when filtering the rows that should remain.
+                            // inverse clause in a scan, when filtering the rows that should remain. Those
+                            // are also the rows for which the clause is NULL rather than false.
                             let filter_expr = create_physical_expr(
-                                &predicate.clone().not(),
+                                &predicate.clone().is_not_true(),
                                 table_schema,
                                 &ExecutionProps::new(),
                             )?;
-- 
2.43.0


From f08ba28811475a766572d45446b7eb43aaace541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:18 +0000
Subject: [PATCH 30/37] fix: resolve time travel tables in a catalog of their
 own

---
 src/context/logical.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 78fa6e7..047bb5b 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -12,6 +12,8 @@ use crate::{
     version::TableVersionProcessor,
 };
 
+use datafusion::catalog::CatalogProviderList;
+use datafusion::catalog_common::MemoryCatalogProviderList;
 use datafusion::common::DFSchema;
 use datafusion::error::{DataFusionError as Error, Result};
 use datafusion::execution::context::SessionState;
@@ -354,8 +356,21 @@ impl SeafowlContext {
         // Create a new session context and session state, to avoid potential race
         // conditions leading to schema provider map leaking into other queries (and
         // thus polluting e.g. the information_schema output), or even worse reloading
-        // the map and having the versioned query fail during execution.
+        // the map and having the versioned query fail during execution. Since the catalog
+        // list inside the session state is shared, this entails replacing it with a new
+        // one, holding a fresh schema provider map.
         let session_ctx = SessionContext::new_with_state(self.inner.state());
+        let catalog_list = MemoryCatalogProviderList::new();
+        for catalog_name in self.inner.catalog_names() {
+            if let Some(catalog) = self.inner.catalog(&catalog_name) {
+                catalog_list.register_catalog(catalog_name, catalog);
+            }
+        }
+        catalog_list.register_catalog(
+            self.default_catalog.clone(),
+            Arc::new(self.metastore.build_catalog(&self.default_catalog).await?),
+        );
+        session_ctx.register_catalog_list(Arc::new(catalog_list));
 
         for (table, version) in &version_processor.table_versions {
             let name_with_version =
-- 
2.43.0


From cf141df5866c5cf2657b3cdc7503a61611abdbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:30 +0000
Subject: [PATCH 31/37] fix: keep a DELETE's filter where the optimizer would
 rewrite it away

---
 src/context/logical.rs | 74 +++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 047bb5b..81cc635 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -18,7 +18,9 @@ use datafusion::common::DFSchema;
 use datafusion::error::{DataFusionError as Error, Result};
 use datafusion::execution::context::SessionState;
 use datafusion::optimizer::analyzer::Analyzer;
+use datafusion::optimizer::optimize_projections::OptimizeProjections;
 use datafusion::optimizer::optimizer::Optimizer;
+use datafusion::optimizer::push_down_filter::PushDownFilter;
 use datafusion::optimizer::simplify_expressions::SimplifyExpressions;
 use datafusion::optimizer::{OptimizerContext, OptimizerRule};
 use datafusion::prelude::SessionContext;
@@ -128,38 +130,18 @@ impl SeafowlContext {
                 }
                 // We only support the most basic form of UPDATE (no aliases or FROM or joins)
                 if with_hints.is_empty() && joins.is_empty() => {
-                    let state = self.inner.state();
-                    let plan = state.statement_to_plan(stmt).await?;
-
-                    // Create a custom optimizer to avoid mangling effects of some optimizers (like
-                    // `CommonSubexprEliminate`) which can add nested Projection plans and rewrite
-                    // expressions.
-                    // We also need to do a analyze round beforehand for type coercion.
-                    let analyzer = Analyzer::new();
-                    let plan = analyzer.execute_and_check(
-                        plan,
-                        self.inner.copied_config().options(),
-                        |_, _| {},
-                    )?;
-                    let optimizer = Optimizer::with_rules(
+                    self.plan_filtered_dml(stmt, vec![Arc::new(SimplifyExpressions::new())]).await
+                },
+                Statement::Delete{ .. } => {
+                    self.plan_filtered_dml(
+                        stmt,
                         vec![
                             Arc::new(SimplifyExpressions::new()),
-                        ]
-                    );
-                    let config = OptimizerContext::default();
-                    optimizer.optimize(plan, &config, |plan: &LogicalPlan, rule: &dyn OptimizerRule| {
-                        debug!(
-                                "After applying rule '{}':\n{}\n",
-                                rule.name(),
-                                plan.display_indent()
-                            )
-                    }
+                            Arc::new(PushDownFilter::new()),
+                            Arc::new(OptimizeProjections::new()),
+                        ],
                     )
-                },
-                Statement::Delete{ .. } => {
-                    let state = self.inner.state();
-                    let plan = state.statement_to_plan(stmt).await?;
-                    state.optimize(&plan)
+                    .await
                 }
                 Statement::Drop { object_type: ObjectType::Table | ObjectType::Schema, .. } => self.inner.state().statement_to_plan(stmt).await,
                 // CREATE TABLE (create empty table with columns)
@@ -334,6 +316,40 @@ impl SeafowlContext {
         }
     }
 
+    // Plan an UPDATE or a DELETE, keeping the WHERE clause as a filter right below the DML node
+    async fn plan_filtered_dml(
+        &self,
+        stmt: DFStatement,
+        rules: Vec<Arc<dyn OptimizerRule + Send + Sync>>,
+    ) -> Result<LogicalPlan> {
+        let state = self.inner.state();
+        let plan = state.statement_to_plan(stmt).await?;
+
+        // Create a custom optimizer to avoid mangling effects of some optimizers (like
+        // `CommonSubexprEliminate`) which can add nested Projection plans and rewrite
+        // expressions, or even (`EliminateFilter`) drop the filter altogether.
+        // We also need to do a analyze round beforehand for type coercion.
+        let analyzer = Analyzer::new();
+        let plan = analyzer.execute_and_check(
+            plan,
+            self.inner.copied_config().options(),
+            |_, _| {},
+        )?;
+        let optimizer = Optimizer::with_rules(rules);
+        let config = OptimizerContext::default();
+        optimizer.optimize(
+            plan,
+            &config,
+            |plan: &LogicalPlan, rule: &dyn OptimizerRule| {
+                debug!(
+                    "After applying rule '{}':\n{}\n",
+                    rule.name(),
+                    plan.display_indent()
+                )
+            },
+        )
+    }
+
     // Determine if some of the tables reference a non-latest version using table function syntax.
     // If so, rename the tables in the query by appending the explicit version to the name, and add
     // it to the schema provider's map inside a new session state.
-- 
2.43.0


From 855eae1ac93197271d8ee031cdb4ec7b0ae21f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:33 +0000
Subject: [PATCH 32/37] fix: drop tables from the catalog before deleting their
 objects

---
 src/context/delta.rs    | 31 +++++++++++++++++++++++++------
 src/context/physical.rs | 31 +++++++------------------------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index c1e894c..239ecd3 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -1,3 +1,4 @@
+use crate::catalog::CatalogResult;
 use crate::context::SeafowlContext;
 #[cfg(test)]
 use crate::frontend::http::tests::deterministic_uuid;
@@ -14,7 +15,7 @@ use datafusion::{
     execution::context::TaskContext,
     parquet::{arrow::ArrowWriter, file::properties::WriterProperties},
     physical_plan::{ExecutionPlan, ExecutionPlanProperties},
-    sql::TableReference,
+    sql::{ResolvedTableReference, TableReference},
 };
 use deltalake::kernel::{Action, Add, Schema as DeltaSchema};
 use deltalake::operations::{
@@ -439,12 +440,30 @@ impl SeafowlContext {
             .version)
     }
 
-    // Cleanup the table objects in the storage
-    pub async fn delete_delta_table(
+    /// Drop the table from the catalog and then delete its objects, so that a failure in between doesn't
+    /// leave a table in the catalog which can't be loaded anymore.
+    pub async fn drop_delta_table(
         &self,
-        table_name: impl Into<TableReference>,
-    ) -> Result<()> {
-        let table = self.try_get_delta_table(table_name).await?;
+        table_ref: ResolvedTableReference,
+    ) -> CatalogResult<()> {
+        let table = self.try_get_delta_table(table_ref.clone()).await;
+
+        self.metastore
+            .tables
+            .delete(&table_ref.catalog, &table_ref.schema, &table_ref.table)
+            .await?;
+
+        match table {
+            Ok(table) => self.delete_delta_table(&table).await,
+            Err(e) => Err(e),
+        }
+        .unwrap_or_else(|e| info!("Failed to cleanup table {table_ref}: {e}"));
+
+        Ok(())
+    }
+
+    /// Delete all objects of the table
+    async fn delete_delta_table(&self, table: &DeltaTable) -> Result<()> {
         let store = table.object_store();
 
         // List all objects with the table prefix...
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 59ca519..20dd9f3 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1,6 +1,6 @@
 use super::delta::CreateDeltaTableDetails;
 use super::LakehouseTableProvider;
-use crate::catalog::{DEFAULT_SCHEMA, STAGING_SCHEMA};
+use crate::catalog::{CatalogError, DEFAULT_SCHEMA, STAGING_SCHEMA};
 use crate::context::delta::plan_to_delta_adds;
 use crate::context::SeafowlContext;
 use crate::nodes::{
@@ -488,11 +488,6 @@ impl SeafowlContext {
                 if_exists,
                 schema: _,
             })) => {
-                if *if_exists && self.try_get_delta_table(name.clone()).await.is_err() {
-                    // The table doesn't exist
-                    return Ok(make_dummy_exec());
-                }
-
                 let resolved_ref = self.resolve_table_ref(name.clone());
 
                 if resolved_ref.schema.as_ref() == STAGING_SCHEMA {
@@ -501,18 +496,11 @@ impl SeafowlContext {
                     return Ok(make_dummy_exec());
                 }
 
-                self.delete_delta_table(name.clone())
-                    .await
-                    .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
-
-                self.metastore
-                    .tables
-                    .delete(
-                        &resolved_ref.catalog,
-                        &resolved_ref.schema,
-                        &resolved_ref.table,
-                    )
-                    .await?;
+                match self.drop_delta_table(resolved_ref).await {
+                    // The table doesn't exist
+                    Err(CatalogError::TableDoesNotExist { .. }) if *if_exists => {}
+                    result => result?,
+                }
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::DropCatalogSchema(DropCatalogSchema {
@@ -555,12 +543,7 @@ impl SeafowlContext {
                         schema: Arc::from(schema_name),
                         table: Arc::from(table_name),
                     };
-                    self.delete_delta_table(table_ref.clone()).await?;
-
-                    self.metastore
-                        .tables
-                        .delete(&table_ref.catalog, &table_ref.schema, &table_ref.table)
-                        .await?;
+                    self.drop_delta_table(table_ref).await?;
                 }
 
                 self.metastore
-- 
2.43.0


From c1de4ab24865b4eed64bfcce6be92915c23fd2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:33 +0000
Subject: [PATCH 33/37] fix: retry a failed clean-up of a dropped table once
 before giving up

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0157b4a..d5407b1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -80,7 +80,7 @@ pub async fn gc_databases(
                 "Encountered error while trying to delete table in directory {}: {err}",
                 dt.uuid
             );
-            if dt.deletion_status != DroppedTableDeletionStatus::Pending {
+            if dt.deletion_status == DroppedTableDeletionStatus::Pending {
                 dt.deletion_status = DroppedTableDeletionStatus::Retry;
             } else {
                 dt.deletion_status = DroppedTableDeletionStatus::Failed;
-- 
2.43.0


From 9a430591a3aa88c52049dde2b1c3a9f647967449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:33 +0000
Subject: [PATCH 34/37] fix: don't take a dropped table for cleaned up when
 listing its objects fails

---
 src/object_store/wrapped.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/object_store/wrapped.rs b/src/object_store/wrapped.rs
index a17b10c..7c5d709 100644
--- a/src/object_store/wrapped.rs
+++ b/src/object_store/wrapped.rs
@@ -125,9 +125,8 @@ impl InternalObjectStore {
     pub async fn delete_in_prefix(&self, prefix: &Path) -> Result<(), Error> {
         let mut path_stream = self.inner.list(Some(prefix));
         while let Some(maybe_object) = path_stream.next().await {
-            if let Ok(ObjectMeta { location, .. }) = maybe_object {
-                self.inner.delete(&location).await?;
-            }
+            let ObjectMeta { location, .. } = maybe_object?;
+            self.inner.delete(&location).await?;
         }
         Ok(())
     }
-- 
2.43.0


From 7cc4da77de53a6988d73ea02707653427d69c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:55 +0000
Subject: [PATCH 35/37] fix: honour IF NOT EXISTS when creating schemas and
 tables

---
 src/context/physical.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 20dd9f3..dc81aef 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -121,16 +121,22 @@ impl SeafowlContext {
             LogicalPlan::Ddl(DdlStatement::CreateCatalogSchema(
                 CreateCatalogSchema {
                     schema_name,
-                    if_not_exists: _,
+                    if_not_exists,
                     schema: _,
                 },
             )) => {
                 // CREATE SCHEMA
                 // Create a schema and register it
-                self.metastore
+                match self
+                    .metastore
                     .schemas
                     .create(&self.default_catalog, schema_name)
-                    .await?;
+                    .await
+                {
+                    // The schema already exists
+                    Err(CatalogError::SchemaAlreadyExists { .. }) if *if_not_exists => {}
+                    result => result?,
+                }
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::CreateCatalog(CreateCatalog {
@@ -578,8 +584,16 @@ impl SeafowlContext {
                         SeafowlExtensionNode::CreateTable(CreateTable {
                             schema,
                             name,
+                            if_not_exists,
                             ..
                         }) => {
+                            if *if_not_exists
+                                && self.try_get_delta_table(name.as_str()).await.is_ok()
+                            {
+                                // Table already exists
+                                return Ok(make_dummy_exec());
+                            }
+
                             self.create_delta_table(
                                 name.as_str(),
                                 CreateDeltaTableDetails::EmptyTable(schema.clone()),
-- 
2.43.0


From 1b17ab923d9c24cd822f420cfea7a0f9df1174b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:10 +0000
Subject: [PATCH 36/37] fix: drop the table again when CREATE TABLE AS can't
 fill it

---
 src/context/physical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index dc81aef..47cf21e 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -191,7 +191,14 @@ impl SeafowlContext {
                     CreateDeltaTableDetails::EmptyTable(plan.schema().as_ref().clone()),
                 )
                 .await?;
-                self.plan_to_delta_table(name.clone(), &plan).await?;
+                if let Err(e) = self.plan_to_delta_table(name.clone(), &plan).await {
+                    // Don't leave an empty table behind
+                    let table_ref = self.resolve_table_ref(name.clone());
+                    if let Err(drop_err) = self.drop_delta_table(table_ref).await {
+                        info!("Failed to drop {name} that couldn't be filled: {drop_err}");
+                    }
+                    return Err(e);
+                }
 
                 Ok(make_dummy_exec())
             }
-- 
2.43.0


From 07f17afa8e799500e50173b20f6857a5027cf48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:32 +0000
Subject: [PATCH 37/37] fix: refuse NULLs for a table's non-nullable columns

---
 src/context/delta.rs    | 54 ++++++++++++++++++++++++++++++++++++++---
 src/context/physical.rs |  7 ++++--
 2 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index 239ecd3..d39dac9 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -14,7 +14,7 @@ use datafusion::{
     error::DataFusionError,
     execution::context::TaskContext,
     parquet::{arrow::ArrowWriter, file::properties::WriterProperties},
-    physical_plan::{ExecutionPlan, ExecutionPlanProperties},
+    physical_plan::{execute_input_stream, ExecutionPlan, ExecutionPlanProperties},
     sql::{ResolvedTableReference, TableReference},
 };
 use deltalake::kernel::{Action, Add, Schema as DeltaSchema};
@@ -96,6 +96,48 @@ pub async fn plan_to_delta_adds(
     store: Arc<dyn ObjectStore>,
     local_data_dir: Option<String>,
     max_partition_size: u32,
+) -> Result<Vec<Add>> {
+    let sink_schema = plan.schema();
+    plan_to_checked_delta_adds(
+        state,
+        plan,
+        sink_schema,
+        store,
+        local_data_dir,
+        max_partition_size,
+    )
+    .await
+}
+
+/// The plan's schema, with those columns non-nullable that aren't nullable in the table; the table can't
+/// be read anymore once it holds NULLs in these.
+pub fn not_null_schema(
+    plan: &Arc<dyn ExecutionPlan>,
+    table_schema: &Schema,
+) -> SchemaRef {
+    let fields: Vec<_> = plan
+        .schema()
+        .fields()
+        .iter()
+        .map(|field| match table_schema.field_with_name(field.name()) {
+            Ok(f) if !f.is_nullable() => {
+                Arc::new(field.as_ref().clone().with_nullable(false))
+            }
+            _ => field.clone(),
+        })
+        .collect();
+    Arc::new(Schema::new(fields))
+}
+
+/// Like [`plan_to_delta_adds`], but fail if the plan produces NULLs for the non-nullable columns of the
+/// provided schema.
+pub async fn plan_to_checked_delta_adds(
+    state: &SessionState,
+    plan: &Arc<dyn ExecutionPlan>,
+    sink_schema: SchemaRef,
+    store: Arc<dyn ObjectStore>,
+    local_data_dir: Option<String>,
+    max_partition_size: u32,
 ) -> Result<Vec<Add>> {
     let mut current_partition_size = 0;
     let (mut current_partition_file_path, mut writer) =
@@ -109,7 +151,8 @@ pub async fn plan_to_delta_adds(
     info!("Persisting data into temporary partition objects on disk");
     for i in 0..plan.output_partitioning().partition_count() {
         let task_ctx = Arc::new(TaskContext::from(state));
-        let mut stream = plan.execute(i, task_ctx)?;
+        let mut stream =
+            execute_input_stream(plan.clone(), sink_schema.clone(), i, task_ctx)?;
 
         while let Some(batch) = stream.next().await {
             let mut batch = batch?;
@@ -392,10 +435,14 @@ impl SeafowlContext {
         let table_log_store = internal_object_store.get_log_store(&prefix);
         let local_table_dir = internal_object_store.local_table_dir(&prefix);
 
+        let mut table = DeltaTable::new(table_log_store.clone(), Default::default());
+        table.load().await?;
+
         // Upload partition files to table's root directory
-        let adds = plan_to_delta_adds(
+        let adds = plan_to_checked_delta_adds(
             &self.inner.state(),
             plan,
+            not_null_schema(plan, &TableProvider::schema(&table)),
             table_log_store.object_store(),
             local_table_dir,
             self.config.misc.max_partition_size,
@@ -403,7 +450,6 @@ impl SeafowlContext {
         .await?;
 
         // Commit the write into a new version
-        let mut table = DeltaTable::new(table_log_store.clone(), Default::default());
         table.load().await?;
 
         let actions: Vec<Action> = adds.into_iter().map(Action::Add).collect();
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 47cf21e..05d6a7b 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1,7 +1,9 @@
 use super::delta::CreateDeltaTableDetails;
 use super::LakehouseTableProvider;
 use crate::catalog::{CatalogError, DEFAULT_SCHEMA, STAGING_SCHEMA};
-use crate::context::delta::plan_to_delta_adds;
+use crate::context::delta::{
+    not_null_schema, plan_to_checked_delta_adds, plan_to_delta_adds,
+};
 use crate::context::SeafowlContext;
 use crate::nodes::{
     ConvertTable, CreateFunction, CreateTable, DropFunction, RenameTable,
@@ -333,9 +335,10 @@ impl SeafowlContext {
                         .object_store();
                     let local_table_dir =
                         internal_object_store.local_table_dir(&uuid.to_string());
-                    let adds = plan_to_delta_adds(
+                    let adds = plan_to_checked_delta_adds(
                         &state,
                         &update_plan,
+                        not_null_schema(&update_plan, schema_ref.as_ref()),
                         object_store,
                         local_table_dir,
                         self.config.misc.max_partition_size,
-- 
2.43.0

