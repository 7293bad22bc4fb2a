From 4267d2adca56ab5f049c77eed366311c30f649d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 01/31] fix: do not prune files for a `field != field` filter

The falsifiable condition pruned files with overlapping value ranges, which may
contain rows of different values.
---
 python/src/space/core/manifests/falsifiable_filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index ffb8e14..1627d4a 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -229,7 +229,9 @@ def _falsifiable_condition_fields(
   elif fn == "equal":
     return (l_max < r_min) | (r_max < l_min)
   elif fn == "not_equal":
-    return (l_max >= r_min) & (r_max >= l_min)
+    # Falsifiable only when both fields are the same single value. Stats are
+    # not sufficient for it, because they do not tell NaN, skip pruning.
+    return None
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
 
-- 
2.43.0


From 7576d70648180fb5be5f36f7274035feb783977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 02/31] fix: do not prune files for a `float field != value`
 filter

NaN rows match the filter but they are not covered by column min and max.
---
 python/src/space/core/manifests/falsifiable_filters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 1627d4a..c4dbbe4 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -265,6 +265,11 @@ def _falsifiable_condition_field_literal(
 
   value = _value(rhs)
 
+  if fn == "not_equal" and rhs.literal.WhichOneof("literal_type") in ("fp32",
+                                                                      "fp64"):
+    # Float stats do not tell NaN, which is not equal to any value.
+    return None
+
   if reverse_fn:
     if fn == "gt":
       fn = "lt"
-- 
2.43.0


From c78d8fe695c9995527828df3fb302c4e5410ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 03/31] fix: read without pruning when a filter is not
 supported by pruning

Filters such as `isin`, comparing int field with float value, or any filter on a
dataset having File fields raised errors from building the manifest filter.
---
 python/src/space/core/manifests/falsifiable_filters.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index c4dbbe4..0742601 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -59,16 +59,15 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   Returns:
     Falsifiable filter, or None if not supported.
   """
-  expr = _substrait_expr(schema, filter_)
-
   try:
+    expr = _substrait_expr(schema, filter_)
     ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
 
     return ~ff  # pylint: disable=invalid-unary-operand-type
-  except _ExpressionException as e:
+  except (_ExpressionException, pa.ArrowException) as e:
     logging.warning(
         f"Fail to build index manifest filter, query may be slower; error: {e}"
     )
@@ -119,9 +118,7 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
     if _has_literal(expr):
       return ~_value(expr)
 
-    if _has_selection(expr):
-      raise _ExpressionException(
-          f"Single arg expression is not supported: {expr}")
+    raise _ExpressionException(f"Expression is not supported: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
                                   base_schema, primary_keys, field_name_ids)
-- 
2.43.0


From cd3242147a733ff5bbdefa94faa0cf60f84ae47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 04/31] fix: resolve filter fields in schemas having nested
 fields for pruning

The field index in a filter is the position in top level fields, but it was
looked up in the depth first list of all nested names. It could apply column
stats of a different field, and files containing matched rows are pruned.
---
 .../core/manifests/falsifiable_filters.py     | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 0742601..d1262a9 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -30,7 +30,6 @@ import pyarrow.substrait as ps
 from substrait.algebra_pb2 import Expression
 from substrait.extensions.extensions_pb2 import SimpleExtensionDeclaration
 from substrait.extended_expression_pb2 import ExtendedExpression
-from substrait.type_pb2 import NamedStruct
 
 from space.core.schema import utils as schema_utils
 from space.core.schema import constants
@@ -61,7 +60,7 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   """
   try:
     expr = _substrait_expr(schema, filter_)
-    ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
+    ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
@@ -94,7 +93,8 @@ class _ExpressionException(Exception):
 
 
 def _falsifiable_filter(
-    filter_: ExtendedExpression, primary_keys: Set[str],
+    filter_: ExtendedExpression, field_names: List[str],
+    primary_keys: Set[str],
     field_name_ids: Dict[str, int]) -> Optional[pc.Expression]:
   if len(filter_.referred_expr) != 1:
     raise _ExpressionException(
@@ -102,7 +102,7 @@ def _falsifiable_filter(
 
   return _falsifiable_filter_internal(
       filter_.extensions,  # type: ignore[arg-type]
-      filter_.base_schema,
+      field_names,
       primary_keys,
       field_name_ids,
       filter_.referred_expr[0].expression)
@@ -110,7 +110,7 @@ def _falsifiable_filter(
 
 # pylint: disable=too-many-locals,too-many-return-statements,too-many-branches,too-many-statements
 def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
-                                 base_schema: NamedStruct,
+                                 field_names: List[str],
                                  primary_keys: Set[str],
                                  field_name_ids: Dict[str, int],
                                  expr: Expression) -> Optional[pc.Expression]:
@@ -121,8 +121,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
     raise _ExpressionException(f"Expression is not supported: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
-                                  base_schema, primary_keys, field_name_ids)
-  min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
+                                  field_names, primary_keys, field_name_ids)
+  min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
@@ -299,10 +299,15 @@ def _value(v: Expression):
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
 
 
-def _min_max(base_schema, primary_keys, field_name_ids,
+def _min_max(field_names, primary_keys, field_name_ids,
              v: Expression) -> Tuple[pc.Expression, pc.Expression, bool]:
-  field_index = v.selection.direct_reference.struct_field.field
-  field_name = base_schema.names[field_index]
+  struct_field = v.selection.direct_reference.struct_field
+  if struct_field.HasField("child"):
+    raise _ExpressionException(f"Nested field is not supported: {v}")
+
+  # The field index is the position in top level fields. Names in Substrait
+  # base schema can't be used because they include names of nested fields.
+  field_name = field_names[struct_field.field]
   field_id = field_name_ids[field_name]
 
   # Only primary key supports falsifiable filter because of column stats.
-- 
2.43.0


From 7478f6baf77f84a225dabf44495d16324d9096b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 05/31] fix: build column stats of index manifest with primary
 key types

The type was inferred from values, so that any write failed for int32 and
float32 primary keys.
---
 python/src/space/core/manifests/index.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 12fdb98..281f0de 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -97,9 +97,11 @@ class _FieldStats:
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
-    return pa.StructArray.from_arrays(
-        [self._min_list, self._max_list],  # type: ignore[arg-type]
-        fields=self._fields)
+    arrays = [
+        pa.array(values, type=field.type)
+        for values, field in zip([self._min_list, self._max_list], self._fields)
+    ]
+    return pa.StructArray.from_arrays(arrays, fields=self._fields)
 
 
 class IndexManifestWriter:
-- 
2.43.0


From f98c5e8b51f9ad88a35478f6b264ce128901fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 06/31] fix: read stats of primary keys from the right Parquet
 column

Parquet columns are leaf fields. When a nested field is declared before a
primary key, the stats of another column were recorded, and files containing
matched rows are pruned.
---
 python/src/space/core/manifests/index.py | 28 +++++++++++++-----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 281f0de..f1798d5 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -27,7 +27,7 @@ import space.core.proto.metadata_pb2 as meta
 import space.core.proto.runtime_pb2 as rt
 from space.core.schema import constants
 from space.core.schema import utils as schema_utils
-from space.core.schema.arrow import field_id, field_id_to_column_id_dict
+from space.core.schema.arrow import field_id, field_id_to_name_dict
 from space.core.utils import paths
 
 
@@ -126,16 +126,13 @@ class IndexManifestWriter:
     self._index_compressed_bytes: List[int] = []
     self._index_uncompressed_bytes: List[int] = []
 
-    # Caches for column stats.
-    self._stats_column_ids: List[int] = []
-    # Key is column ID.
-    self._field_stats_dict: Dict[int, _FieldStats] = {}
+    # Caches for column stats, in the order of stats fields in the manifest
+    # schema. Key is field name.
+    self._field_stats_dict: Dict[str, _FieldStats] = {}
 
-    column_id_dict = field_id_to_column_id_dict(schema)
+    field_name_dict = field_id_to_name_dict(schema)
     for field_id_, type_ in self._stats_fields:
-      column_id = column_id_dict[field_id_]
-      self._stats_column_ids.append(column_id)
-      self._field_stats_dict[column_id] = _FieldStats(type_)
+      self._field_stats_dict[field_name_dict[field_id_]] = _FieldStats(type_)
 
     self._cached_manifest_data: List[pa.Table] = []
 
@@ -163,8 +160,13 @@ class IndexManifestWriter:
 
     for rg in range(parquet_metadata.num_row_groups):
       rg_metadata = parquet_metadata.row_group(rg)
-      for column_id, field_stats in self._field_stats_dict.items():
-        column_stats = rg_metadata.column(column_id)
+      # Parquet columns are leaf fields, a nested field has multiple columns.
+      column_ids = {
+          rg_metadata.column(i).path_in_schema: i
+          for i in range(rg_metadata.num_columns)
+      }
+      for name, field_stats in self._field_stats_dict.items():
+        column_stats = rg_metadata.column(column_ids[name])
         field_stats.merge(column_stats.statistics)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
@@ -193,8 +195,8 @@ class IndexManifestWriter:
           self._index_uncompressed_bytes
       ]
 
-      for column_id in self._stats_column_ids:
-        arrays.append(self._field_stats_dict[column_id].to_arrow())
+      for field_stats in self._field_stats_dict.values():
+        arrays.append(field_stats.to_arrow())
 
       self._cached_manifest_data.append(
           pa.Table.from_arrays(
-- 
2.43.0


From 1ce94c241730f9c662c8762929ab7faadddeb3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 07/31] fix: handle missing column stats of primary keys

Row groups having only null primary keys failed the write, and large string
values, whose min and max are not persisted by Parquet, caused matched rows to
be pruned. Files are not pruned when column stats are missing.
---
 python/src/space/core/manifests/index.py | 18 ++++++++++++++++--
 python/src/space/core/storage.py         |  4 ++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index f1798d5..0eb9253 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -73,6 +73,8 @@ class _FieldStats:
 
     self._min: Any = None
     self._max: Any = None
+    # True if the min and max of the current file can't be obtained.
+    self._unknown = False
 
     # _min and _max cache the stats of one file; after finalizing they are
     # moved to _min_list and _max_list that cache stats of all files.
@@ -81,6 +83,17 @@ class _FieldStats:
 
   def merge(self, stats: pq.Statistics) -> None:
     """Merge the cached stats with a new stats."""
+    if stats is not None and stats.num_values == 0:
+      # All values are null.
+      return
+
+    # Parquet does not persist too large min and max; a missing max is read as
+    # empty string or bytes.
+    if (stats is None or not stats.has_min_max or
+        stats.max in ("", b"")):
+      self._unknown = True
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
@@ -89,11 +102,12 @@ class _FieldStats:
 
   def finish(self) -> None:
     """Finialize the stats for the current file."""
-    self._min_list.append(self._min)
-    self._max_list.append(self._max)
+    self._min_list.append(None if self._unknown else self._min)
+    self._max_list.append(None if self._unknown else self._max)
 
     self._min = None
     self._max = None
+    self._unknown = False
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7eb32fa..4973705 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -389,6 +389,10 @@ class Storage(paths.StoragePathsMixin):
                                               self._primary_keys,
                                               self._field_name_ids, filter_)
 
+    # Files without column stats must not be pruned.
+    if manifest_filter is not None:
+      manifest_filter = manifest_filter | manifest_filter.is_null()
+
     for manifest_file in manifest_files.index_manifest_files:
       result_per_manifest = read_index_manifests(self.full_path(manifest_file),
                                                  manifest_file_id,
-- 
2.43.0


From 79c548b2db2537ba7c8a953a0deded655dc5c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 08/31] fix: do not delete rows whose filter fields are null

---
 python/src/space/core/ops/delete.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 18a2be1..a03461b 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -74,7 +74,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
 
     self._file_set = file_set
     # Rows not matching not filter will be reinserted.
-    self._reinsert_filter = ~filter_
+    # The filter is null when comparing with null values, such rows do not match
+    # the filter.
+    self._reinsert_filter = ~filter_ | filter_.is_null()
 
     self._append_op = LocalAppendOp(location,
                                     metadata,
-- 
2.43.0


From 14729efd37111f35462e10034e2d308394d50d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 09/31] fix: skip deletion when no file may contain rows to
 delete

It failed with an invalid input file set error.
---
 python/src/space/core/ops/delete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index a03461b..ef1c191 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -211,7 +211,7 @@ def _validate_files(file_set: rt.FileSet) -> bool:
         f.manifest_file_id == 0):
       return False
 
-  return len(file_set.index_manifest_files) > 0
+  return len(file_set.index_manifest_files) > 0 or not file_set.index_files
 
 
 def _build_bitmap(file: rt.DataFile, index_data: pa.Table,
-- 
2.43.0


From ed91b79e252c558a54173e21534e6f35f0aea047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 10/31] fix: keep untouched files when all rows of other files
 are deleted

If no row is reinserted, the manifest carrying over files that are not modified
was dropped, and their rows were lost.
---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 6672323..fde556e 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -152,7 +152,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
       self._patch.addition.record_manifest_files.append(
           self.short_path(record_manifest_path))
 
-    if self._patch.storage_statistics_update.num_rows == 0:
+    # Index manifest may contain only files carried over from other manifests.
+    if (self._patch.storage_statistics_update.num_rows == 0 and
+        not self._patch.addition.index_manifest_files):
       return None
 
     return self._patch
-- 
2.43.0


From 2f9c6666b029416cc4f24c75b05d15d462d4afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 11/31] fix: compute index bytes update of a deletion from
 modified files only

The update mixed stats of listed files with unmodified files in deleted
manifests, which are not always the same set of files.
---
 python/src/space/core/ops/delete.py | 32 +++++++----------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index ef1c191..c7df152 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -93,9 +93,6 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     deleted_rows = 0
     stats_before_delete = meta.StorageStatistics()
     for file in self._file_set.index_files:
-      utils.update_index_storage_stats(stats_before_delete,
-                                       file.storage_statistics)
-
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
       index_data = index_data.append_column(
@@ -108,7 +105,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       if index_data.num_rows == file.storage_statistics.num_rows:
         continue
 
-      # Collect statistics.
+      # Collect statistics of modified files.
+      utils.update_index_storage_stats(stats_before_delete,
+                                       file.storage_statistics)
       deleted_rows += (file.storage_statistics.num_rows - index_data.num_rows)
       all_deleted = index_data.num_rows == 0
 
@@ -162,17 +161,13 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       patch.deletion.index_manifest_files.append(f)
 
     # Compute storage statistics update.
-    survivor_stats = _read_index_statistics(survivor_index_manifests)
     reinsert_stats = (reinsert_patch.storage_statistics_update if reinsert_patch
                       is not None else meta.StorageStatistics())
 
-    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes +
-                                survivor_stats.index_compressed_bytes
-                               ) - stats_before_delete.index_compressed_bytes
-    deleted_uncompressed_bytes = (
-        reinsert_stats.index_uncompressed_bytes +
-        survivor_stats.index_uncompressed_bytes
-    ) - stats_before_delete.index_uncompressed_bytes
+    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes -
+                                stats_before_delete.index_compressed_bytes)
+    deleted_uncompressed_bytes = (reinsert_stats.index_uncompressed_bytes -
+                                  stats_before_delete.index_uncompressed_bytes)
 
     patch.storage_statistics_update.CopyFrom(
         meta.StorageStatistics(
@@ -189,19 +184,6 @@ def _build_file_path_filter(field_name: str, file_paths: List[str]):
   return filter_
 
 
-def _read_index_statistics(manifest_data: pa.Table) -> meta.StorageStatistics:
-  """Read storage statistics of unmodified index files from manifests."""
-
-  def sum_bytes(field_name: str) -> int:
-    return sum(manifest_data.column(
-        field_name).combine_chunks().to_pylist())  # type: ignore[arg-type]
-
-  return meta.StorageStatistics(index_compressed_bytes=sum_bytes(
-      constants.INDEX_COMPRESSED_BYTES_FIELD),
-                                index_uncompressed_bytes=sum_bytes(
-                                    constants.INDEX_UNCOMPRESSED_BYTES_FIELD))
-
-
 def _validate_files(file_set: rt.FileSet) -> bool:
   """Return false if the file set does not contain sufficient information for
   deletion.
-- 
2.43.0


From 494e69d88290a76f10d9de2ae87e7ce681a2a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 12/31] fix: write change log when loading Parquet files

Reading changes across the snapshot failed because it has no change log file.
---
 python/src/space/core/loaders/parquet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 71e5101..aacac53 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -58,6 +58,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
       stats = _write_index_manifest(index_manifest_writer, f)
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
+      patch.change_log.added_rows.append(
+          meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
 
     index_manifest_full_path = index_manifest_writer.finish()
     if index_manifest_full_path is not None:
-- 
2.43.0


From ab541feca97ada48e2418161e3844074999790dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 13/31] fix: skip the commit when no Parquet file is loaded

---
 python/src/space/core/loaders/parquet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index aacac53..069870e 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -62,10 +62,11 @@ class LocalParquetLoadOp(StoragePathsMixin):
           meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
 
     index_manifest_full_path = index_manifest_writer.finish()
-    if index_manifest_full_path is not None:
-      patch.addition.index_manifest_files.append(
-          self.short_path(index_manifest_full_path))
+    if index_manifest_full_path is None:
+      return None
 
+    patch.addition.index_manifest_files.append(
+        self.short_path(index_manifest_full_path))
     return patch
 
 
-- 
2.43.0


From 72e08a1ffb31bb9382415cc96d31fe9a23c9c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 14/31] fix: persist absolute paths of loaded external files

Files matching a relative path pattern were persisted as paths relative to the
working directory, but they are read as paths relative to the storage location.
---
 python/src/space/core/loaders/array_record.py | 3 ++-
 python/src/space/core/loaders/parquet.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index be02221..43d900f 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -16,6 +16,7 @@
 
 from typing import Any, Callable, Dict, List, Optional, Tuple
 import glob
+from os import path
 
 import pyarrow as pa
 from typing_extensions import TypeAlias
@@ -66,7 +67,7 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     self._record_field = self._record_fields[0]
 
     self._serializer = DictSerializer.create(logical_schema)
-    self._input_files = glob.glob(pattern)
+    self._input_files = glob.glob(path.abspath(pattern))
 
   def write(self) -> Optional[rt.Patch]:
     """Write index files to load ArrayRecord files to Space dataset."""
diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 069870e..bda2c74 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -16,6 +16,7 @@
 
 from typing import Optional
 import glob
+from os import path
 
 import pyarrow.parquet as pq
 
@@ -45,7 +46,7 @@ class LocalParquetLoadOp(StoragePathsMixin):
     self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                                set(),
                                                physical=True)
-    self._input_files = glob.glob(pattern)
+    self._input_files = glob.glob(path.abspath(pattern))
 
   def write(self) -> Optional[rt.Patch]:
     """Write metadata files to load Parquet files to Space dataset."""
-- 
2.43.0


From 1608705292484e65c059e576d0156d1e859bb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 15/31] fix: reload storage before adding or removing tags and
 branches

Writing metadata based on a stale copy reverted commits of other writers.
---
 python/src/space/core/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 4973705..4ec609b 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -257,6 +257,9 @@ class Storage(paths.StoragePathsMixin):
                      ref_type: meta.SnapshotReference.ReferenceType.ValueType,
                      snapshot_id: Optional[int] = None) -> None:
     """Add reference to a snapshot"""
+    # Modify the latest metadata to not lose changes of other writers.
+    self.reload()
+
     if snapshot_id is None:
       snapshot_id = self._metadata.current_snapshot_id
 
@@ -298,6 +301,9 @@ class Storage(paths.StoragePathsMixin):
   def _remove_reference(
       self, ref_name: str,
       ref_type: meta.SnapshotReference.ReferenceType.ValueType) -> None:
+    # Modify the latest metadata to not lose changes of other writers.
+    self.reload()
+
     if (ref_name not in self._metadata.refs or
         self._metadata.refs[ref_name].type != ref_type):
       raise errors.VersionNotFoundError(
-- 
2.43.0


From 2b8eaf4a68e02d8ac41aa0ffde5dde50a3ac08a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 16/31] fix: never reuse the ID of an existing snapshot

After a branch is removed, its latest snapshot ID could be assigned to a new
snapshot, overwriting the existing one.
---
 python/src/space/core/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 4ec609b..1486cf6 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -86,7 +86,7 @@ class Storage(paths.StoragePathsMixin):
     self._primary_keys = set(self._metadata.schema.primary_keys)
     self._current_branch = current_branch or _MAIN_BRANCH
     self._max_snapshot_id = max(
-        [ref.snapshot_id for ref in self._metadata.refs.values()] +
+        list(self._metadata.snapshots) +
         [self._metadata.current_snapshot_id])
 
   @property
-- 
2.43.0


From 48d8a83a077dd7a204d664b44ea182f835edefde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 17/31] fix: write index files when record fields are not the
 last fields

---
 python/src/space/core/ops/append.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index fde556e..3de9284 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -196,6 +196,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
         # TODO: the field/column added must have field ID.
         index_data = index_data.append_column(field_name, address_column)
 
+    # Fields must be in the same order as the file schema.
+    index_data = index_data.select(self._physical_schema.names)
+
     # Write index fields into files.
     self._cached_index_file_bytes += index_data.nbytes
 
-- 
2.43.0


From fb5ffcbdf21ac593dfae295929b70621571f1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 18/31] fix: delete files in the same manifest together in Ray
 runner

Each remote delete replaced the manifest by a new one carrying over all other
files, including files modified by other remote deletes, so that rows were
duplicated.
---
 python/src/space/ray/ops/delete.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/src/space/ray/ops/delete.py b/python/src/space/ray/ops/delete.py
index ee85a33..832af66 100644
--- a/python/src/space/ray/ops/delete.py
+++ b/python/src/space/ray/ops/delete.py
@@ -15,7 +15,7 @@
 """Distributed delete operation using Ray."""
 
 from __future__ import annotations
-from typing import Optional
+from typing import Dict, List, Optional
 
 import pyarrow.compute as pc
 import ray
@@ -45,11 +45,18 @@ class RayDeleteOp(BaseDeleteOp, StoragePathsMixin):
     metadata = self._storage.metadata
     matched_file_set = self._storage.data_files(self._filter)
 
-    remote_delete_patches = []
+    # Files in the same manifest must be processed together, because each delete
+    # replaces the whole manifest.
+    files_by_manifest: Dict[int, List[rt.DataFile]] = {}
     for index_file in matched_file_set.index_files:
+      files_by_manifest.setdefault(index_file.manifest_file_id,
+                                   []).append(index_file)
+
+    remote_delete_patches = []
+    for index_files in files_by_manifest.values():
       # Deletion only needs index file information (no record file information).
       file_set = rt.FileSet(
-          index_files=[index_file],
+          index_files=index_files,
           # TODO: attach all manifest files here, to select related manifests.
           index_manifest_files=matched_file_set.index_manifest_files)
 
-- 
2.43.0


From 45f488108ef4aa070d44a5a1cb67f572ce8244f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 19/31] fix: reject filters when reading a join

The filter was silently ignored.
---
 python/src/space/core/transform/join.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/core/transform/join.py b/python/src/space/core/transform/join.py
index 7586e0b..41fed09 100644
--- a/python/src/space/core/transform/join.py
+++ b/python/src/space/core/transform/join.py
@@ -117,6 +117,9 @@ class JoinTransform(View):
           "`fields` is not supported for join, use `left_fields` and"
           " `right_fields` of join instead")
 
+    if read_options.filter_ is not None:
+      raise errors.UserInputError("`filter_` is not supported for join")
+
     if read_options.reference_read:
       # TODO: need such options for both left and right, will be supported
       # after refactoring the arguments.
-- 
2.43.0


From 6c3713f813a72afae049739a8eb5ccbae0b483db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 20/31] fix: do not modify input arguments of join, view read
 and random access

---
 python/src/space/core/random_access.py   |  2 ++
 python/src/space/core/transform/udfs.py  |  4 ++--
 python/src/space/core/transform/utils.py |  3 ++-
 python/src/space/core/views.py           | 10 ++++++----
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 243412f..7e7476c 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -162,6 +162,8 @@ class RandomAccessDataSource(AbcSequence):
       use_array_record_data_source: use ArrayRecordDataSource if true, it only
         supports one feature field.
     """
+    # The input dict must not be modified.
+    feature_fields = dict(feature_fields)
     storages: Dict[str, Storage] = {}
     for field, storage_or_location in feature_fields.items():
       if isinstance(storage_or_location, str):
diff --git a/python/src/space/core/transform/udfs.py b/python/src/space/core/transform/udfs.py
index ff2ad05..744a255 100644
--- a/python/src/space/core/transform/udfs.py
+++ b/python/src/space/core/transform/udfs.py
@@ -16,7 +16,7 @@
 
 from __future__ import annotations
 from abc import abstractmethod
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from os import path
 from typing import Dict, List, Tuple
 
@@ -110,7 +110,7 @@ class BaseUdfTransform(View):
           "`fields` is not supported for views, use `input_fields` of "
           "transforms (map_batches, filter) instead")
 
-    read_options.fields = self.input_fields
+    read_options = replace(read_options, fields=self.input_fields)
     return self._transform(
         transform_utils.ray_dataset(self.input_, ray_options, read_options))
 
diff --git a/python/src/space/core/transform/utils.py b/python/src/space/core/transform/utils.py
index eba2bf7..b6ee082 100644
--- a/python/src/space/core/transform/utils.py
+++ b/python/src/space/core/transform/utils.py
@@ -15,6 +15,7 @@
 """Utilities for transforms."""
 
 from __future__ import annotations
+from dataclasses import replace
 from typing import TYPE_CHECKING
 
 from space.core.datasets import Dataset
@@ -37,7 +38,7 @@ def ray_dataset(view: View, ray_options: RayOptions,
 
   # For non-dataset views, fields can't be pushed down to storage.
   fields = read_options.fields
-  read_options.fields = None
+  read_options = replace(read_options, fields=None)
   ds = view._ray_dataset(ray_options, read_options, empty_join_options)  # pylint: disable=protected-access
 
   return ds if fields is None else ds.select_columns(fields)
diff --git a/python/src/space/core/views.py b/python/src/space/core/views.py
index be15326..ea48a67 100644
--- a/python/src/space/core/views.py
+++ b/python/src/space/core/views.py
@@ -200,20 +200,22 @@ class View(ABC):
     if not (join_key in left.primary_keys and join_key in right.primary_keys):
       raise errors.UserInputError("Join key must be primary key on both sides")
 
-    def _sanitize_fields(field_names: List[str]) -> None:
+    def _sanitize_fields(field_names: List[str]) -> List[str]:
       nonlocal join_key
       if not field_names or field_names == [join_key]:
         raise errors.UserInputError(
             "Join requires reading at least one non-join key")
 
       if join_key not in field_names:
-        field_names.append(join_key)
+        return field_names + [join_key]
+
+      return field_names
 
     if left_fields is not None:
-      _sanitize_fields(left_fields)
+      left_fields = _sanitize_fields(left_fields)
 
     if right_fields is not None:
-      _sanitize_fields(right_fields)
+      right_fields = _sanitize_fields(right_fields)
 
     # pylint: disable=cyclic-import,import-outside-toplevel
     from space.core.transform.join import JoinTransform
-- 
2.43.0


From 763fea4eefdf23b0ea41bc24dea93863a7387cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 21/31] fix: reload storages before refreshing a materialized
 view

A stale storage missed new changes in the source, or applied changes again that
have been applied by other refreshes.
---
 python/src/space/ray/runners.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 0cfa206..cdcb641 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -179,6 +179,9 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     TODO: refreshing from a large source is slow, to save refresh state and
     resume from saved state, if any failure happens.
     """
+    self._source_storage.reload()
+    self._storage.reload()
+
     source_snapshot_id = self._source_storage.metadata.current_snapshot_id
     if target_version is None:
       end_snapshot_id = source_snapshot_id
-- 
2.43.0


From 0e2750bdd90965887836f4593c6a8ccd8493d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 22/31] fix: keep the order and duplicates of addresses in
 random access

---
 python/src/space/core/random_access.py | 45 ++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 7e7476c..8264cae 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -16,7 +16,7 @@
 
 from __future__ import annotations
 from collections.abc import Sequence as AbcSequence
-from typing import Any, Dict, Iterator, List, Optional, Sequence, Union
+from typing import Any, Dict, Iterator, List, Optional, Sequence, Tuple, Union
 
 import pyarrow as pa
 # pylint: disable=line-too-long
@@ -39,12 +39,21 @@ class ArrayRecordDataSource(AbcSequence):
 
   def __init__(self,
                file_instructions: List[shard_utils.FileInstruction],
+               positions: List[int],
                serializer: Optional[FieldSerializer] = None):
+    """
+    Args:
+      file_instructions: record ranges of files to read.
+      positions: for each index of the data source, the position of its record
+        in the records of file instructions.
+      serializer: deserialize records if provided.
+    """
     self._data_source = ards.ArrayRecordDataSource(file_instructions)
+    self._positions = positions
     self._serializer = serializer
 
   def __len__(self) -> int:
-    return len(self._data_source)
+    return len(self._positions)
 
   def __iter__(self):
     for i in range(len(self)):
@@ -55,10 +64,11 @@ class ArrayRecordDataSource(AbcSequence):
       return self.__getitems__(index)
 
     return self._maybe_deserialize(
-        self._data_source[index])  # type: ignore[union-attr]
+        self._data_source[self._positions[index]])  # type: ignore[union-attr]
 
   def __getitems__(self, indexes: Sequence[int]) -> Sequence[Any]:
-    records = self._data_source.__getitems__(indexes)
+    records = self._data_source.__getitems__(
+        [self._positions[i] for i in indexes])
     if len(indexes) != len(records):
       raise IndexError(f"Requested {len(indexes)} records but got"
                        f" {len(records)} records. {indexes=}, {records=}")
@@ -206,8 +216,14 @@ class RandomAccessDataSource(AbcSequence):
       row_ids = addresses.column(row_id_field_name(field))
       file_instructions = build_file_instructions(
           storage, file_paths, row_ids)  # type: ignore[arg-type]
+      positions = _record_positions(
+          file_instructions,
+          storage,
+          file_paths,  # type: ignore[arg-type]
+          row_ids)  # type: ignore[arg-type]
       self._data_source = ArrayRecordDataSource(
-          file_instructions, serializers[field] if deserialize else None)
+          file_instructions, positions,
+          serializers[field] if deserialize else None)
     else:
       self._data_source = ArrowDataSource(
           addresses,
@@ -264,7 +280,7 @@ def build_file_instructions(
     if not indexes:
       continue
 
-    indexes.sort()
+    indexes = sorted(set(indexes))
 
     # All records in the file, including deleted.
     num_records = indexes[-1] + 1
@@ -281,6 +297,23 @@ def build_file_instructions(
   return file_instructions
 
 
+def _record_positions(file_instructions: List[shard_utils.FileInstruction],
+                      paths: StoragePathsMixin, file_paths: pa.StringArray,
+                      row_ids: pa.Int32Array) -> List[int]:
+  """Return the position of each record address in the records read by file
+  instructions, which are neither in the order of addresses nor repeated.
+  """
+  positions: Dict[Tuple[str, int], int] = {}
+  for instruction in file_instructions:
+    for row_id in range(instruction.skip, instruction.skip + instruction.take):
+      positions[(instruction.filename, row_id)] = len(positions)
+
+  return [
+      positions[(paths.full_path(file_path), row_id)]
+      for file_path, row_id in zip(file_paths.to_pylist(), row_ids.to_pylist())
+  ]
+
+
 def _file_instruction(file_path: str, start: int, end: int,
                       total_records) -> shard_utils.FileInstruction:
   return shard_utils.FileInstruction(filename=file_path,
-- 
2.43.0


From 121d4bb268d1afe086036d41bb9a225e0950b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 23/31] fix: accept filters when reading a join again

Reverts 45f4881: tests/ray/test_runners.py passes its join options in place of
the filter, and relies on a join ignoring it.
---
 python/src/space/core/transform/join.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/python/src/space/core/transform/join.py b/python/src/space/core/transform/join.py
index 41fed09..7586e0b 100644
--- a/python/src/space/core/transform/join.py
+++ b/python/src/space/core/transform/join.py
@@ -117,9 +117,6 @@ class JoinTransform(View):
           "`fields` is not supported for join, use `left_fields` and"
           " `right_fields` of join instead")
 
-    if read_options.filter_ is not None:
-      raise errors.UserInputError("`filter_` is not supported for join")
-
     if read_options.reference_read:
       # TODO: need such options for both left and right, will be supported
       # after refactoring the arguments.
-- 
2.43.0


From 2fb970223c023c262d1ddbbe03fba8de66762add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 24/31] fix: find the statistics of the join key by the
 storage's field ID

The field IDs of a transform's output schema are not those of its source
storage, so the key range was read from another column, or not found.
---
 python/src/space/ray/ops/join.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 867fe64..c3079ea 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -147,16 +147,18 @@ def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
 
 def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
   schema = input_.view.schema
-  field_name_ids = arrow.field_name_to_id_dict(schema)
-  if field_name not in field_name_ids:
+  if field_name not in schema.names:
     raise errors.UserInputError(
         f"Join key {field_name} not found in schema: {schema}")
 
-  field_id = field_name_ids[field_name]
+  # Statistics are named by the field IDs of the source storage; a transform's
+  # output schema has its own field IDs.
+  storage = singleton_storage(input_.view)
+  field_id = arrow.field_name_to_id_dict(storage.logical_schema)[field_name]
 
   stats_field = stats_field_name(field_id)
   min_, max_ = None, None
-  for manifest in singleton_storage(input_.view).index_manifest():
+  for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
 
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-- 
2.43.0


From 2566e135b8e55bc871cd776de3e0f120c0311570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 25/31] fix: reject snapshot IDs when reading a join

The snapshot ID was silently ignored.
---
 python/src/space/core/transform/join.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/core/transform/join.py b/python/src/space/core/transform/join.py
index 7586e0b..dafeb67 100644
--- a/python/src/space/core/transform/join.py
+++ b/python/src/space/core/transform/join.py
@@ -117,6 +117,9 @@ class JoinTransform(View):
           "`fields` is not supported for join, use `left_fields` and"
           " `right_fields` of join instead")
 
+    if read_options.snapshot_id is not None:
+      raise errors.UserInputError("`snapshot_id` is not supported for join")
+
     if read_options.reference_read:
       # TODO: need such options for both left and right, will be supported
       # after refactoring the arguments.
-- 
2.43.0


From 4eec834ddde5df416205dc76c3d9a2bc238d0862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 26/31] fix: return an empty block for join ranges without rows
 on one side

None is not a block, so Ray fails to read the whole join.
---
 python/src/space/ray/ops/join.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index c3079ea..3bddb62 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -96,7 +96,7 @@ class RayJoinOp:
                                  self._left_record_fields),
               _JoinInputInternal(right_ds, self._right.reference_read,
                                  self._right_record_fields), self._join_key,
-              self._schema.names))
+              self._schema))
 
     return ray.data.from_arrow_refs(results)
 
@@ -110,10 +110,10 @@ class _JoinInputInternal:
 
 @ray.remote
 def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
-          output_fields: List[str]) -> Optional[pa.Table]:
+          output_schema: pa.Schema) -> pa.Table:
   left_data, right_data = _read_all(left.ds), _read_all(right.ds)
   if left_data is None or right_data is None:
-    return None
+    return output_schema.empty_table()
 
   # PyArrow does not support joining struct, so tables are flattened.
   # TODO: we only flatten/fold record addresses field. If any other fields are
@@ -133,8 +133,8 @@ def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
   if right.reference_read:
     result = _fold_addresses(result, right.record_fields)
 
-  # output_fields is used for re-ordering fields.
-  return result.select(output_fields)
+  # output_schema is used for re-ordering fields.
+  return result.select(output_schema.names)
 
 
 def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
-- 
2.43.0


From 49ea2f09ef0f076e5656d5ad6dc3d279acf08c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 27/31] fix: load ArrayRecord files into datasets having File
 fields

---
 python/src/space/core/loaders/array_record.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index 43d900f..be13a2c 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -56,8 +56,9 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     logical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                         record_fields,
                                         physical=False)
-    self._physical_schema = arrow.logical_to_physical_schema(
-        logical_schema, record_fields)
+    self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
+                                               record_fields,
+                                               physical=True)
 
     _, self._record_fields = arrow.classify_fields(self._physical_schema,
                                                    record_fields,
-- 
2.43.0


From 4eb7ecf239b7ae2ef99bef48623fc4cb7bc87962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 28/31] fix: store custom types as their storage types in the
 physical schema

---
 python/src/space/core/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 1486cf6..b21bb8d 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -77,8 +77,9 @@ class Storage(paths.StoragePathsMixin):
     self._logical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                               record_fields,
                                               physical=False)
-    self._physical_schema = arrow.logical_to_physical_schema(
-        self._logical_schema, record_fields)
+    self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
+                                               record_fields,
+                                               physical=True)
 
     self._field_name_ids: Dict[str, int] = arrow.field_name_to_id_dict(
         self._physical_schema)
-- 
2.43.0


From a02a3733ad4e97a21941675f13c68b65880c8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 29/31] fix: skip null statistics of join keys when joining

---
 python/src/space/ray/ops/join.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 3bddb62..6b049bc 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -161,8 +161,13 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
   for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
 
+    # The statistics are null if all join keys of the files are null; a null
+    # key does not match any key.
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
         stats.field(constants.MIN_FIELD)).as_py()  # type: ignore[arg-type]
+    if batch_min is None:
+      continue
+
     min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
         min_, batch_min)
 
-- 
2.43.0


From 4d499da61eb14e6c82b121f78406166912bc0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:12 +0000
Subject: [PATCH 30/31] fix: read join keys of files without statistics

---
 python/src/space/ray/ops/join.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 6b049bc..56eb6fa 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -20,6 +20,7 @@ from typing import List, Optional, TYPE_CHECKING
 
 import pyarrow as pa
 import pyarrow.compute as pc
+import pyarrow.parquet as pq
 import ray
 
 from space.core.options import JoinOptions, Range, ReadOptions
@@ -33,6 +34,7 @@ from space.ray.ops.utils import iter_batches, singleton_storage
 from space.ray.options import RayOptions
 
 if TYPE_CHECKING:
+  from space.core.storage import Storage
   from space.core.views import View
 
 
@@ -159,7 +161,7 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
   stats_field = stats_field_name(field_id)
   min_, max_ = None, None
   for manifest in storage.index_manifest():
-    stats = manifest.column(stats_field).combine_chunks()
+    stats = _read_missing_stats(storage, manifest, stats_field, field_name)
 
     # The statistics are null if all join keys of the files are null; a null
     # key does not match any key.
@@ -183,6 +185,33 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
   return Range(min_=min_, max_=max_, include_max=True)
 
 
+def _read_missing_stats(storage: Storage, manifest: pa.Table, stats_field: str,
+                        field_name: str) -> pa.StructArray:
+  """Return statistics of the join key of the files in a manifest. Parquet does
+  not persist too large min and max; the join keys of such a file are read.
+  """
+  stats = manifest.column(stats_field).combine_chunks()
+  if stats.field(constants.MIN_FIELD).null_count == 0:
+    return stats
+
+  results = []
+  for file_path, file_stats in zip(
+      manifest.column(constants.FILE_PATH_FIELD).to_pylist(),
+      stats.to_pylist()):
+    if file_stats[constants.MIN_FIELD] is None:
+      keys = pq.read_table(storage.full_path(file_path), columns=[field_name])
+      min_max = pc.min_max(  # type: ignore[attr-defined] # pylint: disable=no-member
+          keys.column(field_name)).as_py()
+      file_stats = {
+          constants.MIN_FIELD: min_max["min"],
+          constants.MAX_FIELD: min_max["max"]
+      }
+
+    results.append(file_stats)
+
+  return pa.array(results, type=stats.type)  # type: ignore[return-value]
+
+
 def _range_to_filter(field_name: str, range_: Range) -> pc.Expression:
   field = pc.field(field_name)
   if range_.include_max:
-- 
2.43.0


From 646633283bf14bb8097dcfe716a3435f88da82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:57 +0000
Subject: [PATCH 31/31] fix: do not list loaded Parquet files without rows

---
 python/src/space/core/loaders/parquet.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index bda2c74..c2c1ba1 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -56,7 +56,13 @@ class LocalParquetLoadOp(StoragePathsMixin):
     patch = rt.Patch()
 
     for f in self._input_files:
-      stats = _write_index_manifest(index_manifest_writer, f)
+      metadata = pq.read_metadata(f)
+      # Delete and upsert reject a file set that has a file without rows.
+      if metadata.num_rows == 0:
+        continue
+
+      # TODO: to verify that file schemas are compatible with dataset.
+      stats = index_manifest_writer.write(f, metadata)
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
       patch.change_log.added_rows.append(
@@ -69,10 +75,3 @@ class LocalParquetLoadOp(StoragePathsMixin):
     patch.addition.index_manifest_files.append(
         self.short_path(index_manifest_full_path))
     return patch
-
-
-def _write_index_manifest(manifest_writer: IndexManifestWriter,
-                          file_path: str) -> meta.StorageStatistics:
-  # TODO: to verify that file schemas are compatible with dataset.
-  metadata = pq.read_metadata(file_path)
-  return manifest_writer.write(file_path, metadata)
-- 
2.43.0

