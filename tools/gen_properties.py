"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
S = "python/src/space/"
def prop(id_, title, statement, over, text, why, files, mech, state=None, observe=None):
  a = {"files": [S + f for f in files],
       "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
  if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
  if observe: a["observe_at"] = [observe]
  P.append({"id": id_, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A version is published only after everything it refers to is written",
 "Every operation that changes a dataset publishes its result by replacing the single entry point file, as its last write, after the metadata, manifest, change log and data files it refers to have been completely written and closed. Metadata files are never visible half written: each is written to a temporary name and moved into place. If the operation stops anywhere before the final move, readers still see the complete previous version.",
 ["crash_points", "fault_sequences"], "every crash point or failed write inside create, append, insert, upsert, delete, load, tag and branch operations",
 "Tests only run operations to completion; no test stops a writer between two file writes, and the ordering must hold on every path.",
 ["core/storage.py", "core/fs/arrow.py", "core/ops/append.py", "core/manifests/index.py", "core/fs/parquet.py", "core/views.py"],
 [("commit", "core/storage.py: Storage.commit, Storage._write_metadata"), ("temporary file and move", "core/fs/arrow.py: ArrowFileSystem.write_proto"), ("close writers before listing files", "core/ops/append.py: LocalAppendOp.finish")],
 [("entry point file", "names the current metadata file")], "file writes of a commit, in order")
prop("C02", "A write commits only on the snapshot it started from",
 "A data operation takes effect only if, after re-reading the storage at commit time, the branch it was started on is still at the snapshot seen when it started; otherwise it reports FAILED and changes nothing. The operation always writes to the branch that was current when it started, and every mutation of data goes through this protocol.",
 ["schedules", "histories"], "all interleavings of whole operations of several writers on main and on branches, through all mutating APIs",
 "The tests run a handful of two-writer histories; conflict detection must hold for every mutating API, branch and interleaving.",
 ["core/storage.py", "core/runners.py", "ray/runners.py"],
 [("transaction protocol", "core/storage.py: Transaction"), ("transactional decorator", "core/runners.py: StorageMixin.transactional"), ("materialized view refresh", "ray/runners.py: RayMaterializedViewRunner.refresh")],
 [("start snapshot id", "snapshot the operation read")], "JobResult and the storage's snapshots")
prop("C03", "History only grows: new unique snapshot id, right parent, nothing else changes",
 "A commit adds exactly one snapshot, under an identifier larger than every existing one, whose parent is the tip of the branch written to, and moves only that branch (or main) to it. All existing snapshots, tags and other branches stay exactly as they were, and the storage's schema, type and creation time never change.",
 ["histories", "inputs"], "all sequences of commits, tags, branches and branch switches by several clients",
 "Tests check a few linear histories and two branches; uniqueness and immutability must hold for any history.",
 ["core/storage.py"], [("commit", "core/storage.py: Storage.commit"), ("snapshot id allocation", "core/storage.py: Storage._next_snapshot_id, Storage.__init__")],
 [("snapshots", "map from identifier to snapshot"), ("refs", "tags and branches")], "storage metadata after each operation")
prop("C04", "Tags and branches are stable, validated names for snapshots",
 "Adding a tag or branch binds an unused, non-reserved, non-empty name to an existing snapshot in the latest version of the storage, and persists nothing else; removing one removes only an existing reference of the same kind, never the current branch. Invalid requests are rejected with an error and change nothing, and only a branch can become the current branch.",
 ["histories", "inputs"], "all sequences of tag, branch and commit operations by several clients, and all names",
 "Tests try a few names on one client; lost updates and wrong-kind removals appear only in other histories.",
 ["core/storage.py", "core/datasets.py"], [("reference management", "core/storage.py: Storage.add_tag, add_branch, remove_tag, remove_branch, set_current_branch")],
 [("refs", "reference name to snapshot")], "refs of the persisted metadata, and errors raised")
prop("C05", "A version names one snapshot, and reads use exactly that snapshot",
 "A version given as a number is that snapshot, a name is the snapshot its tag or branch points to, and no version means the tip of the current branch (an unknown version is an error). Reads, diffs and file listings use precisely the manifests of the resolved snapshot, including snapshot 0, after picking up commits of other writers. The list of versions has every snapshot, with its creation time and each tag and branch on it, latest first.",
 ["histories", "inputs"], "all versions (numbers including 0, tags, branches, none) of all histories, in every reading API",
 "Tests read a few versions; the resolution must be right for every API, for falsy values and for branches.",
 ["core/storage.py", "core/runners.py", "core/datasets.py", "ray/runners.py", "ray/data_sources.py"],
 [("version resolution", "core/storage.py: Storage.version_to_snapshot_id, snapshot, data_files"), ("reading APIs", "core/runners.py: LocalRunner.read, diff"), ("Ray reads", "ray/runners.py, ray/data_sources.py"), ("list of versions", "core/storage.py: Storage.versions")],
 None, "rows returned by read and diff at a version; rows of versions()")
prop("C06", "Pruning by column statistics never drops a file with matching rows",
 "For every filter, a data file is skipped only if its recorded minimum and maximum prove that no row of it matches; comparisons in either operand order, and their conjunctions and disjunctions, are decided soundly, including at equality of bounds. Fields without statistics, and filters that cannot be analysed, disable pruning instead of failing or losing rows.",
 ["inputs"], "all filter expressions and all column minimum/maximum values",
 "Tests evaluate a dozen expressions; soundness quantifies over all operators, operand orders, nesting and boundary values.",
 ["core/manifests/falsifiable_filters.py", "core/storage.py", "core/manifests/index.py"],
 [("falsifiable filter", "core/manifests/falsifiable_filters.py: build_manifest_filter"), ("manifest pruning", "core/storage.py: Storage.data_files")],
 None, "rows returned by a filtered read")
prop("C07", "File statistics in manifests bound the file they describe",
 "Each manifest row records, for exactly one data file, its path, its row and byte counts, and for every primary key a minimum and maximum over all row groups of that file (never of another file or column). When bounds are not available for some row group they are left unknown, and files with unknown bounds are never pruned.",
 ["inputs"], "all data files, row group layouts and key types",
 "Tests use one or two row groups and few types; the merge must be right for any number of row groups and files.",
 ["core/manifests/index.py", "core/manifests/record.py", "core/storage.py"],
 [("statistics merge", "core/manifests/index.py: _FieldStats, IndexManifestWriter.write"), ("manifest reader", "core/manifests/index.py: read_index_manifests")],
 [("manifest row", "path, counts and bounds of one file")], "contents of manifest files")
prop("C08", "Delete removes exactly the matching rows",
 "After a delete, the rows of the current branch are exactly the previous rows for which the filter was not true, including rows whose filter value is null, rows of other files listed in a rewritten manifest, and references of record fields. If nothing matches, nothing is committed and the job is SKIPPED.",
 ["inputs", "histories"], "all filters, data contents and layouts of rows over files and manifests",
 "Tests delete a few rows from one or two files; losses appear for particular layouts of files in manifests.",
 ["core/ops/delete.py", "ray/ops/delete.py", "core/runners.py"],
 [("file set delete", "core/ops/delete.py: FileSetDeleteOp"), ("distributed delete", "ray/ops/delete.py: RayDeleteOp")],
 None, "rows read after the delete")
prop("C09", "Insert rejects existing keys, upsert replaces them",
 "An insert whose input repeats a primary key, or contains a key already in the dataset, fails and changes nothing; otherwise it adds exactly the input rows. An upsert deletes exactly the rows having all primary key values of some input row, and adds the input rows, in one atomic change.",
 ["inputs", "histories"], "all inputs, key columns and dataset contents",
 "Tests use a couple of keys; composite keys, several files and modes combine in ways tests do not sample.",
 ["core/ops/insert.py", "core/ops/utils.py", "ray/ops/insert.py", "core/runners.py"],
 [("insert operation", "core/ops/insert.py: LocalInsertOp"), ("key filter", "core/ops/utils.py: primary_key_filter")],
 None, "rows read after insert or upsert, and the job result")
prop("C10", "Append stores every input row once, with correct record addresses",
 "All rows given to an append, in any number of batches and whatever the file and row group size limits, end up exactly once in data files that are closed and listed exactly once in the committed manifests. Each record value is written to a record file and the row stores that file and the value's position in it. Appending no rows commits nothing.",
 ["inputs", "configurations"], "all sequences of input batches and all writer size limits",
 "Tests use one size limit or two; buffered rows, file roll-over and addresses depend on batch sizes and limits.",
 ["core/ops/append.py", "core/ops/utils.py", "core/runners.py", "core/manifests/index.py", "core/manifests/record.py", "core/fs/parquet.py"],
 [("append operation", "core/ops/append.py: LocalAppendOp"), ("addresses", "core/ops/utils.py: address_column")],
 [("cached rows and open writers", "rows accepted but not yet listed")], "files, manifests and rows read back")
prop("C11", "The change feed replays each snapshot's changes, in order",
 "The changes between two versions are those of every snapshot after the first up to and including the second along the parent chain, oldest first, and an error if the first is not an ancestor of the second. Within a snapshot deletions come before additions; every committed addition or deletion of rows is recorded, and read back as exactly the affected rows.",
 ["histories", "inputs"], "all histories of appends, deletes, inserts, upserts and loads, on main and branches, and all pairs of versions",
 "Tests diff short linear histories; order, boundaries and completeness must hold for every history.",
 ["core/ops/change_data.py", "core/ops/append.py", "core/ops/delete.py", "core/ops/read.py", "core/storage.py", "core/loaders/parquet.py", "ray/ops/change_data.py"],
 [("change feed", "core/ops/change_data.py: ordered_snapshot_ids, LocalChangeDataReadOp"), ("change log", "core/ops/append.py, core/ops/delete.py, core/loaders/parquet.py"), ("persisting", "core/storage.py: Storage.commit")],
 [("change log", "added and deleted rows of a snapshot")], "output of diff")
prop("C12", "Storage statistics follow the data exactly",
 "A snapshot's statistics are its parent's plus the update of the committed change, field by field, and the update is reported in the job result. An append's update counts exactly the rows and bytes of the files it wrote; a delete's subtracts exactly the rows removed and the byte difference of the rewritten files; merged changes add up.",
 ["histories", "inputs"], "all sequences of operations, and all layouts of files",
 "Tests compare statistics after few operations; a dropped or doubled counter in one path goes unseen.",
 ["core/storage.py", "core/ops/utils.py", "core/ops/append.py", "core/ops/delete.py", "core/loaders/array_record.py", "core/loaders/parquet.py"],
 [("accumulation", "core/ops/utils.py: update_index_storage_stats, update_record_stats_bytes, merge_patches"), ("commit", "core/storage.py: Storage.commit")],
 [("storage statistics", "rows and bytes of a snapshot")], "statistics of snapshots and job results")
prop("C13", "A snapshot's files are its parent's, minus removed, plus added manifests",
 "A commit gives the new snapshot the manifest list of the branch tip it was based on, without the manifests the change replaces and with those it adds, both for index and record files. Replacing a manifest that is not listed, or listing one twice, is an error and commits nothing.",
 ["histories", "inputs"], "all histories and all changes",
 "Tests check small manifest lists; duplicates, missing manifests and branch bases are not sampled.",
 ["core/storage.py", "core/ops/delete.py", "core/ops/utils.py"],
 [("manifest patching", "core/storage.py: _patch_manifests, Storage.commit")],
 [("manifest lists", "index and record manifests of a snapshot")], "manifest lists of snapshots")
prop("C14", "Metadata stores relative paths and every reader resolves them",
 "Paths of files managed by a storage are persisted relative to the storage location (in the entry point, snapshots, manifests, record addresses, change logs and function registry) and every use of a persisted path resolves it against the storage location, so a storage can be moved as a folder. Externally loaded files are persisted as absolute paths that resolve from any working directory.",
 ["inputs", "configurations"], "all locations (absolute or relative), all files persisted or read",
 "Tests never move a storage or change directory between writing and reading.",
 ["core/utils/paths.py", "core/storage.py", "core/ops/append.py", "core/ops/read.py", "core/ops/delete.py", "core/ops/change_data.py", "core/loaders/array_record.py", "core/loaders/parquet.py", "core/views.py", "core/random_access.py", "core/transform/udfs.py"],
 [("path conversion", "core/utils/paths.py: StoragePathsMixin.short_path, full_path")],
 None, "paths in metadata, and files opened")
prop("C15", "Files are never overwritten and existing storages never clobbered",
 "Every data, manifest, change log and metadata file is created under a fresh unique name inside the storage's data or metadata folder, and nothing in the library deletes or modifies an existing file except the move that replaces the entry point. Creating a dataset or materialized view where a storage exists fails with an error and leaves the existing one intact.",
 ["histories", "inputs", "crash_points"], "all operations and locations",
 "Tests cannot show the absence of overwrites on all paths, or with equal field names or repeated operations.",
 ["core/utils/paths.py", "core/utils/uuids.py", "core/fs/arrow.py", "core/storage.py", "core/fs/parquet.py", "core/ops/append.py", "core/views.py"],
 [("fresh names", "core/utils/paths.py"), ("exclusive creation", "core/storage.py: Storage._initialize_files; core/fs/arrow.py: ArrowFileSystem.write_proto")],
 None, "files created, replaced or removed")
prop("C16", "Reads return exactly the selected rows, fields and records",
 "A read returns, for each file of the snapshot, all rows satisfying the filter and no others, restricted to the requested fields (all fields by default), in batches that neither lose nor repeat rows. Record fields are returned as the bytes stored at each row's own address, or as the addresses themselves for reference reads; row ranges and row bitmaps select exactly their rows.",
 ["inputs", "configurations"], "all data, filters, field selections, batch sizes, row ranges and bitmaps",
 "Tests read small tables; mixing of records across files, batches and bitmaps depends on data layout.",
 ["core/ops/read.py", "core/fs/array_record.py", "core/runners.py", "core/options.py"],
 [("read operation", "core/ops/read.py: FileSetReadOp, read_record_column")],
 None, "tables returned by read")
prop("C17", "The persisted schema is faithful and validated",
 "Creating a dataset validates that primary keys and record fields exist, are disjoint and have supported types, assigns every field (nested ones too) a distinct identifier, and persists a schema from which the same logical schema is rebuilt, type by type. The physical schema differs only in storing record fields as addresses and custom types as their storage type, in the same field order.",
 ["inputs"], "all schemas over the supported types, with nesting",
 "Tests try some schemas; each type needs agreement of writer and reader tables, at every nesting.",
 ["core/schema/arrow.py", "core/schema/substrait.py", "core/schema/field_ids.py", "core/schema/utils.py", "core/storage.py", "core/schema/types/files.py", "core/schema/types/tf_features.py"],
 [("schema conversion", "core/schema/substrait.py: substrait_fields; core/schema/arrow.py: arrow_schema"), ("field ids", "core/schema/field_ids.py: FieldIdManager"), ("validation", "core/schema/utils.py: validate_logical_schema")],
 [("schema", "persisted fields, keys, record fields")], "schema of a loaded dataset, errors at creation")
prop("C18", "Job results tell the truth about what was committed",
 "Every mutating call returns SUCCEEDED exactly when its change was committed, with that change's statistics; SKIPPED when there was nothing to change; and FAILED with the error when it was aborted by a conflict, invalid input or a runtime error of the library, in which case nothing was committed. The result of a transaction cannot be read before commit nor committed twice.",
 ["histories", "inputs"], "all mutating calls and all outcomes",
 "Tests look at results of mostly successful calls.",
 ["core/storage.py", "core/runners.py", "core/jobs.py", "ray/runners.py"],
 [("transaction result", "core/storage.py: Transaction.commit, Transaction.result"), ("error conversion", "core/runners.py: StorageMixin.transactional")],
 None, "JobResult returned")
prop("C19", "Distributed operations do the same as local ones",
 "Work split across workers covers the input exactly once: rows of an append, sources, files of a delete or duplicate check, added files of a change, row ranges of a file. Each worker gets the same storage, filter and options as the local operation would use, and all workers' changes are merged into one commit.",
 ["inputs", "configurations"], "all inputs, row counts and degrees of parallelism",
 "Ray is not installed in the test environment; even with it, tests use few sizes, and splitting errors depend on divisibility.",
 ["ray/ops/append.py", "ray/ops/delete.py", "ray/ops/insert.py", "ray/ops/change_data.py", "ray/data_sources.py", "ray/runners.py"],
 [("append shards", "ray/ops/append.py: RayAppendOp"), ("delete shards", "ray/ops/delete.py: RayDeleteOp"), ("read tasks", "ray/data_sources.py"), ("change streams", "ray/ops/change_data.py")],
 None, "patches committed and rows read through Ray runners")
prop("C20", "Random access returns the record at the requested position",
 "Each record reachable through a random access source is the value stored at its address, for single and multiple feature fields, resolved against the storage that holds the field, and deserialized with that field's serializer when asked. Index i gives the record of the i-th address, whatever the order of addresses and how often they repeat, one at a time, in lists and when iterated; records that no address names are never returned.",
 ["inputs"], "all address tables, fields, storages and index lists",
 "Tests use few records in one or two files; ranges with gaps and multiple fields are not sampled.",
 ["core/random_access.py", "core/serializers/base.py", "core/fs/array_record.py"],
 [("file instructions", "core/random_access.py: build_file_instructions"), ("address lookup", "core/random_access.py: ArrowDataSource")],
 None, "records returned by indexing")
prop("C21", "Materialized views keep their plan and follow their source",
 "A materialized view persists its chain of transforms with each function and its input fields, and loading it rebuilds the same chain over the same source. Refresh applies, for each source snapshot in order and as one commit, first its deletions by primary key and then its transformed additions, stops at the first failure, and never writes to the source.",
 ["histories", "programs"], "all chains of transforms and all source histories",
 "These paths need Ray, which is not installed; tests with Ray refresh few short histories.",
 ["core/views.py", "core/transform/udfs.py", "core/transform/plans.py", "core/transform/utils.py", "ray/runners.py", "core/datasets.py"],
 [("plan writer and reader", "core/transform/udfs.py, core/transform/plans.py"), ("refresh", "ray/runners.py: RayMaterializedViewRunner.refresh")],
 [("logical plan", "relations and function registry")], "reloaded view and contents after refresh")
prop("C22", "Join returns all and only the matching row pairs",
 "The join of two views returns exactly the pairs of rows with equal join key: the key range that is read covers every key present on both sides, each range is read with the same bounds on both sides, and ranges supplied by the caller are read as given. The output has the join key and the selected fields of both sides, in the declared order. A join that cannot give this (keys that are not primary keys on both sides, unknown fields) and read options that a join would not apply are refused.",
 ["inputs", "configurations"], "all contents, key ranges and partitionings of both sides",
 "Join needs Ray, which is not installed here; boundary keys and ranges are not sampled.",
 ["ray/ops/join.py", "core/transform/join.py", "core/views.py"],
 [("key range", "ray/ops/join.py: RayJoinOp.ray_dataset, _join_key_range, _range_to_filter"), ("declared schema", "core/transform/join.py: JoinTransform")],
 None, "rows returned by a join")
prop("C23", "Loading external files registers every row of every file",
 "Loading Parquet or ArrayRecord files adds all rows of every matching file, and only those, without modifying the files: each Parquet file is listed once with its own row count and statistics, and each ArrayRecord record gets an index row, built from its own content, that addresses that record's file and position. If no file matches, nothing is committed.",
 ["inputs"], "all sets of matching files and contents",
 "Tests load one or two files from absolute paths.",
 ["core/loaders/parquet.py", "core/loaders/array_record.py", "core/runners.py"],
 [("Parquet loader", "core/loaders/parquet.py: LocalParquetLoadOp"), ("ArrayRecord loader", "core/loaders/array_record.py: LocalArrayRecordLoadOp")],
 None, "rows read after loading")
prop("C24", "Catalogs and serializers dispatch to the right object",
 "A catalog maps a name (one path component) to one location below its folder, opens what is stored there as a dataset or a materialized view according to its persisted type, reports a missing storage as not found, and lists exactly the folders holding a storage. Serializing and deserializing a batch apply each record field's own codec to every value and leave other fields unchanged.",
 ["inputs", "histories"], "all names, storages in a catalog folder, and batches",
 "Tests use a few names and one field codec.",
 ["catalogs/directory.py", "core/serializers/base.py", "core/datasets.py", "core/schema/types/tf_features.py", "core/schema/types/files.py"],
 [("directory catalog", "catalogs/directory.py: DirCatalog"), ("dict serializer", "core/serializers/base.py: DictSerializer")],
 None, "objects returned by the catalog, and serialized values")
prop("C25", "Two concurrent committers cannot both win",
 "If two processes commit to the same branch at the same time, at most one of them succeeds, even when both pass the conflict check before either publishes.",
 ["schedules"], "all interleavings inside the commit step of two processes",
 "Tests never interleave two commits inside the commit step.",
 ["core/storage.py", "core/fs/arrow.py"], [("commit", "core/storage.py: Storage.commit, Transaction.commit")], None, "snapshots after both commits")
prop("C26", "Values survive storage unchanged",
 "Every value written through the library is read back equal, for all supported types, sizes, encodings and null patterns.",
 ["inputs"], "all values of all supported types",
 "Tests read back a few values per type.",
 ["core/ops/append.py", "core/ops/read.py", "core/fs/parquet.py", "core/fs/array_record.py"], [("file formats", "core/fs")], None, "rows read back")
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
