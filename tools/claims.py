NA = {
    "C25": "Whether two processes racing inside the commit step can both publish "
           "is a question about interleavings of file system calls of several "
           "processes. The code checks and then replaces the entry point without "
           "an atomic compare-and-swap, and relies on callers to have a single "
           "writer at that moment; no source-level rule can establish mutual "
           "exclusion that the file system does not offer.",
    "C26": "That values survive Parquet and ArrayRecord encoding is a property of "
           "run-time values inside pyarrow and array_record, whose source is not "
           "part of this repository; no static argument over this source bounds "
           "it.",
}
claim("C01", "order of file writes, closes, moves and publication on every path of "
      "every mutating operation.",
      "effect ordering over all paths of the mutating operations")
claim("C03", "contents of the published metadata against the current one.")
claim("C04", "persisted references and the exact conditions under which they are "
      "persisted.")
claim("C05", "version resolution, the manifests read for a version, and the listing of versions.")
claim("C12", "statistics of the published snapshot.")
claim("C13", "manifest lists of the published snapshot.")
claim("C14", "provenance of persisted paths (location dependence) and resolution "
      "of paths that are opened.",
      "provenance (taint) analysis of persisted and opened paths")
claim("C15", "freshness and place of the names of all files created.")
claim("C02", "conditions under which every mutating operation commits.",
      "path conditions of the commit in the value graph")
claim("C18", "job results of transactions and of every mutating operation.",
      "path conditions of commit, exceptions and result states")
claim("C10", "a ledger of rows, record values, addresses, files, manifests and "
      "statistics on every path of write/write/finish.",
      "path-sensitive typestate and dataflow analysis of writers")
claim("C06", "the pruning predicate derived from every filter form, as a closed "
      "form over row bounds, decided against the filter on all orderings of the "
      "quantities.",
      "abstract interpretation and finite-domain truth tables of derived "
      "predicates")
claim("C07", "closed forms of the manifest rows written and read, over all row "
      "group statistics of an abstract domain of Parquet metadata.",
      "abstract interpretation; derived closed forms compared with the demanded "
      "ones over a finite abstract domain")
claim("C16", "rows, columns, types and batches yielded for every form of file of a "
      "file set, and the order of record columns, over an abstract domain of "
      "files.",
      "abstract interpretation; derived closed forms compared with the demanded "
      "ones over a finite abstract domain")
claim("C08", "surviving rows, carried-over files, replaced manifests, deletion "
      "bitmaps and statistics of a delete, over an abstract domain of file sets, "
      "filter verdicts (true, false, null) and manifests; partition of files over "
      "Ray tasks.",
      "abstract interpretation; derived closed forms compared with the demanded "
      "ones over a finite abstract domain")
claim("C09", "the key filter derived for all rows of an abstract domain of inputs, "
      "the duplicate check over all files, and the rows deleted, appended and "
      "committed together, local and on Ray.",
      "abstract interpretation; derived closed forms compared with the demanded "
      "ones over a finite abstract domain")
claim("C11", "the snapshots whose changes are read for all pairs of versions of an "
      "abstract domain of histories; the order, kind, fields and rows of the "
      "changes derived from change logs; what every operation records in the "
      "change log.",
      "abstract interpretation; derived closed forms compared with the demanded "
      "ones over a finite abstract domain of histories and change logs")
claim("C19", "how Ray operations split rows, sources, files and row ranges into "
      "tasks and merge their patches: derived closed forms over tables, source "
      "lists, file sets and parallelism of an abstract domain, against the rows "
      "that have to be processed exactly once.",
      "abstract interpretation; derived closed forms evaluated over a finite "
      "abstract domain")
claim("C23", "files listed, index rows, addresses, statistics and change log of both "
      "loaders, over all files of an abstract domain of matches.",
      "abstract interpretation; derived closed forms evaluated over a finite "
      "abstract domain")
claim("C24", "locations, opened kinds, missing storages and listings of catalogs, "
      "and values of serializers and codecs, over an abstract domain of folders, "
      "schemas and batches.",
      "abstract interpretation; derived closed forms evaluated over a finite "
      "abstract domain")
claim("C17", "the Substrait form derived for schemas of every supported type, with "
      "nesting, and the logical and physical schemas derived from that form; field "
      "IDs at all depths; accepted and rejected keys and record fields; what a "
      "new storage persists.",
      "abstract interpretation of the conversions over a finite abstract domain of "
      "schemas; derived forms compared with the demanded ones")
claim("C20", "the record, file and codec derived for every index, list of indexes and "
      "iteration of a source, over address lists with gaps, several files, any "
      "order and repeats, one and several fields and storages; refused sources.",
      "abstract interpretation; derived closed forms evaluated over a finite "
      "abstract domain")
claim("C21", "schemas, keys and record fields of views and chains of views; plans "
      "written by views of an abstract domain and the views read back from them; "
      "the operations applied to source data; the commits, ranges and results of "
      "refresh over change logs of the domain with failing commits and operations.",
      "abstract interpretation; derived closed forms evaluated over a finite "
      "abstract domain of views and change logs")
claim("C22", "schemas, keys, record fields and sources of joins; the rows and columns "
      "derived for reading joins of datasets, maps and filters over contents, "
      "selected fields, references and key ranges of an abstract domain; refused "
      "joins and read options.",
      "abstract interpretation; derived closed forms evaluated over a finite "
      "abstract domain of tables and ranges")
