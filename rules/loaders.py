"""Loading external files (C23)."""

import posixpath

from pyflow import terms as tm
from pyflow.terms import NONE
from rules.append import Once
from rules.base import def_site, short
from rules.changes import typed
from rules.model import Field, Mismatch, ModelEval, Obj, Table, fails, trace
from rules.read import FAILURES, ext
from rules.registry import group
from rules.schema import physical_types
from rules.units import APPEND, STORAGE, STR, ctor, runner_unit

IMW = "space.core.manifests.index.IndexManifestWriter"
PARQUET = "space.core.loaders.parquet.LocalParquetLoadOp"
RECORD = "space.core.loaders.array_record.LocalArrayRecordLoadOp"
ARROW = "space.core.schema.arrow."

# Rows of the files that match the pattern.
MATCHES = [{}, {"/ext/a": 3}, {"/ext/a": 3, "/ext/b": 1, "/other/c": 5},
           {"/ext/a": 0, "/ext/b": 2}, {"/ext/a": 2, "/ext/sub/a": 3}]
STATS = ("num_rows", "index_compressed_bytes", "index_uncompressed_bytes")


def globs(files):
  def h(ev, t):
    p = ev(t.args[1][0] if t.args[1] else dict(t.args[2])["pathname"])
    if p not in ("/ABS/PATTERN", "PATTERN"):
      raise TypeError(f"pattern {p}")
    return [f if p.startswith("/") else "rel" + f for f in files]
  return h


def path_fns(files):
  def arg(t):
    return t.args[1][0] if t.args[1] else dict(t.args[2])["path"]

  def absolute(ev, t):
    p = ev(arg(t))
    return p if p.startswith("/") else "/ABS/" + p

  def rel(ev, t):
    a = [ev(x) for x in t.args[1]]
    if len(a) != 2 or not all(x.startswith("/") for x in a):
      raise TypeError("relpath")
    return posixpath.relpath(*a)

  return {"glob.glob": globs(files), "glob.iglob": globs(files),
          "os.path.abspath": absolute, "os.path.realpath": absolute,
          "os.path.relpath": rel, "os.path.join": lambda ev, t: posixpath.join(
              *[ev(x) for x in t.args[1]]),
          "os.path.basename": lambda ev, t: ev(arg(t)).rsplit("/", 1)[-1]}


@group("C23", "C14", "C08")
def parquet(prog, R):
  cuts = {PARQUET + ".write": False, IMW + ".__init__": None,
          IMW + ".write": typed("manifest_stats", ("proto", "StorageStatistics")),
          ARROW + "arrow_schema": ext("arrow_schema"),
          ARROW + "logical_to_physical_schema": ext("logical_to_physical_schema"),
          IMW + ".finish": ext("manifest_finish")}
  u, ds, r, st, meta, loc = runner_unit(prog, "local", cuts=cuts)
  site = def_site(prog, PARQUET + ".write")
  pattern = u.sym("PATTERN", STR)
  u.forget()
  k = u.mark()
  u.meth(r, "append_parquet", pattern)
  evs = u.since(k)
  R.use(("C23", "C14", "C08"), u, "append_parquet")
  rep = Once(R["C23"], "append_parquet", site)
  rep14 = Once(R["C14"], "append_parquet", site)
  rep8 = Once(R["C08"], "append_parquet", site)
  writes = [e for e in evs if e.kind == "cut" and e.name == IMW + ".write"]
  commits = [e for e in evs if e.kind == "cut" and e.name == STORAGE + ".commit"]
  raises = [e for e in evs if e.kind == "raise"]
  rep(bool(writes), "load-manifest", None, "lists no file in a manifest")
  for e, kw in ctor(u, IMW, evs):
    s = kw.get("schema")
    kinds = [] if s is None else physical_args(u.freeze(s))
    # Bounds are those of the values in files.
    rep(True if kinds and all(kinds) else (False if kinds and None not in kinds
                                           else None),
        "manifest-types", e.where, "bounds of logical types are written, not of "
        "the types in files")
  for matches in MATCHES:
    how = f"files (with rows) {matches}"
    written = []
    files = {f: n for f, n in matches.items() if n}

    # A relative path of the pattern names a file of the working directory.
    local = lambda f: f[3:] if f.startswith("rel/") else f  # noqa: E731

    def stat(f, matches=matches):
      f = local(f)
      i = list(matches).index(f)
      return Obj("stats", num_rows=matches[f], index_compressed_bytes=100 + i,
                 index_uncompressed_bytes=7000 + 10 * i,
                 record_uncompressed_bytes=0)

    def metadata(ev, t, matches=matches):
      f = local(ev(t.args[1][0] if t.args[1] else dict(t.args[2])["where"]))
      return Obj("parquet metadata", num_rows=matches[f], file=f)

    calls = dict(path_fns(matches))
    calls["pyarrow.parquet.read_metadata"] = metadata
    calls["manifest_stats"] = lambda ev, t: stat(ev(dict(t.args[2])["file_path"]))
    calls["manifest_finish"] = lambda ev, t: (
        "/LOC/metadata/new.parquet" if written else None)
    m = values(u, pattern, meta, loc)
    ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, calls, u.state.store)
    try:
      for e in trace(ev, writes):
        kw = e.kwargs
        written.append((ev(kw["file_path"]), ev(kw["parquet_metadata"])))
      empty = [w[0] for w in written if local(w[0]) not in files]
      # The input files of a delete must have rows.
      rep8(not empty, "no-file-without-rows", None,
           f"{how}: lists {empty} without rows, every later delete and upsert "
           "that reads them fails")
      rep(sorted(w[0] for w in written if w[0] not in empty) == sorted(files),
          "load-files", None, f"{how}: lists {[w[0] for w in written]}")
      rep(all(w[1].f["file"] == local(w[0]) for w in written), "load-statistics",
          None, f"{how}: lists {[(w[0], w[1].f['file']) for w in written]}")
      if empty:
        continue
      bad = list(trace(ev, raises))
      rep(not bad, "load-fails", None, f"{how}: fails")
      done = list(trace(ev, commits))
      rep(len(done) == (1 if files else 0), "load-commit", None,
          f"{how}: {len(done)} commits")
      for e in done:
        patch(u, ev, e, files, stat, how, rep, rep14)
    except FAILURES as e:
      rep(fails(e), "load", None, f"{how}: not evaluated: {type(e).__name__} {e}")


def physical_args(t):
  """Whether the schemas a term is built from are of storage types."""
  out = []
  for x in tm.walk(t):
    if x.op == "call":
      n = tm.call_name(x).split(".")[-1]
      if n == "logical_to_physical_schema":
        return [True]
      if n == "arrow_schema":
        p = dict(x.args[2]).get("physical")
        out.append(None if p is None or p.op != "const" else bool(p.args[0]))
  return out


def values(u, pattern, meta, loc):
  m = {pattern.uid: "PATTERN", loc.uid: "/LOC"}
  for x in [meta] + [x[2] for x in getattr(u, "reloaded", [])]:
    m[tm.attr(x, "current_snapshot_id").uid] = 3
    s = tm.attr(x, "schema")
    m[tm.attr(s, "record_fields").uid] = []
    m[tm.attr(s, "primary_keys").uid] = ["k"]
  return m


def patch(u, ev, e, files, stat, how, rep, rep14):
  p = u.freeze(e.kwargs["patch"])
  while p.op == "ite":
    p = p.args[1] if ev(p.args[0]) else p.args[2]
  if p.op != "msg":
    raise TypeError("patch")
  d = {"".join(k): v for k, v in p.args[1] if k[-1] != "="}
  for k, v in p.args[1]:
    if k[-1] == "=":
      raise TypeError("copied patch")
  get = lambda n: ev.elems(d[n]) if n in d else []  # noqa: E731
  rows = [(x.get(".file"), x.get(".all_rows"), x.get(".num_rows", 0))
          for x in get(".change_log.added_rows")]
  rep(sorted(map(str, rows)) == sorted(
      str((f, True, n)) for f, n in files.items()), "load-change-log", None,
      f"{how}: change log has {rows}")
  rep14(all(str(x[0]).startswith("/") for x in rows), "load-path", None,
        f"{how}: records relative paths {[x[0] for x in rows]}")
  rep(not get(".change_log.deleted_rows") and not get(
      ".deletion.index_manifest_files"), "load-deletes", None,
      f"{how}: also deletes")
  ms = get(".addition.index_manifest_files")
  rep(ms == ["metadata/new.parquet"], "load-manifest", None,
      f"{how}: adds manifests {ms}")
  for n in STATS:
    got = ev(d[".storage_statistics_update." + n]) if \
        ".storage_statistics_update." + n in d else 0
    want = sum(stat(f).f[n] for f in files)
    rep(got == want, "load-statistics", None,
        f"{how}: statistics update {n} is {got}, expected {want}",
        inst="append_parquet: " + n)


@group("C23")
def array_record(prog, R):
  converts = physical_types(prog)
  cuts = {RECORD + ".write": False, APPEND + ".__init__": None,
          "space.core.fs.array_record.read_record_file": ext("read_records"),
          ARROW + "arrow_schema": ext("arrow_schema"),
          ARROW + "logical_to_physical_schema": ext("physical_schema"),
          "space.core.serializers.base.DictSerializer.deserialize":
              ext("deserialize")}
  u, ds, r, st, meta, loc = runner_unit(prog, "local", cuts=cuts)
  site = def_site(prog, RECORD + ".write")
  pattern, fn = u.sym("PATTERN", STR), u.sym("INDEX_FN")
  u.forget()
  k = u.mark()
  u.meth(r, "append_array_record", pattern, fn)
  evs = u.since(k)
  R.use(("C23",), u, "append_array_record")
  rep = Once(R["C23"], "append_array_record", site)
  made = [e for e in evs if e.kind == "cut" and e.name == APPEND]
  writes = [e for e in evs if e.kind == "cut" and e.name == APPEND + ".write"]
  commits = [e for e in evs if e.kind == "cut" and e.name == STORAGE + ".commit"]
  raises = [e for e in evs if e.kind == "raise"]
  rep(bool(writes), "load-rows", None, "writes no index rows")
  for e in made:
    a = dict(e.kwargs)
    v = a.get("record_address_input", e.args[3] if len(e.args) > 3 else None)
    v = v if v is None else u.freeze(v)
    rep(v is tm.TRUE or (None if v is not None and v.op != "const" else False),
        "load-addresses", e.where, "record fields are not written as addresses")
  for files in MATCHES:
    how = f"files (with records) {files}"
    # Records may be equal, or empty.
    data = {f: [b"" if n in (1, 3) and i != 1 else
                f"{f}:{i // 2 * 2 if n == 5 else i}".encode() for i in range(n)]
            for f, n in files.items()}

    def records(ev, t):
      p = ev(dict(t.args[2])["file_path"])
      # A relative path of the pattern names a file of the working directory.
      return data[p[3:] if p.startswith("rel/") else p]

    def deserialize(ev, t):
      v = ev(dict(t.args[2])["value_bytes"])
      if not isinstance(v, dict) or list(v) != ["img"]:
        raise TypeError(f"value {v}")
      return ("record", v["img"])

    def index(x):
      return {"k": ("key", x), "path": ("p", x), "n": ("n", x), "img": None}

    calls = dict(path_fns(files))
    calls.update(read_records=records, deserialize=deserialize,
                 arrow_schema=lambda ev, t: fields(ev(dict(t.args[2])["physical"])),
                 physical_schema=lambda ev, t: fields(converts))
    m = values(u, pattern, meta, loc)
    m[fn.uid] = index
    ap = {}
    for x in [meta] + [x[2] for x in getattr(u, "reloaded", [])]:
      m[tm.attr(tm.attr(x, "schema"), "record_fields").uid] = ["img"]

    def leaf(t, m=m, ap=ap):
      if t.uid in m:
        return m[t.uid]
      if t.op == "sym" and t.args[0].startswith("APPENDED"):
        return ap.setdefault(t.uid, Obj("patch")) if sum(
            files.values()) else None
      if t.op == "attr" and t.args[1] == "record_uncompressed_bytes":
        return 10000
      return m[t.uid]

    ev = ModelEval(leaf, u.loops, calls, u.state.store)
    try:
      bad = list(trace(ev, raises))
      rep(not bad, "load-fails", None, f"{how}: fails")
      got = []
      for e in trace(ev, writes):
        t = ev(e.kwargs["data"])
        if not isinstance(t, Table):
          raise TypeError("rows")
        for f in t.fields():
          # What a writer of the physical schema accepts.
          rep(f.name not in TYPES or f.name == "img" or f.type in (
              None, TYPES[f.name][1]), "load-types", e.where,
              f"{how}: the index column of field {f.name} has type {f.type}, "
              f"which is written as {TYPES[f.name][1]}")
        got.extend(t.rows())
      want = []
      for f, l in data.items():
        for i, b in enumerate(l):
          x = index(("record", [b]))
          x["img"] = (f, i)
          want.append(x)
      norm = lambda rs: sorted(str(sorted((k, address(v)) for k, v in  # noqa: E731
                                          x.items())) for x in rs)
      rep(norm(got) == norm(want), "load-rows", None,
          f"{how}: index rows are {short(str(got), 300)}, expected "
          f"{short(str(want), 300)}")
      if not want:
        # Nothing is appended, there is no patch.
        for e in trace(ev, [e for e in evs if e.kind == "set"]):
          b = e.recv
          while b is not None and b.op == "attr":
            b = b.args[0]
          rep(b is None or b.op != "sym" or not b.args[0].startswith("APPENDED"),
              "load-fails", e.where, f"{how}: a patch that is None is changed")
      done = list(trace(ev, commits)) if want else []
      for e in done:
        p = e.kwargs["patch"]
        s = u.get(u.get(p, "storage_statistics_update"),
                  "record_uncompressed_bytes")
        n = ev(u.freeze(s)) - 10000
        total = sum(len(b) for l in data.values() for b in l)
        rep(n == total, "load-bytes", None,
            f"{how}: {n} record bytes are counted, expected {total}")
    except Mismatch as e:
      rep(False, "load-fails", None, f"{how}: fails: {e}")
    except FAILURES as e:
      rep(fails(e), "load", None, f"{how}: not evaluated: {type(e).__name__} {e}")


TYPES = {"k": ("int64", "int64"), "img": ("binary", "address"),
         "path": ("extension", "string"), "n": ("int64", "int64")}


def fields(physical):
  """A schema with a field of a custom type."""
  return [Field(n, p if physical else l, {b"PARQUET:field_id": str(i).encode()})
          for i, (n, (l, p)) in enumerate(TYPES.items())]


def address(v):
  if isinstance(v, dict) and set(v) == {"_FILE", "_ROW_ID"}:
    return (v["_FILE"], v["_ROW_ID"])
  return v
