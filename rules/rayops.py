"""Ray operations: how work is split and put together again (C19), and what
the Ray readers and appenders pass on (C05, C10, C16)."""

from pyflow import terms as tm
from pyflow.terms import FALSE, NONE, mk, mk_call
from rules.append import Once
from rules.base import def_site, short
from rules.model import Mismatch, ModelEval, Obj, Table, fails, trace
from rules.read import FAILURES, ext
from rules.registry import group
from rules.units import APPEND, READ, STORAGE, ctor, runner_unit

MERGE = "space.core.ops.utils.merge_patches"
OPTS = "space.ray.options.RayOptions"
INT = ("scalar", "int")


def append_unit(prog, kind, cuts=()):
  u, ds, r, st, meta, loc = runner_unit(prog, kind, cuts={
      APPEND + ".__init__": None, MERGE: ext("merge_patches"), **dict(cuts)})
  if kind == "ray":
    r = u.meth(ds, "ray", u.new(OPTS, u.sym("P", INT)))
  return u, r, meta, loc


def is_table(ev, t):
  return isinstance(ev(t.args[1][0]), Table)


def value(x, m):
  if x.uid not in m and x.op == "sym" and x.args[0].startswith("APPENDED"):
    return x
  return m[x.uid]


def table_of(n):
  return Table(["k"], [list(range(n))])


def writes_finishes(ev, u, evs):
  """(tables written, appenders made, finished)."""
  written, made, done = [], 0, 0
  for e in trace(ev, evs):
    if e.name == APPEND and e.kind == "cut":
      made += 1
    elif e.name == APPEND + ".write":
      written.append(ev(e.kwargs["data"]))
    elif e.name == APPEND + ".finish":
      done += 1
  return written, made, done


def ops(evs):
  return [e for e in evs if e.kind == "cut" and e.name in (
      APPEND, APPEND + ".write", APPEND + ".finish")]


def committed(ev, evs):
  """The patches merged for the commit, as values of finish()."""
  out = []
  for e in evs:
    if e.kind == "cut" and e.name == STORAGE + ".commit":
      out.append(e.kwargs["patch"])
  return out


@group("C10", "C19")
def ray_append(prog, R):
  u, r, meta, loc = append_unit(prog, "ray")
  site = def_site(prog, "space.ray.runners.RayReadWriterRunner.append")
  u.forget()
  k = u.mark()
  data = u.sym("DATA")
  u.meth(r, "append", data)
  evs = u.since(k)
  R.use(("C10", "C19"), u, "ray append")
  reps = [Once(R[p], "ray append", site) for p in ("C10", "C19")]

  def rep(*a, **kw):
    for x in reps:
      x(*a, **kw)

  rep(any(e.name == APPEND + ".write" for e in evs), "ray-append-writes", None,
      "writes nothing")
  for n in (0, 1, 2, 3, 7, 8, 9, 16, 17):
    for p in (1, 2, 3, 8):
      for typ in ("table", "dict"):
        t = table_of(n)
        m = {data.uid: t if typ == "table" else Obj("dict"),
             u.sym("P", INT).uid: p}
        ev = ModelEval(lambda x, m=m: value(x, m), u.loops, {
            "isinstance": is_table, "from_pydict": lambda ev, x, t=t: t,
            "pyarrow.table": lambda ev, x, t=t: t}, u.state.store)
        one(ev, u, evs, rep, f"{typ} of {n} rows, {p} appenders",
            list(range(n)))


def one(ev, u, evs, rep, how, want):
  try:
    w, made, done = writes_finishes(ev, u, ops(evs))
    got = [v for t in w for v in (t.col("k") if isinstance(t, Table) else [t])]
    rep(sorted(got) == sorted(want), "ray-append-rows", None,
        f"{how}: writes rows {got}, expected {want}")
    rep(made == done, "ray-append-finish", None,
        f"{how}: makes {made} appenders and finishes {done}")
    # A task that is not awaited fails without notice.
    tasks = sum(1 for _ in trace(ev, [e for e in evs if e.kind == "remote"]))
    for e in trace(ev, [e for e in evs if e.kind == "index"]):
      try:
        i, size = ev(e.args[1]), len(ev.elems(e.args[0]))
      except FAILURES:
        continue
      rep(not isinstance(i, int) or -size <= i < size, "ray-append-rows", e.where,
          f"{how}: item {i} of a list of {size}")
    got = 0
    for e in trace(ev, [e for e in evs if e.kind == "await"]):
      x = e.args[0]
      got += len(ev.elems(x)) if x.op in ("seq", "listv") else 1
    rep(got >= tasks, "ray-append-awaited", None,
        f"{how}: starts {tasks} tasks and awaits {got}: failures of the others are "
        "not noticed")
    n = 0
    for e in trace(ev, [e for e in evs if e.kind == "cut" and e.name == MERGE]):
      n += len(ev.elems(e.kwargs["patches"]))
    rep(n == done, "ray-append-merge", None,
        f"{how}: merges the patches of {n} of {done} appenders")
  except Mismatch as e:
    rep(False, "ray-append-rows", None, f"{how}: fails: {e}")
  except FAILURES as e:
    rep(fails(e), "ray-append", None, f"{how}: not evaluated: {type(e).__name__} {e}")


@group("C10", "C19")
def appenders(prog, R):
  """Appenders of input rows take record values, not addresses."""
  for kind in ("local", "ray"):
    for what in ("append", "append_from", "insert"):
      u, r, meta, loc = append_unit(prog, kind, {
          STORAGE + ".data_files": ext("data_files")})
      cls = ("space.core.runners.LocalRunner" if kind == "local" else
             "space.ray.runners.RayReadWriterRunner")
      site = def_site(prog, cls + "." + what)
      inst = f"{kind} {what}"
      k = u.mark()
      u.meth(r, what, u.sym("DATA"))
      made = ctor(u, APPEND, u.since(k))
      R.use(("C10", "C19"), u, inst)
      for p in ("C10",) if kind == "local" else ("C10", "C19"):
        if not made:
          R[p].undecided("append-addresses", inst, site, "no appender is made")
        for e, kw in made:
          v = kw.get("record_address_input")
          v = v if v is None else u.freeze(v)
          R[p].check(True if v is None or v is FALSE else
                     False if v is tm.TRUE else None, "append-addresses", inst,
                     e.where, "record values are stored as if they were addresses"
                     f" ({v})")


@group("C10", "C19")
def append_from(prog, R):
  for kind in ("local", "ray"):
    u, r, meta, loc = append_unit(prog, kind)
    cls = ("space.core.runners.LocalRunner" if kind == "local" else
           "space.ray.runners.RayReadWriterRunner")
    site = def_site(prog, cls + ".append_from")
    u.forget()
    k = u.mark()
    fns = u.sym("FNS")
    u.meth(r, "append_from", fns)
    evs = u.since(k)
    R.use(("C10", "C19"), u, f"{kind} append_from")
    reps = [Once(R[p], f"{kind} append_from", site) for p in
            (("C10",) if kind == "local" else ("C10", "C19"))]

    def rep(*a, **kw):
      for x in reps:
        x(*a, **kw)

    for sources in ([], [0], [1], [3], [2, 0, 1], [1] * 5, [4, 1], "one", "twice"):
      for p in ((1, 2, 3, 8) if kind == "ray" else (1,)):
        srcs = {"one": [2], "twice": [1, 2, 2]}.get(sources, sources) if isinstance(
            sources, str) else sources
        if kind == "ray" and not srcs:
          continue
        o = [Source(i, c) for i, c in enumerate(srcs)]
        if sources == "twice":
          o[1] = o[2]
        m = {fns.uid: o[0] if sources == "one" else o, u.sym("P", INT).uid: p}
        ev = ModelEval(lambda x, m=m: value(x, m), u.loops, {
            "isinstance": lambda ev, t: isinstance(ev(t.args[1][0]), list)},
                       u.state.store)
        how = (f"a single source of 2 batches" if sources == "one" else
               f"sources of {srcs} batches") + (
                   f", {p} appenders" if kind == "ray" else "")
        want = [x for y in o for x in y()]
        if kind == "ray":
          one(ev, u, evs, rep, how, want)
        else:
          try:
            w, made, done = writes_finishes(ev, u, ops(evs))
            rep(sorted(w) == sorted(want), "append-from-rows", None,
                f"{how}: writes batches {w}, expected {want}")
            rep(made == done, "append-from-finish", None,
                f"{how}: makes {made} appenders and finishes {done}")
          except Mismatch as e:
            rep(False, "append-from-rows", None, f"{how}: fails: {e}")
          except FAILURES as e:
            rep(fails(e), "append-from", None,
                f"{how}: not evaluated: {type(e).__name__} {e}")


class Source:
  """A function returning an iterator over batches."""

  def __init__(self, i, n):
    self.i, self.n = i, n

  def __call__(self):
    return [(self.i, j) for j in range(self.n)]


def rows_with(u, recv, bound, t, ev):
  """Reading a file set, with everything the reader was given."""
  made = [kw for e, kw in ctor(u, READ, u.events)
          if e.recv is recv or e.result is recv]
  kw = made[-1] if made else {}
  o = kw.get("options")
  a = {"file_set": kw.get("file_set", NONE), "location": kw["location"],
       "metadata": kw["metadata"]}
  for n in ("filter_", "fields", "reference_read"):
    a[n] = NONE if o is None or o is NONE else u.get(o, n)
  return mk_call(mk("ext", "rows_of"), (), tuple(sorted(
      (k, u.freeze(v)) for k, v in a.items())))


SOURCE = "space.ray.data_sources.SpaceDataSource"


def data_file(name, rows, stat, bitmap):
  has = {"path", "storage_statistics"}
  f = Obj(name, path=name, storage_statistics=Obj("", num_rows=stat),
          row_slice=None)
  if bitmap is not None:
    has.add("row_bitmap")
    b = Obj("bitmap", all_rows=bitmap == "all", num_rows=0,
            roaring_bitmap=[] if bitmap == "all" else bitmap)
    b.f["has_"] = set(b.f)
    f.f["row_bitmap"] = b
  else:
    f.f["row_bitmap"] = Obj("no bitmap", all_rows=False, roaring_bitmap=[],
                            has_=set())
  f.f["has_"] = has
  f.f["HasField"] = lambda n, has=has: n in has
  f.rows = rows
  return f


@group("C05", "C16", "C19")
def data_source(prog, R):
  """Every row of the files is in exactly one block."""
  u, ds, r, st, meta, loc = runner_unit(prog, "ray", cuts={
      READ + ".__init__": None, READ + ".__iter__": rows_with,
      STORAGE + ".data_files": ext("data_files")})
  site = def_site(prog, SOURCE + ".create_reader")
  names = {"filter_": u.sym("F"), "fields": u.sym("FIELDS"),
           "snapshot_id": u.sym("V"), "reference_read": u.sym("REF"),
           "batch_size": u.sym("BS")}
  fs = u.sym("FS", ("proto", "FileSet"))
  rng = u.sym("RANGE", ("scalar", "bool"))
  par = u.sym("PAR", INT)
  u.forget()
  k = u.mark()
  rd = u.meth(u.new(SOURCE), "create_reader", st,
              u.new(OPTS, u.sym("P", INT), rng),
              u.new("space.core.options.ReadOptions", **names), fs)
  res = u.freeze(u.meth(rd, "get_read_tasks", par))
  evs = u.since(k)
  R.use(("C05", "C16", "C19"), u, "Ray data source")
  rep = {p: Once(R[p], "Ray blocks", site) for p in ("C05", "C16", "C19")}
  raises = [e for e in evs if e.kind == "raise"]

  def both(*a, **kw):
    rep["C16"](*a, **kw)
    rep["C19"](*a, **kw)

  read_fns = {}

  def rows_term(f):
    if f.uid not in read_fns:
      v = u.call(f, [], {}, None)
      read_fns[f.uid] = u.freeze(u.spec("[x for x in r]", r=v))
    return read_fns[f.uid]

  shapes = [[], [(5, 5, None)], [(16, 16, None)], [(17, 17, "all")], [(1, 1, [0])],
            [(33, 33, None), (4, 4, [1, 3])], [(2, 0, None), (3, 3, None)],
            [(6, 6, [0, 5]), (7, 7, "all"), (48, 48, None)], [(20, 20, [18, 19, 3])]]
  for given in (True, False):
    for shape in shapes:
      files = [data_file(f"f{i}", *s) for i, s in enumerate(shape)]
      for bs in (None, 1, 3, 16, 100):
        for on in (True, False):
          # A hint of Ray, -1 if it does not know.
          m = {rng.uid: on, names["batch_size"].uid: bs,
               par.uid: {None: 1, 1: 2, 3: -1}.get(bs, 200),
               fs.uid: Obj("FS") if given else None}
          if given:
            m[tm.attr(fs, "index_files").uid] = files
          how = (f"files of (rows, rows in statistics, bitmap) {shape}, batch "
                 f"size {bs}, row ranges {'on' if on else 'off'}"
                 f"{'' if given else ', files of the version'}")
          block_rows(prog, u, m, res, raises, rows_term, files, how, both, rep,
                     names, loc, meta, given)


def block_rows(prog, u, m, res, raises, rows_term, files, how, both, rep, names,
               loc, meta, given):
  del prog

  def files_of(ev, t):
    kw = dict(t.args[2])
    if kw["filter_"] is not names["filter_"] and kw["filter_"] is not NONE:
      rep["C16"](False if kw["filter_"] in names.values() else None, "ray-filter",
                 None, "filter of files " + short(kw["filter_"]))
    if kw["filter_"] is NONE or kw["filter_"] is names["filter_"]:
      rep["C16"](True, "ray-filter", None, "")
    v = kw["snapshot_id"]
    rep["C05"](v is names["snapshot_id"] if v is NONE or v in names.values()
               else None, "ray-version", None,
               "reads the files of snapshot " + short(v))
    return Obj("files", index_files=[data_file("of the version", 4, 4, None)]
               if given else files)

  def block(ev, t):
    kw = dict(t.args[2])
    n = ev(kw["num_rows"]) if "num_rows" in kw else ev(t.args[1][0])
    return ("block", n)

  def task(ev, t):
    kw = dict(t.args[2])
    a = list(t.args[1])
    f = kw.get("read_fn", a[0] if a else None)
    b = kw.get("metadata", a[-1] if a else None)
    return (ev(b), ev(rows_term(f)))

  def rows(ev, t):
    kw = dict(t.args[2])
    for n, want in (("location", loc), ("metadata", meta)):
      both(True if kw[n] is want else None, "ray-block-source", None,
           f"{n} of a block is {short(kw[n])}")
    for n in ("filter_", "fields", "reference_read"):
      ok = kw[n] is names[n]
      if not ok and kw[n].op not in ("const", "sym"):
        ok = None
      both(ok, "ray-block-" + n.rstrip("_"), None,
           f"{n} of a block is {short(kw[n])}")
    fset = kw["file_set"]
    while fset.op == "ite":
      fset = fset.args[1] if ev(fset.args[0]) else fset.args[2]
    if fset.op != "msg":
      raise TypeError("file set")
    out = []
    given = dict((k[0] if k else "", v) for k, v in fset.args[1] if len(k) < 2)
    if ".index_files" not in given and given:
      raise TypeError("file set")
    for e in ev.elems(given[".index_files"]) if given else []:
      out.append(selected(e, files))
    return out

  ev = ModelEval(lambda t: m[t.uid], u.loops, {
      "data_files": files_of, "ReadTask": task, "BlockMetadata": block,
      "rows_of": rows}, u.state.store)
  ev.copied = True
  try:
    bad = list(trace(ev, raises))
    if bad:
      both(False, "ray-blocks-fail", bad[0].where, f"{how}: fails")
      return
    got, sizes = [], []
    for (_, n), tabs in ev.elems(res):
      rs = [r for t in tabs for r in (t if isinstance(t, list) else [t])]
      got.extend(rs)
      sizes.append((n, len(rs)))
  except FAILURES as e:
    both(fails(e), "ray-blocks", None, f"{how}: not evaluated: {type(e).__name__} {e}")
    return
  want = []
  for f in files:
    b = f.f["row_bitmap"]
    want.extend((f.f["path"], i) for i in range(f.rows) if
                "row_bitmap" not in f.f["has_"] or b.f["all_rows"] or
                i in b.f["roaring_bitmap"])
  lost = [x for x in want if x not in got]
  extra = [x for x in got if got.count(x) > want.count(x)]
  both(sorted(got) == sorted(want), "ray-block-rows", None,
       f"{how}: rows not in a block: {lost[:5]}; unwanted or repeated: {extra[:5]}")
  wrong = [x for x in sizes if x[0] is not None and x[0] != x[1]]
  rep["C19"](not wrong, "ray-block-size", None,
             f"{how}: a block of {wrong[0][1]} rows claims {wrong[0][0]}"
             if wrong else "")


def selected(x, files):
  """The rows a data file of the model selects."""
  bits = None
  if isinstance(x, Obj):
    f, over = x, {}
  elif isinstance(x, dict):
    f = x.get("")
    over = {k: v for k, v in x.items() if k and k != ".path"}
    if f is None:  # A new message: it has nothing but what it was given.
      f = [y for y in files if y.f["path"] == x.get(".path")]
      if not f and ".path" not in x:
        return [("no file", 0)]
      if len(f) != 1:
        raise TypeError("data file")
      f = f[0]
      over = {k: v for k, v in over.items()
              if not k.startswith(".storage_statistics")}
      bits = over.pop(".row_bitmap", Obj("no bitmap", all_rows=True))
    if not isinstance(f, Obj):
      raise TypeError("data file")
  else:
    raise TypeError("data file")
  rows = list(range(f.rows))
  if any(not k.startswith(".row_slice") for k in over):
    raise TypeError("changed data file")
  if over:
    rows = [r for r in rows if over.get(".row_slice.start", 0) <= r < over.get(
        ".row_slice.end", 0)]
  b = bits or f.f["row_bitmap"]
  if (bits or "row_bitmap" in f.f["has_"]) and not b.f["all_rows"]:
    rows = [r for r in rows if r in b.f["roaring_bitmap"]]
  return [(f.f["path"], r) for r in rows]


# --------------------------------------------------------------- Ray reads


def sources(evs):
  return [e for e in evs if e.kind in ("call", "vcall") and
          e.name.endswith("read_datasource")]


@group("C05", "C16", "C19")
def ray_read(prog, R):
  """What the Ray readers hand to the data source, and what they return."""
  from rules.read import VERSION_CUTS, resolved
  for who, given in (("dataset", True), ("materialized view", True),
                     ("dataset", False), ("materialized view", False)):
    u, ds, r, st, meta, loc = runner_unit(prog, "ray", cuts=dict(
        VERSION_CUTS))
    opts = u.new(OPTS, u.sym("P", INT), u.sym("RANGE", ("scalar", "bool")))
    if who == "dataset":
      r = u.meth(ds, "ray", opts)
      site = def_site(prog, "space.ray.runners.RayReadOnlyRunner.read")
    else:
      mv = u.new("space.core.views.MaterializedView", st,
                 u.inst("VIEW", "space.core.views.View"))
      r = u.meth(mv, "ray", opts)
      site = def_site(prog, "space.ray.runners.RayMaterializedViewRunner.read")
    a = {"filter_": NONE, "fields": NONE, "version": NONE,
         "reference_read": FALSE, "batch_size": NONE}
    if given:
      a = {"filter_": u.sym("FILTER"), "fields": u.sym("FIELDS"),
           "version": u.sym("VERSION"),
           "reference_read": u.sym("REF", ("scalar", "bool")),
           "batch_size": u.sym("BS", INT)}
    v = a["version"]
    u.forget()
    k = u.mark()
    res = u.freeze(u.meth(r, "read", **(a if given else {})))
    evs = u.since(k)
    inst = f"Ray read of a {who}" + ("" if given else " without arguments")
    R.use(("C05", "C16", "C19"), u, inst)
    made = sources(evs)
    if not made:
      for p in ("C05", "C16", "C19"):
        R[p].undecided("ray-read", inst, site, "no data source is read")
      continue
    rel = u.calls(STORAGE + ".reload", events=evs)
    R["C05"].check(bool(rel) and rel[0].i < made[0].i, "read-reloads", inst, site,
                   "reads without reloading the storage first")
    for e in made:
      kw = e.kwargs
      src = u.freeze(kw.get("storage", NONE))
      if src is not u.freeze(st):
        R["C16"].check(False if src is NONE else None, "ray-read-storage", inst,
                       e.where, f"reads the storage {short(src)}")
      fs = kw.get("file_set", NONE)
      if fs is not NONE:
        R["C05"].undecided("ray-read-files", inst, e.where, short(u.freeze(fs)))
      o = kw.get("read_options")
      if o is None or o is NONE:
        R["C16"].bad("ray-read-options", inst, e.where, "reads without options")
        continue
      R["C05"].same(u.freeze(u.get(o, "snapshot_id")), resolved(u, v),
                    "read-version", inst, e.where)
      for p in ("C16", "C19"):
        for n in ("filter_", "fields", "reference_read"):
          R[p].same(u.freeze(u.get(o, n)), a[n], "read-option",
                    f"{inst}: {n}", e.where)
    reps = [Once(R[p], inst, site) for p in ("C16", "C19")]

    def rep(*x, reps=reps):
      for y in reps:
        y(*x)

    for sizes in ([], [0], [2], [0, 3, 0, 1], [1, 1]):
      for rng in (True, False):
        tabs = [Table(["k"], [[(i, j) for j in range(n)]])
                for i, n in enumerate(sizes)]
        s = Obj("stream")
        s.f.update(iter_batches=lambda tabs=tabs, **kw: (
            tabs if not kw.get("drop_last") else tabs[:-1]),
                   count=lambda n=sum(sizes): n, repartition=lambda *a, s=s: s)
        m = {u.sym("P", INT).uid: 2, u.sym("RANGE", ("scalar", "bool")).uid: rng}
        if given:
          m.update({a["batch_size"].uid: 3, v.uid: None})
        ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, {
            "ray.data.read_datasource": lambda ev, t, s=s: s}, u.state.store)
        how = f"blocks of {sizes} rows"
        try:
          got = [x for t in ev.elems(res) for x in t.cols[0]]
          rep(got == [x for t in tabs for x in t.cols[0]], "ray-read-rows", None,
              f"{how}: returns rows {got}")
        except FAILURES as e:
          rep(fails(e), "ray-read-rows", None,
              f"{how}: not evaluated: {type(e).__name__} {e}")
