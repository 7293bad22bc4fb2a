"""Reads: the version that is read, the rows returned for a file of a file set,
and how record columns are filled from their addresses (C05, C16)."""

import itertools

from pyflow import terms as tm
from pyflow.terms import FALSE, NONE, TRUE, and_, attr, cmp_, const, mk, mk_call, \
    not_, seq
from rules.append import Once
from rules.base import Unit, def_site, opaque, same, short
from rules.evalt import Unknown
from rules.model import Field, Mismatch, ModelEval, Obj, Table, fails
from rules.registry import group
from rules.units import READ, STORAGE, STR, ctor, runner_unit

RUNNER = "space.core.runners.LocalRunner"
READ_MOD = "space.core.ops.read"
COLUMN = READ_MOD + ".read_record_column"
FAILURES = (Unknown, TypeError, ValueError, AttributeError, IndexError, KeyError)


# ------------------------------------------------------------------ the runners


def ext(name):
  """Cut: the call as an external function of its arguments."""

  def h(u, recv, bound, t, ev):
    return mk_call(mk("ext", name), (), tuple(sorted(
        (k, u.freeze(v)) for k, v in bound.items())))

  return h


VERSION_CUTS = {STORAGE + ".version_to_snapshot_id": ext("snapshot_of"),
                STORAGE + ".data_files": ext("data_files"),
                READ + ".__init__": None,
                "space.core.ops.change_data.read_change_data": ext("changes")}


def resolved(u, v):
  """The snapshot a version stands for; the current one when it is None."""
  return tm.ite(cmp_("is", v, NONE), NONE, mk_call(
      mk("ext", "snapshot_of"), (), (("version", v),)))


def files_call(t):
  if t is None or t.op != "call" or tm.call_name(t) != "data_files":
    return None
  return dict(t.args[2])


@group("C05", "C16")
def read_version(prog, R):
  """What LocalRunner.read passes on: the filter, the fields and the version."""
  site = def_site(prog, RUNNER + ".read")
  for given in (False, True):
    u, ds, r, st, meta, loc = runner_unit(prog, "local", cuts={
        **VERSION_CUTS, READ + ".__iter__": None})
    R.use(("C05", "C16"), u, "LocalRunner.read" + (" with arguments" if given
                                                   else ""))
    inst = "read with arguments" if given else "read without arguments"
    if given:
      v = u.sym("VERSION")
      a = {"filter_": u.sym("FILTER"), "fields": u.sym("FIELDS"),
           "version": v, "reference_read": u.sym("REF", ("scalar", "bool")),
           "batch_size": u.sym("BS", ("scalar", "int"))}
      for k in ("filter_",):
        u.assume(not_(cmp_("is", a[k], NONE)))
      k = u.mark()
      u.meth(r, "read", **a)
    else:
      k = u.mark()
      a = {"filter_": NONE, "fields": NONE, "version": NONE,
           "reference_read": FALSE, "batch_size": NONE}
      v = NONE
      u.meth(r, "read")
    evs = u.since(k)
    made = ctor(u, READ, evs)
    if not made:
      for p in ("C05", "C16"):
        R[p].undecided("read-files", inst, site, "no file set is read")
      continue
    R["C05"].check(reloads_first(u, evs, made[0][0]), "read-reloads", inst, site,
                   "reads without reloading the storage first")
    for e, kw in made:
      fs = files_call(u.freeze(kw["file_set"]))
      if fs is None:
        R["C05"].undecided("read-version", inst, e.where, "file set is " + short(
            u.freeze(kw["file_set"])))
        continue
      R["C05"].same(fs.get("snapshot_id", NONE), resolved(u, v), "read-version",
                    inst, e.where)
      f = fs.get("filter_", NONE)
      ok = f is NONE or same(f, a["filter_"])
      if not ok and opaque(f) is not None:
        ok = None
      R["C16"].check(ok, "read-filter", inst + ": files", e.where,
                     f"files are pruned by {short(f)}, filter is "
                     f"{short(a['filter_'])}")
      R["C16"].check(u.freeze(kw["location"]) is loc or None,
                     "read-location", inst, e.where, short(kw["location"]))
      o = kw.get("options")
      for name in ("filter_", "fields", "reference_read"):
        if o is None or o is NONE:
          got = None if given else a[name]
        else:
          got = u.freeze(u.get(o, name))
        R["C16"].same(got, a[name], "read-option", f"{inst}: {name}", e.where)


@group("C05", "C11")
def diff_versions(prog, R):
  """LocalRunner.diff reads the changes between the given versions."""
  site = def_site(prog, RUNNER + ".diff")
  u, ds, r, st, meta, loc = runner_unit(prog, "local", cuts=VERSION_CUTS)
  a, b = u.sym("START"), u.sym("END")
  for x in (a, b):
    u.assume(not_(cmp_("is", x, NONE)))
  k = u.mark()
  res = u.freeze(u.meth(r, "diff", a, b))
  evs = u.since(k)
  R.use(("C05", "C11"), u, "LocalRunner.diff")
  made = [e for e in evs if e.kind == "cut" and e.name.endswith("read_change_data")]
  if not made:
    R["C11"].undecided("diff-versions", "diff", site, "the change feed is not read")
    return
  e = made[0]
  for n, v in (("start_snapshot_id", a), ("end_snapshot_id", b)):
    got = e.kwargs.get(n)
    if got is None:
      R["C11"].undecided("diff-versions", n, e.where, "no such argument")
      continue
    R["C11"].same(u.freeze(got), resolved_not_none(v), "diff-versions", n, e.where)
    R["C05"].same(u.freeze(got), resolved_not_none(v), "diff-versions", n, e.where)
  R["C11"].check(e.kwargs.get("storage") is st or None, "diff-storage", "diff",
                 e.where, "another storage is read")
  R["C05"].check(reloads_first(u, evs, e), "read-reloads", "diff", site,
                 "reads without reloading the storage first")
  reads_values(R, u, e, "diff")


def reloads_first(u, evs, use):
  """The storage is reloaded before versions are resolved and files read."""
  rel = u.calls(STORAGE + ".reload", events=evs)
  return bool(rel) and all(rel[0].i < e.i for e in [use] + u.calls(
      STORAGE + ".version_to_snapshot_id", events=evs))


def reads_values(R, u, e, what):
  """The change feed holds the values of records, not their addresses."""
  o = e.kwargs.get("read_options")
  got = None if o is None else u.freeze(u.get(u.freeze(o), "reference_read"))
  R["C11"].same(got, FALSE, "diff-values", f"{what}: reference_read", e.where)


def resolved_not_none(v):
  return mk_call(mk("ext", "snapshot_of"), (), (("version", v),))


@group("C05", "C16")
def index_files_version(prog, R):
  site = def_site(prog, "space.core.datasets.Dataset.index_files")
  for given in (False, True):
    inst = "index_files" + (" of a version" if given else "")
    u, ds, r, st, meta, loc = runner_unit(prog, "local", cuts=VERSION_CUTS)
    v = u.sym("VERSION") if given else NONE
    res = u.freeze(u.meth(ds, "index_files", *([v] if given else [])))
    R.use(("C05", "C16"), u, inst)
    calls = [t for t in tm.walk(res) if files_call(t) is not None]
    if not calls:
      R["C05"].undecided("read-version", inst, site, short(res))
      continue
    for t in calls[:1]:
      fs = files_call(t)
      R["C05"].same(fs.get("snapshot_id", NONE), resolved(u, v), "read-version",
                    inst, site)
      R["C16"].check(fs.get("filter_", NONE) is NONE, "read-filter", inst, site,
                     "the listing is pruned")
    want = u.spec("[os.path.join(loc, f.path) for f in fs.index_files]",
                  "space.core.utils.paths", loc=loc, fs=calls[0]) if hasattr(
                      prog.modules["space.core.utils.paths"], "path") else None
    if want is not None:
      got, exp = u.freeze(res), u.freeze(want)
      ok = same(got, exp)
      R["C16"].check(ok if ok else None, "listed-files", inst, site,
                     f"lists {short(got)}")


@group("C16")
def read_all(prog, R):
  """read_all returns all rows that read yields, in order."""
  rep = Once(R["C16"], "read_all", def_site(prog, RUNNER + ".read_all"))
  u, ds, r, st, meta, loc = runner_unit(prog, "local", cuts={
      **VERSION_CUTS, RUNNER + ".read": ext("read")})
  a = {k: u.sym(k.upper()) for k in ("filter_", "fields", "version",
                                     "reference_read", "batch_size",
                                     "join_options")}
  res = u.freeze(u.meth(r, "read_all", **a))
  R.use(("C16",), u, "read_all")
  reads = [t for t in tm.walk(res) if t.op == "call" and tm.call_name(t) == "read"]
  if not reads:
    rep(None, "read-all", None, short(res))
    return
  for k, v in dict(reads[0].args[2]).items():
    rep(v is a[k] if k in a else None, "read-all-argument", None,
        f"{k} is {short(v)}", inst=f"read_all: {k}")
  for sizes in ((), (0,), (2,), (2, 1), (0, 1), (1, 0, 2), (0, 0), (1, 1, 1)):
    tabs = [Table(["a"], [[(i, j) for j in range(n)]]) for i, n in enumerate(sizes)]
    ev = ModelEval(lambda t: NOLEAF[t.uid], u.loops, {
        "read": lambda ev, t, tabs=tabs: tabs})
    want = [x for t in tabs for x in t.cols[0]]
    try:
      out = ev(res)
      got = [] if out is None else out.cols[0]
      rep(got == want, "read-all-rows", None,
          f"tables of {sizes} rows are returned as {got}")
      rep((out is None) == (not want), "read-all-empty", None,
          "no rows are not reported as None" if not want else "None is returned "
          "for rows")
    except Mismatch as e:
      rep(False, "read-all-rows", None, f"tables of {sizes} rows fail: {e}")
    except FAILURES as e:
      rep(fails(e), "read-all-rows", None, f"not evaluated: {e}")


NOLEAF = {}


# ----------------------------------------------------------------- a file set


NAMES = ("idx", "rec", "val")
IDS = {"idx": 3, "rec": 4, "val": 7}


def index_table(name, n, base):
  address = [{"_FILE": f"{name}.r{i % 2}", "_ROW_ID": i // 2} for i in range(n)]
  cols = {"idx": [base + i for i in range(n)], "rec": address,
          "val": [f"{name}.v{i}" for i in range(n)]}
  fields = [Field(x, "T" + x, {b"PARQUET:field_id": str(IDS[x]).encode()})
            for x in NAMES]
  return Table(NAMES, [cols[x] for x in NAMES], fields)


def read_unit(prog, fields, nfiles):
  u = Unit(prog, {"space.core.schema.arrow.arrow_schema": lambda u, r, b, t, e: u.SCH,
                  COLUMN: ext("record_column")}, module=READ_MOD)
  u.SCH = u.sym("SCHEMA")
  u.FIELDS = [u.sym("FIELD_" + n) for n in NAMES]
  for f, n in zip(u.FIELDS, NAMES):
    u.gstore[attr(f, "name")] = const(n)
  u.known_iter[u.SCH.uid] = u.FIELDS
  u.LOC = u.sym("LOC", STR)
  m = u.sym("META", ("proto", "StorageMetadata"))
  u.gstore[("c", attr(attr(m, "schema"), "record_fields"))] = lits("rec")
  fs = u.sym("FILESET", ("proto", "FileSet"))
  u.FILES = [u.sym(f"FILE{i + 1}", ("proto", "DataFile")) for i in range(nfiles)]
  u.known_iter[attr(fs, "index_files").uid] = u.FILES
  u.FILTER, u.REF, u.BS = u.sym("FILTER"), u.sym("REF", ("scalar", "bool")), u.sym(
      "BS")
  o = u.new("space.core.options.ReadOptions",
            u.FILTER, NONE if fields is None else lits(*fields), NONE, u.REF, u.BS)
  op = u.new(READ, u.LOC, m, fs, o)
  u.RESULT = u.freeze(u.meth(op, "__iter__"))
  return u


def lits(*xs):
  return seq(tuple(("i", TRUE, const(x)) for x in xs))


def file_obj(name, n, slice_=None, bitmap=None, all_rows=False):
  has = {"path"}
  f = {"path": name, "row_slice": Obj("slice", start=0, end=0),
       "row_bitmap": Obj("bitmap", all_rows=False, roaring_bitmap=[], num_rows=0)}
  if slice_ is not None:
    has.add("row_slice")
    f["row_slice"] = Obj("slice", start=slice_[0], end=slice_[1])
  if bitmap is not None or all_rows:
    has.add("row_bitmap")
    f["row_bitmap"] = Obj("bitmap", all_rows=all_rows, num_rows=n if all_rows else
                          len(bitmap), roaring_bitmap=list(bitmap or []))
  return Obj(name, has_=has, **f)


def demanded(table, obj, filt):
  rows = table.rows()
  if filt is not None:
    rows = [r for r in rows if filt(r)]
  sl = (obj.f["row_slice"].f["start"], obj.f["row_slice"].f["end"]) \
      if "row_slice" in obj.f["has_"] else None
  bm = obj.f["row_bitmap"]
  if "row_bitmap" in obj.f["has_"] and not bm.f["all_rows"]:
    keep = set(bm.f["roaring_bitmap"])
    return [r for i, r in enumerate(rows) if i in keep and (
        sl is None or sl[0] <= i < sl[1])]
  return rows[sl[0]:sl[1]] if sl is not None else rows


# (rows, slice, bitmap, all rows, filtered)
SCENARIOS = [
    (5, None, None, False, False), (0, None, None, False, False),
    (5, (1, 4), None, False, False), (5, (0, 5), None, False, False),
    (5, (3, 5), None, False, False), (5, (2, 3), None, False, False),
    (5, None, [0, 2, 4], False, False), (5, None, [1], False, False),
    (5, None, [], True, False), (5, (1, 3), [], True, False),
    (5, (1, 3), [0, 1, 2, 3], False, False), (5, (2, 5), [1, 4], False, False),
    (5, (0, 2), [3], False, False),
    (6, None, None, False, True), (6, (0, 2), None, False, True),
    (6, (1, 3), None, False, True), (6, None, [], True, True),
]


def label(s):
  n, sl, bm, al, fi = s
  p = ["slice"] if sl else []
  if al:
    p.append("all rows")
  elif bm is not None:
    p.append("bitmap")
  if fi:
    p.append("filter")
  return " and ".join(p) or ("empty file" if not n else "whole file")


@group("C16")
def file_set_rows(prog, R):
  site = def_site(prog, READ + ".__iter__")
  for fields in (None, ["val", "rec"], ["rec"], ["idx"], ["val", "idx"]):
    for nfiles in (1, 2):
      if nfiles == 2 and fields is not None:
        continue
      u = read_unit(prog, fields, nfiles)
      R.use(("C16",), u, "FileSetReadOp.__iter__")
      for s in SCENARIOS:
        inst = f"{label(s)}, fields {','.join(fields) if fields else 'all'}" + (
            ", two files" if nfiles == 2 else "")
        rep = Once(R["C16"], inst, site)
        for ref, bs in itertools.product((False, True), (None, 1, 2, 100)):
          if nfiles == 2 and bs == 1:
            continue
          one_scenario(u, rep, s, fields, ref, bs, nfiles)


def one_scenario(u, rep, s, fields, ref, bs, nfiles):
  n, sl, bm, al, filtered = s
  filt = (lambda r: r["idx"] % 3 != 1) if filtered else None
  objs = [file_obj("file1", n, sl, bm, al)]
  tabs = {"LOC/file1": index_table("file1", n, 10)}
  if nfiles == 2:
    objs.append(file_obj("file2", 3))
    tabs["LOC/file2"] = index_table("file2", 3, 31)
  m = {u.LOC.uid: "LOC", u.REF.uid: ref, u.BS.uid: bs, u.FILTER.uid: filt}
  for f, o in zip(u.FILES, objs):
    m[f.uid] = o
  for f, n_ in zip(u.FIELDS, NAMES):
    m[f.uid] = Field(n_, "T" + n_, {b"PARQUET:field_id": str(IDS[n_]).encode()})

  def read_table(ev, t):
    kw = {k: ev(v) for k, v in t.args[2]}
    a = [ev(x) for x in t.args[1]]
    src = a[0] if a else kw.get("source")
    if src not in tabs:
      raise Unknown(f"file {src}")
    tab = tabs[src]
    fl = kw.get("filters")
    if fl is not None:
      tab = tab.pick([i for i, r in enumerate(tab.rows()) if fl(r)])
    cols = kw.get("columns", a[1] if len(a) > 1 else None)
    return tab if cols is None else tab.select(cols)

  def record_column(ev, t):
    kw = {k: v for k, v in t.args[2]}
    ad = ev(kw["addresses"])
    fn = ev(kw["field"]) if "field" in kw else None
    if not isinstance(ad, Table) or len(ad.names) != 1 or ad.names[0] != fn:
      raise Wrong(f"record column {fn} is read with addresses {ad.names}")
    return [f"{x['_FILE']}:{x['_ROW_ID']}" for x in ad.cols[0]]

  ev = ModelEval(lambda t: m[t.uid], u.loops, {
      "pyarrow.parquet.read_table": read_table, "record_column": record_column,
      "pyroaring.BitMap.deserialize": lambda ev, t: ev(t.args[1][0]),
  }, u.state.store)
  want = []
  for o, tab in zip(objs, tabs.values()):
    for r in demanded(tab, o, filt):
      if not ref:
        r = dict(r)
        r["rec"] = f"{r['rec']['_FILE']}:{r['rec']['_ROW_ID']}"
      want.append({k: v for k, v in r.items() if fields is None or k in fields})
  how = f"{n} rows, slice {sl}, bitmap {bm}, batch size {bs}" + (
      ", references" if ref else "")
  try:
    out = ev.elems(u.RESULT)
    rows = [r for t in out for r in t.rows()]
    key = lambda r: sorted((k, str(v)) for k, v in r.items())  # noqa: E731
    rep([key(r) for r in rows] == [key(r) for r in want], "read-rows", None,
        f"{how}: reads {short(str(rows), 200)}, expected {short(str(want), 200)}")
    order = list(NAMES) if fields is None else fields
    last = [f for f in order if f != "rec"] + ["rec"] * ("rec" in order)
    for t in out:
      rep(list(t.names) in (order, last) or None if len(t.names) != len(order)
          else list(t.names) in (order, last), "read-columns", None,
          f"{how}: columns are {list(t.names)}, expected {order}")
    if not ref and bs and sl is None:
      rep(all(t.num_rows <= bs for t in out), "read-batches", None,
          f"{how}: batches of {[t.num_rows for t in out]}")
    if not ref:
      for t in out:
        for f in t.fields():
          if f.name == "rec":
            rep(f.type == "binary", "read-types", None, f"records have type {f.type}")
  except Wrong as e:
    rep(False, "read-records", None, str(e))
  except FAILURES as e:
    rep(fails(e), "read-rows", None, f"not evaluated: {e}")


class Wrong(Exception):
  """A definite misuse."""


# -------------------------------------------------------------- record columns


RECORD_FILE = "space.core.fs.array_record.read_record_file"


@group("C16", "C20")
def record_columns(prog, R):
  """read_record_column returns the records in the order of the addresses."""
  site = def_site(prog, COLUMN)
  orders = [[], [("a", 0)], [("a", 1), ("a", 0)], [("a", 0), ("b", 0)],
            [("b", 2), ("a", 5), ("b", 0), ("a", 1)],
            [("c", 0), ("b", 0), ("a", 0), ("c", 3), ("b", 3), ("c", 1)],
            [("a", 1), ("a", 1), ("b", 1), ("a", 1)]]
  for field in (None, "rec"):
    u = Unit(prog, {RECORD_FILE: ext("record_file")}, module=READ_MOD)
    ad = u.sym("ADDRESSES")
    paths = u.new("space.core.utils.paths.StoragePathsMixin", u.sym("LOC", STR))
    fld = const(field) if field else NONE
    res = u.freeze(u.do(COLUMN, paths, ad, *([fld] if field else [])))
    R.use(("C16", "C20"), u, "read_record_column")
    inst = "addresses of a field" if field else "addresses"
    reps = [Once(R[p], inst, site) for p in ("C16", "C20")]
    for order in orders:
      rows = [{"_FILE": f, "_ROW_ID": i} for f, i in order]
      if field:
        tab = Table([field], [rows], [Field(field, Obj("struct", fields=[
            Field("_FILE", None), Field("_ROW_ID", None)]))])
      else:
        tab = Table(["_FILE", "_ROW_ID"], [[f for f, _ in order],
                                           [i for _, i in order]])
      m = {ad.uid: tab, u.sym("LOC", STR).uid: "LOC"}
      opened = []

      def record_file(ev, t, opened=opened):
        kw = {k: ev(v) for k, v in t.args[2]}
        opened.append(kw["file_path"])
        if kw.get("positions") is None:
          raise Unknown("whole file")
        return [f"{kw['file_path']}:{i}" for i in kw["positions"]]

      ev = ModelEval(lambda t, m=m: m[t.uid], u.loops,
                     {"record_file": record_file})
      try:
        got = ev(res)
        want = [f"LOC/{f}:{i}" for f, i in order]
        for rep in reps:
          rep(got == want, "record-order", None,
              f"addresses {order} give {short(str(got), 200)}")
      except FAILURES as e:
        for rep in reps:
          rep(fails(e), "record-order", None, f"not evaluated: {e}")


@group("C16", "C20", "C23")
def record_file(prog, R):
  site = def_site(prog, RECORD_FILE)
  for given in (False, True):
    u = Unit(prog, {}, module="space.core.fs.array_record")
    p = u.sym("PATH", STR)
    pos = u.sym("POSITIONS", ("list", None)) if given else NONE
    res = u.freeze(u.do(RECORD_FILE, p, *([pos] if given else [])))
    R.use(("C16", "C20", "C23"), u, "read_record_file")
    inst = "some records" if given else "all records"
    if given:
      u.assume(not_(cmp_("is", pos, NONE)))
    reps = [Once(R[x], inst, site) for x in ("C16", "C20", "C23")]
    for posn in ([3, 1, 2], [0], []) if given else (None,):

      def make(ev, t):
        a = [ev(x) for x in t.args[1]] + [ev(v) for _, v in t.args[2]]
        if a[0] != "PATH":
          raise Wrong(f"file {a[0]} is read")

        def read(*xs):
          if not xs:
            raise Unknown("read without positions")
          if isinstance(xs[0], list):
            return [f"r{i}" for i in xs[0]]
          if len(xs) == 2:
            return [f"r{i}" for i in range(*xs)]
          raise Unknown("read")

        return Obj("reader", read=read, close=lambda: None, num_records=lambda: 5,
                   read_all=lambda: [f"r{i}" for i in range(5)])

      m = {p.uid: "PATH", pos.uid: posn} if given else {p.uid: "PATH"}
      ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, {
          "ArrayRecordReader": make})
      want = [f"r{i}" for i in (posn if given else range(5))]
      try:
        got = ev(res)
        for rep in reps:
          rep(got == want, "record-positions", None,
              f"positions {posn} read {got}")
      except Wrong as e:
        for rep in reps:
          rep(False, "record-positions", None, str(e))
      except FAILURES as e:
        for rep in reps:
          rep(fails(e), "record-positions", None, f"not evaluated: {e}")
