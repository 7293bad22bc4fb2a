"""Joins of views (C22): accepted joins, their schemas, and the pairs of rows
derived for contents, fields, ranges and views of an abstract domain."""

import posixpath

from pyflow import terms as tm
from pyflow.terms import attr, const, mk, mk_call

from rules.append import Once
from rules.base import def_site
from rules.model import Expr, Missing, Mismatch, Obj, Table
from rules.read import FAILURES, ext, reads_values, resolved_not_none
from rules.registry import group
from rules.schema import F, Schema, canon
from rules.units import STORAGE
from rules.views import (ViewEval, Views, agree, forms, happened, norm, value)

VIEW = "space.core.views.View"
JOIN = "space.core.transform.join.JoinTransform"
CONSTANTS = "space.core.schema.constants"
OPTIONS = "space.core.options."
FILE, ROW = "_FILE", "_ROW_ID"
ADDRESS = ("struct", (FILE, "string"), (ROW, "int32"))


class Data:
  """A Ray dataset: blocks of rows."""

  def __init__(self, tables):
    self.tables = list(tables)

  def each(self, fn):
    return Data([fn(t) for t in self.tables])


class Source:
  """A storage: its files, as lists of rows."""

  def __init__(self, schema, pks, recs, files):
    self.schema, self.pks, self.recs, self.files = schema, pks, recs, files

  def names(self):
    return [f.name for f in self.schema]

  def rows(self):
    return [r for f in self.files for r in f]

  def read(self, filter_=None, fields=None, references=False):
    out, n = [], 0
    # A field asked for twice is read twice.
    names = self.names() if fields is None else [
        x for x in fields if x in self.names()]
    for f in fields or ():
      if f not in self.names():
        raise Missing(f"field {f}")
    for rows in self.files:
      got = []
      for r in rows:
        r = dict(r)
        if references:
          for k in self.recs:
            r[k] = {FILE: f"data/{k}", ROW: n}
        n += 1
        if filter_ is None or filter_(r):
          got.append([r[k] for k in names])
      out.append(Table(names, [[x[i] for x in got] for i in range(len(names))],
                       [Field_(k) for k in names]))
    return out


def Field_(n):
  return F(n, None)


def inner(a, b, keys, how="inner"):
  """Rows of a join of two tables, as Arrow joins them."""
  for t in (a, b):
    for c in t.cols:
      if any(isinstance(x, dict) for x in c):
        raise Mismatch("join of a table with a column of structs")
  if how not in ("inner", "left outer", "right outer", "full outer"):
    raise Mismatch(f"join of type {how}")
  names = list(keys) + [n for n in a.names if n not in keys] + [
      n for n in b.names if n not in keys]
  if len(set(names)) != len(names):
    raise KeyError(f"columns {names}")
  la, lb = a.rows(), b.rows()
  out, seen = [], set()
  for x in la:
    hit = False
    for j, y in enumerate(lb):
      if all(x[k] is not None and x[k] == y[k] for k in keys):
        hit = True
        seen.add(j)
        out.append({**y, **x})
    if not hit and how in ("left outer", "full outer"):
      out.append(dict(x))
  if how in ("right outer", "full outer"):
    out += [dict(y) for j, y in enumerate(lb) if j not in seen]
  return Table(names, [[r.get(n) for r in out] for n in names],
               [Field_(n) for n in names])


class JoinEval(ViewEval):
  """Ray datasets and tables as their rows."""

  model = None

  def getattr(self, v, name):
    if v is None:
      raise Mismatch(f"{name} of None")
    if isinstance(v, Obj) and v.term is not None and name not in v.f:
      t = attr(v.term, name)
      if t in (self.store or ()):
        return self(self.store[t])
    if name == "type" and isinstance(v, list) and getattr(v, "type", 0) in (0, None):
      return Obj("type of an array")
    return super().getattr(v, name)

  def elems(self, t):
    v = super().ev(t) if t.op in ("const", "sym") else ()
    if v is None:
      raise Mismatch("elements of None")
    return super().elems(t)

  def isinstance(self, v, cls):
    if isinstance(v, Data):
      return str(cls.args[0]).endswith("Dataset")
    return super().isinstance(v, cls)

  def compute(self, t, last):
    v = super().compute(t, last)
    if last == "field" and isinstance(v, Expr):
      name = v.text if hasattr(v, "text") else None
      n = self(t.args[1][0])

      def fn(r):
        if n not in r:
          raise Missing(f"filter on field {n}")
        return r[n]

      return Expr(fn, name or n)
    return v

  def call(self, t):
    f, args, kwargs = t.args
    name = tm.call_name(t)
    kw = lambda: {k: self(v) for k, v in kwargs}  # noqa: E731
    xs = lambda: [self(x) for x in args]  # noqa: E731
    if name == "source_data":
      k = kw()
      if k["snapshot_id"] is not None:
        raise KeyError("snapshot")
      return Data(self.model.source[id(k["storage"])].read(
          k["filter_"], k["fields"], k["reference_read"]))
    if name == "index_manifest":
      return self.model.manifests(self(dict(kwargs)["storage"]))
    if name.split(".")[-1] == "from_arrow_refs":
      v = self.elems(args[0] if args else kwargs[0][1])
      if any(x is None for x in v):
        raise Mismatch("a block of a Ray dataset is None")
      return Data(v)
    if name.split(".")[-1] == "from_arrow" and "ray" in name:
      v = self(args[0] if args else kwargs[0][1])
      v = v if isinstance(v, list) else [v]
      if any(x is None for x in v):
        raise Mismatch("a block of a Ray dataset is None")
      return Data(v)
    if name.split(".")[-1] == "read_table" and "parquet" in name:
      return self.model.data_file(xs(), kw())
    if f.op == "ext" and name in ("min", "max", "len", "list", "set", "sorted"):
      if any(x is None for x in xs()):
        raise Mismatch(f"{name} of None")
    if f.op == "attr":
      m = f.args[1]
      if m != "as_py" and f.args[0].op in ("call", "ite") and \
          self(f.args[0]) is None:
        raise Mismatch(f"{m} of None")
      if m in ("select_columns", "map_batches", "filter", "iter_batches",
               "remove_metadata", "field", "join", "empty_table", "column", "union",
               "drop_columns"):
        r = self(f.args[0])
        if r is None:
          raise Mismatch(f"{m} of None")
        if isinstance(r, Data):
          return self.data_method(r, m, xs(), kw())
        if isinstance(r, Table) and m == "join":
          return self.join(r, xs(), kw())
        if isinstance(r, Table) and m == "column":
          n = (xs() + list(kw().values()))[0]
          if isinstance(n, str) and n not in r.names:
            raise Missing(f"column {n} of a table with {r.names}")
        if m == "remove_metadata":
          return F(r.name, r.type)
        if m == "empty_table" and isinstance(r, list):
          return Table([x.name for x in r], [[] for _ in r])
        if m == "field" and isinstance(r, list) and r and isinstance(r[0], dict):
          n = (xs() + list(kw().values()))[0]
          return [None if x is None else x[n] for x in r]
    return super().call(t)

  def data_method(self, r, m, xs, kw):
    if m == "iter_batches":
      # Blocks may be empty.
      if kw.get("batch_size", xs[0] if xs else 256) is not None or \
          kw.get("batch_format") != "pyarrow":
        raise KeyError("iter_batches")
      return list(r.tables)
    if m == "union":
      return Data(r.tables + [t for x in xs for t in x.tables])
    a = (xs + list(kw.values()))[0]
    if m == "select_columns":
      for n in a:
        for t in r.tables:
          if n not in t.names:
            raise Missing(f"select {n} of {t.names}")
      return r.each(lambda t: t.select(a))
    if m == "drop_columns":
      return r.each(lambda t: t.select([n for n in t.names if n not in a]))
    fn = a if isinstance(a, Obj) else [x for x in xs + list(kw.values())
                                       if isinstance(x, Obj)][0]
    return r.each(fn.f["fn"])

  def join(self, a, xs, kw):
    ps = ["right_table", "keys", "right_keys", "join_type", "left_suffix",
          "right_suffix", "coalesce_keys", "use_threads"]
    kw = {**dict(zip(ps, xs)), **kw}
    keys = kw["keys"]
    keys = [keys] if isinstance(keys, str) else list(keys)
    rk = kw.get("right_keys")
    rk = keys if rk is None else [rk] if isinstance(rk, str) else list(rk)
    if rk != keys or any(kw.get(k) not in (None, True) for k in ps[4:]):
      raise KeyError("join options")
    for t in (a, kw["right_table"]):
      for k in keys:
        if k not in t.names:
          raise Missing(f"join key {k} of {t.names}")
        if t.names.count(k) > 1:
          raise Mismatch(f"several columns {k} in {t.names}")
    return inner(a, kw["right_table"], keys, kw.get("join_type", "left outer"))


class Joins(Views):
  """Views over two datasets."""

  def __init__(self, prog, cuts=()):
    self.source, self.order, self.given = {}, {}, []
    self.stats, self.at = {}, {}
    c = {STORAGE + ".ray_dataset": self.read, STORAGE + ".index_manifest":
         self.listed}
    c.update(cuts or {})
    super().__init__(prog, None, c)
    self.all_sets = {}

  def ev(self):
    e = JoinEval(lambda t: self.m[t.uid], self.u.loops, {}, self.u.state.store)
    e.model = self
    return e

  def add(self, src, location):
    sets = dict(self.all_sets)
    ds, st = self.dataset(src.schema, src.pks, src.recs, location)
    sets.update(self.sets)
    self.sets = self.all_sets = sets
    self.source[id(self.m[st.uid])] = src
    self.at[location] = src
    return ds, st

  @staticmethod
  def read(u, recv, bound, t, ev):
    o = bound["read_options"]
    return mk_call(mk("ext", "source_data"), (), tuple(
        (n, u.freeze(u.get(o, n))) for n in (
            "batch_size", "fields", "filter_", "reference_read", "snapshot_id")) + (
                ("storage", recv),))

  @staticmethod
  def listed(u, recv, bound, t, ev):
    if any(v is not tm.NONE for k, v in bound.items() if k != "self"):
      return None
    return mk_call(mk("ext", "index_manifest"), (), (("storage", recv),))

  def manifests(self, storage):
    """Index manifests of several files, with statistics of primary keys."""
    src = self.source[id(storage)]
    out = []
    n = 0
    for part in (src.files[:-1], src.files[-1:]):
      if not part:
        continue
      cols = [("_FILE", [f"data/{n + i}" for i in range(len(part))]),
              ("_NUM_ROWS", [len(rows) for rows in part])]
      for f in src.schema:
        if f.name in src.pks:
          v = [[r[f.name] for r in rows] for rows in part]
          v = [[y for y in x if y is not None] for x in v]
          # Parquet keeps no statistics of values that are too large.
          v = [[] if any(y >= LARGE for y in x) else x for x in v]
          cols.append((self.stats_name(f), [
              {"_MIN": min(x, default=None), "_MAX": max(x, default=None)}
              for x in v]))
      n += len(part)
      out.append(Table([c[0] for c in cols], [c[1] for c in cols]))
    return out

  def data_file(self, xs, kw):
    """The columns read from a data file."""
    kw = {**dict(zip(("source", "columns"), xs)), **kw}
    path, cols = posixpath.normpath(kw.pop("source")), kw.pop("columns", None)
    loc, name = path.split("/data/")
    if any(v is not None for v in kw.values()) or loc not in self.all_sets:
      raise KeyError("options of a read")
    src = self.at[loc]
    rows = src.files[int(name)]
    names = src.names() if cols is None else list(cols)
    for n in names:
      if n not in src.names():
        raise Missing(f"no column {n} in a data file")
    return Table(names, [[r[n] for r in rows] for n in names],
                 [Field_(n) for n in names])

  def stats_name(self, f):
    i = int(f.metadata[b"PARQUET:field_id"]) if isinstance(
        f.metadata, dict) else f.metadata
    if i not in self.stats:
      self.stats[i] = value(self, self.u.do(
          "space.core.schema.utils.stats_field_name", const(i)))
    return self.stats[i]


LEFT = Schema([F("x", "int64", 0), F("id", "int64", 1), F("rec", "binary", 2),
               F("n", "string", 3)])
RIGHT = Schema([F("t", "string", 0), F("id", "int64", 1), F("y", "int64", 2),
                F("img", "binary", 3)])
MAPPED = Schema([F("id", "int64"), F("m", "string")])


# Stands for a value too large for the statistics of Parquet.
LARGE = 10**6


def lrow(k, tag=""):
  # Other values are far from the keys.
  return {"x": 1000 + (k or 0), "id": k, "rec": f"rec{k}{tag}", "n": f"n{k}{tag}"}


def rrow(k, tag=""):
  return {"t": f"t{k}{tag}", "id": k, "y": 2000 - (k or 0), "img": f"img{k}{tag}"}


def files(row, *groups):
  return [[row(k) for k in g] for g in groups]


CONTENTS = {
    "overlapping keys": (files(lrow, [1, 5], [3, 9]), files(rrow, [9, 3], [4, 12])),
    "a key at both ends": (files(lrow, [1, 2, 3]), files(rrow, [3, 4, 7])),
    "a key at the other ends": (files(lrow, [7, 8], [11]), files(
        rrow, [3, 7], [4, 5])),
    "keys of one side within the other": (files(lrow, [0, 20], [10]), files(
        rrow, [5, 10], [15])),
    "no common keys": (files(lrow, [1, 4]), files(rrow, [2, 3], [5])),
    "disjoint ranges": (files(lrow, [1, 2]), files(rrow, [8, 9])),
    "several files": (files(lrow, [4, 5], [1, 9], [6, 7], [2]), files(
        rrow, [6, 8], [9], [1], [5, 7], [3])),
    "files in order": (files(lrow, [1], [2], [3]), files(rrow, [3], [2], [1])),
    "one key": (files(lrow, [4]), files(rrow, [4])),
    "negative keys and zero": (files(lrow, [-3, 0], [2]), files(rrow, [0, -3], [-9])),
    "null keys": (files(lrow, [1, None], [3, 9]), files(rrow, [9, 3], [None, 4])),
    "a file of null keys": (files(lrow, [1, 9], [None]), files(rrow, [None], [1, 4])),
    "zero before other keys": (files(lrow, [0], [5]), files(rrow, [0], [3], [5])),
    "zero after other keys": (files(lrow, [-4], [0]), files(rrow, [0], [-4])),
    "zero only": (files(lrow, [0]), files(rrow, [0])),
    "keys without statistics": (files(lrow, [1, 9], [LARGE, 2]), files(
        rrow, [4, 1], [2, LARGE], [LARGE + 1])),
    "keys without statistics on one side": (files(lrow, [LARGE]), files(
        rrow, [4, LARGE])),
    "null keys and keys without statistics": (files(
        lrow, [None], [LARGE + 2, None]), files(rrow, [LARGE + 2], [None, 3])),
    "only null keys": (files(lrow, [1, 9], [4]), files(rrow, [None], [None])),
    "null keys of one file": (files(lrow, [None]), files(rrow, [1, 4])),
    "an empty left": ([], files(rrow, [1])),
    "an empty right": (files(lrow, [1]), []),
    "two empty sides": ([], []),
    "repeated keys": ([[lrow(1, "a"), lrow(1, "b"), lrow(2)], [lrow(1, "c")]],
                      [[rrow(1, "a"), rrow(3)], [rrow(1, "b"), rrow(2)]]),
}


def rng(lo, hi, inc=False):
  return (lo, hi, inc)


# Partitions of a range, given its bounds.
PARTITIONS = {
    "halves": lambda a, b: [rng(a, (a + b) // 2), rng((a + b) // 2, b, True)],
    "keys": lambda a, b: [rng(k, k, True) for k in range(a, b + 1)],
    "unordered": lambda a, b: [rng(b, b, True), rng(a, b)],
    "part of the range": lambda a, b: [rng(a + 1, b)],
    "no ranges": lambda a, b: [],
}


def tables(rows, names):
  return sorted(tuple(norm(cell(r[n])) for n in names) for r in rows)


def cell(x):
  return ("address", x[FILE], x[ROW]) if isinstance(x, dict) else x


def map_rows(t):
  rows = [{"id": r["id"], "m": f"m{r['id']}"} for r in t.rows()]
  return Table(["id", "m"], [[r[n] for r in rows] for n in ("id", "m")],
               [Field_("id"), Field_("m")])


def odd_rows(t):
  return t.pick([i for i, r in enumerate(t.rows()) if r["id"] % 2])


def side(mo, src, location, how):
  """A view over a source: the view, its rows, names and record fields."""
  u = mo.u
  ds, _ = mo.add(src, location)
  rows = [r for t in src.read() for r in t.rows()]
  refs = [r for t in src.read(references=True) for r in t.rows()]
  schema, recs = src.schema, src.recs
  if how == "a map":
    fn = mo.sym("FN", Obj("map", fn=map_rows))
    v = u.meth(ds, "map_batches", fn=fn, output_schema=mo.sym("OUT", MAPPED))
    rows = refs = [{"id": r["id"], "m": f"m{r['id']}"} for r in rows]
    return v, rows, refs, MAPPED, []
  if how == "a filter":
    fn = mo.sym("FN", Obj("filter", fn=odd_rows))
    v = u.meth(ds, "filter", fn)
    rows, refs = ([r for r in x if r["id"] % 2] for x in (rows, refs))
    return v, rows, refs, schema, recs
  return ds, rows, refs, schema, recs


def expected(key, sides, lists, reads, keep):
  """Rows of the join and its fields."""
  names, out = [], []
  for (_, _, _, schema, recs), fields in zip(sides, lists):
    names += [n for n in ([f.name for f in schema] if fields is None else fields)
              if n != key]
  a, b = (s[2] if ref else s[1] for s, ref in zip(sides, reads))
  for x in a:
    for y in b:
      if x[key] == y[key] and keep(x[key]):
        out.append({**x, **y})
  return [key] + names, out


def joined_types(key, sides, lists, reads):
  out = []
  for i, ((_, _, _, schema, recs), fields, ref) in enumerate(
      zip(sides, lists, reads)):
    by = {f.name: canon(f.type) for f in schema}
    if not i:
      out.append((key, by[key]))
    for n in [f.name for f in schema] if fields is None else fields:
      if n != key:
        out.append((n, ADDRESS if ref and n in recs else by[n]))
  return out


def in_ranges(ranges):
  def keep(k):
    return any(a <= k and (k <= b if inc else k < b) for a, b, inc in ranges)
  return keep


def missing(mo, e):
  """What the conditions of an event refer to that does not exist."""
  for c in e.cond:
    try:
      mo.ev()(c)
    except (Missing, Mismatch) as x:
      return x
    except FAILURES:
      pass
  return None


def check_join(prog, R, how, content, lists=(None, None), reads=(False, False),
               part=None, kinds=("", ""), pks=("id", "id")):
  rep = Once(R["C22"], "join", def_site(prog, VIEW + ".join"))
  mo = Joins(prog)
  u = mo.u
  left = Source(LEFT, [pks[0]] if isinstance(pks[0], str) else pks[0], ["rec"],
                content[0])
  right = Source(RIGHT, [pks[1]] if isinstance(pks[1], str) else pks[1], ["img"],
                 content[1])
  sides = [side(mo, left, "/left", kinds[0]), side(mo, right, "/right", kinds[1])]
  kw = {}
  for n, fs in zip(("left_fields", "right_fields"), lists):
    if fs is not None:
      kw[n] = mo.sym(n.upper(), list(fs))
  for n, x in zip(("left_reference_read", "right_reference_read"), reads):
    if x:
      kw[n] = const(True)
  k = u.mark()
  v = u.meth(sides[0][0], "join", sides[1][0], keys=mo.sym("KEYS", ["id"]), **kw)
  bad = happened(mo, u.since(k))
  if bad or not u.state.live:
    rep(False if bad and mo.sure(bad[0]) else None, "join-built",
        bad[0].where if bad else None, f"{how}: fails")
    return
  sch = value(mo, u.get(v, "schema"))
  agree(mo, rep, "join-schema", sch if isinstance(sch, Exception) else forms(sch),
        joined_types("id", sides, lists, reads), f"{how}: the schema")
  names, rows = expected("id", sides, lists, reads, lambda k: True)
  agree(mo, rep, "join-keys", value(mo, u.get(v, "primary_keys")), ["id"],
        f"{how}: the primary keys")
  agree(mo, rep, "join-record-fields", value(mo, u.get(v, "record_fields")),
        [n for n in names if any(n in s[4] for s in sides)],
        f"{how}: the record fields", order=False)

  src = value(mo, u.get(v, "sources"))
  agree(mo, rep, "join-sources", src if isinstance(src, Exception) else list(src),
        ["/left", "/right"], f"{how}: the sources", order=False)

  given, ranges = [], []

  def fn(r):
    lo, hi, inc = (mo.ev().getattr(r, n) for n in (
        "min_", "max_", "include_max"))
    given.append((lo, hi, inc))
    ranges[:] = part(lo, hi)
    return [Obj("range", min_=a, max_=b, include_max=i) for a, b, i in ranges]

  opts = {}
  if part is not None:
    opts["partition_fn"] = mo.sym("PARTITION_FN", fn)
  k = u.mark()
  res = u.meth(v, "ray_dataset", join_options=u.new(OPTIONS + "JoinOptions", **opts))
  bad = happened(mo, u.since(k))
  if bad or not u.state.live:
    why = bad and missing(mo, bad[0])
    rep(False if bad and (mo.sure(bad[0]) or why and mo.sure()) else None,
        "join-read", bad[0].where if bad else None,
        f"{how}: reading fails {why or ''}")
    return
  try:
    got = mo.ev()(u.freeze(res))
    if not isinstance(got, Data):
      raise KeyError("dataset")
  except FAILURES as e:
    rep(False if isinstance(e, (Missing, Mismatch)) and mo.sure() else None,
        "join-read", None, f"{how}: {type(e).__name__} {e}")
    return
  if part is not None:
    rows = expected("id", sides, lists, reads, in_ranges(ranges))[1]
    common = {r["id"] for r in sides[0][1]} & {r["id"] for r in sides[1][1]}
    for lo, hi, inc in given[-1:]:
      rep(all(in_ranges([(lo, hi, inc)])(x) for x in common) or (
          False if mo.sure() else None), "join-range", None,
          f"{how}: keys {sorted(common)} are partitioned from {lo} to {hi}"
          + ("" if inc else ", exclusive"))
  for t in got.tables:
    if t.num_rows or t.names:
      rep(t.names == names or (False if mo.sure() else None), "join-fields", None,
          f"{how}: returns columns {t.names}, expected {names}")
  out = [r for t in got.tables for r in t.rows()]
  try:
    a, b = tables(out, names), tables(rows, names)
  except (KeyError, TypeError):
    return
  rep(a == b or (False if mo.sure() else None), "join-rows", None,
      f"{how}: returns {a}, expected {b}")
  R.use(("C22",), u, how)


FIELDS = {
    "all fields": (None, None),
    "some fields": (["n", "id"], ["y", "t", "id"]),
    "fields without the key": (["rec", "x"], ["y"]),
    "fields of the left side": (["rec"], None),
    "fields in another order": (["id", "n", "x", "rec"], ["y", "id", "img"]),
    "fields of the right side": (None, ["img", "id"]),
}
READS = {"": (False, False), ", references of the left": (True, False),
         ", references of the right": (False, True),
         ", references": (True, True)}


@group("C22")
def contents(prog, R):
  """Joins of all contents."""
  for how, c in CONTENTS.items():
    check_join(prog, R, how, c)


@group("C22")
def fields(prog, R):
  """Selected fields and references."""
  c = CONTENTS["overlapping keys"]
  for how, fs in FIELDS.items():
    for ref, reads in READS.items():
      check_join(prog, R, how + ref, c, fs, reads)


@group("C22")
def ranges(prog, R):
  """Ranges given by the caller."""
  for how, p in PARTITIONS.items():
    for what in ("overlapping keys", "a key at both ends", "one key",
                 "keys of one side within the other", "an empty right",
                 "several files"):
      check_join(prog, R, f"{what}, {how}", CONTENTS[what], part=p)


@group("C22")
def join_views(prog, R):
  """Joins of views."""
  for kinds in (("a map", ""), ("", "a map"), ("a filter", "a map"),
                ("a filter", "a filter")):
    for what in ("overlapping keys", "a key at both ends", "an empty left",
                 "keys of one side within the other"):
      check_join(prog, R, f"{what}, {kinds[0] or 'a dataset'} with "
                 f"{kinds[1] or 'a dataset'}", CONTENTS[what], kinds=kinds)
      # Statistics of two primary keys.
      check_join(prog, R, f"{what}, two keys, {kinds[0] or 'a dataset'} with "
                 f"{kinds[1] or 'a dataset'}", CONTENTS[what], kinds=(
                     "" if kinds[0] == "a map" else kinds[0],
                     "" if kinds[1] == "a map" else kinds[1]),
                 pks=(["x", "id"], ["id", "y"]))


def two_views(prog, pks=(["id"], ["id"])):
  mo = Joins(prog)
  c = CONTENTS["overlapping keys"]
  views = [mo.add(Source(LEFT, pks[0], ["rec"], c[0]), "/left")[0],
           mo.add(Source(RIGHT, pks[1], ["img"], c[1]), "/right")[0]]
  return mo, views


@group("C22")
def refused(prog, R):
  """Joins that could not return all pairs or all fields are refused."""
  for how, pks, keys, lists, valid in (
      ("no key", (["id"], ["id"]), [], (None, None), False),
      ("two keys", (["id", "x"], ["id", "x"]), ["id", "x"], (None, None), False),
      ("a key that is no primary key of the left", (["x"], ["id"]), ["id"],
       (None, None), False),
      ("a key that is no primary key of the right", (["id"], ["y"]), ["id"],
       (None, None), False),
      ("a key of no side", (["id"], ["id"]), ["zz"], (None, None), False),
      ("no fields of the left", (["id"], ["id"]), ["id"], ([], None), False),
      ("no fields of the right", (["id"], ["id"]), ["id"], (None, []), False),
      ("only the key of the left", (["id"], ["id"]), ["id"], (["id"], None), False),
      ("only the key of the right", (["id"], ["id"]), ["id"], (["x"], ["id"]),
       False),
      ("an unknown field of the left", (["id"], ["id"]), ["id"], (["zz"], ["t"]),
       False),
      ("an unknown field of the right", (["id"], ["id"]), ["id"], (["x"], ["zz"]),
       False),
      ("one of two primary keys", (["x", "id"], ["id", "y"]), ["id"],
       (["x"], ["t"]), True),
      ("the fields with the key", (["id"], ["id"]), ["id"],
       (["id", "x"], ["t", "id"]), True)):
    rep = Once(R["C22"], "join", def_site(prog, VIEW + ".join"))
    mo, (a, b) = two_views(prog, pks)
    u = mo.u
    kw = {n: mo.sym(n.upper(), fs) for n, fs in zip(
        ("left_fields", "right_fields"), lists) if fs is not None}
    k = u.mark()
    v = u.meth(a, "join", b, keys=mo.sym("KEYS", keys), **kw)
    bad = happened(mo, u.since(k))
    if not bad and not valid and isinstance(
        value(mo, u.get(v, "schema")), (KeyError, Missing)):
      # A schema has no such field.
      rep(True, "join-refused")
    elif valid:
      rep(not bad or (False if mo.sure(bad[0]) else None), "join-valid",
          bad[0].where if bad else None, f"{how}: refused")
    else:
      rep(True if bad and not u.state.live else (
          False if not bad and u.state.live and mo.sure() else None),
          "join-refused", None, f"{how}: accepted")
    R.use(("C22",), u, how)


@group("C22")
def read_options(prog, R):
  """A join refuses the read options that it does not apply."""
  for name, v in (("fields", ["x"]), ("filter_", Obj("filter")),
                  ("reference_read", True), ("snapshot_id", 3)):
    rep = Once(R["C22"], name, def_site(prog, JOIN + "._ray_dataset"))
    mo, (a, b) = two_views(prog)
    u = mo.u
    join = u.meth(a, "join", b, keys=mo.sym("KEYS", ["id"]))
    k = u.mark()
    u.meth(join, "ray_dataset", read_options=u.new(
        OPTIONS + "ReadOptions", **{name: const(v) if isinstance(
            v, (bool, int)) else mo.sym("OPTION", v)}))
    bad = happened(mo, u.since(k))
    rep(True if bad and not u.state.live else (
        False if not bad and u.state.live and mo.sure() else None),
        "option-refused", None, f"{name} is accepted and not applied")
    R.use(("C22",), u, name)


RUNNER = "space.ray.runners.RayReadOnlyRunner"


@group("C05", "C11")
def reloaded(prog, R):
  """Views are read, and their changes too, after reloading every source."""
  for how in ("a dataset", "a map", "a join"):
    for what in ("read", "diff"):
      if how == "a join" and what == "diff":
        continue
      site = def_site(prog, f"{RUNNER}.{what}")
      changes = "space.core.ops.change_data.read_change_data"
      mo = Joins(prog, {
          STORAGE + ".reload": ext("reloaded"), changes: ext("changes"),
          "space.ray.ops.change_data.read_change_data": ext("changes"),
          STORAGE + ".version_to_snapshot_id": ext("snapshot_of")})
      u = mo.u
      c = CONTENTS["overlapping keys"]
      v, st = mo.add(Source(LEFT, ["id"], ["rec"], c[0]), "/left")
      sts = [st]
      if how == "a join":
        ds, st = mo.add(Source(RIGHT, ["id"], ["img"], c[1]), "/right")
        v = u.meth(v, "join", ds, keys=mo.sym("KEYS", ["id"]))
        sts.append(st)
      elif how == "a map":
        v = u.meth(v, "map_batches", fn=mo.sym("FN", Obj("fn")),
                   output_schema=mo.sym("OUT", MAPPED))
      r = u.meth(v, "ray")
      k = u.mark()
      a = u.sym("START"), u.sym("END")
      if what == "read" and how != "a join":
        u.freeze(u.meth(r, what, version=const("tag")))
      else:
        u.freeze(u.meth(r, what, *(a if what == "diff" else [])))
      evs = u.since(k)
      R.use(("C05", "C11"), u, f"{what} of {how}")
      used = [e for e in evs if e.kind == "cut" and e.name in (
          STORAGE + ".ray_dataset", STORAGE + ".index_manifest",
          "space.ray.ops.change_data.read_change_data",
          STORAGE + ".version_to_snapshot_id")]
      if all(e.name.endswith("version_to_snapshot_id") for e in used):
        R["C05"].undecided("read-reloads", f"{what} of {how}", site,
                           "no source is read")
        continue
      for e in used if what == "diff" else ():
        if e.name.endswith("version_to_snapshot_id"):
          continue
        reads_values(R, u, e, f"diff of {how}")
        for n, x in zip(("start_snapshot_id", "end_snapshot_id"), a):
          got = e.kwargs.get(n)
          for p in ("C05", "C11"):
            if got is None:
              R[p].undecided("diff-versions", f"{how}: {n}", e.where,
                             "no such argument")
            else:
              R[p].same(u.freeze(got), resolved_not_none(x), "diff-versions",
                        f"{how}: {n}", e.where)
      for i, st in enumerate(sts):
        rel = [e for e in u.calls(STORAGE + ".reload", events=evs)
               if e.recv is st]
        sure = [e for e in rel if not e.loops and all(
            mo.decide(x) for x in e.cond)]
        R["C05"].check(
            False if not rel or rel[0].i > used[0].i else True if sure and
            sure[0].i < used[0].i else None, "read-reloads",
            f"{what} of {how}: source {i}", site,
            "reads without reloading the storage first")
