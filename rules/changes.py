"""The change feed: which snapshots, in which order, and their rows (C11), and
the distribution of its rows over Ray read streams (C19)."""

from pyflow import terms as tm
from pyflow.terms import NONE, const, mk, mk_call
from rules.append import Once
from rules.base import Unit, def_site, short
from rules.insert import rows_of
from rules.model import ModelEval, Obj, Table, fails, trace
from rules.read import FAILURES, ext
from rules.registry import group
from rules.units import READ, STORAGE, runner_unit

ORDERED = "space.core.ops.change_data.ordered_snapshot_ids"
INT = ("scalar", "int")

# Histories: snapshot -> parent.
HISTORIES = [
    {0: None}, {0: None, 1: 0}, {0: None, 1: 0, 2: 1, 3: 2, 4: 3},
    {0: None, 1: 0, 2: 1, 3: 1, 4: 2, 5: 3},
    {0: None, 1: 0, 2: 0, 3: 0, 4: 2},
    {0: None, 1: 0, 2: 1, 3: 0, 4: 1, 5: 2, 6: 4},
    {0: None, 1: 0, 8: 1, 9: 8, 10: 9, 11: 10, 12: 9, 101: 11},
]


def typed(name, typ):
  def h(u, recv, bound, t, ev):
    r = mk_call(mk("ext", name), (), tuple(sorted(
        (k, u.freeze(v)) for k, v in bound.items())))
    u._types[r.uid] = typ  # pylint: disable=protected-access
    return r
  return h


@group("C11")
def ordered_ids(prog, R):
  site = def_site(prog, ORDERED)
  u = Unit(prog, {STORAGE + ".snapshot": typed("snapshot", ("proto", "Snapshot"))},
           module="space.core.ops.change_data")
  st = u.inst("STORAGE", STORAGE)
  a, b = u.sym("START", INT), u.sym("END", INT)
  k = u.mark()
  res = u.freeze(u.do(ORDERED, st, a, b))
  raises = [e for e in u.since(k) if e.kind == "raise"]
  R.use(("C11",), u, "ordered_snapshot_ids")
  rep = Once(R["C11"], "snapshots of a diff", site)
  for hist in HISTORIES:
    snaps = {}
    for i, p in hist.items():
      snaps[i] = Obj(f"snapshot{i}", snapshot_id=i, parent_snapshot_id=p or 0,
                     has_={"snapshot_id", "parent_snapshot_id"} if p is not None
                     else {"snapshot_id"})
      snaps[i].f["HasField"] = lambda n, o=snaps[i]: n in o.f["has_"]

    def snapshot(ev, t, snaps=snaps):
      i = ev(dict(t.args[2])["snapshot_id"])
      if i not in snaps:
        raise Lookup(i)
      return snaps[i]

    for x in hist:
      for y in hist:
        chain = []
        z = y
        while z is not None and z != x:
          chain.insert(0, z)
          z = hist[z]
        want = chain if z == x and chain else None
        m = {a.uid: x, b.uid: y}
        ev = ModelEval(lambda t, m=m, s=snaps: s if t.op == "attr" and
                       t.args[1] == "snapshots" else m[t.uid], u.loops,
                       {"snapshot": snapshot}, u.state.store)
        how = f"snapshots (with parents) {hist}, from {x} to {y}"
        try:
          bad = list(trace(ev, raises))
          if want is None:
            if x == y:
              continue
            rep(bool(bad), "diff-not-ancestor", None, f"{how}: no error")
          elif bad:
            rep(False, "diff-snapshots", None, f"{how}: fails")
          else:
            got = ev(res)
            rep(got == want, "diff-snapshots", None,
                f"{how}: reads the changes of {got}, expected {want}")
        except Lookup as e:
          if want is not None:
            rep(False, "diff-snapshots", None, f"{how}: reads snapshot {e}")
        except FAILURES as e:
          rep(fails(e), "diff-snapshots", None, f"{how}: not evaluated: {e}")


class Lookup(Exception):
  """A snapshot that does not exist is asked for."""


READ_PROTO = "space.core.fs.arrow.ArrowLocalFileSystem.read_proto"


def read_proto(u, recv, bound, t, ev):
  """A message read from a file: a function of the path."""
  msg = bound.get("empty_msg", bound.get("msg"))
  for v in bound.values():
    v = u.freeze(v) if isinstance(v, tm.T) else v
    if isinstance(v, tm.T) and v.op == "msg":
      msg = v
  ty = msg.args[0] if msg is not None and msg.op == "msg" else None
  path = [v for k, v in bound.items() if "path" in k]
  if ty is None or not path:
    return None
  r = mk_call(mk("ext", "read_proto"), (), (("path", u.freeze(path[0])),
                                            ("type", const(ty))))
  u._types[r.uid] = ("proto", ty)  # pylint: disable=protected-access
  return r


# Change logs of the snapshots: deleted and added (file, rows or None for all).
LOGS = {
    3: ([], [("f1", None)]),
    5: ([("f1", [0, 2])], []),
    6: ([("f1", None), ("f2", [1])], [("f3", None), ("f4", None), ("f5", [0, 3])]),
    9: ([], []),
    11: ([("f3", [4]), ("f4", None)], [("f6", None)] * 1),
}
ROWS = {"f1": 4, "f2": 3, "f3": 5, "f4": 1, "f5": 4, "f6": 12}
ALL = ["k", "v", "l"]
FEEDS = [[], [3], [5], [6], [3, 5, 6], [9, 6, 11], [9]] + [["many"]]


def bitmap(f, rows):
  o = Obj("bitmap of " + f, file=f, all_rows=rows is None,
          num_rows=ROWS.get(f, 2),
          roaring_bitmap=[] if rows is None else rows)
  o.f["has_"] = set(o.f)
  return o


def read_rows(df, fields):
  """The rows of a DataFile message of the model."""
  f = df[".path"]
  rows = list(range(ROWS.get(f, 2)))
  b = df.get(".row_bitmap")
  if b is not None:
    b = b if isinstance(b, Obj) else None
    if b is None:
      raise TypeError("bitmap")
    if not b.f["all_rows"]:
      rows = [r for r in rows if r in b.f["roaring_bitmap"]]
  elif any(k.startswith(".row_bitmap") for k in df):
    d = {k[len(".row_bitmap"):]: v for k, v in df.items() if k.startswith(
        ".row_bitmap")}
    if not d.get(".all_rows"):
      rows = [r for r in rows if r in d.get(".roaring_bitmap", [])]
  if any(k.startswith(".row_slice") for k in df):
    rows = [r for r in rows if df.get(".row_slice.start", 0) <= r < df.get(
        ".row_slice.end", 0)]
  names = ALL if fields is None else fields
  return Table(names, [[(n, f, r) for r in rows] for n in names])


@group("C11", "C19")
def feed(prog, R):
  for kind in ("local", "ray"):
    cls = ("space.core.runners.LocalRunner" if kind == "local" else
           "space.ray.runners.RayReadWriterRunner")
    site = def_site(prog, cls + ".diff")
    u, ds, r, st, meta, loc = runner_unit(prog, kind, cuts={
        READ + ".__init__": None, READ + ".__iter__": rows_of,
        READ_PROTO: read_proto, ORDERED: ext("ordered"),
        STORAGE + ".version_to_snapshot_id": ext("snapshot_of")})
    u.forget()
    k = u.mark()
    res = u.freeze(u.meth(r, "diff", u.sym("A"), u.sym("B")))
    evs = [e for e in u.since(k) if e.kind == "raise"]
    R.use(("C11", "C19"), u, f"{kind} diff")
    reps = [Once(R[p], f"{kind} diff", site) for p in
            (("C11", "C19") if kind == "ray" else ("C11",))]

    def rep(*a, **kw):
      for x in reps:
        x(*a, **kw)

    for ids in FEEDS:
      for n in range(1, 20) if ids == ["many"] else (0,):
        for keys in (["k"], ["k", "l"], ["l", "k", "v"])[:1 if n else 3]:
          one_feed(u, res, evs, meta, ids, n, rep, keys)


def one_feed(u, res, raises, meta, ids, n, rep, keys):
  logs = LOGS
  if ids == ["many"]:
    ids = [7]
    logs = {7: ([("g0", None)], [(f"g{i}", None) for i in range(n)])}
  how = f"primary keys {keys}, change logs {[logs[i] for i in ids]}"
  protos = {f"LOC/metadata/{i}.txtpb": Obj(
      f"log{i}", deleted_rows=[bitmap(*x) for x in logs[i][0]],
      added_rows=[bitmap(*x) for x in logs[i][1]]) for i in ids}
  snaps = {i: Obj(f"snapshot{i}", snapshot_id=i, change_log_file=
                  f"metadata/{i}.txtpb") for i in ids}

  def proto(ev, t):
    p = ev(dict(t.args[2])["path"])
    if p not in protos:
      raise WrongPath(p)
    return protos[p]

  def files(ev, fs):
    return ev.elems(dict((k[0], v) for k, v in fs.args[1] if len(k) == 1)[
        ".index_files"]) if fs.op == "msg" else None

  def rows(ev, t):
    kw = dict(t.args[2])
    if ev(kw["filter_"]) is not None:
      raise WrongPath("filter")
    l = files(ev, kw["file_set"])
    return [read_rows(x, ev(kw["fields"])) for x in l]

  def datasource(ev, t):
    kw = dict(t.args[2])
    o = ev(kw["read_options"])
    get = lambda n: ev(tm.attr(o.term, n))  # noqa: E731
    if get("filter_") is not None:
      raise WrongPath("filter")
    l = files(ev, kw["file_set"])
    tabs = [read_rows(x, get("fields")) for x in l]
    return Obj("stream", iter_batches=lambda **kw: tabs)

  m = {u.sym("LOC", ("scalar", "str")).uid: "LOC"}
  for x in [meta] + [x[2] for x in getattr(u, "reloaded", [])]:
    m[tm.attr(x, "snapshots").uid] = snaps
    m[tm.attr(tm.attr(x, "schema"), "primary_keys").uid] = list(keys)

  def leaf(t):
    if t.op == "enum":
      return str(t.args[-1])
    return m[t.uid]

  ev = ModelEval(leaf, u.loops, {
      "read_proto": proto, "rows_of": rows, "ordered": lambda ev, t: ids,
      "ray.data.read_datasource": datasource,
      "isinstance": lambda ev, t: True}, u.state.store)
  want = []
  for i in ids:
    for typ, l in (("DELETE", logs[i][0]), ("ADD", logs[i][1])):
      rs = []
      for f, sel in l:
        for r in range(ROWS.get(f, 2)) if sel is None else sel:
          rs.append({k: (k, f, r) for k in (
              keys if typ == "DELETE" else ALL)})
      if rs:
        want.append((i, typ, rs))
  try:
    bad = list(trace(ev, raises))
    if bad:
      rep(False, "feed-fails", bad[0].where, f"{how}: fails")
      return
    got = []
    for c in walk(ev, res):
      i, typ, tab = c
      if not tab.num_rows:
        continue
      if got and got[-1][:2] == (i, typ):
        got[-1][2].extend(tab.rows())
      else:
        got.append((i, typ, tab.rows()))
    rep([x[:2] for x in got] == [x[:2] for x in want], "feed-order", None,
        f"{how}: changes are {[x[:2] for x in got]}, expected "
        f"{[x[:2] for x in want]}")
    key = lambda r: sorted((k, str(v)) for k, v in r.items())  # noqa: E731
    rep([sorted(map(key, x[2])) for x in got] ==
        [sorted(map(key, x[2])) for x in want], "feed-rows", None,
        f"{how}: rows are {short(str([x[2] for x in got]), 200)}, expected "
        f"{short(str([x[2] for x in want]), 200)}")
  except WrongPath as e:
    rep(False if str(e) == "filter" or "txtpb" in str(e) else None, "feed-log",
        None, f"{how}: reads {e}")
  except FAILURES as e:
    rep(fails(e), "feed", None, f"{how}: not evaluated: {type(e).__name__} {e}")


class WrongPath(Exception):
  """A definite misuse."""


def walk(ev, t, names=("snapshot_id", "type_", "data")):
  """The objects of a sequence, as tuples of their attributes."""
  if t.op in ("listv",):
    t = t.args[0]
  if t.op == "ite":
    yield from walk(ev, t.args[1] if ev(t.args[0]) else t.args[2], names)
    return
  if t.op != "seq":
    raise TypeError("changes " + tm.show(t, 3))

  def go(ents):
    for e in ents:
      if e[0] == "i":
        if ev(e[1]):
          yield tuple(ev(tm.attr(e[2], n)) if tm.attr(e[2], n) not in ev.store else
                      ev(ev.store[tm.attr(e[2], n)])
                      for n in names)
      elif e[0] == "splice":
        if ev(e[1]):
          yield from walk(ev, e[2], names)
      else:
        for _ in ev.iterate(e[1], e[2]):
          if ev(e[3]):
            yield from go(e[4])

  yield from go(t.args[0])
