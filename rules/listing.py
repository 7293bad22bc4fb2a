"""The listing of versions (C05)."""

from pyflow.terms import attr
from rules.append import Once
from rules.base import def_site
from rules.join import inner
from rules.model import Mismatch, Missing, ModelEval, Obj, Table, fails
from rules.read import FAILURES
from rules.registry import group
from rules.tables import arg
from rules.units import STORAGE, load_storage, storage_unit

# Snapshots (ID: creation time), references (name: snapshot).
CASES = [
    ({0: 100}, {}),
    ({0: 100, 1: 150, 2: 220}, {}),
    ({0: 100, 1: 150, 2: 220}, {"t1": 1}),
    ({2: 220, 0: 100, 1: 150}, {"t1": 1, "b1": 1, "t0": 0}),
    ({0: 100, 1: 150, 3: 220, 4: 200}, {"b": 4, "b2": 3, "t": 0, "t2": 4}),
    ({0: 100, 1: 100, 2: 100}, {"x": 2, "y": 0}),
]


class Listing(ModelEval):
  """Tables that are joined and sorted."""

  def call(self, t):
    f, args, kwargs = t.args
    xs = lambda: [self(x) for x in args]  # noqa: E731
    kw = {k: self(v) for k, v in kwargs} if f.op == "attr" and f.args[1] in (
        "join", "sort_by", "ToDatetime", "ToSeconds", "ToPydatetime") else {}
    if f.op == "attr" and f.args[1] in ("join", "sort_by", "ToDatetime",
                                        "ToSeconds"):
      r = self(f.args[0])
      if isinstance(r, Obj) and f.args[1] == "ToDatetime":
        return ("time", r.f["seconds"])
      if isinstance(r, Obj) and f.args[1] == "ToSeconds":
        return r.f["seconds"]
      if isinstance(r, Table) and f.args[1] == "join":
        return self.join(r, xs(), kw)
      if isinstance(r, Table):
        return self.sort(r, (xs() + list(kw.values()))[0])
    last = f.args[-1] if f.op in ("ext", "attr") else ""
    last = str(last).rsplit(".", maxsplit=1)[-1]
    if last == "timestamp" and f.op == "ext":
      return "timestamp"
    first = arg(t, 0, "timestamp", "value")
    if last in ("utcfromtimestamp", "fromtimestamp") and first is not None:
      return ("time", self(first))
    if last == "scalar" and first is not None:
      return self(first)
    if last == "replace" and f.op == "attr":
      v = self(f.args[0])
      if isinstance(v, tuple) and [k for k, _ in kwargs] == ["tzinfo"]:
        return v
    return super().call(t)

  def join(self, a, xs, kw):
    ps = ["right_table", "keys", "right_keys", "join_type"]
    kw = {**dict(zip(ps, xs)), **kw}
    keys = kw["keys"]
    keys = [keys] if isinstance(keys, str) else list(keys)
    if kw.get("right_keys") not in (None, keys) or set(kw) - set(ps):
      raise KeyError("join options")
    for t in (a, kw["right_table"]):
      for k in keys:
        if k not in t.names:
          raise Missing(f"join key {k} of {t.names}")
    return inner(a, kw["right_table"], keys, kw.get("join_type", "left outer"))

  def sort(self, t, by):
    by = [(by, "ascending")] if isinstance(by, str) else list(by)
    rows = t.rows()
    for k, order in reversed(by):
      if k not in t.names:
        raise Missing(f"sort key {k} of {t.names}")
      rows.sort(key=lambda r: (r[k] is None, str(type(r[k])), r[k]),
                reverse=order == "descending")
    return Table(t.names, [[r[n] for r in rows] for n in t.names])


@group("C05")
def versions(prog, R):
  u = storage_unit(prog)
  st, meta, _ = load_storage(u)
  ds = u.new("space.core.datasets.Dataset", st)
  res = u.freeze(u.meth(ds, "versions"))
  R.use(("C05",), u, "versions")
  rep = Once(R["C05"], "versions", def_site(prog, STORAGE + ".versions"))
  for snaps, refs in CASES:
    how = f"snapshots (with times) {snaps}, references {refs}"
    m = {attr(meta, "snapshots").uid: {
        i: Obj(f"snapshot {i}", snapshot_id=i, create_time=Obj(
            "time", seconds=t, nanos=0)) for i, t in snaps.items()},
         attr(meta, "refs").uid: {
             n: Obj(n, reference_name=n, snapshot_id=i)
             for n, i in refs.items()}}
    m[attr(meta, "current_snapshot_id").uid] = max(snaps)
    ev = Listing(lambda t, m=m: m[t.uid], u.loops, None, u.state.store)
    try:
      t = ev(res)
      if not isinstance(t, Table):
        raise TypeError("no table")
      if not rep(sorted(t.names) == ["create_time", "snapshot_id",
                                     "tag_or_branch"], "version-columns", None,
                 f"columns {t.names}"):
        continue
      got = [(r["snapshot_id"], r["create_time"], r["tag_or_branch"])
             for r in t.rows()]
      want = []
      for i, x in snaps.items():
        names = [n for n, j in refs.items() if j == i] or [None]
        want += [(i, ("time", x), n) for n in names]
      rep(sorted(map(str, got)) == sorted(map(str, want)), "version-rows", None,
          f"{how}: lists {got}, expected {want}")
      times = [x[1][1] for x in got]
      rep(times == sorted(times, reverse=True), "version-order", None,
          f"{how}: times are in the order {times}")
    except (Missing, Mismatch) as e:
      rep(False, "version-rows", None, f"{how}: fails: {e}")
    except FAILURES as e:
      rep(fails(e), "version-rows", None,
          f"{how}: not evaluated: {type(e).__name__} {e}")
