"""Insert and upsert: the key filter, the duplicate check, and what is committed
(C09, and the splitting over Ray tasks: C19)."""

from pyflow import terms as tm
from pyflow.terms import NONE, TRUE, attr, const, mk, mk_call, seq
from rules.append import Once
from rules.base import Unit, def_site, opaque, same, short
from rules.model import Expr, Mismatch, ModelEval, Obj, Table, at, fails, trace
from rules.read import FAILURES, ext, lits
from rules.registry import group
from rules.storage import assume_branch
from rules.units import APPEND, DELETE, READ, STORAGE, STR, ctor, runner_unit

KEY_FILTER = "space.core.ops.utils.primary_key_filter"
INPUTS = [
    [], [(1, 1, 0)], [(1, 2, 0), (2, 1, 1)], [(1, 1, 0), (1, 2, 1), (2, 1, 2)],
    [(1, 1, 0), (2, 2, 1), (1, 1, 2)], [(1, 1, 0), (1, 1, 0)],
    [(3, 1, 0), (1, 1, 1), (2, 2, 2), (2, 2, 3)],
    [(0, 0, 0), (2, 0, 1), (0, 3, 2)],
]


@group("C09")
def key_filter(prog, R):
  """primary_key_filter matches a row iff it has the keys of some input row."""
  site = def_site(prog, KEY_FILTER)
  for keys in (["a"], ["b"], ["a", "b"], ["b", "a"]):
    u = Unit(prog, {}, module="space.core.ops.utils")
    data = u.sym("DATA")
    k = u.mark()
    res = u.freeze(u.do(KEY_FILTER, lits(*keys), data))
    evs = u.since(k)
    R.use(("C09",), u, "primary_key_filter")
    inst = f"keys {','.join(keys)}"
    rep = Once(R["C09"], inst, site)
    cases = [(rows, lambda x: x) for rows in INPUTS] + [
        (INPUTS[3], lambda x: "prefix" * 200 + str(x)),
        (INPUTS[2] + [(3, 3, 2)], lambda x: (x - 2) * 2**40)]
    for rows, value in cases:
      rows = [(value(a), value(b), v) for a, b, v in rows]
      tab = Table(["v", "a", "b"], [[r[2] for r in rows], [r[0] for r in rows],
                                    [r[1] for r in rows]])
      m = {data.uid: tab}
      ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, None, u.state.store)
      names = {"a": 0, "b": 1}
      ks = [tuple(r[names[n]] for n in keys) for r in rows]
      dup = len(set(ks)) != len(ks)
      how = f"input keys {short(str(ks), 80)}"
      try:
        raised = [e for e in trace(ev, [e for e in evs if e.kind == "raise"])]
        if bool(raised) != dup:
          rep(False, "key-duplicates", None, f"{how}: " + (
              "no error" if dup else "fails although keys are distinct"))
          continue
        rep(True, "key-duplicates")
        if dup:
          continue
        f = ev(res)
        if not rows:
          rep(f is None or None, "key-filter", None, f"{how}: filter {f}")
          continue
        if not isinstance(f, Expr):
          rep(None, "key-filter", None, f"{how}: not a filter")
          continue
        for a in range(4):
          for b in range(4):
            row = {"a": value(a), "b": value(b), "v": 0}
            want = tuple(row[n] for n in keys) in ks
            rep(bool(at(f, row)) == want, "key-filter", None,
                f"{how}: a row with a={a}, b={b} is "
                f"{'not ' if want else ''}matched")
      except FAILURES as e:
        rep(fails(e), "key-filter", None, f"{how}: not evaluated: {e}")


def rows_of(u, recv, bound, t, ev):
  """Reading a file set: a function of what it was constructed with."""
  made = [kw for e, kw in ctor(u, READ, u.events)
          if e.recv is recv or e.result is recv]
  kw = made[-1] if made else {}
  o = kw.get("options")
  a = {"file_set": kw.get("file_set", NONE)}
  for n in ("filter_", "fields", "reference_read"):
    a[n] = NONE if o is None or o is NONE else u.get(o, n)
  return mk_call(mk("ext", "rows_of"), (), tuple(sorted(
      (k, u.freeze(v)) for k, v in a.items())))


def insert_unit(prog, kind, op):
  """A runner of a storage that is on a branch."""
  br = Unit(prog, {}).sym("BRANCH", STR)
  u, ds, r, st, meta, loc = runner_unit(prog, kind, br, cuts={
      DELETE + ".__init__": None, APPEND + ".__init__": None,
      READ + ".__init__": None, READ + ".__iter__": rows_of,
      STORAGE + ".data_files": ext("data_files"),
      "space.core.ops.utils.merge_patches": ext("merge_patches"),
      KEY_FILTER: ext("pk_filter")})
  u.on_branch = br
  assume_branch(u, meta, br)
  return u, ds, r, st, meta, loc


TIP, MAIN_TIP = 9, 7  # Snapshots of the current branch and of main.
SIZES = [0, 1, 2, 3, 5, 7, 8, 9, 16, 17]


@group("C09", "C19")
def insert_upsert(prog, R):
  for kind in ("local", "ray"):
    for op in ("insert", "upsert"):
      cls = ("space.core.runners.LocalRunner" if kind == "local" else
             "space.ray.runners.RayReadWriterRunner")
      site = def_site(prog, cls + "." + op)
      u, ds, r, st, meta, loc = insert_unit(prog, kind, op)
      data = u.sym("DATA")
      k = u.mark()
      u.meth(r, op, data)
      evs = [e for e in u.since(k) if e.kind in ("cut", "raise", "rec")]
      R.use(("C09", "C19"), u, f"{kind} {op}")
      inst = f"{kind} {op}"
      reps = {p: Once(R[p], inst, site) for p in ("C09", "C19")}
      for files in ([], [0], [1], [0, 0], [0, 2], [1, 0], [1, 1], [0, 0, 1]):
        for n in SIZES if files in ([], [0, 2]) else (2,):
          for how in ("table", "dict"):
            one_insert(u, kind, op, evs, data, st, meta, reps, files, n, how)


def one_insert(u, kind, op, evs, data, st, meta, reps, files, n, how):
  c09, c19 = reps["C09"], reps["C19"]
  val = {"k1": list(range(n)), "v": [f"v{i}" for i in range(n)],
         "k2": [100 + i for i in range(n)]}
  if how == "table":
    val = Table(list(val), list(val.values()))
  case = f"{n} rows ({how}), files with {files} rows of the same keys"
  fobjs = [Obj(f"file{i}", rows=x) for i, x in enumerate(files)]
  the_filter = Obj("filter")
  fset = Obj("files", index_files=fobjs, index_manifest_files={})
  listed = {}

  def pk_filter(ev, t):
    kw = {k: ev(v) for k, v in t.args[2]}
    if sorted(kw["primary_keys"]) != ["k1", "k2"]:
      c09(False, "insert-keys", None, f"keys are {kw['primary_keys']}")
    d = kw["data"]
    ok = isinstance(d, Table) and d.rows() == want_rows
    c09(ok, "insert-filter-data", None, f"{case}: the filter is built from "
        f"{d.num_rows if isinstance(d, Table) else d} rows")
    return the_filter if n else None

  def data_files(ev, t):
    kw = {k: ev(v) for k, v in t.args[2]}
    f = kw.get("filter_")
    c09(f is None or f is the_filter, "insert-files", None,
        f"{case}: files are pruned by another filter")
    c09(kw.get("snapshot_id") in (None, TIP), "insert-snapshot", None,
        f"{case}: rows of the same keys are looked for in snapshot "
        f"{kw.get('snapshot_id')}, the storage is on a branch at {TIP}, the main "
        f"branch is at {MAIN_TIP}")
    listed["yes"] = True
    return fset

  def rows(ev, t):
    kw = {k: v for k, v in t.args[2]}
    f = ev(kw["filter_"])
    if f is not the_filter and n:
      c09(False if f is None else None, "insert-check-filter", None,
          f"{case}: existing rows are read with filter {f}")
    fs = kw["file_set"]
    l = listed_files(ev, fs) if fs.op == "msg" else \
        ev(fs).f["index_files"]
    # Batches of a file without rows exist only in reads of references.
    empty = kw["reference_read"] is not NONE and ev(kw["reference_read"])
    fields = ev(kw["fields"])
    # Columns other than keys have missing values.
    cols = ["v", "k1", "k2"] if fields is None else list(fields)
    return [Table(cols, [[None if c == "v" else 0] * x.f["rows"] for c in cols])
            for x in l if x.f["rows"] or empty]

  metas = [meta] + [x[2] for x in getattr(u, "reloaded", [])]
  m = {data.uid: val, u.on_branch.uid: "dev"}
  for x in metas:
    m[attr(attr(x, "schema"), "primary_keys").uid] = ["k1", "k2"]
    m[attr(x, "current_snapshot_id").uid] = MAIN_TIP
    m[attr(x, "refs").uid] = {"dev": Obj("ref", snapshot_id=TIP, type="BRANCH")}
    m[x.uid] = Obj("metadata")

  def leaf(t):
    return t.args[-1] if t.op == "enum" else m[t.uid]

  ev = ModelEval(leaf, u.loops, {
      "pk_filter": pk_filter, "data_files": data_files, "rows_of": rows,
      "merge_patches": lambda ev, t: t}, u.state.store)
  want_rows = [dict(k1=i, v=f"v{i}", k2=100 + i) for i in range(n)]
  deleted, appended, committed, raised = [], [], [], []
  try:
    for e in trace(ev, [e for e in evs if interesting(e)]):
      if e.kind == "raise":
        raised.append(e)
        break
      if e.name in (DELETE, DELETE + ".__init__"):
        kw = dict(e.kwargs)
        kw.update([(k, v) for x, d in ctor(u, DELETE, [e]) for k, v in d.items()])
        fs = u.freeze(kw["file_set"])
        l = listed_files(ev, fs) if fs.op == "msg" else \
            ev(fs).f["index_files"]
        f = ev(u.freeze(kw["filter_"]))
        c09(f is the_filter, "upsert-filter", e.where,
            f"{case}: rows of another filter are deleted")
        deleted += l
      elif e.name == APPEND + ".write":
        d = ev(u.freeze(e.kwargs.get("data", e.args[0] if e.args else NONE)))
        appended += d.rows() if isinstance(d, Table) else [
            dict(zip(d, vs)) for vs in zip(*d.values())]
      elif e.name == STORAGE + ".commit":
        committed.append(e)
    dup = any(files)
    if op == "insert":
      bad = n > 0 and dup
      c09(bool(raised) == bad, "insert-duplicate", raised[0].where if raised else
          None, f"{case}: " + ("keys that exist are inserted" if bad else
                               "fails without a duplicate"))
      c19(bool(raised) == bad, "insert-duplicate", None,
          f"{case}: {'fails' if raised else 'does not fail'}")
      if bad:
        c09(not committed, "insert-failed", None, f"{case}: commits nevertheless")
        return
    elif raised:
      c09(False, "upsert-fails", raised[0].where, f"{case}: fails")
      return
    if op == "upsert" and n:
      missing = [f for f in fobjs if f not in deleted and f.f["rows"]]
      c09(not missing, "upsert-files", None,
          f"{case}: rows are not deleted from {len(missing)} of {len(fobjs)} files")
    if op == "insert":
      c09(not deleted, "insert-deletes", None, f"{case}: an insert deletes rows")
    key = lambda r: sorted(r.items())  # noqa: E731
    got = [key(r) for r in appended]
    want = [key(r) for r in want_rows]
    what = f"{case}: appends {[r.get('v') for r in appended]}"
    for c in (c09, c19):
      c(sorted(got) == sorted(want), "insert-rows", None, what)
    if not n:
      return
    c09(len(committed) == 1, "insert-commit", None,
        f"{case}: {len(committed)} commits")
    if len(committed) == 1:
      e = committed[0]
      t = u.freeze(e.kwargs.get("patch", e.args[0] if e.args else NONE))
      got = set(patches(ev, t))
      live = {id(e) for e in u.events}
      want = {p for p, pe in u.patches if id(pe) in live and happens(ev, pe)}
      ok = got == want
      unk = {x for x in got - want if x.op != "sym"}
      c09(ok if ok or not unk else None, "insert-patches", e.where,
          f"{case}: commits {sorted(tm.show(x, 2) for x in got)} of "
          f"{sorted(tm.show(x, 2) for x in want)}")
  except Mismatch as e:
    c09(False, "insert-fails", None, f"{case}: {e}")
  except FAILURES as e:
    c09(fails(e), "insert", None, f"{case}: not evaluated: {type(e).__name__} {e}")


def interesting(e):
  if e.kind == "raise":
    return not e.name.endswith("VersionNotFoundError")
  return e.kind == "cut" and e.name in (
      DELETE, DELETE + ".__init__", APPEND + ".write", STORAGE + ".commit")


def listed_files(ev, fs):
  m = ev.message(fs)
  return m.get(".index_files", None if "" in m else [])


def happens(ev, e):
  for _ in trace(ev, [e]):
    return True
  return False


def patches(ev, t):
  """The patches that a committed patch is merged from."""
  while t.op == "ite":
    t = t.args[1] if ev(t.args[0]) else t.args[2]
  if t is NONE:
    return []
  if t.op == "call" and tm.call_name(t) == "merge_patches":
    a = list(t.args[1]) + [v for _, v in t.args[2]]
    return [x for y in a for x in patches(ev, y)]
  if t.op in ("listv",):
    return patches(ev, t.args[0])
  if t.op == "seq":
    return walk_entries(ev, t.args[0])
  if t.op == "elem":
    return patches(ev, t.args[0])
  if t.op == "item" and t.args[1].op == "slice":
    return patches(ev, t.args[0])[slice(*[ev(x) for x in t.args[1].args[:3]])]
  return [t]


def walk_entries(ev, ents):
  out = []
  for e in ents:
    if e[0] in ("i", "splice"):
      if ev(e[1]):
        out += patches(ev, e[2])
    else:
      for _ in ev.iterate(e[1], e[2]):
        if ev(e[3]):
          out += walk_entries(ev, e[4])
  return out
