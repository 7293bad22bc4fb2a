"""Deletion: rows kept, files and manifests replaced, the change log and the
statistics of FileSetDeleteOp.delete, and how runners use it (C08, C11, C12)."""

import itertools

from pyflow import terms as tm
from pyflow.terms import FALSE, NONE, TRUE, and_, attr, cmp_, const, mk, mk_call, \
    not_, seq
from rules.append import Once
from rules.base import Unit, def_site, opaque, same, short
from rules.evalt import Unknown
from rules.model import (DatasetObj, Expr, Field, Mismatch, ModelEval, Obj, Table, fails,
                         trace)
from rules.read import FAILURES, Wrong, ext
from rules.registry import group
from rules.units import (APPEND, DELETE, SCHEMA_CUTS, STORAGE, STR, ctor, nothing,
                         runner_unit)

DELETE_MOD = "space.core.ops.delete"


def pick(ev, r):
  while r.op == "ite":
    r = r.args[1] if ev(r.args[0]) else r.args[2]
  return r


def delete_unit(prog):
  def finish(u, recv, b, t, ev):
    return tm.ite(u.sym("REINSERTED", ("scalar", "bool")),
                  u.sym("REINSERT", ("proto", "Patch")), NONE)

  u = Unit(prog, {**SCHEMA_CUTS, APPEND + ".__init__": None,
                  APPEND + ".write": nothing,
                  APPEND + ".append_index_manifest": nothing,
                  APPEND + ".finish": finish}, module=DELETE_MOD)
  u.FS = u.sym("FILESET", ("proto", "FileSet"))
  u.LOC, u.META = u.sym("LOC", STR), u.sym("META", ("proto", "StorageMetadata"))
  u.FILTER, u.OPT = u.sym("FILTER"), u.sym("OPTIONS")
  op = u.new(DELETE, u.LOC, u.META, u.FS, u.FILTER, u.OPT)
  u.RESULT = u.freeze(u.meth(op, "delete"))
  return u


def file_obj(i, verdicts, manifest):
  return Obj(f"file{i}", path=f"file{i}", manifest_file_id=manifest,
             storage_statistics=Obj(
                 "stats", num_rows=len(verdicts), index_compressed_bytes=10 ** i,
                 index_uncompressed_bytes=3 * 10 ** i,
                 record_uncompressed_bytes=0),
             rows_=verdicts)


# Rows of each file: whether the filter is true, false or null. Manifests of the
# files; manifests also list other files, which no row of matches.
V = (True, False, None)
ONE = [list(v) for n in (1, 2, 3) for v in itertools.product(V, repeat=n)]
SHAPES = [[v] for v in ONE]
SOME = [[True], [False], [True, False], [None, True], [False, None],
        [True, True]]
PAIRS = [list(p) for p in itertools.product(SOME, SOME)]
TRIPLES = [[a, b, c] for a in ([True], [False], [True, False])
           for b in ([True], [False], [True, False])
           for c in ([True], [False], [True, False])]


def cases():
  yield "one file", [(s, m, o) for s in SHAPES for m, o in (([7], 0), ([7], 2))]
  yield "two files of a manifest", [(s, [7, 7], o) for s in PAIRS for o in (0, 1)]
  yield "two files of two manifests", [(s, [7, 9], o) for s in PAIRS
                                       for o in (0, 1)]
  yield "three files", [(s, m, 0) for s in TRIPLES
                        for m in ([7, 7, 9], [7, 9, 7])]
  yield "no file", [([], [], 1)]


@group("C08", "C11", "C12", "C13")
def file_set_delete(prog, R):
  site = def_site(prog, DELETE + ".delete")
  u = delete_unit(prog)
  R.use(("C08", "C11", "C12", "C13"), u, "FileSetDeleteOp.delete")
  made = ctor(u, APPEND, u.events)
  for e, kw in made:
    v = kw.get("record_address_input")
    R["C08"].check(v is TRUE if v is None or v.op == "const" else None,
                   "reinsert-addresses", "FileSetDeleteOp", e.where,
                   "rows are reinserted as if they had record values")
  if not made:
    R["C08"].undecided("reinsert-addresses", "FileSetDeleteOp", site, "no append")
  for name, cs in cases():
    reps = {p: Once(R[p], name, site) for p in ("C08", "C11", "C12", "C13")}
    for shapes, manifests, others in cs:
      one_delete(u, reps, shapes, manifests, others)


def one_delete(u, reps, shapes, manifests, others):
  files = [file_obj(i, s, m) for i, (s, m) in enumerate(zip(shapes, manifests))]
  tabs, listing = {}, {}
  for f in files:
    n = len(f.f["rows_"])
    name = f.name_
    tabs["LOC/" + name] = Table(["id", "rec", "F"], [
        [f"{name}.{j}" for j in range(n)],
        [{"_FILE": name, "_ROW_ID": j} for j in range(n)], f.f["rows_"]])
    listing.setdefault(f.f["manifest_file_id"], []).append(name)
  ids = sorted(set(manifests)) or [7]
  for m in ids:
    listing.setdefault(m, [])
    listing[m] = [f"other{m}.{j}" for j in range(others)] + listing[m]
  listing[55] = ["elsewhere"]
  names = {m: f"manifest{m}" for m in ids}
  names[55] = "manifest55"
  mtabs = {"LOC/" + names[m]: Table(["_FILE", "_NUM_ROWS"], [
      fs, [5] * len(fs)]) for m, fs in listing.items()}
  fs = Obj("file set", index_files=files, index_manifest_files=names)
  filt = Expr(lambda r: r["F"])
  reinsert = Obj("reinsert", storage_statistics_update=Obj(
      "stats", num_rows=sum(v is not True for f in files for v in f.f["rows_"]),
      index_compressed_bytes=7000000, index_uncompressed_bytes=9000000,
      record_uncompressed_bytes=0), addition=Obj(
          "addition", index_manifest_files=["new"], record_manifest_files=[]),
          deletion=Obj("deletion", index_manifest_files=[],
                       record_manifest_files=[]))
  modified = [f for f in files if True in f.f["rows_"]]
  state = {"reinserted": None}
  m = {u.LOC.uid: "LOC", u.FS.uid: fs, u.FILTER.uid: filt,
       u.sym("REINSERT", ("proto", "Patch")).uid: reinsert}
  bool_sym = u.sym("REINSERTED", ("scalar", "bool")).uid

  def leaf(t):
    if t.uid == bool_sym:
      if state["reinserted"] is None:
        raise Unknown("reinserted")
      return state["reinserted"]
    return m[t.uid]

  def read_table(ev, t):
    kw = {k: ev(v) for k, v in t.args[2]}
    a = [ev(x) for x in t.args[1]]
    src = a[0] if a else kw.get("source")
    tab = {**tabs, **mtabs}.get(src)
    if tab is None:
      raise Unknown(f"file {src}")
    fl = kw.get("filters")
    if fl is not None:
      tab = tab.pick([i for i, r in enumerate(tab.rows()) if fl(r)])
    return tab if kw.get("columns") is None else tab.select(kw["columns"])

  def dataset(ev, t):
    kw = {k: ev(v) for k, v in t.args[2]}
    a = [ev(x) for x in t.args[1]]
    paths = list(dict.fromkeys(a[0] if a else kw["path_or_paths"]))
    both = {**tabs, **mtabs}
    if any(p not in both for p in paths):
      raise Unknown(f"files {paths}")
    return DatasetObj([both[p] for p in paths], kw.get("filters"))

  ev = ModelEval(leaf, u.loops, {
      "pyarrow.parquet.read_table": read_table,
      "pyarrow.parquet.ParquetDataset": dataset}, u.state.store)
  how = f"files {[f.f['rows_'] for f in files]} of manifests {manifests}"
  c08, c11, c12, c13 = (reps[p] for p in ("C08", "C11", "C12", "C13"))
  try:
    written, carried, raised = [], [], None
    evs = [e for e in u.events if e.kind == "raise" or e.kind == "cut" and
           e.name.startswith(APPEND)]
    order = []
    for e in trace(ev, [e for e in evs if e.name != APPEND + ".finish"]):
      if e.kind == "raise":
        raised = raised or e
        break
      if e.name.endswith(".write"):
        t = ev(u.freeze(e.kwargs["data"]))
        written += t.rows()
        order.append(t.names)
      elif e.name.endswith(".append_index_manifest"):
        t = ev(u.freeze(e.kwargs["index_manifest_table"]))
        carried += t.rows()
        state["reinserted"] = True
    if raised is not None:
      c08(False, "delete-raises", raised.where, f"{how}: raises")
      return
    state["reinserted"] = bool(written or carried)
    r = pick(ev, u.RESULT)
    if not modified:
      c08(r is NONE, "delete-nothing", None,
          f"{how}: a patch is returned though no row is deleted")
      c08(not written and not carried, "delete-nothing", None,
          f"{how}: rows are written though no row is deleted")
      return
    c08(r is not NONE, "delete-patch", None, f"{how}: no patch is returned")
    if r is NONE:
      return
    key = lambda x: sorted((k, str(v)) for k, v in x.items())  # noqa: E731
    want = [x for f in modified for x in tabs["LOC/" + f.name_].rows()
            if x["F"] is not True]
    c08(sorted(map(key, written)) == sorted(map(key, want)), "survivors", None,
        f"{how}: rows written again are {short(str(written), 150)}, expected "
        f"{short(str(want), 150)}")
    gone = {f.name_ for f in modified}
    dm = {f.f["manifest_file_id"] for f in modified}
    wantc = sorted(x for mid in dm for x in listing[mid] if x not in gone)
    for p in (c08, c13):
      p(sorted(x["_FILE"] for x in carried) == wantc, "carried-files", None,
        f"{how}: files carried over are {[x['_FILE'] for x in carried]}, expected "
        f"{wantc}")
    msg = ev.message(r)
    bits = {}
    for b in msg.get(".change_log.deleted_rows", []):
      if b[".file"] in bits:
        c11(False, "deleted-bitmap", None, f"{how}: two bitmaps of a file")
      bits[b[".file"]] = ("all" if b.get(".all_rows") else set(
          b.get(".roaring_bitmap", ())[1:]), b.get(".num_rows"))
    wantb = {}
    for f in modified:
      d = {i for i, v in enumerate(f.f["rows_"]) if v is True}
      wantb[f.name_] = ("all" if len(d) == len(f.f["rows_"]) else d,
                        len(f.f["rows_"]))
    full = {f.name_: set(range(len(f.f["rows_"]))) for f in files}
    norm = lambda d: {k: (full.get(k) if v[0] == "all" else v[0], v[1])  # noqa: E731
                      for k, v in d.items()}
    for p in (c08, c11):
      p(norm(bits) == norm(wantb), "deleted-bitmap", None,
        f"{how}: deleted rows are logged as {bits}, expected {wantb}")
    c11(not msg.get(".change_log.added_rows"), "delete-log", None,
        f"{how}: reinserted rows are logged as added")
    for p in (c08, c13):
      p(set(msg.get(".deletion.index_manifest_files", [])) ==
        {names[x] for x in dm}, "deleted-manifests", None,
        f"{how}: manifests removed are {msg.get('.deletion.index_manifest_files')}")
      p(msg.get(".addition.index_manifest_files", []) ==
        (["new"] if state["reinserted"] else []), "added-manifests", None,
        f"{how}: manifests added are {msg.get('.addition.index_manifest_files')}")
    c08(not msg.get(".deletion.record_manifest_files") and
        not msg.get(".addition.record_manifest_files"), "record-manifests", None,
        f"{how}: record manifests are changed")
    st = {k: msg.get(".storage_statistics_update." + k, 0) for k in (
        "num_rows", "index_compressed_bytes", "index_uncompressed_bytes",
        "record_uncompressed_bytes")}
    g = lambda k: sum(f.f["storage_statistics"].f[k] for f in modified)  # noqa: E731
    re = state["reinserted"]
    wants = {"num_rows": -sum(v is True for f in files for v in f.f["rows_"]),
             "index_compressed_bytes": (7000000 if re else 0) - g(
                 "index_compressed_bytes"),
             "index_uncompressed_bytes": (9000000 if re else 0) - g(
                 "index_uncompressed_bytes"), "record_uncompressed_bytes": 0}
    for k in st:
      c12(st[k] == wants[k], "delete-statistics", None,
          f"{how}: {k} changes by {st[k]}, expected {wants[k]}", inst=f"{k}")
  except Mismatch as e:
    c08(False, "delete-raises", None, f"{how}: fails: {e}")
  except FAILURES as e:
    c08(fails(e), "delete", None, f"{how}: not evaluated: {type(e).__name__} {e}")


# ---------------------------------------------------------------------- runners


def known_files(u, ids, recv_args):
  """The file set of a storage: concrete files of concrete manifests."""
  fs = u.sym("FILESET", ("proto", "FileSet"))
  files = [u.sym(f"FILE{i + 1}", ("proto", "DataFile")) for i in range(len(ids))]
  for f, i in zip(files, ids):
    u.gstore[attr(f, "manifest_file_id")] = const(i)
  u.known_iter[attr(fs, "index_files").uid] = files

  def h(u, recv, bound, t, ev):
    recv_args.append((recv, bound))
    return fs

  return fs, files, h


@group("C08", "C13")
def runner_delete(prog, R):
  """A delete processes all files that may have rows to delete; files of the
  same manifest are processed together."""
  for kind in ("local", "ray"):
    for ids in ([7], [7, 7], [7, 9], [7, 9, 7], [9, 7, 7, 9], []):
      one_runner_delete(prog, R, kind, ids)


def one_runner_delete(prog, R, kind, ids):
  site = def_site(prog, ("space.core.runners.LocalRunner" if kind == "local" else
                         "space.ray.runners.RayReadWriterRunner") + ".delete")
  inst = f"{kind} delete"
  asked = []
  cell = {}
  u, ds, r, st, meta, loc = runner_unit(prog, kind, cuts={
      DELETE + ".__init__": None,
      STORAGE + ".data_files": lambda u, *a: cell["h"](u, *a),
      "space.core.ops.utils.merge_patches": ext("merge_patches")})
  fs, files, cell["h"] = known_files(u, ids, asked)
  filt = u.sym("FILTER")
  u.assume(not_(cmp_("is", filt, NONE)))
  k = u.mark()
  u.meth(r, "delete", filt)
  evs = u.since(k)
  R.use(("C08", "C13"), u, inst)
  rep = Once(R["C08"], inst, site)
  rep13 = Once(R["C13"], inst, site)
  for recv, bound in asked:
    rep(recv is st or None, "delete-files", None, "another storage is listed")
    f = bound.get("filter_", NONE)
    rep(True if f is NONE or same(u.freeze(f), filt) else (
        None if opaque(f) is not None else False), "delete-filter", None,
        f"files are pruned by {short(f)}", inst="files")
    s = bound.get("snapshot_id", NONE)
    rep(s is NONE or None, "delete-snapshot", None, f"files of {short(s)}")
  rep(bool(asked) or None, "delete-files", None, "no files are listed")
  made = ctor(u, DELETE, evs)
  if not made:
    rep(not ids or None, "delete-files", None, "no file set is processed")
    return
  got = []
  for e, kw in made:
    m = kw.get("metadata")
    known = [x[2] for x in getattr(u, "reloaded", []) if x[1] is st] + [meta]
    rep(True if m is None or u.freeze(m) in known else None, "delete-metadata",
        e.where, f"metadata is {short(m)}")
    f = u.freeze(kw["filter_"])
    rep(True if same(f, filt) else (None if opaque(f) is not None else False),
        "delete-filter", e.where, f"rows of {short(f)} are deleted", inst="rows")
    t = u.freeze(kw["file_set"])
    if t is fs:
      got.append(list(files))
      rep(True, "delete-manifest-map", e.where)
      continue
    if t.op != "msg":
      rep(None, "delete-files", e.where, short(t))
      return
    d = {"".join(map(str, p)): v for p, v in t.args[1]}
    l = d.get(".index_files")
    part = []
    none = l is None and "" not in d  # A new message without files.
    for x in () if none else l.args[0] if l is not None and l.op == "seq" else (
        (None,),):
      if x[0] == "i":
        v = x[2]
        part.append(v.args[2] if v.op == "msg" and not v.args[1] else v)
      elif x[0] == "splice" and x[2] is attr(fs, "index_files"):
        part += files
      else:
        part = None
        break
    if part is None or any(x not in files for x in part):
      rep(None, "delete-files", e.where, f"files are {short(l)}")
      return
    got.append(part)
    mm = [v for p, v in t.args[1] if p[0] == ".index_manifest_files"]
    ok = any(attr(fs, "index_manifest_files") in tm.walk(v) for v in mm)
    rep(ok if ok else (False if not mm else None), "delete-manifest-map", e.where,
        f"manifests of the files are {short(mm[0]) if mm else 'not given'}")
  flat = [f for p in got for f in p]
  how = f"manifests {ids}: tasks process " + str([[tm.show(f) for f in p]
                                                  for p in got])
  rep(set(flat) == set(files), "delete-all-files", None, how)
  for p in (rep, rep13):
    p(len(flat) == len(set(flat)), "delete-once", None, how)
    for mid in set(ids):
      n = [i for i, part in enumerate(got)
           if any(ids[files.index(f)] == mid for f in part)]
      p(len(n) <= 1, "delete-manifest-together", None,
        how + f": files of manifest {mid} are processed separately")
  merged = [e for e in evs if e.kind == "cut" and e.name.endswith(
      "merge_patches")]
  for e in merged[:1]:
    l = u.freeze(e.kwargs.get("patches", e.args[0] if e.args else NONE))
    if l.op == "seq" and all(x[0] == "i" for x in l.args[0]):
      res = [x[2] for x in l.args[0]]
      want = [p for p, ev in u.patches]
      rep(set(want) <= set(res), "delete-merged", e.where,
          f"{len(want)} patches, {len(res)} merged")
      for what, o in deletions():
        m = {p.uid: o for p in want}
        ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, None, u.state.store)
        try:
          n = sum(1 for x in l.args[0] if x[2] in want and (
              x[1] is TRUE or ev(x[1])))
          rep(n >= len(set(want) & set(res)), "delete-merged", e.where,
              f"the changes of a task that {what} are left out")
        except FAILURES as x:
          rep(fails(x), "delete-merged", e.where, f"not evaluated: {x}")


def deletions():
  """Changes that a task may return."""
  for what, files, added in (("deletes all rows of its files", [], []),
                             ("deletes some rows of its files", ["m2"], ["d2"])):
    o = Obj("patch", addition=Obj("a", index_manifest_files=files,
                                  record_manifest_files=[]),
            deletion=Obj("d", index_manifest_files=["m1"],
                         record_manifest_files=[]),
            change_log=Obj("c", added_rows=[], deleted_rows=["d1"]),
            storage_statistics_update=Obj(
                "s", num_rows=-2, index_compressed_bytes=-3,
                index_uncompressed_bytes=-4, record_uncompressed_bytes=0))
    for x in list(o.f.values()):
      x.f["has_"] = set(x.f)
    o.f["has_"] = set(o.f) - (set() if files else {"addition"})
    yield what, o


MERGE = "space.core.ops.utils.merge_patches"
LISTS = (".addition.index_manifest_files", ".addition.record_manifest_files",
         ".deletion.index_manifest_files", ".deletion.record_manifest_files",
         ".change_log.added_rows", ".change_log.deleted_rows")
COUNTS = ("num_rows", "index_compressed_bytes", "index_uncompressed_bytes",
          "record_uncompressed_bytes")


@group("C08", "C10", "C11", "C12", "C13", "C19")
def merge(prog, R):
  """merge_patches: concatenated lists and summed statistics."""
  props = ("C08", "C10", "C11", "C12", "C13", "C19")
  site = def_site(prog, MERGE)
  for n, zeros in [(n, z) for n in (0, 1, 2, 3) for z in (0, 1, 2)]:
    for nones in itertools.product((False, True), repeat=n):
      u = Unit(prog, {}, module="space.core.ops.utils")
      ps = [NONE if x else u.sym(f"PATCH{i + 1}", ("proto", "Patch"))
            for i, x in enumerate(nones)]
      for p in ps:
        if p is not NONE:
          u.assume(not_(cmp_("is", p, NONE)))
      r = u.freeze(u.do(MERGE, seq(tuple(("i", TRUE, p) for p in ps))))
      R.use(props, u, "merge_patches")
      reps = {p: Once(R[p], "merge", site) for p in props}
      real = [p for p in ps if p is not NONE]
      how = f"{[x.op != 'const' for x in ps]}"
      if not real:
        reps["C19"](r is NONE, "merge-none", None, f"{how}: returns {short(r)}")
        continue
      models, m = [], {}
      for i, p in enumerate(real):
        # Statistics of which some are not changed, or that cancel out.
        o = Obj(f"patch{i}", storage_statistics_update=Obj("st", **{
            c: 0 if zeros == 1 and (i + j) % 2 else (10 ** (i + 1) + j)
            if zeros < 2 else (-1) ** i * (10 + j) if i < 2 else 0
            for j, c in enumerate(COUNTS)}))
        for l in LISTS:
          a, b = l[1:].split(".")
          o.f.setdefault(a, Obj(a)).f[b] = [f"{b}{i}.{k}" for k in range(2)]
        for x in list(o.f.values()):
          x.f["has_"] = set(x.f)
        o.f["has_"] = set(o.f)
        m[p.uid] = o
        models.append(o)
      ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, None, u.state.store)
      try:
        t = pick(ev, r)
        if t is NONE:
          reps["C19"](False, "merge-none", None, f"{how}: returns nothing")
          continue
        msg = Whole(ev, t)
        for l in LISTS:
          a, b = l[1:].split(".")
          want = [x for o in models for x in o.f[a].f[b]]
          got = msg.get(l, [])
          for p in props:
            if (p == "C11") == (a == "change_log") or p == "C19":
              reps[p](sorted(got) == sorted(want), "merge-list", None,
                      f"{how}: {l[1:]} is {got}, expected {want}", inst=l[1:])
        for c in COUNTS:
          want = sum(o.f["storage_statistics_update"].f[c] for o in models)
          got = msg.get(".storage_statistics_update." + c, 0)
          for p in ("C12", "C19"):
            reps[p](got == want, "merge-statistics", None,
                    f"{how}: {c} is {got}, expected {want}", inst=c)
      except FAILURES as e:
        reps["C19"](fails(e), "merge", None, f"{how}: not evaluated: {e}")


class Whole:
  """The fields of a message, which may be one of the model itself."""

  def __init__(self, ev, t):
    self.ev, self.t = ev, t
    self.msg = ev.message(t) if t.op == "msg" else None
    self.obj = ev(t) if t.op != "msg" else None

  def get(self, path, default):
    if self.msg is not None:
      return self.msg.get(path, default)
    o = self.obj
    for p in path[1:].split("."):
      o = o.f[p]
    return o
