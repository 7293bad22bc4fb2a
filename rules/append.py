"""Appending rows to a storage: the ledger of rows, files, manifests and
statistics of every path through a sequence of writes and the finish."""

from pyflow import terms as tm
from pyflow.terms import (EMPTY, NONE, TRUE, ZERO, and_, attr, cmp_, const, mk,
                          plus, seq)
from rules import tables
from rules.base import (Msg, Paths, Unit, def_site, opaque, same, short,
                        specialise)
from rules.registry import group
from rules.storage import fresh_name, relative
from rules.units import APPEND, STR

SCHEMA_FN = "space.core.schema.arrow.arrow_schema"
IMW = "space.core.manifests.index.IndexManifestWriter"
RMW = "space.core.manifests.record.RecordManifestWriter"
NAMES = ("idx", "rec", "val")
RECORDS = ("rec",)
PROPS = ("C01", "C07", "C08", "C10", "C11", "C12", "C14", "C15")


def literal(*xs):
  return seq(tuple(("i", TRUE, const(x)) for x in xs))


def manifest_cuts():
  """Manifest writers by their contracts (decided by the rules of C07)."""

  def write(u, recv, bound, t, ev):
    u.listed.append((ev, recv))
    s = u.sym(f"STATS{len(u.listed)}", ("proto", "StorageStatistics"))
    u.stats_of[ev.i] = s
    return s

  def write_arrow(u, recv, bound, t, ev):
    u.listed.append((ev, recv))
    return NONE

  def rwrite(u, recv, bound, t, ev):
    u.rlisted.append((ev, recv, {k: u.freeze(v) for k, v in bound.items()}))
    return NONE

  def fin(kind, lst):
    def h(u, recv, bound, t, ev):
      if not any(x[1] is recv for x in getattr(u, lst)):
        return NONE
      u.finished.append((ev, recv))
      d = u.spec("path.join(LOC, 'metadata', n)", _module="space.core.utils.paths",
                 LOC=u.LOC, n=u.sym(kind + "_MANIFEST", STR))
      u.state.add(tm.not_(cmp_("is", d, NONE)))
      u.state.add(tm.truthy(d))
      return d
    return h

  return {IMW + ".write": write, IMW + ".write_arrow": write_arrow,
          IMW + ".finish": fin("INDEX", "listed"), RMW + ".write": rwrite,
          RMW + ".finish": fin("RECORD", "rlisted")}


def append_unit(prog, oracle, records=RECORDS, addresses=False, empty=()):
  cuts = {SCHEMA_FN: lambda u, recv, b, t, ev: u.SCH}
  cuts.update(manifest_cuts())
  u = Unit(prog, cuts, module="space.core.ops.append")
  u.SCH = u.sym("SCHEMA")
  u.listed, u.rlisted, u.finished, u.stats_of = [], [], [], {}
  fields = [u.sym(f"FIELD_{n}") for n in NAMES]
  for f, n in zip(fields, NAMES):
    u.gstore[attr(f, "name")] = const(n)
  u.FIELDS = dict(zip(NAMES, fields))
  u.known_iter[u.SCH.uid] = fields
  u.gstore[attr(u.SCH, "names")] = literal(*NAMES)
  u.META = meta = u.sym("META", ("proto", "StorageMetadata"))
  u.gstore[("c", attr(attr(meta, "schema"), "record_fields"))] = literal(*records)
  u.gstore[("c", attr(attr(meta, "schema"), "primary_keys"))] = literal("idx")
  u.LOC = u.sym("LOC", STR)
  fo = u.inst("OPTIONS", "space.core.options.FileOptions")
  u.oracle = oracle
  kw = {"record_address_input": TRUE} if addresses else {}
  op = u.new(APPEND, u.LOC, meta, fo, **kw)
  return u, op


def decisions(empty):
  """Which conditions are enumerated."""

  def match(c):
    for x in tm.walk(c):
      if x.op == "call" and tm.call_name(x) == "isinstance":
        return "true"
    if c.op == "cmp" and c.args[0] == "is" and c.args[1].op == "attr" and \
        c.args[1].args[1] == "metadata":
      return "false"
    if c.op == "cmp" and c.args[0] == "in" and c.args[1].op == "const" and \
        isinstance(c.args[1].args[0], bytes):
      return "true"
    if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE and \
        tables.method(c.args[1])[1] in tables.SAME_ROWS | {"concat_tables"}:
      return "false"
    n = nonempty(c)
    if n is not None:
      name, pos = n
      v = name not in empty
      return "true" if v == pos else "false"
    if any(x.op == "attr" and x.args[1].startswith("max_") for x in tm.walk(c)):
      return True
    if any(x.op == "sym" and x.args[0].startswith("STATS") for x in tm.walk(c)):
      return "true" if c.op == "truthy" else "false"
    return True

  return match


def nonempty(c):
  """(table, polarity) of a condition on a table's being non-empty."""
  x = c
  if c.op == "truthy":
    x = c.args[0]
    pos = True
  elif c.op == "cmp" and c.args[0] in ("==", "<", "<=") and (
      c.args[1] is ZERO or c.args[2] is ZERO):
    pos = c.args[0] == "<" and c.args[1] is ZERO
    x = c.args[2] if c.args[1] is ZERO else c.args[1]
  else:
    return None
  x = tables.norm(x)
  if x.op == "attr" and x.args[1] == "num_rows" and x.args[0].op == "sym":
    return x.args[0].args[0], pos
  return None


class Ledger:
  """Files written on a path and what went into them."""

  def __init__(self, u, cond):
    self.u, self.cond = u, cond
    self.writers = {}      # uid -> dict
    self.unsure = None
    for e in u.events:
      if e.kind not in ("call", "cut", "with_exit"):
        continue
      n = e.name.split(".")[-1]
      new = n in ("ParquetWriter", "ArrayRecordWriter") and e.kind == "call"
      rel = e.recv is not None and e.recv.uid in self.writers
      if not new and not rel:
        continue
      g = self.happens(e)
      if g is False:
        continue
      if g is None:
        self.unsure = e
        continue
      if new:
        p = e.kwargs.get("where" if n == "ParquetWriter" else "path")
        if p is None and e.args:
          p = e.args[0]
        self.writers[e.result.uid] = {
            "kind": n, "obj": e.result, "path": p, "new": e, "writes": [],
            "close": []}
      else:
        w = self.writers[e.recv.uid]
        if n in ("write_table", "write", "write_batch"):
          w["writes"].append(e)
        elif n == "close" or e.kind == "with_exit":
          w["close"].append(e)

  def happens(self, e):
    cs = [c for c in e.cond]
    r = specialise(and_(*cs), self.cond)
    if r is TRUE:
      return True
    if r is tm.FALSE:
      return False
    if own_elements(e, r):
      return True  # For some of the elements written.
    return None

  def of(self, kind):
    return [w for w in self.writers.values() if w["kind"] == kind]


def scenario(prog, R, name, tables_, records=RECORDS, addresses=False, empty=(),
             limit=600):
  """write(T) for each table, then finish; every path."""
  site = def_site(prog, APPEND + ".write")

  def build(oracle):
    u, op = append_unit(prog, oracle, records, addresses, empty)
    for t in tables_:
      if t == "MANIFEST":
        u.meth(op, "append_index_manifest", u.sym("CARRIED"))
      else:
        u.meth(op, "write", u.sym(t))
    r = u.meth(op, "finish")
    return u, r

  p = Paths(decisions(empty), limit)
  n = 0
  for u, r in p.run(build):
    n += 1
    if n == 1:
      R.use(PROPS, u, "append: " + name)
    check_path(R, u, r, name, tables_, records, addresses, empty, site)
  if p.truncated:
    R["C10"].undecided("paths", name, site, f"more than {limit} paths")
  R["C10"].check(n > 0, "paths", name, site, "no path")


def own_elements(e, r):
  """The condition is about the elements of the event's loops only."""
  ns = set()
  for l in e.loops:
    ns.add(l[0] if isinstance(l, tuple) else l)
  parts = r.args if r.op == "and" else (r,)
  return all(tm.contains(p, lambda x: x.op == "elem" and x.args[1] in ns)
             for p in parts)


class Once:
  """Reports an obligation once for all paths."""

  def __init__(self, rep, inst, site):
    self.rep, self.inst, self.site = rep, inst, site

  def __call__(self, cond, rule, where=None, detail="", inst=None):
    i = self.inst + (": " + inst if inst else "")
    key = (rule, i)
    done = self.rep.__dict__.setdefault("once", {})
    rank = {True: 0, None: 1, False: 2}[cond]
    if key in done and done[key] >= rank:
      return cond
    if key in done:
      self.rep.items = [x for x in self.rep.items
                        if (x[1], x[2]) != (rule, i)]
    done[key] = rank
    self.rep.check(cond, rule, i, where or self.site, detail)
    return cond


def unknown_or_false(t):
  return None if t is not None and opaque(t) is not None else False


def check_path(R, u, r, name, tables_, records, addresses, empty, site):
  cond = and_(*u.state.cond)
  led = Ledger(u, cond)
  fin = def_site(u.p, APPEND + ".finish")
  c10, c01, c11, c12, c14, c15, c07, c08 = (
      Once(R[p], name, site) for p in ("C10", "C01", "C11", "C12", "C14", "C15",
                                       "C07", "C08"))
  if led.unsure is not None:
    c10(None, "writes-decided", led.unsure.where,
        f"whether this happens is not decided: {short(and_(*led.unsure.cond))}")
    return
  c10(True, "writes-decided")
  patch = specialise(u.freeze(r), cond)
  src = [t for t in tables_ if t not in empty and t != "MANIFEST"]
  carried = "MANIFEST" in tables_
  if not src and not carried:
    c10(True if patch is NONE else unknown_or_false(patch), "nothing-for-no-rows",
        fin, f"appending no rows yields {short(patch)}")
    for w in led.writers.values():
      c10(not w["writes"], "nothing-for-no-rows", w["new"].where,
          "rows are written")
    return
  if not c10(False if patch is NONE else True, "patch-for-rows", fin,
             "appended rows yield no change"):
    return
  if patch.op != "msg":
    c10(None, "patch-form", fin, f"the result is {short(patch)}")
    return
  m = Msg(u, patch, cond)
  # Every row in exactly one closed and listed file.
  got, addr = [], {f: [] for f in records}
  total_bytes = {"index_compressed_bytes": ZERO, "index_uncompressed_bytes": ZERO}
  nrows = ZERO
  bitmaps = []
  for w in led.of("ParquetWriter"):
    where = w["new"].where
    path = w["path"]
    for e in w["writes"]:
      t = e.kwargs.get("table")
      t = t if t is not None else (e.args[0] if e.args else None)
      if e.loops:
        c10(None, "rows-written", e.where, "rows are written in a loop")
        return
      try:
        rs = tables.rows(t)
        got += [x.args[0] for x in rs]
        try:
          ns = tables.names(t)
          c10(same_seq(ns, [const(x) for x in NAMES]), "columns-in-schema-order",
              e.where, f"columns are {[short(x) for x in ns]}")
        except tables.Unknown as ex:
          c10(None, "columns-in-schema-order", e.where, str(ex))
        for f in NAMES:
          if f in records and not addresses:
            addr[f] += tables.column(t, const(f))
          else:
            for s, v in tables.column(t, const(f)):
              c10(v is mk("col", s, const(f)), "values-of-own-column", e.where,
                  f"column {f} stores {short(v)}", inst=f)
      except tables.Unknown as ex:
        lossy = any(tables.method(x)[1] in tables.LOSES_ROWS for x in tm.walk(t)
                    if x.op == "call")
        c10(None, "rows-written", e.where, f"table {ex}")
        del lossy
        return
    none = []
    if not w["writes"]:
      none = [e for e, _ in u.listed if led.happens(e) is True and
              e.name == IMW + ".write" and names_file(u, e, path)]
    for c in (c10, c08):
      # A file without rows makes later deletions fail.
      c(not none, "no-file-without-rows", none[0].where if none else where,
        "a data file without rows is listed in the index manifest")
    if not w["writes"]:
      continue
    last = w["writes"][-1]
    c = w["close"]
    c01(len(c) >= 1 and c[0].i > last.i, "data-file-closed", where,
        "a data file is not closed after its last row group was written")
    if not c:
      continue
    ls = [(e, rv) for e, rv in u.listed if led.happens(e) is not False and
          e.name == IMW + ".write" and names_file(u, e, path)]
    c10(len(ls) == 1, "file-listed-once", where,
        f"a data file is listed {len(ls)} times in the index manifest")
    for e, rv in ls:
      fp = u.freeze(e.kwargs.get("file_path"))
      c14(rel_ok(u, fp, path), "manifest-path-relative", e.where,
          f"the manifest lists {short(fp)}")
      c01(e.i > c[0].i, "closed-before-listed", e.where,
          "a data file is listed before it is closed")
      md = e.kwargs.get("parquet_metadata")
      c07(md is not None and (tm.contains(md, w["obj"]) or
                              tm.contains(md, path)),
          "own-metadata", e.where,
          f"the file's statistics are computed from {short(md)}")
      fs = [x for x, y in u.finished if y is rv and x.i > e.i]
      c10(bool(fs), "manifest-finished", e.where,
          "a data file is listed after the manifest was written, or never")
      st = u.stats_of[e.i]
      nrows = plus(nrows, attr(st, "num_rows"))
      for k in total_bytes:
        total_bytes[k] = plus(total_bytes[k], attr(st, k))
      bitmaps.append((e, fp, attr(st, "num_rows"), path))
    p = u.freeze(path)
    c15(fresh_name(p), "fresh-data-file", where, f"the name {short(p)} is not unique")
    c15(in_dir(u, p, "data"), "in-data-folder", where, f"{short(p)}")
  names = [(w["new"], u.freeze(w["path"])) for k in (
      "ParquetWriter", "ArrayRecordWriter") for w in led.of(k)]
  for i, (e, p) in enumerate(names):
    c15(not any(same(p, x) for _, x in names[:i]), "one-file-per-name", e.where,
        f"{short(p)} is written twice")
  c10(True if sorted(got) == sorted(src) else False, "every-row-once", site,
      f"rows of {src} written, files have rows of {got}")
  # Record files.
  recbytes, rec_ok = ZERO, True
  rws = led.of("ArrayRecordWriter")
  if addresses:
    c10(not any(w["writes"] for w in rws), "addresses-kept", site,
        "given addresses are written as record values")
  else:
    for f in records:
      rec_ok = check_records(u, led, f, addr[f], c10, c01, c14, c15, c12, rws) \
          and rec_ok
    if rec_ok:
      for f in records:
        for t in src:
          recbytes = plus(recbytes, attr(mk("col", u.sym(t), const(f)), "nbytes"))
  # The change.
  ims = m.get(".addition", ".index_manifest_files")
  c10(manifest_added(u, led, ims, IMW, "INDEX"), "index-manifest-added", fin,
      f"the change adds {short(ims)}")
  c14(relative(ims, u.LOC), "change-path-relative", fin, f"{short(ims)}")
  rms = m.get(".addition", ".record_manifest_files")
  if records and not addresses:
    c10(manifest_added(u, led, rms, RMW, "RECORD"), "record-manifest-added", fin,
        f"the change adds {short(rms)}")
    c14(relative(rms, u.LOC), "change-path-relative", fin, f"{short(rms)}")
  # Statistics.
  su = (".storage_statistics_update",)
  for fld, want in [("num_rows", nrows)] + sorted(total_bytes.items()) + (
      [("record_uncompressed_bytes", recbytes)] if rec_ok else []):
    v = tables.norm(m.get(*su, "." + fld))
    c12(True if same(v, want) else unknown_or_false(v), "append-statistics", fin,
        f"{fld} is {short(v)}, expected {short(want)}", inst=fld)
  # Change log.
  log = m.get(".change_log", ".added_rows")
  check_bitmaps(u, log, bitmaps, c11, c14, fin)
  dl = m.get(".change_log", ".deleted_rows")
  c11(True if dl is EMPTY or same(dl, EMPTY) else unknown_or_false(dl),
      "append-deletes-nothing", fin, f"deleted rows are {short(dl)}")


def same_seq(a, b):
  return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def names_file(u, e, path):
  fp = e.kwargs.get("file_path")
  if fp is None:
    return False
  fp = u.freeze(fp)
  return same(join_loc(u, fp), u.freeze(path)) or same(fp, u.freeze(path))


def join_loc(u, p):
  return u.spec("path.join(LOC, p)", _module="space.core.utils.paths", LOC=u.LOC,
                p=p)


def rel_ok(u, fp, path):
  if same(join_loc(u, fp), u.freeze(path)) and not tm.contains(fp, u.LOC):
    return True
  return unknown_or_false(fp)


def in_dir(u, p, d):
  pre = u.spec("path.join(LOC, d)", _module="space.core.utils.paths", LOC=u.LOC,
               d=const(d)).args[1]
  if p.op == "call" and tm.call_name(p) == "os.path.join":
    return len(p.args[1]) == len(pre) + 1 and all(
        same(a, b) for a, b in zip(pre, p.args[1]))
  return unknown_or_false(p)


def manifest_added(u, led, v, cls, kind):
  used = [e for e, rv in u.finished if e.name == cls + ".finish" and
          led.happens(e) is not False]
  want = seq(tuple(("i", TRUE, u.spec("path.join('metadata', n)",
                                      _module="space.core.utils.paths",
                                      n=u.sym(kind + "_MANIFEST", STR)))
                   for _ in used))
  if same(v, want):
    return True
  return unknown_or_false(v)


def check_records(u, led, f, addr, c10, c01, c14, c15, c12, rws):
  """Values of a record field and the addresses stored for them."""
  pos = {}       # writer uid -> rows written so far
  parts = {}
  ok = True
  order = []
  for w in rws:
    for e in w["writes"]:
      v = e.args[0] if e.args else next(iter(e.kwargs.values()), None)
      src = record_source(u, e, v, f)
      if src is None:
        c10(None, "record-values", e.where, f"writes {short(v)}", inst=f)
        return False
      if src is False:
        continue
      t, good = src
      c10(good, "record-values", e.where,
          f"not every value of the column is written: {short(v)}", inst=f)
      order.append((e.i, w, t, e))
  seen = {}
  for i, w, t, e in sorted(order, key=lambda x: x[0]):
    uid = w["obj"].uid
    seen.setdefault(t.uid, []).append(w)
    parts[(t.uid, uid)] = pos.get(uid, ZERO)
    pos[uid] = plus(pos.get(uid, ZERO), attr(t, "num_rows"))
    c10(not any(c.i < e.i for c in w["close"]), "record-written-before-close",
        e.where, "a record is written to a closed file", inst=f)
  for t, v in addr:
    ws = seen.get(t.uid, [])
    if not c10(len(ws) == 1, "record-values-once", None,
               f"values of a batch are written to {len(ws)} files", inst=f):
      return False
    w = ws[0]
    want = u.spec("address_column(p, s, n)", _module="space.core.ops.utils",
                  p=rel(u, w["path"]), s=parts[(t.uid, w["obj"].uid)],
                  n=attr(t, "num_rows"))
    got = tables.norm(v)
    r = True if same(got, want) else unknown_or_false(got)
    c10(r, "record-address", w["new"].where,
        f"address {short(got)}, expected {short(want)}", inst=f)
  for w in rws:
    uid = w["obj"].uid
    if uid not in pos:
      continue
    where = w["new"].where
    c = w["close"]
    c01(len(c) >= 1, "record-file-closed", where, "a record file is not closed")
    ls = [(e, rv, a) for e, rv, a in u.rlisted if led.happens(e) is not False and
          names_file(u, e, w["path"])]
    c10(len(ls) == 1, "record-file-listed-once", where,
        f"a record file is listed {len(ls)} times", inst=f)
    for e, rv, a in ls:
      fp = a["file_path"]
      c14(rel_ok(u, fp, w["path"]), "record-manifest-path-relative", e.where,
          f"the manifest lists {short(fp)}")
      if c:
        c01(e.i > c[0].i, "record-closed-before-listed", e.where,
            "a record file is listed before it is closed")
      c10(True if same(a["field_id"], field_id(u, f)) else
          unknown_or_false(a["field_id"]), "record-field-id", e.where,
          f"listed for field {short(a['field_id'])}", inst=f)
      st = Msg(u, a["storage_statistics"], and_(*u.state.cond))
      n = tables.norm(st.get(".num_rows"))
      c10(True if same(n, pos[uid]) else unknown_or_false(n), "record-file-rows",
          e.where, f"listed with {short(n)} rows, has {short(pos[uid])}", inst=f)
      want = ZERO
      for (t, x), _ in parts.items():
        if x == uid:
          tb = next(y for _, _, y, _ in order if y.uid == t)
          want = plus(want, attr(mk("col", tb, const(f)), "nbytes"))
      b = tables.norm(st.get(".record_uncompressed_bytes"))
      c12(True if same(b, want) else unknown_or_false(b), "record-file-bytes",
          e.where, f"listed with {short(b)} bytes, has {short(want)}", inst=f)
      fs = [x for x, y in u.finished if y is rv and x.i > e.i]
      c10(bool(fs), "record-manifest-finished", e.where,
          "a record file is listed after the manifest was written, or never")
    p = u.freeze(w["path"])
    c15(fresh_name(p), "fresh-record-file", where, f"{short(p)} is not unique")
    c15(in_dir(u, p, "data"), "in-data-folder", where, f"{short(p)}")
  return ok


def rel(u, path):
  p = u.freeze(path)
  return u.spec("path.relpath(p, LOC)", _module="space.core.utils.paths", p=p,
                LOC=u.LOC)


def field_id(u, f):
  return u.spec("field_id(x)", _module="space.core.schema.arrow",
                x=u.FIELDS[f])


def record_source(u, e, v, f):
  """(batch, all values in order) of a value written to a record file; False for
  values of other fields; None if unknown."""
  if v is None:
    return None
  base, part = v, None
  while True:
    r, n = tables.method(base)
    if n == "chunk" and r is not None:
      base, part = r, base
      continue
    if base.op == "item" and base.args[0].op == "attr" and \
        base.args[0].args[1] == "chunks":
      base, part = base.args[0].args[0], base
      continue
    if n == "as_py" and r is not None:
      base = r
      continue
    if base.op == "elem":
      base = base.args[0]
      continue
    if base.op == "attr" and base.args[1] == "chunks":
      base = base.args[0]
      continue
    if n in ("to_pylist", "iterchunks", "combine_chunks") and r is not None:
      base = r
      continue
    if base.op == "call" and tm.call_name(base) in ("list", "iter") and \
        len(base.args[1]) == 1:
      base = base.args[1][0]
      continue
    break
  c = tables.canon_col(base)
  if c.op != "col":
    return None
  if c.args[1] is not const(f):
    return False
  if part is not None:
    # One chunk of several; a combined table has one.
    whole = any(tables.method(x)[1] in ("combine_chunks", "unify_dictionaries")
                for x in tm.walk(part))
    if any(x.op == "idx" for x in tm.walk(part)) or whole:
      return c.args[0], None
    return c.args[0], False
  cond = and_(*u.state.cond)
  left = left_early(u, e, cond)
  if left is not True:
    return c.args[0], left
  g = specialise(and_(*e.cond), cond)
  inner = specialise(e.guard if hasattr(e, "guard") and e.guard is not None
                     else TRUE, cond)
  ok = g is TRUE and inner is TRUE
  if not ok and own_elements(e, g):
    # Values are skipped; batches of values without any value may be.
    value = [x for x in tm.walk(v) if x.op == "elem"]
    ok = False if value and tm.contains(g, value[0]) else None
    return c.args[0], ok
  return c.args[0], (True if ok else (None if opaque(g) else False))


def left_early(u, e, cond):
  """True if the loops around an event go over all their elements, False if one
  is left early whatever its elements are, or because of one of them."""
  r = True
  for l in e.loops:
    n, info = l[0], getattr(l, "info", None) or u.loops.get(l[0])
    x = specialise(info.exits, cond) if info is not None else tm.FALSE
    if x is tm.FALSE:
      continue
    if x is TRUE or tm.contains(x, lambda y: y.op == "elem" and y.args[1] == n):
      return False
    r = None
  return r


def check_bitmaps(u, log, bitmaps, c11, c14, fin):
  xs = tm.seq_items(log) if log.op == "seq" else None
  if xs is None:
    c11(unknown_or_false(log), "added-rows-logged", fin,
        f"the change log has {short(log)}")
    return
  left = list(bitmaps)
  for x in xs:
    b = Msg(u, x)
    f = b.get(".file")
    hit = next((y for y in left if same(f, y[1]) or same(join_loc(u, f), u.freeze(
        y[3]))), None)
    if not c11(hit is not None, "added-rows-logged", fin,
               f"the change log has {short(f)}"):
      return
    left.remove(hit)
    c14(rel_ok(u, f, hit[3]), "change-log-path-relative", hit[0].where, short(f))
    c11(same(b.get(".all_rows"), TRUE), "all-rows-logged", hit[0].where,
        f"all_rows is {short(b.get('.all_rows'))}")
    n = b.get(".num_rows")
    c11(True if same(n, hit[2]) else unknown_or_false(n), "logged-row-count",
        hit[0].where, f"num_rows is {short(n)}")
  c11(not left, "added-rows-logged", left[0][0].where if left else fin,
      "added rows of a file are not in the change log")


@group(*PROPS)
def append(prog, R):
  scenario(prog, R, "two batches", ("A", "B"))
  scenario(prog, R, "empty and full batch", ("E", "A", "E"), empty=("E",))
  scenario(prog, R, "no rows", ("E",), empty=("E",))
  scenario(prog, R, "nothing written", ())
  scenario(prog, R, "given addresses", ("A", "B"), addresses=True)
  scenario(prog, R, "no record fields", ("A", "B"), records=())
  scenario(prog, R, "carried manifest", ("MANIFEST",))
  scenario(prog, R, "carried manifest and rows", ("MANIFEST", "A"))
