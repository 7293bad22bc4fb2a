"""Manifest files: what the writers record about a data file, and what readers
read back (C07)."""

import itertools

from pyflow import terms as tm
from pyflow.terms import NONE, TRUE, and_, attr, const, seq
from rules.base import Unit, def_site, short, strip_str
from rules.evalt import Unknown
from rules.model import Missing, Mismatch, ModelEval, Obj, Table
from rules.registry import group
from rules.storage import fresh_name
from rules.append import Once
from rules.units import STR

IMW = "space.core.manifests.index.IndexManifestWriter"
RMW = "space.core.manifests.record.RecordManifestWriter"
INDEX_MOD = "space.core.manifests.index"
FIXED = ["_FILE", "_NUM_ROWS", "_INDEX_COMPRESSED_BYTES",
         "_INDEX_UNCOMPRESSED_BYTES"]
LEAVES = ("k1", "o.x", "o.y", "k2")
NAMES = ("k1", "o", "k2")
KEYS = ("k1", "k2")
IDS = {"k1": 11, "o": 12, "k2": 15}


# ------------------------------------------------------------------- the model


def stat(kind):
  """Column chunk statistics: unavailable, all null, without bounds, with a
  bound too long to be kept, or bounds."""
  if kind == "missing":
    return None
  if kind == "null":
    return Obj("all null", has_min_max=False, min=None, max=None, num_values=0,
               null_count=4)
  if kind == "nobounds":
    return Obj("no bounds", has_min_max=False, min=None, max=None, num_values=3,
               null_count=1)
  if kind == "long":
    return Obj("long", has_min_max=True, min="a", max="", num_values=4,
               null_count=0)
  nulls = kind[2] if len(kind) > 2 else 0
  return Obj(str(kind), has_min_max=True, min=kind[0], max=kind[1],
             num_values=4 - nulls, null_count=nulls)


def file_model(name, size, stats):
  """stats: for every row group, the statistics of k1 and k2."""
  groups = []
  for g, row in enumerate(stats):
    cols = []
    for c, leaf in enumerate(LEAVES):
      s = stat(row[leaf]) if leaf in row else stat((-900 - g, 900 + g))
      cols.append(Obj(f"{name}.{g}.{leaf}", path_in_schema=leaf, statistics=s,
                      is_stats_set=s is not None,
                      total_compressed_size=10 ** c * (g + 1) + size,
                      total_uncompressed_size=2 * 10 ** c * (g + 1) + 7 * size,
                      num_values=4))
    groups.append(Obj(f"{name}.{g}", num_columns=len(cols), num_rows=4,
                      column=lambda i, cols=cols: cols[i],
                      total_byte_size=50 + g))
  leaves = [Obj(l, path=l, name=l.split(".")[-1]) for l in LEAVES]
  return Obj(name, num_rows=100 * size + len(stats), num_row_groups=len(stats),
             num_columns=len(LEAVES), row_group=lambda i: groups[i],
             serialized_size=1,
             schema=Obj("parquet schema", names=[x.f["name"] for x in leaves],
                        column=lambda i: leaves[i]),
             groups_=groups)


def bounds(f, leaf):
  """The bounds that may be recorded for the file, or None when unknown."""
  lo = hi = None
  i = LEAVES.index(leaf)
  for g in f.f["groups_"]:
    s = g.f["column"](i).f["statistics"]
    if s is not None and s.f["num_values"] == 0:
      continue
    if s is None or not s.f["has_min_max"] or s.f["max"] == "":
      return None, None
    lo = s.f["min"] if lo is None else min(lo, s.f["min"])
    hi = s.f["max"] if hi is None else max(hi, s.f["max"])
  return lo, hi


def size(f, attribute, leaves=LEAVES):
  return sum(g.f["column"](LEAVES.index(l)).f[attribute]
             for g in f.f["groups_"] for l in leaves)


# --------------------------------------------------------------------- writer


def schema_unit(prog, cuts=None):
  u = Unit(prog, cuts or {}, module=INDEX_MOD)
  u.SCH = u.sym("SCHEMA")
  u.FIELDS = {n: u.sym("FIELD_" + n) for n in NAMES}
  for n, f in u.FIELDS.items():
    u.gstore[attr(f, "name")] = const(n)
  u.known_iter[u.SCH.uid] = list(u.FIELDS.values())
  u.DIR = u.sym("DIR", STR)
  return u


def leaves_of(u, more):
  fields = {n: Obj("field " + n, name=n, type="T_" + n, nullable=True,
                   metadata={b"PARQUET:field_id": str(IDS[n]).encode()})
            for n in NAMES}
  schema = Obj("schema", names=list(NAMES),
               field=lambda x: fields[x if isinstance(x, str) else NAMES[x]],
               get_field_index=lambda n: NAMES.index(n) if n in NAMES else -1)
  m = {u.SCH.uid: schema, u.DIR.uid: "DIR"}
  for n, f in u.FIELDS.items():
    m[f.uid] = fields[n]
  m.update({k.uid: v for k, v in more.items()})

  def leaf(t):
    return m[t.uid]

  return leaf


def sinks(u):
  """Tables written: (event, path term, table term, closed)."""
  out, new, closed = [], {}, set()
  for e in u.events:
    last = e.name.split(".")[-1] if e.kind in ("call", "with_exit") else ""
    if e.kind == "call" and last == "ParquetWriter":
      new[e.result.uid] = e
    elif e.recv is not None and e.recv.uid in new:
      if e.kind == "with_exit" or last == "close":
        closed.add(e.recv.uid)
      elif last in ("write_table", "write_batch", "write"):
        out.append((e, new[e.recv.uid].arg(0, "where"), (
            e.arg(0, "table") or e.arg(0, "table_or_batch") or
            e.arg(0, "batch")), e.recv.uid))
    elif e.kind == "call" and last == "write_table" and e.name.startswith(
        "pyarrow.parquet"):
      out.append((e, e.arg(1, "where"), e.arg(0, "table"), None))
  return [(e, p, t, k is None or k in closed) for e, p, t, k in out]


def written(u, ev, r):
  """The table stored in the returned file, evaluated in the model."""
  hit = []
  for e, p, t, closed in sinks(u):
    g = and_(*e.cond)
    if ev(g):
      hit.append((e, p, t, closed))
  return hit


def check_index_writer(prog, R, name, cases, cached=()):
  """write(PATH, FILE) for each file; cached tables before them; finish."""
  site = def_site(prog, IMW + ".write")
  u = schema_unit(prog)
  w = u.new(IMW, u.DIR, u.SCH, seq((("i", TRUE, const("k2")),
                                    ("i", TRUE, const("k1")))))
  files = len(cases[0])
  syms, stats = [], []
  tabs = []
  for c in range(len(cached)):
    t = u.sym(f"CARRIED{c + 1}")
    tabs.append(t)
    u.meth(w, "write_arrow", t)
  for i in range(files):
    m, p = u.sym(f"FILE{i + 1}"), u.sym(f"PATH{i + 1}", STR)
    syms.append((m, p))
    stats.append(u.freeze(u.meth(w, "write", p, m)))
  r = u.freeze(u.meth(w, "finish"))
  R.use(("C07", "C15"), u, "index manifest: " + name)
  live = u.state.live
  for k, case in enumerate(cases):
    rep, rep15 = Once(R["C07"], name, site), Once(R["C15"], name, site)
    models = [file_model(f"file{i + 1}", i + 3, s) for i, s in enumerate(case)]
    cols = FIXED + [f"_STATS_f{IDS[n]}" for n in NAMES if n in KEYS]
    carried = [Table(cols, [[f"c{i}.{j}.{c}" for j in range(n)] for c in cols])
               for i, n in enumerate(cached)]
    more = {}
    for (m, p), mo in zip(syms, models):
      more[m], more[p] = mo, mo.name_ + ".parquet"
    for t, v in zip(tabs, carried):
      more[t] = v
    ev = ModelEval(leaves_of(u, more), u.loops)
    try:
      check_case(u, rep, rep15, ev, r, live, models, carried, cols, stats)
    except (Missing, Mismatch) as e:
      kinds = [[str(stat(r["k1"])) for r in f] for f in case]
      rep(False, "manifest-row", site, f"the write of files whose row groups have "
          f"statistics {kinds} fails: {e}")
      break
    except Unknown as e:
      rep(None, "manifest-row", site, f"not evaluated: {e}")
      break
    except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
      rep(None, "manifest-row", site, f"not evaluated: {type(e).__name__} {e}")
      break


def check_case(u, rep, rep15, ev, r, live, models, carried, cols, stats):
  rows = sum(c.num_rows for c in carried) + len(models)
  rep(live, "manifest-row", None, "the writer always raises")
  ret_none = pick(ev, r) is NONE
  hit = written(u, ev, r)
  if rows == 0:
    rep(ret_none and not hit, "no-empty-manifest", None,
        "a manifest without rows is written" if hit else "returns a path of "
        "nothing")
    return
  if ret_none or not hit:
    rep(False, "manifest-written", None,
        "no manifest file is " + ("returned" if ret_none else "written"))
    return
  tot = []
  for e, p, t, closed in hit:
    rep(closed, "manifest-closed", e.where, "the manifest file is not closed")
    rep(strip_str(p) is strip_str(pick(ev, r)), "manifest-path", e.where,
        f"writes {short(p, 200)}, returns {short(pick(ev, r), 200)}")
    rep15(bool(fresh_name(strip_str(p))) and tm.contains(p, u.DIR),
          "fresh-manifest", e.where,
          f"is not a new file of the folder: {short(p, 200)}")
    tot.append(ev(t))
  if any(not isinstance(t, Table) for t in tot):
    raise Unknown("table")
  for t in tot:
    if sorted(t.names) != sorted(cols):
      rep(False, "manifest-columns", hit[0][0].where,
          f"columns {t.names}, expected {cols}")
      return
    if t.schema is not None:
      for f in t.schema:
        k = [n for n in KEYS if f.name == f"_STATS_f{IDS[n]}"]
        if k:
          ty = getattr(f.type, "f", {}).get("fields")
          ok = None if ty is None else [(x.name, x.type) for x in ty] == [
              ("_MIN", "T_" + k[0]), ("_MAX", "T_" + k[0])]
          rep(ok, "stats-type", hit[0][0].where,
              f"statistics of {k[0]} have type {ty and [(x.name, x.type) for x in ty]}")
  got = {c: [x for t in tot for x in t.col(c)] for c in cols}
  lens = {len(v) for v in got.values()}
  rep(lens == {rows}, "manifest-rows", hit[0][0].where,
      f"{lens} rows for {rows} files")
  if lens != {rows}:
    return
  order = {p: i for i, p in enumerate(got["_FILE"])}
  for t in carried:
    for j in range(t.num_rows):
      want = [t.col(c)[j] for c in cols]
      i = order.get(want[0])
      rep(i is not None and [got[c][i] for c in cols] == want, "carried-rows",
          hit[0][0].where, "a row given in Arrow format is not kept")
  for m, st in zip(models, stats):
    i = order.get(m.name_ + ".parquet")
    if i is None:
      rep(False, "manifest-path-of-file", hit[0][0].where,
          f"files listed: {got['_FILE']}")
      continue
    rep(got["_NUM_ROWS"][i] == m.f["num_rows"], "row-count", hit[0][0].where,
        f"{got['_NUM_ROWS'][i]} for a file of {m.f['num_rows']} rows")
    for c, a in (("_INDEX_COMPRESSED_BYTES", "total_compressed_size"),
                 ("_INDEX_UNCOMPRESSED_BYTES", "total_uncompressed_size")):
      n = "compressed" if "UNC" not in c else "uncompressed"
      byte_count(rep, got[c][i], m, a, n, hit[0][0].where)
    for k in KEYS:
      v = got[f"_STATS_f{IDS[k]}"][i]
      lo, hi = bounds(m, k)
      kinds = "/".join(str(g.f["column"](LEAVES.index(k)).f["statistics"])
                       for g in m.f["groups_"])
      ok = isinstance(v, dict) and v.get("_MIN") == lo and v.get("_MAX") == hi
      rep(ok, "bounds", hit[0][0].where,
          f"bounds of {k} over row groups with {kinds} are {v}, expected "
          f"{lo}..{hi}")
    # The statistics returned for the file.
    if st.op != "msg":
      raise Unknown("statistics")
    f = {"".join(x for x in kk): v for kk, v in st.args[1]}
    rep(".num_rows" in f and ev(f[".num_rows"]) == m.f["num_rows"],
        "returned-statistics", None, "the returned row count is not the file's")
    for c, a in ((".index_compressed_bytes", "total_compressed_size"),
                 (".index_uncompressed_bytes", "total_uncompressed_size")):
      v = ev(f[c]) if c in f else 0
      byte_count(rep, v, m, a, "returned " + ("compressed" if "unc" not in c else
                                              "uncompressed"), None)


def byte_count(rep, v, m, a, n, where):
  if v == size(m, a, KEYS) and v != size(m, a):
    Once(rep.rep, "index manifest", rep.site)(
        False, "byte-count", where, "bytes of a file count its primary key "
        "columns only", inst="key columns only")
  else:
    rep(v == size(m, a), "byte-count", where,
        f"{n} bytes {v} of a file of {size(m, a)} bytes", inst=n)


def pick(ev, r):
  while r.op == "ite":
    r = r.args[1] if ev(r.args[0]) else r.args[2]
  return r


B = (3, 5)
STATS = ["missing", "null", "nobounds", (2, 4, 3), (4, 9), (3, 5), (5, 5), (0, 0, 1)]


def row(k1, k2=(100, 200)):
  return {"k1": k1, "k2": k2}


@group("C07", "C15")
def index_manifest_writer(prog, R):
  one = [[[row(a)]] for a in STATS + ["long", ("a", "b")]]
  check_index_writer(prog, R, "one file, one row group", one)
  two = [[[row(a), row(b, (50 if i % 2 else 150, 300))]]
         for i, (a, b) in enumerate(itertools.product(STATS, STATS))]
  two += [[[row("long"), row(("a", "b"))]], [[row(("c", "d")), row(("a", "b"))]],
          [[row(("a", "b")), row("long")]]]
  check_index_writer(prog, R, "one file, two row groups", two)
  three = [[[row(a), row(b), row(c, "missing" if a == "null" else (7, 8))]]
           for a, b, c in itertools.product(STATS[:5], repeat=3)]
  check_index_writer(prog, R, "one file, three row groups", three)
  check_index_writer(prog, R, "file without row groups", [[[]]])
  files = [[[row(a), row((10, 20))], [row(b, (1, 2))]]
           for a, b in itertools.product(STATS, STATS)]
  files += [[[row((10, 20))], []], [[], [row((10, 20))]],
            [[row("missing")], []]]
  check_index_writer(prog, R, "two files", files)
  some = [[[row((1, 2))]]]
  check_index_writer(prog, R, "a file and carried rows", some, (2, 1))
  check_index_writer(prog, R, "a file and more carried rows", some, (2, 1, 3))
  check_index_writer(prog, R, "carried rows only", [[]], (2, 1))
  check_index_writer(prog, R, "more carried rows only", [[]], (2, 1, 3, 1))
  check_index_writer(prog, R, "carried rows, none", [[]], (0, 0))
  check_index_writer(prog, R, "nothing written", [[]])


@group("C07", "C15")
def record_manifest_writer(prog, R):
  site = def_site(prog, RMW + ".write")
  for n in (0, 1, 2):
    rep, rep15 = (Once(R[p], f"record manifest, {n} files", site)
                  for p in ("C07", "C15"))
    u = Unit(prog, {}, module="space.core.manifests.record")
    u.DIR = u.sym("DIR", STR)
    w = u.new(RMW, u.DIR)
    more, models = {u.DIR: "DIR"}, []
    for i in range(n):
      p, f = u.sym(f"PATH{i}", STR), u.sym(f"ID{i}", ("scalar", "int"))
      s = u.sym(f"STATS{i}", ("proto", "StorageStatistics"))
      u.meth(w, "write", p, f, s)
      models.append((f"p{i}", 40 + i, 7 + i, 1000 + i))
      more[p], more[f] = f"p{i}", 40 + i
      more[attr(s, "num_rows")] = 7 + i
      more[attr(s, "record_uncompressed_bytes")] = 1000 + i
      more[attr(s, "index_compressed_bytes")] = 2000 + i
      more[attr(s, "index_uncompressed_bytes")] = 3000 + i
    r = u.freeze(u.meth(w, "finish"))
    R.use(("C07", "C15"), u, f"record manifest: {n} files")
    m = {k.uid: v for k, v in more.items()}
    ev = ModelEval(lambda t, m=m: m[t.uid], u.loops)
    try:
      none = pick(ev, r) is NONE
      hit = written(u, ev, r)
      if n == 0:
        rep(none and not hit, "no-empty-manifest", site,
            "a manifest without rows is written")
        continue
      if none or len(hit) != 1:
        rep(False, "manifest-written", site, f"{len(hit)} files written")
        continue
      e, p, t, closed = hit[0]
      rep(closed, "manifest-closed", e.where, "the manifest file is not closed")
      rep(strip_str(p) is strip_str(pick(ev, r)), "manifest-path",
          e.where, f"writes {short(p, 200)}, returns {short(r, 200)}")
      rep15(bool(fresh_name(strip_str(p))) and tm.contains(p, u.DIR),
            "fresh-manifest", e.where,
            f"is not a new file of the folder: {short(p, 200)}")
      tab = ev(t)
      cols = ["_FILE", "_FIELD_ID", "_NUM_ROWS", "_UNCOMPRESSED_BYTES"]
      if not isinstance(tab, Table):
        raise Unknown("table")
      if sorted(tab.names) != sorted(cols):
        rep(False, "manifest-columns", e.where, f"columns {tab.names}")
        continue
      got = sorted(zip(*[tab.col(c) for c in cols]))
      rep(got == sorted(models), "record-manifest-row", e.where,
          f"rows {got}, expected {models} (path, field, rows, bytes)")
    except (Unknown, TypeError, ValueError, AttributeError, IndexError) as ex:
      rep(None, "manifest-row", site, f"not evaluated: {ex}")


@group("C07")
def index_manifest_reader(prog, R):
  """Every row of a manifest is one file of the file set."""
  fn = INDEX_MOD + ".read_index_manifests"
  site = def_site(prog, fn)
  for filt in (False, True):
    rep = Once(R["C07"], "read " + ("with" if filt else "without") + " filter",
               site)
    u = Unit(prog, {}, module=INDEX_MOD)
    p, i, f = u.sym("PATH", STR), u.sym("ID", ("scalar", "int")), u.sym("FILTER")
    r = u.freeze(u.do(fn, p, i, f) if filt else u.do(fn, p, i))
    R.use(("C07",), u, "read_index_manifests")
    reads = []

    def read_table(ev, t, reads=reads):
      reads.append(t)
      return ev.table

    for n in (0, 1, 3):
      m = {p.uid: "p", i.uid: 5, f.uid: "filter"}
      ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, {
          "pyarrow.parquet.read_table": read_table})
      ev.table = Table(FIXED + ["_STATS_f11"], [
          [f"f{j}" for j in range(n)], [10 + j for j in range(n)],
          [20 + j for j in range(n)], [30 + j for j in range(n)],
          [{} for j in range(n)]])
      try:
        if r.op != "msg":
          raise Unknown("result")
        fs = {"".join(map(str, k)): v for k, v in r.args[1]}
        if set(fs) - {".index_files"}:
          raise Unknown(str(set(fs)))
        got = ev.files(fs[".index_files"]) if ".index_files" in fs else []
        want = [{".path": f"f{j}", ".manifest_file_id": 5,
                 ".storage_statistics.num_rows": 10 + j,
                 ".storage_statistics.index_compressed_bytes": 20 + j,
                 ".storage_statistics.index_uncompressed_bytes": 30 + j}
                for j in range(n)]
        rep(got == want, "file-set", site, f"{n} rows are read as {got}")
      except (Unknown, TypeError, ValueError, AttributeError, IndexError) as ex:
        rep(None, "file-set", site, f"not evaluated: {ex}")
    for t in reads[:1]:
      kw, args = dict(t.args[2]), t.args[1]
      src = kw.get("source") or (args[0] if args else None)
      rep(src is p, "reads-manifest", site, f"reads {short(src)}")
      fl = kw.get("filters")
      if filt:
        rep(fl is f, "filters-manifest", site, f"filter is {short(fl)}")
      else:
        rep(fl is None or fl is NONE, "filters-manifest", site,
            f"filter is {short(fl)}")
