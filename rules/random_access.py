"""Random access (C20): what indexing a source gives, over small storages."""

from pyflow import terms as tm
from pyflow.terms import attr, const, mk, mk_call
from rules.append import Once
from rules.base import def_site
from rules.model import Field, Mismatch, Missing, Obj, Table, fails
from rules.read import FAILURES
from rules.registry import group
from rules.schema import Model, SchemaEval
from rules.units import STORAGE

RA = "space.core.random_access.RandomAccessDataSource"
DICT = "space.core.serializers.base.DictSerializer"
RUNNER = "space.core.runners.LocalRunner"


class Records(list):
  """The records that an ArrayRecord data source gives."""


class AccessEval(SchemaEval):

  def call(self, t):
    f, args, kwargs = t.args
    if f.op == "attr":
      m = f.args[1]
      if m in ("take", "__getitem__", "__getitems__", "__len__"):
        r = self(f.args[0])
        if isinstance(r, list):
          x = self(args[0] if args else kwargs[0][1]) if m != "__len__" else None
          if m == "__len__":
            return len(r)
          if m == "__getitem__":
            return self.at(r, x)
          return [self.at(r, i) for i in x]
      if m == "column" and len(args) == 1:
        r, c = self(f.args[0]), self(args[0])
        if isinstance(r, Table) and isinstance(c, str) and c not in r.names:
          raise Missing(f"no column {c} of {r.names}")
    return super().call(t)

  def at(self, r, i):
    if not isinstance(i, int) or not -len(r) <= i < len(r):
      raise Missing(f"record {i} of {len(r)}")
    return r[i]

  def ev(self, t):
    if t.op == "item" and t.args[1].op != "slice":
      b = self(t.args[0])
      if isinstance(b, Table):
        k = self(t.args[1])
        if isinstance(k, str):
          if k not in b.names:
            raise Missing(f"no column {k} of {b.names}")
          return b.col(k)
      if isinstance(b, list):
        return self.at(b, self(t.args[1]))
    return super().ev(t)


def where(o):
  return o.f["location"]


def method(t):
  return t.args[1][0] if t.args[1] else None


def named(t):
  return dict(t.args[2])


def recv_ext(name):
  """Cut: the call as a function of the receiver and the arguments."""

  def h(u, recv, bound, t, ev):
    return mk_call(mk("ext", name), (), tuple(sorted(
        [("self", u.freeze(recv))] + [(k, u.freeze(v)) for k, v in bound.items()])))

  return h


CALLS = {
    "load": lambda ev, t: Obj("storage", location=ev(named(t)["location"])),
    "full_path": lambda ev, t: where(ev(named(t)["self"])) + "/" + ev(
        named(t)["relpath"] if "relpath" in named(t) else [
            v for k, v in t.args[2] if k != "self"][0]),
    "read_file": lambda ev, t: [
        ("record", ev(named(t)["file_path"]), p)
        for p in ev(named(t)["positions"])],
    "read_column": lambda ev, t: column(ev, named(t)),
    "FileInstruction": lambda ev, t: instruction(ev, t),
    "ArrayRecordDataSource": lambda ev, t: Records(
        ("record", f.f["filename"], p)
        for f in ev.elems(t.args[1][0] if t.args[1] else t.args[2][0][1])
        for p in range(f.f["skip"], f.f["skip"] + f.f["take"])),
}


def instruction(ev, t):
  names = ("filename", "skip", "take", "examples_in_shard")
  kw = {k: ev(v) for k, v in t.args[2]}
  kw.update(zip(names, [ev(x) for x in t.args[1]]))
  if kw["take"] < 1 or kw["skip"] < 0:
    raise Missing(f"a range of {kw['take']} records from {kw['skip']}")
  return Obj("instruction", **kw)


def column(ev, kw):
  st, t, field = ev(kw["paths"]), ev(kw["addresses"]), ev(kw["field"]) if "field" in kw else None
  t = t.flatten()
  pre = "" if field is None else field + "."
  cols = []
  for n in (pre + "_FILE", pre + "_ROW_ID"):
    if n not in t.names:
      raise Missing(f"no column {n} of {t.names}")
    cols.append(t.col(n))
  return [("record", where(st) + "/" + f, i) for f, i in zip(*cols)]


class Access(Model):
  """A random access source over storages A (at /a) and B (at /b)."""

  def __init__(self, prog, full):
    fi, _ = prog.find_method(prog.classes[RUNNER], "read_all")
    read_all = fi.cls.qual + ".read_all" if hasattr(fi.cls, "qual") else \
        f"{fi.cls}.read_all"
    super().__init__(prog, "space.core.random_access", {
        STORAGE + ".load": self.load,
        STORAGE + ".serializer": self.serializer,
        STORAGE + ".full_path": recv_ext("full_path"),
        "space.core.utils.paths.StoragePathsMixin.full_path": recv_ext("full_path"),
        "space.core.datasets.Dataset.local": self.local,
        read_all: recv_ext("read_all"),
        "space.core.fs.array_record.read_record_file": plain("read_file"),
        "space.core.ops.read.read_record_column": plain("read_column"),
    })
    self.full = full
    self.codecs = {}
    self.runners = {}
    self.given = set()  # Storages given, that are on a branch.

  def storage(self, loc):
    o = Obj("storage " + loc, location=loc, given=True)
    self.given.add(loc)
    t = self.sym("STORAGE", o, ("inst", STORAGE))
    self.u.gstore[attr(t, "location")] = const(loc)
    return t

  def load(self, u, recv, bound, t, ev):
    loc = bound["location"]
    r = mk_call(mk("ext", "load"), (), (("location", u.freeze(loc)),))
    u._types[r.uid] = ("inst", STORAGE)  # pylint: disable=protected-access
    u.gstore[attr(r, "location")] = loc
    return r

  def serializer(self, u, recv, bound, t, ev):
    try:
      loc = where(self.ev()(u.freeze(recv)))
    except FAILURES:
      return None
    pairs = []
    for f in FIELDS[loc]:
      if (loc, f) not in self.codecs:
        c = Obj(f"codec of {f}", deserialize=lambda v, loc=loc, f=f: (
            "value", loc, f, v))
        self.codecs[loc, f] = self.sym("CODEC", c)
      pairs.append((const(f), self.codecs[loc, f]))
    return u.new(DICT, u.new_dict(pairs))

  def local(self, u, recv, bound, t, ev):
    r = u.sym(f"RUNNER_{len(self.runners)}", ("inst", RUNNER))
    st = u.freeze(u.get(recv, "storage"))
    self.runners[r.uid] = st
    self.m[r.uid] = Obj("runner")
    self.m[r.uid].f.update(location=None, main=False)
    try:
      o = self.ev()(st)
      self.m[r.uid].f["location"] = where(o)
      self.m[r.uid].f["main"] = not o.f.get("given")
    except FAILURES:
      pass
    return r

  def read_all(self, ev, t):
    kw = named(t)
    loc = where(ev(kw["self"]))
    if loc is None:
      raise KeyError("storage read")
    if kw.get("filter_") is not None and ev(kw["filter_"]) is not None:
      raise Missing("a filter")
    fields = ev(kw["fields"]) if "fields" in kw else None
    tab = self.full.get(loc)
    if tab is None:
      return None
    if loc in self.given and ev(kw["self"]).f["main"]:
      # The records of the main branch are others.
      tab = tab.pick(range(0, tab.num_rows, 2))
    if "reference_read" not in kw or not ev(kw["reference_read"]):
      tab = Table(tab.names, [[b"record"] * len(c) for c in tab.cols])
    return tab if fields is None else tab.select(fields)

  def ev(self):
    return AccessEval(lambda t: self.m[t.uid], self.u.loops,
                      {**CALLS, "read_all": self.read_all}, self.u.state.store)


FIELDS = {"/a": ("f", "g"), "/b": ("h", "f")}


def plain(name):
  def h(u, recv, bound, t, ev):
    return mk_call(mk("ext", name), (), tuple(sorted(
        (k, u.freeze(v)) for k, v in bound.items())))
  return h


def addresses(cols, flat):
  """Address columns: {field: [(file, row)]}."""
  if flat:
    names, cs = [], []
    for f, v in cols.items():
      names += [f + "._FILE", f + "._ROW_ID"]
      cs += [[x[0] for x in v], [x[1] for x in v]]
    return Table(names, cs)
  return Table(list(cols), [[{"_FILE": a, "_ROW_ID": b} for a, b in v]
                            for v in cols.values()],
               [Field(f, None) for f in cols])


# Address lists: in order, with gaps, shuffled over files, with duplicates.
LISTS = {
    "one record": [("x", 0)],
    "consecutive records": [("x", 0), ("x", 1), ("x", 2)],
    "records after a deletion": [("x", 1), ("x", 2), ("x", 5), ("x", 7), ("x", 8)],
    "two files": [("x", 3), ("x", 4), ("y", 0), ("y", 2)],
    "interleaved files": [("y", 4), ("x", 0), ("y", 5), ("x", 1), ("z", 9)],
    "any order": [("x", 5), ("y", 1), ("x", 2), ("x", 3), ("y", 0), ("x", 9)],
    "repeated records": [("x", 1), ("x", 1), ("y", 0), ("x", 2), ("x", 1)],
}


def cases():
  for how, l in LISTS.items():
    m = [("z" + a, b + 10) for a, b in reversed(l)]
    for single in (True, False):
      yield f"{how}, one field", {"f": "/a"}, {"f": l}, single
    yield f"{how}, a field without serializer", {"raw": "/a"}, {"raw": l}, True
    yield f"{how}, two fields", {"f": "/a", "g": "/a"}, {"f": l, "g": m}, True
    yield f"{how}, fields of two storages", {"f": "/a", "h": "/b"}, {
        "f": l, "h": m}, True


def source(mo, feats, table, deserialize, single, objs=()):
  """Builds the source; returns it and the events."""
  u = mo.u
  fd = u.new_dict([(const(f), mo.storage(loc) if f in objs else const(loc))
                   for f, loc in feats.items()])
  k = u.mark()
  a = [] if table is None else [mo.sym("ADDRESSES", table)]
  kw = {} if deserialize is None else {
      "deserialize": const(deserialize),
      "use_array_record_data_source": const(single)}
  ds = u.new(RA, fd, *a, **kw)
  return ds, u.since(k)


@group("C20")
def indexing(prog, R):
  r = R["C20"]
  site = def_site(prog, RA + ".__getitem__")
  for how, feats, cols, single in cases():
    for given in ("struct addresses", "flat addresses", "no addresses"):
      if given == "no addresses" and len(set(feats.values())) > 1:
        continue
      for deser in (False, True):
        if deser and "raw" in feats:
          continue
        if not deser and single and given == "no addresses":
          deser = None  # The defaults: not deserialized.
        objs = list(feats)[:1] if given == "flat addresses" else (
            list(feats) if deser else ())
        what = (f"{how}, {given}" + (", deserialized" if deser else "") +
                    (", defaults" if deser is None else "") +
                ("" if single else ", without ArrayRecord data source"))
        inst = "one field" if len(feats) == 1 else "fields"
        if len(feats) == 1:
          inst += ", ArrayRecord" if single else ", addresses"
        one(prog, R, Once(r, "indexing", site), what, inst, feats, cols, given,
            deser, single, objs)


def one(prog, R, rep, what, inst, feats, cols, given, deser, single, objs):
  # The addresses of a whole dataset come in order.
  table = addresses(cols, given == "flat addresses")
  mo = Access(prog, {loc: addresses({f: v for f, v in cols.items()
                                     if feats[f] == loc}, False)
                     for loc in set(feats.values())})
  u = mo.u
  first = next(iter(feats))
  ds, evs = source(mo, feats, None if given == "no addresses" else table, deser,
                   single, objs)
  bad = [e for e in u.raised(evs) if decided_not_false(mo, e)]
  if bad or not u.state.live:
    rep(False if bad and mo.sure(bad[0]) else None, "index-record",
        bad[0].where if bad else None, f"{what}: fails", inst=inst)
    return

  def item(f, k):
    rec = ("record", feats[f] + "/" + cols[f][k][0], cols[f][k][1])
    return ("value", feats[f], f, rec) if deser else rec

  def at(k):
    v = {f: item(f, k) for f in feats}
    return v[first] if len(feats) == 1 else v

  try:
    n = mo.ev()(u.freeze(u.meth(ds, "__len__")))
    rep(n == len(cols[first]) or (None if not mo.sure() else False),
        "source-length", None, f"{what}: the length is {n} for "
        f"{len(cols[first])} addresses", inst=inst)
  except FAILURES as e:
    rep(fails(e), "source-length", None, f"{what}: not evaluated: {e}", inst=inst)
  n = len(cols[first])
  for i in list(range(n)) + [list(range(n)), [n - 1, 0, n // 2], [0],
                                [0, n - 1, 0, 0]]:
    if isinstance(i, list):
      v = {f: [item(f, k) for k in i] for f in feats}
      want = v[first] if len(feats) == 1 else v
    else:
      want = at(i)
    u.forget()
    k = u.mark()
    res = u.meth(ds, "__getitem__", mo.sym("INDEX", i))
    judge(mo, rep, "index-record", f"{what}: [{i}]", inst, u.since(k), res, want)
  u.forget()
  k = u.mark()
  res = u.meth(ds, "__iter__")
  judge(mo, rep, "iterate", what, inst, u.since(k), res,
        [at(k) for k in range(n)], seq=True)
  R.use(("C20",), u, what)


def judge(mo, rep, rule, what, inst, evs, res, want, seq=False):
  bad = [e for e in mo.u.raised(evs) if decided_not_false(mo, e)]
  if bad:
    rep(False if mo.sure(bad[0]) else None, rule, bad[0].where,
        f"{what}: fails", inst=inst)
    return
  try:
    t = mo.u.freeze(res)
    got = mo.ev().elems(t) if seq else mo.ev()(t)
    rep(norm(got) == norm(want) or (None if not mo.sure() else False), rule, None,
        f"{what} gives {got}, expected {want}", inst=inst)
  except (Missing, Mismatch) as e:
    rep(False if mo.sure() else None, rule, None, f"{what}: fails: {e}", inst=inst)
  except FAILURES as e:
    rep(fails(e), rule, None, f"{what}: not evaluated: {type(e).__name__} {e}",
        inst=inst)


def norm(x):
  if isinstance(x, (list, tuple)):
    return tuple(norm(y) for y in x)
  if isinstance(x, dict):
    return {k: norm(v) for k, v in x.items()}
  return x


def decided_not_false(mo, e):
  return not any(mo.decide(c) is False for c in e.cond)


@group("C20")
def errors(prog, R):
  """Sources that cannot be built are refused."""
  r = R["C20"]
  site = def_site(prog, RA + ".__init__")
  l = {"f": [("x", 0)], "h": [("y", 1)]}
  tab = addresses(l, False)
  for how, feats, table, full, deser in (
      ("an empty storage", {"f": "/a"}, None, {}, False),
      ("two storages without addresses", {"f": "/a", "h": "/b"}, None,
       {"/a": tab, "/b": tab}, False),
      ("two storages of one folder name without addresses",
       {"f": "/x/a", "h": "/y/a"}, None, {"/x/a": tab, "/y/a": tab}, False),
      ("a field without serializer", {"id": "/a"}, addresses(
          {"id": [("x", 0)]}, False), {}, True)):
    for single, objs in ((True, ()), (False, feats), (False, ())):
      rep = Once(r, "RandomAccessDataSource", site)
      mo = Access(prog, full)
      _, evs = source(mo, feats, table, deser, single, objs)
      bad = [e for e in mo.u.raised(evs) if decided_not_false(mo, e)]
      ok = True if bad and not mo.u.state.live else (
          False if not bad and mo.u.state.live and mo.sure() else None)
      rep(ok, "source-refused", None, f"{how}: accepted")
      if bad:
        rep("UserInputError" in str(bad[0].name) or None, "source-refused",
            bad[0].where, f"{how}: raises {bad[0].name}")
      R.use(("C20",), mo.u, how)
