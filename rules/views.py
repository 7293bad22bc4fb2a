"""Views and materialized views (C21): plans, transforms and refresh."""

import contextlib
import posixpath

from pyflow import terms as tm
from pyflow.terms import attr, const, mk, mk_call
from rules.append import Once
from rules.base import def_site, short
from rules.model import Mismatch, Missing, Obj, fails
from rules.read import FAILURES, ext
from rules.registry import group
from rules.schema import F, Model, PROTOS, Schema, SchemaEval, canon, list_, struct
from rules.units import STORAGE, ctor

DATASET = "space.core.datasets.Dataset"
VIEW = "space.core.views.View"
MV = "space.core.views.MaterializedView"
UDF = "space.core.transform.plans.UserDefinedFn"
RANDOM_ID = "space.core.utils.uuids.random_id"

# The part of Substrait's (vendored) message definitions that plans use.
PLAN_PROTOS = PROTOS + """
message Plan { repeated SimpleExtensionURI extension_uris = 1;
  repeated SimpleExtensionDeclaration extensions = 2;
  repeated PlanRel relations = 3; }
message SimpleExtensionURI { uint32 extension_uri_anchor = 1; string uri = 2; }
message SimpleExtensionDeclaration {
  message ExtensionType { uint32 extension_uri_reference = 1;
    uint32 type_anchor = 2; string name = 3; }
  message ExtensionFunction { uint32 extension_uri_reference = 1;
    uint32 function_anchor = 2; string name = 3; }
  oneof mapping_type { ExtensionType extension_type = 1;
    ExtensionFunction extension_function = 3; } }
message PlanRel { oneof rel_type { Rel rel = 1; RelRoot root = 2; } }
message RelRoot { Rel input = 1; repeated string names = 2; }
message Rel { oneof rel_type { ReadRel read = 1; FilterRel filter = 2;
  ProjectRel project = 7; } }
message ReadRel {
  message NamedTable { repeated string names = 1; }
  NamedStruct base_schema = 2;
  oneof read_type { NamedTable named_table = 7; } }
message FilterRel { Rel input = 2; Expression condition = 3; }
message ProjectRel { Rel input = 2; repeated Expression expressions = 3; }
message Expression {
  message ScalarFunction { uint32 function_reference = 1;
    repeated FunctionArgument arguments = 4; Type output_type = 3; }
  message ReferenceSegment {
    message StructField { int32 field = 1; ReferenceSegment child = 2; }
    oneof reference_type { StructField struct_field = 2; } }
  message FieldReference {
    oneof reference_type { ReferenceSegment direct_reference = 1; } }
  oneof rex_type { FieldReference selection = 2;
    ScalarFunction scalar_function = 3; } }
message FunctionArgument { oneof arg_type { string enum = 1; Type type = 2;
  Expression value = 3; } }
"""


@contextlib.contextmanager
def substrait(prog):
  old = dict(prog.protos), {k: dict(v) for k, v in prog.oneofs.items()}
  prog._load_proto(PLAN_PROTOS)  # pylint: disable=protected-access
  try:
    yield
  finally:
    prog.protos, prog.oneofs = old


class ViewEval(SchemaEval):

  paths = {
      "os.path.join": lambda ev, t: posixpath.join(*[ev(x) for x in t.args[1]]),
      "os.path.relpath": lambda ev, t: posixpath.relpath(
          *[ev(x) for x in t.args[1]]),
      "os.path.normpath": lambda ev, t: posixpath.normpath(ev(t.args[1][0])),
      "os.path.basename": lambda ev, t: posixpath.basename(ev(t.args[1][0])),
      "os.path.dirname": lambda ev, t: posixpath.dirname(ev(t.args[1][0])),
  }

  def ev(self, t):
    if t.op == "enum":
      return ("enum",) + t.args
    return super().ev(t)

  def call(self, t):
    f, args, kwargs = t.args
    name = tm.call_name(t)
    if name in self.paths:
      return self.paths[name](self, t)
    if f.op == "attr" and f.args[1] in ("issubset", "issuperset", "difference",
                                        "intersection", "union"):
      r = self(f.args[0])
      if isinstance(r, (set, frozenset)):
        xs = [{self.hashable(x) for x in self.elems(a)} for a in args]
        return getattr(r, f.args[1])(*xs)
    return super().call(t)


class Views(Model):
  """Views over one dataset."""

  def __init__(self, prog, ids=None, cuts=(), module="space.core.views"):
    self.ids = ids or []
    self.calls = 0
    self.files = {}
    self.loaded = []
    c = {RANDOM_ID: self.random_id, UDF + ".dump": self.dump,
         UDF + ".load": self.load, DATASET + ".load": self.load_dataset,
         STORAGE + ".create": self.create,
         "space.core.fs.factory.create_fs": ext("create_fs")}
    c.update(cuts or {})
    super().__init__(prog, module, c)
    self.created = []

  def ev(self):
    return ViewEval(lambda t: self.m[t.uid], self.u.loops, {},
                    self.u.state.store)

  def random_id(self, u, recv, bound, t, ev):
    self.calls += 1
    return const(self.ids[self.calls - 1] if self.calls <= len(self.ids)
                 else f"id{self.calls}")

  def path(self, t):
    return posixpath.normpath(self.ev()(self.u.freeze(t)))

  def dump(self, u, recv, bound, t, ev):
    try:
      self.files[self.path(bound["file_path"])] = (recv, ev)
    except FAILURES:
      self.files[None] = (recv, ev)
    return tm.NONE

  def load(self, u, recv, bound, t, ev):
    try:
      p = self.path(bound["file_path"])
    except FAILURES:
      p = None
    self.loaded.append((p, ev))
    return self.files[p][0] if p in self.files else u.sym(
        f"UDF_AT_{p}", ("inst", UDF))

  def load_dataset(self, u, recv, bound, t, ev):
    try:
      p = self.ev()(u.freeze(bound["location"]))
    except FAILURES:
      return None
    if p not in self.sets:
      self.sets[p] = u.sym(f"DATASET_AT_{p}", ("inst", DATASET))
    return self.sets[p]

  def create(self, u, recv, bound, t, ev):
    self.created.append((bound, ev))
    return u.sym("MV_STORAGE", ("inst", STORAGE))

  def dataset(self, schema, pks, recs, location="/src"):
    u = self.u
    st = self.sym("STORAGE", Obj("storage", location=location,
                                    _location=location),
                  ("inst", STORAGE))
    self.m[st.uid].f.update(logical_schema=schema, primary_keys=pks,
                            record_fields=recs)
    for n, v in (("logical_schema", schema), ("primary_keys", pks),
                 ("record_fields", recs)):
      u.gstore[attr(st, n)] = self.sym(n.upper(), v)
    u.gstore[attr(st, "location")] = const(location)
    ds = u.new(DATASET, st)
    self.sets = {location: ds}
    return ds, st


SCHEMA = Schema([F("id", "int64", 0), F("b", "string", 1), F("s", struct(
    F("x", "int64", 3), F("y", "string", 4)), 2), F("rec", "binary", 5)])
OUT = Schema([F("rec", "binary"), F("n", list_("int64")), F("id", "int64"),
              F("t", "string")])
OUT2 = Schema([F("t2", "string"), F("id", "int64")])


# A step: kind, input fields, and for maps: schema, record fields, batch size.
CHAINS = {
    "a map": [("map", None, OUT, ["rec"], 3)],
    "a map of some fields": [("map", ["rec", "id"], OUT2, None, None)],
    "a filter": [("filter", None)],
    "a filter of some fields": [("filter", ["b", "id"])],
    "a map and a filter": [("map", ["s", "id"], OUT, ["rec"], None),
                           ("filter", ["t", "id", "n"])],
    "filters and maps": [("filter", ["id", "s"]), ("map", ["id", "s"], OUT, [], 7),
                         ("filter", None), ("map", ["id", "n"], OUT2, [], 1)],
    "two filters": [("filter", ["id"]), ("filter", ["id"])],
}


def build(mo, ds, chain):
  """Views of a chain, from the dataset on."""
  u = mo.u
  views, fns = [ds], []
  for i, s in enumerate(chain):
    fn = mo.sym(f"FN{i}", Obj(f"fn{i}"))
    fns.append(fn)
    kw = {}
    if s[1] is not None:
      kw["input_fields"] = mo.sym("FIELDS", list(s[1]))
    if s[0] == "map":
      if s[3] is not None:
        kw["output_record_fields"] = mo.sym("RECS", list(s[3]))
      if s[4] is not None:
        kw["batch_size"] = const(s[4])
      v = u.meth(views[-1], "map_batches", fn=fn, output_schema=mo.sym(
          "OUT", s[2]), **kw)
    else:
      v = u.meth(views[-1], "filter", fn, **kw)
    views.append(v)
  return views, fns


def happened(mo, evs):
  """Errors that are not excluded."""
  return [e for e in mo.u.raised(evs) if not any(
      mo.decide(c) is False for c in e.cond)]


def names(fields):
  return [f.name for f in fields]


def forms(fields):
  return [(f.name, canon(f.type)) for f in fields]


def expected(chain):
  """What each view of the chain is: kind, fields read, schema, record fields."""
  out = [(None, None, forms(SCHEMA), ["rec"])]
  for s in chain:
    _, _, ns, recs = out[-1]
    fields = s[1] if s[1] is not None else [n for n, _ in ns]
    if s[0] == "map":
      out.append(("map", fields, forms(s[2]), s[3] or []))
    else:
      out.append(("filter", fields, ns, recs))
  return out


def value(mo, t):
  try:
    return mo.ev()(mo.u.freeze(t))
  except FAILURES as e:
    return e


def agree(mo, rep, rule, got, want, detail, inst=None, order=True):
  if isinstance(got, Exception):
    rep(False if isinstance(got, (Missing, Mismatch)) and mo.sure() else None,
        rule, None, f"{detail}: {type(got).__name__} {got}", inst=inst)
    return
  if isinstance(got, (list, tuple)):
    got = list(got)
    if not order:
      got, want = sorted(got), sorted(want)
  rep(got == want or (False if mo.sure() else None), rule, None,
      f"{detail} is {got}, expected {want}", inst=inst)


@group("C21")
def views(prog, R):
  """The schema and keys of views."""
  r = R["C21"]
  site = def_site(prog, VIEW + ".map_batches")
  for how, chain in CHAINS.items():
    rep = Once(r, "transforms", site)
    mo = Views(prog)
    u = mo.u
    ds, _ = mo.dataset(SCHEMA, ["id"], ["rec"])
    k = u.mark()
    vs, _ = build(mo, ds, chain)
    bad = happened(mo, u.since(k))
    if bad or not u.state.live:
      rep(False if bad and mo.sure(bad[0]) else None, "view-built",
          bad[0].where if bad else None, f"{how}: fails")
      continue
    for v, (_, _, ns, recs) in zip(vs, expected(chain)):
      sch = value(mo, u.get(v, "schema"))
      agree(mo, rep, "view-schema", sch if isinstance(sch, Exception) else forms(
          sch), ns, f"{how}: the schema")
      agree(mo, rep, "view-keys", value(mo, u.get(v, "primary_keys")), ["id"],
            f"{how}: the primary keys", order=False)
      agree(mo, rep, "view-record-fields", value(mo, u.get(v, "record_fields")),
            recs, f"{how}: the record fields", order=False)
    R.use(("C21",), u, how)


MAP = "space.core.transform.udfs.MapTransform"
FILTER = "space.core.transform.udfs.FilterTransform"


@group("C21")
def plans(prog, R):
  """A loaded materialized view has the transforms it was created with."""
  with substrait(prog):
    site = def_site(prog, VIEW + ".materialize")
    for how, chain in CHAINS.items():
      # The random names of functions may collide.
      for ids in ((), ("a", "a", "a", "b", "a", "c", "b", "d", "d", "e")):
        for moved in (False, True):
          round_trip(prog, R, Once(R["C21"], "materialize", site), how + (
              ", colliding names" if ids else "") + (
                  ", moved" if moved else ""), chain, ids, moved)


def round_trip(prog, R, rep, how, chain, ids, moved):
  mo = Views(prog, ids)
  u = mo.u
  ds, _ = mo.dataset(SCHEMA, ["id"], ["rec"])
  vs, fns = build(mo, ds, chain)
  k = u.mark()
  u.meth(vs[-1], "materialize", const("/mv"))
  evs = u.since(k)
  bad = happened(mo, evs)
  if bad or not u.state.live:
    rep(False if bad and mo.sure(bad[0]) else None, "plan-written",
        bad[0].where if bad else None, f"{how}: fails")
    return
  if len(mo.created) != 1:
    rep(None, "plan-written", None, f"{how}: {len(mo.created)} storages created")
    return
  made, ev = mo.created[0]
  last = expected(chain)[-1]
  agree(mo, rep, "plan-written", value(mo, made["location"]), "/mv",
        f"{how}: the location")
  sch = value(mo, made["schema"])
  agree(mo, rep, "plan-written", sch if isinstance(sch, Exception) else forms(
      sch), last[2], f"{how}: the schema of the storage")
  agree(mo, rep, "plan-written", value(mo, made["primary_keys"]), ["id"],
        f"{how}: the primary keys of the storage", order=False)
  agree(mo, rep, "plan-written", value(mo, made["record_fields"]), last[3],
        f"{how}: the record fields of the storage", order=False)
  plan = made.get("logical_plan", tm.NONE)
  rep(plan is not tm.NONE, "plan-written", ev.where,
      f"{how}: the plan is not persisted")
  if plan is tm.NONE:
    return
  # The functions are persisted before the metadata that names them.
  late = [e for _, e in mo.files.values() if e.i > ev.i]
  rep(not late, "functions-first", late[0].where if late else None,
      f"{how}: a function is written after the metadata that refers to it")

  if moved:
    mo.files = {None if p is None else "/moved" + p: x
                for p, x in mo.files.items()}
  st = u.sym("MV_STORAGE", ("inst", STORAGE))
  meta = u.sym("META", ("proto", "StorageMetadata"))
  u.gstore[attr(st, "location")] = const("/moved/mv" if moved else "/mv")
  u.gstore[attr(st, "metadata")] = meta
  u.gstore[attr(meta, "logical_plan")] = plan
  u.forget()
  k = u.mark()
  mv = u.do("space.core.views.load_materialized_view", st)
  bad = happened(mo, u.since(k))
  if bad or not u.state.live:
    rep(False if bad and mo.sure(bad[0]) else None, "plan-loaded",
        bad[0].where if bad else None, f"{how}: loading fails")
    return
  rep(u.freeze(u.get(mv, "storage")) is st or None, "plan-loaded", None,
      f"{how}: the storage is {short(u.freeze(u.get(mv, 'storage')))}")
  v = u.get(mv, "view")
  for i in range(len(chain), 0, -1):
    kind, fields, _, _ = expected(chain)[i]
    ty = u.typeof(v)
    want = MAP if kind == "map" else FILTER
    if ty is None or ty[0] != "inst":
      rep(None, "plan-loaded", None, f"{how}: view {i} is {short(v)}")
      return
    rep(ty[1] == want or (False if mo.sure() else None), "plan-loaded", None,
        f"{how}: transform {i} is loaded as {ty[1].split('.')[-1]}, "
        f"written as {want.split('.')[-1]}")
    got, want = u.get(v, "udf"), u.get(vs[i], "udf")
    rep(got is want or (False if mo.sure() else None), "plan-loaded", None,
        f"{how}: the function of transform {i} is {short(u.freeze(got))}")
    agree(mo, rep, "plan-loaded", value(mo, u.get(v, "input_fields")), fields,
          f"{how}: the input fields of loaded transform {i}")
    f = u.freeze(u.get(got, "fn")) if got is want else None
    rep(f is fns[i - 1] or None, "plan-loaded", None, f"{how}: function {i}")
    v = u.get(v, "input_")
  rep(v is mo.sets["/src"] or (False if mo.sure() else None), "plan-loaded", None,
      f"{how}: the source is {short(u.freeze(v))}")
  R.use(("C21",), u, how)


def norm(x):
  """Values with their sequences as tuples."""
  if isinstance(x, (list, tuple)):
    return tuple(norm(y) for y in x)
  return x


def is_data(v):
  return isinstance(v, (list, tuple)) and bool(v) and v[0] == "data"


class DataEval(ViewEval):
  """Ray datasets as the operations applied to the source, in order."""

  exc = None

  def ev(self, t):
    if t.op == "exc" and self.exc is not None:
      return self.exc(t.args[0])
    return super().ev(t)

  def isinstance(self, v, cls):
    if is_data(v):
      return str(cls.args[0]).endswith("Dataset")
    return super().isinstance(v, cls)

  def call(self, t):
    f, args, kwargs = t.args
    if f.op == "attr" and f.args[1] in ("select_columns", "map_batches", "filter"):
      r = self(f.args[0])
      if is_data(r):
        r = tuple(r)
        kw = {k: self(v) for k, v in kwargs}
        a = [self(x) for x in args]
        if f.args[1] == "select_columns":
          return r + (("select", list((a + list(kw.values()))[0])),)
        fn = [x for x in a + list(kw.values()) if isinstance(x, Obj)][0]
        if f.args[1] == "filter":
          return r + (("filter", fn.name_),)
        size = kw.get("batch_size", a[1] if len(a) > 1 else "default")
        return r + (("map", fn.name_, size),)
    if tm.call_name(t) == "source_data":
      kw = {k: self(v) for k, v in kwargs}
      self.options.append(kw)
      if kw["fields"] is None:
        return ("data",)
      return ("data", ("select", list(kw["fields"])))
    return super().call(t)


def applied(chain):
  out = ("data",)
  for i, (s, (_, fields, _, _)) in enumerate(zip(chain, expected(chain)[1:])):
    out += (("select", fields),)
    out += (("map", f"fn{i}", "default" if s[4] is None else s[4]),) if s[0] == \
        "map" else (("filter", f"fn{i}"),)
  return out


def simplified(ops, chain):
  """Without the order of columns and selections of all of them."""
  out, width, i = [], [n for n, _ in forms(SCHEMA)], 0
  for x in ops[1:]:
    if x[0] == "select":
      if sorted(x[1]) != sorted(width):
        out.append(("select", sorted(x[1])))
    else:
      i += 1
      out.append(x)
      if i < len(chain) + 1:
        width = [n for n, _ in expected(chain)[i][2]]
  return out


def source_data(u, recv, bound, t, ev):
  o = bound["read_options"]
  return mk_call(mk("ext", "source_data"), (), tuple(
      (n, u.freeze(u.get(o, n))) for n in ("batch_size", "fields", "filter_",
                                           "reference_read", "snapshot_id")))


@group("C21")
def transforms(prog, R):
  """A view applies its transforms, in order, to the fields they name."""
  r = R["C21"]
  options = "space.core.options.ReadOptions"
  for how, chain in CHAINS.items():
    mo = Views(prog, cuts={STORAGE + ".ray_dataset": source_data})
    u = mo.u
    ds, _ = mo.dataset(SCHEMA, ["id"], ["rec"])
    vs, _ = build(mo, ds, chain)
    v = vs[-1]

    def ev():
      e = DataEval(lambda t: mo.m[t.uid], u.loops, {}, u.state.store)
      e.options = []
      return e

    def judge(rule, rep, res, want, evs):
      bad = happened(mo, evs)
      if bad:
        rep(False if mo.sure(bad[0]) else None, rule, bad[0].where,
            f"{how}: fails")
        return
      try:
        e = ev()
        got = e(u.freeze(res))
        got, want = simplified(got, chain), simplified(want, chain)
        rep(got == want or (False if mo.sure() else None), rule, None,
            f"{how}: applies {got}, expected {want}")
        return e
      except FAILURES as x:
        rep(None, rule, None, f"{how}: {type(x).__name__} {x}")

    rep = Once(r, "process_source", def_site(prog, MAP + ".process_source"))
    u.forget()
    k = u.mark()
    res = u.meth(v, "process_source", mo.sym("DATA", ("data",)))
    judge("view-transforms", rep, res, applied(chain), u.since(k))

    rep = Once(r, "ray_dataset", def_site(prog, VIEW + ".ray_dataset"))
    flt, snap, size = (mo.sym(n, Obj(n)) for n in ("FILTER", "SNAP", "SIZE"))
    u.forget()
    k = u.mark()
    opts = u.new(options, filter_=flt, snapshot_id=snap, batch_size=size,
                 reference_read=const(True))
    res = u.meth(v, "ray_dataset", read_options=opts)
    e = judge("view-transforms", rep, res, applied(chain), u.since(k))
    for o in e.options if e else ():
      for n, w in (("filter_", flt), ("snapshot_id", snap), ("batch_size", size)):
        rep(o[n] is mo.m[w.uid] or (False if mo.sure() else None), "view-read", None,
            f"{how}: the source is read with another {n}")
    R.use(("C21",), u, how)


@group("C21")
def view_errors(prog, R):
  """Transforms that could not follow their source are refused."""
  r = R["C21"]
  for how, pks, step, valid in (
      ("input fields without a primary key", ["id"], ("filter", ["b"]), False),
      ("input fields with one of two primary keys", ["id", "b"],
       ("filter", ["id", "rec"]), False),
      ("input fields with both primary keys", ["id", "b"],
       ("filter", ["b", "id"]), True),
      ("an unknown input field", ["id"], ("filter", ["id", "zz"]), False),
      ("a map of an unknown input field", ["id"],
       ("map", ["id", "zz"], OUT, ["rec"], None), False),
      ("a map without a primary key", ["id"],
       ("map", ["rec"], OUT, ["rec"], None), False),
      ("a map that drops the primary key", ["id", "b"],
       ("map", None, OUT, ["rec"], None), False),
      ("a map with a record field that is a primary key", ["id"],
       ("map", None, OUT, ["id"], None), False),
      ("a map with an unknown record field", ["id"],
       ("map", None, OUT, ["b"], None), False),
      ("a map of the primary key", ["id"], ("map", ["id"], OUT2, [], None), True)):
    rep = Once(r, step[0], def_site(prog, VIEW + (
        ".filter" if step[0] == "filter" else ".map_batches")))
    mo = Views(prog)
    u = mo.u
    ds, _ = mo.dataset(SCHEMA, pks, ["rec"])
    k = u.mark()
    build(mo, ds, [step])
    bad = happened(mo, u.since(k))
    if valid:
      rep(not bad or (False if mo.sure(bad[0]) else None), "view-valid",
          bad[0].where if bad else None, f"{how}: refused")
    else:
      rep(True if bad and not u.state.live else (
          False if not bad and u.state.live and mo.sure() else None),
          "view-refused", None, f"{how}: accepted")
    R.use(("C21",), u, how)


RUNNER = "space.ray.runners.RayMaterializedViewRunner"
RAY_APPEND = "space.ray.ops.append.RayAppendOp"
DELETE_OP = "space.core.ops.delete.FileSetDeleteOp"
TXN = "space.core.storage.Transaction"
UTILS = "space.core.ops.utils."
CHANGE = "space.core.ops.change_data."
JOB = "space.core.jobs.JobResult"

# Changes of source snapshots, each (snapshot, kind, datasets), and the commit
# that fails, if any.
HISTORIES = {
    "no change": ([], None),
    "an append": ([(4, "ADD", 2)], None),
    "an upsert": ([(4, "DELETE", 1), (4, "ADD", 1)], None),
    "a deletion": ([(4, "DELETE", 1)], None),
    "several snapshots": ([(4, "ADD", 1), (6, "DELETE", 1), (6, "ADD", 3),
                           (7, "DELETE", 1), (9, "ADD", 2)], None),
    "a failing commit": ([(4, "ADD", 1), (5, "DELETE", 1), (5, "ADD", 1),
                          (6, "ADD", 1), (7, "ADD", 1)], 1),
    "a failing first commit": ([(4, "ADD", 1), (5, "ADD", 1)], 0),
    "a failing last commit": ([(4, "ADD", 1), (5, "ADD", 1)], 1),
}


class Refresh(Views):
  """Refreshing the view of a chain over given changes of its source."""

  def __init__(self, prog, changes, failing, fail_op=None, versions=()):
    self.fail_op, self.excs = fail_op, []
    self.versions = dict(versions)
    self.log = []  # What is done: (what, details), in order.
    self.changes, self.failing = changes, failing
    self.reads, self.deletes, self.appends = [], {}, {}
    self.txns = []
    super().__init__(prog, module="space.ray.runners", cuts={
        STORAGE + ".reload": self.reload, STORAGE + ".commit": None,
        STORAGE + ".version_to_snapshot_id": self.version,
        STORAGE + ".data_files": ext("data_files"),
        CHANGE + "read_change_data": ext("local_changes"),
        "space.ray.ops.change_data.read_change_data": self.read_changes,
        "space.ray.ops.utils.iter_batches": ext("iter_batches"),
        UTILS + "primary_key_filter": ext("pk_filter"),
        UTILS + "merge_patches": ext("merge"),
        DELETE_OP + ".__init__": None, DELETE_OP + ".delete": self.delete,
        RAY_APPEND + ".__init__": None, RAY_APPEND + ".write_from": self.write,
        RAY_APPEND + ".write": self.write, RAY_APPEND + ".finish": self.finish,
        TXN + ".commit": self.commit, TXN + ".result": self.result,
    })
    self.source, self.src_st = self.dataset(SCHEMA, ["id"], ["rec"])
    u = self.u
    vs, _ = build(self, self.source, [("filter", None)])
    self.st = self.sym("VIEW_STORAGE", Obj("view storage"), ("inst", STORAGE))
    for n, v in (("location", "/mv"), ("primary_keys", ["id"]),
                 ("current_branch", "main")):
      u.gstore[attr(self.st, n)] = self.term(v)
    self.meta = {}
    for st, n, cur in ((self.st, "VIEW", 3), (self.src_st, "SOURCE", 9)):
      self.metadata(st, "STALE_" + n, 1)
      self.meta[st.uid] = n, cur
    self.mv = u.new(MV, self.st, vs[-1])
    self.runner = u.new(RUNNER, self.mv, tm.NONE, tm.NONE)

  def metadata(self, st, name, current):
    m = self.sym(name, Obj(name), ("proto", "StorageMetadata"))
    self.u.gstore[attr(st, "metadata")] = m
    self.u.gstore[attr(m, "current_snapshot_id")] = self.sym(
        name + "_CURRENT", current, ("int",))

  def reload(self, u, recv, bound, t, ev):
    if recv.uid in self.meta:
      self.metadata(recv, *self.meta[recv.uid])
    return tm.FALSE

  def version(self, u, recv, bound, t, ev):
    try:
      v = self.ev()(u.freeze(bound["version"]))
    except FAILURES:
      return None
    if v not in self.versions:
      return bound["version"]
    return self.sym("VERSION", self.versions[v], ("int",))

  def read_changes(self, u, recv, bound, t, ev):
    self.reads.append((bound, ev))
    cd = CHANGE + "ChangeData"

    def listed(items):
      return u.new_list(tm.seq(tuple(("i", tm.TRUE, x) for x in items)))

    return listed([u.new(
        cd, const(s), mk("enum", CHANGE + "ChangeType", k), listed(
            [self.sym("DATA", ("data", (s, k, i))) for i in range(n)]))
                   for s, k, n in self.changes])

  def op_args(self, recv, qual):
    return next(d for e, d in ctor(self.u, qual, self.u.events)
                if e.result is recv)

  def delete(self, u, recv, bound, t, ev):
    a = self.op_args(recv, DELETE_OP)
    self.log.append(("delete", a, ev))
    return self.sym("DELETED", ("patch", len(self.log) - 1), ("proto", "Patch"))

  def write(self, u, recv, bound, t, ev):
    x = next(iter(bound.values()))
    out = self.appends.setdefault(recv.uid, [])
    if not ev.name.endswith("write_from"):
      out.append((False, u.freeze(x)))
      return tm.NONE
    try:
      out.extend((False, u.freeze(u.call(f, [], {}, None)))
                 for f in self.members(x))
    except KeyError:
      out.append((True, u.freeze(u.spec("[f() for f in SOURCES]", SOURCES=x))))
    return tm.NONE

  def pick(self, t):
    while t.op == "ite":
      c = self.decide(t.args[0])
      if c is None:
        raise KeyError("condition " + short(t.args[0], 80))
      t = t.args[1] if c else t.args[2]
    return t

  def members(self, x):
    """The items of a list, with their conditions decided."""
    out = []
    for e in self.u.content(self.pick(x)).args[0]:
      c = True if e[0] == "each" else self.decide(e[1])
      if c is None or e[0] == "each":
        raise KeyError("items of a list")
      if c:
        out += [self.pick(e[2])] if e[0] == "i" else self.members(e[2])
    return out

  def finish(self, u, recv, bound, t, ev):
    self.log.append(("append", self.appends.get(recv.uid, []),
                     self.op_args(recv, RAY_APPEND), ev))
    return self.sym("APPENDED", ("patch", len(self.log) - 1), ("proto", "Patch"))

  def commit(self, u, recv, bound, t, ev):
    recv = self.pick(recv)
    self.log.append(("commit", u.freeze(bound["patch"]), recv, ev))
    self.txns.append(recv)
    return tm.NONE

  def state(self, bad):
    return self.u.spec("JobResult.State." + ("FAILED" if bad else "SUCCEEDED"),
                       _module="space.core.jobs")

  def result(self, u, recv, bound, t, ev):
    try:
      recv = self.pick(recv)
    except KeyError:
      return None
    if recv not in self.txns:
      return None
    bad = self.txns.index(recv) == self.failing
    key = ("result", recv.uid)
    if key not in self.terms:
      self.terms[key] = u.new(JOB, self.state(bad))
    return self.terms[key]

  def ev(self):
    def kw(ev, t, n):
      return ev(dict(t.args[2])[n])

    e = DataEval(lambda t: self.m[t.uid], self.u.loops, {
        "iter_batches": lambda ev, t: [kw(ev, t, "ds")],
        "concat_tables": lambda ev, t: ("rows", ev.elems(
            t.args[1][0] if t.args[1] else dict(t.args[2])["tables"])),
        "pk_filter": lambda ev, t: ("keys of", kw(ev, t, "primary_keys"),
                                    kw(ev, t, "data")),
        "data_files": lambda ev, t: ("files", kw(ev, t, "filter_")
                                     if "filter_" in dict(t.args[2]) else None),
        "merge": lambda ev, t: [x[1] for x in ev.elems(
            dict(t.args[2])["patches"]) if x is not None],
    }, self.u.state.store)
    e.options = []
    e.exc = self.exc
    return e

  def exc(self, tid):
    if self.fail_op is None:
      return False
    return self.excs.index(tid) == self.fail_op  # Unknown while it runs.

  def finished(self):
    """After the run: which operation failed, and what was done then."""
    self.excs = sorted({x.args[0] for e in self.u.events for c in e.cond
                        for x in tm.walk(c) if x.op == "exc"})
    self.log = [x if not any(self.decide(c) is False for c in x[-1].cond)
                else ("nothing", x[-1]) for x in self.log]


@group("C21")
def refresh(prog, R):
  """What refreshing commits, for given changes of the source."""
  r = R["C21"]
  site = def_site(prog, RUNNER + ".refresh")
  cases = [(how, c, f, None) for how, (c, f) in HISTORIES.items()]
  several = HISTORIES["several snapshots"][0]
  cases += [(f"operation {i + 1} failing", several, None, i)
            for i in range(len(several))]
  for how, changes, failing, fail_op in cases:
    rep = Once(r, "refresh", site)
    mo = Refresh(prog, changes, failing, fail_op)
    u = mo.u
    k = u.mark()
    res = u.meth(mo.runner, "refresh")
    mo.finished()
    bad = happened(mo, u.since(k))
    if bad:
      rep(False if mo.sure(bad[0]) else None, "refresh-commits", bad[0].where,
          f"{how}: fails")
      continue
    judge_refresh(mo, rep, how, changes, failing, fail_op, res)
    R.use(("C21",), u, how)


@group("C21")
def refresh_range(prog, R):
  """The source snapshots whose changes are applied."""
  r = R["C21"]
  site = def_site(prog, RUNNER + ".refresh")
  for how, target, end in (
      ("the latest version", None, 9), ("a snapshot", 5, 5),
      ("the latest snapshot", 9, 9), ("a tag", "tag", 6),
      ("a snapshot of the future", 10, None), ("a tag of a branch", "late", None)):
    rep = Once(r, "refresh", site)
    mo = Refresh(prog, HISTORIES["an append"][0], None,
                 versions={"tag": 6, "late": 12})
    u = mo.u
    k = u.mark()
    u.meth(mo.runner, "refresh", *([] if target is None else [
        mo.sym("TARGET", target)]))
    bad = happened(mo, u.since(k))
    if end is None:
      rep(True if bad and not u.state.live and not mo.reads else (
          False if not bad and mo.sure() else None), "refresh-target",
          None, f"target {how}: not refused", inst="refused")
      continue
    if bad or len(mo.reads) != 1:
      rep(False if bad and mo.sure(bad[0]) else None, "refresh-range",
          bad[0].where if bad else None, f"target {how}: fails")
      continue
    b, ev = mo.reads[0]
    rep(b["storage"] is mo.src_st or (False if mo.sure() else None),
        "refresh-range", ev.where, f"reads changes of {short(b['storage'])}")
    agree(mo, rep, "refresh-range", value(mo, b["end_snapshot_id"]), end,
          f"target {how}: the last snapshot")
    # The version of the source that the view was refreshed to is not the
    # number of commits of the view: they differ when changes leave no rows, or
    # when the source has branches.
    x = u.freeze(b["start_snapshot_id"])
    n = value(mo, x)
    own = x.op == "sym" and x.args[0].startswith("VIEW_CURRENT")
    rep(False if own or mo.sure() and n in (0, 1, 9, end) else None,
        "refresh-start", ev.where, f"target {how}: starts from {short(x)}",
        inst="snapshot ID of the view" if own else "refresh")
    R.use(("C21",), u, how)


def judge_refresh(mo, rep, how, changes, failing, fail_op, res):
  u, ev = mo.u, mo.ev()
  if any(x is y for i, x in enumerate(mo.txns) for y in mo.txns[:i]):
    rep(False if mo.sure() else None, "refresh-commits", None,
        f"{how}: commits a transaction twice")
  for x in mo.txns:
    st = next((next(iter(e.args + list(e.kwargs.values()))) for e in u.events
               if e.kind == "new" and e.result is x), None)
    rep(True, "refresh-transactions", None, "", inst="transactions started")
    rep(st is mo.st or (False if st is mo.src_st else None), "refresh-target",
        None, f"{how}: commits to {short(st)}", inst="storage written")
  want, snaps, done = [], [], False
  for i, (s, kind, n) in enumerate(changes):
    if i == fail_op:
      done = True
      # The pending changes of the failing snapshot are not committed.
      if snaps and snaps[-1] == s:
        want.pop()
      break
    if not snaps or snaps[-1] != s:
      if failing is not None and len(snaps) == failing + 1:
        break
      snaps.append(s)
      want.append([])
    want[-1].append((kind, (s, kind, n)))
  got, used = [], set()
  try:
    for x in mo.log:
      if x[0] != "commit":
        continue
      got.append([])
      new = next((e.i for e in u.events
                  if e.kind == "new" and e.result is x[2]), None)
      for i in ev(x[1]) if x[1] is not tm.NONE else ():
        used.add(i)
        y = mo.log[i]
        if y[0] == "nothing":
          raise KeyError("patch")
        if new is not None and y[-1].i < new:
          rep(False if mo.sure() else None, "refresh-transactions", None,
              f"{how}: the changes of a snapshot are made before the "
              "transaction which commits them starts",
              inst="transactions started")
        if y[0] == "delete":
          f = ev(u.freeze(y[1]["filter_"]))
          got[-1].append(("DELETE", f, ev(u.freeze(y[1]["file_set"]))))
        else:
          got[-1].append(("ADD", [b for many, s in y[1] for c in (
              ev.elems(s) if many else [ev(s)]) for b in c]))
  except FAILURES as e:
    rep(fails(e), "refresh-commits", None, f"{how}: {type(e).__name__} {e}")
    return
  full = []
  for c in want:
    full.append([])
    for kind, (s, _, n) in c:
      src = [("data", (s, kind, i)) for i in range(n)]
      if kind == "DELETE":
        full[-1].append(("DELETE", ("keys of", ["id"], ("rows", src))))
      else:
        full[-1].append(("ADD", [d + (("filter", "fn0"),) for d in src]))
  shown = [[(x[0], x[1]) if x[0] == "DELETE" else (
      "ADD", [("data", d[1]) + tuple(tuple(o) for o in d[2:] if o[0] != "select")
              for d in x[1]]) for x in c] for c in got]
  rep(norm(shown) == norm(full) or (False if mo.sure() else None), "refresh-commits", None,
      f"{how}: commits {shown}, expected {full}")
  for c in got:
    for x in c:
      if x[0] == "DELETE":
        rep(norm(x[2][1]) in (None, norm(x[1])) or (False if mo.sure() else None),
            "refresh-deletes", None, f"{how}: deletes from files of {x[2][1]}")
  for x in mo.log:
    if x[0] in ("commit", "nothing"):
      continue
    a = x[1] if x[0] == "delete" else x[2]
    loc = value(mo, a["location"])
    agree(mo, rep, "refresh-target", loc, "/mv", f"{how}: the location written",
          inst="storage written")
    m = value(mo, a["metadata"])
    agree(mo, rep, "refresh-target", getattr(m, "name_", m), "VIEW",
          f"{how}: the metadata written with", inst="storage written")
  unused = [x for i, x in enumerate(mo.log) if x[0] not in (
      "commit", "nothing") and i not in used]
  if fail_op is None:
    rep(not unused or (False if mo.sure() else None), "refresh-commits", None,
        f"{how}: {len(unused)} patches are not committed")
  try:
    items = mo.members(res)
    states = [mo.pick(u.freeze(u.get(x, "state"))) for x in items]
  except FAILURES as e:
    rep(fails(e), "refresh-results", None, f"{how}: {type(e).__name__} {e}")
    return
  wanted = [mo.state(i == failing) for i in range(len(want))]
  if done:
    wanted.append(mo.state(True))
  rep(states == wanted or (False if mo.sure() else None), "refresh-results", None,
      f"{how}: gives {[short(x) for x in states]}, expected "
      f"{[short(x) for x in wanted]}")


@group("C21")
def view_fields(prog, R):
  """A view returns the fields asked for, or refuses to select fields."""
  r = R["C21"]
  for how in ("a map", "a filter"):
    rep = Once(r, "fields", def_site(prog, VIEW + ".ray_dataset"))
    mo = Views(prog, cuts={STORAGE + ".ray_dataset": source_data})
    u = mo.u
    ds, _ = mo.dataset(SCHEMA, ["id"], ["rec"])
    v = build(mo, ds, CHAINS[how])[0][-1]
    k = u.mark()
    opts = u.new("space.core.options.ReadOptions", fields=mo.sym(
        "READ_FIELDS", ["id"]))
    res = u.meth(v, "ray_dataset", read_options=opts)
    bad = happened(mo, u.since(k))
    R.use(("C21",), u, how)
    if bad:
      rep(True if not u.state.live else None, "view-fields", None,
          f"{how}: reading fields may fail")
      continue
    e = DataEval(lambda t: mo.m[t.uid], u.loops, {}, u.state.store)
    e.options = []
    try:
      got = e(u.freeze(res))
      rep(got[-1] == ("select", ["id"]) or (False if mo.sure() else None),
          "view-fields", None, f"{how}: fields are accepted and not selected")
    except FAILURES as x:
      rep(None, "view-fields", None, f"{how}: {type(x).__name__} {x}")
