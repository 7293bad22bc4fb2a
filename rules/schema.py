"""Schemas: persistence, physical form, field IDs and validation (C17)."""

import contextlib
import itertools

from pyflow import terms as tm
from pyflow.loader import AnchorMissing
from pyflow.terms import const, mk
from rules.append import Once
from rules.base import Msg, Unit, def_site, same, short, streams
from rules.model import Field, Mismatch, Missing, ModelEval, Obj, fails
from rules.read import FAILURES, Wrong, ext
from rules.registry import group
from rules.units import SCHEMA_CUTS, STORAGE, STR, load_storage, storage_unit

ARROW = "space.core.schema.arrow."
SUBSTRAIT = "space.core.schema.substrait."
TF = "space.core.schema.types.tf_features.TfFeatures"
FILE = "space.core.schema.types.files.File"
ID_KEY = b"PARQUET:field_id"

# The part of Substrait's (vendored) message definitions that schemas use.
PROTOS = """
message Type {
  message Boolean { uint32 type_variation_reference = 1; }
  message Struct { repeated Type types = 1; uint32 type_variation_reference = 2; }
  message List { Type type = 1; uint32 type_variation_reference = 2; }
  message Map { Type key = 1; Type value = 2; uint32 type_variation_reference = 3; }
  message UserDefined { uint32 type_reference = 1;
    uint32 type_variation_reference = 2; repeated Parameter type_parameters = 4; }
  message Parameter { oneof parameter { Type data_type = 2; bool boolean = 3;
    int64 integer = 4; string enum = 5; string string = 6; } }
  oneof kind {
    Boolean bool = 1; Boolean i8 = 2; Boolean i16 = 3; Boolean i32 = 5;
    Boolean i64 = 7; Boolean fp32 = 10; Boolean fp64 = 11; Boolean string = 12;
    Boolean binary = 13; Boolean timestamp = 14; Boolean date = 16;
    Boolean time = 17; Boolean uuid = 32; Boolean fixed_binary = 23;
    Boolean decimal = 24; Struct struct = 25; List list = 27; Map map = 28;
    UserDefined user_defined = 30;
  }
}
message NamedStruct { repeated string names = 1; Type.Struct struct = 2; }
"""


@contextlib.contextmanager
def substrait(prog):
  old = dict(prog.protos), {k: dict(v) for k, v in prog.oneofs.items()}
  prog._load_proto(PROTOS)
  try:
    yield
  finally:
    prog.protos, prog.oneofs = old


# Model types: names of primitives; Obj for the others.
PREDICATES = {
    "is_int8": {"int8"}, "is_int16": {"int16"}, "is_int32": {"int32"},
    "is_int64": {"int64"}, "is_uint8": {"uint8"}, "is_uint32": {"uint32"},
    "is_uint64": {"uint64"}, "is_string": {"string"}, "is_unicode": {"string"},
    "is_large_string": {"large_string"}, "is_binary": {"binary"},
    "is_large_binary": {"large_binary"}, "is_boolean": {"bool"},
    "is_float16": {"halffloat"}, "is_float32": {"float"},
    "is_float64": {"double"}, "is_date32": {"date32"}, "is_date": {"date32"},
    "is_timestamp": {"timestamp"}, "is_temporal": {"timestamp", "date32"},
    "is_signed_integer": {"int8", "int16", "int32", "int64"},
    "is_unsigned_integer": {"uint8", "uint32", "uint64"},
    "is_integer": {"int8", "int16", "int32", "int64", "uint8", "uint32", "uint64"},
    "is_floating": {"halffloat", "float", "double"},
    "is_list": {"list"}, "is_large_list": {"large_list"},
    "is_fixed_size_list": {"fixed_size_list"}, "is_struct": {"struct"},
    "is_map": {"map"}, "is_null": {"null"}, "is_decimal": {"decimal128"},
    "is_fixed_size_binary": {"fixed_size_binary"},
    "is_dictionary": {"dictionary"},
    "is_nested": {"list", "large_list", "fixed_size_list", "struct", "map"},
    "is_primitive": {"int8", "int16", "int32", "int64", "uint8", "uint32",
                     "uint64", "bool", "halffloat", "float", "double", "date32",
                     "timestamp"},
}
NAMES = {"bool_": "bool", "float32": "float", "float64": "double",
         "float16": "halffloat", "utf8": "string"}
UNSUPPORTED = ("uint8", "uint32", "uint64", "int8", "int16", "large_string",
               "large_binary", "halffloat", "date32", "timestamp", "null",
               "decimal128", "fixed_size_binary", "dictionary", "large_list",
               "fixed_size_list", "map")


def F(name, t, fid=None):
  return Field(name, t, None if fid is None else {ID_KEY: str(fid).encode()})


def struct(*fields):
  o = Obj("struct", fields=list(fields), num_fields=len(fields))
  by = {f.name: f for f in fields}
  o.f["field"] = o.f["__getitem__"] = lambda i: fields[i] if isinstance(
      i, int) else by[i]
  o.f["names"] = list(by)
  return o


def list_(t):
  f = t if isinstance(t, Field) else Field("item", t)
  return Obj("list", value_field=f, value_type=f.type)


def nested(kind, t="string"):
  """A type that is not supported, though it has parts."""
  f = Field("item", t)
  return Obj(kind, value_field=f, value_type=t, fields=[f], num_fields=1,
             key_field=Field("key", "string"), key_type="string",
             item_type=t, item_field=f, list_size=2, field=lambda i: f)


def ext_type(cls, name, storage):
  o = Obj(cls, serial=f"<{name}>", storage_type=storage,
          extension_name="space." + name)
  o.f["__arrow_ext_serialize__"] = lambda: o.f["serial"].encode()
  return o


class Schema(list):
  """A model schema: a list of fields."""


def canon(t):
  if isinstance(t, str):
    return NAMES.get(t, t)
  if isinstance(t, Obj):
    if t.name_ == "struct":
      return ("struct",) + tuple((f.name, canon(f.type)) for f in t.f["fields"])
    if t.name_ == "list":
      return ("list", canon(t.f["value_field"].type))
    if "serial" in t.f:
      return ("ext", t.name_, t.f["serial"])
    return (t.name_,)
  raise Wrong(f"not a type: {t!r}")


def kind(t):
  return NAMES.get(t, t) if isinstance(t, str) else t.name_


def fid(f):
  m = f.metadata
  if not isinstance(m, dict) or ID_KEY not in m:
    return -1
  v = m[ID_KEY]
  return int(v)


class SchemaEval(ModelEval):
  """Evaluates over model schemas."""

  def getattr(self, v, name):
    if isinstance(v, list) and v and all(isinstance(x, Field) for x in v) or \
        isinstance(v, Schema):
      if name == "names":
        return [f.name for f in v]
      if name == "types":
        return [f.type for f in v]
    if isinstance(v, Field) and name in ("nullable", "flatten"):
      return True
    return super().getattr(v, name)

  def elems(self, t):
    if t.op not in ("seq", "listv", "setv", "uniq", "rev", "enum_", "zip_"):
      try:
        v = self(t)
      except Exception:  # pylint: disable=broad-except
        return super().elems(t)
      if isinstance(v, Obj) and "fields" in v.f:
        return list(v.f["fields"])
    return super().elems(t)

  def isinstance(self, v, cls):
    if cls.op == "cls":
      return isinstance(v, Obj) and v.name_ == cls.args[0]
    if cls.op == "ext" and cls.args[0].startswith("pyarrow."):
      n = cls.args[0].split(".")[-1]
      if n in ("ExtensionType", "BaseExtensionType"):
        return isinstance(v, Obj) and "serial" in v.f
      if n in ("ListType", "StructType"):
        return kind(v) == n[:-4].lower()
      if n == "Schema":
        return isinstance(v, Schema)
      if n == "Field":
        return isinstance(v, Field)
    return super().isinstance(v, cls)

  def call(self, t):
    f, args, kwargs = t.args
    name = tm.call_name(t)
    last = name.split(".")[-1]
    if f.op == "ext" and name.startswith("pyarrow.types.") and last in PREDICATES:
      return kind(self(args[0] if args else kwargs[0][1])) in PREDICATES[last]
    if name == "len" and len(args) == 1 and f.op == "ext":
      v = self(args[0])
      if isinstance(v, Obj) and "num_fields" in v.f:
        return v.f["num_fields"]
    if name in (TF + ".back", FILE + ".back"):
      v = self(args[0] if args else kwargs[0][1])
      v = v.decode() if isinstance(v, bytes) else v
      return Obj(name[:-5], serial=v)
    if f.op == "attr":
      m = f.args[1]
      if m in ("field", "with_metadata", "get_field_index", "field_by_name",
               "with_type", "with_name", "equals"):
        r = self(f.args[0])
        xs = [self(x) for x in args] + [self(v) for _, v in kwargs]
        if isinstance(r, Field):
          if m == "with_metadata":
            return Field(r.name, r.type, xs[0])
          if m == "with_type":
            return Field(r.name, xs[0], r.metadata)
          if m == "with_name":
            return Field(xs[0], r.type, r.metadata)
        if isinstance(r, list):
          if m == "get_field_index":
            ns = [x.name for x in r]
            return ns.index(xs[0]) if ns.count(xs[0]) == 1 else -1
          if m in ("field", "field_by_name"):
            return r[xs[0]] if isinstance(xs[0], int) else {
                x.name: x for x in r}[xs[0]]
      elif m == "index" and not kwargs and len(args) == 1:
        r = self(f.args[0])
        if isinstance(r, list):
          return r.index(self(args[0]))
    if name == "next" and len(args) == 1:
      v = self.elems(args[0])
      return v[0]
    if name == "getattr" and len(args) == 2:
      return self.getattr(self(args[0]), self(args[1]))
    return super().call(t)

  def arrow(self, t, last):
    if last in ("list_", "struct", "schema"):
      v = self.opt(t, 0, "value_type", "fields")
      if last == "list_":
        return list_(v)
      if isinstance(v, dict):
        v = [list(x) for x in v.items()]
      if isinstance(v, Obj):
        v = v.f["fields"]
      fs = [x if isinstance(x, Field) else Field(x[0], x[1]) for x in v]
      return Schema(fs) if last == "schema" else struct(*fs)
    if last == "field":
      m = dict(t.args[2]).get("metadata")
      f = super().arrow(t, last)
      if m is None and len(t.args[1]) > 3:
        m = t.args[1][3]
      f.metadata = None if m is None else self(m)
      return f
    return super().arrow(t, last)


class Model:
  """A unit working on model values: every loop over them is unrolled, every
  condition on them decided."""

  def __init__(self, prog, module, cuts=()):
    c = {TF + ".__arrow_ext_deserialize__": back(TF),
         FILE + ".__arrow_ext_deserialize__": back(FILE)}
    c.update(cuts or {})
    self.u = u = Unit(prog, c, module=module)
    u.max_recursion = 8
    self.m, self.terms = {}, {}
    self.count = itertools.count()
    u.oracle = self.decide
    u.iter_hook = self.items
    u.value_hook = self.value

  def ev(self):
    return SchemaEval(lambda t: self.m[t.uid], self.u.loops,
                      {}, self.u.state.store)

  def sym(self, name, v, ty=None):
    t = self.u.sym(f"{name}_{next(self.count)}", ty)
    self.m[t.uid] = v
    return t

  def term(self, v):
    if v is None or isinstance(v, (str, int, bytes, bool)):
      return const(v)
    if isinstance(v, (Field, Obj)):
      if id(v) not in self.terms:
        self.terms[id(v)] = (self.sym("T", v), v)
      return self.terms[id(v)][0]
    if isinstance(v, (list, tuple)):
      return tm.seq(tuple(("i", tm.TRUE, self.term(x)) for x in v))
    raise KeyError(v)

  def items(self, it):
    try:
      return [self.term(x) for x in self.ev().elems(it)]
    except Exception:  # pylint: disable=broad-except
      return None

  def value(self, t):
    try:
      return self.term(self.ev()(t))
    except Exception:  # pylint: disable=broad-except
      return None

  def sure(self, e=None):
    """Whether everything was followed, up to an event that happens."""
    return not self.u.unknowns and (e is None or decided(self, e))

  def decide(self, c):
    try:
      return bool(self.ev()(c))
    except Exception:  # pylint: disable=broad-except
      return None


def back(cls):
  def h(u, recv, bound, t, ev):
    x = u.freeze(bound["serialized"])
    return tm.mk_call(mk("ext", cls + ".back"), (x,), ())
  return h


TFT, FILET = ext_type(TF, "tf_features", "binary"), ext_type(FILE, "file", "string")
ADDRESS = ("struct", ("_FILE", "string"), ("_ROW_ID", "int32"))


def schemas():
  prim = ["int32", "int64", "bool", "float", "double", "string", "binary"]
  yield "primitive fields", Schema(
      [F(f"f{i}", t, 20 - i) for i, t in enumerate(prim)]), ["f6"]
  yield "custom types", Schema([
      F("rec", TFT, 4), F("id", "int64", 0), F("file", FILET, 9),
      F("tf", TFT, 2), F("s", "string", 7)]), ["rec"]
  yield "a nested schema", Schema([
      F("id", "int64", 3),
      F("st", struct(F("rec", "binary", 31), F("l", list_(struct(
          F("a", "int32", 33), F("file", FILET, 34), F("id", "bool", 35))), 32),
          F("t", "string", 36)), 30),
      F("ll", list_(list_("string")), 40),
      F("rec", "binary", 50),
      F("lf", list_(FILET), 60),
      F("ls", list_(struct(F("x", struct(F("y", "double"), F("z", "float"))),
                           F("w", list_("binary")))), 70),
      F("last", "double", 1)]), ["rec"]
  yield "fields without IDs", Schema([F("a", "int64"), F("b", struct(
      F("c", "string"))), F("d", "binary")]), ["d"]
  yield "only record fields after the keys", Schema([
      F("k", "string", 0), F("r1", "binary", 1), F("r2", TFT, 2)]), ["r1", "r2"]
  yield "no record field", Schema([F("k", "string", 5)]), []


def wanted(t, physical):
  c = canon(t)

  def go(c):
    if isinstance(c, str):
      return c
    if c[0] == "struct":
      return ("struct",) + tuple((n, go(x)) for n, x in c[1:])
    if c[0] == "list":
      return ("list", go(c[1]))
    if c[0] == "ext" and c[1] == FILE and physical:
      return "string"
    return c

  return go(c)


def listed(fields):
  return [(f.name, canon(f.type), fid(f)) for f in fields]


def compare(rep, rule, how, mo, term, want):
  try:
    v = mo.ev()(term)
    got = listed(v)
  except Missing as e:
    rep(False, rule, None, f"{how}: fails: {e}")
    return
  except FAILURES as e:
    rep(fails(e), rule, None, f"{how}: not evaluated: {type(e).__name__} {e}")
    return
  except (TypeError, ValueError, AttributeError) as e:
    rep(None, rule, None, f"{how}: not a schema: {type(e).__name__} {e}")
    return
  if got != want and not mo.sure():
    rep(None, rule, None, f"{how}: {mo.u.unknowns[0]}")
  elif got != want:
    diff = [(a, b) for a, b in itertools.zip_longest(got, want) if a != b]
    rep(False, rule, None, f"{how}: gives {diff[0][0]}, expected {diff[0][1]}")
  else:
    rep(True, rule, None, how)


@group("C17")
def round_trip(prog, R):
  """A schema written in Substrait's form is read back as it was."""
  r = R["C17"]
  site = def_site(prog, SUBSTRAIT + "substrait_fields")
  site2 = def_site(prog, ARROW + "arrow_schema")
  with substrait(prog):
    for how, fields, recs in schemas():
      rep, rep2 = Once(r, "substrait_fields", site), Once(r, "arrow_schema", site2)
      mo = Model(prog, "space.core.schema.substrait")
      u = mo.u
      s = mo.sym("SCHEMA", fields)
      k = u.mark()
      ns = u.call(u.fn_term(u.fn(SUBSTRAIT + "substrait_fields")), [s], {}, None)
      raised = u.raised(u.since(k))
      if raised or not u.state.live:
        e = raised[0] if raised else None
        rep(False if raised and mo.sure(raised[0]) else None, "schema-written", e and e.where,
            f"{how}: fails")
        continue
      for physical in (False, True):
        u.forget()
        rf = mo.sym("RECORD_FIELDS", list(recs))
        k = u.mark()
        a = u.freeze(u.call(u.fn_term(u.fn(ARROW + "arrow_schema")),
                            [ns, rf, const(physical)], {}, None))
        raised = [e for e in u.raised(u.since(k))]
        what = f"{how}, {'physical' if physical else 'logical'} form"
        if raised or not u.state.live:
          rep2(False if raised and mo.sure(raised[0]) else None,
               "schema-read", raised[0].where if raised else None, f"{what}: fails")
          u = None
          break
        want = [(f.name, ADDRESS if physical and f.name in recs else wanted(
            f.type, physical), fid(f)) for f in fields]
        compare(rep2, "schema-round-trip", what, mo, a, want)
      if u is not None:
        R.use(("C17",), u, "schema round trip of " + how)

    rep = Once(r, "substrait_fields", site)
    for t in UNSUPPORTED:
      mo = Model(prog, "space.core.schema.substrait")
      ty = nested(t) if t in ("large_list", "fixed_size_list", "map") else t
      s = mo.sym("SCHEMA", Schema([F("id", "int64", 0), F("x", ty, 1)]))
      k = mo.u.mark()
      mo.u.call(mo.u.fn_term(mo.u.fn(SUBSTRAIT + "substrait_fields")), [s], {},
                None)
      raised = mo.u.raised(mo.u.since(k))
      ok = True if raised and not mo.u.state.live else (
          False if not raised and not mo.u.unknowns else None)
      rep(ok, "unsupported-type", None,
          f"a field of type {t} is written as another type", inst=t)
      R.use(("C17",), mo.u, "unsupported type " + t)


def decided(mo, e):
  """Whether the event happens, or deciding whether it does fails."""
  for c in e.cond:
    try:
      if not mo.ev()(c):
        return False
    except (Missing, Mismatch):
      return True
    except Exception:  # pylint: disable=broad-except
      return False
  return True


def physical_types(prog):
  """Whether logical_to_physical_schema turns custom types into their storage
  types."""
  mo = Model(prog, "space.core.schema.arrow")
  s = mo.sym("SCHEMA", Schema([F("id", "int64", 0), F("file", FILET, 1)]))
  try:
    t = mo.u.freeze(mo.u.call(mo.u.fn_term(mo.u.fn(
        ARROW + "logical_to_physical_schema")), [s, mo.sym("RECORD_FIELDS", [])],
        {}, None))
    return listed(mo.ev()(t))[1][1] == "string"
  except (*FAILURES, TypeError, ValueError, AttributeError, IndexError,
          AnchorMissing):
    return False


@group("C17")
def physical(prog, R):
  """logical_to_physical_schema and the look-ups of fields."""
  r = R["C17"]
  for how, fields, recs in schemas():
    mo = Model(prog, "space.core.schema.arrow")
    u = mo.u

    def run(name, *args, u=u):
      u.forget()
      return u.freeze(u.call(u.fn_term(u.fn(ARROW + name)), list(args), {}, None))

    s, rf = mo.sym("SCHEMA", fields), mo.sym("RECORD_FIELDS", list(recs))
    rep = Once(r, "logical_to_physical_schema", def_site(
        prog, ARROW + "logical_to_physical_schema"))
    converts = physical_types(prog)
    compare(rep, "physical-schema", how, mo, run("logical_to_physical_schema", s, rf),
            [(f.name, ADDRESS if f.name in recs else wanted(f.type, converts), fid(f))
             for f in fields])
    for name, want in (
        ("field_name_to_id_dict", {f.name: fid(f) for f in fields}),
        ("field_id_to_name_dict", {fid(f): f.name for f in fields}),
        ("field_id_to_column_id_dict", {fid(f): i for i, f in enumerate(fields)})):
      rep = Once(r, name, def_site(prog, ARROW + name))
      if fid(fields[0]) == -1 and name != "field_name_to_id_dict":
        continue
      try:
        got = mo.ev()(run(name, s))
        rep(got == want, "field-lookup", None, f"{how}: {got}, expected {want}")
      except FAILURES as e:
        rep(fails(e), "field-lookup", None, f"{how}: not evaluated: {e}")
    rep = Once(r, "classify_fields", def_site(prog, ARROW + "classify_fields"))
    names = [f.name for f in fields]
    for sel in (None, names, names[::2], names[-1:], []):
      x = tm.NONE if sel is None else mo.sym("SELECTED", list(sel))
      res = run("classify_fields", s, rf, x)
      want = [[(f.name, fid(f)) for f in fields if (f.name in recs) == z and (
          sel is None or f.name in sel)] for z in (False, True)]
      try:
        ev = mo.ev()
        got = [pairs(ev, u, z) for z in (tm.item(res, const(0)), tm.item(
            res, const(1)))] if res.op != "seq" else [
                pairs(ev, u, z) for z in tm.seq_items(res)]
        rep(got == want, "field-classes", None,
            f"{how}, selected {sel}: {got}, expected {want}")
      except FAILURES as e:
        rep(fails(e), "field-classes", None, f"{how}: not evaluated: {e}")
    R.use(("C17",), u, "field look-ups of " + how)


def pairs(ev, u, t):
  return [(x.f["name"], x.f["field_id"]) if not x.term else (
      ev(u.get(x.term, "name")), ev(u.get(x.term, "field_id")))
          for x in ev.elems(t)]


@group("C17")
def field_ids(prog, R):
  """Every field, at any depth, gets an ID of its own."""
  cls = "space.core.schema.field_ids.FieldIdManager"
  site = def_site(prog, cls + ".assign_field_ids")
  r = R["C17"]
  for how, fields, _ in schemas():
    for start in (None, 0, 17):
      mo = Model(prog, "space.core.schema.field_ids")
      u = mo.u
      rep = Once(r, "assign_field_ids", site)
      mgr = u.new(cls, const(start)) if start is not None else u.new(cls)
      u.forget()
      what = f"{how}, starting from {start}"
      try:
        a = u.freeze(u.meth(mgr, "assign_field_ids", mo.sym("SCHEMA", fields)))
        got = mo.ev()(a)
        same = [(f.name, canon(f.type)) for f in got] == [
            (f.name, canon(f.type)) for f in fields]
        rep(same, "field-ids-only", None, f"{what}: changes "
            f"{[(f.name, canon(f.type)) for f in got]}")
        ids = list(walk_ids(got))
        rep(ids == list(range(start or 0, (start or 0) + len(ids))), "field-ids",
            None, f"{what}: the fields get IDs {ids} in order of depth")
        # A second schema continues.
        b = u.freeze(u.meth(mgr, "assign_field_ids", mo.sym("SCHEMA", fields)))
        ids2 = list(walk_ids(mo.ev()(b)))
        rep(not set(ids) & set(ids2), "field-ids", None,
            f"{what}: a second schema gets IDs {ids2}")
      except FAILURES as e:
        rep(fails(e), "field-ids", None, f"{what}: not evaluated: {e}")
      except (TypeError, ValueError, AttributeError) as e:
        rep(None, "field-ids", None, f"{what}: {type(e).__name__} {e}")
      R.use(("C17",), u, "field IDs of " + how)


def walk_ids(fields):
  for f in fields:
    yield fid(f)
    t = f.type
    if isinstance(t, Obj) and t.name_ == "list":
      yield from walk_ids([t.f["value_field"]])
    elif isinstance(t, Obj) and t.name_ == "struct":
      yield from walk_ids(t.f["fields"])


@group("C17")
def validation(prog, R):
  r = R["C17"]
  fn = "space.core.schema.utils.validate_logical_schema"
  site = def_site(prog, fn)
  fields = Schema([
      F("a", "int64"), F("b", "string"), F("l", list_("int64")),
      F("s", struct(F("x", "int64"))), F("tf", TFT), F("bin", "binary"),
      F("file", FILET), F("d", "double"), F("bin2", "binary")])
  good_pk = {"a", "b", "bin", "bin2", "file", "d"}
  good_rec = {"bin", "bin2", "tf"}
  names = [f.name for f in fields]
  cases = [([], []), ([], ["bin"]), (["a", "zz"], []), (["a"], ["zz"]),
           (["a"], ["bin", "bin"]), (["a"], ["bin", "tf", "bin2"]),
           (["a", "bin"], ["tf", "bin"]), (["bin2", "a"], ["bin", "bin2"]),
           (["x"], []), (["a"], ["x"])]
  cases += [([n], []) for n in names] + [(["a", n], []) for n in names]
  cases += [(["a"], [n]) for n in names] + [(["b"], ["bin", n]) for n in names]
  few = Schema([F("a", "int64"), F("bin", "binary")])
  cases = [(fields, *c) for c in cases] + [
      (few, *c) for c in ((["a", "bin"], []), (["a", "bin"], ["bin"]),
                          (["bin", "a"], ["zz"]), (["a"], ["bin"]))]
  for fields, pks, recs in cases:
    rep = Once(r, "validate_logical_schema", site)
    mo = Model(prog, "space.core.schema.utils")
    u = mo.u
    k = u.mark()
    u.call(u.fn_term(u.fn(fn)), [mo.sym("SCHEMA", fields), mo.sym("PKS", pks),
                                 mo.sym("RECS", recs)], {}, None)
    raised = [e for e in u.raised(u.since(k)) if not all(
        mo.decide(c) is False for c in e.cond)]
    valid = bool(pks) and set(pks) <= good_pk and set(recs) <= good_rec and not (
        set(pks) & set(recs))
    what = f"primary keys {pks}, record fields {recs}"
    if valid:
      ok = True if not raised else (
          False if any(mo.sure(e) for e in raised) else None)
      rep(ok, "valid-schema", raised[0].where if raised else None,
          f"{what}: rejected")
    else:
      # A failing look-up of the model is an error as well.
      ok = True if not u.state.live and raised else (
          False if not raised and u.state.live and mo.sure() else None)
      rep(ok, "invalid-schema", None, f"{what}: accepted")
      for e in raised[:1]:
        rep("UserInputError" in str(e.name) or None, "invalid-schema", e.where,
            f"{what}: raises {e.name}")
    R.use(("C17",), u, "validation")


@group("C17")
def create(prog, R):
  """A new storage persists its schema, validated and with IDs."""
  r = R["C17"]
  site = def_site(prog, STORAGE + ".create")
  rep = Once(r, "Storage.create", site)
  valid = "space.core.schema.utils.validate_logical_schema"
  assign = "space.core.schema.field_ids.FieldIdManager.assign_field_ids"
  write = SUBSTRAIT + "substrait_fields"
  for view in (False, True):
    create_one(prog, R, rep, site, valid, assign, write, view)

  # The schemas of a loaded storage are those of its metadata.
  u = storage_unit(prog, {q: ext(q.split(".")[-1]) for q in SCHEMA_CUTS},
                   module="space.core.storage")
  st, meta, _ = load_storage(u)
  rep = Once(r, "Storage", def_site(prog, STORAGE + ".__init__"))
  for name in ("logical_schema", "physical_schema"):
    x = u.freeze(u.get(st, name))
    fields = tm.attr(tm.attr(meta, "schema"), "fields")
    recs = tm.attr(tm.attr(meta, "schema"), "record_fields")
    ok = form_of(x, name == "physical_schema", fields, recs)
    if ok and name == "physical_schema" and tm.call_name(x).endswith(
        "logical_to_physical_schema") and not physical_types(prog):
      ok = False
    rep(ok, "schema-of-storage", None, f"{name} is {short(x)}", inst=name)
  for name in ("primary_keys", "record_fields"):
    x = unwrap(u.freeze(u.get(st, name)))
    rep(verdict(x, tm.attr(tm.attr(meta, "schema"), name)), "schema-of-storage",
        None, f"{name} are {short(x)}", inst=name)
  R.use(("C17",), u, "Storage schemas")


def form_of(x, physical, fields, recs):
  """Whether x is a form of the schema that metadata holds."""
  if x.op != "call":
    return None
  n, kw = tm.call_name(x), dict(x.args[2])
  if n == "arrow_schema":
    ph = kw["physical"]
    r = verdict(kw["fields"], fields), verdict(kw["record_fields"], recs), (
        ph.args[0] is physical if ph.op == "const" else None)
    if not physical:  # Only the physical form depends on the record fields.
      r = r[0], r[2]
  elif n == "logical_to_physical_schema":
    if not physical:
      return False
    r = form_of(kw["logical_schema"], False, fields, recs), verdict(
        kw["record_fields"], recs)
  else:
    return None
  return False if False in r else None if None in r else True


def unwrap(x):
  while True:
    if x.op in ("listv", "setv"):
      x = x.args[0]
    elif x.op == "seq" and len(x.args[0]) == 1 and x.args[0][0][0] == "splice" \
        and x.args[0][0][1] is tm.TRUE:
      x = x.args[0][0][2]
    elif x.op == "call" and tm.call_name(x) in ("list", "set", "tuple") and len(
        x.args[1]) == 1:
      x = x.args[1][0]
    else:
      return x


def verdict(got, want):
  got = unwrap(got)
  if got is want or same(got, want):
    return True
  base = want
  while base.op == "attr":
    base = base.args[0]
  if got.op in ("const", "sym") or (got.op == "seq" and not got.args[0]):
    return False
  if got.op == "attr" and want.op == "attr":
    return False
  if got.op == "item" and got.args[1].op == "slice" and got.args[0] is want:
    return False
  return None


def create_one(prog, R, rep, site, valid, assign, write, view):
  u = Unit(prog, {**SCHEMA_CUTS, valid: ext("valid"), assign: ext("assigned"),
                  write: ext("substrait")}, module="space.core.storage")
  loc = u.sym("LOC", STR)
  schema, pks, recs = u.sym("SCHEMA"), u.sym("PKS"), u.sym("RECS")
  plan = [u.sym("PLAN", ("proto", "LogicalPlan"))] if view else []
  if view:
    u.assume(tm.not_(tm.cmp_("is", plan[0], tm.NONE)))
  given = set(u.state.cond)
  k = u.mark()
  u.static(STORAGE, "create", loc, schema, pks, recs, *plan)
  evs = u.since(k)
  ws = [w for w in streams(evs) if w.message() is not None]
  first = min((e.i for w in ws for e in w.writes), default=None)
  checks = [e for e in evs if e.kind == "cut" and e.name == valid]
  rep(bool(ws) or None, "schema-persisted", None, "writes no metadata")
  rep(any(not set(e.cond) - given for e in checks) or (
      False if not checks else None), "schema-validated", checks[0].where if
      checks else site, "the schema is not validated before it is persisted")
  for e in checks:
    rep(first is None or e.i < first, "schema-validated", e.where,
        "the schema is validated after it was persisted")
    got = [u.freeze(e.kwargs[n]) for n in ("schema", "primary_keys",
                                           "record_fields")]
    for g, w, n in zip(got, (schema, pks, recs), ("schema", "keys", "record")):
      rep(verdict(g, w), "schema-validated", e.where,
          f"validates {short(g)} instead of the {n} given")
  seen = 0
  for w in ws:
    m = Msg(u, w.message())
    if m.type() != "StorageMetadata":
      continue
    seen += 1
    f = m.get(".schema", ".fields")
    want = "substrait(assigned(SCHEMA))"
    calls = [(tm.call_name(x), len(x.args[1])) for x in tm.walk(f)
             if x.op == "call"]
    names = [n for n, _ in calls]
    ok = True if names[:1] == ["substrait"] and "assigned" in names and \
        schema in set(tm.walk(f)) else (
            False if names[:1] == ["substrait"] and "assigned" not in names
            else None)
    rep(ok, "schema-persisted", site,
        f"the fields persisted are {short(f)}, expected {want}")
    for n, v in (("primary_keys", pks), ("record_fields", recs)):
      x = m.get(".schema", "." + n)
      rep(verdict(unwrap(x), v), "schema-persisted", site,
          f"{n} persisted are {short(x)}")
  rep(bool(seen) or None, "schema-persisted", None, "no storage metadata written")
  R.use(("C17",), u, "Storage.create")
