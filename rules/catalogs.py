"""Catalogs and serializers (C24)."""

import json
import posixpath

from pyflow import terms as tm
from rules.append import Once
from rules.base import Unit, def_site, short
from rules.changes import typed, walk
from rules.model import Field, ModelEval, Obj, fails, trace
from rules.read import FAILURES, ext
from rules.registry import group
from rules.units import STORAGE, STR

CATALOG = "space.catalogs.directory.DirCatalog"
DICT = "space.core.serializers.base.DictSerializer"
TYPES = "space.core.schema.types."
NOT_FOUND = ("FileNotFoundError", "OSError", "IOError", "EnvironmentError",
             "Exception", "BaseException")


def path_calls(dirs=(), files=()):
  def arg(ev, t):
    return ev(t.args[1][0]) if t.args[1] else ev(t.args[2][0][1])

  def exists(ev, t):
    return arg(ev, t) in tuple(dirs) + tuple(files)

  return {
      "os.path.join": lambda ev, t: posixpath.join(*[ev(x) for x in t.args[1]]),
      "os.path.isdir": lambda ev, t: arg(ev, t) in dirs,
      "os.path.isfile": lambda ev, t: arg(ev, t) in files,
      "os.path.exists": exists,
      # Some folders are links.
      "os.path.islink": lambda ev, t: arg(ev, t) in tuple(dirs)[2:],
      "os.listdir": lambda ev, t: sorted(
          {posixpath.relpath(x, arg(ev, t)).split("/")[0] for x in
           tuple(dirs) + tuple(files) if x.startswith(arg(ev, t) + "/")}),
  }


@group("C24")
def catalog(prog, R):
  r = R["C24"]
  cuts = {STORAGE + ".load": typed("load", ("inst", STORAGE)),
          "space.core.views.load_materialized_view": ext("load_mv"),
          "space.core.datasets.Dataset.create": ext("create"),
          "space.core.views.View.materialize": ext("materialize")}
  u = Unit(prog, cuts, module="space.catalogs.directory")
  loc, name = u.sym("LOC", STR), u.sym("NAME", STR)
  cat = u.new(CATALOG, loc)
  names = {loc.uid: "/cat", name.uid: "Ds.1_x s"}

  # Creation.
  site = def_site(prog, CATALOG + ".create_dataset")
  rep = Once(r, "create_dataset", site)
  a = {n: u.sym(n.upper()) for n in ("schema", "primary_keys", "record_fields")}
  u.forget()
  k = u.mark()
  u.meth(cat, "create_dataset", name, **a)
  made = [e for e in u.since(k) if e.kind == "cut" and
          e.name == "space.core.datasets.Dataset.create"]
  rep(bool(made) or None, "catalog-create", None, "no dataset is created")
  ev = ModelEval(lambda t: names[t.uid], u.loops, path_calls(), u.state.store)
  for e in made:
    for n, v in a.items():
      x = u.freeze(e.kwargs[n])
      rep(x is v or (False if x.op in ("sym", "const") else None),
          "catalog-create", e.where, f"{n} of the dataset is {short(x)}")
    located(ev, e.kwargs["location"], rep, "catalog-create", e.where)

  site = def_site(prog, CATALOG + ".materialize")
  rep = Once(r, "materialize", site)
  u.forget()
  k = u.mark()
  u.meth(cat, "materialize", name, u.inst("VIEW", "space.core.views.View"))
  made = [e for e in u.since(k) if e.kind == "cut" and
          e.name == "space.core.views.View.materialize"]
  rep(bool(made) or None, "catalog-create", None, "no view is materialized")
  for e in made:
    rep(e.recv is u.inst("VIEW", "space.core.views.View") or None,
        "catalog-create", e.where, "materializes another view")
    located(ev, e.kwargs["location"], rep, "catalog-create", e.where)
  opened(prog, r, u, cat, name, names)
  listed(prog, r, u, cat, names)
  R.use(("C24",), u, "DirCatalog")


def located(ev, t, rep, rule, where):
  try:
    got = ev(t)
    rep(got == "/cat/Ds.1_x s", rule, where, f"the location of 'Ds.1_x s' in '/cat' is {got!r}")
  except FAILURES as e:
    rep(fails(e), rule, where, f"location not evaluated: {e}")


def opened(prog, r, u, cat, name, names):
  site = def_site(prog, CATALOG + ".dataset")
  rep = Once(r, "dataset", site)
  u.forget()
  k = u.mark()
  res = u.meth(cat, "dataset", name)
  raises = [e for e in u.since(k) if e.kind == "raise"]
  for typ in ("DATASET", "MATERIALIZED_VIEW", None):
    where = {}

    def load(ev, t, typ=typ, where=where):
      p = ev(dict(t.args[2])["location"])
      if p not in where:
        m = Obj("metadata", type=typ)
        where[p] = Obj("storage", _metadata=m, metadata=m, location=p, type_=typ)
      return where[p]

    def leaf(t):
      if t.op == "enum":
        return str(t.args[-1])
      return names[t.uid]

    calls = path_calls(("/cat/Ds.1_x s", "/cat/Ds.1_x s/metadata"),
                       ("/cat/Ds.1_x s/metadata/entrypoint.txtpb",)
                       ) if typ else path_calls()
    calls.update(load=load, load_mv=lambda ev, t: (
        "mv", ev(dict(t.args[2])["storage"])))
    ev = ModelEval(leaf, u.loops, calls, u.state.store)
    if typ is None:
      ev.raising = NOT_FOUND
    how = f"storage of type {typ}" if typ else "missing storage"
    try:
      bad = list(trace(ev, raises))
      if typ is None:
        rep(bool(bad) and bad[0].name.endswith("StorageNotFoundError"),
            "catalog-missing", None,
            f"{how}: raises {[e.name.split('.')[-1] for e in bad]}")
        continue
      rep(not bad, "catalog-open", None, f"{how}: fails")
      if bad:
        continue
      v = res
      while v.op == "ite":
        v = v.args[1] if ev(v.args[0]) else v.args[2]
      if v.op == "obj" and v.args[1] == "space.core.datasets.Dataset":
        kind, s = "DATASET", ev(u.freeze(u.get(v, "storage")))
      elif v.op == "obj" and v.args[1] == "space.core.views.MaterializedView":
        kind, s = "MATERIALIZED_VIEW", ev(u.freeze(u.get(v, "storage")))
      else:
        v = ev(v)
        if not isinstance(v, tuple) or v[0] != "mv":
          raise TypeError("result")
        kind, s = "MATERIALIZED_VIEW", v[1]
      rep(kind == typ, "catalog-open", None, f"{how}: is opened as {kind}")
      rep(s.f["location"] == "/cat/Ds.1_x s", "catalog-open", None,
          f"{how}: opens {s.f['location']} for 'Ds.1_x s' in '/cat'")
    except FAILURES as e:
      rep(fails(e), "catalog-open", None,
          f"{how}: not evaluated: {type(e).__name__} {e}")


def listed(prog, r, u, cat, names):
  site = def_site(prog, CATALOG + ".datasets")
  rep = Once(r, "datasets", site)
  u.forget()
  res = u.freeze(u.meth(cat, "datasets"))
  # A storage, an empty folder, a file, a folder without an entry point, the
  # entry point in a wrong place, and a second storage.
  dirs = ["/cat", "/cat/a", "/cat/a/metadata", "/cat/empty", "/cat/b",
          "/cat/b/metadata", "/cat/odd", "/cat/z.v 1", "/cat/z.v 1/metadata"]
  files = ["/cat/file", "/cat/a/metadata/entrypoint.txtpb",
           "/cat/b/metadata/metadata_1.txtpb", "/cat/odd/entrypoint.txtpb",
           "/cat/z.v 1/metadata/entrypoint.txtpb"]
  for d, f, want in ((dirs, files, ["a", "z.v 1"]), (["/cat"], [], []),
                     (dirs[:3], files[1:2], ["a"])):
    ev = ModelEval(lambda t: names[t.uid], u.loops, path_calls(d, f),
                   u.state.store)
    how = f"folders {d}, files {f}"
    try:
      got = list(walk(ev, res, ("name", "location")))
      rep(sorted(got) == [(x, "/cat/" + x) for x in want], "catalog-list", None,
          f"{how}: lists {got}")
    except FAILURES as e:
      rep(fails(e), "catalog-list", None,
          f"{how}: not evaluated: {type(e).__name__} {e}")


# ----------------------------------------------------------------- serializers


class Codec:
  """A field type with its own codec."""

  def __init__(self, n):
    self.n = n


def codec(n):
  return Obj(n, serialize=lambda v: (n + " bytes", v),
             deserialize=lambda v: (n + " value", v))


@group("C24")
def serializers(prog, R):
  r = R["C24"]
  u = Unit(prog, {}, module="space.core.serializers.base")
  schema, value, field = u.sym("SCHEMA"), u.sym("VALUE"), u.sym("FIELD", STR)
  d = u.static(DICT, "create", schema)
  a, b = codec("a"), codec("b")
  fs = [Field("id", "int64"), Field("x", a), Field("y", b, None, False),
        Field("name", "string")]
  schemas = [fs, fs[:1], [fs[2], fs[1]], [], [Field("id.x", a), Field("y", b)]]
  rows = [{}, {"x": [1, 2, 3]}, {"id": [1], "x": [5], "y": [6], "name": ["n"]},
          {"y": [], "id": []}, {"x": [1, None, 0, 1, b""], "y": [b""]}, {"other": [1, 2], "y": [7, 8]},
          {"x.z": [1], "y": [2], "id.x": [3]}]

  def isinst(ev, t):
    return isinstance(ev(t.args[1][0]), Obj)

  for n in ("serialize", "deserialize"):
    rep = Once(r, n, def_site(prog, DICT + "." + n))
    u.forget()
    res = u.freeze(u.meth(d, n, value))
    for sc in schemas:
      for v in rows:
        m = {schema.uid: sc, value.uid: v}
        ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, {"isinstance": isinst},
                       u.state.store)
        ser = {f.name: f.type for f in sc if isinstance(f.type, Obj)}
        want = {k: [ser[k].f[n](y) for y in x] if k in ser else x
                for k, x in v.items()}
        how = f"fields {[(f.name, str(f.type)) for f in sc]}, value {v}"
        try:
          got = ev(res)
          rep(got == want, "serialize", None, f"{how}: {n} gives {got}, expected "
              f"{want}")
        except FAILURES as e:
          rep(fails(e), "serialize", None,
              f"{how}: not evaluated: {type(e).__name__} {e}")
  rep = Once(r, "field_serializer", def_site(prog, DICT + ".field_serializer"))
  u.forget()
  res = u.freeze(u.meth(d, "field_serializer", field))
  for sc in schemas:
    for f in ("id", "x", "y", "nothing", "x.y", "id.x"):
      m = {schema.uid: sc, field.uid: f}
      ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, {"isinstance": isinst},
                     u.state.store)
      want = [x.type for x in sc if x.name == f and isinstance(x.type, Obj)]
      try:
        got = ev(res)
        rep(got is (want[0] if want else None), "field-serializer", None,
            f"fields {[(f.name, str(f.type)) for f in sc]}: codec of {f} is {got}")
      except FAILURES as e:
        rep(fails(e), "field-serializer", None, f"not evaluated: {e}")
  R.use(("C24",), u, "DictSerializer")


@group("C17", "C24")
def custom_types(prog, R):
  """Custom types: their codecs, and that they survive persistence."""
  tf, fl = TYPES + "tf_features.TfFeatures", TYPES + "files.File"
  u = Unit(prog, {}, module="space.core.schema.types.tf_features")
  reps = {p: Once(R[p], "TfFeatures", def_site(prog, tf + ".serialize")) for p in ("C17", "C24")}
  feats, value = u.sym("FEATURES"), u.sym("VALUE")
  t = u.new(tf, feats)

  def features(d):
    o = Obj(f"features {d}", spec=d)
    o.f.update(to_json=lambda: d, serialize_example=lambda v: ("bytes", v),
               deserialize_example=lambda v: ("tensor", v))
    return o

  f0 = features({"image": [1, 2], "label": None})
  m = {feats.uid: f0, value.uid: "V"}
  calls = {"as_numpy": lambda ev, t: ("numpy", ev(t.args[1][0] if t.args[1] else
                                                 t.args[2][0][1])),
           "from_json": lambda ev, t: features(ev(t.args[1][0] if t.args[1] else
                                                  t.args[2][0][1])),
           "json.dumps": lambda ev, t: json.dumps(ev(t.args[1][0] if t.args[1]
                                                     else dict(t.args[2])["obj"])),
           "json.loads": lambda ev, t: json.loads(ev(t.args[1][0] if t.args[1]
                                                     else dict(t.args[2])["s"])),
           "pyarrow.binary": lambda ev, t: "binary",
           "pyarrow.string": lambda ev, t: "string",
           "MessageToJson": lambda ev, t: json.dumps(ev.message(
               t.args[1][0] if t.args[1] else dict(t.args[2])["message"])),
           "Parse": parsed, "os.path.join": lambda ev, t: posixpath.join(
               *[ev(x) for x in t.args[1]])}
  ev = ModelEval(lambda t: m[t.uid], u.loops, calls, u.state.store)
  for n, want in (("serialize", ("bytes", "V")),
                  ("deserialize", ("numpy", ("tensor", "V")))):
    try:
      got = ev(u.freeze(u.meth(t, n, value)))
      reps["C24"](got == want, "codec", None, f"{n} gives {got}, expected {want}",
                  inst=n)
    except FAILURES as e:
      reps["C24"](fails(e), "codec", None, f"{n} not evaluated: {e}",
                  inst=n)
  round_trip(u, ev, t, tf, lambda x: ev(u.freeze(u.get(x, "_features_dict"))).f[
      "spec"], f0.f["spec"], reps["C17"])
  R.use(("C17", "C24"), u, "TfFeatures")

  u = Unit(prog, {}, module="space.core.schema.types.files")
  reps = {p: Once(R[p], "File", def_site(prog, fl + ".full_path")) for p in ("C17", "C24")}
  d, p = u.sym("DIR", STR), u.sym("PATH", STR)
  t = u.new(fl, d)
  for base in ("/a/b", "", "rel"):
    m = {d.uid: base, p.uid: "x/y"}
    ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, calls, u.state.store)
    full = lambda x: ev(u.freeze(u.meth(x, "full_path", p)))  # noqa: E731
    try:
      got = full(t)
      reps["C24"](got == posixpath.join(base, "x/y"), "file-path", None,
                  f"the path of x/y in {base!r} is {got!r}")
    except FAILURES as e:
      reps["C24"](fails(e), "file-path", None, f"not evaluated: {e}")
    round_trip(u, ev, t, fl, full, posixpath.join(base, "x/y"), reps["C17"])
  R.use(("C17", "C24"), u, "File")


def parsed(ev, t):
  s = json.loads(ev(t.args[1][0] if t.args[1] else dict(t.args[2])["text"]))
  o = Obj("parsed")
  for k, v in s.items():
    o.f[k.lstrip(".")] = v
  o.f.setdefault("directory", "")
  return o


def round_trip(u, ev, t, cls, look, want, rep):
  """What is persisted for a type is read back as the same type."""
  u.forget()
  s = u.freeze(u.meth(t, "__arrow_ext_serialize__"))
  for form in ("bytes", "text"):
    try:
      v = ev(s)
      v = v if form == "bytes" else v.decode() if isinstance(v, bytes) else v
      if form == "bytes" and not isinstance(v, bytes):
        rep(False, "type-bytes", None, f"is persisted as {v!r}")
        continue
      x = u.sym("SERIALIZED_" + form)
      old = ev.leaf
      ev.leaf = lambda q, old=old, x=x, v=v: v if q is x else old(q)
      u.assume(tm.TRUE)
      back = u.static(cls, "__arrow_ext_deserialize__", u.sym("STORAGE_TYPE"), x)
      got = look(back)
      rep(got == want, "type-round-trip", None,
          f"persisted as {form} and read back: {got!r}, expected {want!r}")
    except FAILURES as e:
      rep(fails(e), "type-round-trip", None,
          f"{form}: not evaluated: {type(e).__name__} {e}")
