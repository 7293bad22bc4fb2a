"""Soundness of pruning by column statistics."""

import itertools

from pyflow import terms as tm
from pyflow.terms import NONE, TRUE, and_, attr, const, mk, seq
from rules.base import Paths, Unit, def_site, short, specialise
from rules.evalt import Eval, Unknown
from rules.registry import group

FF = "space.core.manifests.falsifiable_filters"
BUILD = FF + ".build_manifest_filter"
NAMES = ("a", "b", "n", "m")   # a, b: primary keys
KEYS = ("a", "b")

# Shapes of filters: ("lit", type, name), ("sel", field), ("sel", field, nested),
# ("call", function, children), ("other",)
V, W = ("lit", "i32", "v"), ("lit", "i32", "w")
F = ("lit", "fp64", "v")
A, B, N, M = (("sel", i) for i in range(4))
FNS = ("gt", "gte", "lt", "lte", "equal", "not_equal")


def call(f, *xs):
  return ("call", f, xs)


def shapes():
  out = []
  for f in FNS:
    for x, y in ((A, V), (V, A), (A, B), (B, A), (V, W), (A, F), (F, A), (A, A)):
      out.append(call(f, x, y))
    for x, y in ((N, V), (V, N), (A, N), (N, A), (N, M)):
      out.append(call(f, x, y))
  g, l = call("gt", A, V), call("lte", W, B)
  ng, nl = call("gt", N, V), call("equal", M, W)
  for c in ("and", "or"):
    for x, y in ((g, l), (g, ng), (ng, g), (ng, nl), (g, call("not_equal", A, B)),
                 (g, ("lit", "boolean", "t")), (("lit", "boolean", "t"), l),
                 (g, call("and", l, ng)), (call("or", ng, l), g),
                 (g, call("or", l, call("equal", A, W)))):
      out.append(call(c, x, y))
  out += [("lit", "boolean", "t"), call("add", A, V), call("gt", call(
      "add", A, V), B), call("gt", ("sel", 0, True), V), call(
          "gt", A, ("sel", 1, True)), call("and", g, l, ng), call("is_null", A),
          call("is_null", g), call("negate", g), call("gt", ("other",), A),
          call("gt", V, ("other",)), call("and", ("other",), g),
          call("not", call("not", ng)), call("not", call("or", ng, g)),
          call("not", g), call("not", call("equal", A, V)), call("not", ng),
          ("other",), A, call("gt", A, ("other",)), call("and", g, ("other",)),
          call("xor", g, l), call("like", A, V)]
  return out


def label(s):
  if s[0] == "lit":
    return s[2]
  if s[0] == "sel":
    return NAMES[s[1]] + (".x" if len(s) > 2 else "")
  if s[0] == "call":
    return f"{s[1]}({', '.join(label(x) for x in s[2])})"
  return "?"


class NoStatistics(Exception):
  """A manifest filter uses the statistics of a field that has none."""


class Shape:
  """Answers of a filter message of a given shape."""

  def __init__(self, u, shape):
    self.u, self.shape = u, shape
    self.expr = u.sym("EXPR")
    self.root = attr(tm.item(attr(self.expr, "referred_expr"), const(0)),
                     "expression")

  def node(self, t):
    """The node of the filter a term stands for, or None."""
    if t is self.root:
      return self.shape
    if t.op == "elem" and t.args[0] is attr(self.expr, "referred_expr"):
      return None
    if t.op == "attr" and t.args[1] == "expression" and t.args[0].op == "elem" \
        and t.args[0].args[0] is attr(self.expr, "referred_expr"):
      return self.shape
    if t.op == "attr" and t.args[1] == "value":
      x = t.args[0]
      if x.op == "item" and x.args[1].op == "const":
        n = self.args_of(x.args[0])
        i = x.args[1].args[0]
        if n is not None and isinstance(i, int) and -len(n[2]) <= i < len(n[2]):
          return n[2][i]
    return None

  def args_of(self, t):
    if t.op == "attr" and t.args[1] == "arguments" and t.args[0].op == "attr" and \
        t.args[0].args[1] == "scalar_function":
      n = self.node(t.args[0].args[0])
      if n is not None and n[0] == "call":
        return n
    return None

  def selection(self, t):
    """The selection node whose struct_field (or part of it) t is."""
    if t.op == "attr" and t.args[1] in ("struct_field", "direct_reference",
                                        "selection"):
      if t.args[1] == "selection":
        n = self.node(t.args[0])
        return n if n is not None and n[0] == "sel" else None
      return self.selection(t.args[0])
    return None

  def value(self, t):
    """The value of a term that depends on the shape only. KeyError if not."""
    op, a = t.op, t.args
    if op == "has" and a[0].op == "attr":
      return self.has(a[0].args[0], a[0].args[1])
    if op == "call":
      n = tm.call_name(t)
      if n == ".HasField" and a[1] and a[1][0].op == "const":
        return self.has(a[0].args[0], a[1][0].args[0])
      if n == "len" and len(a[1]) == 1:
        x = self.args_of(a[1][0])
        if x is not None:
          return len(x[2])
        if a[1][0] is attr(self.expr, "referred_expr"):
          return 1
        if self.unset(a[1][0], "arguments"):
          return 0
      if n == ".WhichOneof" and a[0].args[0].op == "attr" and a[0].args[0].args[
          1] == "literal":
        x = self.node(a[0].args[0].args[0])
        if x is not None:
          return x[1] if x[0] == "lit" else None
      if n == ".WhichOneof":
        x = self.node(a[0].args[0])
        if x is not None:
          return {"lit": "literal", "sel": "selection", "call": "scalar_function",
                  "other": "cast"}[x[0]]
    if op == "attr" and a[1] == "name" and a[0].op == "attr" and \
        a[0].args[1] == "extension_function":
      x = a[0].args[0]
      if x.op == "item" and x.args[0] is attr(self.expr, "extensions") and \
          x.args[1].op == "attr" and x.args[1].args[1] == "function_reference" \
          and x.args[1].args[0].op == "attr":
        n = self.node(x.args[1].args[0].args[0])
        if n is not None and n[0] == "call":
          return n[1]
    if op == "attr" and a[1] == "field":
      n = self.selection(a[0])
      if n is not None:
        return n[1]
      if a[0].op == "attr" and a[0].args[1] == "struct_field" and a[0].args[
          0].op == "attr" and self.unset(a[0].args[0].args[0], "selection"):
        return 0
    if op == "item" and a[0] is attr(self.u.SCH, "names"):
      return NAMES[Eval(self.value)(a[1])]
    if op == "attr" and a[1] == "name" and a[0].op == "call" and tm.call_name(
        a[0]).split(".")[-1] == "field" and len(a[0].args[1]) == 1:
      return NAMES[Eval(self.value)(a[0].args[1][0])]
    if t is self.u.KEYS:
      return list(KEYS)
    if t is self.u.IDS:
      return list(NAMES)
    if op == "exc":
      return False
    raise KeyError

  def unset(self, t, what):
    """The default of a part of a message that a node does not have."""
    if what == "arguments":
      if t.op != "attr" or t.args[1] != what:
        return False
      t, what = t.args[0], "scalar_function"
    if t.op != "attr" or t.args[1] != what:
      return False
    n = self.node(t.args[0])
    return n is not None and n[0] != {"selection": "sel",
                                      "scalar_function": "call"}[what]

  def has(self, base, field):
    n = self.node(base)
    if n is not None:
      want = {"literal": "lit", "selection": "sel", "scalar_function": "call"}.get(
          field, "other" if field in ("cast",) else None)
      return n[0] == want
    n = self.selection(base)
    if n is not None:
      if field == "child":
        return len(n) > 2
      return field in ("direct_reference", "struct_field")
    raise KeyError


def analyse(prog, shape):
  """[(unit, shape, manifest filter or None if it raises)] of all paths."""
  res = []

  def build(oracle):
    u = Unit(prog, {}, module=FF)
    u.SCH, u.KEYS, u.IDS = u.sym("SCHEMA"), u.sym("PRIMARY_KEYS"), u.sym("IDS")
    s = Shape(u, shape)
    u.parsed["ExtendedExpression"] = s.expr

    def decide(c):
      try:
        v = Eval(s.value)(c)
        return bool(v)
      except Unknown:
        pass
      if c.op == "exc":
        return False
      if c.op == "not" and c.args[0].op == "exc":
        return True
      return oracle(c)

    u.oracle = decide
    u.max_recursion = 5
    r = u.do(BUILD, u.SCH, u.KEYS, u.IDS, u.sym("FILTER"))
    return u, s, (u.freeze(r) if u.state.live else None)

  p = Paths(notnull, 40)
  for x in p.run(build):
    res.append(x)
  return res


def lives(u):
  """The call returns, unless a library call raises."""
  if not u.state.live:
    return False
  for e in u.raised():
    if not any(u.catches(n, e.name) for _, ns in e.tries for n in ns):
      return False
  return True


def notnull(c):
  """Filters that were built are not None."""
  if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE:
    x = c.args[1]
    if x.op in ("inv", "binop", "cmp", "and", "or", "not") or \
        x.op == "call":
      return "false"
  return True


def literal_name(s, t):
  """Name of the literal a term stands for."""
  for x in tm.walk(t):
    if x.op == "attr" and x.args[1] == "literal":
      n = s.node(x.args[0])
      if n is not None and n[0] == "lit":
        return n[2]
  return None


def stat_atom(u, s, t):
  """(field name, "min"/"max") of a manifest column, or None."""
  for i, f in enumerate(NAMES):
    for k in ("MIN_FIELD", "MAX_FIELD"):
      w = u.stat_terms.get((f, k))
      if t is w:
        return f, k[:3].lower()
  del i
  return None


def prepare(u, s):
  u.stat_terms = {}
  # Column names under every way the field is referred to.
  for f in NAMES:
    for k in ("MIN_FIELD", "MAX_FIELD"):
      u.stat_terms[(f, k)] = u.spec(
          f"pc.field(schema_utils.stats_field_name(i), constants.{k})",
          _module=FF, i=mk("fid", const(f)))


def resolve(s, t):
  """Field ids of the fields named in the filter."""
  def go(x):
    if x.op == "item" and x.args[0] is s.u.IDS:
      try:
        return mk("fid", const(Eval(s.value)(resolve(s, x.args[1]))))
      except Unknown:
        return None
    if x.op == "item" and x.args[0].op == "dictv":
      return None
    return None

  return tm.rewrite(t, go)


def matches(shape, row, lits):
  """Truth of the filter on a row (Kleene)."""
  k = shape[0]
  if k == "lit":
    return lits[shape[2]]
  if k == "sel":
    return row[shape[1]]
  f, xs = shape[1], [matches(x, row, lits) for x in shape[2]]
  if f == "not":
    return None if xs[0] is None else not xs[0]
  if f == "and":
    if False in xs:
      return False
    return None if None in xs else True
  if f == "or":
    if True in xs:
      return True
    return None if None in xs else False
  x, y = xs
  if x is None or y is None:
    return None
  if "nan" in (x, y):
    return f == "not_equal"
  return {"gt": x > y, "gte": x >= y, "lt": x < y, "lte": x <= y,
          "equal": x == y, "not_equal": x != y}[f]


def supported(shape):
  k = shape[0]
  if k == "lit":
    return True
  if k == "sel":
    return len(shape) == 2
  if k == "call":
    n = {"not": 1, "and": 2, "or": 2}.get(shape[1])
    if n is not None and len(shape[2]) != n:
      return False
    return shape[1] in FNS + ("not", "and", "or") and all(
        supported(x) for x in shape[2])
  return False


def leaves(shape, kind, out):
  if shape[0] == kind:
    out.append(shape)
  elif shape[0] == "call":
    for x in shape[2]:
      leaves(x, kind, out)
  return out


def may_be_float(shape):
  return not leaves(shape, "lit", []) or any(
      x[1].startswith("fp") for x in leaves(shape, "lit", []))


@group("C06")
def soundness(prog, R):
  r = R["C06"]
  site = def_site(prog, BUILD)
  for shape in shapes():
    inst = label(shape) + ("f" if any(x[1] == "fp64" for x in leaves(
        shape, "lit", [])) else "")
    try:
      paths = analyse(prog, shape)
    except RecursionError:
      r.undecided("pruning-sound", inst, site, "recursion")
      continue
    if not paths:
      r.undecided("pruning-sound", inst, site, "no path")
    for n, (u, s, res) in enumerate(paths):
      if n == 0:
        r.use(u, "build_manifest_filter: " + inst)
      if not lives(u):
        e = next((x for x in reversed(u.events) if x.kind == "raise"), None)
        r.bad("unsupported-filter-reads-all", inst, e.where if e else site,
              "a filter makes the construction of the manifest filter fail")
        continue
      bad = no_value(u, s, res)
      if bad is not None:
        r.bad("unsupported-filter-reads-all", inst, site,
              f"the value of a part that is no literal is read: {short(bad)}")
        continue
      r.ok("unsupported-filter-reads-all", inst, site)
      if res is NONE:
        r.ok("pruning-sound", inst, site)
        continue
      if not supported(shape):
        # Meaning unknown: nothing may be pruned.
        try:
          bad = may_prune(u, s, res, shape)
        except Unknown:
          bad = None
        except NoStatistics:
          bad = True
        r.check(None if bad is None else not bad, "unsupported-filter-reads-all",
                inst + ": prunes", site, f"the manifest filter is {short(res)}")
        continue
      ok, why = decide_sound(u, s, res, shape)
      r.check(ok, "pruning-sound", inst, site, why)


def no_value(u, s, res):
  """A read of the value of a message that has none (getattr(x, None))."""
  del u
  for x in tm.walk(res):
    if x.op == "call" and tm.call_name(x) == "getattr" and len(x.args[1]) == 2:
      n = x.args[1][1]
      if n.op == "call" and tm.call_name(n) == ".WhichOneof":
        try:
          if s.value(n) is None:
            return x
        except KeyError:
          pass
  return None


def evaluator(u, s, stats, lits):
  def leaf(t):
    a = stat_atom(u, s, t)
    if a is not None:
      if a not in stats:
        raise NoStatistics(a[0])
      return stats[a]
    if t.op == "call" and tm.call_name(t) == "pyarrow.compute.scalar":
      n = literal_name(s, t)
      if n is None:
        if t.args[1] and t.args[1][0].op == "const":
          return t.args[1][0].args[0]
        raise KeyError
      return lits[n]
    return s.value(t)

  return Eval(leaf, kleene=True)


def space(shape):
  lits = sorted({(x[2], x[1]) for x in leaves(shape, "lit", [])})
  dom = range(4)
  lit_vals = [[True, False] if ty == "boolean" else list(dom) for _, ty in lits]
  used = sorted({x[1] for x in leaves(shape, "sel", [])})
  pairs = [(i, j) for i in dom for j in dom if i <= j]
  for lv in itertools.product(*lit_vals):
    for st in itertools.product(pairs, repeat=len([i for i in used if i < 2])):
      yield dict(zip((n for n, _ in lits), lv)), dict(
          zip([i for i in used if i < 2], st)), used


def may_prune(u, s, res, shape):
  prepare(u, s)
  res = resolve(s, res)
  for lits, st, _ in space(shape):
    stats = {(NAMES[i], k): v for i, mm in st.items()
             for k, v in zip(("min", "max"), mm)}
    for f in KEYS:
      stats.setdefault((f, "min"), None)
      stats.setdefault((f, "max"), None)
    if evaluator(u, s, stats, lits)(res) is False:
      return True
  return False


def decide_sound(u, s, res, shape):
  prepare(u, s)
  res = resolve(s, res)
  nan = may_be_float(shape)
  try:
    for lits, st, used in space(shape):
      stats = {(NAMES[i], k): v for i, mm in st.items()
               for k, v in zip(("min", "max"), mm)}
      v = evaluator(u, s, stats, lits)(res)
      if v is not False:
        continue
      choices = []
      for i in used:
        xs = list(range(st[i][0], st[i][1] + 1)) if i in st else [0, 1, 2, 3]
        choices.append(xs + (["nan"] if nan else []))
      for row in itertools.product(*choices):
        if matches(shape, dict(zip(used, row)), lits) is True:
          return False, (
              f"a file with bounds {named(st)} is pruned for {label(shape)} with "
              f"{lits}, though a row {dict(zip((NAMES[i] for i in used), row))} "
              f"matches; the manifest filter is {short(res, 300)}")
  except Unknown as e:
    return None, f"the manifest filter {short(res, 300)} is not understood: {e}"
  except NoStatistics as e:
    return False, (f"the manifest filter {short(res, 300)} uses statistics of a "
                   f"field that has none: {e}")
  return True, ""


def named(st):
  return {NAMES[i]: v for i, v in st.items()}
