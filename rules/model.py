"""Finite models: derived closed forms are evaluated over a small abstract
domain of the objects they speak of (Parquet metadata, tables), to compare them
with what the property demands. The forms are what the analysis derived from the
source; the source itself is not run."""

import functools
import math
import posixpath

from pyflow import terms as tm
from rules.base import free_loops
from rules.evalt import Eval, Unknown
from rules.tables import arg


CWD = "/CWD"


def _absolute(path):
  return posixpath.normpath(posixpath.join(CWD, path))


# Functions of paths that do not look at the file system, in a folder CWD.
PATHS = {
    **{n: getattr(posixpath, n) for n in (
        "join", "basename", "dirname", "split", "splitext", "normpath", "isabs",
        "commonpath", "commonprefix")},
    "abspath": _absolute,
    "relpath": lambda p, start=".": posixpath.relpath(
        _absolute(p), _absolute(start)),
    "expanduser": lambda p: p if not p.startswith("~") else "/HOME" + p[1:],
}


class Mismatch(Unknown):
  """Columns of different lengths are put together: Arrow fails."""


class Missing(Unknown):
  """A key or index that is not there: the look-up fails."""


def fails(e):
  """The verdict on an evaluation that fails: the code fails on the modelled input
  (violated), or the evaluation does not know (undecided)."""
  return False if isinstance(e, (Missing, Mismatch)) else None


class Obj:
  """A model object: attributes, and methods as callables."""

  def __init__(self, _name="", **kw):
    self.name_ = _name
    self.f = kw
    self.term = None

  def __repr__(self):
    return self.name_ or f"Obj({self.f})"


class Table:
  """Columns of a table, with the types they were declared with."""

  def __init__(self, names, cols, schema=None):
    self.names, self.cols, self.schema = list(names), list(cols), schema

  @property
  def num_rows(self):
    return len(self.cols[0]) if self.cols else 0

  def col(self, n):
    return self.cols[self.names.index(n)] if n in self.names else None

  def rows(self):
    return [dict(zip(self.names, r)) for r in zip(*self.cols)]

  def fields(self):
    if self.schema is not None and [f.name for f in self.schema] == self.names:
      return self.schema
    return [Field(n, None) for n in self.names]

  def pick(self, idx):
    """Some rows."""
    return Table(self.names, [[c[i] for i in idx] for c in self.cols],
                 self.schema)

  def select(self, cols):
    ix = [c if isinstance(c, int) else self.index(c) for c in cols]
    fs = self.fields()
    return Table([self.names[i] for i in ix], [self.cols[i] for i in ix],
                 [fs[i] for i in ix])

  def index(self, n):
    if n not in self.names and self.num_rows:
      raise Missing(f"no column {n} of {self.names}")
    if self.names.count(n) != 1:
      raise Unknown(f"column {n} of {self.names}")
    return self.names.index(n)

  def with_column(self, i, field, col):
    fs = list(self.fields())
    f = field if isinstance(field, Field) else Field(field, None)
    names, cols = list(self.names), list(self.cols)
    if cols and len(col) != self.num_rows:
      raise Mismatch(f"column of {len(col)} rows in a table of {self.num_rows}")
    names.insert(i, f.name)
    cols.insert(i, list(col))
    fs.insert(i, f)
    return Table(names, cols, fs)

  def flatten(self):
    names, cols, fs = [], [], []
    for n, c, f in zip(self.names, self.cols, self.fields()):
      sub = None
      for x in c:
        if isinstance(x, dict):
          sub = list(x)
      if sub is None and isinstance(f.type, Obj) and "fields" in f.type.f:
        sub = [x.name for x in f.type.f["fields"]]
      if sub is None:
        names.append(n)
        cols.append(c)
        fs.append(f)
        continue
      for k in sub:
        names.append(f"{n}.{k}")
        cols.append([None if x is None else x[k] for x in c])
        fs.append(Field(names[-1], None))
    return Table(names, cols, fs)


class Column(list):
  """A column, sliced or indexed by row."""


def n_of(a):
  return a[4].args[1]


def backwards(it):
  """Whether a loop goes over the elements of its source from the last one (its
  elements are named by the source without `rev`)."""
  r = False
  while it.op in ("rev", "enum_"):
    r ^= it.op == "rev"
    it = it.args[0]
  return r


class ModelEval(Eval):
  """Eval with loops, calls and model objects. loops: Unit.loops; store: values
  of attributes of objects."""

  def __init__(self, leaf, loops, calls=None, store=None):
    super().__init__(leaf)
    self.loops, self.calls = loops, {} if calls is None else calls
    self.store, self.folds = store or {}, {}
    self.iters, self.depth = {}, 0
    self.backwards = frozenset()
    self._free = {}
    self.objs = {}

  def free(self, t):
    """Numbers of the loops whose element or state the term depends on."""
    r = self._free.get(t.uid)
    if r is None:
      r = set()
      for x in tm.walk(t):
        if x.op in ("elem", "idx", "mu"):
          r.add(x.args[1])
      r = self._free[t.uid] = frozenset(r)
    return r

  def __call__(self, t):
    fr = self.free(t)
    key = (t.uid, tuple(sorted((n, self.iters[n][1]) for n in self.iters))
           if fr else ())
    if key not in self.memo:
      self.depth += 1
      if self.depth > 3000:
        raise Unknown("depth")
      try:
        self.memo[key] = self.ev(t)
      finally:
        self.depth -= 1
    return self.memo[key]

  # ------------------------------------------------------------------ loops

  def iterate(self, it, n):
    """Yields for each element, with the loop's element bound."""
    brk = None
    if it.op == "while" or (it.op == "until" and it.args[0].op == "while"):
      yield from self.repeat_while(it, n)
      return
    if it.op == "until":
      brk, src = it.args[2], it.args[0]
      n2 = it.args[1]
    else:
      src, n2 = it, n
    items = self.items(src)
    old = self.iters.get(n), self.iters.get(n2)
    self.backwards = (self.backwards | {n, n2} if backwards(src) else
                      self.backwards - {n, n2})
    try:
      for i, x in enumerate(items):
        self.iters[n] = self.iters[n2] = (items, i)
        yield i, x
        self.iters[n] = self.iters[n2] = (items, i)
        if brk is not None and self(brk):
          break
    finally:
      for k, o in zip((n, n2), old):
        if o is None:
          self.iters.pop(k, None)
        else:
          self.iters[k] = o

  def repeat_while(self, it, n):
    """Yields for each iteration of a loop that runs while a condition holds."""
    brk = it.args[2] if it.op == "until" else None
    if n not in self.loops:
      raise Unknown("while")
    old = self.iters.get(n)
    items = list(range(200))
    try:
      for i in items:
        self.iters[n] = (items, i)
        if not self(self.loops[n].cond):
          break
        yield i, i
        self.iters[n] = (items, i)
        if brk is not None and self(brk):
          break
      else:
        raise Unknown("endless loop")
    finally:
      if old is None:
        self.iters.pop(n, None)
      else:
        self.iters[n] = old

  def items(self, t):
    if t.op == "until":
      out = []
      for _, x in self.iterate(t, t.args[1]):
        out.append(x)
      return out
    v = self.elems(t)
    return v

  def elems(self, t):
    if t.op == "listv":
      t = t.args[0]
    if t.op in ("setv", "uniq"):
      out = []
      for x in self.elems(t.args[0]):
        if x not in out:
          out.append(x)
      return out
    if t.op == "seq":
      return self.entries(t.args[0])
    if t.op == "rev":
      return list(reversed(self.elems(t.args[0])))
    if t.op == "enum_":
      return [list(x) for x in enumerate(self.elems(t.args[0]))]
    if t.op == "zip_":
      return [list(x) for x in zip(*[self.elems(x) for x in t.args[0]])]
    if t.op in ("items", "keys", "values"):
      d = self(t.args[0])
      if not isinstance(d, dict):
        raise Unknown(t.op)
      return [list(x) for x in d.items()] if t.op == "items" else (
          list(d) if t.op == "keys" else list(d.values()))
    if t.op == "obj" and ("c", t) in self.store:
      return self.elems(self.store[("c", t)])
    v = self(t)
    if isinstance(v, (list, tuple, set, dict)):
      return list(v)
    if v is None or isinstance(v, (bool, int, float)):
      raise Mismatch(f"{type(v).__name__} has no elements")
    raise Unknown("elements of " + tm.show(t, 3))

  def entries(self, ents):
    out = []
    for e in ents:
      if e[0] in ("i", "splice"):
        if self(e[1]):
          if e[0] == "i":
            out.append(self(e[2]))
          else:
            out += self.elems(e[2])
      elif not self.excluded(e[3], e[2]):
        for _ in self.iterate(e[1], e[2]):
          if self(e[3]):
            out += self.entries(e[4])
    return out

  def excluded(self, guard, n):
    """Whether a condition from outside of loop n excludes all of it."""
    for c in guard.args if guard.op == "and" else (guard,):
      try:
        if n not in free_loops(c) and not self(c):
          return True
      except Exception:  # pylint: disable=broad-except
        pass
    return False

  def state(self, label, n):
    """The value of loop n's carried location in the current iteration."""
    if n not in self.iters or n not in self.loops:
      raise Unknown("loop state")
    info = self.loops[n]
    lab = label
    if lab.op == "lvar":
      lab = lab.args[0]
    elif lab.op == "lcont":
      lab = (lab.args[0], lab.args[1])
    own = self.folds.get((label.uid, n))
    if own is None and lab not in info.update:
      raise Unknown("loop state " + str(lab))
    items, i = self.iters[n]
    if i == 0:
      v = info.init[lab] if own is None else own[0]
      if v is None:
        raise Unknown("no initial value")
      saved = self.iters.pop(n)
      try:
        return self.elems(v) if isinstance(lab, tuple) and not \
            isinstance(lab, tm.T) else self(v)
      finally:
        self.iters[n] = saved
    self.iters[n] = (items, i - 1)
    try:
      v = info.update[lab] if own is None else own[1]
      return self.elems(v) if isinstance(lab, tuple) else self(v)
    finally:
      self.iters[n] = (items, i)

  # -------------------------------------------------------------- evaluation

  def lifted(self, t):
    """Operators on filter expressions."""
    op, a = t.op, t.args
    if op in ("and", "or"):
      xs = a
    elif op == "binop":
      op = {"&": "and", "|": "or"}.get(a[0], a[0])
      xs = a[1:]
    elif op == "cmp":
      op, xs = a[0], a[1:]
      if op in ("is", "in"):
        return None
    else:
      xs = a
    try:
      vs = [self(x) for x in xs]
    except Unknown:
      return None
    if not any(isinstance(v, Expr) for v in vs):
      return None
    if op in ("and", "or"):
      return Expr(lambda r: kleene(op, [at(v, r) for v in vs]), text(op, *vs))
    if op in ("not", "inv"):
      return Expr(lambda r: None if at(vs[0], r) is None else not at(vs[0], r))
    if op in ("==", "!=", "<", "<="):
      return lift_cmp(op, *vs)
    if op in (">", ">="):
      return lift_cmp({">": "<", ">=": "<="}[op], vs[1], vs[0])
    raise Unknown("expression " + str(op))

  def ev(self, t):
    try:
      return self.leaf(t)
    except KeyError:
      pass
    op, a = t.op, t.args
    if op in ("and", "or", "not", "inv", "binop", "cmp"):
      v = self.lifted(t)
      if v is not None:
        return v
    if op == "inv" and self(a[0]) is None:
      raise Mismatch("~None")
    if op == "extv":
      return self.built(t)
    if op == "seq":
      return self.elems(t)
    if op in ("listv", "setv", "uniq", "rev", "enum_", "zip_", "items", "keys", "values"):
      return self.elems(t)
    if op == "dictv":
      out = {}
      for kv in self.elems(a[0]):
        out[self.hashable(kv[0])] = kv[1]
      return out
    if op in ("elem", "idx"):
      n = a[1]
      if n not in self.iters:
        raise Unknown("element out of loop")
      items, i = self.iters[n]
      if op == "idx":
        return i
      it = a[0]
      if it.op == "until":
        it = it.args[0]
      own = self.items_of(it, n)
      if own is not None and n in self.backwards and it.op != "rev":
        return own[len(items) - 1 - i]
      return (own if own is not None else items)[i]
    if op == "mu":
      return self.state(a[0], a[1])
    if op == "sum":
      tot = 0
      for _ in self.iterate(a[0], a[1]):
        tot += self(a[2])
      return tot
    if op == "exists":
      return any([bool(self(a[2])) for _ in self.iterate(a[0], a[1])])
    if op == "last":
      v = self(a[4])
      for _ in self.iterate(a[0], a[1]):
        if self(a[2]):
          v = self(a[3])
      return v
    if op == "first":
      for _ in self.iterate(a[0], a[1]):
        if self(a[2]):
          return self(a[3])
      raise Unknown("first")
    if op == "fold":
      v = None
      k = 0
      seqish = a[3].op == "seq"
      if a[4].op == "mu":
        self.folds[(a[4].args[0].uid, n_of(a))] = (a[2], a[3])
      for _ in self.iterate(a[0], a[1]):
        v = self.elems(a[3]) if seqish else self(a[3])
        k += 1
      if not k:
        return self.elems(a[2]) if seqish else self(a[2])
      return v
    if op == "cat":
      return "".join(str(self(x)) for x in a[0])
    if op == "attr":
      b = self(a[0])
      if isinstance(b, Obj) and b.term is not None:
        k = tm.attr(b.term, a[1])
        if k in self.store:
          return self(self.store[k])
      return self.getattr(b, a[1])
    if op == "item":
      b = self(a[0])
      if a[1].op == "slice":
        if isinstance(b, (list, str)):
          return b[slice(*[self(x) for x in a[1].args[:3]])]
        raise Unknown("slice")
      k = self(a[1])
      try:
        if isinstance(b, dict):
          return b[self.hashable(k)]
        if isinstance(b, (list, tuple, str)) and isinstance(k, int):
          return b[k]
      except (KeyError, IndexError):
        raise Missing("missing key") from None
      raise Unknown("item")
    if op == "truthy":
      v = self(a[0])
      if isinstance(v, Table):
        return bool(v.cols) and v.num_rows > 0
      return bool(v)
    if op == "cmp" and a[0] == "in":
      x = self(a[1])
      return any(x == y and type(x) == type(y) for y in self.elems(a[2]))
    if op == "cmp" and a[0] == "is":
      x, y = self(a[1]), self(a[2])
      if isinstance(x, (Obj, Table)) or isinstance(y, (Obj, Table)):
        return x is y
      return (x is None and y is None) or (x is not None and y is not None and
                                           x == y and type(x) == type(y))
    if op == "msg":
      return self.message(t)
    if op == "has":
      x = a[0]
      if x.op == "attr":
        o = self(x.args[0])
        if isinstance(o, Obj):
          return x.args[1] in o.f.get("has_", o.f)
      raise Unknown("presence")
    if op == "repeat":
      return self.elems(a[0]) * self(a[1])
    if op == "with":
      l, k = list(self.elems(a[0])), self(a[1])
      if not isinstance(k, int) or not -len(l) <= k < len(l):
        raise Unknown("index")
      l[k] = self(a[2])
      return l
    if op == "minus":
      l, x = list(self.elems(a[0])), self(a[1])
      if x in l:
        l.remove(x)
      return l
    if op == "without":
      l, k = list(self.elems(a[0])), self(a[1])
      if not isinstance(k, int) or not -len(l) <= k < len(l) or any(
          isinstance(x, (list, tuple)) for x in l):
        raise Unknown("index")
      del l[k]
      return l
    if op == "obj" and a[1] in ("list", "set") and ("c", t) in self.store:
      return self.elems(t)
    if op == "obj" and a[1] not in ("list", "set", "dict"):
      o = self.objs.setdefault(t.uid, Obj(tm.show(t)))
      o.term = t
      return o
    if op == "binop" and len(a) == 3 and a[0] in ("%", "//", "/", "-", "+", "*"):
      x, y = self(a[1]), self(a[2])
      if None in (x, y) and all(v is None or isinstance(v, (int, float, str, list))
                                for v in (x, y)):
        raise Mismatch(f"{a[0]} of None")
      if isinstance(x, (int, float, str, list)) and isinstance(
          y, (int, float, str, list)):
        if a[0] in ("%", "//", "/") and (y == 0 or isinstance(x, str)):
          raise Unknown("division")
        return {"%": lambda: x % y, "//": lambda: x // y, "/": lambda: x / y,
                "-": lambda: x - y, "+": lambda: x + y, "*": lambda: x * y}[a[0]]()
    if op == "exc":  # The modelled runs raise nothing, unless told to.
      return any(x.split(".")[-1] in self.raising for x in a[1].split(","))
    if op == "call":
      return self.call(t)
    return super().ev(t)

  def built(self, t):
    """An external object after the calls that change it."""
    v = self(t.args[0])
    if isinstance(v, BitMapObj):
      v = BitMapObj(v)
      for e in self.calls_of(t.args[1].args[0]):
        name, args = tm.call_name(e), [self(x) for x in e.args[1]]
        if e.args[2]:
          raise Unknown("bitmap " + name)
        if name in ("add_range", "difference_update", "update", "add", "remove",
                    "discard", "intersection_update", "clear",
                    "symmetric_difference_update", "remove_range",
                    "flip_inplace"):
          getattr(v, name)(*args)
        else:
          raise Unknown("bitmap " + name)
      return v
    raise Unknown("built " + tm.show(t, 3))

  def calls_of(self, ents):
    for e in ents:
      if e[0] == "i":
        if self(e[1]):
          yield e[2]
      elif e[0] == "splice":
        if self(e[1]):
          if e[2].op != "seq":
            raise Unknown("calls")
          yield from self.calls_of(e[2].args[0])
      else:
        for _ in self.iterate(e[1], e[2]):
          if self(e[3]):
            yield from self.calls_of(e[4])

  raising = ()  # The exception types that handlers catch in the modelled run.
  copied = False  # Whether messages copied from others are wanted, under "".

  def message(self, t):
    """The fields of a message, by dotted path."""
    if t.op != "msg":
      raise Unknown("message " + tm.show(t, 2))
    out = {}
    if len(t.args) > 2 and t.args[2] is not None and t.args[2] is not tm.NONE:
      if not self.copied:
        raise Unknown("copied message")
      out[""] = self(t.args[2])
    for k, v in t.args[1]:
      if not all(isinstance(x, str) for x in k):
        raise Unknown("map field")
      if k[-1] == "=":
        while v.op == "ite":
          v = v.args[1] if self(v.args[0]) else v.args[2]
        if v is tm.NONE:
          continue
        if v.op != "msg":
          out["".join(k[:-1])] = self(v)
          continue
        for k2, x in self.message(v).items():
          out["".join(k[:-1]) + k2] = x
      else:
        out["".join(k)] = self(v)
    return out

  def files(self, t):
    """A sequence of messages."""
    return self.elems(t)

  def items_of(self, it, n):
    try:
      saved = self.iters.pop(n)
    except KeyError:
      return None
    try:
      return self.items(it)
    except Unknown:
      return None
    finally:
      self.iters[n] = saved

  def hashable(self, k):
    return tuple(k) if isinstance(k, list) else k

  def getattr(self, v, name):
    if v is None:
      raise Missing(f"attribute {name} of None")
    if isinstance(v, Obj):
      if name in v.f:
        return v.f[name]
      raise Unknown(f"{v}.{name}")
    if isinstance(v, dict) and v and all(str(k).startswith(".") for k in v):
      # A message; defaults are not known here.
      sub = {k[len(name) + 1:]: x for k, x in v.items()
             if k.startswith(f".{name}.")}
      if "." + name in v:
        return v["." + name]
      if sub:
        return sub
    if isinstance(v, Table):
      if name == "num_rows":
        return v.num_rows
      if name in ("column_names",):
        return list(v.names)
      if name == "num_columns":
        return len(v.names)
      if name == "columns":
        return list(v.cols)
      if name == "schema":
        return v.fields()
    if isinstance(v, Field) and name in ("name", "type", "metadata", "nullable"):
      return getattr(v, name)
    if isinstance(v, list) and name == "null_count":
      return sum(x is None for x in v)
    if isinstance(v, list) and name == "names" and all(
        isinstance(x, Field) for x in v):
      return [x.name for x in v]
    raise Unknown("attribute " + name)

  def call(self, t):
    f, args, kwargs = t.args
    name = tm.call_name(t)
    last = name.split(".")[-1]
    if name in self.calls:
      return self.calls[name](self, t)
    if name.startswith("pyarrow.compute."):
      v = self.compute(t, last)
      if v is not NotImplemented:
        return v
    if name == "dict.fromkeys" and len(args) == 1:
      return dict.fromkeys(self.hashable(x) for x in self.elems(args[0]))
    if last in self.calls and f.op == "ext":
      return self.calls[last](self, t)
    if f.op == "attr":
      if f.args[0].op == "obj" and f in (self.store or ()):
        fn = self(self.store[f])
        if callable(fn):
          return fn(*[self(x) for x in args], **{k: self(v) for k, v in kwargs})
      r = self(f.args[0])
      if isinstance(r, Obj):
        m = self.getattr(r, f.args[1])
        if callable(m):
          return m(*[self(x) for x in args], **{k: self(v) for k, v in kwargs})
        raise Unknown("call " + name)
      if isinstance(r, bytes) and f.args[1] == "decode":
        return r.decode()
      if isinstance(r, str) and f.args[1] in (
          "startswith", "endswith", "join", "lower", "strip", "split",
          "encode", "replace", "upper", "removeprefix", "removesuffix", "rsplit",
          "find", "lstrip", "rstrip", "format"):
        return getattr(r, f.args[1])(*[self(x) for x in args])
      if isinstance(r, dict) and f.args[1] in ("items", "keys", "values") and \
          not args:
        return [list(x) if isinstance(x, tuple) and f.args[1] == "items" else x
                for x in getattr(r, f.args[1])()]
      if isinstance(r, dict) and f.args[1] == "get":
        xs = [self(x) for x in args]
        return r.get(self.hashable(xs[0]), xs[1] if len(xs) > 1 else None)
      if isinstance(r, list) and f.args[1] in (
          "to_pylist", "combine_chunks", "tolist", "to_array", "to_numpy"):
        return r
      if isinstance(r, Expr):
        return self.expr_method(r, f.args[1], [self(x) for x in args], {
            k: self(v) for k, v in kwargs})
      if isinstance(r, BitMapObj) and f.args[1] == "serialize":
        return r.serialize()
      if isinstance(r, BitMapObj) and f.args[1] in ("to_array", "to_list"):
        return sorted(r)
      if isinstance(r, DatasetObj) and f.args[1] in ("read", "to_table"):
        return r.read(self, {k: self(v) for k, v in kwargs})
      if f.args[1] == "as_py" and not isinstance(r, (Table, Obj)):
        return r
      if isinstance(r, Table):
        return table_method(self, r, f.args[1], [self(x) for x in args],
                            {k: self(v) for k, v in kwargs}, t)
      if isinstance(r, Grouped) and f.args[1] == "aggregate":
        return r.aggregate(self(args[0] if args else dict(kwargs)[
            "aggregations"]))
      if isinstance(r, list) and f.args[1] in ("index", "count"):
        return getattr(r, f.args[1])(self(args[0]))
      raise Unknown("call " + name)
    xs = lambda: [self(x) for x in args]  # noqa: E731
    if f.op not in ("ext", "func", "method"):
      fn = self(f)
      if callable(fn):
        return fn(*xs(), **{k: self(v) for k, v in kwargs})
      if fn is None or isinstance(fn, (list, str, int, float)):
        raise Mismatch(f"{type(fn).__name__} is called")
    if name in ("partial", "functools.partial"):
      return functools.partial(*xs(), **{k: self(v) for k, v in kwargs})
    if name == "isinstance" and len(args) == 2:
      return self.isinstance(self(args[0]), args[1])
    if name == "sorted" and f.op == "ext" and len(args) == 1 and kwargs:
      return self.sorted(self.elems(args[0]), kwargs)
    if f.op == "ext" and not kwargs:
      if name == "range":
        return list(range(*xs()))
      if name in ("int", "str", "bool", "float", "abs"):
        v = xs()
        if len(v) == 1:
          return {"int": int, "str": str, "bool": bool, "float": float,
                  "abs": abs}[name](v[0])
      if name in ("list", "tuple", "set", "frozenset", "iter", "sorted", "dict",
                  "reversed"):
        if not args:
          return {} if name == "dict" else []
        v = self(args[0]) if name == "dict" else self.elems(args[0])
        if name == "dict":
          return dict(v) if isinstance(v, dict) else {
              self.hashable(k): x for k, x in v}
        if name in ("set", "frozenset"):
          out = []
          for x in v:
            if x not in out:
              out.append(x)
          return out
        if name == "reversed":
          return list(reversed(v))
        return sorted(v) if name == "sorted" else list(v)
      if name == "sum":
        return sum(self.elems(args[0]))
      if name == "len":
        v = self(args[0]) if args[0].op not in ("seq", "listv", "setv") else \
            self.elems(args[0])
        if isinstance(v, Table):
          return v.num_rows
        if v is None or isinstance(v, (bool, int, float)):
          raise Mismatch(f"len() of {type(v).__name__}")
        return len(v)
      if name == "next" and len(args) <= 2:
        v = self.elems(args[0])
        if v:
          return v[0]
        if len(args) == 2:
          return self(args[1])
        raise Unknown("next")
    if name in ("min", "max"):
      v = xs()
      kw = {k: self(x) for k, x in kwargs}
      if len(v) == 1:
        v = v[0]
      if "keys" in kw and isinstance(v, list) and v:
        i = range(len(v))
        return v[(min if name == "min" else max)(i, key=kw["keys"].__getitem__)]
      if set(kw) - {"default"}:
        raise Unknown(name)
      if not v and "default" in kw:
        return kw["default"]
      if not isinstance(v, list) or not v or None in v:
        raise Unknown(name)
      return (min if name == "min" else max)(v)
    if name in ("math.ceil", "math.floor", "round") and len(args) == 1:
      v = xs()[0]
      return {"math.ceil": math.ceil, "math.floor": math.floor, "round": round}[
          name](v)
    if name.startswith("pyarrow."):
      return self.arrow(t, last)
    if last == "BitMap":
      return BitMapObj(xs()[0] if args else ())
    if last == "deserialize" and "BitMap" in name:
      return BitMapObj(xs()[0][1:])
    if name.startswith(("os.path.", "posixpath.")) and last in PATHS:
      return PATHS[last](*xs(), *[self(v) for _, v in kwargs])
    if name == "numpy.arange" and not [k for k in kwargs if k[0] != "dtype"]:
      return list(range(*xs()))
    if name == "numpy.zeros" and args:
      return [0] * self(args[0])
    if name == "copy.copy" or name == "copy.deepcopy":
      return self(args[0])
    return super().ev(t)

  def sorted(self, v, kwargs):
    kw = {k: self(x) for k, x in kwargs}
    if set(kw) - {"keys", "reverse"}:
      raise Unknown("sorted")
    keys = kw.get("keys", v)
    return [v[i] for i in sorted(range(len(v)), key=keys.__getitem__,
                                 reverse=bool(kw.get("reverse")))]

  def isinstance(self, v, cls):
    if cls.op == "seq":
      return any(self.isinstance(v, x[2]) for x in cls.args[0])
    if cls.op not in ("ext", "builtin", "cls"):
      raise Unknown("isinstance " + tm.show(cls, 2))
    n = str(cls.args[0]).split(".")[-1]
    is_ = {"Table": Table, "dict": dict, "list": list, "str": str, "int": int,
           "Dict": dict, "List": list, "bytes": bytes}.get(n)
    if is_ is None:
      raise Unknown("isinstance " + n)
    return isinstance(v, is_)

  # ------------------------------------------------------------------ arrow

  def compute(self, t, last):
    args, kw = [self(x) for x in t.args[1]], {k: self(v) for k, v in t.args[2]}
    if last == "scalar":
      return args[0]
    if last == "field":
      return Expr(lambda r: r[args[0]], args[0])
    if any(isinstance(a, Expr) for a in args):
      e = args[0]
      if last in ("is_null", "is_valid", "is_in", "invert"):
        return self.expr_method(e, last, args[1:], kw)
      if last in ("and_", "and_kleene", "or_", "or_kleene"):
        op = last.split("_")[0]
        return Expr(lambda r: kleene(op, [at(v, r) for v in args]),
                    text(op, *args))
      c = {"equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<="}
      if last in c:
        return lift_cmp(c[last], *args)
      if last in ("greater", "greater_equal"):
        return lift_cmp("<" if last == "greater" else "<=", args[1], args[0])
      if last == "xor":
        return lift_cmp("!=", *args)
      if last == "if_else":
        return Expr(lambda r: None if at(e, r) is None else
                    at(args[1] if at(e, r) else args[2], r))
      if last in ("coalesce", "fill_null"):
        return Expr(lambda r: next(
            (v for v in (at(x, r) for x in args) if v is not None), None))
      if last == "and_not":
        return Expr(lambda r: kleene("and", [at(e, r), None if at(
            args[1], r) is None else not at(args[1], r)]))
      raise Unknown("compute " + last)
    if last in ("min", "max", "min_max"):
      v = [x for x in args[0] if x is not None]
      lo, hi = (min(v), max(v)) if v else (None, None)
      return {"min": lo, "max": hi}.get(last, {"min": lo, "max": hi})
    if last == "sum":
      return sum(x for x in args[0] if x is not None)
    if last == "unique":
      return list(dict.fromkeys(args[0]))
    if last == "is_in" and "value_set" in kw:
      return [x in kw["value_set"] for x in args[0]]
    if last == "invert":
      return [None if x is None else not x for x in args[0]]
    if last == "equal" and isinstance(args[0], list):
      ys = args[1] if isinstance(args[1], list) else [args[1]] * len(args[0])
      return [None if x is None or y is None else x == y
              for x, y in zip(args[0], ys)]
    return NotImplemented

  def expr_method(self, e, name, args, kw):
    if name == "is_null":
      return Expr(lambda r: at(e, r) is None)
    if name == "is_valid":
      return Expr(lambda r: at(e, r) is not None)
    if name == "invert":
      return Expr(lambda r: None if at(e, r) is None else not at(e, r))
    if name == "isin":
      return Expr(lambda r: at(e, r) in args[0])
    if name == "is_in":
      v = kw.get("value_set", args[0] if args else None)
      return Expr(lambda r: at(e, r) in v)
    raise Unknown("expression method " + name)

  def concat(self, ts):
    if not ts:
      raise Mismatch("concat_tables of no tables")
    if any(x.names != ts[0].names for x in ts):
      raise Unknown("concat_tables")
    return Table(ts[0].names, [[x for y in ts for x in y.cols[i]]
                               for i in range(len(ts[0].cols))], ts[0].schema)

  def opt(self, t, i, *names):
    a = arg(t, i, *names)
    return None if a is None else self(a)

  def arrow(self, t, last):
    if last in ("array", "chunked_array"):
      v = self.opt(t, 0, "obj", "arrays")
      ty = arg(t, 1, "type")
      if ty is not None and isinstance(v, list) and not isinstance(v, Typed):
        v = Typed(v)
        v.type = self(ty)
      return v
    if last == "field":
      return Field(self.opt(t, 0, "name"), self.opt(t, 1, "type"),
                   self.opt(t, 3, "metadata"))
    if last == "from_batches":
      return self.concat(self.opt(t, 0, "batches"))
    if last in ("schema", "struct"):
      v = self.opt(t, 0, "fields")
      if isinstance(v, dict):
        v = [list(x) for x in v.items()]
      fs = [x if isinstance(x, Field) else Field(x[0], x[1]) for x in v]
      return fs if last == "schema" else Obj("struct", fields=fs)
    if last == "from_arrays":
      n = tm.call_name(t)
      arrays = self.opt(t, 0, "arrays")
      if "StructArray" in n:
        fs = self.opt(t, 2, "fields")
        names = ([f[0] if isinstance(f, (list, tuple)) else f.name for f in fs]
                 if fs is not None else self.opt(t, 1, "names"))
        if names is None:
          raise Unknown("struct names")
        if len({len(x) for x in arrays}) > 1:
          raise Mismatch(f"struct of columns of {[len(x) for x in arrays]} rows")
        for f, x in zip(fs or [], arrays):
          # Types that are parameters of the model: those inferred from values,
          # which may all be missing, are others.
          if isinstance(f, Field) and str(f.type).startswith("T_") and getattr(
              x, "type", None) != f.type:
            raise Mismatch(f"an array of type {getattr(x, 'type', 'inferred')} "
                           f"for a field of type {f.type}")
        return [dict(zip(names, vs)) for vs in zip(*arrays)]
      schema = self.opt(t, 2, "schema")
      names = [f.name for f in schema] if schema is not None else \
          self.opt(t, 1, "names")
      return Table(names, arrays, schema)
    if last in ("from_pydict", "table"):
      d = self.opt(t, 0, "mapping", "data")
      if isinstance(d, Table):
        if last == "from_pydict":
          raise Mismatch("from_pydict of a table")
        return d
      schema = self.opt(t, 1, "schema")
      if isinstance(d, dict):
        if schema is not None:
          return Table([f.name for f in schema], [d[f.name] for f in schema],
                       schema)
        return Table(list(d), list(d.values()))
    if last == "from_pylist":
      d = self.opt(t, 0, "mapping")
      schema = self.opt(t, 1, "schema")
      names = [f.name for f in schema] if schema is not None else (
          list(d[0]) if d else [])
      return Table(names, [[r.get(n) for r in d] for n in names], schema)
    if last in ("concat_tables", "concat_arrays"):
      ts = self.opt(t, 0, "tables", "arrays")
      if last == "concat_arrays":
        return [x for y in ts for x in y]
      return self.concat(ts)
    if not t.args[1] and not t.args[2]:
      return last  # a type
    raise Unknown(tm.show(t, 3))


class Typed(list):
  """An array of a given type."""
  type = None


class Field:
  def __init__(self, name, type_, metadata=None, nullable=True):
    self.name, self.type, self.metadata = name, type_, metadata
    self.nullable = nullable


class Expr:
  """A filter expression: its value (True, False, None) on a row."""

  def __init__(self, fn, text=None):
    self.fn, self.text = fn, text

  def __str__(self):
    if self.text is None:
      raise Unknown("text of an expression")
    return self.text

  def __call__(self, row):
    return self.fn(row)

  def at(self, row):
    return self.fn(row)


def text(op, *vs):
  """The text of an expression: equal for expressions equal in form."""
  out = []
  for v in vs:
    if isinstance(v, Expr):
      if v.text is None:
        return None
      out.append(v.text)
    else:
      out.append(repr(v))
  return "(" + f" {op} ".join(out) + ")"


def at(x, row):
  return x.fn(row) if isinstance(x, Expr) else x


def kleene(op, vals):
  stop = op == "or"
  if any(v is not None and bool(v) == stop for v in vals):
    return stop
  return None if any(v is None for v in vals) else not stop


def lift_cmp(op, x, y):
  def fn(r):
    a, b = at(x, r), at(y, r)
    if a is None or b is None:
      return None
    try:
      return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b,
              "<=": lambda: a <= b}[op]()
    except TypeError:
      raise Unknown("comparison") from None
  return Expr(fn, text(op, x, y))


class BitMapObj(set):
  """A roaring bitmap."""

  def add_range(self, a, b):
    self.update(range(a, b))

  def remove_range(self, a, b):
    super().difference_update(range(a, b))

  def flip_inplace(self, a, b):
    super().symmetric_difference_update(range(a, b))

  def serialize(self):
    return ("bitmap",) + tuple(sorted(self))


class Grouped:
  """A table grouped by key columns."""

  def __init__(self, table, keys):
    self.table, self.keys = table, keys

  def aggregate(self, aggs):
    t = self.table
    groups = {}
    for i in range(t.num_rows):
      groups.setdefault(tuple(t.cols[t.index(k)][i] for k in self.keys),
                        []).append(i)
    names, cols = [], []
    for a in aggs:
      c, fn = a[0], a[1]
      v = [[t.cols[t.index(c)][i] for i in g] for g in groups.values()]
      f = {"list": lambda x: x, "sum": sum, "min": min, "max": max,
           "count": len, "first": lambda x: x[0],
           "one": lambda x: x[0], "last": lambda x: x[-1]}.get(fn)
      if f is None:
        raise Unknown("aggregation " + str(fn))
      names.append(f"{c}_{fn}")
      cols.append([f(x) for x in v])
    for j, k in enumerate(self.keys):
      names.append(k)
      cols.append([g[j] for g in groups])
    return Table(names, cols)


class DatasetObj:
  """A Parquet dataset: the rows of some tables matching a filter."""

  def __init__(self, tables, filt):
    self.tables, self.filt = tables, filt

  def read(self, ev, kw):
    t = ev.concat(self.tables) if self.tables else Table([], [])
    if self.filt is not None:
      t = t.pick([i for i, r in enumerate(t.rows()) if self.filt(r)])
    if kw.get("columns") is not None:
      t = t.select(kw["columns"])
    return t


def trace(ev, events):
  """Evaluates events in their order: yields each happening event; the loops it
  is in are bound in `ev` meanwhile."""

  def dead(e):
    for c in e.cond:
      try:
        if not ev(c):
          return True
      except Exception:  # pylint: disable=broad-except
        pass
    return False

  def go(evs, d):
    i = 0
    while i < len(evs):
      e = evs[i]
      if len(e.loops) <= d:
        if ev(tm.and_(*e.cond)):
          yield e
        i += 1
        continue
      n, it = e.loops[d]
      j = i
      info = getattr(e.loops[d], "info", None)
      while j < len(evs) and len(evs[j].loops) > d and evs[j].loops[d][
          0] == n and getattr(evs[j].loops[d], "info", None) is info:
        j += 1
      if all(dead(e) for e in evs[i:j]):
        i = j
        continue
      for _ in ev.iterate(it, n):
        yield from go(evs[i:j], d + 1)
        if info is not None and info.exits is not tm.FALSE and ev(info.exits):
          break
      i = j

  yield from go(list(events), 0)


def table_method(ev, t, name, args, kw, term):
  """A method of a table of the model."""
  def a(i, n, d=None):
    return args[i] if i < len(args) else kw.get(n, d)

  if name == "column":
    k = a(0, "i")
    return t.cols[k if isinstance(k, int) else t.index(k)]
  if name in ("combine_chunks", "unify_dictionaries", "to_table"):
    return t
  if name == "select":
    return t.select(a(0, "columns"))
  if name in ("drop", "drop_columns"):
    d = a(0, "columns")
    d = [d] if isinstance(d, str) else d
    return t.select([n for n in t.names if n not in d])
  if name == "rename_columns":
    ns = a(0, "names")
    if not isinstance(ns, list):
      raise Unknown("rename")
    return Table(ns, t.cols, [Field(n, f.type, f.metadata)
                              for n, f in zip(ns, t.fields())])
  if name in ("append_column", "add_column", "set_column"):
    k = 0 if name == "append_column" else 1
    i = len(t.names) if not k else a(0, "i")
    ct = term.args[1][k + 1] if len(term.args[1]) > k + 1 else dict(
        term.args[2])["column"]
    col = a(k + 1, "column")
    if ct.op in ("seq", "listv") and not (col and not isinstance(col[0], list)):
      col = [x for y in col for x in y]
    if name == "set_column":
      t = t.select([j for j in range(len(t.names)) if j != i])
    return t.with_column(i, a(k, "field_"), col)
  if name == "slice":
    o, n = a(0, "offset", 0), a(1, "length")
    if o is None:
      o = 0
    if o < 0 or (n is not None and n < 0):
      raise Mismatch("a slice with a negative bound")
    return t.pick(range(t.num_rows)[o:None if n is None else o + n])
  if name == "filter":
    m = a(0, "mask")
    m = a(0, "expression") if m is None else m
    if isinstance(m, bool):
      m = [m] * t.num_rows
    if callable(m):
      m = [m(r) for r in t.rows()]
    if not isinstance(m, list) or len(m) != t.num_rows:
      raise Unknown(f"mask of {m and len(m)} for {t.num_rows} rows")
    return t.pick([i for i, x in enumerate(m) if x])
  if name == "take":
    return t.pick(a(0, "indices"))
  if name == "sort_by":
    k = a(0, "sorting")
    k = [[k, "ascending"]] if isinstance(k, str) else k
    ix = list(range(t.num_rows))
    for c, o in reversed([list(x) for x in k]):
      ix.sort(key=lambda i, c=c: t.cols[t.index(c)][i], reverse=o != "ascending")
    return t.pick(ix)
  if name == "to_batches":
    n = a(0, "max_chunksize")
    n = n or max(t.num_rows, 1)
    return [t.pick(range(t.num_rows)[i:i + n]) for i in range(0, t.num_rows, n)]
  if name == "to_pylist":
    return t.rows()
  if name == "to_pydict":
    return dict(zip(t.names, t.cols))
  if name == "to_reader":
    return table_method(ev, t, "to_batches", args, kw, term)
  if name == "flatten":
    return t.flatten()
  if name == "group_by":
    k = a(0, "keys")
    return Grouped(t, [k] if isinstance(k, str) else k)
  if name == "itercolumns":
    return t.cols
  raise Unknown("table method " + name)
