"""Gated value-flow construction for the analysed program.

Walks the syntax trees of functions from a chosen entry, following calls into
the program, and records (1) which value every variable and access path holds,
as a term gated by the conditions under which it was assigned, and (2) the
sequence of effects (events) with their guards and enclosing loops. Every
statement is visited once per calling context (twice inside loops); paths are
joined with gates instead of being enumerated, and nothing is executed.
"""

import ast

from pyflow import terms as tm
from pyflow.loader import AnchorMissing, Program
from pyflow.terms import (EMPTY, FALSE, NONE, TRUE, T, and_, attr, cmp_, const,
                          ite, mk, mk_call, not_, or_, seq, truthy, unk)

MAX_DEPTH = 60
MAX_EVENTS = 400000

CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
       ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
       ast.NotIn: "not in"}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
       ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|",
       ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>",
       ast.MatMult: "@"}

# Parameter names of external callables, to equate positional and keyword use.
EXT_SIGS = {
    "pyarrow.parquet.read_table": ["source", "columns", "use_threads"],
    "pyarrow.parquet.ParquetWriter": ["where", "schema"],
    "pyarrow.parquet.ParquetDataset": ["path_or_paths", "filesystem"],
    "pyarrow.parquet.read_metadata": ["where"],
    "pyarrow.Table.from_arrays": ["arrays", "names", "schema"],
    "pyarrow.Table.from_pylist": ["mapping", "schema"],
    "pyarrow.Table.from_pydict": ["mapping", "schema"],
    "pyarrow.StructArray.from_arrays": ["arrays", "names", "fields"],
    "pyarrow.array": ["obj", "type"],
    "pyarrow.scalar": ["value", "type"],
    "pyarrow.field": ["name", "type", "nullable", "metadata"],
    "pyarrow.schema": ["fields", "metadata"],
    "pyarrow.struct": ["fields"],
    "pyarrow.list_": ["value_type", "list_size"],
    "pyarrow.table": ["data", "names", "schema"],
    "pyarrow.concat_tables": ["tables"],
    "numpy.arange": None,
    ".slice": ["offset", "length"],
    ".append_column": ["field_", "column"],
    ".filter": ["mask"],
    ".select": ["columns"],
    ".to_batches": ["max_chunksize"],
    ".join": ["right_table", "keys"],
    ".write_table": ["table"],
    ".iter_batches": None,
    ".move": ["src", "dest"],
    ".open_output_stream": ["path"],
    ".open_input_file": ["path"],
    ".open_input_stream": ["path"],
    ".create_dir": ["path"],
    ".get_file_info": ["paths_or_selector"],
    ".map_batches": ["fn"],
    "pyarrow.substrait.serialize_expressions": ["exprs", "names", "schema"],
    "array_record.python.array_record_module.ArrayRecordWriter":
        ["path", "options"],
    "array_record.python.array_record_module.ArrayRecordReader":
        ["path", "options"],
    "google.protobuf.text_format.Parse": ["text", "message"],
    "open": ["file", "mode"],
}

# External callables giving a different value on every call.
IMPURE = {
    "uuid.uuid4", "uuid.uuid1", "time.time", "random.random",
    "time.time_ns", "random.getrandbits", "random.randint", "random.randrange",
    "os.urandom", "secrets.token_hex", "secrets.token_urlsafe",
    "secrets.token_bytes", "secrets.randbits",
    "datetime.datetime.now", ".open_output_stream", ".open_input_file",
    ".open_input_stream", "google.protobuf.text_format.Parse", "open",
    ".get_file_info", ".readall", "pyarrow.fs.LocalFileSystem",
    "cloudpickle.load",
}

MUTATORS = {"append", "extend", "add", "remove", "insert", "clear", "update",
            "pop", "sort", "setdefault", "discard", "popitem", "reverse",
            "appendleft", "difference_update", "intersection_update"}

# Methods changing an external object in place.
EXT_MUTATORS = {"add_range", "difference_update", "update", "add", "remove",
                "discard", "intersection_update", "GetCurrentTime", "FromSeconds",
                "flip_inplace", "remove_range", "symmetric_difference_update",
                "ParseFromString", "MergeFromString"}


def uniq_entries(c):
  """The entries of the iteration over a set of the elements of a sequence."""
  ents = c.args[0] if c.op == "seq" else None
  if ents is not None:
    if all(e[0] == "i" and e[1] is TRUE and e[2].op == "const" for e in ents):
      return tuple({(type(e[2].args[0]), e[2].args[0]): e for e in ents}.values())
    if len(ents) < 2 and all(e[0] == "i" or e[0] == "splice" and (
        e[2].op in ("uniq", "keys") or e[2].op == "call" and
        tm.call_name(e[2]) == "range") for e in ents):
      return ents
    if all(e[0] == "i" and e[2].op == "enum" for e in ents) and len(
        {e[2].uid for e in ents}) == len(ents):
      return ents
  return (("splice", TRUE, mk("uniq", c)),)


class Event:
  """An effect or call, with the conditions and loops it happens under."""
  __slots__ = ("kind", "name", "args", "kwargs", "recv", "result", "cond",
               "loops", "stack", "node", "module", "i", "tries", "raw", "extra")

  def __repr__(self):
    return f"<{self.i} {self.kind} {self.name} {self.where}>"

  @property
  def where(self):
    return f"{self.module.path}:{getattr(self.node, 'lineno', 0)}"

  @property
  def guard(self):
    return and_(*self.cond)

  def arg(self, pos, name=None):
    if isinstance(pos, str):
      return self.kwargs.get(pos)
    if pos < len(self.args):
      return self.args[pos]
    return self.kwargs.get(name) if name else None


class State:
  """Values of locations at a program point, and the condition to be there."""
  __slots__ = ("store", "cond", "live")

  def __init__(self, store=None, cond=(), live=True):
    self.store, self.cond, self.live = store if store is not None else {}, cond, live

  def fork(self, c=None):
    s = State(dict(self.store), self.cond, self.live)
    if c is not None:
      s.add(c)
    return s

  def add(self, c):
    if c is TRUE:
      return
    if c is FALSE:
      self.live = False
      return
    cur = and_(*self.cond) if self.cond else TRUE
    d = tm.decide(c, cur)
    if d is True:
      return
    if d is False:
      self.live = False
      return
    self.cond = self.cond + (c,)


class LoopRef(tuple):
  """The number of the elements of a loop, and what it goes over; two loops may go
  over the same elements."""

  def __new__(cls, info):
    r = super().__new__(cls, (info.n, info.it))
    r.info = info
    return r


class Frame:
  """A function activation."""
  __slots__ = ("id", "fn", "cls", "self_", "returns", "nonlocals", "parent",
               "base", "loops", "module", "ranges")

  def __init__(self, fid, fn, module, parent=None, cls=None):
    self.id, self.fn, self.module, self.parent, self.cls = (fid, fn, module,
                                                            parent, cls)
    self.returns, self.nonlocals, self.base, self.loops = [], {}, (), []
    self.self_ = None


class LoopInfo:
  """What is known about one analysed loop."""

  def __init__(self, n, it):
    self.n, self.it, self.cond, self.brk = n, it, TRUE, FALSE
    self.exits = FALSE  # when the loop is left early
    self.init, self.update = {}, {}
    self.node, self.module, self.stack = None, None, ()


def rel(cond, base):
  """The part of a condition added after `base`."""
  k = 0
  while k < len(base) and k < len(cond) and base[k] is cond[k]:
    k += 1
  return and_(*cond[k:]) if len(cond) > k else TRUE


class Interp:
  """The analysis of one entry point (a unit)."""

  def __init__(self, prog: Program, cuts=(), no_inline=()):
    self.p = prog
    self.events = []
    self.cuts = dict(cuts) if isinstance(cuts, dict) else {c: None for c in cuts}
    self.no_inline = set(no_inline)
    self.gstore = {}
    # Known elements of some iterables, and choices of outcomes (path by path).
    self.max_recursion = 0   # recursive calls followed
    self.known_iter = {}
    self.parsed = {}     # message type -> value that parsing yields
    self.oracle = None
    self.value_hook = None
    self.iter_hook = None  # Values of iterables that a rule models.
    self.genv = {}
    self.state = State()
    self.frames = []
    self.loops = {}
    self.loop_stack = []
    self.try_stack = []
    self.frame_defs = {}
    self.unknowns = []
    self.functions = set()
    self._clsattr = {}
    self._quiet = 0
    self._types = {}
    self.raises = []
    self.loc_types = {}

  # ------------------------------------------------------------- utilities

  def unk(self, node, why):
    m = self.frames[-1].module if self.frames else None
    w = f"{why} at {m.path if m else '?'}:{getattr(node, 'lineno', 0)}"
    self.unknowns.append(w)
    return unk(w)

  def emit(self, kind, name, node, args=(), kwargs=None, recv=None, result=None,
           raw=None, extra=None):
    if not self.state.live:
      return None
    e = Event()
    e.kind, e.name, e.args, e.kwargs = kind, name, list(args), dict(kwargs or {})
    e.recv, e.result, e.cond = recv, result, self.state.cond
    e.loops = tuple(self.loop_stack)
    e.stack = tuple(f.fn.qual if f.fn else "" for f in self.frames)
    e.node, e.module = node, (self.frames[-1].module if self.frames else None)
    e.tries = tuple(self.try_stack)
    e.raw, e.extra = raw, extra
    e.i = len(self.events)
    if len(self.events) < MAX_EVENTS:
      self.events.append(e)
    return e

  def cls(self, qual):
    c = self.p.classes.get(qual)
    if c is None:
      raise AnchorMissing(f"class {qual} not found")
    return c

  def method(self, qual, name):
    c = self.cls(qual)
    m, _ = self.p.find_method(c, name)
    if m is None:
      raise AnchorMissing(f"method {qual}.{name} not found")
    return m

  def fn(self, qual):
    mod, name = qual.rsplit(".", 1)
    r = self.p.member(mod, name)
    if r is None or r[0] != "fn":
      raise AnchorMissing(f"function {qual} not found")
    return r[1]

  # ------------------------------------------------------------------ types

  def type_of_ann(self, module, node):
    if node is None:
      return None
    if isinstance(node, ast.Constant):
      if isinstance(node.value, str):
        try:
          return self.type_of_ann(module, ast.parse(node.value, mode="eval").body)
        except SyntaxError:
          return None
      return None
    if isinstance(node, ast.Subscript):
      d = self.p.dotted(module, node.value).split(".")[-1]
      sl = node.slice
      elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
      if d in ("Optional",):
        return self.type_of_ann(module, elts[0])
      if d in ("List", "list", "Iterable", "Iterator", "Sequence", "Collection",
               "Set", "set"):
        k = "set" if d in ("Set", "set") else "list"
        return (k, self.type_of_ann(module, elts[0]))
      if d in ("Dict", "dict") and len(elts) == 2:
        return ("dict", self.type_of_ann(module, elts[0]),
                self.type_of_ann(module, elts[1]))
      if d in ("Tuple", "tuple"):
        return ("tuple",) + tuple(self.type_of_ann(module, e) for e in elts)
      if d == "Union":
        ts = [self.type_of_ann(module, e) for e in elts]
        ts = [t for t in ts if t is not None]
        return ts[0] if len(elts) == 1 and ts else None
      return None
    if isinstance(node, (ast.Name, ast.Attribute)):
      c = self.p.resolve_cls_expr(module, node)
      if c is not None:
        return ("inst", c.qual)
      d = self.p.dotted(module, node)
      pt = proto_name(d)
      if pt:
        return ("proto", pt)
      if isinstance(node, ast.Name):
        r = self.p.resolve_global(module, node.id)
        if r and r[0] == "value":
          return self.type_of_ann(r[1], r[1].assigns[r[2]])
        if node.id in ("str", "int", "bool", "bytes", "float"):
          return ("scalar", node.id)
        # Names imported for type checking only.
        for c in self.p.classes.values():
          if c.node.name == node.id and c.outer is None and r is None:
            return ("inst", c.qual)
      if d.startswith("space.") and not d.endswith("_pb2"):
        for c in self.p.classes.values():
          if c.qual.split(".")[-1] == d.split(".")[-1] and c.outer is None:
            return ("inst", c.qual)
      return ("ext", d)
    return None

  def typeof(self, t):
    if t.uid in self._types:
      return self._types[t.uid]
    self._types[t.uid] = None
    r = self._typeof(t)
    self._types[t.uid] = r
    return r

  def _typeof(self, t):
    op = t.op
    if op == "sym":
      return t.args[1]
    if op == "obj":
      kind = t.args[1]
      if kind.startswith("proto:"):
        return ("proto", kind[6:])
      if kind in ("list", "dict", "set"):
        return (kind, None) if kind != "dict" else (kind, None, None)
      if kind.startswith("ext:"):
        return ("ext", kind[4:])
      return ("inst", kind)
    if op in ("ver", "opaque"):
      return self.typeof(t.args[0]) if op == "ver" else t.args[-1]
    if op == "ite":
      return self.typeof(t.args[1]) or self.typeof(t.args[2])
    if op in ("elem", "first", "last"):
      src = t.args[0] if op == "elem" else t.args[-1]
      if op == "elem" and src.op == "uniq":
        for e in src.args[0].args[0] if src.args[0].op == "seq" else ():
          if e[0] == "i":
            return self.typeof(e[2])
          if e[0] == "splice":
            return self.typeof(mk("elem", e[2], t.args[1]))
        return None
      ty = self.typeof(src)
      if op != "elem":
        return ty
      if ty and ty[0] in ("list", "set", "rep"):
        return ty[1]
      if ty and ty[0] == "dict" and len(ty) > 1:
        return ty[1]
      if ty and ty[0] == "map":
        return ty[1]
      return None
    if op == "item":
      ty = self.typeof(t.args[0])
      if ty and ty[0] in ("list", "rep"):
        return ty[1]
      if ty and ty[0] in ("dict", "map"):
        return ty[2]
      if ty and ty[0] == "tuple" and t.args[1].op == "const":
        k = t.args[1].args[0]
        return ty[1 + k] if isinstance(k, int) and k + 1 < len(ty) else None
      return None
    if op == "mu":
      return self.loc_types.get((t.args[1], t.args[2]))
    if op == "attr":
      ty = self.typeof(t.args[0])
      if ty and ty[0] == "proto":
        return self.p.proto_field(ty[1], t.args[1])
      if ty and ty[0] == "inst":
        return self.field_type(ty[1], t.args[1])
      return None
    if op == "read":
      return t.args[-1]
    if op == "enum":
      return None
    if op == "call" and len(t.args) > 3:
      return t.args[3]
    if op == "fresh":
      c = t.args[1]
      if c.op == "call" and tm.call_name(c) == "google.protobuf.text_format.Parse":
        m = dict(c.args[2]).get("message")
        if m is not None:
          return self.typeof(m)
      return self.typeof(c)
    if op == "msg":
      return ("proto", t.args[0]) if t.args[0] else None
    if op in ("seq",):
      return ("list", None)
    if op == "fold":
      return self.typeof(t.args[2])
    return None

  def field_type(self, qual, name):
    key = (qual, name)
    if key in self._clsattr:
      return self._clsattr[key]
    self._clsattr[key] = None
    r = None
    for c in self.p.mro(self.p.classes[qual]):
      if name in c.annots:
        r = self.type_of_ann(c.module, c.annots[name])
      else:
        for m in c.methods.values():
          r = self._init_field_type(c, m, name)
          if r:
            break
      if r:
        break
      if name in c.methods:
        f = c.methods[name]
        if any(self.p.dotted(c.module, d) == "property" for d in f.decorators):
          r = self.type_of_ann(c.module, f.node.returns)
          break
    self._clsattr[key] = r
    return r

  def _init_field_type(self, c, m, name):
    params = {a.arg: a.annotation for a in m.node.args.args}
    for s in ast.walk(m.node):
      tgt, val, ann = None, None, None
      if isinstance(s, ast.AnnAssign):
        tgt, val, ann = s.target, s.value, s.annotation
      elif isinstance(s, ast.Assign) and len(s.targets) == 1:
        tgt, val = s.targets[0], s.value
      if not (isinstance(tgt, ast.Attribute) and tgt.attr == name and
              isinstance(tgt.value, ast.Name) and tgt.value.id == "self"):
        continue
      if ann is not None:
        t = self.type_of_ann(c.module, ann)
        if t:
          return t
      t = self._expr_type(c, params, val)
      if t:
        return t
    return None

  def _expr_type(self, c, params, val):
    if isinstance(val, ast.BoolOp):
      for v in val.values:
        t = self._expr_type(c, params, v)
        if t:
          return t
    if isinstance(val, ast.Name) and val.id in params:
      return self.type_of_ann(c.module, params[val.id])
    if isinstance(val, ast.Call):
      k = self.p.resolve_cls_expr(c.module, val.func)
      if k is not None:
        return ("inst", k.qual)
      pt = proto_name(self.p.dotted(c.module, val.func))
      if pt:
        return ("proto", pt)
      if isinstance(val.func, ast.Name):
        r = self.p.resolve_global(c.module, val.func.id)
        if r and r[0] == "fn":
          return self.type_of_ann(r[1].module, r[1].node.returns)
      if isinstance(val.func, ast.Attribute):
        k = self.p.resolve_cls_expr(c.module, val.func.value)
        if k is not None:
          m, owner = self.p.find_method(k, val.func.attr)
          if m is not None:
            return self.type_of_ann(owner.module, m.node.returns)
    if isinstance(val, ast.Attribute) and isinstance(val.value, ast.Name):
      if val.value.id in params:
        t = self.type_of_ann(c.module, params[val.value.id])
        if t and t[0] == "inst":
          return self.field_type(t[1], val.attr)
      elif val.value.id == "self":
        return self.field_type(c.qual, val.attr)
    if isinstance(val, ast.Attribute) and isinstance(val.value, ast.Attribute):
      t = self._expr_type(c, params, val.value)
      if t and t[0] == "inst":
        return self.field_type(t[1], val.attr)
      if t and t[0] == "proto":
        return self.p.proto_field(t[1], val.attr)
    return None

  # --------------------------------------------------------------- location

  def root(self, t):
    while t.op in ("attr", "item"):
      t = t.args[0]
    return t

  def load(self, key):
    s = self.state.store
    if key in s:
      return s[key]
    if key in self.gstore:
      return self.gstore[key]
    return self.initial(key)

  def simp(self, v):
    """Chooses conditional values under the current condition."""
    if v.op == "ite" and self.state.cond:
      return tm.assume(v, and_(*self.state.cond))
    return v

  def initial(self, key):
    """Value of a location never written."""
    if isinstance(key, T):
      return self.initial_loc(key)
    kind = key[0]
    if kind == "v":
      return None
    loc = key[1]
    if kind in ("c", "d"):
      src = self.copy_source(loc)
      if src is not None:
        return self.by_source(src, lambda x: EMPTY if x is NONE else seq((
            ("splice", TRUE, x if kind == "c" else mk("items", x)),)))
      if self.is_fresh(loc):
        return EMPTY
      return seq((("splice", TRUE, loc if kind == "c" else mk("items", loc)),))
    if kind == "h":
      src = self.copy_source(loc)
      if src is not None:
        return self.by_source(src, lambda x: FALSE if x is NONE else
                              mk("has", x))
      if self.is_fresh(loc):
        return FALSE
      return mk("has", loc)
    if kind == "o":
      return EMPTY
    if kind == "copy":
      src = self.copy_source(loc)
      if src is not None:
        return src
      return NONE if self.is_fresh(loc) else loc
    return None

  def is_fresh(self, loc):
    r = self.root(loc)
    return r.op == "obj" and not r.args[1].startswith("ext:")

  def along(self, v, path):
    if v is NONE:
      return NONE
    if v.op == "ite":
      return ite(v.args[0], self.along(v.args[1], path),
                 self.along(v.args[2], path))
    for op, a in reversed(path):
      v = attr(v, a) if op == "attr" else tm.item(v, a)
    return v

  def by_source(self, src, fn):
    """fn of each alternative of what was copied."""
    if src.op == "ite":
      c, a, b = src.args
      return self.merge_val(c, self.by_source(a, fn), self.by_source(b, fn))
    return fn(src)

  def copy_source(self, loc):
    """Source location of the nearest copied ancestor of `loc`, rebased; None if
    nothing was copied; NONE if a copied source was itself fresh."""
    path, x = [], loc
    while True:
      k = ("copy", x)
      v = self.state.store.get(k, self.gstore.get(k))
      if v is not None:
        if v is NONE:
          return NONE
        return self.along(v, path)
      if x.op in ("attr", "item"):
        path.append((x.op, x.args[1]))
        x = x.args[0]
      else:
        return None

  def initial_loc(self, loc):
    src = self.copy_source(loc)
    ty = self.typeof(loc)
    if ty is not None and ty[0] in ("proto", "rep", "map"):
      return loc
    if src is not None and src is not NONE:
      if src.op == "ite":
        return self.by_source(src, lambda x: self.default(loc, ty) if x is NONE
                              else x)
      return src
    return self.default(loc, ty)

  def default(self, loc, ty):
    if self.is_fresh(loc) and loc.op == "attr":
      ot = self.typeof(loc.args[0])
      if ot and ot[0] == "proto" and ot[1] in self.p.protos and ty is not None:
        if ty[1] in ("string", "bytes"):
          return const("")
        if ty[1] == "bool":
          return FALSE
        return tm.ZERO
    return loc

  def store(self, key, v):
    self.state.store[key] = v

  def under(self, key, prefix):
    """True if location key is prefix or below it."""
    loc = key if isinstance(key, T) else (key[1] if key[0] != "v" else None)
    while loc is not None:
      if loc is prefix:
        return True
      if loc.op in ("attr", "item"):
        loc = loc.args[0]
      else:
        return False
    return False

  def rebase(self, loc, old, new):
    if loc is old:
      return new
    b = self.rebase(loc.args[0], old, new)
    return attr(b, loc.args[1]) if loc.op == "attr" else mk(
        "item", b, loc.args[1])

  def mark_has(self, loc):
    x = loc
    while x.op in ("attr", "item"):
      if x.op == "attr":
        self.store(("h", x), TRUE)
      x = x.args[0]

  def clear_under(self, loc):
    s = self.state.store
    for k in [k for k in s if (isinstance(k, T) or k[0] != "v") and
              self.under(k, loc)]:
      del s[k]

  def copy_into(self, dst, src, node=None):
    """Deep copy of a message value into a location."""
    src = self.simp(src)
    if src.op == "ite":
      c, a, b = src.args
      self.branch(c, lambda: self.copy_into(dst, a), lambda: self.copy_into(dst, b))
      return
    entries = []
    for k, v in list(self.state.store.items()):
      if isinstance(k, tuple) and k[0] == "v":
        continue
      if self.under(k, src):
        entries.append((k, v))
    inherited = self.copy_source(src)
    self.clear_under(dst)
    if inherited is not None:
      base = inherited
    elif self.is_fresh(src):
      base = NONE
    else:
      base = src
    self.state.store[("copy", dst)] = base
    for k, v in entries:
      if isinstance(k, T):
        if k is not src:
          self.state.store[self.rebase(k, src, dst)] = v
      elif k[0] != "copy" or k[1] is not src:
        self.state.store[(k[0], self.rebase(k[1], src, dst))] = v
    self.mark_has(dst)

  def new_obj(self, kind):
    return mk("obj", tm.fresh_id(), kind)

  def new_list(self, content=EMPTY, kind="list"):
    o = self.new_obj(kind)
    self.store(("c", o), content)
    return o

  def new_dict(self, pairs=()):
    o = self.new_obj("dict")
    self.store(("d", o), EMPTY)
    for k, v in pairs:
      self.set_item(o, k, v)
    return o

  def is_map(self, t):
    ty = self.typeof(t)
    return ty is not None and ty[0] in ("dict", "map")

  def is_list(self, t):
    if t.op == "seq":
      return False
    if t.op == "obj":
      return t.args[1] in ("list", "set")
    ty = self.typeof(t)
    return ty is not None and ty[0] in ("list", "rep", "set") and \
        t.op in ("attr", "item", "sym", "mu", "elem", "obj")

  def content(self, t):
    """The elements of a container value, as a sequence term."""
    t = self.simp(t)
    if t.op == "seq":
      return t
    if t.op == "setv":
      return t.args[0]
    if t.op == "ite":
      c, a, b = t.args
      if a is NONE:
        return self.content(b)
      if b is NONE:
        return self.content(a)
      return self.merge_val(c, self.content(a), self.content(b))
    if t.op == "obj" and t.args[1] == "dict":
      return self.map_view(t, "keys")
    if t.op == "obj" and t.args[1] not in ("list", "set"):
      return seq((("splice", TRUE, t),))
    if t.op == "obj" or t.op in ("attr", "item", "mu", "sym"):
      if self.is_map(t):
        return self.map_view(t, "keys")
      return self.load(("c", t))
    return seq((("splice", TRUE, t),))

  def map_view(self, t, name):
    """Keys, values or items of a dictionary."""
    pairs = self.load(("d", t))
    if pairs.op != "seq" or not self.distinct_keys(pairs):
      # Later items replace those of the same key.
      return seq((("splice", TRUE, mk(name, mk("dictv", self.freeze(pairs)))),))
    if name == "items":
      return pairs
    return self.map_keys(pairs) if name == "keys" else self.map_values(pairs)

  def distinct_keys(self, pairs):
    """Whether no two items of a dictionary have the same key. (Single items are
    put where the former item of the key was.)"""
    if pairs.op != "seq":
      return True
    many = [e for e in pairs.args[0] if e[0] != "i"]
    if not many:
      return True
    if any(e[0] == "splice" and e[2].op not in ("items", "mu") for e in many):
      return False
    for e in many:
      if e[0] == "each":
        if len(e[4]) != 1 or e[4][0][0] != "i":
          return False
        kv = e[4][0][2]
        k = tm.item(kv, const(0))
        it, n = e[1], e[2]
        own = self.own_key(k, n)
        if not own:
          return False
    return len(pairs.args[0]) == 1

  def own_key(self, k, n):
    """Elements of loop n have distinct values of k. (Names and IDs of fields are
    distinct.)"""
    named = False
    while True:
      if k.op == "idx":
        return k.args[1] == n
      if k.op == "elem":
        it = k.args[0]
        return k.args[1] == n and (
            named or it.op in ("keys", "uniq", "setv") or tm.range_len(
                it) is not None or self.is_map(it))
      if k.op == "attr" and k.args[1] in ("name", "field_id"):
        k, named = k.args[0], True
      elif k.op == "item" and k.args[1] is tm.ZERO:
        k, named = k.args[0], True
      elif k.op == "item" and not self.mentions(k.args[0], n):
        k = k.args[1]
      else:
        return False

  def map_keys(self, pairs):
    return self.map_seq(pairs, lambda p: tm.item(p, const(0)),
                        lambda t: mk("keys", t.args[0]) if t.op == "items" else t)

  def map_values(self, pairs):
    return self.map_seq(pairs, lambda p: tm.item(p, const(1)),
                        lambda t: mk("values", t.args[0] if t.op == "items" else
                                     mk("dictv", seq((("splice", TRUE, t),)))))

  def map_seq(self, s, f, splice):
    def go(ents):
      out = []
      for e in ents:
        if e[0] == "i":
          out.append(("i", e[1], f(e[2])))
        elif e[0] == "splice":
          out.append(("splice", e[1], splice(e[2])))
        else:
          out.append(("each", e[1], e[2], e[3], go(e[4])))
      return tuple(out)

    return seq(go(s.args[0]))

  def freeze(self, t, depth=0):
    """A snapshot of the value, with containers and messages by content."""
    if depth > 12:
      return t
    top = depth == 0
    if top:
      # (a nested use by a call made while freezing starts anew)
      save = getattr(self, "_frozen", None)
      self._frozen = ({}, self.dirty_locs())
    try:
      return self.freeze_in(t, depth)
    finally:
      if top:
        self._frozen = save

  def dirty_locs(self):
    """The places below which something was stored."""
    below = {}
    for k in self.state.store:
      if not isinstance(k, T) and k[0] == "v":
        continue
      loc = k if isinstance(k, T) else k[1]
      while loc is not None:
        below.setdefault(loc.uid, []).append(k)
        loc = loc.args[0] if loc.op in ("attr", "item") else None
    return below

  def freeze_in(self, t, depth):
    memo = self._frozen[0].setdefault(depth > 11, {})

    def go(x):
      if x.op in ("mu", "lvar", "lcont"):
        return x
      if x.op == "obj":
        kind = x.args[1]
        if kind in ("list", "set", "dict"):
          return self.freeze_container(x, depth)
        if kind.startswith("proto:"):
          return self.freeze_proto(x, depth)
        if kind.startswith("ext:"):
          ops = self.load(("o", x))
          ctor = self.load(("ctor", x)) or x
          return ctor if ops is EMPTY else mk("extv", ctor, ops)
        return x
      if x.op in ("attr", "item"):
        r = self.root(x)
        ty = self.typeof(x)
        if ty and ty[0] == "proto" and (r.op == "obj" or self.dirty(x)):
          return self.freeze_proto(x, depth)
        if ty and ty[0] == "rep":
          c = self.content(x)
          return self.unsplice(c, x)
        if ty and ty[0] == "map" and r.op == "obj":
          return self.freeze_container(x, depth)
      return None

    return tm.rewrite(t, go, memo)

  def unsplice(self, c, orig):
    if c.op == "seq" and len(c.args[0]) == 1 and c.args[0][0][0] == "splice" \
        and c.args[0][0][1] is TRUE:
      return c.args[0][0][2]
    return c

  def dirty(self, loc):
    fz = getattr(self, "_frozen", None)
    if fz is not None:
      return loc.uid in fz[1]
    return any((isinstance(k, T) or k[0] not in ("v",)) and self.under(k, loc)
               for k in self.state.store)

  def freeze_container(self, x, depth):
    if x.op == "obj" and x.args[1] == "dict" or self.is_map(x):
      c = self.freeze(self.load(("d", x)), depth + 1)
      return mk("dictv", c)
    c = self.freeze(self.load(("c", x)), depth + 1)
    if x.op == "obj" and x.args[1] == "set":
      return mk("setv", c)
    return self.unsplice(c, x)

  def freeze_proto(self, x, depth):
    src = self.copy_source(x)
    fields = {}
    for k in self._frozen[1].get(x.uid, ()):
      v = self.state.store.get(k)
      loc = k if isinstance(k, T) else (
          k[1] if k[0] in ("c", "d", "copy") else None)
      if v is None or loc is None or loc is x:
        continue
      path, y = [], loc
      while y is not x:
        path.append(("." + y.args[1]) if y.op == "attr" else y.args[1])
        y = y.args[0]
      name = tuple(reversed(path))
      if isinstance(k, T):
        ty = self.typeof(v)
        if ty and ty[0] in ("proto",) and v is loc:
          continue
        fields[name] = self.freeze(v, depth + 1)
      elif k[0] == "copy":
        fields[name + ("=",)] = v
      else:
        fields[name] = self.freeze(v, depth + 1)
    ty = self.typeof(x)
    return mk("msg", ty[1] if ty else None, tuple(sorted(
        fields.items(), key=lambda kv: [
            y if isinstance(y, str) else f"[{y.uid}" for y in kv[0]])), src)

  # --------------------------------------------------------------- branching

  def merge_val(self, c, a, b):
    if a is b or a is None:
      return b if a is None else a
    if b is None:
      return a
    if a.op == "seq" and b.op == "seq":
      ea, eb = a.args[0], b.args[0]
      if len(ea) == len(eb) and all(
          x[0] == "i" and x[1] is TRUE for x in ea + eb):
        return seq(tuple(("i", TRUE, ite(c, x[2], y[2]))
                         for x, y in zip(ea, eb)))
      k = 0
      while k < len(ea) and k < len(eb) and ea[k] == eb[k]:
        k += 1
      nc = not_(c)
      return seq(ea[:k] + tuple(guard_entry(x, c) for x in ea[k:]) +
                 tuple(guard_entry(x, nc) for x in eb[k:]))
    return ite(c, a, b)

  def merge(self, flows, base):
    """Joins flows [(state)], whose conditions extend `base`."""
    flows = [f for f in flows if f.live]
    if not flows:
      return State({}, base, False)
    if len(flows) == 1:
      return flows[0]
    out = flows[-1]
    store, total = out.store, rel(out.cond, base)
    for f in reversed(flows[:-1]):
      c = rel(f.cond, base)
      keys = set(f.store) | set(store)
      new = {}
      for k in keys:
        a, b = f.store.get(k), store.get(k)
        if a is b:
          new[k] = a
          continue
        if a is None or b is None:
          if isinstance(k, tuple) and k[0] == "ctor":
            new[k] = a or b
            continue
          d = self.gstore.get(k)
          if d is None:
            save = self.state
            self.state = f if a is None else State(store, base)
            d = self.initial(k)
            self.state = save
          a, b = a if a is not None else d, b if b is not None else d
        new[k] = self.merge_val(c, a, b)
      store = new
      total = or_(c, total)
    st = State(store, base, True)
    if total is not TRUE:
      st.add(total)
    return st

  def branch(self, c, then, other=None):
    """Runs `then` under c and `other` under not c, and joins. The callables may
    return a value, which is joined too."""
    base = self.state.cond
    d = tm.decide(c, and_(*base)) if base else (
        c.args[0] if c.op == "const" else None)
    if c.op == "const":
      d = bool(c.args[0])
    if d is None and self.oracle is not None and not self.loop_stack:
      d = self.oracle(c)
      if d is not None:
        self.state.add(c if d else not_(c))
    if d is True:
      return then()
    if d is False:
      return other() if other else None
    s0 = self.state
    s1, s2 = s0.fork(c), s0.fork(not_(c))
    self.state = s1
    v1 = then() if s1.live else None
    s1 = self.state
    self.state = s2
    v2 = (other() if other else None) if s2.live else None
    s2 = self.state
    if not s1.live:
      self.state = s2
      return v2
    if not s2.live:
      self.state = s1
      return v1
    g = rel(s1.cond, base)
    self.state = self.merge([s1, s2], base)
    if v1 is None and v2 is None:
      return None
    v1 = NONE if v1 is None else v1
    v2 = NONE if v2 is None else v2
    return self.merge_val(g, v1, v2)

  def cases(self, v, fn):
    """Applies fn to each alternative of a conditional value."""
    v = self.simp(v)
    if v.op == "ite":
      c, a, b = v.args
      return self.branch(c, lambda: self.cases(a, fn), lambda: self.cases(b, fn))
    return fn(v)

  # -------------------------------------------------------------- statements

  def block(self, stmts):
    for s in stmts:
      if not self.state.live:
        return
      self.stmt(s)

  def stmt(self, s):
    m = getattr(self, "s_" + type(s).__name__, None)
    if m is None:
      self.unk(s, f"statement {type(s).__name__}")
      return
    m(s)

  def s_Pass(self, s):
    pass

  s_Import = s_ImportFrom = None

  def s_Expr(self, s):
    self.ev(s.value)

  def s_Import(self, s):  # pylint: disable=function-redefined
    for a in s.names:
      r = self.p.module_ref(a.name if a.asname else a.name.split(".")[0])
      self.set_var(a.asname or a.name.split(".")[0], self.ref_term(r))

  def s_ImportFrom(self, s):  # pylint: disable=function-redefined
    for a in s.names:
      self.set_var(a.asname or a.name, self.ref_term(
          self.p.member(s.module, a.name)))

  def s_Return(self, s):
    v = self.ev(s.value) if s.value is not None else NONE
    if not self.state.live:
      return
    f = self.frames[-1]
    if f.fn is not None and f.fn.is_gen:
      v = NONE
    f.returns.append((self.state, v))
    self.state = State({}, self.state.cond, False)

  def s_If(self, s):
    c = self.truth(self.ev(s.test))
    self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

  def s_Assert(self, s):
    c = self.truth(self.ev(s.test))
    base = self.state
    bad = base.fork(not_(c))
    if bad.live:
      self.state = bad
      self.emit("raise", "AssertionError", s, extra="assert")
      self.on_raise("AssertionError", bad)
      self.state = base
    self.state.add(c)

  def fails(self, name, node):
    """An operation that raises an exception of Python."""
    self.emit("raise", name, node, args=[NONE])
    self.on_raise(name, self.state)
    self.state = State({}, self.state.cond, False)
    return NONE

  def s_Raise(self, s):
    name, t = "", NONE
    if s.exc is not None:
      e = s.exc
      if isinstance(e, ast.Call):
        name = self.p.dotted(self.frames[-1].module, e.func)
        for a in e.args:
          t = self.ev(a)
      else:
        t = self.ev(e)
        name = self.p.dotted(self.frames[-1].module, e)
        ctor = t if t.op in ("cls",) else None
        if ctor is not None:
          name = ctor.args[0]
        elif t.op == "obj":
          name = t.args[1]
    self.emit("raise", name, s, args=[t])
    self.on_raise(name, self.state)
    self.state = State({}, self.state.cond, False)

  def on_raise(self, name, state):
    for rec in reversed(self.try_recs()):
      rec.append((name, state.fork()))
      return

  def try_recs(self):
    return [t[1] for t in self._tries] if hasattr(self, "_tries") else []

  def s_Try(self, s):
    tid = tm.fresh_id()
    if not hasattr(self, "_tries"):
      self._tries = []
    base = self.state.cond
    before = self.state.fork()
    recs = []
    names = []
    for h in s.handlers:
      if h.type is None:
        names.append("*")
      elif isinstance(h.type, ast.Tuple):
        names.extend(self.p.dotted(self.frames[-1].module, e)
                     for e in h.type.elts)
      else:
        names.append(self.p.dotted(self.frames[-1].module, h.type))
    self.try_stack.append((tid, tuple(names)))
    self._tries.append((tid, recs))
    nret = len(self.frames[-1].returns)
    try:
      self.block(s.body)
    finally:
      self.try_stack.pop()
      self._tries.pop()
    # A return from the body means that nothing was caught.
    for h in s.handlers:
      hn = []
      if h.type is not None:
        hn = [self.p.dotted(self.frames[-1].module, e) for e in (
            h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
      for st, _ in self.frames[-1].returns[nret:]:
        if st.live:
          st.add(not_(mk("exc", tid, ",".join(sorted(hn)))))
    if self.state.live:
      self.block(s.orelse)
    flows = [self.state]
    for h in s.handlers:
      hn = []
      if h.type is not None:
        hn = [self.p.dotted(self.frames[-1].module, e) for e in (
            h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
      exc = mk("exc", tid, ",".join(sorted(hn)))
      st = before.fork(exc)
      self.state = st
      if h.name:
        self.set_var(h.name, mk("excval", tid, ",".join(sorted(hn))))
      # Explicit raises the handler cannot catch propagate to outer handlers.
      self.block(h.body)
      flows.append(self.state)
    for name, st in recs:
      if not any(self.catches(n, name) for n in names):
        for rec in reversed(self.try_recs()):
          rec.append((name, st))
          break
    if len(flows) > 1:
      # The normal flow excludes the handlers' conditions.
      normal = flows[0]
      if normal.live:
        for st in flows[1:]:
          del st
        for h in s.handlers:
          hn = []
          if h.type is not None:
            hn = [self.p.dotted(self.frames[-1].module, e) for e in (
                h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
          normal.add(not_(mk("exc", tid, ",".join(sorted(hn)))))
      self.state = self.merge(flows, base)
      if self.state.live and len([f for f in flows if f.live]) > 1:
        self.state.cond = base + tuple(
            c for c in self.state.cond[len(base):]
            if not tm.contains(c, lambda x: x.op == "exc" and x.args[0] == tid))
    else:
      self.state = flows[0]
    if s.finalbody:
      self.block(s.finalbody)

  def catches(self, handler, name):
    if handler in ("*", "Exception", "BaseException"):
      return True
    if handler == name:
      return True
    c, h = self.p.classes.get(name), self.p.classes.get(handler)
    if c is None:
      return handler.split(".")[-1] == name.split(".")[-1]
    if h is not None:
      return h in self.p.mro(c)
    return handler in self.p.ext_bases(c)

  def s_With(self, s):
    exits = []
    for it in s.items:
      ctx = self.ev(it.context_expr)
      ty = self.typeof(ctx)
      v = ctx
      if ty and ty[0] == "inst" and self.p.find_method(self.p.classes[ty[1]],
                                                       "__enter__")[0]:
        v = self.call_method(ctx, "__enter__", [], {}, s)
        exits.append((ctx, True))
      else:
        exits.append((ctx, False))
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v)
    self.block(s.body)
    nret = None
    del nret
    for ctx, repo in reversed(exits):
      if repo:
        if self.state.live:
          self.call_method(ctx, "__exit__", [NONE, NONE, NONE], {}, s)
      else:
        live = self.state.live
        st = self.state
        if not live and self.frames[-1].returns:
          self.state = self.frames[-1].returns[-1][0]
        self.emit("with_exit", "", s, recv=ctx)
        self.state = st

  def s_FunctionDef(self, s):
    f = self.frames[-1]
    fi = self.p.add_fn(f"{f.fn.qual if f.fn else f.module.name}.{s.name}", s,
                       f.module, f.cls)
    v = mk("func", fi.fid, f.id)
    self.frame_defs[f.id] = f
    for d in reversed(s.decorator_list):
      v = self.apply_decorator(self.ev(d), v, s)
    self.set_var(s.name, v)

  def s_ClassDef(self, s):
    self.set_var(s.name, self.unk(s, "local class"))

  def s_Nonlocal(self, s):
    f = self.frames[-1]
    for n in s.names:
      p = f.parent
      while p is not None:
        if ("v", p.id, n) in self.state.store or ("v", p.id, n) in self.gstore:
          f.nonlocals[n] = p.id
          break
        p = p.parent

  def s_Global(self, s):
    pass

  def s_Assign(self, s):
    v = self.ev(s.value)
    for t in s.targets:
      self.assign(t, v)

  def s_AnnAssign(self, s):
    if s.value is not None:
      self.assign(s.target, self.ev(s.value))
      if isinstance(s.target, ast.Name):
        ty = self.type_of_ann(self.frames[-1].module, s.annotation)
        if ty:
          self.loc_types[("var", self.frames[-1].id, s.target.id)] = ty

  def s_AugAssign(self, s):
    op = BIN[type(s.op)]
    if isinstance(s.target, ast.Name):
      cur = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s))
      v = self.ev(s.value)
      if op == "+" and (cur.op == "obj" and cur.args[1] == "list"):
        self.extend(cur, v, s)
        return
      if op == "|" and cur.op == "obj" and cur.args[1] == "set":
        self.extend(cur, v, s)
        return
      self.set_var(s.target.id, self.binop(op, cur, v, s))
      return
    if isinstance(s.target, ast.Attribute):
      base = self.ev(s.target.value)
      v = self.ev(s.value)

      def go(b):
        cur = self.get_attr(b, s.target.attr, s)
        if op == "+" and self.is_list(cur):
          self.extend(cur, v, s)
          return None
        self.set_attr(b, s.target.attr, self.binop(op, cur, v, s), s, aug=(op, v))
        return None

      self.cases(base, go)
      return
    if isinstance(s.target, ast.Subscript):
      base, key = self.ev(s.target.value), self.ev(s.target.slice)
      v = self.ev(s.value)
      cur = self.get_item(base, key, s)
      if op == "+" and self.is_list(cur):
        self.extend(cur, v, s)
        return
      self.set_item(base, key, self.binop(op, cur, v, s), s, aug=(op, v))

  def s_Delete(self, s):
    for t in s.targets:
      if isinstance(t, ast.Subscript):
        base, key = self.ev(t.value), self.ev(t.slice)
        self.del_item(base, key, s)
      elif isinstance(t, ast.Name):
        pass
      else:
        self.unk(s, "del of attribute")

  def del_item(self, base, key, node):
    def go(b):
      self.emit("delitem", "", node, args=[key], recv=b,
                extra=self.freeze(self.get_item(b, key, node)))
      if self.is_map(b):
        pairs = self.load(("d", b))
        if all(e[0] == "i" for e in pairs.args[0]) and not self.loop_stack:
          self.store(("d", b), seq(self.filtered(
              pairs.args[0],
              lambda x: not_(cmp_("==", tm.item(x, const(0)), key)))))
        else:
          self.store(("d", b), seq((("splice", TRUE, mk(
              "without", pairs, key)),)))
        self.store(mk("item", b, key), mk("deleted", b, key))
      elif self.is_list(b):
        self.store(("c", b), seq((("splice", TRUE, mk(
            "without", self.content(b), key)),)))
    self.cases(base, go)

  def s_Break(self, s):
    self.loop_ctx[-1]["break"].append(self.state)
    self.state = State({}, self.state.cond, False)

  def s_Continue(self, s):
    self.loop_ctx[-1]["continue"].append(self.state)
    self.state = State({}, self.state.cond, False)

  def s_For(self, s):
    it = self.ev(s.iter)
    self.run_loop(it, lambda v: self.assign(s.target, v),
                  lambda: self.block(s.body), s)
    if s.orelse and self.state.live:
      self.block(s.orelse)

  def s_While(self, s):
    if not self.emptied(s) and (
        self.iter_hook is None or self.loop_stack or not self.unrolled(s)) and \
        not self.counted(s):
      self.while_loop(s)
    if s.orelse and self.state.live:
      self.block(s.orelse)

  # ------------------------------------------------------------------- loops

  loop_ctx = []

  def run_loop(self, it, bind, body, node):
    """for <bind> in it: body."""
    it = self.simp(it)
    if it.op == "ite":
      c, a, b = it.args
      self.branch(c, lambda: self.run_loop(a, bind, body, node),
                  lambda: self.run_loop(b, bind, body, node))
      return
    ents = self.iter_entries(it, node)
    if ents is None:
      return
    if not self.loop_ctx:
      self.loop_ctx = []
    # Literal iteration: unrolled. `break` and `continue` join at the end.
    if all(e[0] == "i" for e in ents):
      if len(ents) > 24:
        self.unk(node, "long literal iteration")
        return
      brk = []
      base = self.state.cond
      for e in ents:
        if not self.state.live:
          break
        ctx = {"break": [], "continue": []}
        self.loop_ctx = self.loop_ctx + [ctx]

        def one(e=e):
          bind(e[2])
          body()

        self.branch(e[1], one, lambda: None)
        self.loop_ctx = self.loop_ctx[:-1]
        flows = [self.state] + ctx["continue"]
        brk.extend(ctx["break"])
        self.state = self.merge(flows, base)
      self.state = self.merge([self.state] + brk, base)
      return
    brk, base = [], self.state.cond
    for i, e in enumerate(ents):
      if not self.state.live:
        break
      brk += self.entry_loop(e, bind, body, node, i + 1 < len(ents))
    if brk:
      self.state = self.merge([self.state] + brk, base)

  def entry_loop(self, e, bind, body, node, more):
    """The part of a loop over an entry. Returns the states in which it was left,
    when `more` of the loop would follow."""
    if e[0] == "i":
      base = self.state.cond
      ctx = {"break": [], "continue": []}
      self.loop_ctx = self.loop_ctx + [ctx]

      def one():
        bind(e[2])
        body()

      self.branch(e[1], one, lambda: None)
      self.loop_ctx = self.loop_ctx[:-1]
      self.state = self.merge([self.state] + ctx["continue"], base)
      return ctx["break"]
    left = []
    if e[0] == "splice":
      def one2():
        n = tm.fresh_id()
        src, elem = self.loop_over(e[2])
        self.sym_loop(src, n, lambda: bind(elem(n)), body, node)
        left.extend(self.left_loop(n, more))

      self.branch(e[1], one2, lambda: None)
      return left
    n, old = e[2], self.loops.get(e[2])

    def inner():
      def go():
        for x in e[4]:
          if self.state.live:
            self.loop_ctx[-1]["break"].extend(
                self.entry_loop(x, bind, body, node, True))

      self.branch(e[3], go, lambda: None)

    self.sym_loop(e[1], n, lambda: None, inner, node)
    if old is not None and self.loops[n] is not old:
      # The loop goes over what an earlier loop made, of the same elements.
      for d in ("init", "update"):
        for k, v in getattr(old, d).items():
          getattr(self.loops[n], d).setdefault(k, v)
    return self.left_loop(n, more)

  def left_loop(self, n, more):
    """The states in which loop n was left, apart from the current state."""
    info = self.loops.get(n)
    if not more or info is None or info.brk is FALSE or not self.state.live:
      return []
    c = tm.exists(info.it, n, info.brk)
    left = State(dict(self.state.store), self.state.cond, True)
    left.add(c)
    self.state.add(not_(c))
    return [left] if left.live else []

  def loop_over(self, it):
    """What a loop goes over, and its element number n: `enumerate(xs)` and
    `range(len(xs))` go over xs."""
    if it.op == "enum_":
      return it.args[0], lambda n: self.elem_of(it, n)
    src = tm.range_len(it) if it.op != "rev" else None
    if src is not None and src.op in ("attr", "item", "sym", "seq"):
      return src, lambda n: mk("idx", src, n)
    return it, lambda n: self.elem_of(it, n)

  def elem_of(self, it, n):
    """The generic element of an iterable."""
    if it.op == "items":
      k = mk("elem", mk("keys", it.args[0]), n)
      return tm.tuple_([k, self.get_item(it.args[0], k, None)])
    if it.op == "values":
      return self.get_item(it.args[0], mk("elem", mk("keys", it.args[0]), n),
                           None)
    if it.op == "enum_":
      return tm.tuple_([mk("idx", it.args[0], n), self.elem_of(it.args[0], n)])
    if it.op == "zip_":
      return tm.tuple_([mk("elem", x, n) if x.op == "rev" else self.elem_of(x, n)
                        for x in it.args[0]])
    if it.op == "rev":
      return self.elem_of(it.args[0], n)
    if it.op == "dict_" or it.op == "while":
      return unk("while element")
    return mk("elem", it, n)

  def iter_entries(self, it, node):
    """Entries of an iterable value."""
    k = self.known_iter.get(it.uid)
    if k is not None:
      return tuple(("i", TRUE, x) for x in k)
    if self.iter_hook is not None and it.op in ("call", "attr", "item", "sym"):
      k = self.iter_hook(it)
      if k is not None:
        return tuple(("i", TRUE, x) for x in k)
    if it.op == "seq":
      return it.args[0]
    if it.op == "setv":
      return uniq_entries(it.args[0])
    if it.op == "obj" and it.args[1] == "set":
      return uniq_entries(self.content(it))
    if it.op == "obj" and it.args[1] in ("list", "dict"):
      return self.content(it).args[0]
    ty = self.typeof(it)
    if ty and ty[0] == "inst":
      c = self.p.classes[ty[1]]
      m, _ = self.p.find_method(c, "__iter__")
      if m is not None and not self.opaque_method(it, c, m, "__iter__"):
        r = self.call_method(it, "__iter__", [], {}, node)
        return self.iter_entries(r, node) if r is not it else (
            ("splice", TRUE, it),)
    if it.op in ("attr", "item", "mu", "sym"):
      return self.content(it).args[0]
    if it.op == "call":
      n = tm.call_name(it)
      if n == "range" and all(x.op == "const" for x in it.args[1]):
        r = range(*[x.args[0] for x in it.args[1]])
        if len(r) <= 6:
          return tuple(("i", TRUE, const(i)) for i in r)
      if n in ("list", "tuple", "iter") and len(it.args[1]) == 1:
        return self.iter_entries(it.args[1][0], node)
      if n in ("set", "frozenset") and len(it.args[1]) == 1:
        return uniq_entries(seq(self.iter_entries(it.args[1][0], node)))
    if it.op == "rev":
      inner = self.iter_entries(it.args[0], node)
      if inner is not None and all(e[0] == "i" for e in inner):
        return tuple(reversed(inner))
    return (("splice", TRUE, it),)

  def carried_mu(self, n, key):
    if isinstance(key, tuple) and key[0] == "v":
      label = ("var", key[1], key[2])
      lab = mk("lvar", f"{key[2]}", key[1])
    else:
      label = None
      lab = key if isinstance(key, T) else mk("lcont", key[0], key[1])
    del label
    return lab

  def sym_loop(self, it, n, bind, body, node, cond=None, while_=False):
    """A loop over an arbitrary iterable, with element number n."""
    base_state = self.state
    base = base_state.cond
    init_store = base_state.store
    ctr = (len(self.events), len(self.unknowns))

    def one_pass(store, info):
      st = State(store, base, True)
      self.state = st
      ctx = {"break": [], "continue": []}
      self.loop_ctx = self.loop_ctx + [ctx]
      self.loop_stack.append(LoopRef(info))
      rets_before = len(self.frames[-1].returns)
      tr = [len(r[1]) for r in getattr(self, "_tries", [])]
      bind()
      if cond is not None:
        c = self.truth(cond())
        info.cond = c
        if c is FALSE:
          self.state.live = False
        else:
          self.state.add(c)
      if self.state.live:
        body()
      end = self.merge([self.state] + ctx["continue"], base)
      self.loop_stack.pop()
      self.loop_ctx = self.loop_ctx[:-1]
      return end, ctx["break"], rets_before, tr

    f = self.frames[-1]
    all_frames_rets = [len(fr.returns) for fr in self.frames]
    info = LoopInfo(n, it)
    # Pass 1: which locations change.
    end, brks, rb, tr = one_pass(dict(init_store), info)
    changed = set()
    types = {}
    for st in [end] + brks + [r[0] for r in f.returns[rb:]]:
      if not st.live:
        continue
      for k, v in st.store.items():
        if init_store.get(k) is not v:
          if isinstance(k, tuple) and k[0] in ("copy", "ctor"):
            continue
          if self.mentions_loop(k, n):
            continue
          changed.add(k)
          types.setdefault(k, v)
    # Drop what pass 1 recorded.
    del self.events[ctr[0]:]
    del self.unknowns[ctr[1]:]
    for fr, cnt in zip(self.frames, all_frames_rets):
      del fr.returns[cnt:]
    for r, cnt in zip(getattr(self, "_tries", []), tr):
      del r[1][cnt:]
    # Pass 2: changed locations are unknown at the loop head.
    store = dict(init_store)
    mus = {}
    rebound = self.rebound_lists(changed, init_store, types)
    for k, (loc, init) in rebound.items():
      ck = ("c", loc)
      mu = mk("mu", self.carried_mu(n, ck), n, 0)
      v = seq((("splice", TRUE, mu),))
      mus[ck] = (v, init, mu)
      store[ck], store[k] = v, loc
    for k in changed:
      if k not in init_store and isinstance(k, tuple) and k[0] == "v":
        # First assigned inside the loop body.
        continue
      if k in rebound:
        continue
      lab = self.carried_mu(n, k)
      mu = mk("mu", lab, n, 0)
      if isinstance(k, tuple) and k[0] in ("c", "d", "o"):
        init = init_store.get(k)
        if init is None:
          self.state = base_state
          init = self.initial(k)
        v = seq((("splice", TRUE, mu),))
        mus[k] = (v, init, mu)
        store[k] = v
        continue
      init = init_store.get(k)
      if init is None:
        self.state = base_state
        init = self.gstore.get(k) or self.initial(k)
      if isinstance(k, tuple) and k[0] == "h":
        mu = mk("has", mu)
      ty = self.typeof(init) if init is not None else None
      if ty is None or init is NONE:
        ty2 = self.typeof(types[k])
        if ty2 is None and isinstance(k, tuple) and k[0] == "v":
          ty2 = self.loc_types.get(("var", k[1], k[2]))
        if ty2 is None and isinstance(k, T):
          ty2 = self.declared(k)
        ty = ty or ty2
      if ty is not None:
        self._types[mu.uid] = ty
      mus[k] = (mu, init, mu)
      store[k] = mu
    info = LoopInfo(n, it)
    info.node, info.module = node, f.module
    info.stack = tuple(fr.fn.qual if fr.fn else "" for fr in self.frames)
    end, brks, rb, tr = one_pass(store, info)
    new_rets = f.returns[rb:]
    # Loop exits.
    brk = or_(*[rel(b.cond, base) for b in brks if b.live]) if brks else FALSE
    info.brk = brk
    it2 = it if brk is FALSE else mk("until", it, n, brk)
    self.loops[n] = info
    flows = [s for s in [end] + brks if s.live]
    final = dict(init_store)
    if flows:
      m = self.merge(flows, base)
      body_store = m.store
      if rebound:
        self.state = m
        values = {k: self.content(body_store[k]) for k in rebound}
        for k, (loc, _) in rebound.items():
          body_store[("c", loc)] = values[k]
          final[k] = loc
          body_store.pop(k)
      self.removal_idiom(it2, n, mus, body_store, final)
      for k, v in body_store.items():
        if k in mus:
          continue
        if init_store.get(k) is not v:
          if isinstance(k, tuple) and k[0] == "v" and k not in init_store:
            final[k] = v if not self.mentions(v, n) else mk(
                "last", it2, n, TRUE, v, NONE)
            ty = self.typeof(v)
            if ty:
              self._types[final[k].uid] = ty
          else:
            final[k] = v
            self.check_grouping(k, v, n, node)
      for k, (v0, init, mu) in mus.items():
        if k in self._removed:
          continue
        u = body_store.get(k, v0)
        lab = k[2] if isinstance(k, tuple) and k[0] == "v" else k
        info.init[lab], info.update[lab] = init, u
        final[k] = self.loop_out(it2, n, v0, init, u, mu, k)
    after = State(final, base, True)
    # Returns and raises inside the loop.
    info.exits = or_(brk, *[rel(st.cond, base) for st, _ in new_rets])
    it3 = it2 if len(new_rets) < 2 else mk("until", it, n, info.exits)
    if new_rets:
      del f.returns[rb:]
      gone = []
      for st, v in new_rets:
        g = rel(st.cond, base)
        e = tm.exists(it3, n, g)
        gone.append(e)
        rs = State(dict(final), base, True)
        rs.add(e)
        if rs.live:
          f.returns.append((rs, v if not self.mentions(v, n) else
                            self.typed(mk("first", it3, n, g, v), v)))
      for e in gone:
        after.add(not_(e))
    if cond is not None and info.cond is TRUE and brk is FALSE:
      after.live = bool(not while_)
    self.state = after
    for r, cnt in zip(getattr(self, "_tries", []), tr):
      for j in range(cnt, len(r[1])):
        nm, st = r[1][j]
        r[1][j] = (nm, State(st.store, base + (tm.exists(
            it2, n, rel(st.cond, base)),), True))
    # Raises that leave the loop: the flow continues only if none happened.
    gone = [e for e in self.events[ctr[0]:] if e.kind == "raise"]
    for e in gone:
      if len(e.stack) >= 1 and self.same_try(e):
        g = rel(e.cond, base)
        x = tm.exists(it2, n, g)
        if x is not TRUE:
          self.state.add(not_(x))

  def check_grouping(self, k, v, n, node):
    """Elements added to a list that is an item of a container, where several
    passes of the loop may find the same item, are not summarised."""
    if not isinstance(k, tuple) or k[0] not in ("c", "d"):
      return
    loc = k[1]
    while loc.op in ("attr", "item"):
      if loc.op == "item" and self.mentions(loc.args[1], n) and \
          loc.args[1].op not in ("elem", "idx") and (
              not self.mentions(loc.args[0], n) or loc.args[0].op in (
                  "dictv", "listv", "seq", "mu")):
        self.unk(node, f"items of {tm.show(loc.args[0], 2)} changed in a loop")
        return
      loc = loc.args[0]

  def rebound_lists(self, changed, init_store, types):
    """Variables of lists that a loop sets to other lists: the list at the head
    of the loop is one of its own, {variable: (its list, content before)}."""
    out = {}
    for k in sorted((k for k in changed if isinstance(k, tuple) and k[0] == "v"),
                    key=str):
      init, new = init_store.get(k), types[k]
      if init is None or init.op != "obj" or init.args[1] != "list" or \
          ("c", init) not in init_store or not all(
              self.is_list(x) or x.op == "seq" for x in self.leaves(new)):
        continue
      if any(v is init for x, v in init_store.items() if x != k):
        continue
      loc = self.new_obj("list")
      out[k] = loc, init_store[("c", init)]
      changed.discard(("c", init))
    return out

  def leaves(self, t):
    if t.op != "ite":
      return [t]
    return self.leaves(t.args[1]) + self.leaves(t.args[2])

  _removed = ()

  def removal_idiom(self, it, n, mus, store, final):
    """Deleting from a list the elements met under a condition, while scanning
    it backwards, and ticking them off a set: both end up filtered."""
    self._removed = {}
    lists, sets = {}, {}
    for k, (_, init, mu) in mus.items():
      if not (isinstance(k, tuple) and k[0] == "c"):
        continue
      u = store.get(k)
      if u is None or u.op != "seq":
        continue
      keep = [e for e in u.args[0] if e[0] == "splice" and e[2] is mu]
      drop = [e for e in u.args[0] if e[0] == "splice" and e[2].op in (
          "without", "minus") and e[2].args[0] is seq((("splice", TRUE, mu),))]
      if len(u.args[0]) != 2 or not keep or not drop or \
          keep[0][1] is not not_(drop[0][1]):
        continue
      g, what = drop[0][1], drop[0][2].args[1]
      if drop[0][2].op == "without":
        src = tm.range_len(it)
        if it.op == "rev" and src is not None and what.op == "elem" and \
            what.args[1] == n and len(init.args[0]) == 1 and \
            init.args[0][0] == ("splice", TRUE, src):
          lists[k] = (g, init, src)
      elif g is cmp_("in", what, mu) or (g.op == "and" and cmp_(
          "in", what, mu) in g.args):
        sets[k] = (g, what, init, mu)
    if not lists:
      return
    repl = {}
    for k, (g, what, init, mu) in sets.items():
      src = init.args[0][0][2] if len(init.args[0]) == 1 and \
          init.args[0][0][0] == "splice" else init
      repl[mu] = src
    for k, (g, init, src) in lists.items():
      # The elements not yet scanned are where they were.
      here = tm.item(mus[k][2], mk("elem", it.args[0], n))
      x = mk("elem", src, n)
      g2 = tm.subst(tm.subst(g, {here: x}), repl)
      if tm.contains(g2, lambda x: x.op == "mu" and x.args[1] == n):
        continue
      final[k] = seq((("each", src, n, TRUE, (("i", not_(g2), x),)),))
      self._removed[k] = True
      for ks, (gs, what, inits, mus_) in sets.items():
        if gs is g and tm.subst(what, {here: x}) is x:
          final[ks] = seq(self.filtered(inits.args[0], lambda y: not_(
              cmp_("in", y, src))))
          self._removed[ks] = True

  def same_try(self, e):
    return len(e.tries) == len(self.try_stack)

  def typed(self, t, like):
    ty = self.typeof(like)
    if ty:
      self._types[t.uid] = ty
    return t

  def declared(self, loc):
    return self.typeof(loc)

  def mentions_loop(self, key, n):
    loc = key if isinstance(key, T) else (key[1] if key[0] != "v" else None)
    return loc is not None and self.mentions(loc, n)

  def mentions(self, t, n):
    return tm.contains(t, lambda x: x.op in ("elem", "idx", "mu") and
                       x.args[1] == n)

  def loop_out(self, it, n, v0, init, u, mu, key):
    """Value after the loop of a carried location."""
    if u is v0:
      return init
    if isinstance(key, tuple) and key[0] in ("c", "d", "o"):
      if u.op == "seq" and u.args[0] and u.args[0][0][0] == "splice" and \
          u.args[0][0][1] is TRUE and u.args[0][0][2] is mu and not any(
              tm.contains(seq((e,)), mu) for e in u.args[0][1:]):
        return seq(init.args[0] + (("each", it, n, TRUE, u.args[0][1:]),))
      return seq((("splice", TRUE, mk("fold", it, n, init, u, mu)),))
    if u.op == "seq" and v0.op != "seq":
      pass
    d = self.accum(u, v0)
    if d is not None and init is not None:
      return tm.plus(init, mk("sum", it, n, d))
    if tm.is_boolean(u) or u.op in ("or", "and"):
      # found = found or g
      g = tm.subst(u, {mu: FALSE, tm.truthy(mu): FALSE})
      if init is FALSE and u is ite(g, TRUE, mu):
        return tm.exists(it, n, g)
    if u.op == "ite" and u.args[2] is v0 and not tm.contains(u.args[1], mu) \
        and not tm.contains(u.args[0], mu):
      g, e = u.args[0], u.args[1]
      if e.op == "const" or not self.mentions(e, n):
        return self.typed(ite(tm.exists(it, n, g), e, init or NONE), u)
      return self.typed(mk("last", it, n, g, e, init or NONE), e)
    if u.op == "ite" and u.args[1] is v0 and not tm.contains(u.args[2], mu) \
        and not tm.contains(u.args[0], mu):
      g, e = not_(u.args[0]), u.args[2]
      if e.op == "const" or not self.mentions(e, n):
        return self.typed(ite(tm.exists(it, n, g), e, init or NONE), u)
      return self.typed(mk("last", it, n, g, e, init or NONE), e)
    if not tm.contains(u, mu) and not self.mentions(u, n):
      return ite(tm.exists(it, n, TRUE), u, init if init is not None else u)
    if not tm.contains(u, mu):
      return self.typed(mk("last", it, n, TRUE, u, init or NONE), u)
    return self.typed(mk("fold", it, n, init or NONE, u, mu), u)

  def accum(self, u, mu):
    """d if u is mu + d, with d independent of mu."""
    if u is mu:
      return tm.ZERO
    if u.op == "add":
      d = tm.minus(u, mu)
      if not tm.contains(d, mu):
        return d
      return None
    if u.op == "ite":
      a, b = self.accum(u.args[1], mu), self.accum(u.args[2], mu)
      if a is None or b is None or tm.contains(u.args[0], mu):
        return None
      return ite(u.args[0], a, b)
    return None

  def unrolled(self, s):
    """Runs a while loop whose conditions a rule's model decides."""
    if not self.loop_ctx:
      self.loop_ctx = []
    base, brk = self.state.cond, []
    for i in range(64):
      if not self.state.live:
        break
      c = self.truth(self.ev(s.test))
      d = bool(c.args[0]) if c.op == "const" else self.oracle(c)
      if d is None:
        if i == 0:
          return False
        self.unk(s, "condition of a loop")
        break
      if not d:
        break
      ctx = {"break": [], "continue": []}
      self.loop_ctx = self.loop_ctx + [ctx]
      self.block(s.body)
      self.loop_ctx = self.loop_ctx[:-1]
      brk.extend(ctx["break"])
      self.state = self.merge([self.state] + ctx["continue"], base)
      if len(brk) > 4 and self.state.live:
        self.unk(s, "when a loop ends")
        break
    else:
      self.unk(s, "endless loop")
    self.state = self.merge([self.state] + brk, base)
    return True

  def counted(self, s):
    """Runs a while loop of a few iterations, whose conditions are constants."""
    if isinstance(s.test, ast.Constant):
      return False
    if not self.loop_ctx:
      self.loop_ctx = []
    start, base, brk = self.state.fork(), self.state.cond, []
    ctr = len(self.events), len(self.unknowns)
    rets = [len(fr.returns) for fr in self.frames]
    tr = [len(r[1]) for r in getattr(self, "_tries", [])]
    for _ in range(24):
      if not self.state.live:
        break
      c = self.truth(self.ev(s.test))
      if c.op != "const":
        break
      if not c.args[0]:
        self.state = self.merge([self.state] + brk, base)
        return True
      ctx = {"break": [], "continue": []}
      self.loop_ctx = self.loop_ctx + [ctx]
      self.block(s.body)
      self.loop_ctx = self.loop_ctx[:-1]
      brk.extend(ctx["break"])
      self.state = self.merge([self.state] + ctx["continue"], base)
    if not self.state.live:
      if brk:
        self.state = self.merge(brk, base)
      return True
    self.state = start
    del self.events[ctr[0]:]
    del self.unknowns[ctr[1]:]
    for fr, cnt in zip(self.frames, rets):
      del fr.returns[cnt:]
    for r, cnt in zip(getattr(self, "_tries", []), tr):
      del r[1][cnt:]
    return False

  def emptied(self, s):
    """`while xs: x = xs.pop(0)` goes over a list that nothing else uses."""
    t, b = s.test, s.body[0]
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
        t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(
            t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
      t = t.left
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
        t.func.id == "len" and len(t.args) == 1:
      t = t.args[0]
    if not isinstance(t, ast.Name) or not (
        isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(
            b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and
        b.value.func.attr == "pop" and isinstance(
            b.value.func.value, ast.Name) and b.value.func.value.id == t.id and
        not b.value.keywords):
      return False
    a = b.value.args
    first = len(a) == 1 and isinstance(a[0], ast.Constant) and a[0].value == 0
    if a and not first or any(
        isinstance(x, ast.Name) and x.id == t.id
        for y in s.body[1:] + [b.targets[0]] for x in ast.walk(y)):
      return False
    loc = self.get_var(t.id, t)
    if loc.op != "obj" or loc.args[1] != "list" or sum(
        v is loc for v in self.state.store.values()) != 1:
      return False
    it = self.content(loc)
    if not first:
      it = self.x_reversed([it], {}, s)
    self.run_loop(it, lambda v: self.assign(b.targets[0], v),
                  lambda: self.block(s.body[1:]), s)
    if self.state.live:
      self.store(("c", loc), unk("what is left of a list") if any(
          isinstance(x, ast.Break) for y in s.body for x in ast.walk(y)) else
                 seq(()))
    return True

  def while_loop(self, s):
    n = tm.fresh_id()
    it = mk("while", n)
    base_state = self.state.fork()
    ctr = len(self.events)
    rets = [len(fr.returns) for fr in self.frames]
    if not self.loop_ctx:
      self.loop_ctx = []
    self.sym_loop(it, n, lambda: None, lambda: self.block(s.body), s,
                  cond=lambda: self.ev(s.test), while_=True)
    # A counting loop is a loop over a range.
    info = self.loops[n]
    ind = self.induction(info)
    if ind is not None:
      var, rng = ind
      after_val = rng.args[1][1]
      self.state = base_state
      del self.events[ctr:]
      for fr, cnt in zip(self.frames, rets):
        del fr.returns[cnt:]
      name = var
      self.run_loop(rng, lambda v: self.set_var(name, v),
                    lambda: self.block(s.body), s)
      if self.state.live:
        self.set_var(name, after_val)

  def induction(self, info):
    c = info.cond
    if c.op != "cmp" or c.args[0] != "<" or info.brk is not FALSE:
      return None
    mu, bound = c.args[1], c.args[2]
    if mu.op != "mu":
      return None
    for k, u in info.update.items():
      if not isinstance(k, str):
        continue
      if u is tm.plus(mu, const(1)) and info.init[k] is not None:
        if tm.contains(bound, lambda x: x.op == "mu" and x.args[1] == info.n):
          return None
        return k, mk_call(mk("ext", "range"), (info.init[k], bound), ())
    return None

  # --------------------------------------------------------------- variables

  def set_var(self, name, v):
    f = self.frames[-1]
    fid = f.nonlocals.get(name, f.id)
    if v is None:
      v = NONE
    self.state.store[("v", fid, name)] = v

  def get_var(self, name, node):
    f = self.frames[-1]
    x = f
    while x is not None:
      k = ("v", x.id, name)
      if k in self.state.store:
        return self.simp(self.state.store[k])
      if k in self.gstore:
        return self.gstore[k]
      x = x.parent
    r = self.p.resolve_global(f.module, name)
    if r is not None:
      return self.ref_term(r)
    c = f.cls
    del c
    return mk("ext", name)

  def ref_term(self, r):
    kind = r[0]
    if kind == "fn":
      return self.fn_term(r[1])
    if kind == "cls":
      return mk("cls", r[1].qual)
    if kind == "mod":
      return mk("mod", r[1])
    if kind == "ext":
      return mk("ext", r[1])
    m, name = r[1], r[2]
    key = (m.name, name)
    if key not in self.genv:
      self.genv[key] = mk("ext", f"{m.name}.{name}")
      self.genv[key] = self.at_definition(m, lambda: self.ev(m.assigns[name]))
    return self.genv[key]

  def fn_term(self, fi):
    key = ("fn", fi.fid)
    if key not in self.genv:
      base = mk("func", fi.fid, 0)
      self.genv[key] = base
      if fi.decorators:
        def go():
          v = base
          for d in reversed(fi.decorators):
            v = self.apply_decorator(self.ev(d), v, fi.node)
          return v

        self.genv[key] = self.at_definition(fi.module, go)
    return self.genv[key]

  def at_definition(self, module, fn):
    """Evaluates something done once when the program is loaded."""
    save, frames, ls, lc = self.state, self.frames, self.loop_stack, self.loop_ctx
    n_ev = len(self.events)
    first = tm.fresh_id()
    self.state = State()
    self.loop_stack, self.loop_ctx = [], []
    fr = Frame(tm.fresh_id(), None, module)
    self.frames = [fr]
    try:
      v = fn()
    finally:
      for k, x in self.state.store.items():
        self.gstore[k] = x
      self.state, self.frames = save, frames
      self.loop_stack, self.loop_ctx = ls, lc
      del self.events[n_ev:]
      tm.LOADED.update(range(first, tm.fresh_id()))
    return v

  def apply_decorator(self, d, v, node):
    name = d.args[0] if d.op == "ext" else ""
    if d.op == "call":
      name = tm.call_name(d)
    if name in ("functools.wraps", "abc.abstractmethod", "typing.no_type_check",
                "typing_extensions.final", "dataclasses.dataclass",
                "typing.final", "typing.overload", "functools.lru_cache",
                "functools.cache", "typing.override",
                "typing_extensions.override"):
      return v
    if name in ("staticmethod", "classmethod", "property") or name.endswith(
        ".setter"):
      return mk("deco", name.split(".")[-1], v)
    if name == "ray.remote" or name.endswith(".ray.remote"):
      return v
    if d.op in ("func", "bmeth", "partial"):
      return self.call(d, [v], {}, node)
    return v

  def assign(self, target, v):
    if isinstance(target, ast.Name):
      self.set_var(target.id, v)
    elif isinstance(target, (ast.Tuple, ast.List)):
      self.unpack(target, v)
    elif isinstance(target, ast.Attribute):
      base = self.ev(target.value)
      self.cases(base, lambda b: self.set_attr(b, target.attr, v, target))
    elif isinstance(target, ast.Subscript):
      base, key = self.ev(target.value), self.ev(target.slice)
      self.cases(base, lambda b: self.set_item(b, key, v, target))
    elif isinstance(target, ast.Starred):
      self.assign(target.value, v)

  def unpack(self, target, v):
    items = None
    v = self.simp(v)
    if v.op == "obj" and v.args[1] == "list":
      v = self.content(v)
    if v.op == "seq":
      items = tm.seq_items(v)
    if items is not None and len(items) == len(target.elts) and not any(
        isinstance(t, ast.Starred) for t in target.elts):
      for t, x in zip(target.elts, items):
        self.assign(t, x)
      return
    if v.op == "ite":
      a, b = v.args[1], v.args[2]
      ia, ib = tm.seq_items(a), tm.seq_items(b)
      if ia is not None and ib is not None and len(ia) == len(ib) == len(
          target.elts):
        for t, x, y in zip(target.elts, ia, ib):
          self.assign(t, ite(v.args[0], x, y))
        return
    for i, t in enumerate(target.elts):
      self.assign(t, tm.item(v, const(i)))

  # -------------------------------------------------------------- attributes

  def get_attr(self, base, name, node=None):
    base = self.simp(base)
    op = base.op
    if op == "ite":
      c, a, b = base.args
      if a is NONE:
        return self.get_attr(b, name, node)
      if b is NONE:
        return self.get_attr(a, name, node)
      return self.branch(c, lambda: self.get_attr(a, name, node),
                         lambda: self.get_attr(b, name, node))
    if op == "mod":
      r = self.p.member(base.args[0], name)
      return self.ref_term(r)
    if op == "ext":
      full = f"{base.args[0]}.{name}"
      if name.isupper() and proto_name(base.args[0]):
        return mk("enum", proto_name(base.args[0]), name)
      if full in self.p.modules:
        return mk("mod", full)
      return mk("ext", full)
    if op == "cls":
      return self.class_attr(base, base, name, node)
    if op == "super":
      cls, after, self_ = base.args
      mro = self.p.mro(self.p.classes[cls])
      k = mro.index(self.p.classes[after])
      for c in mro[k + 1:]:
        if name in c.methods:
          return mk("bmeth", self.fn_term(c.methods[name]), self_)
      return mk_attr_ext(base, name)
    if op == "enum":
      if name in ("value", "name"):
        return mk("attr", base, name)
    if op == "msg":
      v = self.msg_field(base, name)
      if v is not None:
        return v
    ty = self.typeof(base)
    if ty and ty[0] == "inst" and ty[1] in self.p.classes:
      if op in ("obj", "sym", "attr", "item", "ver", "mu", "elem", "call",
                "opaque", "first", "last", "fresh", "fold"):
        loc = attr(base, name)
        if loc in self.state.store or loc in self.gstore:
          return self.simp(self.load(loc))
        cls = self.p.classes[ty[1]]
        r = self.class_attr(mk("cls", cls.qual), base, name, node)
        if r is not None:
          return r
        return self.simp(self.load(loc))
    if ty and ty[0] in ("proto",):
      loc = attr(base, name)
      return self.simp(self.load(loc))
    if op == "obj" and base.args[1].startswith("ext:"):
      ctor = self.load(("ctor", base))
      del ctor
      return self.simp(self.load(attr(base, name)))
    loc = attr(base, name)
    return self.simp(self.load(loc))

  def msg_field(self, m, name):
    """A field of a message value built from nothing."""
    if m.args[2] is not None and m.args[2] is not NONE:
      return None
    ft = self.p.proto_field(m.args[0], name) if m.args[0] else None
    if ft is None:
      return None
    key, sub = "." + name, []
    for k, v in m.args[1]:
      if k == (key,):
        return v
      if k[0] == key:
        if k[1:] == ("=",):
          if v is not None and v is not NONE:
            return None
          continue
        sub.append((k[1:], v))
    if ft[0] == "proto":
      return mk("msg", ft[1], tuple(sub), None)
    if sub or ft[0] == "map":
      return None
    if ft[0] == "rep":
      return EMPTY
    return const("") if ft[1] in ("string", "bytes") else (
        FALSE if ft[1] == "bool" else tm.ZERO)

  def class_attr(self, clst, recv, name, node):
    """Attribute found in the class of recv (or on the class itself)."""
    cls = self.p.classes[clst.args[0]]
    for c in self.p.mro(cls):
      if name in c.methods:
        v = self.fn_term(c.methods[name])
        if v.op == "deco":
          kind, f = v.args
          if kind == "staticmethod":
            return f
          if kind == "classmethod":
            return mk("bmeth", f, clst)
          if kind == "property":
            if recv is clst:
              return mk("deco", kind, f)
            if self.opaque_method(recv, cls, c.methods[name], name):
              return self.simp(self.load(attr(recv, name)))
            return self.call(f, [recv], {}, node)
          return f
        if recv is clst:
          return v
        return mk("bmeth", v, recv)
      if name in c.nested:
        return mk("cls", c.nested[name].qual)
      if name in c.assigns:
        if self.p.is_enum(c):
          return mk("enum", c.qual, self.p.enum_member(c, name))
        if recv is not clst and self.p.is_dataclass(c):
          return None
        key = (c.qual, name)
        if key not in self.genv:
          self.genv[key] = self.at_definition(
              c.module, lambda c=c: self.ev(c.assigns[name]))
        return self.genv[key]
    if recv is clst:
      return mk("attr", clst, name)
    return None

  def own_method(self, recv, name):
    """Whether an object of the program has a known method of that name."""
    ty = self.typeof(recv)
    if not ty or ty[0] != "inst" or ty[1] not in self.p.classes:
      return False
    c = self.p.classes[ty[1]]
    m, _ = self.p.find_method(c, name)
    return m is not None and not self.opaque_method(recv, c, m, name)

  def opaque_method(self, recv, cls, m, name):
    """True if the method that runs is not known statically."""
    if recv.op == "obj" or recv.op == "cls":
      return self.is_abstract(m)
    ty = self.typeof(recv)
    if recv.op == "sym" and ty and len(ty) > 2 and ty[2] == "exact":
      return self.is_abstract(m)
    if self.is_abstract(m):
      return True
    for s in self.p.subclasses(cls):
      if name in s.methods and s.methods[name] is not m:
        return True
    return False

  def is_abstract(self, m):
    return any(self.p.dotted(m.module, d).endswith("abstractmethod")
               for d in m.decorators)

  def set_attr(self, base, name, v, node, aug=None):
    if base.op in ("const",):
      return
    if base.op == "ite":
      self.cases(base, lambda b: self.set_attr(b, name, v, node, aug))
      return
    loc = attr(base, name)
    ty = self.typeof(base)
    old = self.load(loc)
    self.emit("set", name, node, args=[self.freeze(v)], recv=base, raw=v,
              extra={"old": old, "aug": aug})
    self.store(loc, v)
    if ty and ty[0] == "proto":
      self.mark_has(loc)

  def get_item(self, base, key, node):
    base = self.simp(base)
    key = self.simp(key)
    if base.op == "ite":
      c, a, b = base.args
      return self.branch(c, lambda: self.get_item(a, key, node),
                         lambda: self.get_item(b, key, node))
    if self.own_method(base, "__getitem__"):
      return self.call_method(base, "__getitem__", [key], {}, node)
    if key.op == "slice":
      return mk("item", self.freeze(base), key)
    if self.is_map(base) or (base.op == "obj" and base.args[1] == "dict"):
      loc = mk("item", base, key)
      if loc in self.state.store:
        return self.simp(self.state.store[loc])
      if loc in self.gstore:
        return self.gstore[loc]
      pairs = self.load(("d", base))
      if base.op == "obj" and base.args[1] == "dict":
        v = self.lookup(pairs, key)
        if v is not None:
          return v
        ents = pairs.args[0]
        if len(ents) > 1 and all(
            e[0] == "i" and e[1] is TRUE and e[2].op == "seq" and
            len(e[2].args[0]) == 2 for e in ents) and any(
                e[2].args[0][1][2].op == "obj" for e in ents):
          # One of the objects stored (identity matters).
          v = None
          for e in ents:
            k, x = e[2].args[0][0][2], e[2].args[0][1][2]
            v = x if v is None else ite(cmp_("==", k, key), x, v)
          return v
        return mk("item", self.freeze(base), key)
      # Entries written under another key.
      writes = [e for e in pairs.args[0] if e[0] == "i"]
      init = self.initial_loc(tm.item(base, key))
      for e in writes:
        k, v = tm.item(e[2], const(0)), tm.item(e[2], const(1))
        if k.op == "const" and key.op == "const":
          continue
        if v is not init and self.typeof(loc) and self.typeof(loc)[0] == "proto":
          continue
      return init
    if base.op == "attr" and ("c", base) in self.state.store and \
        key.op == "const" and isinstance(key.args[0], int):
      # A repeated field whose content is known.
      items = tm.seq_items(self.content(base))
      if items is not None and -len(items) <= key.args[0] < len(items):
        return items[key.args[0]]
    if base.op == "attr" and ("c", base) in self.state.store:
      # A repeated field changed in the loop being followed.
      ents = self.content(base).args[0]
      if len(ents) == 1 and ents[0][0] == "splice" and ents[0][1] is TRUE and \
          ents[0][2].op == "mu":
        return mk("item", ents[0][2], key)
    if base.op == "obj" and base.args[1] == "list" or base.op == "seq":
      c = self.content(base)
      items = tm.seq_items(c)
      if items is not None and key.op == "const" and isinstance(
          key.args[0], int) and -len(items) <= key.args[0] < len(items):
        return items[key.args[0]]
      if base.op == "obj" and not (key.op == "idx" and
                                   self.freeze(c) is key.args[0]):
        self.emit("index", "", node, args=[self.freeze(c), self.freeze(key)])
      if len(c.args[0]) == 1 and c.args[0][0][0] == "splice" and \
          c.args[0][0][1] is TRUE:
        return self.get_item(c.args[0][0][2], key, node)
      if key.op == "idx" and self.freeze(c) is key.args[0]:
        return self.elem_of(key.args[0], key.args[1])
      # Generic element of a list built by one unconditional comprehension.
      if key.op in ("idx", "elem") and len(c.args[0]) == 1:
        e = c.args[0][0]
        if e[0] == "each" and e[3] is TRUE and len(e[4]) == 1 and \
            e[4][0][0] == "i" and e[4][0][1] is TRUE:
          src = e[1]
          if key.op == "idx" and key.args[0] is src or \
              key.args[0].op != "rev" and tm.range_len(key.args[0]) is src:
            old, new = e[2], key.args[1]
            return tm.rewrite(e[4][0][2], lambda x: mk(
                x.op, x.args[0], new, *x.args[2:]) if x.op in (
                    "elem", "idx") and x.args[1] == old else None)
      # An object created anew in every iteration of a loop stands for all of
      # them.
      if len(c.args[0]) == 1:
        e = c.args[0][0]
        if key.op == "const" and e[0] == "each" and len(e[4]) == 1 and \
            e[4][0][0] == "i" and e[4][0][2].op == "obj":
          o = self.picked(e, key)
          if o is not None:
            return o
        while e[0] == "each" and len(e[4]) == 1:
          e = e[4][0]
        if e[0] == "i" and e[2].op == "obj" and e[2].args[1] in self.p.classes:
          return e[2]
      return tm.item(c, key)
    r = tm.item(base, key)
    if r.op == "item":
      return self.simp(self.load(r))
    return r

  def picked(self, e, key):
    """One of the data objects made by a loop: its attributes are those of that
    iteration."""
    _, it, n, g, ((_, g2, o),) = e
    if o.args[1] not in self.p.classes or not self.p.is_dataclass(
        self.p.classes[o.args[1]]):
      return None
    attrs, varies = {}, False
    cond = and_(g, g2)
    for loc, v in self.state.store.items():
      if isinstance(loc, T) and loc.op == "attr" and loc.args[0] is o:
        v = self.freeze(v) if v.op != "obj" else v
        while v.op == "ite" and tm.decide(v.args[0], cond) is not None:
          v = v.args[1] if tm.decide(v.args[0], cond) else v.args[2]
        if any(x.op in ("elem", "idx") and x.args[1] == n for x in tm.walk(v)):
          varies = True
          v = tm.item(mk("seq", (("each", it, n, g, (("i", g2, v),)),)), key)
        attrs[loc.args[1]] = v
    if not varies:
      return None
    new = self.new_obj(o.args[1])
    for k, v in attrs.items():
      self.store(attr(new, k), v)
    return new

  def lookup(self, pairs, key):
    """Value for a key in a dictionary built here."""
    for e in reversed(pairs.args[0]):
      if e[0] == "i":
        k = tm.item(e[2], const(0))
        same = cmp_("==", k, key)
        if same.op != "const" and self.oracle is not None and \
            not self.loop_stack:
          d = self.oracle(same)
          same = same if d is None else const(d)
        if same is TRUE and e[1] is TRUE:
          return tm.item(e[2], const(1))
        if same is FALSE:
          continue
        return None
      if e[0] == "each" and len(e[4]) == 1 and e[4][0][0] == "i" and \
          e[4][0][1] is TRUE and e[3] is TRUE:
        k = tm.item(e[4][0][2], const(0))
        # {k(x): v(x) for x in it}[k(y)] with y an element of it.
        if not self.distinct_keys(pairs):
          return None
        old = e[2]
        for y in tm.walk(key):
          if y.op in ("elem", "idx") and self.loop_source(y) is e[1]:
            new = y.args[1]
            k2 = tm.rewrite(k, lambda x: mk(x.op, x.args[0], new)
                            if x.op in ("elem", "idx") and x.args[1] == old
                            else None)
            if k2 is key:
              return tm.rewrite(tm.item(e[4][0][2], const(1)), lambda x: mk(
                  x.op, x.args[0], new) if x.op in ("elem", "idx") and
                                x.args[1] == old else None)
        return None
      return None
    return None

  def loop_source(self, y):
    return y.args[0]

  def set_item(self, base, key, v, node=None, aug=None):
    if base.op == "ite":
      self.cases(base, lambda b: self.set_item(b, key, v, node, aug))
      return
    if node is not None:
      self.emit("setitem", "", node, args=[self.freeze(key), self.freeze(v)],
                recv=base, raw=v, extra={"aug": aug})
    loc = mk("item", base, key)
    if self.is_list(base):
      self.store(("c", base), seq((("splice", TRUE, mk(
          "with", self.content(base), key, v)),)))
      self.store(loc, v)
      return
    self.store(loc, v)
    pairs = self.load(("d", base))
    if pairs is None:
      pairs = EMPTY
    new = ("i", TRUE, tm.tuple_([key, v]))
    ents = list(pairs.args[0])
    for i, e in enumerate(ents):
      # A key that is there keeps its place.
      if e[0] == "i" and e[1] is TRUE and tm.item(e[2], const(0)) is key and not \
          any(x[0] != "i" or x[1] is not TRUE for x in ents[i + 1:]):
        ents[i] = new
        break
    else:
      ents.append(new)
    self.store(("d", base), seq(tuple(ents)))
    ty = self.typeof(base)
    if ty and ty[0] == "map":
      self.mark_has(loc)

  # -------------------------------------------------------------- containers

  def append(self, cont, v, node, front=False, copy=True):
    def go(c):
      self.emit("append", "insert" if front else "append", node,
                args=[self.freeze(v)], recv=c, raw=v)
      cur = self.content(c)
      e = (("i", TRUE, self.copy_val(c, v) if copy else v),)
      self.store(("c", c), seq(e + cur.args[0] if front else cur.args[0] + e))
      self.touch(c)
    self.cases(cont, go)

  def touch(self, c):
    ty = self.typeof(c)
    if ty and ty[0] == "rep":
      self.mark_has(c)

  def copy_val(self, cont, v):
    """Repeated message fields copy the appended message."""
    ty = self.typeof(cont)
    if ty and ty[0] == "rep" and ty[1] and ty[1][0] == "proto":
      return self.freeze(v) if v.op != "ite" else v
    return v

  def extend(self, cont, v, node):
    def go(c):
      cv = self.content(self.simp(v)) if v.op != "call" else seq(
          self.iter_entries(v, node))
      self.emit("extend", "extend", node, args=[self.freeze(cv)], recv=c, raw=v)
      cur = self.content(c)
      self.store(("c", c), seq(cur.args[0] + cv.args[0]))
      self.touch(c)
    self.cases(cont, go)

  def container_method(self, recv, name, args, kwargs, node):
    """Methods of lists, sets, dicts and proto containers. None if not one."""
    ty = self.typeof(recv)
    is_map = self.is_map(recv)
    if recv.op == "seq":
      if name in ("copy", "__iter__"):
        return recv
      return None
    if not is_map and not self.is_list(recv) and not (
        recv.op == "obj" and recv.args[1] in ("list", "set")):
      return None
    a = args[0] if args else None
    if is_map:
      if name in ("items", "keys", "values"):
        return self.map_view(recv, name)
      if name == "get":
        d = args[1] if len(args) > 1 else NONE
        return ite(self.contains(recv, a), self.get_item(recv, a, node), d)
      if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        c = self.contains(recv, a)
        self.branch(c, lambda: None, lambda: self.set_item(recv, a, d, node))
        return self.get_item(recv, a, node)
      if name == "pop":
        v = self.get_item(recv, a, node)
        if len(args) > 1:
          v = ite(self.contains(recv, a), v, args[1])
        self.del_item(recv, a, node)
        return v
      if name == "update" and a is not None:
        c = self.load(("d", a)) if self.is_map(a) else self.content(a)
        self.emit("extend", "update", node, args=[self.freeze(c)], recv=recv)
        self.store(("d", recv), seq(self.load(("d", recv)).args[0] + c.args[0]))
        for k, v in kwargs.items():
          self.set_item(recv, const(k), v, node)
        return NONE
      if name == "clear":
        self.emit("clear", "clear", node, recv=recv)
        self.clear_under(recv)
        self.store(("d", recv), EMPTY)
        return NONE
      if name == "copy":
        o = self.new_obj("dict")
        self.store(("d", o), self.load(("d", recv)))
        for k, v in list(self.state.store.items()):
          if isinstance(k, T) and k.op == "item" and k.args[0] is recv:
            self.store(mk("item", o, k.args[1]), v)
        return o
      if name == "get_or_create":
        return self.get_item(recv, a, node)
      return None
    elem_t = ty[1] if ty and ty[0] == "rep" else None
    if name == "append" or (name == "add" and not (elem_t and
                                                   elem_t[0] == "proto")):
      self.append(recv, a, node)
      return NONE
    if name == "add":
      o = self.new_proto(elem_t[1], kwargs, node)
      self.append(recv, o, node, copy=False)
      return o
    if name in ("extend", "update", "MergeFrom"):
      for x in args:
        self.extend(recv, x, node)
      return NONE
    if name == "insert":
      self.append(recv, args[1], node, front=args[0] is tm.ZERO)
      return NONE
    if name in ("remove", "discard"):
      self.emit("delitem", name, node, args=[a], recv=recv)
      fa = self.freeze(a)
      if self.loop_stack:
        self.store(("c", recv), seq((("splice", TRUE, mk(
            "minus", self.content(recv), fa)),)))
      else:
        self.store(("c", recv), seq(self.filtered(
            self.content(recv).args[0], lambda x: not_(cmp_("==", x, fa)))))
      return NONE
    if name in ("difference", "intersection", "union", "issubset",
                "issuperset") and len(args) == 1 and self.is_setish(recv):
      if name == "union":
        return self.set_union(recv, a)
      if name in ("difference", "intersection"):
        return self.set_filter(recv, a, name == "intersection")
      x, y = (recv, a) if name == "issubset" else (a, recv)
      return not_(truthy(self.load(("c", self.set_filter(x, y, False)))))
    if name == "pop":
      self.emit("delitem", name, node, args=args, recv=recv)
      c = self.content(recv)
      self.store(("c", recv), seq((("splice", TRUE, mk(
          "without", c, a or const(-1))),)))
      return tm.item(c, a or const(-1))
    if name == "clear":
      self.emit("clear", "clear", node, recv=recv)
      self.store(("c", recv), EMPTY)
      return NONE
    if name == "sort":
      kwargs = self.sort_keys(recv, kwargs, node)
      self.emit("mutate", "sort", node, recv=recv)
      self.store(("c", recv), seq((("splice", TRUE, mk_call(
          mk("ext", "sorted"), (self.unsplice(self.content(recv), recv),),
          tuple(sorted(kwargs.items())))),)))
      return NONE
    if name == "reverse":
      self.emit("mutate", "reverse", node, recv=recv)
      self.store(("c", recv), seq((("splice", TRUE, tm.rev(
          self.unsplice(self.content(recv), recv))),)))
      return NONE
    if name == "copy":
      return self.new_list(self.content(recv))
    if name in ("difference_update", "intersection_update"):
      c = self.content(recv)
      self.emit("mutate", name, node, recv=recv, args=[self.freeze(a)])
      ents = self.filtered(c.args[0], lambda x: self.contains(a, x)
                           if name.startswith("inter")
                           else not_(self.contains(a, x)))
      self.store(("c", recv), seq(ents))
      return NONE
    return None

  def contains(self, cont, v):
    cont = self.simp(cont)
    if cont.op == "ite":
      c, a, b = cont.args
      return or_(and_(c, self.contains(a, v)), and_(not_(c), self.contains(b, v)))
    if self.is_map(cont):
      pairs = self.load(("d", cont))
      ks = self.map_keys(pairs)
      if cont.op != "obj":
        # Symbolic map with its own entries first.
        alts = []
        for e in ks.args[0]:
          if e[0] == "splice" and e[2].op == "keys":
            alts.append(and_(e[1], cmp_("in", v, e[2].args[0])))
          elif e[0] == "i":
            alts.append(and_(e[1], cmp_("==", v, e[2])))
          else:
            alts.append(cmp_("in", v, seq((e,))))
        return or_(*alts) if alts else FALSE
      return cmp_("in", v, ks)
    if cont.op == "obj" and cont.args[1] in ("list", "set"):
      c = self.content(cont)
      return cmp_("in", v, self.unsplice(c, cont))
    if cont.op == "seq":
      return cmp_("in", v, self.unsplice(cont, cont))
    return cmp_("in", v, self.freeze(cont))

  # ------------------------------------------------------------- expressions

  def ev(self, n):
    m = getattr(self, "e_" + type(n).__name__, None)
    if m is None:
      return self.unk(n, f"expression {type(n).__name__}")
    r = m(n)
    if r is None:
      return NONE
    return r

  def e_Constant(self, n):
    if n.value is Ellipsis:
      return NONE
    return const(n.value)

  def e_Name(self, n):
    return self.get_var(n.id, n)

  def e_Attribute(self, n):
    return self.get_attr(self.ev(n.value), n.attr, n)

  def e_NamedExpr(self, n):
    v = self.ev(n.value)
    self.assign(n.target, v)
    return v

  def e_Subscript(self, n):
    base = self.ev(n.value)
    if base.op in ("cls",) or (base.op == "ext" and base.args[0].startswith(
        "typing")):
      return base
    return self.get_item(base, self.ev(n.slice), n)

  def e_Slice(self, n):
    return mk("slice", self.ev(n.lower) if n.lower else NONE,
              self.ev(n.upper) if n.upper else NONE,
              self.ev(n.step) if n.step else NONE)

  def e_Starred(self, n):
    return mk("star", self.ev(n.value))

  def elts(self, nodes):
    out = []
    for e in nodes:
      if isinstance(e, ast.Starred):
        c = self.ev(e.value)
        out.extend(self.iter_entries(self.simp(c), e))
      else:
        out.append(("i", TRUE, self.ev(e)))
    return seq(tuple(out))

  def e_Tuple(self, n):
    return self.elts(n.elts)

  def e_List(self, n):
    return self.new_list(self.elts(n.elts))

  def e_Set(self, n):
    return self.new_list(self.elts(n.elts), "set")

  def e_Dict(self, n):
    o = self.new_dict()
    for k, v in zip(n.keys, n.values):
      if k is None:
        src = self.ev(v)
        pairs = self.load(("d", src)) if self.is_map(src) else seq(
            (("splice", TRUE, mk("items", src)),))
        self.store(("d", o), seq(self.load(("d", o)).args[0] + pairs.args[0]))
      else:
        self.set_item(o, self.ev(k), self.ev(v))
    return o

  def e_JoinedStr(self, n):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant):
        parts.append(const(v.value))
      else:
        x = self.freeze(self.ev(v.value))
        if v.conversion not in (-1, 115) or v.format_spec is not None:
          x = mk("fmt", x)
        parts.append(x)
    return tm.cat(parts)

  def e_FormattedValue(self, n):
    return self.ev(n.value)

  def e_IfExp(self, n):
    c = self.truth(self.ev(n.test))
    return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

  def e_BoolOp(self, n):
    is_and = isinstance(n.op, ast.And)
    vals = n.values

    def go(i):
      v = self.ev(vals[i])
      if i == len(vals) - 1:
        return v
      t = self.truth(v)
      if is_and:
        return self.branch(t, lambda: go(i + 1),
                           lambda: FALSE if tm.is_boolean(v) else v)
      return self.branch(t, lambda: TRUE if tm.is_boolean(v) else v,
                         lambda: go(i + 1))

    return go(0)

  def e_UnaryOp(self, n):
    v = self.ev(n.operand)
    if isinstance(n.op, ast.Not):
      return not_(self.truth(v))
    if isinstance(n.op, ast.USub):
      return tm.neg(v)
    if isinstance(n.op, ast.Invert):
      if self.simp(v) is NONE:
        return self.fails("TypeError", n)
      return mk("inv", v)
    return v

  def e_BinOp(self, n):
    return self.binop(BIN[type(n.op)], self.ev(n.left), self.ev(n.right), n)

  def is_strish(self, t):
    if t.op == "cat":
      return True
    if t.op == "const":
      return isinstance(t.args[0], (str, bytes))
    ty = self.typeof(t)
    return bool(ty and ty[0] == "scalar" and ty[1] in ("str", "string"))

  def binop(self, op, a, b, node):
    a, b = self.simp(a), self.simp(b)
    if op == "+":
      if self.is_strish(a) or self.is_strish(b):
        return tm.cat([a, b])
      la = a.op == "seq" or self.is_list(a)
      lb = b.op == "seq" or self.is_list(b)
      if la or lb:
        return self.new_list(seq(self.content(a).args[0] +
                                 self.content(b).args[0]))
      if a.op == "ite" and any(self.is_list(x) or x.op == "seq"
                               for x in a.args[1:]):
        return self.cases(a, lambda x: self.binop(op, x, b, node))
      try:
        return tm.plus(a, b)
      except TypeError:
        return mk("binop", "+", a, b)
    if op == "-":
      if self.is_setish(a) or self.is_setish(b):
        return self.set_filter(a, b, False)
      if a.op == b.op == "obj" and a.args[1] == b.args[1] == "list":
        return self.fails("TypeError", node)
      return tm.minus(a, b)
    if op == "*":
      if a.op == "obj" or b.op == "obj":
        l, k = (a, b) if a.op == "obj" else (b, a)
        return self.new_list(seq((("splice", TRUE, mk(
            "repeat", self.freeze(l), self.freeze(k))),)))
      return tm.times(a, b)
    if op in ("|", "&", "^"):
      if a is NONE and b.op != "obj":
        return self.fails("TypeError", node)
      if a.op == "obj" and a.args[1] == "dict":
        o = self.new_obj("dict")
        self.store(("d", o), seq(self.load(("d", a)).args[0] +
                                 (self.load(("d", b)).args[0])))
        return o
      if self.is_setish(a) or self.is_setish(b):
        return self.set_union(a, b) if op == "|" else self.set_filter(
            *sorted((a, b), key=lambda t: t.uid), True) if op == "&" else mk(
                "setop", op, self.freeze(a), self.freeze(b))
      if tm.is_boolean(a) and tm.is_boolean(b) and not tm.is_arrow_expr(a) and \
          not self.maybe_expr(a) and not self.maybe_expr(b):
        return and_(a, b) if op == "&" else or_(a, b)
    if a.op == "const" and b.op == "const":
      try:
        x, y = a.args[0], b.args[0]
        if op == "//":
          return const(x // y)
        if op == "%":
          return const(x % y)
      except (TypeError, ZeroDivisionError):
        pass
    return mk("binop", op, self.freeze(a), self.freeze(b))

  def maybe_expr(self, t):
    return t.op == "cmp"

  def filtered(self, ents, keep):
    """Entries restricted to the elements x with keep(x)."""
    out = []
    for e in ents:
      if e[0] == "i":
        out.append(("i", and_(e[1], keep(e[2])), e[2]))
      elif e[0] == "splice":
        n = tm.fresh_id()
        x = self.elem_of(e[2], n)
        out.append(("each", e[2], n, e[1], (("i", keep(x), x),)))
      else:
        out.append(("each", e[1], e[2], e[3],
                    tuple(self.filtered(e[4], keep))))
    return tuple(out)

  def set_filter(self, a, b, inside):
    ents = self.filtered(self.content(a).args[0], lambda x: self.contains(b, x)
                         if inside else not_(self.contains(b, x)))
    return self.new_list(seq(ents), "set")

  def set_union(self, a, b):
    return self.new_list(seq(self.content(a).args[0] + self.content(b).args[0]),
                         "set")

  def truth(self, v):
    """The condition that a value is true, by the content of containers."""
    v = self.simp(v)
    if v.op == "ite":
      c, a, b = v.args
      return or_(and_(c, self.truth(a)), and_(not_(c), self.truth(b)))
    if v.op == "obj" and v.args[1] in ("list", "set"):
      return self.freeze(truthy(self.load(("c", v))))
    if v.op == "obj" and v.args[1] == "dict":
      return self.freeze(truthy(self.map_keys(self.load(("d", v)))))
    if v.op in ("attr", "item") and self.is_list(v):
      c = self.load(("c", v))
      return self.freeze(truthy(self.unsplice(c, v)))
    if v.op in ("attr", "item") and self.is_map(v) and self.dirty(v):
      return self.freeze(truthy(self.map_keys(self.load(("d", v)))))
    if v.op == "obj":
      ty = self.typeof(v)
      if ty and ty[0] == "inst" and ty[1] in self.p.classes and not any(
          self.p.find_method(self.p.classes[ty[1]], m)[0] is not None
          for m in ("__bool__", "__len__")):
        return TRUE
    return truthy(v)

  def is_setish(self, t):
    if t.op == "obj" and t.args[1] == "set" or t.op in ("setv", "setop"):
      return True
    ty = self.typeof(t)
    return bool(ty and ty[0] == "set") or (
        t.op == "call" and tm.call_name(t) == "set")

  def e_Compare(self, n):
    left = self.ev(n.left)
    out = []
    for op, right in zip(n.ops, n.comparators):
      r = self.ev(right)
      out.append(self.compare(CMP[type(op)], left, r))
      left = r
    return and_(*out) if len(out) > 1 else out[0]

  def compare(self, op, a, b):
    a, b = self.simp(a), self.simp(b)
    if op in ("in", "not in"):
      c = self.contains(b, self.freeze(a) if a.op == "obj" and a.args[1] in (
          "list",) else a)
      return c if op == "in" else not_(c)
    if op in ("is", "is not"):
      if b is NONE and self.never_none(a):
        return tm.FALSE if op == "is" else TRUE
      return cmp_(op, a, b)
    fa, fb = self.freeze(a), self.freeze(b)
    if op in ("==", "!="):
      if fa is EMPTY and fb is not EMPTY:
        fa, fb, a, b = fb, fa, b, a
      if fb is EMPTY:
        t = truthy(fa)
        if not self.never_none(a):
          t = or_(t, cmp_("is", fa, NONE))
        return not_(t) if op == "==" else t
    return cmp_(op, fa, fb)

  def never_none(self, a):
    """Values of message fields are never None."""
    if a.op == "ite":
      return self.never_none(a.args[1]) and self.never_none(a.args[2])
    if a.op not in ("attr", "item"):
      return False
    b = a
    while b.op in ("attr", "item"):
      b = b.args[0]
      ty = self.typeof(b)
      if ty and ty[0] == "proto":
        return self.typeof(a) is not None
      if ty and ty[0] not in ("rep", "map"):
        return False
    return False

  def e_Lambda(self, n):
    f = self.frames[-1]
    fi = self.p.add_fn(f"{f.fn.qual if f.fn else f.module.name}.<lambda>", n,
                       f.module, f.cls)
    self.frame_defs[f.id] = f
    return mk("func", fi.fid, f.id)

  def comp(self, gens, elt):
    """Evaluates a comprehension; elt() adds to the result container."""
    if not gens:
      elt()
      return
    g = gens[0]
    it = self.ev(g.iter)

    def body():
      conds = [c for c in g.ifs]

      def go(k):
        if k == len(conds):
          self.comp(gens[1:], elt)
          return
        self.branch(self.truth(self.ev(conds[k])), lambda: go(k + 1), lambda: None)

      go(0)

    self.run_loop(it, lambda v: self.assign(g.target, v), body, g.iter)

  def e_ListComp(self, n):
    out = self.new_list()
    self.comp(n.generators, lambda: self.quiet_append(out, self.ev(n.elt)))
    return out

  def quiet_append(self, cont, v):
    cur = self.content(cont)
    self.store(("c", cont), seq(cur.args[0] + (("i", TRUE, v),)))

  def e_GeneratorExp(self, n):
    return self.content(self.e_ListComp(n))

  def e_SetComp(self, n):
    out = self.new_list(kind="set")
    self.comp(n.generators, lambda: self.quiet_append(out, self.ev(n.elt)))
    return out

  def e_DictComp(self, n):
    out = self.new_dict()
    self.comp(n.generators, lambda: self.set_item(out, self.ev(n.key),
                                                  self.ev(n.value)))
    return out

  def e_Yield(self, n):
    v = self.ev(n.value) if n.value else NONE
    self.do_yield(v, n)
    return NONE

  def do_yield(self, v, n):
    f = self.frames[-1]
    loc = mk("yields", f.id)
    self.emit("yield", "", n, args=[self.freeze(v)], raw=v)
    cur = self.state.store.get(("c", loc), EMPTY)
    self.store(("c", loc), seq(cur.args[0] + (("i", TRUE, v),)))

  def e_YieldFrom(self, n):
    v = self.ev(n.value)
    ents = self.iter_entries(self.simp(v), n)
    f = self.frames[-1]
    loc = mk("yields", f.id)
    cur = self.state.store.get(("c", loc), EMPTY)
    self.store(("c", loc), seq(cur.args[0] + tuple(ents)))
    return NONE

  # ------------------------------------------------------------------- calls

  def e_Call(self, n):
    # super()
    if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
      f = self.frames[-1]
      if f.cls is not None and f.self_ is not None:
        ty = self.typeof(f.self_)
        cls = ty[1] if ty and ty[0] == "inst" else f.cls.qual
        return mk("super", cls, f.cls.qual, f.self_)
    f = None
    recv = None
    if isinstance(n.func, ast.Attribute):
      recv = self.ev(n.func.value)
      args, kwargs = self.call_args(n)
      return self.call_method(recv, n.func.attr, args, kwargs, n)
    f = self.ev(n.func)
    args, kwargs = self.call_args(n)
    return self.call(f, args, kwargs, n)

  def call_args(self, n):
    args, kwargs = [], {}
    for a in n.args:
      if isinstance(a, ast.Starred):
        v = self.simp(self.ev(a.value))
        items = tm.seq_items(self.content(v)) if v.op in ("seq", "obj") else None
        if items is None:
          args.append(mk("star", v))
        else:
          args.extend(items)
      else:
        args.append(self.ev(a))
    for k in n.keywords:
      v = self.ev(k.value)
      if k.arg is None:
        if v.op == "obj" and v.args[1] == "dict":
          pairs = tm.seq_items(self.load(("d", v)))
          if pairs is not None:
            for p in pairs:
              kk = tm.item(p, const(0))
              if kk.op == "const":
                kwargs[kk.args[0]] = tm.item(p, const(1))
            continue
        kwargs["**"] = v
      else:
        kwargs[k.arg] = v
    return args, kwargs

  def call_method(self, recv, name, args, kwargs, node):
    recv = self.simp(recv)
    if recv.op == "ite":
      c, a, b = recv.args
      if a is NONE:
        return self.call_method(b, name, args, kwargs, node)
      if b is NONE:
        return self.call_method(a, name, args, kwargs, node)
      return self.branch(
          c, lambda: self.call_method(a, name, args, kwargs, node),
          lambda: self.call_method(b, name, args, kwargs, node))
    # Ray remote wrappers.
    if name == "remote" and recv.op in ("func", "cls", "bmeth", "deco"):
      if recv.op != "cls":
        self.emit("remote", tm.show(recv, 2), node, args, kwargs)
      return self.call(recv, args, kwargs, node)
    if name == "options" and recv.op in ("func", "cls", "bmeth"):
      return recv
    if recv.op == "rbound" and name == "remote":
      self.emit("remote", recv.args[1], node, args, kwargs)
      return self.call_method(recv.args[0], recv.args[1], args, kwargs, node)
    if recv.op == "seq" and name in ("append", "extend"):
      return self.unk(node, "mutation of a tuple")
    if recv.op == "setv" or recv.op == "obj" or recv.op in (
        "attr", "item", "sym", "mu", "elem", "seq", "last", "first", "fold"):
      r = self.container_method(recv, name, args, kwargs, node)
      if r is not None:
        return r
    ty = self.typeof(recv)
    if ty and ty[0] == "proto":
      r = self.proto_method(recv, name, args, kwargs, node)
      if r is not None:
        return r
    if ty and ty[0] == "inst" and ty[1] in self.p.classes:
      loc = attr(recv, name)
      if loc not in self.state.store:
        cls = self.p.classes[ty[1]]
        m, owner = self.p.find_method(cls, name)
        if m is not None:
          qual = f"{owner.qual}.{name}"
          cut = self.cut_for(cls, name)
          if cut is not None:
            return self.run_cut(cut, recv, name, args, kwargs, node)
          if self.opaque_method(recv, cls, m, name):
            t = self.ret_typed(mk_call(mk("attr", recv, name), [
                self.freeze(x) for x in args], tuple(sorted(
                    (k, self.freeze(v)) for k, v in kwargs.items()))), m)
            self.emit("vcall", f"{cls.qual}.{name}", node, args, kwargs, recv, t)
            return t
          del qual
          if name == "__iter__":
            pass
    f = self.get_attr(recv, name, node)
    if f.op in ("func", "bmeth", "cls", "partial", "ext", "deco", "rbound"):
      return self.call(f, args, kwargs, node)
    if f.op == "ite":
      return self.cases(f, lambda x: self.call(x, args, kwargs, node))
    # Method of a Ray actor: actor.method.remote(...).
    return self.ext_call(mk("attr", recv, name), args, kwargs, node, recv, name)

  def cut_for(self, cls, name):
    for c in self.p.mro(cls):
      q = f"{c.qual}.{name}"
      if q in self.cuts:
        return q
    return None

  def run_cut(self, qual, recv, name, args, kwargs, node):
    """A call replaced by its contract."""
    fi = self.method(qual.rsplit(".", 1)[0], name)
    bound = self.bind_names(fi, args, kwargs)
    handler = self.cuts[qual]
    t = self.ret_typed(mk("opaque", qual, tm.fresh_id(), None), fi)
    ev = self.emit("cut", qual, node, args, bound, recv, t)
    if handler is not None:
      r = handler(self, recv, bound, t, ev)
      if r is not None:
        if ev is not None:
          ev.result = r
        return r
    return t

  def bind_names(self, fi, args, kwargs):
    names = [a.arg for a in fi.node.args.args]
    if fi.cls is not None and names and names[0] in ("self", "cls"):
      names = names[1:]
    out = dict(zip(names, args))
    out.update(kwargs)
    defaults = fi.node.args.defaults
    allnames = [a.arg for a in fi.node.args.args]
    for nm, d in zip(allnames[len(allnames) - len(defaults):], defaults):
      if nm not in out and isinstance(d, ast.Constant):
        out[nm] = const(d.value)
    return out

  def ret_typed(self, t, fi):
    ty = self.type_of_ann(fi.module, getattr(fi.node, "returns", None))
    if ty:
      self._types[t.uid] = ty
    return t

  def havoc(self, obj):
    """The object's fields may have changed: their values become new symbols."""
    self.clear_under(obj)
    v = mk("ver", obj, tm.fresh_id())
    self._types[v.uid] = self.typeof(obj)
    return v

  def proto_method(self, recv, name, args, kwargs, node):
    a = args[0] if args else None
    if name == "CopyFrom":
      self.emit("copy", name, node, args=[self.freeze(a)], recv=recv, raw=a)
      self.copy_into(recv, a, node)
      return NONE
    if name == "MergeFrom":
      self.emit("merge", name, node, args=[self.freeze(a)], recv=recv, raw=a)
      self.merge_proto(recv, a, node)
      return NONE
    if name == "HasField":
      return self.has_field(recv, a)
    if name == "ClearField":
      if a.op == "const":
        loc = attr(recv, a.args[0])
        self.emit("clear", a.args[0], node, recv=recv)
        self.clear_under(loc)
        self.store(("copy", loc), NONE)
        self.store(("h", loc), FALSE)
      return NONE
    if name == "Clear":
      self.emit("clear", "", node, recv=recv)
      self.clear_under(recv)
      self.store(("copy", recv), NONE)
      return NONE
    if name in ("GetCurrentTime", "FromDatetime", "FromSeconds"):
      t = mk("fresh", tm.fresh_id(), mk_call(mk("ext", "." + name), args, ()))
      ty = self.typeof(recv)
      self._types[t.uid] = ty
      self.clear_under(recv)
      self.store(("copy", recv), t)
      self.mark_has(recv)
      self.emit("call", "." + name, node, args, kwargs, recv, t)
      return NONE
    if name == "SetInParent":
      self.mark_has(recv)
      return NONE
    if name == "ParseFromString":
      ty = self.typeof(recv)
      t = self.parsed.get(ty[1]) if ty else None
      if t is None:
        t = mk("fresh", tm.fresh_id(), mk_call(mk("ext", "." + name), args, ()))
      self._types[t.uid] = ty
      self.clear_under(recv)
      self.store(("copy", recv), t)
      self.mark_has(recv)
      self.emit("call", "." + name, node, args, kwargs, recv, t)
      return NONE
    if name == "WhichOneof":
      which = self.which_oneof(recv, a)
      if which is not None:
        return which
      return mk_call(mk("attr", self.freeze(recv), name), [a], ())
    return None

  def has_field(self, recv, a):
    def go(r):
      if a.op != "const":
        return mk("has", mk("item", r, a))
      if r.op == "msg" and (r.args[2] is None or r.args[2] is NONE) and \
          r.args[0] in self.p.protos:
        return const(any(k[0] == "." + a.args[0] for k, _ in r.args[1]))
      loc = attr(r, a.args[0])
      return self.load(("h", loc))
    return self.cases(recv, go)

  def which_oneof(self, recv, a):
    """The field of a oneof that is set, if all presences are known."""
    ty = self.typeof(recv)
    names = self.p.oneofs.get(ty[1], {}).get(a.args[0]) if ty and \
        a.op == "const" else None
    if names is None or recv.op == "ite":
      return None
    set_ = []
    for n in names:
      h = self.has_field(recv, const(n))
      if h.op != "const":
        return None
      if h.args[0]:
        set_.append(n)
    return const(set_[0]) if len(set_) == 1 else NONE if not set_ else None

  def merge_proto(self, dst, src, node):
    """MergeFrom: repeated fields are concatenated, others overwritten if set."""
    ty = self.typeof(dst)
    if ty is None or ty[1] not in self.p.protos:
      self.copy_into(dst, src, node)
      return

    def rec(d, s, msg):
      for fname in self.p.protos[msg]:
        ft = self.p.proto_field(msg, fname)
        dl, sl = attr(d, fname), attr(s, fname)
        if ft[0] == "rep":
          c = self.content(sl)
          cur = self.content(dl)
          self.store(("c", dl), seq(cur.args[0] + c.args[0]))
        elif ft[0] == "map":
          self.store(("d", dl), seq(self.load(("d", dl)).args[0] +
                                    self.load(("d", sl)).args[0]))
        elif ft[0] == "proto" and ft[1] in self.p.protos:
          if ft[1] != msg:
            rec(dl, sl, ft[1])
        else:
          v, old = self.get_attr(s, fname, node), self.get_attr(d, fname, node)
          if ft[0] == "proto":
            self.store(dl, mk("merged", old, v))
          else:
            self.store(dl, ite(truthy(v), v, old))
        h = or_(self.load(("h", dl)), self.load(("h", sl)))
        self.store(("h", dl), h)

    self.cases(src, lambda s: rec(dst, s, ty[1]))

  def new_proto(self, name, kwargs, node, args=()):
    o = self.new_obj("proto:" + name)
    for k, v in kwargs.items():
      if k == "**":
        continue
      loc = attr(o, k)
      ft = self.p.proto_field(name, k)
      if v is NONE:
        continue
      if ft and ft[0] == "proto" or (ft is None and self.typeof(v) and
                                     self.typeof(v)[0] == "proto"):
        self.copy_into(loc, v, node)
      elif ft and ft[0] == "rep" or (ft is None and (
          v.op == "seq" or v.op == "obj" and v.args[1] == "list")):
        c = self.content(v)
        self.store(("c", loc), self.freeze(c) if ft and ft[1] and ft[1][
            0] == "proto" else c)
        self.mark_has(loc)
      elif ft and ft[0] == "map":
        self.store(("d", loc), self.load(("d", v)) if self.is_map(v)
                   else self.content(v))
      else:
        self.store(loc, v)
        self.mark_has(loc)
    return o

  def call(self, f, args, kwargs, node):
    f = self.simp(f)
    op = f.op
    if op == "ite":
      return self.cases(f, lambda x: self.call(x, args, kwargs, node))
    if op == "bmeth":
      fn, recv = f.args
      if fn.op == "deco":
        fn = fn.args[1]
      return self.call(fn, [recv] + list(args), kwargs, node)
    if op == "deco":
      return self.call(f.args[1], args, kwargs, node)
    if op == "partial":
      fn, a0, k0 = f.args
      return self.call(fn, list(a0) + list(args), {**dict(k0), **kwargs}, node)
    if op == "func":
      return self.call_fn(f, args, kwargs, node)
    if op == "cls":
      return self.instantiate(f.args[0], args, kwargs, node)
    if op == "ext":
      return self.ext_call(f, args, kwargs, node)
    if op == "rbound":
      return self.call_method(f.args[0], f.args[1], args, kwargs, node)
    if op == "attr":
      return self.ext_call(f, args, kwargs, node, f.args[0], f.args[1])
    return self.ext_call(f, args, kwargs, node)

  def instantiate(self, qual, args, kwargs, node):
    cls = self.p.classes[qual]
    if self.p.is_enum(cls):
      return mk_call(mk("cls", qual), args, ())
    o = self.new_obj(qual)
    m, owner = self.p.find_method(cls, "__init__")
    ext = self.p.ext_bases(cls)
    # The nearest class of the MRO that has or generates a constructor.
    maker = next((c for c in self.p.mro(cls) if "__init__" in c.methods or
                  self.p.is_dataclass(c)), None)
    generated = maker is not None and "__init__" not in maker.methods
    if m is not None and not generated:
      if qual + ".__init__" in self.cuts:
        self.emit("cut", qual, node, args, kwargs, o, o)
        return o
      self.call_fn(self.fn_term(m), [o] + list(args), kwargs, node)
    elif generated:
      self.dataclass_init(maker, o, args, kwargs, node)
    elif any(b.endswith(("Exception", "Error")) for b in ext):
      self.store(attr(o, "args"), seq(tuple(("i", TRUE, a) for a in args)))
    else:
      for i, a in enumerate(args):
        self.store(attr(o, f"${i}"), a)
    self.emit("new", qual, node, args, kwargs, o, o)
    return o

  def dataclass_fields(self, cls):
    out = []
    for c in reversed(self.p.mro(cls)):
      if not self.p.is_dataclass(c):
        continue
      for name, ann in c.annots.items():
        d = c.assigns.get(name)
        init = True
        if isinstance(d, ast.Call) and self.p.dotted(c.module, d.func).endswith(
            "field"):
          for k in d.keywords:
            if k.arg == "init" and isinstance(k.value, ast.Constant):
              init = bool(k.value.value)
        out = [x for x in out if x[0] != name]
        out.append((name, ann, d, c, init))
    return out

  def dataclass_init(self, cls, o, args, kwargs, node):
    fields = self.dataclass_fields(cls)
    args = list(args)
    star = [a for a in args if a.op == "star"]
    if star:
      src = star[0].args[0]
      k = 0
      new = []
      for a in args:
        if a.op == "star":
          n_left = len([f for f in fields if f[4]]) - (len(args) - 1)
          new.extend(self.get_item(src, const(i), node) for i in range(n_left))
        else:
          new.append(a)
      del k
      args = new
    pos = [f for f in fields if f[4]]
    vals = dict(zip([f[0] for f in pos], args))
    vals.update(kwargs)
    for name, _, d, c, init in fields:
      if name in vals:
        v = vals[name]
      elif d is None or not init:
        continue
      elif isinstance(d, ast.Call) and self.p.dotted(c.module, d.func).endswith(
          "field"):
        v = None
        for k in d.keywords:
          if k.arg == "default":
            v = self.ev_in(c.module, k.value)
          elif k.arg == "default_factory":
            v = self.call(self.ev_in(c.module, k.value), [], {}, node)
        if v is None:
          continue
      else:
        v = self.ev_in(c.module, d, c)
      self.store(attr(o, name), v)
    m, _ = self.p.find_method(cls, "__post_init__")
    if m is not None:
      self.call_fn(self.fn_term(m), [o], {}, node)

  def ev_in(self, module, node, cls=None):
    fr = Frame(tm.fresh_id(), None, module)
    self.frames.append(fr)
    try:
      if cls is not None:
        for k in cls.nested:
          self.state.store[("v", fr.id, k)] = mk("cls", cls.nested[k].qual)
      return self.ev(node)
    finally:
      self.frames.pop()

  def call_fn(self, f, args, kwargs, node):
    if f.op == "deco":
      f = f.args[1]
    if f.op != "func":
      return self.call(f, args, kwargs, node)
    fi = self.p.fns[f.args[0]]
    active = sum(1 for fr in self.frames if fr.fn is fi)
    if active > self.max_recursion or len(self.frames) > MAX_DEPTH or \
        fi.qual in self.no_inline:
      t = mk_call(mk("rec", fi.qual), [self.freeze(a) for a in args], tuple(
          sorted((k, self.freeze(v)) for k, v in kwargs.items())))
      self.ret_typed(t, fi)
      self.emit("rec", fi.qual, node, args, self.bind_all(fi, args, kwargs),
                None, t)
      return t
    if fi.qual in self.cuts:
      bound = self.bind_all(fi, args, kwargs)
      t = self.ret_typed(mk("opaque", fi.qual, tm.fresh_id(), None), fi)
      ev = self.emit("cut", fi.qual, node, args, bound,
                     args[0] if fi.cls is not None and args else None, t)
      h = self.cuts[fi.qual]
      if h is not None:
        r = h(self, args[0] if args else None, bound, t, ev)
        if r is not None:
          if ev is not None:
            ev.result = r
          return r
      return t
    self.functions.add(fi.qual)
    parent = self.frame_defs.get(f.args[1]) if f.args[1] else None
    fr = Frame(tm.fresh_id(), fi, fi.module, parent, fi.cls)
    if fi.cls is not None and args:
      fr.self_ = args[0]
    elif parent is not None and parent.self_ is not None:
      fr.self_ = parent.self_
    ev = self.emit("enter", fi.qual, node, args, self.bind_all(fi, args, kwargs),
                   args[0] if fi.cls is not None and args else None)
    self.frames.append(fr)
    fr.base = self.state.cond
    loop_ctx, self.loop_ctx = self.loop_ctx, []
    try:
      self.bind_params(fi, fr, args, kwargs, node)
      if fi.is_gen:
        self.state.store[("c", mk("yields", fr.id))] = EMPTY
      if isinstance(fi.node, ast.Lambda):
        v = self.ev(fi.node.body)
        result = v
      else:
        self.block(fi.node.body)
        result = self.finish_frame(fr, fi)
    finally:
      self.frames.pop()
      self.loop_ctx = loop_ctx
    if ev is not None:
      ev.result = result
    self.emit("exit", fi.qual, node, args, {}, fr.self_, result)
    if result is not None and self.typeof(result) is None and result.op in (
        "call", "attr", "item", "mu", "unk", "opaque", "fold", "elem"):
      self.ret_typed(result, fi)
    return result

  def finish_frame(self, fr, fi):
    base = fr.base
    flows = [st for st, _ in fr.returns]
    vals = [v for _, v in fr.returns]
    if self.state.live:
      flows.append(self.state)
      vals.append(NONE)
    live = [(s, v) for s, v in zip(flows, vals) if s.live]
    if not live:
      self.state = State({}, base, False)
      return NONE
    result = live[-1][1]
    for s, v in reversed(live[:-1]):
      result = self.merge_val(rel(s.cond, base), v, result)
    self.state = self.merge([s for s, _ in live], base)
    if fi.is_gen:
      return self.state.store.get(("c", mk("yields", fr.id)), EMPTY)
    return self.simp(result)

  def bind_all(self, fi, args, kwargs):
    names = [a.arg for a in fi.node.args.args]
    out = dict(zip(names, args))
    out.update(kwargs)
    return out

  def bind_params(self, fi, fr, args, kwargs, node):
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
    args, kwargs = list(args), dict(kwargs)
    stars = [x for x in args if x.op == "star"]
    if stars:
      # f(*args) with an unknown argument tuple.
      k = args.index(stars[0])
      src = stars[0].args[0]
      rest = names[k:]
      args = args[:k]
      for i, nm in enumerate(rest):
        if nm not in kwargs:
          args.append(self.get_item(src, const(i), node))
    extra = args[len(names):]
    for nm, v in zip(names, args):
      self.bind_one(fr, nm, v, anns.get(nm))
    given = set(names[:len(args)])
    defaults = list(a.defaults)
    dnames = names[len(names) - len(defaults):]
    for nm in names:
      if nm in given:
        continue
      if nm in kwargs:
        self.bind_one(fr, nm, kwargs.pop(nm), anns.get(nm))
      elif nm in dnames:
        self.bind_one(fr, nm, self.ev_default(fi, defaults[dnames.index(nm)]),
                      anns.get(nm))
      elif "**" in kwargs:
        self.bind_one(fr, nm, mk("item", kwargs["**"], const(nm)), anns.get(nm))
      else:
        self.state.store[("v", fr.id, nm)] = unk(f"unbound {nm}")
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
      if x.arg in kwargs:
        self.bind_one(fr, x.arg, kwargs.pop(x.arg), anns.get(x.arg))
      elif d is not None:
        self.bind_one(fr, x.arg, self.ev_default(fi, d), anns.get(x.arg))
    if a.vararg is not None:
      self.state.store[("v", fr.id, a.vararg.arg)] = tm.tuple_(extra)
    if a.kwarg is not None:
      o = self.new_dict([(const(k), v) for k, v in kwargs.items() if k != "**"])
      self.state.store[("v", fr.id, a.kwarg.arg)] = o

  def ev_default(self, fi, node):
    key = ("default", fi.fid, id(node))
    if key not in self.genv:
      self.genv[key] = self.at_definition(fi.module, lambda: self.ev(node))
    return self.genv[key]

  def bind_one(self, fr, name, v, ann):
    if ann is not None and v.op in ("call", "attr", "item", "elem", "mu", "unk",
                                    "opaque", "fresh", "first", "last",
                                    "fold") and self.typeof(v) is None:
      ty = self.type_of_ann(fr.module, ann)
      if ty:
        self._types[v.uid] = ty
    self.state.store[("v", fr.id, name)] = v

  # ----------------------------------------------------------- external calls

  def sort_keys(self, xs, kwargs, node):
    """A key function is replaced by the keys of the elements."""
    k = kwargs.get("key")
    if k is None:
      return kwargs
    kwargs = {n: v for n, v in kwargs.items() if n != "key"}
    if k is not NONE:
      kwargs["keys"] = self.freeze(self.new_list(self.x_map([k, xs], {}, node)))
    return kwargs

  def ext_call(self, f, args, kwargs, node, recv=None, mname=None):
    name = f.args[0] if f.op == "ext" else (f".{mname}" if mname else "")
    if f.op == "ext" and name in ("sorted", "min", "max") and len(args) == 1:
      kwargs = self.sort_keys(args[0], kwargs, node)
    # Proto messages.
    pn = proto_name(name) if f.op == "ext" else None
    if pn is not None:
      return self.new_proto(pn, kwargs, node)
    h = getattr(self, "x_" + name.replace(".", "_").lstrip("_"), None) \
        if f.op == "ext" else None
    if h is not None:
      r = h(args, kwargs, node)
      if r is not None:
        return r
    if f.op == "ext" and proto_name(name.rsplit(".", 1)[0] if "." in name else ""):
      pass
    fargs = [self.freeze(a) for a in args]
    fkw = {k: self.freeze(v) for k, v in kwargs.items()}
    fa, fk = self.normalise_args(name, fargs, fkw)
    frecv = None
    callee = f
    if recv is not None:
      frecv = self.freeze(recv)
      callee = mk("attr", frecv, mname)
    t = mk_call(callee, fa, tuple(sorted(fk.items())))
    short = name.split(".")[-1]
    if name in IMPURE or (recv is not None and "." + mname in IMPURE):
      t = mk("fresh", tm.fresh_id(), t)
    elif f.op == "ext" and short[:1].isupper() and short not in (
        "Exception", "MessageToString", "MessageToJson", "MessageToDict",
        "ParseDict", "Merge") and not is_type_name(name):
      o = self.new_obj("ext:" + name)
      self.store(("ctor", o), t)
      self.emit("call", name, node, fa, fk, None, o, raw=args)
      return o
    if recv is not None and recv.op == "obj" and recv.args[1].startswith("ext:") \
        and mname in EXT_MUTATORS:
      ops = self.load(("o", recv))
      self.store(("o", recv), seq(ops.args[0] + (("i", TRUE, mk_call(
          mk("ext", mname), fa, tuple(sorted(fk.items())))),)))
    elif recv is not None and mname in MUTATORS and recv.op in (
        "attr", "item", "call", "elem", "mu", "sym", "first", "last", "fold") and \
        isinstance(getattr(node, "parent_expr", None), ast.Expr):
      pass
    ev = self.emit("call", name, node, fa, fk,
                   recv if recv is not None else None, t, raw=args)
    if ev is not None:
      ev.extra = frecv
    if recv is not None and mname in MUTATORS and mname not in (
        "pop", "setdefault") and recv.op in ("attr", "item", "call", "elem", "mu"):
      # Mutation of a container of unknown type.
      c = self.state.store.get(("c", recv)) or seq((("splice", TRUE, recv),))
      if mname in ("append", "add") and args:
        self.store(("c", recv), seq(c.args[0] + (("i", TRUE, args[0]),)))
      elif mname in ("extend",) and args:
        self.store(("c", recv), seq(c.args[0] + self.iter_entries(
            self.simp(args[0]), node)))
      elif mname == "sort":
        self.store(("c", recv), seq((("splice", TRUE, mk_call(
            mk("ext", "sorted"), (self.unsplice(c, recv),), ())),)))
      else:
        self.store(("c", recv), seq((("splice", TRUE, mk(
            "mutated", c, mname, tuple(fa))),)))
      return NONE
    return t

  def normalise_args(self, name, args, kwargs):
    sig = EXT_SIGS.get(name)
    if sig is None and "." in name:
      sig = EXT_SIGS.get("." + name.split(".")[-1]) if name.startswith(
          ".") else None
    if not sig:
      return args, {k: v for k, v in kwargs.items()}
    kw = dict(kwargs)
    rest = []
    for i, a in enumerate(args):
      if i < len(sig):
        kw[sig[i]] = a
      else:
        rest.append(a)
    return rest, {k: v for k, v in kw.items() if v is not NONE}

  # Builtins and library functions with a meaning for the analysis.

  def x_len(self, args, kwargs, node):
    a = self.simp(args[0])
    if a.op == "ite":
      return None
    if self.own_method(a, "__len__"):
      return self.call_method(a, "__len__", [], {}, node)
    if a.op == "seq" or self.is_list(a) or self.is_map(a):
      c = self.content(a)
      items = tm.seq_items(c)
      if items is not None and self.is_map(a) and len(items) > 1 and any(
          k.op != "const" for k in items):
        return mk_call(mk("ext", "len"), (self.freeze(a),), ())
      if items is not None and not (a.op == "obj" and a.args[1] == "set"):
        return const(len(items))
      if a.op == "obj" and a.args[1] == "set":
        return mk_call(mk("ext", "len"), (mk("setv", self.freeze(c)),), ())
      # len([f(x) for x in xs]) is len(xs)
      if len(c.args[0]) == 1:
        e = c.args[0][0]
        if e[0] == "each" and e[3] is TRUE and len(e[4]) == 1 and \
            e[4][0][0] == "i" and e[4][0][1] is TRUE:
          return self.x_len([e[1]], {}, node) or mk_call(
              mk("ext", "len"), (e[1],), ())
      return mk_call(mk("ext", "len"), (self.unsplice(self.freeze(c), a),), ())
    if a.op == "call" and tm.call_name(a) == "range" and len(a.args[1]) == 2 \
        and a.args[1][0] is tm.ZERO:
      return a.args[1][1]
    if a.op == "keys" or a.op == "values" or a.op == "items":
      return mk_call(mk("ext", "len"), (a.args[0],), ())
    return None

  def x_range(self, args, kwargs, node):
    r = mk("ext", "range")
    if len(args) == 1:
      return mk_call(r, (tm.ZERO, args[0]), ())
    if len(args) == 2:
      return mk_call(r, tuple(args), ())
    if args[2] is const(1):
      return mk_call(r, tuple(args[:2]), ())
    if args[2] is const(-1) and args[1] is const(-1):
      return mk("rev", mk_call(r, (tm.ZERO, tm.plus(args[0], const(1))), ()))
    return mk_call(r, tuple(args), ())

  def x_enumerate(self, args, kwargs, node):
    a = self.simp(args[0])
    ents = self.iter_entries(a, node)
    if ents is not None and all(e[0] == "i" and e[1] is TRUE for e in ents):
      return tm.tuple_([tm.tuple_([const(i), e[2]])
                        for i, e in enumerate(ents)])
    if ents is not None and len(ents) == 1:
      e = ents[0]
      if e[0] == "splice" and e[1] is TRUE:
        return mk("enum_", e[2])
      if e[0] == "each" and e[3] is TRUE and len(e[4]) == 1 and \
          e[4][0][0] == "i" and e[4][0][1] is TRUE:
        return seq((("each", e[1], e[2], TRUE, (("i", TRUE, tm.tuple_(
            [mk("idx", e[1], e[2]), e[4][0][2]])),)),))
    if ents is not None:
      # The position of an element of several parts is not followed.
      def go(ents):
        out = []
        for e in ents:
          if e[0] == "i":
            out.append(("i", e[1], tm.tuple_([unk("position"), e[2]])))
          elif e[0] == "splice":
            n = tm.fresh_id()
            out.append(("each", e[2], n, e[1], (("i", TRUE, tm.tuple_(
                [unk("position"), self.elem_of(e[2], n)])),)))
          else:
            out.append(e[:4] + (go(e[4]),))
        return tuple(out)

      return seq(go(ents))
    return mk("enum_", self.freeze(a))

  def x_zip(self, args, kwargs, node):
    conts = [self.iter_entries(self.simp(a), node) for a in args]
    if all(all(e[0] == "i" and e[1] is TRUE for e in c) for c in conts):
      return tm.tuple_([tm.tuple_([e[2] for e in row]) for row in zip(*conts)])
    # zip of sequences built over the same iterable.
    parts = []
    for a, c in zip(args, conts):
      if len(c) == 1 and c[0][0] == "splice" and c[0][1] is TRUE:
        parts.append(c[0][2])
      else:
        parts.append(self.freeze(seq(c)))
    singles = [c[0] for c in conts if len(c) == 1 and c[0][0] == "each" and
               c[0][3] is TRUE and len(c[0][4]) == 1 and
               c[0][4][0][0] == "i" and c[0][4][0][1] is TRUE]
    if len(singles) == len(conts) and all(
        s[1] is singles[0][1] for s in singles):
      n = singles[0][2]
      vals = []
      for s in singles:
        vals.append(tm.rewrite(s[4][0][2], lambda x, o=s[2]: mk(
            x.op, x.args[0], n) if x.op in ("elem", "idx") and x.args[1] == o
                               else None))
      return seq((("each", singles[0][1], n, TRUE, (("i", TRUE, tm.tuple_(
          vals)),)),))
    # A sequence built over xs zipped with xs.
    if len(singles) == 1:
      s = singles[0]
      others = [c for c in conts if not (len(c) == 1 and c[0] is s)]
      if all(len(c) == 1 and c[0][0] == "splice" and c[0][1] is TRUE and
             c[0][2] is s[1] for c in others):
        vals = []
        for c in conts:
          if len(c) == 1 and c[0] is s:
            vals.append(s[4][0][2])
          else:
            vals.append(self.elem_of(s[1], s[2]))
        return seq((("each", s[1], s[2], TRUE, (("i", TRUE, tm.tuple_(vals)),)),))
    return mk("zip_", tuple(parts))

  def _copy_container(self, args, node, kind):
    if not args:
      return self.new_list(EMPTY, kind)
    a = self.simp(args[0])
    if a.op == "ite":
      return self.cases(a, lambda x: self._copy_container([x], node, kind))
    ents = self.iter_entries(a, node)
    return self.new_list(seq(ents), kind)

  def x_list(self, args, kwargs, node):
    return self._copy_container(args, node, "list")

  def x_set(self, args, kwargs, node):
    return self._copy_container(args, node, "set")

  x_frozenset = x_set

  def x_tuple(self, args, kwargs, node):
    return self.content(self._copy_container(args, node, "list"))

  def x_dict(self, args, kwargs, node):
    if not args:
      return self.new_dict([(const(k), v) for k, v in kwargs.items()])
    a = self.simp(args[0])
    o = self.new_obj("dict")
    if self.is_map(a):
      self.store(("d", o), self.load(("d", a)))
      if a.op == "obj":
        for k, v in list(self.state.store.items()):
          if isinstance(k, T) and k.op == "item" and k.args[0] is a:
            self.store(mk("item", o, k.args[1]), v)
      else:
        self.store(("copyof", o), a)
    else:
      self.store(("d", o), seq(self.iter_entries(a, node)))
    for k, v in kwargs.items():
      self.set_item(o, const(k), v, node)
    return o

  def x_iter(self, args, kwargs, node):
    if len(args) == 1 and self.iter_hook is not None:
      # What next() takes from it is known.
      ents = self.iter_entries(self.simp(args[0]), node)
      if all(e[0] == "i" and e[1] is TRUE for e in ents):
        return self.new_list(seq(ents), "list")
    a = self.simp(args[0])
    return seq(self.iter_entries(a, node))

  def x_next(self, args, kwargs, node):
    it = self.simp(args[0])
    ents = self.content(it).args[0] if self.iter_hook is not None and \
        self.is_list(it) else ()
    if not ents or any(e[0] != "i" or e[1] is not TRUE for e in ents):
      return None if self.taken_once(node) else self.unk(
          node, "an element taken from an iterator")
    self.store(("c", it), seq(ents[1:]))
    return ents[0][2]

  def taken_once(self, node):
    """Whether next() is called on a new iterator, or once on a local one."""
    a = node.args[0] if isinstance(node, ast.Call) and node.args else None
    if not isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
      return True
    fn = self.frames[-1].fn.node if self.frames and self.frames[-1].fn else None
    if fn is None or not isinstance(a, ast.Name):
      return False
    uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == a.id and
            isinstance(x.ctx, ast.Load)]
    loops = [x for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While)) and
             any(y is node for y in ast.walk(x))]
    return len(uses) == 1 and not loops

  def x_reversed(self, args, kwargs, node):
    a = self.simp(args[0])
    ents = self.iter_entries(a, node)
    if all(e[0] == "i" for e in ents):
      return seq(tuple(reversed(ents)))
    if len(ents) == 1 and ents[0][0] == "splice":
      return tm.rev(ents[0][2])
    return tm.rev(self.freeze(a))

  def x_map(self, args, kwargs, node):
    out = self.new_list()
    xs = args[1:]
    it = xs[0] if len(xs) == 1 else self.x_zip(xs, {}, node)
    cell = {}

    def bind(v):
      cell["v"] = v

    def body():
      a = [cell["v"]] if len(xs) == 1 else tm.seq_items(cell["v"])
      self.quiet_append(out, self.call(args[0], a, {}, node))

    self.run_loop(it, bind, body, node)
    return self.content(out)

  def x_filter(self, args, kwargs, node):
    out = self.new_list()
    cell = {}

    def bind(v):
      cell["v"] = v

    def body():
      c = cell["v"] if args[0] is NONE else self.call(args[0], [cell["v"]], {},
                                                      node)
      v = cell["v"]
      self.branch(truthy(c), lambda: self.quiet_append(out, v), lambda: None)

    self.run_loop(args[1], bind, body, node)
    return self.content(out)

  def x_any(self, args, kwargs, node):
    return self._quant(args[0], node, lambda v: truthy(v))

  def x_all(self, args, kwargs, node):
    return not_(self._quant(args[0], node, lambda v: not_(truthy(v))))

  def _quant(self, it, node, f):
    def go(ents):
      alts = []
      for e in ents:
        if e[0] == "i":
          alts.append(and_(e[1], f(e[2])))
        elif e[0] == "splice":
          n = tm.fresh_id()
          alts.append(and_(e[1], tm.exists(e[2], n, f(self.elem_of(e[2], n)))))
        else:
          alts.append(tm.exists(e[1], e[2], and_(e[3], go(e[4]))))
      return or_(*alts) if alts else FALSE

    return go(self.iter_entries(self.simp(it), node))

  def x_sum(self, args, kwargs, node):
    total = args[1] if len(args) > 1 else tm.ZERO

    def go(ents):
      t = tm.ZERO
      for e in ents:
        if e[0] == "i":
          t = tm.plus(t, ite(e[1], e[2], tm.ZERO))
        elif e[0] == "splice":
          n = tm.fresh_id()
          t = tm.plus(t, ite(e[1], mk("sum", e[2], n, self.elem_of(e[2], n)),
                             tm.ZERO))
        else:
          t = tm.plus(t, mk("sum", e[1], e[2], ite(e[3], go(e[4]), tm.ZERO)))
      return t

    return tm.plus(total, go(self.iter_entries(self.simp(args[0]), node)))

  def x_isinstance(self, args, kwargs, node):
    a, c = self.simp(args[0]), args[1]
    if a.op == "ite":
      g, x, y = a.args
      r1, r2 = self.x_isinstance([x, c], {}, node), self.x_isinstance(
          [y, c], {}, node)
      d = lambda r, z: r if r is not None else mk_call(
          mk("ext", "isinstance"), (z, c), ())
      return or_(and_(g, d(r1, x)), and_(not_(g), d(r2, y)))
    if c.op == "seq":
      alts = [self.x_isinstance([a, x], {}, node) or mk_call(
          mk("ext", "isinstance"), (a, x), ()) for x in tm.seq_items(c) or []]
      return or_(*alts)
    if a.op == "obj" and c.op == "cls":
      k = a.args[1]
      if k in self.p.classes:
        return const(self.p.classes[c.args[0]] in self.p.mro(
            self.p.classes[k]))
      return FALSE
    if a is NONE:
      return FALSE
    if a.op == "obj" and c.op == "ext":
      if a.args[1] in ("list", "dict", "set"):
        return const(c.args[0] == a.args[1])
      if a.args[1] in self.p.classes:
        return const(c.args[0] in self.p.ext_bases(self.p.classes[a.args[1]]))
      return None
    if a.op == "const" and c.op == "ext" and c.args[0] in ("int", "str", "bool",
                                                           "bytes", "float"):
      return const(type(a.args[0]).__name__ == c.args[0] or (
          c.args[0] == "int" and isinstance(a.args[0], bool)))
    ty = self.typeof(a)
    if ty and ty[0] == "inst" and c.op == "cls" and a.op == "sym" and \
        len(ty) > 2:
      return const(self.p.classes[c.args[0]] in self.p.mro(
          self.p.classes[ty[1]]))
    if ty and ty[0] == "scalar" and c.op == "ext":
      py = {"string": "str", "int64": "int", "int32": "int", "uint64": "int",
            "uint32": "int", "double": "float"}.get(ty[1], ty[1])
      if py in ("str", "int", "bytes", "bool", "float"):
        return const(c.args[0] == py or (c.args[0] == "int" and py == "bool"))
    return mk_call(mk("ext", "isinstance"), (self.freeze(a), c), ())

  def x_getattr(self, args, kwargs, node):
    name = self.simp(args[1])
    if name.op != "const" and self.value_hook is not None:
      name = self.value_hook(name) or name
    if name.op == "ite":
      return self.cases(name, lambda n: self.x_getattr(
          [args[0], n] + list(args[2:]), {}, node) or self.unk(node, "getattr"))
    if name.op == "const" and isinstance(name.args[0], str):
      return self.get_attr(args[0], name.args[0], node)
    ty = self.typeof(args[0])
    if ty and ty[0] == "proto":
      return self.unk(node, "getattr of a computed name")
    return None

  def x_setattr(self, args, kwargs, node):
    if args[1].op == "const" and isinstance(args[1].args[0], str):
      self.cases(args[0], lambda b: self.set_attr(b, args[1].args[0], args[2],
                                                  node))
      return NONE
    return None

  def x_bool(self, args, kwargs, node):
    return truthy(args[0]) if args else FALSE

  def x_str(self, args, kwargs, node):
    a = args[0] if args else const("")
    if a.op in ("cat",) or (a.op == "const" and isinstance(a.args[0], str)):
      return a
    return tm.cat([a]) if False else mk_call(mk("ext", "str"), (self.freeze(a),),
                                             ())

  def x_max(self, args, kwargs, node):
    return self._minmax("max", args, kwargs)

  def x_min(self, args, kwargs, node):
    return self._minmax("min", args, kwargs)

  def _minmax(self, name, args, kwargs):
    if len(args) == 1:
      a = self.freeze(args[0])
      return mk_call(mk("ext", name), (a,), tuple(sorted(kwargs.items())))
    if name == "max":
      # max of options with the same kwargs.
      pass
    fr = sorted((self.freeze(a) for a in args), key=lambda t: t.uid)
    return mk_call(mk("ext", name), tuple(fr), tuple(sorted(kwargs.items())))

  def x_copy_deepcopy(self, args, kwargs, node):
    return self.clone(args[0], node)

  def x_copy_copy(self, args, kwargs, node):
    return self.clone(args[0], node)

  def clone(self, v, node):
    v = self.simp(v)
    if v.op == "ite":
      return self.cases(v, lambda x: self.clone(x, node))
    ty = self.typeof(v)
    if v.op == "obj" and v.args[1] in ("list", "set"):
      return self.new_list(self.content(v), v.args[1])
    if v.op == "obj" and v.args[1] == "dict":
      return self.x_dict([v], {}, node)
    if ty and ty[0] == "proto":
      o = self.new_obj("proto:" + ty[1])
      self.copy_into(o, v, node)
      return o
    if ty and ty[0] == "inst":
      o = self.new_obj(ty[1])
      c = self.p.classes[ty[1]]
      names = [f[0] for f in self.dataclass_fields(c)] if self.p.is_dataclass(
          c) else []
      for k, x in list(self.state.store.items()):
        if isinstance(k, T) and k.op == "attr" and k.args[0] is v:
          self.store(attr(o, k.args[1]), x)
      for nm in names:
        self.store(attr(o, nm), self.get_attr(v, nm, node))
      return o
    return v

  def x_dataclasses_replace(self, args, kwargs, node):
    v = self.simp(args[0])
    if v.op == "ite":
      return self.cases(v, lambda x: self.x_dataclasses_replace([x], kwargs,
                                                                node))
    ty = self.typeof(v)
    if ty and ty[0] == "inst":
      cls = self.p.classes[ty[1]]
      vals = {}
      for f in self.dataclass_fields(cls):
        vals[f[0]] = self.get_attr(v, f[0], node)
      vals.update(kwargs)
      return self.instantiate(ty[1], [], vals, node)
    return None

  def x_functools_partial(self, args, kwargs, node):
    return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))

  def x_functools_wraps(self, args, kwargs, node):
    return mk("ext", "abc.abstractmethod")

  def x_ray_get(self, args, kwargs, node):
    self.emit("await", "ray.get", node, [self.freeze(args[0])], kwargs)
    return args[0]

  def x_ray_put(self, args, kwargs, node):
    return args[0]

  def x_typing_cast(self, args, kwargs, node):
    return args[1]

  def x_os_path_join(self, args, kwargs, node):
    parts = []
    for a in args:
      a = self.freeze(a)
      if a.op == "call" and tm.call_name(a) == "os.path.join":
        parts.extend(a.args[1])
      elif a.op == "const" and isinstance(a.args[0], str) and parts and \
          "/" in a.args[0].strip("/") and not a.args[0].startswith("/"):
        parts.extend(const(x) for x in a.args[0].split("/") if x)
      else:
        parts.append(a)
    # join(base, relpath(p, base)) is p
    if len(parts) == 2 and parts[1].op == "call" and tm.call_name(
        parts[1]) == "os.path.relpath" and len(parts[1].args[1]) == 2 and \
        parts[1].args[1][1] is parts[0]:
      return parts[1].args[1][0]
    if len(parts) == 1:
      return parts[0]
    return mk_call(mk("ext", "os.path.join"), parts, ())

  def x_os_path_relpath(self, args, kwargs, node):
    p, base = self.freeze(args[0]), (self.freeze(args[1]) if len(args) > 1 else
                                     kwargs.get("start"))
    if base is None:
      return None
    if p.op == "call" and tm.call_name(p) == "os.path.join" and \
        p.args[1][0] is base and len(p.args[1]) > 1:
      rest = p.args[1][1:]
      return rest[0] if len(rest) == 1 else mk_call(
          mk("ext", "os.path.join"), rest, ())
    return mk_call(mk("ext", "os.path.relpath"), (p, base), ())

  def x_abs(self, args, kwargs, node):
    return None


def guard_entry(e, c):
  if e[0] == "each":
    return ("each", e[1], e[2], and_(c, e[3]), e[4])
  return (e[0], and_(c, e[1]), e[2])


def mk_attr_ext(base, name):
  return mk("attr", base, name)


def is_type_name(name):
  """External constructors with value semantics."""
  return name.startswith(("pyarrow.",)) and not name.endswith(
      ("ParquetWriter", "ParquetDataset")) or name.startswith(
          ("typing", "builtins"))


def proto_name(dotted):
  """Message type name of a dotted proto class name."""
  parts = dotted.split(".")
  for i, p in enumerate(parts):
    if p.endswith("_pb2") and i + 1 < len(parts):
      return ".".join(parts[i + 1:])
  return None
