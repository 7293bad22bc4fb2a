"""Common machinery of the rules: units, comparison of terms, reports."""

import ast
import itertools

from pyflow import terms as tm
from pyflow.interp import Frame, Interp
from pyflow.loader import AnchorMissing, Program
from pyflow.terms import (EMPTY, FALSE, NONE, TRUE, T, and_, attr, cmp_, const,
                          ite, mk, mk_call, not_, or_, seq, truthy)

BINDERS = {"sum", "exists", "last", "first", "fold", "until"}


# --------------------------------------------------------------- canonical form

_ids = {}
_free = {}


def _intern(key):
  k = _ids.get(key)
  if k is None:
    k = _ids[key] = len(_ids)
  return k


def free_loops(t):
  """Loop numbers occurring in a term."""
  r = _free.get(t.uid)
  if r is not None:
    return r
  out = set()
  if t.op in ("elem", "idx", "mu") and isinstance(t.args[1], int):
    out.add(t.args[1])

  def go(a):
    if isinstance(a, T):
      out.update(free_loops(a))
    elif isinstance(a, tuple):
      for x in a:
        go(x)

  for a in t.args:
    go(a)
  r = frozenset(out)
  _free[t.uid] = r
  return r


class Canon:
  """Alpha-normal form of terms as small integers: equal values built in a
  different order, or by loops numbered differently, are the same integer."""

  def __init__(self, loose=False):
    self.loose = loose
    self.memo = {}

  def __call__(self, t, env=None):
    return self.t(t, env or {})

  def t(self, t, env):
    if not isinstance(t, T):
      return self.a(t, env)
    fl = free_loops(t)
    key = (t.uid, tuple(sorted((n, env[n]) for n in fl if n in env)),
           len(env) if any(True for _ in fl) or True else 0)
    r = self.memo.get(key)
    if r is None:
      r = self.memo[key] = _intern(self.build(t, env))
    return r

  def a(self, a, env):
    if isinstance(a, T):
      return ("t", self.t(a, env))
    if isinstance(a, tuple):
      return tuple(self.a(x, env) for x in a)
    return ("k", type(a).__name__, a)

  def bind(self, n, env):
    e = dict(env)
    e[n] = len(env)
    return e

  def build(self, t, env):
    op, a = t.op, t.args
    if op == "seq":
      return ("seq", tuple(self.entry(e, env) for e in a[0]))
    if op in ("and", "or"):
      return (op, tuple(sorted({self.t(x, env) for x in a})))
    if op == "setv":
      s = a[0]
      if s.op == "seq":
        return ("setv", tuple(sorted({self.entry(e, env) for e in s.args[0]},
                                     key=repr)))
    if op == "dictv":
      s = a[0]
      if s.op == "seq" and all(e[0] == "i" and e[1] is TRUE for e in s.args[0]):
        return ("dictv", tuple(sorted((self.entry(e, env) for e in s.args[0]),
                                      key=repr)))
    if op == "add":
      ms = []
      for m, c in a[0]:
        ms.append((tuple(sorted(self.t(x, env) for x in m)), c))
      return ("add", tuple(sorted(ms)))
    if op == "cmp" and a[0] in ("==", "!="):
      return ("cmp", a[0], tuple(sorted((self.t(a[1], env), self.t(a[2], env)))))
    if op in BINDERS:
      it, n = a[0], a[1]
      e = self.bind(n, env)
      return (op, self.t(it, env), tuple(self.a(x, e) for x in a[2:]))
    if op in ("elem", "idx"):
      n = a[1]
      return (op, self.t(a[0], env), ("b", env[n]) if n in env else ("f", n))
    if op == "mu":
      n = a[1]
      return ("mu", ("b", env[n]) if n in env else ("f", n), self.label(a[0], env))
    if op == "fresh":
      if self.loose:
        return ("fresh", self.t(a[1], env))
      return ("fresh", a[0])
    if op == "obj" and self.loose:
      return ("obj", a[1])
    if op == "opaque" and self.loose:
      return ("opaque", a[0])
    if op == "call" and len(a) > 3:
      return ("call",) + tuple(self.a(x, env) for x in a[:3])
    if op == "sym":
      return ("sym", a[0])
    if op == "func":
      return ("func", a[0])
    return (op,) + tuple(self.a(x, env) for x in a)

  def label(self, l, env):
    if l.op == "lvar":
      return "v"
    return self.t(l, env)

  def entry(self, e, env):
    if e[0] in ("i", "splice"):
      return (e[0], self.t(e[1], env), self.t(e[2], env))
    en = self.bind(e[2], env)
    return ("each", self.t(e[1], env), self.t(e[3], en),
            tuple(self.entry(x, en) for x in e[4]))


CANON, LOOSE = Canon(), Canon(loose=True)


def same(a, b, loose=False):
  if a is b:
    return True
  if a is None or b is None:
    return False
  c = LOOSE if loose else CANON
  if c(a) == c(b):
    return True
  if tm.is_boolean(a) and tm.is_boolean(b):
    return equiv(a, b, loose)
  return _same_ite(a, b, loose)


def _same_ite(a, b, loose, depth=0):
  """Equality of conditional values, case by case."""
  if depth > 8:
    return False
  for x, y in ((a, b), (b, a)):
    if x.op == "ite":
      c, p, q = x.args
      yp, yq = specialise(y, c), specialise(y, not_(c))
      return all(
          LOOSE(l) == LOOSE(r) if loose and LOOSE(l) == LOOSE(r) else
          (CANON(l) == CANON(r) or _same_ite(l, r, loose, depth + 1))
          for l, r in ((specialise(p, c), yp), (specialise(q, not_(c)), yq)))
  return False


def specialise(t, c):
  """t, with the conditions decided by c resolved everywhere."""
  if c is TRUE:
    return t

  def go(x):
    if x.op == "ite":
      d = tm.decide(x.args[0], c)
      if d is True:
        return specialise(x.args[1], c)
      if d is False:
        return specialise(x.args[2], c)
      cc = specialise(x.args[0], c)
      if cc is TRUE:
        return specialise(x.args[1], c)
      if cc is FALSE:
        return specialise(x.args[2], c)
    elif x.op in ("and", "or", "not", "cmp", "truthy", "exists", "has"):
      d = tm.decide(x, c)
      if d is not None:
        return const(d)
    return None

  return tm.rewrite(t, go)


def atoms(g, out, loose=False):
  c = LOOSE if loose else CANON
  if g.op in ("and", "or"):
    for x in g.args:
      atoms(x, out, loose)
  elif g.op == "not":
    atoms(g.args[0], out, loose)
  elif g.op == "ite" and tm.is_boolean(g):
    for x in g.args:
      atoms(x, out, loose)
  elif g.op != "const":
    out.add(c(g))


def evalb(g, env, loose=False):
  if g.op == "and":
    return all(evalb(x, env, loose) for x in g.args)
  if g.op == "or":
    return any(evalb(x, env, loose) for x in g.args)
  if g.op == "not":
    return not evalb(g.args[0], env, loose)
  if g.op == "const":
    return bool(g.args[0])
  if g.op == "ite" and tm.is_boolean(g):
    return evalb(g.args[1] if evalb(g.args[0], env, loose) else g.args[2], env,
                 loose)
  return env[(LOOSE if loose else CANON)(g)]


def _table(gs, loose):
  s = set()
  for g in gs:
    atoms(g, s, loose)
  if len(s) > 14:
    return None
  s = sorted(s)
  return (dict(zip(s, v)) for v in itertools.product((False, True),
                                                     repeat=len(s)))


def equiv(a, b, loose=False, under=TRUE):
  """Same truth value for all values of the atomic conditions. None: too many."""
  a, b = truthy(a), truthy(b)
  t = _table([a, b, under], loose)
  if t is None:
    return None
  return all(evalb(a, e, loose) == evalb(b, e, loose) for e in t
             if evalb(under, e, loose))


def implies(a, b, loose=False):
  a, b = truthy(a), truthy(b)
  t = _table([a, b], loose)
  if t is None:
    return None
  return all((not evalb(a, e, loose)) or evalb(b, e, loose) for e in t)


# Constructs whose value the analysis does not know.
OPAQUE_OPS = {"unk", "mu", "fold", "mutated", "while", "until", "merged", "star"}


def opaque(t):
  """A construct that hides what a value is, or None."""
  for x in tm.walk(t):
    if x.op in OPAQUE_OPS:
      return x
    if x.op == "call" and x.args[0].op == "rec":
      return x
  return None


def calls_in(t, name=None):
  for x in tm.walk(t):
    if x.op == "call":
      n = tm.call_name(x)
      if name is None or n == name or (name.startswith(".") and n.endswith(name)):
        yield x


# ------------------------------------------------------------------------ units


# What the units of the current group could not follow, per unit.
FOLLOWED = []


class Unit(Interp):
  """The analysis of one or more calls of the API from a symbolic start state."""

  def __init__(self, prog, cuts=None, no_inline=(), module="space.core.storage"):
    super().__init__(prog, cuts or {}, no_inline)
    FOLLOWED.append(self.unknowns)
    if module not in prog.modules:
      raise AnchorMissing(f"module {module} not found")
    self.module0 = prog.modules[module]
    self.frames.append(Frame(tm.fresh_id(), None, self.module0))

  def sym(self, name, type_=None):
    return tm.sym(name, type_)

  def inst(self, name, qual):
    """An arbitrary instance of a class."""
    self.cls(qual)
    return tm.sym(name, ("inst", qual))

  def new(self, qual, *args, **kw):
    self.cls(qual)
    r = self.instantiate(qual, list(args), kw, None)
    return r

  def do(self, qual, *args, **kw):
    """Calls a module function."""
    return self.call(self.fn_term(self.fn(qual)), list(args), kw, None)

  def static(self, qual, name, *args, **kw):
    """Calls a class or static method through the class."""
    self.method(qual, name)
    return self.call_method(mk("cls", qual), name, list(args), kw, None)

  def meth(self, recv, name, *args, **kw):
    ty = self.typeof(recv)
    if ty and ty[0] == "inst" and self.p.find_method(self.p.classes[ty[1]],
                                                     name)[0] is None:
      raise AnchorMissing(f"method {ty[1]}.{name} not found")
    return self.call_method(recv, name, list(args), kw, None)

  def get(self, base, name):
    return self.get_attr(base, name)

  def assume(self, c):
    self.state.add(c)

  def forget(self):
    """Drops the conditions collected so far."""
    self.state.cond = ()

  def mark(self):
    self.floor = tm.fresh_id()  # What is drawn later is drawn by the operation.
    return len(self.events)

  def since(self, k):
    return self.events[k:]

  def spec(self, src, _module=None, **env):
    """The value of an expression written in the rule."""
    mod = self.p.modules[_module] if _module else self.module0
    fr = Frame(tm.fresh_id(), None, mod)
    self.frames.append(fr)
    n = len(self.events)
    nu = len(self.unknowns)
    save = self.state.cond
    for k, v in env.items():
      self.state.store[("v", fr.id, k)] = v
    try:
      node = ast.parse(src.strip(), mode="eval").body
      v = self.ev(node)
      return self.freeze(v)
    finally:
      self.frames.pop()
      del self.events[n:]
      del self.unknowns[nu:]
      self.state.cond = save

  def run_spec(self, src, _module=None, **env):
    """Runs statements written in the rule; returns the variables."""
    mod = self.p.modules[_module] if _module else self.module0
    fr = Frame(tm.fresh_id(), None, mod)
    self.frames.append(fr)
    for k, v in env.items():
      self.state.store[("v", fr.id, k)] = v
    try:
      self.block(ast.parse(src).body)
      return {k[2]: v for k, v in self.state.store.items()
              if isinstance(k, tuple) and k[0] == "v" and k[1] == fr.id}
    finally:
      self.frames.pop()

  def rename(self, old, new):
    """Gives a value a short name, everywhere."""
    ty = self.typeof(old)
    if ty and self.typeof(new) is None:
      self._types[new.uid] = ty

    def f(t):
      return tm.rewrite(t, lambda x: new if x is old else None)

    def key(k):
      if isinstance(k, T):
        return f(k)
      return tuple(f(x) if isinstance(x, T) else x for x in k)

    self.state.store = {key(k): f(v) for k, v in self.state.store.items()}
    self.state.cond = tuple(f(c) for c in self.state.cond)
    return new

  # Events.

  def calls(self, *names, events=None):
    out = []
    for e in (self.events if events is None else events):
      if e.kind in ("call", "vcall", "cut", "rec") and any(
          e.name == n or (n.startswith(".") and e.name.endswith(n)) or
          e.name.split(".")[-1] == n for n in names):
        out.append(e)
    return out

  def entered(self, *quals, events=None):
    return [e for e in (self.events if events is None else events)
            if e.kind == "enter" and e.name in quals]

  def raised(self, events=None):
    return [e for e in (self.events if events is None else events)
            if e.kind == "raise"]


class Write:
  """A file written through the file system abstraction."""

  def __init__(self):
    self.open = self.close = self.move = None
    self.writes = []
    self.tmp = self.path = None

  def message(self):
    """The message whose text form is the content."""
    for w in self.writes:
      a = w.arg(0, "data")
      if a is None:
        continue
      for x in tm.walk(a):
        if x.op == "call" and tm.call_name(x).endswith("MessageToString"):
          return x.args[1][0] if x.args[1] else dict(x.args[2]).get("message")
    return None


def streams(events):
  """Files written through output streams, in order of opening."""
  out = []
  by = {}
  for e in events:
    if e.kind == "call" and e.name.endswith(".open_output_stream") or (
        e.kind == "call" and e.name == "open"):
      w = Write()
      w.open, w.tmp = e, strip_str(e.kwargs.get("path") or e.kwargs.get("file"))
      w.path = w.tmp
      by[e.result.uid] = w
      out.append(w)
    elif e.kind == "call" and e.name.endswith(".write") and e.recv is not None \
        and e.recv.uid in by:
      by[e.recv.uid].writes.append(e)
    elif e.kind == "call" and e.name.endswith(".close") and e.recv is not None \
        and e.recv.uid in by:
      by[e.recv.uid].close = by[e.recv.uid].close or e
    elif e.kind == "with_exit" and e.recv is not None and e.recv.uid in by:
      by[e.recv.uid].close = by[e.recv.uid].close or e
    elif e.kind == "call" and e.name.endswith(".move"):
      src = strip_str(e.kwargs.get("src"))
      for w in out:
        if w.tmp is src and w.move is None:
          w.move, w.path = e, strip_str(e.kwargs.get("dest"))
  return out


class Msg:
  """Field access on the frozen value of a message."""

  def __init__(self, unit, term, cond=TRUE):
    self.u, self.t, self.cond = unit, term, cond
    self.is_msg = term.op == "msg"
    self.fields = dict(term.args[1]) if self.is_msg else {}
    self.src = term.args[2] if self.is_msg and len(term.args) > 2 else None

  def type(self):
    ty = self.u.typeof(self.t)
    return ty[1] if ty and ty[0] == "proto" else None

  def chain(self, base, path):
    for p in path:
      base = attr(base, p[1:]) if isinstance(p, str) else tm.item(base, p)
    return base

  def get(self, *path):
    """Value of a field: path of ".name" and key terms."""
    return specialise(self._get(tuple(path)), self.cond)

  def _get(self, path):
    if not self.is_msg:
      return self.chain(self.t, path)
    keys = {self.key(k): v for k, v in self.fields.items()}
    k = self.key(path)
    if k in keys:
      return keys[k]
    for i in range(len(path), 0, -1):
      c = keys.get(self.key(path[:i]) + ("=",))
      if c is not None:
        if c is NONE:
          return self.default(path)
        if c.op == "msg":
          return Msg(self.u, c)._get(path[i:])
        return self.chain(c, path[i:])
    if self.src is None or self.src is NONE:
      return self.default(path)
    return self.chain(self.src, path)

  def key(self, path):
    return tuple(p if isinstance(p, str) else CANON(specialise(p, self.cond))
                 for p in path)

  def default(self, path):
    msg = self.type()
    ty = ("proto", msg)
    for p in path:
      if isinstance(p, str) and ty and ty[0] == "proto":
        ty = self.u.p.proto_field(ty[1], p[1:])
      elif ty and ty[0] == "map":
        ty = ty[2]
      else:
        ty = None
    if ty and ty[0] == "scalar":
      return const("") if ty[1] in ("string", "bytes") else (
          FALSE if ty[1] == "bool" else tm.ZERO)
    return EMPTY

  def changed(self):
    """Paths written, other than by whole-message copies of the base."""
    out = []
    for k, v in self.fields.items():
      if k[-1] == "=":
        base = self.chain(self.src, k[:-1]) if self.src is not None else None
        if v is base:
          continue
        out.append((k[:-1], v))
        continue
      v = specialise(v, self.cond)
      base = self.chain(self.src, k) if self.src is not None else None
      if base is not None and (v is base or same(v, specialise(base, self.cond))):
        continue
      out.append((k, v))
    return out


def strip_str(t):
  if t is None:
    return None
  if t.op == "call" and tm.call_name(t) == "str" and len(t.args[1]) == 1:
    return strip_str(t.args[1][0])
  if t.op == "cat" and len(t.args[0]) == 1 and isinstance(t.args[0][0], T):
    return strip_str(t.args[0][0])
  return t


# ------------------------------------------------------------------------ paths


class Paths:
  """Enumerates the outcomes of the undecided conditions of a unit, one path at
  a time."""

  def __init__(self, match=None, limit=400):
    self.match, self.limit = match, limit
    self.truncated = False

  def run(self, build):
    """build(oracle) analyses one path; yields its results."""
    stack, n = [()], 0
    while stack:
      prefix = stack.pop()
      n += 1
      if n > self.limit:
        self.truncated = True
        return
      taken, seen = [], {}

      def oracle(c, prefix=prefix, taken=taken, seen=seen):
        if c.op == "not":
          v = oracle(c.args[0])
          return None if v is None else not v
        if self.match is not None:
          m = self.match(c)
          if m is None or m is False:
            return None
          if m == "true":
            return True
          if m == "false":
            return False
        k = CANON(c)
        if k in seen:
          return seen[k]
        i = len(taken)
        if i < len(prefix):
          v = prefix[i]
        else:
          v = True
          stack.append(tuple(taken) + (False,))
        taken.append(v)
        seen[k] = v
        return v

      yield build(oracle)


# ---------------------------------------------------------------------- reports


class Report:
  """Obligations of a property and how they were decided."""

  def __init__(self, prop):
    self.prop = prop
    self.items = []
    self.units = set()
    self.functions = set()
    self.events = 0
    self.notes = []

  def use(self, unit, name):
    self.units.add(name)
    self.functions |= unit.functions
    self.events += len(unit.events)
    for w in unit.unknowns:
      self.notes.append(w)

  def worst(self, k):
    """Keeps, of the obligations decided since item k on several paths, the
    worst outcome of each."""
    rank = {"ok": 0, "undecided": 1, "violation": 2}
    best = {}
    for it in self.items[k:]:
      key = (it[1], it[2])
      if key not in best or rank[best[key][0]] < rank[it[0]]:
        best[key] = it
    self.items[k:] = list(best.values())

  def ok(self, rule, inst, where=""):
    self.items.append(("ok", rule, inst, where, ""))

  def bad(self, rule, inst, where, detail):
    # With a construct that was not followed, no difference is definite.
    if any(FOLLOWED):
      self.undecided(rule, inst, where, detail)
      return
    self.items.append(("violation", rule, inst, where, detail))

  def undecided(self, rule, inst, where, detail):
    self.items.append(("undecided", rule, inst, where, detail))

  def check(self, cond, rule, inst, where="", detail=""):
    """cond: True holds, False violated, None undecided."""
    if cond is None:
      self.undecided(rule, inst, where, detail)
    elif cond:
      self.ok(rule, inst, where)
    else:
      self.bad(rule, inst, where, detail)
    return bool(cond)

  def same(self, actual, expected, rule, inst, where="", loose=False):
    """The value must be the expected one."""
    if actual is not None and same(actual, expected, loose):
      self.ok(rule, inst, where)
      return True
    d = f"is {short(actual)}, expected {short(expected)}"
    if actual is not None and opaque(actual) is not None and \
        opaque(expected) is None:
      self.undecided(rule, inst, where, d)
    else:
      self.bad(rule, inst, where, d)
    return False

  def guard(self, actual, expected, rule, inst, where="", under=TRUE, loose=False):
    r = equiv(actual, expected, loose, under)
    d = f"happens if {short(actual)}, expected if {short(expected)}"
    if r is False and opaque(actual) is not None:
      r = None
    return self.check(r, rule, inst, where, d)


def short(t, n=400):
  if t is None:
    return "nothing"
  s = tm.show(t, 9) if isinstance(t, T) else str(t)
  return s if len(s) <= n else s[:n] + "…"


def where(fi_or_event):
  if hasattr(fi_or_event, "where"):
    return fi_or_event.where
  return f"{fi_or_event.module.path}:{fi_or_event.node.lineno}"


def def_site(prog, qual):
  """file:line of a function, for violations about something missing."""
  c, _, m = qual.rpartition(".")
  if c in prog.classes:
    f, _ = prog.find_method(prog.classes[c], m)
    if f is not None:
      return where(f)
  r = prog.member(c, m) if c in prog.modules else None
  if r and r[0] == "fn":
    return where(r[1])
  return qual
