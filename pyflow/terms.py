"""Hash-consed value terms with a normal form, and a small boolean algebra.

A term denotes a value computed by the analysed source. Terms are built only by
the functions of this module, which keep them in a normal form, so two
syntactically different programs computing a value the same way give the same
term.
"""

import itertools

_TABLE = {}


class T:
  """A term: an operator and its arguments (terms or plain values)."""
  __slots__ = ("op", "args", "uid", "_h")

  def __repr__(self):
    return show(self)

  def __hash__(self):
    return self._h

  def __eq__(self, other):
    return self is other

  def __lt__(self, other):
    return self.uid < other.uid


_uid = itertools.count()


def _keyify(a):
  if isinstance(a, T):
    return ("t", a.uid)
  if isinstance(a, tuple):
    return ("u",) + tuple(_keyify(x) for x in a)
  return (type(a).__name__, repr(a))


def mk(op, *args):
  key = (op,) + tuple(_keyify(a) for a in args)
  t = _TABLE.get(key)
  if t is None:
    t = T()
    t.op, t.args, t.uid = op, args, next(_uid)
    t._h = hash(t.uid)
    _TABLE[key] = t
  return t


def const(v):
  return mk("const", v)


TRUE, FALSE, NONE = const(True), const(False), const(None)
ZERO = const(0)


def sym(name, type_=None):
  return mk("sym", name, type_)


_fresh = itertools.count(1)


def unk(reason):
  return mk("unk", next(_fresh), reason)


def fresh_id():
  return next(_fresh)


# Ids drawn when the program was loaded, and so the same in every call.
LOADED = set()


def is_const(t):
  return t.op == "const"


# ---------------------------------------------------------------- traversal


def children(t):
  """Direct sub-terms."""
  out = []

  def rec(a):
    if isinstance(a, T):
      out.append(a)
    elif isinstance(a, tuple):
      for x in a:
        rec(x)

  for a in t.args:
    rec(a)
  return out


def walk(t):
  """All sub-terms, t included, each once."""
  seen, stack = set(), [t]
  while stack:
    x = stack.pop()
    if x.uid in seen:
      continue
    seen.add(x.uid)
    yield x
    stack.extend(children(x))


def contains(t, pred):
  if isinstance(pred, T):
    return any(x is pred for x in walk(t))
  return any(pred(x) for x in walk(t))


def has_unknown(t):
  return contains(t, lambda x: x.op == "unk")


def rewrite(t, fn, memo=None):
  """Rebuilds t bottom up. fn(term) returns a replacement, or None to descend."""
  memo = {} if memo is None else memo

  def rec(x):
    if x.uid in memo:
      return memo[x.uid]
    r = fn(x)
    if r is None:
      new = tuple(rec_arg(a) for a in x.args)
      r = x if new == x.args and all(
          p is q for p, q in zip(new, x.args)) else rebuild(x.op, new)
    memo[x.uid] = r
    return r

  def rec_arg(a):
    if isinstance(a, T):
      return rec(a)
    if isinstance(a, tuple):
      n = tuple(rec_arg(x) for x in a)
      return a if all(p is q for p, q in zip(n, a)) else n
    return a

  return rec(t)


def rebuild(op, args):
  """Rebuilds a term through its normalising constructor."""
  if op == "ite":
    return ite(*args)
  if op == "and":
    return and_(*args)
  if op == "or":
    return or_(*args)
  if op == "not":
    return not_(args[0])
  if op == "cmp":
    return cmp_(*args)
  if op == "add":
    return add_raw(args[0])
  if op == "attr":
    return attr(*args)
  if op == "item":
    return item(*args)
  if op == "truthy":
    return truthy(args[0])
  if op == "seq":
    return seq(args[0])
  if op == "call":
    return mk_call(*args)
  if op == "cat":
    return cat(args[0])
  return mk(op, *args)


def subst(t, mapping):
  return rewrite(t, lambda x: mapping.get(x))


# ------------------------------------------------------------------ boolean


_NOT, _AND, _OR = {}, {}, {}


def not_(a):
  r = _NOT.get(a.uid)
  if r is None:
    r = _NOT[a.uid] = _mk_not(a)
  return r


def and_(*xs):
  k = tuple(x.uid for x in xs)
  r = _AND.get(k)
  if r is None:
    r = _AND[k] = _mk_and(*xs)
  return r


def or_(*xs):
  k = tuple(x.uid for x in xs)
  r = _OR.get(k)
  if r is None:
    r = _OR[k] = _mk_or(*xs)
  return r


def _mk_not(a):
  if a.op == "const":
    return const(not a.args[0])
  if a.op == "not":
    return a.args[0]
  if a.op == "and":
    return or_(*[not_(x) for x in a.args])
  if a.op == "or":
    return and_(*[not_(x) for x in a.args])
  return mk("not", a)


def _flat(op, xs):
  out = []
  for x in xs:
    if x.op == op:
      out.extend(x.args)
    else:
      out.append(x)
  return out


def _mk_and(*xs):
  lits = []
  for x in _flat("and", xs):
    if x is TRUE:
      continue
    if x is FALSE:
      return FALSE
    if x not in lits:
      lits.append(x)
  s = set(lits)
  for x in lits:
    if not_(x) in s:
      return FALSE
  # Unit propagation into disjunctions.
  changed = True
  while changed:
    changed = False
    for i, x in enumerate(lits):
      if x.op == "or":
        rest = [y for y in x.args if not_(y) not in s]
        if any(y in s for y in x.args):
          lits.pop(i)
          changed = True
          break
        if len(rest) != len(x.args):
          new = or_(*rest)
          if new is FALSE:
            return FALSE
          lits.pop(i)
          return and_(*(lits + [new]))
  s = set(lits)
  if not lits:
    return TRUE
  if len(lits) == 1:
    return lits[0]
  return mk("and", *sorted(lits, key=lambda t: t.uid))


def _mk_or(*xs):
  alts = []
  for x in _flat("or", xs):
    if x is FALSE:
      continue
    if x is TRUE:
      return TRUE
    if x not in alts:
      alts.append(x)
  # Simplify as a DNF of conjunctions: absorption and resolution.
  conjs = [frozenset(x.args) if x.op == "and" else frozenset([x]) for x in alts]
  changed = True
  while changed:
    changed = False
    for i, a in enumerate(conjs):
      for j, b in enumerate(conjs):
        if i == j:
          continue
        if a <= b:
          conjs.pop(j)
          changed = True
          break
        # Unit resolution: a = {l}, b contains not l.
        hit = None
        for l in a:
          nl = not_(l)
          if nl in b and (a - {l}) <= (b - {nl}):
            hit = nl
            break
        if hit is not None:
          conjs[j] = b - {hit}
          if not conjs[j]:
            return TRUE
          changed = True
          break
      if changed:
        break
  out = []
  for c in conjs:
    out.append(and_(*c))
  uniq = []
  for o in out:
    if o is TRUE:
      return TRUE
    if o is not FALSE and o not in uniq:
      uniq.append(o)
  if not uniq:
    return FALSE
  if len(uniq) == 1:
    return uniq[0]
  return mk("or", *sorted(uniq, key=lambda t: t.uid))


_BOOL_OPS = {"cmp", "and", "or", "not", "truthy", "exists", "has", "isinst", "exc"}

# External functions and methods that return a bool.
_BOOL_CALLS = {"isinstance", "hasattr", "issubset", "startswith", "endswith",
               "is_list", "is_struct", "is_binary", "is_string", "is_int32",
               "is_int64", "is_boolean", "is_float32", "is_float64", "isdir",
               "isfile", "exists", "any", "all"}


def is_boolean(t):
  if t.op in _BOOL_OPS:
    # Ordering and equality on Arrow expressions are not booleans, but they are
    # never used as branch conditions.
    return True
  if t.op == "const":
    return isinstance(t.args[0], bool)
  if t.op == "ite":
    return is_boolean(t.args[1]) and is_boolean(t.args[2])
  if t.op == "call":
    return call_name(t).split(".")[-1] in _BOOL_CALLS
  return False


_NONNULL = {"obj", "seq", "func", "bmeth", "cls", "mod", "add", "cat", "enum",
            "fdict", "partial", "msg", "listv"}


def truthy(t):
  """The truth value of a term used as a condition."""
  if t.op == "const":
    return const(bool(t.args[0]))
  if t.op == "ite":
    c, a, b = t.args
    ta, tb = truthy(a), truthy(b)
    return or_(and_(c, ta), and_(not_(c), tb))
  if t.op == "cmp" and t.args[0] == "<=":
    return not_(cmp_("<", t.args[2], t.args[1]))
  if t.op == "not":
    return not_(truthy(t.args[0]))
  if t.op in ("and", "or"):
    xs = [truthy(x) for x in t.args]
    return and_(*xs) if t.op == "and" else or_(*xs)
  if t.op in _BOOL_OPS:
    return t
  if t.op == "call":
    n = call_name(t)
    if n == "len" and len(t.args[1]) == 1:
      return truthy(t.args[1][0])
    if n == "bool" and len(t.args[1]) == 1:
      return truthy(t.args[1][0])
  if t.op == "seq":
    ents = t.args[0]
    conds = []
    for e in ents:
      c = entry_nonempty(e)
      conds.append(c)
    return or_(*conds) if conds else FALSE
  if t.op in ("listv", "setv", "uniq"):
    return truthy(t.args[0])
  if t.op in ("func", "bmeth", "cls", "mod", "enum", "partial"):
    return TRUE
  if t.op == "elemlist":
    return truthy(t.args[0])
  return mk("truthy", t)


def entry_nonempty(e):
  kind = e[0]
  if kind == "i":
    return e[1]
  if kind == "splice":
    return and_(e[1], truthy(e[2]))
  # each: (kind, iter, n, guard, entries)
  inner = or_(*[entry_nonempty(x) for x in e[4]]) if e[4] else FALSE
  g = and_(e[3], inner)
  return exists(e[1], e[2], g)


def exists(it, n, g):
  if g is FALSE:
    return FALSE
  if not contains(g, lambda x: x.op in ("elem", "idx", "mu") and x.args[1] == n):
    # Does not depend on the element: true if there is any element.
    return and_(g, truthy(iter_source(it)))
  return mk("exists", it, n, g)


def iter_source(it):
  if it.op == "call" and call_name(it) == "range" and len(it.args[1]) == 2 and \
      it.args[1][0] is ZERO:
    return it.args[1][1]
  if it.op in ("rev", "items", "keys", "values"):
    return iter_source(it.args[0])
  return it


def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if c.op == "not":
    return ite(c.args[0], b, a)
  a, b = assume(a, c), assume(b, not_(c))
  if a is b:
    return a
  if a is TRUE and b is FALSE:
    return c
  if a is FALSE and b is TRUE:
    return not_(c)
  if is_boolean(a) and is_boolean(b):
    return or_(and_(c, a), and_(not_(c), b))
  # ite(c, a, ite(d, a, x)) = ite(c or d, a, x)
  if b.op == "ite" and b.args[1] is a:
    return ite(or_(c, b.args[0]), a, b.args[2])
  if b.op == "ite" and b.args[2] is a:
    return ite(and_(not_(c), b.args[0]), b.args[1], a)
  if a.op == "ite" and a.args[2] is b:
    return ite(and_(c, a.args[0]), a.args[1], b)
  if a.op == "ite" and a.args[1] is b:
    return ite(and_(c, not_(a.args[0])), a.args[2], b)
  # x if x is not None else None
  if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE and a is NONE \
      and c.args[1] is b:
    return b
  return mk("ite", c, a, b)


def assume(t, c):
  """Simplifies the outermost conditionals of t under the condition c."""
  while t.op == "ite":
    d = decide(t.args[0], c)
    if d is None:
      break
    t = t.args[1] if d else t.args[2]
  return t


def lits_of(c):
  return set(c.args) if c.op == "and" else {c}


def decide(t, c):
  """Decides condition t under condition c: True, False or None."""
  if t.op == "const":
    return bool(t.args[0])
  ls = lits_of(c)
  return _decide(t, ls)


def _decide(t, ls):
  if t in ls:
    return True
  if not_(t) in ls:
    return False
  if t.op == "not":
    d = _decide(t.args[0], ls)
    return None if d is None else not d
  if t.op == "and":
    ds = [_decide(x, ls) for x in t.args]
    if any(d is False for d in ds):
      return False
    if all(d is True for d in ds):
      return True
    return None
  if t.op == "or":
    ds = [_decide(x, ls) for x in t.args]
    if any(d is True for d in ds):
      return True
    if all(d is False for d in ds):
      return False
    return None
  if t.op == "cmp":
    o, a, b = t.args
    if o == "is" and b is NONE:
      # truthy(a) implies a is not None.
      if mk("truthy", a) in ls:
        return False
      for l in ls:
        # a == const, or isinstance(a, ..), imply a is not None.
        if l.op == "cmp" and l.args[0] == "==" and a in l.args[1:] and any(
            x.op in ("const", "enum") and x is not NONE for x in l.args[1:]):
          return False
    if o == "==":
      for l in ls:
        if l.op == "cmp" and l.args[0] == "==":
          x, y = l.args[1], l.args[2]
          for p, q in ((x, y), (y, x)):
            for u, v in ((a, b), (b, a)):
              if p is u and q is not v and _distinct(q, v):
                return False
  if t.op == "truthy":
    if mk("cmp", "is", t.args[0], NONE) in ls:
      return False
  return None


def _distinct(a, b):
  return a is not b and a.op in ("const", "enum") and b.op in ("const", "enum")


# --------------------------------------------------------------- comparison


def cmp_(op, a, b):
  """Comparison. Canonical operators: == < <= in is."""
  if op == "!=":
    return not_(cmp_("==", a, b))
  if op == ">":
    return cmp_("<", b, a)
  if op == ">=":
    return cmp_("<=", b, a)
  if op == "not in":
    return not_(cmp_("in", a, b))
  if op == "is not":
    return not_(cmp_("is", a, b))
  if op == "is":
    if b.op == "const" and a.op == "const":
      return const(a.args[0] is b.args[0] if b.args[0] is None or
                   a.args[0] is None else a.args[0] == b.args[0])
    if a is NONE:
      a, b = b, a
    if b is NONE:
      if a.op in _NONNULL or is_boolean(a):
        return FALSE
      if a.op == "ite":
        c, x, y = a.args
        return or_(and_(c, cmp_("is", x, b)), and_(not_(c), cmp_("is", y, b)))
      return mk("cmp", "is", a, b)
    if b.op in ("const", "enum"):
      return cmp_("==", a, b)
    if a is b:
      return TRUE
    return mk("cmp", "is", a, b)
  if op == "==":
    if a is b and a.op != "unk":
      return TRUE
    if a.op == "const" and b.op == "const":
      return const(a.args[0] == b.args[0])
    if _distinct(a, b):
      return FALSE
    if a.op == "const" or (a.op == "enum" and b.op != "const"):
      a, b = b, a
    if b is NONE:
      return cmp_("is", a, b)
    if a.op == "ite" and b.op in ("const", "enum"):
      c, x, y = a.args
      return or_(and_(c, cmp_("==", x, b)), and_(not_(c), cmp_("==", y, b)))
    if b is ZERO and a.op not in ("sym", "lvar", "mu") and not is_arrow_expr(a):
      return not_(truthy(a))
    if b.op == "const" and isinstance(b.args[0], bool):
      return truthy(a) if b.args[0] else not_(truthy(a))
    if b.op not in ("const", "enum") and b.uid < a.uid:
      a, b = b, a
    # a + k == b + k
    d = linear_diff(a, b)
    if d is not None and not is_const(d):
      pass
    return mk("cmp", "==", a, b)
  if op == "in":
    while b.op in ("setv", "listv", "uniq"):
      b = b.args[0]
    if b.op == "call" and call_name(b) in ("set", "list", "tuple", "frozenset",
                                           "sorted") and len(b.args[1]) == 1:
      return cmp_("in", a, b.args[1][0])
    if b.op == "keys":
      return cmp_("in", a, b.args[0])
    if b.op == "ite":
      c, x, y = b.args
      return or_(and_(c, cmp_("in", a, x)), and_(not_(c), cmp_("in", a, y)))
    if b.op == "seq":
      alts = []
      for e in b.args[0]:
        if e[0] == "i":
          alts.append(and_(e[1], cmp_("==", a, e[2])))
        elif e[0] == "splice":
          alts.append(and_(e[1], cmp_("in", a, e[2])))
        else:
          inner = or_(*[
              and_(x[1], cmp_("==", a, x[2])) if x[0] == "i" else mk(
                  "cmp", "in", a, seq((x,))) for x in e[4]
          ])
          # x in [elem of it] is x in it
          if len(e[4]) == 1 and e[4][0][0] == "i" and e[4][0][1] is TRUE and \
              e[3] is TRUE and e[4][0][2].op == "elem" and \
              e[4][0][2].args[0] is e[1]:
            alts.append(cmp_("in", a, e[1]))
          else:
            alts.append(exists(e[1], e[2], and_(e[3], inner)))
      return or_(*alts) if alts else FALSE
    return mk("cmp", "in", a, b)
  if op in ("<", "<="):
    if a.op == "const" and b.op == "const":
      try:
        return const(a.args[0] < b.args[0] if op == "<" else
                     a.args[0] <= b.args[0])
      except TypeError:
        return mk("cmp", op, a, b)
    # 0 < len(x)
    if op == "<" and a is ZERO and b.op == "call" and call_name(b) == "len":
      return truthy(b.args[1][0])
    if op == "<=" and a is const(1) and b.op == "call" and call_name(b) == "len":
      return truthy(b.args[1][0])
    if op == "<=" and a is ZERO and b.op == "call" and call_name(b) == "len":
      return TRUE
    if op == "<=" and b is ZERO and a.op == "call" and call_name(a) == "len":
      return not_(truthy(a.args[1][0]))
    if op == "<" and b is const(1) and a.op == "call" and call_name(a) == "len":
      return not_(truthy(a.args[1][0]))
    # Move constants: normalise x + c < y to a common form for linear terms.
    return mk("cmp", op, a, b)
  return mk("cmp", op, a, b)


def is_arrow_expr(t):
  """True if the term is a PyArrow compute expression."""
  if t.op == "call":
    return call_name(t) in ("pyarrow.compute.field", "pyarrow.compute.scalar")
  return t.op == "binop" and any(is_arrow_expr(x) for x in children(t))


# --------------------------------------------------------------- arithmetic


def _mono(t):
  """Returns (dict monomial->coef) with monomials as tuples of terms."""
  if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(
      t.args[0], bool):
    return {(): t.args[0]}
  if t.op == "add":
    return dict(t.args[0])
  return {(t,): 1}


def add_raw(monos):
  d = {}
  for m, c in monos:
    d2 = {(): c}
    for f in m:
      d2 = _mul(d2, _mono(f))
    for k, v in d2.items():
      d[k] = d.get(k, 0) + v
  return _from_mono(d)


def _from_mono(d):
  d = {m: c for m, c in d.items() if c != 0}
  if not d:
    return ZERO
  if len(d) == 1:
    (m, c), = d.items()
    if m == ():
      return const(c)
    if c == 1 and len(m) == 1:
      return m[0]
  items = tuple(sorted(d.items(), key=lambda kv: tuple(x.uid for x in kv[0])))
  return mk("add", items)


def _mul(d1, d2):
  out = {}
  for m1, c1 in d1.items():
    for m2, c2 in d2.items():
      m = tuple(sorted(m1 + m2, key=lambda t: t.uid))
      out[m] = out.get(m, 0) + c1 * c2
  return out


def plus(a, b):
  d = dict(_mono(a))
  for m, c in _mono(b).items():
    d[m] = d.get(m, 0) + c
  return _from_mono(d)


def neg(a):
  return _from_mono({m: -c for m, c in _mono(a).items()})


def minus(a, b):
  return plus(a, neg(b))


def times(a, b):
  return _from_mono(_mul(_mono(a), _mono(b)))


def linear_diff(a, b):
  try:
    return minus(a, b)
  except TypeError:
    return None


def cat(parts):
  """String concatenation."""
  out = []
  for p in parts:
    if p.op == "cat":
      out.extend(p.args[0])
    else:
      out.append(p)
  merged = []
  for p in out:
    if merged and p.op == "const" and merged[-1].op == "const":
      merged[-1] = const(str(merged[-1].args[0]) + str(p.args[0]))
    else:
      merged.append(p)
  merged = [p for p in merged if not (p.op == "const" and p.args[0] == "")]
  if not merged:
    return const("")
  if len(merged) == 1 and merged[0].op == "const":
    return const(str(merged[0].args[0]))
  return mk("cat", tuple(merged))


# ------------------------------------------------------------- access paths


def attr(base, name):
  return mk("attr", base, name)


def item(base, key):
  if key.op == "elem":
    it = key.args[0]
    # xs[i] for i in range(len(xs))
    src = range_len(it)
    if src is not None and src is base:
      return mk("elem", base if it.op != "rev" else mk("rev", base), key.args[1])
    if it.op == "keys" and it.args[0] is base:
      return mk("item", base, key)
  if key.op == "idx" and key.args[0] is base:
    return mk("elem", base, key.args[1])
  if base.op == "seq" and key.op == "const" and isinstance(key.args[0], int):
    ents = base.args[0]
    if all(e[0] == "i" and e[1] is TRUE for e in ents):
      k = key.args[0]
      if -len(ents) <= k < len(ents):
        return ents[k][2]
  if base.op == "call" and call_name(base) == "list" and len(base.args[1]) == 1:
    return item(base.args[1][0], key)
  return mk("item", base, key)


def rev(it):
  """The elements from the last one."""
  return it.args[0] if it.op == "rev" else mk("rev", it)


def range_len(it):
  """xs if `it` is range(len(xs)) (or its reverse)."""
  if it.op == "rev":
    it = it.args[0]
  if it.op == "call" and call_name(it) == "range" and len(it.args[1]) == 2:
    a, b = it.args[1]
    if a is ZERO and b.op == "call" and call_name(b) == "len":
      return b.args[1][0]
  return None


# -------------------------------------------------------------------- calls


def call_name(t):
  """Dotted name of the callee of a call term: external function, or method."""
  f = t.args[0]
  if f.op == "ext":
    return f.args[0]
  if f.op == "attr":
    return "." + f.args[1]
  return ""


def mk_call(f, args, kwargs):
  return mk("call", f, tuple(args), tuple(kwargs))


def call_args(t):
  """(receiver or None, args, kwargs dict) of a call term."""
  f = t.args[0]
  recv = f.args[0] if f.op == "attr" else None
  return recv, list(t.args[1]), dict(t.args[2])


# ---------------------------------------------------------------- sequences


def seq(entries):
  out = []
  for e in entries:
    if e[0] == "i" and e[1] is FALSE:
      continue
    if e[0] == "splice":
      if e[1] is FALSE:
        continue
      v = e[2]
      if v.op == "seq" and e[1] is TRUE:
        out.extend(v.args[0])
        continue
      if v.op in ("listv",) and v.args[0].op == "seq" and e[1] is TRUE:
        out.extend(v.args[0].args[0])
        continue
    if e[0] == "each":
      if e[3] is FALSE or not e[4]:
        continue
      if len(e[4]) == 1 and e[4][0][1] is not TRUE and e[4][0][0] != "each":
        e = ("each", e[1], e[2], and_(e[3], e[4][0][1]),
             ((e[4][0][0], TRUE, e[4][0][2]),))
        if e[3] is FALSE:
          continue
      # each x in it: x   ==> splice it
      if len(e[4]) == 1 and e[3] is TRUE and e[4][0][0] == "i" and \
          e[4][0][1] is TRUE:
        v = e[4][0][2]
        if v.op == "elem" and v.args[0] is e[1] and v.args[1] == e[2]:
          out.append(("splice", TRUE, e[1]))
          continue
    out.append(e)
  return mk("seq", tuple(out))


EMPTY = seq(())


def tuple_(items):
  return seq(tuple(("i", TRUE, x) for x in items))


def seq_items(t):
  """The items of a sequence of unconditional items, or None."""
  if t.op in ("listv", "setv"):
    t = t.args[0]
  if t.op != "seq":
    return None
  if all(e[0] == "i" and e[1] is TRUE for e in t.args[0]):
    return [e[2] for e in t.args[0]]
  return None


# ------------------------------------------------------------------ printing


def show(t, depth=12):
  if depth <= 0:
    return "…"

  def s(x):
    if isinstance(x, T):
      return show(x, depth - 1)
    if isinstance(x, tuple):
      return "(" + ", ".join(s(y) for y in x) + ")"
    return repr(x)

  op, a = t.op, t.args
  if op == "const":
    return repr(a[0])
  if op == "sym":
    return a[0]
  if op == "ext":
    return a[0]
  if op == "attr":
    return f"{s(a[0])}.{a[1]}"
  if op == "item":
    return f"{s(a[0])}[{s(a[1])}]"
  if op == "call":
    parts = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
    return f"{s(a[0])}({', '.join(parts)})"
  if op == "cmp":
    return f"({s(a[1])} {a[0]} {s(a[2])})"
  if op == "not":
    return f"not {s(a[0])}"
  if op in ("and", "or"):
    return "(" + f" {op} ".join(s(x) for x in a) + ")"
  if op == "ite":
    return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
  if op == "elem":
    return f"each({s(a[0])})"
  if op == "idx":
    return f"index({s(a[0])})"
  if op == "truthy":
    return f"bool({s(a[0])})"
  if op == "add":
    out = []
    for m, c in a[0]:
      f = "*".join(s(x) for x in m)
      out.append(f"{c}*{f}" if f and c != 1 else (f or str(c)))
    return "(" + " + ".join(out) + ")"
  if op == "seq":
    out = []
    for e in a[0]:
      if e[0] == "i":
        out.append(s(e[2]) + ("" if e[1] is TRUE else f" if {s(e[1])}"))
      elif e[0] == "splice":
        out.append("*" + s(e[2]) + ("" if e[1] is TRUE else f" if {s(e[1])}"))
      else:
        out.append(f"each {s(e[1])} if {s(e[3])}: {s(seq(e[4]))}")
    return "[" + ", ".join(out) + "]"
  if op == "obj":
    return f"<{a[1]}#{a[0]}>"
  if op == "cat":
    return "str(" + " ".join(s(x) for x in a[0]) + ")"
  if op == "func":
    return f"<fn {a[0]}>"
  if op == "cls":
    return f"<class {a[0]}>"
  if op == "enum":
    return f"{a[0].split('.')[-1]}.{a[1]}"
  if op == "binop":
    return f"({s(a[1])} {a[0]} {s(a[2])})"
  return f"{op}({', '.join(s(x) for x in a)})"
