"""Truth of gated terms over a small finite domain, to compare the case analysis
in the source with the case analysis demanded. Nothing of the source is run."""

from pyflow import terms as tm


class Unknown(Exception):
  """The term has a construct that is not evaluated."""


class Eval:
  """env: term -> value. leaf(t): value of other terms, or raises KeyError.
  Missing values (None) follow Kleene logic when `kleene`."""

  def __init__(self, leaf, kleene=False):
    self.leaf, self.kleene = leaf, kleene
    self.memo = {}

  def __call__(self, t):
    if t.uid not in self.memo:
      self.memo[t.uid] = self.ev(t)
    return self.memo[t.uid]

  def truth(self, v):
    if self.kleene and v is None:
      return None
    return bool(v)

  def ev(self, t):
    try:
      return self.leaf(t)
    except KeyError:
      pass
    op, a = t.op, t.args
    if op == "const":
      return a[0]
    if op == "ite":
      c = self(a[0])
      if self.kleene and c is None:
        raise Unknown(tm.show(a[0], 3))
      return self(a[1] if c else a[2])
    if op == "truthy":
      return self.truth(self(a[0]))
    if op in ("not", "inv"):
      v = self(a[0])
      if v is None and self.kleene:
        return None
      if op == "inv" and not isinstance(v, bool):
        raise Unknown("~")
      return not v
    if op in ("and", "or"):
      return self.logic(op, a)
    if op == "binop" and a[0] in ("&", "|"):
      return self.logic("and" if a[0] == "&" else "or", a[1:])
    if op == "binop" and a[0] in ("!=",):
      return self.compare("!=", self(a[1]), self(a[2]))
    if op == "cmp":
      if a[0] == "is":
        return self(a[1]) is self(a[2])
      if a[0] == "in":
        x = self(a[1])
        return any(x == y and type(x) == type(y) for y in self.elems(a[2]))
      return self.compare(a[0], self(a[1]), self(a[2]))
    if op == "add":
      tot = 0
      for m, c in a[0]:
        p = c
        for x in m:
          p *= self(x)
        tot += p
      return tot
    if op == "seq":
      return self.elems(t)
    if op in ("listv", "setv"):
      return self.elems(a[0])
    if op == "call":
      n = tm.call_name(t).split(".")[-1]
      if n in ("min", "max") and not a[2]:
        xs = [self(x) for x in a[1]]
        if len(xs) == 1:
          xs = xs[0]
        if not isinstance(xs, list) or not xs or None in xs:
          raise Unknown(n)
        return min(xs) if n == "min" else max(xs)
      if n in ("any", "all") and len(a[1]) == 1:
        xs = self.elems(a[1][0])
        return any(xs) if n == "any" else all(xs)
      if n in ("and_", "and_kleene"):
        return self.logic("and", a[1])
      if n in ("or_", "or_kleene"):
        return self.logic("or", a[1])
      if n == "invert" and len(a[1]) == 1:
        v = self(a[1][0])
        return None if v is None else not v
      if n == "is_null":
        r = a[0].args[0] if a[0].op == "attr" else a[1][0]
        return self(r) is None
      if n == "is_valid":
        r = a[0].args[0] if a[0].op == "attr" else a[1][0]
        return self(r) is not None
      if n == "len" and len(a[1]) == 1:
        return len(self.elems(a[1][0]))
    raise Unknown(tm.show(t, 4))

  def elems(self, t):
    if t.op in ("listv", "setv"):
      t = t.args[0]
    if t.op != "seq":
      v = self(t)
      if isinstance(v, (list, tuple, set)):
        return list(v)
      raise Unknown(tm.show(t, 3))
    out = []
    for e in t.args[0]:
      if e[0] not in ("i", "splice"):
        raise Unknown("each")
      if not self(e[1]):
        continue
      if e[0] == "i":
        out.append(self(e[2]))
      else:
        out += self.elems(e[2])
    return out

  def logic(self, op, xs):
    stop = op == "or"
    unk, err = False, None
    for x in xs:
      try:
        v = self(x)
      except Unknown as e:
        err = e
        continue
      if v is None and self.kleene:
        unk = True
      elif bool(v) == stop:
        return stop
    if err is not None:
      raise err
    if unk:
      return None
    return not stop

  def compare(self, op, x, y):
    if (x is None or y is None):
      if self.kleene:
        return None
      if op in ("==", "!="):
        return (x is y) == (op == "==")
      raise Unknown("comparison with None")
    try:
      return {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y,
              "<=": lambda: x <= y}[op]()
    except TypeError:
      if op in ("==", "!="):
        return op == "!="
      raise Unknown("comparison") from None
