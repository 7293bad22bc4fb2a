"""Loads and resolves the analysed program: modules, classes, functions, protos."""

import ast
import os
import re


class AnchorMissing(Exception):
  """A public name the analysis starts from does not exist any more."""


class FnInfo:
  """A function, method or lambda of the analysed program."""

  def __init__(self, fid, qual, node, module, cls=None):
    self.fid, self.qual, self.node = fid, qual, node
    self.module, self.cls = module, cls
    body = node.body if isinstance(node.body, list) else []
    self.is_gen = any(_has_yield(s) for s in body)
    self.decorators = getattr(node, "decorator_list", [])


def _has_yield(node):
  if isinstance(node, (ast.Yield, ast.YieldFrom)):
    return True
  if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                       ast.GeneratorExp)):
    return False
  return any(_has_yield(c) for c in ast.iter_child_nodes(node))


class ClsInfo:
  """A class of the analysed program."""

  def __init__(self, qual, node, module, outer=None):
    self.qual, self.node, self.module, self.outer = qual, node, module, outer
    self.methods, self.nested, self.assigns, self.annots = {}, {}, {}, {}


class Module:
  """A module of the analysed program."""

  def __init__(self, name, path, tree, is_pkg):
    self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
    self.imports, self.functions, self.classes, self.assigns = {}, {}, {}, {}


class Program:
  """All parsed modules, and the proto message types."""

  def __init__(self, repo):
    self.repo = repo
    self.src = os.path.join(repo, "python", "src")
    self.modules, self.classes, self.fns = {}, {}, {}
    self.protos = {}
    self.oneofs = {}  # message -> oneof -> its fields
    self.enums = {}
    self._load()

  # -------------------------------------------------------------- modules

  def _load(self):
    root = os.path.join(self.src, "space")
    if not os.path.isdir(root):
      raise AnchorMissing(f"source folder {root} not found")
    for dirpath, dirs, files in os.walk(root):
      dirs.sort()
      for f in sorted(files):
        full = os.path.join(dirpath, f)
        if f.endswith(".py") and not f.endswith("_pb2.py"):
          rel = os.path.relpath(full, self.src)[:-3].replace(os.sep, ".")
          is_pkg = rel.endswith(".__init__")
          name = rel[:-len(".__init__")] if is_pkg else rel
          with open(full, encoding="utf-8") as fh:
            tree = ast.parse(fh.read(), full)
          self.modules[name] = Module(name, os.path.relpath(full, self.repo),
                                      tree, is_pkg)
        elif f.endswith(".proto"):
          with open(full, encoding="utf-8") as fh:
            self._load_proto(fh.read())
    for m in self.modules.values():
      self._scan(m, m.tree.body)

  def _scan(self, m, body):
    for s in body:
      if isinstance(s, ast.Import):
        for a in s.names:
          if a.asname:
            m.imports[a.asname] = ("mod", a.name)
          else:
            m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
      elif isinstance(s, ast.ImportFrom):
        base = s.module or ""
        if s.level:
          parts = m.name.split(".")
          parts = parts[:len(parts) - s.level + (1 if m.is_pkg else 0)]
          base = ".".join(parts + ([base] if base else []))
        for a in s.names:
          m.imports[a.asname or a.name] = ("from", base, a.name)
      elif isinstance(s, ast.FunctionDef):
        m.functions[s.name] = self.add_fn(f"{m.name}.{s.name}", s, m)
      elif isinstance(s, ast.ClassDef):
        m.classes[s.name] = self._add_cls(f"{m.name}.{s.name}", s, m)
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            m.assigns[t.id] = s.value
      elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(
          s.target, ast.Name):
        m.assigns[s.target.id] = s.value
      elif isinstance(s, (ast.With, ast.If, ast.Try)):
        self._scan(m, s.body)
        if isinstance(s, ast.If):
          self._scan(m, s.orelse)

  def add_fn(self, qual, node, module, cls=None):
    fid = f"{qual}@{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"
    if fid not in self.fns:
      self.fns[fid] = FnInfo(fid, qual, node, module, cls)
    return self.fns[fid]

  def _add_cls(self, qual, node, m, outer=None):
    c = ClsInfo(qual, node, m, outer)
    self.classes[qual] = c
    for s in node.body:
      if isinstance(s, ast.FunctionDef):
        c.methods[s.name] = self.add_fn(f"{qual}.{s.name}", s, m, c)
      elif isinstance(s, ast.ClassDef):
        c.nested[s.name] = self._add_cls(f"{qual}.{s.name}", s, m, c)
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            c.assigns[t.id] = s.value
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        c.annots[s.target.id] = s.annotation
        if s.value is not None:
          c.assigns[s.target.id] = s.value
    return c

  # ----------------------------------------------------------------- names

  def resolve_global(self, m, name, seen=()):
    """Resolves a module level name: ('fn'|'cls'|'mod'|'ext'|'value', x) or None."""
    if (m.name, name) in seen:
      return None
    seen = seen + ((m.name, name),)
    if name in m.functions:
      return ("fn", m.functions[name])
    if name in m.classes:
      return ("cls", m.classes[name])
    if name in m.assigns:
      return ("value", m, name)
    if name in m.imports:
      imp = m.imports[name]
      if imp[0] == "mod":
        return self.module_ref(imp[1])
      return self.member(imp[1], imp[2], seen)
    return None

  def module_ref(self, dotted):
    if dotted in self.modules:
      return ("mod", dotted)
    if any(k.startswith(dotted + ".") for k in self.modules):
      return ("mod", dotted)
    return ("ext", dotted)

  def member(self, mod, name, seen=()):
    """Resolves attribute `name` of module `mod`."""
    full = f"{mod}.{name}"
    if mod in self.modules:
      r = self.resolve_global(self.modules[mod], name, seen)
      if r is not None:
        return r
    if full in self.modules or any(
        k.startswith(full + ".") for k in self.modules):
      return ("mod", full)
    return ("ext", full)

  def mro(self, cls):
    out = [cls]
    for b in cls.node.bases:
      bc = self.resolve_cls_expr(cls.module, b)
      if bc is not None:
        for x in self.mro(bc):
          if x in out:
            out.remove(x)
          out.append(x)
    return out

  def ext_bases(self, cls):
    """Dotted names of bases outside of the program."""
    out = []
    for c in self.mro(cls):
      for b in c.node.bases:
        if self.resolve_cls_expr(c.module, b) is None:
          out.append(self.dotted(c.module, b))
    return out

  def dotted(self, m, node):
    if isinstance(node, ast.Name):
      r = self.resolve_global(m, node.id)
      if r and r[0] in ("ext", "mod"):
        return r[1]
      if r and r[0] == "cls":
        return r[1].qual
      return node.id
    if isinstance(node, ast.Attribute):
      b = self.dotted(m, node.value)
      return f"{b}.{node.attr}" if b else node.attr
    return ""

  def resolve_cls_expr(self, m, node):
    if isinstance(node, ast.Subscript):
      return self.resolve_cls_expr(m, node.value)
    if isinstance(node, ast.Name):
      r = self.resolve_global(m, node.id)
      return r[1] if r and r[0] == "cls" else None
    if isinstance(node, ast.Attribute):
      if isinstance(node.value, ast.Name):
        r = self.resolve_global(m, node.value.id)
        if r and r[0] == "mod":
          r2 = self.member(r[1], node.attr)
          return r2[1] if r2 and r2[0] == "cls" else None
      b = self.resolve_cls_expr(m, node.value)
      if b is not None:
        return b.nested.get(node.attr)
    return None

  def find_method(self, cls, name):
    for c in self.mro(cls):
      if name in c.methods:
        return c.methods[name], c
    return None, None

  def subclasses(self, cls):
    return [c for c in self.classes.values() if c is not cls and
            cls in self.mro(c)]

  def is_dataclass(self, cls):
    for d in cls.node.decorator_list:
      d = d.func if isinstance(d, ast.Call) else d
      if self.dotted(cls.module, d).endswith("dataclass"):
        return True
    return False

  def enum_member(self, cls, name):
    """The member a name of an Enum stands for: equal values are one member."""
    v = cls.assigns[name]
    if isinstance(v, ast.Constant):
      for n, x in cls.assigns.items():
        if isinstance(x, ast.Constant) and x.value == v.value and type(
            x.value) is type(v.value):
          return n
    return name

  def is_enum(self, cls):
    return any(b in ("enum.Enum", "enum.IntEnum") for b in self.ext_bases(cls))

  # ---------------------------------------------------------------- protos

  def _load_proto(self, text):
    pkg = re.search(r"^\s*package\s+([\w.]+)\s*;", text, re.M)
    del pkg
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    pos = 0
    tokens = re.findall(r"[\w.]+|[{}<>=;,\[\]]|\"[^\"]*\"", text)

    def message(i, prefix):
      # tokens[i] is the name, tokens[i+1] is '{'.
      name = prefix + tokens[i]
      fields = self.protos.setdefault(name, {})
      i += 2
      while tokens[i] != "}":
        t = tokens[i]
        if t == "message":
          i = message(i + 1, name + ".")
        elif t == "enum":
          i = enum(i + 1, name + ".")
        elif t == "oneof":
          one = self.oneofs.setdefault(name, {}).setdefault(tokens[i + 1], [])
          i += 3
          while tokens[i] != "}":
            fields[tokens[i + 1]] = ("one", tokens[i])
            one.append(tokens[i + 1])
            while tokens[i] != ";":
              i += 1
            i += 1
          i += 1
        elif t in ("reserved", "option"):
          while tokens[i] != ";":
            i += 1
          i += 1
        elif t == "map":
          fields[tokens[i + 6]] = ("map", tokens[i + 2], tokens[i + 4])
          while tokens[i] != ";":
            i += 1
          i += 1
        else:
          kind = "one"
          if t in ("repeated", "optional"):
            kind = {"repeated": "rep", "optional": "one"}[t]
            i += 1
          fields[tokens[i + 1]] = (kind, tokens[i])
          while tokens[i] != ";":
            i += 1
          i += 1
      return i + 1

    def enum(i, prefix):
      name = prefix + tokens[i]
      self.enums[name] = set()
      i += 2
      while tokens[i] != "}":
        if tokens[i] in ("option", "reserved"):
          while tokens[i] != ";":
            i += 1
          i += 1
          continue
        self.enums[name].add(tokens[i])
        while tokens[i] != ";":
          i += 1
        i += 1
      return i + 1

    i = pos
    while i < len(tokens):
      if tokens[i] == "message":
        i = message(i + 1, "")
      elif tokens[i] == "enum":
        i = enum(i + 1, "")
      else:
        i += 1

  _SCALARS = {"string", "bytes", "int32", "int64", "uint32", "uint64", "bool",
              "double", "float", "sint32", "sint64"}

  def proto_field(self, msg, field):
    """Type descriptor of a proto field, or None if unknown."""
    f = self.protos.get(msg, {}).get(field)
    if f is None:
      return None
    if f[0] == "map":
      return ("map", self._ptype(msg, f[1]), self._ptype(msg, f[2]))
    t = self._ptype(msg, f[1])
    return ("rep", t) if f[0] == "rep" else t

  def _ptype(self, scope, name):
    if name in self._SCALARS:
      return ("scalar", name)
    parts = scope.split(".")
    short = name.split(".")
    for k in range(len(parts), -1, -1):
      for s in range(len(short)):
        cand = ".".join(parts[:k] + short[s:])
        if cand in self.protos:
          return ("proto", cand)
        if cand in self.enums:
          return ("scalar", "enum")
    return ("proto", name)
