"""What Arrow table expressions contain: rows, columns and lengths."""

from pyflow import terms as tm
from pyflow.terms import T, attr, const, mk

SAME_ROWS = {"select", "append_column", "add_column", "set_column", "drop",
             "drop_columns", "remove_column", "cast", "rename_columns",
             "combine_chunks", "replace_schema_metadata", "to_table",
             "unify_dictionaries", "flatten"}
LOSES_ROWS = {"filter", "take", "slice", "drop_null", "group_by"}


def arg(t, i, *names):
  """An argument of a call term, by position or name."""
  kw = dict(t.args[2])
  for n in names:
    if n in kw:
      return kw[n]
  return t.args[1][i] if i < len(t.args[1]) else None


def method(t):
  """(receiver, name) of a method call term."""
  if t.op == "call":
    n = tm.call_name(t)
    if n.startswith("."):
      return receiver(t), n[1:].split(".")[-1]
    f = t.args[0]
    if f.op == "attr":
      return f.args[0], f.args[1]
    return None, n.split(".")[-1]
  return None, None


def receiver(t):
  f = t.args[0]
  if f.op in ("attr", "method"):
    return f.args[0]
  return None


def items(t):
  """Elements of a list value, or None."""
  if t is None:
    return None
  if t.op == "seq":
    return tm.seq_items(t)
  return None


class Unknown(Exception):
  pass


def rows(t):
  """The tables whose rows are in t, in order. Raises Unknown."""
  if t.op in ("sym", "elem"):
    return [t]
  r, n = method(t)
  if n == "concat_tables":
    xs = items(arg(t, 0, "tables"))
    if xs is None:
      raise Unknown(tm.show(t, 3))
    return [y for x in xs for y in rows(x)]
  if r is not None and n in SAME_ROWS:
    return rows(r)
  if n in ("from_arrays", "from_pydict", "table"):
    raise Unknown(tm.show(t, 3))
  raise Unknown(tm.show(t, 3))


def names(t):
  """Column names of t, in order. Raises Unknown."""
  r, n = method(t)
  if n == "concat_tables":
    xs = items(arg(t, 0, "tables"))
    if not xs:
      raise Unknown("concat")
    return names(xs[0])
  if n == "select":
    xs = items(arg(t, 0, "columns"))
    if xs is None:
      raise Unknown("select")
    return xs
  if n == "append_column":
    return names(r) + [field_name(arg(t, 0, "field_"))]
  if n == "add_column":
    i = arg(t, 0, "i")
    if i is None or i.op != "const":
      raise Unknown("add_column")
    ns = list(names(r))
    ns.insert(i.args[0], field_name(arg(t, 1, "field_")))
    return ns
  if n in ("combine_chunks", "cast"):
    return names(r)
  if n == "rename_columns":
    xs = items(arg(t, 0, "names"))
    if xs is None:
      raise Unknown("rename_columns")
    return xs
  raise Unknown(tm.show(t, 3))


def field_name(f):
  r, n = method(f)
  if n == "field" and r is None:
    return arg(f, 0, "name")
  return f


def column(t, name):
  """The parts of a column of t: one value per input table. Raises Unknown."""
  if t.op in ("sym", "elem"):
    return [(t, mk("col", t, name))]
  r, n = method(t)
  if n == "concat_tables":
    xs = items(arg(t, 0, "tables"))
    if xs is None:
      raise Unknown("concat")
    return [y for x in xs for y in column(x, name)]
  if n in ("append_column", "add_column", "set_column"):
    i = 0 if n == "append_column" else 1
    if field_name(arg(t, i, "field_")) is name:
      v = arg(t, i + 1, "column")
      src = rows(r)
      if len(src) != 1:
        raise Unknown("column of several tables")
      return [(src[0], canon_col(v))]
    if n == "set_column":
      raise Unknown("set_column")
    return column(r, name)
  if n in ("select", "combine_chunks"):
    return column(r, name)
  if n == "rename_columns":
    new, old = names(t), names(r)
    if len(new) != len(old) or new.count(name) != 1:
      raise Unknown("rename_columns")
    return column(r, old[new.index(name)])
  raise Unknown(tm.show(t, 3))


def canon_col(v):
  """Columns of input tables in one form."""
  r, n = method(v)
  if n in ("column", "field") and r is not None and r.op in ("sym", "elem"):
    return mk("col", r, arg(v, 0, "i"))
  if v.op == "item" and v.args[0].op in ("sym", "elem"):
    return mk("col", *v.args)
  if n == "combine_chunks" and r is not None:
    return canon_col(r)
  if n in ("column", "item") and r is not None:
    try:
      ps = column(r, arg(v, 0, "i"))
      if len(ps) == 1:
        return ps[0][1]
    except Unknown:
      pass
  return v


def norm(t):
  """Lengths and columns of input tables in one form."""
  def go(x):
    if x.op == "attr" and x.args[1] == "num_rows":
      try:
        return total(rows(x.args[0]))
      except Unknown:
        return None
    if x.op == "attr" and x.args[1] == "nbytes":
      c = canon_col(x.args[0])
      if c is not x.args[0]:
        return attr(c, "nbytes")
    if x.op == "call":
      r, n = method(x)
      if n == "length" and r is not None:
        return length(r)
      if n == "get_total_buffer_size" and r is not None:
        return None
    if x.op == "len":
      return length(x.args[0])
    return None

  return tm.rewrite(t, go)


def total(ts):
  out = tm.ZERO
  for x in ts:
    out = tm.plus(out, attr(x, "num_rows"))
  return out


def length(v):
  c = canon_col(v)
  if c.op == "col":
    return attr(c.args[0], "num_rows")
  try:
    return total(rows(v))
  except Unknown:
    return None
