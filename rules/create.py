"""Creating storages (C01, C03, C14, C15) and the file system effects of the
whole package (C15)."""

import ast

from pyflow import terms as tm
from pyflow.terms import and_, const, mk, not_
from rules.base import (Msg, def_site, implies, same, short, streams, Unit)
from rules.read import ext
from rules.registry import group
from rules.storage import check_publish, published
from rules.units import SCHEMA_CUTS, STORAGE, STR

EXISTS = ("get_file_info", "exists", "isfile", "lexists", "is_file", "stat",
          "listdir", "glob", "open_input_file", "open_input_stream")


def create_unit(prog, view):
  u = Unit(prog, {
      **SCHEMA_CUTS, "space.core.schema.utils.validate_logical_schema": ext("valid"),
      "space.core.schema.substrait.substrait_fields": ext("substrait")},
           module="space.core.storage")
  loc = u.sym("LOC", STR)
  args = [loc, u.sym("SCHEMA"), u.sym("PKS"), u.sym("RECS")]
  if view:
    args.append(u.sym("PLAN", ("proto", "LogicalPlan")))
    u.assume(not_(tm.cmp_("is", args[-1], tm.NONE)))
  return u, loc, args


def checks_of(conds):
  """Calls that look at what is stored, and their paths."""
  out = []
  for c in conds:
    for x in tm.walk(c):
      if x.op == "call" and tm.call_name(x).split(".")[-1] in EXISTS:
        out.append((x, [*x.args[1], *(v for _, v in x.args[2])]))
  return out


@group("C01", "C03", "C14", "C15")
def create(prog, R):
  site = def_site(prog, STORAGE + ".create")
  for view in (False, True):
    inst = "create" + (" view" if view else "")
    u, loc, args = create_unit(prog, view)
    k = u.mark()
    u.static(STORAGE, "create", *args)
    evs = u.since(k)
    R.use(("C01", "C03", "C14", "C15"), u, "Storage." + inst)
    mw, ew = published(u, evs)
    if not R["C15"].check(mw is not None and ew is not None, "create-publishes",
                          inst, site, "no metadata and entry point are written"):
      continue
    check_publish(u, R, evs, inst, loc, site)
    guard = (ew.move or ew.open).cond
    found = checks_of(guard)
    at = [x for x, ps in found if any(same(p, ew.path) for p in ps)]
    R["C15"].check(
        True if at else (None if found and not all(
            any(p.op == "call" for p in ps) for _, ps in found) else False),
        "create-is-exclusive", inst, (ew.move or ew.open).where,
        "the entry point of an existing storage is replaced: it is published "
        "without a condition that no entry point exists" if not found else
        f"the condition for publishing looks at {short(found[0][1][0])}, not at "
        "the entry point")
    if not at:
      continue
    # Of the conditions on it, the one under which it is published.
    exists = not_(and_(*[c for c in guard if checks_of([c])]))
    bad = wrong_sense(and_(*[c for c in guard if checks_of([c])]))
    R["C15"].check(False if bad else (None if bad is None else True),
                   "create-is-exclusive", inst + ": sense",
                   (ew.move or ew.open).where,
                   f"the entry point is published if {short(not_(exists))}")
    done = and_(*u.state.cond)
    ids = [i for e in u.raised(evs) if implies(and_(*e.cond), exists)
           for i, _ in e.tries]
    ok = not u.state.live or implies(done, not_(exists)) or any(
        x.op == "not" and x.args[0].op == "exc" and x.args[0].args[0] in ids
        for x in u.state.cond)
    # An exception of the package itself is raised by the package only.
    raised = [e for e in u.raised(evs) if implies(and_(*e.cond), exists)]
    silent = not [c for c in u.state.cond if any(
        x.op == "call" or x.op == "exc" and (
            raised or "space." not in str(x.args[1])) for x in tm.walk(c))]
    R["C15"].check(True if ok else (False if silent else None),
                   "create-fails-if-exists", inst, site,
                   "creating a storage where one exists does not fail")
    initial(u, R, mw, inst, view)


def wrong_sense(c):
  """Whether publishing requires that something exists; None if unknown."""
  for x in (c.args if c.op == "and" else (c,)):
    neg = x.op == "not"
    y = x.args[0] if neg else x
    if y.op == "cmp" and y.args[0] in ("==", "!="):
      other = [z for z in y.args[1:] if "NotFound" in tm.show(z, 4)]
      if other:
        if (y.args[0] == "==") == neg:
          return True
        continue
      if any("FileType" in tm.show(z, 4) for z in y.args[1:]):
        # Another type of what exists: a file is not a folder.
        if (y.args[0] == "==") != neg or any("FileType.Directory" in tm.show(z, 4)
                                             for z in y.args[1:]):
          return True
        return None
      return None
    if y.op == "call" and tm.call_name(y).split(".")[-1] in (
        "exists", "isfile", "lexists", "is_file"):
      if not neg:
        return True
      continue
    return None
  return False


def initial(u, R, mw, inst, view):
  """A new storage has one snapshot, the current one, and no references."""
  w = mw.open.where
  m = Msg(u, mw.message(), and_(*mw.open.cond))
  r = R["C03"]
  cur = m.get(".current_snapshot_id")
  if cur.op == "attr":
    cur = const(0)
  new = [k for k, v in m.changed() if k[0] == ".snapshots" and len(k) > 1]
  ids = {k[1] for k in new}
  r.check(len(ids) == 1 or None, "initial-snapshot", inst, w,
          f"a new storage has {len(ids)} snapshots")
  for n in ids:
    r.same(n, cur, "initial-snapshot", inst + ": current", w)
    sid = m.get(".snapshots", n, ".snapshot_id")
    if n is not const(0) or sid.op == "const":
      r.same(sid, n, "initial-snapshot", inst + ": its ID", w)
    else:
      r.ok("initial-snapshot", inst + ": its ID", w)
  stray = [k for k, v in m.changed() if k[0] in (".refs",)]
  r.check(not stray, "initial-snapshot", inst + ": references", w,
          "a new storage has references")
  want = mk("enum", "StorageMetadata", "MATERIALIZED_VIEW" if view else "DATASET")
  r.same(m.get(".type"), want, "initial-type", inst, w)
  if view:
    got = m.get(".logical_plan")
    r.check(any(x.op == "sym" and x.args[0].startswith("PLAN") for x in tm.walk(
        got)), "initial-plan", inst, w, f"the plan persisted is {short(got)}")


DESTROYS = {
    "os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.truncate",
    "shutil.rmtree", "shutil.move", "shutil.copy", "shutil.copyfile",
    "shutil.copy2", "shutil.copytree",
}
METHODS = {"delete_file", "delete_dir", "delete_dir_contents",
           "delete_root_dir_contents", "unlink", "rmdir", "open_append_stream",
           "rmtree", "truncate"}


@group("C15")
def destructive_calls(prog, R):
  """No function of the package deletes, truncates or appends to files."""
  r = R["C15"]
  files = calls = 0
  for name, mod in sorted(prog.modules.items()):
    tree = getattr(mod, "tree", None)
    if tree is None:
      continue
    files += 1
    for fn, call in calls_of(tree):
      calls += 1
      f = call.func
      last = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
      dotted = ast.unparse(f) if isinstance(f, (ast.Attribute, ast.Name)) else ""
      full = resolve(mod, dotted)
      hit = full in DESTROYS or (isinstance(f, ast.Attribute) and last in METHODS)
      if last == "open" or full in ("open", "io.open"):
        mode = next((k.value for k in call.keywords if k.arg == "mode"),
                    call.args[1] if len(call.args) > 1 else None)
        hit = isinstance(mode, ast.Constant) and isinstance(
            mode.value, str) and ("a" in mode.value or "+" in mode.value)
      if hit:
        r.bad("no-destructive-call", f"{name}.{fn}: {full or last}",
              f"{mod.path}:{call.lineno}",
              f"{ast.unparse(call)[:80]} deletes or modifies an existing file")
  r.check(files > 30 and calls > 300 or None, "no-destructive-call",
          "all modules", "", f"{files} files and {calls} calls")


def calls_of(tree):
  """Calls, with the function they are in."""
  def go(node, fn):
    for c in ast.iter_child_nodes(node):
      n = fn
      if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        n = f"{fn}.{c.name}" if fn else c.name
      if isinstance(c, ast.Call):
        yield n, c
      yield from go(c, n)
  yield from go(tree, "")


def resolve(mod, dotted):
  head, _, rest = dotted.partition(".")
  full = mod.imports.get(head)
  if full is None:
    return dotted
  return ".".join([x for x in full[1:] if x] + ([rest] if rest else []))
