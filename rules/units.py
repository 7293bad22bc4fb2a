"""Start states shared by the rules."""

from pyflow import terms as tm
from pyflow.terms import attr, const, mk
from rules.base import Unit

STR, INT = ("scalar", "str"), ("scalar", "int")
STORAGE = "space.core.storage.Storage"

# Conversions between schemas, analysed by the rules of C17 only.
SCHEMA_CUTS = {
    "space.core.schema.arrow.arrow_schema": None,
    "space.core.schema.arrow.logical_to_physical_schema": None,
    "space.core.schema.arrow.field_name_to_id_dict": None,
}


def load_storage(u, tag="", branch=None):
  """An arbitrary existing storage, as obtained from Storage.load."""
  loc = u.sym("LOC" + tag, STR)
  st = u.static(STORAGE, "load", loc)
  meta = u.get(st, "metadata")
  m = u.rename(meta, u.sym("META" + tag, ("proto", "StorageMetadata")))
  for k, v in list(u.state.store.items()):
    if v.op == "attr" and v.args[1] == "metadata_file":
      u.rename(v, u.sym("MF" + tag, STR))
      break
  if branch is not None:
    for k, v in list(u.state.store.items()):
      if not isinstance(k, tuple) and k.op == "attr" and k.args[0] is st and \
          v is const("main"):
        u.state.store[k] = branch
  u.forget()
  u.storage_loc = getattr(u, "storage_loc", {})
  u.storage_loc[st.uid] = (loc, tag)
  return st, m, loc


def reload_handler(counter):
  """Storage.reload by its contract: the storage is as if loaded again, still on
  its current branch. (The rules of C05 decide that it is.)"""

  def h(u, recv, bound, t, ev):
    if recv.uid not in u.storage_loc:
      return None
    loc, tag = u.storage_loc[recv.uid]
    counter[recv.uid] = counter.get(recv.uid, 1) + 1
    k = f"{tag}{counter[recv.uid]}"
    n, cond = len(u.events), u.state.cond
    st2 = u.call_method(mk("cls", STORAGE), "load", [loc], {}, None)
    del u.events[n:]
    u.state.cond = cond
    meta = u.get(st2, "metadata")
    new = u.sym("META" + k, ("proto", "StorageMetadata"))
    u.rename(meta, new)
    for key, v in list(u.state.store.items()):
      if v.op == "attr" and v.args[1] == "metadata_file":
        u.rename(v, u.sym("MF" + k, STR))
        break
    keep = {key: v for key, v in u.state.store.items()
            if not isinstance(key, tuple) and key.op == "attr" and
            key.args[0] is recv}
    for key, v in list(u.state.store.items()):
      if isinstance(key, tuple) and key[0] == "v":
        continue
      if u.under(key, st2):
        nk = u.rebase(key, st2, recv) if not isinstance(key, tuple) else (
            key[0], u.rebase(key[1], st2, recv))
        if v is const("main") and nk in keep:
          continue
        u.state.store[nk] = v
    u.reloaded = getattr(u, "reloaded", [])
    u.reloaded.append((ev, recv, new))
    return t

  return h


def storage_unit(prog, cuts=None, reload_cut=True, module="space.core.storage",
                 no_inline=()):
  c = dict(SCHEMA_CUTS)
  if reload_cut:
    c[STORAGE + ".reload"] = reload_handler({})
  c.update(cuts or {})
  return Unit(prog, c, no_inline, module)

APPEND = "space.core.ops.append.LocalAppendOp"
DELETE = "space.core.ops.delete.FileSetDeleteOp"
READ = "space.core.ops.read.FileSetReadOp"


def patch_handler(name):
  """The operation's result: a patch, or nothing."""

  def h(u, recv, bound, t, ev):
    u.patches = getattr(u, "patches", [])
    p = u.sym(f"{name}{len(u.patches) + 1}", ("proto", "Patch"))
    u.patches.append((p, ev))
    return p

  return h


def nothing(u, recv, bound, t, ev):
  return tm.NONE


def op_cuts():
  """Data operations by their contracts (their own rules decide them)."""
  return {
      APPEND + ".write": nothing,
      APPEND + ".append_index_manifest": nothing,
      APPEND + ".finish": patch_handler("APPENDED"),
      DELETE + ".delete": patch_handler("DELETED"),
      READ + ".__iter__": None,
      "space.core.loaders.parquet.LocalParquetLoadOp.write":
          patch_handler("LOADED"),
      "space.core.loaders.array_record.LocalArrayRecordLoadOp.write":
          patch_handler("LOADED"),
  }


def assume_main_or_branch(u, meta, br):
  """br is a branch; main when it is the constant."""
  if br is const("main"):
    return
  refs = attr(meta, "refs")
  u.assume(tm.not_(tm.cmp_("==", br, const("main"))))
  u.assume(tm.cmp_("in", br, refs))
  u.assume(tm.cmp_("==", attr(tm.item(refs, br), "type"),
                   mk("enum", "SnapshotReference", "BRANCH")))


def runner_unit(prog, kind, branch=None, cuts=None, commit_cut=True):
  """A dataset and its runner; local or ray."""
  c = dict(op_cuts())
  if commit_cut:
    c[STORAGE + ".commit"] = None
  c.update(cuts or {})
  c = {k: v for k, v in c.items() if v is not False}
  u = storage_unit(prog, c, module="space.core.datasets")
  br = branch if branch is not None else const("main")
  st, meta, loc = load_storage(u, branch=br)
  ds = u.new("space.core.datasets.Dataset", st)
  r = u.meth(ds, kind)
  return u, ds, r, st, meta, loc


# Mutating operations of runners: name, arguments.
def mutations(u):
  return {
      "append": (u.sym("DATA"),),
      "append_from": (u.sym("SOURCES"),),
      "append_array_record": (u.sym("PATTERN", STR), u.sym("INDEX_FN")),
      "append_parquet": (u.sym("PATTERN", STR),),
      "insert": (u.sym("DATA"),),
      "upsert": (u.sym("DATA"),),
      "delete": (u.sym("FILTER"),),
  }


def ctor(u, qual, events):
  """Constructions of a class that is cut: (event, arguments by name)."""
  fi, _ = u.p.find_method(u.p.classes[qual], "__init__")
  names = [a.arg for a in fi.node.args.args][1:]
  out = []
  for e in events:
    if e.kind == "cut" and e.name in (qual, qual + ".__init__"):
      d = dict(e.kwargs)
      if e.name == qual or len(e.args) <= len(names):
        d.update(zip(names, e.args))
      out.append((e, d))
  return out
