"""Commits, references, versions and file listings of a storage."""

import functools
import itertools

from pyflow import terms as tm
from pyflow.terms import (EMPTY, FALSE, NONE, TRUE, T, and_, attr, cmp_, const,
                          ite, mk, mk_call, not_, or_, seq, truthy)
from rules.base import (CANON, Msg, Paths, Unit, calls_in, def_site, equiv, implies,
                        opaque, same, short, specialise, streams, where)
from rules.evalt import Unknown
from rules.model import ModelEval, fails
from rules.registry import group
from rules.units import INT, STORAGE, STR, load_storage, storage_unit

MAIN = const("main")


def proto(name):
  return ("proto", name)


def tip(meta, branch):
  """Snapshot id of the tip of a branch."""
  return (attr(meta, "current_snapshot_id") if branch is MAIN else
          attr(tm.item(attr(meta, "refs"), branch), "snapshot_id"))


def assume_branch(u, meta, br):
  """br names an existing branch of the storage."""
  refs = attr(meta, "refs")
  u.assume(not_(cmp_("==", br, MAIN)))
  u.assume(cmp_("in", br, refs))
  ref = tm.item(refs, br)
  u.assume(cmp_("==", attr(ref, "type"),
                mk("enum", "SnapshotReference", "BRANCH")))


def published(u, events, ws=None):
  """(metadata write, entry point write) among the files written."""
  m = e = None
  for w in (streams(events) if ws is None else ws):
    msg = w.message()
    ty = u.typeof(msg) if msg is not None else None
    if ty == proto("StorageMetadata"):
      m = w
    elif ty == proto("EntryPoint"):
      e = w
  return m, e


def stray_writes(u, events, root):
  """Modifications below a message that others share."""
  out = []
  for e in events:
    if e.kind in ("set", "setitem", "append", "extend", "copy", "merge", "clear",
                  "delitem", "mutate") and e.recv is not None and \
        u.root(e.recv) is root:
      out.append(e)
  return out


@functools.lru_cache(maxsize=None)
def commit_unit(prog, case):
  u = storage_unit(prog)
  cb = u.sym("CURRENT_BRANCH", STR)
  st, meta, loc = load_storage(u, branch=cb)
  patch = u.sym("PATCH", proto("Patch"))
  br = MAIN if case == "main" else u.sym("BRANCH", STR)
  if case == "branch":
    assume_branch(u, meta, br)
  u.assume(cmp_("in", tip(meta, br), attr(meta, "snapshots")))
  pre = and_(*u.state.cond)
  k = u.mark()
  u.meth(st, "commit", patch, br)
  return u, u.since(k), st, meta, loc, patch, br, pre


def branch_multiset(t):
  return sorted(CANON.entry(e, {}) for e in t.args[0]) if t.op == "seq" else None


def same_list(u, actual, expected):
  """Equality of lists, the order set aside."""
  a = u.content(actual) if actual.op != "seq" else actual
  e = u.content(expected) if expected.op != "seq" else expected
  x, y = branch_multiset(a), branch_multiset(e)
  return x is not None and x == y


def modelled(u, actual, expected, old, removed, added):
  """Whether the lists have the same elements for every choice of small parent
  lists, removals of theirs, and additions; None when not evaluated."""
  for n in range(3):
    for gone in itertools.product((False, True), repeat=n):
      for k in range(3):
        names = [f"old{i}" for i in range(n)]
        m = {old.uid: names, removed.uid: [x for x, g in zip(names, gone) if g],
             added.uid: [f"new{i}" for i in range(k)]}
        ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, None, u.state.store)
        try:
          if sorted(ev.elems(actual)) != sorted(ev.elems(expected)):
            return False
        except (Unknown, TypeError, ValueError, AttributeError, IndexError,
                KeyError) as e:
          return fails(e)
  return True


def guard_runs(u, guard, lists):
  """Whether a commit is published, for small lists of a parent snapshot and of
  a patch: [(kind of patch, True / False / None if not known)]."""
  base = ["a", "b", "c"], ["r1", "r2"]
  out = []
  for what, gone, new, rnew in (
      ("missing", ["z"], ["n"], []), ("missing", ["b", "z"], [], []),
      ("missing", ["z"], ["z"], []),
      ("valid", [], [], []), ("valid", [], ["n"], ["rn"]), ("valid", ["a"], [], []),
      ("valid", ["b", "c"], ["n", "m"], []), ("valid", ["a", "b", "c"], ["n"], []),
      ("valid", ["a", "b", "c"], [], ["rn", "rm"]),
      ("twice", [], ["a"], []), ("twice", ["c"], ["n", "n"], []),
      ("twice", ["a"], ["n", "b"], []), ("twice", [], ["n"], ["r2"]),
      ("twice", [], ["n"], ["rn", "rn"])):
    m = {x.uid: v for x, v in zip(lists, (base[0], gone, new, base[1], rnew))}
    ev = ModelEval(lambda t, m=m: m[t.uid], u.loops, None, u.state.store)
    res = True
    for c in conjuncts(guard):
      if not any(tm.contains(c, x) for x in lists):
        continue
      try:
        v = bool(ev(c))
      except (Unknown, TypeError, ValueError, AttributeError, IndexError,
              KeyError) as e:
        v = None if fails(e) is None else False
      if v is False:
        res = False
      elif v is None and res:
        res = None
    out.append((what, res))
  return out


def greater_than_all(n, keys):
  """n is provably larger than every element of `keys`."""
  if n.op != "add":
    return False
  const_part, var = 0, []
  for m, c in n.args[0]:
    if not m:
      const_part = c
    else:
      var.append((m, c))
  if const_part < 1 or len(var) != 1 or var[0][1] != 1 or len(var[0][0]) != 1:
    return False
  m = var[0][0][0]
  if m.op != "call" or tm.call_name(m) != "max":
    return False
  for a in m.args[1]:
    if a is keys:
      return True
    for e in (a.args[0] if a.op == "seq" else ()):
      if e[0] == "splice" and e[1] is TRUE and e[2] is keys:
        return True
  return False


@group("C01", "C03", "C11", "C12", "C13", "C14", "C15")
def commit(prog, R):
  site = def_site(prog, STORAGE + ".commit")
  for case in ("main", "branch"):
    u, events, st, meta, loc, patch, br, pre = commit_unit(prog, case)
    R.use(("C01", "C03", "C11", "C12", "C13", "C14", "C15"), u, "Storage.commit")
    mw, ew = published(u, events)
    if not R["C01"].check(mw is not None and ew is not None,
                          "commit-publishes", case, site,
                          "no metadata and entry point file is written"):
      continue
    cond = and_(*ew.open.cond)
    m = Msg(u, mw.message(), cond)
    tip_id = tip(meta, br)
    t = tm.item(attr(meta, "snapshots"), tip_id)
    w = mw.open.where
    # C03: the identifier.
    keys = mk("keys", attr(meta, "snapshots"))
    paths = m.changed()
    new = [k for k, v in paths if k[0] == ".snapshots" and len(k) > 1]
    ids = {CANON(specialise(k[1], cond)): specialise(k[1], cond) for k in new}
    r3 = R["C03"]
    if not r3.check(len(ids) == 1, "one-new-snapshot", case, w,
                    f"{len(ids)} snapshots are written"):
      continue
    n = list(ids.values())[0]
    r3.check(greater_than_all(n, keys), "new-id-larger-than-all", case, w,
             f"the new snapshot id {short(n)} may not exceed every existing id")
    r3.same(m.get(".snapshots", n, ".snapshot_id"), n, "snapshot-records-its-id",
            case, w)
    parent = m.get(".snapshots", n, ".parent_snapshot_id")
    r3.check(same(parent, tip_id) or same(parent, attr(t, "snapshot_id")),
             "parent-is-branch-tip", case, w,
             f"parent is {short(parent)}, expected the tip {short(tip_id)}")
    if case == "main":
      r3.same(m.get(".current_snapshot_id"), n, "branch-moves-to-new", case, w)
    else:
      r3.same(m.get(".refs", br, ".snapshot_id"), n, "branch-moves-to-new", case,
              w)
    allowed = {(".last_update_time",),
               (".current_snapshot_id",) if case == "main" else (
                   ".refs", CANON(br), ".snapshot_id")}
    r3.check(m.src is meta, "keeps-everything-else", case + ": base", w,
             "the published metadata is not derived from the current metadata")
    for k, v in paths:
      kk = m.key(k)
      if kk[0] == ".snapshots" or kk in allowed or \
          kk[0] == ".last_update_time":
        continue
      if m.src is meta:
        r3.bad("keeps-everything-else", case + ": " + "".join(
            x if isinstance(x, str) else "[...]" for x in k), w,
               f"a commit also changes {short(v)}")
    for e in stray_writes(u, events, meta):
      r3.bad("shared-metadata-untouched", case, e.where,
             "the metadata in use is modified before the new one is published")
    r3.ok("shared-metadata-untouched", case, w)
    # C12: statistics.
    for f in sorted(prog.protos["StorageStatistics"]):
      base = attr(attr(t, "storage_statistics"), f)
      upd = attr(attr(patch, "storage_statistics_update"), f)
      R["C12"].same(m.get(".snapshots", n, ".storage_statistics", "." + f),
                    tm.plus(base, upd), "statistics-accumulate",
                    f"{case}: {f}", w)
    # C13: manifest lists.
    mf = attr(t, "manifest_files")
    dele = attr(attr(patch, "deletion"), "index_manifest_files")
    add = attr(patch, "addition")
    for kind in ("index_manifest_files", "record_manifest_files"):
      old = attr(mf, kind)
      if kind == "index_manifest_files":
        want = u.spec("[f for f in old if f not in set(dele)] + list(add)",
                      old=old, dele=dele, add=attr(add, kind))
      else:
        want = u.spec("list(old) + list(add)", old=old, add=attr(add, kind))
      got = m.get(".snapshots", n, ".manifest_files", "." + kind)
      as_model = modelled(u, got, want, old, dele, attr(add, kind))
      if as_model is not None or same_list(u, got, want):
        R["C13"].check(as_model is not False, "manifest-list", f"{case}: {kind}", w,
                       "is " + short(got))
      else:
        R["C13"].same(got, want, "manifest-list", f"{case}: {kind}", w)
    # Errors that prevent the commit.
    guard = and_(*ew.move.cond) if ew.move else cond
    old = attr(mf, "index_manifest_files")
    missing = u.spec("any(f not in old for f in dele)", old=old, dele=dele)
    r = implies(guard, not_(missing))
    rec = attr(mf, "record_manifest_files")
    lists = old, dele, attr(add, "index_manifest_files"), rec, attr(
        add, "record_manifest_files")
    runs = guard_runs(u, guard, lists)
    if not r:
      # Any other way of testing it depends on both lists.
      bad = [v for what, v in runs if what == "missing"]
      r = True if all(v is False for v in bad) else (
          False if True in bad else (None if r is None or opaque(guard) else False))
    for what, rule, want in (
        ("valid", "valid-patch-is-committed", True),
        ("twice", "no-duplicated-manifest", False)):
      for v in {v for x, v in runs if x == what}:
        R["C13"].check(None if v is None else v is want, rule,
                       f"{case}: lists", site, "a commit is published although a "
                       "manifest is listed twice" if v else "a patch that replaces "
                       "listed manifests and adds new ones is not committed")
    R["C13"].check(r, "replaced-manifest-must-exist", case, site,
                   "a commit is published although a manifest to replace is not "
                   "listed")
    for kind in ("index_manifest_files", "record_manifest_files"):
      a = attr(add, kind)
      hit = any(tm.contains(c, a) and tm.contains(c, attr(mf, kind))
                for g in ew.move.cond if ew.move for c in conjuncts(g))
      R["C13"].check(hit, "no-duplicated-manifest", f"{case}: {kind}", site,
                     "a commit is published without a check that no manifest "
                     "file is listed twice")
    # Change log.
    cl = [x for x in streams(events) if x not in (mw, ew)]
    has = attr_has(patch, "change_log")
    clf = m.get(".snapshots", n, ".change_log_file")
    logs = [x for x in cl if x.message() is not None and
            u.typeof(x.message()) == proto("ChangeLog")]
    if R["C11"].check(len(logs) >= 1, "change-log-written", case, site,
                      "the change log of a patch is not written"):
      lw = logs[0]
      R["C11"].same(lw.message(), attr(patch, "change_log"),
                    "change-log-is-the-patch's", case, lw.open.where)
      R["C11"].guard(and_(*lw.open.cond), and_(cond, has) if not implies(
          cond, has) else cond, "change-log-iff-present", case, lw.open.where,
          under=cond)
      rel_path = u.spec("path.relpath(p, loc)", p=lw.path, loc=loc)
      R["C11"].same(clf, ite(has, rel_path, const("")), "snapshot-names-its-log",
                    case, lw.open.where)
      R["C14"].check(relative(clf, loc), "relative-change-log", case,
                     lw.open.where,
                     f"the change log path {short(clf)} is not stored relative "
                     "to the storage location")
    # C01: order of the files.
    check_publish(u, R, events, "commit: " + case, loc, site)
    check_in_use(u, R, events, st, "commit: " + case)


def attr_has(msg, field):
  return mk("has", attr(msg, field))


def conjuncts(g):
  return list(g.args) if g.op == "and" else [g]


def relative(t, loc):
  """A persisted path does not depend on where the storage is."""
  if opaque(t):
    return None
  return not tm.contains(t, loc)


def check_publish(u, R, events, inst, loc, site, creating=False):
  """Files are complete before the entry point is replaced, last of all."""
  ws = streams(events)
  r = R["C01"]
  mw, ew = published(u, events, ws)
  if mw is None or ew is None:
    r.bad("publish-order", inst, site, "nothing is published")
    return
  for w in ws:
    i = f"{inst}: {kind_of(u, w)}"
    x = w.open.where
    if not r.check(w.move is not None, "temporary-then-move", i, x,
                   "a metadata file is not written to a temporary name and "
                   "moved"):
      continue
    r.check(w.tmp is not w.path and not same(w.tmp, w.path), "temporary-name", i,
            x, "the temporary name is the final name")
    r.check(bool(w.writes), "content-written", i, x, "nothing is written")
    ok = w.close is not None and w.close.i < w.move.i and all(
        e.i < w.close.i for e in w.writes)
    r.check(ok, "closed-before-move", i, w.move.where,
            "the file is moved into place before it is written and closed")
    if w is not ew and ew.move is not None:
      r.check(w.move.i < ew.move.i, "entry-point-last", i, ew.move.where,
              "the entry point is replaced before this file is in place")
    r2 = R["C15"]
    u_ok = fresh_name(w.path, u.floor) if w is not ew else True
    r2.check(u_ok, "fresh-file-name", i, x,
             f"the file name {short(w.path)} is not unique")
    r2.check(fresh_name(w.tmp, u.floor), "fresh-temporary-name", i, x,
             f"the temporary name {short(w.tmp)} is not unique")
    inside = u.spec("path.join(loc, 'metadata')", loc=loc)
    if inside.op == "call":
      pre = inside.args[1]
      good = w.path.op == "call" and tm.call_name(w.path) == "os.path.join" and \
          len(w.path.args[1]) > len(pre) and all(
              same(a, b) for a, b in zip(pre, w.path.args[1]))
      r2.check(True if good else (None if opaque(w.path) else False),
               "inside-metadata-folder", i, x,
               f"{short(w.path)} is not in the metadata folder")
  # The entry point names the metadata file, relative to the location.
  em = Msg(u, ew.message())
  mfile = em.get(".metadata_file")
  r.same(u.spec("path.join(loc, p)", loc=loc, p=mfile), mw.path,
         "entry-point-names-new-metadata", inst, ew.open.where)
  R["C14"].check(relative(mfile, loc), "relative-entry-point", inst,
                 ew.open.where,
                 f"the entry point stores {short(mfile)}, not a path relative "
                 "to the location")
  want = u.spec("path.join(loc, 'metadata', 'entrypoint.txtpb')", loc=loc)
  r.same(ew.path, want, "entry-point-place", inst, ew.open.where)
  if ew.move is not None:
    after = [e for e in events if e.i > ew.move.i and writes_storage(e)]
    r.check(not after, "nothing-written-after-publishing", inst,
            after[0].where if after else ew.move.where,
            "a file is still written after the entry point was replaced")


def check_in_use(u, R, events, st, inst):
  """The storage in memory goes on with metadata only once it is published:
  what failed to be published must not be read, or be built upon, later."""
  _, ew = published(u, events)
  if ew is None or ew.move is None:
    return
  early = [e for e in events if e.kind == "set" and e.recv is st and
           e.i < ew.move.i and e.args and
           u.typeof(e.args[0]) == proto("StorageMetadata")]
  for e in early:
    R["C01"].check(None if e.tries else False, "in-use-after-publishing", inst,
                   e.where, "the storage uses new metadata before it is "
                   "published")
  if not early:
    R["C01"].check(True, "in-use-after-publishing", inst, ew.move.where, "")


def kind_of(u, w):
  m = w.message()
  ty = u.typeof(m) if m is not None else None
  return ty[1] if ty and ty[0] == "proto" else "file"


def writes_storage(e):
  return e.kind == "call" and e.name.split(".")[-1] in (
      "open_output_stream", "move", "write", "write_table", "ParquetWriter",
      "ArrayRecordWriter", "delete_file", "close", "write_batch", "copy_file")


def fresh_name(t, since=0):
  """The last part of a path contains a value drawn anew (since some point)."""
  if t is None:
    return False
  last = t
  if t.op == "call" and tm.call_name(t) == "os.path.join":
    last = t.args[1][-1]
  drawn = lambda x: x.op == "fresh" and x.args[  # noqa: E731
      0] > since and x.args[0] not in tm.LOADED and any(
      unique_value(y) for y in tm.walk(x) if y.op == "call")
  return tm.contains(drop_short(last), drawn)


def unique_value(t):
  """A call that returns a value that no other call returns."""
  name = tm.call_name(t)
  if name in ("os.urandom", "secrets.randbits") or name.startswith(
      "secrets.token_"):
    n = [x.args[0] for x in t.args[1] if x.op == "const"]
    return not n or n[0] is None or n[0] >= (
        32 if name == "secrets.randbits" else 4)
  return name in ("uuid.uuid1", "uuid.uuid4")


def drop_short(t):
  """Without values cut to too few characters to tell files apart."""
  def f(x):
    if x.op == "item" and x.args[1].op == "slice":
      a, b = x.args[1].args[:2]
      n = lambda y: y.args[0] if y.op == "const" else None  # noqa: E731
      a, b = n(a) or 0, n(b)
      if b is not None and (a >= 0) == (b >= 0) and b - a < 8:
        return const("")
    if x.op == "item" and x.args[1].op == "const" and x.args[0].op == "call" and (
        x.args[0].args[0].op == "attr" and x.args[0].args[0].args[1] == "split"
        and tm.contains(x.args[0].args[0].args[0], lambda y: y.op == "call" and
                        tm.call_name(y).startswith("uuid."))):
      # The parts of a UUID have 8, 4, 4, 4 and 12 characters.
      sep = [a for a in x.args[0].args[1] if a.op == "const"]
      if [a.args[0] for a in sep] == ["-"] and not x.args[0].args[2] and (
          x.args[1].args[0] in (1, 2, 3, -2, -3, -4)):
        return const("")
    return None
  return tm.rewrite(t, f)


@group("C03")
def consecutive_commits(prog, R):
  u = storage_unit(prog)
  st, meta, loc = load_storage(u)
  p = u.sym("PATCH", proto("Patch"))
  ids = []
  for _ in range(2):
    u.assume(cmp_("in", attr(u.get(st, "metadata"), "current_snapshot_id")
                  if False else attr(meta, "current_snapshot_id"),
                  attr(meta, "snapshots")))
    k = u.mark()
    u.meth(st, "commit", p, MAIN)
    mw, _ = published(u, u.since(k))
    if mw is None:
      return
    m = Msg(u, mw.message(), and_(*mw.open.cond))
    ids.append([k for k, v in m.changed() if k[0] == ".snapshots"])
  R.use(("C03",), u, "two commits")
  keys = [{CANON(k[1]): k[1] for k in x} for x in ids]
  new = [k for c, k in keys[1].items() if c not in keys[0]]
  first = list(keys[0].values())
  w = def_site(prog, STORAGE + ".commit")
  ok = False
  if len(new) == 1 and len(first) == 1:
    d = tm.minus(new[0], first[0])
    ok = d.op == "const" and d.args[0] >= 1
    if not ok and new[0].op == "add":
      # max over the keys of the metadata holding the first commit.
      ok = tm.contains(new[0], lambda x: x.op == "call" and tm.call_name(
          x) == "max" and tm.contains(x, first[0])) and any(
              not mm and c >= 1 for mm, c in new[0].args[0])
  R["C03"].check(ok, "second-commit-has-larger-id", "main", w,
                 f"first {short(first[0]) if first else None}, then "
                 f"{short(new[0]) if new else None}")


@group("C04", "C01", "C14", "C15", "C03")
def references(prog, R):
  branch_t = mk("enum", "SnapshotReference", "BRANCH")
  tag_t = mk("enum", "SnapshotReference", "TAG")
  r = R["C04"]
  for api, kind, with_id in (("add_tag", tag_t, True), ("add_tag", tag_t, False),
                             ("add_branch", branch_t, False)):
    u = storage_unit(prog)
    cb = u.sym("CURRENT_BRANCH", STR)
    st, meta, loc = load_storage(u, branch=cb)
    name, sid = u.sym("NAME", STR), u.sym("SNAPSHOT", INT)
    if with_id:
      u.assume(not_(cmp_("is", sid, NONE)))
    ds = u.new("space.core.datasets.Dataset", st)
    k = u.mark()
    u.meth(ds, api, name, *([sid] if with_id else []))
    ev = u.since(k)
    inst = api + ("(id)" if with_id else "")
    site = def_site(prog, f"{STORAGE}.{api}")
    R.use(("C04",), u, "Storage." + inst)
    latest = latest_meta(u, st)
    mw, ew = published(u, ev)
    if not r.check(ew is not None and mw is not None, "reference-persisted",
                   inst, site, "nothing is written"):
      continue
    r.check(latest is not None, "latest-version", inst, site,
            "the change is not based on the latest version of the storage")
    meta = latest if latest is not None else meta
    guard = and_(*ew.move.cond) if ew.move else and_(*ew.open.cond)
    m = Msg(u, mw.message(), guard)
    check_publish(u, R, ev, inst, loc, site)
    check_in_use(u, R, ev, st, inst)
    r.check(m.src is meta, "nothing-else-persisted", inst + ": base",
            mw.open.where, "the published metadata is not derived from the "
            "latest metadata")
    refs = attr(meta, "refs")
    for kk, v in m.changed():
      if kk[0] == ".refs" and len(kk) > 1 and same(kk[1], name):
        continue
      if m.src is meta and kk[0] != ".last_update_time":
        r.bad("nothing-else-persisted", inst + ": " + str(kk[0]), mw.open.where,
              f"also changes {short(v)}")
    w = mw.open.where
    expect_id = sid
    got = m.get(".refs", name, ".snapshot_id")
    if with_id:
      r.same(got, sid, "reference-points-to-snapshot", inst, w)
    else:
      cur = attr(meta, "current_snapshot_id")
      alts = [cur, ite(cmp_("==", cb, MAIN), cur, tip(meta, cb))]
      r.check(any(same(got, a) for a in alts), "reference-points-to-snapshot",
              inst, w, f"points to {short(got)}, expected the current snapshot")
      expect_id = got
    r.same(m.get(".refs", name, ".type"), kind, "reference-kind", inst, w)
    r.same(m.get(".refs", name, ".reference_name"), name, "reference-name", inst,
           w)
    want = and_(cmp_("in", expect_id, attr(meta, "snapshots")), truthy(name),
                not_(cmp_("==", name, MAIN)), not_(cmp_("in", name, refs)))
    pre = not_(cmp_("is", sid, NONE)) if with_id else TRUE
    for label, c in (("existing snapshot", cmp_("in", expect_id, attr(
        meta, "snapshots"))), ("non-empty", truthy(name)),
                     ("not reserved", not_(cmp_("==", name, MAIN))),
                     ("unused", not_(cmp_("in", name, refs)))):
      ok = implies(guard, c)
      r.check(ok if ok or not opaque(guard) else None, "rejects-invalid",
              f"{inst}: {label}", site,
              f"a reference is added although it is not {label}: persisted if "
              f"{short(guard)}")
    ok = implies(and_(want, pre), specialise(guard, pre))
    r.check(ok if ok or not opaque(guard) else None, "accepts-valid", inst, site,
            f"persisted only if {short(guard)}")
    after = u.get(st, "metadata")
    r.same(u.freeze(attr_at(u, after, "refs", name, "snapshot_id")), got,
           "visible-after-adding", inst, w)
    for e in stray_writes(u, ev, meta):
      r.bad("rejected-changes-nothing", inst, e.where,
            "the metadata in use is modified in place")
  for api, kind in (("remove_tag", tag_t), ("remove_branch", branch_t)):
    u = storage_unit(prog)
    cb = u.sym("CURRENT_BRANCH", STR)
    st, meta, loc = load_storage(u, branch=cb)
    name = u.sym("NAME", STR)
    ds = u.new("space.core.datasets.Dataset", st)
    k = u.mark()
    u.meth(ds, api, name)
    ev = u.since(k)
    site = def_site(prog, f"{STORAGE}.{api}")
    R.use(("C04",), u, "Storage." + api)
    latest = latest_meta(u, st)
    mw, ew = published(u, ev)
    if not r.check(ew is not None and mw is not None, "reference-persisted", api,
                   site, "nothing is written"):
      continue
    r.check(latest is not None, "latest-version", api, site,
            "the change is not based on the latest version of the storage")
    meta = latest if latest is not None else meta
    guard = and_(*ew.move.cond) if ew.move else and_(*ew.open.cond)
    check_publish(u, R, ev, api, loc, site)
    check_in_use(u, R, ev, st, api)
    refs = attr(meta, "refs")
    ref = tm.item(refs, name)
    conds = [("existing", cmp_("in", name, refs)),
             ("of the same kind", cmp_("==", attr(ref, "type"), kind))]
    if kind is branch_t:
      conds.append(("not current", not_(cmp_("==", name, cb))))
    for label, c in conds:
      ok = implies(guard, c)
      r.check(ok if ok or not opaque(guard) else None, "rejects-invalid",
              f"{api}: {label}", site,
              f"a reference is removed although it is not {label}: persisted if "
              f"{short(guard)}")
    ok = implies(and_(*[c for _, c in conds]), guard)
    r.check(ok if ok or not opaque(guard) else None, "accepts-valid", api, site,
            f"persisted only if {short(guard)}")
    m = Msg(u, mw.message(), guard)
    dels = [e for e in ev if e.kind == "delitem" and e.recv is not None and
            e.recv.op == "attr" and e.recv.args[1] == "refs" and
            e.i < mw.open.i]
    r.check(any(e.args and same(e.args[0], name) for e in dels) and
            len(dels) == 1, "removes-the-reference", api, mw.open.where,
            "the reference is not removed from the persisted metadata")
    r.check(m.src is meta, "nothing-else-persisted", api + ": base",
            mw.open.where,
            "the published metadata is not derived from the latest metadata")
    for kk, v in m.changed():
      if kk[0] == ".refs" and (len(kk) == 1 or same(kk[1], name)):
        continue
      if m.src is meta and kk[0] != ".last_update_time":
        r.bad("nothing-else-persisted", api + ": " + str(kk[0]), mw.open.where,
              f"also changes {short(v)}")
    for e in stray_writes(u, ev, meta):
      r.bad("rejected-changes-nothing", api, e.where,
            "the metadata in use is modified in place")
    after = u.get(st, "metadata")
    last = [e for e in ev if e.kind == "set" and e.recv is st]
    r.check(u.freeze(after) is not meta or (
        None if opaque(u.freeze(after)) else False), "removed-in-use", api,
            last[-1].where if last else site,
            "the storage goes on with the metadata from before the removal")


@group("C04")
def commit_kind(prog, R):
  """Data is committed to branches, never to tags."""
  r = R["C04"]
  site = def_site(prog, STORAGE + ".commit")
  u = storage_unit(prog)
  br = u.sym("BRANCH", STR)
  u.assume(not_(cmp_("==", br, MAIN)))
  st, meta, loc = load_storage(u, branch=br)
  patch = u.sym("PATCH", proto("Patch"))
  for part in ("deletion", "addition"):
    for kind in ("index_manifest_files", "record_manifest_files"):
      u.gstore[("c", attr(attr(patch, part), kind))] = tm.seq(())
  k = u.mark()
  u.run_spec("with st.transaction() as txn:\n  txn.commit(patch)\n", st=st,
             patch=patch)
  evs = u.since(k)
  meta = latest_meta(u, st) or meta
  R.use(("C04",), u, "Storage.commit to a reference")
  _, ew = published(u, evs)
  if ew is None:
    r.undecided("commit-to-branch", "commit", site, "nothing is published")
    return
  guard = and_(*ew.move.cond) if ew.move else and_(*ew.open.cond)
  guard = specialise(guard, not_(cmp_("==", br, MAIN)))
  ref = tm.item(attr(meta, "refs"), br)
  for label, c in (("a branch", cmp_("==", attr(ref, "type"), mk(
      "enum", "SnapshotReference", "BRANCH"))), ("existing", cmp_(
          "in", br, attr(meta, "refs")))):
    ok = implies(guard, c)
    r.check(ok if ok or not opaque(guard) else None, "commit-to-branch", label,
            site, f"a snapshot is committed to a reference that is not {label}: "
            f"published if {short(guard)}")


def latest_meta(u, st):
  got = [m for _, recv, m in getattr(u, "reloaded", []) if recv is st]
  return got[-1] if got else None


def attr_at(u, base, *path):
  x = base
  for p in path:
    x = u.get_attr(x, p) if isinstance(p, str) else u.get_item(x, p, None)
  return x


@group("C04")
def current_branch(prog, R):
  u = storage_unit(prog)
  cb = u.sym("CURRENT_BRANCH", STR)
  st, meta, _ = load_storage(u, branch=cb)
  name = u.sym("NAME", STR)
  ds = u.new("space.core.datasets.Dataset", st)
  k = u.mark()
  u.meth(ds, "set_current_branch", name)
  R.use(("C04",), u, "Storage.set_current_branch")
  latest = latest_meta(u, st) or meta
  ref = tm.item(attr(latest, "refs"), name)
  want = or_(cmp_("==", name, MAIN), and_(
      cmp_("in", name, attr(latest, "refs")),
      cmp_("==", attr(ref, "type"), mk("enum", "SnapshotReference", "BRANCH"))))
  site = def_site(prog, STORAGE + ".set_current_branch")
  guard = and_(*u.state.cond)
  R["C04"].guard(guard, want, "only-a-branch-becomes-current", "guard", site)
  R["C04"].same(specialise(u.freeze(u.get(st, "current_branch")), guard), name,
                "current-branch-is-set", "value", site)
  for e in u.since(k):
    if e.kind == "set" and e.recv is st and same(
        u.freeze(e.args[0]) if e.args else NONE, name):
      g = and_(*e.cond)
      R["C04"].check(implies(g, want), "checked-before-switching", "order",
                     e.where, f"the branch is switched if {short(g)}")


@group("C05")
def versions(prog, R):
  r = R["C05"]
  site = def_site(prog, STORAGE + ".version_to_snapshot_id")
  # A number is that snapshot; a name is what its reference points to.
  u = storage_unit(prog)
  st, meta, _ = load_storage(u, branch=u.sym("CURRENT_BRANCH", STR))
  v = u.sym("VERSION", INT)
  got = u.meth(st, "version_to_snapshot_id", v)
  r.same(specialise(u.freeze(got), and_(*u.state.cond)), v, "number-version",
         "version_to_snapshot_id", site)
  r.check(not u.raised() or implies(TRUE, not_(or_(*[
      and_(*e.cond) for e in u.raised()]))), "number-version", "no error", site,
          "a number is rejected")
  R.use(("C05",), u, "version_to_snapshot_id(int)")
  u = storage_unit(prog)
  st, meta, _ = load_storage(u, branch=u.sym("CURRENT_BRANCH", STR))
  v = u.sym("NAME", STR)
  got = u.freeze(u.meth(st, "version_to_snapshot_id", v))
  cond = and_(*u.state.cond)
  ref = tm.item(attr(meta, "refs"), v)
  alts = [(attr(ref, "snapshot_id"), cmp_("in", v, attr(meta, "refs"))),
          (ite(cmp_("==", v, MAIN), attr(meta, "current_snapshot_id"),
               attr(ref, "snapshot_id")),
           or_(cmp_("==", v, MAIN), cmp_("in", v, attr(meta, "refs"))))]
  ok = any(same(specialise(got, c), specialise(x, c)) and equiv(cond, c)
           for x, c in alts)
  r.check(ok if ok or not opaque(got) else None, "name-version",
          "version_to_snapshot_id", site,
          f"a name resolves to {short(got)} if {short(cond)}")
  R.use(("C05",), u, "version_to_snapshot_id(str)")
  # The snapshot of an id, and of no id.
  site = def_site(prog, STORAGE + ".snapshot")
  for case in ("id", "none"):
    for main in (True, False):
      u = storage_unit(prog)
      cb = MAIN if main else u.sym("CURRENT_BRANCH", STR)
      st, meta, _ = load_storage(u, branch=cb)
      if not main:
        assume_branch(u, meta, cb)
      pre = and_(*u.state.cond)
      sid = u.sym("SNAPSHOT", INT) if case == "id" else NONE
      if case == "id":
        u.assume(not_(cmp_("is", sid, NONE)))
        pre = and_(*u.state.cond)
      got = u.freeze(u.meth(st, "snapshot", sid))
      cond = and_(*u.state.cond)
      want = sid if case == "id" else tip(meta, cb)
      snaps = attr(meta, "snapshots")
      inst = f"{case}, {'main' if main else 'branch'}"
      r.same(specialise(got, cond), tm.item(snaps, want), "snapshot-lookup", inst,
             site)
      r.guard(cond, and_(pre, cmp_("in", want, snaps)), "unknown-version-fails",
              inst, site)
      R.use(("C05",), u, "Storage.snapshot")


@group("C02", "C04", "C05", "C14")
def reload(prog, R):
  u = storage_unit(prog, reload_cut=False)
  cb = u.sym("CURRENT_BRANCH", STR)
  st, meta, loc = load_storage(u, branch=cb)
  u.assume(truthy(cb))
  mf = u.sym("MF", STR)
  k = u.mark()
  got = u.meth(st, "reload")
  ev = u.since(k)
  R.use(("C05", "C02", "C04"), u, "Storage.reload")
  site = def_site(prog, STORAGE + ".reload")
  r = R["C05"]
  now = u.freeze(u.get(st, "metadata"))
  reads = [e for e in ev if e.kind == "call" and e.name.endswith(
      "open_input_file") or e.kind == "call" and e.name.endswith(
          "open_input_stream")]
  paths = [e.kwargs.get("path") or (e.args[0] if e.args else None) for e in reads]
  ep = u.spec("path.join(loc, 'metadata', 'entrypoint.txtpb')", loc=loc)
  r.check(any(p is not None and same(p, ep) for p in paths), "reads-entry-point",
          "reload", site, "the entry point file is not read again")
  # The message read from the entry point, and the one it names.
  fresh = [x for x in tm.walk(now) if x.op == "fresh" and
           u.typeof(x) == proto("StorageMetadata")]
  if not r.check(len(fresh) == 1, "reload-reads-metadata", "reload", site,
                 f"after a reload the metadata is {short(now)}"):
    return
  f = fresh[0]
  entry = [x for x in tm.walk(f) if x.op == "fresh" and
           u.typeof(x) == proto("EntryPoint")]
  if not r.check(len(entry) >= 1, "reload-reads-metadata", "entry point", site,
                 "the metadata file is not the one named by the entry point"):
    return
  named = attr(entry[0], "metadata_file")
  full = u.spec("path.join(loc, p)", loc=loc, p=named)
  r.check(any(p is not None and same(p, full) for p in paths),
          "reload-reads-metadata", "path", site,
          f"reads {[short(p) for p in paths]}, expected {short(full)}")
  changed = not_(cmp_("==", named, mf))
  r.same(specialise(now, changed), f, "reload-picks-up-changes", "metadata", site)
  r.check(same(specialise(now, not_(changed)), meta) or
          same(specialise(now, not_(changed)), f), "reload-keeps-unchanged",
          "metadata", site, "an unchanged storage is altered by a reload")
  for x in (r, R["C04"]):
    x.same(u.freeze(u.get(st, "current_branch")), cb, "reload-keeps-branch",
           "current branch", site)
  # All that is derived from the metadata is recomputed: same state as a load.
  st2 = u.static(STORAGE, "load", loc)
  meta2 = u.freeze(u.get(st2, "metadata"))
  for key, v in sorted(u.state.store.items(), key=lambda kv: str(kv[0])):
    if isinstance(key, tuple) or key.op != "attr" or key.args[0] is not st2:
      continue
    name = key.args[1]
    a = specialise(u.freeze(u.load(attr(st, name))), changed)
    b = u.freeze(v)
    # (values of the second load, in terms of the reloaded metadata)
    b = tm.subst(b, {meta2: f}) if meta2.op == "fresh" else b
    if b is MAIN or not tm.contains(b, f):
      continue
    r.check(same(a, b, loose=True) or None if opaque(a) else same(
        a, b, loose=True), "reload-like-load", f"state {len(r.items)}", site,
            f"{name} is {short(a)} after a reload, but {short(b)} after a load")
  # The file name seen last is remembered.
  known = [u.freeze(v) for key, v in u.state.store.items()
           if not isinstance(key, tuple) and key.op == "attr" and
           key.args[0] is st]
  names = [v for v in known if tm.contains(v, named)]
  r.check(bool(names), "remembers-version", "reload", site,
          "the version loaded is not remembered")
  res = u.freeze(got)
  r.check(same(specialise(truthy(res), changed), TRUE) if not opaque(res) else
          None, "reports-change", "return value", site,
          f"returns {short(res)}")


@group("C05", "C06", "C14", "C16")
def data_files(prog, R):
  """Storage.data_files lists the files of all manifests of the snapshot."""
  ri = "space.core.manifests.index.read_index_manifests"
  bf = "space.core.manifests.falsifiable_filters.build_manifest_filter"
  site = def_site(prog, STORAGE + ".data_files")
  for with_filter in (False, True):
    paths = Paths(data_files_decisions, 40)
    marks = {p: len(R[p].items) for p in ("C05", "C06", "C14", "C16")}
    n = 0
    for u, _ in paths.run(lambda oracle: data_files_unit(
        prog, oracle, {ri: None, bf: None}, with_filter)):
      if u.got is not None:
        n += 1
        data_files_path(R, u, with_filter, ri, bf, site)
    for p, k in marks.items():
      R[p].worst(k)
    R["C05"].check(n > 0, "lists-every-manifest",
                   "with filter" if with_filter else "no filter", site,
                   "always fails")


def data_files_decisions(c):
  for x in tm.walk(c):
    if x.op in ("exc", "opaque"):
      return None
  if c.op == "cmp" and c.args[0] == "in" and c.args[1].op == "sym":
    return "true"
  return True if tm.contains(c, lambda x: x.op == "sym" and x.args[
      0] == "SNAPSHOT") else None


def data_files_unit(prog, oracle, cuts, with_filter):
  u = storage_unit(prog, cuts=cuts)
  u.oracle = oracle
  st, meta, loc = load_storage(u, branch=u.sym("CURRENT_BRANCH", STR))
  sid = u.sym("SNAPSHOT", INT)
  u.assume(not_(cmp_("is", sid, NONE)))
  flt = u.sym("FILTER") if with_filter else NONE
  if with_filter:
    u.assume(not_(cmp_("is", flt, NONE)))
  k = u.mark()
  got = u.meth(st, "data_files", flt, sid)
  u.got = got if u.state.live else None
  u.args_ = (st, meta, loc, sid, flt, u.since(k))
  return u, None


def data_files_path(R, u, with_filter, ri, bf, site):
  st, meta, loc, sid, flt, ev = u.args_
  got = u.got
  R.use(("C05", "C06", "C14"), u, "Storage.data_files")
  inst = "with filter" if with_filter else "no filter"
  r = R["C05"]
  reads = [e for e in ev if e.kind == "cut" and e.name == ri]
  files = attr(attr(tm.item(attr(meta, "snapshots"), sid), "manifest_files"),
               "index_manifest_files")
  if not r.check(len(reads) == 1, "lists-every-manifest", inst, site,
                 f"{len(reads)} places read manifests"):
    return
  e = reads[0]
  args = e.kwargs
  vals = [u.freeze(x) for x in args.values()]
  elem = [x for v in vals for x in tm.walk(v) if x.op == "elem" and
          x.args[0] is files]
  r.check(bool(elem), "lists-snapshot-manifests", inst, e.where,
          f"reads {[short(v) for v in vals]}, not the manifests of the "
          "resolved snapshot")
  pre = cmp_("in", sid, attr(meta, "snapshots"))
  g = and_(*e.cond)
  base = and_(not_(cmp_("is", sid, NONE)), not_(cmp_("is", flt, NONE)), pre,
              *u.state.cond)
  r.check(implies(base, g), "lists-every-manifest", inst + ": unconditionally",
          e.where, f"a manifest is read only if {short(g)}")
  if not elem:
    return
  x = elem[0]
  full = u.spec("path.join(loc, p)", loc=loc, p=x)
  R["C14"].check(any(same(v, full) for v in vals), "resolves-manifest-path",
                 inst, e.where,
                 f"the manifest is read from {[short(v) for v in vals]}, "
                 f"expected {short(full)}")
  # The manifest filter keeps files without statistics.
  mfil = [e2 for e2 in ev if e2.kind == "cut" and e2.name == bf]
  r6 = R["C06"]
  if with_filter:
    if r6.check(len(mfil) == 1, "prunes-by-filter", inst, site,
                "the manifest filter is not built from the filter") or True:
      passed = [v for v in vals if mfil and tm.contains(v, mfil[0].result)]
      if mfil and passed:
        f = specialise(passed[0], not_(cmp_("is", mfil[0].result, NONE)))
        null = tm.contains(f, lambda y: y.op == "call" and tm.call_name(
            y) == ".is_null" and tm.contains(y, mfil[0].result))
        disj = f.op == "binop" and f.args[0] == "|" or f.op == "call" and \
            tm.call_name(f).split(".")[-1] in ("or_kleene", "or_") or \
            f.op == "or"
        r6.check(null and disj, "unknown-statistics-are-kept", inst, e.where,
                 f"files without statistics are dropped by {short(f)}")
        f0 = specialise(passed[0], cmp_("is", mfil[0].result, NONE))
        r6.check(f0 is NONE or same(f0, mfil[0].result) or None if opaque(f0)
                 else (f0 is NONE or same(f0, mfil[0].result)),
                 "unanalysable-filter-reads-all", inst, e.where,
                 f"without a manifest filter the filter is {short(f0)}")
        fa = mfil[0].kwargs
        r6.check(any(v is flt for v in fa.values()), "prunes-by-filter",
                 inst + ": the filter given", mfil[0].where,
                 "the filter is not what is analysed")
      if mfil:
        check_filter_args(u, r6, mfil[0], st, meta)
  else:
    r6.check(not any(tm.contains(v, lambda y: y.op == "opaque" and y.args[
        0] == bf) for v in vals), "no-filter-no-pruning", inst, e.where,
             "files are pruned without a filter")
  # Results: all files of the manifest, under the id of the manifest.
  res = e.result
  fs = Msg(u, u.freeze(got)) if u.freeze(got).op == "msg" else None
  if fs is None:
    r.undecided("file-set", inst, site, f"returns {short(u.freeze(got))}")
    return
  idx = u.content(fs.get(".index_files"))
  good = False
  for en in idx.args[0]:
    if en[0] == "each" and en[1] is files and len(en[4]) == 1 and \
        en[4][0][0] == "splice":
      lst = en[4][0][2]
      gg = and_(en[3], en[4][0][1])
      gg = specialise(gg, base)
      if lst is attr(res, "index_files") and (
          gg is TRUE or implies(truthy(lst), gg)):
        good = True
  r.check(good and len(idx.args[0]) == 1 if not opaque(idx) else (
      True if good else None), "all-files-of-every-manifest", inst, site,
          f"the file set holds {short(idx)}")
  ids = [e2 for e2 in ev if e2.kind == "setitem" and e2.recv is not None and
         e2.recv.op == "attr" and e2.recv.args[1] == "index_manifest_files"]
  if r.check(len(ids) == 1 and len(ids[0].args) > 1, "manifest-of-file", inst,
             site, "the manifest file of the files is not recorded"):
    key, val = ids[0].args[0], u.freeze(ids[0].args[1])
    r.same(val, x, "manifest-of-file", inst + ": path", ids[0].where)
    idarg = [a for a in args.values() if a is key or same(a, key)]
    r.check(bool(idarg), "manifest-of-file", inst + ": id", ids[0].where,
            f"the manifest is recorded under {short(key)}, but its files "
            f"under {[short(a) for a in args.values()]}")
    r.check(unique_id(u, key, and_(*ids[0].cond)), "manifest-id-unique", inst,
            ids[0].where, f"two manifests may share the id {short(key)}")


def unique_id(u, key, guard):
  """The value differs in every iteration in which it is used, and is not 0."""
  base, c = key, 0
  if key.op == "add":
    ms = dict(key.args[0])
    c = ms.pop((), 0)
    if len(ms) != 1:
      return None
    (m, k), = ms.items()
    if k != 1 or len(m) != 1:
      return None
    base = m[0]
  if base.op == "idx":
    return c >= 1
  if base.op == "mu":
    info = u.loops.get(base.args[1])
    if info is None:
      return None
    for lab, upd in info.update.items():
      if isinstance(lab, str) and base.args[0].op == "lvar" and \
          base.args[0].args[0] == lab:
        step = specialise(upd, specialise(guard, TRUE))
        d = tm.minus(step, base)
        gl = [g for g in conjuncts(guard)]
        for g in gl:
          d = specialise(d, g)
        init = info.init.get(lab)
        if d.op == "const" and isinstance(d.args[0], int) and init is not None \
            and init.op == "const":
          return d.args[0] >= 1 and init.args[0] + c >= 1
        return None
    return None
  if base.op == "call" and tm.call_name(base) == "len":
    return None
  if base.op in ("const",):
    return False
  return None


def check_filter_args(u, r, e, st, meta):
  """The manifest filter is built for the physical schema and keys of the
  storage."""
  names = {CANON(u.freeze(v)) for v in e.kwargs.values()}
  phys = CANON(u.freeze(u.get(st, "physical_schema")))
  r.check(phys in names, "prunes-by-physical-schema", "data_files", e.where,
          "the manifest filter is not built with the physical schema")
  pk = attr(attr(meta, "schema"), "primary_keys")
  r.check(any(tm.contains(u.freeze(v), pk) for v in e.kwargs.values()),
          "prunes-by-primary-keys", "data_files", e.where,
          "the manifest filter is not built with the primary keys")


@group("C05", "C14")
def manifest_tables(prog, R):
  for api, field in (("index_manifest", "index_manifest_files"),
                     ("record_manifest", "record_manifest_files")):
    u = storage_unit(prog)
    st, meta, loc = load_storage(u, branch=u.sym("CURRENT_BRANCH", STR))
    sid, flt = u.sym("SNAPSHOT", INT), u.sym("FILTER")
    u.assume(not_(cmp_("is", sid, NONE)))
    k = u.mark()
    got = u.content(u.freeze(u.meth(st, api, flt, sid)))
    R.use(("C05", "C14"), u, "Storage." + api)
    site = def_site(prog, f"{STORAGE}.{api}")
    files = attr(attr(tm.item(attr(meta, "snapshots"), sid), "manifest_files"),
                 field)
    want = u.spec(
        "[pq.read_table(path.join(loc, f), filters=flt) for f in files]",
        loc=loc, files=files, flt=flt)
    R["C05"].same(got, u.content(want), "manifest-of-snapshot", api, site)
