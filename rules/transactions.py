"""The commit protocol and job results."""

import functools

from pyflow import terms as tm
from pyflow.terms import (FALSE, NONE, TRUE, and_, attr, cmp_, const, ite, mk,
                          not_, or_, truthy)
from rules.base import (def_site, equiv, implies, opaque, same, short,
                        specialise, where)
from rules.registry import group
from rules.storage import MAIN, tip
from rules.units import (STORAGE, STR, assume_main_or_branch, load_storage,
                         mutations, runner_unit, storage_unit)

DATA_FILES = STORAGE + ".data_files"


def files_handler(u, recv, bound, t, ev):
  """Some set of files."""
  u.nfiles = getattr(u, "nfiles", 0) + 1
  return u.sym(f"FILES{u.nfiles}", ("proto", "FileSet"))


def two_files(u, recv, bound, t, ev):
  """A set of two files of different manifests."""
  fs = files_handler(u, recv, bound, t, ev)
  files = [u.sym(f"FILE{u.nfiles}.{i}", ("proto", "DataFile")) for i in (1, 2)]
  for i, f in enumerate(files):
    u.gstore[attr(f, "manifest_file_id")] = tm.const(i + 1)
  u.known_iter[attr(fs, "index_files").uid] = files
  return fs


COMMIT, RELOAD = STORAGE + ".commit", STORAGE + ".reload"
STATES = ("SUCCEEDED", "FAILED", "SKIPPED")


def states(u, st):
  """Guards under which a job state is each of the states."""
  job = "space.core.jobs.JobResult.State"
  u.cls("space.core.jobs.JobResult")
  return {s: u.spec(f"JobResult.State.{s}", _module="space.core.jobs")
          for s in STATES}


def exc_free(g):
  """The condition, if no exception occurs."""
  out = g
  for x in tm.walk(g):
    if x.op == "exc":
      out = specialise(out, not_(x))
  return out


def value_guard(t, value):
  """The condition under which a conditional value is `value`."""
  if t.op == "ite":
    c, a, b = t.args
    return or_(and_(c, value_guard(a, value)), and_(not_(c), value_guard(b, value)))
  return TRUE if same(t, value) else FALSE


def reloads(u, st):
  return [(ev, m) for ev, recv, m in getattr(u, "reloaded", []) if recv is st]


@group("C02", "C18")
def transaction(prog, R):
  """with storage.transaction() as t: t.commit(patch)."""
  for case in ("main", "branch"):
    u = storage_unit(prog, cuts={COMMIT: None})
    cb = MAIN if case == "main" else u.sym("BRANCH", STR)
    st, meta, loc = load_storage(u, branch=cb)
    patch = u.sym("PATCH", ("proto", "Patch"))
    other = u.sym("OTHER_BRANCH", STR)
    k = u.mark()
    v = u.run_spec(
        "with st.transaction() as txn:\n"
        "  st.set_current_branch(other)\n"
        "  txn.commit(patch)\n"
        "  r = txn.result()\n", st=st, patch=patch, other=other)
    ev = u.since(k)
    R.use(("C02", "C18"), u, "Storage.transaction: " + case)
    r2, r18 = R["C02"], R["C18"]
    site = def_site(prog, STORAGE + ".transaction")
    commits = [e for e in ev if e.kind == "cut" and e.name == COMMIT]
    rl = reloads(u, st)
    if not r2.check(len(commits) >= 1, "commit-happens", case, site,
                    "a transaction never commits"):
      continue
    for e in commits:
      w = e.where
      before = [m for x, m in rl if x.i < e.i]
      if not r2.check(len(before) >= 2, "reload-at-start-and-commit", case, w,
                      "the storage is not re-read both when the transaction "
                      "starts and when it commits"):
        continue
      first, last = before[0], before[-1]
      base = TRUE
      if case == "branch":
        for m in before:
          refs = attr(m, "refs")
          base = and_(base, not_(cmp_("==", cb, MAIN)), cmp_("in", cb, refs))
      g = specialise(and_(*e.cond), base)
      unmoved = cmp_("==", tip(first, cb), tip(last, cb))
      ok = implies(and_(base, g), unmoved)
      r2.check(ok if ok or not opaque(g) else None, "commit-only-if-unmoved",
               case, w, f"commits if {short(g)}")
      # Other conditions: only that there is a patch, and other's validity.
      here = [c for c in before if c is not first and c is not last]
      ok = may_commit(u, g, base, unmoved, patch)
      r2.check(ok, "commit-if-unmoved", case, w,
               f"an unchanged branch is not committed to unless {short(g)}")
      del here
      kw = {n: u.freeze(x) for n, x in e.kwargs.items()}
      r2.check(any(x is cb or same(x, cb) for x in kw.values()),
               "commits-to-start-branch", case, w,
               f"commits to {[short(x) for n, x in kw.items()]}, not to the "
               "branch current at the start")
      r2.check(any(x is patch for x in kw.values()), "commits-the-patch", case, w,
               "does not commit the given patch")
    # The result.
    cond = and_(*u.state.cond)
    res = v.get("r")
    state = specialise(u.freeze(u.get(res, "state")), cond)
    vals = states(u, state)
    committed = or_(*[and_(*e.cond) for e in commits])
    got = {s: value_guard(state, x) for s, x in vals.items()}
    no_patch = cmp_("is", patch, NONE)
    w = site
    r18.guard(got["SUCCEEDED"], committed, "succeeded-iff-committed", case, w,
              under=cond)
    ok = implies(and_(cond, got["SKIPPED"]), no_patch)
    r18.check(ok if ok or not opaque(state) else None, "skipped-iff-no-change",
              case, w, f"is skipped if {short(got['SKIPPED'])}")
    if len(rl) >= 2:
      moved = not_(cmp_("==", tip(rl[0][1], cb), tip(rl[-1][1], cb)))
      refs_ok = TRUE
      if case == "branch":
        refs_ok = and_(*[cmp_("in", cb, attr(m, "refs")) for _, m in rl],
                       not_(cmp_("==", cb, MAIN)))
      failed = specialise(got["FAILED"], refs_ok)
      ok = implies(and_(cond, refs_ok, moved, not_(no_patch)), failed)
      r18.check(ok if ok or not opaque(state) else None, "failed-iff-conflict",
                case, w, f"fails if {short(got['FAILED'])}")
      ok = implies(and_(cond, refs_ok, failed), moved)
      r18.check(ok if ok or not opaque(state) else None,
                "failed-only-if-conflict", case, w,
                f"fails if {short(got['FAILED'])}")
    total = or_(*got.values())
    ok = implies(cond, total)
    r18.check(ok if ok or not opaque(state) else None, "result-is-a-state", case,
              w, f"the state is {short(state)}")
    upd = specialise(u.freeze(u.get(res, "storage_statistics_update")),
                     and_(cond, committed))
    r18.same(upd, attr(patch, "storage_statistics_update"),
             "reports-statistics-of-change", case, w)
    err = specialise(u.freeze(u.get(res, "error_message")),
                     and_(cond, got["FAILED"]))
    r18.check(err is not NONE and not same(err, const("")), "failure-has-error",
              case, w, "a failed job has no error message")
  # A second commit, and a result before the commit.
  u = storage_unit(prog, cuts={COMMIT: None})
  st, meta, loc = load_storage(u)
  patch = u.sym("PATCH", ("proto", "Patch"))
  u.assume(not_(cmp_("is", patch, NONE)))
  k = u.mark()
  v = u.run_spec("txn = st.transaction()\n"
                 "with txn as t:\n"
                 "  t.commit(patch)\n", st=st, patch=patch)
  n1 = [e for e in u.since(k) if e.kind == "cut" and e.name == COMMIT]
  k = u.mark()
  base = and_(*u.state.cond)
  u.meth(v["txn"], "commit", patch)
  n2 = [e for e in u.since(k) if e.kind == "cut" and e.name == COMMIT]
  R.use(("C18",), u, "two commits in a transaction")
  site = def_site(prog, STORAGE + ".transaction")
  if n1:
    live = [e for e in n2 if and_(base, *e.cond) is not FALSE and not implies(
        and_(base, *e.cond), FALSE)]
    dead = implies(and_(base, *[and_(*e.cond) for e in live]), FALSE) if live \
        else True
    R["C18"].check(dead, "no-second-commit", "transaction",
                   live[0].where if live else site,
                   "a transaction can be committed twice")
  u = storage_unit(prog, cuts={COMMIT: None})
  st, meta, loc = load_storage(u)
  for stage, src in (("before start", "txn = st.transaction()\nr = txn.result()\n"),
                     ("before commit", "with st.transaction() as txn:\n"
                                       "  r = txn.result()\n")):
    save = u.state.fork()
    k = u.mark()
    u.run_spec(src, st=st)
    dead = not u.state.live or and_(*u.state.cond) is FALSE
    R["C18"].check(dead, "no-result-before-commit", stage, site,
                   "a result is returned before the transaction is committed")
    u.state = save


def may_commit(u, g, base, unmoved, patch):
  """g holds whenever the branch is unmoved, up to conditions unrelated to it."""
  g = specialise(specialise(g, unmoved), not_(cmp_("is", patch, NONE)))
  g = specialise(g, base)
  for c in (list(g.args) if g.op == "and" else [g]):
    if c is TRUE:
      continue
    if tm.contains(c, patch):
      return False
    # Validity of the branch that was switched to.
    if not tm.contains(c, lambda x: x.op == "sym" and x.args[0] in (
        "OTHER_BRANCH", "BRANCH")) and opaque(c) is None:
      return False
  return True


@functools.lru_cache(maxsize=None)
def mutation_unit(prog, kind, name, case, cut=True):
  u0 = storage_unit(prog)
  br = MAIN if case == "main" else u0.sym("BRANCH", STR)
  u, ds, r, st, meta, loc = runner_unit(
      prog, kind, br, {DATA_FILES: two_files if (kind, name) == (
          "ray", "delete") else files_handler}, commit_cut=cut)
  args = mutations(u)[name]
  k = u.mark()
  res = u.meth(r, name, *args)
  return u, u.since(k), res, st, meta, loc, br


LOCAL = ("append", "append_from", "append_array_record", "append_parquet",
         "insert", "upsert", "delete")
RAY = ("append", "append_from", "insert", "upsert", "delete")


@group("C02", "C18")
def mutations_commit(prog, R):
  for kind, names in (("local", LOCAL), ("ray", RAY)):
    for name in names:
      cases = ("main", "branch") if name == "append" else ("main",)
      for case in cases:
        one_mutation(prog, R, kind, name, case)


def one_mutation(prog, R, kind, name, case):
  inst = f"{kind} {name}" + (" on a branch" if case == "branch" else "")
  u, ev, res, st, meta, loc, br = mutation_unit(prog, kind, name, case)
  R.use(("C02", "C18"), u, "runner: " + inst)
  cls = {"local": "space.core.runners.LocalRunner",
         "ray": "space.ray.runners.RayReadWriterRunner"}[kind]
  site = def_site(prog, f"{cls}.{name}")
  r2, r18 = R["C02"], R["C18"]
  commits = [e for e in ev if e.kind == "cut" and e.name == COMMIT]
  if not r2.check(bool(commits), "mutation-commits", inst, site,
                  "the change is never committed"):
    return
  rl = reloads(u, st)
  for e in commits:
    before = [(x, m) for x, m in rl if x.i < e.i]
    if not r2.check(len(before) >= 2, "mutation-in-transaction", inst, e.where,
                    "a change is committed without re-reading the storage at "
                    "its start and at its commit"):
      continue
    first, last = before[0][1], before[-1][1]
    base = TRUE
    if case == "branch":
      base = and_(not_(cmp_("==", br, MAIN)), *[cmp_("in", br, attr(
          m, "refs")) for _, m in before])
    g = exc_free(and_(*e.cond))
    unmoved = cmp_("==", tip(first, br), tip(last, br))
    ok = holds_under(g, unmoved, base)
    r2.check(ok, "mutation-commit-only-if-unmoved", inst, e.where,
             f"commits if {short(g)}")
    kw = [u.freeze(x) for x in e.kwargs.values()]
    r2.check(any(x is br or same(x, br) for x in kw), "mutation-branch", inst,
             e.where, f"commits to {[short(x) for x in kw]}")
    # The change is computed from the version read at the start.
    stale = [x for x in ev if before[0][0].i < x.i < e.i and
             x.kind in ("call", "vcall", "cut", "enter", "new") and
             any(isinstance(a, tm.T) and tm.contains(u_short(a), meta)
                 for a in list(x.args) + list(x.kwargs.values()))]
    r2.check(not stale, "mutation-uses-latest-version", inst,
             stale[0].where if stale else e.where,
             "uses the metadata from before the start of the transaction")
    early = [x for x in ev if x.i < before[0][0].i and x.kind == "cut" and
             x.name == DATA_FILES]
    r2.check(not early, "mutation-reads-in-transaction", inst,
             early[0].where if early else e.where,
             "the files to change are read before the transaction starts")
    # Nothing that the conflict check vouches for is read afterwards.
    mid = [x for x in ev if x.i > before[0][0].i and x.i < before[-1][0].i]
    used = [x for x in ev if before[-1][0].i < x.i and x.kind == "cut" and
            x.name not in (COMMIT, RELOAD)]
    del mid, used
  # Results.
  cond = and_(*u.state.cond)
  state = u.freeze(u.get(res, "state"))
  vals = states(u, state)
  excs = {x for x in tm.walk(state) if x.op == "exc"}
  clean = and_(*[not_(x) for x in excs])
  s0 = specialise(specialise(state, clean), cond)
  got = {s: value_guard(s0, x) for s, x in vals.items()}
  committed = exc_free(or_(*[and_(*e.cond) for e in commits]))
  r18.guard(got["SUCCEEDED"], committed, "succeeded-iff-committed", inst, site,
            under=and_(clean, cond))
  ok = bool_implies(and_(exc_free(cond), got["SKIPPED"]), not_(committed))
  r18.check(ok, "skipped-not-committed", inst, site,
            f"is skipped if {short(got['SKIPPED'])}")
  # Errors of the library are reported as failures.
  names = set()
  for x in excs:
    names |= set(x.args[1].split(","))
  for want in ("SpaceRuntimeError", "UserInputError"):
    hit = any(u.catches(n, "space.core.utils.errors." + want) for n in names)
    if r18.check(hit, "errors-become-failures", f"{inst}: {want}", site,
                 f"{want} raised during the operation is not turned into a "
                 "failed job result"):
      for x in excs:
        if not any(u.catches(n, "space.core.utils.errors." + want)
                   for n in x.args[1].split(",")):
          continue
        s1 = specialise(state, x)
        r18.check(same(s1, vals["FAILED"]) or (None if opaque(s1) else False),
                  "errors-become-failures", f"{inst}: {want} state", site,
                  f"the state after an error is {short(s1)}")
        msg = specialise(u.freeze(u.get(res, "error_message")), x)
        r18.check(tm.contains(msg, lambda y: y.op == "excval") or (
            None if opaque(msg) else msg.op not in ("const",) or None),
                  "failure-reports-error", f"{inst}: {want}", site,
                  f"the error message is {short(msg)}")
  # After publishing, no such error may be raised.
  for e in ev:
    if e.kind == "raise" and commits and e.i > commits[-1].i:
      lib = any(u.catches(n, e.name) for n in names)
      comp = and_(*e.cond, committed)
      if lib and comp is not FALSE and not bool_implies(comp, FALSE):
        r18.check(False, "no-failure-after-commit", f"{inst}: {e.name}", e.where,
                  f"{e.name} is raised after the change was committed")
  r18.ok("no-failure-after-commit", inst, site)


def u_short(t):
  return t


def bool_implies(a, b):
  r = implies(a, b)
  if r is False and (opaque(a) or opaque(b)):
    return None
  return r


def holds_under(g, want, base=TRUE):
  """g implies want; conditions of g not mentioned in `want` are dropped first."""
  cs = list(g.args) if g.op == "and" else [g]
  cs = [specialise(c, base) for c in cs]
  rel = [c for c in cs if any(same(c, x) for x in [want])]
  if rel:
    return True
  r = implies(and_(base, *cs), want)
  if r is None:
    leaf = [c for c in cs if not opaque(c)]
    r = implies(and_(base, *leaf), want)
    if not r:
      return None
  if r is False and any(opaque(c) for c in cs):
    return None
  return r
