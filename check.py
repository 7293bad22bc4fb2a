#!/usr/bin/env python3
"""Decides one property of google/space from its source.

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR] [-v]
"""

import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(50000)

MODULES = ["storage", "transactions", "paths", "pruning", "manifests", "append",
           "delete", "insert", "changes", "read", "schema", "jobs", "rayops",
           "random_access", "views", "join", "loaders", "catalogs", "create", "listing"]


def known_findings():
  out = []
  p = os.path.join(HERE, "known_findings.txt")
  if os.path.exists(p):
    for line in open(p, encoding="utf-8"):
      if line.startswith("finding: "):
        head, _, what = line[9:].strip().partition(" | ")
        d = dict(x.split("=", 1) for x in head.split(" ", 2))
        out.append((d["property"], d["rule"], d["instance"], what))
  return out


class OutOfTime(BaseException):
  """A group of rules takes too long on this source tree."""


def out_of_time(*_):
  raise OutOfTime()


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("property")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--repo", default="/repo")
  ap.add_argument("-v", action="store_true")
  args = ap.parse_args()
  t0 = time.time()
  from pyflow.loader import AnchorMissing, Program
  from rules import registry
  from rules.base import FOLLOWED, Report
  for m in MODULES:
    if os.path.exists(os.path.join(HERE, "rules", m + ".py")):
      importlib.import_module("rules." + m)
  prog = Program(args.repo)
  reports = registry.Reports(Report)
  groups = [g for g in registry.GROUPS if args.property in g[1]]
  if not groups:
    print(f"no rules for {args.property}")
    return 2
  failed, anchors = [], []
  limit = 700 // len(groups) if args.tier == "thorough" else min(
      120, 600 // len(groups))
  signal.signal(signal.SIGALRM, out_of_time)
  for name, _, fn in groups:
    FOLLOWED.clear()
    try:
      signal.alarm(limit)
      try:
        fn(prog, reports)
      finally:
        signal.alarm(0)
    except OutOfTime:
      failed.append((name, f"not finished in {limit} s"))
    except AnchorMissing as e:
      anchors.append(f"{name}: {e}")
    except Exception:  # pylint: disable=broad-except
      failed.append((name, traceback.format_exc()))
  r = reports[args.property]
  known = known_findings()
  viol, kf = [], []
  for it in r.items:
    if it[0] != "violation":
      continue
    hit = [k for k in known if k[0] == args.property and k[1] == it[1] and
           k[2] == it[2]]
    if hit:
      kf.append((hit[0], it))
    else:
      viol.append(it)
  und = [it for it in r.items if it[0] == "undecided"]
  ok = [it for it in r.items if it[0] == "ok"]
  rules = sorted({it[1] for it in r.items})
  ev = {
      "property": args.property,
      "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
      "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
      "level": "other",
      "coverage": {
          "explanation": (
              "Static analysis of the current source tree: values and effects "
              "of the public operations are computed as gated terms over the "
              "operations' inputs and compared with what the property demands."),
          "obligations": len(r.items),
          "discharged": len(ok),
          "undecided": [f"{i[1]} [{i[2]}] {i[3]}: {i[4][:300]}" for i in und][:50],
          "rules": {x: sum(1 for i in r.items if i[1] == x) for x in rules},
          "units": sorted(r.units),
          "functions_analysed": len(r.functions),
          "functions": sorted(r.functions)[:400],
          "events": r.events,
          "unmodelled_constructs": sorted(set(r.notes))[:40],
          "groups_not_analysed": [
              f"{n}: {t.strip().splitlines()[-1]}" for n, t in failed],
      },
      "assumptions": [
          "Behaviour of pyarrow, numpy, protobuf, array_record, substrait, Ray "
          "and the file system is trusted as documented.",
          "Public names used as anchors keep their meaning."],
      "wall_s": round(time.time() - t0, 2),
      "violations": len(viol),
  }
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  with open(os.path.join(HERE, "evidence", args.property + ".json"), "w",
            encoding="utf-8") as f:
    json.dump(ev, f, indent=1)
  if args.v:
    for it in r.items:
      print(*it[:4], it[4][:1500])
    for n, t in failed:
      print("FAILED GROUP", n, t[-3000:])
  for k, it in kf:
    print(f"KNOWN-FINDING: property={args.property} {k[3]} [{it[1]}: {it[2]}]")
  if viol:
    rp = os.path.join(HERE, "evidence", args.property + ".violations.txt")
    with open(rp, "w", encoding="utf-8") as f:
      for it in viol:
        f.write(f"{it[3]}: rule {it[1]} [{it[2]}]: {it[4]}\n")
    for it in viol[:20]:
      print(f"{it[3]}: rule {it[1]} [{it[2]}]: {it[4][:600]}")
    print(f"VIOLATION property={args.property} replay={rp}")
    return 1
  if anchors:
    print("anchors missing: " + "; ".join(anchors))
    return 2
  if not r.items or len(failed) == len(groups):
    for n, t in failed:
      print(f"analysis of {n} failed: {t}")
    print("nothing was decided")
    return 2
  print(f"{args.property}: {len(ok)} obligations hold, {len(und) + len(failed)} undecided, "
        f"{len(kf)} known findings; {len(r.functions)} functions analysed "
        f"in {ev['wall_s']} s")
  return 0


if __name__ == "__main__":
  sys.exit(main())
