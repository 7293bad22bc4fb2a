"""Writes /verif/MANIFEST.json (run by hand when claims change)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Value-graph abstract interpretation of the current source: {what} "
        "Sound up to the modelling of Python and of the libraries used (their "
        "documented behaviour is trusted); constructs the analysis cannot "
        "resolve are counted as undecided in the evidence, not as holding.")
T = "gated value-graph abstract interpretation of the source, compared with specification terms"
CLAIMS = {}


def claim(p, what, technique=T):
  CLAIMS[p] = (what, technique)


exec(open(os.path.join(HERE, "claims.py"), encoding="utf-8").read())

checks = []
for p, (what, tech) in sorted(CLAIMS.items()):
  checks.append({
      "property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
      "thorough_cmd": f"python3 check.py {p} --tier thorough",
      "technique": tech, "level": "other", "level_note": NOTE.format(what=what)})
na = [{"property": p, "reason": r} for p, r in sorted(NA.items())
      if p not in CLAIMS]
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
for i in ids:
  if i not in CLAIMS and i not in NA:
    na.append({"property": i, "reason": "No check yet."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": na}, open(os.path.join(HERE, "..", "MANIFEST.json"),
                                       "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
