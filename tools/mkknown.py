"""Rewrites the 'fixed' lines of known_findings.jsonl from /repo's fix: commits (developer tool)."""
import json
import os
import subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (subject prefix, property)
    ("transform accepts special_codes given as a numpy array", "C02"),
    ("remove empty prebins for hellinger", "C01"),
    ("build binning table when every bin", "C07"),
    ("fit does not modify user_splits", "C22"),
    ("monotonic preprocessing does not cut", "C03"),
    ("concave and convex constraints", "C03"),
    ("multiclass binning does not discard", "C10"),
    ("multiclass peak and valley", "C10"),
    ("continuous peak and valley", "C09"),
    ("continuous binning applies the gamma", "C09"),
    ("reported monotonic trend considers", "C05"),
    ("unknown categories get the mean", "C25"),
    ("an integer cat_unknown", "C25"),
    ("fixed splits discarded by the preprocessing", "C06"),
    ("hellinger and triangular divergences with a single", "C01"),
    ("split_data applies both", "C24"),
    ("missing records with a special code", "C01"),
    ("class weights do not modify", "C22"),
    ("categorical user groups removed", "C25"),
    ("remove debug print", "C08"),
    ("empty user_splits and continuous", "C08"),
    ("mixed-integer solver does not report", "C03"),
    ("preprocessing does not cut off solutions of heuristic", "C03"),
]
extra = os.path.join(here, "tools", "fixprops.json")
if os.path.exists(extra):
    PROP += [tuple(x) for x in json.load(open(extra))]
path = os.path.join(here, "known_findings.jsonl")
keep = []
if os.path.exists(path):
    keep = [l.rstrip("\n") for l in open(path) if l.strip() and json.loads(l).get("kind") == "known"]
out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    m = [p for k, p in PROP if s.startswith(k)]
    if not m:
        print("UNMAPPED", h, s)
        continue
    out.append(json.dumps({"kind": "fixed", "line": "fixed: property=%s %s %s" % (m[0], h, s)}))
open(path, "w").write("\n".join(keep + out) + "\n")
print(len(keep), "known", len(out), "fixed")
