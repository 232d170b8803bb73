"""Life cycles around copies, saved files and table files: fit, save, load, query, refit, save again."""
from .lf1 import CLASSES, HAS_JSON, HAS_SAVE, config, run  # noqa: F401

ORDER = [c for c in CLASSES if c in HAS_JSON] * 2 + [c for c in CLASSES if c not in ("cf", "range", "zscore", "yq", "mdlp")] + ["proc", "score"]


def gen(r, k, tier):
    c = ORDER[k % len(ORDER)]
    keep = ["J", "J", "S"] if c in HAS_JSON else ["S"]
    w = keep * 3 + ["D", "A", "B", "F", "X"]
    i = r.choice([1, 1, 1, 2])
    ops = [[i, r.choice(["A", "A", "B", "F"])], [i, r.choice(keep)]]
    ops += [[r.choice([i, i, i, 3 - i]), r.choice(w)] for _ in range(r.choice([1, 2, 3]))]
    p = config(dict(cls=c), r, ops)
    if c in HAS_SAVE:
        p["sav"] = r.choice(["file", "file", "pickle"])
    return p
