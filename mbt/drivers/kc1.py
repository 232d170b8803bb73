"""Categorical ContinuousOptimalBinning: automatic pre-binning and user groups."""
import numpy as np

from ..obs import cnt, exc_name, vb
from . import b1, c1, k1


def gen(r, k, tier):
    p = c1.gen(r, k, tier)
    nc = len(p["cats"])
    ys = k1.targets(r, nc, r.choice(["rand", "rand", "asc", "peak", "zero"]), r.choice([2, 5, 9]))
    p["cats"] = [[c[0], ys[i]] for i, c in enumerate(p["cats"])]
    p["spc"] = [[[c[0], [r.randint(-20, 20) for _ in range(r.choice([0, 1, 3]))]] for c in g] for g in p["spc"]]
    p["nan"] = [r.randint(-20, 20) for _ in range(sum(p["nan"]))]
    pm = p["opts"].get("prebinning_method")
    p["opts"] = k1.gen_options(r, len(p["groups"]) if p["groups"] is not None else nc)
    if pm:
        p["opts"]["prebinning_method"] = pm
    p["wmode"] = r.choice(["none"] * 4 + ["sw"])
    p["f"] = r.choice([1, 1, .4])
    p["ytype"] = r.choice(["float", "series"])
    p["cu"] = 1 if p["cu"] else 0
    return p


def build(p):
    rs = np.random.RandomState(p["seed"])
    rows = []
    for v, ys in p["cats"] + [c for g in p["spc"] for c in g]:
        rows += [(v, q) for q in ys]
    rows += [(None if p["nanv"] == "none" else np.nan, q) for q in p["nan"]]
    idx = rs.permutation(len(rows))
    x = np.empty(len(rows), dtype=object)
    for j, i in enumerate(idx):
        x[j] = rows[i][0]
    y = np.array([rows[i][1] for i in idx], dtype=float) / 4 * p["f"]
    if p["numeric"]:
        x = x.astype(int)
    w = rs.randint(1, 4, size=len(rows)).astype(float) if p["wmode"] == "sw" else None
    return x, y, w


def run(p):
    from optbinning import ContinuousOptimalBinning
    x, y, w = build(p)
    f = p["f"]
    kw = dict(p["opts"])
    for q in ("min_mean_diff", "gamma"):
        if q in kw:
            kw[q] = kw[q] * f
    kw.setdefault("monotonic_trend", None)
    if p["groups"] is not None:
        gs = np.empty(len(p["groups"]), dtype=object)
        for i, g in enumerate(p["groups"]):
            gs[i] = list(g)
        kw["user_splits"] = [list(g) for g in p["groups"]] if p["seed"] % 2 else gs
        if p["fixed"] is not None:
            kw["user_splits_fixed"] = list(p["fixed"])
    if p["cut"] is not None:
        kw["cat_cutoff"] = p["cut"]
    ob = ContinuousOptimalBinning(name="v", dtype="categorical", special_codes=b1.special_arg(p), **vb(p["seed"]), **kw)
    spcodes = [c[0] for g in p["spc"] for c in g]
    isn, obs, idm, allc = c1.ids(p, x, spcodes)
    ww = np.ones(len(x)) if w is None else w
    rec = dict(kind="kc1", exc="", o=k1.spec_opts(p["opts"], len(x)), user=1 if p["groups"] is not None else 0,
               weighted=1 if w is not None else 0, hasfixed=1 if p["fixed"] is not None else 0)
    if rec["o"]["trend"] != "none":
        rec["o"]["trend"] = "ascending"
    rec["ug"] = [[idm[c] for c in g] for g in (p["groups"] or [])]
    rec["fixg"] = [i + 1 for i, v in enumerate(p["fixed"] or []) if v]
    rec["cut"] = -1 if p["cut"] is None else int(round(p["cut"] * 64))
    sel = lambda s: np.array([q in s for q in x], dtype=bool)
    one = np.ones(len(x))
    rec["cats"] = [k1.stat_of(sel([c]), y, ww, f) + [k1.stat_of(sel([c]), y, one, f)[1]] for c in allc]
    rec["sp"] = [k1.stat_of(sel([c[0] for c in g]), y, ww, f) for g in p["spc"]]
    rec["spall"] = k1.stat_of(sel(spcodes), y, ww, f)
    rec["spdict"] = 1 if p["spk"] == "dict" else 0
    rec["miss"] = k1.stat_of(isn, y, ww, f)
    rec["all"] = k1.stat_of(np.ones(len(x), dtype=bool), y, ww, f)
    rec["tab"], rec["tot"], rec["probe"], rec["an"], rec["grp"], rec["same"] = [], [], [], [], [], 1
    try:
        ob.fit(c1.cast(x, p), k1.cast_y(y, p), sample_weight=w, check_input=p["check_input"])
        rec["status"] = ob.status
        rec["grp"] = [[idm.get(c, 0) for c in g] for g in ob.splits]
    except Exception as e:
        rec["exc"] = exc_name(e)
        rec["status"] = ""
    rec["triv"] = 1 if rec["exc"] or len(rec["grp"]) <= 1 else 0
    rec["cov"] = ["user" if rec["user"] else "auto", "cut" if rec["cut"] >= 0 else "nocut", "sp:" + p["spk"], p["wmode"],
                  "status:" + (rec["status"] or rec["exc"])]
    if rec["exc"]:
        return rec
    k1.observe_table(ob, rec, p)
    pr = [(0, idm[c], c) for c in allc]
    for gi, g in enumerate(p["spc"]):
        pr += [(1, gi + 1, c[0]) for c in g]
    if not p["numeric"]:
        pr.append((2, 0, None if p["nanv"] == "none" else np.nan))
    pr.append((3, 0, p["unk"]))
    k1.transform(ob, rec, p, pr, np.random.RandomState(p["seed"] + 2), int if p["numeric"] else object)
    return rec
