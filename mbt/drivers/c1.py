"""Categorical OptimalBinning: automatic pre-binning and user groups."""
import numpy as np
import pandas as pd

from ..obs import mic, mics, cnt, exc_name, vb
from . import b1

POOL = ["red", "blue", "green", "x", "Y", "a b", "[q]", "10", "9", "Missing", "Special", "other", "é", "0", "zz"]


def gen(r, k, tier):
    user = r.random() < .55
    nc = r.randint(2, 7)
    numeric = r.random() < .12
    names = r.sample(range(10, 60), nc + 6) if numeric else r.sample(POOL, nc + 6)
    if user and r.random() < .5:
        prof = []
        for i in range(nc):                      # near-tied but distinct profiles
            prof.append([r.randint(1, 12), r.randint(1, 12)])
    else:
        prof = b1.profile(r, nc, r.choice(["rand", "rand", "zero", "asc"]), r.choice([3, 8, 16]))
    cats = [[names[i]] + prof[i] for i in range(nc)]
    cats = [c for c in cats if c[1] + c[2]]
    if not cats:
        cats = [[names[0], 1, 2]]
    if r.random() < .9 and not (sum(c[1] for c in cats) and sum(c[2] for c in cats)):
        cats[0][1] += 2
        cats[-1][2] += 2
    extra = names[nc:]
    groups = None
    if user:
        pool = [c[0] for c in cats]
        r.shuffle(pool)
        if r.random() < .35 and len(pool) > 2:
            pool = pool[:-r.randint(1, 2)]       # unlisted -> others
        if r.random() < .2:
            pool.insert(r.randrange(len(pool) + 1), extra.pop())   # listed but never observed
        groups, cur = [], []
        for c in pool:
            cur.append(c)
            if r.random() < .65:
                groups.append(cur)
                cur = []
        if cur:
            groups.append(cur)
    kind = r.choice(["none", "none", "list", "array", "dict"])
    spc = []
    if kind != "none":
        for gi in range(1 if kind != "dict" else r.randint(1, 2)):
            m = r.choice([1, 2])
            spc.append([[extra.pop(), r.choice([0, 1, 3]), r.choice([0, 1, 2])] for _ in range(m)])
    nan = [r.choice([0, 1, 3]), r.choice([0, 1, 2])] if r.random() < .5 and not numeric else [0, 0]
    opts = b1.gen_options(r, len(groups) if user else nc, 0)
    if not user and r.random() < .3:
        opts["prebinning_method"] = r.choice(["quantile", "uniform", "cart"])
    cut = None
    if not user and r.random() < .5:
        cut = r.choice([2, 4, 6, 10, 16, 24]) / 64
    fixed = None
    if user and r.random() < .2:
        fixed = [r.random() < .4 for _ in groups]
    return dict(cats=cats, groups=groups, cut=cut, fixed=fixed, spk=kind, spc=spc, nan=nan, opts=opts,
                numeric=numeric, unk=extra.pop(), cu=r.random() < .5,
                nanv=r.choice(["none", "nan"]),
                spnames=r.sample(["zeta", "beta", "Alpha", "m"], len(spc)), spscalar=[r.random() < .5 for _ in spc],
                wmode=r.choice(["none"] * 6 + ["sw", "cw", "both"]), xtype=r.choice(["array", "array", "series", "str", "cat"]),
                ytype=r.choice(["int", "bool", "series"]), check_input=r.random() < .3, seed=r.randrange(10**6),
                tdig=r.choice([2, 5]))


def build(p):
    rs = np.random.RandomState(p["seed"])
    rows = []
    for x, ne, e in p["cats"] + [c for g in p["spc"] for c in g]:
        rows += [(x, 0)] * ne + [(x, 1)] * e
    nv = None if p["nanv"] == "none" else np.nan
    rows += [(nv, 0)] * p["nan"][0] + [(nv, 1)] * p["nan"][1]
    idx = rs.permutation(len(rows))
    x = np.empty(len(rows), dtype=object)
    for j, i in enumerate(idx):
        x[j] = rows[i][0]
    y = np.array([rows[i][1] for i in idx], dtype=int)
    if p["numeric"]:
        x = x.astype(int)
    w = rs.randint(1, 4, size=len(rows)).astype(float) if p["wmode"] in ("sw", "both") else None
    return x, y, w


def cast(x, p):
    t = p["xtype"]
    if t == "series":
        return pd.Series(x, index=[3 * i + 1 for i in range(len(x))])
    if p["numeric"]:
        return x
    if t == "str" and not sum(p["nan"]):
        return x.astype(str)
    if t == "cat":
        return pd.Series(x).astype("category").astype(object)
    return x


def run(p):
    from optbinning import OptimalBinning
    x, y, w = build(p)
    ww, cw = b1.weights(y, w, p)
    kw = dict(p["opts"])
    kw.setdefault("monotonic_trend", None)
    if cw:
        kw["class_weight"] = cw
    if p["groups"] is not None:
        gs = np.empty(len(p["groups"]), dtype=object)
        for i, g in enumerate(p["groups"]):
            gs[i] = list(g)
        kw["user_splits"] = [list(g) for g in p["groups"]] if p["seed"] % 2 else gs
        if p["fixed"] is not None:
            kw["user_splits_fixed"] = list(p["fixed"])
    if p["cut"] is not None:
        kw["cat_cutoff"] = p["cut"]
    ob = OptimalBinning(name="v", dtype="categorical", special_codes=b1.special_arg(p), **vb(p["seed"]), **kw)
    return observe(ob, p, x, y, w, ww)


def ids(p, x, spcodes):
    isn = pd.isnull(x)
    obs = []
    for v, m in zip(x, isn):
        if not m and v not in spcodes and v not in obs:
            obs.append(v)
    listed = [c for g in (p["groups"] or []) for c in g]
    allc = obs + [c for c in listed if c not in obs]
    return isn, obs, {c: i + 1 for i, c in enumerate(allc)}, allc


def observe(ob, p, x, y, w, ww):
    spcodes = [c[0] for g in p["spc"] for c in g]
    isn, obs, idm, allc = ids(p, x, spcodes)
    rec = dict(kind="c1", exc="", o=b1.spec_opts(p["opts"], len(x)))
    if rec["o"]["trend"] != "none":
        rec["o"]["trend"] = "ascending"
    rec["user"] = 1 if p["groups"] is not None else 0
    rec["ug"] = [[idm[c] for c in g] for g in (p["groups"] or [])]
    rec["fixg"] = [i + 1 for i, f in enumerate(p["fixed"] or []) if f]
    rec["hasfixed"] = 1 if p["fixed"] is not None else 0
    rec["cut"] = -1 if p["cut"] is None else int(round(p["cut"] * 64))
    n = lambda m, v: cnt(ww[m & (y == v)].sum())
    raw = lambda m, v: int((m & (y == v)).sum())
    rec["cats"] = []
    for c in allc:
        m = np.array([q == c for q in x], dtype=bool)
        rec["cats"].append([n(m, 0), n(m, 1), raw(m, 0), raw(m, 1)])
    rec["sp"] = []
    for g in p["spc"]:
        row = []
        for c, _, _ in g:
            m = np.array([q == c for q in x], dtype=bool)
            row.append([n(m, 0), n(m, 1)])
        rec["sp"].append(row)
    rec["spdict"] = 1 if p["spk"] == "dict" else 0
    rec["miss"] = [n(isn, 0), n(isn, 1)]
    rec["wtot"] = cnt(ww.sum())
    rec["tab"], rec["tot"], rec["probe"], rec["an"], rec["grp"], rec["same"] = [], [], [], [], [], 1
    try:
        ob.fit(cast(x, p), b1.cast_y(y, p), sample_weight=w, check_input=p["check_input"])
        rec["status"] = ob.status
        rec["grp"] = [[idm.get(c, 0) for c in g] for g in ob.splits]
    except Exception as e:
        rec["exc"] = exc_name(e)
        rec["status"] = ""
    rec["triv"] = 1 if rec["exc"] or len(rec["grp"]) <= 1 else 0
    rec["cov"] = ["user" if rec["user"] else "auto", "cut" if rec["cut"] >= 0 else "nocut", "sp:" + p["spk"], p["wmode"],
                  "status:" + (rec["status"] or rec["exc"])]
    if rec["exc"]:
        return rec
    b1.observe_table(ob, rec, p)
    transform(ob, rec, p, allc, idm)
    return rec


def transform(ob, rec, p, allc, idm):
    rs = np.random.RandomState(p["seed"] + 2)
    df = ob.binning_table.build(add_totals=False)
    labels = [str(v) for v in df["Bin"]]
    combos = [(0, 0), ("empirical", "empirical"), ("empirical", -2.5), (1.25, "empirical"), (7, -3)]
    pr = [(0, idm[c], c) for c in allc]
    for gi, g in enumerate(p["spc"]):
        for c, _, _ in g:
            pr.append((1, gi + 1, c))
    if not p["numeric"]:
        pr.append((2, 0, None if p["nanv"] == "none" else np.nan))
    pr.append((3, 0, p["unk"]))
    pr = [pr[i] for i in rs.permutation(len(pr))]
    vec = np.empty(len(pr), dtype=object)
    for i, q in enumerate(pr):
        vec[i] = q[2]
    if p["numeric"]:
        vec = vec.astype(int)
    vin = cast(vec, dict(p, nan=[1, 1]))
    for ci in rs.choice(len(combos), 2, replace=False):
        ms, mm = combos[ci]
        t = dict(ms=0 if ms == "empirical" else 1, msv=0 if ms == "empirical" else mic(ms),
                 msi=1 if isinstance(ms, int) else 0, mm=0 if mm == "empirical" else 1,
                 mmv=0 if mm == "empirical" else mic(mm), mmi=1 if isinstance(mm, int) else 0,
                 cu=1 if p["cu"] else 0, cuw=mic(-1.5), cui=77, exc="", rows=[])
        res = {}
        for metric in ("woe", "event_rate", "indices", "bins"):
            if p["cu"]:
                ob.cat_unknown = {"indices": 77, "bins": "UNKN"}.get(metric, -1.5)
            try:
                res[metric] = ob.transform(vin, metric=metric, metric_special=ms, metric_missing=mm,
                                           check_input=p["check_input"])
            except Exception as e:
                t["exc"] = exc_name(e)
        if not t["exc"]:
            for i, q in enumerate(pr):
                lab = str(res["bins"][i])
                t["rows"].append([q[0], q[1], mic(res["woe"][i]), mic(res["event_rate"][i]), cnt(res["indices"][i]),
                                  b1.label_rows(labels, lab), 1 if lab == ("UNKN" if p["cu"] else "unknown") else 0])
        rec["probe"].append(t)
