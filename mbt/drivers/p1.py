"""BinningProcess: histories of fit, update and queries; every variable against
the same variable binned alone."""
import contextlib
import io
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from ..obs import mic, cnt, exc_name, vb

NAMES = ["age", "b income", "c", "zeta", "x1", "delinq.30", "w"]
CATS = ["a", "B", "c c", "d", "E", "f1"]
METRICS = {"binary": ["iv", "js", "gini", "quality_score"], "continuous": ["woe", "quality_score"],
           "multiclass": ["js", "quality_score"]}
TM = {"binary": ["woe", "event_rate", "indices", "bins"], "continuous": ["mean", "indices", "bins"],
      "multiclass": ["mean_woe", "weighted_mean_woe", "indices", "bins"]}
SPEC = -999.0


def gen_base(r, k):
    tgt = r.choice(["binary", "binary", "binary", "continuous", "multiclass"])
    nv = r.randint(2, 5)
    p = dict(target=tgt, names=r.sample(NAMES, nv), n=r.choice([50, 90, 140]), seed=r.randrange(10**6), vars=[])
    form = r.random()
    for _ in range(nv):
        kind = "num" if tgt == "multiclass" or form < .4 else r.choice(["num", "num", "int", "cat", "icat"])
        if form < .4 and tgt != "multiclass" and r.random() < .2:
            kind = "icat"
        p["vars"].append(dict(kind=kind, rel=r.choice([0, .5, .7, .9, .95]), miss=r.choice([0, 0, .1]),
                              spec=r.choice([0, 0, .1]), nu=r.choice([3, 6, 20])))
    base = {}
    if r.random() < .5:
        base["max_n_prebins"] = r.choice([3, 5, 10])
    if r.random() < .3:
        base["min_prebin_size"] = r.choice([.0625, .125, .25])
    if r.random() < .3:
        base["max_n_bins"] = r.choice([2, 3, 4])
    if r.random() < .15:
        base["min_n_bins"] = r.choice([1, 2])
    if r.random() < .25:
        base["min_bin_size"] = r.choice([.0625, .125, .25])
    if r.random() < .3:
        base["max_bin_size"] = r.choice([.375, .5, .75])
    if r.random() < .2 and tgt != "multiclass":
        base["max_pvalue"] = r.choice([.05, .2])
        base["max_pvalue_policy"] = r.choice(["consecutive", "all"])
    if r.random() < .25:
        base["split_digits"] = r.choice([0, 1, 2])
    if base.get("min_bin_size", 0) > base.get("max_bin_size", 1):
        base.pop("max_bin_size")
    p["base"] = base
    p["special"] = r.choice([None, None, "list", "dict", "array"])
    fp = {}
    for v, nm in zip(p["vars"], p["names"]):
        if r.random() < .35:
            q = {}
            if r.random() < .5:
                q["max_n_bins"] = r.choice([2, 3, 5])
            if r.random() < .4:
                q["monotonic_trend"] = r.choice(["ascending", "descending", "peak", "valley", "auto"]) if tgt != "multiclass" else "auto"
            if r.random() < .3:
                q["max_n_prebins"] = r.choice([2, 4, 8])
            if r.random() < .2 and v["kind"] == "num":
                q["user_splits"] = [-1.0, 0.5]
            if r.random() < .2:
                q["min_bin_size"] = .0625
            if r.random() < .2:
                q["split_digits"] = 1
            if r.random() < .2:
                q["special_codes"] = [SPEC]
            fp[nm] = q
    p["fit_params"] = fp if r.random() < .8 else None
    tp = {}
    for nm in p["names"]:
        if r.random() < .4:
            q = {}
            if r.random() < .5:
                q["metric"] = r.choice(TM[tgt][:3] if r.random() < .85 else TM[tgt])
            if r.random() < .5:
                q["metric_special"] = r.choice([0, "empirical", -5, 2.5])
            if r.random() < .5:
                q["metric_missing"] = r.choice([0, "empirical", 7, -1.5])
            tp[nm] = q
    p["trans_params"] = tp if r.random() < .7 else None
    crit = None
    if r.random() < .7:
        crit = {}
        for m in METRICS[tgt]:
            if r.random() < .5:
                c = {}
                # thresholds relative to the values found alone (exact or between)
                if r.random() < .6:
                    c["min"] = [r.randrange(nv), r.choice(["at", "below", "above"])]
                if r.random() < .3:
                    c["max"] = [r.randrange(nv), r.choice(["at", "below", "above"])]
                if r.random() < .4:
                    c["strategy"] = r.choice(["highest", "lowest"])
                    c["top"] = r.choice([1, 2, 3, .25, .5, .75])
                if c:
                    crit[m] = c
    p["crit"] = crit
    p["fixed"] = r.sample(p["names"], r.choice([1, 1, 2])) if r.random() < .4 else None
    p["n_jobs"] = r.choice([None, 1, 2, 3, 8])
    p["weights"] = tgt == "binary" and r.random() < .15
    p["names_arr"] = r.random() < .3
    return p


def gen_query(r, p, homog):
    u = r.random()
    if u < .2:
        return ["support"]
    if u < .45:
        return ["summary"]
    m = r.choice([None] + TM[p["target"]])
    ms, mm = r.choice([0, "empirical", -3, 1.5]), r.choice([0, "empirical", 4, -.5])
    form = r.choice(["df", "df", "array" if homog else "df", "disk"])
    return ["transform", form, m, ms, mm, r.choice([1, 2, 5, 100])]


def homogeneous(p):
    return all(v["kind"] in ("num", "icat") for v in p["vars"])


def gen(r, k, tier):
    p = gen_base(r, k)
    homog = homogeneous(p)
    ops = []
    if r.random() < .1:
        ops.append(gen_query(r, p, homog))
    forms = ["df", "df", "csv", "parquet", "dict"] + (["array"] if homog else [])
    if p["weights"]:
        forms = ["df"] + (["array"] if homog else [])
    ops.append(["fit", r.choice(forms)])
    for _ in range(r.randint(1, 5)):
        u = r.random()
        if u < .25:
            ops.append(["update", r.randrange(len(p["names"])), r.choice([1, 2])])
        elif u < .33:
            ops.append(["fit", r.choice(forms)])
        else:
            ops.append(gen_query(r, p, homog))
    ops.append(gen_query(r, p, homog))
    for o in ops:
        if o[0] == "fit" and o[1] == "dict":
            o.append([r.choice([1, 2]) for _ in p["names"]])
            o.append(r.random() < .5)
    p["ops"] = ops
    if k == 0:
        p = witness_pw()
    return p


def witness_pw():
    """Known finding: a continuous piecewise object in a binning process."""
    from ..obs import rng_for
    r = rng_for(3, "p1w", 0)
    while True:
        p = gen_base(r, 0)
        if p["target"] == "continuous" and homogeneous(p):
            break
    p["vars"][0]["kind"] = "num"
    p.update(special=None, fit_params=None, base={}, crit=None, trans_params=None, weights=False)
    p["ops"] = [["fit", "df"], ["update", 0, 3], ["summary"]]
    return p


def from_scenario(s, k):
    """A history enumerated by MC_Process."""
    from ..obs import rng_for
    r = rng_for(5, "p1scen", k)
    p = gen_base(r, k)
    while len(p["names"]) < 2:
        p = gen_base(r, k)
    p["weights"] = False
    homog = homogeneous(p)
    ops = []
    for o in s["hist"]:
        if o[0] == "fit":
            ops.append(["fit", r.choice(["df", "csv", "parquet"] + (["array"] if homog else []))])
        elif o[0] == "dict":
            ops.append(["fit", "dict", [o[1][0], o[1][1]] + [1] * (len(p["names"]) - 2), r.random() < .5])
        elif o[0] == "update":
            ops.append(["update", o[1] - 1, o[2]])
        elif o[0] == "transform":
            q = gen_query(r, p, homog)
            while q[0] != "transform":
                q = gen_query(r, p, homog)
            ops.append(q)
        else:
            ops.append([o[0]])
    p["ops"] = ops
    return p


# ------------------------------------------------------------------- data
def build(p):
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    z = rs.normal(size=n)
    if p["target"] == "binary":
        y = (z + .3 * rs.normal(size=n) > 0).astype(int)
    elif p["target"] == "continuous":
        y = z * 10 + rs.normal(size=n)
    else:
        y = np.digitize(z, [-.5, .6]).astype(int)
    cols = {}
    for v, nm in zip(p["vars"], p["names"]):
        x = v["rel"] * z + (1 - v["rel"]) * rs.normal(size=n)
        x = np.round(x * v["nu"] / 3) * 3 / v["nu"] if v["nu"] < 20 else x
        x = np.round(x * 8) / 8
        kind = v["kind"]
        if kind == "int":
            x = np.round(x * 4)
        if kind in ("cat", "icat"):
            q = np.clip(np.round(x * 1.2) + 2, 0, 5).astype(int)
            x = np.array([CATS[i] for i in q], dtype=object) if kind == "cat" else (q * 10).astype(float)
        u = rs.uniform(size=n)
        if v["spec"]:
            x[u < v["spec"]] = "SP" if kind == "cat" else SPEC
        if v["miss"]:
            x[u > 1 - v["miss"]] = np.nan
        elif kind in ("int", "icat"):
            x = x.astype(int)
        cols[nm] = x
    X = pd.DataFrame(cols)
    w = rs.randint(1, 4, size=n).astype(float) if p["weights"] else None
    return X, y, w


def codes(p):
    if p["special"] is None:
        return None
    if p["special"] == "dict":
        return {"s_a": SPEC, "s_b": "SP"} if any(v["kind"] == "cat" for v in p["vars"]) else {"s_a": SPEC}
    l = [SPEC] + (["SP"] if any(v["kind"] == "cat" for v in p["vars"]) else [])
    return np.array(l, dtype=object if len(l) > 1 else float) if p["special"] == "array" else l


def cls(p):
    import optbinning
    return {"binary": optbinning.OptimalBinning, "continuous": optbinning.ContinuousOptimalBinning,
            "multiclass": optbinning.MulticlassOptimalBinning}[p["target"]]


def alone(p, X, y, w, i, alt):
    nm = p["names"][i]
    kind = p["vars"][i]["kind"]
    kw = dict(name=nm, special_codes=codes(p))
    base = dict(p["base"])
    base.setdefault("max_n_prebins", 20)
    base.setdefault("min_prebin_size", .05)
    kw.update(base)
    kw.update((p["fit_params"] or {}).get(nm, {}))
    if alt:
        kw["max_n_bins"] = 3 if kw.get("max_n_bins") != 3 else 2
        kw["min_n_bins"] = None
    if p["target"] != "multiclass":
        kw["dtype"] = "categorical" if kind in ("cat", "icat") else "numerical"
    ob = cls(p)(**kw)
    if w is not None:
        ob.fit(X[nm].values, y, sample_weight=w)
    else:
        ob.fit(X[nm].values, y)
    return ob


def jcol(a):
    out = []
    for v in a:
        if isinstance(v, str):
            out.append(v)
        else:
            out.append(mic(v))
    return json.dumps(out)


def stat_values(ob, p):
    bt = ob.binning_table
    return [float(getattr(bt, m)) for m in METRICS[p["target"]]]


def observe(ob, p):
    """What a fitted binning is: status, splits, table, statistics."""
    bt = ob.binning_table
    df = bt.build(add_totals=False)
    bt.analysis(print_output=False)
    tab = []
    for _, row in df.iterrows():
        tab.append([str(x) if isinstance(x, (str, list, np.ndarray)) else mic(x) for x in row])
    spl = [sorted(str(c) for c in s) if isinstance(s, (list, np.ndarray)) else mic(s) for s in ob.splits]
    nb = len(ob.splits) + (1 if ob.dtype == "numerical" else 0)
    st = stat_values(ob, p)
    return dict(status=ob.status, dtype=ob.dtype, nb=nb, spl=json.dumps(spl), tab=json.dumps(tab),
                st=[mic(v) for v in st])


def ser(v):
    return "none" if v is None else str(v)


def run(p):
    tmp = tempfile.mkdtemp(prefix="p1.dir")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return run_in(p, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_in(p, tmp):
    from optbinning import BinningProcess
    X, y, w = build(p)
    names = p["names"]
    nv = len(names)
    rec = dict(kind="p1", exc="", nv=nv, target=p["target"], metrics=METRICS[p["target"]], reg=[], ops=[],
               tp=[], crit=[], fixed=[], sig="")
    # ---- every variable alone (observed copy and copy to hand over)
    try:
        reg = [[alone(p, X, y, w, i, alt) for alt in (0, 1)] for i in range(nv)]
        reg2 = [[alone(p, X, y, w, i, alt) for alt in (0, 1)] for i in range(nv)]
        obs = [[observe(o, p) for o in rr] for rr in reg]
    except Exception as e:
        rec["exc"] = exc_name(e)
        rec["triv"] = 1
        return rec
    # ---- selection criteria with thresholds at or around the values found
    crit, uni = None, {m: set() for m in METRICS[p["target"]]}
    if p["crit"] is not None:
        crit = {}
        for m, c in p["crit"].items():
            d = {}
            mi = METRICS[p["target"]].index(m)
            vals = sorted(v for v in (stat_values(reg[i][0], p)[mi] for i in range(nv)) if np.isfinite(v))
            for key in ("min", "max"):
                if key in c and vals:
                    i, how = c[key]
                    v = vals[i % len(vals)]
                    v = {"at": v, "below": v - 1e-6 * (1 + abs(v)), "above": v + 1e-6 * (1 + abs(v))}[how]
                    hi = 1 if m in ("gini", "quality_score") else np.inf
                    d[key] = float(min(max(v, 0), hi))
                    uni[m].add(d[key])
            if "top" in c:
                d["strategy"], d["top"] = c["strategy"], c["top"]
            if d:
                crit[m] = d
    kw = dict(p["base"])
    cv = [nm for nm, v in zip(names, p["vars"]) if v["kind"] == "icat" or (v["kind"] == "cat" and p["seed"] % 2)]
    bp = BinningProcess(np.array(names) if p["names_arr"] else list(names), selection_criteria=crit,
                        fixed_variables=p["fixed"], categorical_variables=cv if cv else None,
                        special_codes=codes(p), binning_fit_params=p["fit_params"],
                        binning_transform_params=p["trans_params"], n_jobs=p["n_jobs"], **vb(p["seed"]), **kw)
    rs = np.random.RandomState(p["seed"] + 1)
    # ---- probe sample
    idx = rs.choice(len(X), size=min(14, len(X)), replace=False)
    P = X.iloc[idx].copy()
    P.index = [100 + i for i in range(len(P))]
    # ---- own transforms
    combos = set()
    for o in p["ops"]:
        if o[0] == "transform":
            for nm in names:
                t = (p["trans_params"] or {}).get(nm, {})
                combos.add((t.get("metric", o[2]), t.get("metric_special", o[3]), t.get("metric_missing", o[4])))
                combos.add((o[2], o[3], o[4]))
    for i in range(nv):
        row = []
        for j in (0, 1):
            d = dict(obs[i][j])
            d["tr"] = []
            for m, ms, mm in sorted(combos, key=str):
                try:
                    kk = {} if m is None else dict(metric=m)
                    v = jcol(reg[i][j].transform(P[names[i]].values, metric_special=ms, metric_missing=mm, **kk))
                    d["tr"].append([ser(m), ser(ms), ser(mm), v])
                except Exception as e:
                    d["tr"].append([ser(m), ser(ms), ser(mm), exc_name(e)])
            row.append(d)
        rec["reg"].append(row)
        t = (p["trans_params"] or {}).get(names[i], {})
        rec["tp"].append([ser(t["metric"]) if "metric" in t else "-", ser(t["metric_special"]) if "metric_special" in t else "-",
                          ser(t["metric_missing"]) if "metric_missing" in t else "-"])
    rec["fixed"] = [names.index(f) + 1 for f in (p["fixed"] or [])]
    raw = []          # exact statistics of the standing objects, ranked at the end
    std = [None] * nv
    for o in p["ops"]:
        e = dict(k=o[0], a=0, b=0, map=[], m="", ms="", mm="", exc="", cur=[], sup=[], sidx=[], sum=[], cols=[],
                 mat=[], shape=[0, 0], rk=[])
        isdisk = False
        try:
            if o[0] == "fit":
                form = o[1]
                e["map"] = [1] * nv
                if form == "df":
                    bp.fit(X, y, sample_weight=w) if w is not None else bp.fit(X, y)
                elif form == "array":
                    bp.fit(X.values, y, sample_weight=w) if w is not None else bp.fit(X.values, y)
                elif form == "dict":
                    e["map"] = list(o[2])
                    d = {names[i]: (reg2 if o[3] else reg)[i][o[2][i] - 1] for i in range(nv)}
                    if o[3]:
                        d = dict(reversed(list(d.items())))
                    bp.fit_from_dict(d)
                else:
                    path = os.path.join(tmp, "in.v%d.%s" % (len(rec["ops"]), form))
                    D = X.copy()
                    D.insert(1, "the target", y)
                    D["unused"] = "q"
                    if form == "csv" and p["seed"] % 3:      # reader options of the caller
                        D.to_csv(path, index=False, sep=";")
                        bp.fit_disk(path, "the target", sep=";")
                    else:
                        D.to_csv(path, index=False) if form == "csv" else D.to_parquet(path)
                        bp.fit_disk(path, "the target")
                e["cur"] = [observe_standing(bp, nm, p) for nm in names]
            elif o[0] == "update":
                e["a"], e["b"] = o[1] + 1, o[2]
                if o[2] == 3:
                    from optbinning import ContinuousOptimalPWBinning
                    q = ContinuousOptimalPWBinning(name=names[o[1]])
                    q.fit(X[names[o[1]]].values, y)
                    rec["sig"] = "continuous_piecewise_in_process"
                    bp.update_binned_variable(names[o[1]], q)
                else:
                    bp.update_binned_variable(names[o[1]], reg2[o[1]][o[2] - 1])
            elif o[0] == "support":
                e["sup"] = [int(v) for v in bp.get_support()]
                e["sidx"] = [[int(v) + 1 for v in bp.get_support(indices=True)],
                             [names.index(str(v)) + 1 for v in bp.get_support(names=True)]]
                bp.information(print_level=2)
            elif o[0] == "summary":
                s = bp.summary()
                for _, q in s.iterrows():
                    e["sum"].append([names.index(q["name"]) + 1, q["dtype"], q["status"], int(bool(q["selected"])), cnt(q["n_bins"]),
                                     [mic(q[m]) for m in METRICS[p["target"]]]])
            else:
                e["m"], e["ms"], e["mm"] = ser(o[2]), ser(o[3]), ser(o[4])
                kk = {} if o[2] is None else dict(metric=o[2])
                if o[1] == "df":
                    Q = P.copy()
                    Q.insert(0, "extra", 1.0)
                    Q = Q[list(rs.permutation(Q.columns))]
                    R = bp.transform(Q, metric_special=o[3], metric_missing=o[4], **kk)
                    take(e, R, names, P)
                elif o[1] == "array":
                    R = bp.transform(P.values, metric_special=o[3], metric_missing=o[4], **kk)
                    e["cols"] = [names.index(str(v)) + 1 for v in bp.get_support(names=True)]
                    e["mat"] = [jcol(R[:, i]) for i in range(R.shape[1])]
                    e["shape"] = list(R.shape)
                else:
                    isdisk = True
                    src, dst = os.path.join(tmp, "q.in.csv"), os.path.join(tmp, "o.%d.csv" % len(rec["ops"]))
                    Q = P.copy()
                    Q.insert(0, "extra", 1.0)
                    Q = Q[list(rs.permutation(Q.columns))]
                    kr = dict(kk, sep=";") if p["seed"] % 3 == 1 else kk
                    Q.to_csv(src, index=False, sep=kr.get("sep", ","))
                    bp.transform_disk(src, dst, o[5], metric_special=o[3], metric_missing=o[4], **kr)
                    R = pd.read_csv(dst, keep_default_na=False, na_values=["nan"], float_precision="round_trip")
                    R.index = P.index
                    take(e, R, names, P)
        except Exception as ex:
            e["exc"] = exc_name(ex)
        e["disk"] = 1 if isdisk else 0
        q = []
        if e["k"] in ("support", "summary", "transform") and (e["exc"] == "" or e["exc"] != "NotFittedError"):
            for nm in names:
                try:
                    q.append(stat_values(bp.get_binned_variable(nm), p))
                except Exception:
                    q.append([float("nan")] * len(METRICS[p["target"]]))
        raw.append(q)
        rec["ops"].append(e)
    # ---- exact order of statistics and thresholds
    for q in raw:
        for v in q:
            for m, x in zip(METRICS[p["target"]], v):
                if np.isfinite(x):
                    uni[m].add(x)
    rank = {m: {x: i + 1 for i, x in enumerate(sorted(s))} for m, s in uni.items()}
    for e, q in zip(rec["ops"], raw):
        e["rk"] = [[rank[m].get(x, 0) for m, x in zip(METRICS[p["target"]], v)] for v in q]
    for mi, m in enumerate(METRICS[p["target"]]):
        c = (crit or {}).get(m, {})
        top = c.get("top")
        rec["crit"].append(dict(on=1 if c else 0, min=rank[m][c["min"]] if "min" in c else 0,
                                max=rank[m][c["max"]] if "max" in c else 10**6,
                                strat=c.get("strategy", ""), top=0 if top is None else (top if isinstance(top, int) else 0),
                                frac=0 if top is None or isinstance(top, int) else int(top * 4)))
    rec["triv"] = 0 if any(e["k"] in ("summary", "support", "transform") for e in rec["ops"]) else 1
    rec["cov"] = [p["target"]] + sorted(set(str(o[0]) + ("_" + str(o[1]) if o[0] in ("fit", "transform") else "") for o in p["ops"])) + \
        (["criteria"] if crit else []) + (["fixed"] if p["fixed"] else []) + (["jobs"] if p["n_jobs"] not in (None, 1) else [])
    return rec


def take(e, R, names, P):
    if isinstance(R, np.ndarray):
        e["cols"], e["mat"], e["shape"] = [], [], list(R.shape)
        return
    e["cols"] = [names.index(c) + 1 if c in names else 0 for c in R.columns]
    e["mat"] = [jcol(R[c].values) for c in R.columns]
    e["shape"] = [int(R.shape[0]) if list(R.index) == list(P.index) else -1, int(R.shape[1])]


def observe_standing(bp, nm, p):
    return observe(bp.get_binned_variable(nm), p)
