"""SBOptimalBinning: one set of split points for several scenarios."""
import numpy as np
import pandas as pd

from ..obs import mic, cnt, exc_name, vb
from . import b1, b2

TRENDS = [None, None, None, "ascending", "ascending", "descending", "descending", "peak", "valley", "concave", "convex"]


def gen(r, k, tier):
    S = r.choice([1, 2, 2, 2, 3, 3, 4])
    method = r.choice(["user", "user", "user", "user", "uniform", "quantile", "cart"])
    nbins = r.choice([2, 4, 4, 8]) if method != "cart" else r.choice([2, 3, 5, 6])
    nb = r.choice([1, 2, 3, 4, 4, 5, 5, 6] if tier == "quick" else [2, 3, 4, 5, 6, 7])
    style = r.choice(["rand", "rand", "rand", "zero", "asc", "desc", "peak", "valley", "ties"])
    hi = r.choice([4, 8, 14])
    per = r.choice([1, 1, 2, 3]) if method == "user" else 1
    if method != "user":
        nb = r.randint(2, 8)
    nv = nb * per
    if method == "user":
        sc = r.choice(["int", "int", "half", "float"])
        if sc == "int":
            xs = [float(i) for i in range(nv)]
        elif sc == "half":
            xs = [-5.5 + .25 * i for i in range(nv)]
        else:
            s, xs = r.uniform(-3, 3), []
            for _ in range(nv):
                s += r.uniform(.001, 2)
                xs.append(s)
    else:
        xs = [float(v) for v in b2.int_values(r, nv, nbins, method)]
        nv = len(xs)
        nb = nv
    scen = []
    for s in range(S):
        st = style if r.random() < .8 else r.choice(["rand", "asc", "desc"])
        prof = b1.profile(r, nb, st, hi)
        cl = [[0, 0] for _ in range(nv)]
        for b, (ne, e) in enumerate(prof):
            for _ in range(ne):
                cl[min(nv - 1, b * per + r.randrange(per))][0] += 1
            for _ in range(e):
                cl[min(nv - 1, b * per + r.randrange(per))][1] += 1
        if r.random() < .93 and not (sum(v[0] for v in cl) and sum(v[1] for v in cl)):
            cl[0][0] += 1
            cl[-1][1] += 1
        if not any(v[0] + v[1] for v in cl):
            cl[0] = [1, 1]
        scen.append(dict(cl=cl, sp=[], nan=[r.choice([0, 0, 1, 3]), r.choice([0, 0, 1, 2])] if r.random() < .6 else [0, 0]))
    cand, fixed = None, None
    if method == "user":
        cand = []
        for i in range(1, nv):
            if i % per == 0:
                cand.append(xs[i] if r.random() < .45 else (xs[i] + xs[i - 1]) / 2)
        if r.random() < .1:
            cand.append(r.choice([xs[-1] + 10, xs[0] - 10, xs[0]]))
        cand = sorted(set(cand))[:8]
        if r.random() < .05:
            cand = []
        if r.random() < .3:
            r.shuffle(cand)
        if r.random() < .2 and cand:
            fixed = [r.random() < .4 for _ in cand]
    kind = r.choice(["none", "none", "list", "array"])
    codes = []
    if kind != "none":
        codes = [c for c in b1.SPECIAL_POOL if c not in xs][:r.choice([1, 2])]
        for q in scen:
            q["sp"] = [[r.choice([0, 0, 1, 2]), r.choice([0, 1, 3])] for _ in codes]
    o = {}
    t = r.choice(TRENDS)
    if t:
        o["monotonic_trend"] = t
    for q in r.sample(["minb", "maxb", "mins", "maxs", "bothb", "boths", "diff", "pv"], r.choice([0, 1, 1, 2, 2])):
        if q == "minb":
            o.setdefault("min_n_bins", r.randint(1, max(1, nb - 1)))
        elif q == "maxb":
            o.setdefault("max_n_bins", r.randint(max(1, o.get("min_n_bins", 1)), nb + 1))
        elif q == "bothb":
            o["min_n_bins"] = r.randint(1, nb)
            o["max_n_bins"] = r.randint(o["min_n_bins"], nb)
        elif q == "mins" and "max_bin_size" not in o:
            o["min_bin_size"] = r.choice([2, 5, 8, 10, 13, 20]) / 64
        elif q == "maxs" and "min_bin_size" not in o:
            o["max_bin_size"] = r.choice([13, 20, 30, 40, 50]) / 64
        elif q == "boths":
            a, b = r.choice([(3, 30), (8, 40), (12, 25), (2, 55), (5, 20)])
            o["min_bin_size"], o["max_bin_size"] = a / 64, b / 64
        elif q == "diff":
            o["min_event_rate_diff"] = r.choice([.03125, .0625, .125, .25])
        elif q == "pv":
            o["max_pvalue"] = r.choice(b1.PVALS)
            o["max_pvalue_policy"] = r.choice(["all", "consecutive"])
    if o.get("min_n_bins", 0) > o.get("max_n_bins", 99):
        o["min_n_bins"] = o["max_n_bins"]
    if o.get("min_bin_size", 0) > o.get("max_bin_size", 1):
        o["min_bin_size"] = o["max_bin_size"]
    if method != "user":
        o["prebinning_method"] = method
        o["max_n_prebins"] = nbins
        o["min_prebin_size"] = r.choice([.03125, .0625, .125])
        if r.random() < .15:
            o["class_weight"] = "balanced"
    elif r.random() < .06:
        o["split_digits"] = r.choice([0, 1, 2])
    wk = r.choice(["none", "none", "int", "quarter", "tenth", "tenth", "array", "big"])
    w = None
    wi = [1] * S
    if wk != "none":
        wi = [r.randint(1, 9) for _ in range(S)]
        if wk == "tenth":
            w = [v / 10 for v in wi]
        elif wk == "quarter":
            w = [v / 4 for v in wi]
        elif wk == "big":
            w = [v * 100 for v in wi]
        elif wk == "array":
            w = [v / 16 for v in wi]
        else:
            w = list(wi)
    return dict(method=method, nb=nbins, xs=xs, scen=scen, cand=cand, fixed=fixed, kind=kind, codes=codes, o=o, wk=wk, w=w,
                wi=wi, seed=r.randrange(10**6), xtype=r.choice(["array", "array", "series", "list", "f32", "oddindex"]),
                ytype=r.choice(["int", "int", "bool", "float", "series"]), check_input=r.random() < .3,
                tdig=r.choice([0, 2, 5]), refit=r.random() < .15)


def arrays(p, s, rs):
    q = p["scen"][s]
    rows = []
    for x, (ne, e) in zip(p["xs"], q["cl"]):
        rows += [(x, 0)] * ne + [(x, 1)] * e
    for c, (ne, e) in zip(p["codes"], q["sp"]):
        rows += [(c, 0)] * ne + [(c, 1)] * e
    rows += [(np.nan, 0)] * q["nan"][0] + [(np.nan, 1)] * q["nan"][1]
    idx = rs.permutation(len(rows))
    return np.array([rows[i][0] for i in idx], dtype=float), np.array([rows[i][1] for i in idx], dtype=int)


def table(bt, tdig):
    df = bt.build(show_digits=tdig)
    rows = b1.table_rows(df)
    labels = [str(v) for v in bt.build(show_digits=tdig, add_totals=False)["Bin"]]
    same = 1 if b1.table_rows(bt.build(show_digits=(tdig + 1) % 9, add_totals=False)) == rows[:-1] else 0
    return dict(tab=rows[:-1], tot=rows[-1], same=same, sums=[mic(bt.gini), mic(bt.iv), mic(bt.js), mic(bt.ks)]), labels


def run(p):
    from optbinning.binning.uncertainty import SBOptimalBinning
    rs = np.random.RandomState(p["seed"])
    S = len(p["scen"])
    X, Y = [], []
    for s in range(S):
        x, y = arrays(p, s, rs)
        X.append(x)
        Y.append(y)
    xtype = p["xtype"]
    if xtype == "f32" and any(float(np.float32(v)) != v for v in p["xs"]):
        xtype = "array"
    Xin = [b1.cast_x(x, dict(xtype=xtype)) for x in X]
    Yin = [b1.cast_y(y, p) for y in Y]
    sp = None if p["kind"] == "none" else (list(p["codes"]) if p["kind"] == "list" else np.array(p["codes"]))
    kw = dict(p["o"])
    if p["method"] == "user":
        kw["user_splits"] = list(p["cand"])
        if p["fixed"] is not None:
            kw["user_splits_fixed"] = list(p["fixed"])
    w = p["w"]
    if p["wk"] == "array":
        w = np.array(w)
    so = b1.spec_opts(p["o"], 0)
    rec = dict(kind="sb1", exc="", o={q: so[q] for q in ("minb", "maxb", "f_mins", "f_maxs", "diff", "z0sq", "polall", "trend")},
               method=p["method"], nb=p["nb"], w=p["wi"])
    cand = sorted(p["cand"] or [])
    order = np.argsort(p["cand"]) if p["cand"] else []
    rec["hasfixed"] = 1 if p["fixed"] is not None else 0
    rec["fixed"] = [i + 1 for i, j in enumerate(order) if p["fixed"] and p["fixed"][j]]
    if "split_digits" in p["o"]:
        cand = [float(v) for v in np.round(np.array(cand), p["o"]["split_digits"])]
    ob = SBOptimalBinning(name="v", special_codes=sp, **vb(p["seed"]), **kw)
    status, splits = "", []
    try:
        if p["refit"]:
            try:
                ob.fit([x[: max(2, len(x) // 2)] for x in Xin][::-1], [y[: max(2, len(y) // 2)] for y in Yin][::-1])
            except Exception:
                pass
        ob.fit(Xin, Yin, w, check_input=p["check_input"])
        status, splits = ob.status, [float(v) for v in ob.splits]
    except Exception as e:
        rec["exc"] = exc_name(e)
    rec["status"] = status
    clean_vals = sorted(set(p["xs"][i] for i in range(len(p["xs"])) if any(q["cl"][i][0] + q["cl"][i][1] for q in p["scen"])))
    # unit for the equal-width and equal-frequency splits
    if p["method"] == "user":
        uni0 = sorted(set(clean_vals) | set(cand) | set(splits))
        probes = uni0 + [(a + b) / 2 for a, b in zip(uni0, uni0[1:])] + [uni0[0] - 3.5, uni0[-1] + 3.5]
        probes = list(dict.fromkeys(v for v in probes if v not in p["codes"]))[:24]
        uni = sorted(set(uni0) | set(probes))
        pos = {v: i + 1 for i, v in enumerate(uni)}
        P = lambda v: pos[v]
    else:
        unit = 2 if p["method"] == "cart" else p["nb"]
        probes = list(clean_vals) + [(a + b) / 2 for a, b in zip(clean_vals, clean_vals[1:])] + splits
        probes = list(dict.fromkeys(v for v in probes if v not in p["codes"]))[:24]
        P = lambda v: int(round(v * unit * 2)) if abs(v * unit * 2 - round(v * unit * 2)) < 1e-6 else 2000000004
    rec["vals"] = [P(v) for v in clean_vals]
    if p["method"] == "cart":
        xc = np.concatenate([x[~np.isnan(x) & ~np.isin(x, p["codes"])] for x in X])
        yc = np.concatenate([y[~np.isnan(x) & ~np.isin(x, p["codes"])] for x, y in zip(X, Y)])
        wc = None
        if p["w"] is not None:
            wc = np.concatenate([np.full((~np.isnan(x) & ~np.isin(x, p["codes"])).sum(), float(p["w"][s]))
                                 for s, x in enumerate(X)])
        cand = b2.tree_splits(dict(opts=p["o"], nb=p["nb"]), xc, yc, wc, sum(len(x) for x in X), p["o"].get("class_weight"))
    rec["raw"] = [sum(q["cl"][p["xs"].index(v)][0] + q["cl"][p["xs"].index(v)][1] for q in p["scen"]) for v in clean_vals]
    rec["cand"] = [P(v) for v in cand]
    rec["spl"] = [P(v) for v in splits]
    rec["spcodes"] = len(p["codes"])
    rec["scen"] = []
    for s in range(S):
        q = p["scen"][s]
        d = dict(zip(p["xs"], q["cl"]))
        rec["scen"].append(dict(g=[d[v] for v in clean_vals], sp=[sum(a[0] for a in q["sp"]), sum(a[1] for a in q["sp"])],
                                miss=q["nan"], n=len(X[s]), t=[]))
    rec["agg"], rec["probe"], rec["rows"] = [], [], []
    rec["triv"] = 1 if rec["exc"] or not splits else 0
    rec["cov"] = [p["o"].get("monotonic_trend") or "notrend", "m:" + p["method"], "w:" + p["wk"], "S%d" % S, "sp:" + p["kind"],
                  "status:" + (status or rec["exc"])]
    if rec["exc"]:
        return rec
    rec["qexc"] = ""
    try:
        for s in range(S):
            t, _ = table(ob.binning_table_scenario(s), p["tdig"])
            rec["scen"][s]["t"] = [t]
        t, labels = table(ob.binning_table, p["tdig"])
        rec["agg"] = [t]
        pr = [[0, P(v), v] for v in probes] + [[1, 0, c] for c in p["codes"]] + [[2, 0, np.nan]]
        rs.shuffle(pr)
        vec = np.array([a[2] for a in pr], dtype=float)
        ms, mm = [(0, 0), ("empirical", "empirical"), (1.25, "empirical"), (7, -3)][rs.randint(4)]
        m = {}
        for metric in ("woe", "event_rate", "indices", "bins"):
            m[metric] = ob.transform(vec, metric=metric, metric_special=ms, metric_missing=mm, show_digits=p["tdig"])
        tt = dict(ms=0 if ms == "empirical" else 1, msv=0 if ms == "empirical" else mic(ms), msi=1 if isinstance(ms, int) else 0,
                  mm=0 if mm == "empirical" else 1, mmv=0 if mm == "empirical" else mic(mm), mmi=1 if isinstance(mm, int) else 0)
        tt["rows"] = [[a[0], a[1], mic(m["woe"][i]), mic(m["event_rate"][i]), cnt(m["indices"][i]),
                       b1.label_rows(labels, str(m["bins"][i]))] for i, a in enumerate(pr)]
        # fitting and transforming in one call, from fresh
        f = SBOptimalBinning(name="v", special_codes=sp, **kw).fit_transform(vec, Xin, Yin, w, metric="woe", metric_special=ms,
                                                                          metric_missing=mm)
        tt["ft"] = [mic(v) for v in f]
        rec["probe"] = [tt]
    except Exception as e:
        rec["qexc"] = exc_name(e)
    return rec
