"""MulticlassOptimalBinning: user candidate splits or own pre-binning."""
import contextlib
import io
import math
import re

import numpy as np
import pandas as pd

from ..obs import mic, cnt, exc_name, vb
from . import b1, b2

TRENDS = ["ascending", "descending", "peak", "valley", "concave", "convex", "peak_heuristic", "valley_heuristic",
          "auto", "auto_heuristic", "auto_asc_desc", None, None, None]


def gen(r, k, tier):
    if k == 0:       # witness of the listed finding: a class that only occurs among missing records
        return dict(K=3, method="user", nb=2, clean=[[0., [3, 2, 0]], [1., [2, 4, 0]], [2., [5, 1, 0]]], cand=[1., 2.],
                    fixed=None, spk="none", spc=[], nan=[0, 0, 2], opts={}, labels="int", xtype="float", spnames=[],
                    spscalar=[], check_input=False, seed=1, tdig=2)
    K = r.choice([3, 3, 3, 4, 2])
    method = r.choice(["user", "user", "user", "uniform", "quantile", "cart"])
    nb = r.choice([2, 4, 4, 8]) if method != "cart" else r.choice([2, 3, 5, 6])
    nv = r.randint(2, 8)
    hi = r.choice([3, 6, 10])
    style = r.choice(["rand", "rand", "zero", "trend", "shaped", "shaped"])
    shapes = [r.choice(["ascending", "descending", "peak", "valley", "peak", "valley"]) for _ in range(K)]
    if style == "shaped":
        nv = r.randint(4, 8)
    xs = b2.int_values(r, nv, nb, method)
    cnts = []
    for i in range(nv):
        if style == "zero":
            c = [r.choice([0, 1, 2, 4]) for _ in range(K)]
        elif style == "shaped":     # every class follows its own shape, with some noise
            c = [1 + r.randint(0, 2) + {"ascending": i, "descending": nv - i, "peak": nv - abs(2 * i - nv),
                                        "valley": abs(2 * i - nv)}[shapes[j]] for j in range(K)]
        elif style == "trend":
            c = [1 + i + r.randint(0, 1), 1 + nv - i + r.randint(0, 1)] + [r.randint(1, 3) for _ in range(K - 2)]
        else:
            c = [r.randint(1, hi) for _ in range(K)]
        cnts.append(c if sum(c) else [1] + [0] * (K - 1))
    for j in range(K):
        if not sum(c[j] for c in cnts):
            cnts[r.randrange(nv)][j] += 2
    cand, fixed = [], None
    if method == "user":
        pts = sorted(r.sample(range(1, nv), r.randint(2 if style == "shaped" else 0, min(6, nv - 1))))
        cand = [float(xs[i]) if r.random() < .5 else xs[i] - .5 for i in pts]
        if r.random() < .08:
            cand.append(float(xs[-1] + 5))
        cand = sorted(set(cand))
        if r.random() < .3:
            r.shuffle(cand)
        if r.random() < .2 and cand:
            fixed = [r.random() < .4 for _ in cand]
    kind = r.choice(["none", "none", "list", "array", "dict"])
    spc = []
    pick = lambda: [r.choice([0, 0, 1, 2]) for _ in range(K)]
    if kind != "none":
        pool = [-999.0, 5555.0, -777.0, 8888.0]
        for gi in range(1 if kind != "dict" else r.randint(1, 2)):
            spc.append([[pool.pop(), pick()] for _ in range(r.choice([1, 2]))])
    nan = pick() if r.random() < .5 else [0] * K
    o = {}
    t = r.choice(["none", "str", "list", "list"])
    if style == "shaped" and r.random() < .75:
        t = "shaped"
        opp = {"peak": "peak_heuristic", "valley": "valley_heuristic"}
        ask = [None if r.random() < .45 else opp.get(s, s) if r.random() < .25 else s for s in shapes]
        o["monotonic_trend"] = ask
    if t == "str":
        o["monotonic_trend"] = r.choice(["auto", "auto_heuristic", "auto_asc_desc"])
    elif t == "list":
        o["monotonic_trend"] = [r.choice(TRENDS) for _ in range(K)]
    o["solver"] = r.choice(["cp", "mip"])
    if o["solver"] == "mip" and r.random() < .5:
        o["mip_solver"] = "cbc"
    kk = len(cand) + 1 if method == "user" else min(nb, nv)
    for c in r.sample(["minb", "maxb", "mins", "maxs", "diff", "pv", "boths", "bothn"], r.choice([0, 0, 1, 1, 2])):
        if c == "minb":
            o["min_n_bins"] = r.randint(1, max(1, kk - 1))
        elif c == "maxb":
            o["max_n_bins"] = r.randint(o.get("min_n_bins", 1), max(o.get("min_n_bins", 1), kk))
        elif c == "bothn":
            o["min_n_bins"] = r.randint(1, max(1, kk - 2))
            o["max_n_bins"] = min(kk, o["min_n_bins"] + r.randint(0, 2))
        elif c == "mins" and "max_bin_size" not in o:
            o["min_bin_size"] = r.choice([2, 5, 8, 10, 13, 20]) / 64
        elif c == "maxs" and "min_bin_size" not in o:
            o["max_bin_size"] = r.choice([13, 20, 30, 40, 50]) / 64
        elif c == "boths":
            a, b = r.choice([(3, 30), (8, 40), (12, 25), (2, 55), (5, 20)])
            o["min_bin_size"], o["max_bin_size"] = a / 64, b / 64
        elif c == "diff":
            o["min_event_rate_diff"] = r.choice([.015625, .03125, .0625, .125])
        elif c == "pv":
            o["max_pvalue"] = r.choice(b1.PVALS)
            o["max_pvalue_policy"] = r.choice(["all", "consecutive"])
    if "min_n_bins" in o and "max_n_bins" in o and o["min_n_bins"] > o["max_n_bins"]:
        o["max_n_bins"] = o["min_n_bins"]
    if method != "user":
        o["prebinning_method"] = method
        o["max_n_prebins"] = nb
        o["min_prebin_size"] = r.choice([1, 2, 3, 4, 6, 8]) / 64
        if "max_n_bins" in o:
            o["max_n_bins"] = min(o["max_n_bins"], nb)
            if o.get("min_n_bins", 0) > o["max_n_bins"]:
                o["min_n_bins"] = o["max_n_bins"]
        if o.get("min_bin_size", 1) < o["min_prebin_size"]:
            o["min_prebin_size"] = o["min_bin_size"]
    return dict(K=K, method=method, nb=nb, clean=[[float(xs[i]), cnts[i]] for i in range(nv)], cand=cand, fixed=fixed,
                spk=kind, spc=spc, nan=nan, opts=o, labels=r.choice(["int", "int", "sparse", "str", "float"]),
                xtype=r.choice(["float", "series", "list", "f32", "oddindex"]),
                spnames=r.sample(["zeta", "beta", "Special", "Alpha", "m"], len(spc)), spscalar=[r.random() < .5 for _ in spc],
                check_input=r.random() < .3, seed=r.randrange(10**6), tdig=r.choice([0, 2, 5]))


def build(p):
    rs = np.random.RandomState(p["seed"])
    rows = []
    for v, cs in p["clean"] + [c for g in p["spc"] for c in g] + [[np.nan, p["nan"]]]:
        for j, m in enumerate(cs):
            rows += [(v, j)] * m
    idx = rs.permutation(len(rows))
    x = np.array([rows[i][0] for i in idx], dtype=float)
    y = np.array([rows[i][1] for i in idx], dtype=int)
    lab = {"int": list(range(p["K"])), "sparse": [2, 5, 9, 30][:p["K"]], "str": ["a", "bb", "c c", "d"][:p["K"]],
           "float": [0., 1., 2., 3.][:p["K"]]}[p["labels"]]
    return x, y, np.array(lab)[y], lab


def spec_opts(o, ns, K):
    base = b1.spec_opts({q: v for q, v in o.items() if q != "monotonic_trend"}, ns)
    base["mip"] = 1 if o.get("solver", "cp") == "mip" else 0
    t = o.get("monotonic_trend")
    base["trends"] = [v or "none" for v in t] if isinstance(t, list) else [t or "none"] * K
    return base


def run(p):
    from optbinning import MulticlassOptimalBinning
    x, y, yl, lab = build(p)
    K = p["K"]
    kw = dict(p["opts"])
    kw.setdefault("monotonic_trend", None)
    if p["method"] == "user":
        kw["user_splits"] = list(p["cand"])
        if p["fixed"] is not None:
            kw["user_splits_fixed"] = list(p["fixed"])
    ob = MulticlassOptimalBinning(name="v", special_codes=b1.special_arg(p), **vb(p["seed"]), **kw)
    unit = 2 if p["method"] in ("user", "cart") else p["nb"]
    spcodes = [c[0] for g in p["spc"] for c in g]
    rec = dict(kind="mc1", exc="", K=K, o=spec_opts(p["opts"], len(x), K), method=p["method"], nb=p["nb"],
               hasfixed=1 if p["fixed"] is not None else 0, unit=unit)
    order = np.argsort(p["cand"])
    rec["fixed"] = [i + 1 for i, j in enumerate(order) if p["fixed"] and p["fixed"][j]]
    try:
        ob.fit(b1.cast_x(x, p), list(yl) if p["check_input"] else yl, check_input=p["check_input"])
        status, splits = ob.status, [float(s) for s in ob.splits]
    except Exception as e:
        rec["exc"] = exc_name(e)
        status, splits = "", []
    rec["status"] = status
    clean = ~np.isnan(x) & ~np.isin(x, spcodes)
    cv = sorted(set(x[clean]))
    cand = sorted(p["cand"])
    if p["method"] == "cart":
        cand = b2.tree_splits(p, x[clean], yl[clean], None, len(x), None)
    cs = lambda m: [int((m & (y == j)).sum()) for j in range(K)]
    rec["vals"] = [[b2.ipos(v, unit), cs(x == v), int((x == v).sum())] for v in cv]
    rec["cand"] = [b2.ipos(v, unit) for v in cand]
    rec["spl"] = [b2.ipos(v, unit) for v in splits]
    rec["sp"] = [cs(np.isin(x, [c[0] for c in g])) for g in p["spc"]]
    rec["spall"] = cs(np.isin(x, spcodes))
    rec["spdict"] = 1 if p["spk"] == "dict" else 0
    rec["miss"] = cs(np.isnan(x))
    lost = [j for j in range(K) if not (clean & (y == j)).any() and (y == j).any()]
    rec["sig"] = "class_without_clean_records" if lost else ""
    rec["tab"], rec["tot"], rec["probe"], rec["an"], rec["same"] = [], [], [], [], 1
    rec["triv"] = 1 if rec["exc"] or not splits else 0
    rec["cov"] = [p["method"], p["opts"].get("solver", "cp"), "nb%d" % len(splits), "K%d" % K,
                  "status:" + (status or rec["exc"])] + sorted(set(rec["o"]["trends"]))
    if rec["exc"]:
        return rec
    cols = [c for c in lab if "Event_%s" % c in ob.binning_table.build().columns]
    rec["ncls"] = len(cols)

    def rows_of(df):
        return [[cnt(q["Count"]), mic(q["Count (%)"]), [cnt(q["Event_%s" % c]) if c in cols else -1 for c in lab],
                 [mic(q["Event_rate_%s" % c]) if c in cols else -1 for c in lab]] for _, q in df.iterrows()]
    bt = ob.binning_table
    rows = rows_of(bt.build(show_digits=p["tdig"], add_totals=True))
    rec["tab"], rec["tot"] = rows[:-1], rows[-1]
    rec["same"] = 1 if rows_of(ob.binning_table.build(show_digits=(p["tdig"] + 1) % 9, add_totals=False)) == rows[:-1] else 0
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            bt.analysis(print_output=True)
        txt = buf.getvalue()
        num = lambda key: mic(float(re.search(re.escape(key) + r"\s+(-?[\d.]+|nan|inf)", txt).group(1)))
        tests = []
        for l in txt.split("Significance tests")[1].splitlines():
            q = l.split()
            if len(q) == 4 and q[0].isdigit():
                tests.append([int(q[0]), int(q[1])] + [mic(float(v)) for v in q[2:]])
        rec["an"] = [dict(exc="", js=num("JS (Jensen-Shannon)"), p_js=mic(bt.js), hhi=num("HHI "), hhin=num("HHI (normalized)"),
                          cramer=num("Cramer's V"), qs=num("Quality score"), p_qs=mic(bt.quality_score), tests=tests,
                          trends=[m.strip() for m in re.findall(r"Class\s+\d+\s+(.*)", txt)])]
    except Exception as e:
        rec["an"] = [dict(exc=exc_name(e))]
    rs = np.random.RandomState(p["seed"] + 1)
    pv = list(cv) + [v + .5 for v in cv[:-1]] + [cv[0] - 3.5, cv[-1] + 3.5, -1e6, 1e6] + splits
    if unit % 2:
        pv = [v for v in pv if v == int(v)]
    pv = [v for v in dict.fromkeys(pv) if v not in spcodes]
    pv = [v for v in pv if all(v == q or abs(v - q) > 1e-5 for q in splits)]
    if len(pv) > 20:
        pv = [pv[i] for i in sorted(rs.choice(len(pv), 20, replace=False))]
    pr = [(0, b2.ipos(v, unit), v) for v in pv]
    for gi, g in enumerate(p["spc"]):
        pr += [(1, gi + 1, c[0]) for c in g]
    pr.append((2, 0, np.nan))
    pr = [pr[i] for i in rs.permutation(len(pr))]
    vec = np.array([q[2] for q in pr], dtype=float)
    labels = [str(v) for v in bt.build(show_digits=p["tdig"], add_totals=False)["Bin"]]
    combos = [(0, 0), ("empirical", "empirical"), ("empirical", -2.5), (1.25, "empirical"), (7, -3)]
    for ci in rs.choice(len(combos), 2, replace=False):
        ms, mm = combos[ci]
        t = dict(ms=0 if ms == "empirical" else 1, msv=0 if ms == "empirical" else mic(ms),
                 msi=1 if isinstance(ms, int) else 0, mm=0 if mm == "empirical" else 1,
                 mmv=0 if mm == "empirical" else mic(mm), mmi=1 if isinstance(mm, int) else 0, exc="", rows=[], alone=[])
        res = {}
        for metric in ("mean_woe", "weighted_mean_woe", "indices", "bins"):
            try:
                res[metric] = ob.transform(pd.Series(vec) if p["xtype"] == "series" else vec, metric=metric, metric_special=ms,
                                           metric_missing=mm, show_digits=p["tdig"], check_input=p["check_input"])
            except Exception as e:
                t["exc"] = exc_name(e)
        if not t["exc"]:
            for i, q in enumerate(pr):
                t["rows"].append([q[0], q[1], mic(res["mean_woe"][i]), mic(res["weighted_mean_woe"][i]),
                                  cnt(res["indices"][i]), b1.label_rows(labels, str(res["bins"][i]))])
            for i in range(min(4, len(pr))):
                try:
                    t["alone"].append(mic(ob.transform(vec[i:i + 1], metric="mean_woe", metric_special=ms, metric_missing=mm)[0]))
                except Exception:
                    t["alone"].append(2000000004)
        rec["probe"].append(t)
    return rec
