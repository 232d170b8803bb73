"""Numerical ContinuousOptimalBinning: user candidate splits or own pre-binning.

Targets are multiples of a quarter, so sums and sums of squares are exact
integers in quarter units; clean values are integers (positions in units where
every admissible split is an integer).
"""
import contextlib
import io
import math
import re

import numpy as np
import pandas as pd

from ..obs import mic, cnt, exc_name, vb
from . import b1, b2

TRENDS = b1.TRENDS
PVALS = [0.05, 0.1, 0.2, 0.5]


def targets(r, nv, style, maxrec):
    """nv lists of quarter-unit targets."""
    out = []
    off = r.choice([0, 0, -20, 16])
    for i in range(nv):
        m = {"asc": i * 3, "desc": (nv - i) * 3, "peak": (nv - abs(2 * i - nv)) * 2, "valley": abs(2 * i - nv) * 2,
             "rand": r.randint(-12, 12), "zero": 0}[style]
        k = r.randint(1, maxrec)
        sp = r.choice([0, 1, 4, 10])
        if style == "zero":
            out.append([r.choice([0, 0, 0, 4, -8]) for _ in range(k)])
        else:
            out.append([max(-40, min(40, off + m + r.randint(-sp, sp))) for _ in range(k)])
    return out


def gen_options(r, k):
    o = {}
    t = r.choice(TRENDS)
    if t is not None:
        o["monotonic_trend"] = t
    for c in r.sample(["minb", "maxb", "mins", "maxs", "diff", "pv", "gamma", "boths"], r.choice([0, 0, 1, 1, 2, 3])):
        if c == "minb":
            o["min_n_bins"] = r.randint(1, max(1, k - 1))
        elif c == "maxb":
            o["max_n_bins"] = r.randint(o.get("min_n_bins", 1), max(o.get("min_n_bins", 1), k))
        elif c == "mins" and "max_bin_size" not in o:
            o["min_bin_size"] = r.choice([2, 5, 8, 10, 13, 20]) / 64
        elif c == "maxs" and "min_bin_size" not in o:
            o["max_bin_size"] = r.choice([13, 20, 30, 40, 50]) / 64
        elif c == "boths":
            a, b = r.choice([(3, 30), (8, 40), (12, 25), (2, 55), (5, 20)])
            o["min_bin_size"], o["max_bin_size"] = a / 64, b / 64
        elif c == "diff":
            o["min_mean_diff"] = r.choice([.125, .25, .5, 1.0, 2.0])
        elif c == "pv":
            o["max_pvalue"] = r.choice(PVALS)
            o["max_pvalue_policy"] = r.choice(["all", "consecutive"])
        elif c == "gamma":
            o["gamma"] = r.choice([.125, .5, 1, 3])
    if "min_n_bins" in o and "max_n_bins" in o and o["min_n_bins"] > o["max_n_bins"]:
        o["max_n_bins"] = o["min_n_bins"]
    return o


def gen(r, k, tier):
    method = r.choice(["user", "user", "user", "uniform", "quantile", "cart"])
    nb = r.choice([2, 4, 4, 8]) if method != "cart" else r.choice([2, 3, 5, 8])
    nv = r.randint(2, 10)
    ys = targets(r, nv, r.choice(["rand", "rand", "asc", "desc", "peak", "valley", "zero"]), r.choice([2, 5, 9]))
    xs = b2.int_values(r, nv, nb, method)
    cand, fixed = [], None
    if method == "user":
        pts = list(range(1, nv))
        pts = sorted(r.sample(pts, r.randint(0, min(7, len(pts)))))
        cand = [float(xs[i]) if r.random() < .5 else xs[i] - .5 for i in pts]
        if r.random() < .08:
            cand.append(float(xs[-1] + 5))
        if r.random() < .08:
            cand.append(float(xs[0] - 5))
        if r.random() < .1 and pts:
            c = xs[pts[0]] + .5
            if c not in cand and all(c != x for x in xs):
                cand.append(c)
        cand = sorted(set(cand))[:8]
        if r.random() < .3:
            r.shuffle(cand)
        if r.random() < .2 and cand:
            fixed = [r.random() < .4 for _ in cand]
    kind = r.choice(["none", "none", "list", "array", "dict", "dict"])
    spc = []
    if kind != "none":
        pool = [-999.0, 5555.0, -777.0, 8888.0, 3333.0]
        for gi in range(1 if kind != "dict" else r.randint(1, 2)):
            spc.append([[pool.pop(), [r.randint(-20, 20) for _ in range(r.choice([0, 0, 1, 3]))]]
                        for _ in range(r.choice([1, 2]))])
    nan = [r.randint(-20, 20) for _ in range(r.choice([0, 0, 0, 1, 3]))]
    opts = gen_options(r, len(cand) + 1 if method == "user" else min(nb, nv))
    wmode = r.choice(["none"] * 4 + ["sw"])
    if method != "user":
        opts["prebinning_method"] = method
        opts["max_n_prebins"] = nb
        opts["min_prebin_size"] = r.choice([1, 2, 3, 4, 6, 8, 12]) / 64
        if "max_n_bins" in opts:
            opts["max_n_bins"] = min(opts["max_n_bins"], nb)
            if opts.get("min_n_bins", 0) > opts["max_n_bins"]:
                opts["min_n_bins"] = opts["max_n_bins"]
        if opts.get("min_bin_size", 1) < opts["min_prebin_size"]:
            opts["min_prebin_size"] = opts["min_bin_size"]
    return dict(method=method, nb=nb, clean=[[float(xs[i]), ys[i]] for i in range(nv)], cand=cand, fixed=fixed, spk=kind,
                spc=spc, nan=nan, opts=opts, wmode=wmode,
                xtype=r.choice(["float", "series", "list", "f32", "oddindex"]),
                ytype=r.choice(["float", "float", "series", "list"]),
                spnames=r.sample(["zeta", "beta", "Special", "Alpha", "9", "m"], len(spc)),
                spscalar=[r.random() < .5 for _ in spc],
                f=r.choice([1, 1, .4]),
                check_input=r.random() < .3, seed=r.randrange(10**6), tdig=r.choice([0, 2, 5, 8]))


def build_arrays(p):
    rs = np.random.RandomState(p["seed"])
    rows = []
    for v, ys in p["clean"] + [c for g in p["spc"] for c in g]:
        rows += [(v, q) for q in ys]
    rows += [(np.nan, q) for q in p["nan"]]
    idx = rs.permutation(len(rows))
    x = np.array([rows[i][0] for i in idx], dtype=float)
    y = np.array([rows[i][1] for i in idx], dtype=float) / 4 * p.get("f", 1)
    w = rs.randint(1, 4, size=len(rows)).astype(float) if p["wmode"] == "sw" else None
    return x, y, w


def cast_y(y, p):
    if p["ytype"] == "series":
        return pd.Series(y, index=[(5 * i) % (len(y) + 2) + 1 for i in range(len(y))])
    if p["ytype"] == "list" and p["check_input"]:
        return list(y)
    return y


def spec_opts(o, ns):
    g = lambda k: -1 if o.get(k) is None else o[k]
    f = lambda k: -1 if o.get(k) is None else int(round(o[k] * 64))
    return dict(minb=g("min_n_bins"), maxb=g("max_n_bins"), f_mins=f("min_bin_size"), f_maxs=f("max_bin_size"),
                mine=-1, maxe=-1, minne=-1, maxne=-1, z0sq=0,
                diff=int(round(o.get("min_mean_diff", 0) * 4 * 10**6)),
                pv=int(round(o["max_pvalue"] * 100)) if o.get("max_pvalue") else 0,
                polall=1 if o.get("max_pvalue_policy", "consecutive") == "all" else 0,
                gamma=int(round(o.get("gamma", 0) * 1000)), trend=o.get("monotonic_trend") or "none", ns=ns)


def stat_of(m, y, w, f=1):
    """<<n, sum, sum of squares, min, max, zeros>> of a mask, quarter units, all but min and max weighted, and the number of records."""
    q = np.round(y[m] / f * 4).astype(int)
    if not len(q):
        return [0, 0, 0, 0, 0, 0, 0]
    return [cnt(w[m].sum()), cnt((w[m] * q).sum()), cnt((w[m] * q * q).sum()), int(q.min()), int(q.max()), cnt(w[m][q == 0].sum()), len(q)]


def run(p):
    from optbinning import ContinuousOptimalBinning
    x, y, w = build_arrays(p)
    kw = dict(p["opts"])
    f = p.get("f", 1)
    for q in ("min_mean_diff", "gamma"):
        if q in kw:
            kw[q] = kw[q] * f
    kw.setdefault("monotonic_trend", None)
    if p["method"] == "user":
        kw["user_splits"] = list(p["cand"])
        if p["fixed"] is not None:
            kw["user_splits_fixed"] = list(p["fixed"])
    ob = ContinuousOptimalBinning(name="v", dtype="numerical", special_codes=b1.special_arg(p), **vb(p["seed"]), **kw)
    ww = np.ones(len(x)) if w is None else w
    unit = 2 if p["method"] in ("user", "cart") else p["nb"]
    spcodes = [c[0] for g in p["spc"] for c in g]
    rec = dict(kind="k1", exc="", o=spec_opts(p["opts"], len(x)), method=p["method"], nb=p["nb"],
               hasfixed=1 if p["fixed"] is not None else 0, unit=unit, weighted=1 if w is not None else 0)
    order = np.argsort(p["cand"])
    rec["fixed"] = [i + 1 for i, j in enumerate(order) if p["fixed"] and p["fixed"][j]]
    try:
        ob.fit(b1.cast_x(x, p), cast_y(y, p), sample_weight=w, check_input=p["check_input"])
        status, splits = ob.status, [float(s) for s in ob.splits]
    except Exception as e:
        rec["exc"] = exc_name(e)
        status, splits = "", []
    rec["status"] = status
    clean = ~np.isnan(x) & ~np.isin(x, spcodes)
    cv = sorted(set(x[clean]))
    cand = sorted(p["cand"])
    if p["method"] == "cart":
        cand = b2.tree_splits(p, x[clean], y[clean], None if w is None else w[clean], len(x), None, regression=True)
    rec["vals"] = [[b2.ipos(v, unit)] + stat_of(x == v, y, ww, f) for v in cv]
    rec["cand"] = [b2.ipos(v, unit) for v in cand]
    rec["spl"] = [b2.ipos(v, unit) for v in splits]
    rec["sp"] = [stat_of(np.isin(x, [c[0] for c in g]), y, ww, f) for g in p["spc"]]
    rec["spall"] = stat_of(np.isin(x, spcodes), y, ww, f)
    rec["spdict"] = 1 if p["spk"] == "dict" else 0
    rec["miss"] = stat_of(np.isnan(x), y, ww, f)
    rec["all"] = stat_of(np.ones(len(x), dtype=bool), y, ww, f)
    rec["tab"], rec["tot"], rec["probe"], rec["an"], rec["same"] = [], [], [], [], 1
    rec["triv"] = 1 if rec["exc"] or not splits else 0
    rec["cov"] = [p["method"], p["opts"].get("monotonic_trend") or "notrend", "nb%d" % len(splits), p["wmode"],
                  "pv" if rec["o"]["pv"] else "nopv", "status:" + (status or rec["exc"])]
    if rec["exc"]:
        return rec
    observe_table(ob, rec, p)
    rs = np.random.RandomState(p["seed"] + 1)
    pv = list(cv) + [v + .5 for v in cv[:-1]] + [cv[0] - 3.5, cv[-1] + 3.5, -1e6, 1e6] + splits
    pv = [v for v in dict.fromkeys(pv) if v not in spcodes]
    pv = [v for v in pv if all(v == q or abs(v - q) > 1e-5 for q in splits)]
    if len(pv) > 22:
        pv = [pv[i] for i in sorted(rs.choice(len(pv), 22, replace=False))]
    pr = [(0, b2.ipos(v, unit), v) for v in pv]
    for gi, g in enumerate(p["spc"]):
        pr += [(1, gi + 1, c[0]) for c in g]
    pr.append((2, 0, np.nan))
    transform(ob, rec, p, pr, rs, dtype=float)
    return rec


def table_rows(df, f=1):
    out = []
    df = df.copy()
    for c in ("Sum", "Mean", "Std", "Min", "Max", "WoE", "IV"):
        df[c] = [v if isinstance(v, str) else v / f for v in df[c]]
    for _, q in df.iterrows():
        out.append([cnt(q["Count"]), cnt(q["Sum"] * 4), mic(q["Count (%)"]), mic(q["Mean"]), mic(q["Std"]) if q["Std"] != "" else 0,
                    cnt(q["Min"] * 4), cnt(q["Max"] * 4), cnt(q["Zeros count"]), mic(q["WoE"]), mic(q["IV"])])
    return out


def observe_table(ob, rec, p):
    bt, f = ob.binning_table, p.get("f", 1)
    rows = table_rows(bt.build(show_digits=p["tdig"], add_totals=True), p.get("f", 1))
    rec["tab"], rec["tot"], rec["f1"] = rows[:-1], rows[-1], 1 if f == 1 else 0
    rec["same"] = 1 if table_rows(ob.binning_table.build(show_digits=(p["tdig"] + 1) % 9, add_totals=False), p.get("f", 1)) == rows[:-1] else 0
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            bt.analysis(print_output=True)
    except Exception as e:
        rec["an"] = [dict(exc=exc_name(e))]
        return
    txt = buf.getvalue()
    num = lambda key, f=1: mic(float(re.search(re.escape(key) + r"\s+(-?[\d.]+|nan|inf)", txt).group(1)) / f)
    tests = []
    for l in txt.split("Significance tests")[1].splitlines():
        q = l.split()
        if len(q) == 4 and q[0].isdigit():
            tests.append([int(q[0]), int(q[1])] + [mic(float(v)) for v in q[2:]])
    rec["an"] = [dict(exc="", iv=num("IV", f), woe=num("WoE", f), hhi=num("HHI"), hhin=num("HHI (normalized)"),
                      p_iv=mic(bt.iv / f), p_woe=mic(bt.woe / f), tests=tests,
                      rw=num("WoE (normalized)"), qs=num("Quality score"), p_qs=mic(float("%.8f" % bt.quality_score)),
                      trend=re.search(r"Monotonic trend\s+(.*)", txt).group(1).strip())]


def own(q, ms, mm, p):
    """the scale of a transformed value: requested numbers are given as they are"""
    if (q[0] == 1 and ms != "empirical") or (q[0] == 2 and mm != "empirical") or (q[0] == 3 and p.get("cu")):
        return 1
    return p.get("f", 1)


def transform(ob, rec, p, pr, rs, dtype):
    labels = [str(v) for v in ob.binning_table.build(show_digits=p["tdig"], add_totals=False)["Bin"]]
    combos = [(0, 0), ("empirical", "empirical"), ("empirical", -2.5), (1.25, "empirical"), (7, -3)]
    pr = [pr[i] for i in rs.permutation(len(pr))]
    vec = np.empty(len(pr), dtype=object)
    for i, q in enumerate(pr):
        vec[i] = q[2]
    if dtype is not object:
        vec = vec.astype(dtype)
    vin = pd.Series(vec) if p["xtype"] == "series" else vec
    for ci in rs.choice(len(combos), 2, replace=False):
        ms, mm = combos[ci]
        t = dict(ms=0 if ms == "empirical" else 1, msv=0 if ms == "empirical" else mic(ms),
                 msi=1 if isinstance(ms, int) else 0, mm=0 if mm == "empirical" else 1,
                 mmv=0 if mm == "empirical" else mic(mm), mmi=1 if isinstance(mm, int) else 0,
                 cu=1 if p.get("cu") else 0, cuw=mic(-1.5), cui=77, exc="", rows=[], alone=[])
        res = {}
        for metric in ("mean", "indices", "bins"):
            if p.get("cu"):
                ob.cat_unknown = {"indices": 77, "bins": "UNKN"}.get(metric, -1.5)
            try:
                res[metric] = ob.transform(vin, metric=metric, metric_special=ms, metric_missing=mm,
                                           show_digits=p["tdig"], check_input=p["check_input"])
            except Exception as e:
                t["exc"] = exc_name(e)
        if not t["exc"]:
            for i, q in enumerate(pr):
                lab = str(res["bins"][i])
                t["rows"].append([q[0], q[1], mic(res["mean"][i] / own(q, ms, mm, p)), cnt(res["indices"][i]), b1.label_rows(labels, lab),
                                  1 if lab == ("UNKN" if p.get("cu") else "unknown") else 0])
            if p.get("cu"):
                ob.cat_unknown = -1.5
            for i in range(min(4, len(pr))):
                try:
                    t["alone"].append(mic(ob.transform(vec[i:i + 1], metric="mean", metric_special=ms, metric_missing=mm)[0] / own(pr[i], ms, mm, p)))
                except Exception:
                    t["alone"].append(2000000004)
        rec["probe"].append(t)
