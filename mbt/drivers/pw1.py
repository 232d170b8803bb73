"""Piecewise binning of numerical samples on a quarter grid, binary and continuous target."""
import contextlib
import io
import re

import numpy as np
import pandas as pd

from ..obs import mic, mics, cnts, exc_name, rng_for, vb

SPV = [-99.0, 999.0, -7.25]


class Affine:
    """Stub estimator with a known probability (a + b * 4x) / 128."""

    def __init__(self, a=8, b=3):
        self.a, self.b = a, b

    def get_params(self, deep=True):
        return dict(a=self.a, b=self.b)

    def set_params(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])
        return self

    def fit(self, X, y, sample_weight=None):
        return self

    def predict_proba(self, X):
        p = (self.a + self.b * 4 * np.asarray(X)[:, 0]) / 128.0
        return np.c_[1 - p, p]


def gen(r, k, tier):
    binary = k % 2 == 0
    n = r.choice([24, 40, 60, 80])
    lo, hi = 0, r.choice([8, 16, 24])
    ns = r.choice([0, 0, 1, 2, 3])
    spec = "none" if ns == 0 else r.choice(["list", "dict", "array"])
    if spec == "dict" and ns == 3:
        groups = r.choice([[[0], [1, 2]], [[0, 2], [1]], [[0], [1], [2]]])
    elif spec == "dict":
        groups = [[i] for i in range(ns)]
    else:
        groups = [list(range(ns))] if ns else []
    shape = r.choice(["up", "down", "peak", "valley", "flat"])
    rows = []
    for i in range(n):
        x4 = r.randint(lo, hi)
        g = 0
        u = r.random()
        if ns and u < .2:
            g = 1 + r.randrange(ns)
        elif u > .9:
            g = -1
        t = x4 / hi
        s = {"up": t, "down": 1 - t, "peak": 1 - abs(2 * t - 1), "valley": abs(2 * t - 1), "flat": .5}[shape]
        if binary:
            y = int(r.random() < .1 + .8 * s)
            if g and r.random() < .15:
                y = 1
        else:
            y = int(round(24 * s - 8 + r.randint(-6, 6)))
            if r.random() < .1:
                y = 0
        rows.append([x4, g, y])
    if r.random() < .25:
        rows = [[a, g if g != -1 else 0, y] for a, g, y in rows]
    if binary and r.random() < .3:      # pure special or missing rows
        c = r.randint(0, 1)
        rows = [[a, g, y if g == 0 else c] for a, g, y in rows]
    if binary and len({y for _, g, y in rows if g == 0}) < 2:
        rows[0], rows[1] = [rows[0][0], 0, 0], [rows[1][0], 0, 1]
    o = {}
    deg = r.choice([0, 1, 1, 1, 1, 1, 2, 2, 3, 3])
    o["degree"] = deg
    o["continuous"] = r.random() < .65 if deg else r.random() < .3
    o["continuous_deriv"] = o["continuous"] and deg >= 2 and r.random() < .5
    o["objective"] = r.choice(["l2", "l2", "l2", "l1", "huber", "quantile"])
    if o["objective"] == "quantile":
        o["quantile"] = r.choice([.25, .5, .75])
    tr = ["auto", "auto", None, None, "ascending", "descending"]
    if o["continuous"] and deg == 1:
        tr += ["convex", "concave", "peak", "valley"]
    o["monotonic_trend"] = r.choice(tr)
    if deg == 0 and not o["continuous"]:       # the only supported separate constants
        o["objective"], o["monotonic_trend"] = "l2", r.choice(["ascending", "descending"])
    if r.random() < .5:
        us = sorted(r.sample(range(lo + 1, hi), r.choice([1, 2, 3, 4])))
        o["user_splits"] = [(2 * s - 1) / 8 if r.random() < .5 else s / 4 for s in us]
        if r.random() < .3:
            o["user_splits_fixed"] = [r.random() < .5 for _ in us]
    else:
        o["max_n_prebins"] = r.choice([3, 4, 6])
        o["prebinning_method"] = r.choice(["cart", "quantile", "uniform"])
    if r.random() < .2:
        o["max_n_bins"] = r.choice([2, 3])
    if r.random() < .15:
        o["n_subsamples"], o["random_state"] = n // 2, r.randrange(9)
    fb = [None, None]
    if r.random() < .35:
        if binary:
            fb = r.choice([[0.25, 0.75], [.125, None], [None, .5], [0.0, 1.0]])
        else:
            fb = r.choice([[-1.0, 3.0], [0.0, None], [None, 2.0]])
    lim = [[None, None], [0.25, 0.75], [.5, None], [None, .375], [.01, .99]] if binary else \
        [[None, None], [0.0, 2.0], [1.0, None], [None, .5]]
    qs = []
    for _ in range(4):
        m = r.choice(["woe", "event_rate"]) if binary else "mean"
        lb, ub = r.choice(lim + ([[.01, .99]] * 3 if m == "woe" else [])) if r.random() < .8 else fb
        qs.append([m, r.choice(["emp", "emp", 0, -2.5, 3]), r.choice(["emp", "emp", 0, -2.5, 3]), lb, ub])
    probes = [[r.randint(-4, hi + 6), 0] for _ in range(10)] + [[0, -1]] + [[0, g] for g in range(1, ns + 1)]
    return dict(binary=binary, rows=rows, opt=o, spec=spec, groups=groups, fb=fb, qs=qs, probes=probes,
                est=r.choice([None, [8, 3], [100, -3], [64, 0]]) if binary else None, lst=r.random() < .3)


def col(rows, sp):
    return np.array([v / 4 if g == 0 else np.nan if g == -1 else SPV[g - 1] for v, g in rows])


def special(p):
    if p["spec"] == "none":
        return None
    if p["spec"] == "dict":
        return {"s%d" % i: [SPV[j] for j in g] if len(g) > 1 or i % 2 else SPV[g[0]] for i, g in enumerate(p["groups"])}
    v = [SPV[j] for j in p["groups"][0]]
    return v if p["spec"] == "list" else np.array(v)


def make(p):
    from optbinning import ContinuousOptimalPWBinning, OptimalPWBinning
    o = dict(p["opt"], special_codes=special(p))
    if p["binary"]:
        if p["est"]:
            o["estimator"] = Affine(*p["est"])
        return OptimalPWBinning(**vb(len(p["rows"])), **o)
    return ContinuousOptimalPWBinning(**vb(len(p["rows"])), **o)


def inner(p, x, y, splits=None):
    from optbinning import ContinuousOptimalBinning, OptimalBinning
    o = {k: v for k, v in p["opt"].items() if k in ("monotonic_trend", "user_splits", "user_splits_fixed", "max_n_prebins",
                                                     "prebinning_method", "max_n_bins")}
    o.setdefault("monotonic_trend", "auto")
    if o["monotonic_trend"] in ("convex", "concave"):
        o["monotonic_trend"] = "auto"
    if splits is not None:
        o = dict(user_splits=list(splits), user_splits_fixed=[True] * len(splits), monotonic_trend=None) if len(splits) else \
            dict(max_n_bins=1, monotonic_trend=None)
    return (OptimalBinning if p["binary"] else ContinuousOptimalBinning)(**o).fit(x, y)


BKEYS = ("Gini index", "IV (Jeffrey)", "JS (Jensen-Shannon)", "Hellinger", "Triangular", "KS", "Avg precision", "Brier score")
CKEYS = ("Mean absolute error", "Mean squared error", "Median absolute error", "Explained variance", "R^2", "MPE", "MAPE",
         "SMAPE", "MdAPE", "SMdAPE")


def report(rec, ob, bt, txt, x, rows, p):
    """the printed analysis, and the predictions of the clean training records it speaks about"""
    b = p["binary"]

    def num(key):
        m = re.search(r"^ +" + re.escape(key) + r"\s+(-?[\d.]+(?:e[+-]?\d+)?|-?nan|-?inf)\s*$", txt, re.M)
        return mic(float(m.group(1))) if m else NONEV
    tests = []
    for l in txt.split("Significance tests")[1].splitlines():
        q = l.split()
        if len(q) == (6 if b else 4) and q[0].isdigit():
            tests.append([int(q[0]), int(q[1])] + [mic(float(v)) for v in q[2:]])
    cl = np.array([g == 0 for _, g, _ in rows])
    kw = dict(lb=1e-8, ub=1 - 1e-8, metric="event_rate") if b else dict(lb=p["fb"][0], ub=p["fb"][1])
    pred = np.asarray(ob.transform(x[cl], **kw), dtype=float)
    rec["rep"] = dict(m=[num(k) for k in (BKEYS if b else CKEYS)], hhi=num("HHI"), hhin=num("HHI (normalized)"), qs=num("Quality score"),
                      cramer=num("Cramer's V") if b else 0, tests=tests, pred=mics(pred),
                      rank=[int(v) for v in np.searchsorted(np.unique(pred), pred)],
                      y=[int(v) for (_, g, v) in rows if g == 0],
                      p_qs=mic(bt.quality_score) if b else 0,
                      props=[mic(getattr(bt, a)) for a in ("gini", "iv", "js", "hellinger", "triangular", "ks")] if b else [])
    if not b:
        from optbinning.metrics.regression import regression_metrics
        yv = np.array([v / 4 for _, g, v in rows if g == 0])
        rec["rep"]["lib"] = [mic(float("%.8f" % v)) for v in (regression_metrics(yv, pred)[k] for k in CKEYS)]


def bnd(v):
    return 2000000004 if v is None else mic(v)


def run(p):
    import matplotlib
    matplotlib.use("Agg")
    b = p["binary"]
    rows = p["rows"]
    x = col([[a, g] for a, g, _ in rows], p)
    y = np.array([v for _, _, v in rows], dtype=int) if b else np.array([v / 4 for _, _, v in rows])
    gi = {}
    for i, g in enumerate(p["groups"]):
        for j in g:
            gi[j + 1] = i + 1
    d = max(1, len(p["groups"]))
    o = p["opt"]
    est = p["est"]
    rec = dict(bin=1 if b else 0, rows=[[a, g if g < 1 else gi[g], v] for a, g, v in rows], d=d, deg=o["degree"],
               cont=1 if o["continuous"] else 0, trend=o["monotonic_trend"] or "none", objective=o["objective"],
               quant=mic(o.get("quantile", .5)), sub=1 if "n_subsamples" in o else 0, fb=[bnd(v) for v in p["fb"]],
               est=list(est) if est else [], exc="", qs=[], probes=[[a, g if g < 1 else gi[g]] for a, g in p["probes"]])
    xa, ya = (list(x), list(y)) if p["lst"] and False else (x, y)
    ob = make(p)
    try:
        ob.fit(xa, ya, lb=p["fb"][0], ub=p["fb"][1])
        rec["status"] = ob.status
        s = np.asarray(ob.splits, dtype=float)
        rec["spl8"] = [int(round(v * 8)) for v in s]
        rec["exact"] = 1 if all(abs(v * 8 - round(v * 8)) < 1e-9 for v in s) else 0
        rec["cuts"] = [int(np.sum(np.arange(-40, 400) / 4 < v)) - 41 for v in s]     # last grid value left of the split
        bt = ob.binning_table
        t = bt.build(add_totals=False)
        tt = bt.build()
        m = len(s) + 1
        rec["lab"] = [str(v) for v in t["Bin"]][m:]
        rec["wlab"] = (list(special(p)) if p["spec"] == "dict" else ["Special"]) + ["Missing"]
        rec["cnt"] = cnts(t["Count"])
        rec["pct"] = mics(t["Count (%)"])
        rec["coef"] = [mics(t["c%d" % i]) for i in range(o["degree"] + 1)]
        if b:
            rec["ev"], rec["ne"] = cnts(t["Event"]), cnts(t["Non-event"])
            rec["tot"] = cnts([tt["Count"].iloc[-1], tt["Non-event"].iloc[-1], tt["Event"].iloc[-1]])
        else:
            rec["sum"], rec["std"] = mics(t["Sum"]), mics([np.nan if v is None else v for v in t["Std"]])
            rec["mn"], rec["mx"] = mics([np.nan if v is None else v for v in t["Min"]]), mics([np.nan if v is None else v for v in t["Max"]])
            rec["zer"] = cnts(t["Zeros count"])
            rec["tot"] = cnts([tt["Count"].iloc[-1]]) + [mic(tt["Sum"].iloc[-1])] + cnts([tt["Zeros count"].iloc[-1]])
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            bt.analysis(**(dict(pvalue_test="chi2", n_samples=20) if b else {}))
        report(rec, ob, bt, buf.getvalue(), x, rows, p)
        xp = col(p["probes"], p)
        for mt, ms, mm, lb, ub in p["qs"]:
            kw = dict(metric_special="empirical" if ms == "emp" else ms, metric_missing="empirical" if mm == "emp" else mm,
                      lb=lb, ub=ub)
            if b:
                kw["metric"] = mt
            v = ob.transform(xp, **kw)
            rec["qs"].append(dict(m=mt, ms=[1, 0] if ms == "emp" else [0, mic(ms)], mm=[1, 0] if mm == "emp" else [0, mic(mm)],
                                  lb=bnd(lb), ub=bnd(ub), v=mics(v)))
        # the underlying optimal binning of the clean records
        cl = np.array([g == 0 for _, g, _ in rows])
        r1 = inner(p, x[cl], y[cl])
        rec["same"] = 1 if list(r1.splits) == list(s) else 0
        if not rec["same"]:
            ivs = []
            for q in (r1.splits, s):
                bt1 = inner(p, x[cl], y[cl], q).binning_table
                bt1.build()
                ivs.append(mic(bt1.iv))
            rec["ivs"] = ivs
        else:
            rec["ivs"] = [0, 0]
        # fit_transform with the bounds of the fit
        o2 = make(p)
        kw = dict(lb=p["fb"][0], ub=p["fb"][1])
        ft = np.asarray(o2.fit_transform(x, y, **kw))
        if list(o2.splits) == list(s):
            w = np.asarray(ob.transform(x, **kw))
            rec["ft"] = 1 if np.allclose(ft, w, rtol=1e-5, atol=1e-5, equal_nan=True) else 0
        else:
            rec["ft"] = 1
    except Exception as e:
        rec["exc"] = exc_name(e)
        rec["msg"] = str(e)[:200]
        # declined by the regression library or documented refusal
        v = isinstance(e, ValueError)
        import traceback
        outside = any("ropwr" in f.filename for f in traceback.extract_tb(e.__traceback__))
        if (outside and (o["degree"] == 0 or "Invalid dimensions" in str(e))) or rec["exc"] == "LinAlgError" or (v and "n_subsamples" in o) or \
                (v and o["monotonic_trend"] in ("peak", "valley")) or (v and "Fixed user_splits" in str(e)):
            rec["exc"] = "declined"
    rec["triv"] = 1 if rec["exc"] else 0
    rec["sig"] = "piecewise"
    rec["cov"] = [("b" if b else "c") + "%d" % o["degree"], "trend:%s" % rec["trend"], o["objective"]]
    return rec
