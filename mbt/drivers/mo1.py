"""Scorecard monitoring: every table against the two samples."""
import contextlib
import io

import numpy as np
import pandas as pd

from ..obs import mic, cnt, exc_name, vb
from . import p1, sc1


def gen(r, k, tier):
    p = sc1.gen(r, k, tier)
    p["opts"] = p["opts"][:1]
    p["trans_params"] = None
    p["est"] = r.choice(["fixed", "real"])
    for v in p["vars"]:
        v["nu"] = r.choice([2, 3, 3, 6])
    p["n"] = r.choice([50, 90])
    p["nq"] = [r.choice([15, 40, 80]), r.choice([0, 0, 30, 60])]      # 0: the training sample itself
    p["shift"] = r.choice([0, 0, .5, 1, -1])
    p["method"] = r.choice(["cart", "cart", "quantile", "uniform"])
    p["nb"] = r.choice([2, 3, 5, 10])
    p["mbs"] = r.choice([.05, .1, .2])
    p["digits"] = r.choice([0, 2, 3])
    p["yform"] = r.choice(["array", "array", "series", "list"])
    p["rounds"] = r.choice([1, 1, 2])
    return p


def sample(p, n, shift, rs):
    """A new sample of the variables, with categories and codes seen in training."""
    q = dict(p, n=n, seed=int(rs.randint(10**6)))
    X, y, _ = p1.build(q)
    return X, y


def dense(*arrs):
    allv = np.unique(np.concatenate([np.asarray(a, dtype=float) for a in arrs]))
    return [[int(i) + 1 for i in np.searchsorted(allv, np.asarray(a, dtype=float))] for a in arrs]


def half(y):
    """Odd multiples of one half: never zero, never of an integer type."""
    return np.clip(np.round(y / 2), -14, 14) + .5


def run(p):
    with contextlib.redirect_stdout(io.StringIO()):
        return run_in(p)


def run_in(p):
    from optbinning import Scorecard
    from optbinning.scorecard import ScorecardMonitoring
    X, y, w = p1.build(p)
    rs = np.random.RandomState(p["seed"] + 5)
    sc = p1.codes(p)
    rec = dict(kind="mo", exc="", sig="", target=p["target"], rounds=[], triv=0)
    binary = p["target"] == "binary"
    if not binary:
        y = half(y)
    if p["est"] == "fixed":
        est = sc1.FixedLin(p["coefs"], p["b0"], p["shape"], p["ikind"], binary)
    elif binary:
        from sklearn.linear_model import LogisticRegression
        est = LogisticRegression(C=.05)
    else:
        from sklearn.linear_model import Ridge
        est = Ridge(alpha=50)
    o = p["opts"][0]
    try:
        card = Scorecard(sc1.make_process(p, X, y), est, scaling_method=o["method"],
                         scaling_method_params=o.get("params"), intercept_based=o["intercept"],
                         reverse_scorecard=o["reverse"], rounding=o["rounding"])
        card.fit(X, y, metric_special=o["ms"], metric_missing=o["mm"], **({} if w is None else {"sample_weight": w}))
    except Exception as e:
        rec["triv"] = 1
        return rec
    if np.isnan(card.score(X)).any():
        rec["triv"] = 1                    # a constant model has no min_max scaling
        return rec
    mon = ScorecardMonitoring(card, **vb(p["seed"]), psi_method=p["method"], psi_n_bins=p["nb"], psi_min_bin_size=p["mbs"],
                              show_digits=p["digits"])
    names = list(card.binning_process_.get_support(names=True))
    bad = False
    for rnd in range(p["rounds"]):
        sam = []
        for j in (0, 1):
            if p["nq"][j] == 0:
                Xs, ys = X.copy(), y.copy()
            else:
                Xs, ys = sample(p, p["nq"][j], p["shift"], rs)
                if not binary:
                    ys = half(ys)
                # unknown categories are outside the property
                for nm, v in zip(p["names"], p["vars"]):
                    if v["kind"] in ("cat", "icat"):
                        ok = set(X[nm].dropna())
                        pool = sorted(ok, key=str)
                        Xs[nm] = [c if c in ok or (isinstance(c, float) and np.isnan(c)) else pool[rs.randint(len(pool))]
                                  for c in Xs[nm]]
            if binary:
                ys = ys.astype(int)
            sam.append((Xs, ys))
        if any(len(set(s[1])) < (2 if binary else 3) for s in sam) or \
                (not binary and any(s[1].std() == 0 for s in sam)):
            bad = True
            continue
        ysf = [s[1] if p["yform"] == "array" else pd.Series(s[1]) if p["yform"] == "series" else list(s[1])
               for s in sam]
        f = dict(exc="")
        rec["rounds"].append(f)
        try:
            mon.fit(sam[0][0], ysf[0], sam[1][0], ysf[1])
            psi = mon.psi_table()
            tests = mon.tests_table()
            vt = mon.psi_variable_table(style="detailed")
            vs = mon.psi_variable_table(style="summary")
            v1 = [mon.psi_variable_table(name=n, style="summary") for n in names]
            v1d = [mon.psi_variable_table(name=n, style="detailed") for n in names]
            splits = np.asarray(mon.psi_splits, dtype=float)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                mon.system_stability_report()
            mon.information(print_level=2)
        except Exception as e:
            f["exc"] = exc_name(e)
            f["msg"] = str(e)[:200]
            break
        score = [card.score(s[0]) for s in sam]
        ra, re_, rs_ = dense(score[0], score[1], splits)
        f["score"] = [ra, re_]
        f["spl"] = rs_
        f["y"] = [[int(v) if binary else int(2 * v) for v in s[1]] for s in sam]
        f["bins"] = len(psi) - 1
        col = ["Count A", "Count E", "Count A (%)", "Count E (%)", "PSI"]
        f["psi"] = [[cnt(psi[c].iloc[i]) if c.startswith("Count") and "%" not in c else mic(psi[c].iloc[i]) for c in col]
                    for i in range(len(psi))]
        tc = ["Count A", "Count E"] + (["Event rate A", "Event rate E"] if binary else ["Mean A", "Mean E", "Std A", "Std E"])
        f["tests"] = [[cnt(tests[c].iloc[i]) if c.startswith("Count") else mic(tests[c].iloc[i]) for c in tc + ["statistic", "p-value"]]
                      for i in range(len(tests))]
        f["labels_agree"] = int(list(psi["Bin"])[:-1] == list(tests["Bin"]))
        # variables
        f["vars"] = []
        for j, nm in enumerate(names):
            i = p["names"].index(nm)
            v = p["vars"][i]
            ob = card.binning_process_.get_binned_variable(nm)
            t = vt[vt["Variable"] == nm]
            nr = len(ob.binning_table.build(add_totals=False))
            d = dict(nr=nr, nsp=len(sc) if isinstance(sc, dict) else 1, num=int(ob.dtype == "numerical"), spl=[], grp=[],
                     val=[0] * nr,
                     tab=[[cnt(t[c].iloc[q]) if c.startswith("Count") and "%" not in c else mic(t[c].iloc[q]) for c in col]
                          for q in range(len(t))],
                     tot=mic(vs[vs["Variable"] == nm]["PSI"].iloc[0]), tot1=mic(np.ravel(v1[j].values)[0]),
                     d1=int([mic(z) for z in v1d[j]["PSI"]] == [mic(z) for z in t["PSI"]]),
                     bins=int(list(t["Bin"].astype(str)) == list(card.table()[card.table()["Variable"] == nm]["Bin"].astype(str))),
                     recs=[[sc1.encode(z, v["kind"], sc) for z in s[0][nm]] for s in sam])
            if d["num"]:
                d["spl"] = [mic(z) for z in ob.splits]
            else:
                d["grp"] = [[p1.CATS.index(c) if v["kind"] == "cat" else int(round(float(c) / 10)) for c in s]
                            for s in ob.splits]
            f["vars"].append(d)
        # target and performance tables
        # (reported by system_stability_report; found by their columns)
        dfs = [z for z in vars(mon).values() if isinstance(z, pd.DataFrame) and "Metric" in z.columns]
        pf = next((z for z in dfs if "Diff A - E" in z.columns), None)
        ta = next((z for z in dfs if "Diff A - E" not in z.columns), None)
        f["tables"] = 0 if pf is None or ta is None else 1
        if not f["tables"]:
            continue
        if binary:
            f["target"] = [[cnt(ta[c].iloc[i]) for i in range(3)] for c in ("Actual", "Expected")]
            f["targetp"] = [[mic(ta[c].iloc[i]) for i in (1, 2)] for c in ("Actual (%)", "Expected (%)")]
            f["pred"] = [[int(z) for z in card.predict(s[0])] for s in sam]
            pr = dense(card.predict_proba(sam[0][0])[:, 1], card.predict_proba(sam[1][0])[:, 1])
            f["proba"] = pr
        else:
            f["target"] = [[mic(ta[c].iloc[i]) for i in range(5)] for c in ("Actual", "Expected")]
            f["targetp"] = []
            f["pred"] = [[mic(z) for z in card.predict(s[0])] for s in sam]
            f["proba"] = []
        f["perf"] = [[mic(z) for z in pf[c]] for c in ("Actual", "Expected", "Diff A - E")]
        f["perfn"] = list(pf["Metric"])
    if bad and not rec["rounds"]:
        rec["triv"] = 1
    rec["cov"] = [p["method"], p["target"]] + (["two_rounds"] if len(rec["rounds"]) > 1 else [])
    return rec
