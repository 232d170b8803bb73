"""Counterfactual explanations: every generated counterfactual against the
scorecard it was generated from; sequences of requests on one object."""
import contextlib
import io

import numpy as np
import pandas as pd

from ..obs import mic, exc_name, vb
from . import p1, sc1


def gen(r, k, tier):
    p = sc1.gen(r, k, tier)
    nv = r.choice([1, 2, 3, 3, 4, 4])
    while len(p["names"]) < nv:
        p = sc1.gen(r, k, tier)
    p["names"], p["vars"] = p["names"][:nv], p["vars"][:nv]
    p["trans_params"], p["crit"], p["weights"] = None, None, False
    p["opts"] = p["opts"][:1]
    p["base"] = dict(max_n_prebins=r.choice([4, 6]), max_n_bins=r.choice([3, 4, 4]))
    fp = p["fit_params"] or {}
    p["fit_params"] = {n: {kk: v for kk, v in fp[n].items() if kk in ("max_n_bins", "user_splits", "split_digits")}
                       for n in fp if n in p["names"]}
    p["ikind"] = r.choice(["scalar", "array"])
    for v in p["vars"]:
        v["rel"] = r.choice([.5, .7, .9])
    binary = p["target"] == "binary"
    p["sm"] = r.random() < .4
    reqs = []
    for _ in range(r.choice([1, 2, 2, 3])):
        ot = r.choice(["binary", "binary", "probability"]) if binary else "continuous"
        q = dict(ot=ot, k=r.choice([1, 1, 1, 2, 2, 3]), method=r.choice(["weighted", "weighted", "hierarchical"]),
                 row=r.randrange(30), form=r.choice(["df", "df", "dict"]))
        if ot == "binary":
            q["y"] = r.choice([0, 1])
        elif ot == "probability":
            q["y"] = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])          # tenths
        else:
            q["y"] = r.choice([-20, -10, -5, 0, 5, 10, 20])
        q["obj"] = r.choice([None, None, dict(proximity=1), dict(closeness=1), dict(proximity=2, closeness=1),
                             dict(proximity=1, closeness=3)])
        q["mc"] = r.choice([None, 1, 2, 3, nv, nv])
        q["act"] = sorted(r.sample(range(nv), r.randint(1, nv))) if r.random() < .4 else None
        hard, soft = [], {}
        if ot != "binary":
            u = r.random()
            if u < .45:
                hard.append("min_outcome")
            elif u < .9:
                hard.append("max_outcome")
            if not hard or r.random() < .25:
                soft["diff_outcome"] = r.choice([1, 5])
        for d in ("diversity_features", "diversity_values"):
            u = r.random()
            if u < .3:
                hard.append(d)
            elif u < .45:
                soft[d] = r.choice([1, 2])
        q["hard"] = hard or None
        q["soft"] = soft or None
        reqs.append(q)
    p["reqs"] = reqs
    return p


def run(p):
    with contextlib.redirect_stdout(io.StringIO()):
        return run_in(p)


def run_in(p):
    from optbinning import Scorecard
    from optbinning.scorecard import Counterfactual
    X, y, _ = p1.build(p)
    sc = p1.codes(p)
    binary = p["target"] == "binary"
    rec = dict(kind="cf", exc="", sig="", target=p["target"], reqs=[], vars=[], triv=0, nv=len(p["names"]))
    if p["est"] == "fixed":
        est = sc1.FixedLin(p["coefs"], p["b0"], p["shape"], p["ikind"], binary)
    elif binary:
        from sklearn.linear_model import LogisticRegression
        est = LogisticRegression(C=.5)
    else:
        from sklearn.linear_model import Ridge
        est = Ridge(alpha=50)
    o = p["opts"][0]
    try:
        card = Scorecard(sc1.make_process(p, X, y), est, scaling_method=o["method"],
                         scaling_method_params=o.get("params"), intercept_based=o["intercept"],
                         reverse_scorecard=o["reverse"], rounding=o["rounding"])
        card.fit(X, y, metric_special=o["ms"], metric_missing=o["mm"])
        Xt = card.binning_process_.transform(X, metric_special=o["ms"], metric_missing=o["mm"])
        if min(np.std(Xt.values, axis=0)) < 1e-6 or (Xt.shape[1] > 1 and
                                                   np.linalg.cond(np.cov(Xt.values.T)) > 1e8):
            rec["triv"] = 1            # the distance to the training data is not defined
            return rec
    except Exception:
        rec["triv"] = 1
        return rec
    tab = card.table("detailed")
    before = tab.to_csv()
    names = list(card.binning_process_.get_support(names=True))
    labels = []
    for j, nm in enumerate(names):
        v = p["vars"][p["names"].index(nm)]
        t = tab[tab["Variable"] == nm]
        ob = card.binning_process_.get_binned_variable(nm)
        nsp = len(sc) if isinstance(sc, dict) else 1
        d = dict(i=p["names"].index(nm) + 1, coef=mic(np.ravel(card.estimator_.coef_)[j]), nsp=nsp,
                 val=[mic(z) for z in t["WoE" if binary else "Mean"]], num=int(ob.dtype == "numerical"), spl=[], grp=[],
                 mse=int(o["ms"] == "empirical"), msv=0 if o["ms"] == "empirical" else mic(o["ms"]),
                 mme=int(o["mm"] == "empirical"), mmv=0 if o["mm"] == "empirical" else mic(o["mm"]))
        if d["num"]:
            d["spl"] = [mic(z) for z in ob.splits]
        else:
            d["grp"] = [[p1.CATS.index(c) if v["kind"] == "cat" else int(round(float(c) / 10)) for c in s]
                        for s in ob.splits]
        rec["vars"].append(d)
        labels.append([str(z) for z in t["Bin"]])
    b0 = float(np.ravel(card.estimator_.intercept_)[0])
    rec["b0"] = mic(b0)
    # what distances are measured with: range of the points, mean and factor of the inverse covariance
    F = np.linalg.cholesky(np.linalg.inv(np.atleast_2d(np.cov(Xt.values.T))))
    mu = Xt.values.mean(axis=0)
    mv = [[v["mmv"] if i == len(v["val"]) - 1 and not v["mme"] else v["msv"] if i >= len(v["val"]) - 1 - v["nsp"]
           and i < len(v["val"]) - 1 and not v["mse"] else z for i, z in enumerate(v["val"])] for v in rec["vars"]]
    rec["rng"] = [int(round((max(m) - min(m)) * abs(float(np.ravel(card.estimator_.coef_)[j])))) for j, m in enumerate(mv)]
    rec["fok"] = int(np.abs(F).max() < 60 and min(rec["rng"]) > 20000 and np.abs(mu).max() < 15)
    rec["F"] = [[mic(z) for z in r] for r in F]
    rec["mu"] = [mic(z) for z in mu]
    try:
        cf = Counterfactual(card, special_missing=p["sm"], **vb(p["seed"])).fit(X)
    except Exception as e:
        rec["exc"] = exc_name(e)
        rec["msg"] = str(e)[:200]
        return rec
    rec["sm"] = int(p["sm"])
    for q in p["reqs"]:
        row = X.iloc[[q["row"] % len(X)]]
        f = dict(exc="", ot=q["ot"], y=q["y"], k=q["k"], status="", cfs=[], out=[], warn=0, kept=1, same=1,
                 hard=q["hard"] or [], method=q["method"], diff=int(bool(q["soft"] and "diff_outcome" in q["soft"])),
                 query=[sc1.encode(row[nm].iloc[0], v["kind"], sc) for nm, v in zip(p["names"], p["vars"])])
        f["mc"] = len(names) // 2 if q["mc"] is None else q["mc"]
        act = None if q["act"] is None else [p["names"][i] for i in q["act"]]
        f["act"] = [int(act is None or nm in act) for nm in names]
        obj = q["obj"] or (dict(proximity=1, closeness=1) if q["method"] == "weighted" else dict(proximity=2, closeness=1))
        objs = list({**obj, **{s: w for s, w in (q["soft"] or {}).items() if q["k"] > 1 or s == "diff_outcome"}}.items())
        f["objs"] = [[a, b] for a, b in (sorted(objs, key=lambda t: -t[1]) if q["method"] == "hierarchical" else objs)]
        rec["reqs"].append(f)
        yv = q["y"] / 10 if q["ot"] == "probability" else q["y"]
        qq = row.copy() if q["form"] == "df" else {c: row[c].iloc[0] for c in row.columns}
        try:
            cf.generate(qq, yv, q["ot"], q["k"], method=q["method"], objectives=q["obj"], max_changes=q["mc"],
                        actionable_features=act, hard_constraints=q["hard"], soft_constraints=q["soft"], time_limit=8)
            f["status"] = cf.status
            cf.information(print_level=2)
        except Exception as e:
            f["exc"] = exc_name(e)
            f["msg"] = str(e)[:200]
            continue
        try:
            ch = cf.display(show_only_changes=True)
            full = cf.display(show_outcome=True)
        except Warning:
            f["warn"] = 1
            continue
        except Exception as e:
            f["exc"] = exc_name(e)
            f["msg"] = str(e)[:200]
            continue
        for c in range(len(ch)):
            rows = []
            for j, nm in enumerate(names):
                z = ch[nm].iloc[c]
                lab = str(z)
                if isinstance(z, str) and z == "-":
                    rows.append(0)
                    a, b = full[nm].iloc[c], row[nm].iloc[0]
                    if not (a == b or (a != a and b != b)):
                        f["kept"] = 0
                elif labels[j].count(lab) == 1:
                    rows.append(labels[j].index(lab) + 1)
                    if str(full[nm].iloc[c]) != lab:
                        f["kept"] = 0
                else:
                    rows.append(-1)
            f["cfs"].append(rows)
            f["out"].append(mic(full["outcome"].iloc[c]))
    rec["unchanged"] = int(before == card.table("detailed").to_csv())
    rec["cov"] = sorted({q["ot"] for q in p["reqs"]} | {q["method"] for q in p["reqs"]} |
                        ({"multiple"} if any(q["k"] > 1 for q in p["reqs"]) else set()) |
                        ({"found"} if any(f["cfs"] for f in rec["reqs"]) else set()) |
                        ({"none_found"} if any(f["warn"] for f in rec["reqs"]) else set()))
    return rec
