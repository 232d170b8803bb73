"""Scorecards: table, scores and model outputs of fitted scorecards, with
refits under changed options."""
import contextlib
import io

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from ..obs import mic, cnt, exc_name, vb
from . import p1

SPEC = p1.SPEC


class FixedLin(BaseEstimator):
    """A linear model whose coefficients are given by column name."""

    def __init__(self, coefs=None, b0=0.0, shape=1, kind="scalar", binary=True):
        self.coefs = coefs
        self.b0 = b0
        self.shape = shape
        self.kind = kind
        self.binary = binary

    def fit(self, X, y, sample_weight=None):
        self.cols_ = list(X.columns)
        c = np.array([self.coefs[n] for n in X.columns], dtype=float)
        self.coef_ = c.reshape(1, -1) if self.shape == 2 else c
        if self.kind == "scalar":
            self.intercept_ = float(self.b0)
        elif self.kind == "array":
            self.intercept_ = np.array([float(self.b0)])
        self.sw_ = sample_weight
        return self

    def _lin(self, X):
        b = 0.0 if self.kind == "absent" else self.b0
        return np.asarray(X, dtype=float).dot(self.coef_.ravel()) + b

    def decision_function(self, X):
        return self._lin(X)

    def predict(self, X):
        d = self._lin(X)
        return (d > 0).astype(int) if self.binary else d

    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-self._lin(X)))
        return np.c_[1 - p, p]


def gen_opts(r, tgt):
    m = r.choice([None, "min_max", "min_max", "pdo_odds", "pdo_odds"] if tgt == "binary" else [None, "min_max", "min_max"])
    o = dict(method=m, intercept=r.random() < .4, reverse=r.random() < .4, rounding=m is not None and r.random() < .45)
    if m == "pdo_odds":
        o["params"] = dict(pdo=r.choice([5, 10, 20, 30]), odds=r.choice([1, 2, 20, 50]),
                           scorecard_points=r.choice([100, 300, 500]))
    elif m == "min_max":
        a = r.choice([-300, -50, 0, 0, 10, 100])
        o["params"] = dict(min=a, max=a + r.choice([10, 50, 100, 200, 400]))
    o["ms"] = r.choice([0, 0, "empirical", "empirical", .5, -1])
    o["mm"] = r.choice([0, 0, "empirical", "empirical", 1.25, -.5])
    return o


def gen(r, k, tier):
    p = p1.gen_base(r, k)
    while p["target"] == "multiclass":
        p = p1.gen_base(r, k)
    for v in p["vars"]:
        if r.random() < .3:
            v["miss"] = .1
        if r.random() < .3:
            v["spec"] = .1
    if p["special"] is None and r.random() < .5:
        p["special"] = r.choice(["list", "dict"])
    for q in (p["fit_params"] or {}).values():
        q.pop("special_codes", None)
    for v in p["vars"]:
        if p["special"] is None:
            v["spec"] = 0
    if r.random() < .75:
        p["trans_params"] = None
    else:
        ok = ["woe", "event_rate"] if p["target"] == "binary" else ["mean"]
        for q in (p["trans_params"] or {}).values():
            if q.get("metric") is not None and q["metric"] not in ok:
                q["metric"] = r.choice(ok)
            for f in ("metric_special", "metric_missing"):
                if f in q:
                    q[f] = r.choice([0, "empirical", -.5])
    if r.random() < .6:
        p["crit"] = None
    p["coefs"] = {n: r.choice([-1, -.75, -.5, -.25, .25, .5, .625, .75, 1, 1, -1]) for n in p["names"]}
    if p["target"] == "continuous":
        p["coefs"] = {n: abs(c) for n, c in p["coefs"].items()}
    p["b0"] = r.choice([0, -1.5, .75, 2])
    p["est"] = r.choice(["fixed", "fixed", "fixed", "real"])
    p["shape"] = r.choice([1, 2])
    p["ikind"] = r.choice(["scalar", "array", "array", "absent"])
    p["opts"] = [gen_opts(r, p["target"]) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    p["index"] = r.choice(["range", "shift", "str"])
    p["shuffle"] = r.random() < .4
    return p


def run(p):
    with contextlib.redirect_stdout(io.StringIO()):
        return run_in(p)


def make_process(p, X, y):
    from optbinning import BinningProcess
    crit = None
    if p["crit"]:
        m = "iv" if p["target"] == "binary" else "woe"
        crit = {m: {"strategy": "highest", "top": max(1, len(p["names"]) - 1)}}
    kw = dict(p["base"])
    cats = [n for n, v in zip(p["names"], p["vars"]) if v["kind"] in ("cat", "icat")]
    sc = p1.codes(p)
    if isinstance(sc, np.ndarray):
        sc = list(sc)
    return BinningProcess(variable_names=p["names"], categorical_variables=cats or None, special_codes=sc,
                          selection_criteria=crit, fixed_variables=None, binning_fit_params=p["fit_params"],
                          binning_transform_params=p["trans_params"], **kw)


def encode(v, kind, sp):
    """Where a value belongs: <<0, number>>, <<1, special>>, <<2, 0>>, <<3, category>>."""
    if isinstance(v, float) and np.isnan(v):
        return [2, 0]
    if sp is not None:
        if isinstance(sp, dict):
            for i, c in enumerate(sp.values()):
                if v == c:
                    return [1, i + 1]
        elif any(v == c for c in sp):
            return [1, 1]
    if kind == "cat":
        return [3, p1.CATS.index(v)]
    if kind == "icat":
        return [3, int(round(v / 10))]
    return [0, mic(v)]


def run_in(p):
    from optbinning import Scorecard
    X, y, w = p1.build(p)
    rs = np.random.RandomState(p["seed"] + 1)
    n = len(X)
    if p["index"] == "shift":
        X.index = np.arange(n) + 7
    elif p["index"] == "str":
        X.index = ["r%d" % i for i in range(n)]
    sc = p1.codes(p)
    # records to be scored: training rows, and rows of new values
    Xs = X.iloc[rs.choice(n, 14, replace=False)]
    new = {}
    for v, nm in zip(p["vars"], p["names"]):
        col = X[nm].values
        vals = []
        for _ in range(10):
            u = rs.uniform()
            if v["kind"] in ("num", "int"):
                if u < .25:
                    vals.append(float(rs.choice([-40., 40., -3.5, 3.5])))
                elif u < .4:
                    vals.append(np.nan)
                elif u < .5 and sc is not None:
                    vals.append(SPEC)
                else:
                    vals.append(float(np.round(rs.normal() * 8) / 8))
            else:
                c = col[rs.randint(n)]
                vals.append(np.nan if u < .2 else c)
        new[nm] = np.array(vals, dtype=object if v["kind"] == "cat" else float)
    Xn = pd.DataFrame(new)
    Xq = pd.concat([Xs, Xn], axis=0)
    cols = list(p["names"])
    if p["shuffle"]:
        cols = cols[::-1]
        X = X.assign(extra_col=1.0)[["extra_col"] + cols]
        Xq = Xq.assign(extra_col=2.0)[cols + ["extra_col"]]
    rec = dict(kind="sc", exc="", sig="", target=p["target"], fits=[], triv=0)
    recs = []
    for i in range(len(Xq)):
        row = Xq.iloc[i]
        recs.append([encode(row[nm], v["kind"], sc) for nm, v in zip(p["names"], p["vars"])])
    rec["recs"] = recs
    if p["est"] == "fixed":
        est = FixedLin(p["coefs"], p["b0"], p["shape"], p["ikind"], p["target"] == "binary")
    elif p["target"] == "binary":
        from sklearn.linear_model import LogisticRegression
        est = LogisticRegression(C=.05)
    else:
        from sklearn.linear_model import Ridge
        est = Ridge(alpha=50, positive=True)
    bp = make_process(p, X, y)
    card = None
    for o in p["opts"]:
        kw = dict(scaling_method=o["method"], scaling_method_params=o.get("params"),
                  intercept_based=o["intercept"], reverse_scorecard=o["reverse"], rounding=o["rounding"])
        f = dict(exc="", method=o["method"] or "none", icpt=int(o["intercept"]), rev=int(o["reverse"]),
                 rnd=int(o["rounding"]), vars=[], scores=[], dec=[], proba=[], inter=0, b0=0)
        pr = o.get("params", {})
        f["pdo"], f["odds"], f["spts"] = pr.get("pdo", 0), pr.get("odds", 1), pr.get("scorecard_points", 0)
        f["lo"], f["hi"] = pr.get("min", 0), pr.get("max", 0)
        rec["fits"].append(f)
        try:
            if card is None:
                card = Scorecard(bp, est, **vb(p["seed"]), **kw)
            else:
                card.set_params(**kw)
            fk = dict(metric_special=o["ms"], metric_missing=o["mm"])
            if w is not None:
                fk["sample_weight"] = w
            card.fit(X, y, **fk)
            scores = card.score(Xq)
            if p["est"] == "fixed" or p["target"] == "binary":
                dec = card.decision_function(Xq)
            else:
                dec = card.predict(Xq)
            proba = card.predict_proba(Xq)[:, 1] if p["target"] == "binary" else np.zeros(len(Xq))
            tab = card.table("detailed")
            summ = card.table()
        except Exception as e:
            f["exc"] = exc_name(e)
            f["msg"] = str(e)[:200]
            break
        names = list(card.binning_process_.get_support(names=True))
        e = card.estimator_
        b0 = getattr(e, "intercept_", 0.0)
        f["b0"] = mic(np.ravel(b0)[0])
        f["inter"] = mic(np.ravel(card.intercept_)[0])
        f["scores"] = [mic(v) for v in scores]
        f["dec"] = [mic(v) for v in dec]
        f["proba"] = [mic(v) for v in proba]
        coef = np.ravel(e.coef_)
        f["nsel"] = len(names)
        f["tabvars"] = [p["names"].index(v) + 1 if v in p["names"] else 0 for v in pd.unique(tab["Variable"])]
        f["same"] = int(list(summ.columns) == ["Variable", "Bin", "Points"] and
                        list(summ["Variable"]) == list(tab["Variable"]) and
                        [mic(z) for z in summ["Points"]] == [mic(z) for z in tab["Points"]])
        for j, nm in enumerate(names):
            i = p["names"].index(nm)
            v = p["vars"][i]
            ob = card.binning_process_.get_binned_variable(nm)
            t = tab[tab["Variable"] == nm]
            q = (p["trans_params"] or {}).get(nm, {})
            m = q.get("metric") or ("woe" if p["target"] == "binary" else "mean")
            col = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}[m]
            ms, mm = q.get("metric_special", o["ms"]), q.get("metric_missing", o["mm"])
            nsp = len(sc) if isinstance(sc, dict) else 1
            d = dict(i=i + 1, coef=mic(coef[j]), tcoef=[mic(z) for z in t["Coefficient"]],
                     ids=[cnt(z) for z in t["Bin id"]], pts=[mic(z) for z in t["Points"]],
                     val=[mic(z) for z in t[col]], nsp=nsp, spl=[], grp=[], num=0,
                     mse=int(ms == "empirical"), msv=0 if ms == "empirical" else mic(ms),
                     mme=int(mm == "empirical"), mmv=0 if mm == "empirical" else mic(mm))
            if p["est"] == "fixed":
                d["coef"] = mic(p["coefs"][nm])
            if ob.dtype == "numerical":
                d["num"] = 1
                d["spl"] = [mic(s) for s in ob.splits]
            else:
                d["grp"] = [[p1.CATS.index(c) if v["kind"] == "cat" else int(round(float(c) / 10)) for c in s]
                            for s in ob.splits]
            f["vars"].append(d)
    rec["cov"] = [x for x in ("none", "min_max", "pdo_odds") if any(f["method"] == x for f in rec["fits"])]
    rec["cov"] += [t for t, c in (("refit", len(rec["fits"]) > 1), ("rounding", any(f["rnd"] for f in rec["fits"])),
                                  ("trans_params", p["trans_params"] is not None)) if c]
    return rec
