"""Life cycles of two objects of one estimator class: fits, failing fits, refits, copies, saving and loading,
with every query made after every step."""
import contextlib
import copy
import io
import os
import pickle
import tempfile
import zlib

import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.exceptions import NotFittedError

from ..obs import exc_name

CLASSES = ["bin", "cat", "cont", "ccat", "multi", "bin2d", "cont2d", "pwb", "pwc", "sb", "proc", "sketch", "csketch",
           "psketch", "score", "monitor", "cf", "mdlp", "range", "zscore", "yq"]
HAS_JSON = ("bin", "cat", "cont", "ccat", "multi")
HAS_SAVE = ("proc", "score")
NO_CLONE = ()
SPV = [-99.0, 998.0]


def gen(r, k, tier):
    p = dict(cls=CLASSES[k % len(CLASSES)])
    return config(p, r, seq(r, p["cls"]))


def seq(r, cls):
    n = r.choice([3, 4, 5])
    w = ["A", "A", "B", "B", "X", "X", "S", "S", "C", "P", "F", "D"] + (["J", "J", "J"] if cls in HAS_JSON else [])
    return [[r.choice([1, 1, 1, 2]), r.choice(w)] for _ in range(n)]


def from_scenario(s, k):
    from ..obs import rng_for
    r = rng_for(77, "lf1s", k)
    p = dict(cls=CLASSES[k % len(CLASSES)])
    ops = []
    for o, op in s["hist"]:
        if op == "S" and p["cls"] in HAS_JSON and r.random() < .5:
            op = "J"
        ops.append([o, op])
    return config(p, r, ops)


def config(p, r, ops):
    c = p["cls"]
    if c in ("mdlp", "range", "zscore", "yq", "cf", "monitor", "score", "psketch", "sketch", "csketch"):
        ops = [[o, "A" if op in ("P", "F") else op] for o, op in ops]
    if c in ("monitor", "cf"):      # a clone holds a clone of the scorecard, which is not fitted
        ops = [[o, ("D" if c == "monitor" else "A") if op in (("C",) if c == "monitor" else ("C", "S", "D")) else op] for o, op in ops]
    if c in ("pwb", "pwc"):
        ops = [[o, "A" if op == "P" else op] for o, op in ops]
    p.update(ops=ops, seed=r.randrange(10**6), spec=r.choice(["none", "list", "dict", "array"]), missing=r.random() < .6, miss2=r.random() < .6, spec2=r.random() < .7,
             user=r.random() < .35, bad=[r.choice(["len", "nan", "param", "param", "deep", "deep"]) for _ in ops],
             jdef=r.random() < .4, sav=r.choice(["pickle", "file", "pickle"]), n=r.choice([60, 90, 150]),
             cut=r.random() < .4, numcat=r.random() < .3, unk=r.random() < .3, digits=r.choice([None, None, 1]),
             trend=r.choice(["auto", None, "ascending", "auto_asc_desc"]), tp=r.random() < .5)
    if c not in ("bin", "cont", "multi", "cat", "ccat", "sketch", "csketch", "sb") and p["spec"] == "dict":
        p["spec"] = "list"
    if c in ("bin2d", "cont2d") and p["spec"] == "array":
        p["spec"] = "list"
    if c in ("sketch", "csketch") and p["spec"] == "dict":
        p["spec"] = "list"
    if c in ("psketch",):
        p["spec"] = "none" if p["spec"] == "none" else "list"
    if c in ("cat", "ccat"):      # ties and the others are listed in order of appearance
        ops = [[o, "A" if op == "P" else op] for o, op in ops]
    p["ops"] = [list(o) for o in ops]
    return p


# ------------------------------------------------------------------ digests
def norm(v):
    if isinstance(v, pd.DataFrame):
        return [list(map(str, v.columns)), [norm(v[c].values) if not isinstance(v[c], pd.DataFrame) else norm(v[c].values)
                                            for c in v.columns]]
    if isinstance(v, pd.Series):
        return norm(v.values)
    if isinstance(v, np.ndarray):
        return [norm(x) for x in v.tolist()] if v.ndim else norm(v.item())
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return sorted([str(a), norm(b)] for a, b in v.items())
    if isinstance(v, str):      # padding of printed arrays is not significant
        return " ".join(v.split()).replace("[ ", "[")
    if v is None:
        return v
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        f = float(v)
        if norm.coarse and f == f and abs(f) < 1e9:      # results of a numerical solver
            return "%.5f" % (round(f + 3.1416e-7, 5) + 0.0)
        return "%.9g" % (f + 0.0) if f != 0 else "0"
    return str(type(v))


norm.coarse = False


def dig(v):
    return zlib.crc32(repr(norm(v)).encode()) % 1000000007 + 1


# ------------------------------------------------------------------ data
def special(p, cat=False):
    a, b = ("SP1", "SP2") if cat else SPV
    if p["spec"] == "none":
        return None
    if p["spec"] == "dict":
        return {"first": [a], "second": b}
    return [a, b] if p["spec"] == "list" else np.array([a, b])


def catnames(p, w):
    if p["numcat"]:
        return [3, 5, 8, 13, 21] if w == 1 else [5, 8, 2, 34]
    return ["a", "b", "c", "d", "e"] if w == 1 else ["b", "c", "x", "y"]


def column(p, rs, n, w, cat=False):
    if cat:
        x = np.empty(n, dtype=object)
        names = catnames(p, w)
        z = rs.randint(0, len(names), n)
        for i in range(n):
            x[i] = names[z[i]]
    else:
        z = rs.randint(0, 25, n)
        x = (z + (0 if w == 1 else 7)) / 2.0
        z = z / 5.0
    sp = special(p, cat)
    if (w == 1 or p["spec2"]) and sp is not None and not (cat and p["numcat"]):
        sv = ("SP1", "SP2") if cat else SPV
        for i in range(n):
            u = rs.rand()
            if u < .05:
                x[i] = sv[0]
            elif u < .1:
                x[i] = sv[1]
    if p["missing"] if w == 1 else p["miss2"]:
        for i in range(n):
            if rs.rand() < .06:
                x[i] = np.nan
    return x, z


def target(p, rs, z, w, kind):
    n = len(z)
    s = 1 if w == 1 else -1
    if kind == "binary":
        y = (rs.rand(n) < 1 / (1 + np.exp(-s * (z - 2.3)))).astype(int)
        y[:6] = [0, 1, 0, 1, 0, 1]
        return y
    if kind == "cont":
        return np.round(4 * s * z + rs.randint(-8, 9, n)) / 4.0
    y = np.clip(np.round(z / 2 + rs.randint(-1, 2, n)), 0, 2).astype(int)
    y[:6] = [0, 1, 2, 0, 1, 2]
    if (w == 1 and p["seed"] % 3 == 0) or (w == 2 and p["seed"] % 3 == 1):     # a class only one of the samples has
        y = np.where((z > 3.5) & (np.arange(n) % 3 == 0), 3, y)
    return y


def kind_of(c):
    return {"cont": "cont", "ccat": "cont", "cont2d": "cont", "pwc": "cont", "multi": "multi"}.get(c, "binary")


def data(p, w):
    """Sample 1 or 2 as a tuple of arguments."""
    c = p["cls"]
    rs = np.random.RandomState(p["seed"] + 100 * w)
    n = p["n"] + (17 if w == 2 else 0)
    if c in ("range", "zscore"):
        x = rs.randint(0, 12, n).astype(float)
        x[:3] = [60, -40, 33]
        return (x,)
    if c == "yq":
        x, y = rs.randint(0, 12, n).astype(float), rs.randint(0, 12, n).astype(float)
        y[:3] = [60, -40, 33]
        return (x, y)
    if c == "mdlp":
        x = rs.randint(0, 12, n).astype(float)
        return (x, (rs.rand(n) < (.15 if w == 1 else .5) + .06 * x).astype(int))
    if c in ("proc", "psketch", "score", "monitor", "cf"):
        m = 2 * n if c in ("score", "monitor", "cf") else n
        a, za = column(p, rs, m, w)
        b, zb = column(dict(p, spec="none"), rs, m, w)
        d, zd = column(dict(p, numcat=False), rs, m, w, True)
        y = target(p, rs, (za + zb) / 2, w, "binary")
        df = pd.DataFrame({"v1": a, "v2": b, "k": d} if c not in ("cf",) else {"v1": a, "v2": b})
        if c == "cf":
            df = df.dropna()
            df = df[~df["v1"].isin(SPV)].reset_index(drop=True)
            return (df,)
        if c == "monitor":
            h = len(df) // 2
            return (df[:h].reset_index(drop=True), y[:h], df[h:].reset_index(drop=True), y[h:])
        return (df, y)
    if c in ("bin2d", "cont2d"):
        a, za = column(p, rs, n, w)
        b, zb = column(p, rs, n, w)
        return (a, b, target(p, rs, (za + zb) / 2, w, kind_of(c)))
    if c == "sb":
        X, Y = [], []
        for i in range(2):
            a, z = column(p, rs, n, w)
            X.append(a)
            Y.append(target(p, rs, z + .3 * i, w, "binary"))
        return (X, Y)
    cat = c in ("cat", "ccat", "csketch")
    x, z = column(p, rs, n, w, cat)
    if cat and p["numcat"] and not p["missing"] and not p["miss2"]:
        x = x.astype(int)
    return (x, target(p, rs, z, w, kind_of(c)))


def permute(p, d, j):
    if p["cls"] == "sb":
        rs = np.random.RandomState(p["seed"] + j)
        X, Y = [], []
        for a, b in zip(*d):
            q = rs.permutation(len(a))
            X.append(a[q])
            Y.append(b[q])
        return (X, Y)
    q = np.random.RandomState(p["seed"] + j).permutation(len(d[0]))
    return tuple(a.iloc[q].reset_index(drop=True) if isinstance(a, pd.DataFrame) else a[q] for a in d)


# ------------------------------------------------------------------ objects
def make(p, default=False):
    from optbinning import (BinningProcess, ContinuousOptimalBinning, ContinuousOptimalBinning2D, ContinuousOptimalPWBinning,
                            MDLP, MulticlassOptimalBinning, OptimalBinning, OptimalBinning2D, OptimalPWBinning)
    from optbinning.binning.distributed import BinningProcessSketch, OptimalBinningSketch
    from optbinning.binning.outlier import ModifiedZScoreDetector, RangeDetector, YQuantileDetector
    from optbinning.binning.uncertainty import SBOptimalBinning
    from optbinning.scorecard import Counterfactual, ScorecardMonitoring
    c = p["cls"]
    kw = {}
    if c in HAS_JSON and not default:
        kw = dict(name="v", special_codes=special(p, c in ("cat", "ccat")), split_digits=p["digits"])
        if c not in ("cont", "ccat"):
            kw["solver"] = "mip"
        if c == "multi":
            kw["special_codes"] = special(p)
        else:
            kw["monotonic_trend"] = p["trend"]
            if c == "cont" and p["trend"] == "auto_asc_desc":
                kw["monotonic_trend"] = "auto"
        if c in ("cat", "ccat"):
            kw["dtype"] = "categorical"
            kw.pop("split_digits")
            if p["cut"]:
                kw["cat_cutoff"] = .15
            if p["user"]:
                kw.pop("cat_cutoff", None)
                q = catnames(p, 1)
                kw["user_splits"] = [[q[0]], q[1:3], q[3:]] if False else [[q[0], q[1]], [q[2]]]
            if p["unk"]:
                kw["cat_unknown"] = 0.5
        elif p["user"]:
            kw["user_splits"] = [3.25, 5.25, 8.25, 9.75]
    cl = {"bin": OptimalBinning, "cat": OptimalBinning, "cont": ContinuousOptimalBinning, "ccat": ContinuousOptimalBinning,
          "multi": MulticlassOptimalBinning}.get(c)
    if cl is not None:
        return cl(**kw)
    if c == "bin2d":
        return OptimalBinning2D(special_codes_x=special(p), special_codes_y=special(p), max_n_prebins_x=3, max_n_prebins_y=3)
    if c == "cont2d":
        return ContinuousOptimalBinning2D(special_codes_x=special(p), special_codes_y=special(p), max_n_prebins_x=3,
                                          max_n_prebins_y=3)
    if c == "pwb":
        return OptimalPWBinning(special_codes=special(p), max_n_prebins=4, continuous_deriv=False,
                                **(dict(user_splits=[3.25, 6.25]) if p["user"] else {}))
    if c == "pwc":
        return ContinuousOptimalPWBinning(special_codes=special(p), max_n_prebins=4, continuous_deriv=False,
                                          **(dict(user_splits=[3.25, 6.25]) if p["user"] else {}))
    if c == "sb":
        return SBOptimalBinning(special_codes=special(p), max_n_prebins=6)
    mp = {v: dict(solver="mip") for v in ("v1", "v2", "k")}
    if p["spec"] != "none":
        mp["v1"]["special_codes"] = special(p)
    if c == "proc":
        return BinningProcess(["v1", "v2", "k"], categorical_variables=["k"], binning_fit_params=mp,
                              binning_transform_params={"v1": {"metric_special": "empirical"}} if p["tp"] else None,
                              selection_criteria={"iv": {"min": .0, "top": 2, "strategy": "highest"}} if p["user"] else None)
    if c in ("sketch", "csketch"):
        return OptimalBinningSketch(solver="mip", special_codes=special(p, c == "csketch"), eps=.01,
                                    dtype="categorical" if c == "csketch" else "numerical")
    if c == "psketch":
        return BinningProcessSketch(["v1", "v2", "k"], categorical_variables=["k"], binning_fit_params=mp)
    if c in ("score", "monitor", "cf"):
        if c == "score":
            return scorecard(p, mp)
        names = ["v1", "v2"] + (["k"] if c == "monitor" else [])
        sc = scorecard(p, {v: mp[v] for v in names}, names)
        rs = np.random.RandomState(p["seed"] + 5)
        a, za = column(p, rs, 200, 1)
        b, zb = column(dict(p, spec="none"), rs, 200, 1)
        d, _ = column(dict(p, numcat=False), rs, 200, 1, True)
        df = pd.DataFrame({"v1": a, "v2": b, "k": d})[names]
        sc.fit(df, target(p, rs, (za + zb) / 2, 1, "binary"))
        if c == "monitor":
            return ScorecardMonitoring(scorecard=sc, psi_min_bin_size=.05)
        return Counterfactual(scorecard=sc, special_missing=False, n_jobs=1)
    if c == "mdlp":
        return MDLP()
    return {"range": RangeDetector, "zscore": ModifiedZScoreDetector, "yq": YQuantileDetector}[c]()


def scorecard(p, mp, names=("v1", "v2", "k")):
    from optbinning import BinningProcess, Scorecard
    from .sc1 import FixedLin
    bp = BinningProcess(list(names), categorical_variables=[v for v in names if v == "k"], binning_fit_params=mp)
    return Scorecard(binning_process=bp, estimator=FixedLin(coefs={"v1": -.75, "v2": -1.25, "k": -.5}, b0=.25),
                     scaling_method="min_max" if p["user"] else None,
                     scaling_method_params={"min": 0, "max": 100} if p["user"] else None)


def bad_args(p, d, how):
    """Arguments of a call that has to fail (None when the parameter way is used)."""
    if how == "len":
        if p["cls"] == "sb":
            return (d[0], d[1][:1])
        return tuple(d[:-1]) + (d[-1][:-3],) if len(d) > 1 else ("not numbers",)
    if how == "nan":
        y = np.asarray(d[-1]).astype(float) if p["cls"] not in ("sb", "cf") else None
        if y is None:
            return (None,) * len(d)
        y = np.full(y.shape, np.nan)
        return tuple(d[:-1]) + (y,)
    return None


def do_fit(p, ob, d, check=False):
    c = p["cls"]
    if c in ("sketch", "csketch", "psketch"):
        ob.add(*d, **({"check_input": True} if check else {}))
        ob.solve()
    elif check and c in ("bin", "cat", "cont", "ccat", "multi", "bin2d", "cont2d", "pwb", "pwc", "sb", "proc", "score"):
        ob.fit(*d, check_input=True)
    else:
        ob.fit(*d)


PARAM = {"bin": ("max_n_bins", -3), "cat": ("cat_cutoff", 7), "cont": ("solver", "no"), "ccat": ("max_n_prebins", -1),
         "multi": ("max_n_bins", -3), "bin2d": ("divergence", "no"), "cont2d": ("solver", "no"), "pwb": ("objective", "no"),
         "pwc": ("degree", -2), "sb": ("max_n_prebins", -1), "proc": ("min_prebin_size", 7), "sketch": ("solver", "no"),
         "csketch": ("divergence", "no"), "psketch": ("max_n_prebins", -4), "score": ("scaling_method", "no"),
         "monitor": ("psi_n_bins", -4), "cf": ("special_missing", 7), "mdlp": ("max_candidates", -1), "range": ("k", "z"),
         "zscore": ("threshold", -1), "yq": ("n_bins", -1)}
# options that are only used after earlier stages of the fit have been carried out
DEEP = {"bin": ("user_splits", [5.0, "q"]), "cont": ("user_splits", [5.0, "q"]), "multi": ("monotonic_trend", ["auto"]),
        "cat": ("user_splits", [["a"], ["a"]]), "ccat": ("user_splits", [["a"], ["a"]]), "pwb": ("user_splits", [5.0, "q"]),
        "pwc": ("user_splits", [5.0, "q"]), "sb": ("user_splits", [5.0, "q"]),
        "proc": ("binning_fit_params", {"k": {"cat_cutoff": 5}}), "score": ("estimator", None)}


def bad(p, ob, d, how):
    c = p["cls"]
    if how == "deep" and c not in DEEP:
        how = "param"
    if how in ("param", "deep"):
        if not hasattr(ob, "set_params") or (c in ("cf",) and how == "deep"):
            how = "len"
        else:
            name, v = (PARAM if how == "param" else DEEP)[c]
            if c == "score" and how == "deep":
                v = FailLin(coefs={"v1": 1}, b0=0)
            old = getattr(ob, name)
            setattr(ob, name, v)
            try:
                do_fit(p, ob, d)
            finally:
                setattr(ob, name, old)
            return
    do_fit(p, ob, bad_args(p, d, how), check=True)


class FailLin:
    """An estimator that can be fitted and then cannot be used."""

    def __init__(self, coefs=None, b0=0.0):
        self.coefs, self.b0 = coefs, b0

    def get_params(self, deep=True):
        return dict(coefs=self.coefs, b0=self.b0)

    def fit(self, X, y, sample_weight=None):
        return self

    def predict(self, X):
        raise RuntimeError("unusable")

    predict_proba = predict


# ------------------------------------------------------------------ queries
def probe(p, cat):
    rs = np.random.RandomState(p["seed"] + 9)
    if cat:
        v = catnames(p, 1) + catnames(p, 2)
        if not p["numcat"]:
            v = v + ["SP1", "SP2", np.nan, "zz"]
        else:
            v = v + [np.nan, 99]
        x = np.empty(len(v), dtype=object)
        for i, t in enumerate(v):
            x[i] = t
        return x
    return np.concatenate([np.arange(-1, 19, .25), SPV, [np.nan, 500., -500.]])


def table(t, full=True):
    """Queries of a binning table, in the documented order."""
    out = [t.build(), t.build(add_totals=False)]
    if full and hasattr(t, "analysis"):
        t.analysis(print_output=False)
    for a in ("iv", "js", "gini", "ks", "hellinger", "triangular", "quality_score", "woe"):
        if hasattr(type(t), a):
            out.append(getattr(t, a))
    return out


def protocol(t):
    """Answers of a table that was not built / not analysed."""
    bad = []
    for a in ("iv", "js", "gini", "ks", "hellinger", "triangular", "quality_score", "woe"):
        if hasattr(type(t), a):
            try:
                getattr(t, a)
                bad.append(a)
            except Exception as e:
                if not refused(e):
                    bad.append(a + exc_name(e))
    for a in ("analysis", "plot"):
        if hasattr(t, a):
            try:
                getattr(t, a)()
                bad.append(a)
            except NotFittedError:
                pass
            except Exception as e:
                bad.append(a + exc_name(e))
    if hasattr(type(t), "quality_score"):
        t.build()
        try:
            t.quality_score
            bad.append("quality_score_built")
        except NotFittedError:
            pass
        except Exception as e:
            bad.append("quality_score" + exc_name(e))
    return bad


def queries(p, d):
    """[(name, function of the object, kept by to_json)]"""
    c = p["cls"]
    q = []
    cat = c in ("cat", "ccat", "csketch")
    info = ("information", lambda o: o.information() or 1, 0)
    if c in ("bin", "cat", "cont", "ccat", "multi", "sketch", "csketch"):
        x = probe(p, cat)
        q = [("splits", lambda o: o.splits, 1), ("status", lambda o: o.status, 0), info,
             ("table", lambda o: table(o.binning_table), 1)]
        ms = ["woe", "event_rate"] if c in ("bin", "cat", "sketch", "csketch") else ["mean"] if c != "multi" else ["mean_woe", "weighted_mean_woe"]
        for m in ms + ["indices", "bins"]:
            # an unknown-value option only fits the numeric metrics
            if p["unk"] and cat and c != "csketch" and m in ("indices", "bins"):
                continue
            q.append(("transform_" + m, lambda o, m=m: o.transform(x, metric=m), 1))
            q.append(("transform_emp_" + m, lambda o, m=m: o.transform(x, metric=m, metric_special="empirical",
                                                                         metric_missing="empirical"), 1))
        if c in HAS_JSON:
            def tj(o):
                with tempfile.TemporaryDirectory() as td:
                    o.to_json(os.path.join(td, "o.json"))
                return 1
            q.append(("to_json", tj, 1))
        return q
    if c in ("bin2d", "cont2d"):
        x = probe(p, False)
        rs = np.random.RandomState(3)
        y = x[rs.permutation(len(x))]
        q = [("splits", lambda o: o.splits, 1), ("status", lambda o: o.status, 0), info,
             ("table", lambda o: table(o.binning_table), 1)]
        for m in (["woe", "event_rate"] if c == "bin2d" else ["mean"]) + ["indices", "bins"]:
            q.append(("transform_" + m, lambda o, m=m: o.transform(x, y, metric=m), 1))
        return q
    if c in ("pwb", "pwc"):
        x = probe(p, False)
        q = [("splits", lambda o: o.splits, 1), ("status", lambda o: o.status, 0), info,
             ("table", lambda o: table(o.binning_table), 1)]
        if c == "pwb":
            q += [("transform_" + m, lambda o, m=m: o.transform(x, metric=m), 1) for m in ("woe", "event_rate")]
        else:
            q += [("transform", lambda o: o.transform(x), 1)]
        return q
    if c == "sb":
        x = probe(p, False)
        return [("splits", lambda o: o.splits, 1), ("status", lambda o: o.status, 0), info,
                ("table", lambda o: table(o.binning_table), 1),
                ("table_scenario", lambda o: [table(o.binning_table_scenario(i)) for i in range(2)], 1)] + \
            [("transform_" + m, lambda o, m=m: o.transform(x, metric=m), 1) for m in ("woe", "event_rate", "indices", "bins")]
    if c in ("proc", "psketch", "score", "monitor", "cf"):
        rs = np.random.RandomState(p["seed"] + 11)
        a, _ = column(p, rs, 40, 1)
        b, _ = column(dict(p, spec="none"), rs, 40, 2)
        kk, _ = column(dict(p, numcat=False), rs, 40, 1, True)
        df = pd.DataFrame({"v1": a, "v2": b, "k": kk})
    if c in ("proc", "psketch"):
        q = [("summary", lambda o: o.summary(), 1), info,
             ("support", lambda o: [o.get_support(), o.get_support(names=True), o.get_support(indices=True)], 1),
             ("transform", lambda o: o.transform(df), 1), ("transform_idx", lambda o: o.transform(df, metric="indices"), 1),
             ("variable", lambda o: [list(map(str, o.get_binned_variable(v).splits)) for v in ("v1", "v2", "k")], 1)]
        return q
    if c == "score":
        return [("score", lambda o: o.score(df), 1), ("predict", lambda o: o.predict(df), 1), info,
                ("proba", lambda o: o.predict_proba(df), 1), ("table", lambda o: o.table(style="detailed"), 1),
                ("decision", lambda o: o.decision_function(df), 1)]
    if c == "monitor":
        return [("psi_table", lambda o: o.psi_table(), 1), ("psi_variable_table", lambda o: o.psi_variable_table(style="detailed"), 1),
                ("tests_table", lambda o: o.tests_table(), 1), info, ("report", lambda o: o.system_stability_report() or 1, 1),
                ("psi_splits", lambda o: o.psi_splits, 1)]
    if c == "cf":
        qx = {"v1": [1.5], "v2": [2.5]}

        def g(o):
            o.generate(query=pd.DataFrame(qx), y=1, outcome_type="binary", n_cf=1, max_changes=2)
            o.information()
            return [o.status]
        return [("generate", g, 1)]
    if c == "mdlp":
        return [("splits", lambda o: o.splits, 1)]
    return [("support", lambda o: o.get_support(), 1), ("indices", lambda o: o.get_support(indices=True), 1)]


def refused(e):
    return isinstance(e, NotFittedError) or type(e).__name__ in ("NotSolvedError", "NotGeneratedError", "NotDataAddedError")


def objective(p, o):
    t = o.binning_table
    if p["cls"] == "pwc":
        df = t.build(add_totals=False)[:-2]
        m = df["Sum"].sum() / df["Count"].sum()
        return "%.5f" % sum(abs(a / b - m) for a, b in zip(df["Sum"], df["Count"]) if b)
    t.build()
    return "%.5f" % t.iv


def ask(p, ob, qs, perm):
    res = [0] * len(qs)
    for j in perm:
        try:
            res[j] = dig(qs[j][1](ob))
        except Exception as e:
            if refused(e):
                res[j] = -1
                continue
            res[j] = -2 - zlib.crc32(exc_name(e).encode()) % 100000
            ask.last = "%s: %s %s" % (qs[j][0], exc_name(e), str(e)[:80])
    return res


def frozen(d):
    return dig(list(d))


def new_table(ob):
    try:
        return ob.binning_table
    except Exception:
        return None


def run(p):
    import matplotlib
    matplotlib.use("Agg")
    with contextlib.redirect_stdout(io.StringIO()):
        return run_(p)


def run_(p):
    c = p["cls"]
    acc = c in ("sketch", "csketch", "psketch")
    norm.coarse = c in ("pwb", "pwc")
    qs = queries(p, None)
    tie = c in ("cont", "ccat", "bin2d", "cont2d", "sb", "pwb", "pwc")
    if tie:     # solved by parallel search: several optimal solutions may be equally good
        qs.append(("objective", lambda o: objective(p, o), 1))
    D = {1: data(p, 1), 2: data(p, 2)}
    rec = dict(cls=c, acc=1 if acc else 0, tie=1 if tie else 0, qn=[q[0] for q in qs], keep=[q[2] for q in qs], ops=[], refs=[], exc="", dif=[])
    ask.last = ""
    refs, objs, tabs = {}, {}, {}

    def ref(key):
        if key in refs:
            return
        ob = make(p)
        e = ""
        for w in key:
            try:
                do_fit(p, ob, data(p, w))
            except Exception as x:
                e = exc_name(x)
                break
        refs[key] = dict(key=list(key), exc=e, q=ask(p, ob, qs, range(len(qs))) if not e else [])
    cur = {1: (), 2: ()}
    jdef = {1: False, 2: False}
    for i in (1, 2):
        objs[i] = make(p)
    first = {i: ask(p, objs[i], qs, range(len(qs))) for i in (1, 2)}
    rec["first"] = [first[1], first[2]]
    rs = np.random.RandomState(p["seed"] + 21)
    nop = {}
    for j, (i, op) in enumerate(p["ops"]):
        if op == "J" and c not in HAS_JSON:
            op = "S"
        if op in ("A", "B", "P", "F", "X") and jdef[i]:
            op = "S"        # an object made with default options by read_json is only queried and saved
        ob = objs[i]
        o = dict(i=i, op=op, exc="", same=1, proto=[], ft=0, msg="")
        try:
            if op in ("A", "B", "P", "F"):
                w = 2 if op == "B" else 1
                d = data(p, w)
                if op == "P":
                    d = permute(p, d, j)
                f0 = frozen(d)
                key = (cur[i] if acc else ()) + (w,)
                ref(key)
                cur[i] = key
                if op == "F":
                    a = d
                    if c == "sb":
                        out = ob.fit_transform(d[0][0], *d)
                        args = (d[0][0],)
                    else:
                        out = ob.fit_transform(*d)
                        args = d[:-1]
                    o["ft"] = 1 if dig(out) == dig(ob.transform(*args)) else 2
                else:
                    do_fit(p, ob, d)
                o["same"] = 1 if frozen(d) == f0 else 0
                t = new_table(ob)
                if t is not None and not acc:      # sketches analyse the table when solving
                    o["proto"] = protocol(t)
            elif op == "X":
                d = data(p, 2)
                f0 = frozen(d)
                try:
                    bad(p, ob, d, p["bad"][j])
                finally:
                    o["same"] = 1 if frozen(d) == f0 else 0
            elif op == "C":
                objs[i] = clone(ob)
                cur[i] = ()
            elif op == "D":
                objs[i] = copy.deepcopy(ob)
            elif op == "S":
                if p["sav"] == "file" and c in HAS_SAVE:
                    with tempfile.TemporaryDirectory() as td:
                        fn = os.path.join(td, "o.pkl")
                        ob.save(fn)
                        objs[i] = type(ob).load(fn)
                else:
                    objs[i] = pickle.loads(pickle.dumps(ob))
            elif op == "J":
                with tempfile.TemporaryDirectory() as td:
                    fn = os.path.join(td, "o.json")
                    ob.to_json(fn)
                    dflt = p["jdef"] and not p["unk"]
                    n = make(p, default=dflt)
                    n.read_json(fn)
                    objs[i] = n
                    jdef[i] = dflt
        except Exception as e:
            o["exc"] = exc_name(e)
            o["msg"] = str(e)[:120]
        o["nf"] = 1 if o["exc"] == "NotFittedError" else 0
        o["q"] = [ask(p, objs[v], qs, rs.permutation(len(qs))) for v in (1, 2)]
        o["r"] = [ask(p, objs[v], qs, rs.permutation(len(qs))) for v in (1, 2)]
        rec["ops"].append(o)
    # a failing accumulation may or may not have been counted: references for every sub-history are not needed,
    # the specification stops judging an accumulating object after a failed addition
    rec["refs"] = [refs[k] for k in refs]
    rec["last"] = ask.last
    rec["triv"] = 1 if not refs else 0
    rec["sig"] = c
    rec["cov"] = [c] + ["%s:%s" % (c, o["op"]) for o in rec["ops"]]
    return rec
