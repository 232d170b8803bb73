"""Performance metrics and curves of models (classification and regression)."""
import os
import re
import tempfile

import numpy as np
import pandas as pd

from ..obs import cnt, exc_name, mic

KINDS = ["rank", "rank", "conf", "reg", "reg", "plot"]


def gen(r, k, tier):
    kind = KINDS[k % len(KINDS)]
    n = r.choice([2, 3, 4, 5, 6, 8, 10, 14, 20] + ([40, 60] if kind in ("rank", "plot") else []))
    p = dict(kind=kind, cont=r.choice(["array", "list", "series", "shuffled", "float", "bool"]), seed=r.randrange(10**6))
    if kind in ("rank", "plot"):
        y = [int(r.random() < .4) for _ in range(n)]
        if k % 23 == 7:
            y = [k % 2] * n          # only one class
        elif len(set(y)) < 2:
            y[0], y[-1] = 1, 0
        levels = r.choice([2, 3, 5, 16, 64])
        q = r.random()
        s = [r.randrange(levels) for _ in y]
        if q < .3:
            s = [min(levels - 1, max(0, v + (levels // 2 if t else 0))) for v, t in zip(s, y)]
        elif q < .5:
            s = [max(0, v - (levels // 2 if t else 0)) for v, t in zip(s, y)]
        elif q < .6:
            s = [(levels - 1) * (t if r.random() < .9 else 1 - t) for t in y]
        p.update(y=y, s=s, levels=levels, fine=kind == "rank" and r.random() < .3)
        if kind == "plot" and len(set(y)) < 2:
            p["y"][0] = 1 - p["y"][0]
    elif kind == "conf":
        n = r.choice([1, 2, 4, 8, 20])
        y = [int(r.random() < .5) for _ in range(n)]
        s = [t if r.random() < .7 else 1 - t for t in y]
        if r.random() < .2:
            y = [y[0]] * n
        if r.random() < .2:
            s = [s[0]] * n
        p.update(y=y, s=s)
    else:
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])
        lo = r.choice([1, 1, -9, -9])
        y = [r.randint(lo, 12) or 3 for _ in range(n)]
        s = [v if r.random() < .2 else v + r.choice([-1, 1]) * r.randint(0, 6) for v in y]
        if r.random() < .1:
            y[0] = 0
        if r.random() < .1:
            y = [y[0]] * n
        p.update(y=y, s=s)
        if p["cont"] == "bool":
            p["cont"] = "array"
    return p


def ct(p, v, which, perm):
    a = np.asarray(v)[perm]
    c = p["cont"]
    if c == "list":
        return a.tolist()
    if c == "series":
        return pd.Series(a)
    if c == "shuffled":     # the two arguments have different, unsorted indices
        ix = np.random.RandomState(p["seed"] + which).permutation(len(a))
        return pd.Series(a, index=ix + 3 * which)
    if c == "float":
        return a.astype(float)
    if c == "bool" and which == 0:
        return a.astype(bool)
    return a


def _xy(line, sx, sy):
    return [[cnt(a * sx), cnt(b * sy)] for a, b in zip(line.get_xdata(), line.get_ydata())]


def run(p):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from optbinning.metrics import classification as mc
    from optbinning.metrics import regression as mr
    from optbinning.scorecard.plots import plot_auc_roc, plot_cap, plot_ks

    y, s = p["y"], p["s"]
    n = len(y)
    rec = dict(kind=p["kind"], exc="", y=y, s=s, out=[], out2=[], roc=[], cap=[], kse=[], ksn=[], lab=[], vl=[])
    perms = [np.arange(n), np.random.RandomState(p["seed"]).permutation(n)]
    L = p.get("levels", 1)
    obs = []
    try:
        for pm in perms:
            sv = [.5 + v * 2.0 ** -30 for v in s] if p.get("fine") else [v / L for v in s] if p["kind"] in ("rank", "plot") else s
            a, b = ct(p, y, 0, pm), ct(p, sv, 1, pm)
            a0, b0 = np.array(a), np.array(b)
            if p["kind"] == "rank":
                g = mic(mc.gini(a, b)) if len(set(y)) > 1 else 0
                if len(set(y)) > 1:
                    t, pos = mc.ks(a, b)
                    o = [g, mic(t), sorted(s)[int(pos)] if 0 <= int(pos) < n else -1]
                else:
                    o = [g, 0, 0]
            elif p["kind"] == "conf":
                d = mc.imbalanced_classification_metrics(a, b)
                o = [mic(d[q]) for q in ("True positive rate", "True negative rate", "False positive rate",
                                         "False negative rate", "Balanced accuracy", "Discriminant power")]
            elif p["kind"] == "reg":
                d = mr.regression_metrics(a, b)
                o = [mic(d[q]) for q in ("Mean absolute error", "Mean squared error", "Median absolute error",
                                         "Explained variance", "R^2", "MPE", "MAPE", "SMAPE", "MdAPE", "SMdAPE")]
            else:
                P, N = sum(y), n - sum(y)
                rec["roc"], rec["cap"], rec["kse"], rec["ksn"] = [], [], [], []
                lab = []
                with tempfile.TemporaryDirectory() as td:
                    for i, f in enumerate((plot_auc_roc, plot_cap, plot_ks)):
                        fig = plt.figure()
                        f(a, b)
                        ax = plt.gca()
                        lines = {q.get_label().split(" (")[0]: q for q in ax.lines}
                        if i < 2:
                            lb = [q.get_label() for q in ax.lines if q.get_label().startswith("Model")]
                            m = re.search(r"(-?[0-9.]+)\)", lb[0]) if lb else None
                            lab.append(mic(float(m.group(1))) if m else -1)
                            pts = _xy(lines["Model"], N if i == 0 else n, P)
                            rec["roc" if i == 0 else "cap"] = pts
                            if i == 1:
                                rec["perf"] = _xy(lines["Perfect Model"], n, P)
                        else:
                            rec["kse"] = _xy(lines["Cumulative events"], L, P)
                            rec["ksn"] = _xy(lines["Cumulative non-events"], L, N)
                            tx = [re.search(r"(-?[0-9.]+)% at (-?[0-9.]+)", q.get_text()) for q in ax.texts]
                            tx = [q for q in tx if q]
                            lab += [mic(float(tx[0].group(1)) / 100), mic(float(tx[0].group(2)))] if tx else [-1, -1]
                            seg = [c.get_segments() for c in ax.collections]
                            sg = seg[0][0] if seg and seg[0] else []
                            rec["vl"] = [[cnt(q[0] * L), mic(q[1])] for q in sg]
                        plt.close(fig)
                    fn = os.path.join(td, "f.png")
                    if p["seed"] % 40 == 0:
                        plot_ks(a, b, savefig=True, fname=fn)
                        rec["saved"] = int(os.path.exists(fn))
                plt.close("all")
                o = lab
                rec["lab"] = lab
            if not (np.array_equal(a0, np.array(a)) and np.array_equal(b0, np.array(b))):
                rec["exc"] = "input_modified"
            obs.append(o)
        rec["out"], rec["out2"] = obs
    except Exception as e:
        rec["exc"] = exc_name(e)
        rec["msg"] = str(e)[:100]
    rec["L"] = L
    rec["saved"] = rec.get("saved", 1)
    rec.setdefault("perf", [])
    rec["triv"] = 1 if n < 3 else 0
    rec["sig"] = p["kind"]
    rec["cov"] = [p["kind"], p["cont"], "%s_%s" % (p["kind"], "tied" if len(set(s)) < n else "distinct")]
    return rec
