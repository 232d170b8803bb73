"""OptimalBinning with its own pre-binning (uniform, quantile, cart, mdlp).

Data values are integers; positions are the values times a unit for which every
admissible split point is an integer, so the specification computes (uniform,
quantile) or is given (tree, MDLP: external components) the candidate splits and
reasons about exact positions.
"""
import math

import numpy as np

from ..obs import cnt, exc_name, vb
from . import b1

BAD = 2000000003


def int_sample(r, nv, hi, style=None):
    style = style or r.choice(["rand", "rand", "zero", "asc", "desc", "peak", "valley"])
    prof = b1.profile(r, nv, style, hi)
    prof = [q if sum(q) else [1, 0] for q in prof]
    if not (sum(q[0] for q in prof) and sum(q[1] for q in prof)):
        prof[0][0] += 1
        prof[-1][1] += 1
    return prof


def int_values(r, nv, k, method):
    """nv distinct increasing integers; their range is a multiple of k (uniform)."""
    gaps = [r.choice([1, 1, 1, 2, 3, 7]) for _ in range(nv - 1)]
    xs = [r.choice([0, 0, -20, 5, 1000])]
    for g in gaps:
        xs.append(xs[-1] + g)
    if method == "uniform" and k & (k - 1) and nv > 1:
        xs[-1] += (-(xs[-1] - xs[0])) % k
    even = [i for i in range(nv - 1) if (xs[i + 1] - xs[i]) % 2 == 0]
    if method == "cart" and even and r.random() < .3:      # a split at -2, the mark of a leaf in the tree
        i = r.choice(even)
        d = -2 - (xs[i] + xs[i + 1]) // 2
        xs = [v + d for v in xs]
    return xs


def gen(r, k, tier):
    if k == 0:       # witness of the listed finding: MDLP has no limit on its pre-bins
        return dict(method="mdlp", nb=2, clean=[[float(i), 20 * (i % 2), 20 - 20 * (i % 2)] if i < 3 else [3., 0, 20]
                                                for i in range(3)] + [[3., 19, 1], [4., 1, 19]],
                    spk="none", spc=[], nan=[0, 0], fixed=None, wmode="none", xtype="float", ytype="int", spnames=[],
                    opts=dict(prebinning_method="mdlp", max_n_prebins=2, min_prebin_size=1 / 64, divergence="hellinger"),
                    spscalar=[], check_input=False, seed=1, tdig=2)
    method = r.choice(["uniform", "quantile", "cart", "cart", "mdlp"])
    nb = r.choice([2, 3, 4, 4, 5, 6, 8])
    nv = r.randint(2, 12)
    prof = int_sample(r, nv, r.choice([3, 6, 10]))
    if method == "quantile" and nb & (nb - 1):
        while True:                                  # fractional ranks well inside
            N = sum(sum(q) for q in prof)
            if all(((N - 1) * j) % nb for j in range(1, nb)):
                break
            prof[r.randrange(nv)][r.randrange(2)] += 1
            if nb % 2 == 0 and (N - 1) % 2 == 0 or nb % 3 == 0 and (N - 1) % 3 == 0:
                pass
            if r.random() < .02:
                nb = 4
                break
    xs = int_values(r, nv, nb, method)
    clean = [[float(xs[i])] + prof[i] for i in range(nv)]
    kind = r.choice(["none", "none", "list", "array", "dict"])
    spc = []
    if kind != "none":
        pool = [-999.0, 5555.0, -777.0, 8888.0]
        for gi in range(1 if kind != "dict" else r.randint(1, 2)):
            spc.append([[pool.pop(), r.choice([0, 1, 2, 4]), r.choice([0, 1, 2, 3])] for _ in range(r.choice([1, 2]))])
    nan = [r.choice([0, 0, 1, 3]), r.choice([0, 0, 1, 2])] if r.random() < .5 else [0, 0]
    opts = b1.gen_options(r, min(nb, nv), 0)
    if r.random() < .4:
        opts = {q: v for q, v in opts.items() if q in ("divergence", "solver", "mip_solver")}
    opts["prebinning_method"] = method
    opts["max_n_prebins"] = nb
    opts["min_prebin_size"] = r.choice([1, 2, 3, 4, 6, 8, 12]) / 64
    if opts.get("min_bin_size") and opts["min_bin_size"] < opts["min_prebin_size"]:
        opts["min_prebin_size"] = opts["min_bin_size"]
    if "max_n_bins" in opts:
        opts["max_n_bins"] = min(opts["max_n_bins"], nb)
        if opts.get("min_n_bins", 0) > opts["max_n_bins"]:
            opts["min_n_bins"] = opts["max_n_bins"]
    return dict(method=method, nb=nb, clean=clean, spk=kind, spc=spc, nan=nan, opts=opts, fixed=None,
                wmode=r.choice(["none"] * 6 + ["sw", "cw", "both"]),
                xtype=r.choice(["float", "series", "list", "f32", "int", "oddindex"]) if not sum(nan) else
                r.choice(["float", "series", "f32"]),
                ytype=r.choice(["int", "int", "bool", "float", "series"]),
                spnames=r.sample(["zeta", "beta", "Special", "Alpha", "9", "m"], len(spc)),
                spscalar=[r.random() < .5 for _ in spc],
                check_input=r.random() < .3, seed=r.randrange(10**6), tdig=r.choice([0, 2, 5, 8]))


def unit_of(p):
    return {"uniform": p["nb"], "quantile": p["nb"]}.get(p["method"], 2)


def ipos(v, unit):
    s = v * unit
    if not math.isfinite(s) or abs(s - round(s)) > 1e-6 * max(1, abs(v)) or abs(s) > 10**9:
        return BAD
    return int(round(s))


def tree_splits(p, x, y, w, nsamp, cw, regression=False):
    """The candidate splits of the external tree component."""
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    kw = dict(min_samples_leaf=int(np.ceil(p["opts"]["min_prebin_size"] * nsamp)), max_leaf_nodes=p["nb"])
    t = DecisionTreeRegressor(**kw) if regression else DecisionTreeClassifier(class_weight=cw, **kw)
    t.fit(x.reshape(-1, 1), y, sample_weight=w)
    return [float(v) for v in np.unique(t.tree_.threshold[t.tree_.children_left >= 0])]


def run(p):
    from optbinning import OptimalBinning
    x, y, w = b1.build_arrays(p)
    ww, cw = b1.weights(y, w, p)
    kw = dict(p["opts"])
    kw.setdefault("monotonic_trend", None)
    if cw:
        kw["class_weight"] = cw
    ob = OptimalBinning(name="v", dtype="numerical", special_codes=b1.special_arg(p), **vb(p["seed"]), **kw)
    return judge_ready(ob, p, x, y, w, ww, cw)


def judge_ready(ob, p, x, y, w, ww, cw):
    nsamp = len(x)
    unit = unit_of(p)
    rec = dict(kind="b2", exc="", o=b1.spec_opts(p["opts"], nsamp), method=p["method"], nb=p["nb"], hasfixed=0, fixed=[],
               leaf=int(math.ceil(round(p["opts"]["min_prebin_size"] * 64) * nsamp / 64)))
    spcodes = [c[0] for g in p["spc"] for c in g]
    try:
        ob.fit(b1.cast_x(x, p), b1.cast_y(y, p), sample_weight=w, check_input=p["check_input"])
        status, splits = ob.status, [float(s) for s in ob.splits]
    except Exception as e:
        rec["exc"] = exc_name(e)
        status, splits = "", []
    rec["status"] = status
    clean = ~np.isnan(x) & ~np.isin(x, spcodes)
    cv = sorted(set(x[clean]))
    cand = []
    if p["method"] == "cart":
        cand = tree_splits(p, x[clean], y[clean], None if w is None and cw is None else ww[clean], nsamp, cw)
    elif p["method"] == "mdlp":
        from optbinning import MDLP
        cand = [float(v) for v in MDLP(min_samples_leaf=rec["leaf"]).fit(x[clean], y[clean]).splits]
    rec["unit"] = unit
    rec["vals"] = [[ipos(v, unit), cnt(ww[(x == v) & (y == 0)].sum()), cnt(ww[(x == v) & (y == 1)].sum()),
                    int((x == v).sum())] for v in cv]
    rec["cand"] = [ipos(v, unit) for v in cand]
    rec["spl"] = [ipos(v, unit) for v in splits]
    rec["sp"] = [[[cnt(ww[(x == c) & (y == 0)].sum()), cnt(ww[(x == c) & (y == 1)].sum())] for c, _, _ in g]
                 for g in p["spc"]]
    rec["spdict"] = 1 if p["spk"] == "dict" else 0
    m = np.isnan(x)
    rec["miss"] = [cnt(ww[m & (y == 0)].sum()), cnt(ww[m & (y == 1)].sum())]
    rec["wtot"] = cnt(ww.sum())
    rec["nsamp"] = nsamp
    rec["tab"], rec["tot"], rec["probe"], rec["an"], rec["alone"] = [], [], [], [], []
    rec["sig"] = "mdlp_max_n_prebins" if p["method"] == "mdlp" else ""
    rec["triv"] = 1 if rec["exc"] or len(splits) == 0 else 0
    rec["cov"] = [p["method"], p["opts"].get("monotonic_trend") or "notrend", "nb%d" % len(splits), p["wmode"],
                  "status:" + (status or rec["exc"])]
    if rec["exc"]:
        return rec
    b1.observe_table(ob, rec, p)
    rs = np.random.RandomState(p["seed"] + 1)
    pv = list(cv) + [v + .5 for v in cv[:-1]] + [cv[0] - 3.5, cv[-1] + 3.5, -1e6, 1e6] + splits
    if unit % 2:
        pv = [v for v in pv if v == int(v)]
    pv = [v for v in dict.fromkeys(pv) if v not in spcodes]
    pv = [v for v in pv if all(v == q or abs(v - q) > 1e-5 for q in splits)]
    if len(pv) > 22:
        pv = [pv[i] for i in sorted(rs.choice(len(pv), 22, replace=False))]
    b1.observe_transform(ob, rec, p, pv, {v: ipos(v, unit) for v in pv}, spcodes)
    return rec
