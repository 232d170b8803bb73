"""The MDLP discretiser on its own: fits, refits, ties, record order."""
import numpy as np
import pandas as pd

from ..obs import exc_name
from . import b1, b2


def gen(r, k, tier):
    nv = r.randint(1, 12)
    style = r.choice(["rand", "zero", "asc", "blocks", "blocks", "blocks", "edge"])
    leaf = r.choice([1, 2, 2, 3, 5, 10])
    if style == "blocks":
        prof, i = [], 0
        while i < nv:
            m = r.randint(1, 4)
            a = r.choice([[0, 1], [1, 0], [1, 6], [6, 1], [1, 3], [3, 1]])
            for _ in range(m):
                prof.append([a[0] * r.randint(1, 4) + (r.random() < .15), a[1] * r.randint(1, 4) + (r.random() < .15)])
            i += m
        prof = [[int(a), int(b)] for a, b in prof[:nv]]
    else:
        prof = b1.profile(r, nv, style, r.choice([3, 8]))
    f = r.choice([1, 2, 3, 5])
    if style == "edge":          # a block of one class about as large as a leaf may be, at either end
        leaf = r.choice([2, 3, 5, 10])
        nv = r.randint(2, 5)
        prof = [[r.randint(8, 30), r.choice([0, 0, 1])] for _ in range(nv - 1)]
        prof.append([0, max(1, leaf + r.choice([-2, -1, -1, 0, 1]))])
        if r.random() < .5:
            prof = [[b, a] for a, b in prof]
        if r.random() < .4:
            prof.reverse()
        f = 1
    prof = [[a * f, b * f] if sum(map(sum, prof)) * f < 340 else [a, b] for a, b in prof]
    prof = [q if sum(q) else [1, 0] for q in prof]
    xs = b2.int_values(r, nv, 2, "x")
    many = r.random() < .15
    return dict(vals=[[xs[i]] + prof[i] for i in range(nv)], leaf=leaf,
                minsplit=r.choice([2, 2, 2, 5, 20]), cands=r.choice([2, 3, 4]) if many else 32, seed=r.randrange(10**6),
                ytype=r.choice(["int", "bool", "float"]), xtype=r.choice(["int", "float", "series", "list"]),
                refit=r.random() < .4)


def data(vals, seed):
    rows = []
    for v, ne, e in vals:
        rows += [(v, 0)] * ne + [(v, 1)] * e
    idx = np.random.RandomState(seed).permutation(len(rows))
    return np.array([rows[i][0] for i in idx]), np.array([rows[i][1] for i in idx])


def run(p):
    from optbinning import MDLP
    m = MDLP(min_samples_split=p["minsplit"], min_samples_leaf=p["leaf"], max_candidates=p["cands"])
    rec = dict(kind="m1", exc="", leaf=p["leaf"], minsplit=p["minsplit"], exact=0 if p["cands"] < 12 else 1,
               vals=[[2 * v, a, b] for v, a, b in p["vals"]], spl=[], spl2=[])
    x, y = data(p["vals"], p["seed"])
    x0, y0 = x.copy(), y.copy()

    def ct(x, y):
        x = {"float": x.astype(float), "series": pd.Series(x, index=range(5, 5 + len(x))), "list": list(x)}.get(p["xtype"], x)
        y = {"bool": y.astype(bool), "float": y.astype(float)}.get(p["ytype"], y)
        return x, y
    try:
        if p["refit"]:
            m.fit(*ct(np.array([0, 1, 2, 3, 10, 11, 12, 13, 14, 15] * 3), np.array([0, 0, 0, 0, 1, 1, 1, 1, 1, 1] * 3)))
        m.fit(*ct(x, y))
        rec["spl"] = [b2.ipos(float(v), 2) if rec["exact"] else int(np.floor(2 * v)) for v in m.splits]
        x2, y2 = data(p["vals"], p["seed"] + 9)
        m2 = MDLP(min_samples_split=p["minsplit"], min_samples_leaf=p["leaf"], max_candidates=p["cands"])
        m2.fit(*ct(x2, y2))
        rec["spl2"] = [b2.ipos(float(v), 2) if rec["exact"] else int(np.floor(2 * v)) for v in m2.splits]
    except Exception as e:
        rec["exc"] = exc_name(e)
    rec["same"] = 1 if (x == x0).all() and (y == y0).all() else 0
    rec["triv"] = 0 if rec["spl"] else 1
    rec["cov"] = ["n%d" % len(rec["spl"]), "exact%d" % rec["exact"]]
    return rec
