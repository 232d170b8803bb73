"""OptimalBinning2D and ContinuousOptimalBinning2D."""
import contextlib
import io
import re

import numpy as np
import pandas as pd

from ..obs import mic, cnt, exc_name, vb
from . import b1, b2, k1

LO, HI = -1999999999, 1999999999
CATS = ["a", "bb", "Z", "9", "m n", "x"]
CODES = [-99.0, 999.0, 0.0, 3.0, 55555.0]


def dim(r, tier, method, big=False):
    cat = r.random() < .22
    nb = r.choice([2, 2, 3, 4]) if method in ("uniform", "cart", "mdlp") else r.choice([2, 2, 4])
    if big:
        nb = r.choice([4, 5, 6]) if method in ("uniform", "cart", "mdlp") else r.choice([4, 8])
    if cat:
        k = r.randint(1, 5)
        vals = r.sample(CATS, k) if r.random() < .8 else [float(v) for v in r.sample(range(1, 9), k)]
    else:
        k = r.randint(4, 8) if big else r.randint(1, 6)
        vals = [float(v) for v in b2.int_values(r, k, nb, method)]
    kind = r.choice(["none", "none", "list", "list", "array"])
    codes = []
    if kind != "none":
        pool = ["SPEC", "other"] if cat and isinstance(vals[0], str) else [c for c in CODES if c not in vals]
        codes = r.sample(pool, min(len(pool), r.choice([1, 1, 2])))
    return dict(cat=cat, nb=nb, vals=vals, kind=kind, codes=codes, mps=r.choice([1, 2, 4, 8, 12]) / 64)


def gen(r, k, tier):
    cont = r.random() < .42
    method = r.choice(["uniform", "uniform", "quantile", "cart", "cart"] + ([] if cont else ["mdlp"]))
    cart = r.random() < .2
    big = cart and r.random() < .6
    D = [dim(r, tier, method, big), dim(r, tier, method, big)]
    nx, ny = len(D[0]["vals"]), len(D[1]["vals"])
    style = r.choice(["rand", "rand", "asc", "asc", "sparse", "diag"])
    sx, sy = r.choice([-1, 1]), r.choice([-1, 1])
    cells = []
    for i in range(nx):
        for j in range(ny):
            if style == "sparse" and r.random() < .45:
                cells.append([0, 0])
                continue
            u = (i if sx > 0 else nx - 1 - i) + (j if sy > 0 else ny - 1 - j)
            m = r.choice([1, 2, 3, 4, 6])
            if style == "asc":
                e = r.randint(0, 1) + u
                ne = r.randint(0, 1) + (nx + ny - u) // 2
            elif style == "diag":
                e, ne = (m, r.randint(0, 1)) if i == j else (r.randint(0, 1), m)
            else:
                e, ne = r.randint(0, m), r.randint(0, m)
            cells.append([ne, e])
    if r.random() < .96:
        cells[0] = [cells[0][0] + 1, cells[0][1]]
        cells[-1] = [cells[-1][0], cells[-1][1] + 1]
    if not any(map(sum, cells)):
        cells[0] = [1, 1]
    recs = [[D[0]["vals"][q // ny], D[1]["vals"][q % ny], ne, e] for q, (ne, e) in enumerate(cells) if ne + e]
    other = r.choice([0, 0, 1, 3, 6])
    for _ in range(other):
        def pick(d):
            w = r.random()
            if w < .35:
                return None
            if w < .7 and d["codes"]:
                return r.choice(d["codes"])
            return r.choice(d["vals"])
        recs.append([pick(D[0]), pick(D[1]), r.randint(0, 3), r.randint(0, 3)])
    # a special code of one variable is an ordinary value of the other
    if r.random() < .15:
        for a, b in ((0, 1), (1, 0)):
            if D[a]["codes"] and not D[b]["cat"] and not D[a]["cat"] and method != "uniform":
                cc = D[a]["codes"][0]
                if cc not in D[b]["codes"] and cc not in D[b]["vals"] and abs(cc) < 1000:
                    v = r.choice(D[a]["vals"])
                    recs.append([v, cc, 2, 1] if b == 1 else [cc, v, 2, 1])
    o = dict(solver=r.choice(["cp", "cp", "mip"]), prebinning_method=method)
    if cart:
        o["strategy"] = "cart"
    if not cont:
        o["divergence"] = r.choice(["iv", "iv", "js", "hellinger", "triangular"])
    for ax in "xy":
        if r.random() < (.6 if big else .35):
            o["monotonic_trend_" + ax] = r.choice(["ascending", "descending"])
            if r.random() < .4:
                o[("min_mean_diff_" if cont else "min_event_rate_diff_") + ax] = r.choice([.0625, .125] if not cont else [.25, .5])
    for q in r.sample(["minb", "maxb", "bothb", "mins", "maxs", "boths", "mine", "maxe", "minne", "maxne", "gamma"], r.choice([0, 0, 1, 1, 2])):
        if q == "minb" and "max_n_bins" not in o:
            o["min_n_bins"] = r.randint(1, 5)
        elif q == "maxb" and "min_n_bins" not in o:
            o["max_n_bins"] = r.randint(1, 5)
        elif q == "bothb":
            o["min_n_bins"] = r.randint(1, 4)
            o["max_n_bins"] = r.randint(o["min_n_bins"], 6)
        elif q == "mins" and "max_bin_size" not in o:
            o["min_bin_size"] = r.choice([2, 5, 8, 13, 20]) / 64
        elif q == "maxs" and "min_bin_size" not in o:
            o["max_bin_size"] = r.choice([13, 20, 30, 40, 50]) / 64
        elif q == "boths":
            a, b = r.choice([(3, 30), (8, 40), (12, 25), (2, 55), (5, 20)])
            o["min_bin_size"], o["max_bin_size"] = a / 64, b / 64
        elif q == "gamma":
            o["gamma"] = r.choice([.125, .5, 2])
        elif not cont:
            n, v = {"mine": ("min_bin_n_event", r.randint(1, 5)), "maxe": ("max_bin_n_event", r.randint(5, 25)),
                    "minne": ("min_bin_n_nonevent", r.randint(1, 5)), "maxne": ("max_bin_n_nonevent", r.randint(5, 25))}.get(q, (None, 0))
            if n:
                o[n] = v
    return dict(cont=cont, method=method, D=D, recs=recs, o=o, seed=r.randrange(10**6), tdig=r.choice([0, 2, 5]),
                check_input=r.random() < .2, f=r.choice([1, 1, .4]), base=r.choice([-3, 0, 0, 2, 9]),
                xtype=r.choice(["array", "array", "series", "list"]), ztype=r.choice(["int", "bool", "float", "list"]),
                njobs=r.choice([1, 1, 1, 2]))


def col(p, vals, d, typ="array"):
    if d["cat"] and any(isinstance(v, str) for v in d["vals"]):
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = (None if i % 2 else np.nan) if v is None else v
    else:
        a = np.array([np.nan if v is None else v for v in vals], dtype=float)
    if typ == "series":
        return pd.Series(a, index=[(7 * i) % (len(a) + 3) for i in range(len(a))] if len(a) % 7 and (len(a) + 3) % 7 else None)
    if typ == "list" and a.dtype != object:
        return [float(v) for v in a]
    return a


def isna(v):
    return v is None or (isinstance(v, float) and v != v)


def build(p):
    rs = np.random.RandomState(p["seed"])
    rows = []
    for x, y, ne, e in p["recs"]:
        if p["cont"]:
            for q in range(ne + e):
                rows.append((x, y, p["base"] + (4 if q < e else 0) + int(rs.randint(-2, 3))))
        else:
            rows += [(x, y, 0)] * ne + [(x, y, 1)] * e
    rows = [rows[i] for i in rs.permutation(len(rows))]
    return [q[0] for q in rows], [q[1] for q in rows], [q[2] for q in rows]


def run(p):
    from optbinning import OptimalBinning2D, ContinuousOptimalBinning2D
    X, Y, Z = build(p)
    D, f, cont = p["D"], p["f"], p["cont"]
    xin, yin = col(p, X, D[0], p["xtype"]), col(p, Y, D[1], p["xtype"])
    z = np.array(Z, dtype=float) / 4 * f if cont else np.array(Z)
    if not cont:
        z = z.astype(bool) if p["ztype"] == "bool" else z.astype(float) if p["ztype"] == "float" else list(Z) if p["ztype"] == "list" else z
    kw = dict(p["o"])
    for q in ("min_mean_diff_x", "min_mean_diff_y", "gamma"):
        if cont and q in kw:
            kw[q] = kw[q] * f
    for ax, d in zip("xy", D):
        if d["cat"]:
            kw["dtype_" + ax] = "categorical"
        if d["kind"] != "none":
            kw["special_codes_" + ax] = list(d["codes"]) if d["kind"] == "list" else np.array(d["codes"], dtype=object if d["cat"] else float)
        kw["max_n_prebins_" + ax] = d["nb"]
        kw["min_prebin_size_" + ax] = d["mps"]
    if p["njobs"] > 1:
        kw["n_jobs"] = p["njobs"]
    ob = (ContinuousOptimalBinning2D if cont else OptimalBinning2D)(name_x="u", name_y="v", **vb(p["seed"]), **kw)
    o, g = p["o"], lambda q: -1 if p["o"].get(q) is None else p["o"][q]
    fr = lambda q: -1 if p["o"].get(q) is None else int(round(p["o"][q] * 64))
    df = "min_mean_diff_" if cont else "min_event_rate_diff_"
    rec = dict(kind="d2", exc="", qexc="", cont=1 if cont else 0, n=len(X), strategy=o.get("strategy", "grid"), method=p["method"],
               div=o.get("divergence", "iv"), gamma=1 if "gamma" in o else 0,
               o=dict(minb=g("min_n_bins"), maxb=g("max_n_bins"), f_mins=fr("min_bin_size"), f_maxs=fr("max_bin_size"),
                      mine=g("min_bin_n_event"), maxe=g("max_bin_n_event"), minne=g("min_bin_n_nonevent"), maxne=g("max_bin_n_nonevent"),
                      trend=[o.get("monotonic_trend_x", "none"), o.get("monotonic_trend_y", "none")],
                      diff=[int(round(o.get(df + ax, 0) * (4 if cont else 1) * 10**6)) for ax in "xy"]))
    miss = [isna(a) or isna(b) for a, b in zip(X, Y)]
    spec = [not m and (a in D[0]["codes"] or b in D[1]["codes"]) for a, b, m in zip(X, Y, miss)]
    clean = [not m and not s for m, s in zip(miss, spec)]
    ids = []
    for d, V in zip(D, (X, Y)):
        vv = sorted(set(v for v, c in zip(V, clean) if c), key=lambda v: (isinstance(v, str), v))
        ids.append({v: i + 1 for i, v in enumerate(vv)})
    zz = np.array(Z, dtype=float) if cont else None
    if not any(clean):
        clean_grp = {}

    def grp(idx):
        if cont:
            return k1.stat_of(np.array(idx, dtype=int), zz / 4, np.ones(len(Z)), 1)
        return [sum(1 for i in idx if not Z[i]), sum(1 for i in idx if Z[i])]
    pts = {}
    for i, c in enumerate(clean):
        if c:
            pts.setdefault((ids[0][X[i]], ids[1][Y[i]]), []).append(i)
    rec["pts"] = [[a, b, grp(v)] for (a, b), v in sorted(pts.items())]
    rec["sp"] = grp([i for i in range(len(X)) if spec[i]])
    rec["miss"] = grp([i for i in range(len(X)) if miss[i]])
    rec["D"] = []
    unit = []
    zc = np.array([Z[i] for i in range(len(X)) if clean[i]], dtype=float)
    for d, V, idm in zip(D, (X, Y), ids):
        u = 2 * (2 if p["method"] in ("cart", "mdlp") else d["nb"])
        unit.append(u)
        dd = dict(cat=1 if d["cat"] else 0, nb=d["nb"], u=u, k=len(idm), vals=[], cand=[])
        vc = [V[i] for i in range(len(V)) if clean[i]]
        if d["cat"]:
            # order of the categories by the mean target
            mean = {v: np.mean([zc[i] for i in range(len(vc)) if vc[i] == v]) for v in idm}
            order = {v: i for i, v in enumerate(sorted(idm, key=lambda v: mean[v]))}
            xv = np.array([order[v] for v in vc], dtype=float)
        else:
            dd["vals"] = [b2.ipos(v, u) for v in idm]
            xv = np.array(vc, dtype=float)
        if p["method"] == "cart" and len(vc):
            dd["cand"] = [b2.ipos(v, u) for v in
                          b2.tree_splits(dict(opts=dict(min_prebin_size=d["mps"]), nb=d["nb"]), xv, zc / 4 * f if cont else zc, None, len(X), None,
                                         regression=cont)]
        rec["D"].append(dd)
    status = ""
    try:
        with np.errstate(all="ignore"):
            ob.fit(xin, yin, z, check_input=p["check_input"])
        status = ob.status
    except Exception as e:
        rec["exc"] = exc_name(e)
    rec["status"] = status
    rec["f1"], rec["R"], rec["tab"], rec["tot"], rec["same"], rec["an"], rec["probe"] = 1 if p["f"] == 1 else 0, [], [], [], 1, [], []
    rec["cov"] = ["cont" if cont else "bin", p["method"], rec["strategy"], o["solver"], "tx:" + rec["o"]["trend"][0], "ty:" + rec["o"]["trend"][1],
                  "cat" if D[0]["cat"] or D[1]["cat"] else "num", "status:" + (status or rec["exc"])]
    rec["triv"] = 1
    if rec["exc"] or status != "OPTIMAL":
        return rec
    try:
        with np.errstate(all="ignore"):
            observe(ob, rec, p, ids, unit)
        rec["triv"] = 1 if len(rec["R"]) < 2 else 0
        rec["cov"].append("bins%d" % min(6, len(rec["R"])))
    except Exception as e:
        rec["qexc"] = exc_name(e)
    return rec


def edge(v, u):
    v = float(v)
    if np.isinf(v):
        return LO if v < 0 else HI
    return b2.ipos(v, u)


def crows(df, f):
    out = []
    for _, q in df.iterrows():
        sc = lambda k: mic(q[k] / f) if q[k] != "" else 0
        out.append([cnt(q["Count"]), cnt(q["Sum"] / f * 4), mic(q["Count (%)"]), sc("Mean"), sc("Std"), sc("WoE"), sc("IV")])
    return out


def observe(ob, rec, p, ids, unit):
    D, cont, f = p["D"], p["cont"], p["f"]
    sx, sy = ob.splits
    for a, b in zip(sx, sy):
        q = []
        for s, d, idm, u in ((a, D[0], ids[0], unit[0]), (b, D[1], ids[1], unit[1])):
            q.append([idm.get(v, 0) for v in s] if d["cat"] else [edge(v, u) for v in s])
        rec["R"].append(q)
    bt = ob.binning_table
    rows = (lambda t: crows(t, f)) if cont else b1.table_rows
    full = bt.build(show_digits=p["tdig"])
    t = rows(full)
    rec["tab"], rec["tot"] = t[:-1], t[-1]
    xy = bt.build(show_digits=p["tdig"], show_bin_xy=True, add_totals=False)
    rec["same"] = 1 if rows(bt.build(show_digits=(p["tdig"] + 1) % 9, add_totals=False)) == t[:-1] and rows(xy) == t[:-1] else 0
    labels = [str(v) for v in xy["Bin"]]
    buf = io.StringIO()
    an = dict(done=0, fisher=1 if p["seed"] % 3 == 0 and not cont else 0)
    try:
        with contextlib.redirect_stdout(buf):
            bt.analysis(print_output=True) if cont else bt.analysis(pvalue_test="fisher" if an["fisher"] else "chi2", n_samples=20, print_output=True)
        an["done"] = 1
    except ValueError:
        pass         # chi-square of a degenerate table is refused by scipy
    if an["done"]:
        txt = buf.getvalue()
        tests = []
        for l in txt.split("Significance tests")[1].splitlines():
            q = l.split()
            if len(q) in (4, 6) and q[0].isdigit():
                tests.append([int(q[0]), int(q[1])] + [mic(float(v)) for v in q[2:]])
        if cont:
            num = lambda key, f=1: mic(float(re.search(re.escape(key) + r"\s+(-?[\d.]+|nan|inf)", txt).group(1)) / f)
            an.update(iv=num("IV", f), woe=num("WoE", f), hhi=num("HHI"), hhin=num("HHI (normalized)"), p_iv=mic(bt.iv / f), p_woe=mic(bt.woe / f),
                      rw=num("WoE (normalized)"), qs=num("Quality score"), p_qs=mic(float("%.8f" % bt.quality_score)))
        else:
            an.update(gini=mic(bt.gini), iv=mic(bt.iv), js=mic(bt.js), hel=mic(bt.hellinger), tri=mic(bt.triangular), ks=mic(bt.ks), qs=mic(bt.quality_score))
            an.update({k: v for k, v in b1.parse_analysis(txt, "x").items() if not k.startswith("tests")})
        an["tests"] = tests
    rec["an"] = [an]
    # ---- transform
    rs = np.random.RandomState(p["seed"] + 1)
    pool = []
    for d, idm, u in zip(D, ids, unit):
        q = [(0, (idm[v] if d["cat"] else b2.ipos(v, u)), v) for v in idm]
        if d["cat"]:
            q.append((3, 0, "never seen" if any(isinstance(v, str) for v in d["vals"]) else 4711.0))
        else:
            vv = list(idm)
            q += [(0, b2.ipos(v, u), v) for v in [(a + b) / 2 for a, b in zip(vv, vv[1:])] + [vv[0] - 5, vv[-1] + 5] if v not in d["codes"]]
        pool.append(q + [(1, 0, c) for c in d["codes"]] + [(2, 0, None)])
    pr = [(pool[0][rs.randint(len(pool[0]))], pool[1][rs.randint(len(pool[1]))]) for _ in range(18)]
    if rs.randint(4) == 0:
        pr = [q for q in pr if q[0][0] == 0 and q[1][0] == 0] or pr
    vx, vy = col(p, [q[0][2] for q in pr], D[0], p["xtype"]), col(p, [q[1][2] for q in pr], D[1], p["xtype"])
    combos = [(0, 0), ("empirical", "empirical"), ("empirical", -2.5), (1.25, "empirical"), (7, -3)]
    ms, mm = combos[rs.randint(len(combos))]
    tt = dict(ms=0 if ms == "empirical" else 1, msv=0 if ms == "empirical" else mic(ms), msi=1 if isinstance(ms, int) else 0,
              mm=0 if mm == "empirical" else 1, mmv=0 if mm == "empirical" else mic(mm), mmi=1 if isinstance(mm, int) else 0)
    m = {}
    for metric in (("mean",) if cont else ("woe", "event_rate")) + ("indices", "bins"):
        m[metric] = ob.transform(vx, vy, metric=metric, metric_special=ms, metric_missing=mm, show_digits=p["tdig"], check_input=p["check_input"])
    tt["rows"] = []
    for i, (a, b) in enumerate(pr):
        kind = 2 if 2 in (a[0], b[0]) else 1 if 1 in (a[0], b[0]) else 3 if 3 in (a[0], b[0]) else 0
        if cont:
            asked = (kind == 1 and tt["ms"]) or (kind == 2 and tt["mm"])
            v1 = mic(m["mean"][i] / (1 if asked else f))
            v2 = v1
        else:
            v1, v2 = mic(m["woe"][i]), mic(m["event_rate"][i])
        tt["rows"].append([kind, a[1], b[1], v1, v2, cnt(m["indices"][i]), b1.label_rows(labels, str(m["bins"][i]))])
    rec["probe"] = [tt]
