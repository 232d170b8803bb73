"""Numerical OptimalBinning with known candidate splits (user_splits).

The recorder projects every float of a case (clean values, candidate splits,
returned splits, probes) to its position in the sorted universe of those
floats, so the specification reasons about order only.
"""
import numpy as np
import pandas as pd

from ..obs import mic, mics, cnt, cnts, exc_name, vb

TRENDS = [None, None, None, "ascending", "descending", "peak", "valley", "concave", "convex",
          "peak_heuristic", "valley_heuristic", "auto", "auto_heuristic", "auto_asc_desc"]
PVALS = [0.05, 0.1, 0.2, 0.3, 0.5]
SPECIAL_POOL = [-99.0, 999.0, -7.25, 55555.0, 0.0, 3.0]


def profile(r, k, style, hi):
    """k (ne, e) pairs."""
    out = []
    for i in range(k):
        if style == "rand":
            e, ne = r.randint(1, hi), r.randint(1, hi)
        elif style == "zero":
            e, ne = r.randint(0, 3), r.randint(0, 3)
        elif style == "ties":
            a, b = r.choice([(1, 2), (1, 2), (2, 1), (3, 1), (1, 1), (5, 1)])
            m = r.randint(1, 4)
            ne, e = a * m, b * m
        elif style == "asc":
            e, ne = 1 + i * 2 + r.randint(0, 2), 1 + (k - i) * 2 + r.randint(0, 2)
        elif style == "desc":
            e, ne = 1 + (k - i) * 2 + r.randint(0, 2), 1 + i * 2 + r.randint(0, 2)
        elif style == "peak":
            m = k - abs(2 * i - k)
            e, ne = 1 + 2 * m + r.randint(0, 2), 1 + 2 * (k - m) + r.randint(0, 2)
        else:
            m = abs(2 * i - k)
            e, ne = 1 + 2 * m + r.randint(0, 2), 1 + 2 * (k - m) + r.randint(0, 2)
        out.append([ne, e])
    if style == "ties" and r.random() < .7:
        out.sort(key=lambda v: v[1] / (v[0] + v[1]), reverse=r.random() < .5)
    return out


def gen_options(r, k, n_total, heavy=True):
    o = {}
    t = r.choice(TRENDS)
    if t is not None:
        o["monotonic_trend"] = t
    o["divergence"] = r.choice(["iv", "iv", "iv", "js", "hellinger", "triangular"])
    o["solver"] = r.choice(["cp", "cp", "mip"])
    if o["solver"] == "mip" and r.random() < .4:
        o["mip_solver"] = "cbc"
    nc = r.choice([0, 1, 1, 2, 2, 3])
    for c in r.sample(["minb", "maxb", "mins", "maxs", "mine", "maxe", "minne", "maxne", "diff", "pv",
                       "gamma", "bothb", "boths"], nc):
        if c == "minb":
            o.setdefault("min_n_bins", r.randint(1, max(1, k - 1)))
        elif c == "maxb":
            o.setdefault("max_n_bins", r.randint(max(1, o.get("min_n_bins", 1)), k + 1))
        elif c == "bothb":
            a = r.randint(1, k)
            o["min_n_bins"], o["max_n_bins"] = a, r.randint(a, k)
        elif c == "mins":
            if "max_bin_size" not in o:
                o.setdefault("min_bin_size", r.choice([2, 5, 8, 10, 13, 20]) / 64)
        elif c == "maxs":
            if "min_bin_size" not in o:
                o.setdefault("max_bin_size", r.choice([13, 20, 30, 40, 50]) / 64)
        elif c == "boths":
            o["min_bin_size"], o["max_bin_size"] = r.choice([(3, 30), (8, 40), (12, 25), (2, 55), (5, 20)])
            o["min_bin_size"] /= 64
            o["max_bin_size"] /= 64
        elif c == "mine":
            o.setdefault("min_bin_n_event", r.randint(1, 6))
        elif c == "maxe":
            o.setdefault("max_bin_n_event", r.randint(max(3, o.get("min_bin_n_event", 1)), 25))
        elif c == "minne":
            o.setdefault("min_bin_n_nonevent", r.randint(1, 6))
        elif c == "maxne":
            o.setdefault("max_bin_n_nonevent", r.randint(max(3, o.get("min_bin_n_nonevent", 1)), 25))
        elif c == "diff":
            o["min_event_rate_diff"] = r.choice([.03125, .0625, .125, .25])
        elif c == "pv":
            o["max_pvalue"] = r.choice(PVALS)
            o["max_pvalue_policy"] = r.choice(["all", "consecutive"])
        elif c == "gamma":
            o["gamma"] = r.choice([.125, .5, 1, 3])
    for a, b in (("min_bin_n_event", "max_bin_n_event"), ("min_bin_n_nonevent", "max_bin_n_nonevent"),
                 ("min_n_bins", "max_n_bins")):
        if a in o and b in o and o[a] > o[b]:
            o[a] = o[b]
    return o


def gen(r, k, tier):
    nb = r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7] if tier == "quick" else [2, 3, 4, 5, 6, 7, 8])
    style = r.choice(["rand", "rand", "rand", "zero", "asc", "desc", "peak", "valley", "ties"])
    hi = r.choice([4, 8, 14])
    # distinct values per pre-bin
    vals = []
    for b, (ne, e) in enumerate(profile(r, nb, style, hi)):
        m = r.choice([1, 1, 2, 3])
        parts = [[0, 0] for _ in range(m)]
        for _ in range(ne):
            parts[r.randrange(m)][0] += 1
        for _ in range(e):
            parts[r.randrange(m)][1] += 1
        for q in parts:
            vals.append([b] + q)
    if r.random() < .85 and not (sum(v[1] for v in vals) and sum(v[2] for v in vals)):
        vals[0][1] += 1
        vals[-1][2] += 1
    scale = r.choice(["int", "int", "affine", "float", "big", "neg"])
    n = len(vals)
    if scale == "int":
        xs = [float(i) for i in range(n)]
    elif scale == "affine":
        xs = [-5.5 + .25 * i for i in range(n)]
    elif scale == "float":
        s, xs = r.uniform(-3, 3), []
        for _ in range(n):
            s += r.uniform(.001, 2)
            xs.append(s)
    elif scale == "big":
        xs = [1e6 + 1000. * i for i in range(n)]
    else:
        xs = [-float(n - i) for i in range(n)]
    # candidate splits between pre-bins: on the value (closed left) or between values
    cand = []
    for i in range(1, n):
        if vals[i][0] != vals[i - 1][0]:
            cand.append(xs[i] if r.random() < .45 else (xs[i] + xs[i - 1]) / 2)
    u = r.random()
    if u < .05:
        cand.append(xs[-1] + 10)
    elif u < .10:
        cand.append(xs[0] - 10)
    elif u < .14 and n > 1:
        cand.append(xs[0])
    elif u < .18 and n > 1 and cand:
        i = r.randrange(n - 1)
        cand.append(xs[i] + (xs[i + 1] - xs[i]) * .75)
    cand = sorted(set(cand))
    if not cand:
        cand = [xs[0] + .5]
    if len(cand) > 8:
        cand = cand[:8]
    order = list(range(len(cand)))
    if r.random() < .3:
        r.shuffle(order)
    clean = [[xs[i], vals[i][1], vals[i][2]] for i in range(n) if vals[i][1] + vals[i][2]]
    if not clean:
        clean = [[xs[0], 1, 1]]
    # specials
    kind = r.choice(["none", "none", "list", "array", "dict", "dict"])
    used = set(c[0] for c in clean)
    pool = [s for s in SPECIAL_POOL if s not in used]
    mid = [c for c in used]
    if r.random() < .3 and len(clean) > 3:
        # a special code lying inside the clean range
        c = r.choice(clean[1:-1])
        clean.remove(c)
        pool.insert(0, c[0])
    groups = []
    if kind != "none" and pool:
        ng = 1 if kind != "dict" else r.randint(1, min(3, len(pool)))
        for gi in range(ng):
            m = 1 if (kind == "dict" and r.random() < .6) else 2
            codes = [pool.pop(0) for _ in range(min(m, len(pool)))]
            if codes:
                groups.append(codes)
    if not groups:
        kind = "none"
    spc = []
    for codes in groups:
        row = []
        for c in codes:
            row.append([c, r.choice([0, 1, 2, 4]), r.choice([0, 1, 2, 3])])
        spc.append(row)
    nan = [r.choice([0, 0, 1, 3]), r.choice([0, 0, 1, 2])] if r.random() < .6 else [0, 0]
    tot = sum(c[1] + c[2] for c in clean) + sum(nan)
    opts = gen_options(r, len(cand) + 1, tot)
    if style in ("asc", "desc", "peak", "valley") and r.random() < .4:
        t = {"asc": "ascending", "desc": "descending"}.get(style, style)
        opts["monotonic_trend"] = r.choice([t, t, t, {"peak": "concave", "valley": "convex"}.get(t, t),
                                            {"peak": "peak_heuristic", "valley": "valley_heuristic"}.get(t, t)])
    if style == "ties" and r.random() < .6:
        opts["solver"] = "mip"
        if r.random() < .6:
            for q in ("max_n_bins", "max_pvalue", "max_pvalue_policy", "min_event_rate_diff", "min_bin_size", "max_bin_size"):
                opts.pop(q, None)
            opts["min_n_bins"] = len(cand) + 1
    if r.random() < .06:
        opts["split_digits"] = r.choice([0, 1, 2, 4])
    fixed = None
    if r.random() < .22:
        fixed = [r.random() < .4 for _ in cand]
    wmode = r.choice(["none"] * 6 + ["sw", "cw", "both"])
    xtype = r.choice(["float", "float", "series", "list", "f32", "int", "oddindex"])
    if xtype == "int" and (scale not in ("int", "neg", "big") or sum(nan)):
        xtype = "float"
    if xtype == "int" and any(c != int(c) for g in groups for c in g):
        xtype = "float"
    if xtype == "f32" and scale == "float":
        xtype = "float"
    return dict(clean=clean, cand=[cand[i] for i in order], fixed=[fixed[i] for i in order] if fixed else None,
                spk=kind, spc=spc, nan=nan, opts=opts, wmode=wmode, xtype=xtype,
                ytype=r.choice(["int", "int", "bool", "float", "series"]),
                spnames=r.sample(["zeta", "beta", "Special", "Alpha", "9", "m"], len(spc)),
                spscalar=[r.random() < .5 for _ in spc],
                check_input=r.random() < .3, seed=r.randrange(10**6),
                tdig=r.choice([0, 2, 5, 8]))


MC_OPTS = {"none": {}, "minb": {"min_n_bins": 3}, "maxb": {"max_n_bins": 2}, "mins": {"min_bin_size": 12},
           "maxs": {"max_bin_size": 17}, "mine": {"min_bin_n_event": 4}, "maxne": {"max_bin_n_nonevent": 10},
           "diff": {"min_event_rate_diff": .2}, "pvc": {"max_pvalue": .2, "max_pvalue_policy": "consecutive"},
           "pva": {"max_pvalue": .2, "max_pvalue_policy": "all"},
           "both": {"min_n_bins": 2, "max_bin_size": 25, "min_event_rate_diff": .0625},
           "gamma": {"gamma": .5}, "fixed": {}}


def from_scenario(s, k):
    """A world enumerated by MC_Bin1D: its pre-bins, trend and option set."""
    import random
    r = random.Random(repr(s))
    pb = s["pb"]
    n = len(pb)
    opts = dict(MC_OPTS[s["op"]])
    tot = sum(map(sum, pb))
    for q in ("min_bin_size", "max_bin_size"):
        if q in opts:
            opts[q] = min(32 if q == "min_bin_size" else 64, max(1, int(round(opts[q] * 64. / tot)))) / 64
    if s["tr"] != "none":
        opts["monotonic_trend"] = s["tr"]
    opts["solver"] = r.choice(["cp", "mip"])
    if opts["solver"] == "mip" and r.random() < .4:
        opts["mip_solver"] = "cbc"
    opts["divergence"] = r.choice(["iv", "iv", "iv", "js", "hellinger", "triangular"])
    fixed = None
    if s["op"] == "fixed":
        j = r.randrange(n - 1)
        fixed = [i == j for i in range(n - 1)]
    return dict(clean=[[float(i), a, b] for i, (a, b) in enumerate(pb)], cand=[i + .5 for i in range(n - 1)],
                fixed=fixed, spk="none", spc=[], nan=[0, 0], opts=opts, wmode="none", xtype="float", ytype="int",
                spnames=[], spscalar=[], check_input=False, seed=r.randrange(10**6), tdig=5)


def build_arrays(p):
    """records -> x, y, w arrays (shuffled)."""
    rs = np.random.RandomState(p["seed"])
    rows = []
    for x, ne, e in p["clean"]:
        rows += [(x, 0)] * ne + [(x, 1)] * e
    for g in p["spc"]:
        for c, ne, e in g:
            rows += [(c, 0)] * ne + [(c, 1)] * e
    rows += [(np.nan, 0)] * p["nan"][0] + [(np.nan, 1)] * p["nan"][1]
    idx = rs.permutation(len(rows))
    x = np.array([rows[i][0] for i in idx], dtype=float)
    y = np.array([rows[i][1] for i in idx], dtype=int)
    w = None
    if p["wmode"] in ("sw", "both"):
        w = rs.randint(1, 4, size=len(rows)).astype(float)
    return x, y, w


def special_arg(p):
    if p["spk"] == "none":
        return None
    groups = [[c[0] for c in g] for g in p["spc"]]
    if p["spk"] == "list":
        return [c for g in groups for c in g]
    if p["spk"] == "array":
        return np.array([c for g in groups for c in g])
    d = {}
    names = p.get("spnames") or ["sp%d" % i for i in range(len(groups))]
    for i, g in enumerate(groups):
        if len(g) == 1 and p["spscalar"][i]:
            d[names[i]] = g[0]
        elif i % 2:
            d[names[i]] = np.array(g)
        else:
            d[names[i]] = list(g)
    return d


def cast_x(x, p):
    t = p["xtype"]
    if t == "series":
        return pd.Series(x)
    if t == "oddindex":
        return pd.Series(x, index=[(7 * i) % (len(x) + 3) - 5 for i in range(len(x))])
    if t == "list":
        return list(x)
    if t == "f32":
        return x.astype(np.float32)
    if t == "int":
        return x.astype(int)
    return x


def cast_y(y, p):
    t = p["ytype"]
    if t == "bool":
        return y.astype(bool)
    if t == "float":
        return y.astype(float)
    if t == "series":
        return pd.Series(y, index=[(5 * i) % (len(y) + 2) + 1 for i in range(len(y))])
    return y


def weights(y, w, p):
    cw = {0: 2, 1: 3} if p["wmode"] in ("cw", "both") else None
    ww = np.ones(len(y)) if w is None else w.copy()
    if cw:
        ww = ww * np.where(y == 0, 2, 3)
    return ww, cw


def label_rows(labels, s):
    return [i + 1 for i, l in enumerate(labels) if l == s]


Z0SQ = {0.05: 3841459, 0.1: 2705543, 0.2: 1642374, 0.3: 1074194, 0.5: 454936}


def spec_opts(o, nsamp):
    """Options as given, in integers (fractions in 1/64 units; -1 = not set)."""
    g = lambda k: -1 if o.get(k) is None else o[k]
    f = lambda k: -1 if o.get(k) is None else int(round(o[k] * 64))
    return dict(minb=g("min_n_bins"), maxb=g("max_n_bins"), f_mins=f("min_bin_size"), f_maxs=f("max_bin_size"),
                mine=g("min_bin_n_event"), maxe=g("max_bin_n_event"),
                minne=g("min_bin_n_nonevent"), maxne=g("max_bin_n_nonevent"),
                diff=int(round(o.get("min_event_rate_diff", 0) * 10**6)),
                z0sq=Z0SQ[o["max_pvalue"]] if o.get("max_pvalue") else 0,
                polall=1 if o.get("max_pvalue_policy", "consecutive") == "all" else 0,
                gamma=int(round(o.get("gamma", 0) * 1000)),
                div=o.get("divergence", "iv"), trend=o.get("monotonic_trend") or "none",
                mip=1 if o.get("solver") == "mip" else 0, ns=nsamp)


def run(p):
    from optbinning import OptimalBinning
    x, y, w = build_arrays(p)
    ww, cw = weights(y, w, p)
    nsamp = len(x)
    kw = dict(p["opts"])
    kw.setdefault("monotonic_trend", None)
    if cw:
        kw["class_weight"] = cw
    sp = special_arg(p)
    xin, yin = cast_x(x, p), cast_y(y, p)
    # the projection uses the values the library was given
    ob = OptimalBinning(name="v", dtype="numerical", user_splits=list(p["cand"]),
                        user_splits_fixed=None if p["fixed"] is None else list(p["fixed"]),
                        special_codes=sp, **vb(p["seed"]), **kw)
    rec = dict(kind="b1", exc="", o=spec_opts(p["opts"], nsamp))
    cand = sorted(p["cand"])
    order = np.argsort(p["cand"])
    fixed = [i + 1 for i, j in enumerate(order) if p["fixed"] and p["fixed"][j]]
    if "split_digits" in p["opts"]:
        cand = [float(v) for v in np.round(np.array(cand), p["opts"]["split_digits"])]
    spcodes = [c[0] for g in p["spc"] for c in g]
    rec["hasfixed"] = 1 if p["fixed"] is not None else 0
    rec["fixed"] = fixed
    try:
        ob.fit(xin, yin, sample_weight=w, check_input=p["check_input"])
        status, splits = ob.status, [float(s) for s in ob.splits]
    except Exception as e:
        rec["exc"] = exc_name(e)
        status, splits = "", []
    rec["status"] = status
    # universe
    clean_vals = sorted(set(v for v in x[~np.isnan(x)] if v not in spcodes))
    probes_v = []
    uni0 = sorted(set(clean_vals) | set(cand) | set(splits))
    probes_v += uni0
    probes_v += [(a + b) / 2 for a, b in zip(uni0, uni0[1:])]
    if uni0:
        probes_v += [uni0[0] - 3.5, uni0[-1] + 3.5, -1e12, 1e12]
    probes_v = [v for v in dict.fromkeys(probes_v) if v not in spcodes]
    rs = np.random.RandomState(p["seed"] + 1)
    if len(probes_v) > 26:
        probes_v = [probes_v[i] for i in sorted(rs.choice(len(probes_v), 26, replace=False))]
    uni = sorted(set(uni0) | set(probes_v))
    pos = {v: i + 1 for i, v in enumerate(uni)}
    rec["vals"] = [[pos[v], cnt(ww[(x == v) & (y == 0)].sum()), cnt(ww[(x == v) & (y == 1)].sum())]
                   for v in clean_vals]
    rec["cand"] = [pos[v] for v in cand]
    rec["spl"] = [pos[v] for v in splits]
    rec["sp"] = [[[cnt(ww[(x == c) & (y == 0)].sum()), cnt(ww[(x == c) & (y == 1)].sum())] for c, _, _ in g]
                 for g in p["spc"]]
    rec["spdict"] = 1 if p["spk"] == "dict" else 0
    m = np.isnan(x)
    rec["miss"] = [cnt(ww[m & (y == 0)].sum()), cnt(ww[m & (y == 1)].sum())]
    rec["wtot"] = cnt(ww.sum())
    rec["nsamp"] = nsamp
    rec["weighted"] = 0 if p["wmode"] == "none" else 1
    rec["tab"], rec["tot"], rec["probe"], rec["an"] = [], [], [], []
    rec["triv"] = 1 if rec["exc"] or len(splits) == 0 else 0
    cov = [p["opts"].get("monotonic_trend") or "notrend", p["opts"]["divergence"], p["opts"]["solver"], "sp:" + p["spk"],
           "status:" + (status or rec["exc"])]
    rec["cov"] = cov
    if rec["exc"]:
        return rec
    observe_table(ob, rec, p)
    observe_transform(ob, rec, p, probes_v, pos, spcodes)
    return rec


def table_rows(df):
    out = []
    for _, r in df.iterrows():
        out.append([cnt(r["Count"]), cnt(r["Non-event"]), cnt(r["Event"]), mic(r["Count (%)"]),
                    mic(r["Event rate"]), mic(r["WoE"]) if r["WoE"] != "" else 2000000004,
                    mic(r["IV"]), mic(r["JS"])])
    return out


TREND_NAMES = ["ascending", "descending", "peak (concave)", "peak", "valley (convex)", "valley",
               "no monotonic", "undefined"]


def observe_table(ob, rec, p):
    bt = ob.binning_table
    df = bt.build(show_digits=p["tdig"], add_totals=True)
    rows = table_rows(df)
    rec["tab"], rec["tot"] = rows[:-1], rows[-1]
    df2 = ob.binning_table.build(show_digits=(p["tdig"] + 1) % 9, add_totals=False)
    rec["same"] = 1 if table_rows(df2) == rows[:-1] else 0
    an = dict(gini=mic(bt.gini), iv=mic(bt.iv), js=mic(bt.js), hel=mic(bt.hellinger), tri=mic(bt.triangular),
              ks=mic(bt.ks))
    import contextlib
    import io
    buf = io.StringIO()
    an["done"] = 0
    for test in ("chi2", "fisher"):
        if test == "fisher" and p["seed"] % 3:
            continue
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                bt.analysis(pvalue_test=test, n_samples=20, print_output=True)
        except ValueError as e:
            # chi-square of degenerate tables (zero row/column) is refused by scipy
            an["exc"] = "ValueError"
            break
        txt = buf.getvalue()
        an.update(parse_analysis(txt, test))
        an["done"] = 1
        an["qs"] = mic(bt.quality_score)
    rec["an"] = [an]


def parse_analysis(txt, test):
    import re
    d = {}
    num = lambda key: re.search(re.escape(key) + r"\s+(-?[\d.]+|nan|inf)", txt)
    for key, name in (("Gini index", "r_gini"), ("IV (Jeffrey)", "r_iv"), ("JS (Jensen-Shannon)", "r_js"),
                      ("Hellinger", "r_hel"), ("Triangular", "r_tri"), ("KS", "r_ks"), ("HHI ", "hhi"),
                      ("HHI (normalized)", "hhin"), ("Cramer's V", "cramer"), ("Quality score", "r_qs")):
        mm = num(key)
        d[name] = mic(float(mm.group(1))) if mm else 2000000004
    mm = re.search(r"Monotonic trend\s+(.*)", txt)
    d["trend"] = mm.group(1).strip() if mm else ""
    tests = []
    if "Significance tests" in txt:
        for l in txt.split("Significance tests")[1].splitlines():
            q = l.split()
            if len(q) == 6 and q[0].isdigit():
                tests.append([int(q[0]), int(q[1])] + [mic(float(v)) for v in q[2:]])
    d["tests_" + test] = tests
    return d


def observe_transform(ob, rec, p, probes_v, pos, spcodes):
    rs = np.random.RandomState(p["seed"] + 2)
    df = ob.binning_table.build(show_digits=p["tdig"], add_totals=False)
    labels = [str(v) for v in df["Bin"]]
    combos = [(0, 0), ("empirical", "empirical"), ("empirical", -2.5), (1.25, "empirical"), (7, -3)]
    ci = rs.choice(len(combos), 2, replace=False)
    pr = [("c", pos[v], v) for v in probes_v]
    for gi, g in enumerate(p["spc"]):
        for c, _, _ in g:
            pr.append(("s", gi + 1, c))
    pr.append(("m", 0, np.nan))
    idx = rs.permutation(len(pr))
    pr = [pr[i] for i in idx]
    vec = np.array([q[2] for q in pr], dtype=float)
    vin = vec
    if p["xtype"] == "series":
        vin = pd.Series(vec)
    elif p["xtype"] == "list":
        vin = list(vec)
    out = []
    res = {}
    for c in ci:
        ms, mm = combos[c]
        for metric in ("woe", "event_rate", "indices", "bins"):
            try:
                res[c, metric] = ob.transform(vin, metric=metric, metric_special=ms, metric_missing=mm,
                                              show_digits=p["tdig"], check_input=p["check_input"])
            except Exception as e:
                res[c, metric] = exc_name(e)
    # independence of the other elements: transform each alone for one combination
    alone = []
    for q in pr[:6]:
        try:
            a = ob.transform(np.array([q[2]]), metric="woe", metric_special=combos[ci[0]][0],
                             metric_missing=combos[ci[0]][1])
            alone.append(mic(a[0]))
        except Exception:
            alone.append(2000000004)
    for c in ci:
        ms, mm = combos[c]
        t = dict(ms=0 if ms == "empirical" else 1, msv=0 if ms == "empirical" else mic(ms),
                 msi=1 if isinstance(ms, int) else 0, mm=0 if mm == "empirical" else 1,
                 mmv=0 if mm == "empirical" else mic(mm), mmi=1 if isinstance(mm, int) else 0, exc="", rows=[])
        for metric in ("woe", "event_rate", "indices", "bins"):
            if isinstance(res[c, metric], str):
                t["exc"] = res[c, metric]
        if not t["exc"]:
            for i, q in enumerate(pr):
                t["rows"].append([{"c": 0, "s": 1, "m": 2}[q[0]], q[1], mic(res[c, "woe"][i]),
                                  mic(res[c, "event_rate"][i]), cnt(res[c, "indices"][i]),
                                  label_rows(labels, str(res[c, "bins"][i]))])
        out.append(t)
    rec["probe"] = out
    rec["alone"] = alone
