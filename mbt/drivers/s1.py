"""OptimalBinningSketch: histories of add, merge and solve over several sketches."""
import numpy as np
import pandas as pd

from ..obs import mic, cnt, exc_name, vb
from . import b1

CATS = ["a", "B", "c c", "d", "E", "f1", "g", "hh"]
SPEC = -999.0


def gen_chunk(r, toks, style, m):
    """counts per token of <<non-event, event>>"""
    nt = len(toks)
    out = [[0, 0] for _ in toks]
    clean = [i for i in range(nt) if toks[i] == 0]
    for i in range(nt):
        if toks[i] == 0:
            if style == "all" or (style == "part" and r.random() < .5):
                out[i] = [r.randint(0, m), r.randint(0, m)]
            elif style == "low" and i in clean[:len(clean) // 2 + 1]:
                out[i] = [r.randint(0, m), r.randint(0, m)]
            elif style == "event":
                out[i] = [0, r.randint(0, m)]
            elif style == "nonevent":
                out[i] = [r.randint(0, m), 0]
        elif toks[i] == 1 and style in ("all", "special", "part"):
            out[i] = [r.randint(0, 2), r.randint(0, 3)] if style == "special" or r.random() < .5 else [0, 0]
        elif toks[i] == 2 and style in ("all", "missing", "part"):
            out[i] = [r.randint(0, 3), r.randint(0, 2)] if style == "missing" or r.random() < .5 else [0, 0]
    if style == "tie" and clean:
        for i in clean:
            a, b = r.choice([(1, 1), (2, 2), (1, 2), (2, 4), (3, 1)])
            out[i] = [a, b]
    return out


STYLES = ["all", "all", "all", "all", "part", "part", "low", "event", "nonevent", "special", "missing", "empty", "tie"]


def gen_base(r, tier):
    num = r.random() < .6
    nv = r.randint(2, 7)
    toks = [0] * nv
    special = r.random() < .6
    if special:
        toks.append(1)
        if r.random() < .4:
            toks.append(1)
    toks.append(2)
    p = dict(dtype="numerical" if num else "categorical", toks=toks, special=special, seed=r.randrange(10**6))
    xs = sorted(r.sample(range(-20, 20), nv)) if r.random() < .5 else [i * .5 - 1 for i in range(nv)]
    p["xs"] = [float(v) for v in xs]
    p["cats"] = r.sample(CATS, nv)
    p["approx"] = num and r.random() < .2
    p["eps"] = r.choice([.25, .125, .0625]) if p["approx"] else r.choice([1e-4, .001])
    o = b1.gen_options(r, min(nv, 5), 0)
    o.pop("mip_solver", None)
    if r.random() < .4:
        for q in [q for q in o if q.startswith("min_bin") or q.startswith("max_bin") or q in ("max_pvalue", "min_event_rate_diff")]:
            o.pop(q)
    if not num and r.random() < .5:
        o["cat_cutoff"] = r.choice([.03125, .0625, .125, .25])
    if not num and r.random() < .3:
        o["cat_heuristic"] = True
    if num and r.random() < .3:
        o["split_digits"] = r.choice([0, 0, 1, 3])
    o["max_n_prebins"] = r.choice([2, 4, 8, 16]) if num else r.choice([2, 3, 4, 20])
    p["opts"] = o
    p["tdig"] = r.choice([0, 2, 5])
    p["ytype"] = r.choice(["int", "float", "bool", "series"])
    p["xtype"] = r.choice(["float", "series", "list"])
    p["check_input"] = r.random() < .3
    p["sparg"] = r.choice(["list", "array"])
    return p


def gen(r, k, tier):
    p = gen_base(r, tier)
    ns = r.choice([1, 2, 2, 3])
    m = r.choice([2, 4, 6]) if not p["approx"] else r.choice([4, 8, 12])
    ops = []
    if r.random() < .35:
        # the same data through two different histories
        ch = [gen_chunk(r, p["toks"], r.choice(["all", "part", "tie", "special", "missing", "low"]), m) for _ in range(r.randint(1, 3))]
        ns = 3
        ops += [["add", 0, c] for c in ch]
        perm = list(range(len(ch)))
        r.shuffle(perm)
        for i in perm:
            if r.random() < .4:
                ops.append(["add", 1, ch[i]])
            else:
                ops += [["add", 2, ch[i]]]
        ops += [["merge", 1, 2]]
        ops += [["solve", 0], ["solve", 1]]
        if r.random() < .5:
            ops += [["add", 1, gen_chunk(r, p["toks"], "all", m)], ["solve", 2], ["solve", 1]]
    else:
        for _ in range(r.randint(2, 8)):
            u = r.random()
            a = r.randrange(ns)
            if u < .55 or ns == 1 and u < .75:
                ops.append(["add", a, gen_chunk(r, p["toks"], r.choice(STYLES), m)])
            elif u < .78:
                b = r.randrange(ns)
                if a != b:
                    ops.append(["merge", a, b])
            else:
                ops.append(["solve", a])
        ops.append(["solve", r.randrange(ns)])
    p["ns"], p["ops"] = ns, ops
    return p


def from_scenario(s, k):
    """A history enumerated by the specification (MC_Sketch)."""
    from ..obs import rng_for
    r = rng_for(7, "s1scen", k)
    p = gen_base(r, "quick")
    p["approx"] = False
    p["eps"] = 1e-4
    kinds = {"mix": "all", "miss": "missing", "spec": "special", "event": "event", "none": "empty"}
    ops = []
    for o in s["hist"]:
        if o[0] == "add":
            ops.append(["add", o[1] - 1, gen_chunk(r, p["toks"], kinds[o[2]], 5)])
        elif o[0] == "merge":
            ops.append(["merge", o[1] - 1, o[2] - 1])
        else:
            ops.append(["solve", o[1] - 1])
    p["ns"], p["ops"] = s["ns"], ops
    return p


def token_value(p, i):
    t = p["toks"][i]
    num = p["dtype"] == "numerical"
    if t == 0:
        return p["xs"][i] if num else p["cats"][i]
    if t == 1:
        first = p["toks"].index(1)
        return [SPEC, 7777.0][i - first] if num else ["SP", "SQ"][i - first]
    return np.nan


def chunk_arrays(p, ch, rs):
    rows = []
    for i, (ne, e) in enumerate(ch):
        rows += [(i, 0)] * ne + [(i, 1)] * e
    idx = rs.permutation(len(rows))
    xv = [token_value(p, rows[i][0]) for i in idx]
    x = np.array(xv, dtype=float) if p["dtype"] == "numerical" else np.array(xv, dtype=object)
    y = np.array([rows[i][1] for i in idx], dtype=int)
    if p["xtype"] == "series":
        x = pd.Series(x)
    y = b1.cast_y(y, p)
    return x, y


def run(p):
    from optbinning.binning.distributed import OptimalBinningSketch
    rs = np.random.RandomState(p["seed"])
    kw = dict(p["opts"])
    kw.setdefault("monotonic_trend", None)
    codes = None
    if p["special"]:
        codes = [token_value(p, i) for i in range(len(p["toks"])) if p["toks"][i] == 1]
    arg = lambda: None if codes is None else (np.array(codes, dtype=None if p["dtype"] == "numerical" else object)
                                      if p["sparg"] == "array" else list(codes))
    sks = [OptimalBinningSketch(name="v", dtype=p["dtype"], eps=p["eps"], special_codes=arg(), **vb(p["seed"]), **kw) for _ in range(p["ns"])]
    num = p["dtype"] == "numerical"
    rec = dict(kind="s1", num=1 if num else 0, ns=p["ns"], toks=p["toks"], exc="", o=b1.spec_opts(p["opts"], 0),
               inv_eps=int(round(1 / p["eps"])), npre=p["opts"]["max_n_prebins"],
               cutoff=int(p["opts"].get("cat_cutoff", 0) * 64), heur=1 if p["opts"].get("cat_heuristic") else 0, ops=[])
    rec["o"]["trend"] = rec["o"]["trend"] if num else ("ascending" if rec["o"]["trend"] != "none" else "none")
    # position of every value once rounded as a split
    dg = p["opts"].get("split_digits")
    rec["rnd"] = [posx(p["xs"], float(v if dg is None else np.round(v, dg))) for v in p["xs"]] if num else []
    nsolve = 0
    for op in p["ops"]:
        e = dict(k=op[0], a=op[1] + 1, b=0, ch=[], exc="", obs=[], sol=[])
        try:
            if op[0] == "add":
                e["ch"] = op[2]
                x, y = chunk_arrays(p, op[2], rs)
                sks[op[1]].add(x, y, check_input=p["check_input"] and len(x) > 0)
            elif op[0] == "merge":
                e["b"] = op[2] + 1
                sks[op[1]].merge(sks[op[2]])
            else:
                sks[op[1]].solve()
                e["sol"] = [solved(sks[op[1]], p, num)]
                nsolve += 1
        except Exception as ex:
            e["exc"] = exc_name(ex)
        for s in sks:
            b = getattr(s, "_bsketch", 0)
            e["obs"].append([] if b == 0 else [0, 0, 0] if b is None else [cnt(b.n), cnt(b.n_nonevent), cnt(b.n_event)])
        rec["ops"].append(e)
        if e["exc"] and op[0] != "solve":
            break
    rec["triv"] = 0 if any(o["sol"] and o["sol"][0]["spl"] for o in rec["ops"]) else 1
    rec["cov"] = [p["dtype"], "approx" if p["approx"] else "exact", "solves%d" % nsolve] + \
        sorted(set(o[0] for o in p["ops"])) + [p["opts"]["divergence"]]
    return rec


def posx(xs, v):
    for i, q in enumerate(xs):
        if v == q:
            return 2 * (i + 1)
        if v < q:
            return 2 * i + 1
    return 2 * len(xs) + 1


def solved(sk, p, num):
    s = dict(status=sk.status, tab=[], tot=[], same=1, spl=[], groups=[], vals=[], probe=[], alone=[], info=1)
    bt = sk.binning_table
    df = bt.build(show_digits=p["tdig"], add_totals=True)
    rows = b1.table_rows(df)
    s["tab"], s["tot"] = rows[:-1], rows[-1]
    s["same"] = 1 if b1.table_rows(sk.binning_table.build(add_totals=False)) == rows[:-1] else 0
    # positions: value i has 2*i, between values odd
    xs = p["xs"]
    pos = lambda v: posx(xs, v)
    nclean = p["toks"].count(0)
    labels = [str(v) for v in bt.build(show_digits=p["tdig"], add_totals=False)["Bin"]]
    if num:
        s["spl"] = [pos(float(v)) for v in sk.splits]
        pr = [(0, pos(v), v) for v in xs] + [(0, pos(v), v) for v in (xs[0] - 3.5, xs[-1] + 3.5, (xs[0] + xs[1]) / 2)]
        pr = [q for q in pr if all(abs(q[2] - t) > 1e-6 or q[2] == t for t in sk.splits)]
    else:
        s["groups"] = [sorted(p["cats"].index(str(v)) + 1 for v in g) for g in sk.splits]
        s["spl"] = s["groups"][1:]
        pr = [(0, i + 1, c) for i, c in enumerate(p["cats"])] + [(3, 0, "never seen")]
    for i, t in enumerate(p["toks"]):
        if t:
            pr.append((t, 1, token_value(p, i)))
    vec = np.array([q[2] for q in pr], dtype=float if num else object)
    for ms, mm in ((0, 0), ("empirical", "empirical"), (7, -3)):
        t = dict(ms=0 if ms == "empirical" else 1, msv=0 if ms == "empirical" else mic(ms),
                 msi=1 if isinstance(ms, int) else 0, mm=0 if mm == "empirical" else 1,
                 mmv=0 if mm == "empirical" else mic(mm), mmi=1 if isinstance(mm, int) else 0, exc="", rows=[])
        try:
            res = {m: sk.transform(vec, metric=m, metric_special=ms, metric_missing=mm, show_digits=p["tdig"])
                   for m in ("woe", "event_rate", "indices", "bins")}
            for i, q in enumerate(pr):
                t["rows"].append([q[0], q[1], mic(res["woe"][i]), mic(res["event_rate"][i]), cnt(res["indices"][i]),
                                  b1.label_rows(labels, str(res["bins"][i]))])
        except Exception as ex:
            t["exc"] = exc_name(ex)
        s["probe"].append(t)
    try:
        sk.information(print_level=2)
    except Exception:
        s["info"] = 0
    return s
