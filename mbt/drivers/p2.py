"""BinningProcessSketch: histories of add, merge, solve and queries; every variable
against a stand-alone sketch fed with the same chunks."""
import contextlib
import io
import re

import numpy as np
import pandas as pd

from ..obs import mic, cnt, exc_name
from . import p1

TM = ["woe", "event_rate", "indices", "bins"]


def gen(r, k, tier):
    while True:
        p = p1.gen_base(r, k)
        if p["target"] == "binary":
            break
    p["base"].pop("min_prebin_size", None)
    if p["special"] == "dict":
        p["special"] = "list"
    for q in (p["fit_params"] or {}).values():
        q.pop("user_splits", None)
        q.pop("special_codes", None)
    for v in p["vars"]:
        v["miss"] = v["miss"] and .1
    p["ns"] = r.choice([1, 2, 2, 3])
    p["n"] = r.choice([60, 120, 200])
    ops = []
    if r.random() < .1:
        ops.append(query(r, 0))
    nch = r.randint(1, 4)
    cuts = sorted(r.sample(range(5, p["n"] - 5), nch - 1)) if nch > 1 else []
    bounds = [0] + cuts + [p["n"]]
    for i in range(nch):
        cols = None
        if r.random() < .12:
            cols = sorted(r.sample(range(len(p["vars"])), r.randint(1, len(p["vars"]))))
        ops.append(["add", r.randrange(p["ns"]), bounds[i], bounds[i + 1], cols])
        u = r.random()
        if p["ns"] > 1 and u < .4:
            a, b = r.sample(range(p["ns"]), 2)
            ops.append(["merge", a, b])
        elif u < .55:
            ops.append(["solve", r.randrange(p["ns"])])
            ops.append(query(r, ops[-1][1]))
    for a in range(p["ns"]):
        if a == 0 or r.random() < .4:
            if p["ns"] > 1 and r.random() < .7:
                ops.append(["merge", a, r.choice([i for i in range(p["ns"]) if i != a])])
            ops.append(["solve", a])
            for _ in range(r.randint(1, 3)):
                ops.append(query(r, a))
            if r.random() < .2:
                ops.append(["add", a, 0, 7, None])
                ops.append(query(r, a))
    p["ops"] = ops
    return p


def query(r, a):
    u = r.random()
    if u < .2:
        return ["support", a]
    if u < .45:
        return ["summary", a]
    return ["transform", a, r.choice(TM), r.choice([0, "empirical", -3, 1.5]), r.choice([0, "empirical", 4, -.5])]


def observe(ob):
    import json
    bt = ob.binning_table
    df = bt.build(add_totals=False)
    bt.analysis(print_output=False)
    tab = []
    for _, row in df.iterrows():
        tab.append([str(x) if isinstance(x, (str, list, np.ndarray)) else mic(x) for x in row])
    spl = [sorted(str(c) for c in s) if isinstance(s, (list, np.ndarray)) else mic(s) for s in ob.splits]
    return dict(status=ob.status, dtype=ob.dtype, nb=len(ob.splits) + (1 if ob.dtype == "numerical" else 0),
                spl=json.dumps(spl), tab=json.dumps(tab), st=[mic(getattr(bt, m)) for m in p1.METRICS["binary"]])


NOB = dict(status="", dtype="", nb=0, spl="", tab="", st=[])


def run(p):
    with contextlib.redirect_stdout(io.StringIO()):
        return run_in(p)


def run_in(p):
    from optbinning.binning.distributed import BinningProcessSketch, OptimalBinningSketch
    X, y, _ = p1.build(p)
    names = p["names"]
    nv = len(names)
    isc = [v["kind"] in ("cat", "icat") for v in p["vars"]]
    cv = [nm for nm, c in zip(names, isc) if c]
    fp = p["fit_params"] or {}

    def alone():
        out = []
        for i in range(nv):
            o = OptimalBinningSketch(name=names[i], dtype="categorical" if isc[i] else "numerical",
                                     special_codes=p1.codes(p), **p["base"])
            o.set_params(**fp.get(names[i], {}))
            out.append(o)
        return out
    # thresholds around the values of the whole stream
    crit = None
    M = p1.METRICS["binary"]
    uni = {m: set() for m in M}
    if p["crit"] is not None:
        ref = alone()
        vals = {m: [] for m in M}
        for i, o in enumerate(ref):
            try:
                o.add(X[names[i]].values, y)
                o.solve()
                o.binning_table.build()
                o.binning_table.analysis(print_output=False)
                for m in M:
                    v = float(getattr(o.binning_table, m))
                    if np.isfinite(v):
                        vals[m].append(v)
            except Exception:
                pass
        crit = {}
        for m, c in p["crit"].items():
            d = {}
            vs = sorted(vals[m])
            for key in ("min", "max"):
                if key in c and vs:
                    i, how = c[key]
                    v = vs[i % len(vs)]
                    v = {"at": v, "below": v - 1e-6 * (1 + abs(v)), "above": v + 1e-6 * (1 + abs(v))}[how]
                    d[key] = float(min(max(v, 0), 1 if m in ("gini", "quality_score") else np.inf))
                    uni[m].add(d[key])
            if "top" in c:
                d["strategy"], d["top"] = c["strategy"], c["top"]
            if d:
                crit[m] = d
    mk = lambda: BinningProcessSketch(np.array(names) if p["names_arr"] else list(names), selection_criteria=crit,
                                      categorical_variables=cv if cv else None, special_codes=p1.codes(p),
                                      binning_fit_params=p["fit_params"], binning_transform_params=p["trans_params"],
                                      **p["base"])
    ps = [mk() for _ in range(p["ns"])]
    al = [alone() for _ in range(p["ns"])]
    solved = [False] * p["ns"]
    rs = np.random.RandomState(p["seed"] + 1)
    idx = rs.choice(len(X), size=12, replace=False)
    P = X.iloc[idx].copy()
    rec = dict(kind="p2", exc="", nv=nv, ns=p["ns"], ops=[], tp=[], crit=[])
    for nm in names:
        t = (p["trans_params"] or {}).get(nm, {})
        rec["tp"].append([p1.ser(t[q]) if q in t else "-" for q in ("metric", "metric_special", "metric_missing")])
    raw = []
    for o in p["ops"]:
        a = o[1]
        e = dict(k=o[0], a=a + 1, b=0, n=0, m="", ms="", mm="", exc="", aexc="", cur=[], al=[], sup=[], sidx=[], sum=[], cols=[],
                 mat=[], shape=[0, 0], rk=[], own=[], proc=[-1, -1])
        bp = ps[a]
        q = []
        # ---- the same operation on the stand-alone sketches
        try:
            if o[0] == "add":
                D, yy = X.iloc[o[2]:o[3]], y[o[2]:o[3]]
                e["n"] = int(o[3] - o[2])
                for i in range(nv):
                    if o[4] is None or i in o[4]:
                        al[a][i].add(D[names[i]].values, yy)
            elif o[0] == "merge":
                for i in range(nv):
                    al[a][i].merge(al[o[2]][i])
            elif o[0] == "solve":
                for i in range(nv):
                    al[a][i].solve()
                e["al"] = [observe(s) for s in al[a]]
            elif o[0] == "transform" and solved[a]:
                for i in range(nv):
                    t = (p["trans_params"] or {}).get(names[i], {})
                    c = (t.get("metric", o[2]), t.get("metric_special", o[3]), t.get("metric_missing", o[4]))
                    row = []
                    for m, ms, mm in sorted({c, (o[2], o[3], o[4])}, key=str):
                        try:
                            v = p1.jcol(al[a][i].transform(P[names[i]].values, metric=m, metric_special=ms, metric_missing=mm))
                        except Exception as ex:
                            v = exc_name(ex)
                        row.append([p1.ser(m), p1.ser(ms), p1.ser(mm), v])
                    e["own"].append(row)
        except Exception as ex:
            e["aexc"] = exc_name(ex)
        try:
            if o[0] == "add":
                F = D.copy()
                F.insert(0, "unused", 1)
                if o[4] is not None:
                    F = F[["unused"] + [names[i] for i in o[4]]]
                F = F[list(rs.permutation(F.columns))]
                bp.add(F, yy)
            elif o[0] == "merge":
                e["b"] = o[2] + 1
                bp.merge(ps[o[2]])
            elif o[0] == "solve":
                bp.solve()
                solved[a] = True
                e["cur"] = [observe(bp.get_binned_variable(nm)) for nm in names]
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    bp.information(print_level=1)
                mt = re.search(r"Number of records\s+(\d+)", buf.getvalue())
                ma = re.search(r"Add operations\s+(\d+)", buf.getvalue())
                e["proc"] = [int(mt.group(1)) if mt else -1, int(ma.group(1)) if ma else -1]
            elif o[0] == "support":
                e["sup"] = [int(v) for v in bp.get_support()]
                e["sidx"] = [[int(v) + 1 for v in bp.get_support(indices=True)],
                             [names.index(str(v)) + 1 for v in bp.get_support(names=True)]]
            elif o[0] == "summary":
                s = bp.summary()
                for _, w in s.iterrows():
                    e["sum"].append([names.index(w["name"]) + 1, w["dtype"], w["status"], int(bool(w["selected"])),
                                     cnt(w["n_bins"]), [mic(w[m]) for m in M]])
            else:
                e["m"], e["ms"], e["mm"] = p1.ser(o[2]), p1.ser(o[3]), p1.ser(o[4])
                Q = P.copy()
                Q.insert(0, "extra", 1.0)
                Q = Q[list(rs.permutation(Q.columns))]
                R = bp.transform(Q, metric=o[2], metric_special=o[3], metric_missing=o[4])
                if isinstance(R, pd.DataFrame):
                    e["cols"] = [names.index(c) + 1 if c in names else 0 for c in R.columns]
                    e["mat"] = [p1.jcol(R[c].values) for c in R.columns]
                    e["shape"] = list(R.shape)
        except Exception as ex:
            e["exc"] = exc_name(ex)
        if o[0] in ("support", "summary", "transform") and solved[a]:
            for nm in names:
                try:
                    q.append([float(getattr(bp.get_binned_variable(nm).binning_table, m)) for m in M])
                except Exception:
                    q.append([float("nan")] * len(M))
        raw.append(q)
        rec["ops"].append(e)
        if o[0] == "solve" and e["exc"]:
            break
    for q in raw:
        for v in q:
            for m, x in zip(M, v):
                if np.isfinite(x):
                    uni[m].add(x)
    rank = {m: {x: i + 1 for i, x in enumerate(sorted(s))} for m, s in uni.items()}
    for e, q in zip(rec["ops"], raw):
        e["rk"] = [[rank[m].get(x, 0) for m, x in zip(M, v)] for v in q]
    for m in M:
        c = (crit or {}).get(m, {})
        top = c.get("top")
        rec["crit"].append(dict(on=1 if c else 0, min=rank[m][c["min"]] if "min" in c else 0,
                                max=rank[m][c["max"]] if "max" in c else 10**6,
                                strat=c.get("strategy", ""), top=0 if top is None else (top if isinstance(top, int) else 0),
                                frac=0 if top is None or isinstance(top, int) else int(top * 4)))
    rec["triv"] = 0 if any(e["k"] == "solve" and e["exc"] == "" for e in rec["ops"]) else 1
    rec["cov"] = sorted(set(o[0] for o in p["ops"])) + (["criteria"] if crit else []) + (["ns%d" % p["ns"]])
    return rec
