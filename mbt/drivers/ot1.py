"""Outlier detectors alone, and inside every binning that accepts one."""
import numpy as np
import pandas as pd

from ..obs import cnt, exc_name, mic, vb

KINDS = ["det", "det", "yq", "bin", "cont", "det", "multi", "pwb", "yq", "bin", "cont", "pwc", "split"]


def values(r, n):
    c = r.random()
    if c < .3:
        v = [r.randint(-9, 9) for _ in range(n)]
    elif c < .6:
        v = [r.randint(0, 4) for _ in range(n)]
    else:
        v = [5] * n
        for i in range(n):
            if r.random() < .4:
                v[i] = r.randint(3, 8)
    for i in range(n):
        if r.random() < r.choice([0, .05, .2]):
            v[i] = r.choice([-1, 1]) * r.randint(10, 60)
    return v


def detector(r):
    if r.random() < .6:
        return dict(m=r.choice(["ETI", "HDI"]), L=r.choice([2, 2, 2, 1, 3, 0, 4]), k=r.choice([3, 3, 0, 1, 2, 6]), thr=0)
    return dict(m="Z", L=0, k=0, thr=r.choice([35, 35, 0, 5, 10, 20, 30]))


def dparams(d):
    if d["m"] == "Z":
        return dict(threshold=d["thr"] / 10)
    return dict(interval_length=d["L"] / 4, k=d["k"] / 2, method=d["m"])


def gen(r, k, tier):
    kind = KINDS[k % len(KINDS)]
    p = dict(kind=kind, det=detector(r), seed=r.randrange(10**6), sc=r.choice([1, 1, .25, 1000]),
             cont=r.choice(["array", "list", "series", "shuffled"]))
    if kind == "det":
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 16])
        p["x"] = values(r, n)
        p["default"] = r.random() < .1
    elif kind == "yq":
        p["nb"] = r.choice([1, 2, 4, 8, 2, 4])
        n = r.choice([2, 3, 5, 6, 8, 11, 14, 18])
        p["x"], p["y"] = values(r, n), values(r, n)
        p["cont"] = "array" if p["cont"] == "shuffled" else p["cont"]
    else:
        n = r.choice([12, 20, 30, 40])
        if kind in ("pwb", "pwc"):
            n = r.choice([40, 60])
        p["x"] = values(r, n)
        if kind == "split":
            p["lb"] = r.choice([None, r.randint(-14, 9), r.randint(-4, 6), 5])
            p["ub"] = r.choice([None, r.randint(2, 20), r.randint(3, 9), 5])
            if p["lb"] is not None and p["ub"] is not None and p["lb"] > p["ub"]:
                p["lb"], p["ub"] = p["ub"], p["lb"]
            p["nodet"] = r.random() < .4
        p["y"] = [int(r.random() < .4) for _ in range(n)] if kind in ("bin", "pwb") else \
            [r.randrange(3) for _ in range(n)] if kind == "multi" else [r.randint(-8, 8) + (30 if r.random() < .1 else 0) for _ in range(n)]
        if kind in ("bin", "pwb"):
            p["y"][:4] = [0, 1, 0, 1]
        if kind == "multi":
            p["y"][:6] = [0, 1, 2, 0, 1, 2]
        # class of record: 0 clean, 1 missing, 2 special
        p["c"] = [r.choices([0, 1, 2], [8, 1, 1])[0] for _ in range(n)]
        if kind in ("pwb", "pwc"):
            p["c"] = [0 if r.random() < .8 else c for c in p["c"]]
        if k % 61 == 3 and kind in ("bin", "cont"):
            p["c"] = [1 + i % 2 for i in range(n)]
        p["yq"] = kind in ("cont", "pwc", "split") and r.random() < .4
        p["nb"] = r.choice([1, 2, 4])
        p["user"] = r.random() < .3
        p["us"] = sorted(r.sample([-20.5, -3.5, 1.5, 4.5, 6.5, 20.5], r.randint(1, 3)))
        p["spd"] = r.random() < .3
        p["sc"] = 1
        p["w"] = [r.randint(1, 3) for _ in range(n)] if kind == "bin" and r.random() < .3 else [1] * n
        p["dup"] = r.random() < .3
    return p


def ct(c, a, seed):
    if c == "list":
        return a.tolist()
    if c == "series":
        return pd.Series(a, index=range(7, 7 + len(a)))
    if c == "shuffled":
        return pd.Series(a, index=np.random.RandomState(seed).permutation(len(a)))
    return a


def yparams(p):
    return dict(outlier_detector="zscore" if p["det"]["m"] == "Z" else "range", outlier_params=dparams(p["det"]), n_bins=p["nb"])


def run(p):
    from optbinning.binning.outlier import ModifiedZScoreDetector, RangeDetector, YQuantileDetector
    d = p["det"]
    rec = dict(kind=p["kind"], exc="", m=d["m"], L=d["L"], k=d["k"], thr=d["thr"], nb=p.get("nb", 0), x=p["x"], y=p.get("y", []),
               flag=[], idx=[], cls=p.get("c", [0] * len(p["x"])), w=p.get("w", []), spl=[], spl2=[], tab=[], tab2=[], same=1,
               yq=1 if p.get("yq") or p["kind"] == "yq" else 0, st="", st2="", nofit=1, exc2="", pres=[1, 1, 1])
    if p.get("default"):
        rec.update(m="Z" if d["m"] == "Z" else "ETI", L=2, k=3, thr=35)
        det = ModifiedZScoreDetector() if d["m"] == "Z" else RangeDetector()
    elif rec["yq"]:
        det = YQuantileDetector(**yparams(p))
    else:
        det = (ModifiedZScoreDetector if d["m"] == "Z" else RangeDetector)(**dparams(d))
    rec["triv"] = 0
    rec["sig"] = p["kind"]
    rec["cov"] = [p["kind"], d["m"], "%s_%s%s" % (p["kind"], d["m"], "_yq" if rec["yq"] else "")]
    xa = np.array(p["x"]) * p["sc"]
    ya = np.array(p.get("y", []))
    if p["kind"] in ("det", "yq"):
        try:
            det.get_support()
            rec["nofit"] = 0
        except Exception:
            pass
        try:
            for rep in range(2):     # refit on the same data after another sample
                if rep == 0:
                    det.fit(np.array([1., 2, 3, 50]), np.array([1., 2, 3, 4]))
                else:
                    xi = ct(p["cont"], xa, p["seed"])
                    if p["kind"] == "yq":
                        det.fit(xi, ct(p["cont"], ya * p["sc"], p["seed"]))
                    else:
                        det.fit(xi)
            rec["flag"] = [int(v) for v in np.asarray(det.get_support())]
            rec["idx"] = [int(v) + 1 for v in det.get_support(indices=True)]
            rec["same"] = 1 if np.array_equal(np.asarray(xi), np.array(p["x"]) * p["sc"]) else 0
            rec["triv"] = 1 if not any(rec["flag"]) else 0
        except Exception as e:
            rec["exc"] = exc_name(e)
            rec["msg"] = str(e)[:100]
        return rec

    if p["kind"] == "split":
        return run_split(p, rec, xa, ya)
    from optbinning import ContinuousOptimalBinning, ContinuousOptimalPWBinning, MulticlassOptimalBinning, OptimalBinning, OptimalPWBinning
    c = np.array(p["c"])
    x = xa.astype(float)
    x[c == 1] = np.nan
    x[c == 2] = np.where(np.arange((c == 2).sum()) % 2 == 0, 999, -777)
    clean = c == 0
    if clean.any():
        try:
            det.fit(x[clean], ya[clean])
        except Exception as e:
            rec["exc"] = "detector_" + exc_name(e)
            return rec
        flag = np.zeros(len(x), dtype=bool)
        flag[np.where(clean)[0][np.asarray(det.get_support())]] = True
    else:
        flag = np.zeros(len(x), dtype=bool)
    rec["flag"] = [int(v) for v in flag]
    rec["triv"] = 1 if not flag.any() else 0
    sp = {"a": [999], "b": -777} if p["spd"] else [999, -777]
    if p["kind"] in ("multi", "pwb", "pwc"):
        sp = [999, -777]
    rec["spd"] = 1 if isinstance(sp, dict) else 0
    kw = dict(special_codes=sp, min_prebin_size=1e-6)
    if p["kind"] in ("bin", "cont", "multi"):
        kw.update(time_limit=60)
    if p["kind"] in ("bin", "multi"):
        kw.update(solver="cp")
    if p["user"] and p["kind"] in ("bin", "cont", "multi"):
        kw.update(user_splits=p["us"])
    if p["kind"] in ("bin", "cont", "multi"):
        kw.update(monotonic_trend=None if p["kind"] != "multi" else None)
    if p["kind"] == "multi":
        kw.pop("monotonic_trend")
    cls = dict(bin=OptimalBinning, cont=ContinuousOptimalBinning, multi=MulticlassOptimalBinning, pwb=OptimalPWBinning,
               pwc=ContinuousOptimalPWBinning)[p["kind"]]
    odp = yparams(p) if rec["yq"] else dparams(d)
    od = "yquantile" if rec["yq"] else ("zscore" if d["m"] == "Z" else "range")
    w = np.array(p["w"])
    for t in (0, 1):
        ob = cls(**vb(p["seed"]), **kw, **(dict(outlier_detector=od, outlier_params=odp) if t == 0 else {}))
        mk = np.ones(len(x), dtype=bool) if t == 0 else ~flag
        try:
            fk = {}
            if p["kind"] == "bin" and any(v != 1 for v in p["w"]):
                fk["sample_weight"] = w[mk]
            ob.fit(x[mk], ya[mk], **fk)
            s = [cnt(v * 4) for v in np.asarray(ob.splits, dtype=float)]
            df = ob.binning_table.build(add_totals=False)
            if p["kind"] in ("bin", "pwb"):
                tab = [[cnt(a), cnt(b)] for a, b in zip(df["Count"], df["Event"])]
            elif p["kind"] in ("cont", "pwc"):
                tab = [[cnt(a), cnt(b)] for a, b in zip(df["Count"], df["Sum"])]
            else:
                cc = ["Event_%d" % q for q in range(3)]
                rec["pres"] = [int(q in df) for q in cc]
                tab = [[cnt(a)] + [cnt(df[q][i]) if q in df else 0 for q in cc] for i, a in enumerate(df["Count"])]
            rec["spl" if t == 0 else "spl2"] = s
            rec["tab" if t == 0 else "tab2"] = tab
            rec["st" if t == 0 else "st2"] = ob.status
        except Exception as e:
            rec["exc" if t == 0 else "exc2"] = exc_name(e)
            rec["msg" if t == 0 else "msg2"] = str(e)[:100]
    return rec


def run_split(p, rec, xa, ya):
    """The preprocessing step itself; every record has its own weight, which names it."""
    rec.update(lb=[] if p["lb"] is None else [p["lb"]], ub=[] if p["ub"] is None else [p["ub"]], nodet=1 if p["nodet"] else 0,
               clean=[], miss=[], spec=[], agree=1)
    try:
        from optbinning.binning.preprocessing import split_data
    except ImportError:
        rec.update(triv=1, kind="none")
        return rec
    c = np.array(p["c"])
    x, y = xa.astype(float), ya.astype(float)
    x[c == 2] = np.where(np.arange((c == 2).sum()) % 2 == 0, 999, -777)
    m = np.where(c == 1)[0]
    x[m[::2]] = np.nan
    y[m[1::2]] = np.nan
    if len(m) > 2:      # special value with a missing target
        x[m[1]] = 999
    kw = dict(special_codes={"a": 999, "b": [-777]} if p["spd"] else [999, -777], fix_lb=p["lb"], fix_ub=p["ub"], check_input=False,
              sample_weight=np.arange(1., len(x) + 1))
    if not p["nodet"]:
        if p["yq"]:
            kw.update(outlier_detector="yquantile", outlier_params=yparams(p))
        else:
            kw.update(outlier_detector="zscore" if p["det"]["m"] == "Z" else "range", outlier_params=dparams(p["det"]))
    try:
        r = split_data("numerical", x, y, **kw)
    except Exception as e:
        rec["exc"] = exc_name(e)
        return rec
    ids = [[int(v) for v in r[i]] for i in (9, 10, 11)]
    rec["clean"], rec["miss"], rec["spec"] = ids
    for i, l in enumerate(ids):
        q = np.array(l, dtype=int) - 1
        if not (np.array_equal(np.asarray(r[2 * i], float), x[q], equal_nan=True)
                and np.array_equal(np.asarray(r[2 * i + 1], float), y[q], equal_nan=True)):
            rec["agree"] = 0
    return rec
