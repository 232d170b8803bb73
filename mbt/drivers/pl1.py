"""Plots: what every figure of the library draws, against the tables and the data it stands for."""
import contextlib
import io
import os
import tempfile
import warnings

import numpy as np
import pandas as pd

from ..obs import mic, mics, cnt, exc_name

KINDS = ["bin", "cont", "bin", "multi", "pw", "bin", "cont", "psi", "bin", "d2", "multi", "prog", "cont", "pw", "bin", "cont"]
CATS = ["a", "bb", "Z", "9", "m n", "x", "a very long name of a category, indeed", "k"]


def gen(r, k, tier):
    kind = KINDS[k % len(KINDS)]
    cat = kind in ("bin", "cont") and r.random() < .45
    nv = r.randint(2, 7)
    lo = 1 if cat else r.choice([0, -6, 3])
    prof = [[r.randint(1, 9), r.randint(1, 9), r.randint(0, 6)] for _ in range(nv)]
    if r.random() < .5:
        for i, q in enumerate(prof):
            q[0] += 4 * i
            q[1] += 4 * (nv - i)
    spk = r.choice(["none", "list", "dict", "dict", "dict"])
    spc = [[-99 - i, [r.choice([0, 1, 3, 5]), r.choice([0, 0, 2, 4]), r.randint(0, 2)]]
           for i in range(0 if spk == "none" else r.choice([1, 2, 3]))]
    nan = [r.choice([0, 1, 4]), r.choice([0, 2, 3]), r.randint(0, 2)] if r.random() < .7 else [0, 0, 0]
    plots = []
    for _ in range(3):
        st = "actual" if not cat and kind in ("bin", "cont") and r.random() < .25 else "bin"
        plots.append(dict(sp=r.random() < .55, mi=r.random() < .6, style=st, lab=st == "bin" and r.random() < .4,
                          metric=r.randrange(3), save=r.random() < .08, size=r.random() < .2))
    return dict(kind=kind, cat=cat, nv=nv, lo=lo, prof=prof, spk=spk, spc=spc, nan=nan, plots=plots, nb=r.randint(1, 5),
                cutoff=r.choice([None, .1, .15, .2]), digits=r.choice([0, 2, 4]), totals=r.random() < .7, seed=r.randrange(10**6),
                target=r.choice(["binary", "continuous"]), deg=r.choice([0, 1, 1, 2]), sparse=r.random() < .4,
                names=r.sample(["zeta", "beta", "Special", "Alpha", "9", "m"], max(1, len(spc))))


def data(p, three=False):
    x, y = [], []
    for i, q in list(enumerate(p["prof"])):
        for c in range(3 if three else 2):
            x += [CATS[i] if p["cat"] else float(p["lo"] + 2 * i)] * q[c]
            y += [c] * q[c]
    for v, q in p["spc"] + [[None, p["nan"]]]:
        for c in range(3 if three else 2):
            x += [("S%d" % -v if p["cat"] else float(v)) if v is not None else (None if p["cat"] else np.nan)] * q[c]
            y += [c] * q[c]
    rs = np.random.RandomState(p["seed"])
    pm = rs.permutation(len(x))
    xa = np.empty(len(x), dtype=object if p["cat"] else float)
    for i, j in enumerate(pm):
        xa[i] = x[j]
    return xa, np.array(y)[pm], rs


def special(p):
    if p["spk"] == "none":
        return None
    v = ["S%d" % -c[0] if p["cat"] else c[0] for c in p["spc"]]
    return v if p["spk"] == "list" else {n: c for n, c in zip(p["names"], v)}


def hatch(b):
    h = b.get_hatch() or ""
    return 1 if "/" in h else 2 if "\\" in h else 0


def same_colour(a, b):
    from matplotlib.colors import to_rgb
    return np.allclose(to_rgb(a), to_rgb(b), atol=.01)


def legend(fig):
    for ax in fig.axes:
        lg = ax.get_legend()
        if lg is not None:
            hs = getattr(lg, "legend_handles", None) or lg.legendHandles
            return [(t.get_text(), h) for t, h in zip(lg.get_texts(), hs)]
    return []


def series(fig, names):
    """The bar series of the figure, found by the colour of the entry of the legend."""
    out = []
    bars = [c for ax in fig.axes for c in ax.containers]
    lg = dict((str(t), h) for t, h in legend(fig))
    for nm in names:
        h = lg.get(nm)
        s = [c for c in bars if h is not None and same_colour(c.patches[0].get_facecolor(), h.get_facecolor())]
        out.append([[mic(b.get_x()), mic(b.get_width()), mic(b.get_y()), mic(b.get_height()), hatch(b)] for b in s[0].patches] if len(s) == 1 else [])
    return out, len(bars)


def bar_colours(fig):
    return [c.patches[0].get_facecolor() for ax in fig.axes for c in ax.containers]


def lines(ax):
    pts, join, vert, flat = [], [], [], []
    for q in ax.lines:
        xs, ys = np.atleast_1d(q.get_xdata()), np.atleast_1d(q.get_ydata())
        marker = q.get_marker() not in (None, "None", "", " ")
        if len(xs) == 2 and xs[0] == xs[1] and not marker:
            vert.append(mic(xs[0]))
        elif marker:
            pts.append((q, [[mic(a), mic(b)] for a, b in zip(xs, ys)]))
            if q.get_linestyle() not in ("None", "", " ") and len(xs) > 1:
                join.append([mic(a) for a in xs])
        else:
            flat.append([[mic(a), mic(b)] for a, b in zip(xs, ys)])
    return pts, join, vert, flat


@contextlib.contextmanager
def figure(save):
    """Runs a plot; yields a function that gives the figure (shown, or saved in a scratch directory)."""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    got = []
    plt.close("all")
    with tempfile.TemporaryDirectory() as td:
        fn = os.path.join(td, "f.png")
        orig = Figure.savefig

        def spy(self, *a, **k):
            got.append(self)
            return orig(self, *a, **k)
        Figure.savefig = spy
        try:
            def fig():
                if save:
                    return (got[0] if len(got) == 1 else None), int(os.path.exists(fn) and os.path.getsize(fn) > 0 and not plt.get_fignums())
                return plt.gcf(), int(len(plt.get_fignums()) == 1)
            yield (dict(savefig=fn) if save else {}), fig
        finally:
            Figure.savefig = orig
            plt.close("all")


def run(p):
    import matplotlib
    matplotlib.use("Agg")
    rec = dict(kind=p["kind"], exc="", figs=[], kept=1, triv=0, sig=p["kind"], cov=[p["kind"]])
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            {"bin": table1, "cont": table1, "multi": table1, "pw": piecewise, "psi": psi, "d2": two, "prog": progress}[p["kind"]](p, rec)
        except Exception as e:
            rec["exc"] = exc_name(e)
            rec["msg"] = str(e)[:200]
    return rec


def table1(p, rec):
    from optbinning import OptimalBinning, ContinuousOptimalBinning, MulticlassOptimalBinning
    kind = p["kind"]
    x, y, rs = data(p, kind == "multi")
    kw = dict(name="v", special_codes=special(p))
    if kind != "multi":
        kw["dtype"] = "categorical" if p["cat"] else "numerical"
        if p["cat"] and p["cutoff"]:
            kw["cat_cutoff"] = p["cutoff"]
    if kind == "bin":
        kw["divergence"] = "iv"
    if not p["cat"]:
        kw["max_n_prebins"] = p["nb"] + 1
        kw["min_prebin_size"] = .01
    if kind == "cont":
        y = y * 3. + rs.randint(-2, 3, size=len(y)) / 4
    ob = {"bin": OptimalBinning, "cont": ContinuousOptimalBinning, "multi": MulticlassOptimalBinning}[kind](**kw)
    try:
        ob.fit(x, y)
    except ValueError:                       # no category reaches the cutoff, one class only
        rec["triv"], rec["kind"] = 1, "none"
        return
    bt = ob.binning_table
    df = bt.build(show_digits=p["digits"], add_totals=p["totals"])
    t = df.iloc[:-1] if p["totals"] else df
    ns = len(p["spc"]) if p["spk"] == "dict" else 1
    xc = None if p["cat"] else [v for v in x if not np.isnan(v) and v not in [c[0] for c in p["spc"]]]
    classes = [str(c) for c in sorted(set(y.tolist()))] if kind == "multi" else []
    for q in p["plots"]:
        if kind == "bin":
            m = ["woe", "event_rate", "iv"][q["metric"]]
            met = [list(t[{"woe": "WoE", "event_rate": "Event rate", "iv": "IV"}[m]])]
            names, cols = ["Event", "Non-event"], ["Event", "Non-event"]
        elif kind == "cont":
            m = ["mean", "woe", "iv"][q["metric"]]
            met = [list(t[{"woe": "WoE", "mean": "Mean", "iv": "IV"}[m]])]
            names, cols = ["Count"], ["Count"]
        else:
            met = [list(t["Event_rate_%s" % c]) for c in classes]
            names, cols = classes, ["Event_%s" % c for c in classes]
        kv = dict(add_special=q["sp"], add_missing=q["mi"], show_bin_labels=q["lab"])
        if q["size"]:
            kv["figsize"] = (4, 3)
        if kind != "multi":
            kv.update(metric=m, style=q["style"])
        with figure(q["save"]) as (sv, fig):
            bt.plot(**kv, **sv)
            f, ok = fig()
            if f is None:
                rec["figs"].append(dict(ok=0))
                continue
            ser, nser = series(f, names)
            pts, join, vert, flat = lines(f.axes[1])
            if kind == "multi":
                cl = [ser_colour(f, c) for c in classes]
                P = [[z for l, zz in pts if same_colour(l.get_markerfacecolor(), c) for z in zz] for c in cl]
            else:
                P = [[z for l, zz in pts for z in zz]]
            rec["figs"].append(dict(
                ok=ok, style=q["style"] if kind != "multi" else "bin", sp=int(q["sp"]), mi=int(q["mi"]), lab=int(q["lab"]),
                no=int(len(ob.binning_table.cat_others) > 0) if kind != "multi" and p["cat"] else 0, ns=ns, n=len(t),
                H=[[mic(v) for v in t[c]] for c in cols], M=[mics([0 if isinstance(v, str) else v for v in a]) for a in met],
                edges=mics([min(xc)] + list(ob.splits) + [max(xc)]) if xc else [],
                ser=ser, nser=nser, pts=P, npts=sum(len(a) for a in P) == sum(len(zz) for _, zz in pts), join=join, vert=sorted(vert), flat=flat,
                leg=[a for a, _ in legend(f)], names=names, title=int(any(a.get_title() == "v" for a in f.axes)),
                ticks=[a.get_text() for a in f.axes[0].get_xticklabels()] if q["lab"] else [],
                labels=[short(b, p["cat"]) for b in t["Bin"]]))
    again = bt.build(show_digits=p["digits"], add_totals=p["totals"])
    rec["kept"] = int(again.astype(str).equals(df.astype(str)))
    rec["triv"] = int(len(t) < 3)
    rec["cov"] += ["cat" if p["cat"] else "num", p["spk"]] + ["others"] * (len(rec["figs"]) > 0 and rec["figs"][0].get("no", 0) == 1)


def ser_colour(f, name):
    return dict((str(t), h) for t, h in legend(f))[name].get_facecolor()


def short(b, cat):
    b = str(b)
    return b[:27] + "..." if cat and len(b) > 27 else b


def piecewise(p, rec):
    from optbinning import OptimalPWBinning, ContinuousOptimalPWBinning
    x, y, rs = data(p)
    cont = p["target"] == "continuous"
    sc = special(p)
    kw = dict(name="v", special_codes=sc, degree=p["deg"], max_n_prebins=p["nb"] + 1, min_prebin_size=.05)
    x = np.where(np.isin(x, [c[0] for c in p["spc"]]) | np.isnan(x), x, x + rs.randint(0, 7, size=len(x)) / 4)
    if cont:
        y = y * 3. + rs.randint(-2, 3, size=len(y)) / 4
        ob = ContinuousOptimalPWBinning(**kw)
    else:
        ob = OptimalPWBinning(**kw)
    try:
        ob.fit(x, y)
    except Exception:                # the regression component refuses some samples; not a matter of plots
        rec["kind"], rec["triv"] = "none", 1
        return
    bt = ob.binning_table
    t = bt.build(show_digits=p["digits"])
    t = t.iloc[:-1]
    ns = len(p["spc"]) if p["spk"] == "dict" else 1
    xc = [v for v in x if not np.isnan(v) and v not in [c[0] for c in p["spc"]]]
    for q in p["plots"][:2]:
        m = "mean" if cont else ["woe", "event_rate"][q["metric"] % 2]
        N = 5 + q["metric"] * 4
        names = ["Count"] if cont else ["Event", "Non-event"]
        with figure(q["save"]) as (sv, fig):
            bt.plot(n_samples=N, **sv, **({} if cont else dict(metric=m)))
            f, ok = fig()
            if f is None:
                rec["figs"].append(dict(ok=0))
                continue
            ser, nser = series(f, names)
            _, _, vert, flat = lines(f.axes[1])
            xs = np.linspace(min(xc), max(xc), N)
            z = [v for v in xs if v not in [c[0] for c in p["spc"]]]
            if cont:
                w = ob.transform(np.array(z))
            else:
                w = ob.transform(np.array(z), metric=m, lb=0, ub=1)
            H = [[mic(v) for v in t[c]] for c in (["Count"] if cont else ["Event", "Non-event"])]
            rec["figs"].append(dict(ok=ok, ns=ns, n=len(t), H=H, edges=mics([min(xc)] + list(ob.splits) + [max(xc)]), ser=ser, nser=nser,
                                    vert=sorted(vert), flat=flat, want=[[mic(a), mic(b)] for a, b in zip(z, w)], N=N,
                                    leg=[a for a, _ in legend(f)], names=names, title=int(any(a.get_title() == "v" for a in f.axes))))
    rec["cov"].append(p["target"])


def psi(p, rec):
    from optbinning import BinningProcess, Scorecard
    from optbinning.scorecard import ScorecardMonitoring
    from sklearn.linear_model import LogisticRegression, LinearRegression
    rs = np.random.RandomState(p["seed"])
    n = 120
    cont = p["target"] == "continuous"
    X = pd.DataFrame({"u": rs.randint(0, 6, size=n), "v": rs.randint(0, 9, size=n).astype(float)})
    y = (X["u"].values * 3 + X["v"].values + rs.randint(0, 12, size=n))
    y = y / 4. if cont else (y > 17).astype(int)
    sc = Scorecard(BinningProcess(["u", "v"]), LinearRegression() if cont else LogisticRegression())
    sc.fit(X, y)
    Xa, ya = X.iloc[:p["nb"] * 8 + 20], y[:p["nb"] * 8 + 20]
    mon = ScorecardMonitoring(sc, psi_method=["cart", "uniform", "quantile"][p["deg"] % 3], psi_n_bins=p["nb"] + 1, psi_min_bin_size=[.1, .1, .3, .5][p["seed"] % 4])
    mon.fit(Xa, ya, X, y)
    tt, pt = mon.tests_table(), mon.psi_table().iloc[:-1]
    for q in p["plots"][:2]:
        with figure(q["save"]) as (sv, fig):
            mon.psi_plot(**sv)
            f, ok = fig()
            if f is None:
                rec["figs"].append(dict(ok=0))
                continue
            ser, nser = series(f, ["Actual", "Expected"])
            pts, join, _, _ = lines(f.axes[1])
            cols = [ser_colour(f, c) for c in ("Actual", "Expected")]
            P = [[z for l, zz in pts if same_colour(l.get_color(), c) for z in zz] for c in cols]
            rec["figs"].append(dict(ok=ok, n=len(pt), C=[[int(v) for v in pt["Count A"]], [int(v) for v in pt["Count E"]]],
                                    M=[mics(tt[c]) for c in (("Mean A", "Mean E") if cont else ("Event rate A", "Event rate E"))],
                                    ser=ser, nser=nser, pts=P))


def two(p, rec):
    from optbinning import OptimalBinning2D, ContinuousOptimalBinning2D
    rs = np.random.RandomState(p["seed"])
    cont = p["target"] == "continuous"
    n = 60 + 10 * p["nv"]
    x, v = rs.randint(0, 5, size=n).astype(float), rs.randint(0, 4, size=n).astype(float)
    a, b = rs.choice([-2, -1, 1, 2]), rs.choice([-2, -1, 1, 2])
    z = a * x + b * v + rs.randint(0, 5, size=n)
    z = z / 4. if cont else (z > np.median(z)).astype(int)
    if p["sparse"]:
        keep = ~((x > 2) & (v > 1))
        x, v, z = x[keep], v[keep], z[keep]
    kw = dict(name_x="u", name_y="w", max_n_prebins_x=p["nb"] + 1, max_n_prebins_y=3, min_prebin_size_x=.02, min_prebin_size_y=.02)
    if p["deg"]:
        kw.update(monotonic_trend_x="ascending" if a > 0 else "descending")
    ob = (ContinuousOptimalBinning2D if cont else OptimalBinning2D)(**kw)
    ob.fit(x, v, z)
    if ob.status != "OPTIMAL":
        rec["kind"], rec["triv"] = "none", 1
        return
    bt = ob.binning_table
    t = bt.build(show_bin_xy=True)
    t = t.iloc[:-3]
    F = lambda e: max(-10**9, min(10**9, int(round(float(e) * 1000)) if np.isfinite(e) else (10**9 if e > 0 else -10**9)))
    sx, sy = ob.splits
    for q in p["plots"][:2]:
        m = "mean" if cont else ["woe", "event_rate"][q["metric"] % 2]
        with figure(q["save"]) as (sv, fig):
            bt.plot(**sv, **({} if cont else dict(metric=m)))
            f, ok = fig()
            if f is None:
                rec["figs"].append(dict(ok=0))
                continue
            ax = [c for c in f.axes if c.images][0]
            img = np.asarray(ax.images[0].get_array().filled(np.nan) if hasattr(ax.images[0].get_array(), "filled") else ax.images[0].get_array())
            T = [[-1] * img.shape[1] for _ in range(img.shape[0])]
            for s in ax.texts:
                a_, b_ = s.get_position()
                T[int(b_)][int(a_)] = int(s.get_text())
            oth = [c for c in f.axes if c is not ax and any(len(l.get_xdata()) > 2 or l.get_drawstyle().startswith("steps") for l in c.lines)]
            st = [[[mic(u), mic(w)] for u, w in zip(l.get_xdata(), l.get_ydata())] + [[1 if l.get_drawstyle().endswith("post") else 0, 0]]
                  for c in oth for l in c.lines if l.get_drawstyle().startswith("steps")]
            top = [l for c in oth for l in c.lines if l.get_drawstyle() == "steps-post"]
            rgt = [l for c in oth for l in c.lines if l.get_drawstyle() == "steps-pre"]
            rec["figs"].append(dict(ok=ok, n=len(t), M=mics(t[{"mean": "Mean", "woe": "WoE", "event_rate": "Event rate"}[m]]),
                                    img=[mics(r_) for r_ in img], T=T,
                                    top=[[[mic(u), mic(w)] for u, w in zip(l.get_xdata(), l.get_ydata())] for l in top],
                                    rgt=[[[mic(w), mic(u)] for u, w in zip(l.get_xdata(), l.get_ydata())] for l in rgt],
                                    R=[[F(u[0]), F(u[1]), F(w[0]), F(w[1])] for u, w in zip(sx, sy)]))
    rec["cov"].append(p["target"])


def progress(p, rec):
    from optbinning.binning.distributed import OptimalBinningSketch
    import matplotlib.pyplot as plt
    rs = np.random.RandomState(p["seed"])
    div = ["iv", "js", "hellinger", "triangular"][p["metric"] if "metric" in p else p["seed"] % 4]
    ob = OptimalBinningSketch(divergence=div, eps=.05)
    want, n, na, ns = [], 0, 0, 0
    for i in range(1 + p["nb"]):
        for _ in range(1 + (p["seed"] + i) % 2):
            k = 30 + 10 * i
            x = rs.randint(0, 6, size=k).astype(float)
            y = (x + rs.randint(0, 8, size=k) > 6).astype(int)
            ob.add(x, y)
            n, na = n + k, na + 1
        ob.solve()
        bt = ob.binning_table
        bt.build()
        with contextlib.redirect_stdout(io.StringIO()):
            bt.analysis(print_output=False)
        want.append([n, mic({"iv": bt.iv, "js": bt.js, "hellinger": bt.hellinger, "triangular": bt.triangular}[div])])
    with figure(False) as (sv, fig):
        ob.plot_progress()
        f, ok = fig()
        ax = f.axes[0]
        L = [[[cnt(a), mic(b)] for a, b in zip(np.asarray(l.get_xdata()), np.asarray(l.get_ydata()))] for l in ax.lines]
        import re
        num = [int(v) for v in re.findall(r"\d+", ax.get_title())]
        rec["figs"].append(dict(ok=ok, want=want, lines=L, title=num, na=na, div=int(div in ax.get_ylabel()),
                                xl=int("ecords" in ax.get_xlabel())))
