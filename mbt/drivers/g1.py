"""GK quantile summaries: histories of additions, merges and queries."""
from ..obs import cnt, exc_name

PROBES = list(range(65))


def values(r, style, pool, m):
    xs = [r.randint(1, pool) for _ in range(m)]
    if style == "sorted":
        xs.sort()
    elif style == "reverse":
        xs.sort(reverse=True)
    elif style == "zig":
        xs.sort()
        xs = [xs[i // 2] if i % 2 == 0 else xs[-1 - i // 2] for i in range(m)]
    elif style == "const":
        xs = [xs[0]] * m
    elif style == "perm":
        xs = list(range(1, pool + 1))
        r.shuffle(xs)
        xs = xs[:m]
    return xs


def gen(r, k, tier):
    p = dict(inv=r.choice([2, 3, 4, 8, 10, 16, 20, 50, 100]), pool=r.choice([1, 2, 3, 8, 30, 60]),
             ns=r.choice([1, 2, 3, 3]), scale=r.choice(["int", "float", "neg", "huge"]), ops=[])
    n_ops = r.randint(1, 9)
    for _ in range(n_ops):
        a = r.randrange(p["ns"])
        u = r.random()
        if u < .55:
            m = r.choice([1, 2, 3, p["inv"], p["inv"] + 1, p["inv"] + 2, r.randint(1, 45), r.randint(1, 12)])
            m = min(m, 60)
            p["ops"].append(["add", a, values(r, r.choice(["rand", "rand", "sorted", "reverse", "zig", "const", "perm"]), p["pool"], m)])
        elif u < .8 and p["ns"] > 1:
            b = r.choice([i for i in range(p["ns"]) if i != a])
            p["ops"].append(["merge", a, b])
        else:
            p["ops"].append(["ask", a, r.choice(["all", "some", "bad"])])
    for i in range(p["ns"]):
        p["ops"].append(["ask", i, "all"])
    return p


def from_scenario(s, k):
    """A history enumerated by MC_GK."""
    p = dict(inv=s["inv_eps"], pool=s["nv"], ns=2, scale="int", ops=[])
    for i, v in s["hist"]:
        p["ops"].append(["add", i - 1, [v]] if v else ["merge", i - 1, 2 - i])
    p["ops"] += [["ask", 0, "all"], ["ask", 1, "all"]]
    return p


def run(p):
    from optbinning.binning.distributed import GK
    f = {"int": lambda v: v, "float": lambda v: v * .1 - 1, "neg": lambda v: -1e3 + v * 1.5,
         "huge": lambda v: v * 1e12}[p["scale"]]
    back = {f(v): v for v in range(1, p["pool"] + 1)}
    gks = [GK(1.0 / p["inv"]) for _ in range(p["ns"])]
    rec = dict(kind="g1", inv=p["inv"], pool=p["pool"], ns=p["ns"], ops=[])
    for op in p["ops"]:
        e = dict(k=op[0], a=op[1] + 1, b=0, vs=[], exc="", n=[], qs=[], ans=[], bad=[])
        g = gks[op[1]]
        try:
            if op[0] == "add":
                e["vs"] = op[2]
                for v in op[2]:
                    g.add(f(v))
            elif op[0] == "merge":
                e["b"] = op[2] + 1
                g.merge(gks[op[2]])
            else:
                if op[2] == "bad":
                    for q in (-.01, 1.5, -1):
                        try:
                            g.quantile(q)
                            e["bad"].append("")
                        except Exception as ex:
                            e["bad"].append(exc_name(ex))
                for q in (PROBES if op[2] == "all" else PROBES[::9]):
                    v = g.quantile(q / 64)
                    e["qs"].append(q)
                    e["ans"].append(back.get(v, 0))
        except Exception as ex:
            e["exc"] = exc_name(ex)
        e["n"] = [cnt(x.n) for x in gks]
        rec["ops"].append(e)
    tot = sum(len(o[2]) for o in p["ops"] if o[0] == "add")
    rec["triv"] = 1 if tot <= p["inv"] else 0
    rec["cov"] = [p["scale"], "inv%d" % p["inv"]] + sorted(set(o[0] for o in p["ops"]))
    return rec
