"""Runs cases [start, stop) of one driver, one JSON line per case.

usage: worker.py DRIVER START STOP STEP OUT PROGRESS SEED TIER SCEN
"""
import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    drv, start, stop, step, out, prog, seed, tier, scen = sys.argv[1:10]
    warnings.filterwarnings("ignore")
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module("mbt.drivers." + drv)
    scenarios = None
    if scen != "-":
        with open(scen) as f:
            scenarios = [json.loads(l) for l in f]
            scenarios = [json.loads(s) if isinstance(s, str) else s for s in scenarios]
    from mbt.obs import rng_for
    devnull = open(os.devnull, "w")
    so = sys.stdout
    with open(out, "a") as fo, open(prog, "a") as fp:
        for k in range(int(start), int(stop), int(step)):
            fp.write("%d\n" % k)
            fp.flush()
            sys.stdout = devnull
            np.random.seed(12345)
            params = None
            try:
                if scenarios is not None:
                    params = mod.from_scenario(scenarios[k], k)
                else:
                    params = mod.gen(rng_for(seed, drv, k), k, tier)
                gen_ok = True
            except Exception:
                gen_ok = False
                line = {"k": k, "genfail": traceback.format_exc()}
            if gen_ok:
                try:
                    rec = mod.run(params)
                    rec["id"] = k
                    line = {"k": k, "rec": rec, "params": params}
                except Exception:
                    line = {"k": k, "malformed": traceback.format_exc(), "params": params}
            sys.stdout = so
            try:
                s = json.dumps(line)
            except TypeError:
                line.pop("params", None)
                line["params"] = repr(params)[:4000]
                s = json.dumps(line)
            fo.write(s + "\n")
            fo.flush()


main()
