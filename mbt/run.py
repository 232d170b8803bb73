"""Check runner: record the implementation, validate with TLC, judge.

usage: run.py PROPERTY quick|thorough        (a registered check)
       run.py --replay FILE                  (re-run one recorded violation)
"""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_SCRATCH_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
NW = int(os.environ.get("VERIF_WORKERS", "8"))
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
STALL = 240

sys.path.insert(0, VERIF)
from mbt import props  # noqa: E402


class Machinery(Exception):
    pass


def child_env():
    e = dict(os.environ)
    e.update(HOME="/root", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
             MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
             PYTHONWARNINGS="ignore")
    for h in ("PYTEST_ADDOPTS",):
        e.pop(h, None)
    return e


def find_cp():
    for d in ("/opt/veriftools/tla",):
        if os.path.exists(os.path.join(d, "tla2tools.jar")):
            return ":".join(sorted(glob.glob(os.path.join(d, "*.jar"))))
    return JAVA_CP


CP = find_cp()


def tlc(module, env, work, workers=1, heap="3g", timeout=800, cfg=None):
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + work, "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-deadlock",
           "-workers", str(workers), "-metadir", meta,
           "-config", cfg or (module + ".cfg"), module + ".tla"]
    e = dict(os.environ)
    e.update(env)
    return subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)


def tlc_wait(p, timeout):
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        raise Machinery("TLC timed out:\n" + out[-2000:])
    return p.returncode, out


STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STAT.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# ------------------------------------------------------------------ recording
def record(driver, n, seed, tier, work, scen=None, only=None):
    """Run n cases of a driver on NW workers; returns dict k -> line."""
    lines = {}
    tag = driver + ("_s" if scen else "")
    procs = []
    step = min(NW, max(1, n)) if only is None else 1
    rng = range(step) if only is None else [only]
    for w in rng:
        out = os.path.join(work, "%s.%d.out" % (tag, w))
        prog = os.path.join(work, "%s.%d.prog" % (tag, w))
        err = os.path.join(work, "%s.%d.err" % (tag, w))
        procs.append(dict(w=w, out=out, prog=prog, err=err, start=w, p=None, done=False, restarts=0))
    stop = n if only is None else only + 1

    def launch(d):
        ferr = open(d["err"], "wb")
        d["p"] = subprocess.Popen(
            [PY, os.path.join(VERIF, "mbt", "worker.py"), driver, str(d["start"]), str(stop), str(step),
             d["out"], d["prog"], str(seed), tier, scen or "-"],
            env=child_env(), stdout=subprocess.DEVNULL, stderr=ferr, cwd=work)
        d["mark"] = (0, time.time())

    for d in procs:
        launch(d)
    while any(not d["done"] for d in procs):
        time.sleep(0.05)
        for d in procs:
            if d["done"]:
                continue
            rc = d["p"].poll()
            try:
                sz = os.path.getsize(d["prog"])
            except OSError:
                sz = 0
            if sz != d["mark"][0]:
                d["mark"] = (sz, time.time())
            hung = rc is None and time.time() - d["mark"][1] > STALL
            if rc == 0:
                d["done"] = True
            elif rc is not None or hung:
                if hung:
                    d["p"].kill()
                    d["p"].wait()
                started = [int(x) for x in open(d["prog"])] if os.path.exists(d["prog"]) else []
                if not started:
                    raise Machinery("worker could not start: " + open(d["err"], errors="replace").read()[-3000:])
                k = started[-1]
                lines[k] = {"k": k, "crash": "hang" if hung else "exit %s" % rc,
                            "stderr": open(d["err"], errors="replace").read()[-1500:]}
                d["restarts"] += 1
                d["start"] = k + step
                if d["restarts"] > 5 or d["start"] >= stop:
                    d["done"] = True
                else:
                    launch(d)
    for d in procs:
        if os.path.exists(d["out"]):
            for l in open(d["out"]):
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                lines[x["k"]] = x
    for k, x in lines.items():
        if "genfail" in x:
            raise Machinery("generator failed for %s case %d:\n%s" % (driver, k, x["genfail"]))
    return lines


# ----------------------------------------------------------------- validation
FAILRE = re.compile(r'"?FAIL (\d+) (\{.*?\})"?$')


def parse_fail(out):
    r = {}
    for l in out.splitlines():
        if "FAIL " not in l:
            continue
        l = l.strip().strip('"').replace('\\"', '"')
        m = re.match(r"FAIL (\d+) \{(.*)\}$", l)
        if m:
            r[int(m.group(1))] = re.findall(r'"([^"]*)"', m.group(2))
    return r


def validate(module, recs, work, prop, tag, timeout=800):
    """TLC judges every record. Returns (fails: id -> clauses, states, transitions)."""
    if not recs:
        return {}, 0, 0
    nchunk = min(NW, max(1, len(recs) // 8))
    chunks = [recs[i::nchunk] for i in range(nchunk)]
    fails, st, tr = {}, 0, 0
    multi = 'PrintT("END")' in open(os.path.join(SPEC, module + ".tla")).read()
    jobs = []
    for c, ch in enumerate(chunks):
        f = os.path.join(work, "%s.%s.%d.json" % (tag, module, c))
        json.dump(ch, open(f, "w"))
        jobs.append([c, ch, f, tlc(module, {"CASES": f, "PROP": prop}, work)])
    for c, ch, f, p in jobs:
        tries = 0
        while True:
            rc, out = tlc_wait(p, timeout)
            fails.update(parse_fail(out))
            a, b = stats(out)
            st += b
            tr += a
            if rc == 0 and "No error has been found" in out:
                if multi and "END" not in out:
                    raise Machinery("%s stopped early (%s):\n%s" % (module, tag, out[-4000:]))
                break
            # evaluation error inside one case: that record is not explainable
            m = re.findall(r"^(?:/\\ )?pos = (\d+)", out, re.M)
            if not m or tries > 20:
                raise Machinery("TLC failed on %s (%s):\n%s" % (module, tag, out[-4000:]))
            i = int(m[-1])
            if i >= len(ch):
                raise Machinery("TLC failed on %s (%s):\n%s" % (module, tag, out[-4000:]))
            bad = ch[i]
            if os.environ.get("VERIF_DEBUG"):
                print("EVAL ERROR", module, bad.get("id"), out[-3000:])
            fails[bad["id"]] = ["unexplainable_record"]
            ch = ch[i + 1:]
            if not ch:
                break
            json.dump(ch, open(f, "w"))
            tries += 1
            p = tlc(module, {"CASES": f, "PROP": prop}, work)
    return fails, st, tr


# --------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l:
                x = json.loads(l)
                if x.get("kind") == "known" and x["property"] == prop:
                    r.append(x)
    return r


def match_known(kf, driver, rec, clauses):
    """A finding matches a violation only by driver, signature and clause."""
    for x in kf:
        if x["driver"] != driver:
            continue
        if rec.get("sig") != x["sig"]:
            continue
        if set(clauses) <= set(x["clauses"]):
            return x
    return None


# ------------------------------------------------------------------------ main
def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[prop]
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    detail = {}
    violations, knowns = [], {}
    for old in glob.glob(os.path.join(VERIF, "replays", prop + "-*.json")):
        os.remove(old)
    kf = known_findings(prop)
    try:
        # 1. exhaustive model checking of the specification itself
        mc = [m for m in P.get("mc", []) if tier == "thorough" or not m.get("thorough_only")]
        running = []
        for m in mc:
            cfg = m.get("cfg_thorough") if tier == "thorough" and m.get("cfg_thorough") else m.get("cfg", m["module"] + ".cfg")
            env = {"OUT": os.path.join(work, m["module"] + ".ndjson"), "TIER": tier}
            running.append((m, cfg, env, tlc(m["module"], env, work, workers=m.get("workers", 4), cfg=cfg)))
        scen_of = {}
        for m, cfg, env, p in running:
            rc, out = tlc_wait(p, 800)
            a, b = stats(out)
            cov["states"] += b
            cov["transitions"] += a
            detail["mc:" + cfg] = dict(states=b, transitions=a)
            if rc != 0 or "No error has been found" not in out:
                raise Machinery("model checking of %s failed:\n%s" % (m["module"], out[-5000:]))
            if m.get("emits"):
                if not os.path.exists(env["OUT"]):
                    raise Machinery("no scenarios from " + m["module"])
                scen_of[m["module"]] = env["OUT"]
        # 2. record the implementation and validate the records
        for s in P["suites"]:
            if s.get("thorough_only") and tier != "thorough":
                continue
            drv = s["driver"]
            scen = None
            if s.get("scenario"):
                scen = scen_of[s["scenario"]]
                lim = s.get("quick" if tier == "quick" else "thorough")
                # deterministic sample of the enumerated scenarios (TLC's workers emit them in any order)
                ls = sorted(open(scen).read().splitlines(),
                            key=lambda l: hashlib.md5(("%d %s" % (seed, l)).encode()).digest())
                if lim:
                    ls = ls[:lim]
                scen = scen + ".sel"
                open(scen, "w").write("\n".join(ls) + "\n")
                n = len(ls)
            else:
                n = s["quick" if tier == "quick" else "thorough"]
            tag = drv + ("_s" if scen else "")
            tr0 = time.time()
            lines = record(drv, n, seed, tier, work, scen)
            tr1 = time.time()
            recs = []
            for k in sorted(lines):
                x = lines[k]
                if "rec" in x:
                    recs.append(x["rec"])
                elif "malformed" in x:
                    violations.append((drv, k, ["malformed_observation"], x, None))
                else:
                    violations.append((drv, k, ["terminates_normally"], x, None))
            fails, st, tr = validate(s["module"], recs, work, prop, tag)
            cov["states"] += st
            cov["transitions"] += tr
            cov["traces_validated_against_impl"] += len(recs)
            byid = {r["id"]: r for r in recs}
            trivial = sum(1 for r in recs if r.get("triv"))
            detail["suite:" + tag] = dict(cases=len(recs), trivial=trivial, record_s=round(tr1 - tr0, 1),
                                          validate_s=round(time.time() - tr1, 1))
            tags = {}
            for r in recs:
                for t in r.get("cov", []):
                    tags[t] = tags.get(t, 0) + 1
            if tags:
                detail["suite:" + tag]["situations"] = tags
            for i in (0, len(recs) // 2):
                if recs and len(cov["samples"]) < 6:
                    cov["samples"].append({"suite": tag, "case": lines[recs[i]["id"]].get("params"),
                                           "observed": _short(recs[i])})
            for k, cl in sorted(fails.items()):
                f = match_known(kf, drv, byid[k], cl)
                if f is not None:
                    knowns.setdefault(f["id"], (f, 0))
                    knowns[f["id"]] = (f, knowns[f["id"]][1] + 1)
                else:
                    violations.append((drv, k, cl, lines[k], s["module"]))
        cov["detail"] = detail
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                  violations=len(violations))
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for f, c in knowns.values():
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, f["what"], c))
        if violations:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for v in violations[:int(os.environ.get("VERIF_SHOW", "3"))]:
                drv, k, cl, x, module = v
                path = os.path.join(rd, "%s-%s-%d.json" % (prop, drv, k))
                json.dump(dict(property=prop, driver=drv, k=k, seed=seed, tier=tier, clauses=cl,
                               module=module, line=x), open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   driver=%s case=%d failed clauses: %s" % (drv, k, ", ".join(cl)))
                if "malformed" in x:
                    print("   " + x["malformed"].strip().splitlines()[-1][:300])
            summ = {}
            for drv, k, cl, x, module in violations:
                for c in cl:
                    summ[drv + ":" + c] = summ.get(drv + ":" + c, 0) + 1
            print("   %d violating cases: %s" % (len(violations), json.dumps(summ)))
            return 1
        print("OK property=%s tier=%s cases=%d states=%d wall=%.1fs %s" % (
            prop, tier, cov["traces_validated_against_impl"], cov["states"], time.time() - t0,
            json.dumps({k: v for k, v in detail.items() if k.startswith("suite")}) if os.environ.get("VERIF_DEBUG") else ""))
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("work dir kept:", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def _short(r):
    s = json.dumps(r)
    return r if len(s) < 1500 else s[:1500] + "..."


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        x = json.load(open(sys.argv[2]))
        work = tempfile.mkdtemp(prefix="verif_replay_")
        try:
            rec = x["line"].get("rec")
            print(json.dumps(x["line"], indent=1)[:6000])
            if rec and x["module"]:
                os.environ["VERIF_DEBUG"] = "1"
                print(validate(x["module"], [rec], work, x["property"], "replay"))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    try:
        return run_check(prop, tier)
    except Machinery as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
