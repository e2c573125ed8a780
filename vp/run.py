"""python -m vp.run PROP [--tier quick|thorough]: the check of one property.

Every contract case is verified symbolically (all dimensions, all values) on
the current sources of /repo and, independently, evaluated on seeded random
inputs by CPython on the unmodified package.  Obligations that are not
discharged are replayed on the real code with the hints of the failing path.
"""
import argparse
import collections
import fnmatch
import json
import os
import queue
import select
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONPATH="")
ENV.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")


class Worker:
    def __init__(self, mode):
        self.mode = mode
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, "-m", "vp.worker", self.mode], cwd=VERIF, env=ENV, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.err = collections.deque(maxlen=60)
        threading.Thread(target=self._drain, args=(self.p,), daemon=True).start()
        r = self._read(120)
        if not r or not r.get("ready"):
            self.kill()
            return {"error": "worker did not start", "tb": "".join(self.err)[-3000:]}

    def _drain(self, p):
        for line in p.stderr:
            self.err.append(line)

    def _read(self, timeout):
        end = time.time() + timeout
        while True:
            left = end - time.time()
            if left <= 0:
                return None
            rd, _, _ = select.select([self.p.stdout], [], [], left)
            if not rd:
                return None
            line = self.p.stdout.readline()
            if not line:
                return {"error": "worker died", "tb": "".join(self.err)[-3000:]}
            try:
                return json.loads(line)
            except ValueError:
                continue

    def kill(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def run(self, task, timeout):
        if self.p is None:
            e = self.start()
            if e:
                return e
        try:
            self.p.stdin.write(json.dumps(task) + "\n")
            self.p.stdin.flush()
        except OSError:
            self.kill()
            return {"error": "worker died"}
        r = self._read(timeout)
        if r is None:
            self.kill()
            return {"error": f"no answer in {timeout:.0f} s", "timeout": True}
        if "error" in r and "died" in r["error"]:
            self.kill()
        return r


def run_pool(tasks, nworkers, deadline):
    """tasks: list of dicts with 'mode'; fills task['res']"""
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get("weight", 1))
    qs = {"sym": queue.Queue(), "con": queue.Queue()}
    for i in order:
        qs[tasks[i]["mode"]].put(i)
    nsym, ncon = qs["sym"].qsize(), qs["con"].qsize()
    if not tasks:
        return
    if nsym and ncon:
        k = max(1, min(ncon, round(nworkers * 0.35)))
        plan = ["con"] * k + ["sym"] * min(nsym, nworkers - k)
    else:
        plan = (["sym"] * min(nsym, nworkers)) if nsym else ["con"] * min(ncon, nworkers)

    def loop(mode):
        w = None
        try:
            for mode in (mode, "sym" if mode == "con" else "con"):
                while True:
                    try:
                        i = qs[mode].get_nowait()
                    except queue.Empty:
                        break
                    t = tasks[i]
                    left = deadline - time.time()
                    if left < 3:
                        t["res"] = {"error": "the check's time is used up", "timeout": True}
                        continue
                    if w is None or w.mode != mode:
                        if w:
                            w.kill()
                        w = Worker(mode)
                    msg = {k: v for k, v in t.items() if k not in ("mode", "res", "weight")}
                    msg["budget"] = min(t["budget"], max(2, left - 5))
                    t["res"] = w.run(msg, min(t["budget"] * 1.5 + 20, left))
                if w:
                    w.kill()
                    w = None
        finally:
            if w:
                w.kill()

    ths = [threading.Thread(target=loop, args=(m,)) for m in plan]
    for t in ths:
        t.start()
    for t in ths:
        t.join()


def load_known():
    f = os.path.join(VERIF, "known_findings.json")
    try:
        with open(f) as h:
            return json.load(h)["findings"]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="contract name pattern (development)")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    total = 420 if tier == "quick" else 840
    deadline = t0 + total
    sys.path[:0] = [VERIF]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from vp import harness
    harness.load_contracts(a.prop)
    cons = [c for (p, n), c in harness.REGISTRY.items() if p == a.prop and (not a.only or fnmatch.fnmatch(n, a.only))]
    known = [k for k in load_known() if k["property"] == a.prop]
    mult = 1 if tier == "quick" else 8
    tasks = []
    for c in cons:
        for i, case in enumerate(c.tasks()):
            base = {"prop": c.prop, "name": c.name, "case": i}
            if "sym" in c.modes:
                tasks.append(dict(base, mode="sym", budget=c.budget * (1 if tier == "quick" else 3), weight=2))
            if "con" in c.modes:
                tasks.append(dict(base, mode="con", trials=c.trials * mult, budget=20 * mult, seed=seed,
                                  known=[k for k in known if k["contract"] == c.name]))
    run_pool(tasks, a.jobs, deadline - 60)

    # second phase: replay of undischarged obligations; bounded re-runs
    more = []
    for t in tasks:
        if t["mode"] != "sym":
            continue
        c = harness.REGISTRY[(t["prop"], t["name"])]
        r = t["res"]
        base = {"prop": t["prop"], "name": t["name"], "case": t["case"]}
        hints = []
        if "error" not in r:
            hints += [o["hints"] for o in r["obligations"].values() if not o["ok"] and o.get("hints")]
            hints += [h for _, h in r["exceptions"]]
        bad = "error" in r or r["unsupported"] or r["exceptions"] or any(
            not o["ok"] for o in r["obligations"].values())
        if bad and "con" in c.modes:
            hs = []
            for h in hints:
                if h not in hs:
                    hs.append(h)
            kn = [k for k in known if k["contract"] == c.name]
            for h in hs[:3]:
                more.append(dict(base, mode="con", trials=c.trials * 4 * mult, budget=20 * mult, seed=seed + 1, hints=h,
                                 known=kn))
            more.append(dict(base, mode="con", trials=c.trials * 6 * mult, budget=25 * mult, seed=seed + 2, known=kn))
        if bad and c.bound and not any(not o["ok"] and o["definite"] for o in r.get("obligations", {}).values()):
            more.append(dict(base, mode="sym", budget=c.budget, fixed=c.bound, weight=2))
    run_pool(more, a.jobs, deadline)
    return report(a, tier, seed, t0, cons, tasks, more, known, harness)


def report(a, tier, seed, t0, cons, tasks, more, known, harness):
    violations = []
    nofail = []
    findings = {}
    undis = []
    bounded = []
    obligations = discharged = paths = queries = 0
    bobl = bdis = 0
    ztime = 0.0
    rules, assumed = collections.Counter(), collections.Counter()
    funcs_sym, funcs_con = set(), set()
    trials = skipped = checks = distinct = 0
    notes = []
    samples = []
    perc = {}
    vac = []
    errors = []

    def kn(cname, label, case):
        for k in known:
            if k["contract"] == cname and fnmatch.fnmatch(label, k.get("label", "*")) and \
                    all(str(case.get(x)) == str(y) for x, y in k.get("case", {}).items()):
                return k
        return None

    for phase, ts in (("first", tasks), ("second", more)):
        for t in ts:
            c = harness.REGISTRY[(t["prop"], t["name"])]
            case = list(c.tasks())[t["case"]]
            cid = c.name + ("" if not case else "[" + ",".join(f"{v}" for v in case.values()) + "]")
            r = t["res"]
            pc = perc.setdefault(cid, {"obligations": 0, "discharged": 0, "paths": 0, "concrete_trials": 0,
                                       "status": "bounded" if "sym" not in c.modes else "?"})
            if "error" in r:
                errors.append(f"{t['mode']} {cid}: {r['error']}")
                if t["mode"] == "sym" and phase == "first":
                    undis.append({"contract": cid, "why": r["error"]})
                    pc["status"] = "not discharged"
                if a.v:
                    print(r.get("tb", ""))
                continue
            if t["mode"] == "con":
                funcs_con.update(r["funcs"])
                trials += r["trials"]
                skipped += r["skipped"]
                checks += r["checks"]
                distinct += r["distinct"]
                pc["concrete_trials"] += r["trials"]
                if r["trials"] and len(samples) < 3 and r.get("sample"):
                    samples.append({"contract": cid, "inputs": r["sample"]})
                if phase == "first" and not r["trials"] and not r["violation"] and not r.get("known"):
                    vac.append(f"{cid}: no concrete trial met the precondition")
                for k in r.get("known", []):
                    findings[k["id"]] = k
                if r["violation"]:
                    violations.append((cid, r["violation"]))
                continue
            # symbolic
            funcs_sym.update(r["funcs"])
            queries += r["stats"]["queries"]
            ztime += r["stats"]["ztime"]
            rules.update(r["rules"])
            assumed.update(r["assumed"])
            nob = len(r["obligations"])
            ok = sum(1 for o in r["obligations"].values() if o["ok"])
            clean = not r["unsupported"] and not r["exceptions"]
            if phase == "second":
                bobl += nob
                bdis += ok
                if clean and ok == nob:
                    bounded.append({"contract": cid, "bound": t["fixed"], "obligations": nob})
                    pc["status"] = f"discharged for {t['fixed']} only"
                continue
            paths += r["paths"]
            obligations += nob + len(r["exceptions"])
            discharged += ok if clean else 0
            pc.update(obligations=nob, discharged=ok if clean else 0, paths=r["paths"])
            pc["status"] = "proved" if clean and ok == nob else "not discharged"
            if clean and (nob == 0 or not r["cover"]):
                vac.append(f"{cid}: no obligation was generated on a feasible path")
            for u in r["unsupported"][:2]:
                undis.append({"contract": cid, "why": "outside the supported subset: " + u[:300]})
            for e, h in r["exceptions"][:2]:
                undis.append({"contract": cid, "why": "exception on a path: " + e[:300]})
            for label, o in r["obligations"].items():
                if not o["ok"]:
                    if kn(c.name, label, case):
                        k = kn(c.name, label, case)
                        findings[k["id"]] = k
                        continue
                    undis.append({"contract": cid, "obligation": label, "why": o["why"][:300],
                                  "refuted": o["definite"]})
                    if o["definite"]:
                        nofail.append((cid, c, case, label, o))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", f"{a.prop}.json")
    rp = os.path.join(VERIF, "evidence", f"replay-{a.prop}.json")
    rc = 0
    line = None
    vio_c = {cid for cid, _ in violations}
    if violations:
        cid, v = violations[0]
        v["obligation"] = [u for u in undis if u["contract"] == cid][:3]
        v["replay_cmd"] = f"cd /verif && /opt/venv/bin/python -m vp.replay {rp}"
        v["also"] = sorted({c for c, _ in violations})[:20]
        with open(rp, "w") as h:
            json.dump(v, h, indent=1, default=str)
        line = f"VIOLATION property={a.prop} replay={rp}"
        rc = 1
    elif nofail:
        cid, c, case, label, o = nofail[0]
        with open(rp, "w") as h:
            json.dump({"property": a.prop, "contract": c.name, "case": case, "failed_obligation": label,
                       "verifier_output": o["why"], "path": o.get("hints"), "note": "no failing input found"}, h,
                      indent=1, default=str)
        line = f"VIOLATION property={a.prop} replay={rp} no-failing-input-found"
        rc = 1
    if vac and rc == 0:
        for x in vac:
            print("VACUOUS", x)
    anysym = any("sym" in c.modes for c in cons)
    level = "proof" if anysym and obligations else "exploration"
    with open(os.path.join(VERIF, "MANIFEST.json")) as h:
        for k in json.load(h)["checks"]:
            if k["property"] == a.prop:
                level = k["level"]
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"cd /verif && /opt/venv/bin/python -m vp.run {a.prop} --tier {tier}",
        "trusted_base": TRUSTED,
        "evaluations": trials, "distinct_nontrivial": distinct,
        "rule": "seeded random dimensions, options and values of each contract's precondition, evaluated by CPython "
                "on the unmodified package; distinct = different recorded dimensions/options per contract case",
        "samples": samples or ["none"],
        "explanation": "obligations are postconditions of contracts, counted once per contract case and label and "
                       "discharged only if valid on every explored path for all dimensions and values",
        "contracts": perc,
        "bounded": {"dimension-bounded symbolic": bounded, "obligations": bobl, "discharged": bdis,
                    "concrete stand-ins": sorted(k for k, v in perc.items() if v["status"] == "bounded")},
        "undischarged": undis[:40],
        "functions_under_contract": sorted(funcs_sym),
        "functions_executed_concretely_only": sorted(funcs_con - funcs_sym),
        "paths": paths,
        "backends": {"term normaliser (vp.terms), with z3 4.x for integer side conditions": discharged,
                     "z3 queries": queries, "z3 seconds": round(ztime, 2)},
        "rewrite_rules_used": dict(rules), "assumed_contracts_used": dict(assumed),
        "concrete_checks": checks, "concrete_skipped": skipped, "errors": errors[:10], "vacuity": vac,
    }
    with open(ev, "w") as h:
        json.dump({"property": a.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": ASSUMPTIONS + sorted(f"assumed contract: {k}" for k in assumed),
                   "wall_s": round(time.time() - t0, 1), "violations": len(vio_c) + (0 if violations else len(nofail))},
                  h, indent=1, default=str)
    for k in findings.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    st = collections.Counter(v["status"] for v in perc.values())
    print(f"{a.prop}: {discharged}/{obligations} obligations discharged on {paths} paths, {queries} z3 queries "
          f"({ztime:.1f} s); contract cases: {dict(st)}; {trials} concrete runs, {checks} checks; "
          f"{time.time() - t0:.0f} s")
    for u in undis[:60 if a.v else 12]:
        print("  not discharged:", u["contract"], u.get("obligation", ""), u["why"][:220])
    for e in errors[:20]:
        print("  error:", e)
    if violations:
        for cid, v in violations[:10]:
            print("  failing input:", cid, v["inputs"], [(l, w[:300]) for l, w in v["failures"][:2]])
    if line:
        print(line)
    nocon = trials == 0
    if rc == 0 and (vac or nocon or not cons):
        # the machinery itself is broken: refuse to answer
        print("check is vacuous: no verdict")
        return 2
    return rc


TRUSTED = ["CPython 3.12 executing the sources of /repo/src/opinf (symbolic values enter through operator "
           "overloading and the numpy shims)", "vp.terms / vp.core / vp.arrays (normaliser and array theory)",
           "vp.shim and vp.assumed (contracts of numpy and scipy functions)", "vp.loader, vp.loops (mechanical "
           "extraction: builtin calls, comprehensions, for loops)", "z3"]
ASSUMPTIONS = ["machine arithmetic is treated as exact real arithmetic in the symbolic runs",
               "numpy/scipy functions satisfy the contracts stated in vp/shim.py and vp/assumed.py"]

if __name__ == "__main__":
    sys.exit(main())
