"""Run every contract of a property, decide the verdict, write the evidence."""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import harness as H

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
PY = sys.executable

TIME_LIMIT = 400        # seconds for a quick check, replay excluded

TRUSTED = [
    "CPython 3.12 executes the instrumented functions (control flow, attribute access, classes, "
    "generators, exceptions)",
    "pyvc instrumentation and its models of str, list, dict, set, re and len/int/sorted/... "
    "(/verif/pyvc; cross-checked on every run by running the same contracts on the plain code)",
    "z3 5.x (python3-vt) and cvc5 1.1.2 decide the obligations",
    "strings are ASCII; integers are mathematical (as in Python)",
]


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def run_job(job):
    prop, cname, case, mode, opts = job
    fd, out = tempfile.mkstemp(prefix="pyvc_", suffix=".json")
    os.close(fd)
    scratch = tempfile.mkdtemp(prefix="pyvc_w_")
    env = dict(os.environ)
    env["PYTHONPATH"] = VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["TMPDIR"] = scratch
    cmd = [PY, "-m", "pyvc", "worker", prop, cname, str(case), mode, out, json.dumps(opts)]
    t0 = time.time()
    res = None
    err = ""
    try:
        p = subprocess.run(cmd, cwd=scratch, env=env, capture_output=True, text=True,
                           timeout=opts["seconds"] + opts.get("grace", 60))
        err = p.stderr[-3000:]
        with open(out) as fh:
            txt = fh.read()
        if txt:
            res = json.loads(txt)
    except subprocess.TimeoutExpired:
        err = "job time limit"
    except (OSError, ValueError) as exc:
        err = str(exc)
    finally:
        if os.path.exists(out):
            os.unlink(out)
        shutil.rmtree(scratch, ignore_errors=True)
    if res is None:
        res = {"contract": cname, "case": case, "mode": mode, "error": err or "no result",
               "wall_s": time.time() - t0}
    return res


def load_contracts(prop):
    H.CONTRACTS.clear()
    sys.path.insert(0, VERIF)
    import importlib
    importlib.import_module("contracts." + prop.lower())
    # helpers imported from another property's module bring its contracts along
    for n in [n for n, c in H.CONTRACTS.items() if c.func.__module__ != "contracts." + prop.lower()]:
        del H.CONTRACTS[n]
    return H.CONTRACTS


def findings(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                m = re.match(r"finding: property=(\w+) obligation=<(.*?)> inputs=<(.*?)> (.*)", line)
                if m and m.group(1) == prop:
                    out.append(m.groups()[1:])
    return out


def code_size(funcs):
    """statements of the functions under contract, read from the current tree"""
    return None


def check(prop):
    t0 = time.time()
    tr, sd = tier(), seed()
    contracts = load_contracts(prop)
    mult = 1 if tr == "quick" else 8
    jobs = []
    for c in contracts.values():
        for i in range(len(c.cases)):
            if c.sym:
                jobs.append((prop, c.name, i, "sym",
                             {"seconds": c.sym_s if tr == "quick" else c.sym_s * 3, "seed": sd}))
            if c.conc:
                jobs.append((prop, c.name, i, "conc",
                             {"seconds": c.budget * (1 if tr == "quick" else 6), "seed": sd,
                              "n": c.conc * mult}))
    only = os.environ.get("PYVC_ONLY")          # development aid
    if only:
        jobs = [j for j in jobs if re.search(only, j[1])]
    # the bounded runs first, so that every contract is exercised before the time is used up
    jobs.sort(key=lambda j: (j[3] == "sym", -j[4]["seconds"]))
    ncpu = max(2, min(8, os.cpu_count() or 2))
    limit = t0 + (TIME_LIMIT if tr == "quick" else 6 * TIME_LIMIT)

    def timed(job):
        left = limit - time.time()
        if job[3] == "sym" and left < 3:
            return {"contract": job[1], "case": job[2], "mode": "sym", "wall_s": 0,
                    "error": "no time left within the limit of the check"}
        job[4]["seconds"] = max(3, min(job[4]["seconds"], left))
        job[4]["grace"] = 40
        return run_job(job)
    with ThreadPoolExecutor(ncpu) as ex:
        results = list(ex.map(timed, jobs))

    violations = []       # (obligation, replay dict, confirmed)
    undecided = []
    obls, backends, solver_s, queries, paths = {}, {}, 0.0, 0, 0
    evals = distinct = ccheck = 0
    exhaustive, samples, bounded = [], [], []
    replays = []
    for r in results:
        c = contracts[r["contract"]]
        tag = c.name if len(c.cases) == 1 else "%s[%s]" % (c.name, c.cases[r["case"]])
        if r["mode"] == "conc":
            if "error" in r:
                undecided.append("%s: bounded search gave no result: %s" % (tag, r["error"][-300:]))
                continue
            evals += r["evaluations"]
            distinct += r["distinct"]
            ccheck += r["checks"]
            bounded.append({"contract": tag, "cases": r["evaluations"], "distinct": r["distinct"],
                            "exhaustive_over_stated_domain": r["exhaustive"]})
            samples.extend({"contract": tag, "inputs": s} for s in r["samples"][:1])
            if r["violation"]:
                violations.append((r["violation"], r, True))
            continue
        if "error" in r:
            undecided.append("%s: prover gave no result: %s" % (tag, r["error"][-300:]))
            continue
        solver_s += r["stats"]["solver_s"]
        queries += r["stats"]["queries"]
        paths += r["stats"]["paths"]
        for n, o in r["obls"].items():
            key = tag + n[len(c.name):] if n.startswith(c.name) else tag + " / " + n
            obls[key] = o["status"]
            if o["status"] == "discharged" and not r["complete"]:
                obls[key] = "partial"
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            if o["status"] == "undecided":
                undecided.append("%s: %s" % (key, o["detail"][:200]))
        if not r["complete"]:
            undecided.append("%s: not every path explored (%s %s)" % (
                tag, r["unsupported"] or "", r["limits"]))
        if r["complete"] and not r["failed"] and not r["exceptions"] and \
                (not r["obls"] or not r["done_paths"]):
            undecided.append("%s: vacuous (%d obligations, %d complete paths)" % (
                tag, len(r["obls"]), r["done_paths"]))
        seen = set()
        cand = [(n, i, o) for n, i in r["failed"] for o in [r["obls"].get(n, {})]]
        for n, inp, o in cand:
            replays.append((c, r["case"], n, inp, o.get("detail", ""), o.get("status")))
        for e in r["exceptions"]:
            replays.append((c, r["case"], "%s: no unexpected exception" % c.name, e["inputs"],
                            e["detail"], "exception"))

    # replay counter-models on the plain code
    confirmed_conc = {(r["contract"], r["case"]) for v, r, _ in violations}
    rjobs = [(prop, c.name, case, "replay",
              {"seconds": 60, "seed": sd, "override": inp}) for c, case, _, inp, _, _ in replays]
    with ThreadPoolExecutor(ncpu) as ex:
        rres = list(ex.map(run_job, rjobs))
    unconfirmed = {}
    for (c, case, n, inp, detail, st), rr in zip(replays, rres):
        if rr.get("violation"):
            violations.append((dict(rr["violation"], proof_obligation=n, verifier=detail),
                               {"contract": c.name, "case": case}, True))
            confirmed_conc.add((c.name, case))
        else:
            unconfirmed.setdefault((c.name, case, n), (inp, detail, st))
    for (cn, case, n), (inp, detail, st) in unconfirmed.items():
        if (cn, case) in confirmed_conc:
            continue
        if st == "failed" and contracts[cn].exact:
            violations.append(({"obligation": n, "detail": detail, "inputs": inp},
                               {"contract": cn, "case": case}, False))
        else:
            undecided.append("%s: %s (not reproduced on the real code): %s" % (
                n, st, detail[:300]))

    known, fresh = [], []
    fl = findings(prop)
    for v, r, conf in violations:
        hit = [f for f in fl if f[0] == v["obligation"] and
               f[1] == json.dumps(v["inputs"], sort_keys=True)]
        (known if hit else fresh).append((v, r, conf))
    for v, r, _ in known:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, v["obligation"],
                                                    json.dumps(v["inputs"])[:300]))

    rdir = os.path.join(VERIF, "replay")
    code = 0
    best = sorted(fresh, key=lambda x: not x[2])
    if best:
        code = 1
        os.makedirs(rdir, exist_ok=True)
        v, r, conf = best[0]
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as fh:
            json.dump({"property": prop, "contract": r["contract"], "case": r["case"],
                       "obligation": v.get("proof_obligation", v["obligation"]),
                       "failed": v["obligation"], "inputs": v["inputs"], "detail": v["detail"],
                       "verifier_output": v.get("verifier", v["detail"]),
                       "replayed_on_real_code": conf,
                       "replay_cmd": "cd /verif && python3-vt -m pyvc replay %s" % path,
                       "others": [{"failed": w["obligation"], "confirmed": k}
                                  for w, _, k in best[1:20]]}, fh, indent=1)
        print("failed obligation: %s" % v["obligation"])
        print("inputs: %s" % json.dumps(v["inputs"])[:1500])
        print(str(v["detail"])[:1500])
        print("VIOLATION property=%s replay=%s%s" % (
            prop, path, "" if conf else " no-failing-input-found"))

    ndis = sum(1 for s in obls.values() if s == "discharged")
    funcs = []
    for c in contracts.values():
        for f in c.funcs:
            if f not in funcs:
                funcs.append(f)
    pure_bounded = [c.name for c in contracts.values() if not c.sym]
    level = LEVELS.get(prop, "proof" if ndis else "other")
    ev = {
        "property": prop, "tier": tr, "seed": sd, "level": level,
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        "coverage": {
            "obligations": len(obls), "discharged": ndis,
            "checker_cmd": "cd /verif && python3-vt -m pyvc check %s" % prop,
            "trusted_base": TRUSTED,
            "functions_under_contract": funcs,
            "paths": paths, "solver_queries": queries, "solver_s": round(solver_s, 2),
            "back_ends": backends,
            "undischarged": {k: s for k, s in obls.items() if s != "discharged"},
            "undecided": undecided,
            "bounded_contracts": pure_bounded,
            "bounded_runs": bounded,
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "bounded runs: the contract executed on the unmodified code with generated "
                    "inputs; a case counts when its precondition holds and its inputs differ from "
                    "all earlier ones; never counted as proved",
            "samples": samples[:12],
            "explanation": "Contracts of /verif/contracts/%s.py; obligations generated from the "
                           "current /repo/scripts by symbolic execution of every path and "
                           "discharged by the back ends; contracts listed under "
                           "bounded_contracts are bounded stand-ins" % prop.lower(),
        },
        "assumptions": [c.name + ": " + c.note for c in contracts.values() if c.note],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided notes, %d bounded cases (%d distinct), "
          "%d paths, %.1f s" % (prop, len(obls), ndis, len(undecided), evals, distinct, paths,
                                time.time() - t0))
    for u in undecided[:20]:
        print("  undecided: " + u.replace("\n", " ")[:600])
    if os.environ.get("PYVC_VERBOSE"):
        for r in results:
            print("   job %s[%s] %s %.1fs %s" % (r["contract"], r["case"], r["mode"],
                                                 r.get("wall_s", 0),
                                                 r.get("evaluations", len(r.get("obls", {})))))
    if not code and not evals and not ndis:
        print("nothing was checked")
        return 2
    return code


def level_of(prop):
    try:
        with open(os.path.join(VERIF, "MANIFEST.json")) as fh:
            for c in json.load(fh)["checks"]:
                if c["property"] == prop:
                    return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "proof"


class _Levels(dict):
    def get(self, k, d=None):
        return level_of(k)


LEVELS = _Levels()


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    r = run_job((d["property"], d["contract"], d["case"], "replay",
                 {"seconds": 120, "seed": seed(), "override": d["inputs"]}))
    if r.get("violation"):
        print("reproduced: %s" % r["violation"]["obligation"])
        print(json.dumps(r["violation"]["inputs"], indent=1))
        print(r["violation"]["detail"])
        return 1
    print("not reproduced on the current tree%s" % (": " + r["error"] if "error" in r else ""))
    return 0
