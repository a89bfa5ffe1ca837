"""python3-vt -m pyvc check C05 | worker ... | replay FILE"""
import importlib
import json
import os
import sys
import time

from . import harness as H


def load(prop):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    importlib.import_module("contracts." + prop.lower())


def worker(argv):
    prop, cname, case, mode, out = argv[:5]
    opts = json.loads(argv[5])
    sys.setrecursionlimit(20000)
    H.setup_path()
    H.quiet()
    devnull = open(os.devnull, "w")
    real_out = sys.stdout
    res = {"contract": cname, "case": int(case), "mode": mode}
    t0 = time.time()
    if mode == "sym":
        from .instrument import Finder
        from .hooks import HOOKS
        load(prop)
        c = H.CONTRACTS[cname]
        specs = {}
        for (m, q, n) in c.loops:
            specs.setdefault((m, q), set()).add(n)
        sys.meta_path.insert(0, Finder(H.SCRIPTS, HOOKS, specs))
        sys.stdout = devnull
        res.update(H.run_sym(c, c.cases[int(case)], opts["seconds"]))
    else:
        load(prop)
        c = H.CONTRACTS[cname]
        sys.stdout = devnull
        res.update(H.run_conc(c, c.cases[int(case)], opts.get("n", 1), opts["seconds"],
                              opts["seed"], opts.get("override")))
    sys.stdout = real_out
    res["wall_s"] = time.time() - t0
    with open(out, "w") as fh:
        json.dump(res, fh)


def main():
    cmd = sys.argv[1]
    if cmd == "worker":
        worker(sys.argv[2:])
        os._exit(0)
    elif cmd == "check":
        from . import runner
        sys.exit(runner.check(sys.argv[2]))
    elif cmd == "replay":
        from . import runner
        sys.exit(runner.replay(sys.argv[2]))
    else:
        sys.exit("usage")


main()
