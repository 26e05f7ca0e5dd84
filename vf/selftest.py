"""Self-test of the instrumentation (run by hand; no property depends on its output).

The text the proofs execute is the code that runs: the run-time contracts of every property are evaluated on the
instrumented package `vdust` instead of `dustmaker`, both outside a proof (shims pass through) and inside one
(tracked lists and dicts, instrumented loops and calls, all values concrete).
That wrong code is noticed by the proofs is tested by tools/mutate.py (mutation sweep).

usage: python3-vt -m vf.selftest [--seconds S] [ids...]"""
import argparse
import importlib
import json
import random
import signal
import sys
import time

from .adapt import DM
from .gen import Gen, mine_pool
from .rt.base import Bad


class Late(Exception):
    pass


def _late(*_a):
    raise Late()


def differential(pid, seconds, inrun):
    from .proof import engine as E, instr
    import os

    repo = os.environ.get("VERIF_REPO", "/repo")
    instr.load(repo)
    dm = DM("vdust")
    mod = importlib.import_module("vf.rt." + pid.lower())
    g = Gen(random.Random("selftest" + pid), mine_pool(repo))
    t0, n, uns, why = time.time(), 0, 0, {}
    for i, case in enumerate(mod.gen(g)):
        if time.time() - t0 > seconds:
            break
        if inrun and len(json.dumps(case)) > 200000:
            continue
        case = json.loads(json.dumps(case))
        ex = E.Explorer("selftest", time.time() + 60)
        signal.signal(signal.SIGALRM, _late)
        signal.alarm(30)
        try:
            if inrun:
                E.cur = E.Run(ex, [])
            mod.check(dm, case)
            n += 1
        except (E.Unsupported, Late) as e:
            uns += 1
            why[str(e)[:80]] = why.get(str(e)[:80], 0) + 1
        except Bad as e:
            return n, uns, why, "%s on %s" % (e, json.dumps(case)[:300])
        finally:
            E.cur = None
            signal.alarm(0)
    return n, uns, why, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seconds", type=float, default=4)
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    sys.setrecursionlimit(10000)
    bad = 0
    for pid in a.ids or ["C%02d" % i for i in range(1, 25)]:
        for inrun in (False, True):
            try:
                n, uns, why, msg = differential(pid, a.seconds, inrun)
            except Exception as e:
                n, uns, why, msg = 0, 0, {}, "%s: %s" % (type(e).__name__, e)
                import traceback
                traceback.print_exc(limit=-4)
            print("%s %s: %d contract evaluations agree, %d outside the subset %s%s" % (pid, "inside a run" if inrun else "instrumented", n, uns, why or "", " MISMATCH " + msg if msg else ""), flush=True)
            bad += msg is not None
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
