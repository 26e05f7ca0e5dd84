"""Worker: run one property's run-time contract on the real code (bounded).

usage: python -m vf.run_rt ID --seed N --shard i/n --seconds S [--case FILE]
prints one JSON line: {"cases":n, "distinct":m, "bad":null|{"msg":..., "case":...}}"""
import argparse
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback


class Hang(BaseException):
    pass


def _alarm(*_a):
    raise Hang()


def run_case(mod, dm, case, limit):
    from .rt.base import Bad

    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.check(dm, case)
        return None
    except Bad as e:
        return "contract violated: %s" % e
    except Hang:
        return "HANG"
    except MemoryError:
        return "MEMORY"
    except (Exception, SystemExit) as e:  # the library raised (or exited) on a valid input
        tb = traceback.extract_tb(e.__traceback__)
        lib = [f for f in tb if "/dustmaker/" in f.filename]
        if not lib:
            # not raised from library code: a flaw of the contract itself unless the library returned a
            # malformed object; report it with the location
            f = tb[-1]
            return "contract could not interpret the result: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno)
        f = lib[-1]
        return "unexpected %s: %s (%s:%d in %s)" % (type(e).__name__, str(e)[:200], os.path.basename(f.filename), f.lineno, f.name)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--cases", type=int, default=10 ** 9)
    ap.add_argument("--case")
    ap.add_argument("--pkg", default="dustmaker")  # vdust: the instrumented text the proofs execute (vf/selftest.py)
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(10000)
    from .adapt import DM
    from .gen import Gen, mine_pool

    repo = os.environ.get("VERIF_REPO", "/repo")
    mod = importlib.import_module("vf.rt." + a.id.lower())
    if a.pkg == "vdust":
        from .proof import instr
        instr.load(repo)
    dm = DM(a.pkg)
    assert os.path.realpath(dm.bitio.__file__).startswith(os.path.realpath(repo) + "/"), dm.bitio.__file__
    if a.case:
        d = json.load(open(a.case))
        m = run_case(mod, dm, d["case"] if "case" in d else d, 300)
        print(json.dumps({"cases": 1, "distinct": 1, "bad": None if m is None else {"msg": m, "case": None}}))
        return
    si, sn = map(int, a.shard.split("/"))
    rng = random.Random("%s/%d/%d" % (a.id, a.seed, si))
    g = Gen(rng, mine_pool(repo))
    t0 = time.time()
    n, seen, samples, bad = 0, set(), [], None
    for i, case in enumerate(mod.gen(g)):
        if time.time() - t0 > a.seconds or n >= a.cases:
            break
        if i < 4000 and i % sn != si:
            continue
        txt = json.dumps(case)
        case = json.loads(txt)
        m = run_case(mod, dm, case, 30)
        if m == "HANG":
            m = run_case(mod, dm, json.loads(txt), 120)
            if m == "HANG":
                m = "the call does not return (more than 120 s)"
        n += 1
        seen.add(hashlib.sha1(txt.encode()).digest()[:8])
        if len(samples) < 3 and len(txt) < 1500:
            samples.append(json.loads(txt))
        if m == "MEMORY":
            m = run_case(mod, dm, json.loads(txt), 120)
        if m is not None:
            bad = {"msg": m, "case": json.loads(txt)}
            break
    print(json.dumps({"cases": n, "distinct": len(seen), "samples": samples, "bad": bad, "s": round(time.time() - t0, 2)}))


if __name__ == "__main__":
    main()
