#!/usr/bin/env python3
"""Soundness test of the proofs (development aid): of every mutant of the source that the run-time contracts of a property refute
on the real code, the proof of that property must not discharge every obligation. Mutants: those of mutate.py, and statements
skipped on a condition over a local name (falsy, truthy, or equal to a value).

usage: holes.py OUT.jsonl [--files ...] [--sample N] [--seed S] [--jobs J] [--kinds mutate,falsy,truthy,eq]"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rare
from mutate import PROPS, HERE, run, sites, apply

CONSTS = [0, 1, 2, 3, 4, 7, 19, 255, 100, b"", "", -1]


def conditional(src, rng, kind):
    tree = ast.parse(src)
    vs = rare.variants(tree, every=True)
    fn, node, name, i, v, how = rng.choice(vs)
    b = getattr(node, name)
    t = ast.Name(v, ast.Load())
    test = t if kind == "truthy" else ast.UnaryOp(ast.Not(), t) if kind == "falsy" else ast.Compare(t, [ast.Eq()], [ast.Constant(rng.choice(CONSTS))])
    desc = "%s:%d %s if %s at %s" % (fn.name, b[i].lineno, how, ast.unparse(test), ast.unparse(b[i])[:60])
    if how == "continue":
        b.insert(0, ast.If(test, [ast.Continue()], []))
    else:
        b[i] = ast.If(ast.UnaryOp(ast.Not(), test), [b[i]], [])
    return desc, ast.unparse(ast.fix_missing_locations(tree))


def trial(job):
    file, desc, text = job
    d = tempfile.mkdtemp(prefix="hole-")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        open(os.path.join(d, "dustmaker", file), "w").write(text)
        env = dict(os.environ, VERIF_REPO=d, PYTHONPATH=d + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=d)
        res = {"file": file, "mutant": desc, "by": {}}
        for p in PROPS[file].split():
            o = run(["python3-vt", "-m", "vf.run_rt", "C" + p, "--seconds", "2"], env, 200, d)
            try:
                bad = json.loads(o.strip().splitlines()[-1])["bad"]
            except Exception:
                continue
            if not bad:
                continue
            o = run(["python3-vt", "-m", "vf.run_proof", "C" + p, "--seconds", "100", "--jobs", "2"], env, 400, d)
            try:
                ob = json.loads(o.strip().splitlines()[-1])["obligations"]
            except Exception:
                res["by"]["C" + p] = "no result"
                continue
            st = {x["status"] for x in ob}
            res["by"]["C" + p] = "failed" if "failed" in st else "undecided" if st != {"discharged"} else "DISCHARGED: " + bad["msg"][:150]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=",".join(PROPS))
    ap.add_argument("--sample", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--kinds", default="mutate,falsy,truthy,eq")
    a = ap.parse_args()
    jobs, seen = [], set()
    for file in a.files.split(","):
        src = open("/repo/dustmaker/" + file).read()
        rng = random.Random("%s%d" % (file, a.seed))
        for kind in a.kinds.split(","):
            if kind == "mutate":
                tree = ast.parse(src)
                ss = sites(tree)
                new = [(s[1], lambda s=s: ast.unparse(apply(tree, s))) for s in rng.sample(ss, min(a.sample, len(ss)))]
            elif not rare.variants(ast.parse(src), every=True):
                new = []
            else:
                new = [(lambda x: (x[0], lambda: x[1]))(conditional(src, rng, kind)) for _ in range(a.sample)]
            for desc, t in new:
                try:
                    t = t()
                    compile(t, file, "exec")
                except Exception:
                    continue
                if t not in seen:
                    seen.add(t)
                    jobs.append((file, desc, t))
    random.Random(a.seed).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with open(a.out, "w") as f, ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(trial, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
