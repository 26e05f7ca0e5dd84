#!/usr/bin/env python3
"""Rare-condition sweep (development aid): a statement is skipped, or a loop iteration is skipped, when some local name has one
particular value. Generated inputs practically never hit these, so this tests the proofs alone.

usage: rare.py OUT.jsonl [--files ...] [--sample N] [--seed S] [--jobs J]"""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import PROPS, HERE, run

VAL = 2
OBJ = {"mat", "level", "tile", "edat", "edge", "edge_data", "data", "buf", "rep", "player", "entity", "prop", "var", "region", "segment", "rmap", "seg", "reg", "writer", "reader", "args", "parser",
       "schema", "jvars", "jvar", "lhs", "rhs", "ntile", "level_data", "variables", "id_map", "areas", "pos", "caps", "angles", "filth_caps", "filth_angles", "key", "val", "self", "other", "other_level",
       "region_offsets", "region_data", "sub_writer", "sub_reader", "sshot_data", "entities", "frame", "intent_meta", "run_lengths", "header", "var_name", "ndir", "values", "value_parts", "var_value_ctns",
       "value_part", "neighbor", "stats", "new_stats", "score", "scores", "verts", "og_edge_data", "tile_data", "dust_data", "meta", "config", "util", "utility", "util_map", "subparsers", "name", "doc", "prop_type"}
FUNCS = None


def props_for(file, fn):
    """properties whose contracts name the function"""
    global FUNCS
    if FUNCS is None:
        o = subprocess.run(["python3-vt", "-c", "import importlib,json\nprint(json.dumps({'%02d'%i: importlib.import_module('vf.proof.c%02d'%i).FUNCTIONS for i in range(1,25)}))"], env=dict(os.environ, PYTHONPATH=HERE), capture_output=True, text=True).stdout
        FUNCS = json.loads(o)
    hit = [p for p in PROPS[file].split() if any(fn in f for f in FUNCS[p])]
    return hit or PROPS[file].split()


SKIP = {"setup_parser", "main_cli", "__repr__", "__str__"}


def variants(tree, every=False):
    ban = set() if every else OBJ
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name in SKIP:
            continue
        ints = [a.arg for a in fn.args.args if a.arg not in ("self", "cls")]
        stores = []
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in stores and x.id != "_":
                stores.append(x.id)

        def blocks(node, known):
            for name in ("body", "orelse", "finalbody"):
                b = getattr(node, name, None)
                if not isinstance(b, list):
                    continue
                kn = list(known)
                if isinstance(node, ast.For) and name == "body":
                    kn += [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name) and x.id != "_"]
                    new = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name) and x.id != "_" and x.id not in ban]
                    for v in new[:3]:
                        out.append((fn, node, name, 0, v, "continue"))
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.AugAssign, ast.Assign)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        tg = st.targets[0] if isinstance(st, ast.Assign) else None
                        if tg is None or isinstance(tg, (ast.Attribute, ast.Subscript)):
                            for v in [k for k in dict.fromkeys(reversed(kn)) if k not in ban][:9 if every else 3]:
                                out.append((fn, node, name, i, v, "skip"))
                        kn += [x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id != "_"]
                    elif not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        blocks(st, kn)
        blocks(fn, ints)
    return out


def make(src, idx):
    tree = ast.parse(src)
    fn, node, name, i, v, kind = variants(tree)[idx]
    b = getattr(node, name)
    desc = "%s:%d %s if %s == %d at %s" % (fn.name, b[i].lineno, kind, v, VAL, ast.unparse(b[i])[:60])
    test = ast.Compare(ast.Name(v, ast.Load()), [ast.Eq()], [ast.Constant(VAL)])
    if kind == "continue":
        b.insert(0, ast.If(test, [ast.Continue()], []))
    else:
        b[i] = ast.If(ast.UnaryOp(ast.Not(), test), [b[i]], [])
    return desc, ast.unparse(ast.fix_missing_locations(tree))


def trial(job):
    file, desc, text = job
    d = tempfile.mkdtemp(prefix="rare-")
    try:
        subprocess.run(["cp", "-a", "/repo/dustmaker", d], check=True)
        open(os.path.join(d, "dustmaker", file), "w").write(text)
        env = dict(os.environ, VERIF_REPO=d, PYTHONPATH=d + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=d)
        res, notes = {"file": file, "mutant": desc}, []
        for p in props_for(file, desc.split(':')[0]):
            o = run(["python3-vt", "-m", "vf.run_proof", "C" + p, "--seconds", "150", "--jobs", "3"], env, 400, d)
            try:
                ob = json.loads(o.strip().splitlines()[-1])["obligations"]
            except Exception:
                notes.append("C%s no result" % p)
                continue
            f = [x for x in ob if x["status"] == "failed"]
            if f:
                res["caught"] = "C%s %s" % (p, f[0]["name"][:100])
                break
            u = [x for x in ob if x["status"] not in ("failed", "discharged")]
            if u:
                notes.append("C%s undecided: %s" % (p, str(u[0].get("detail") or u[0]["name"])[:150]))
        res["notes"] = notes
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=",".join(PROPS))
    ap.add_argument("--sample", type=int, default=10 ** 6)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    jobs = []
    for file in a.files.split(","):
        src = open("/repo/dustmaker/" + file).read()
        n = len(variants(ast.parse(src)))
        if a.count:
            print(file, n)
            continue
        for i in random.Random("%s%d" % (file, a.seed)).sample(range(n), min(a.sample, n)):
            desc, text = make(src, i)
            try:
                compile(text, file, "exec")
            except SyntaxError:
                continue
            jobs.append((file, desc, text))
    random.Random(a.seed).shuffle(jobs)
    with open(a.out, "w") as f, ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(trial, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
