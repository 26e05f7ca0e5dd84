#!/usr/bin/env python3
"""Mutation sweep over /repo/dustmaker (development aid, no registered check uses it).

usage: mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--jobs J]
Each mutant is made in a scratch copy; it is first tried on the run-time contracts (3 s each), then on the proofs
of the properties its file belongs to. Records who noticed it; survivors are for inspection."""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"bitio.py": "01 02", "dfreader.py": "03 04 05 07 08 09 10 22 24", "dfwriter.py": "03 04 05 07 08 09 10 21 22 24",
         "entity.py": "20 14 17 08 21", "level.py": "15 16 14 17 20 09", "prop.py": "14 08", "replay.py": "10", "tile.py": "06 12 13 23 21 15 16 07",
         "transform.py": "11 14 12 13 24", "variable.py": "05 20 23 18 19 22", "cmd/variables.py": "18 24", "cmd/thumbnail.py": "24", "cmd/transform.py": "24",
         "cmd/save_convert.py": "19", "cmd/common.py": "24", "cmd/main.py": "24"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv, ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult, ast.FloorDiv], ast.Mod: [ast.FloorDiv],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor], ast.BitXor: [ast.BitOr], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Pow: [ast.Mult]}


def sites(tree):
    """(path of fields to the node, description, replacement function)"""
    out = []

    def walk(node, path, fn, doc=False):
        def add(desc, f):
            out.append((list(path), "%s:%s %s" % (fn or "-", getattr(node, "lineno", "?"), desc), f))
        if isinstance(node, ast.Compare):
            for i, o in enumerate(node.ops):
                if type(o) in CMP:
                    def f(n, i=i, o=o):
                        n.ops[i] = CMP[type(o)]()
                        return n
                    add("%s -> %s in %s" % (type(o).__name__, CMP[type(o)].__name__, ast.unparse(node)), f)
        if isinstance(node, ast.BinOp):
            for t in BIN.get(type(node.op), []):
                def f(n, t=t):
                    n.op = t()
                    return n
                add("%s -> %s in %s" % (type(node.op).__name__, t.__name__, ast.unparse(node)[:60]), f)
        if isinstance(node, ast.BoolOp):
            def f(n):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                return n
            add("and/or in " + ast.unparse(node)[:60], f)
            for i in range(len(node.values)):
                def f(n, i=i):
                    del n.values[i]
                    return n if len(n.values) > 1 else n.values[0]
                add("drop operand %d of %s" % (i, ast.unparse(node)[:60]), f)
        if isinstance(node, ast.UnaryOp):
            add("drop unary in " + ast.unparse(node)[:60], lambda n: n.operand)
        if isinstance(node, ast.Constant) and not doc:
            v = node.value
            if isinstance(v, bool):
                add("not %r" % v, lambda n: ast.Constant(not n.value))
            elif isinstance(v, (int, float)):
                add("%r + 1" % v, lambda n: ast.Constant(n.value + 1))
                add("%r - 1" % v, lambda n: ast.Constant(n.value - 1))
            elif isinstance(v, str) and v:
                add("%r changed" % v, lambda n: ast.Constant(n.value + "x"))
            elif isinstance(v, bytes):
                add("%r changed" % v, lambda n: ast.Constant(n.value + b"x"))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            def f(n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                return n
            add("negated " + ast.unparse(node.test)[:60], f)
        if isinstance(node, ast.If):
            def f(n):
                n.test = ast.Constant(False)
                return n
            add("never " + ast.unparse(node.test)[:60], f)
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.Assert)) and fn and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            add("dropped " + ast.unparse(node)[:70], lambda n: ast.Pass())
        if isinstance(node, ast.Return) and node.value is not None and fn:
            add("returns None", lambda n: ast.Return(ast.Constant(None)))
        if isinstance(node, ast.Call) and fn:
            if len(node.args) >= 2:
                def f(n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                    return n
                add("swapped arguments of " + ast.unparse(node)[:60], f)
            for i, k in enumerate(node.keywords):
                def f(n, i=i):
                    del n.keywords[i]
                    return n
                add("keyword %s dropped in %s" % (k.arg, ast.unparse(node)[:60]), f)
            if isinstance(node.func, ast.Name) and node.func.id in ("abs", "round", "int", "sorted", "min", "max", "float", "bool", "list", "tuple") and len(node.args) == 1:
                add("call removed in " + ast.unparse(node)[:60], lambda n: n.args[0])
        if isinstance(node, ast.Tuple) and len(node.elts) == 2 and fn:
            def f(n):
                n.elts.reverse()
                return n
            if isinstance(node.ctx, ast.Load):
                add("reversed " + ast.unparse(node)[:60], f)
        # children
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + node.name
        for name, val in ast.iter_fields(node):
            if name in ("annotation", "returns", "decorator_list", "bases", "type_comment"):
                continue
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        if isinstance(x, (ast.Import, ast.ImportFrom)):
                            continue
                        d = isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
                        if d:
                            continue
                        walk(x, path + [(name, i)], fn)
            elif isinstance(val, ast.AST):
                walk(val, path + [(name, None)], fn)

    walk(tree, [], None)
    return out


def apply(tree, site):
    path, _d, f = site
    t = copy.deepcopy(tree)
    if not path:
        return None
    par = t
    for name, i in path[:-1]:
        par = getattr(par, name)
        if i is not None:
            par = par[i]
    name, i = path[-1]
    cur = getattr(par, name)
    if i is None:
        setattr(par, name, f(cur))
    else:
        cur[i] = f(cur[i])
    return ast.fix_missing_locations(t)


def run(cmd, env, t, cwd):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, timeout=t)
        return p.stdout
    except subprocess.TimeoutExpired:
        return None


def tests_pass(d):
    # "-x" on the repository's own tests
    p = subprocess.run(["python3-vt", "-m", "pytest", "-q", "-x", "tests"], cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=300)
    return p.returncode == 0


def trial(job):
    file, desc, text, only_tested = job
    d = tempfile.mkdtemp(prefix="mutant-")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        open(os.path.join(d, "dustmaker", file), "w").write(text)
        env = dict(os.environ, VERIF_REPO=d, PYTHONPATH=d + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=d)
        res = {"file": file, "mutant": desc}
        if only_tested:
            try:
                if not tests_pass(d):
                    res["caught"] = "tests"
                    return res
            except subprocess.TimeoutExpired:
                res["caught"] = "tests"
                return res
        notes = []
        for p in PROPS[file].split():
            o = run(["python3-vt", "-m", "vf.run_rt", "C" + p, "--seconds", "3"], env, 200, d)
            try:
                bad = json.loads(o.strip().splitlines()[-1])["bad"]
            except Exception:
                res["caught"] = "rt C%s died" % p
                return res
            if bad:
                res["caught"] = "rt C%s %s" % (p, bad["msg"][:100])
                break
        # the proofs are run in any case for one property at least
        if res.get("caught") and "--proofs" not in sys.argv:
            return res
        for p in PROPS[file].split():
            o = run(["python3-vt", "-m", "vf.run_proof", "C" + p, "--seconds", "200", "--jobs", "2"], env, 400, d)
            try:
                ob = json.loads(o.strip().splitlines()[-1])["obligations"]
            except Exception:
                notes.append("C%s no result" % p)
                continue
            f = [x for x in ob if x["status"] == "failed"]
            if f:
                res["proof"] = "C%s %s" % (p, f[0]["name"][:100])
                res.setdefault("caught", "proof " + res["proof"])
                break
            u = [x for x in ob if x["status"] not in ("failed", "discharged")]
            if u:
                notes.append("C%s undecided: %s" % (p, str(u[0].get("detail") or u[0]["name"])[:120]))
        res["notes"] = notes
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=",".join(PROPS))
    ap.add_argument("--sample", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=5)
    ap.add_argument("--tests", action="store_true", help="only mutants that pass the repository's tests")
    ap.add_argument("--proofs", action="store_true")
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    jobs = []
    for file in a.files.split(","):
        src = open("/repo/dustmaker/" + file).read()
        tree = ast.parse(src)
        ss = sites(tree)
        if a.count:
            print(file, len(ss))
            continue
        rng = random.Random("%s%d" % (file, a.seed))
        pick = rng.sample(ss, min(a.sample, len(ss)))
        for s in pick:
            try:
                t = ast.unparse(apply(tree, s))
                compile(t, file, "exec")
            except Exception:
                continue
            jobs.append((file, s[1], t, a.tests))
    random.Random(a.seed).shuffle(jobs)
    with open(a.out, "w") as f, ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(trial, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
