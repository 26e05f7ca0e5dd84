"""Worker: discharge the contracts of one property on the current source.

usage: python3-vt -m vf.run_proof ID --seconds S --jobs N --tier quick|thorough
prints one JSON line (see check.py)."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback


def work(arg):
    pid, gi, seconds, tier = arg
    sys.setrecursionlimit(5000)
    from .proof import engine, instr

    t0 = time.time()
    out = {"group": None, "obligations": [], "problems": [], "paths": 0, "completed": 0}
    try:
        try:
            v = instr.load()
        except SyntaxError as e:
            out["problems"].append("cannot load the source: %r" % e)
            return out
        mod = importlib.import_module("vf.proof." + pid.lower())
        g = list(mod.groups(tier))[gi]
        out["group"] = g["name"]
        ex = engine.Explorer(g["name"], min(t0 + g.get("seconds", seconds), t0 + seconds), **g.get("opts", {}))
        ex.explore(lambda r: g["fn"](r, v))
        out["paths"], out["completed"] = ex.paths, ex.completed
        out["obligations"] = list(ex.obl.values())
        out["problems"] = ex.problems
    except BaseException as e:  # noqa
        out["problems"].append("engine: %s" % "".join(traceback.format_exception(e))[-800:])
    from .proof import engine as E

    out["stats"] = E.STATS
    out["wall"] = time.time() - t0
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--seconds", type=float, default=200)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--group")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("vf.proof." + a.id.lower())
    gs = list(mod.groups(a.tier))
    idx = [i for i, g in enumerate(gs) if not a.group or a.group in g["name"]]
    jobs = [(a.id, i, a.seconds, a.tier) for i in idx]
    obl, paths, solver, stats = [], 0, 0.0, {}
    ctx = mp.get_context("fork")
    res = []
    with ctx.Pool(max(1, min(a.jobs, len(jobs))), maxtasksperchild=1) as pool:
        asy = [pool.apply_async(work, (j,)) for j in jobs]
        for j, r in zip(jobs, asy):
            left = max(5.0, t0 + a.seconds + 60 - time.time())
            try:
                res.append(r.get(timeout=left))
            except mp.TimeoutError:
                res.append({"group": gs[j[1]]["name"], "obligations": [], "problems": ["out of time"], "paths": 0, "completed": 0})
        pool.terminate()
    vac = []
    for j, o in zip(jobs, res):
        g = gs[j[1]]
        for x in o["obligations"]:
            by = ", ".join("%s:%d" % kv for kv in sorted(x["by"].items()))
            e = {"name": g["name"] + ": " + x["name"], "fn": g.get("functions", ""), "status": x["status"], "by": by, "vcs": x["vcs"], "detail": x.get("detail")}
            if "case" in x:
                e["case"] = x["case"]
            if x["status"] == "discharged" and not x.get("live"):
                vac.append(e["name"])
            obl.append(e)
        paths += o["paths"]
        for k, n in (o.get("stats") or {}).items():
            stats[k] = stats.get(k, 0) + n
        if not o["problems"] and o["obligations"] and not any(x.get("live") for x in o["obligations"]):
            o["problems"].append("no obligation was met on a possible path")
        if o["problems"] or not o["obligations"]:
            obl.append({"name": g["name"] + ": every path analysed", "fn": g.get("functions", ""), "status": "unknown", "by": "engine", "vcs": 0,
                        "detail": "; ".join(dict.fromkeys(o["problems"]))[:1500] or "no obligation was generated"})
        if a.v:
            print("%-60s paths %d completed %d obl %d wall %.1f %s" % (g["name"], o["paths"], o["completed"], len(o["obligations"]), o.get("wall", 0), o["problems"][:3]), file=sys.stderr)
    if a.v:
        for x in vac:
            print("  vacuous:", x, file=sys.stderr)
        for x in obl:
            if x["status"] != "discharged":
                print("  !!", x["status"], x["name"], json.dumps(x.get("detail"))[:1500], x.get("case"), file=sys.stderr)
    out = {"obligations": obl, "trusted": getattr(mod, "TRUSTED", []), "assumptions": getattr(mod, "ASSUMPTIONS", []), "functions": getattr(mod, "FUNCTIONS", []), "paths": paths, "solver_s": round(stats.pop("solver_s", 0.0), 2), "stats": stats, "wall_s": round(time.time() - t0, 2),
           "vacuity": {"groups": len(jobs), "groups_without_completed_path": [o["group"] for o in res if not o["completed"]], "obligations": len(obl), "only_on_impossible_paths": vac}}
    print(json.dumps(out, default=str))


if __name__ == "__main__":
    main()
