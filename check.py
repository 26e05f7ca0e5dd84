#!/usr/bin/env python3
"""Decide one property: discharge the contract obligations generated from /repo's current source, and run the
same contracts at run time on generated inputs (bounded).

usage: check.py ID [--tier quick|thorough]
exit 0: held; exit 1 + VIOLATION line: broken; exit 2: the check itself failed."""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
TIERS = {"quick": dict(shards=6, seconds=14, proof=300), "thorough": dict(shards=8, seconds=420, proof=3000)}


def env(scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), VERIF_REPO=REPO,
             PYTHONHASHSEED="0", TMPDIR=scratch, OMP_NUM_THREADS="1")
    return e


def start(args, scratch, name):
    out = open(os.path.join(scratch, name + ".out"), "w")
    err = open(os.path.join(scratch, name + ".err"), "w")
    p = subprocess.Popen([PY, "-m"] + args, cwd=scratch, env=env(scratch), stdout=out, stderr=err, start_new_session=True)
    p.name = name
    return p


def finish(p, scratch, deadline):
    try:
        p.wait(max(1, deadline - time.time()))
        dead = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        dead = True
    txt = open(os.path.join(scratch, p.name + ".out")).read()
    err = open(os.path.join(scratch, p.name + ".err")).read()
    try:
        return json.loads(txt.strip().splitlines()[-1]), err
    except Exception:
        return None, ("timeout\n" if dead else "exit code %s\n" % p.returncode) + err[-3000:]


def known(pid):
    res = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                res.append(ln.split(" ", 2)[2])  # "<match> :: <what fails>"
    return res


def replay_file(pid, n, doc):
    d = os.path.join(HERE, "out", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    doc = dict(property=pid, **doc)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    pid, tier = a.id, TIERS[a.tier]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    for f in glob.glob(os.path.join(HERE, "out", "replays", pid + "-*.json")):
        os.unlink(f)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        return decide(pid, a.tier, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, tname, tier, seed, t0, scratch):
    has_proof = os.path.exists(os.path.join(HERE, "vf", "proof", pid.lower() + ".py"))
    has_rt = os.path.exists(os.path.join(HERE, "vf", "rt", pid.lower() + ".py"))
    proof = perr = None
    if has_proof:
        pp = start(["vf.run_proof", pid, "--seconds", str(tier["proof"]), "--jobs", "8", "--tier", tname], scratch, "proof")
        proof, perr = finish(pp, scratch, time.time() + tier["proof"] + 60)
        if proof is None:
            sys.stderr.write("proof phase gave no result: %s\n" % perr)
    viol = []  # (description, replay doc, suffix)
    if proof:
        for o in proof["obligations"]:
            if o["status"] not in ("failed", "unknown") or o["status"] == "unknown" and o.get("case") is None:
                continue
            case = o.get("case")
            doc = {"obligation": o["name"], "function": o.get("fn"), "verifier_output": o.get("detail"), "case": case}
            conf = None
            if case is not None and has_rt:
                for c in case["cases"] if isinstance(case, dict) and "cases" in case else [case]:
                    cf = os.path.join(scratch, "case.json")
                    json.dump({"case": c}, open(cf, "w"))
                    r, e = finish(start(["vf.run_rt", pid, "--case", cf], scratch, "replay"), scratch, time.time() + 400)
                    conf = r and r.get("bad")
                    if conf:
                        doc["case"] = c
                        break
            if conf:
                doc["message"] = conf["msg"]
                doc["replay_cmd"] = "cd %s && PYTHONPATH=%s:%s %s -m vf.run_rt %s --case FILE" % (HERE, REPO, HERE, PY, pid)
                viol.append(("obligation %s %s; on the real code: %s" % (o["name"], o["status"] if o["status"] == "failed" else "not discharged", conf["msg"]), doc, ""))
            elif o.get("confirmed"):
                doc["message"] = o["confirmed"]
                viol.append(("obligation %s failed; on the real code: %s" % (o["name"], o["confirmed"]), doc, ""))
            elif o["status"] == "failed":
                viol.append(("obligation %s failed" % o["name"], doc, " no-failing-input-found"))
    rts, rerr = [], None
    if has_rt:
        n = tier["shards"]
        ps = [start(["vf.run_rt", pid, "--seed", str(seed), "--shard", "%d/%d" % (i, n), "--seconds", str(tier["seconds"])], scratch, "rt%d" % i) for i in range(n)]
        dl = time.time() + tier["seconds"] + 420
        for p in ps:
            r, e = finish(p, scratch, dl)
            if r is None:
                rerr = e
            else:
                rts.append(r)
        for r in rts:
            if r["bad"]:
                doc = {"message": r["bad"]["msg"], "case": r["bad"]["case"],
                       "replay_cmd": "cd %s && PYTHONPATH=%s:%s %s -m vf.run_rt %s --case FILE" % (HERE, REPO, HERE, PY, pid)}
                viol.insert(0, (r["bad"]["msg"], doc, ""))
    if has_rt and rerr and not viol:
        sys.stderr.write("run-time contract phase failed: %s\n" % rerr)
        write_evidence(pid, tname, seed, t0, proof, rts, 0, ["run-time phase failed"])
        return 2
    # the concrete ones first; an abstract failure is only reported when nothing concrete was found
    conc = [v for v in viol if not v[2]]
    rep = conc or viol
    kf = known(pid)
    shown, out = set(), []
    for desc, doc, suf in rep:
        k = next((k for k in kf if k.split(" :: ")[0] in desc or k.split(" :: ")[0] in json.dumps(doc.get("case"))), None)
        if k:
            shown.add(k)
        else:
            out.append((desc, doc, suf))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k.split(" :: ")[-1]))
    seen = set()
    n = 0
    for desc, doc, suf in out:
        key = desc[:60]
        if key in seen or n >= 5:
            continue
        seen.add(key)
        path = replay_file(pid, n, doc)
        n += 1
        print("# " + desc[:1000].replace("\n", " "))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, suf))
    write_evidence(pid, tname, seed, t0, proof, rts, n, [] if proof or not has_proof else ["proof phase gave no result: " + str(perr)[-300:]])
    if proof:
        c = count(proof)
        print("# %s: %d obligations, %d discharged, %d undecided (bounded check stands in), %d failed" % (pid, c[0], c[1], c[2], c[3]))
    print("# %s: %d run-time contract evaluations, %.1f s" % (pid, sum(r["cases"] for r in rts), time.time() - t0))
    return 1 if n else 0


def count(proof):
    st = [o["status"] for o in proof["obligations"]]
    return len(st), st.count("discharged"), len(st) - st.count("discharged") - st.count("failed"), st.count("failed")


def level(pid):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except OSError:
        pass
    return "exploration"


def write_evidence(pid, tname, seed, t0, proof, rts, nviol, extra):
    cov = {}
    assume = []
    if proof:
        tot, dis, und, bad = count(proof)
        per = {}
        be = {}
        for o in proof["obligations"]:
            f = per.setdefault(o.get("fn") or "-", {"obligations": 0, "discharged": 0, "undecided": []})
            f["obligations"] += 1
            if o["status"] == "discharged":
                f["discharged"] += 1
                be[o.get("by", "?")] = be.get(o.get("by", "?"), 0) + 1
            else:
                f["undecided"].append("%s: %s %s" % (o["name"], o["status"], str(o.get("detail"))[:200]))
        cov.update(obligations=tot, discharged=dis, undecided_bounded_stand_in=und, failed=bad,
                   checker_cmd="PYTHONPATH=%s:%s %s -m vf.run_proof %s" % (REPO, HERE, PY, pid),
                   trusted_base=proof.get("trusted", []), functions_under_contract=per, discharged_by=be,
                   solver_s=proof.get("solver_s"), proof_wall_s=proof.get("wall_s"), vacuity_checks=proof.get("vacuity"),
                   source_functions_executed=proof.get("functions"))
        assume += proof.get("assumptions", [])
    cov.update(evaluations=sum(r["cases"] for r in rts), distinct_nontrivial=sum(r["distinct"] for r in rts),
               rule="bounded part: run-time contracts on the real library; cases are generated systematically for the boundary values of the property, then at random "
                    "(seeded), boundary-biased and using constants mined from the source; a case is counted once per distinct JSON text and always exercises the library",
               samples=[s for r in rts for s in r.get("samples", [])][:3] or ["none"])
    assume += ["the run-time contract part is bounded: it covers only the generated cases of this run"] + extra
    doc = {"property": pid, "tier": tname, "seed": seed, "level": level(pid), "coverage": cov, "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
