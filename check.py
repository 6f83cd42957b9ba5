#!/usr/bin/env python3-vt
"""python3-vt check.py Cnn [--tier quick|thorough] : decides one property on /repo's current working tree."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":      # the same queries on every run
    os.execve(sys.executable, [sys.executable, *sys.argv], dict(os.environ, PYTHONHASHSEED="0"))
PY = "/opt/venv/bin/python"


def verify_one(modname, index, tier, conn):
    """one function under contract, in its own process"""
    t0 = time.time()
    out = {"obligations": [], "undecided": [], "unreached": [], "assumptions": [], "inlined": [], "secs": 0, "covers": 0}
    try:
        from pyvc.source import Repo
        from pyvc.stmts import Stmts
        m = importlib.import_module("contracts." + modname)
        for seed in (1, 101, 977):       # a proof found with any seed is a proof; only a failure is tried again
            e = Stmts(Repo(), list(m.CONTRACTS) + list(getattr(m, "USES", [])))
            e.seed = seed
            if tier == "thorough":
                e.timeout_ms = 40000
            if hasattr(m, "setup"):
                m.setup(e)
            c = m.CONTRACTS[index]
            e.verify(c)
            open_ = [o for o in e.obs if o.status != "discharged"]
            if not open_ or e.undecided or any(o.status == "refuted" for o in open_) or time.time() - t0 > 60:
                break
        out["obligations"] = [o.as_dict() for o in e.obs]
        out["undecided"] = [list(u) for u in e.undecided]
        out["unreached"] = [str(u) for u in getattr(e, "unreached", [])]
        out["assumptions"] = sorted(str(x) for x in set(e.assumptions) | set(getattr(e.models, "used", ())))
        out["inlined"] = sorted(str(x) for x in e.inlined)
        out["secs"] = round(e.solver_time, 3)
        out["queries"] = e.nqueries
        out["covers"] = len(e.covers)
    except BaseException as err:                      # noqa: BLE001
        import traceback
        out["undecided"].append([f"{modname}[{index}]", f"verifier error: {type(err).__name__}: {err} {traceback.format_exc(limit=-2)[-300:]}"])
    out["wall"] = round(time.time() - t0, 2)
    conn.send(json.dumps(out, default=str))
    conn.close()


def deductive(prop, tier, workers, limit, deadline):
    jobs = []
    for entry in prop["modules"]:
        modname, only = (entry, None) if isinstance(entry, str) else entry
        m = importlib.import_module("contracts." + modname)
        for i, c in enumerate(m.CONTRACTS):
            if c.trusted or (only is not None and c.qual not in only):
                continue
            jobs.append((modname, i, f"{c.module}.{c.qual}", c.opts.get("cost", 1), c.opts.get("trusted", [])))
    jobs.sort(key=lambda j: -j[3])
    running, results = [], {}
    todo = list(jobs)
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < workers:
            j = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=verify_one, args=(j[0], j[1], tier, w))
            p.start()
            w.close()
            running.append((j, p, r, time.time()))
        for item in list(running):
            j, p, r, t = item
            if r.poll(0.02):
                try:
                    results[j[:3]] = json.loads(r.recv())
                except EOFError:
                    results[j[:3]] = {"obligations": [], "undecided": [[j[2], "verifier process ended (memory?)"]]}
                p.join()
                running.remove(item)
            elif not p.is_alive() and not r.poll(0):
                results[j[:3]] = {"obligations": [], "undecided": [[j[2], "verifier process ended"]]}
                running.remove(item)
            elif time.time() - t > limit or time.time() > deadline:
                p.kill()
                p.join()
                results[j[:3]] = {"obligations": [], "undecided": [[j[2], f"time limit ({limit} s)"]]}
                running.remove(item)
    return [(j, results[j[:3]]) for j in jobs]


def start_harness(pid, tier, seed, budget, jobs, scale=1.0, out=None):
    cmd = [PY, os.path.join(HERE, "harness", f"{pid}.py"), "--seed", str(seed), "--tier", tier, "--budget", str(budget),
           "--jobs", str(jobs), "--scale", str(scale), "--out", out]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=os.path.join(HERE, "harness"), text=True)


def finish_harness(p, out, limit):
    try:
        text, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        text, _ = p.communicate()
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {"evaluations": 0, "distinct": 0, "samples": [], "violations": [], "errors": ["harness did not finish: " + (text or "")[-1500:]],
                "nerrors": 1, "counts": {}, "rule": "", "done": 0, "planned": 0}


def known_findings(pid):
    with open(os.path.join(HERE, "known-findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def match_known(known, v):
    for k in known:
        if k.get("signature") == v["signature"]:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from contracts.props import PROPS
    prop = PROPS[pid]
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    hout = os.path.join(ev, f".{pid}.harness.json")
    if os.path.exists(hout):
        os.remove(hout)
    quick = tier == "quick"
    hbudget = prop.get("budget", 120) if quick else 600
    hp = None if a.no_harness else start_harness(pid, tier, seed, hbudget, 4 if prop["modules"] else 8, out=hout)
    limit = prop.get("limit", 300) if quick else 700
    res = [] if a.no_proof else deductive(prop, tier, 5, limit, t0 + (480 if quick else 3000))
    h = finish_harness(hp, hout, hbudget + 90) if hp else {"evaluations": 0, "distinct": 0, "samples": [], "violations": [], "errors": [], "nerrors": 0, "counts": {}, "rule": ""}

    obligations = [o for _, r in res for o in r["obligations"]]
    discharged = [o for o in obligations if o["status"] == "discharged"]
    open_obs = [o for o in obligations if o["status"] != "discharged"]
    undecided = [u for _, r in res for u in r["undecided"]]
    known = known_findings(pid)
    hitk, fresh = [], []
    for v in h["violations"]:
        k = match_known(known, v)
        if k:
            hitk.append((k, v))
        else:
            fresh.append(v)
    # an obligation that a recorded finding makes unprovable is listed with that finding
    excused = []
    for o in list(open_obs):
        for k in known:
            if any(lbl in f"{o['function']}: {o['name']}" for lbl in k.get("obligations", [])):
                excused.append(o)
                open_obs.remove(o)
                break
    definite = [o for o in open_obs if o["status"] in ("refuted", "saturated") and not o["taint"] and "(soft)" not in o["name"]]
    searched = None
    if open_obs and not fresh and hp:
        # replay: search harder for a concrete failing input before reporting or shelving the obligation
        hout2 = hout + ".2"
        left = max(30, min(200, 780 - (time.time() - t0)))
        h2 = finish_harness(start_harness(pid, "thorough", seed + 1000, left, 8, out=hout2), hout2, left + 60)
        searched = {"evaluations": h2["evaluations"], "seed": seed + 1000, "found": len(h2["violations"])}
        fresh = [v for v in h2["violations"] if not match_known(known, v)]
        if os.path.exists(hout2):
            os.remove(hout2)

    functions = []
    for j, r in res:
        obs = r["obligations"]
        ok = bool(obs) and all(o["status"] == "discharged" for o in obs) and not r["undecided"]
        functions.append({"function": j[2], "contract": f"contracts/{j[0]}.py", "obligations": len(obs),
                          "discharged": sum(o["status"] == "discharged" for o in obs),
                          "status": "proved" if ok else ("undecided: " + "; ".join(u[1] for u in r["undecided"])[:300] if r["undecided"] else "open obligations"),
                          "solver_s": r.get("secs", 0), "wall_s": r.get("wall", 0), "unreached_cases": r.get("unreached", [])})
    assumptions = sorted({x for _, r in res for x in r.get("assumptions", [])}) + list(prop.get("assumptions", []))
    violation = None
    if fresh:
        violation = {"property": pid, "kind": "failing input", "violations": fresh[:10],
                     "replay_command": f"{PY} /verif/harness/{pid}.py --replay {fresh[0]['stream']}:{fresh[0]['index']}:{fresh[0]['seed']}",
                     "open_obligations": open_obs[:10]}
        words = ""
    elif definite:
        violation = {"property": pid, "kind": "obligation not discharged; no failing input found", "obligations": definite[:10],
                     "searched": searched, "replay_command": f"cd /verif && python3-vt check.py {pid} --no-harness -v"}
        words = " no-failing-input-found"
    nproved = sum(f["status"] == "proved" for f in functions)
    cov = {
        "obligations": len(obligations), "discharged": len(discharged),
        "checker_cmd": f"cd /verif && python3-vt check.py {pid} --no-harness -v",
        "trusted_base": ["pyvc (VC generator, /verif/pyvc)", "z3 " + z3_version(), "CPython ast"] + prop.get("trusted_base", []),
        "functions": functions, "functions_under_contract": len(functions), "functions_proved": nproved,
        "back_end": "z3 (python3-vt)", "solver_s": round(sum(f["solver_s"] for f in functions), 2),
        "cover_queries": sum(r.get("covers", 0) for _, r in res),
        "inlined_helpers": sorted({x for _, r in res for x in r.get("inlined", [])}),
        "undecided": undecided, "open_obligations": [{k: o[k] for k in ("function", "name", "status", "taint")} for o in open_obs + excused][:40],
        "bounded_standin": {"label": "bounded (never counted as proved)", "evaluations": h["evaluations"], "counts": h.get("counts", {}),
                            "cases_planned": h.get("planned"), "cases_run": h.get("done"), "harness_errors": h.get("nerrors"), "error_samples": h.get("errors", [])[:3],
                            "searched_after_failure": searched},
        "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct"] if isinstance(h["distinct"], int) else 0,
        "rule": h.get("rule", ""), "samples": h.get("samples", []),
        "explanation": prop.get("explanation", ""),
    }
    doc = {"property": pid, "tier": tier, "seed": seed, "level": prop["level"], "coverage": cov, "assumptions": assumptions,
           "wall_s": round(time.time() - t0, 2), "violations": len(fresh) if fresh else (len(definite) if violation else 0)}
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    if os.path.exists(hout):
        os.remove(hout)
    seen = set()
    for k, v in hitk:
        if k["id"] not in seen:
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    print(f"{pid}: {len(discharged)}/{len(obligations)} obligations discharged over {nproved}/{len(functions)} functions; "
          f"bounded: {h['evaluations']} evaluations; undecided: {len(undecided)}; harness errors: {h.get('nerrors')}; {doc['wall_s']} s")
    for o in open_obs[: 40 if a.v else 5]:
        print(f"  open [{o['status']}] {o['function']}: {o['name']}")
    for u in undecided[: 40 if a.v else 5]:
        print(f"  undecided {u[0]}: {str(u[1])[:300]}")
    if a.v:
        for e in h.get("errors", []):
            print("  harness error:", e)
        for v in fresh[:5]:
            print("  witness:", json.dumps(v, default=str)[:1500])
    if violation:
        path = os.path.join(ev, "replay", f"{pid}.json")
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}{words}")
        return 1
    return 0


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
