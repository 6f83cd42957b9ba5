"""C01 at run time: every step's outcome, value and API calls against an independent evaluation of the Workflow."""
import wf
from wf import *


def program(rng, h, i):
    w = gen(rng, p_fail=rng.choice([0, 0.05, 0.12, 0.3]), p_present=rng.choice([1, 0.8, 0.5]))

    async def one():
        fresh()
        prepared = await setup(w)
        c = WCluster(w)
        return prepared, c, await go(w, prepared, c)
    _, c, r = run(one())
    calls = set()
    m = run_steps(w, w.steps, w.parent, calls)
    h.case(w.spec, nontrivial=len(w.steps) > 1)
    for o in m["outs"].values():
        h.count(o.cls)
    v = view(r)
    conds = {}
    for x in r.conditions:
        conds.setdefault(x["type"], []).append(x)
    inf = lambda **kw: info(w, expected_steps={k: repr(o) for k, o in m["outs"].items()}, **kw)
    for s in w.steps:
        o = m["outs"][s.label]
        got = conds.get(f"C{s.label}")
        if not got or len(got) != 1 or got[0]["reason"] != REASON[o.cls]:
            h.fail(f"step-outcome:{o.cls}", inf(step=s.label), got or v["conditions"], {"class": o.cls, "reason": REASON[o.cls]})
            return
        if o.cls == "Ok" and f"all_{s.label}" in m["state"]:
            if f"all_{s.label}" not in v["state"] or not matches(o.value, v["state"][f"all_{s.label}"]):
                h.fail("step-value", inf(step=s.label), v["state"].get(f"all_{s.label}"), o.value)
                return
    if not matches(m["state"], v["state"]) or set(v["state_errors"]) != m["errors"]:
        h.fail("state", inf(), {"state": v["state"], "errors": v["state_errors"]}, {"state": m["state"], "errors": sorted(m["errors"])})
        return
    if kind_of(r.result) != m["overall"]:
        h.fail("overall", inf(), v["result"], m["overall"])
        return
    touched = {t for t in c.touched}
    extra = {t for t in touched if (t[0], t[1]) not in calls and t[0] is not None} | {t for t in touched if t[0] is None and t[1] not in {n for _, n in calls}}
    if extra:
        h.fail("call-for-gated-step", inf(), sorted(map(str, extra)), sorted(map(str, calls)))
        return
    missing = calls - touched
    if missing:
        h.fail("logic-not-run", inf(), sorted(map(str, touched)), sorted(map(str, missing)))


if __name__ == "__main__":
    main({"program": (program, 900, 15000)},
         "a generated Workflow of up to 20 steps (ref, refSwitch, forEach, skipIf, sub-workflows, references in every expression form), outcome classes assigned to the Logic "
         "through inputs and cluster contents; distinct by definition")
