"""C02 at run time: the result of a pass under many completion orders, against the pass in which every call answers at once."""
import wf
from wf import *


def key(op, ident):
    return (op, ident.get("kind") or ident.get("plural"), ident.get("name"))


def schedule(rng, n, style):
    """latency per call; any chain of calls stays below the timeout"""
    seed = rng.random()
    order = {}

    def latency(op, ident):
        k = key(op, ident)
        if k not in order:
            r = random.Random(f"{seed}:{k}")
            if style == "uniform":
                order[k] = r.random() * 9 / n
            elif style == "few":
                order[k] = r.choice([0, 0, 0, 9 / n])
            elif style == "reverse":
                order[k] = 9 / n / (1 + len(order))
            else:
                order[k] = r.choice([0, 1e-4, 0.01, 8 / n])
        return order[k]
    return latency


def schedules(rng, h, i):
    flat = i % 2 == 1
    w = gen(rng, nsteps=rng.choice([2, 3, 4, 6, 9, 14, 20]), p_fail=rng.choice([0, 0.05, 0.15]), p_present=rng.choice([1, 0.8, 0.4]), p_each=0.5 if flat else 0.25,
            p_api=0.75, flat=flat)

    silent = rng.random() < 0.5
    for s in w.spec["steps"]:
        if silent and rng.random() < 0.5:
            del s["condition"]

    async def one(lat):
        fresh()
        prepared = await setup(w)
        c = WCluster(w, latency=lat)
        return c, await go(w, prepared, c)
    c0, r0 = run(one(None))
    v0 = view(r0)
    m = run_steps(w, w.steps, w.parent, set())
    order0 = [key(e["op"], e) for e in c0.log]
    n = max(1, len(order0) + len(w.fns))                   # kinds may have to be looked up (again)
    for k in range(1 if len(order0) < 2 else 5):
        style = ["uniform", "reverse", "few", "mix", "uniform"][k]
        c, r = run(one(schedule(rng, n, style)))
        v = view(r)
        order = [key(e["op"], e) for e in c.log]
        h.case([w.spec, style, i], nontrivial=c.done != c0.done)
        h.count("other completion order" if c.done != c0.done else "same completion order")
        inf = lambda: info(w, completed=c.done, completed_at_once=c0.done)
        for what in ("result", "conditions", "resource_ids", "state", "state_errors"):
            a, b = v[what], v0[what]
            if what == "resource_ids" or what == "conditions":
                ok = same(a, b)
            else:
                ok = same(a, b) and (not isinstance(a, dict) or list(a) == list(b))
            if not ok:
                h.fail(f"differs:{what}", inf(), a, b)
                return
        if not matches(m["state"], v["state"]):
            h.fail("state-order", inf(), v["state"], m["state"])
            return


if __name__ == "__main__":
    main({"schedules": (schedules, 260, 4000)},
         "a generated Workflow reconciled with every call answering at once and again with up to five assignments of latencies (together below the timeout) to its API calls; "
         "nontrivial: the calls completed in another order")
