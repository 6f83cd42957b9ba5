"""C09 at run time: faults in the API calls of a pass - containment, truthful conditions, recovery."""
import wf
from wf import *
from koreo.workflow import reconcile as reconcile_module

TIMEOUT = getattr(reconcile_module, "STEP_TIMEOUT", 10)


class Odd(Exception):
    def __str__(self):
        return ""


def server_error(code):
    return kr8s.ServerError(f"status {code}", status=str(code), response=Response(None, code))


FAULTS = {
    "ValueError": lambda: ValueError("boom"), "KeyError": lambda: KeyError("boom"), "Odd": Odd, "OSError": lambda: ConnectionError("reset"),
    "RuntimeError": lambda: RuntimeError(), "TimeoutError": lambda: asyncio.TimeoutError(), "NotFound": lambda: kr8s.NotFoundError("nope"),
    "APITimeout": lambda: kr8s.APITimeoutError("slow"), "404": lambda: server_error(404), "409": lambda: server_error(409), "500": lambda: server_error(500),
    "403": lambda: server_error(403), "nullresponse": lambda: kr8s.ServerError("no response"), "hang": lambda: "hang", "Exception": lambda: Exception("x", {"y": 1}, None),
    "StopAsyncIteration": StopAsyncIteration, "Assertion": lambda: AssertionError(), "Attribute": lambda: AttributeError("a"),
}


def key(op, ident):
    return (op, ident.get("kind") or ident.get("plural"), ident.get("name"))


def top(name):
    """the listed step an object belongs to"""
    return name.split("-")[1] if name and name.startswith("root-") else None


def faults(rng, h, i):
    w = gen(rng, nsteps=rng.choice([1, 2, 3, 5, 8, 12, 20]), p_fail=rng.choice([0, 0, 0.08]), p_present=rng.choice([1, 0.6, 0.3]), p_each=0.3, p_api=0.7, flat=rng.random() < 0.5)
    lat = rng.choice([None, None, lambda op, ident: random.Random(f"{w.seed}:{key(op, ident)}").choice([0, 0.001, 0.01, 0.02])])

    async def settle(c, prepared, limit=30):
        last = None
        for _ in range(limit):
            n = len(c.mutations())
            r = await go(w, prepared, c)
            v = view(r)
            if len(c.mutations()) == n and last is not None and same(v, last):
                return v
            last = v
        return v

    async def clean():
        fresh()
        prepared = await setup(w)
        c = WCluster(w, latency=lat)
        await go(w, prepared, c)
        first = list(c.done)
        v = await settle(c, prepared)
        return first, v, c.contents()
    first, v_ok, contents_ok = run(clean())
    if not first:
        h.count("no call")
        h.case(w.spec, nontrivial=False)
        return
    m = run_steps(w, w.steps, w.parent, set())
    by_label = {s.label: s for s in w.steps}
    users = {}
    for _ in range(4):
        passes = rng.choice([1, 1, 1, 2, 3])
        plan = {}
        for k in rng.sample(first, rng.choice([1, 1, 1, 2, min(3, len(first)), len(first)]) if len(first) > 2 else 1):
            f = rng.choice(list(FAULTS))
            plan[k] = (f, rng.random() < 0.4)
        anyop = rng.random() < 0.15      # every call of that object or kind
        box = {"on": True}

        def fault(op, ident):
            if not box["on"]:
                return None
            hit = plan.get(key(op, ident))
            if not hit and anyop:
                hit = next((x for k, x in plan.items() if k[1] == key(op, ident)[1]), None)
            if not hit:
                return None
            f = FAULTS[hit[0]]()
            return ("after", f) if hit[1] and op != "lookup" else f

        async def one():
            fresh()
            prepared = await setup(w)
            c = WCluster(w, latency=lat, fault=fault)
            rs, loop = [], asyncio.get_event_loop()
            for _ in range(passes):
                c.faults, c.touched = [], []
                t = loop.time()
                r = await go(w, prepared, c)
                rs.append((r, loop.time() - t, c.faults, c.touched))
            box["on"] = False
            c.faults, c.touched = [], []
            v = await settle(c, prepared)
            return rs, v, c.contents()
        inf = lambda **kw: info(w, faults={str(k): x for k, x in plan.items()}, fault_passes=passes, every_call_of_kind=anyop, **kw)
        h.case([w.spec, sorted(map(str, plan.items())), passes])
        for x, _ in plan.values():
            h.count(x)
        try:
            rs, v, contents = run(one())
        except Deadlock:
            h.fail("never-returns", inf(), "reconcile_workflow never returns", "returns within the step timeout")
            return
        except BaseException as e:
            if isinstance(e, Hang):
                raise
            h.fail("raises", inf(), f"{type(e).__name__}: {e} {traceback.format_exc(limit=-3)}", "a Result")
            return
        for n, (r, took, seen, touched) in enumerate(rs):
            if took > TIMEOUT + 0.01:
                h.fail("slow", inf(), took, f"at most {TIMEOUT} s")
                return
            conds = {c["type"]: c for c in r.conditions}
            reason = {}
            for s in w.steps:
                # a timed-out or crashed step is reported under the workflow's own condition type
                c = conds.get(f"C{s.label}") or next((x for x in r.conditions if not x["type"].startswith("C")), None)
                if c is None:
                    h.fail("condition-missing", inf(step=s.label), sorted(conds), f"a condition for {s.label}")
                    return
                reason[s.label] = c["reason"]
            affected = {top(name) for _, _, name, _ in seen if name}
            if seen and kind_of(r.result) not in ("Retry", "PermFail"):
                h.fail("overall", inf(seen=seen), show(r.result), "Retry or PermFail")
                return
            for lab in affected:
                if reason[lab] not in ("Wait", "Failure"):
                    h.fail("affected-step", inf(seen=seen, step=lab), conds.get(f"C{lab}"), "Retry or PermFail")
                    return
            for s in w.steps:
                blocked = [d for d in deps(s) if reason[d] != "Ready"]
                if reason[s.label] == "Ready" and (m["outs"][s.label].cls != "Ok" and n == 0 or s.label in affected or blocked):
                    h.fail("untruthful-condition", inf(step=s.label, seen=seen), conds.get(f"C{s.label}"), f"not ready; depends on {blocked}")
                    return
                if blocked and any(top(nm) == s.label for _, nm in touched):
                    h.fail("ran-after-failed-dependency", inf(step=s.label, seen=seen), [t for t in touched if top(t[1]) == s.label], f"no call; depends on {blocked}")
                    return
            for c in r.conditions:
                if not c["type"].startswith("C") and c["reason"] == "Ready" and kind_of(r.result) != "Ok":
                    h.fail("untruthful-condition", inf(seen=seen), c, "no condition claims readiness")
                    return
            for s in w.steps:
                if f"all_{s.label}" in plain(r.state) and reason[s.label] != "Ready":
                    h.fail("state-of-failed-step", inf(step=s.label, seen=seen), plain(r.state), "no state from a step that did not succeed")
                    return
        if not same(contents, contents_ok):
            h.fail("recovery-contents", inf(), contents, contents_ok)
            return
        if not same(v, v_ok):
            h.fail("recovery-result", inf(), v, v_ok)
            return


if __name__ == "__main__":
    main({"faults": (faults, 250, 4000)},
         "a generated Workflow, one to all of the API calls of its first pass made to fail (before or after taking effect) or to hang, for one to three passes, then "
         "fault-free passes up to the fixpoint; distinct by definition and fault plan")
