"""C04 at run time: repeated reconciliation reaches a fixpoint; a decorated matching object is left alone."""
import rf
from rf import *


def decorate(rng, target, live):
    """what a server or another actor may add: extra keys at any depth, reordered set/map lists"""
    if isinstance(target, dict) and isinstance(live, dict):
        sets, maps = target.get("x-koreo-compare-as-set", []), target.get("x-koreo-compare-as-map", {})
        last = target.get("x-koreo-compare-last-applied", [])
        for k in list(live):
            if k in last:
                if rng.random() < 0.6:
                    live[k] = rng.choice(["server changed this", 999, {"srv": 1}, []])
                elif rng.random() < 0.3:
                    del live[k]
                continue
            if k in sets and isinstance(live[k], list):
                rng.shuffle(live[k])
            elif k in maps and isinstance(live[k], list):
                by = {x["name"]: x for x in target.get(k, [])}
                for x in live[k]:
                    decorate(rng, by.get(x["name"]), x)
                rng.shuffle(live[k])
            elif k in target:
                decorate(rng, target[k], live[k])
        for n in range(rng.choice([0, 0, 1, 2])):
            live[f"server{n}"] = rng.choice([1, "s", None, {"nested": [1]}, ["a"], True])
    elif isinstance(target, list) and isinstance(live, list):
        for t, l in zip(target, live):
            decorate(rng, t, l)


def matching(rng, h, i):
    f = gen(rng)
    c = Cluster()
    body = f.payload if rng.random() < 0.5 else f.patch_payload
    live = live_object(f, body)
    md = live["metadata"]
    keep = {k: copy.deepcopy(md.get(k)) for k in ("annotations", "ownerReferences", "uid", "name", "namespace") if k in md}
    decorate(rng, f.target, live)
    live["metadata"].update(keep)
    live["status"] = {"phase": "Ready", "list": [1, {"a": None}]}
    live["metadata"]["creationTimestamp"] = "2024-01-01T00:00:00Z"
    live["metadata"]["generation"] = 3
    live["metadata"].setdefault("labels", {})["added"] = "by-admission"
    live["metadata"].setdefault("annotations", {})["other.actor/key"] = "v"
    if f.owns and rng.random() < 0.5:
        live["metadata"]["ownerReferences"].insert(rng.choice([0, 1]), {"uid": "someone-else", "kind": "X", "name": "x", "apiVersion": "v1"})
    elif not f.owns and rng.random() < 0.4:
        live["metadata"]["ownerReferences"] = [{"uid": "someone-else", "kind": "X", "name": "x", "apiVersion": "v1"}]
    place(f, c, live)

    async def go():
        fresh()
        fn = await setup(f)
        return [await reconcile(f, fn, c) for _ in range(2)]
    outs = run(go())
    h.case(["m", f.spec, live], sample={"spec": f.spec} if i == 0 else None)
    want = {"answer": 42, "name": f.name}
    for o in outs:
        if c.mutations():
            h.fail("mutates-matching", inp(f, live=live), c.mutations(), "no create, patch or delete call")
            return
        if kind_of(o.outcome) != "Ok" or not same(plain(o.outcome), want):
            h.fail("matching-outcome", inp(f, live=live), show(o.outcome), want)
            return


def fixpoint(rng, h, i):
    f = gen(rng)
    start = rng.choice(["absent", "absent", "drifted", "empty", "foreign"])

    def admission(obj):
        obj["status"] = {"phase": "New"}
        obj["metadata"]["generation"] = 1
        obj.setdefault("spec", {}) if isinstance(obj.get("spec", {}), dict) else None
        if isinstance(obj.get("spec"), dict):
            obj["spec"]["serverDefault"] = "x"
    c = Cluster(mutate_on_create=admission)
    if start == "drifted":
        live = live_object(f, f.payload)
        live["spec"] = {"other": 1}
        place(f, c, live)
    elif start == "empty":
        place(f, c, {"apiVersion": f.version, "kind": f.kind, "metadata": {"name": f.name, **({"namespace": f.ns} if f.ns else {})}})
    elif start == "foreign":
        place(f, c, live_object(f, f.payload, owned=False, last_applied=False))

    async def go():
        fresh()
        fn = await setup(f)
        trace = []
        for _ in range(5):
            before = len(c.mutations())
            o = await reconcile(f, fn, c)
            trace.append((c.mutations()[before:], o.outcome))
        return trace
    trace = run(go())
    h.case(["f", f.spec, start])
    delays = {"create": f.create_delay, "patch": f.delay, "delete": f.delay}
    seen_write = False
    for n, (muts, o) in enumerate(trace):
        brief = [{"mutations": [m["op"] for m in ms], "outcome": show(oo)} for ms, oo in trace]
        if len(muts) > 1:
            h.fail("several-mutations", inp(f, start=start), brief, "one mutation per pass")
            return
        if muts:
            if kind_of(o) != "Retry" or o.delay != delays[muts[0]["op"]]:
                h.fail("mutating-pass-outcome", inp(f, start=start), brief, f"Retry with delay {delays[muts[0]['op']]}")
                return
            if seen_write:
                h.fail("update-loop", inp(f, start=start), [brief, [m for m in c.mutations()][-2:]], "no mutation after a create or patch was applied")
                return
            seen_write = muts[0]["op"] in ("create", "patch")
        elif kind_of(o) != "Ok":
            h.fail("settled-outcome", inp(f, start=start), brief, "Ok once the target is met")
            return
    if trace[-1][0]:
        h.fail("update-loop", inp(f, start=start), [m["op"] for m in c.mutations()], "no mutation in the last pass")


def lastapplied_null(rng, h, i):
    """a live object whose last-applied annotation is not what koreo wrote must not crash the pass"""
    f = gen(rng, policy="patch")
    c = Cluster()
    live = live_object(f, f.payload)
    live["metadata"].setdefault("annotations", {})[LAST_APPLIED] = ["not json", "[1]", "null", '"text"', "{}", '{"spec": 5}', '{"spec": [1]}'][i % 7]
    place(f, c, live)

    async def go():
        fresh()
        fn = await setup(f)
        out = []
        for _ in range(4):
            before = len(c.mutations())
            o = await reconcile(f, fn, c)
            out.append((c.mutations()[before:], o.outcome))
        return out
    h.case(["l", f.spec, i % 7])
    has_last = "x-koreo-compare-last-applied" in json.dumps(f.target)
    try:
        trace = run(go())
    except Exception as e:
        h.fail("bad-last-applied-raises", inp(f, annotation=live["metadata"]["annotations"][LAST_APPLIED]), f"{type(e).__name__}: {e}",
               "no exception; the object contains every target field" if not has_last else "an outcome")
        return
    if not has_last and any(m for m, _ in trace):
        h.fail("mutates-matching", inp(f, live=live), c.mutations(), "no create, patch or delete call")
    if has_last and trace[-1][0]:
        h.fail("update-loop", inp(f), [m["op"] for m in c.mutations()], "settles")


if __name__ == "__main__":
    main({"matching": (matching, 700, 6000), "fixpoint": (fixpoint, 500, 5000), "foreign-annotation": (lastapplied_null, 140, 1000)},
         "generated ResourceFunctions (inline/template target, overlays inline and by function, compare directives, create overlay) against an "
         "in-memory cluster with RFC 7386 patches: decorated matching objects (2 passes), absent/drifted/empty/foreign objects (5 passes); "
         "every case is non-trivial; distinct by spec and live object")
