"""C15 at run time: the cache as a map keyed by resourceVersion, against a reference map, over operation histories."""
from lib import *


class Kind1: ...
class Kind2: ...


class Prepared:
    def __init__(self, name, gen, spec):
        self.name, self.gen, self.spec = name, gen, spec


def outcome_kinds(rng):
    return rng.choice(["ok", "ok", "ok", "permfail", "retry", "skip", "depskip", "ok-subs", "okwrap"])


def history(rng, h, i):
    kinds = [Kind1, Kind2] if i % 2 else [ValueFunction, Workflow]
    names = ["a", "b", "c"]
    model = {}
    ops, calls = [], {}
    suspend = i % 3 == 0
    gen = [0]

    async def preparer(key, spec):
        cls = current[0]
        calls.setdefault((cls, key), []).append(spec)
        if suspend:
            await asyncio.sleep(0)
        gen[0] += 1
        spec.setdefault("mutated", []).append(1) if isinstance(spec, dict) else None
        c = spec.get("how")
        if c == "permfail":
            return result.PermFail(message=f"bad {gen[0]}")
        if c == "retry":
            return result.Retry(message=f"later {gen[0]}", delay=gen[0])
        if c == "skip":
            return result.Skip(message=f"skip {gen[0]}")
        if c == "depskip":
            return result.DepSkip(message=f"dep {gen[0]}")
        return Prepared(key, gen[0], spec), ([registry.Resource(resource_type=kinds[0], name="zz")] if c == "ok-subs" else None)
    current = [None]
    bad = []

    async def go():
        fresh()
        for step in range(rng.randint(3, 40)):
            cls, name = rng.choice(kinds), rng.choice(names)
            key = (cls, name)
            c = rng.random()
            if c < 0.6:
                ver = rng.choice(["1", "2", "3", "10", "01", "1.0"]) if rng.random() < 0.8 else str(rng.random())
                how = outcome_kinds(rng)
                spec = {"how": how, "n": step}
                keep = copy.deepcopy(spec)
                sysd = {"s": step} if rng.random() < 0.5 else None
                labels = rng.choice([None, None, {"labels": {"x": "y"}}, {"labels": {"koreo.dev/active": "false"}}])
                ops.append(["offer", cls.__name__, name, ver, how])
                current[0] = cls
                before = len(calls.get(key, ()))
                got = await cache.prepare_and_cache(resource_class=cls, preparer=preparer, metadata={"name": name, "resourceVersion": ver, **(labels or {})},
                                                    spec=spec, _system_data=sysd)
                after = len(calls.get(key, ()))
                old = model.get(key)
                if old and old["version"] == ver:
                    if after != before:
                        bad.append(("prepared-again", "offer of the cached version prepared again"))
                    if got is not old["value"]:
                        bad.append(("cached-result", "offer of the cached version returned another result"))
                else:
                    if after != before + 1:
                        bad.append(("not-prepared", f"offer of a new version prepared {after - before} times"))
                    elif calls[key][-1].get("n") != step:
                        bad.append(("wrong-spec", "prepared from another spec"))
                    want = {"permfail": result.PermFail, "retry": result.Retry, "skip": result.Skip, "depskip": result.DepSkip}.get(how, Prepared)
                    if not isinstance(got, want):
                        bad.append(("result", f"{how} came back as {got!r}"))
                    model[key] = {"version": ver, "value": got, "spec": keep, "sys": sysd}
                if spec != keep:
                    bad.append(("spec-mutated", f"{keep} became {spec}"))
            elif c < 0.72:
                ops.append(["delete", cls.__name__, name])
                if rng.random() < 0.5:
                    await cache.delete_from_cache(resource_class=cls, cache_key=name)
                else:
                    await cache.delete_resource_from_cache(resource_class=cls, metadata={"name": name, "resourceVersion": "999"})
                model.pop(key, None)
            elif c < 0.85:
                old = model.get(key)
                ver = old["version"] if old and rng.random() < 0.5 else rng.choice(["1", "2", "3", "0"])
                ops.append(["delete-version", cls.__name__, name, ver])
                await cache.delete_from_cache(resource_class=cls, cache_key=name, version=ver)
                if old and old["version"] == ver:
                    del model[key]
            else:
                ops.append(["turn"])
                await asyncio.sleep(0)
            for k in [(c_, n_) for c_ in kinds for n_ in names]:
                got = cache.get_resource_from_cache(resource_class=k[0], cache_key=k[1])
                sysd = cache.get_resource_system_data_from_cache(resource_class=k[0], cache_key=k[1])
                m = model.get(k)
                if m is None:
                    if got is not None or sysd is not None:
                        bad.append(("not-removed", f"{k[0].__name__}/{k[1]} -> {got!r}"))
                elif got is not m["value"]:
                    bad.append(("lookup", f"{k[0].__name__}/{k[1]} v{m['version']}: {got!r}"))
                elif sysd is None or sysd.resource is not m["value"] or sysd.resource_version != m["version"] or sysd.spec != m["spec"] or sysd.system_data != m["sys"]:
                    bad.append(("system-data", f"{k[0].__name__}/{k[1]} v{m['version']}: {sysd!r}"))
            if bad:
                return
    try:
        run(go())
    except Exception as x:
        h.case(ops)
        h.fail(f"raised:{type(x).__name__}", {"history": ops}, f"{type(x).__name__}: {x}", "no exception")
        return
    h.case(ops, nontrivial=any(o[0] == "offer" for o in ops), sample=ops[:6])
    if bad:
        h.fail(bad[0][0], {"history": ops}, bad[0][1], "the reference map")


if __name__ == "__main__":
    main({"history": (history, 6000, 80000)},
         "histories of 3-40 operations (offer with any version and preparation outcome, delete, delete of a given version, event-loop turn) over 2 kinds x 3 names; after each operation every "
         "lookup is compared with a reference map (object identity); non-trivial: at least one offer")
