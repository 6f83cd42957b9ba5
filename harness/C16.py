"""C16 at run time: once idle, every cached entry was built from the current state of everything it depends on."""
from lib import *


class K1: ...
class K2: ...


class Built:
    def __init__(self, name, spec, saw):
        self.name, self.spec, self.saw = name, spec, saw


def res(n):
    return registry.Resource(resource_type=K1 if n % 2 else K2, name=f"r{n}")


def get(n):
    r = res(n)
    return cache.get_resource_from_cache(resource_class=r.resource_type, cache_key=r.name)


def universe(rng):
    n = rng.randint(2, 5)
    order = list(range(n))
    rng.shuffle(order)
    return order


class Run:
    def __init__(self, rng, suspend):
        self.rng, self.suspend = rng, suspend
        self.order = universe(rng)
        self.rank = {x: k for k, x in enumerate(self.order)}
        self.ops, self.alive, self.bad = [], {}, []
        self.version = 0
        self.prepared = 0

    async def preparer(self, key, spec):
        self.prepared += 1
        if self.prepared > 5000:
            raise Hang("re-preparing for ever")
        saw = {d: get(d) for d in spec["deps"]}
        if self.suspend:
            for _ in range(spec.get("turns", 0)):
                await asyncio.sleep(0)
        if spec["how"] == "bad":
            return result.PermFail(message=f"bad {self.prepared}")
        if spec["how"] == "fussy" and any(x is None or isinstance(x, result.PermFail) for x in saw.values()):
            # still declares what it depends on, as koreo's own preparers do
            return Built(key, spec, saw), [res(d) for d in spec["deps"]]
        if spec["how"] == "strict" and any(x is None or isinstance(x, result.PermFail) for x in saw.values()):
            return result.PermFail(message=f"cannot be prepared {self.prepared}")      # and watches nothing from now on
        deps = [res(d) for d in spec["deps"]]
        return Built(key, spec, saw), (tuple(deps) if deps else self.rng.choice([None, (), []]))

    async def offer(self, n, deps=None, version=None):
        self.version += 1
        if deps is None:
            lower = [x for x in self.order if self.rank[x] < self.rank[n]]
            deps = sorted(x for x in lower if self.rng.random() < 0.6)
        spec = {"deps": deps, "how": self.rng.choice(["ok"] * 6 + ["bad", "fussy", "strict"]), "v": self.version, "turns": self.rng.choice([0, 1, 2, 3])}
        self.ops.append(["offer", f"r{n}", spec])
        r = res(n)
        await cache.prepare_and_cache(resource_class=r.resource_type, preparer=self.preparer, metadata={"name": r.name, "resourceVersion": version or str(self.version)}, spec=spec)
        self.alive[n] = spec

    async def delete(self, n):
        self.ops.append(["delete", f"r{n}"])
        r = res(n)
        if self.rng.random() < 0.5:
            await cache.delete_from_cache(resource_class=r.resource_type, cache_key=r.name)
        else:
            await cache.delete_resource_from_cache(resource_class=r.resource_type, metadata={"name": r.name, "resourceVersion": "x"})
        self.alive.pop(n, None)

    async def turns(self, k):
        if k:
            self.ops.append(["turns", k])
        for _ in range(k):
            await asyncio.sleep(0)

    async def idle(self):
        self.ops.append(["idle"])
        for _ in range(150):
            before = self.prepared
            for _ in range(12):
                await asyncio.sleep(0)
            if self.prepared == before:
                break
        self.coherent()

    def coherent(self):
        me = asyncio.current_task()
        for n in self.order:
            got = get(n)
            if n not in self.alive:
                if got is not None:
                    self.bad.append(("resurrected", f"r{n} was deleted but is cached"))
                if registry.get_subscriptions(res(n)):
                    self.bad.append(("watcher-left", f"deleted r{n} still watches {[x.name for x in registry.get_subscriptions(res(n))]}"))
                if any(res(n) in registry.get_subscribers(res(d)) for d in self.order):
                    self.bad.append(("watcher-left", f"deleted r{n} is still a subscriber"))
                continue
            spec = self.alive[n]
            if got is None:
                self.bad.append(("lost", f"r{n} is not cached"))
                continue
            if isinstance(got, result.PermFail):
                if spec["how"] not in ("bad", "strict"):
                    self.bad.append(("stale-spec", f"r{n} is {got!r}"))
                continue
            if got.spec["v"] != spec["v"]:
                self.bad.append(("stale-spec", f"r{n} was built from spec {got.spec['v']}, offered {spec['v']}"))
                continue
            for d in spec["deps"]:
                if got.saw.get(d) is not get(d):
                    self.bad.append(("stale", f"r{n} was built from an earlier state of r{d}"))
                if res(d) not in registry.get_subscriptions(res(n)):
                    self.bad.append(("unwatched", f"r{n} does not watch r{d}"))
        left = [t for t in asyncio.all_tasks() if t is not me and not t.done()]
        if len(left) > len(self.alive):
            self.bad.append(("watcher-left", f"{len(left)} background tasks for {len(self.alive)} cached resources"))


def play(rng, h, i, suspend, script=None):
    r = Run(rng, suspend)

    async def go():
        fresh()
        registry._reset_registries()
        if script:
            await script(r)
        else:
            for _ in range(rng.randint(3, 22)):
                n = rng.choice(r.order)
                c = rng.random()
                if c < 0.6:
                    await r.offer(n)
                elif c < 0.85:
                    await r.delete(n)
                elif c < 0.92:
                    await r.delete(n)
                    await r.turns(rng.choice([0, 0, 1, 2]))
                    await r.offer(n)
                else:
                    await r.idle()
                await r.turns(rng.choice([0, 0, 0, 1, 1, 2, 3, 5]))
        await r.idle()
        if not r.bad:
            # everything is still watched: change each in turn
            for n in list(r.order):
                if n in r.alive and rng.random() < 0.7:
                    await r.offer(n, deps=r.alive[n]["deps"])
                    await r.idle()
    errors = []
    try:
        run(go())
    except Exception as x:
        errors.append(x)
    h.case(r.ops, nontrivial=len(r.ops) > 3, sample=r.ops[:5])
    info = {"history": r.ops}
    if errors:
        h.fail(f"raised:{type(errors[0]).__name__}", info, f"{type(errors[0]).__name__}: {errors[0]}", "no exception")
    elif r.bad:
        h.fail(("suspending:" if suspend else "") + r.bad[0][0], info, r.bad[0][1], "every entry built from the current state of what it depends on")


def history(rng, h, i):
    play(rng, h, i, False)


def suspending(rng, h, i):
    play(rng, h, i, True)


def placements(rng, h, i):
    """small histories with every placement of 0-3 turns: a chain, its base deleted and offered again"""
    turns = [(i // 4 ** k) % 4 for k in range(5)]
    shape = (i // 4 ** 5) % 6

    async def script(r):
        r.order = [0, 1, 2]
        r.rank = {0: 0, 1: 1, 2: 2}
        t = iter(turns)
        await r.offer(0, [])
        await r.turns(next(t))
        await r.offer(1, [0])
        await r.turns(next(t))
        await r.offer(2, [1] if shape % 2 else [0, 1])
        await r.turns(next(t))
        victim = [1, 0, 2][shape // 2]
        await r.delete(victim)
        await r.turns(next(t))
        await r.offer(victim, {1: [0], 0: [], 2: [1]}[victim])
        await r.turns(next(t))
        await r.offer(0, [])
    play(rng, h, i, False, script)


if __name__ == "__main__":
    streams = {"history": (history, 2500, 40000), "placements": (placements, 1024 * 6, 1024 * 6)}
    streams["suspend"] = (suspending, 2500, 40000)
    main(streams,
         "(also with preparers that suspend for 0-3 turns) histories of 3-22 offers/deletes (with re-offers) over 2-5 resources with random acyclic dependencies and 0-5 event-loop turns in between, plus every placement of 0-3 turns in six "
         "chain histories that delete a resource and offer it again; once idle each cached entry must hold the very objects its dependencies are cached as; non-trivial: more than 3 operations")
