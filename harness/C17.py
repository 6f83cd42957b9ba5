"""C17 at run time: the subscription registry against a reference model, over operation histories."""
from lib import *


class A: ...
class B: ...


R = [registry.Resource(resource_type=A, name="one"), registry.Resource(resource_type=A, name="two"), registry.Resource(resource_type=B, name="one"),
     registry.Resource(resource_type=B, name="two", namespace="n"), registry.Resource(resource_type=A, name="three")]
N = {r: f"{r.resource_type.__name__}.{r.name}" for r in R}


def reaches(subs, start, goal):
    seen, todo = set(), set(start)
    while todo:
        x = todo.pop()
        if x == goal:
            return True
        if x not in seen:
            seen.add(x)
            todo |= subs[x]
    return False


class Model:
    def __init__(self):
        self.subs = {r: set() for r in R}
        self.queues = {}

    def notify(self, r, t):
        for s in R:
            if r in self.subs[s] and s in self.queues:
                q = self.queues[s]
                if q["live"] and not (q["max"] and len(q["items"]) >= q["max"]):
                    q["items"].append((r, t))


def check(m, bad, when):
    for r in R:
        up = set(registry.get_subscriptions(r))
        down = set(registry.get_subscribers(r))
        if up != m.subs[r]:
            bad.append(("subscriptions", f"after {when}: {N[r]} watches {sorted(N.get(x, str(x)) for x in up)}, expected {sorted(N[x] for x in m.subs[r])}"))
        want = {s for s in R if r in m.subs[s]}
        if down != want:
            bad.append(("subscribers", f"after {when}: {N[r]} is watched by {sorted(N.get(x, str(x)) for x in down)}, expected {sorted(N[x] for x in want)}"))
        # acyclic, on the registry's own view
        if reaches({x: set(registry.get_subscriptions(x)) for x in R}, registry.get_subscriptions(r), r):
            bad.append(("cycle", f"after {when}: {N[r]} watches itself"))


def drain(m, r, bad, when):
    """empty the real queue and compare with the model"""
    q = m.queues[r]
    got = []
    while not q["q"].empty():
        try:
            e = q["q"].get_nowait()
        except Exception:
            break
        q["q"].task_done()
        if not isinstance(e, registry.Kill):
            got.append((e.resource, e.event_time))
    want = sorted(q["items"], key=lambda w: w[1] is None)
    left = list(got)
    for w in want:
        hit = next((g for g in left if g[0] == w[0] and (w[1] is None or g[1] == w[1])), None)
        if hit is None:
            bad.append(("not-delivered", f"{when}: queue of {N[r]} lacks {N[w[0]]} at {w[1]}; it has {[(N[a], b) for a, b in got]}"))
            return
        left.remove(hit)
    if left:
        bad.append(("extra-delivery", f"{when}: queue of {N[r]} also has {[(N[a], b) for a, b in left]}"))
    q["items"].clear()


def history(rng, h, i):
    ops, bad = [], []
    rs = R[:rng.choice([2, 3, 4, 5, 5])]

    async def go():
        registry._reset_registries()
        m = Model()
        removed = []
        for step in range(rng.randint(4, 45)):
            r, s = rng.choice(rs), rng.choice(rs)
            c = rng.random()
            label = None
            try:
                if c < 0.2:
                    given = asyncio.Queue(maxsize=1) if rng.random() < 0.1 else None
                    ops.append(["register", N[r], "bounded" if given else ""])
                    q = registry.register(registerer=r, queue=given)
                    if r in m.queues:
                        if q is not m.queues[r]["q"]:
                            bad.append(("register-queue", f"registering {N[r]} again gave another queue"))
                    else:
                        m.queues[r] = {"q": q, "live": True, "items": [], "max": 1 if given else 0}
                        m.notify(r, None)
                elif c < 0.42:
                    ops.append(["subscribe", N[s], N[r]])
                    closes = r == s or reaches(m.subs, {r}, s)
                    try:
                        registry.subscribe(subscriber=s, resource=r)
                        if closes:
                            bad.append(("cycle-accepted", f"{N[s]} -> {N[r]}"))
                        m.subs[s].add(r)
                    except registry.SubscriptionCycle:
                        if not closes:
                            bad.append(("refused", f"{N[s]} -> {N[r]} closes no cycle"))
                elif c < 0.55:
                    some = [x for x in rs if rng.random() < 0.4]
                    some += rng.sample(some, 1) if some and rng.random() < 0.2 else []
                    ops.append(["subscribe_only_to", N[s], [N[x] for x in some]])
                    closes = reaches(m.subs, some, s)
                    try:
                        registry.subscribe_only_to(subscriber=s, resources=rng.choice([list, tuple, set])(some))
                        if closes:
                            bad.append(("cycle-accepted", f"{N[s]} -> {[N[x] for x in some]}"))
                        m.subs[s] = set(some)
                    except registry.SubscriptionCycle:
                        if not closes:
                            bad.append(("refused", f"{N[s]} -> {[N[x] for x in some]} closes no cycle"))
                elif c < 0.62:
                    ops.append(["unsubscribe", N[s], N[r]])
                    had = r in m.subs[s]
                    try:
                        registry.unsubscribe(unsubscriber=s, resource=r)
                    except KeyError:
                        if had:
                            raise
                    m.subs[s].discard(r)
                elif c < 0.8:
                    t = float(step) + 0.5
                    ops.append(["notify", N[r], t])
                    registry.notify_subscribers(notifier=r, event_time=t)
                    m.notify(r, t)
                elif c < 0.87:
                    ops.append(["kill", N[r]])
                    registry.kill_resource(resource=r)
                    if r in m.queues:
                        m.queues[r]["live"] = False
                elif c < 0.95:
                    ops.append(["deregister", N[r]])
                    q = m.queues.get(r)
                    waiters = []
                    if q and rng.random() < 0.6:
                        if not q["items"] and q["live"] and q["q"].empty():
                            waiters += [asyncio.create_task(q["q"].get()) for _ in range(rng.randint(0, 2))]
                        waiters += [asyncio.create_task(q["q"].join())]
                        if q["max"] and q["items"] and q["live"]:
                            waiters += [asyncio.create_task(q["q"].put(registry.Kill()))]
                        await asyncio.sleep(0)
                    registry.deregister(deregisterer=r, deregistered_at=float(step))
                    m.queues.pop(r, None)
                    m.subs[r] = set()
                    m.notify(r, float(step))
                    if q:
                        removed.append((r, q["q"]))
                        for _ in range(6):
                            await asyncio.sleep(0)
                        stuck = [w for w in waiters if not w.done()]
                        for w in waiters:
                            w.cancel()
                        await asyncio.gather(*waiters, return_exceptions=True)
                        if stuck:
                            bad.append(("not-released", f"{len(stuck)} still waiting on the queue of {N[r]}"))
                else:
                    if r in m.queues:
                        ops.append(["drain", N[r]])
                        drain(m, r, bad, f"operation {len(ops)}")
            except Exception as x:
                bad.append((f"raised:{ops[-1][0]}:{type(x).__name__}", f"{ops[-1]}: {type(x).__name__}: {x}"))
            check(m, bad, f"operation {len(ops)} {ops[-1] if ops else ''}")
            if bad:
                return
        for r in list(m.queues):
            drain(m, r, bad, "at the end")
        for r, q in removed:
            n = 0
            while not q.empty():
                try:
                    n += not isinstance(q.get_nowait(), registry.Kill)
                except Exception:
                    break
            if n:
                bad.append(("extra-delivery", f"{n} events in the queue {N[r]} had before it was deregistered"))
    run(go())
    h.case(ops, nontrivial=len(ops) > 3, sample=ops[:6])
    if bad:
        h.fail(bad[0][0], {"history": ops}, bad[0][1], "the reference registry")


if __name__ == "__main__":
    main({"history": (history, 6000, 80000)},
         "histories of 4-45 register/subscribe/subscribe_only_to/unsubscribe/notify/kill/deregister/drain operations over 2-5 resources, with waiters parked on the queue before "
         "deregistering and bounded queues; both views, acyclicity and every queue's contents are compared with a reference model after each operation; non-trivial: more than 3 operations")
