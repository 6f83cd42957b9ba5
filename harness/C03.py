"""C03 at run time: koreo.result.combine / unwrapped_combine on outcome sequences, and a Workflow's overall outcome."""
import itertools
from lib import *

R = result
RANK = {"DepSkip": 0, "Skip": 1, "Ok": 2, "Retry": 3, "PermFail": 4}
MAKE = [
    lambda n: R.DepSkip(f"d{n}", f"l{n}"), lambda n: R.DepSkip(), lambda n: R.Skip(f"s{n}", f"l{n}"), lambda n: R.Skip(),
    lambda n: R.Ok(f"v{n}", f"l{n}"), lambda n: R.Ok(None), lambda n: R.Ok([f"v{n}"]),
    lambda n: R.Retry(10 + n, f"r{n}", f"l{n}"), lambda n: R.Retry(100 - n, f"r{n}"), lambda n: R.Retry(5),
    lambda n: R.PermFail(f"p{n}", f"l{n}"), lambda n: R.PermFail(f"p{n}"), lambda n: R.PermFail(),
    lambda n: R.Retry(70), lambda n: R.Retry(0),
]
UNW = [0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14]
VALS = [lambda n: f"v{n}", lambda n: None, lambda n: [f"v{n}"], lambda n: {"a": n}, lambda n: 0, lambda n: False]


def describe(seq):
    return [show(o) for o in seq]


def judge(h, seq, got, unwrapped):
    rank = lambda o: RANK["Ok" if isinstance(o, R.Ok) else kind_of(o)]
    inp = {"unwrapped": unwrapped, "sequence": describe(seq)}
    if not seq:
        return          # the property speaks of the classes present
    top = max(rank(o) for o in seq)
    if isinstance(got, R.Ok) and unwrapped:
        h.fail("class", inp, describe([got]), "an unwrapped value")
        return
    if rank(got) != top:
        h.fail("class", inp, show(got), f"severity rank {top}")
        return
    if top == 2:
        want = [o.data if isinstance(o, R.Ok) else o for o in seq if rank(o) == 2]
        have = got if unwrapped else got.data
        if not (isinstance(have, list) and len(have) == len(want) and all(x is y or x == y for x, y in zip(have, want))):
            h.fail("values", inp, repr(have), repr(want))
    if top >= 3:
        for o in seq:
            if rank(o) == top and o.message and o.message not in (got.message or ""):
                h.fail("messages", inp, show(got), f"contains {o.message}")
    if top == 3:
        d = max(o.delay for o in seq if rank(o) == 3)
        if got.delay != d:
            h.fail("delay", inp, show(got), f"delay {d}")


def seqs(rng, h, i):
    if i < 3:          # exhaustive for lengths 1..3
        combos = list(itertools.product(range(len(MAKE)), repeat=i + 1))
    else:
        combos = [[rng.randrange(len(MAKE)) for _ in range(rng.randint(4, 9))] for _ in range(40)]
    for c in combos:
        seq = [MAKE[k](n) for n, k in enumerate(c)]
        judge(h, seq, R.combine(list(seq)), False)
        h.case(["c", list(c)], sample=describe(seq) if len(c) == 3 and i == 2 and not h.samples else None)


def useqs(rng, h, i):
    pool = [MAKE[k] for k in UNW] + VALS
    if i < 3:
        combos = list(itertools.product(range(len(pool)), repeat=i + 1))
    else:
        combos = [[rng.randrange(len(pool)) for _ in range(rng.randint(4, 9))] for _ in range(40)]
    for c in combos:
        seq = [pool[k](n) for n, k in enumerate(c)]
        judge(h, seq, R.unwrapped_combine(iter(list(seq)) if i % 2 else list(seq)), True)
        h.case(["u", list(c)])


STEP = {
    "Ok": {"return": {"v": "=inputs.n"}},
    "Skip": {"preconditions": [{"assert": "=false", "skip": {"message": "m"}}], "return": {"v": 1}},
    "DepSkip": {"preconditions": [{"assert": "=false", "depSkip": {"message": "m"}}], "return": {"v": 1}},
    "Retry": {"preconditions": [{"assert": "=false", "retry": {"message": "m", "delay": 7}}], "return": {"v": 1}},
    "PermFail": {"preconditions": [{"assert": "=false", "permFail": {"message": "m"}}], "return": {"v": 1}},
}


def workflow(rng, h, i):
    ks = list(STEP)
    if i < 25:
        kinds = [ks[i % 5], ks[i // 5]]
    else:
        kinds = [rng.choice(ks) for _ in range(rng.randint(3, 6))]
    nested = i % 3 == 2

    async def go():
        fresh()
        for k, s in STEP.items():
            await offer("ValueFunction", f"f-{k.lower()}", s)
        steps = [{"label": f"step{n}", "ref": {"kind": "ValueFunction", "name": f"f-{k.lower()}"}, "inputs": {"n": n}}
                 for n, k in enumerate(kinds)]
        await offer("Workflow", "w", {"steps": steps})
        name = "w"
        if nested:
            await offer("Workflow", "outer", {"steps": [{"label": "inner", "ref": {"kind": "Workflow", "name": "w"}}]})
            name = "outer"
        return await reconcile_workflow(api=Cluster(), workflow_key="k", owner=owner_of(), trigger=cel({}), workflow=cached("Workflow", name))
    res = run(go())
    top = max(RANK[k] for k in kinds)
    got = kind_of(res.result)
    h.case(["w", kinds, nested])
    if RANK[got] != top:
        h.fail("workflow-class", {"steps": kinds, "nested": nested}, show(res.result), f"severity rank {top}")
    elif top == 3 and res.result.delay != 7:
        h.fail("workflow-delay", {"steps": kinds}, show(res.result), "delay 7")


def foreach(rng, h, i):
    n = rng.randint(1, 5)
    ks = [rng.choice(list(STEP)) for _ in range(n)]
    pre = [{"assert": f"=inputs.kind != '{k}'", {"Skip": "skip", "DepSkip": "depSkip", "Retry": "retry", "PermFail": "permFail"}[k]:
            ({"message": "m" + k, "delay": 9} if k == "Retry" else {"message": "m" + k})} for k in STEP if k != "Ok"]

    async def go():
        fresh()
        await offer("ValueFunction", "f", {"preconditions": pre, "return": {"v": "=inputs.kind"}})
        await offer("Workflow", "w", {"steps": [{"label": "each", "ref": {"kind": "ValueFunction", "name": "f"},
                                                 "forEach": {"itemIn": "=parent.kinds", "inputKey": "kind"}, "inputs": {"a": 1}}]})
        return await reconcile_workflow(api=Cluster(), workflow_key="k", owner=owner_of(), trigger=cel({"kinds": ks}), workflow=cached("Workflow", "w"))
    res = run(go())
    errs = [RANK[k] for k in ks if RANK[k] >= 3]
    want = max(errs) if errs else 2
    h.case(["f", ks])
    if RANK[kind_of(res.result)] != want:
        h.fail("foreach-class", {"items": ks}, show(res.result), f"severity rank {want}")
    elif want == 2 and len(plain(res.result)[0]) != n:
        h.fail("foreach-values", {"items": ks}, show(res.result), f"{n} results")


if __name__ == "__main__":
    main({"sequences": (seqs, 40, 400), "unwrapped": (useqs, 40, 400), "workflow": (workflow, 60, 400), "foreach": (foreach, 40, 300)},
         "outcome sequences: every sequence of length 1-3 over 13 (wrapped) / 16 (unwrapped) outcome shapes, random longer ones; "
         "Workflows and forEach steps whose steps have prescribed outcomes; a case is non-trivial when it contains at least one outcome; distinct by content")
