"""C07 at run time: the management mode bounds which API calls are made (full matrix of modes x cluster situations)."""
import itertools
import rf
from rf import *

MODES = list(itertools.product([False, True], [False, True], ["none", "same", "other"], [True, False], ["patch", "recreate", "never"], [False, True]))
SITS = ["absent", "matching", "drifted", "no-owner", "drifted-no-owner"]
PRE = ["none", "pass", "ok-stops", "skip", "depSkip", "retry", "permFail", "broken"]
PREDS = {"pass": [{"assert": "=true", "skip": {"message": "no"}}], "ok-stops": [{"assert": "=false", "ok": {}}, {"assert": "=false", "skip": {"message": "x"}}],
         "skip": [{"assert": "=false", "skip": {"message": "m"}}], "depSkip": [{"assert": "=1 == 2", "depSkip": {"message": "m"}}],
         "retry": [{"assert": "=true", "skip": {"message": "no"}}, {"assert": "=false", "retry": {"message": "m", "delay": 3}}],
         "permFail": [{"assert": "=inputs.zz == 1", "permFail": {"message": "m"}}], "broken": [{"assert": "=1/0 == 1", "skip": {"message": "m"}}]}


def cell(rng, h, i):
    mode = MODES[i % len(MODES)]
    readonly, owned, place_ns, create_enabled, policy, die = mode
    sit = SITS[(i // len(MODES)) % len(SITS)]
    pre = PRE[0] if (i // 7) % 2 == 0 else PRE[1 + (i // 3) % (len(PRE) - 1)]
    f = gen(rng, policy=policy, owned=owned, readonly=readonly, create_enabled=create_enabled, delete_if_exists=die,
            same_ns=place_ns == "same", namespaced=place_ns != "none", precond=PREDS.get(pre))
    f.inputs["zz"] = 2
    if rng.random() < 0.15:
        del f.spec["apiConfig"]["plural"]      # the plural is then looked up through the API
    c = Cluster()
    if sit != "absent":
        live = live_object(f, f.payload, owned=False if "no-owner" in sit else None)
        if "drifted" in sit:
            live["spec"] = {"drifted": True}
            live["extra"] = 1
        place(f, c, live)
    passes = 3

    async def go():
        fresh()
        fn = await setup(f)
        out = []
        for _ in range(passes):
            present = stored(f, c) is not None
            before = len(c.log)
            o = await reconcile(f, fn, c)
            out.append((present, c.log[before:], o.outcome))
        return out
    trace = run(go())
    h.case([mode, sit, pre, f.spec])
    info = lambda: inp(f, mode=dict(zip(["readonly", "owned", "namespace", "create.enabled", "update", "deleteIfExists"], mode)), situation=sit,
                       precondition=pre, passes=[{"calls": [x["op"] for x in log], "outcome": show(o)} for _, log, o in trace])
    for present, log, o in trace:
        ops = [x["op"] for x in log]
        muts = [x for x in ops if x in ("create", "patch", "delete")]
        if pre in ("skip", "depSkip", "retry", "permFail", "broken"):
            if ops:
                h.fail("calls-despite-precondition", info(), ops, "no API call")
                return
            continue
        if die:
            if any(m != "delete" for m in muts):
                h.fail("delete-if-exists-other-call", info(), muts, "only deletes")
                return
            continue
        allowed = {"create"} | ({"patch"} if policy == "patch" else {"delete"} if policy == "recreate" else set())
        if readonly or not create_enabled:
            allowed.discard("create")
        if readonly:
            allowed = set()
        extra = [m for m in muts if m not in allowed]
        if extra:
            h.fail(f"forbidden-{extra[0]}", info(), muts, sorted(allowed))
            return
        if not present and (readonly or not create_enabled):
            if kind_of(o) != "Retry":
                h.fail("absent-not-waiting", info(), show(o), "Retry")
                return


if __name__ == "__main__":
    n = len(MODES) * len(SITS)
    main({"matrix": (cell, n * 2, n * 8)},
         "every combination of readonly x owned x (cluster-scoped, same namespace, other namespace) x create.enabled x update policy x deleteIfExists "
         "x (absent, matching, drifted, no owner reference, drifted without it), with a precondition result drawn per case; 3 passes each; distinct by mode, situation, spec")
