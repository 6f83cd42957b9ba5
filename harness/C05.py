"""C05 at run time: any deviation at any target-specified path triggers exactly the configured correction."""
import rf
from rf import *


def paths(t, at=(), ctx="plain"):
    """(path, context) for every target-specified position except last-applied-directed ones and ownerReferences"""
    if isinstance(t, dict):
        last, sets, maps = t.get("x-koreo-compare-last-applied", []), t.get("x-koreo-compare-as-set", []), t.get("x-koreo-compare-as-map", {})
        for k, v in t.items():
            if k in DIRECTIVES or k in last or k == "ownerReferences" or (at + (k,)) in IDENT:
                continue
            c = "set" if k in sets else "map" if k in maps else "plain"
            yield at + (k,), v, c
            yield from paths(v, at + (k,), c)
    elif isinstance(t, list):
        for n, v in enumerate(t):
            if ctx == "map" or ctx == "plain":
                yield at + (n,), v, "item-" + ctx
                yield from paths(v, at + (n,))


IDENT = {("apiVersion",), ("kind",), ("metadata", "name"), ("metadata", "namespace"), ("metadata",)}


def retyped(rng, v):
    """a JSON value of another type, picked from the near misses of v"""
    opts = ["changed", 12345, {"unexpected": 1}, ["unexpected"], None, {}, [], "", 0, False, True]
    if isinstance(v, bool):
        opts += [int(v), str(v).lower(), str(v)] * 2
    elif isinstance(v, int):
        opts += [str(v), v + 1, v - 1] * 2 + ([bool(v)] * 3 if v in (0, 1) else [])
    elif isinstance(v, float):
        opts += [str(v), v + 1] * 2
    elif isinstance(v, str):
        opts += [v + " ", v + "x", v.upper(), v[:-1], [v], {v: v}]
    elif isinstance(v, list):
        opts += [{str(n): x for n, x in enumerate(v)}, "".join(str(x) for x in v), None, {}] + ([v[0]] if v else [])
    elif isinstance(v, dict):
        opts += [[v], list(v), None, "object"]
    opts = [o for o in opts if differs(v, o)]
    return rng.choice(opts)


def differs(t, l):
    """does l lack or change something t specifies?  (plain comparison)"""
    if isinstance(t, dict):
        last = t.get("x-koreo-compare-last-applied", [])
        return not isinstance(l, dict) or any(k not in l or differs(v, l[k]) for k, v in t.items() if k not in DIRECTIVES and k not in last)
    if isinstance(t, list):
        return not isinstance(l, list) or len(t) != len(l) or any(differs(a, b) for a, b in zip(t, l))
    return not same(t, l)


def deviate_list(rng, v, ctx):
    """another list content; what counts as different depends on the directive"""
    out = copy.deepcopy(v)
    c = rng.random()
    if ctx == "set":
        uniq = lambda x: not any(same(x, y) for y in v)
        news = [x for x in ["new", 999, True, False, 1, 0, "1", "True", "a "] if uniq(x)]
        if v and c < 0.3:
            gone = rng.choice(v)
            out = [x for x in out if not same(x, gone)]
        elif c < 0.6:
            out.insert(rng.randint(0, len(out)), rng.choice(news))
        elif v:
            gone = rng.choice(v)
            new = rng.choice(([bool(gone)] if not isinstance(gone, bool) and gone in (0, 1) else []) + [str(gone)] + news)
            if not uniq(new):
                new = "other"
            out = [new if same(x, gone) else x for x in out]
        else:
            out = [rng.choice(news)]
        rng.shuffle(out)
        return out
    if ctx == "map":
        if c < 0.4:
            del out[rng.randrange(len(out))]
        elif c < 0.6:
            out[rng.randrange(len(out))]["name"] = "renamed"
        elif c < 0.8:
            return rng.choice([["scalar"], [1, 2], [None], [["name", "p"]], [True], [{}]])
        else:
            return []
        return out
    if v and c < 0.3:
        del out[rng.randrange(len(out))]
    elif c < 0.6:
        out.insert(rng.randint(0, len(out)), rng.choice(["new", 999, {"k": 1}, None, copy.deepcopy(out[0]) if out else 0]))
    else:
        rng.shuffle(out)
    return out if differs(v, out) else out + ["extra"]


def earlier(rng, v):
    """an earlier target: shorter lists, absent keys, other leaves"""
    if isinstance(v, dict):
        return {k: earlier(rng, x) for k, x in v.items() if rng.random() < 0.9}
    if isinstance(v, list):
        return [earlier(rng, x) for x in v][:rng.randint(0, len(v))]
    return v if rng.random() < 0.7 else "earlier"


def descend(live, path):
    for p in path:
        live = live[p]
    return live


def drift(rng, h, i, policy=None, mult=1):
    f = gen(rng, policy=policy or ["patch", "recreate", "never"][i % 3])
    body = rng.choice([f.payload, f.patch_payload])
    cand = list(paths(f.target))
    if not cand:
        h.count("no-path")
        return
    for _ in range(8 * mult):
        path, tv, ctx = rng.choice(cand)
        live = live_object(f, body)
        if rng.random() < 0.3:
            live["status"] = {"x": 1}
            if isinstance(live.get("spec"), dict):
                live["spec"]["serverDefault"] = 1
        ann = live["metadata"]["annotations"]
        if rng.random() < 0.3:                              # what was applied before need not be today's target
            older = rng.choice([None, {}, earlier(rng, body), earlier(rng, body), earlier(rng, body)])
            if older is None:
                del ann[LAST_APPLIED]
            else:
                ann[LAST_APPLIED] = json.dumps(older)
        holder, key = descend(live, path[:-1]), path[-1]
        c = rng.random()
        if isinstance(key, int):
            kind, new = "retype", retyped(rng, tv)
        elif c < 0.3:
            kind, new = "remove", None
        elif isinstance(tv, list) and c < 0.75:
            kind, new = "list", deviate_list(rng, tv, ctx)
        else:
            kind, new = "retype", retyped(rng, tv)
            if ctx == "map" and isinstance(new, list) and new and all(isinstance(x, dict) for x in new):
                kind, new = "retype", "text"
        if kind == "remove":
            del holder[key]
        else:
            new = strip(new) if isinstance(new, (dict, list)) else new
            if ctx == "set" and isinstance(new, list) and kind == "retype":
                new = "text"
            holder[key] = new
        c = Cluster()
        place(f, c, live)

        async def go():
            fresh()
            fn = await setup(f)
            a = await reconcile(f, fn, c)
            n = len(c.mutations())
            b = await reconcile(f, fn, c)
            return a, n, b
        what = {"path": list(path), "deviation": kind, "target": tv, "live": None if kind == "remove" else new, "directive": ctx}
        h.case([f.policy, f.spec, what])
        info = lambda: inp(f, drift=what, live_object=live)
        try:
            a, n, b = run(go())
        except Exception as e:
            h.fail("raises", info(), f"{type(e).__name__}: {e}", f"the {f.policy} correction")
            continue
        muts, first = c.mutations(), c.mutations()[:n]
        if f.policy == "never":
            if muts:
                h.fail("never-mutates", info(), muts, "no mutation")
            continue
        want = {"patch": "patch", "recreate": "delete"}[f.policy]
        if [m["op"] for m in first] != [want]:
            h.fail("missed-drift" if not first else "wrong-action", info(), [m["op"] for m in first] + [show(a.outcome)], f"exactly one {want}")
            continue
        if kind_of(a.outcome) != "Retry" or a.outcome.delay != f.delay:
            h.fail("correction-outcome", info(), show(a.outcome), f"Retry, delay {f.delay}")
            continue
        if f.policy == "patch":
            sent = copy.deepcopy(first[0]["body"])
            ann = sent.get("metadata", {}).get("annotations", {})
            ann.pop(LAST_APPLIED, None)
            exp = copy.deepcopy(f.patch_payload)
            exp["metadata"].setdefault("annotations", {})
            sent.get("metadata", {}).setdefault("annotations", {})
            if not same(sent, exp):
                h.fail("patch-content", info(), sent, exp)
            elif len(muts) != 1:
                h.fail("patched-again", info(), [m["op"] for m in muts], "no further mutation")


if __name__ == "__main__":
    main({"drift": (drift, 500, 6000)},
         "generated ResourceFunction x policy; the live object equals the target except one deviation (changed/retyped leaf, removed key, other list "
         "content, missing/extra/retyped set member, container replaced) at a random target-specified path; distinct by spec, path and deviation")
