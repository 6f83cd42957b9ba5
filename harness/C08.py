"""C08 at run time: payloads carry no directive, a truthful last-applied annotation, and never lose owner references."""
import rf
from rf import *


def directive_in(v, at=""):
    if isinstance(v, dict):
        for k, x in v.items():
            if k in DIRECTIVES:
                return f"{at}.{k}"
            r = directive_in(x, f"{at}.{k}")
            if r:
                return r
    elif isinstance(v, list):
        for n, x in enumerate(v):
            r = directive_in(x, f"{at}[{n}]")
            if r:
                return r


def nested_directives(rng, depth):
    """directive keys anywhere, also where they direct nothing"""
    v = tree(rng, depth, True)

    def add(x):
        if isinstance(x, dict):
            for k in list(x):
                if k not in DIRECTIVES:
                    add(x[k])
            if rng.random() < 0.3:
                x.setdefault("x-koreo-compare-as-set", []).append("nothing-here")
            if rng.random() < 0.15:
                x.setdefault("x-koreo-compare-as-map", {})["nothing-there"] = ["name"]
            if rng.random() < 0.1:
                x.setdefault("x-koreo-compare-last-applied", []).append("none")
        elif isinstance(x, list):
            for y in x:
                add(y)
    add(v)
    if rng.random() < 0.3:
        v["nested"] = [[{"x-koreo-compare-as-set": ["q"], "q": ["b", "a"]}], {"deep": [{"x-koreo-compare-last-applied": ["z"], "z": 1}]}]
    return v


OTHER = [{"uid": "someone-else", "kind": "X", "name": "x", "apiVersion": "v1"}, {"uid": "third", "kind": "Y", "name": "y", "apiVersion": "apps/v1", "controller": True},
         {"kind": "Z", "name": "no-uid", "apiVersion": "v1"}]


def payload(rng, h, i):
    f = gen(rng, policy=rng.choice(["patch", "patch", "patch", "recreate"]), directives=True)
    # more directives than gen() places: rebuild the document with them everywhere
    doc = {"spec": nested_directives(rng, 2), "metadata": {"labels": {"a": "b"}}}
    if rng.random() < 0.2:
        doc["metadata"]["x-koreo-compare-as-set"] = ["finalizers"]
    if rng.random() < 0.2:
        doc["x-koreo-compare-last-applied"] = ["data"]
    if "resource" in f.spec and rng.random() < 0.7:
        f.spec["resource"] = doc
    elif rng.random() < 0.5:
        f.spec.setdefault("overlays", []).append({"overlay": doc})
    if rng.random() < 0.3:
        f.spec["create"]["overlay"] = {"createOnly": nested_directives(rng, 1), "x-koreo-compare-as-set": ["createOnly"]}
    start = rng.choice(["absent", "drifted", "drifted", "matching-no-owner"])
    have = None
    c = Cluster()
    owner_ref = plain(f.owner[1])
    if start != "absent":
        have = rng.choice([None, [], OTHER[:1], OTHER[:2], OTHER, OTHER[1:] + [owner_ref], [owner_ref], [owner_ref] + OTHER[:1],
                           [{**owner_ref, "blockOwnerDeletion": False}], None])
        live = live_object(f, f.payload, owned=False)
        if start == "drifted":
            live["spec"] = {"drifted": True}
        if have is not None:
            live["metadata"]["ownerReferences"] = copy.deepcopy(have)
        place(f, c, live)

    async def go():
        fresh()
        fn = await setup(f)
        out = []
        for _ in range(2):
            before = copy.deepcopy(stored(f, c))
            n = len(c.mutations())
            o = await reconcile(f, fn, c)
            out.append((before, c.mutations()[n:], copy.deepcopy(stored(f, c)), show(o.outcome)))
        return out
    try:
        trace = run(go())
    except Exception as e:
        h.count(f"raised {type(e).__name__}: {e}"[:80])
        return
    h.case([f.spec, f.defs, start, have, f.owner_ns], nontrivial=any(m["op"] in ("create", "patch") for t in trace for m in t[1]))
    info = lambda: inp(f, start=start, ownerReferences=have)
    for before, muts, after, o in trace:
        for m in muts:
            if m["op"] not in ("create", "patch"):
                continue
            b = m["body"]
            at = directive_in(b)
            if at:
                h.fail("directive-sent", info(), {"call": m["op"], "at": at}, "no directive key")
                return
            sent = copy.deepcopy(b)
            ann = sent.get("metadata", {}).get("annotations", {})
            if LAST_APPLIED not in ann:
                h.fail("no-last-applied", info(), b, "a last-applied annotation")
                return
            text = ann.pop(LAST_APPLIED)
            alt = copy.deepcopy(sent)
            if not ann:
                del alt["metadata"]["annotations"]
            try:
                said = json.loads(text)
            except ValueError:
                said = text
            if not (same(said, sent) or same(said, alt)):
                h.fail("untruthful-last-applied", info(), {"call": m["op"], "annotation": said}, alt)
                return
            refs = sent.get("metadata", {}).get("ownerReferences")
            uids = [r.get("uid") for r in refs or []]
            if m["op"] == "create":
                if (OWNER_UID in uids) != f.owns or uids.count(OWNER_UID) > 1:
                    h.fail("create-owner", info(), refs, "the parent's owner reference" if f.owns else "no owner reference")
                    return
                if f.owns and owner_ref not in refs:
                    h.fail("create-owner", info(), refs, owner_ref)
                    return
            else:
                old = (before["metadata"].get("ownerReferences") or [])
                new = (after["metadata"].get("ownerReferences") or [])
                lost = [r for r in old if r not in new]
                if lost:
                    h.fail("owner-dropped", info(), {"before": old, "after": new}, "every earlier owner reference kept")
                    return
                lacks = OWNER_UID not in [r.get("uid") for r in old]
                has = OWNER_UID in [r.get("uid") for r in new]
                if lacks and has != f.owns:
                    h.fail("patch-owner", info(), {"before": old, "after": new}, "parent added" if f.owns else "parent not added")
                    return
                if len(new) > len(old) + (1 if lacks and f.owns else 0):
                    h.fail("patch-owner", info(), {"before": old, "after": new}, "nothing else added")
                    return


def target_refs(rng, h, i):
    """targets that state owner references or a last-applied annotation themselves"""
    f = gen(rng, policy="patch")
    over = {"metadata": {}}
    stated = copy.deepcopy(rng.choice([[OTHER[0]], OTHER[:2], []]))
    if i % 2 == 0:
        over["metadata"]["ownerReferences"] = stated
    else:
        over["metadata"]["annotations"] = {LAST_APPLIED: rng.choice(["{}", "stale", '{"spec": {"old": 1}}'])}
    f.spec.setdefault("overlays", []).append({"overlay": over})
    have = rng.choice([None, OTHER[:1], OTHER[1:], OTHER, [plain(f.owner[1])], [plain(f.owner[1])] + OTHER[1:]])
    live = live_object(f, f.payload, owned=False)
    if rng.random() < 0.7:
        live["spec"] = {"drifted": 1}
    if have is not None:
        live["metadata"]["ownerReferences"] = copy.deepcopy(have)
    c = Cluster()
    if rng.random() < 0.8:
        place(f, c, live)

    async def go():
        fresh()
        fn = await setup(f)
        out = []
        for _ in range(4):
            before = copy.deepcopy(stored(f, c))
            n = len(c.mutations())
            o = await reconcile(f, fn, c)
            out.append((before, c.mutations()[n:], copy.deepcopy(stored(f, c)), show(o.outcome)))
        return out
    trace = run(go())
    h.case(["t", f.spec, have])
    info = lambda: inp(f, ownerReferences=have)
    for before, muts, after, o in trace:
        for m in muts:
            sent = copy.deepcopy(m["body"])
            ann = sent["metadata"]["annotations"]
            said = json.loads(ann.pop(LAST_APPLIED))
            alt = copy.deepcopy(sent)
            if not ann:
                del alt["metadata"]["annotations"]
            if not (same(said, sent) or same(said, alt)):
                h.fail("untruthful-last-applied", info(), {"call": m["op"], "annotation": said}, alt)
                return
            if m["op"] == "patch":
                old = (before["metadata"].get("ownerReferences") or [])
                new = (after["metadata"].get("ownerReferences") or [])
                if [r for r in old if r not in new]:
                    h.fail("owner-dropped", info(), {"before": old, "after": new, "target": stated}, "every earlier owner reference kept")
                    return
                if f.owns and OWNER_UID not in [r.get("uid") for r in new]:
                    h.fail("patch-owner", info(), {"before": old, "after": new}, "parent added")
                    return
    if trace[-1][1]:
        h.count("update-loop")


if __name__ == "__main__":
    main({"payload": (payload, 1200, 12000), "target-metadata": (target_refs, 200, 2000)},
         "generated ResourceFunctions with directives nested anywhere x earlier ownerReferences lists x owner/namespace combinations; "
         "non-trivial = at least one create or patch was sent; distinct by spec and live references")
