"""C19 at run time: assertions derived from what a Function really did pass, every one-step perturbation of them fails."""
import ft
from ft import *


# ---- the meaning of an expectation, written down independently
def canon(v):
    return json.dumps([type(v).__name__ if isinstance(v, bool) else "", v], sort_keys=True)


def holds(exp, act):
    """True / False / None (the statement does not decide)"""
    if isinstance(exp, dict) and isinstance(act, dict):
        ek, ak = set(exp) - DIRECTIVES, set(act) - DIRECTIVES
        if ek != ak:
            return False
        out = True
        for k in ek:
            if k in (exp.get("x-koreo-compare-as-map") or {}):
                r = map_holds(exp[k], act[k], exp["x-koreo-compare-as-map"][k])
            elif k in (exp.get("x-koreo-compare-as-set") or []):
                r = set_holds(exp[k], act[k])
            else:
                r = holds(exp[k], act[k])
            if r is False:
                return False
            if r is None:
                out = None
        return out
    if isinstance(exp, list) and isinstance(act, list):
        if len(exp) != len(act):
            return False
        rs = [holds(a, b) for a, b in zip(exp, act)]
        return False if False in rs else None if None in rs else True
    return same(exp, act)


def set_holds(exp, act):
    if not (isinstance(exp, list) and isinstance(act, list)):
        return holds(exp, act)
    if any(isinstance(x, (dict, list)) for x in exp + act):
        return False if not same(exp, act) and len(exp) == len(act) else None
    e, a = {canon(x) for x in exp}, {canon(x) for x in act}
    if e != a:
        return False if not any(isinstance(x, float) for x in exp + act) else None
    return True if len(exp) == len(act) else None     # only repetitions differ


def map_holds(exp, act, fields):
    ok = lambda l: isinstance(l, list) and all(isinstance(x, dict) for x in l)
    if not (ok(exp) and ok(act)):
        return holds(exp, act)
    key = lambda o: canon([o.get(f) for f in fields])
    e, a = {}, {}
    for x in exp:
        e.setdefault(key(x), []).append(x)
    for x in act:
        a.setdefault(key(x), []).append(x)
    if set(e) != set(a):
        return False
    if all(len(v) == 1 for v in e.values()) and all(len(v) == 1 for v in a.values()):
        rs = [holds(e[k][0], a[k][0]) for k in e]
        return False if False in rs else None if None in rs else True
    # a repeated key: some member must differ from every counterpart for this to be a deviation
    for k in e:
        for x in e[k]:
            if all(holds(x, y) is False for y in a[k]):
                return False
        for y in a[k]:
            if all(holds(x, y) is False for x in e[k]):
                return False
    return None


# ---- the recorded findings (known-findings.json), predicted exactly: anything else that deviates keeps its own signature
class Raises(Exception):
    pass


def recorded(exp, act, flaws=("map", "set"), as_set=False):
    """the comparison with the recorded flaws: objects of a compare-as-map list collapse by the text of their keys (and anything but
    a list of objects raises), members of a compare-as-set list are told apart by Python equality"""
    if isinstance(exp, dict) and isinstance(act, dict):
        ek, ak = set(exp) - DIRECTIVES, set(act) - DIRECTIVES
        sets = {k for k in exp.get("x-koreo-compare-as-set", ()) if k}
        maps = {k: [f for f in v if f] for k, v in exp.get("x-koreo-compare-as-map", {}).items() if k}
        rs = [ek == ak]
        for k in ek & ak:
            if k in maps:
                def keyed(objs):
                    try:
                        return {"$".join(f"{o.get(f)}".strip() for f in maps[k]): o for o in objs}
                    except (AttributeError, TypeError):
                        raise Raises
                rs.append(recorded(keyed(exp[k]), keyed(act[k]), flaws))
            else:
                rs.append(recorded(exp[k], act[k], flaws, k in sets))
        return all(rs)
    if isinstance(exp, list) and isinstance(act, list):
        if as_set:
            if any(isinstance(x, (dict, list)) for x in exp + act):
                return False
            return set(exp) == set(act)
        return len(exp) == len(act) and all([recorded(a, b, flaws) for a, b in zip(exp, act)])
    return same(exp, act)


def predict(exp, act):
    try:
        return recorded(exp, act)
    except Raises:
        return "raises"


def which(exp, act):
    """the recorded finding that explains why exp is not told from act"""
    if predict(exp, act) == "raises":
        return "known:compare-as-map-raises"
    def strip(v):
        if isinstance(v, dict):
            return {k: strip(x) for k, x in v.items() if k != "x-koreo-compare-as-set"}
        return [strip(x) for x in v] if isinstance(v, list) else v
    return "known:compare-as-set-bool" if predict(strip(exp), act) is not True else "known:compare-as-map-collision"


# ---- perturbations
def paths(v, p=()):
    yield p
    if isinstance(v, dict):
        for k in v:
            if k not in DIRECTIVES:
                yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, p + (i,))


def at(v, p):
    for k in p:
        v = v[k]
    return v


def edit(v, p, fn):
    v = copy.deepcopy(v)
    if not p:
        return fn(v)
    at(v, p[:-1])[p[-1]] = fn(at(v, p))
    return v


def drop(v, p):
    v = copy.deepcopy(v)
    del at(v, p[:-1])[p[-1]]
    return v


def changes(rng, v):
    """(name, new value) for one node"""
    if isinstance(v, bool):
        return [("flip", not v), ("retype", int(v)), ("retype", str(v).lower()), ("retype", "" if not v else "x"), ("null", None), ("wrap", [v])]
    if isinstance(v, (int, float)):
        return [("change", v + 1), ("retype", str(v)), ("retype", bool(v)), ("null", None), ("wrap", [v]), ("wrap", {"v": v})]
    if isinstance(v, str):
        return [("change", v + "x"), ("change", v.upper() if v != v.upper() else v + "Q"), ("change", " " + v), ("retype", len(v)), ("retype", bool(v)), ("null", None), ("wrap", [v]), ("retype", {})]
    if v is None:
        return [("change", "x"), ("retype", False), ("retype", 0), ("retype", {}), ("retype", [])]
    if isinstance(v, dict):
        out = [("extra", {**v, "zz-extra": rng.choice([1, "", None, False, {}, []])}), ("retype", list(v)), ("retype", "{}"), ("null", None), ("wrap", [v])]
        out += [("missing", {a: b for a, b in v.items() if a != k}) for k in v if k not in DIRECTIVES]
        return out
    out = [("extra", v + [rng.choice([1, "zz", None, {"a": 1}])]), ("wrap", [v]), ("retype", {str(i): x for i, x in enumerate(v)}), ("retype", "[]"), ("null", None)]
    if v:
        out += [("drop", v[:-1]), ("drop", v[1:]), ("repeat", v + [v[-1]])]
        if isinstance(v[0], dict):
            out += [("repeat-changed", v + [{**v[0], "zz-other": 1}]), ("prepend-changed", [{**v[0], "zz-other": 1}] + v)]
    if len(v) > 1:
        out += [("reorder", v[::-1]), ("reorder", v[1:] + v[:1])]
    return out


def directed(rng, exp):
    """add compare directives where the lists of the expectation allow it"""
    exp = copy.deepcopy(exp)
    for p in list(paths(exp)):
        v = at(exp, p)
        if not p or not isinstance(p[-1], str) or not isinstance(v, list) or rng.random() < 0.3:
            continue
        parent = at(exp, p[:-1])
        if v and all(isinstance(x, dict) and isinstance(x.get("name"), str) for x in v) and len({x["name"] for x in v}) == len(v):
            parent.setdefault("x-koreo-compare-as-map", {})[p[-1]] = ["name"]
        elif not any(isinstance(x, (dict, list)) for x in v) and len({canon(x) for x in v}) == len(v):
            parent.setdefault("x-koreo-compare-as-set", []).append(p[-1])
    return exp


def value_assertions(rng, real, field, thorough):
    """(label, assertion, should pass)"""
    out = []
    bases = [("exact", real)]
    d = directed(rng, real)
    if d != real:
        bases.append(("directed", d))
    for bname, b in bases:
        out.append((bname, {field: b}, True, None))
        cands = []
        for p in paths(b):
            for name, nv in changes(rng, at(b, p)):
                cands.append((p, name, nv))
        rng.shuffle(cands)
        for p, name, nv in cands[:80 if thorough else 26]:
            v = edit(b, p, lambda _: copy.deepcopy(nv))
            if not isinstance(v, dict) or not v:
                continue
            want = holds(v, real)
            if want is None:
                continue
            pred = predict(v, real)
            out.append((f"{bname}:{name}@{'.'.join(map(str, p))}", {field: v}, want, None if pred is want else (which(v, real), pred)))
    return out


MSG_OUT = "no such words anywhere"
OUTCOMES = {"Skip": "skip", "DepSkip": "depSkip", "Retry": "retry", "PermFail": "permFail"}


def outcome_assertions(rng, o):
    k = kind_of(o)
    out = [("ok", {"expectOutcome": {"ok": {}}}, k == "Ok")]
    for cls, name in OUTCOMES.items():
        extra = {"delay": 0} if cls == "Retry" else {}
        out.append((name, {"expectOutcome": {name: {"message": "", **extra}}}, k == cls))
        out.append((f"{name}:other-words", {"expectOutcome": {name: {"message": MSG_OUT, **extra}}}, False))
        if cls != k:
            continue
        m = o.message or ""
        if m:
            a = rng.randrange(len(m))
            b = rng.randint(a + 1, len(m))
            for label, part in (("part", m[a:b]), ("upper", m[a:b].upper()), ("whole", m)):
                if part.lower() in m.lower():
                    out.append((f"{name}:{label}", {"expectOutcome": {name: {"message": part, **extra}}}, True))
            out.append((f"{name}:longer", {"expectOutcome": {name: {"message": m + "!", **extra}}}, False))
        if cls == "Retry" and o.delay:
            for delay, want in ((o.delay, True), (o.delay + 1, False), (o.delay - 1, False), (-o.delay, False), (o.delay * 10, False)):
                if delay or want:
                    out.append((f"retry:delay{delay}", {"expectOutcome": {"retry": {"message": "", "delay": delay}}}, want))
            out.append(("retry:both-wrong", {"expectOutcome": {"retry": {"message": MSG_OUT, "delay": o.delay + 1}}}, False))
            out.append(("retry:delay-words", {"expectOutcome": {"retry": {"message": MSG_OUT, "delay": o.delay}}}, False))
    return out


async def evaluate_all(h, f, fn, inputs, live, assertions, info, label):
    """each assertion (label, assertion, should pass, (signature, what a recorded finding makes of it) or None) alone, as a variant of one test run"""
    quiet = [a for a in assertions if not (a[3] and a[3][1] == "raises")]
    groups = [quiet[k:k + 20] for k in range(0, len(quiet), 20)] + [[a] for a in assertions if a[3] and a[3][1] == "raises"][:4]
    for part in groups:
        cases = [{"label": f"case {i}", "variant": True, **a} for i, (_, a, _, _) in enumerate(part)]
        spec = {"testCases": cases}
        if inputs:
            spec["inputs"] = inputs
        if live:
            spec["currentResource"] = live
        for _, a, _, _ in part:
            h.case([label, f.spec, inputs, a], sample=None)
        try:
            t, r = await run_test(f, spec)
        except Exception as e:
            known = part[0][3]
            sig = known[0] if len(part) == 1 and known and known[1] == "raises" and isinstance(e, (AttributeError, TypeError)) else "run-raises"
            h.fail(sig, {**info, "test": spec}, f"{type(e).__name__}: {e}", "a verdict for each case")
            if sig == "run-raises":
                return
            continue
        if r is None:
            h.fail("not-prepared", {**info, "test": spec}, show(t), "a prepared test")
            return
        if len(r.test_results) != len(part):
            h.fail("results-missing", {**info, "test": spec}, len(r.test_results), len(part))
            return
        for (name, a, want, known), res in zip(part, r.test_results):
            h.count("pass-expected" if want else "fail-expected")
            if bool(res.test_pass) is not want:
                field = list(a)[0]
                sig = known[0] if known and known[1] is bool(res.test_pass) else f"{field}:{'passes-wrongly' if not want else 'fails-wrongly'}:{label}"
                h.fail(sig, {**info, "assertion": a, "perturbation": name}, {"test_pass": res.test_pass, "message": res.message, "differences": res.differences, "outcome": show(res.outcome)}, want)
                if not sig.startswith("known:"):
                    return


def case(rng, h, i, fkind):
    f = gen_rf(rng) if fkind == "ResourceFunction" else gen_vf(rng)
    inputs = inputs_for(rng, f)
    thorough = os.environ.get("VERIF_TIER") == "thorough"

    async def go():
        fn = await offer_all(f)
        live = None
        if fkind == "ResourceFunction":
            sit = rng.choice(["absent", "absent", "matching", "matching", "drifted", "drifted", "ready"])
            if sit != "absent":
                live = live_object(f, f.payload, owned=False, last_applied=rng.random() < 0.7)
                for k in ("uid", "resourceVersion"):
                    del live["metadata"][k]
                if sit == "drifted":
                    live["spec"] = {"drifted": True} if rng.random() < 0.5 else {}
                    live["metadata"] = {k: live["metadata"][k] for k in ("name", "namespace") if k in live["metadata"]}
                if sit == "ready":
                    live["status"] = {"ready": rng.random() < 0.7}
        elif rng.random() < 0.4:
            live = {"apiVersion": "v1", "kind": "Thing", "metadata": {"name": "n"}, "spec": tree(rng, 1, False)}
        o, muts = await truth(f, fn, inputs, live, f"{LOC}.testCases[0]")
        if kind_of(o) == "PermFail" or (kind_of(o) != "Ok" and "testCases" in (o.message or "")):
            msg_ok = "testCases" not in (o.message or "")
        else:
            msg_ok = True
        al = outcome_assertions(rng, o) if msg_ok else [a for a in outcome_assertions(rng, o) if all(not v.get("message") for v in a[1]["expectOutcome"].values())]
        label = f"{fkind[0]}F-{kind_of(o)}-{'+'.join(m['op'] for m in muts) or 'none'}"
        h.count(label)
        info = {"function": f.spec, "definitions": f.defs, "inputs": inputs, "live": live, "did": {"outcome": show(o), "calls": [{"op": m["op"], "body": m["body"]} for m in muts]}}
        real = plain(o) if kind_of(o) == "Ok" else None
        if isinstance(real, dict) and real:
            al += value_assertions(rng, real, "expectReturn", thorough)
        else:
            al.append(("nothing-returned", {"expectReturn": {"a": 1}}, False))
        if fkind == "ResourceFunction":
            deleted = any(m["op"] == "delete" for m in muts)
            al += [("delete", {"expectDelete": True}, deleted), ("no-delete", {"expectDelete": False}, not deleted)]
            writes = [m for m in muts if m["op"] in ("create", "patch")]
            if writes:
                body = sent(writes[0]["body"])
                # what the server keeps besides the object sent is not specified: keep to objects where nothing is left over
                if writes[0]["op"] == "create" or set(live) <= set(writes[0]["body"]):
                    al += value_assertions(rng, body, "expectResource", thorough)
            else:
                al.append(("nothing-sent", {"expectResource": plain(live) if live else {"a": 1}}, False))
                al.append(("nothing-sent-target", {"expectResource": f.payload}, False))
                # recorded: a delete counts as having sent an empty object
                al.append(("nothing-sent-directives", {"expectResource": {"x-koreo-compare-as-set": []}}, False, ("known:expectResource-after-delete", True) if deleted and kind_of(o) == "Retry" else None))
        await evaluate_all(h, f, fn, inputs, live, [a if len(a) == 4 else (*a, None) for a in al], info, label)
    run(go())


def rf_case(rng, h, i):
    case(rng, h, i, "ResourceFunction")


def vf_case(rng, h, i):
    case(rng, h, i, "ValueFunction")


if __name__ == "__main__":
    main({"resource-function": (rf_case, 260, 4000), "value-function": (vf_case, 100, 1500)},
         "a generated Function, inputs and current resource; its real behaviour observed against the in-memory cluster; the describing assertions and one-step "
         "perturbations of them (each node of the value: changed, retyped, dropped, extra, reordered, null; directives added; outcome class, message, delay) each run as a variant case; distinct by function, inputs, assertion")
