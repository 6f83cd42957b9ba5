"""C18 at run time: the states a FunctionTest threads from case to case, against an independent walk; variants and skips leave no trace."""
import ft
from ft import *


def input_merge(base, over):
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = input_merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def shallow(base, over):
    return {**copy.deepcopy(base), **copy.deepcopy(over)}


def rand_mod(rng, f, inputs, res):
    """what a case changes before running"""
    c = {}
    if rng.random() < 0.45:
        o = {}
        if f.has_pre and rng.random() < 0.35:
            o["pre"] = {rng.choice(KINDS): True}
        keys = [k for k in f.inputs if k not in ("tname",) and not k.startswith("skip")]
        if keys and rng.random() < 0.6:
            k = rng.choice(sorted(keys))
            v = f.inputs[k]
            o[k] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, (int, float)) else v + "z" if isinstance(v, str) and v else copy.deepcopy(v)
        if rng.random() < 0.5:
            o["spare"] = {"n": rng.randrange(9), rng.choice("abc"): rng.choice([True, "x", [1], {"q": 1}, {}])}
        if o:
            c["inputOverrides"] = o
    r = rng.random()
    if f.fkind == "ResourceFunction":
        if r < 0.15:
            c["currentResource"] = fixture(rng, f)
        elif r < 0.45 and res:
            o = rng.choice([{"status": {"ready": True}}, {"status": {"ready": rng.random() < 0.5}}, {"spec": {"drift": rng.randrange(5)}},
                            {"metadata": {"labels": {"seen": "yes"}}}, {"status": {"extra": [1, {"a": rng.randrange(5)}]}}, {"spec": {}}, {"kept": rng.random() < 0.5}])
            c["overlayResource"] = copy.deepcopy(o)
    else:
        if r < 0.15:
            c["currentResource"] = {"apiVersion": "v1", "kind": "Thing", "metadata": {"name": "n"}, "spec": {"v": rng.randrange(9)}}
        elif r < 0.35 and res:
            c["overlayResource"] = {"spec": {rng.choice(["v", "w"]): rng.randrange(9)}}
    return c


def fixture(rng, f):
    live = live_object(f, f.payload, owned=False, last_applied=rng.random() < 0.5)
    for k in ("uid", "resourceVersion"):
        del live["metadata"][k]
    c = rng.random()
    if c < 0.35:
        live["spec"] = {"drifted": True}
    elif c < 0.7:
        live["status"] = {"ready": rng.random() < 0.7}
    return live


def start(c, inputs, res):
    i = input_merge(inputs, c["inputOverrides"]) if "inputOverrides" in c else copy.deepcopy(inputs)
    if "overlayResource" in c:
        r = deep_merge(res, c["overlayResource"])
    elif "currentResource" in c:
        r = copy.deepcopy(c["currentResource"])
    else:
        r = copy.deepcopy(res)
    return i, r


def after(muts, res):
    """resource state once the calls were made; None when what the server keeps is not determined"""
    for m in muts:
        if m["op"] == "create":
            return m["body"], True
        if m["op"] == "patch":
            a, b = shallow(res, m["body"]), merge_patch(res, m["body"])
            return (a, True) if same(a, b) else (None, False)
        if m["op"] == "delete":
            return {}, True
    return res, True


def describing(rng, f, o, muts):
    """an assertion that holds"""
    k = kind_of(o)
    out = []
    if k == "Ok":
        out.append({"expectOutcome": {"ok": {}}})
        v = plain(o)
        if isinstance(v, dict) and v:
            out += [{"expectReturn": v}] * 2
    else:
        out.append({"expectOutcome": {OUT[k]: {"message": "", **({"delay": o.delay if rng.random() < 0.5 else 0} if k == "Retry" else {})}}})
    if f.fkind == "ResourceFunction":
        out.append({"expectDelete": any(m["op"] == "delete" for m in muts)})
    for m in muts:
        if m["op"] == "create":
            out += [{"expectResource": sent(m["body"])}] * 2
    return copy.deepcopy(rng.choice(out))


OUT = {"Skip": "skip", "DepSkip": "depSkip", "Retry": "retry", "PermFail": "permFail"}
WRONG = [{"expectOutcome": {"permFail": {"message": "never said"}}}, {"expectReturn": {"never": "returned"}}, {"expectOutcome": {"retry": {"message": "never said", "delay": 0}}}]


def norm(x):
    """strip the case position from locations and messages"""
    if isinstance(x, str):
        import re
        return re.sub(r"testCases\[\d+", "testCases[", x)
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def view(r):
    return norm({"pass": bool(r.test_pass), "outcome": show(r.outcome), "message": r.message, "differences": plain(r.differences), "expected": show(r.expected_outcome)})


def freeze(t):
    return {"inputs": plain(t.inputs), "initial": copy.deepcopy(plain(t.initial_resource)),
            "cases": [[plain(c.input_overrides), plain(c.current_resource), show(c.assertion[0]) if type(c.assertion).__name__ == "ExpectOutcome" else plain(c.assertion[0]), c.label, c.variant, c.skip]
                      for c in t.test_cases]}


def chain(rng, h, i):
    f = gen_rf(rng) if rng.random() < 0.7 else gen_vf(rng)
    inputs0 = copy.deepcopy(f.inputs)
    if rng.random() < 0.15:
        inputs0 = {}
    elif rng.random() < 0.5:
        inputs0["spare"] = {"n": 0, "a": {"z": 1}}
    if rng.random() < 0.3:
        res0 = fixture(rng, f) if f.fkind == "ResourceFunction" else {"apiVersion": "v1", "kind": "Thing", "metadata": {"name": "n"}, "spec": {"v": 1}}
    else:
        res0 = None

    async def go():
        fn = await offer_all(f)
        before = show((await truth(f, fn, f.inputs, res0, LOC))[0])
        cases, expect, mains = [], [], []
        inputs, res = copy.deepcopy(inputs0), copy.deepcopy(res0)
        stopped = False
        for n in range(rng.randint(2, 12)):
            role = rng.choices(["main", "variant", "skip", "skip-variant"], [5, 4, 1, 0.5])[0]
            c = rand_mod(rng, f, inputs, res)
            i2, r2 = start(c, inputs, res)
            o, muts = await truth(f, fn, i2, r2, f"{LOC}.testCases[{n}]")
            fail = rng.random() < (0.06 if role == "main" else 0.3)
            if role.startswith("skip"):
                c.update(copy.deepcopy(rng.choice(WRONG)))
                c["skip"] = True
                if role == "skip-variant":
                    c["variant"] = True
            elif fail:
                c.update(copy.deepcopy(rng.choice(WRONG)))
            else:
                c.update(describing(rng, f, o, muts))
            if role == "variant":
                c["variant"] = True
            nxt, known = after(muts, r2)
            if role == "main" and not known:
                continue      # what survives a patch is not specified: leave such a case out
            c["label"] = f"{role} {n} variant" if c.get("variant") else f"{role} {n}"
            if not stopped:
                cases.append(c)
                expect.append(None if role.startswith("skip") else (not fail, i2, r2))
                mains.append(role == "main")
            if role == "main":
                if fail:
                    stopped = True
                    break
                inputs, res = i2, nxt
        # the position of a case is part of its location, so that what it should report is only known now
        want = []
        for n, e in enumerate(expect):
            want.append(None if e is None else (e[0], show((await truth(f, fn, e[1], e[2], f"{LOC}.testCases[{n}]"))[0])))
        base = {}
        if inputs0:
            base["inputs"] = inputs0
        if res0:
            base["currentResource"] = res0
        spec = {**base, "testCases": cases}
        info = {"function": f.spec, "kind": f.fkind, "definitions": f.defs, "test": spec}
        if not cases:
            return
        try:
            t, r = await run_test(f, spec)
        except Exception as e:
            h.fail("run-raises", info, f"{type(e).__name__}: {e}", "results")
            return
        assert r is not None, show(t)
        h.case(spec, nontrivial=len(cases) > 1)
        got = r.test_results
        if len(got) != len(cases) or bool(r.fatal_error) is not stopped:
            h.fail("results-cut", info, {"results": [view(x) for x in got], "fatal": r.fatal_error}, {"results": len(cases), "fatal": stopped})
            return
        for n, (w, g) in enumerate(zip(want, got)):
            h.count(("main" if mains[n] else "side") + (" skipped" if w is None else ""))
            if w is None:
                if not g.test_pass:
                    h.fail("skipped-not-passed", {**info, "case": n}, view(g), "pass")
                    return
                continue
            if bool(g.test_pass) is not w[0] or not same(norm(show(g.outcome)), norm(w[1])):
                h.fail("case-not-from-chained-state", {**info, "case": n, "starts from": {"inputs": expect[n][1], "resource": expect[n][2]}}, view(g), {"pass": w[0], "outcome": w[1]})
                return
        # fixtures untouched and repeatable
        frozen = freeze(t)
        again = await run_function_test(LOC, t)
        if [view(x) for x in again.test_results] != [view(x) for x in got]:
            h.fail("second-run-differs", info, [view(x) for x in again.test_results], [view(x) for x in got])
            return
        fresh_t, _ = await prepare_function_test("t", copy.deepcopy({"functionRef": {"kind": f.fkind, "name": "fn"}, **spec}))
        if not same(freeze(fresh_t), frozen) or not same(freeze(t), frozen):
            h.fail("fixtures-modified", info, freeze(t), freeze(fresh_t))
            return
        now = show((await truth(f, fn, f.inputs, res0, LOC))[0])
        if not same(now, before):
            h.fail("function-modified", info, now, before)
            return
        # related tests
        for kind in ("no-variants", "no-skips", "mains-only", "drop-one", "swap-variants", "add-variant"):
            idx = list(range(len(cases)))
            extra = {}
            side = [n for n in idx if cases[n].get("variant") or cases[n].get("skip")]
            if kind == "no-variants":
                idx = [n for n in idx if not cases[n].get("variant")]
            elif kind == "no-skips":
                idx = [n for n in idx if not cases[n].get("skip")]
            elif kind == "mains-only":
                idx = [n for n in idx if n not in side]
            elif kind == "drop-one" and side:
                idx.remove(rng.choice(side))
            elif kind == "swap-variants":
                runs = [n for n in idx[:-1] if n in side and n + 1 in side]
                if not runs:
                    continue
                n = rng.choice(runs)
                idx[n], idx[n + 1] = idx[n + 1], idx[n]
            elif kind == "add-variant":
                n = rng.randrange(len(idx))
                extra = {"variant": True, "label": "added variant", "inputOverrides": {"spare": {"added": True}, **({"pre": {"skip": True}} if f.has_pre else {})}, **copy.deepcopy(rng.choice(WRONG))}
                if f.fkind == "ResourceFunction" and rng.random() < 0.5:
                    extra["currentResource"] = fixture(rng, f)
                idx.insert(n, None)
            if idx == list(range(len(cases))) or not idx:
                continue
            s2 = {**base, "testCases": [extra if n is None else cases[n] for n in idx]}
            try:
                _, r2 = await run_test(f, s2)
            except Exception as e:
                h.fail(f"run-raises:{kind}", {**info, "related": s2}, f"{type(e).__name__}: {e}", "results")
                return
            h.case(s2)
            res2 = r2.test_results
            if len(res2) != len(idx):
                h.fail(f"changed-by:{kind}", {**info, "related": s2}, [view(x) for x in res2], len(idx))
                return
            for n, g in zip(idx, res2):
                if n is not None and view(g) != view(got[n]):
                    h.fail(f"changed-by:{kind}", {**info, "related": s2, "case": cases[n]["label"]}, view(g), view(got[n]))
                    return
    run(go())


if __name__ == "__main__":
    main({"chain": (chain, 400, 8000)},
         "a generated Function and up to 12 cases mixing inputOverrides, currentResource, overlayResource, all assertion kinds, variant/skip and failing cases; every result "
         "compared with an independent walk of the states, then the related tests (variants/skips removed, swapped, added); distinct by test")
