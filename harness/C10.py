"""C10 at run time: a failing Koreo Expression anywhere gives PermFail naming the place; nothing escapes or leaks."""
from lib import *
from koreo.cel.functions import koreo_cel_functions, koreo_function_annotations

BAD = ["inputs.missing", "inputs.a.b", "inputs.n.x", "inputs.l[9]", "inputs.m['zz']", "inputs.m.zz", "1/0", "5 % 0", "inputs.n + 'x'", "'a' - 1", "-inputs.s", "!inputs.s",
       "inputs.s > 3", "nosuchfunction(1)", "nosuchvar", "inputs.n.nosuchmethod()", "split('a', '')", "split_index('a,b', ',', 7)", "split_first('', '') + 'x'",
       "to_ref({})", "self_ref({'apiVersion': 'v1'})", "self_ref(inputs.n)", "to_ref(inputs.s)", "group_ref({'kind': 'x'})", "kindless_ref({})", "kindless_ref(5)",
       "config_connect_ready(inputs.n)", "config_connect_ready({'status': {'conditions': 5}})", "config_connect_ready({'status': {'conditions': [1]}})", "config_connect_ready({'status': 5})",
       "overlay(5, 6)", "overlay({}, 5)", "overlay({'a': 1}, [1])", "overlay({})", "flatten(5)", "flatten([1, 2])", "lower(5)", "lower()", "lower('a', 'b')", "strip(5, 'x')", "rstrip('x')",
       "from_json('{')", "from_json(5)", "b64decode('!')", "b64decode(5)", "b64encode(7)", "replace(5, 'a', 'b')", "replace('a', 5, 'b')", "to_json()",
       "int('abc')", "double('x')", "timestamp('x')", "duration('zz')", "uint(-1)", "string()", "size(5)", "9223372036854775807 + 1", "inputs.s.matches('(')",
       "inputs.l.map(x, x.foo)", "inputs.l.map(x, 1/0)", "inputs.l.filter(x, x.foo)", "inputs.l.all(x, x.foo > 1)", "inputs.l.exists(x, x.foo)", "inputs.l.exists_one(x, x.foo)",
       "inputs.l.map(x, split('a', ''))", "inputs.l.map(x, [x, inputs.zz])", "inputs.l.map(x, {'k': inputs.zz})", "inputs.s.map(x, x)", "inputs.n.map(x, x)", "inputs.l.map(x, to_ref({}))",
       "has(inputs.zz.yy.xx)", "inputs.zz || false", "inputs.t && inputs.zz", "inputs.t ? inputs.zz : 1", "inputs.zz ? 1 : 2", "[inputs.zz][0]", "{'a': inputs.zz}", "{'a': inputs.zz}.a", "{inputs.l: 1}",
       "{inputs.zz: 1}", "[[1/0]]", "{'a': {'b': [1/0]}}", "{'a': split('a', '')}", "[split('a', '')]", "flatten([[split('a', '')]])", "overlay({}, {'a': 1/0})", "{'a': 1, 'a': 2}",
       "to_json({'a': 1/0})", "type(inputs.zz)", "dyn(inputs.zz)", "inputs.zz == inputs.zz", "inputs.m.k.k.k", "inputs[0]", "inputs.l['a']", "inputs.nul.x", "inputs.nul + 1", "nul"]
GOOD = ["inputs.n", "inputs.n + 1", "'x'", "inputs.l", "inputs.m", "[1, 2]", "{'a': 1}", "true"]
INPUTS = {"n": 3, "s": "text", "t": True, "l": [1, 2], "m": {"k": 1}, "nul": None, "a": 1}


def fails(expr):
    """does celpy itself say this expression fails (raises, or yields an error object somewhere)?"""
    env = celpy.Environment(annotations=koreo_function_annotations)
    try:
        v = env.program(env.compile(expr), functions=koreo_cel_functions).evaluate({"inputs": cel(INPUTS)})
    except celpy.CELParseError:
        return None
    except Exception:
        return True
    return has_error(v)


def has_error(v):
    if isinstance(v, Exception):
        return True
    if isinstance(v, dict):
        return any(has_error(k) or has_error(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return any(has_error(x) for x in v)
    return False


_cache = {}


def bad_expr(rng):
    while True:
        e = rng.choice(BAD)
        c = rng.random()
        if c < 0.03:
            e = f"{{'k': {{'j': {e}}}}}"
        elif c < 0.1:
            e = f"[{rng.choice(GOOD)}, {e}]"
        elif c < 0.2:
            e = f"{{'k': {e}}}"
        elif c < 0.27:
            e = f"[1].map(x, {e})"
        elif c < 0.32:
            e = f"({e})"
        if e not in _cache:
            _cache[e] = fails(e)
        if _cache[e]:
            return e


def nest(rng, leaf, depth=3):
    """put the value somewhere inside a nested map/list"""
    v = leaf
    for _ in range(rng.randint(0, depth)):
        if rng.random() < 0.5:
            v = {"ok": "=inputs.n", "in": v, "z": 1} if rng.random() < 0.5 else {"in": v}
        else:
            v = ["static", v, "=inputs.s"] if rng.random() < 0.5 else [v]
    return v


def doc(rng, leaf):
    v = nest(rng, leaf)
    return {"field": v, "other": 1} if rng.random() < 0.7 or not isinstance(v, dict) else v


API = {"apiVersion": "example.dev/v1", "kind": "Widget", "plural": "widgets", "name": "obj", "namespace": "ns", "owned": False}


def spot_vf(rng, e, where):
    spec = {"return": {"a": 1}, "locals": {"b": 2}}
    if where == "preconditions":
        spec["preconditions"] = [{"assert": "=true", "skip": {"message": "m"}}] * rng.randint(0, 2) + [{"assert": e, rng.choice(["skip", "retry", "permFail"]): {"message": "m", "delay": 3}}]
        k = list(spec["preconditions"][-1])[1]
        if k != "retry":
            spec["preconditions"][-1][k] = {"message": "m"}
    elif where == "preconditions-message":
        spec["preconditions"] = [{"assert": "=false", "skip": {"message": e}}]
    elif where == "locals":
        spec["locals"] = doc(rng, e)
    else:
        spec["return"] = doc(rng, e)
    return spec


VF = ["preconditions", "preconditions-message", "locals", "return"]
RF = ["preconditions", "locals", "apiConfig.name", "apiConfig.namespace", "resource", "resourceTemplateRef", "overlay", "skipIf", "overlay-inputs", "overlay-function", "create.overlay",
      "postconditions", "postconditions-message", "return"]
WF = ["inputs", "skipIf", "forEach.itemIn", "forEach-step", "switchOn", "state", "function-return", "resource-return"]
NAMED = {"preconditions-message": "preconditions", "apiConfig.name": "apiConfig", "apiConfig.namespace": "apiConfig", "overlay-inputs": "overlays", "overlay-function": "overlay", "skipIf": "skipIf",
         "overlay": "overlay", "create.overlay": "create", "postconditions-message": "postconditions"}


def judge(h, where, info, out, err, mutations=(), extra=()):
    h.case([where, info])
    if err is not None:
        h.fail(f"escapes:{where}", info, f"{type(err).__name__}: {err}", "PermFail")
        return
    for m in mutations:
        if leaked(m):
            h.fail(f"leaks:{where}", info, m, "no error object in an API payload")
            return
    for x in extra:
        if has_error(x) or leaked(plain(x)):
            h.fail(f"leaks:{where}", info, repr(x), "no error object in published data")
            return
    if kind_of(out) != "PermFail":
        h.fail(f"not-permfail:{where}", info, show(out), "PermFail")
        return
    word = NAMED.get(where, where)
    if word not in f"{out.message} {out.location}":
        h.fail(f"location:{where}", info, show(out), f"a message or location naming {word}")


def leaked(v):
    if isinstance(v, dict):
        return any(leaked(k) or leaked(x) for k, x in v.items())
    if isinstance(v, list):
        return any(leaked(x) for x in v)
    return isinstance(v, str) and ("CELEvalError" in v or v.startswith("<CEL"))


def value_function(rng, h, i):
    where, e = VF[i % len(VF)], "=" + bad_expr(rng)
    if where == "preconditions-message" and e in ():
        return
    spec = spot_vf(rng, e, where)

    async def go():
        fresh()
        fn = await offer("ValueFunction", "vf", spec)
        if kind_of(fn) != "Ok":
            return fn
        return await reconcile_value_function(location="t", function=fn, inputs=cel(INPUTS))
    out, err = None, None
    try:
        out = run(go())
    except Exception as x:
        err = x
    judge(h, where, {"kind": "ValueFunction", "spec": spec, "inputs": INPUTS}, out, err)


def resource_function(rng, h, i):
    where, e = RF[i % len(RF)], "=" + bad_expr(rng)
    spec = {"apiConfig": copy.deepcopy(API), "resource": {"spec": {"a": 1}}, "locals": {"b": 2}, "return": {"r": 1}}
    defs = []
    if where == "preconditions":
        spec["preconditions"] = [{"assert": e, "skip": {"message": "m"}}]
    elif where == "locals":
        spec["locals"] = doc(rng, e)
    elif where in ("apiConfig.name", "apiConfig.namespace"):
        spec["apiConfig"][where.split(".")[1]] = e
    elif where == "resource":
        spec["resource"] = doc(rng, e)
    elif where == "resourceTemplateRef":
        del spec["resource"]
        spec["resourceTemplateRef"] = {"name": e}
    elif where == "overlay":
        spec["overlays"] = [{"overlay": {"x": 1}}, {"overlay": doc(rng, e)}]
    elif where == "skipIf":
        spec["overlays"] = [{"skipIf": e, "overlay": {"x": 1}}]
    elif where == "overlay-inputs":
        defs.append(("ValueFunction", "ov", {"return": {"q": "=inputs.w"}}))
        spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"w": nest(rng, e)}}]
    elif where == "overlay-function":
        defs.append(("ValueFunction", "ov", spot_vf(rng, e, rng.choice(["return", "locals", "preconditions"]))))
        spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {k: f"=inputs.{k}" for k in INPUTS}}]
    elif where == "create.overlay":
        spec["create"] = {"overlay": doc(rng, e)}
    elif where == "postconditions":
        spec["postconditions"] = [{"assert": e, "retry": {"message": "m", "delay": 1}}]
    elif where == "postconditions-message":
        spec["postconditions"] = [{"assert": "=false", "permFail": {"message": e}}]
    else:
        spec["return"] = doc(rng, e)
    present = where in ("postconditions", "postconditions-message", "return") or (where != "create.overlay" and rng.random() < 0.5)
    c = Cluster()
    if present:
        c.put("example.dev/v1", "widgets", "ns", "obj", {"apiVersion": "example.dev/v1", "kind": "Widget", "metadata": {"name": "obj", "namespace": "ns"}, "spec": {"a": 1 if where != "overlay" else 2}})

    async def go():
        fresh()
        for d in defs:
            r = await offer(*d)
            if kind_of(r) != "Ok":
                return r
        fn = await offer("ResourceFunction", "fn", spec)
        if kind_of(fn) != "Ok":
            return fn
        return (await reconcile_resource_function(api=c, location="t", function=fn, owner=owner_of(), inputs=cel(INPUTS))).outcome
    out, err = None, None
    try:
        out = run(go())
    except Exception as x:
        err = x
    judge(h, where, {"kind": "ResourceFunction", "spec": spec, "definitions": defs, "inputs": INPUTS, "present": present}, out, err, [m["body"] for m in c.mutations()])
    if err is None and c.mutations() and where not in ("postconditions", "postconditions-message", "return"):
        h.fail(f"mutated:{where}", {"spec": spec, "definitions": defs, "inputs": INPUTS}, [m["op"] for m in c.mutations()], "no mutation when the target cannot be evaluated")


def workflow(rng, h, i):
    where, e = WF[i % len(WF)], bad_expr(rng)
    trig = {"metadata": {"name": "t", "namespace": "ns"}, "spec": INPUTS}
    pe = "=" + e.replace("inputs", "parent.spec") if where not in ("function-return", "resource-return") else "=" + e
    if where == "state" or where == "forEach-step":
        pe = "=" + (e.replace("inputs", "value") if where == "state" else e)
    ref = {"kind": "ValueFunction", "name": "vf"}
    step = {"label": "one", "ref": ref}
    defs = [("ValueFunction", "vf", {"return": {k: v for k, v in INPUTS.items()}})]
    if where == "inputs":
        step["inputs"] = {"x": nest(rng, pe)}
    elif where == "skipIf":
        step["skipIf"] = pe
    elif where == "forEach.itemIn":
        step["forEach"] = {"itemIn": pe, "inputKey": "item"}
    elif where == "forEach-step":
        step["forEach"] = {"itemIn": "=[1, 2, 3]", "inputKey": "item"}
        step["inputs"] = {k: f"=parent.spec.{k}" for k in INPUTS}
        defs = [("ValueFunction", "vf", {"return": {"v": f"=inputs.item == {rng.choice([1, 2, 3])} ? {e} : null"}})]
        if not (_cache.get(t := defs[0][2]["return"]["v"][1:].replace("inputs.item ==", "2 ==")) or fails(e)):
            return
    elif where == "switchOn":
        del step["ref"]
        step["refSwitch"] = {"switchOn": pe, "cases": [{"case": "one", "kind": "ValueFunction", "name": "vf", "default": True}]}
    elif where == "state":
        step["state"] = {"st": nest(rng, pe)}
    elif where == "function-return":
        step["inputs"] = {k: f"=parent.spec.{k}" for k in INPUTS}
        defs = [("ValueFunction", "vf", {"return": {"x": nest(rng, pe)}})]
    else:
        step["inputs"] = {k: f"=parent.spec.{k}" for k in INPUTS}
        step["ref"] = {"kind": "ResourceFunction", "name": "rf"}
        defs = [("ResourceFunction", "rf", {"apiConfig": API, "resource": {"a": 1}, "return": {"x": nest(rng, pe)}})]
    spec = {"steps": [step, {"label": "other", "ref": {"kind": "ValueFunction", "name": "fine"}, "state": {"fine": "=value.ok"}}]}
    c = Cluster()
    c.put("example.dev/v1", "widgets", "ns", "obj", {"apiVersion": "example.dev/v1", "kind": "Widget", "metadata": {"name": "obj", "namespace": "ns"}, "a": 1})

    async def go():
        fresh()
        await offer("ValueFunction", "fine", {"return": {"ok": True}})
        for d in defs:
            r = await offer(*d)
            if kind_of(r) != "Ok":
                return r, None
        wf = await offer("Workflow", "wf", spec)
        if kind_of(wf) != "Ok":
            return wf, None
        r = await reconcile_workflow(api=c, workflow_key="wf", owner=owner_of(), trigger=cel(trig), workflow=wf)
        return r.result, r
    out, err, full = None, None, None
    try:
        out, full = run(go())
    except Exception as x:
        err = x
    if full is None and err is None:
        h.count("not-prepared")
        return
    info = {"kind": "Workflow", "spec": spec, "definitions": defs, "trigger": trig}
    h.case([where, info])
    if err is not None:
        h.fail(f"escapes:{where}", info, f"{type(err).__name__}: {err}", "PermFail")
        return
    st = full.state
    errs = full.state_errors or {}
    if has_error(st) or leaked(plain(st)):
        h.fail(f"leaks:{where}", info, repr(st), "no error object in published state")
        return
    if where == "state":
        # the Logic succeeded; what failed is publishing
        if not errs and kind_of(out) != "PermFail":
            h.fail("state-error-lost", info, [show(out) if kind_of(out) != "Ok" else repr(out), plain(st)], "a state error or PermFail naming the step")
        elif errs and leaked(plain(errs)) and False:
            pass
        return
    if kind_of(out) != "PermFail":
        h.fail(f"not-permfail:{where}", info, show(out) if kind_of(out) != "Ok" else repr(out), "PermFail")
    elif "one" not in f"{out.message} {out.location}":
        h.fail(f"location:{where}", info, show(out), "the step is named")


if __name__ == "__main__":
    main({"value-function": (value_function, 2000, 14000), "resource-function": (resource_function, 6000, 40000), "workflow": (workflow, 3000, 18000)},
         "a failing CEL expression (about 100 shapes: missing names, type errors, macros, custom functions, nested in maps/lists/macros; celpy itself "
         "decides that it fails) in every expression-bearing place; distinct by place and definition")
