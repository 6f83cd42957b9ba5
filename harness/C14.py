"""C14 at run time: every statically named step reference is a dependency (or the Workflow is not ready); every named definition is watched."""
from lib import *

LABELS = ["alpha", "beta_1", "gamma", "Delta", "step_two", "has", "map_it", "n0de", "steps", "parent", "inputs", "value"]
LABELS = [x for x in LABELS if len(x) >= 3 and x not in ("has",)]


def ref(rng, name):
    """the ways to write one named reference"""
    q = rng.choice(["'", '"', "'''", '"""'])
    base = rng.choice([f"steps.{name}"] * 4 + [f"steps[{q}{name}{q}]"] * 4 + [f"steps[r'{name}']", f"steps . {name}", f"steps [ {q}{name}{q} ]", f"(steps).{name}", f"((steps))[{q}{name}{q}]",
                                              f"steps[({q}{name}{q})]", f"(steps.{name})", f".steps.{name}", f"steps['\\x{ord(name[0]):02x}{name[1:]}']", f"steps\n.{name}"])
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        base += rng.choice([".sub", ".value", "['key']", "[0]", "[inputs_ix]" if False else "[1]", ".steps", "['parent']", ".f()", ".size()", "['a.b']"])
    return base


def expr(rng, names, depth, used):
    """an expression over steps/parent; every label it names is added to `used`"""
    c = rng.random()
    if depth <= 0 or c < 0.12:
        if c < 0.09 or rng.random() < 0.55:
            n = rng.choice(names)
            used.add(n)
            return ref(rng, n)
        return rng.choice(["1", "'text'", "true", "parent.field", "parent.list", "parent['m'].k", "null", "2.5", "'steps.nothing'", "b'by'", "7u", "parent.m[parent.key]", "[]", "{}"])

    def e():
        return expr(rng, names, depth - 1, used)
    k = rng.randrange(24)
    if k == 0:
        return f"{e()} {rng.choice(['+', '-', '*', '/', '%'])} {e()}"
    if k == 1:
        return f"{e()} {rng.choice(['==', '!=', '<', '>=', '&&', '||', 'in'])} ({e()})"
    if k == 2:
        return f"({e()}) ? ({e()}) : ({e()})"
    if k == 3:
        return f"[{', '.join(e() for _ in range(rng.randint(1, 3)))}]"
    if k == 4:
        return f"{{{', '.join(f'{chr(39)}k{i}{chr(39)}: {e()}' for i in range(rng.randint(1, 3)))}}}"
    if k == 5:
        return f"{{{e()}: {e()}}}"
    if k in (6, 7):
        return f"({e()}).{rng.choice(['map', 'filter', 'all', 'exists', 'exists_one'])}(x, {e()})"
    if k == 8:
        return f"parent.list.map(item, {{'i': item.q, 'v': {e()}}})"
    if k == 9:
        n = rng.choice(names)
        used.add(n)
        return f"has(steps.{n}.field)"
    if k == 10:
        return f"{rng.choice(['size', 'string', 'to_ref', 'flatten', 'dyn'])}({e()})"
    if k == 11:
        return f"({e()}).{rng.choice(['startsWith', 'contains', 'overlay', 'split'])}({e()})"
    if k == 12:
        return f"parent.m[{e()}]"
    if k == 13:
        return f"[{e()}][0]"
    if k == 14:
        return f"{{'a': {e()}}}.a"
    if k == 15:
        return f"!({e()})"
    if k == 16:
        return f"-({e()})"
    if k == 17:
        return f"{{'a': {e()}}}['a'].b[0]"
    if k == 18:
        return f"({e()}).field['x'].y"
    if k == 19:
        n, m = rng.choice(names), rng.choice(names)
        used.update((n, m))
        return f"{ref(rng, n)}.map(x, x.val + {ref(rng, m)})"
    if k == 20:
        return f"size({e()}) > 0"
    if k == 21:
        return f"({e()})[{e()}]"
    if k == 22:
        return f"overlay({e()}, {e()})"
    n = rng.choice(names)
    used.add(n)
    return ref(rng, n)


ENV = celpy.Environment()


def parseable(s):
    try:
        ENV.compile(s)
        return True
    except celpy.CELParseError:
        return False


def wrap(rng, s):
    v = s
    for _ in range(rng.randint(0, 3)):
        v = rng.choice([lambda v: {"k": v}, lambda v: [1, v], lambda v: {"a": {"b": "c"}, "d": v}, lambda v: [v, "x"], lambda v: {"with-dash": v}])(v)
    return v


FIELDS = ["inputs", "skipIf", "itemIn", "switchOn", "state"]


def step(rng, label, field, text):
    s = {"label": label}
    if field == "switchOn" or rng.random() < 0.2:
        s["refSwitch"] = {"switchOn": "=" + (text if field == "switchOn" else "'a'"), "cases": [{"case": "a", "kind": "ValueFunction", "name": "vf", "default": True}]}
    else:
        s["ref"] = {"kind": "ValueFunction", "name": "vf"}
    if field == "inputs":
        s["inputs"] = {"v": wrap(rng, "=" + text), "w": "static"}
    elif rng.random() < 0.3:
        s["inputs"] = {"w": "=parent.q"}
    if field == "skipIf":
        s["skipIf"] = "=" + text
    elif rng.random() < 0.2:
        s["skipIf"] = "=parent.no"
    if field == "itemIn":
        s["forEach"] = {"itemIn": "=" + text, "inputKey": "it"}
    elif rng.random() < 0.15:
        s["forEach"] = {"itemIn": "=parent.list", "inputKey": "it"}
    if field == "state":
        s["state"] = {"s": wrap(rng, "=" + text)}
    elif rng.random() < 0.2:
        s["state"] = {"s": "=value.a"}
    return s


def plain_step(label):
    return {"label": label, "ref": {"kind": "ValueFunction", "name": "vf"}}


async def prepared(spec, vf=True):
    fresh()
    if vf:
        await offer("ValueFunction", "vf", {"return": {"a": 1}})
    return await prepare_workflow("wf", copy.deepcopy(spec))


def dependencies(rng, h, i):
    names = rng.sample(LABELS, rng.randint(1, 5))
    field = FIELDS[i % len(FIELDS)]
    for _ in range(30):
        used = set()
        text = expr(rng, names, rng.randint(0, 4), used)
        if used and parseable(text):
            break
    else:
        return
    rest = [x for x in LABELS if x not in names]
    me = rng.choice(rest)
    before = [plain_step(n) for n in names]
    rng.shuffle(before)
    spec = {"steps": before + [step(rng, me, field, text)]}
    info = {"field": field, "expression": text, "names": sorted(used), "spec": spec}
    h.case([field, text], sample=text)
    try:
        out = run(prepared(spec))
    except Exception as x:
        h.fail(f"raised:{field}", info, f"{type(x).__name__}: {x}", "a prepared Workflow")
        return
    if not isinstance(out, tuple):
        h.fail(f"not-prepared:{field}", info, show(out), "a prepared Workflow")
        return
    wf = out[0]
    got = next((s for s in wf.steps if s.label == me), None)
    deps = getattr(got, "dynamic_input_keys", None)
    if not result.is_ok(wf.steps_ready) and deps is None:
        h.fail(f"rejected:{field}", info, show(wf.steps_ready), "all named steps precede this one")
        return
    if deps is None or not used <= set(deps):
        h.fail(f"missed:{field}", info, sorted(map(str, deps or ())), sorted(used))
        return
    # one of the names is unknown, its own, or a later step
    victim = rng.choice(sorted(used))
    kind = rng.choice(["unknown", "later", "own"])
    steps = [s for s in before if s["label"] != victim]
    target = copy.deepcopy(spec["steps"][-1])
    if kind == "own":
        target["label"] = victim
    steps = steps + [target] + ([plain_step(victim)] if kind == "later" else [])
    spec2 = {"steps": steps}
    info2 = {"field": field, "expression": text, "victim": victim, "how": kind, "spec": spec2}
    h.case([field, text, kind, victim])
    try:
        out = run(prepared(spec2))
    except Exception as x:
        h.fail(f"raised:{kind}:{field}", info2, f"{type(x).__name__}: {x}", "a Workflow that is not ready")
        return
    if isinstance(out, tuple) and result.is_ok(out[0].steps_ready):
        h.fail(f"ready:{kind}:{field}", info2, "steps_ready is Ok", f"not ready: names {victim} ({kind})")


ODD = ["steps['']", "steps['a.b']", "steps['alpha.x']", "steps['alpha[0]']", "steps[\"al\" + \"pha\"]", "steps['alpha '].x", "steps['alph\\u0061x']"]


def odd_labels(rng, h, i):
    """names that are no label at all"""
    text = ODD[i % len(ODD)]
    spec = {"steps": [plain_step("alpha"), plain_step("beta_1"), step(rng, "mine", "inputs", text)]}
    info = {"expression": text, "spec": spec}
    if text.startswith("steps[\"al\""):
        return
    h.case(text)
    try:
        out = run(prepared(spec))
    except Exception as x:
        h.fail("raised:odd", info, f"{type(x).__name__}: {x}", "not ready")
        return
    if isinstance(out, tuple) and result.is_ok(out[0].steps_ready):
        h.fail("ready:odd", info, "steps_ready is Ok", "not ready: names no known label")


# ------------------------------------------------------------------------------------------------ watched
def watched(rng, h, i):
    kinds = ["ValueFunction", "ResourceFunction", "Workflow"]
    pool = [(k, f"{k[0].lower()}-{n}") for k in kinds for n in "abc"]
    state = {p: rng.choice(["ok", "ok", "missing", "bad"]) for p in pool}
    which = i % 3
    api = {"apiVersion": "example.dev/v1", "kind": "Widget", "plural": "widgets", "name": "obj", "namespace": "ns"}
    good = {"ValueFunction": {"return": {"a": 1}}, "ResourceFunction": {"apiConfig": api, "resource": {}},
            "Workflow": {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "inner"}}]}}
    bad = {"ValueFunction": {"return": {"a": "=(("}}, "ResourceFunction": {"apiConfig": api, "resource": {"a": "=)"}}, "Workflow": {"steps": 5}}
    named = set()

    def one(kindset=kinds):
        p = rng.choice([x for x in pool if x[0] in kindset])
        named.add(p)
        return {"kind": p[0], "name": p[1]}
    if which == 0:
        kind = "Workflow"
        steps = []
        for n in range(rng.randint(1, 5)):
            s = {"label": f"step{n}"}
            c = rng.random()
            if c < 0.5:
                s["ref"] = one()
            else:
                cs = [{"case": f"c{j}", **one()} for j in range(rng.randint(1, 4))]
                if rng.random() < 0.6:
                    cs[0]["default"] = True
                if rng.random() < 0.15:
                    cs[-1]["default"] = True
                s["refSwitch"] = {"switchOn": rng.choice(["='c0'", "=parent.w", "=parent.w", "=((", ""]), "cases": cs}
            x = rng.random()
            if x < 0.1:
                s["skipIf"] = "=(("
            elif x < 0.2:
                s["inputs"] = {"a": "=steps.nowhere"}
            elif x < 0.3:
                s["state"] = {"a": "=(("}
            elif x < 0.4:
                s["forEach"] = {"itemIn": rng.choice(["=((", "=parent.l", ""]), "inputKey": "k"}
            elif x < 0.5 and n:
                s["label"] = f"step{n - 1}"
            steps.append(s)
        spec = {"steps": steps}
    elif which == 1:
        kind = "ResourceFunction"
        ovs = []
        for n in range(rng.randint(1, 4)):
            o = {}
            if rng.random() < 0.7:
                o["overlayRef"] = one(["ValueFunction"])
                if rng.random() < 0.5:
                    o["inputs"] = {"a": rng.choice(["=inputs.a", "=((", 4])}
            else:
                o["overlay"] = {"a": rng.choice([1, "=inputs.b", "=(("])}
            if rng.random() < 0.4:
                o["skipIf"] = rng.choice(["=inputs.no", "=(("])
            ovs.append(o)
        spec = {"apiConfig": {**api, "kind": "Gadget", "plural": "gadgets"}, "resource": {"a": 1}, "overlays": ovs}
    else:
        kind = "FunctionTest"
        spec = {"functionRef": one(["ValueFunction", "ResourceFunction"]), "inputs": {"a": 1}, "testCases": [{"expectReturn": {"a": 1}}]}
    info = {"kind": kind, "spec": spec, "situation": {f"{k}/{n}": v for (k, n), v in state.items() if (k, n) in named}}
    h.case([kind, spec, sorted(map(str, named))], nontrivial=bool(named))

    async def go():
        fresh()
        registry._reset_registries()
        for (k, n), s in state.items():
            if s != "missing":
                await offer(k, n, good[k] if s == "ok" else bad[k])
        got = await PREP[kind]("it", copy.deepcopy(spec))
        await offer(kind, "it", spec)
        subs = registry.get_subscriptions(registry.Resource(resource_type=CLS[kind], name="it"))
        return got, set(subs)
    try:
        got, subs = run(go())
    except Exception as x:
        h.fail(f"raised:watched:{kind}", info, f"{type(x).__name__}: {x}", "an outcome")
        return
    if not isinstance(got, tuple):
        h.count(f"not-prepared:{kind}")
        return
    want = {registry.Resource(resource_type=CLS[k], name=n) for k, n in named}
    for what, have in (("reported", set(got[1] or ())), ("subscribed", subs)):
        if not want <= have:
            h.fail(f"unwatched:{kind}:{what}", info, sorted(map(str, have)), sorted(map(str, want)))
            return


if __name__ == "__main__":
    main({"dependencies": (dependencies, 2200, 25000), "odd": (odd_labels, len(ODD), len(ODD)), "watched": (watched, 900, 9000)},
         "random CEL expressions (members, indexing, macros, calls, operators, conditionals, literals; nesting up to 4) naming 1-5 known steps, placed in each expression-bearing field, "
         "then with one named step made unknown, later or its own; Workflows/ResourceFunctions/FunctionTests naming definitions that are healthy, unhealthy or missing, with malformed neighbours; "
         "non-trivial: at least one reference is named")
