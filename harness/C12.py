"""C12 at run time: targets and returns are the documented ordered deep merge, and evaluation changes nothing it was given."""
import rf
from rf import *


def leaves(v, at=()):
    """dotted CEL paths to non-map values of a document, with the value"""
    for k, x in v.items():
        if not (isinstance(k, str) and k.isidentifier() and k not in ("in", "as", "true", "false", "null")):
            continue
        if isinstance(x, dict):
            yield from leaves(x, at + (k,))
        else:
            yield ".".join(("resource",) + at + (k,)), x


class Layers:
    """a base document and a list of overlays, with the merged result worked out on the way"""

    def __init__(self, rng, base, n, with_fns=True):
        self.rng, self.cur = rng, copy.deepcopy(base)
        self.ex = Expr(rng, 0.3)
        self.defs, self.steps = [], []
        for k in range(n):
            self.layer(k, with_fns)

    def document(self, cur):
        rng = self.rng
        over = {"spec": tree(rng, 2, False)}
        if rng.random() < 0.4:
            over["extra"] = tree(rng, 1, False)
        # aim at keys that exist, so that maps meet maps, scalars, lists and empty maps
        spec = cur.get("spec")
        if isinstance(spec, dict) and spec and rng.random() < 0.7:
            k = rng.choice(list(spec))
            over["spec"][k] = rng.choice([{}, [], "new", 0, False, {"inner": 1}, {"inner": {"deep": [1]}}, [1, {"a": 2}], None if rng.random() < 0.2 else "x"])
        return over

    def spec(self, over, cur, ex, resource):
        """expressions for some values; some read the current resource"""
        rng = self.rng
        s = {k: ex.spec(v) for k, v in over.items()}
        if resource and rng.random() < 0.6:
            cand = list(leaves(cur))
            if cand:
                path, v = rng.choice(cand)
                s["seen"], over["seen"] = "=" + path, v
        return s

    def layer(self, k, with_fns):
        rng = self.rng
        over = self.document(self.cur)
        skip = rng.random() < 0.25
        o = {}
        if skip or rng.random() < 0.2:
            self.ex.inputs[f"skip{k}"] = skip
            o["skipIf"] = rng.choice([f"=inputs.skip{k}", f"=inputs.skip{k} || false", f"=!(!inputs.skip{k})"])
        if with_fns and rng.random() < 0.45:
            fx = Expr(rng, 0.3)
            vf = {"return": self.spec(over, self.cur, fx, True)}
            if fx.locals:
                vf["locals"] = fx.locals
            if rng.random() < 0.2:
                vf["preconditions"] = [{"assert": "=has(resource.metadata)", "permFail": {"message": "no resource"}}]
            self.defs.append(("ValueFunction", f"ov{k}", vf))
            o["overlayRef"] = {"kind": "ValueFunction", "name": f"ov{k}"}
            if fx.inputs:
                o["inputs"] = {n: self.ex.spec(v) for n, v in fx.inputs.items()}
        else:
            o["overlay"] = self.spec(over, self.cur, self.ex, True)
        self.steps.append(o)
        if not skip:
            self.cur = deep_merge(self.cur, over)


def target(rng, h, i):
    base = {"spec": tree(rng, 2, False), "metadata": {"labels": {"app": "x"}}}
    if rng.random() < 0.3:
        base["data"] = tree(rng, 1, False)
    ident = {"apiVersion": VERSION, "kind": "Widget", "metadata": {"name": "obj", "namespace": "ns"}}
    ly = Layers(rng, deep_merge(base, ident), rng.choice([0, 1, 2, 3, 5, 8]))
    want = deep_merge(ly.cur, ident)
    spec = {"apiConfig": {"apiVersion": VERSION, "kind": "Widget", "plural": "widgets", "name": "obj", "namespace": "ns"}, "return": {"got": "=resource.spec"}}
    template = None
    if rng.random() < 0.5:
        template = deep_merge({"apiVersion": VERSION, "kind": "Widget"}, base)
        ly.defs.append(("ResourceTemplate", "tm", {"template": template}))
        spec["resourceTemplateRef"] = {"name": "tm"}
    else:
        spec["resource"] = {k: ly.ex.spec(v) for k, v in base.items()}
    if ly.steps:
        spec["overlays"] = ly.steps
    if ly.ex.locals:
        spec["locals"] = ly.ex.locals
    if rng.random() < 0.3:
        over = {"spec": {"createdWith": tree(rng, 1, False)}, "annot": 1}
        spec["create"] = {"overlay": over}
        want = deep_merge(want, over)
    inputs = ly.ex.inputs

    async def go():
        fresh()
        for kind, name, s in ly.defs:
            r = await offer(kind, name, s)
            assert kind_of(r) == "Ok", (s, show(r))
        fn = await offer("ResourceFunction", "fn", spec)
        assert kind_of(fn) == "Ok", (spec, show(fn))
        live_inputs = cel(inputs)
        snap = copy.deepcopy(plain(live_inputs))
        tm = cached("ResourceTemplate", "tm")
        tsnap = copy.deepcopy(plain(tm.template)) if template else None
        owner = owner_of("elsewhere")
        osnap = plain(owner[1])
        bodies = []
        for own in (owner, owner, owner_of("ns")):
            c = Cluster()
            o = await reconcile_resource_function(api=c, location="t", function=fn, owner=own, inputs=live_inputs)
            bodies.append(c.mutations()[0]["body"] if c.mutations() else {"outcome": show(o.outcome)})
        return bodies, plain(live_inputs), snap, (plain(cached("ResourceTemplate", "tm").template) if template else None), tsnap, plain(owner[1]), osnap
    bodies, now, snap, tnow, tsnap, onow, osnap = run(go())
    h.case([spec, ly.defs, inputs])
    info = {"function": spec, "definitions": ly.defs, "inputs": inputs}

    def clean(b, owned=False):
        b = copy.deepcopy(b)
        ann = b.get("metadata", {}).get("annotations", {})
        ann.pop(LAST_APPLIED, None)
        if not ann:
            b.get("metadata", {}).pop("annotations", None)
        if owned:
            b.get("metadata", {}).pop("ownerReferences", None)
        return b
    if not same(clean(bodies[0]), want):
        h.fail("merge", info, clean(bodies[0]), want)
        return
    for n, b in enumerate(bodies[1:]):
        if not same(clean(b, n == 1), want):
            h.fail("not-repeatable", info, clean(b), want)
            return
    if not same(now, snap):
        h.fail("inputs-modified", info, now, snap)
    elif template and not same(tnow, tsnap):
        h.fail("template-modified", info, tnow, tsnap)
    elif not same(onow, osnap):
        h.fail("owner-modified", info, onow, osnap)


def value_function(rng, h, i):
    base = None if rng.random() < 0.3 else {"spec": tree(rng, 2, False, True), **({"extra": tree(rng, 1, False)} if rng.random() < 0.5 else {})}
    if rng.random() < 0.1:
        base = {}
    ly = Layers(rng, base or {}, 0)
    over = ly.document(ly.cur)
    ret = ly.spec(over, ly.cur, ly.ex, bool(base))
    spec = {"return": ret}
    if ly.ex.locals:
        spec["locals"] = ly.ex.locals
    want = deep_merge(base or {}, over)
    inputs = ly.ex.inputs

    async def go():
        fresh()
        fn = await offer("ValueFunction", "vf", spec)
        assert kind_of(fn) == "Ok", (spec, show(fn))
        li, lb = cel(inputs), None if base is None else cel(base)
        out = [plain(await reconcile_value_function(location="t", function=fn, inputs=li, value_base=lb)) for _ in range(2)]
        out.append(plain(await reconcile_value_function(location="t", function=fn, inputs=cel(inputs), value_base=None if base is None else cel(base))))
        return out, plain(li), plain(lb) if lb is not None else None
    out, li, lb = run(go())
    h.case(["vf", spec, base, inputs])
    info = {"function": spec, "base": base, "inputs": inputs}
    if not same(out[0], want):
        h.fail("merge-value", info, out[0], want)
    elif not (same(out[1], want) and same(out[2], want)):
        h.fail("not-repeatable", info, out, want)
    elif not same(li, inputs):
        h.fail("inputs-modified", info, li, inputs)
    elif base is not None and not same(lb, base):
        h.fail("base-modified", info, lb, base)


def functions(rng, h, i):
    """the functions available in expressions do not modify their arguments"""
    a, b = tree(rng, 2, False), tree(rng, 2, False)
    inputs = {"a": a, "b": b, "l": [[1], [2, 3], []], "ll": [1, 2], "ref": {"apiVersion": "v1", "kind": "K", "name": "n", "namespace": "s"},
              "res": {"apiVersion": "v1", "kind": "K", "metadata": {"name": "n", "namespace": "s"}, "status": {"conditions": [{"type": "Ready", "reason": "UpToDate", "status": "True"}]}}}
    spec = {"locals": {"m": "=overlay(inputs.a, inputs.b)"},
            "return": {"o": "=overlay(inputs.a, inputs.b)", "o2": "=locals.m.overlay(inputs.a)", "f": "=flatten(inputs.l)", "f2": "=flatten([inputs.ll, inputs.ll])",
                       "r": "=inputs.res.self_ref()", "t": "=inputs.ref.to_ref()", "g": "=inputs.ref.group_ref()", "k": "=inputs.ref.kindless_ref()",
                       "c": "=inputs.res.config_connect_ready()", "j": "=to_json(inputs.a).from_json()", "cat": "=inputs.ll + inputs.ll", "mp": "=inputs.l.map(x, x)"}}

    def merged(x, y):
        out = copy.deepcopy(x)
        for k, v in y.items():
            out[k] = merged(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else copy.deepcopy(v)
        return out

    async def go():
        fresh()
        fn = await offer("ValueFunction", "vf", spec)
        assert kind_of(fn) == "Ok", show(fn)
        li = cel(inputs)
        out = [await reconcile_value_function(location="t", function=fn, inputs=li) for _ in range(3)]
        return [plain(o) if kind_of(o) == "Ok" else show(o) for o in out], plain(li)
    out, li = run(go())
    h.case(["fn", a, b])
    if not same(li, inputs):
        h.fail("inputs-modified", {"function": spec, "inputs": inputs}, li, inputs)
    elif not (same(out[0], out[1]) and same(out[0], out[2])):
        h.fail("not-repeatable", {"function": spec, "inputs": inputs}, out, "equal results")
    elif "o" in out[0] and not same(out[0]["o"], merged(a, b)):
        h.fail("overlay-function", {"inputs": inputs}, out[0]["o"], merged(a, b))
    elif "o" not in out[0]:
        h.count(f"not evaluated: {out[0]}"[:200])


if __name__ == "__main__":
    main({"target": (target, 900, 9000), "value-function": (value_function, 900, 9000), "functions": (functions, 100, 1000)},
         "generated base documents x ordered overlays (inline and by function, skipIf, values static / from inputs / locals / the resource so far); "
         "observed: the object created, results of repeated evaluation, and inputs/base/template/owner afterwards; distinct by definition and inputs")
