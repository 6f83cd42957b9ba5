"""Generated Workflows with an independent meaning (oracle for C01, C02, C09)."""
from lib import *

CLASSES = ["depSkip", "skip", "permFail", "retry"]
NAME = {"depSkip": "DepSkip", "skip": "Skip", "permFail": "PermFail", "retry": "Retry", "ok": "Ok"}
RANK = ["DepSkip", "Skip", "Ok", "Retry", "PermFail"]
REASON = {"DepSkip": "DepSkip", "Skip": "Skip", "Ok": "Ready", "Retry": "Wait", "PermFail": "Failure"}
VERSION = "example.dev/v1"


class Err(Exception):
    pass


# ------------------------------------------------------------------------------------------------ expressions
def get(v, path):
    for k in path:
        if not isinstance(v, dict) or k not in v:
            raise Err
        v = v[k]
    return v


def ev(e, env):
    """value of an expression; env = {"parent":..., "steps":{label: value}, "inputs":..., "value":...}"""
    t = e[0]
    if t == "lit":
        return copy.deepcopy(e[1])
    if t in ("parent", "inputs", "value"):
        return copy.deepcopy(get(env[t], e[1]))
    if t == "step":
        return copy.deepcopy(get(env["steps"][e[1]], e[2]))
    if t == "map":
        return {k: ev(x, env) for k, x in e[1].items()}
    if t == "list":
        return [ev(x, env) for x in e[1]]
    if t == "not":
        v = ev(e[1], env)
        if not isinstance(v, bool):
            raise Err
        return not v
    if t == "suffix":
        v = ev(e[1], env)
        if not isinstance(v, str):
            raise Err
        return v + e[2]
    if t == "cat":
        a, b = ev(e[1], env), ev(e[2], env)
        if not isinstance(a, list) or not isinstance(b, list):
            raise Err
        return a + b
    if t == "bad":
        raise Err
    raise AssertionError(e)


def mentions(e):
    if e is None:
        return set()
    if e[0] == "step":
        return {e[1]}
    if e[0] in ("not", "suffix"):
        return mentions(e[1])
    if e[0] == "map":
        return set().union(*[mentions(x) for x in e[1].values()])
    if e[0] == "list":
        return set().union(*[mentions(x) for x in e[1]])
    if e[0] == "cat":
        return mentions(e[1]) | mentions(e[2])
    return set()


def ref(rng, root, path):
    s = root
    for k in path:
        s += f".{k}" if rng.random() < 0.7 else f"['{k}']"
    return s


def cel_text(rng, e):
    t = e[0]
    if t in ("parent", "inputs", "value"):
        s = ref(rng, t, e[1])
    elif t == "step":
        s = ref(rng, "steps", [e[1]] + list(e[2]))
    elif t == "not":
        return f"!({cel_text(rng, e[1])})"
    elif t == "suffix":
        return f"({cel_text(rng, e[1])}) + '{e[2]}'"
    elif t == "cat":
        return f"({cel_text(rng, e[1])}) + ({cel_text(rng, e[2])})"
    elif t == "bad":
        return rng.choice(["1/0", "[1][7]", "{'a': 1}.b", "int('x')"])
    elif t == "lit":
        return json.dumps(e[1])
    else:
        raise AssertionError(e)
    c = rng.random()
    if c < 0.8:
        return s
    return rng.choice([f"[{s}][0]", f"(true ? {s} : 0)", f"{{'k': {s}}}.k", f"[1].map(q, {s})[0]", f"[{s}].filter(q, true)[0]"])


def spec_of(rng, e):
    """the value to write into the definition"""
    if e[0] == "lit":
        return copy.deepcopy(e[1])
    if e[0] == "map":
        return {k: spec_of(rng, x) for k, x in e[1].items()}
    if e[0] == "list":
        return [spec_of(rng, x) for x in e[1]]
    return "=" + cel_text(rng, e)


# ------------------------------------------------------------------------------------------------ functions
PRE = [{"assert": "=!has(inputs.pre.depSkip)", "depSkip": {"message": "pre dep"}},
       {"assert": "=!has(inputs.pre.skip)", "skip": {"message": "pre skip"}},
       {"assert": "=!has(inputs.pre.permFail)", "permFail": {"message": "pre fail"}},
       {"assert": "=!has(inputs.pre.retry)", "retry": {"delay": 18, "message": "pre retry"}}]
SHAPES = [{"value": 1, "flag": True, "list": [1, 2], "mode": "one"}, {"value": "v", "flag": False, "list": ["a", "b", "c"], "mode": "two"},
          {"value": {"deep": [1]}, "flag": False, "list": [], "mode": "zz"}, {"value": 0, "flag": True, "list": [{"n": 1}, {"n": 2}], "mode": "one"},
          {"value": "", "flag": True, "list": [True, False], "mode": "two"}]


class Fn:
    """a Function or sub-Workflow usable as Logic"""

    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.__dict__.update(kw)


def base_functions(rng):
    fns = []
    for n in range(rng.randint(2, 4)):
        fns.append(Fn("ValueFunction", f"vf{n}", shape=rng.choice(SHAPES), uses_api=False, each=True))
    fns.append(Fn("ValueFunction", "broken", shape=None, uses_api=False, each=True, broken=True))
    if rng.random() < 0.3:
        fns.append(Fn("ValueFunction", "silent", shape=None, uses_api=False, each=True, silent=True))
    for n in range(rng.randint(1, 3)):
        fns.append(Fn("ResourceFunction", f"rf{n}", shape=rng.choice(SHAPES), uses_api=True, each=False, readonly=rng.random() < 0.15, lookup=rng.random() < 0.25))
    fns.append(Fn("ResourceFunction", "rfeach", shape=rng.choice(SHAPES), uses_api=True, each=True, per_item=True, readonly=False, lookup=rng.random() < 0.2))
    return fns


def fn_spec(f):
    if f.kind == "ValueFunction":
        if getattr(f, "silent", False):
            return {"preconditions": copy.deepcopy(PRE)}
        if getattr(f, "broken", False):
            return {"preconditions": copy.deepcopy(PRE), "return": {"x": "=inputs.definitely.missing"}}
        return {"preconditions": copy.deepcopy(PRE), "return": {**copy.deepcopy(f.shape), "given": "=inputs"}}
    kind = f"Kind{f.name.capitalize()}{f.token}"       # kr8s keeps the classes of earlier cases
    f.k8s_kind = kind
    api = {"apiVersion": VERSION, "kind": kind, "plural": kind.lower() + "s", "namespace": "ns", "name": "=inputs.rname + '-' + string(inputs.item)" if getattr(f, "per_item", False) else "=inputs.rname"}
    if f.lookup:
        del api["plural"]
    if f.readonly:
        api["readonly"] = True
    return {"preconditions": copy.deepcopy(PRE), "apiConfig": api, "resource": {"spec": {"size": 3}}, "create": {"delay": 5}, "update": {"patch": {"delay": 6}},
            "return": {**copy.deepcopy(f.shape), "given": "=inputs"}}


# ------------------------------------------------------------------------------------------------ workflows
PARENT = {"a": 1, "s": "text", "t": True, "f": False, "items": ["i1", "i2", "i3"], "none": [], "mode": "one", "mode2": "two", "modez": "zz", "obj": {"k": {"z": 5}}, "n": 7,
          "rname": "root", "many": [f"m{n}" for n in range(13)]}


class Step:
    pass


def gen_value(rng, labels, kinds, parent, depth=1):
    c = rng.random()
    if labels and c < 0.5:
        lab = rng.choice(labels)
        return step_ref(rng, lab, kinds)
    if c < 0.75:
        known = sorted(k for k in parent if k != "rname")
        if not known:
            return ("lit", rng.choice([5, "sub", {"value": 1}])) if rng.random() < 0.8 else ("parent", ["in1"])
        p = [rng.choice(known)]
        if p == ["obj"] and rng.random() < 0.5:
            p = ["obj", "k", "z"]
        return ("parent", p)
    if depth and c < 0.85:
        return ("map", {k: gen_value(rng, labels, kinds, parent, 0) for k in rng.sample(["x", "y", "z"], rng.randint(1, 2))})
    if depth and c < 0.92:
        return ("list", [gen_value(rng, labels, kinds, parent, 0) for _ in range(rng.randint(1, 2))])
    if c < 0.935:
        return ("bad",)
    return ("lit", rng.choice([1, "txt", True, [1, 2], {"q": {}}, "", 0]))


def step_ref(rng, lab, kinds, field=None):
    if kinds[lab] == "list":
        return ("step", lab, [])
    if field:
        return ("step", lab, [field])
    c = rng.random()
    if c < 0.25:
        return ("step", lab, [])
    if c < 0.29:
        return ("step", lab, ["zzmissing"])
    return ("step", lab, [rng.choice(["value", "flag", "list", "mode"])])


def gen_steps(rng, fns, n, prefix, parent, depth, allow_api=True, p_fail=0.12, p_each=0.22, p_api=None, flat=False):
    labels, kinds, steps = [], {}, []
    for k in range(n):
        s = Step()
        s.label = f"{prefix}step{k}"
        near = labels[-6:] if not flat or rng.random() < 0.2 else []
        s.inputs, s.skip, s.each, s.switch = None, None, None, None
        inp = {}
        for key in rng.sample(["in1", "in2", "in3"], rng.randint(0, 3)):
            inp[key] = gen_value(rng, near if flat or rng.random() < 0.8 else labels, kinds, parent)
        if rng.random() < p_fail:
            inp["pre"] = ("lit", {rng.choice(CLASSES): True})
        s.each = None
        if rng.random() < p_each:
            c = rng.random()
            lists = [lab for lab in near]
            if lists and c < 0.4:
                lab = rng.choice(lists)
                it = ("step", lab, [] if kinds[lab] == "list" else ["list"])
            elif c < 0.8:
                it = ("parent", [rng.choice(["items"] * 6 + ["none"] * 2 + ["many"] * ("many" in parent))]) if "items" in parent else ("lit", [1, 2])
            elif c < 0.86:
                it = ("parent", ["s"]) if "s" in parent else ("lit", "x")
            elif c < 0.9:
                it = ("bad",)
            else:
                it = ("lit", [3, 1, 2, 1][:rng.randint(1, 4)])
            if rng.random() < 0.15:
                it = ("cat", it, ("lit", [5, 6]))
            s.each = (it, "item")
        pool = [f for f in fns if (f.each if s.each else not getattr(f, "per_item", False)) and (allow_api or not f.uses_api)]
        pool = [f for f in pool if not getattr(f, "broken", False) or rng.random() < 0.25]
        # names under which a resource is managed must be unique
        if s.each and s.each[0][0] != "parent":  # e.g. items of another step may repeat
            pool = [f for f in pool if not f.uses_api]
        if p_api and rng.random() < p_api and [f for f in pool if f.uses_api]:
            pool = [f for f in pool if f.uses_api]
        s.logic = rng.choice(pool)
        if rng.random() < 0.25:
            cases = {}
            for m in rng.sample(["one", "two", "three"], rng.randint(1, 3)):
                cases[m] = rng.choice(pool)
            dflt = rng.choice(sorted(cases)) if rng.random() < 0.5 else None
            c = rng.random()
            if near and c < 0.4:
                lab = rng.choice(near)
                on = ("step", lab, [] if kinds[lab] == "list" else ["mode"])
            elif c < 0.75:
                on = ("parent", [rng.choice([x for x in ("mode", "mode2", "modez") if x in parent] or ["rname"])])
            elif c < 0.9:
                inp["swmode"] = ("lit", rng.choice(["one", "two", "zz"]))
                on = ("inputs", ["swmode"])
            elif c < 0.95:
                on = ("parent", ["n"]) if "n" in parent else ("bad",)
            else:
                on = ("bad",)
            if rng.random() < 0.1:
                on = ("suffix", on, rng.choice(["", "", "x"]))
            s.switch = (on, cases, dflt)
            s.logic = None
        inp["rname"] = ("suffix", ("parent", ["rname"]), f"-{s.label}")
        s.inputs = inp
        if rng.random() < 0.2:
            c = rng.random()
            if near and c < 0.4:
                lab = rng.choice(near)
                s.skip = ("step", lab, ["flag"] if kinds[lab] != "list" else [])
            elif c < 0.85 and "t" in parent:
                s.skip = ("parent", [rng.choice(["t", "f", "f"])])
            elif c < 0.92:
                s.skip = ("parent", ["rname"])
            else:
                s.skip = ("bad",)
            if rng.random() < 0.2 and s.skip[0] != "bad":
                s.skip = ("not", s.skip)
        s.state = {f"all_{s.label}": ("value", []), "last": ("value", [] if s.each else ["mode"])}
        if rng.random() < 0.1:
            s.state["oops"] = ("value", ["zzmissing"])
        labels.append(s.label)
        kinds[s.label] = "list" if s.each else "any"
        steps.append(s)
    return steps


def deps(s):
    d = mentions(("map", s.inputs)) | mentions(s.skip)
    if s.each:
        d |= mentions(s.each[0])
    if s.switch:
        d |= mentions(s.switch[0])
    return d


def steps_spec(rng, steps, sub=False):
    out = []
    for s in steps:
        d = {"label": s.label, "inputs": spec_of(rng, ("map", s.inputs)), "condition": {"type": f"C{s.label}", "name": s.label}}
        if s.switch:
            on, cases, dflt = s.switch
            d["refSwitch"] = {"switchOn": "=" + cel_text(rng, on),
                              "cases": [{"case": m, "kind": f.kind, "name": f.name, **({"default": True} if m == dflt else {})} for m, f in cases.items()]}
        else:
            d["ref"] = {"kind": s.logic.kind, "name": s.logic.name}
        if s.skip:
            d["skipIf"] = "=" + cel_text(rng, s.skip)
        if s.each:
            d["forEach"] = {"itemIn": "=" + cel_text(rng, s.each[0]), "inputKey": s.each[1]}
        if s.state:
            d["state"] = spec_of(rng, ("map", s.state))
        out.append(d)
    return {"steps": out}


class WF:
    pass


def gen(rng, nsteps=None, p_fail=0.12, subs=True, p_present=0.7, **kw):
    w = WF()
    fns = base_functions(rng)
    w.subs = []
    if subs and rng.random() < 0.5:
        for api in (False, True):
            if rng.random() < 0.6:
                f = Fn("Workflow", f"sub{'api' if api else 'val'}", uses_api=api, each=not api)
                f.steps = gen_steps(rng, [x for x in fns], rng.randint(1, 3), "q", {"rname": "x"}, 0, allow_api=api, p_fail=p_fail)
                # publishes what other steps use
                last = f.steps[-1]
                if not last.each:
                    last.state = {**last.state, "mode": ("value", ["mode"]), "value": ("value", ["value"]), "flag": ("value", ["flag"]), "list": ("value", ["list"])}
                w.subs.append(f)
    w.fns = fns
    w.steps = gen_steps(rng, fns + w.subs, nsteps or rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20]), "", PARENT, 1, p_fail=p_fail, **kw)
    w.spec = steps_spec(rng, w.steps)
    w.sub_specs = {f.name: steps_spec(rng, f.steps) for f in w.subs}
    token = format(rng.getrandbits(32), "x")
    for f in fns:
        f.token = token
    w.fn_specs = {f.name: fn_spec(f) for f in fns}
    w.parent = copy.deepcopy(PARENT)
    w.p_present = p_present
    w.presence = {}
    w.seed = rng.random()
    return w


def presence(w, name):
    """absent / matching / drifted, fixed per object name"""
    if name not in w.presence:
        r = random.Random(f"{w.seed}:{name}").random()
        w.presence[name] = "matching" if r < w.p_present else "absent" if r < w.p_present + 0.7 * (1 - w.p_present) else "drifted"
    return w.presence[name]


# ------------------------------------------------------------------------------------------------ meaning
class Out:
    def __init__(self, cls, value=None):
        self.cls, self.value = cls, value

    def __repr__(self):
        return f"<{self.cls} {self.value!r}>"


class Skipped(str):
    """a forEach element whose invocation was skipped: reported as some text"""


def pre_class(inputs):
    pre = inputs.get("pre")
    if isinstance(pre, dict):
        for c in CLASSES:
            if c in pre:
                return c
    return None


def run_logic(w, f, inputs, env, calls, switch=None):
    if switch:
        on, cases, dflt = switch
        try:
            v = ev(on, {**env, "inputs": inputs})
        except Err:
            return Out("PermFail")
        if isinstance(v, bool) or not isinstance(v, (str, int)):
            return Out("PermFail")
        f = cases.get(v) if isinstance(v, str) else None
        if f is None and dflt is not None:
            f = cases[dflt]
        if f is None:
            return Out("PermFail")
    if f.kind == "Workflow":
        r = run_steps(w, f.steps, inputs, calls)
        return Out("Ok", r["state"]) if r["overall"] == "Ok" else Out(r["overall"])
    c = pre_class(inputs)
    if c:
        return Out(NAME[c])
    if f.kind == "ValueFunction":
        if getattr(f, "silent", False):
            return Out("Ok", None)
        if getattr(f, "broken", False):
            return Out("PermFail")
        return Out("Ok", {**copy.deepcopy(f.shape), "given": copy.deepcopy(inputs)})
    if getattr(f, "per_item", False):
        if "item" not in inputs or isinstance(inputs["item"], (dict, list)) or isinstance(inputs["item"], bool):
            return Out("PermFail")
        name = f"{inputs['rname']}-{inputs['item']}"
    else:
        name = inputs["rname"]
    calls.add((f.k8s_kind, name))
    p = presence(w, name)
    if p == "matching" or (f.readonly and p == "drifted"):
        return Out("Ok", {**copy.deepcopy(f.shape), "given": copy.deepcopy(inputs)})
    return Out("Retry")


def run_steps(w, steps, parent, calls):
    outs, state, errors, gated = {}, {}, set(), set()
    for s in steps:
        outs[s.label] = run_step(w, s, parent, outs, calls)
        o = outs[s.label]
        if o.cls == "Ok" and s.state:
            try:
                state.update(ev(("map", s.state), {"value": o.value}))
            except Err:
                errors.add(s.label)
    overall = max((o.cls for o in outs.values()), key=RANK.index)
    return {"outs": outs, "state": state, "errors": errors, "overall": overall}


def run_step(w, s, parent, outs, calls):
    ds = deps(s)
    if any(outs[d].cls != "Ok" for d in ds):
        return Out("DepSkip")
    env = {"parent": parent, "steps": {d: outs[d].value for d in ds}}
    if s.skip:
        try:
            v = ev(s.skip, env)
        except Err:
            return Out("PermFail")
        if not isinstance(v, bool):
            return Out("PermFail")
        if v:
            return Out("Skip")
    try:
        inputs = ev(("map", s.inputs), env)
    except Err:
        return Out("PermFail")
    if not s.each:
        return run_logic(w, s.logic, inputs, env, calls, s.switch)
    try:
        items = ev(s.each[0], env)
    except Err:
        return Out("PermFail")
    if not isinstance(items, list):
        return Out("PermFail")
    rs = [run_logic(w, s.logic, {**inputs, s.each[1]: x}, env, calls, s.switch) for x in items]
    bad = [r.cls for r in rs if r.cls in ("Retry", "PermFail")]
    if bad:
        return Out(max(bad, key=RANK.index))
    return Out("Ok", [Skipped(r.cls) if r.cls != "Ok" else r.value for r in rs])


def matches(expected, actual):
    if isinstance(expected, Skipped):
        return isinstance(actual, str)
    if isinstance(expected, dict) and isinstance(actual, dict):
        return expected.keys() == actual.keys() and all(matches(expected[k], actual[k]) for k in expected)
    if isinstance(expected, list) and isinstance(actual, list):
        return len(expected) == len(actual) and all(matches(x, y) for x, y in zip(expected, actual))
    return same(expected, actual)


# ------------------------------------------------------------------------------------------------ running
class Lost(Exception):
    pass


class WCluster(Cluster):
    """materialises each object on first access, according to the plan; `fault(op, ident)` may return an exception,
    ("after", exception) to lose the answer of a call that was carried out, or "hang" """

    def __init__(self, w, **kw):
        super().__init__(**kw)
        self.w, self.touched = w, []
        self.faults, self.done, self.lose = [], [], {}

    def plan(self, cls_version, plural, kind, ns, name):
        key = (cls_version, plural, ns, name)
        if (key, "seen") in self.store:
            return
        self.store[(key, "seen")] = True
        p = presence(self.w, name)
        if p == "absent":
            return
        self.store[key] = {"apiVersion": cls_version, "kind": kind, "metadata": {"name": name, "namespace": ns, "uid": "u-" + name, "ownerReferences": [plain(owner_of()[1])]},
                           "spec": {"size": 3 if p == "matching" else 4}}

    async def _effects(self, op, ident):
        if self.latency:
            d = self.latency(op, ident)
            if d:
                await asyncio.sleep(d)
        self.done.append((op, ident.get("kind") or ident.get("plural"), ident.get("name")))
        if self.fault:
            f = self.fault(op, ident)
            if f is None:
                return
            self.faults.append((op, ident.get("kind"), ident.get("name"), "hang" if f == "hang" else f"{'after ' if isinstance(f, tuple) else ''}{type(f[1] if isinstance(f, tuple) else f).__name__}"))
            if f == "hang":
                await asyncio.Event().wait()
            if isinstance(f, tuple):
                self.lose[asyncio.current_task()] = f[1]
                return
            raise f

    async def _lost(self):
        f = self.lose.pop(asyncio.current_task(), None)
        if f == "hang":
            await asyncio.Event().wait()
        if f is not None:
            raise f

    async def async_get(self, cls, *names, namespace=None, **kw):
        self.touched.append((cls.kind, names[0]))
        self.plan(cls.version, cls.endpoint, cls.kind, namespace, names[0])
        found = [x async for x in super().async_get(cls, *names, namespace=namespace, **kw)]
        await self._lost()
        for x in found:
            yield x

    @contextlib.asynccontextmanager
    async def call_api(self, method="GET", version="v1", base="", namespace=None, url="", **kw):
        body = json.loads(kw["data"]) if kw.get("data") else {}
        parts = url.split("/")
        self.touched.append((body.get("kind"), parts[1] if len(parts) > 1 else (body.get("metadata") or {}).get("name")))
        async with super().call_api(method, version=version, base=base, namespace=namespace, url=url, **kw) as r:
            await self._lost()
            yield r

    def contents(self):
        out = {}
        for k, v in self.store.items():
            if k[-1] == "seen":
                continue
            v = copy.deepcopy(v)
            for b in ("uid", "resourceVersion"):
                v["metadata"].pop(b, None)
            out["/".join(map(str, k))] = v
        return out


async def setup(w):
    for f in w.fns:
        r = await offer(f.kind, f.name, w.fn_specs[f.name])
        assert kind_of(r) == "Ok", (w.fn_specs[f.name], show(r))
    for f in w.subs:
        r = await offer("Workflow", f.name, w.sub_specs[f.name])
        assert kind_of(r) == "Ok" and isinstance(r.steps_ready, result.Ok), (w.sub_specs[f.name], show(r), r.steps_ready)
    r = await offer("Workflow", "wf", w.spec)
    assert kind_of(r) == "Ok" and isinstance(r.steps_ready, result.Ok), (w.spec, show(r), r.steps_ready)
    return r


async def go(w, prepared, cluster):
    return await reconcile_workflow(api=cluster, workflow_key="wf", owner=owner_of(), trigger=cel(w.parent), workflow=prepared)


def view(r):
    return {"result": show(r.result), "conditions": [dict(c) for c in r.conditions], "resource_ids": plain(r.resource_ids), "state": plain(r.state), "state_errors": dict(r.state_errors)}


def info(w, **kw):
    return {"workflow": w.spec, "subWorkflows": w.sub_specs, "functions": w.fn_specs, "parent": w.parent, "objects": w.presence, **kw}
