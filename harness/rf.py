"""Generated ResourceFunctions with a known target (oracle for C04-C08, C12)."""
from lib import *

VERSION = "example.dev/v1"
KEYS = ["alpha", "beta", "gamma", "delta", "size", "mode", "app.example.dev/part", "with-dash", "under_score", "UPPER"]
WORDS = ["red", "green", "blue", "x", "a b", "on:off", "Value", "zz-9"]


def leaf(rng, null=False):
    c = rng.random()
    if c < 0.45:
        return rng.choice(WORDS) + rng.choice(["", "", str(rng.randrange(9)) + "q"])
    if c < 0.65:
        return rng.choice([0, 1, 2, 7, -3, 4096])
    if c < 0.85:
        return rng.random() < 0.5
    if c < 0.92:
        return rng.choice([0.5, 2.25, -1.5])
    if null and c < 0.96:
        return None
    return rng.choice(["", "word"])


def scalar_list(rng):
    base = rng.choice([["a", "b", "c"], ["x", "y"], [1, 2, 3], ["only"], [True], [0, 5], ["a", 1, True][:2], []])
    out = list(base)
    rng.shuffle(out)
    return out


def tree(rng, depth, directives=True, null=False):
    """a JSON map"""
    out = {}
    for k in rng.sample(KEYS, rng.randint(1, 4)):
        c = rng.random()
        if depth > 0 and c < 0.35:
            out[k] = tree(rng, depth - 1, directives, null) if rng.random() < 0.9 else {}
        elif c < 0.5:
            out[k] = scalar_list(rng)
            if directives and out[k] and rng.random() < 0.5:
                out.setdefault("x-koreo-compare-as-set", []).append(k)
        elif depth > 0 and c < 0.65:
            items = []
            for n in rng.sample(["p", "q", "r", "s"], rng.randint(1, 3)):
                it = tree(rng, depth - 1 if rng.random() < 0.4 else 0, directives, null)
                it["name"] = n
                items.append(it)
            out[k] = items
            if directives and rng.random() < 0.5:
                out.setdefault("x-koreo-compare-as-map", {})[k] = ["name"]
        else:
            out[k] = leaf(rng, null)
    if directives and rng.random() < 0.15:
        cand = [k for k in out if not k.startswith("x-koreo")]
        out["x-koreo-compare-last-applied"] = [rng.choice(cand)]
    return out


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if k not in DIRECTIVES}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def deep_merge(base, over):
    """documented overlay semantics: non-empty maps merge key by key, everything else replaces"""
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and v:
            sub = out.get(k)
            out[k] = deep_merge(sub if isinstance(sub, dict) else {}, v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def consistent(v):
    """do the compare directives of a target name values of the kind they are for?"""
    if isinstance(v, dict):
        for k in v.get("x-koreo-compare-as-set", []):
            if not isinstance(v.get(k), list) or any(isinstance(x, (dict, list)) for x in v[k]):
                return False
        for k in v.get("x-koreo-compare-as-map", {}):
            if not isinstance(v.get(k), list) or any(not isinstance(x, dict) or "name" not in x for x in v[k]):
                return False
        if any(k not in v for k in v.get("x-koreo-compare-last-applied", [])):
            return False
        return all(consistent(x) for x in v.values())
    return all(consistent(x) for x in v) if isinstance(v, list) else True


class Expr:
    """turns values into spec values, moving some of them into inputs / locals"""

    def __init__(self, rng, p=0.3):
        self.rng, self.p, self.inputs, self.locals = rng, p, {}, {}

    def spec(self, v, whole_maps=False):
        rng = self.rng
        if isinstance(v, dict) and v and not (whole_maps and rng.random() < 0.1):
            return {k: (copy.deepcopy(x) if k in DIRECTIVES else self.spec(x, whole_maps)) for k, x in v.items()}
        if isinstance(v, list) and rng.random() > self.p:
            return [self.spec(x, True) for x in v]
        if rng.random() < self.p and v is not None:
            n = f"i{len(self.inputs)}"
            self.inputs[n] = copy.deepcopy(v)
            if rng.random() < 0.4:
                m = f"l{len(self.locals)}"
                self.locals[m] = f"=inputs.{n}"
                return f"=locals.{m}"
            return f"=inputs.{n}"
        return copy.deepcopy(v)


def bare_spec(v):
    return copy.deepcopy(v)


class RF:
    pass


def gen(rng, *, policy=None, owned=None, readonly=False, create_enabled=True, same_ns=None, directives=True, hostile=False,
        create_overlay=None, delete_if_exists=False, p_expr=0.3, namespaced=None, precond=None, explicit_update=True):
    f = RF()
    ex = Expr(rng, p_expr)
    f.namespaced = rng.random() < 0.8 if namespaced is None else namespaced
    f.kind = "Widget" if f.namespaced else "CWidget"
    f.plural = "widgets" if f.namespaced else "cwidgets"
    f.version = VERSION
    f.name = rng.choice(["obj", "obj-1", "my.obj"])
    f.ns = rng.choice(["ns", "other"]) if f.namespaced else None
    f.owned = rng.random() < 0.7 if owned is None else owned
    f.same_ns = rng.random() < 0.7 if same_ns is None else same_ns
    f.owner_ns = (f.ns if f.same_ns else "elsewhere") if f.namespaced else "ns"
    f.owns = f.owned and f.namespaced and f.same_ns
    f.owner = owner_of(f.owner_ns)
    f.readonly, f.create_enabled, f.delete_if_exists = readonly, create_enabled, delete_if_exists
    f.policy = policy or rng.choice(["patch", "recreate", "never"])
    f.delay = rng.choice([3, 17, 300, 0])
    f.create_delay = rng.choice([4, 21, 90, 0])
    f.defs = []

    base = {"spec": tree(rng, 2, directives)}
    if rng.random() < 0.4:
        base["data"] = tree(rng, 1, directives)
    if rng.random() < 0.4:
        base["metadata"] = {"labels": {"app": rng.choice(WORDS), "tier": "t"}}
    if rng.random() < 0.2:
        base.setdefault("metadata", {})["annotations"] = {"note": rng.choice(WORDS)}
    if hostile:
        hostile_fields(rng, base)
    ident = {"apiVersion": f.version, "kind": f.kind, "metadata": {"name": f.name, **({"namespace": f.ns} if f.ns else {})}}

    def forced(v):
        return deep_merge(v, ident)

    spec = {"apiConfig": {"apiVersion": f.version, "kind": f.kind, "plural": f.plural, "owned": f.owned, "namespaced": f.namespaced}}
    api = spec["apiConfig"]
    api["name"] = ex.spec(f.name)
    if f.ns:
        api["namespace"] = ex.spec(f.ns)
    if readonly:
        api["readonly"] = True
    if delete_if_exists:
        api["deleteIfExists"] = True
    if f.owned and rng.random() < 0.5:
        del api["owned"]
    if rng.random() < 0.3:
        tname = "tmpl-" + rng.choice(["a", "b"])
        t = copy.deepcopy(base)
        t.setdefault("apiVersion", f.version)
        t.setdefault("kind", f.kind)
        if not t["apiVersion"] or not t["kind"]:
            t["apiVersion"], t["kind"] = "wrong/v9", "Wrong"
        f.defs.append(("ResourceTemplate", tname, {"template": t}))
        ex.inputs["tname"] = tname
        spec["resourceTemplateRef"] = {"name": rng.choice(["=inputs.tname", tname])}
        base = t
    else:
        spec["resource"] = {k: ex.spec(v, whole_maps=True) for k, v in base.items()}
    target = forced(base)
    overlays = []
    for n in range(rng.choice([0, 0, 1, 2, 3])):
        for _ in range(20):
            over = {"spec": tree(rng, 2, directives)} if rng.random() < 0.8 else {"extra": tree(rng, 1, directives), "spec": leaf_or_empty(rng)}
            if hostile:
                hostile_fields(rng, over)
            if consistent(deep_merge(target, over)):
                break
        else:
            continue
        skip = rng.random() < 0.25
        o = {}
        if skip or rng.random() < 0.2:
            ex.inputs[f"skip{n}"] = skip
            o["skipIf"] = f"=inputs.skip{n}"
        if rng.random() < 0.3:
            fx = Expr(rng, p_expr)
            vf = {"return": fx.spec(over)}
            if fx.locals:
                vf["locals"] = fx.locals
            fname = f"ov{n}"
            f.defs.append(("ValueFunction", fname, vf))
            o["overlayRef"] = {"kind": "ValueFunction", "name": fname}
            if fx.inputs:
                o["inputs"] = {k: ex.spec(v) for k, v in fx.inputs.items()}
        else:
            o["overlay"] = ex.spec(over)
        overlays.append(o)
        if not skip:
            target = deep_merge(target, over)
    target = forced(target)
    if overlays:
        spec["overlays"] = overlays
    f.target = target
    f.created = target
    cr = {}
    if create_overlay or (create_overlay is None and rng.random() < 0.3):
        over = {"createOnly": tree(rng, 1, False), "metadata": {"annotations": {"created-by": "test"}}}
        if hostile:
            hostile_fields(rng, over)
        cr["overlay"] = ex.spec(over)
        f.created = forced(deep_merge(target, over))
    cr["delay"] = f.create_delay
    if not create_enabled:
        cr = {"enabled": False, **({"overlay": {"createOnly": {"x": 1}}, "delay": 5} if rng.random() < 0.4 else {})}
    spec["create"] = cr
    spec["update"] = {"patch": {"delay": f.delay}} if f.policy == "patch" else {"recreate": {"delay": f.delay}} if f.policy == "recreate" else {"never": {}}
    if ex.locals:
        spec["locals"] = ex.locals
    f.inputs = ex.inputs
    if precond is not None:
        spec["preconditions"] = precond
    spec["return"] = {"answer": 42, "name": "=resource.metadata.name"}
    f.spec = spec
    f.payload = strip(f.created)
    f.patch_payload = strip(f.target)
    return f


def leaf_or_empty(rng):
    return rng.choice([{}, [], "text", 5, False, [1, 2]])


def hostile_fields(rng, doc):
    for k, opts in (("apiVersion", ["wrong/v9", 5, {"a": 1}, [1], "", True]), ("kind", ["Wrong", {"x": 2}, 7, ""])):
        if rng.random() < 0.4:
            doc[k] = rng.choice(opts)
    if rng.random() < 0.7:
        c = rng.random()
        if c < 0.2:
            doc["metadata"] = rng.choice(["nope", 5, [], {}, [{"name": "evil"}], True, None])
        else:
            md = doc.get("metadata")
            if not isinstance(md, dict):
                md = {}
            if rng.random() < 0.6:
                md["name"] = rng.choice(["evil", {"name": "evil"}, ["evil"], 5, "", None])
            if rng.random() < 0.6:
                md["namespace"] = rng.choice(["evil-ns", {"x": 1}, ["evil"], 5, "", None])
            if rng.random() < 0.2:
                md["generateName"] = "gen-"
            doc["metadata"] = md


async def setup(f):
    for kind, name, spec in f.defs:
        r = await offer(kind, name, spec)
        assert kind_of(r) == "Ok", (kind, name, spec, show(r))
    r = await offer("ResourceFunction", "fn", f.spec)
    assert kind_of(r) == "Ok", (f.spec, show(r))
    return r


async def reconcile(f, fn, cluster, owner=None, inputs=None):
    return await reconcile_resource_function(api=cluster, location="test", function=fn, owner=owner or f.owner, inputs=cel(f.inputs if inputs is None else inputs))


def stored(f, cluster):
    return cluster.get(f.version, f.plural, f.ns, f.name)


def place(f, cluster, raw):
    cluster.put(f.version, f.plural, f.ns, f.name, raw)


def live_object(f, body, owned=None, last_applied=True):
    """the object as the server holds it after koreo sent `body` (already stripped)"""
    raw = copy.deepcopy(body)
    md = raw.setdefault("metadata", {})
    if last_applied:
        md.setdefault("annotations", {})[LAST_APPLIED] = json.dumps(body)
    md["uid"] = "uid-live"
    md["resourceVersion"] = "77"
    if f.owns if owned is None else owned:
        md["ownerReferences"] = [plain(f.owner[1])]
    return raw


def inp(f, **kw):
    return {"function": f.spec, "definitions": f.defs, "inputs": f.inputs, "owner": [f.owner_ns, plain(f.owner[1])], **kw}
