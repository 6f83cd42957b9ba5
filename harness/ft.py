"""Generated Functions under test and fixtures for the FunctionTest properties (C18, C19)."""
import rf
from rf import *

LOC = "ft"
PRE = [{"assert": "=!has(inputs.pre.depSkip)", "depSkip": {"message": "Waiting For Dep"}},
       {"assert": "=!has(inputs.pre.skip)", "skip": {"message": "Disabled By user"}},
       {"assert": "=!has(inputs.pre.permFail)", "permFail": {"message": "Bad Input value"}},
       {"assert": "=!has(inputs.pre.retry)", "retry": {"delay": 18, "message": "Come Back later"}}]
KINDS = ["depSkip", "skip", "permFail", "retry"]


class FT:
    pass


def gen_rf(rng, policy=None):
    f = gen(rng, policy=policy, owned=False, readonly=rng.random() < 0.1, create_enabled=rng.random() < 0.9, directives=rng.random() < 0.3,
            precond=copy.deepcopy(PRE) if rng.random() < 0.6 else None, delete_if_exists=rng.random() < 0.08, p_expr=0.35)
    f.has_pre = "preconditions" in f.spec
    if rng.random() < 0.4:
        f.spec["postconditions"] = [{"assert": "=has(resource.status.ready)", "retry": {"delay": 7, "message": "Not Ready yet"}},
                                    {"assert": "=resource.status.ready", "permFail": {"message": "Broke"}}]
    c = rng.random()
    if c < 0.4:
        f.spec["return"] = {"seen": "=resource", "given": "=inputs"}
    elif c < 0.5:
        del f.spec["return"]
    else:
        f.spec["return"] = {"n": {"deep": [1, "=resource.metadata.name", {"t": True}], "num": 4.5}, "given": "=inputs", "flag": False, "list": ["b", "a"]}
    f.fkind = "ResourceFunction"
    return f


def gen_vf(rng):
    f = FT()
    ex = Expr(rng, 0.4)
    body = tree(rng, 2, directives=False)
    f.has_pre = rng.random() < 0.6
    f.spec = {"return": {k: ex.spec(v, whole_maps=True) for k, v in body.items()}}
    if rng.random() < 0.5:
        f.spec["return"]["given"] = "=inputs"
    if f.has_pre:
        f.spec["preconditions"] = copy.deepcopy(PRE)
    if ex.locals:
        f.spec["locals"] = ex.locals
    f.inputs = ex.inputs
    f.defs = []
    f.fkind = "ValueFunction"
    return f


def inputs_for(rng, f):
    """inputs the function can work with, or ones it can not"""
    v = copy.deepcopy(f.inputs)
    c = rng.random()
    if c < 0.25 and f.has_pre:
        v["pre"] = {rng.choice(KINDS): True}
    elif c < 0.3 and v:
        del v[rng.choice(sorted(v))]
    elif c < 0.35 and v:
        v[rng.choice(sorted(v))] = rng.choice([7, "s", {"a": 1}, []])
    elif rng.random() < 0.3:
        v["spare"] = tree(rng, 1, False)
    return v


async def offer_all(f):
    fresh()
    for kind, name, spec in f.defs:
        assert kind_of(await offer(kind, name, spec)) == "Ok", (kind, spec)
    fn = await offer(f.fkind, "fn", f.spec)
    assert kind_of(fn) == "Ok", (f.spec, show(fn))
    return fn


class Stage(Cluster):
    """a cluster that answers every read with the fixture, as the test runner does"""

    def __init__(self, live):
        super().__init__()
        self.live = live

    async def async_get(self, cls, *names, namespace=None, **kw):
        if self.live:
            md = self.live["metadata"]
            self.store[(cls.version, cls.endpoint, md.get("namespace"), md["name"])] = copy.deepcopy(self.live)
            yield cls(api=self, resource=copy.deepcopy(self.live), namespace=md.get("namespace"))


async def truth(f, fn, inputs, live, location):
    """what the function really does: (outcome, [mutating calls]) against the in-memory cluster / the real reconciler"""
    i = cel(inputs) if inputs else celtypes.MapType()
    if f.fkind == "ValueFunction":
        base = cel(live) if live else celtypes.MapType({})
        return await reconcile_value_function(location=location, function=fn, inputs=i, value_base=base), []
    c = Stage(live)
    r = await reconcile_resource_function(api=c, location=location, function=fn, owner=owner_of("elsewhere"), inputs=i)
    return r.outcome, c.mutations()


async def run_test(f, spec):
    """prepare and run a FunctionTest"""
    t = await prepare_function_test("t", copy.deepcopy({"functionRef": {"kind": f.fkind, "name": "fn"}, **spec}))
    if kind_of(t) != "Ok":
        return t, None
    return t[0], await run_function_test(LOC, t[0])


def sent(body):
    """the object sent, without the last-applied annotation koreo adds to it"""
    b = copy.deepcopy(body)
    a = b["metadata"]["annotations"]
    a.pop(LAST_APPLIED)
    if not a:
        del b["metadata"]["annotations"]
    return b
