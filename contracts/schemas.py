"""koreo/schema: a spec is accepted exactly when the bundled validator of its kind accepts it, anything else is a PermFail (C20)."""
from .common import *
from .celprep import refused

MOD = "koreo.schema"
VALIDATOR = z3.Function("validator", T.S, B)             # the text is the name under which a validator was compiled
accepts = z3.Function("accepts", V, V, B)                 # the compiled validator accepts the value
G = (MOD, "_SCHEMA_VALIDATORS")
TABLE = z3.Const("global:" + ".".join(G), V)
key = z3.Function("fmt:{}:{}", T.S, T.S, T.S)             # the text f"{kind}:{version}"
bundled = z3.Const("bundled_validators", V)               # the table load_bundled_schemas makes
qualname = fld("__qualname__")


def setup(e):
    e.models.values = call_validator
    e.globals_spec[G] = table


def table(e, st):
    st.add(T.exact(TABLE, "dict"))
    return SV(TABLE, "deep", (None, "global", "dict"))


def now(e, st):
    return e.snap(st, table(e, st))


def looked(e, st, kind, version):
    """what the table has for the kind and the version, the default version if none is asked for"""
    t = now(e, st)
    k = T.kstr(key(T.sv(qualname(kind)), z3.If(T.truth(version), T.sv(version), lit("v1beta1"))))
    return z3.If(dom(t)[k], mp(t)[k], T.NoneV)


def call_validator(e, st, f, args, kw, node):
    from pyvc.engine import Unsupported, C
    if kw or len(args) != 1:
        raise Unsupported("call of a validator with other arguments")
    v, x = e.to_v(st, f), e.to_v(st, args[0])
    e.models.note("a validator compiled by fastjsonschema returns or raises JsonSchemaValueException, nothing else")
    e.throw(st, "fastjsonschema.JsonSchemaValueException", z3.Not(accepts(v, x)))
    st.add(accepts(v, x))
    return [(st, SV(x, "borrowed"))]


def pre(e, st, a):
    text_axioms(e)
    t = now(e, st)
    return [("the kind has a name", z3.And(isa(qualname(e.to_v(st, a["resource_type"])), "str"))),
            ("the table holds compiled validators", holds(t))]


x = z3.Const("vk", K)


def holds(t):
    return z3.ForAll([x], z3.Implies(dom(t)[x], isa(mp(t)[x], "function_")), patterns=[mp(t)[x]])


def tell(which):
    def f(cx):
        e, st = cx.eng, cx.st
        return [("the validator of that kind and version, None if there is none", cx.res == looked(e, st, cx.a[which], cx.a["version"])), ("the bundled schemas are loaded", z3.And(klen(now(e, st)) > 0, holds(now(e, st))))]
    return f


load = Contract(MOD, "load_bundled_schemas", cases=returns(lambda cx: [("", z3.And(klen(now(cx.eng, cx.st)) > 0, holds(now(cx.eng, cx.st))))]), opts={"modifies": (G,), "trusted": ["koreo.schema.load_bundled_schemas fills the table with compiled validators from the bundled CRDs"]})
found = Contract(MOD, "_get_validator", params=params(resource_type=sym("type"), version=sym(("str", "NoneType"))), pre=pre, cases=returns(tell("resource_type")), opts={"modifies": (G,)})


def validate_post(cx):
    r, v = cx.res, looked(cx.eng, cx.st, cx.a["resource_type"], cx.a["schema_version"])
    need = T.truth(cx.a["validation_required"])
    return [("None or a PermFail which says why", z3.Or(r == T.NoneV, refused(r))),
            ("without a validator: refused if one is required", z3.Implies(v == T.NoneV, (r == T.NoneV) == z3.Not(need))),
            ("accepted exactly when the validator of that kind and version accepts it", z3.Implies(v != T.NoneV, (r == T.NoneV) == accepts(v, cx.a["spec"])))]


validate = Contract(MOD, "validate", params=params(resource_type=sym("type"), spec=sym(), schema_version=sym(("str", "NoneType")), validation_required=sym("bool")), pre=pre, cases=returns(validate_post), opts={"modifies": (G,)})

CONTRACTS = [found, validate]
USES = [load]
