"""The bundled CRD schemas, read from the source tree on every run, as shape predicates of specifications.

fits(node)(t) is what fastjsonschema's acceptance of t at that node of the schema implies (type, required, properties, items,
minItems, minLength, enum, oneOf of required); keywords it does not check are not used.  fastjsonschema also fills in schema
defaults in place: the contracts speak of the specification with its defaults filled in.
"""
import os
import yaml
from .common import *
from pyvc import source as SRC
from pyvc.engine import Unsupported

FILES = {"Workflow": "workflow.yaml", "ValueFunction": "value-function.yaml", "ResourceFunction": "resource-function.yaml", "ResourceTemplate": "resource-template.yaml", "FunctionTest": "function-test.yaml"}
TYPES = {"string": ("str",), "boolean": ("bool",), "object": ("dict",), "array": ("list",), "integer": ("int", "float"), "number": ("int", "float"), "null": ("NoneType",)}
json_value = z3.Function("json_value", V, B)
kk = lambda s: T.kstr(lit(s))


class Node:
    def __init__(self, name, schema):
        self.name, self.schema = name, schema or {}
        self.props = {k: Node(f"{name}.{k}", s) for k, s in (self.schema.get("properties") or {}).items()}
        self.items = Node(name + "[]", self.schema["items"]) if isinstance(self.schema.get("items"), dict) else None
        self.fits = z3.Function("fits:" + name, V, B)

    def at(self, *path):
        n = self
        for p in path:
            n = n.items if p == "[]" else n.props[p]
        return n

    def local(self, t):
        """facts about t itself and which keys it has"""
        s, out = self.schema, []
        ty = s.get("type")
        if ty in TYPES:
            out.append(isa(t, *TYPES[ty]) if ty not in ("integer", "number") else z3.And(isa(t, *TYPES[ty]), z3.Not(isa(t, "bool"))))
        if ty == "integer":
            out.append(z3.Implies(isa(t, "float"), z3.Function("whole", z3.RealSort(), B)(T.rv(t))))
        out.append(json_value(t))
        if "required" in s:
            out += [z3.Implies(isa(t, "dict"), dom(t)[kk(r)]) for r in s["required"]]
        if "oneOf" in s and all(set(o) == {"required"} for o in s["oneOf"]):
            alts = [z3.And([dom(t)[kk(r)] for r in o["required"]]) for o in s["oneOf"]]
            out.append(z3.Implies(isa(t, "dict"), z3.And(z3.Or(alts), *[z3.Not(z3.And(a, b)) for i, a in enumerate(alts) for b in alts[i + 1:]])))
        if "enum" in s and all(isinstance(x, str) for x in s["enum"]):
            out.append(z3.Implies(isa(t, "str"), z3.Or([sv(t) == lit(x) for x in s["enum"]])))
        if s.get("minLength", 0) >= 1:
            out.append(z3.Implies(isa(t, "str"), sv(t) != lit("")))
        if s.get("minItems", 0) >= 1:
            out.append(z3.Implies(isa(t, "list"), ln(t) >= s["minItems"]))
        if s.get("minProperties", 0) >= 1:
            out.append(z3.Implies(isa(t, "dict"), klen(t) >= s["minProperties"]))
        return out

    def all(self):
        yield self
        for n in list(self.props.values()) + ([self.items] if self.items else []):
            yield from n.all()


def src_dir():
    return os.environ.get("PYVC_SRC") or "/repo/src"


_cache = {}


def spec(kind):
    if kind not in _cache:
        path = os.path.join(src_dir(), "koreo", "schema", FILES[kind])
        for doc in yaml.safe_load_all(open(path)):
            if doc and doc.get("kind") == "CustomResourceDefinition":
                for v in doc["spec"]["versions"]:
                    s = v.get("schema", {}).get("openAPIV3Schema", {}).get("properties", {}).get("spec")
                    if s is not None and v.get("name") == "v1beta1":
                        _cache[kind] = Node(kind + ".spec", s)
        if kind not in _cache:
            raise Unsupported(f"no bundled schema for {kind}")
    return _cache[kind]


def axioms(e, kind):
    done = e.__dict__.setdefault("_crd_ax", set())
    if kind in done:
        return
    t, i, k = z3.Const("jt", V), z3.Const("ji", I), z3.Const("jk", K)
    A = e.extra_axioms
    if not done:
        j = json_value
        A += [z3.ForAll([t], z3.Implies(j(t), z3.Or([T.exact(t, c) for c in ("str", "int", "bool", "float", "NoneType", "dict", "list")])), patterns=[j(t)]),
              z3.ForAll([t, k], z3.Implies(z3.And(j(t), T.exact(t, "dict"), dom(t)[k]), z3.And(T.kkind(k) == 0, j(mp(t)[k]))), patterns=[z3.MultiPattern(j(t), mp(t)[k])]),
              z3.ForAll([t, k], z3.Implies(z3.And(j(t), T.exact(t, "dict"), dom(t)[k]), T.kkind(k) == 0), patterns=[z3.MultiPattern(j(t), dom(t)[k])]),
              z3.ForAll([t, i], z3.Implies(z3.And(j(t), T.exact(t, "list"), 0 <= i, i < ln(t)), j(la(t)[i])), patterns=[z3.MultiPattern(j(t), la(t)[i])])]
        e.models.item_hook = item_facts
        e._nodes = {}
    done.add(kind)
    for n in spec(kind).all():
        f = n.fits(t)
        A.append(z3.ForAll([t], z3.Implies(f, z3.And(n.local(t))), patterns=[f]))
        for p, c in n.props.items():
            A.append(z3.ForAll([t], z3.Implies(z3.And(f, isa(t, "dict"), dom(t)[kk(p)]), c.fits(mp(t)[kk(p)])), patterns=[z3.MultiPattern(f, mp(t)[kk(p)])]))
        if n.items:
            A.append(z3.ForAll([t, i], z3.Implies(z3.And(f, isa(t, "list"), 0 <= i, i < ln(t)), n.items.fits(la(t)[i])), patterns=[z3.MultiPattern(f, la(t)[i])]))


def tag(e, t, node):
    e._nodes[t.get_id()] = (t, node)


def node_of(e, t):
    x = e._nodes.get(t.get_id())
    return x[1] if x else None


def item_facts(e, st, v, how, key, r, present):
    """ground instances: r was read from v under key (an index or a key); present: condition under which it is there"""
    n = node_of(e, v.t)
    if n is None:
        return
    if how == "index":
        c = n.items
    else:
        c = next((c for p, c in n.props.items() if z3.eq(key, kk(p))), None)
    if c is None:
        st.add(z3.Implies(present, json_value(r)), *[z3.Implies(present, z3.Or([T.exact(r, x) for x in ("str", "int", "bool", "float", "NoneType", "dict", "list")]))])
        return
    tag(e, r, c)
    st.add(z3.Implies(z3.And(n.fits(v.t), present), z3.And(c.fits(r), *c.local(r))))


def instance(kind, *path, nullable=False):
    """parameter: a value accepted at that node of the schema"""
    def mk(e, st, name):
        axioms(e, kind)
        n = spec(kind).at(*path)
        x = e.sym(st, name)
        tag(e, x.t, n)
        f = z3.And(n.fits(x.t), *n.local(x.t))
        st.add(z3.Or(x.t == T.NoneV, f) if nullable else f)
        return x
    return mk


def fits(e, kind, *path):
    axioms(e, kind)
    return spec(kind).at(*path).fits


def anything(kind):
    """parameter: any value, offered as the spec of that kind"""
    def mk(e, st, name):
        axioms(e, kind)
        x = e.sym(st, name)
        tag(e, x.t, spec(kind))
        return x
    return mk


PREPARED = {"koreo.workflow.structure.Workflow": "Workflow", "koreo.value_function.structure.ValueFunction": "ValueFunction", "koreo.resource_function.structure.ResourceFunction": "ResourceFunction",
            "koreo.resource_template.structure.ResourceTemplate": "ResourceTemplate", "koreo.function_test.structure.FunctionTest": "FunctionTest"}


def validate_cases(e, st, a):
    from pyvc.engine import Cls, C
    from pyvc.engine import Unsupported as U
    kind = PREPARED.get(getattr(a["resource_type"], "name", None))
    if kind is None or not (isinstance(a["validation_required"], C) and a["validation_required"].x is True):
        raise U("schema.validate for an unknown kind, or not required")
    axioms(e, kind)
    n = spec(kind)

    def post(cx):
        t = cx.a["spec"]
        if n.name not in e.__dict__.setdefault("_crd_root", {}):
            e._crd_root[n.name] = True
        return [("", z3.If(n.fits(t), cx.res == T.NoneV, z3.And(isa(cx.res, PERMFAIL), wf_outcome(cx.res), said(cx.res)))), ("", z3.Implies(cx.res == T.NoneV, z3.And(n.fits(t), *n.local(t))))]
    return [Case("validated", post=post)]


validate = Contract("koreo.schema", "validate", cases=validate_cases, opts={"trusted": ["the fastjsonschema validator compiled from a kind's bundled CRD accepts exactly the specs that fit the schema (koreo.schema.validate around it is under contract in C20: None exactly when that validator accepts, otherwise a PermFail with a message)"]})
