"""koreo/resource_function/reconcile: what is read, written and returned (C04-C08, C12)."""
import copy
from .common import *
from pyvc.engine import Coro, Unsupported
from . import cel_eval as CE, payload as PL, validate as VA, result as RS
from .cel_eval import cel_eval, cel_raises, cel_crashes, clean, key_of
from .payload import RC, MAP, LIST, META, ANNO, LASTAPP, OWNERS, deep, conv, stripped, nodir, owned, written, annotated, without_annotation, pinned, kk, has, getval, listy

ST = "koreo.resource_function.structure."
API = "kr8s.APIObject"
AV, KIND, NAME, NS = kk("apiVersion"), kk("kind"), kk("name"), kk("namespace")
excused = z3.Function("raised_by_a_dependency", V, B)      # an exception an external call or a callee's contract names
ovres = z3.Function("overlay_result", V, V, V, V, B)       # evaluate_overlay(overlay, inputs, base) gave res
vfres = z3.Function("function_result", V, V, V, V, B)      # reconcile_value_function(function, inputs, value_base) gave res
folded = z3.Function("after_overlays", V, V, V, I, V, B)   # after the first i overlay steps: x
is_true = lambda t: z3.And(isa(t, "bool"), iv(t) == 1)
no_plural = z3.Const("plural_lookup_failed", B)
DELAY = 30


def verifying(cx):
    return getattr(cx, "kind", None) is not None


def soft(cx, kind):
    return [e.args for e in cx.st.log if e.kind == kind]


def using(c, mark=None, post=None, pre=None, weaken=None, cases=None, ground=None):
    """the contract of a callee as this module uses it; everything left out is only ever weaker"""
    n = copy.copy(c)
    n.opts = {k: v for k, v in c.opts.items() if k != "mark"}
    if mark:
        n.opts["mark"] = mark
    n.pre = pre if pre is not None else c.pre

    def mk(e, st, a):
        out = []
        for case in (cases or c.cases)(e, st, a):
            k = copy.copy(case)
            if case.outcome == "raise":
                k.post = lambda cx, case=case: (case.post(cx) if case.post else []) + [("", excused(cx.res))]
            elif post:
                k.post = lambda cx, case=case: (case.post(cx) if case.post else []) + post(cx)
            out.append(k)
        return out
    n.cases = mk
    return n


# ---------------------------------------------------------------------------------------------- definitions
def E(expr, inputs):
    val = cel_eval(expr, inputs)
    return val, z3.And(z3.Not(cel_raises(expr, inputs)), z3.Not(cel_crashes(expr, inputs)), clean(val))


def axioms(e):
    if getattr(e, "_rec_ax", False):
        return
    e._rec_ax = True
    t, s, n, b, x, y = z3.Consts("rt rs rn rb rx ry", V)
    i, j = z3.Consts("ri rj", I)
    e.models.note("keys of CEL maps are texts, integers or booleans")
    step = la(s)[i]
    skip = fld("skip_if")(step)
    sval, sok = E(skip, n)
    skipped = z3.And(skip != T.NoneV, isa(sval, "celtypes.BoolType"), iv(sval) == 1)
    runs = z3.Or(skip == T.NoneV, z3.And(isa(sval, "celtypes.BoolType"), iv(sval) == 0))
    ins = fld("inputs")(step)
    ival, iok = E(ins, n)
    e.extra_axioms += [
        z3.ForAll([t], z3.Implies(isa(t, MAP), PL.plainkeys(t)), patterns=[PL.plainkeys(t)]),
        # definition of `after_overlays` (least relation): start, skipped step, inline overlay, function overlay
        z3.ForAll([s, n, b], folded(s, n, b, 0, b), patterns=[folded(s, n, b, 0, b)]),
        z3.ForAll([s, n, b, i, x, j, y], z3.Implies(z3.And(
            folded(s, n, b, i, x), j == i + 1, 0 <= i, i < ln(s),
            z3.Or(z3.And(skipped, y == x),
                  z3.And(runs, isa(step, ST + "InlineOverlay"), ovres(fld("overlay")(step), n, x, y)),
                  z3.And(runs, isa(step, ST + "ValueFunctionOverlay"), z3.Or(z3.And(ins == T.NoneV, vfres(fld("overlay")(step), T.NoneV, x, y)), z3.And(ins != T.NoneV, iok, vfres(fld("overlay")(step), ival, x, y)))))),
            folded(s, n, b, j, y)), patterns=[z3.MultiPattern(folded(s, n, b, i, x), folded(s, n, b, j, y))]),
    ]


def live_object(r):
    m = getval(r, META)
    a = getval(m, ANNO)
    return z3.And(isa(r, "dict"), z3.Implies(T.truth(m), z3.And(isa(m, "dict"), z3.Implies(T.truth(a), isa(a, "dict")))))


def attr_hook(e, st, v, name, r):
    t = e.snap(st, v)
    if name == "raw":
        st.add(z3.Implies(isa(t, API), live_object(r)))
        e.models.note("an object read from the API is a dict whose metadata and annotations (when present) are dicts")
    elif name in ("version", "kind", "plural", "endpoint"):
        st.add(z3.Implies(isa(t, "type"), isa(r, "str")))
        e.models.note("version, kind and plural of a kr8s API class are texts, `namespaced` a boolean")
    elif name == "namespaced":
        st.add(z3.Implies(isa(t, "type"), isa(r, "bool")))
    elif name == "response":
        st.add(z3.Implies(isa(t, "kr8s.ServerError"), z3.Or(r == T.NoneV, T.exact(r, "object_"))))


def fails(e, s, *classes):
    """the awaited API call raises"""
    s2 = s.copy()
    x = e.sym(s2, "api_exc", "BaseException", own="deep")
    s2.add(excused(x.t))
    e.sinks[-1].append((s2, x))


def only(args, kw, pos, names):
    if len(args) > pos or any(k not in names for k in kw):
        raise Unsupported("unknown arguments to an API call")


def async_get(e, st, o, args, kw, node):
    only(args, kw, 2, ("namespace",))

    def th(s):
        n = kw.get("namespace", C(None))
        s.log.append(Event("get", cls=e.to_v(s, args[0]), name=e.to_v(s, args[1]), namespace=e.to_v(s, n)))
        fails(e, s)
        r = e.sym(s, "found", "list", own="deep", exact=True)
        j = z3.Const(T.fresh_name("fj"), I)
        s.add(ln(r.t) >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(r.t)), isa(la(r.t)[j], API)), patterns=[la(r.t)[j]]))
        s.add(z3.Implies(ln(r.t) > 0, isa(la(r.t)[0], API)))
        return [(s, r)]
    return [(st, Coro(th))]


def write(kind, argname=None):
    def call(e, st, o, args, kw, node):
        if not isinstance(o, SV):
            return None
        only(args, kw, 1 if argname else 0, ())

        def th(s):
            t = e.snap(s, o)
            ev = dict(obj=t)
            if kind == "create":
                ev.update(cls=fld("ghost_class")(t), payload=fld("raw")(t), namespace=fld("ghost_namespace")(t))
            if argname:
                ev[argname] = e.to_v(s, args[0])
            s.log.append(Event(kind, **ev))
            fails(e, s)
            return [(s, C(None))]
        return [(st, Coro(th))]
    return call


def new_object(e, st, f, args, kw, node):
    """resource_api(api=, resource=, namespace=): kr8s APIObject"""
    only(args, kw, 0, ("api", "resource", "namespace"))
    o = e.sym(st, "object", API, own="deep", exact=True)
    st.add(fld("raw")(o.t) == e.to_v(st, kw["resource"]), fld("ghost_class")(o.t) == e.to_v(st, f), fld("ghost_namespace")(o.t) == e.to_v(st, kw.get("namespace", C(None))))
    e.models.note("kr8s APIObject(api, resource=dict, namespace=n) keeps the dict as .raw (and sets metadata.namespace to n unless None); create() posts it")
    return [(st, o)]


def setup(e):
    PL.setup(e)
    VA.setup(e)
    CE.setup(e)
    axioms(e)
    e.models.attr_hook = attr_hook
    e.models.values = new_object
    e.models.meth["async_get"] = async_get
    e.models.meth["create"] = write("create")
    e.models.meth["delete"] = write("delete")
    e.models.meth["patch"] = write("patch", "patch")


# ---------------------------------------------------------------------------------------------- callees
def deep_at(r, b, o, k):
    return z3.And(has(r, k) == z3.Or(has(b, k), has(o, k)),
                  z3.Implies(z3.And(has(b, k), z3.Not(has(o, k))), mp(r)[k] == mp(b)[k]),
                  z3.Implies(has(o, k), z3.If(z3.And(has(b, k), isa(mp(b)[k], MAP), isa(mp(o)[k], MAP)), deep(mp(r)[k], mp(b)[k], mp(o)[k]), mp(r)[k] == mp(o)[k])))


def carries(r, f):
    """r is a CEL map carrying apiVersion, kind, metadata.name and metadata.namespace of the identity map f"""
    rm, fm = mp(r)[META], mp(f)[META]
    keep = lambda x, y, k: z3.Implies(z3.And(has(y, k), z3.Not(isa(mp(y)[k], MAP))), z3.And(has(x, k), mp(x)[k] == mp(y)[k]))
    return z3.And(keep(r, f, AV), keep(r, f, KIND), z3.Implies(z3.And(has(f, META), isa(fm, MAP)), z3.And(has(r, META), isa(rm, MAP), keep(rm, fm, NAME), keep(rm, fm, NS))))


def identity(f):
    m = mp(f)[META]
    return z3.And(isa(f, MAP), has(f, AV), has(f, KIND), has(f, META), isa(mp(f)[AV], "str"), isa(mp(f)[KIND], "str"), isa(m, MAP), has(m, NAME), isa(mp(m)[NAME], "str"), z3.Implies(has(m, NS), isa(mp(m)[NS], "str")))


pin = using(PL.overlay, mark="pin", post=lambda cx: [("", carries(cx.res, cx.a["overlay"])), ("", T.cls(cx.res) == T.cls(cx.a["resource"]))])
converted = using(PL.convert, mark="native", post=lambda cx: [
    ("", z3.Implies(isa(cx.a["cel_object"], "dict"), T.exact(cx.res, "dict"))),
    ("", z3.Implies(isa(cx.a["cel_object"], MAP), z3.And([z3.And(has(cx.res, k) == has(cx.a["cel_object"], k), z3.Implies(has(cx.res, k), conv(mp(cx.res)[k], mp(cx.a["cel_object"])[k]))) for k in (AV, KIND, META)]))),
    ("", z3.Implies(z3.And(isa(cx.a["cel_object"], MAP), has(cx.res, META), isa(mp(cx.a["cel_object"])[META], "dict")), T.exact(mp(cx.res)[META], "dict")))])
payload_of = using(PL.prepare)
reffed = using(PL.reffed, mark="reffed")
updated = using(PL.updated, mark="owners")
evaluate = CE.evaluate
evpred = CE.evpred
check = CE.check
VF_RES = lambda r: z3.And(z3.Or(r == T.NoneV, isa(r, *NONOK), isa(r, "dict")), unwrapped(r))
evoverlay = using(CE.evoverlay, mark="overlay", pre=lambda e, st, a: [("the base is a mapping", isa(e.to_v(st, a["base"]), "dict"))],
                  post=lambda cx: [("", ovres(cx.a["overlay"], cx.a["inputs"], cx.a["base"], cx.res))])
vf = using(CE.vf, mark="vf", pre=lambda e, st, a: [("the base is a mapping or absent", isa(e.to_v(st, a["value_base"]), "dict", "NoneType"))],
           cases=lambda e, st, a: [Case("reconciled", post=lambda cx: [("", z3.And(VF_RES(cx.res), vfres(cx.a["function"], cx.a["inputs"], cx.a["value_base"], cx.res)))])])


def match_facts(cx):
    t, a, l, r = cx.a["target"], cx.a["actual"], cx.a["last_applied_value"], cx.res
    base = VA.validate_match.cases(cx.eng, cx.st, cx.args)[0].post(cx)
    out = []
    for lb, f in base:
        out.append((lb, z3.Implies(VA.wfd(t), f) if lb == "match exactly when the target is met" else f))
    return out


match = using(VA.validate_match, mark="match", pre=lambda e, st, a: [],
              cases=lambda e, st, a: [Case("compared", post=match_facts), Case("malformed directives", outcome="raise", exc=["Exception"], when=lambda cx: z3.Not(VA.wfd(cx.a["target"])))])
plural = Contract("koreo.resource_function.reconcile.kind_lookup", "get_plural_kind", cases=lambda e, st, a: [
    Case("answered", post=lambda cx: [("", isa(cx.res, "str", "NoneType")), ("", z3.Implies(z3.Not(T.truth(cx.res)), no_plural))]), Case("lookup fails", outcome="raise", exc=["BaseException"], post=lambda cx: [("", excused(cx.res))])])
cached = Contract("koreo.cache", "get_resource_from_cache", trusted=True, own="borrowed", opts={"mark": "cached"}, cases=returns(
    lambda cx: [("", z3.Or(cx.res == T.NoneV, z3.And(isa(cx.res, *NONOK), wf_outcome(cx.res)), isa(cx.res, "koreo.resource_template.structure.ResourceTemplate")))]))

# ---------------------------------------------------------------------------------------------- reading
api_param = lambda e, st, n: e.sym(st, n, "type")


def asked(cx):
    g = cx.ev[0].args
    return ("reads what was asked for", z3.And(g["cls"] == cx.a["resource_api"], g["name"] == cx.a["name"], g["namespace"] == cx.a["namespace"]))


def load_cases(e, st, a):
    def post(cx):
        g = cx.ev[0].args
        out = [asked(cx),
               ("absent, a live object, or Retry", z3.Or(cx.res == T.NoneV, isa(cx.res, API), z3.And(isa(cx.res, RETRY), isa(fld("delay")(cx.res), "int"), wf_outcome(cx.res))))]
        if not verifying(cx):
            out.append(("", g["live"] == cx.res))
        return out
    return [Case("read", events=[("get", ["cls", "name", "namespace", "live"])], post=post),
            Case("cancelled", events=[("get", ["cls", "name", "namespace", "live"])], outcome="raise", exc=["BaseException"],
                 post=lambda cx: [asked(cx), ("only what the API raised", excused(cx.res)), ("never an ordinary failure", z3.Not(isa(cx.res, "Exception")))])]


load = Contract(RC, "load_api_resource", params=params(api=sym("kr8s.Api"), resource_api=api_param, name=sym("str"), namespace=sym(("str", "NoneType"))), cases=load_cases)


# ---------------------------------------------------------------------------------------------- template
def last_pin(cx):
    p = soft(cx, "pin")
    return p[-1] if p else None


def template_post(cx):
    r, t, f, ins = cx.res, cx.a["resource_template"], cx.a["forced_overlay"], cx.a["inputs"]
    bad = isa(r, RETRY, PERMFAIL)
    out = [("a CEL map, or an error outcome", z3.Or(z3.And(bad, wf_outcome(r)), isa(r, MAP))),
           ("carries the identity", z3.Or(bad, carries(r, f)))]
    if not verifying(cx):
        return out
    p = last_pin(cx)
    if p is None:
        return out + [("no template: the identity alone", z3.Or(bad, z3.And(t == T.NoneV, r == f)))]
    base = p["resource"]
    val, ok = E(fld("template")(t), ins)
    inline = z3.And(isa(t, ST + "InlineResourceTemplate"), z3.If(fld("template")(t) == T.NoneV, z3.And(isa(base, MAP), klen(base) == 0), z3.And(ok, z3.Or(base == val, z3.And(val == T.NoneV, isa(base, MAP), klen(base) == 0)))))
    ref = z3.BoolVal(False)
    for c in soft(cx, "cached"):
        nval, nok = E(fld("name")(t), ins)
        ref = z3.And(isa(t, ST + "ResourceTemplateRef"), nok, c["cache_key"] == nval, base == fld("template")(c["res"]))
    return out + [("the template, with the identity merged over it", z3.Or(bad, z3.And(deep(r, base, f), p["overlay"] == f))),
                  ("the template named or given", z3.Or(bad, inline, ref))]


template_param = lambda e, st, n: e.sym(st, n, (ST + "InlineResourceTemplate", ST + "ResourceTemplateRef", "NoneType"))
is_map = lambda n: lambda e, st, a: [(f"{n} is a CEL map", isa(e.to_v(st, a[n]), MAP))]
template = Contract(RC, "_construct_resource_template", params=params(inputs=sym("dict"), resource_template=template_param, forced_overlay=sym(MAP), full_resource_name=sym("str")),
                    pre=is_map("forced_overlay"), cases=returns(template_post), opts={"mark": "template", "soft": ("pin", "eval", "cached")}, own="shallow")


# ---------------------------------------------------------------------------------------------- overlays
def fold_inv(cx):
    x = cx.t("new_resource")
    return [("the steps so far are applied in order", folded(cx.eng.to_v(cx.pre, cx.eng._vargs["overlay_steps"]), cx.p("inputs"), cx.p("resource"), cx.i, x)), ("a CEL map", isa(x, MAP))]


def overlays_post(cx):
    r, f = cx.res, cx.a["forced_overlay"]
    bad = isa(r, *NONOK)
    out = [("a CEL map, or an outcome", z3.Or(z3.And(bad, wf_outcome(r)), isa(r, MAP))), ("carries the identity", z3.Or(bad, carries(r, f)))]
    if not verifying(cx):
        return out
    p = last_pin(cx)
    if p is None:
        return out + [("stops only for an outcome", bad)]
    x = p["resource"]
    s = cx.a["overlay_steps"]
    return out + [("every step was applied in order", z3.Or(bad, folded(s, cx.a["inputs"], cx.a["resource"], ln(s), x))),
                  ("the identity is merged over the result", z3.Or(bad, z3.And(deep(r, x, f), p["overlay"] == f)))]


def keep_args(e, st, args):
    e._vargs = args


def steps_param(e, st, n):
    s = e.sym(st, n, ("list", "tuple"))
    j = z3.Const("sj", I)
    st.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(s.t)), isa(la(s.t)[j], ST + "InlineOverlay", ST + "ValueFunctionOverlay")), patterns=[la(s.t)[j]]))
    return s


overlays = Contract(RC, "_materialize_from_overlays", params=params(resource=sym(MAP), overlay_steps=steps_param, inputs=sym("dict"), forced_overlay=sym(MAP), full_resource_name=sym("str")), setup=keep_args,
                    pre=lambda e, st, a: is_map("forced_overlay")(e, st, a) + is_map("resource")(e, st, a) + [("steps are a sequence", isa(e.to_v(st, a["overlay_steps"]), "list", "tuple"))],
                    cases=returns(overlays_post), loops={0: Loop(fold_inv, keep=("eval", "overlay", "vf"))}, opts={"mark": "overlays", "soft": ("pin", "eval", "overlay", "vf"), "cost": 4}, own="shallow")


# ---------------------------------------------------------------------------------------------- create
def same_identity(p, f):
    m, fm = mp(p)[META], mp(f)[META]
    eq = lambda x, y, k: z3.And(has(x, k), isa(mp(x)[k], "str"), sv(mp(x)[k]) == sv(mp(y)[k]))
    return z3.And(eq(p, f, AV), eq(p, f, KIND), has(p, META), isa(m, "dict"), eq(m, fm, NAME), z3.Implies(has(fm, NS), eq(m, fm, NS)))


def should_own(cx, own, owner, ns):
    o = la(owner)[0]
    return z3.And(is_true(own), z3.If(ns == T.NoneV, o == T.NoneV, z3.And(isa(o, "str"), sv(o) == sv(ns))))


def refs_sent(p, view, ref):
    """the owner references of payload p: those of view, and the parent"""
    i = z3.Const("rsi", I)
    R, old = mp(mp(p)[META])[OWNERS], PL.view_refs(view)
    had = PL.refs_of(view)
    n = z3.If(had, ln(old), 0)
    listed = z3.And(had, owned(old, ref))
    return [("references are a list", z3.And(has(mp(p)[META], OWNERS), isa(R, "list"), ln(R) == z3.If(listed, n, n + 1))),
            ("the parent is appended unless listed", z3.Implies(z3.Not(listed), native_stripped(la(R)[n], ref))),
            ("every present reference is kept", z3.ForAll([i], z3.Implies(z3.And(had, 0 <= i, i < ln(old)), native_stripped(la(R)[i], la(old)[i])), patterns=[la(R)[i]]))]


ns_mid = z3.Function("native_mid", V, V, V)


def native_stripped(r, o):
    m = z3.Const("nm", V)
    return z3.Exists([m], z3.And(conv(m, o), stripped(r, m)))


def payload_posts(p, view, f):
    """what a payload p made of `view` with identity f satisfies"""
    return [("identity as configured", same_identity(p, f)), ("no comparison directive at any depth", nodir(p))] + annotated(p, written(p))


def create_cases(e, st, a):
    def none(cx):
        return [("an outcome, nothing sent", z3.And(isa(cx.res, *NONOK), wf_outcome(cx.res)))]

    def sent(cx):
        c = cx.ev[0].args
        r, p, f = cx.res, c["payload"], cx.a["forced_overlay"]
        fs = [("the configured API class and namespace", z3.And(c["cls"] == cx.a["resource_api"], c["namespace"] == cx.a["namespace"])),
              ("waits with the configured delay, or PermFail", z3.And(wf_outcome(r), z3.Or(isa(r, PERMFAIL), z3.And(isa(r, RETRY), fld("delay")(r) == fld("delay")(cx.a["create"])))))]
        fs += payload_posts(p, None, f)
        if verifying(cx):
            pe = last_pin(cx)
            native = soft(cx, "native")
            own = soft(cx, "owners")
            if pe is None or not native:
                return fs + [("the identity is merged over what is sent", z3.BoolVal(False))]
            pinned_, x = pe["res"], pe["resource"]
            co = fld("overlay")(cx.a["create"])
            rv = cx.a["resource_view"]
            base = z3.Or(x == rv, z3.And(z3.Not(T.truth(rv)), isa(x, MAP), klen(x) == 0))
            for o in soft(cx, "overlay"):
                base = z3.And(o["overlay"] == co, o["inputs"] == cx.a["inputs"], x == o["res"], z3.Or(o["base"] == rv, z3.And(z3.Not(T.truth(rv)), isa(o["base"], MAP), klen(o["base"]) == 0)))
            if not soft(cx, "overlay"):
                base = z3.And(co == T.NoneV, base)
            view = native[-1]["cel_object"]
            k = z3.Const("ck", K)
            fs += [("the target, with the create overlay", base), ("the identity is merged over it", z3.And(deep(pinned_, x, f), pe["overlay"] == f)),
                   ("what is sent is that object", z3.ForAll([k], z3.Implies(k != META, z3.And(has(view, k) == has(pinned_, k), mp(view)[k] == mp(pinned_)[k])), patterns=[dom(view)[k]])),
                   ("metadata but for owner references as well", z3.ForAll([k], z3.Implies(k != OWNERS, z3.And(has(mp(view)[META], k) == has(mp(pinned_)[META], k), mp(mp(view)[META])[k] == mp(mp(pinned_)[META])[k])), patterns=[dom(mp(view)[META])[k]]))]
            want = should_own(cx, cx.a["owned_resource"], cx.a["owner"], cx.a["namespace"])
            refs = getval(mp(view)[META], OWNERS)
            if own:
                fs += [("owner references only for owned objects in the parent's namespace", want),
                       ("references of the object and the parent", z3.And(refs == own[-1]["res"], own[-1]["resource_view"] == pinned_, own[-1]["owner_ref"] == la(cx.a["owner"])[1]))]
            else:
                fs += [("an owned object in the parent's namespace lists the parent", z3.Not(want)), ("references untouched", refs == getval(mp(pinned_)[META], OWNERS))]
        return fs
    ev = [("create", ["obj", "cls", "payload", "namespace"])]
    return [Case("not created", post=none), Case("created", events=ev, post=sent),
            Case("nothing sent", outcome="raise", exc=["Exception"], post=lambda cx: [("only what a callee names", excused(cx.res))]),
            Case("cancelled", events=ev, outcome="raise", exc=["BaseException"], post=lambda cx: [("only what the API raised", excused(cx.res)), ("never an ordinary failure", z3.Not(isa(cx.res, "Exception")))]
                 + [(lb, fm) for lb, fm in sent(cx) if "delay" not in lb])]


def owner_param(e, st, n):
    return Tup([e.sym(st, "owner_namespace", ("str", "NoneType")), e.sym(st, "owner_ref", "dict")])


view_ok = lambda e, st, a: [("the target is a CEL map", isa(e.to_v(st, a["resource_view"]), MAP, "NoneType")), ("the identity", identity(e.to_v(st, a["forced_overlay"]))),
                            ("the parent's reference is a mapping", isa(la(e.to_v(st, a["owner"]))[1], "dict"))]
create = Contract(RC, "_create_api_resource", params=params(api=sym("kr8s.Api"), resource_api=api_param, namespace=sym(("str", "NoneType")), create=sym(ST + "Create"), owned_resource=sym("bool"), owner=owner_param,
                                                            inputs=sym("dict"), resource_view=sym((MAP, "NoneType")), forced_overlay=sym(MAP), full_resource_name=sym("str")),
                  pre=view_ok, cases=create_cases, opts={"soft": ("pin", "overlay", "native", "owners"), "cost": 6, "mark": "createcall"})

# ---------------------------------------------------------------------------------------------- the Kubernetes part
class Krm:
    """what reconcile_krm_resource is asked to do, in terms of its arguments"""

    def __init__(self, cx):
        self.cx, self.crud, self.ins, self.owner = cx, cx.a["crud_config"], cx.a["inputs"], cx.a["owner"]
        f = lambda n: fld(n)(self.crud)
        self.api, self.create, self.update = f("resource_api"), f("create"), f("update")
        self.readonly, self.deleting, self.own = is_true(f("readonly")), is_true(f("delete_if_exists")), f("own_resource")
        self.can_create = is_true(fld("enabled")(self.create))
        self.val, ok = E(f("resource_id"), self.ins)
        self.nm, self.nsv = mp(self.val)[NAME], getval(self.val, NS)
        self.nametext, self.nstext = T.tostr(self.nm), T.tostr(self.nsv)
        self.has_ns = z3.And(T.truth(self.nsv), self.nstext != lit(""))
        self.idok = z3.And(ok, isa(self.val, MAP), has(self.val, NAME), self.nm != T.NoneV, z3.Or(self.has_ns, z3.Not(is_true(fld("namespaced")(self.api)))))
        self.res = fld("result")(cx.res) if cx.res is not None else None

    def is_name(self, t):
        return z3.And(isa(t, "str"), sv(t) == self.nametext)

    def is_ns(self, t):
        return z3.If(self.has_ns, z3.And(isa(t, "str"), sv(t) == self.nstext), z3.If(T.truth(self.nsv), z3.And(isa(t, "str"), sv(t) == lit("")), t == T.NoneV))

    def retry(self, delay):
        d = fld("delay")(self.res)
        return z3.And(isa(self.res, RETRY), isa(d, "int"), iv(d) == (iv(delay) if isinstance(delay, z3.ExprRef) else delay))

    def identity(self, p):
        m = mp(p)[META]
        eq = lambda x, k, text: z3.And(has(x, k), isa(mp(x)[k], "str"), sv(mp(x)[k]) == text)
        return z3.And(eq(p, AV, sv(fld("version")(self.api))), eq(p, KIND, sv(fld("kind")(self.api))), has(p, META), isa(m, "dict"), eq(m, NAME, self.nametext), z3.Implies(self.has_ns, eq(m, NS, self.nstext)))

    def read(self, g):
        return [("only after the identity evaluated", self.idok), ("reads the configured API class", g["cls"] == self.api), ("reads the evaluated name", self.is_name(g["name"])), ("in the evaluated namespace", self.is_ns(g["namespace"]))]

    def target(self):
        """the expected resource: template with the overlays; (facts, term)"""
        t, o = soft(self.cx, "template"), soft(self.cx, "overlays")
        if not t:
            return None, None
        t = t[-1]
        steps = fld("overlays")(self.crud)
        fs = [("the configured template", z3.And(t["resource_template"] == fld("resource_template")(self.crud), t["inputs"] == self.ins, isa(t["res"], MAP)))]
        if o:
            o = o[-1]
            fs.append(("the configured overlays over it", z3.And(o["overlay_steps"] == steps, o["resource"] == t["res"], o["inputs"] == self.ins, isa(o["res"], MAP))))
            return fs, o["res"]
        fs.append(("no overlay is configured", z3.Not(T.truth(steps))))
        return fs, t["res"]

    def compared(self, live):
        """facts about the comparison made; condition: the object is as wanted"""
        m, rf = soft(self.cx, "match"), soft(self.cx, "reffed")
        fs, exp = self.target()
        if not m or fs is None:
            return [("the live object is compared with the target", z3.BoolVal(False))], None
        m = m[-1]
        raw = fld("raw")(live)
        fs = fs + [("the whole target is compared", conv(m["target"], exp)), ("with the live object", m["actual"] == raw), ("and what was last applied", m["last_applied_value"] == PL.lastval(raw)), ("not as a set", z3.Not(is_true(m["compare_list_as_set"])))]
        mine = should_own(self.cx, self.own, self.owner, self.ns_term())
        if rf:
            fs += [("ownership is looked up for owned objects only", mine), ("on the live object, for the parent", z3.And(rf[-1]["resource_view"] == raw, rf[-1]["owner_ref"] == la(self.owner)[1]))]
            owned_ok = T.truth(rf[-1]["res"])
            listed = z3.And(PL.refs_of(raw), owned(PL.view_refs(raw), la(self.owner)[1]))
            fs.append(("ownership is whether the parent is listed", z3.Implies(PL.refs_ok(raw), owned_ok == listed)))
        else:
            fs.append(("an owned object's references are looked up", z3.Not(mine)))
            owned_ok = z3.BoolVal(True)
        return fs, z3.And(is_true(fld("match")(m["res"])), owned_ok)

    def ns_term(self):
        return self.cx.ev[0].args["namespace"]


def krm_cases(e, st, a):
    G = ("get", ["cls", "name", "namespace", "live"])

    def nothing(cx):
        k = Krm(cx)
        return [("PermFail", isa(k.res, PERMFAIL)), ("nothing is read only without an identity", z3.Or(z3.Not(k.idok), no_plural))]

    def read_only(cx):
        k = Krm(cx)
        g = cx.ev[0].args
        live = g["live"]
        there, gone, failed = isa(live, API), live == T.NoneV, isa(live, RETRY)
        err = isa(k.res, *NONOK)
        raw = fld("raw")(live)
        out = k.read(g)
        out += [("a failed read is its Retry", z3.Implies(failed, k.res == live)),
                ("delete: nothing left is Ok", z3.Implies(z3.And(k.deleting, gone), z3.And(isa(k.res, "dict"), klen(k.res) == 0))),
                ("delete: a present object is deleted", z3.Not(z3.And(k.deleting, there))),
                ("absent and readonly: Retry", z3.Implies(z3.And(z3.Not(k.deleting), gone, k.readonly), k.retry(DELAY))),
                ("absent and creation disabled: Retry", z3.Implies(z3.And(z3.Not(k.deleting), gone, z3.Not(k.can_create)), k.retry(DELAY))),
                ("absent: never Ok", z3.Implies(z3.And(z3.Not(k.deleting), gone), err)),
                ("present and readonly: the live object", z3.Implies(z3.And(z3.Not(k.deleting), there, k.readonly), k.res == raw)),
                ("present: the live object or an outcome", z3.Implies(z3.And(z3.Not(k.deleting), there), z3.Or(err, k.res == raw)))]
        if soft(cx, "match"):
            fs, good = k.compared(live)
            managed = z3.And(z3.Not(k.deleting), there, z3.Not(k.readonly))
            out += [(lb, z3.Implies(z3.And(managed, z3.Not(err)), f)) for lb, f in fs]
            out += [("present and not written: as wanted, or never updated, or broken references", z3.Implies(managed, z3.Or(good, isa(k.update, ST + "UpdateNever"), isa(k.res, PERMFAIL)))),
                    ("as wanted: the live object", z3.Implies(z3.And(managed, good), k.res == raw)), ("never updated: the live object", z3.Implies(z3.And(managed, isa(k.update, ST + "UpdateNever")), k.res == raw))]
        else:
            out.append(("an uncompared object that is not readonly is not reported Ok", z3.Or(err, k.deleting, k.readonly)))
        return out

    def created(cx):
        k = Krm(cx)
        g, c = cx.ev[0].args, cx.ev[1].args
        p = c["payload"]
        out = k.read(g) + [("only when absent", g["live"] == T.NoneV), ("not when readonly", z3.Not(k.readonly)), ("not when deleting", z3.Not(k.deleting)), ("only when creation is enabled", k.can_create),
                           ("of the configured API class", c["cls"] == k.api), ("in the namespace that was read", c["namespace"] == g["namespace"]),
                           ("named as configured", k.identity(p)), ("no comparison directive at any depth", nodir(p))] + [(lb, f) for lb, f in annotated(p, written(p))]
        if cx.kind == "return":
            out.append(("waits with the configured delay, or PermFail", z3.Or(isa(k.res, PERMFAIL), k.retry(fld("delay")(k.create)))))
        fs, exp = k.target()
        call = soft(cx, "createcall")
        if cx.kind == "return":
            if fs is None or not call:
                return out + [("the target is built", z3.BoolVal(False))]
            x = call[-1]
            out += fs + [("created from the target", z3.And(x["resource_view"] == exp, x["create"] == k.create, x["inputs"] == k.ins)),
                         ("with the configured ownership", z3.And(x["owned_resource"] == k.own, la(x["owner"])[0] == la(k.owner)[0], la(x["owner"])[1] == la(k.owner)[1]))]
        return out

    def deleted(cx):
        k = Krm(cx)
        g, d = cx.ev[0].args, cx.ev[1].args
        out = k.read(g) + [("the object that was read", z3.And(isa(g["live"], API), d["obj"] == g["live"]))]
        if soft(cx, "match"):
            fs, good = k.compared(g["live"])
            out += fs + [("not when readonly", z3.Not(k.readonly)), ("only where updates recreate", isa(k.update, ST + "UpdateRecreate")), ("only an object that is not as wanted", z3.Not(good))]
            if cx.kind == "return":
                out.append(("waits with the configured delay", k.retry(fld("delay")(k.update))))
        else:
            out.append(("only where the object is to be deleted", k.deleting))
            if cx.kind == "return":
                out.append(("waits", k.retry(DELAY)))
        return out

    def patched(cx):
        k = Krm(cx)
        g, p = cx.ev[0].args, cx.ev[1].args
        live, pay = g["live"], p["patch"]
        fs, good = k.compared(live)
        if good is None:
            return fs
        raw, ref = fld("raw")(live), la(k.owner)[1]
        m = soft(cx, "match")[-1]
        own = soft(cx, "owners")
        pm = mp(pay)[META]
        out = k.read(g) + fs + [("the object that was read", z3.And(isa(live, API), p["obj"] == live)), ("not when readonly", z3.Not(k.readonly)), ("not when deleting", z3.Not(k.deleting)),
                                ("only where updates patch", isa(k.update, ST + "UpdatePatch")), ("only an object that is not as wanted", z3.Not(good)),
                                ("named as configured", k.identity(pay)), ("no comparison directive at any depth", nodir(pay))] + [(lb, f) for lb, f in annotated(pay, written(pay))]
        kx = z3.Const("px", K)
        tg = m["target"]
        out.append(("the target's fields", z3.ForAll([kx], z3.Implies(kx != META, z3.And(has(pay, kx) == z3.And(has(tg, kx), z3.Not(PL.is_dir(kx))), z3.Implies(has(pay, kx), stripped(mp(pay)[kx], mp(tg)[kx])))), patterns=[dom(pay)[kx]])))
        tm = mp(tg)[META]
        out.append(("the target's metadata", z3.ForAll([kx], z3.Implies(z3.And(kx != ANNO, kx != OWNERS), z3.And(has(pm, kx) == z3.And(has(tm, kx), z3.Not(PL.is_dir(kx))), z3.Implies(has(pm, kx), stripped(mp(pm)[kx], mp(tm)[kx])))), patterns=[dom(pm)[kx]])))
        if own:
            o = own[-1]
            out += [("references only for an owned object that does not list the parent", z3.And(should_own(cx, k.own, k.owner, g["namespace"]), z3.Not(z3.And(PL.refs_of(raw), owned(PL.view_refs(raw), ref))))),
                    ("the live object's references and the parent's", z3.And(o["resource_view"] == raw, o["owner_ref"] == ref, has(pm, OWNERS), stripped(mp(pm)[OWNERS], o["res"])))]
        else:
            out.append(("the live object's references stay", z3.Not(has(pm, OWNERS))))
        if cx.kind == "return":
            out.append(("waits with the configured delay", k.retry(fld("delay")(k.update))))
        return out

    exc = lambda post: lambda cx: [("only what a dependency raised", excused(cx.res))] + (post(cx) if post else [])
    W = lambda kind, names: [G, (kind, names)]
    C_, D_, P_ = W("create", ["obj", "cls", "payload", "namespace"]), W("delete", ["obj"]), W("patch", ["obj", "patch"])
    ret = lambda post: lambda cx: [("an outcome or an object", krm_result(cx.res)), ("an identity or none", isa(fld("resource_id")(cx.res), "dict", "NoneType"))] + post(cx)
    return [Case("nothing read", post=ret(nothing)), Case("read only", events=[G], post=ret(read_only)), Case("created", events=C_, post=ret(created)), Case("deleted", events=D_, post=ret(deleted)), Case("patched", events=P_, post=ret(patched)),
            Case("fails before reading", outcome="raise", exc=["BaseException"], post=exc(None)), Case("fails after reading", events=[G], outcome="raise", exc=["BaseException"], post=exc(lambda cx: Krm(cx).read(cx.ev[0].args))),
            Case("create fails", events=C_, outcome="raise", exc=["BaseException"], post=exc(created)), Case("delete fails", events=D_, outcome="raise", exc=["BaseException"], post=exc(deleted)), Case("patch fails", events=P_, outcome="raise", exc=["BaseException"], post=exc(patched))]


def crud_param(e, st, n):
    c = e.sym(st, n, ST + "CRUDConfig")
    a = fld("resource_api")(c.t)
    st.add(unwrapped(fld("overlays")(c.t)), isa(fld("version")(a), "str"), isa(fld("kind")(a), "str"), isa(a, "type"), isa(fld("own_resource")(c.t), "bool"), isa(fld("readonly")(c.t), "bool"), isa(fld("delete_if_exists")(c.t), "bool"),
           isa(fld("create")(c.t), ST + "Create"), isa(fld("enabled")(fld("create")(c.t)), "bool"), isa(fld("delay")(fld("create")(c.t)), "int"),
           isa(fld("update")(c.t), ST + "UpdatePatch", ST + "UpdateRecreate", ST + "UpdateNever"))
    return c


krm = Contract(RC, "reconcile_krm_resource", params=params(api=sym("kr8s.Api"), crud_config=crud_param, owner=owner_param, inputs=sym("dict")), cases=krm_cases,
               opts={"join": True, "soft": ("eval", "pin", "template", "overlays", "native", "match", "reffed", "owners", "createcall"), "may_modify": ("attribute endpoint", "attribute plural"), "cost": 8, "optional_cases": ("create fails",)})



# ---------------------------------------------------------------------------------------------- ResourceFunction
RR, RES = RC + ".ReconcileResult", RC + ".Result"
krm_result = lambda r: z3.And(isa(r, RR), z3.Or(isa(fld("result")(r), *NONOK), isa(fld("result")(r), "dict")), unwrapped(fld("result")(r)))
krm_used = Contract(RC, "reconcile_krm_resource", opts={"mark": "krm"}, cases=lambda e, st, a: [
    Case("reconciled", post=lambda cx: [("", krm_result(cx.res)), ("", isa(fld("resource_id")(cx.res), "dict", "NoneType"))]),
    Case("fails", outcome="raise", exc=["BaseException"], post=lambda cx: [("", excused(cx.res))])])


def rf_cases(e, st, a):
    f = lambda cx, n: fld(n)(cx.a["function"])
    out = lambda cx: fld("outcome")(cx.res)
    LOC, RESK = kk("locals"), kk("resource")
    to_cel = z3.Function("to_cel", V, V)

    def sees(cx, ins, *more):
        q = cx.ev[1].args if len(cx.ev) > 1 else None
        fs = [isa(ins, "dict"), dom(ins)[kk("inputs")], mp(ins)[kk("inputs")] == cx.a["inputs"]]
        if "locals" in more:
            v = mp(ins)[LOC]
            fs += [dom(ins)[LOC], z3.If(q["res"] == T.NoneV, z3.And(isa(v, MAP), klen(v) == 0), z3.And(isa(v, MAP), v == q["res"]))]
        if "resource" in more:
            fs += [dom(ins)[RESK], mp(ins)[RESK] == to_cel(fld("result")(cx.ev[2].args["res"]))]
        return z3.And(fs)

    def p0(cx):
        p = cx.ev[0].args
        return [("the function's preconditions are decided", p["predicates"] == f(cx, "preconditions")), ("over the given inputs", sees(cx, p["inputs"]))]

    def p1(cx):
        q = cx.ev[1].args
        return p0(cx) + [("locals only after the preconditions passed", cx.ev[0].args["res"] == T.NoneV), ("locals are the function's", z3.And(q["expression"] == f(cx, "local_values"), sees(cx, q["inputs"])))]

    def p2(cx):
        k = cx.ev[2].args
        return p1(cx) + [("the resource only after the preconditions passed", cx.ev[0].args["res"] == T.NoneV), ("the function's resource", k["crud_config"] == f(cx, "crud_config")),
                         ("for the given parent", z3.And(la(k["owner"])[0] == la(cx.a["owner"])[0], la(k["owner"])[1] == la(cx.a["owner"])[1])), ("resource expressions see inputs and locals", sees(cx, k["inputs"], "locals"))]

    def p3(cx):
        p = cx.ev[3].args
        return p2(cx) + [("postconditions only after the resource was reconciled", isa(fld("result")(cx.ev[2].args["res"]), "dict")), ("the function's postconditions are decided", p["predicates"] == f(cx, "postconditions")),
                         ("over inputs, locals and the resource", sees(cx, p["inputs"], "locals", "resource"))]

    def stop(cx):
        p = cx.ev[0].args
        return p0(cx) + [("stops only for a precondition outcome", z3.And(p["res"] != T.NoneV, out(cx) == p["res"]))]

    def no_locals(cx):
        return p1(cx) + [("stops only when locals fail", z3.And(isa(out(cx), PERMFAIL), z3.Or(out(cx) == cx.ev[1].args["res"], z3.Not(isa(cx.ev[1].args["res"], MAP, "NoneType")))))]

    def not_ready(cx):
        r = fld("result")(cx.ev[2].args["res"])
        return p2(cx) + [("the resource's outcome is the outcome", z3.And(isa(r, *NONOK), out(cx) == r))]

    def post(cx):
        p = cx.ev[3].args
        return p3(cx) + [("stops only for a postcondition outcome", z3.And(p["res"] != T.NoneV, out(cx) == p["res"]))]

    def returned(cx):
        q = cx.ev[4].args
        return p3(cx) + [("return only after the postconditions passed", cx.ev[3].args["res"] == T.NoneV), ("return is the function's", q["expression"] == f(cx, "return_value")),
                         ("over inputs, locals and the resource", sees(cx, q["inputs"], "locals", "resource")), ("its value is the outcome", out(cx) == q["res"])]
    E_ = [("pred", []), ("eval", []), ("krm", []), ("pred", []), ("eval", [])]
    u = lambda post: lambda cx: post(cx) + [("a result", z3.And(isa(cx.res, RES), unwrapped(out(cx))))]
    return [Case("decided by preconditions", events=E_[:1], post=u(stop)), Case("locals fail", events=E_[:2], post=u(no_locals)), Case("resource not ready", events=E_[:3], post=u(not_ready)),
            Case("decided by postconditions", events=E_[:4], post=u(post)), Case("evaluated", events=E_, post=u(returned)),
            Case("the resource cannot be read or written", events=E_[:2], outcome="raise", exc=["BaseException"], post=lambda cx: [("only what a dependency raised", excused(cx.res))]),
            Case("the resource cannot be read or written", events=E_[:3], outcome="raise", exc=["BaseException"], post=lambda cx: [("only what a dependency raised", excused(cx.res))])]


rf = Contract(RC, "reconcile_resource_function", params=params(api=sym("kr8s.Api"), location=sym("str"), function=sym(ST + "ResourceFunction"), owner=owner_param, inputs=sym()), cases=rf_cases,
              opts={"may_modify": (), "optional_cases": ("the resource cannot be read or written",)})

CONTRACTS = [load, template, overlays, create, krm, rf]
USES = [krm_used, pin, converted, payload_of, reffed, updated, evaluate, evpred, check, evoverlay, vf, match, plural, cached, using(PL.forced), using(PL.last)] + RS.CONTRACTS
