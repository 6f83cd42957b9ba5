"""koreo/{value_function,resource_template,resource_function}/prepare.py: what a prepared definition is (C07, C11, C12, C13, C14, C20)."""
from .common import *
from . import crd, celprep as CP, extract as EX
from .celprep import compiled, compiled_map, refused, ast_, asserts, overlay_of
from .extract import refers, plain, path
from .payload import MAP, kk, has
from .reconcile import using, soft
from .wprepare import get, is_set, names_all, set_or_none, prepared, tset

VFP = "koreo.value_function.prepare"
VF = "koreo.value_function.structure.ValueFunction"
NODEF = T.NoneV

compile_used = [using(c, mark="compile") for c in (CP.expression, CP.map_expression, CP.overlay_expression, CP.extractor)]


def opt(sp, name):
    """what the spec says under a name, None when it does not"""
    return get(sp, name)


def known(r, d, leaf=lambda r: r):
    """every input a compiled expression names is in d"""
    x = leaf(r)
    return z3.Implies(isa(x, CP.RUNNER), names_all(x, d))


def no_look(cx):
    """nothing was compiled or looked up"""
    return z3.BoolVal(not soft(cx, "compile") and not soft(cx, "lookup"))


def refused_post(cx, kind):
    fits = crd.fits(cx.eng, kind)(cx.a["spec"])
    r = cx.res
    bad = z3.And(isa(r, PERMFAIL), wf_outcome(r), said(r))
    return fits, bad, [("a spec the schema rejects is a PermFail with a message, before anything is compiled", z3.Implies(z3.Not(fits), z3.And(bad, no_look(cx))))]


def vf_prep_post(cx):
    sp, r = cx.a["spec"], cx.res
    fits, bad, out = refused_post(cx, "ValueFunction")
    f = la(r)[0]
    d = fld("dynamic_input_keys")(f)
    pre, loc, ret = fld("preconditions")(f), fld("local_values")(f), fld("return_value")(f)
    made = z3.And(T.exact(r, "tuple"), ln(r) == 2, isa(f, VF), la(r)[1] == T.NoneV)
    return out + [("a ValueFunction, or a PermFail with a message", z3.Or(bad, made))] + [(lb, z3.Implies(z3.Not(isa(r, PERMFAIL)), g)) for lb, g in [
        ("its preconditions are what the definition says", asserts(pre, opt(sp, "preconditions"))), ("its locals are what the definition says", compiled_map(loc, opt(sp, "locals"))),
        ("its return is what the definition says", z3.If(opt(sp, "return") == T.NoneV, ret == T.NoneV, overlay_of(ret, opt(sp, "return")))),
        ("what workflows assume of it", prepared(f, VF)), ("every input it names is known", z3.And(is_set(d), known(pre, d), known(loc, d), z3.Implies(isa(ret, CP.OVERLAY), known(fld("values")(ret), d))))]]


vf_prepare = Contract(VFP, "prepare_value_function", params=params(cache_key=sym("str"), spec=crd.anything("ValueFunction")), cases=returns(vf_prep_post), opts={"soft": ("compile",), "join": True})

# ---------------------------------------------------------------------------------------------- ResourceTemplate
RTP = "koreo.resource_template.prepare"
RT = "koreo.resource_template.structure.ResourceTemplate"
to_cel = z3.Function("to_cel", V, V)


def rt_post(cx):
    sp, r = cx.a["spec"], cx.res
    fits, bad, out = refused_post(cx, "ResourceTemplate")
    f = la(r)[0]
    tm, ctx = opt(sp, "template"), opt(sp, "context")
    made = z3.And(T.exact(r, "tuple"), ln(r) == 2, isa(f, RT), la(r)[1] == T.NoneV)
    ok = lambda g: z3.Implies(z3.Not(isa(r, PERMFAIL)), g)
    return out + [("a ResourceTemplate, or a PermFail with a message", z3.Or(bad, made)),
                  ("its template is what the definition says", ok(z3.And(fld("template")(f) == to_cel(tm), isa(fld("template")(f), MAP)))),
                  ("which names apiVersion and kind", ok(z3.And(isa(tm, "dict"), T.truth(get(tm, "apiVersion")), T.truth(get(tm, "kind"))))),
                  ("its context is what the definition says", ok(z3.And(isa(fld("context")(f), MAP), z3.If(dom(sp)[kk("context")], fld("context")(f) == to_cel(ctx), klen(fld("context")(f)) == 0))))]


def rt_setup(e, st, args):
    e.models.json_unfit = True


rt_prepare = Contract(RTP, "prepare_resource_template", params=params(cache_key=sym("str"), spec=crd.anything("ResourceTemplate")), cases=returns(rt_post), setup=rt_setup)


# ---------------------------------------------------------------------------------------------- ResourceFunction: parts
RFP = "koreo.resource_function.prepare"
ST = "koreo.resource_function.structure."
RFN = "koreo.resource_function.structure.ResourceFunction"
UPDATES = tuple(ST + x for x in ("UpdatePatch", "UpdateRecreate", "UpdateNever"))
CREATE = ST + "Create"
ENV = dict(cel_env=sym("celpy.Environment"))
UN, CN, AN, ON = (("ResourceFunction", x) for x in ("update", "create", "apiConfig", "overlays"))
thirty = lambda t: z3.And(isa(t, "int"), iv(t) == 30)


def update_is(r, sp):
    """the declared update policy (C07)"""
    out = []
    for key, c in (("patch", UPDATES[0]), ("recreate", UPDATES[1])):
        d = get(sp, key)
        out.append((f"{key} as declared", z3.Implies(isa(r, c), z3.Or(z3.And(sp == T.NoneV, thirty(fld("delay")(r))) if key == "patch" else False, z3.And(isa(d, "dict"), dom(sp)[kk(key)], fld("delay")(r) == get(d, "delay"))))))
        out.append((f"{key} when declared", z3.Implies(z3.And(isa(sp, "dict"), dom(sp)[kk(key)]), z3.Or(isa(r, c), refused(r)))))
    return out + [("never as declared", z3.Implies(isa(r, UPDATES[2]), z3.And(isa(sp, "dict"), dom(sp)[kk("never")]))),
                  ("never when declared", z3.Implies(z3.And(isa(sp, "dict"), dom(sp)[kk("never")]), z3.Or(isa(r, UPDATES[2]), refused(r))))]


update_post = lambda cx: [("an update policy or a PermFail with a message", z3.Or(isa(cx.res, *UPDATES), refused(cx.res))), ("patch unless declared otherwise", z3.Implies(cx.a["spec"] == T.NoneV, isa(cx.res, UPDATES[0])))] + update_is(cx.res, cx.a["spec"])
from .wprepare import fits_pre
update = Contract(RFP, "_prepare_update", params=params(spec=crd.instance(*UN, nullable=True)), pre=fits_pre(("spec", UN, True)), cases=returns(update_post))


def create_is(r, sp):
    en, dl, ov = get(sp, "enabled"), get(sp, "delay"), get(sp, "overlay")
    none = z3.Or(sp == T.NoneV, klen(sp) == 0)
    on = z3.And(isa(fld("enabled")(r), "bool"), iv(fld("enabled")(r)) == 1)
    has = lambda k: z3.And(isa(sp, "dict"), dom(sp)[kk(k)])
    return [("created unless declared otherwise", z3.Implies(z3.Not(on), z3.And(has("enabled"), iv(en) == 0))), ("not created when so declared", z3.Implies(z3.And(has("enabled"), iv(en) == 0), z3.Not(on))),
            ("enabled or not", isa(fld("enabled")(r), "bool")),
            ("its delay is the one declared", z3.Implies(z3.And(on, has("delay")), fld("delay")(r) == dl)), ("30 s unless declared otherwise", z3.Implies(z3.Not(z3.And(on, has("delay"))), thirty(fld("delay")(r)))),
            ("its overlay is what the definition says", z3.Implies(on, z3.If(z3.And(has("overlay"), ov != T.NoneV), overlay_of(fld("overlay")(r), ov), fld("overlay")(r) == T.NoneV))),
            ("or none", z3.Implies(z3.Not(on), fld("overlay")(r) == T.NoneV))]


create_post = lambda cx: [("a create policy or a PermFail with a message", z3.Or(isa(cx.res, CREATE), refused(cx.res)))] + [(lb, z3.Implies(isa(cx.res, CREATE), g)) for lb, g in create_is(cx.res, cx.a["spec"])]
create = Contract(RFP, "_prepare_create", params=params(**ENV, spec=crd.instance(*CN, nullable=True)), pre=fits_pre(("spec", CN, True)), cases=returns(create_post), opts={"soft": ("compile",)})


def get_class(e, st, args, kw, node):
    """kr8s.objects.get_class(version=, kind=, _asyncio=True): a registered class, or KeyError"""
    if args or set(kw) != {"version", "kind", "_asyncio"}:
        raise Unsupported("get_class with other arguments")
    s2 = st.copy()
    e.sinks[-1].append((s2, e.sym(s2, "no_class", "KeyError", own="deep")))
    r = e.sym(st, "api_class", "type", own="deep")
    st.add(isa(fld("version")(r.t), "str"), isa(fld("kind")(r.t), "str"), T.truth(r.t))
    e.models.note("kr8s.objects.get_class returns some registered API class or raises KeyError (for a kind without dots and an apiVersion with at most one slash)")
    return [(st, r)]


def new_class(e, st, args, kw, node):
    """kr8s.objects.new_class(version=, kind=, plural=, namespaced=, asyncio=True): a class for that version and kind, or ValueError"""
    if args or set(kw) != {"version", "kind", "plural", "namespaced", "asyncio"}:
        raise Unsupported("new_class with other arguments")
    s2 = st.copy()
    e.sinks[-1].append((s2, e.sym(s2, "bad_name", "ValueError", own="deep")))
    r = e.sym(st, "api_class", "type", own="deep")
    st.add(fld("version")(r.t) == e.to_v(st, kw["version"]), fld("kind")(r.t) == e.to_v(st, kw["kind"]), T.truth(r.t))
    e.models.note("kr8s.objects.new_class returns an API class of the version and kind it is given (kinds without dots), or raises ValueError")
    return [(st, r)]


same_text = lambda a, b: z3.And(isa(a, "str"), isa(b, "str"), sv(a) == sv(b))
api_is = lambda c, sp: z3.And(isa(c, "type"), same_text(fld("version")(c), get(sp, "apiVersion")), same_text(fld("kind")(c), get(sp, "kind")))


def api_post(cx):
    sp, r = cx.a["spec"], cx.res
    f = [la(r)[i] for i in range(5)]
    made = z3.And(T.exact(r, "tuple"), ln(r) == 5)
    flag = lambda i, key, dflt: z3.If(dom(sp)[kk(key)], f[i] == get(sp, key), z3.And(isa(f[i], "bool"), iv(f[i]) == (1 if dflt else 0)))
    n, ns = get(sp, "name"), get(sp, "namespace")
    return [("the API's configuration or a PermFail with a message", z3.Or(made, refused(r)))] + [(lb, z3.Implies(z3.Not(isa(r, PERMFAIL)), g)) for lb, g in [
        ("the API class is the declared one", api_is(f[0], sp)),
        ("flags are the declared ones", z3.And(flag(2, "owned", True), flag(3, "readonly", False), flag(4, "deleteIfExists", False))),
        ("name and namespace are compiled", z3.And(isa(f[1], CP.RUNNER), isa(ast_(f[1]), "lark.Tree")))]] + \
        ([("from the declared ones", z3.Implies(z3.Not(isa(r, PERMFAIL)), z3.And([z3.And(v["res"] == f[1], v["spec_is"]) for v in id_events(cx)] or [z3.BoolVal(False)])))] if getattr(cx, "kind", None) is not None else [])


def id_events(cx):
    sp = cx.a["spec"]
    n, ns = get(sp, "name"), get(sp, "namespace")
    out = []
    for v in soft(cx, "compile"):
        s = v["spec"]
        two = z3.And(T.truth(ns), klen(s) == 2, dom(s)[kk("namespace")], mp(s)[kk("namespace")] == ns)
        one = z3.And(z3.Not(T.truth(ns)), klen(s) == 1)
        out.append(dict(res=v["res"], spec_is=z3.And(isa(s, "dict"), dom(s)[kk("name")], mp(s)[kk("name")] == n, z3.Or(one, two))))
    return out


def api_setup(e, st, args):
    from . import reconcile as RC_
    e.models.attr_hook = RC_.attr_hook
    e.models.ext["kr8s.objects.get_class"] = get_class
    e.models.ext["kr8s.objects.new_class"] = new_class


api_config = Contract(RFP, "_prepare_api_config", params=params(**ENV, spec=crd.instance(*AN)), pre=fits_pre(("spec", AN, False)), cases=returns(api_post), setup=api_setup, opts={"soft": ("compile",), "join": True})

INLINE, TREF = ST + "InlineResourceTemplate", ST + "ResourceTemplateRef"


def template_post(cx):
    sp, r = cx.a["spec"], cx.res
    return [("a template, a reference to one, or a PermFail with a message", z3.Or(isa(r, INLINE, TREF), refused(r)))] + template_is(r, sp)


def template_is(r, sp):
    tm = lambda f: fld(f)(r)
    return [("the inline template is what the definition says", z3.Implies(isa(r, INLINE), z3.And(dom(sp)[kk("resource")], compiled_map(tm("template"), get(sp, "resource"))))),
            ("the template's name is what the definition says", z3.Implies(isa(r, TREF), z3.And(z3.Not(dom(sp)[kk("resource")]), dom(sp)[kk("resourceTemplateRef")], isa(tm("name"), CP.RUNNER), compiled(tm("name"), get(get(sp, "resourceTemplateRef"), "name")))))]


template = Contract(RFP, "_prepare_resource_template", params=params(**ENV, spec=crd.instance("ResourceFunction")), pre=fits_pre(("spec", ("ResourceFunction",), False)), cases=returns(template_post), opts={"soft": ("compile",)})


# ---------------------------------------------------------------------------------------------- ResourceFunction: overlays
INLOV, VFOV = ST + "InlineOverlay", ST + "ValueFunctionOverlay"
from . import wprepare as WPR
from .wprepare import wkey, in_cache, class_const
skip_of = lambda o: fld("skip_if")(o)


def over_is(o, it):
    """o is the prepared form of the overlay step written as it"""
    ref = get(it, "overlayRef")
    return [("an inline overlay is the one written", z3.Implies(isa(o, INLOV), z3.And(dom(it)[kk("overlay")], overlay_of(fld("overlay")(o), get(it, "overlay"))))),
            ("a function overlay is the one named", z3.Implies(isa(o, VFOV), z3.And(isa(fld("overlay")(o), VF), isa(ref, "dict"), dom(it)[kk("overlayRef")], fld("overlay")(o) == in_cache(class_const(VF), sv(get(ref, "name")))))),
            ("its inputs are what the definition says", z3.Implies(isa(o, VFOV), compiled_map(fld("inputs")(o), get(it, "inputs")))),
            ("skipped when its skipIf says so", z3.Implies(isa(o, INLOV, VFOV), compiled(skip_of(o), get(it, "skipIf"))))]


def over_knows(o, d):
    return [("every input it names is known", z3.And(z3.Implies(isa(o, INLOV, VFOV), known(skip_of(o), d)), z3.Implies(isa(o, INLOV), known(fld("values")(fld("overlay")(o)), d)), z3.Implies(isa(o, VFOV), known(fld("inputs")(o), d))))]


def over_watched(it, ws):
    ref = get(it, "overlayRef")
    return z3.Implies(z3.And(dom(it)[kk("overlayRef")], isa(ref, "dict")), dom(ws)[wkey(VF, sv(get(ref, "name")))])


def each(n, items, f, *pats):
    j = z3.Const("evj", I)
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(j)), patterns=[la(items)[j], *[p(j) for p in pats]])


def overs_so_far(items, out, d, ws, n):
    at = lambda j: la(out)[j]
    labels = [lb for lb, _ in over_is(items, items)]
    return [("one each", z3.And(isa(out, "list"), ln(out) == n)), ("an overlay, or an outcome with a message", each(n, items, lambda j: z3.Or(isa(at(j), INLOV, VFOV), z3.And(isa(at(j), *ERRORS), wf_outcome(at(j)), said(at(j)))), at)),
            ("every function named is watched", z3.And(is_set(ws), each(n, items, lambda j: over_watched(la(items)[j], ws))))] + \
        [(lb, each(n, items, lambda j, m=m: over_is(at(j), la(items)[j])[m][1], at)) for m, lb in enumerate(labels)] + \
        [("names are texts", tset(d)), ("every input they name is known", z3.And(is_set(d), each(n, items, lambda j: over_knows(at(j), d)[0][1], at)))]


def overs_inv(cx):
    items = cx.p("spec")
    return overs_so_far(items, cx.t("overlays"), cx.t("used_inputs"), cx.t("used_value_functions"), cx.i)


def overs_post(cx):
    items, r = cx.a["spec"], cx.res
    o, d, ws = (la(r)[i] for i in range(3))
    none = z3.Or(items == T.NoneV, ln(items) == 0)
    q = lambda f: z3.Implies(z3.Not(none), f)
    return [("nothing without overlays", z3.Implies(none, r == T.NoneV)), ("three results", q(z3.And(T.exact(r, "tuple"), ln(r) == 3))), ("an outcome or the overlays", q(z3.And(unwrapped(o), z3.Or(isa(o, *ERRORS), isa(o, "list"))))),
            ("an outcome that is not Ok says why", q(z3.Implies(isa(o, *NONOK), said(o)))), ("every function named is watched", q(z3.And(is_set(ws), each(ln(items), items, lambda j: over_watched(la(items)[j], ws))))), ("names", q(z3.And(is_set(d), tset(d))))] + \
        [(lb, q(z3.Implies(isa(o, "list"), f))) for lb, f in overs_so_far(items, o, d, ws, ln(items))]


overlays = Contract(RFP, "_prepare_overlays", params=params(**ENV, spec=crd.instance(*ON, nullable=True)), pre=fits_pre(("spec", ON, True)), cases=returns(overs_post), loops={0: Loop(overs_inv, keep=("compile", "lookup"))},
                    opts={"soft": ("compile", "lookup", "combine"), "join": True, "join_loops": True, "changes": ("spec",), "cost": 4})


# ---------------------------------------------------------------------------------------------- ResourceFunction
def rf_post(cx):
    sp, r = cx.a["spec"], cx.res
    fits, bad, out = refused_post(cx, "ResourceFunction")
    f, ws = la(r)[0], la(r)[1]
    w = lambda n: fld(n)(f)
    c = lambda n: fld(n)(w("crud_config"))
    d, items = w("dynamic_input_keys"), mp(sp)[kk("overlays")]
    ac = opt(sp, "apiConfig")
    flag = lambda key, dflt, x: z3.If(dom(ac)[kk(key)], x == get(ac, key), z3.And(isa(x, "bool"), iv(x) == (1 if dflt else 0)))
    n = z3.If(z3.And(dom(sp)[kk("overlays")], isa(items, "list")), ln(items), 0)
    o = c("overlays")
    tm = c("resource_template")
    made = z3.And(T.exact(r, "tuple"), ln(r) == 2, isa(f, RFN), isa(w("crud_config"), ST + "CRUDConfig"))
    ok = lambda lb, g: (lb, z3.Implies(z3.Not(isa(r, PERMFAIL)), g))
    over = [(lb, z3.Implies(n > 0, z3.Implies(isa(o, "list"), g))) for lb, g in overs_so_far(items, o, d, ws, n)]
    return out + [("a ResourceFunction, or a PermFail with a message", z3.Or(bad, made))] + [ok(lb, g) for lb, g in [
        ("under its name", w("name") == cx.a["cache_key"]),
        ("its preconditions are what the definition says", asserts(w("preconditions"), opt(sp, "preconditions"))), ("its postconditions are what the definition says", asserts(w("postconditions"), opt(sp, "postconditions"))),
        ("its locals are what the definition says", compiled_map(w("local_values"), opt(sp, "locals"))), ("its return is what the definition says", compiled_map(w("return_value"), opt(sp, "return"))),
        ("its API class is the declared one", api_is(c("resource_api"), ac)), ("its flags are the declared ones", z3.And(flag("owned", True, c("own_resource")), flag("readonly", False, c("readonly")), flag("deleteIfExists", False, c("delete_if_exists")))),
        ("its name and namespace are compiled", isa(c("resource_id"), CP.RUNNER)), ("a template or a reference to one", isa(tm, INLINE, TREF))] + template_is(tm, sp) +
        [("overlays or an outcome", z3.And(unwrapped(o), z3.Or(isa(o, *ERRORS), isa(o, "list")))), ("no overlays: none", z3.Implies(n == 0, z3.And(isa(o, "list"), ln(o) == 0)))] + over +
        [("every overlay function named is watched, prepared or not", z3.And(is_set(ws), z3.Implies(n > 0, each(n, items, lambda j: over_watched(la(items)[j], ws))))), ("a create policy", isa(c("create"), CREATE)), ("an update policy", isa(c("update"), *UPDATES))] +
        create_is(c("create"), opt(sp, "create")) + update_is(c("update"), opt(sp, "update")) + [("patch unless declared otherwise", z3.Implies(opt(sp, "update") == T.NoneV, isa(c("update"), UPDATES[0])))] +
        [("what workflows assume of it", prepared(f, RFN))] +
        [(f"every input its {lb} names is known", known(x, d)) for lb, x in (("preconditions", w("preconditions")), ("locals", w("local_values")), ("identity", c("resource_id")), ("postconditions", w("postconditions")), ("return", w("return_value")))] +
        [("every input its template names is known", z3.And(z3.Implies(isa(tm, INLINE), known(fld("template")(tm), d)), z3.Implies(isa(tm, TREF), known(fld("name")(tm), d)))),
         ("every input its create overlay names is known", z3.Implies(isa(fld("overlay")(c("create")), CP.OVERLAY), known(fld("values")(fld("overlay")(c("create"))), d)))]]


parts_used = [using(c, mark="compile") for c in (update, create, api_config, template, overlays)]
rf_prepare = Contract(RFP, "prepare_resource_function", params=params(cache_key=sym("str"), spec=crd.anything("ResourceFunction")), cases=returns(rf_post), opts={"soft": ("compile", "lookup"), "join": True, "changes": ("spec",), "cost": 6})


def setup(e):
    CP.setup(e)
    EX.setup(e)
    from . import payload as PL
    PL.setup(e)
    WPR.tset_axioms(e)
    e.extra_axioms.append(z3.Distinct([class_const(c) for c in WPR.FUNCS]))


CONTRACTS = [vf_prepare, rt_prepare, update, create, api_config, template, overlays, rf_prepare]
USES = [crd.validate, EX.extract, CP.encode, WPR.cached] + compile_used + parts_used + [c for c in WPR.USES if c.module == "koreo.result"]
