"""koreo/workflow/prepare.py: what a prepared Workflow is, which references it records and what it watches (C01, C02, C14, C20)."""
from .common import *
from . import crd, celprep as CP, extract as EX, result as RS, workflow as WF_
from .cel_eval import cel_eval, clean
from .celprep import compiled, compiled_map, refused, ast_
from .extract import refers, plain, path
from .payload import MAP, kk, has
from .reconcile import using, soft
from .workflow import RF, VF, WF, SW, FUNCS, STEP, ESTEP, FOREACH, CSPEC, WS, switch_ok, step_ok, step_result

MOD = "koreo.workflow.prepare"
RES = "koreo.registry.Resource"
KINDS = {"ValueFunction": VF, "ResourceFunction": RF, "Workflow": WF}
class_const = lambda c: z3.Const("class:" + c, V)
wkey = lambda c, name: z3.Function("kres", V, V, V, K)(class_const(c), z3.Function("kname", K, V)(T.kstr(name)), T.NoneV)
get = lambda t, name: z3.If(z3.And(dom(t)[kk(name)]), mp(t)[kk(name)], T.NoneV)
is_set = lambda t: T.exact(t, "set")
tset = z3.Function("text_set", V, B)                    # every member is a text
text_keys = lambda t, q=None: tset(t)
opt_text = lambda t: z3.Or(t == T.NoneV, isa(t, "str"))


def watches(rs, ref):
    """the set rs contains the resource a reference names"""
    return z3.And([z3.Implies(z3.And(isa(get(ref, "kind"), "str"), sv(get(ref, "kind")) == lit(n), isa(get(ref, "name"), "str"), sv(get(ref, "name")) != lit("")), z3.And(is_set(rs), dom(rs)[wkey(c, sv(get(ref, "name")))])) for n, c in KINDS.items()])


# ---------------------------------------------------------------------------------------------- dependencies
def cached_cases(e, st, a):
    c = lambda cx: cx.a["resource_class"]
    r = lambda cx: cx.res
    return [Case("found or not", post=lambda cx: [("", z3.Or(r(cx) == T.NoneV, z3.And(isa(r(cx), *NONOK), wf_outcome(r(cx))), *[z3.And(c(cx) == class_const(k), isa(r(cx), k), prepared(r(cx), k), r(cx) == in_cache(c(cx), sv(cx.a["cache_key"]))) for k in FUNCS]))])]


def prepared(r, k):
    """what its own preparation establishes of a resource, as far as needed here"""
    d = fld("dynamic_input_keys")(r)
    return z3.And(T.exact(d, "set"), tset(d))


cached = Contract("koreo.cache", "get_resource_from_cache", opts={"trusted": ["the cache holds, per kind, what that kind's preparation returned (C15)"]}, cases=cached_cases)


def ref_ok(t):
    return z3.And(T.exact(t, "dict"), opt_text(get(t, "kind")), opt_text(get(t, "name")))


def ref_param(e, st, n):
    x = e.sym(st, n, "dict", exact=True)
    st.add(ref_ok(x.t))
    return x


def loaded(l):
    return z3.And(isa(l, *FUNCS, *NONOK), z3.Implies(isa(l, *NONOK), wf_outcome(l)), *[z3.Implies(isa(l, k), prepared(l, k)) for k in FUNCS])


set_or_none = lambda t: z3.Or(t == T.NoneV, is_set(t))


def load_post(cx):
    rs, l = la(cx.res)[0], la(cx.res)[1]
    return [("two results", z3.And(T.exact(cx.res, "tuple"), ln(cx.res) == 2)), ("resources to watch", set_or_none(rs)), ("what the reference names is watched", watches(rs, cx.a["logic_ref"])),
            ("a prepared resource or an outcome with a message", z3.And(loaded(l), z3.Implies(isa(l, *NONOK), said(l)))), ("the resource is the one the reference names", z3.Or(isa(l, *NONOK), picks(l, cx.a["logic_ref"]))), ("a reference is never skipped", z3.Not(isa(l, DEPSKIP, SKIP)))]


load_pre = lambda e, st, a: [("a reference", ref_ok(e.to_v(st, a["logic_ref"])))]
load = Contract(MOD, "_load_logic", params=params(logic_ref=ref_param, location=sym("str")), pre=load_pre, cases=returns(load_post))


in_cache = z3.Function("in_cache", V, T.S, V)          # what the cache holds for a kind and name while one definition is prepared


def picks(l, ref):
    """l is the cached resource the reference names"""
    return z3.Or([z3.And(sv(get(ref, "kind")) == lit(n), isa(l, c), l == in_cache(class_const(c), sv(get(ref, "name")))) for n, c in KINDS.items()])


load_used = using(load)


# ---------------------------------------------------------------------------------------------- forEach
STEPN = ("Workflow", "steps", "[]")
names_all = lambda r, d: z3.ForAll([EX.X, EX.N], z3.Implies(z3.And(refers(ast_(r), EX.X, EX.N), plain(EX.N)), dom(d)[path(EX.X, EX.N)]), patterns=[refers(ast_(r), EX.X, EX.N)])
PARTS = ("type", "name")


def refused_step(s, label):
    """an ErrorStep which says why"""
    o = fld("outcome")(s)
    return z3.And(isa(s, ESTEP), isa(o, PERMFAIL), wf_outcome(o), said(o), fld("condition")(s) == T.NoneV, fld("state")(s) == T.NoneV, fld("label")(s) == label)


def foreach_post(cx):
    sp, r = cx.a["spec"], cx.res
    f, keys = la(r)[0], la(r)[1]
    src = fld("source_iterator")(f)
    made = z3.And(T.exact(r, "tuple"), ln(r) == 2, isa(f, FOREACH), isa(src, CP.RUNNER), compiled(src, get(sp, "itemIn")), isa(fld("input_key")(f), "str"), fld("input_key")(f) == get(sp, "inputKey"), is_set(keys))
    none = z3.Or(sp == T.NoneV, klen(sp) == 0)
    return [("nothing, an ErrorStep with a message, or the compiled forEach", z3.If(none, r == T.NoneV, z3.Or(refused_step(r, cx.a["step_label"]), made))),
            ("with every name its source refers to", z3.Implies(T.exact(r, "tuple"), z3.And(text_keys(keys), names_all(src, keys))))]


def fits_pre(*nodes):
    """(parameter, node path, nullable)"""
    def pre(e, st, a):
        out = []
        for p, path_, nullable in nodes:
            t = e.to_v(st, a[p])
            f = crd.fits(e, *path_)(t)
            out.append((f"{p} is as the schema says", z3.Or(t == T.NoneV, f) if nullable else f))
        return out
    return pre


FE = STEPN + ("forEach",)
for_each = Contract(MOD, "_prepare_for_each", params=params(cel_env=sym("celpy.Environment"), step_label=sym("str"), spec=crd.instance(*FE, nullable=True)), pre=fits_pre(("spec", FE, True)), cases=returns(foreach_post))

# ---------------------------------------------------------------------------------------------- refSwitch
SWN = STEPN + ("refSwitch",)
CASEN = SWN + ("cases", "[]")
cases_of = lambda sp: mp(sp)[kk("cases")]
case_n = lambda sp: z3.If(z3.And(dom(sp)[kk("cases")], isa(cases_of(sp), "list")), ln(cases_of(sp)), 0)
case_at = lambda sp, j: la(cases_of(sp))[j]
case_key = lambda sp, j: T.kstr(sv(get(case_at(sp, j), "case")))


def switch_spec(e, st, n):
    x = crd.instance(*SWN)(e, st, n)
    return x


def all_cases(sp, f, *pats):
    j = z3.Const("csj", I)
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < case_n(sp)), f(j)), patterns=[case_at(sp, j), *[p(j) for p in pats]])


def cases_chosen(sp, m, n):
    """the map m: a case per label among the first n, each the resource it names"""
    j, k = z3.Const("ccj", I), z3.Const("cck", K)
    return [("every case is in it", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), dom(m)[case_key(sp, j)]), patterns=[case_at(sp, j)])),
            ("nothing else, and each is what its case names", z3.ForAll([k], z3.Implies(dom(m)[k], z3.And(loaded(mp(m)[k]), z3.Not(isa(mp(m)[k], DEPSKIP, SKIP)), z3.Exists([j], z3.And(0 <= j, j < n, k == case_key(sp, j), z3.Or(isa(mp(m)[k], *NONOK), picks(mp(m)[k], case_at(sp, j))))))), patterns=[dom(m)[k]]))]


def switch_post(cx):
    sp, rs, l = cx.a["logic_switch"], la(cx.res)[0], la(cx.res)[1]
    k = z3.Const("spk", K)
    m = fld("logic_map")(l)
    made = [z3.And(isa(l, SW), switch_ok(l)), z3.And(isa(fld("switch_on")(l), CP.RUNNER), compiled(fld("switch_on")(l), get(sp, "switchOn")))]
    return [("two results", z3.And(T.exact(cx.res, "tuple"), ln(cx.res) == 2)), ("resources to watch", is_set(rs)), ("what every case names is watched", all_cases(sp, lambda j: watches(rs, case_at(sp, j)))),
            ("a switch or an outcome with a message", z3.Or(z3.And(isa(l, *ERRORS), wf_outcome(l)), made[0])), ("its switchOn is compiled", z3.Implies(isa(l, SW), made[1]))] + \
        [("switch: " + lb, z3.Implies(isa(l, SW), f)) for lb, f in cases_chosen(sp, m, case_n(sp))] + \
        [("every case of a switch is ready", z3.Implies(isa(l, SW), z3.ForAll([k], z3.Implies(dom(m)[k], z3.And(combined(cx, lambda seq: la(seq)[T.kidx(m, k)] == mp(m)[k]), isa(mp(m)[k], *FUNCS))), patterns=[dom(m)[k]])))]


def combined(cx, f):
    """about the sequence of outcomes combined (known where this contract is verified)"""
    ev = soft(cx, "combine") if getattr(cx, "kind", None) is not None else []
    return z3.And([f(v["outcomes"]) for v in ev]) if ev else z3.BoolVal(True)


def watch_inv(cx):
    sp, rs, src = cx.p("logic_switch"), cx.t("resources"), cx.src
    j = z3.Const("wj", I)
    return [("a set", is_set(rs)), ("what the cases so far name is watched", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), watches(rs, case_at(sp, j))), patterns=[case_at(sp, j), la(src)[j]]))]


def map_inv(cx):
    sp, m, d = cx.p("logic_switch"), cx.t("logic_map"), cx.eng.to_v(cx.st, cx.v("default_logic"))
    dk = cx.t("dynamic_input_keys")
    return [("a map", isa(m, "dict")), ("names", is_set(dk)), ("default", z3.Or(d == T.NoneV, z3.And(loaded(d), z3.Not(isa(d, DEPSKIP, SKIP)))))] + cases_chosen(sp, m, cx.i)


switch = Contract(MOD, "_load_logic_switch", params=params(cel_env=sym("celpy.Environment"), logic_switch=switch_spec, location=sym("str")), pre=fits_pre(("logic_switch", SWN, False)), cases=returns(switch_post),
                  loops={0: Loop(watch_inv), 1: Loop(map_inv)}, opts={"join": True, "soft": ("combine",)})


switch_used = using(switch)
for_each_used = using(for_each)

# ---------------------------------------------------------------------------------------------- one step
STEPS = lit("steps")
LABEL = "label"
label_at = lambda sp: get(sp, LABEL)
EXPRS = (("skipIf", "skip_if", compiled), ("inputs", "inputs", compiled_map), ("state", "state", compiled_map))


def recorded(r, d):
    """every step a compiled expression names is in d"""
    n = z3.Const("rcn", T.S)
    return z3.Implies(isa(r, CP.RUNNER), z3.ForAll([n], z3.Implies(z3.And(refers(ast_(r), STEPS, n), plain(n)), dom(d)[T.kstr(n)]), patterns=[refers(ast_(r), STEPS, n)]))


def watched(sp, rs):
    """everything the step names is in rs"""
    ref, sw = get(sp, "ref"), mp(sp)[kk("refSwitch")]
    return [("what its ref names is watched", z3.Implies(z3.And(dom(sp)[kk("ref")], T.exact(ref, "dict")), watches(rs, ref))),
            ("what every case names is watched", z3.Implies(z3.And(dom(sp)[kk("refSwitch")], T.exact(sw, "dict")), all_cases(sw, lambda j: watches(rs, case_at(sw, j)))))]


def prepared_step(sp, t, known):
    """t is the prepared form of the step sp, naming only steps in known"""
    k = z3.Const("psk", K)
    dyn, fe, lg = fld("dynamic_input_keys")(t), fld("for_each")(t), fld("logic")(t)
    srcs = [(n, fld(a)(t), z3.BoolVal(True)) for n, a, _ in EXPRS] + [("forEach", fld("source_iterator")(fe), isa(fe, FOREACH)), ("switchOn", fld("switch_on")(lg), isa(lg, SW))]
    ref, sw = get(sp, "ref"), get(sp, "refSwitch")
    return [("a prepared step under its label", z3.And(step_ok(t), fld(LABEL)(t) == label_at(sp)))] + \
        [(f"its {n} is what the definition says", rel(fld(a)(t), get(sp, n))) for n, a, rel in EXPRS] + \
        [("its logic is what the definition names", z3.If(isa(lg, SW), z3.And(isa(sw, "dict"), compiled(fld("switch_on")(lg), get(sw, "switchOn"))), picks(lg, ref))),
         ("its forEach is what the definition says", z3.If(get(sp, "forEach") == T.NoneV, fe == T.NoneV, z3.And(isa(fe, FOREACH), compiled(fld("source_iterator")(fe), get(get(sp, "forEach"), "itemIn"))))),
         ("its dependencies are earlier steps", z3.And(is_set(dyn), z3.ForAll([k], z3.Implies(dom(dyn)[k], dom(known)[k]), patterns=[dom(dyn)[k]])))] + \
        [(f"every step its {n} names is a dependency", z3.Implies(g, recorded(r, dyn))) for n, r, g in srcs]


def step_post(cx):
    sp, known = cx.a["step_spec"], cx.a["known_steps"]
    rs, t, par = la(cx.res)[0], la(cx.res)[1], la(cx.res)[2]
    return [("three results", z3.And(T.exact(cx.res, "tuple"), ln(cx.res) == 3)), ("resources to watch", set_or_none(rs)), ("names of the parent", is_set(par))] + watched(sp, rs) + \
        [("a step or an ErrorStep", z3.Or(isa(t, STEP), z3.And(isa(t, ESTEP), step_ok(t), isa(fld("outcome")(t), *ERRORS))))] + [(lb, z3.Implies(isa(t, STEP), f)) for lb, f in prepared_step(sp, t, known)]


def label_set(e, st, n):
    x = e.sym(st, n, "set", exact=True)
    st.add(tset(x.t))
    return x


def step_pre(e, st, a):
    return fits_pre(("step_spec", STEPN, False))(e, st, a) + [("labels", z3.And(T.exact(e.to_v(st, a["known_steps"]), "set"), tset(e.to_v(st, a["known_steps"]))))]


step = Contract(MOD, "_load_step", params=params(cel_env=sym("celpy.Environment"), step_spec=crd.instance(*STEPN), known_steps=label_set), pre=step_pre, cases=returns(step_post), opts={"join": True, "cost": 4})


# ---------------------------------------------------------------------------------------------- all steps
step_used = using(step)
STEPL = ("Workflow", "steps")
spec_key = lambda specs, j: T.kstr(sv(mp(la(specs)[j])[kk(LABEL)]))
dyn_of = lambda t: fld("dynamic_input_keys")(t)


def upto(n, specs, f, *pats):
    j = z3.Const("utj", I)
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(j)), patterns=[la(specs)[j], *[p(j) for p in pats]])


def earlier_label(specs, j, k):
    e = z3.Const("ele", I)
    return z3.Exists([e], z3.And(0 <= e, e < j, k == spec_key(specs, e)))


def steps_so_far(specs, out, rs, n):
    """the prepared forms of the first n steps"""
    j, j2, k = z3.Const("sfj", I), z3.Const("sfl", I), z3.Const("sfk", K)
    at = lambda j: la(out)[j]
    is_step = lambda j, f: z3.Implies(isa(at(j), STEP), f)
    labels = [lb for lb, _ in prepared_step(specs, specs, specs)]
    part = lambda m: lambda j: is_step(j, prepared_step(la(specs)[j], at(j), specs)[m][1])
    return [("one each", z3.And(isa(out, "list"), ln(out) == n)), ("what every step names is watched", z3.And(is_set(rs), upto(n, specs, lambda j: z3.And([f for _, f in watched(la(specs)[j], rs)])))),
            ("steps and ErrorSteps", upto(n, specs, lambda j: z3.And(step_ok(at(j)), z3.Implies(isa(at(j), ESTEP), isa(fld("outcome")(at(j)), *ERRORS))), at))] + \
        [("every step: " + lb, upto(n, specs, part(m), at)) for m, lb in enumerate(labels) if lb != "its dependencies are earlier steps"] + \
        [("every dependency is an earlier step", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < n, isa(at(j), STEP), dom(dyn_of(at(j)))[k]), earlier_label(specs, j, k)), patterns=[dom(dyn_of(at(j)))[k]])),
         ("a label used again is an ErrorStep", z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < n, spec_key(specs, j) == spec_key(specs, j2)), isa(at(j2), ESTEP)), patterns=[z3.MultiPattern(la(specs)[j], at(j2))]))]


def steps_inv(cx):
    specs, known, out, rs, par = cx.p("steps_spec"), cx.t("known_steps"), cx.t("step_outcomes"), cx.t("resources"), cx.t("parent_properties")
    k = z3.Const("sik", K)
    return [("labels", z3.And(is_set(known), tset(known))), ("the labels so far", upto(cx.i, specs, lambda j: dom(known)[spec_key(specs, j)])), ("nothing else", z3.ForAll([k], z3.Implies(dom(known)[k], earlier_label(specs, cx.i, k)), patterns=[dom(known)[k]])),
            ("names of the parent", is_set(par))] + steps_so_far(specs, out, rs, cx.i)


def steps_post(cx):
    specs, r = cx.a["steps_spec"], cx.res
    rs, out, o, par = la(r)[0], la(r)[1], la(r)[2], la(r)[3]
    j = z3.Const("spj", I)
    ready = lambda f: z3.Implies(isa(o, OK), f)
    return [("four results", z3.And(T.exact(r, "tuple"), ln(r) == 4)), ("names of the parent", is_set(par)), ("an outcome", z3.And(wf_outcome(o), isa(o, OK, *ERRORS), z3.Implies(isa(o, OK), fld("data")(o) == T.NoneV))),
            ("ready only when every step is", ready(upto(ln(specs), specs, lambda j: isa(la(out)[j], STEP), lambda j: la(out)[j])))] + steps_so_far(specs, out, rs, ln(specs))


steps = Contract(MOD, "_load_steps", params=params(cel_env=sym("celpy.Environment"), steps_spec=crd.instance(*STEPL)), pre=fits_pre(("steps_spec", STEPL, False)), cases=returns(steps_post), loops={0: Loop(steps_inv)}, opts={"join": True, "soft": ("combine",), "cost": 3})


# ---------------------------------------------------------------------------------------------- the Workflow
steps_used = using(steps, mark="load")
CRD = WS + "ConfigCRDRef"
crd_ref = Contract(MOD, "_build_crd_ref", params=params(crd_ref_spec=sym("dict", exact=True)), cases=returns(lambda cx: [("nothing, or a reference", isa(cx.res, "NoneType", CRD))]))


def watched_tuple(ws, name_key):
    i = z3.Const("wti", I)
    return z3.Exists([i], z3.And(0 <= i, i < ln(ws), T.key(la(ws)[i]) == name_key))


def tuple_watches(ws, ref):
    """the sequence ws contains the resource a reference names"""
    return z3.And([z3.Implies(z3.And(isa(get(ref, "kind"), "str"), sv(get(ref, "kind")) == lit(n), isa(get(ref, "name"), "str"), sv(get(ref, "name")) != lit("")), watched_tuple(ws, wkey(c, sv(get(ref, "name"))))) for n, c in KINDS.items()])


def workflow_cases(e, st, a):
    fits = crd.fits(e, "Workflow")

    def refused(cx):
        return [("only a spec the schema rejects", z3.Not(fits(cx.a["spec"]))), ("a PermFail with a message", z3.And(isa(cx.res, PERMFAIL), wf_outcome(cx.res), said(cx.res)))]

    def made(cx):
        sp, r = cx.a["spec"], cx.res
        w, ws = la(r)[0], la(r)[1]
        specs = mp(sp)[kk("steps")]
        out, o = fld("steps")(w), fld("steps_ready")(w)
        n = ln(specs)
        j, k = z3.Const("wcj", I), z3.Const("wck", K)
        ready = lambda f: z3.Implies(isa(o, OK), f)
        ref = lambda j: get(la(specs)[j], "ref")
        sw = lambda j: mp(la(specs)[j])[kk("refSwitch")]
        dyn = dyn_of(la(out)[j])
        body = [x for x in steps_so_far(specs, out, specs, n) if x[0].startswith("every step: ")]
        return [("only a spec the schema accepts", fits(sp)), ("a Workflow and what it watches", z3.And(T.exact(r, "tuple"), ln(r) == 2, isa(w, WF), isa(ws, "tuple"))),
                ("under its name", fld("name")(w) == cx.a["cache_key"]), ("an outcome", z3.And(wf_outcome(o), isa(o, OK, *ERRORS), isa(out, "list", "tuple"))),
                ("what every step names is watched", upto(n, specs, lambda j: z3.Implies(z3.And(dom(la(specs)[j])[kk("ref")], T.exact(ref(j), "dict")), tuple_watches(ws, ref(j))))),
                ("what every case names is watched", upto(n, specs, lambda j: z3.Implies(z3.And(dom(la(specs)[j])[kk("refSwitch")], T.exact(sw(j), "dict")), all_cases(sw(j), lambda c: tuple_watches(ws, case_at(sw(j), c)))))),
                ("one prepared step per step", z3.And(ready(z3.And(n > 0, ln(out) == n)))),
                ("ready: every step is prepared", ready(upto(n, specs, lambda j: z3.And(isa(la(out)[j], STEP), step_ok(la(out)[j])), lambda j: la(out)[j]))),
                ("ready: distinct labels", ready(z3.ForAll([j, z3.Const("wcl", I)], z3.Implies(z3.And(0 <= j, j < z3.Const("wcl", I), z3.Const("wcl", I) < n), sv(fld(LABEL)(la(out)[j])) != sv(fld(LABEL)(la(out)[z3.Const("wcl", I)]))),
                                                            patterns=[z3.MultiPattern(la(out)[j], la(out)[z3.Const("wcl", I)])]))),
                ("ready: every dependency is an earlier step", ready(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < n, dom(dyn)[k]), WF_earlier(out, j, k)), patterns=[dom(dyn)[k]])))] + \
            [(lb, ready(f)) for lb, f in body]
    return [Case("refused", post=refused), Case("prepared", events=[("load", [])], post=made)]


def WF_earlier(out, j, k):
    e = z3.Const("wfe", I)
    return z3.Exists([e], z3.And(0 <= e, e < j, k == WF_.skey(out, e)))


workflow = Contract(MOD, "prepare_workflow", params=params(cache_key=sym("str"), spec=crd.anything("Workflow")), cases=workflow_cases, opts={"join": True, "soft": ("combine",), "cost": 2})


def mapped_axiom(e):
    r, i, s = z3.Consts("mxr mxi mxs", V)
    e.models.note("an expression encoded from a mapping evaluates to a CEL map (C11, explored)")
    e.extra_axioms.append(z3.ForAll([r, i, s], z3.Implies(z3.And(isa(s, "dict"), ast_(r) == CP.parsed(CP.encoded(s)), clean(cel_eval(r, i))), isa(cel_eval(r, i), MAP)), patterns=[z3.MultiPattern(cel_eval(r, i), CP.encoded(s))]))


def tset_axioms(e):
    d, k = z3.Const("tsd", V), z3.Const("tsk", K)
    w = z3.Function("text_set_w", V, K)
    e.extra_axioms += [z3.ForAll([d, k], z3.Implies(z3.And(tset(d), dom(d)[k]), T.kkind(k) == 0), patterns=[z3.MultiPattern(tset(d), dom(d)[k])]),
                       z3.ForAll([d], z3.Implies(z3.Not(tset(d)), z3.And(dom(d)[w(d)], T.kkind(w(d)) != 0)), patterns=[tset(d)])]


def setup(e):
    tset_axioms(e)
    mapped_axiom(e)
    WF_.setup(e)
    CP.setup(e)
    EX.setup(e)


CONTRACTS = [load, for_each, switch, step, steps, crd_ref, workflow]
USES = [crd.validate, steps_used, cached, load_used, for_each_used, switch_used, step_used, CP.expression, CP.map_expression, EX.extract] + [c for c in RS.CONTRACTS if c.qual != "unwrapped_combine"] + [WF_.combine_used]
