"""koreo/function_test/prepare.py: what a prepared FunctionTest is (C14, C18, C19, C20)."""
from .common import *
from . import crd, celprep as CP, extract as EX, cel_eval as CE, payload as PL, wprepare as WPR, fprepare as FP
from .celprep import overlay_of, refused
from .payload import MAP, kk, has
from .reconcile import using, soft
from .wprepare import get, in_cache, class_const, is_set
from .fprepare import opt, each, refused_post, known

MOD = "koreo.function_test.prepare"
FT = "koreo.function_test.structure."
TC = FT + "TestCase"
RF, VF = WPR.RF, WPR.VF
RES = WPR.RES
to_cel = FP.to_cel
CASE = ("FunctionTest", "testCases", "[]")
ASSERTIONS = (("expectResource", "ExpectResource", "resource"), ("expectOutcome", "ExpectOutcome", "outcome"), ("expectReturn", "ExpectReturn", "value"), ("expectDelete", "ExpectDelete", "expected"))
false = lambda t: z3.And(isa(t, "bool"), iv(t) == 0)
names = lambda r, cls, name: z3.And(isa(r, RES), fld("resource_type")(r) == class_const(cls), fld("name")(r) == name)

# ---------------------------------------------------------------------------------------------- the reference
KINDS = {"ValueFunction": VF, "ResourceFunction": RF}


def refers_to(r, sp):
    """r is the resource a functionRef names"""
    k = get(sp, "kind")
    return z3.And(isa(sp, "dict"), z3.Or([z3.And(isa(k, "str"), sv(k) == lit(n), names(r, c, get(sp, "name"))) for n, c in KINDS.items()]))


def ref_post(cx):
    sp, r = cx.a["spec"], cx.res
    return [("nothing when nothing is named", (r == T.NoneV) == z3.Not(T.truth(sp))), ("otherwise the function it names, or a PermFail with a message", z3.Implies(T.truth(sp), z3.Or(refused(r), refers_to(r, sp))))]


ref = Contract("koreo.ref_helpers", "function_ref_spec_to_resource", params=params(spec=sym(), location=sym("str")), cases=returns(ref_post))

# ---------------------------------------------------------------------------------------------- one case
given = lambda sp, key: z3.And(dom(sp)[kk(key)], mp(sp)[kk(key)] != T.NoneV)
OUTCOMES = (("skip", SKIP), ("depSkip", DEPSKIP), ("retry", RETRY), ("permFail", PERMFAIL))


def expects(o, sp):
    """o is the outcome written as expectOutcome: none for ok"""
    out = [("ok: none", z3.Implies(dom(sp)[kk("ok")], o == T.NoneV))]
    for key, c in OUTCOMES:
        d = mp(sp)[kk(key)]
        f = z3.And(isa(o, c), wf_outcome(o), sv(fld("message")(o)) == T.tostr(to_cel(mp(d)[kk("message")])))
        if key == "retry":
            n = mp(d)[kk("delay")]
            f = z3.And(f, z3.Implies(isa(n, "int"), iv(fld("delay")(o)) == iv(n)))
        out.append((f"{key}: that outcome with its message" + (" and delay" if key == "retry" else ""), z3.Implies(dom(sp)[kk(key)], f)))
    return out


def case_is(r, sp):
    """r is the prepared form of the test case written as sp"""
    f = lambda n: fld(n)(r)
    a = f("assertion")
    flag = lambda n: z3.If(dom(sp)[kk(n)], f(n) == get(sp, n), false(f(n)))
    io, lb = get(sp, "inputOverrides"), get(sp, "label")
    out = [("a variant when so declared", flag("variant")), ("skipped when so declared", flag("skip")),
           ("its overrides are those written", z3.If(T.truth(io), z3.And(f("input_overrides") == to_cel(io), isa(f("input_overrides"), MAP)), f("input_overrides") == T.NoneV)),
           ("its resource is the one written", f("current_resource") == get(sp, "currentResource")),
           ("its resource overlay is the one written", z3.If(get(sp, "overlayResource") == T.NoneV, f("resource_overlay") == T.NoneV, overlay_of(f("resource_overlay"), get(sp, "overlayResource")))),
           ("a label", isa(f("label"), "str")), ("its own unless it is a variant", z3.Implies(z3.And(T.truth(lb), z3.Not(T.truth(get(sp, "variant")))), sv(f("label")) == sv(lb))),
           ("exactly one assertion is written", z3.And(z3.Or([given(sp, k) for k, _, _ in ASSERTIONS]), *[z3.Not(z3.And(given(sp, k), given(sp, k2))) for i, (k, _, _) in enumerate(ASSERTIONS) for k2, _, _ in ASSERTIONS[i + 1:]]))]
    for key, c, field in ASSERTIONS:
        x = mp(sp)[kk(key)]
        is_c = isa(a, FT + c)
        if key == "expectOutcome":
            out.append((f"{key} is checked", z3.Implies(given(sp, key), is_c)))
            out += [(f"{key}: {lb}", z3.Implies(given(sp, key), g)) for lb, g in expects(fld(field)(a), x)]
        else:
            out.append((f"{key} is checked", z3.Implies(given(sp, key), z3.And(is_c, fld(field)(a) == x))))
    return out


def case_post(cx):
    r, sp = cx.res, cx.a["spec"]
    return [("a test case, or a PermFail with a message", z3.Or(refused(r), isa(r, TC)))] + [(lb, z3.Implies(isa(r, TC), g)) for lb, g in case_is(r, sp)] + \
        [("no resource is expected of a ValueFunction", z3.Implies(z3.And(isa(r, TC), z3.Not(T.truth(cx.a["resource_function"]))), z3.Not(z3.Or(given(sp, "expectResource"), given(sp, "expectDelete")))))]


def case_params(e, st):
    a = params(cel_env=sym("celpy.Environment"), spec=crd.instance(*CASE), idx=lambda e, st, n: e.sym(st, n, "int", exact=True), resource_function=sym("bool"))(e, st)
    # Koreo's own evaluation reads the same JSON: the integers of expectOutcome (the schema: retry.delay) fit 64 bits (known finding)
    e.models.note("known finding C20 function-test-int-overflow: integers of a FunctionTest fit 64 bits")
    return a


def ft_setup(e, st, args):
    CE.pred_params(e, st)


predicate_used = using(CE.predicate, mark="expectation")
case = Contract(MOD, "_prepare_test_case", params=case_params, pre=WPR.fits_pre(("spec", CASE, False)), cases=returns(case_post), setup=ft_setup, opts={"soft": ("compile", "expectation"), "changes": ("spec",), "join": True, "cost": 4})


# ---------------------------------------------------------------------------------------------- all cases
def cases_so_far(items, out, n, rf):
    at = lambda j: la(out)[j]
    labels = [lb for lb, _ in case_is(items, items)]
    return [("one each", z3.And(isa(out, "list"), ln(out) == n)), ("test cases", each(n, items, lambda j: isa(at(j), TC), at))] + [(lb, each(n, items, lambda j, m=m: case_is(at(j), la(items)[j])[m][1], at)) for m, lb in enumerate(labels)]


case_used = using(case, mark="compile")
cases_inv = lambda cx: cases_so_far(cx.p("spec"), cx.t("test_cases"), cx.i, None)


def cases_post(cx):
    items, r = cx.a["spec"], cx.res
    none = z3.Or(items == T.NoneV, ln(items) == 0)
    return [("the test cases, or a PermFail with a message", z3.Or(refused(r), isa(r, "list"))), ("none without cases", z3.Implies(none, z3.And(isa(r, "list"), ln(r) == 0)))] + \
        [(lb, z3.Implies(z3.And(z3.Not(none), isa(r, "list")), f)) for lb, f in cases_so_far(items, r, ln(items), cx.a["resource_function"])]


CASES = ("FunctionTest", "testCases")
cases = Contract(MOD, "_prepare_test_cases", params=params(cel_env=sym("celpy.Environment"), spec=crd.instance(*CASES, nullable=True), resource_function=sym("bool")), pre=WPR.fits_pre(("spec", CASES, True)),
                 cases=returns(cases_post), loops={0: Loop(cases_inv, keep=("compile",))}, opts={"soft": ("compile",), "changes": ("spec",), "join": True, "join_loops": True})


# ---------------------------------------------------------------------------------------------- templates
RT = FP.RT
TREF = FP.TREF
crud = lambda f: fld("crud_config")(f)
tmpl = lambda f: fld("resource_template")(crud(f))


def rf_known(f):
    """what its preparation establishes of a ResourceFunction, as far as needed here (fprepare.py)"""
    t = tmpl(f)
    return z3.And(isa(crud(f), FP.ST + "CRUDConfig"), isa(t, FP.INLINE, TREF), z3.Implies(isa(t, TREF), z3.And(isa(fld("name")(t), CP.RUNNER), isa(CP.ast_(fld("name")(t)), "lark.Tree"))),
                  z3.Or(fld("local_values")(f) == T.NoneV, isa(fld("local_values")(f), CP.RUNNER)))


def under_test(f):
    return z3.And(unwrapped(f), z3.Implies(isa(f, RF), rf_known(f)), isa(f, RF, VF, *NONOK))


def templates_listed(r):
    j = z3.Const("tlj", I)
    return z3.Or(r == T.NoneV, z3.And(isa(r, "list", "tuple"), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(r)), z3.And(isa(la(r)[j], RES), fld("resource_type")(la(r)[j]) == class_const(RT), isa(fld("name")(la(r)[j]), "str"))), patterns=[la(r)[j]])))


def locals_may_raise(cx):
    f = cx.a["function_under_test"]
    return z3.And(isa(f, RF), isa(tmpl(f), TREF), fld("local_values")(f) != T.NoneV)


def used_inv(cx):
    return [("names are texts", z3.And(T.exact(cx.t("templates_used"), "set"), WPR.tset(cx.t("templates_used"))))]


def test_case_list(e, st, n):
    x = e.sym(st, n, "list")
    j = z3.Const("tcj", I)
    st.add(cases_usable(x.t))
    return x


def cases_usable(t):
    j = z3.Const("tcj", I)
    io = fld("input_overrides")(la(t)[j])
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(t)), z3.And(isa(la(t)[j], TC), z3.Or(io == T.NoneV, isa(io, MAP)))), patterns=[la(t)[j]])


def check_pre(e, st, a):
    f, b, t = (e.to_v(st, a[n]) for n in ("function_under_test", "base_inputs", "test_cases"))
    return [("the function, or why there is none", under_test(f)), ("inputs", z3.Or(b == T.NoneV, isa(b, MAP))), ("test cases", z3.And(isa(t, "list"), cases_usable(t)))]


def check_cases(e, st, a):
    return [Case("returns", post=lambda cx: [("resources to watch", templates_listed(cx.res))]), Case("the locals of the function raise (known finding)", outcome="raise", exc=["Exception"], when=locals_may_raise)]


check = Contract(MOD, "_check_for_resource_template_ref", params=params(function_under_test=sym(), base_inputs=sym((MAP, "NoneType")), test_cases=test_case_list), pre=check_pre, cases=check_cases, loops={0: Loop(used_inv, keep=("eval", "pin"))},
                 opts={"soft": ("pin", "eval"), "join": True})


# ---------------------------------------------------------------------------------------------- the whole
def ft_post(cx):
    sp, r = cx.a["spec"], cx.res
    fits, bad, out = refused_post(cx, "FunctionTest")
    f, ws = la(r)[0], la(r)[1]
    w = lambda n: fld(n)(f)
    fut = w("function_under_test")
    fr = opt(sp, "functionRef")
    ins, items = opt(sp, "inputs"), opt(sp, "testCases")
    made = z3.And(T.exact(r, "tuple"), ln(r) == 2, isa(f, FT + "FunctionTest"), isa(ws, "list"))
    ok = lambda g: z3.Implies(z3.Not(isa(r, PERMFAIL)), g)
    n = z3.If(z3.And(dom(sp)[kk("testCases")], isa(mp(sp)[kk("testCases")], "list")), ln(mp(sp)[kk("testCases")]), 0)
    return out + [("a FunctionTest, or a PermFail with a message", z3.Or(bad, made))] + [(lb, ok(g)) for lb, g in [
        ("the function under test is watched, ready or not", z3.And(ln(ws) >= 1, refers_to(la(ws)[0], fr))),
        ("what is tested is that function, or an outcome which says why not", z3.Or(z3.And(isa(fut, *NONOK), wf_outcome(fut), said(fut)), *[z3.And(sv(get(fr, "kind")) == lit(n_), isa(fut, c), fut == in_cache(class_const(c), sv(get(fr, "name")))) for n_, c in KINDS.items()])),
        ("its inputs are those written", z3.If(T.truth(ins), z3.And(w("inputs") == to_cel(ins), isa(w("inputs"), MAP)), w("inputs") == T.NoneV)),
        ("its resource is the one written", w("initial_resource") == opt(sp, "currentResource")),
        ("no test cases: none", z3.Implies(n == 0, z3.And(isa(w("test_cases"), "list"), ln(w("test_cases")) == 0)))] +
        [(lb, z3.Implies(n > 0, g)) for lb, g in cases_so_far(mp(sp)[kk("testCases")], w("test_cases"), n, None)]]


def cached_cases(e, st, a):
    c, r = (lambda cx: cx.a["resource_class"]), (lambda cx: cx.res)
    return [Case("found or not", post=lambda cx: [("", z3.Or(r(cx) == T.NoneV, z3.And(isa(r(cx), *NONOK), wf_outcome(r(cx)), said(r(cx))), *[z3.And(c(cx) == class_const(k), isa(r(cx), k), under_test(r(cx)), r(cx) == in_cache(c(cx), sv(cx.a["cache_key"]))) for k in (RF, VF)]))])]


cached = Contract("koreo.cache", "get_resource_from_cache", opts={"mark": "lookup", "trusted": ["the cache holds, per kind, what that kind's preparation returned (C15): a prepared definition or an outcome with a message"]}, cases=cached_cases)


def prep_cases(e, st, a):
    return [Case("returns", post=ft_post), Case("the locals of the function raise (known finding)", outcome="raise", exc=["Exception"], when=lambda cx: z3.BoolVal(bool(soft(cx, "templates"))))]


check_used = using(check, mark="templates")
cases_used = using(cases, mark="compile")
ft_prepare = Contract(MOD, "prepare_function_test", params=params(cache_key=sym("str"), spec=crd.anything("FunctionTest")), cases=prep_cases, opts={"soft": ("compile", "lookup", "templates"), "changes": ("spec",), "join": True})


def setup(e):
    CP.setup(e)
    EX.setup(e)
    PL.setup(e)
    WPR.tset_axioms(e)
    e.extra_axioms.append(z3.Distinct([class_const(c) for c in (RF, VF, RT)]))


CONTRACTS = [ref, case, cases, check, ft_prepare]
USES = [crd.validate, EX.extract, cached, CE.evaluate, PL.overlay, predicate_used, case_used, cases_used, check_used] + [c for c in FP.compile_used if c.qual == "prepare_overlay_expression"]
