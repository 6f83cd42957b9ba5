"""koreo/function_test/run.py: when does a test case pass (C19), what does a case leave behind (C18)."""
from .common import *
from . import validate as VM
from .validate import has, listy, objl, titems, named, map_fields, directive, SETK, MAPK, AS_LAST

MOD = "koreo.function_test.run"
same = z3.Function("same_object", V, V, B, B)          # same_object(expected, actual, as set)
usable = z3.Function("comparable", V, V, B)            # directives of the expectation are usable on the actual value, at every depth
l2o = z3.Function("keyed_object", V, V, V)            # what _list_to_object returns
setsame = z3.Function("same_set", V, V, B)
FALSE = z3.BoolVal(False)


def is_dir(k):
    return z3.Or(k == AS_LAST, k == SETK, k == MAPK)


def fields(t, k):
    return titems(mp(mp(t)[MAPK])[k])


def field_same(t, a, k):
    """field k, if either has it, is in both and the same"""
    F = fields(t, k)
    tv, av = mp(t)[k], mp(a)[k]
    return z3.And(has(t, k) == has(a, k),
                  z3.Implies(has(t, k), z3.If(map_fields(t, k), same(l2o(tv, F), l2o(av, F), FALSE), same(tv, av, directive(t, SETK, k)))))


def leaf(t, a):
    return z3.If(z3.Or(isa(t, "bool"), isa(a, "bool")), z3.And(isa(t, "bool"), isa(a, "bool"), iv(t) == iv(a)), T.pyeq(t, a))


def hashable(x):
    return z3.Not(isa(x, "dict", "list", "set"))


def axioms(e):
    if getattr(e, "_ftrun_ax", False):
        return
    e._ftrun_ax = True
    t, a, s, k, i, j, F = z3.Const("ft", V), z3.Const("fa", V), z3.Const("fs", B), z3.Const("fk", K), z3.Const("fi", I), z3.Const("fj", I), z3.Const("fF", V)
    wk, wi = z3.Function("same_wk", V, V, K), z3.Function("same_wi", V, V, I)
    c = same(t, a, s)
    dd, ll = z3.And(isa(t, "dict"), isa(a, "dict")), z3.And(listy(t), listy(a))
    fs = lambda k: z3.Or(is_dir(k), field_same(t, a, k))
    itm = lambda i: z3.Implies(z3.And(0 <= i, i < ln(t)), same(la(t)[i], la(a)[i], FALSE))
    A = e.extra_axioms
    A += [
        z3.ForAll([t, a, s, k], z3.Implies(z3.And(c, dd), fs(k)), patterns=[z3.MultiPattern(c, dom(t)[k]), z3.MultiPattern(c, dom(a)[k])]),
        z3.ForAll([t, a, s], z3.Implies(z3.And(dd, z3.Not(c)), z3.Not(fs(wk(t, a)))), patterns=[c]),
        z3.ForAll([t, a, s, i], z3.Implies(z3.And(c, ll, z3.Not(s)), itm(i)), patterns=[z3.MultiPattern(c, la(t)[i])]),
        z3.ForAll([t, a, s], z3.Implies(z3.And(c, ll, z3.Not(s)), ln(t) == ln(a)), patterns=[c]),
        z3.ForAll([t, a, s], z3.Implies(z3.And(ll, z3.Not(s), z3.Not(c)), z3.Or(ln(t) != ln(a), z3.Not(itm(wi(t, a))))), patterns=[c]),
        z3.ForAll([t, a, s], z3.Implies(z3.And(ll, s), c == setsame(t, a)), patterns=[c]),
        z3.ForAll([t, a, s], z3.Implies(z3.Or(isa(t, "dict") != isa(a, "dict"), z3.And(z3.Not(isa(t, "dict")), z3.Not(isa(a, "dict")), listy(t) != listy(a))), z3.Not(c)), patterns=[c]),
        z3.ForAll([t, a, s], z3.Implies(z3.Not(z3.Or(isa(t, "dict"), isa(a, "dict"), listy(t), listy(a))), c == leaf(t, a)), patterns=[c]),
    ]
    # the same members of set-directed lists, by Python's equality (known finding: true equals 1 there)
    f1, f2 = z3.Function("setsame_f1", V, V, I, I), z3.Function("setsame_f2", V, V, I, I)
    u1, u2, w1, w2 = (z3.Function("setsame_" + n, V, V, I) for n in ("u1", "u2", "w1", "w2"))
    inn = lambda t, i: z3.And(0 <= i, i < ln(t))
    ss = setsame(t, a)
    un = lambda: [z3.And(inn(t, u1(t, a)), z3.Not(hashable(la(t)[u1(t, a)]))), z3.And(inn(a, u2(t, a)), z3.Not(hashable(la(a)[u2(t, a)])))]
    A += [
        z3.ForAll([t, a, i], z3.Implies(z3.And(ss, inn(t, i)), z3.And(hashable(la(t)[i]), inn(a, f1(t, a, i)), T.key(la(a)[f1(t, a, i)]) == T.key(la(t)[i]))), patterns=[z3.MultiPattern(ss, la(t)[i])]),
        z3.ForAll([t, a, i], z3.Implies(z3.And(ss, inn(a, i)), z3.And(hashable(la(a)[i]), inn(t, f2(t, a, i)), T.key(la(t)[f2(t, a, i)]) == T.key(la(a)[i]))), patterns=[z3.MultiPattern(ss, la(a)[i])]),
        z3.ForAll([t, a], z3.Or(ss, *un(), inn(t, w1(t, a)), inn(a, w2(t, a))), patterns=[ss]),
        z3.ForAll([t, a], z3.Or(ss, *un(),
                                z3.And(inn(t, w1(t, a)), z3.ForAll([j], z3.Implies(inn(a, j), T.key(la(a)[j]) != T.key(la(t)[w1(t, a)])), patterns=[la(a)[j]])),
                                z3.And(inn(a, w2(t, a)), z3.ForAll([j], z3.Implies(inn(t, j), T.key(la(t)[j]) != T.key(la(a)[w2(t, a)])), patterns=[la(t)[j]]))), patterns=[ss]),
    ]
    # directives have the documented shape; what is compared as a map are lists of objects
    u = usable(t, a)
    td = z3.And(u, isa(t, "dict"))
    strs = lambda x, i: z3.Implies(z3.And(0 <= i, i < ln(x)), isa(la(x)[i], "str"))
    both = z3.And(td, isa(a, "dict"), has(t, k), has(a, k), z3.Not(is_dir(k)))
    A += [
        z3.ForAll([t, a], z3.Implies(z3.And(td, has(t, SETK)), listy(mp(t)[SETK])), patterns=[z3.MultiPattern(u, mp(t)[SETK])]),
        z3.ForAll([t, a], z3.Implies(z3.And(td, has(t, MAPK)), isa(mp(t)[MAPK], "dict")), patterns=[z3.MultiPattern(u, mp(t)[MAPK])]),
        z3.ForAll([t, a, i], z3.Implies(z3.And(td, has(t, SETK)), strs(mp(t)[SETK], i)), patterns=[z3.MultiPattern(u, la(mp(t)[SETK])[i])]),
        z3.ForAll([t, a, k], z3.Implies(z3.And(td, has(t, MAPK), has(mp(t)[MAPK], k)), z3.And(T.kkind(k) == 0, listy(mp(mp(t)[MAPK])[k]))), patterns=[z3.MultiPattern(u, dom(mp(t)[MAPK])[k])]),
        z3.ForAll([t, a, k, i], z3.Implies(z3.And(td, has(t, MAPK), has(mp(t)[MAPK], k)), strs(mp(mp(t)[MAPK])[k], i)), patterns=[z3.MultiPattern(u, la(mp(mp(t)[MAPK])[k])[i])]),
        z3.ForAll([t, a, k], z3.Implies(z3.And(both, z3.Not(map_fields(t, k))), usable(mp(t)[k], mp(a)[k])), patterns=[z3.MultiPattern(u, mp(t)[k])]),
        z3.ForAll([t, a, k], z3.Implies(z3.And(both, map_fields(t, k)), z3.And(objl(mp(t)[k]), objl(mp(a)[k]), usable(l2o(mp(t)[k], fields(t, k)), l2o(mp(a)[k], fields(t, k))))), patterns=[z3.MultiPattern(u, mp(t)[k])]),
        z3.ForAll([t, a, i], z3.Implies(z3.And(u, listy(t), listy(a), 0 <= i, i < ln(t), i < ln(a)), usable(la(t)[i], la(a)[i])), patterns=[z3.MultiPattern(u, la(t)[i])]),
        # keyed lists are objects (this module: also when empty)
        z3.ForAll([t, F], T.exact(l2o(t, F), "dict"), patterns=[l2o(t, F)]),
    ]


def names_axioms(e):
    """object lists and directive names, as in validate.py"""
    if getattr(e, "_ftnames_ax", False) or getattr(e, "_validate_ax", False):
        return
    e._ftnames_ax = True
    t, i, k = z3.Const("nt", V), z3.Const("ni", I), z3.Const("nk", K)
    wo, wn = z3.Function("object_list_w", V, I), z3.Function("names_w", V, K, I)
    e.extra_axioms += [
        z3.ForAll([t, i], z3.Implies(objl(t), z3.And(listy(t), z3.Implies(z3.And(0 <= i, i < ln(t)), isa(la(t)[i], "dict")))), patterns=[z3.MultiPattern(objl(t), la(t)[i])]),
        z3.ForAll([t], z3.Implies(objl(t), listy(t)), patterns=[objl(t)]),
        z3.ForAll([t], z3.Or(objl(t), z3.Not(listy(t)), z3.And(0 <= wo(t), wo(t) < ln(t), z3.Not(isa(la(t)[wo(t)], "dict")))), patterns=[objl(t)]),
        z3.ForAll([t, k], z3.Implies(named(t, k), z3.And(0 <= wn(t, k), wn(t, k) < ln(t), k == T.key(la(t)[wn(t, k)]), T.truth(la(t)[wn(t, k)]))), patterns=[named(t, k)]),
        z3.ForAll([t, i, k], z3.Implies(z3.And(0 <= i, i < ln(t), k == T.key(la(t)[i]), T.truth(la(t)[i])), named(t, k)), patterns=[z3.MultiPattern(la(t)[i], named(t, k))]),
    ]


def setup(e):
    from . import payload as PL
    n = len(e.extra_axioms)
    PL.setup(e)
    e.axiom_groups["payload"] = e.extra_axioms[n:]
    axioms(e)
    names_axioms(e)
    text_axioms(e)


# ---------------------------------------------------------------------------------------------- the comparator
RM = MOD + ".ResourceMatch"


def vm_post(rel):
    def post(cx):
        r = cx.res
        m = fld("match")(r)
        goal, D = (iv(m) == 1) == rel(cx), fld("differences")(r)
        if getattr(cx, "kind", None) is not None:      # name the first difference, if any
            first = z3.Implies(klen(D) > 0, has(D, T.key(T.kat(D, 0))))
            goal = z3.If(z3.And(isa(D, "dict"), T.exact(D, "dict")), z3.And(first, z3.Implies(first, goal)), goal)
        return [("a ResourceMatch", z3.And(isa(r, RM), isa(m, "bool"))), ("match exactly when it is the same", goal)]
    return post


def pre_usable(e, st, a):
    return [("directives are usable", usable(e.to_v(st, a["target"]), e.to_v(st, a["actual"])))]


vmatch = Contract(MOD, "_validate_match", params=params(target=sym(), actual=sym(), compare_list_as_set=VM.bool_param), pre=pre_usable,
                  cases=returns(vm_post(lambda cx: same(cx.a["target"], cx.a["actual"], VM.as_set(cx)))), opts={"frame": False})


def dict_inv(n):
    def inv(cx):
        e = cx.eng
        t, a = cx.p("target"), cx.p("actual")
        D = cx.t("differences")
        k = z3.Const("xk", K)
        th, ah = z3.And(has(t, k), z3.Not(is_dir(k))), z3.And(has(a, k), z3.Not(is_dir(k)))
        seen = z3.And(has(cx.src, k), T.kidx(cx.src, k) < cx.i)
        miss, unexp, both = z3.And(th, z3.Not(ah)), z3.And(ah, z3.Not(th)), z3.And(th, ah)
        bad = [z3.And(seen, miss), z3.Or(miss, z3.And(seen, unexp)), z3.Or(miss, unexp, z3.And(seen, both, z3.Not(field_same(t, a, k))))][n]
        return [("differences so far", z3.ForAll([k], has(D, k) == bad, patterns=[has(D, k), has(cx.src, k), has(t, k), has(a, k)])), ("differences is a map", T.exact(D, "dict"))]
    return inv


def ground(e, st, a):
    t = e.to_v(st, a["target"])
    return [("the set directive is a list", z3.Implies(has(t, SETK), listy(mp(t)[SETK]))), ("the map directive is an object", z3.Implies(has(t, MAPK), isa(mp(t)[MAPK], "dict")))]


vdict = Contract(MOD, "_validate_dict_match", params=params(target=sym("dict"), actual=sym("dict")),
                 pre=lambda e, st, a: pre_usable(e, st, a) + ground(e, st, a) + [("both are mappings", z3.And(isa(e.to_v(st, a["target"]), "dict"), isa(e.to_v(st, a["actual"]), "dict")))],
                 cases=returns(vm_post(lambda cx: same(cx.a["target"], cx.a["actual"], FALSE))), loops={n: Loop(dict_inv(n)) for n in range(3)}, opts={"frame": False, "cost": 5, "without": ["payload"]})


def list_inv(cx):
    t, a = cx.p("target"), cx.p("actual")
    j = z3.Const("xj", I)
    hd = cx.v("has_differences")
    hd = hd.t if isinstance(hd, BV) else z3.BoolVal(bool(hd.x)) if isinstance(hd, C) else iv(cx.t("has_differences")) == 1
    
    return [("no difference so far: items so far are the same", z3.Implies(z3.Not(hd), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), same(la(t)[j], la(a)[j], FALSE)), patterns=[la(t)[j]]))),
            ("a difference: one of the items so far differs", z3.Implies(hd, z3.Exists([j], z3.And(0 <= j, j < cx.i, z3.Not(same(la(t)[j], la(a)[j], FALSE))))))]


vlist = Contract(MOD, "_validate_list_match", params=params(target=sym(("list", "tuple")), actual=sym(("list", "tuple"))), pre=lambda e, st, a: pre_usable(e, st, a) + VM.lists(e, st, a),
                 cases=returns(vm_post(lambda cx: same(cx.a["target"], cx.a["actual"], FALSE))), loops={0: Loop(list_inv)}, opts={"frame": False})
vset = Contract(MOD, "_validate_set_match", params=params(target=sym(("list", "tuple")), actual=sym(("list", "tuple"))), pre=VM.lists,
                cases=returns(vm_post(lambda cx: setsame(cx.a["target"], cx.a["actual"]))))


def l2o_post(cx):
    x, F, r = cx.a["obj_list"], cx.a["key_fields"], cx.res
    i = z3.Const("mi_", I)
    if getattr(cx, "kind", None) is None:
        return [("", r == l2o(x, F))]
    w0, k0 = z3.Const("mi0", I), z3.Const("mk0", K)
    return [("an object", T.exact(r, "dict")),
            ("every item is found under its key", z3.Implies(z3.And(0 <= w0, w0 < ln(x), la(x)[w0] == la(x)[w0]), dom(r)[T.kstr(VM.okey(la(x)[w0], F))])),
            ("every entry is an item with that key", z3.Implies(dom(r)[k0], z3.Exists([i], z3.And(0 <= i, i < ln(x), mp(r)[k0] == la(x)[i], k0 == T.kstr(VM.okey(la(x)[i], F))))))]


list_to_object = Contract(MOD, "_list_to_object", params=params(obj_list=sym(("list", "tuple")), key_fields=sym("list")),
                          pre=lambda e, st, a: [("a list of objects", objl(e.to_v(st, a["obj_list"])))], cases=returns(l2o_post))
obj_to_key = Contract(MOD, "_obj_to_key", params=params(obj=sym("dict"), fields=sym("list")), pre=lambda e, st, a: [("an object", isa(e.to_v(st, a["obj"]), "dict"))], cases=returns(VM.okey_post),
                      opts={"trusted": ["_obj_to_key is a function of its arguments"]})


# ---------------------------------------------------------------------------------------------- the assertions
META, ANNO, LASTAPP = T.kstr(lit("metadata")), T.kstr(lit("annotations")), T.kstr(lit("koreo.dev/last-applied-configuration"))
TCR = MOD + ".TestCaseResult"
unann = z3.Function("without_last_applied", V, V)       # what _strip_last_applied_annotation returns
lower = z3.Function("str_lower", T.S, T.S)


def annotated_ok(o):
    """annotations, if any, are those of an object Koreo sent: the last applied one is among them"""
    m, a = mp(o)[META], mp(mp(o)[META])[ANNO]
    return z3.Implies(z3.And(isa(o, "dict"), has(o, META)), z3.And(isa(m, "dict"), z3.Implies(has(m, ANNO), z3.And(isa(a, "dict"), z3.Or(klen(a) == 0, has(a, LASTAPP))))))


def strip_post(cx):
    o, r = cx.a["actual"], cx.res
    if getattr(cx, "kind", None) is None:
        return [("", r == unann(o))]
    k = cx.eng.fresh(K, "k")
    m, a, rm, ra = mp(o)[META], mp(mp(o)[META])[ANNO], mp(r)[META], mp(mp(r)[META])[ANNO]
    noted = z3.And(isa(o, "dict"), has(o, META), has(m, ANNO), klen(a) > 0)
    one = klen(a) == 1
    at = lambda x, y, k: z3.And(has(x, k) == has(y, k), z3.Implies(has(x, k), mp(x)[k] == mp(y)[k]))
    return [("nothing to leave out: the object itself", z3.Implies(z3.Not(noted), r == o)),
            ("still an object with metadata", z3.Implies(noted, z3.And(isa(r, "dict"), has(r, META), isa(rm, "dict")))),
            ("every other field stays", z3.Implies(z3.And(noted, k != META), at(r, o, k))),
            ("all other metadata stays", z3.Implies(z3.And(noted, k != ANNO), at(rm, m, k))),
            ("no annotations left: none", z3.Implies(z3.And(noted, one), z3.Not(has(rm, ANNO)))),
            ("others left: those", z3.Implies(z3.And(noted, z3.Not(one)), z3.And(has(rm, ANNO), isa(ra, "dict"), z3.If(k == LASTAPP, z3.Not(has(ra, k)), at(ra, a, k)))))]


strip = Contract(MOD, "_strip_last_applied_annotation", params=params(actual=sym(("dict", "NoneType"))),
                 pre=lambda e, st, a: [("annotations are those of an object Koreo sent", annotated_ok(e.to_v(st, a["actual"])))], cases=returns(strip_post))


def passes(cx):
    return iv(fld("test_pass")(cx.res)) == 1


def verdict(f):
    def post(cx):
        return [("a verdict", z3.And(isa(cx.res, TCR), isa(fld("test_pass")(cx.res), "bool")))] + f(cx)
    return post


def is_ok(t):
    return z3.Not(isa(t, *NONOK))


def native(e, x, v):
    from . import payload as PL
    return PL.conv(x, v)


def return_post(cx):
    exp, act, got = cx.a["expected"], cx.a["actual"], fld("outcome")(cx.res)
    return [("only an Ok result passes", z3.Implies(z3.Not(is_ok(act)), z3.Not(passes(cx)))),
            ("Ok: its value in plain types is what is compared", z3.Implies(is_ok(act), native(cx.eng, got, act))),
            ("Ok: passes exactly if it is the same as expected", z3.Implies(is_ok(act), passes(cx) == same(exp, got, FALSE)))]


def return_pre(e, st, a):
    from . import payload as PL
    x = z3.Const("rx", V)
    exp, act = e.to_v(st, a["expected"]), e.to_v(st, a["actual"])
    return [("directives are usable on the result", z3.ForAll([x], z3.Implies(PL.conv(x, act), usable(exp, x)), patterns=[PL.conv(x, act)])), ("results are keyed by plain keys", PL.keysok(act)),
            ("a value or a well-formed outcome", unwrapped(act))]


vreturn = Contract(MOD, "_validate_return_match", params=params(expected=sym(("dict", "NoneType")), actual=sym()), pre=return_pre, cases=returns(verdict(return_post)), opts={"mark": "by_return", "soft": ("native",)})


def resource_post(cx):
    exp, mat, out = cx.a["expected"], cx.a["materialized"], cx.a["actual_outcome"]
    return [("passes exactly if an object was sent, the outcome is a Retry and the object is the same as expected",
             passes(cx) == z3.And(z3.Or(mat != T.NoneV, exp == T.NoneV), isa(out, RETRY), same(exp, unann(mat), FALSE)))]


def resource_pre(e, st, a):
    exp, mat, out = (e.to_v(st, a[n]) for n in ("expected", "materialized", "actual_outcome"))
    return [("directives are usable on what was sent", usable(exp, unann(mat))), ("annotations are those of an object Koreo sent", annotated_ok(mat)), ("a value or a well-formed outcome", unwrapped(out))]


vresource = Contract(MOD, "_validate_resource_match", params=params(expected=sym(("dict", "NoneType")), materialized=sym(("dict", "NoneType")), actual_outcome=sym()), pre=resource_pre,
                     cases=returns(verdict(resource_post)), opts={"mark": "by_resource"})


def outcome_post(cx):
    exp, act = cx.a["expected"], cx.a["actual"]
    em, am = fld("message")(exp), fld("message")(act)
    said_ = z3.Or(z3.Not(said(exp)), z3.And(said(act), substr(lower(sv(em)), lower(sv(am)))))
    out = [("no outcome expected: passes exactly if Ok", z3.Implies(exp == T.NoneV, passes(cx) == is_ok(act)))]
    for c in NONOK:
        ok = z3.And(isa(act, c), said_)
        if c == RETRY:
            d = iv(fld("delay")(exp))
            ok = z3.And(ok, z3.Or(d == 0, d == iv(fld("delay")(act))))
        out.append((f"{c.rsplit('.', 1)[1]} expected: passes exactly if that outcome, its message contained" + (", its delay equal unless zero" if c == RETRY else ""), z3.Implies(isa(exp, c), passes(cx) == ok)))
    return out


def outcome_pre(e, st, a):
    exp, act = e.to_v(st, a["expected"]), e.to_v(st, a["actual"])
    from . import payload as PL
    return [("a non-Ok outcome is expected, or none", z3.Or(exp == T.NoneV, z3.And(isa(exp, *NONOK), wf_outcome(exp)))), ("a value or a well-formed outcome", unwrapped(act)), ("results are keyed by plain keys", PL.keysok(act))]


voutcome = Contract(MOD, "_validate_outcome_match", params=params(expected=sym(("NoneType", *NONOK)), actual=sym()), pre=outcome_pre, cases=returns(verdict(outcome_post)), opts={"mark": "by_outcome", "soft": ("native",)})

from . import payload as PL, result as RS, cel_eval as CE
from .reconcile import using, excused, soft
from . import reconcile as RC_
import copy as _copy

# ---------------------------------------------------------------------------------------------- the stand-in for the API server
API = MOD + ".MockApi"


def sent_ok(mat, called, deleted):
    """what the stand-in records of a run: nothing unless it was called, an empty object for a delete"""
    return z3.And(z3.Implies(z3.Not(called), z3.And(mat == T.NoneV, z3.Not(deleted))), z3.Or(mat == T.NoneV, isa(mat, "dict")), z3.Implies(called, mat != T.NoneV),
                  annotated_ok(mat), PL.keysok(mat))


def merged_at(r, b, o, k):
    return z3.And(has(r, k) == z3.Or(has(b, k), has(o, k)), z3.Implies(has(o, k), mp(r)[k] == mp(o)[k]), z3.Implies(z3.And(has(b, k), z3.Not(has(o, k))), mp(r)[k] == mp(b)[k]))


def merge_inv(cx):
    b, o, u = cx.p("base"), cx.p("overlay"), cx.t("updated")
    k = z3.Const("uk", K)
    seen = z3.And(has(o, k), T.kidx(o, k) < cx.i)
    return [("an object", isa(u, "dict")), ("merged so far", z3.ForAll([k], z3.And(has(u, k) == z3.Or(has(b, k), seen), z3.Implies(seen, mp(u)[k] == mp(o)[k]), z3.Implies(z3.And(has(b, k), z3.Not(seen)), mp(u)[k] == mp(b)[k])), patterns=[has(u, k), mp(u)[k]]))]


def merge_post(cx):
    r, b, o = cx.res, cx.a["base"], cx.a["overlay"]
    k = z3.Const("uk", K)
    if getattr(cx, "kind", None) is not None:
        return [("an object", isa(r, "dict")), ("fields of what was sent, and those it leaves alone", merged_at(r, b, o, cx.eng.fresh(K, "k")))]
    return [("", isa(r, "dict")), ("", z3.ForAll([k], merged_at(r, b, o, k), patterns=[has(r, k), mp(r)[k]]))]


merge = Contract(MOD, "_merge_overlay", params=params(base=sym("dict"), overlay=sym("dict")), pre=lambda e, st, a: [("both are objects", z3.And(isa(e.to_v(st, a["base"]), "dict"), isa(e.to_v(st, a["overlay"]), "dict")))],
                 cases=returns(merge_post), loops={0: Loop(merge_inv)})


def call_params(e, st):
    me = e.sym(st, "self", API)
    st.add(isa(fld("_current_resource")(me.t), "dict", "NoneType"), isa(fld("_materialized")(me.t), "dict", "NoneType"))
    verb, kw = e.sym(st, "verb", "str"), e.sym(st, "kwargs", "dict")
    text = mp(kw.t)[T.kstr(lit("data"))]
    st.add(z3.Or(sv(verb.t) == lit("DELETE"), has(kw.t, T.kstr(lit("data")))), z3.Implies(has(kw.t, T.kstr(lit("data"))), z3.And(isa(text, "str"), z3.Function("jsontext_ok", V, B)(text), isa(z3.Function("json_loads", V, V)(text), "dict"))))
    e.models.note("kr8s calls call_api(VERB, ..., data=JSON text of an object), data only missing for DELETE")
    return {"self": me, "args": Tup([verb]), "kwargs": kw}


def attr_now(cx, name):
    me = cx.a["self"]
    r = fld(name)(me)
    for base, n, nv in cx.st.attrs:
        if n == name:
            r = z3.If(base == me, nv, r)
    return r


def call_post(cx):
    me, kw = cx.a["self"], cx.a["kwargs"]
    mat, called, deleted, cur = (attr_now(cx, n) for n in ("_materialized", "_api_called", "_delete_called", "_current_resource"))
    verb = cx.args["args"].xs[0].t
    is_del = sv(verb) == lit("DELETE")
    data = z3.Function("json_loads", V, V)(mp(kw)[T.kstr(lit("data"))])
    there = has(kw, T.kstr(lit("data")))
    k = cx.eng.fresh(K, "k")
    y = [ev for ev in cx.st.log if ev.kind == "yield"]
    cur0 = fld("_current_resource")(me)
    return [("the call is recorded", iv(called) == 1), ("a delete is recorded, and nothing else as one", z3.If(is_del, iv(deleted) == 1, deleted == fld("_delete_called")(me))),
            ("nothing is sent by a delete", z3.Implies(is_del, z3.And(isa(mat, "dict"), klen(mat) == 0))),
            ("the current resource stays", cur == cur0), ("one response", z3.BoolVal(len(y) == 1)),
            ("nothing there before: exactly what was sent", z3.Implies(z3.And(z3.Not(is_del), there, z3.Not(T.truth(cur0))), mat == data)),
            ("otherwise: what was sent over what is there", z3.Implies(z3.And(z3.Not(is_del), there, T.truth(cur0)), z3.And(isa(mat, "dict"), merged_at(mat, cur0, data, k)))),
            ("the response is what is recorded", z3.Implies(z3.Not(is_del), fld("_data")(y[-1].args["value"]) == mat) if y else z3.BoolVal(False))]


call_api = Contract(MOD, "MockApi.call_api", params=call_params, cases=lambda e, st, a: [Case("answers", events=[("yield", ["value"])], post=call_post)],
                    opts={"generator": True, "decorators": ("asynccontextmanager",), "may_modify": tuple("attribute " + n for n in ("_materialized", "_api_called", "_delete_called"))})
sent = Contract(MOD, "MockApi.materialized", params=params(self=sym(API)), cases=returns(lambda cx: [("what was sent last", cx.res == fld("_materialized")(cx.a["self"]))]), opts={"decorators": ("property",), "inline": True})

def get_params(e, st):
    me = e.sym(st, "self", API)
    cur = fld("_current_resource")(me.t)
    md = mp(cur)[T.kstr(lit("metadata"))]
    st.add(isa(cur, "dict", "NoneType"), z3.Implies(z3.And(isa(cur, "dict"), has(cur, T.kstr(lit("metadata")))), isa(md, "dict")))
    e.models.note("the current resource of a function test is an object, its metadata (if any) is an object")
    return {"self": me, "args": Tup([]), "kwargs": e.sym(st, "kwargs", "dict")}


def live_class(e, st, args, kw, node):
    from pyvc.engine import Unsupported
    if args or set(kw) != {"version", "kind", "namespaced", "asyncio"}:
        raise Unsupported("new_class with other arguments")
    e.throw(st, "ValueError", e.fresh(B, "bad_name"))
    r = e.sym(st, "api_class", "type", own="deep")
    st.add(fld("version")(r.t) == e.to_v(st, kw["version"]), fld("kind")(r.t) == e.to_v(st, kw["kind"]), T.truth(r.t))
    e.models.note("kr8s.objects.new_class returns an API class of the version and kind it is given, or raises ValueError")
    return [(st, r)]


def get_setup(e, st, args):
    e.models.ext["kr8s.objects.new_class"] = live_class
    e.models.values = RC_.new_object


def at(t, k):
    return z3.If(has(t, T.kstr(lit(k))), mp(t)[T.kstr(lit(k))], T.NoneV)


def get_post(cx):
    cur = fld("_current_resource")(cx.a["self"])
    y = [ev.args["value"] for ev in cx.st.log if ev.kind == "yield"]
    e, st = cx.eng, cx.st
    f = [("the current resource is found, if there is one", z3.BoolVal(len(y) == 1) == T.truth(cur)), ("at most one", z3.BoolVal(len(y) < 2)), ("nothing is recorded as sent", z3.BoolVal(not st.attrs))]
    for o in y:
        c = fld("ghost_class")(o)
        f += [("as it is", z3.And(isa(o, "kr8s.APIObject"), fld("raw")(o) == cur)), ("of its kind", z3.And(fld("version")(c) == at(cur, "apiVersion"), fld("kind")(c) == at(cur, "kind"))),
              ("in its namespace", fld("ghost_namespace")(o) == z3.If(has(cur, T.kstr(lit("metadata"))), at(at(cur, "metadata"), "namespace"), T.NoneV))]
    return f


def get_cases(e, st, a):
    cur = lambda cx: fld("_current_resource")(cx.a["self"])
    return [Case("found", events=[("yield", ["value"])], post=get_post), Case("nothing there", post=get_post), Case("no such kind", outcome="raise", exc="ValueError", post=lambda cx: [("only for a current resource", T.truth(cur(cx)))])]


found = Contract(MOD, "MockApi.async_get", params=get_params, cases=get_cases, setup=get_setup, opts={"generator": True})

# ---------------------------------------------------------------------------------------------- one case
TC, TCO = "koreo.function_test.structure.TestCase", MOD + ".TestCaseOutcome"
RF, VF = "koreo.resource_function.structure.ResourceFunction", "koreo.value_function.structure.ValueFunction"
FT = "koreo.function_test.structure."
MAP = "celtypes.MapType"
same_value = z3.Function("same_value", V, V, B)
to_cel = z3.Function("to_cel", V, V)


def bare(c, mark, cases, pre=None):
    n = _copy.copy(c)
    n.opts = {"mark": mark}
    n.pre = pre
    n.cases = cases
    n.apply = None
    n.loops = {}
    return n


def value_result(cx):
    return [("", z3.And(unwrapped(cx.res), PL.keysok(cx.res)))]


from . import reconcile as RC_
vf_used = bare(CE.vf, "fn", lambda e, st, a: [Case("ran", post=value_result)], CE.vf_pre)
overlay_used = bare(CE.evoverlay, "overlaid", lambda e, st, a: [Case("overlaid", post=lambda cx: [("", z3.Or(z3.And(isa(cx.res, PERMFAIL), wf_outcome(cx.res)), isa(cx.res, "dict"))), ("", PL.keysok(cx.res))])],
                    CE.evoverlay.pre)
inputs_used = bare(PL.overlay, "merged", PL.overlay.cases, PL.overlay.pre)
native_used = bare(PL.convert, "native", PL.convert.cases)


def rf_apply(e, st, args):
    """reconcile_resource_function at a call: its result, and what it made of the stand-in"""
    e.models.note("a Function under test keeps the stand-in API as its own calls leave it (MockApi.call_api), its results are keyed by plain keys, and what it sends carries the last-applied annotation (proved in reconcile.py)")
    api = args["api"]
    if not isinstance(api, Rec) or api.cls != API:
        from pyvc.engine import Unsupported
        raise Unsupported("the Function under test is not run against a fresh stand-in")
    f = e.to_v(st, args["function"])
    e.prove_many(st, [("precondition of reconcile_resource_function: a ResourceFunction and its inputs", z3.And(isa(f, RF), isa(e.to_v(st, args["inputs"]), "dict"))),
                      ("precondition of reconcile_resource_function: a fresh stand-in", z3.And(e.to_v(st, api.f["_materialized"]) == T.NoneV, z3.Not(T.truth(e.to_v(st, api.f["_api_called"]))), z3.Not(T.truth(e.to_v(st, api.f["_delete_called"])))))])
    held = e.to_v(st, api.f["_current_resource"])

    def after(s):
        mat, called, deleted, out = e.fresh(V, "sent"), e.fresh(B, "called"), e.fresh(B, "deleted"), e.fresh(V, "outcome")
        s.add(sent_ok(mat, called, deleted), unwrapped(out), PL.keysok(out))
        new = Rec(API, {**api.f, "_materialized": SV(mat, "deep"), "_api_called": BV(called), "_delete_called": BV(deleted)})
        for k, v in list(s.env.items()):
            if v is api:
                s.env[k] = new
        s.log.append(Event("fn", function=f, inputs=e.to_v(s, args["inputs"]), held=held, res=out, sent=mat, called=e.to_v(s, BV(called)), deleted=e.to_v(s, BV(deleted)),
                           location=e.to_v(s, args["location"])))
        return s, out
    ok, out = after(st.copy())
    bad, _ = after(st.copy())
    x = e.sym(bad, "raised", "BaseException", own="deep")
    bad.add(excused(x.t))
    e.sinks[-1].append((bad, x))
    return [(ok, Rec(RC_.RES, {"outcome": SV(out, "deep"), "resource_id": SV(e.fresh(V, "resource_id"), "deep")}))]


rf_used = Contract("koreo.resource_function.reconcile", "reconcile_resource_function", params=RC_.rf.params, cases=RC_.rf.cases, apply=rf_apply)


def started(cx):
    """inputs the case runs with"""
    b, o = cx.a["base_inputs"], fld("input_overrides")(cx.a["test_case"])
    return b, o


BY = {"by_return": ("ExpectReturn", "value"), "by_resource": ("ExpectResource", "resource"), "by_outcome": ("ExpectOutcome", "outcome")}


def case_ret(cx):
    tc, b, cur, r = cx.a["test_case"], cx.a["base_inputs"], cx.a["current_resource"], cx.res
    new_i, new_r, verd, fatal = (fld(n)(r) for n in ("new_inputs", "new_resource", "result", "fatal_error"))
    o, ov, given = fld("input_overrides")(tc), fld("resource_overlay")(tc), fld("current_resource")(tc)
    skip, variant = T.truth(fld("skip")(tc)), T.truth(fld("variant")(tc))
    ok, isfatal = iv(fld("test_pass")(verd)) == 1, iv(fatal) == 1
    fn, merged, overlaid, native = (soft(cx, k) for k in ("fn", "merged", "overlaid", "native"))
    verdict_ = [(k, v) for k in BY for v in soft(cx, k)]
    out = [("an outcome", z3.And(isa(r, TCO), isa(verd, TCR), isa(fatal, "bool"), isa(fld("test_pass")(verd), "bool"))),
           ("the case's label", fld("label")(verd) == fld("label")(tc)),
           ("a skipped case is not run, passes and leaves no trace", z3.Implies(skip, z3.And(z3.BoolVal(not fn), ok, z3.Not(isfatal)))),
           ("skipped and variant cases hand on what they were given", z3.Implies(z3.Or(skip, variant), z3.And(new_i == b, new_r == cur)))]
    if not fn:
        return out + [("a case that could not be run fails and changes nothing", z3.Or(skip, z3.And(z3.Not(ok), new_i == b, new_r == cur, z3.Implies(z3.Not(variant), isfatal))))]
    f = fn[-1]
    once = z3.BoolVal(len(fn) == 1)
    ins = f["inputs"]
    tb, to = T.truth(b), T.truth(o)
    m = merged[-1] if merged else None
    both = z3.And(m["resource"] == b, m["overlay"] == o, ins == m["res"]) if m else z3.BoolVal(False)
    out += [("the Function under test is run once", once), ("it is the test's Function", f["function"] == cx.a["function_under_test"]),
            ("inputs: the base overlaid with the overrides", z3.Implies(z3.And(tb, to), both)),
            ("inputs: whichever there is", z3.And(z3.Implies(z3.And(tb, z3.Not(to)), ins == b), z3.Implies(z3.And(z3.Not(tb), to), ins == o), z3.Implies(z3.Not(z3.Or(tb, to)), z3.And(isa(ins, MAP), klen(ins) == 0))))]
    tov, tg = T.truth(ov), T.truth(given)
    held = held_of(cx, f)
    if overlaid:
        p, q = overlaid[-1], [n for n in native if n["cel_object"].eq(overlaid[-1]["res"])]
        hn = z3.And(p["overlay"] == ov, p["inputs"] == ins, p["base"] == cur, held == q[-1]["res"]) if q else z3.BoolVal(False)
        res = q[-1]["res"] if q else None
    else:
        hn, res = z3.BoolVal(False), None
    src = lambda x: held_is(f, x)
    out += [("the resource: the incoming one overlaid", z3.Implies(tov, hn if res is None else z3.And(p["overlay"] == ov, p["inputs"] == ins, p["base"] == cur, src(res)))),
            ("the resource: the case's own", z3.Implies(z3.And(z3.Not(tov), tg), src(given))), ("the resource: the incoming one", z3.Implies(z3.And(z3.Not(tov), z3.Not(tg)), src(cur)))]
    before = res if res is not None else z3.If(tg, given, cur)
    after = z3.If(iv(f["called"]) == 1, f["sent"], before) if "called" in f else before
    out += [("what a passing or failing non-variant case made is handed on", z3.Implies(z3.Not(variant), z3.And(new_i == ins, new_r == after))),
            ("only a failing non-variant case stops the run", z3.Implies(z3.Not(skip), isfatal == z3.And(z3.Not(variant), z3.Not(ok))))]
    a = fld("assertion")(tc)
    if verdict_:
        which, v = verdict_[-1]
        same_v = ok == (iv(fld("test_pass")(v["res"])) == 1)
        act = v["actual_outcome"] if "materialized" in v else v["actual"]
        cls, field = BY[which]
        out += [("decided by the stated assertion", isa(a, FT + cls)), ("over what was expected", v["expected"] == fld(field)(a)), ("and what the Function did", z3.And(act == f["res"], same_v))]
        if "materialized" in v:
            out.append(("and sent", v["materialized"] == (f["sent"] if "sent" in f else T.NoneV)))
    else:
        e_ = fld("expected")(a)
        out.append(("a delete is expected or not", z3.And(isa(a, FT + "ExpectDelete"), ok == z3.And(z3.BoolVal("deleted" in f), z3.If(iv(e_) == 1, iv(f["deleted"]) == 1, iv(f["deleted"]) != 1)) if "deleted" in f else ok == (iv(e_) != 1))))
    return out


def held_of(cx, f):
    return f["held"] if "held" in f else None


def held_is(f, x):
    """what the Function under test finds: the resource itself, for a ValueFunction its CEL value"""
    if "held" in f:
        return f["held"] == x
    base = f["value_base"]
    return z3.If(T.truth(x), base == to_cel(x), z3.And(isa(base, MAP), klen(base) == 0))


def case_raise(cx):
    x = cx.res
    bad = [z3.Not(PL.keysok(n["res"])) for n in soft(cx, "overlaid")]
    return [("only what a dependency raised", z3.Or(excused(x), *bad))]


def case_cases(e, st, a):
    return [Case("returns", post=case_ret), Case("raises", outcome="raise", exc=["BaseException"], post=case_raise)]


def case_pre(e, st, a):
    tc, cur, fut = (e.to_v(st, a[n]) for n in ("test_case", "current_resource", "function_under_test"))
    x = z3.Const("cpx", V)
    asr = fld("assertion")(tc)
    ov = fld("resource_overlay")(tc)
    exp = fld("outcome")(asr)
    out = [("directives of expectations are usable", z3.ForAll([x], z3.And(usable(fld("value")(asr), x), usable(fld("resource")(asr), x)), patterns=[usable(fld("value")(asr), x), usable(fld("resource")(asr), x)])),
           ("a non-Ok outcome is expected, or none", z3.Implies(isa(asr, FT + "ExpectOutcome"), z3.Or(exp == T.NoneV, z3.And(isa(exp, *NONOK), wf_outcome(exp)))))]
    i = z3.Const("cpi", V)
    val = CE.cel_eval(fld("values")(ov), i)
    cov_ = lambda o: z3.ForAll([i], z3.Implies(z3.And(isa(CE.cel_eval(fld("values")(o), i), "celtypes.ListType"), isa(fld("value_index")(o), "dict")), CE.wfix(fld("value_index")(o), CE.cel_eval(fld("values")(o), i))), patterns=[CE.cel_eval(fld("values")(o), i)])
    rv = fld("return_value")(fut)
    out += [("prepared overlays", z3.And(z3.Or(ov == T.NoneV, z3.And(CE.wf_overlay(ov), cov_(ov))), z3.Implies(isa(fut, VF), z3.Or(rv == T.NoneV, z3.And(CE.wf_overlay(rv), cov_(rv))))))]
    return out


def case_param(e, st, n):
    return e.sym(st, n, TC)


run_case = Contract(MOD, "_run_test_case", params=params(location=sym("str"), function_under_test=sym((RF, VF)), current_resource=sym(("dict", "NoneType")), base_inputs=sym((MAP, "NoneType")), test_case=case_param, idx=sym("int")),
                    pre=case_pre, cases=case_cases, opts={"soft": ("fn", "merged", "overlaid", "native", *BY), "join": True, "cost": 6, "optional_cases": ("raises",)})


# ---------------------------------------------------------------------------------------------- all cases
OUT, INP, RESO = (z3.Function("case_" + n, I, V) for n in ("outcome", "inputs", "resource"))     # ghost names of what happened to case number i
TR = MOD + ".TestResult"


def index_of(e, st, v):
    return e.as_int(st, v)


def used_pre(e, st, a):
    it = st.ghost.get("fori")
    i = index_of(e, st, a["idx"])
    own = lambda n: isinstance(a[n], C) and a[n].x is None or getattr(a[n], "own", None) == "deep"
    mine = [ev for ev in st.log if ev.kind == "case"]
    return [("cases are run in turn, each at most once", z3.And(i == it.t if it is not None else z3.BoolVal(False), z3.BoolVal(not mine))),
            ("the case works on copies of inputs and resource", z3.BoolVal(own("base_inputs") and own("current_resource")))] + case_pre(e, st, a)


def used_post(cx):
    r, i = cx.res, index_of(cx.eng, cx.st, cx.args["idx"])
    return [("", z3.And(isa(r, TCO), OUT(i) == r, INP(i) == cx.a["base_inputs"], RESO(i) == cx.a["current_resource"], isa(fld("new_inputs")(r), MAP, "NoneType"), isa(fld("new_resource")(r), "dict", "NoneType"),
                        isa(fld("fatal_error")(r), "bool"), isa(fld("result")(r), TCR)))]


case_used = bare(run_case, "case", lambda e, st, a: [Case("ran", post=used_post), Case("raises", outcome="raise", exc=["BaseException"], post=lambda cx: [("", excused(cx.res))])], used_pre)


def begin(first, name, j):
    """what case j starts from: what the one before handed on"""
    return z3.If(j == 0, first, fld(name)(OUT(j - 1)))


def chained(b, r, j):
    return z3.And(same_value(INP(j), begin(b, "new_inputs", j)), same_value(RESO(j), begin(r, "new_resource", j)))


def fatal(j):
    return iv(fld("fatal_error")(OUT(j))) == 1


def cases_inv(cx):
    b, r = cx.p("base_inputs"), cx.p("initial_resource")
    ci, cr, tr = cx.t("current_inputs"), cx.t("current_resource"), cx.t("test_results")
    j = z3.Const("rj", I)
    ran = z3.And(0 <= j, j < cx.i)
    return [("the next case starts from what the last one handed on", z3.And(ci == begin(b, "new_inputs", cx.i), cr == begin(r, "new_resource", cx.i), isa(ci, MAP, "NoneType"), isa(cr, "dict", "NoneType"))),
            ("a result per case", z3.And(T.exact(tr, "list"), ln(tr) == cx.i)),
            ("results in order", z3.ForAll([j], z3.Implies(ran, la(tr)[j] == fld("result")(OUT(j))), patterns=[OUT(j), la(tr)[j]])),
            ("every case started from what the one before handed on", z3.ForAll([j], z3.Implies(ran, chained(b, r, j)), patterns=[INP(j), RESO(j)])),
            ("none was fatal", z3.ForAll([j], z3.Implies(ran, z3.Not(fatal(j))), patterns=[OUT(j)]))]


def cases_result(cx, b, r, cases, results, isfatal):
    n = ln(results)
    j = z3.Const("rj", I)
    ran = z3.And(0 <= j, j < n)
    if getattr(cx, "kind", None) is not None:
        w = cx.eng.fresh(I, "w")
        q = lambda f, *p: z3.substitute(f, (j, w))
    else:
        q = lambda f, *p: z3.ForAll([j], f, patterns=list(p))
    return [("a list of results", z3.And(T.exact(results, "list"), n <= ln(cases))),
            ("stops after the first fatal case, or runs all", z3.If(isfatal, z3.And(n >= 1, fatal(n - 1)), n == ln(cases))),
            ("results in order", q(z3.Implies(ran, la(results)[j] == fld("result")(OUT(j))), la(results)[j])),
            ("only the last case was fatal", q(z3.Implies(z3.And(0 <= j, j < n - 1), z3.Not(fatal(j))), OUT(j))),
            ("every case starts from copies of what the one before handed on", q(z3.Implies(ran, chained(b, r, j)), INP(j), RESO(j)))]


def cases_post(cx):
    r = cx.res
    return [("results and whether a case was fatal", z3.And(T.exact(r, "tuple"), ln(r) == 2, isa(la(r)[1], "bool")))] + cases_result(cx, cx.a["base_inputs"], cx.a["initial_resource"], cx.a["test_cases"], la(r)[0], iv(la(r)[1]) == 1)


def raising(e, st, a):
    return Case("raises", outcome="raise", exc=["BaseException"], post=lambda cx: [("only what a dependency raised", excused(cx.res))])


def cases_pre(e, st, a):
    f, cs = e.to_v(st, a["function_under_test"]), e.to_v(st, a["test_cases"])
    j = z3.Const("cj", I)
    tc = la(cs)[j]
    fs = case_pre(e, st, {**a, "test_case": SV(tc), "current_resource": a["initial_resource"]})
    return [(lb, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(cs)), z3.And(isa(tc, TC), f_)), patterns=[la(cs)[j]])) for lb, f_ in fs] + [("a Function under test", isa(f, RF, VF))]


CP = dict(function_under_test=sym((RF, VF)), base_inputs=sym((MAP, "NoneType")), initial_resource=sym(("dict", "NoneType")), test_cases=sym(("list", "tuple")))
run_cases = Contract(MOD, "_run_test_cases", params=params(location=sym("str"), **CP), pre=cases_pre, cases=lambda e, st, a: [Case("returns", post=cases_post), raising(e, st, a)], loops={0: Loop(cases_inv, keep=("case",))},
                     opts={"soft": ("case",), "optional_cases": ("raises",), "mark": "cases"})


def test_ret(cx):
    ft, r = cx.a["function_test"], cx.res
    fut, cs = fld("function_under_test")(ft), fld("test_cases")(ft)
    ok = z3.Not(isa(fut, *NONOK))
    runs = soft(cx, "cases")
    tr, healthy, fat = fld("test_results")(r), fld("function_healthy")(r), fld("fatal_error")(r)
    out = [("a TestResult", isa(r, TR)), ("a Function that is not healthy is reported and nothing is run", z3.Implies(z3.Not(ok), z3.And(healthy == fut, ln(tr) == 0, iv(fat) == 1, z3.BoolVal(not runs)))),
           ("no cases: no results", z3.Implies(z3.And(ok, z3.Not(T.truth(cs))), z3.And(ln(tr) == 0, isa(healthy, OK), iv(fat) != 1, z3.BoolVal(not runs)))),
           ("cases are run once", z3.Implies(z3.And(ok, T.truth(cs)), z3.BoolVal(len(runs) == 1)))]
    if runs:
        c = runs[-1]
        out += [("on the test's Function, inputs, resource and cases", z3.And(c["function_under_test"] == fut, c["base_inputs"] == fld("inputs")(ft), c["initial_resource"] == fld("initial_resource")(ft), c["test_cases"] == cs)),
                ("their results are reported", z3.And(tr == la(c["res"])[0], iv(fat) == iv(la(c["res"])[1]), isa(healthy, OK)))]
    return out


def test_pre(e, st, a):
    ft = e.to_v(st, a["function_test"])
    x = {n: SV(fld(m)(ft)) for n, m in (("function_under_test", "function_under_test"), ("test_cases", "test_cases"), ("initial_resource", "initial_resource"), ("base_inputs", "inputs"))}
    ok = z3.And(z3.Not(isa(fld("function_under_test")(ft), *NONOK)), T.truth(fld("test_cases")(ft)))
    return [(lb, z3.Implies(ok, f)) for lb, f in cases_pre(e, st, x)]


run_test = Contract(MOD, "run_function_test", params=params(location=sym("str"), function_test=sym("koreo.function_test.structure.FunctionTest")), pre=test_pre,
                    cases=lambda e, st, a: [Case("returns", post=test_ret), raising(e, st, a)], opts={"soft": ("cases",), "optional_cases": ("raises",)})

USES = [case_used, rf_used, vf_used, overlay_used, inputs_used, native_used] + RS.CONTRACTS

CONTRACTS = [merge, call_api, sent, found, run_test, run_cases, run_case, strip, vreturn, vresource, voutcome, vmatch, vdict, vlist, vset, list_to_object, obj_to_key]
