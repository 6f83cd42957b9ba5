"""koreo/resource_function/reconcile/validate.py: when does the live object meet the target (C04, C05)."""
from .common import *

MOD = "koreo.resource_function.reconcile.validate"
cov = z3.Function("meets", V, V, V, B, B)              # meets(target, actual, last applied, as set)
l2o = z3.Function("keyed", V, V, V)                    # what _list_to_object returns
okey = z3.Function("item_key", V, V, T.S)              # what _obj_to_key returns
wfd = z3.Function("directives_ok", V, B)               # comparison directives have the documented shape, at every depth
titems = z3.Function("truthy_items", V, V)             # [x for x in X if x]
AS_SET, AS_MAP, AS_LAST = (T.kstr(lit("x-koreo-compare-as-" + x)) for x in ("set", "map", "x"))
AS_LAST = T.kstr(lit("x-koreo-compare-last-applied"))
OWNERS = T.kstr(lit("ownerReferences"))
LASTAPP = T.kstr(lit("koreo.dev/last-applied-configuration"))
MAPK = T.kstr(lit("x-koreo-compare-as-map"))
SETK = T.kstr(lit("x-koreo-compare-as-set"))


def listy(t):
    return isa(t, "list", "tuple")


objl = z3.Function("object_list", V, B)
named = z3.Function("names", V, K, B)                   # named(list of names, k): k is one of them
sameset = z3.Function("same_members", V, V, B)


def has(t, k):
    return dom(t)[k]


def directive(t, which, k):
    return z3.And(has(t, which), named(mp(t)[which], k))


def skipped(k):
    return z3.Or(k == OWNERS, k == LASTAPP, k == AS_LAST, k == SETK, k == MAPK)


def lastval(l, k):
    return z3.If(z3.And(isa(l, "dict"), has(l, k)), mp(l)[k], T.NoneV)


def compared(t, a, l, k):
    return z3.If(directive(t, AS_LAST, k), lastval(l, k), mp(a)[k])


def map_fields(t, k):
    """x-koreo-compare-as-map names fields for k"""
    m = mp(t)[MAPK]
    kt = T.kat(m, T.kidx(m, k))
    return z3.And(has(t, MAPK), has(m, k), k != T.kstr(lit("")))


def key_ok(t, a, l, k):
    """field k of the target is met"""
    cv = compared(t, a, l, k)
    tv = mp(t)[k]
    lv = lastval(l, k)
    F = titems(mp(mp(t)[MAPK])[k])
    ll = z3.If(objl(lv), lv, T.NoneV)
    asmap = z3.And(map_fields(t, k), objl(tv), objl(cv))
    return z3.And(z3.Or(directive(t, AS_LAST, k), has(a, k)),
                  z3.If(asmap, cov(l2o(tv, F), l2o(cv, F), l2o(ll, F), z3.BoolVal(False)), cov(tv, cv, lv, directive(t, SETK, k))))


def item_last(l, i):
    return z3.If(z3.And(listy(l), i < ln(l)), la(l)[i], T.NoneV)


def leaf(t, a):
    """neither objects nor lists"""
    return z3.If(z3.Or(isa(t, "bool"), isa(a, "bool")), z3.And(isa(t, "bool"), isa(a, "bool"), iv(t) == iv(a)),
                 z3.If(a == T.NoneV, z3.And(z3.Not(T.truth(t)), z3.Or(t == a, T.pyeq(t, a))),
                       z3.If(t == T.NoneV, z3.And(z3.Not(T.truth(a)), T.pyeq(t, a)), T.pyeq(t, a))))


def typed_key(x):
    """a member of a set-directed list: booleans are not numbers"""
    return T.kpair(T.kint(z3.If(isa(x, "bool"), 1, 0)), T.key(x))


def axioms(e):
    if getattr(e, "_validate_ax", False):
        return
    e._validate_ax = True
    t, a, l, s, k, i, F = z3.Const("vt", V), z3.Const("va", V), z3.Const("vl", V), z3.Const("vs", B), z3.Const("vk", K), z3.Const("vi", I), z3.Const("vF", V)
    wk, wi = z3.Function("meets_wk", V, V, V, K), z3.Function("meets_wi", V, V, V, I)
    c = cov(t, a, l, s)
    dd = z3.And(isa(t, "dict"), isa(a, "dict"))
    ll = z3.And(listy(t), listy(a))
    fld_ok = lambda k: z3.Implies(z3.And(has(t, k), z3.Not(skipped(k))), key_ok(t, a, l, k))
    itm = lambda i: z3.Implies(z3.And(0 <= i, i < ln(t)), cov(la(t)[i], la(a)[i], item_last(l, i), z3.BoolVal(False)))
    A = e.extra_axioms
    A += [
        # objects: every field of the target
        z3.ForAll([t, a, l, s, k], z3.Implies(z3.And(c, dd), fld_ok(k)), patterns=[z3.MultiPattern(c, dom(t)[k])]),
        z3.ForAll([t, a, l, s], z3.Implies(z3.And(dd, z3.Not(c)), z3.Not(fld_ok(wk(t, a, l)))), patterns=[c]),
        # lists: same length, item by item; or as a set
        z3.ForAll([t, a, l, s, i], z3.Implies(z3.And(c, ll, z3.Not(s)), z3.And(ln(t) == ln(a), itm(i))), patterns=[z3.MultiPattern(c, la(t)[i])]),
        z3.ForAll([t, a, l, s], z3.Implies(z3.And(c, ll, z3.Not(s)), ln(t) == ln(a)), patterns=[c]),
        z3.ForAll([t, a, l, s], z3.Implies(z3.And(ll, z3.Not(s), z3.Not(c)), z3.Or(ln(t) != ln(a), z3.Not(itm(wi(t, a, l))))), patterns=[c]),
        z3.ForAll([t, a, l, s], z3.Implies(z3.And(ll, s), c == sameset(t, a)), patterns=[c]),
        # kinds differ
        z3.ForAll([t, a, l, s], z3.Implies(z3.Or(isa(t, "dict") != isa(a, "dict"), z3.And(z3.Not(isa(t, "dict")), z3.Not(isa(a, "dict")), listy(t) != listy(a))), z3.Not(c)), patterns=[c]),
        # leaves
        z3.ForAll([t, a, l, s], z3.Implies(z3.Not(z3.Or(isa(t, "dict"), isa(a, "dict"), listy(t), listy(a))), c == leaf(t, a)), patterns=[c]),
    ]
    # object_list
    wo = z3.Function("object_list_w", V, I)
    A += [
        z3.ForAll([t, i], z3.Implies(objl(t), z3.And(listy(t), z3.Implies(z3.And(0 <= i, i < ln(t)), isa(la(t)[i], "dict")))), patterns=[z3.MultiPattern(objl(t), la(t)[i])]),
        z3.ForAll([t], z3.Implies(objl(t), listy(t)), patterns=[objl(t)]),
        z3.ForAll([t], z3.Or(objl(t), z3.Not(listy(t)), z3.And(0 <= wo(t), wo(t) < ln(t), z3.Not(isa(la(t)[wo(t)], "dict")))), patterns=[objl(t)]),
    ]
    # names of a directive
    wn = z3.Function("names_w", V, K, I)
    A += [
        z3.ForAll([t, k], z3.Implies(named(t, k), z3.And(0 <= wn(t, k), wn(t, k) < ln(t), k == T.key(la(t)[wn(t, k)]), T.truth(la(t)[wn(t, k)]))), patterns=[named(t, k)]),
        z3.ForAll([t, i, k], z3.Implies(z3.And(0 <= i, i < ln(t), k == T.key(la(t)[i]), T.truth(la(t)[i])), named(t, k)), patterns=[z3.MultiPattern(la(t)[i], named(t, k))]),
    ]
    # same members of set-directed lists (members must be hashable)
    w1, w2 = z3.Function("same_w1", V, V, I), z3.Function("same_w2", V, V, I)
    f1, f2 = z3.Function("same_f1", V, V, I, I), z3.Function("same_f2", V, V, I, I)
    u1, u2 = z3.Function("same_u1", V, V, I), z3.Function("same_u2", V, V, I)
    hashable = lambda x: z3.Not(isa(x, "dict", "list", "set"))
    j = z3.Const("vj", I)
    inn = lambda t, i: z3.And(0 <= i, i < ln(t))
    ss = sameset(t, a)
    A += [
        z3.ForAll([t, a, i], z3.Implies(z3.And(ss, inn(t, i)), z3.And(hashable(la(t)[i]), inn(a, f1(t, a, i)), typed_key(la(a)[f1(t, a, i)]) == typed_key(la(t)[i]))), patterns=[z3.MultiPattern(ss, la(t)[i])]),
        z3.ForAll([t, a, i], z3.Implies(z3.And(ss, inn(a, i)), z3.And(hashable(la(a)[i]), inn(t, f2(t, a, i)), typed_key(la(t)[f2(t, a, i)]) == typed_key(la(a)[i]))), patterns=[z3.MultiPattern(ss, la(a)[i])]),
        # otherwise: an unhashable member, or a member of one that the other lacks
        z3.ForAll([t, a], z3.Or(ss, z3.And(inn(t, u1(t, a)), z3.Not(hashable(la(t)[u1(t, a)]))), z3.And(inn(a, u2(t, a)), z3.Not(hashable(la(a)[u2(t, a)]))),
                                inn(t, w1(t, a)), inn(a, w2(t, a))), patterns=[ss]),
        z3.ForAll([t, a], z3.Or(ss, z3.And(inn(t, u1(t, a)), z3.Not(hashable(la(t)[u1(t, a)]))), z3.And(inn(a, u2(t, a)), z3.Not(hashable(la(a)[u2(t, a)]))),
                                z3.And(inn(t, w1(t, a)), z3.ForAll([j], z3.Implies(inn(a, j), typed_key(la(a)[j]) != typed_key(la(t)[w1(t, a)])), patterns=[la(a)[j]])),
                                z3.And(inn(a, w2(t, a)), z3.ForAll([j], z3.Implies(inn(t, j), typed_key(la(t)[j]) != typed_key(la(a)[w2(t, a)])), patterns=[la(t)[j]]))), patterns=[ss]),
    ]
    # keyed lists
    A += [
        z3.ForAll([t, F], z3.And(z3.Implies(z3.Not(T.truth(t)), l2o(t, F) == T.NoneV), z3.Implies(T.truth(t), T.exact(l2o(t, F), "dict"))), patterns=[l2o(t, F)]),
    ]
    # directives have the documented shape: lists of texts, a map of lists of texts
    strs = lambda x, i: z3.Implies(z3.And(0 <= i, i < ln(x)), isa(la(x)[i], "str"))
    A += [
        z3.ForAll([t], z3.Implies(z3.And(wfd(t), isa(t, "dict"), has(t, SETK)), listy(mp(t)[SETK])), patterns=[z3.MultiPattern(wfd(t), mp(t)[SETK])]),
        z3.ForAll([t], z3.Implies(z3.And(wfd(t), isa(t, "dict"), has(t, AS_LAST)), listy(mp(t)[AS_LAST])), patterns=[z3.MultiPattern(wfd(t), mp(t)[AS_LAST])]),
        z3.ForAll([t], z3.Implies(z3.And(wfd(t), isa(t, "dict"), has(t, MAPK)), isa(mp(t)[MAPK], "dict")), patterns=[z3.MultiPattern(wfd(t), mp(t)[MAPK])]),
        z3.ForAll([t, i], z3.Implies(z3.And(wfd(t), isa(t, "dict"), has(t, SETK)), strs(mp(t)[SETK], i)), patterns=[z3.MultiPattern(wfd(t), la(mp(t)[SETK])[i])]),
        z3.ForAll([t, i], z3.Implies(z3.And(wfd(t), isa(t, "dict"), has(t, AS_LAST)), strs(mp(t)[AS_LAST], i)), patterns=[z3.MultiPattern(wfd(t), la(mp(t)[AS_LAST])[i])]),
        z3.ForAll([t, k], z3.Implies(z3.And(wfd(t), isa(t, "dict"), has(t, MAPK), has(mp(t)[MAPK], k)), z3.And(T.kkind(k) == 0, listy(mp(mp(t)[MAPK])[k]))), patterns=[z3.MultiPattern(wfd(t), dom(mp(t)[MAPK])[k])]),
        z3.ForAll([t, k, i], z3.Implies(z3.And(wfd(t), isa(t, "dict"), has(t, MAPK), has(mp(t)[MAPK], k)), strs(mp(mp(t)[MAPK])[k], i)), patterns=[z3.MultiPattern(wfd(t), la(mp(mp(t)[MAPK])[k])[i])]),
        z3.ForAll([t, k], z3.Implies(z3.And(wfd(t), isa(t, "dict"), has(t, k), z3.Not(skipped(k))), wfd(mp(t)[k])), patterns=[z3.MultiPattern(wfd(t), mp(t)[k])]),
        z3.ForAll([t, i], z3.Implies(z3.And(wfd(t), listy(t), 0 <= i, i < ln(t)), wfd(la(t)[i])), patterns=[z3.MultiPattern(wfd(t), la(t)[i])]),
        z3.ForAll([t, F], z3.Implies(wfd(t), wfd(l2o(t, F))), patterns=[z3.MultiPattern(wfd(t), l2o(t, F))]),
    ]


def setup(e):
    axioms(e)
    text_axioms(e)


FALSE = z3.BoolVal(False)


def as_set(cx):
    x = cx.args.get("compare_list_as_set")
    if isinstance(x, BV):
        return x.t
    if isinstance(x, C):
        return z3.BoolVal(bool(x.x))
    return iv(cx.a["compare_list_as_set"]) == 1


def vm_post(rel):
    def post(cx):
        r = cx.res
        m, d = fld("match")(r), fld("differences")(r)
        out = [("a ResourceMatch", z3.And(isa(r, MOD + ".ResourceMatch"), isa(m, "bool"), listy(d))),
               ("match exactly when the target is met", (iv(m) == 1) == rel(cx))]
        j = z3.Const("dj", I)
        if getattr(cx, "kind", None) is None:
            out.append(("differences are texts", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(d)), isa(la(d)[j], "str")), patterns=[la(d)[j]])))
        else:
            w = z3.Const("dw", I)
            out.append(("differences are texts", z3.Implies(z3.And(0 <= w, w < ln(d)), isa(la(d)[w], "str"))))
        return out
    return post


def bool_param(e, st, n):
    return BV(e.fresh(B, n))


def wf(which="target"):
    return lambda e, st, a: [("comparison directives have the documented shape", wfd(e.to_v(st, a[which])))]


validate_match = Contract(MOD, "validate_match", params=params(target=sym(), actual=sym(), last_applied_value=sym(), compare_list_as_set=bool_param),
                          pre=wf(), cases=returns(vm_post(lambda cx: cov(cx.a["target"], cx.a["actual"], cx.a["last_applied_value"], as_set(cx)))), opts={"frame": False})


def dict_inv(cx):
    e = cx.eng
    t, a, l0 = cx.p("target"), cx.p("actual"), cx.p("last_applied_value")
    L = cx.t("last_applied_value")
    L0 = e.to_v(cx.pre, e_args(cx, "last_applied_value"))
    k = z3.Const("dk", K)
    seen = z3.And(has(cx.src, k), T.kidx(cx.src, k) < cx.i)
    return [("fields so far are met", z3.ForAll([k], z3.Implies(z3.And(seen, z3.Not(skipped(k))), key_ok(t, a, L0, k)), patterns=[has(cx.src, k)])),
            ("the last applied value is only completed with nulls", z3.ForAll([k], z3.And(z3.Implies(has(L, k), mp(L)[k] == lastval(L0, k)), z3.Implies(z3.And(isa(L0, "dict"), has(L0, k)), has(L, k))),
                                                                              patterns=[has(L, k), mp(L)[k]])),
            ("last applied is a mapping", isa(L, "dict"))]


def e_args(cx, name):
    return cx.eng._vargs[name]


def keep_args(e, st, args):
    e._vargs = args


def ground_wf(e, st, a):
    t = e.to_v(st, a["target"])
    return [("the set and last-applied directives are lists", z3.And([z3.Implies(has(t, k), listy(mp(t)[k])) for k in (SETK, AS_LAST)])),
            ("the map directive is an object", z3.Implies(has(t, MAPK), isa(mp(t)[MAPK], "dict")))]


validate_dict = Contract(MOD, "_validate_dict_match", params=params(target=sym("dict"), actual=sym("dict"), last_applied_value=sym()), setup=keep_args,
                         pre=lambda e, st, a: wf()(e, st, a) + ground_wf(e, st, a) + [("both are mappings", z3.And(isa(e.to_v(st, a["target"]), "dict"), isa(e.to_v(st, a["actual"]), "dict")))],
                         cases=returns(vm_post(lambda cx: cov(cx.a["target"], cx.a["actual"], cx.a["last_applied_value"], FALSE))), loops={0: Loop(dict_inv)}, opts={"frame": False, "cost": 5})


def list_inv(cx):
    t, a, l = cx.p("target"), cx.p("actual"), cx.p("last_applied_value")
    j = z3.Const("lj", I)
    return [("items so far are met", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), cov(la(t)[j], la(a)[j], item_last(l, j), FALSE)), patterns=[la(t)[j]]))]


lists = lambda e, st, a: [("both are lists", z3.And(listy(e.to_v(st, a["target"])), listy(e.to_v(st, a["actual"]))))]
validate_list = Contract(MOD, "_validate_list_match", params=params(target=sym(("list", "tuple")), actual=sym(("list", "tuple")), last_applied_value=sym()),
                         pre=lambda e, st, a: wf()(e, st, a) + lists(e, st, a),
                         cases=returns(vm_post(lambda cx: cov(cx.a["target"], cx.a["actual"], cx.a["last_applied_value"], FALSE))), loops={0: Loop(list_inv)}, opts={"frame": False})
validate_set = Contract(MOD, "_validate_set_match", params=params(target=sym(("list", "tuple")), actual=sym(("list", "tuple"))), pre=lists,
                        cases=returns(vm_post(lambda cx: sameset(cx.a["target"], cx.a["actual"]))))


def is_object_list_post(cx):
    return [("a list of objects", (iv(cx.res) == 1) == objl(cx.a["value"])), ("a bool", isa(cx.res, "bool"))]


is_object_list = Contract(MOD, "_is_object_list", params=params(value=sym()), cases=returns(is_object_list_post))


def l2o_post(cx):
    x, F, r = cx.a["obj_list"], cx.a["key_fields"], cx.res
    k, i = z3.Const("mk_", K), z3.Const("mi_", I)
    w = z3.Function("keyed_w", V, V, V, K, I)(r, x, F, k)
    if getattr(cx, "kind", None) is None:
        return [("", r == l2o(x, F))]
    w0 = z3.Const("mi0", I)
    k0 = z3.Const("mk0", K)
    return [("None exactly for an empty list", (r == T.NoneV) == z3.Not(T.truth(x))), ("otherwise an object", z3.Or(r == T.NoneV, T.exact(r, "dict"))),
            ("every item is found under its key", z3.Implies(z3.And(r != T.NoneV, 0 <= w0, w0 < ln(x), la(x)[w0] == la(x)[w0]), dom(r)[T.kstr(okey(la(x)[w0], F))])),
            ("every entry is an item with that key", z3.Implies(z3.And(r != T.NoneV, dom(r)[k0]), z3.Exists([i], z3.And(0 <= i, i < ln(x), mp(r)[k0] == la(x)[i], k0 == T.kstr(okey(la(x)[i], F))))))]


def obj_lists(e, st, a):
    x = e.to_v(st, a["obj_list"])
    return [("a list of objects or nothing", z3.Or(objl(x), x == T.NoneV))]


list_to_object = Contract(MOD, "_list_to_object", params=params(obj_list=sym(("list", "tuple", "NoneType")), key_fields=sym("list")), pre=obj_lists, cases=returns(l2o_post))


def okey_post(cx):
    if getattr(cx, "kind", None) is None:
        return [("", z3.And(isa(cx.res, "str"), sv(cx.res) == okey(cx.a["obj"], cx.a["fields"])))]
    return [("a text", isa(cx.res, "str"))]


obj_to_key = Contract(MOD, "_obj_to_key", params=params(obj=sym("dict"), fields=sym("list")), pre=lambda e, st, a: [("an object", isa(e.to_v(st, a["obj"]), "dict"))], cases=returns(okey_post),
                      opts={"trusted": ["_obj_to_key is a function of its arguments"]})

CONTRACTS = [validate_match, validate_dict, validate_list, validate_set, is_object_list, list_to_object, obj_to_key]
