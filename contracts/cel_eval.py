"""koreo/predicate_helpers.py, koreo/cel/evaluation.py, koreo/value_function/reconcile.py (C10, C12, C13)."""
from .common import *

ERR = "celpy.CELEvalError"
MAP, LIST = "celtypes.MapType", "celtypes.ListType"
clean = z3.Function("clean", V, B)              # no CELEvalError anywhere inside
ovl = z3.Function("overlaid", V, V, V, V, B)    # overlaid(result, base, index, values)
wfix = z3.Function("index_ok", V, V, B)         # every position in the index exists in values
cel_eval = z3.Function("cel_eval", V, V, V)
cel_raises = z3.Function("cel_raises", V, V, B)
cel_crashes = z3.Function("cel_crashes", V, V, B)


def key_of(s):
    return T.kstr(lit(s))


def has(t, *names):
    return z3.And(isa(t, "dict"), *[dom(t)[key_of(n)] for n in names])


def at(t, name):
    return mp(t)[key_of(name)]


def clean_axioms(e):
    """definition of `clean` over finite values (both directions)"""
    t, i = z3.Const("ct", V), z3.Const("ci", I)
    wd, wl = z3.Function("clean_wd", V, I), z3.Function("clean_wl", V, I)
    kid = lambda t, i: z3.And(clean(T.kat(t, i)), clean(mp(t)[T.key(T.kat(t, i))]))
    e.extra_axioms += [
        z3.ForAll([t], z3.Implies(clean(t), z3.Not(isa(t, ERR))), patterns=[clean(t)]),
        z3.ForAll([t, i], z3.Implies(z3.And(clean(t), isa(t, "dict"), 0 <= i, i < klen(t)), kid(t, i)), patterns=[z3.MultiPattern(clean(t), T.kat(t, i))]),
        z3.ForAll([t, i], z3.Implies(z3.And(clean(t), isa(t, "list", "tuple"), 0 <= i, i < ln(t)), clean(la(t)[i])), patterns=[z3.MultiPattern(clean(t), la(t)[i])]),
        z3.ForAll([t], z3.Or(clean(t), isa(t, ERR),
                             z3.And(isa(t, "dict"), 0 <= wd(t), wd(t) < klen(t), z3.Not(kid(t, wd(t)))),
                             z3.And(isa(t, "list", "tuple"), 0 <= wl(t), wl(t) < ln(t), z3.Not(clean(la(t)[wl(t)])))), patterns=[clean(t)]),
    ]


def overlay_axioms(e):
    """definition of the ordered deep merge `overlaid` and of `index_ok`"""
    r, b, x, v, k = z3.Consts("or ob ox ov", V)[0:4] + [z3.Const("ok", K)] if False else (*z3.Consts("or_ ob_ ox_ ov_", V), z3.Const("ok_", K))
    sub = mp(x)[k]

    def at_k(r, b, x, v, k):
        sub = mp(x)[k]
        return z3.And(
            dom(r)[k] == z3.Or(dom(b)[k], dom(x)[k]),
            z3.Implies(z3.And(dom(b)[k], z3.Not(dom(x)[k])), mp(r)[k] == mp(b)[k]),
            z3.Implies(z3.And(dom(x)[k], isa(sub, "int")), mp(r)[k] == la(v)[iv(sub)]),
            z3.Implies(z3.And(dom(x)[k], isa(sub, "dict"), dom(b)[k], isa(mp(b)[k], "dict")), ovl(mp(r)[k], mp(b)[k], sub, v)),
            z3.Implies(z3.And(dom(x)[k], isa(sub, "dict"), z3.Not(z3.And(dom(b)[k], isa(mp(b)[k], "dict")))), ovl0(mp(r)[k], sub, v)))

    def at_0(r, x, v, k):
        sub = mp(x)[k]
        return z3.And(
            dom(r)[k] == dom(x)[k],
            z3.Implies(z3.And(dom(x)[k], isa(sub, "int")), mp(r)[k] == la(v)[iv(sub)]),
            z3.Implies(z3.And(dom(x)[k], isa(sub, "dict")), ovl0(mp(r)[k], sub, v)))
    wk, w0, wi = z3.Function("ovl_w", V, V, V, V, K), z3.Function("ovl0_w", V, V, V, K), z3.Function("ix_w", V, V, K)
    ix = lambda x, v, k: z3.Implies(dom(x)[k], z3.And(T.kkind(k) == 0, z3.Or(
        z3.And(isa(mp(x)[k], "int"), 0 <= iv(mp(x)[k]), iv(mp(x)[k]) < ln(v)),
        z3.And(isa(mp(x)[k], "dict"), wfix(mp(x)[k], v)))))
    e.extra_axioms += [
        z3.ForAll([r, b, x, v, k], z3.Implies(ovl(r, b, x, v), z3.And(isa(r, "dict"), at_k(r, b, x, v, k))), patterns=[z3.MultiPattern(ovl(r, b, x, v), dom(r)[k])]),
        z3.ForAll([r, b, x, v], z3.Or(ovl(r, b, x, v), z3.Not(isa(r, "dict")), z3.Not(at_k(r, b, x, v, wk(r, b, x, v)))), patterns=[ovl(r, b, x, v)]),
        z3.ForAll([r, x, v, k], z3.Implies(ovl0(r, x, v), z3.And(isa(r, "dict"), at_0(r, x, v, k))), patterns=[z3.MultiPattern(ovl0(r, x, v), dom(r)[k])]),
        z3.ForAll([r, x, v], z3.Or(ovl0(r, x, v), z3.Not(isa(r, "dict")), z3.Not(at_0(r, x, v, w0(r, x, v)))), patterns=[ovl0(r, x, v)]),
        # an overlay over an empty map is the overlay alone
        z3.ForAll([r, b, x, v], z3.Implies(z3.And(ovl(r, b, x, v), klen(b) == 0), ovl0(r, x, v)), patterns=[z3.MultiPattern(ovl(r, b, x, v), klen(b))]),
        z3.ForAll([x, v, k], z3.Implies(wfix(x, v), z3.And(isa(x, "dict"), ix(x, v, k))), patterns=[z3.MultiPattern(wfix(x, v), dom(x)[k])]),
        z3.ForAll([x, v], z3.Or(wfix(x, v), z3.Not(isa(x, "dict")), z3.Not(ix(x, v, wi(x, v)))), patterns=[wfix(x, v)]),
    ]


ovl0 = z3.Function("overlaid0", V, V, V, B)     # overlaid over nothing


def tree_dump(e, st, args, kw, node):
    e.models.note("celpy.celparser.tree_dump returns text for every tree an evaluation error carries")
    return [(st, TV(e.fresh(T.S, "treedump")))]


def setup(e):
    x, i = z3.Consts("cvx cvi", V)
    if not getattr(e, "_cv_ax", False):
        e._cv_ax = True
        e.models.note("evaluating an expression never yields one of koreo's own outcome objects")
        e.extra_axioms.append(z3.ForAll([x, i], z3.Not(isa(cel_eval(x, i), *OUTCOMES, R + "_OkData")), patterns=[cel_eval(x, i)]))
    clean_axioms(e)
    overlay_axioms(e)
    text_axioms(e)
    e.models.ext["celpy.celparser.tree_dump"] = tree_dump


# ---------------------------------------------------------------------------------------------- check_for_celevalerror
def names_location(e, st, a, r):
    return substr(loc_text(a["location"]), sv(fld("message")(r)))


def loc_text(t):
    return T.tostr(t)


def check_post(cx):
    r, v = cx.res, cx.a["value"]
    return [("None exactly when no error object is inside", (r == T.NoneV) == clean(v)),
            ("otherwise a PermFail", z3.Or(r == T.NoneV, isa(r, PERMFAIL))),
            ("the PermFail is well formed", z3.Implies(isa(r, PERMFAIL), wf_outcome(r))),
            ("the PermFail names the location", z3.Implies(isa(r, PERMFAIL), substr(loc_text(cx.a["location"]), sv(fld("message")(r)))))]


def rest_clean(cx):
    """loop invariant: what has been scanned is clean"""
    j = z3.Const("jc", I)
    src = cx.src
    if getattr(cx.it, "kind", None) == "dict":
        kid = z3.And(clean(T.kat(src, j)), clean(mp(src)[T.key(T.kat(src, j))]))
        return [("scanned entries are clean", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), kid), patterns=[T.kat(src, j)]))]
    return [("scanned items are clean", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), clean(la(src)[j])), patterns=[la(src)[j]]))]


def any_value(e, st, n):
    v = e.sym(st, n)
    return v


check = Contract("koreo.cel.evaluation", "check_for_celevalerror",
                 params=params(value=any_value, location=sym(("str", "NoneType"))), cases=returns(check_post))


# ---------------------------------------------------------------------------------------------- predicates
def kind_of(p):
    """(condition, class, message term, delay term) for each assertion kind, in the order they are looked for"""
    d = lambda n: at(p, n)
    ok = z3.And(has(p, "assert", "ok"), isa(d("ok"), "dict"))
    out = [("ok", ok)]
    for n in ("depSkip", "skip", "retry", "permFail"):
        need = ("message", "delay") if n == "retry" else ("message",)
        out.append((n, z3.And(has(p, "assert", n), has(d(n), *need))))
    return out


CLS_OF = {"depSkip": DEPSKIP, "skip": SKIP, "retry": RETRY, "permFail": PERMFAIL}


def wf_predicates(t):
    """assertions as the schema admits them: exactly one kind, only those may be decided by"""
    return z3.And(isa(t, LIST), clean(t))


def first_decides(ps, r, location):
    """outcome r is what the first (remaining) assertion says"""
    p = la(ps)[0]
    out = [("no assertion left: continue", z3.Implies(ln(ps) == 0, r == T.NoneV)),
           ("a well-formed outcome or None", z3.Or(r == T.NoneV, z3.And(isa(r, *NONOK), wf_outcome(r))))]
    kinds = kind_of(p)
    for i, (n, c) in enumerate(kinds):
        # exactly this kind
        only = z3.And(ln(ps) > 0, c, *[z3.Not(c2) for m, c2 in kinds if m != n])
        if n == "ok":
            out.append(("first is ok: continue", z3.Implies(only, r == T.NoneV)))
            continue
        body = at(p, n)
        f = z3.And(T.exact(r, CLS_OF[n]), isa(fld("message")(r), "str"), sv(fld("message")(r)) == T.tostr(at(body, "message")), fld("location")(r) == location)
        if n == "retry":
            f = z3.And(f, isa(fld("delay")(r), "int"), z3.Implies(isa(at(body, "delay"), "celtypes.IntType"), iv(fld("delay")(r)) == iv(at(body, "delay"))),
                       z3.Implies(z3.And(isa(at(body, "delay"), "float"), whole(T.rv(at(body, "delay")))), iv(fld("delay")(r)) == whole_number(T.rv(at(body, "delay")))))
        out.append((f"first is {n}: that outcome with its message" + (" and delay" if n == "retry" else ""), z3.Implies(only, f)))
    out.append(("anything else: PermFail", z3.Implies(z3.And(ln(ps) > 0, *[z3.Not(c) for _, c in kinds]), isa(r, PERMFAIL))))
    return out


def pred_cases(e, st, a):
    return [Case("decides", when=lambda cx: z3.Or(kinds_two(la(cx.a["predicates"])[0]), z3.Not(undecidable(cx.a["predicates"]))),
                 post=lambda cx: first_decides(cx.a["predicates"], cx.res, cx.a["location"])),
            Case("malformed", outcome="raise", exc=["ValueError", "TypeError"],
                 when=lambda cx: undecidable(cx.a["predicates"]))]


def undecidable(ps):
    """the first assertion is of an unknown kind that is no JSON, or a retry whose delay is no whole number"""
    p = la(ps)[0]
    kinds = dict(kind_of(p))
    return z3.And(ln(ps) > 0, z3.Not(kinds["ok"]), z3.Or(z3.And(kinds["retry"], z3.Not(int_text(p))),
                                    z3.And(z3.Not(z3.Or(list(kinds.values()))), z3.Not(z3.Function("json_ok", V, B)(p)))))


whole_number = z3.Function("whole_number", z3.RealSort(), I)
whole = z3.Function("whole", z3.RealSort(), B)           # the number has no fraction


def int_text(p):
    """the delay is a whole number as text"""
    d = at(at(p, "retry"), "delay")
    return z3.Or(z3.Function("int_ok", V, B)(z3.Function("mks", T.S, V)(T.tostr(d))), z3.And(isa(d, "float"), whole(T.rv(d))))


def pred_params(e, st):
    t, x = z3.Const("it_", V), None
    # int(str(n)) == n for every CEL integer
    d = z3.Function("mks", T.S, V)(T.tostr(t))
    e.extra_axioms.append(z3.ForAll([t], z3.Implies(z3.Or(isa(t, "celtypes.IntType"), T.exact(t, "int")), z3.And(z3.Function("int_ok", V, B)(d), z3.Function("int_of", V, I)(d) == iv(t))), patterns=[T.tostr(t)]))
    e.models.note("int(str(n)) == n for CEL integers and Python's")
    return {"predicates": e.sym(st, "predicates", LIST), "location": e.sym(st, "location", "str")}


predicate = Contract("koreo.predicate_helpers", "predicate_to_koreo_result", params=pred_params, cases=pred_cases,
                     pre=lambda e, st, a: [("assertions are a CEL list", isa(e.to_v(st, a["predicates"]), LIST))])


def kinds_two(p):
    ks = [c for _, c in kind_of(p)]
    return z3.Or([z3.And(a, b) for i, a in enumerate(ks) for b in ks[i + 1:]])


def E_(cx, runner, inputs="inputs"):
    x, i = cx.a[runner], cx.a[inputs]
    val = cel_eval(x, i)
    ok = z3.And(z3.Not(cel_raises(x, i)), z3.Not(cel_crashes(x, i)), clean(val))
    return val, ok


def perm(cx, r):
    return z3.And(isa(r, PERMFAIL), substr(T.tostr(cx.a["location"]), sv(fld("message")(r))))


def eval_post(cx):
    r, x = cx.res, cx.a["expression"]
    val, ok = E_(cx, "expression")
    return [("no expression: None", z3.Implies(x == T.NoneV, r == T.NoneV)),
            ("evaluable: exactly its value", z3.Implies(z3.And(x != T.NoneV, ok), r == val)),
            ("not evaluable: PermFail naming the location", z3.Implies(z3.And(x != T.NoneV, z3.Not(ok)), perm(cx, r))),
            ("what is returned holds no error object", z3.Implies(z3.And(x != T.NoneV, z3.Not(isa(r, PERMFAIL))), clean(r))),
            ("a value or a well-formed PermFail", z3.And(unwrapped(r), z3.Implies(isa(r, *NONOK), isa(r, PERMFAIL))))]


evaluate = Contract("koreo.cel.evaluation", "evaluate",
                    params=params(expression=sym(("celpy.Runner", "NoneType")), inputs=sym("dict"), location=sym("str")),
                    cases=returns(eval_post), opts={"mark": "eval"}, own="borrowed")


def evpred_post(cx):
    r, x = cx.res, cx.a["predicates"]
    val, ok = E_(cx, "predicates")
    some = x != T.NoneV
    good = z3.And(some, ok, isa(val, LIST))
    out = [("no assertions: continue", z3.Implies(x == T.NoneV, r == T.NoneV)),
           ("not evaluable: PermFail naming the location", z3.Implies(z3.And(some, z3.Not(ok)), perm(cx, r))),
           ("not a list: PermFail", z3.Implies(z3.And(some, ok, z3.Not(isa(val, LIST))), isa(r, PERMFAIL)))]
    out.append(("a well-formed non-Ok outcome or None", z3.Or(r == T.NoneV, z3.And(isa(r, *NONOK), wf_outcome(r)))))
    p = la(val)[0]
    fine = z3.Not(undecidable(val))
    for lb, f in first_decides(val, r, cx.a["location"]):
        out.append((lb, z3.Implies(z3.And(good, fine), f)))
    out.append(("an assertion that cannot be decided: PermFail", z3.Implies(z3.And(good, z3.Not(fine), z3.Not(kinds_two(p))), isa(r, PERMFAIL))))
    return out


def ev_params(**kw):
    def mk(e, st):
        pred_params(e, st)
        return params(**kw)(e, st)
    return mk


evpred = Contract("koreo.cel.evaluation", "evaluate_predicates",
                  params=ev_params(predicates=sym(("celpy.Runner", "NoneType")), inputs=sym("dict"), location=sym("str")),
                  cases=returns(evpred_post), opts={"mark": "pred"})


# ---------------------------------------------------------------------------------------------- overlays
def applier_inv(cx):
    e = cx.eng
    base, index, values = cx.p("base"), cx.p("index"), cx.p("values")
    o = cx.t("overlaid")
    k = z3.Const("ka", K)
    sub = mp(index)[k]
    seen = z3.And(dom(index)[k], T.kidx(index, k) < cx.i)
    f = z3.And(
        dom(o)[k] == z3.Or(dom(base)[k], seen),
        z3.Implies(z3.And(z3.Not(seen), dom(base)[k]), mp(o)[k] == mp(base)[k]),
        z3.Implies(z3.And(seen, isa(sub, "int")), mp(o)[k] == la(values)[iv(sub)]),
        z3.Implies(z3.And(seen, isa(sub, "dict"), dom(base)[k], isa(mp(base)[k], "dict")), ovl(mp(o)[k], mp(base)[k], sub, values)),
        z3.Implies(z3.And(seen, isa(sub, "dict"), z3.Not(z3.And(dom(base)[k], isa(mp(base)[k], "dict")))), ovl0(mp(o)[k], sub, values)))
    return [("entries so far are overlaid, the others are the base's", z3.ForAll([k], f, patterns=[dom(o)[k], mp(o)[k]]))]


applier = Contract("koreo.cel.evaluation", "_overlay_applier",
                   params=params(base=sym("dict"), index=sym("dict"), values=sym(LIST)),
                   pre=lambda e, st, a: [("base is a mapping", isa(e.to_v(st, a["base"]), "dict")),
                                         ("every position of the index exists", wfix(e.to_v(st, a["index"]), e.to_v(st, a["values"])))],
                   cases=returns(lambda cx: [("base overlaid key by key, maps merged, all else replaced", ovl(cx.res, cx.a["base"], cx.a["index"], cx.a["values"])),
                                             ("a mapping of the base's class", T.cls(cx.res) == T.cls(cx.a["base"]))]),
                   loops={0: Loop(applier_inv)})


def wf_overlay(t):
    """class invariant of prepared overlays: the values expression yields a list covering the index"""
    return z3.And(isa(t, "koreo.cel.prepare.Overlay"), isa(fld("values")(t), "celpy.Runner"), isa(fld("value_index")(t), "dict", "int"))


def overlay_pre(e, st, a):
    o = e.to_v(st, a["overlay"])
    i = z3.Const("oi", V)
    val = cel_eval(fld("values")(o), i)
    return [("prepared overlay: its values list covers the index", z3.And(wf_overlay(o), z3.ForAll([i], z3.Implies(
        z3.And(isa(val, LIST), isa(fld("value_index")(o), "dict")), wfix(fld("value_index")(o), val)), patterns=[val])))]


resourced = z3.Function("with_resource", V, V, V)   # inputs | {"resource": base}


def ovl_post(cx):
    e, r, o, base = cx.eng, cx.res, cx.a["overlay"], cx.a["base"]
    if getattr(cx, "kind", None) is not None:
        ci = cx.st.env.get("combined_inputs")
        ins = e.to_v(cx.st, ci) if ci is not None else None
    else:
        ins = e.fresh(V, "overlay_inputs")
    out = [("never anything but a well-formed PermFail or a mapping", z3.Or(z3.And(isa(r, PERMFAIL), wf_outcome(r)), isa(r, "dict")))]
    ix = fld("value_index")(o)
    out.append(("an overlay that is not a mapping: PermFail", z3.Implies(z3.Not(isa(ix, "dict")), isa(r, PERMFAIL))))
    if ins is None:
        return out
    k = z3.Const("ki", K)
    res_k = key_of("resource")
    inp = cx.a["inputs"]
    seen_inputs = z3.And(isa(ins, "dict"), dom(ins)[res_k], mp(ins)[res_k] == base,
                         z3.ForAll([k], z3.Implies(k != res_k, z3.And(dom(ins)[k] == dom(inp)[k], z3.Implies(dom(inp)[k], mp(ins)[k] == mp(inp)[k]))), patterns=[dom(ins)[k]]))
    val = cel_eval(fld("values")(o), ins)
    ok = z3.And(z3.Not(cel_raises(fld("values")(o), ins)), z3.Not(cel_crashes(fld("values")(o), ins)), clean(val), isa(val, LIST))
    out += [("evaluated with the inputs plus the base as `resource`", z3.Implies(isa(ix, "dict"), seen_inputs)),
            ("evaluable: the base with the values merged in", z3.Implies(z3.And(isa(ix, "dict"), ok), z3.And(ovl(r, base, ix, val), T.cls(r) == T.cls(base)))),
            ("not evaluable: PermFail naming the location", z3.Implies(z3.And(isa(ix, "dict"), z3.Not(ok)), perm(cx, r)))]
    return out


evoverlay = Contract("koreo.cel.evaluation", "evaluate_overlay",
                     params=params(overlay=sym("koreo.cel.prepare.Overlay"), inputs=sym("dict"), base=sym("dict"), location=sym("str")),
                     pre=lambda e, st, a: overlay_pre(e, st, a) + [("the base is a mapping", isa(e.to_v(st, a["base"]), "dict"))],
                     cases=returns(ovl_post), opts={"mark": "overlay"})


# ---------------------------------------------------------------------------------------------- ValueFunction
def vf_cases(e, st, a):
    f = lambda cx, n: fld(n)(cx.a["function"])

    def sees_inputs(cx, ins):
        return z3.And(isa(ins, "dict"), dom(ins)[key_of("inputs")], mp(ins)[key_of("inputs")] == cx.a["inputs"])

    def p0(cx):
        p = cx.ev[0].args
        return [("the function's own preconditions are decided", p["predicates"] == f(cx, "preconditions")),
                ("over the given inputs", sees_inputs(cx, p["inputs"]))], p

    def stop(cx):
        fs, p = p0(cx)
        return fs + [("stops only for a precondition outcome or an empty return",
                      z3.Or(z3.And(p["res"] != T.NoneV, cx.res == p["res"]), z3.And(p["res"] == T.NoneV, f(cx, "return_value") == T.NoneV, cx.res == T.NoneV)))]

    def local(cx):
        fs, p = p0(cx)
        q = cx.ev[1].args
        return fs + [("body only after the preconditions passed", p["res"] == T.NoneV), ("locals are the function's", q["expression"] == f(cx, "local_values")),
                     ("stops only when locals fail", z3.And(isa(cx.res, PERMFAIL), z3.Or(cx.res == q["res"], z3.Not(isa(q["res"], MAP, "NoneType")))))]

    def full(cx):
        fs, p = p0(cx)
        q, o = cx.ev[1].args, cx.ev[2].args
        ins = o["inputs"]
        loc = mp(ins)[key_of("locals")]
        return fs + [("body only after the preconditions passed", p["res"] == T.NoneV), ("locals are the function's", q["expression"] == f(cx, "local_values")),
                     ("return is the function's", o["overlay"] == f(cx, "return_value")),
                     ("return sees the inputs", sees_inputs(cx, ins)),
                     ("return sees the locals", z3.And(dom(ins)[key_of("locals")], z3.If(q["res"] == T.NoneV, z3.And(isa(loc, MAP), klen(loc) == 0), loc == q["res"]))),
                     ("merged over the base", z3.If(cx.a["value_base"] == T.NoneV, z3.And(isa(o["base"], MAP), klen(o["base"]) == 0), o["base"] == cx.a["value_base"])),
                     ("its result is the outcome", cx.res == o["res"])]
    u = lambda post: lambda cx: post(cx) + [("a value or a well-formed outcome", unwrapped(cx.res))]
    return [Case("decided by preconditions", events=[("pred", [])], post=u(stop)), Case("locals fail", events=[("pred", []), ("eval", [])], post=u(local)),
            Case("evaluated", events=[("pred", []), ("eval", []), ("overlay", [])], post=u(full))]


def vf_pre(e, st, a):
    f = e.to_v(st, a["function"])
    o = fld("return_value")(f)
    i = z3.Const("oi", V)
    val = cel_eval(fld("values")(o), i)
    return [("prepared ValueFunction", z3.And(isa(f, "koreo.value_function.structure.ValueFunction"), z3.Implies(o != T.NoneV, z3.And(wf_overlay(o), z3.ForAll([i], z3.Implies(
        z3.And(isa(val, LIST), isa(fld("value_index")(o), "dict")), wfix(fld("value_index")(o), val)), patterns=[val]))))),
            ("base is a mapping or absent", isa(e.to_v(st, a["value_base"]), "dict", "NoneType"))]


def json_to_cel(e, st, args, kw, node):
    if isinstance(args[0], C) and args[0].x is None:
        return [(st, C(None))]
    raise Unsupported_("json_to_cel")


vf = Contract("koreo.value_function.reconcile", "reconcile_value_function",
              params=params(location=sym("str"), function=sym("koreo.value_function.structure.ValueFunction"), inputs=sym(), value_base=sym(("dict", "NoneType"))),
              pre=vf_pre, cases=vf_cases, opts={"mark": "vf"})

CONTRACTS = [check, predicate, evaluate, evpred, applier, evoverlay, vf]
