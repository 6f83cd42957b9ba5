"""koreo/cel/prepare.py: expressions are the compiled form of what the definition says (C11, C12, C14, C20)."""
from .common import *
from .crd import json_value

MOD = "koreo.cel.prepare"
ENC = "koreo.cel.encoder"
RUNNER, PF = "celpy.Runner", PERMFAIL
encoded = z3.Function("encoded", V, T.S)                  # what encode_cel makes of a value
parsed = z3.Function("cel_parse", T.S, V)
malformed = z3.Function("cel_malformed", T.S, B)
ast_ = fld("ast")


def empty(spec):
    return z3.Or(spec == T.NoneV, z3.And(isa(spec, "str"), sv(spec) == lit("")))


def compiled(r, spec):
    """r is the compiled form of the expression written as spec (None: no expression)"""
    return z3.If(empty(spec), r == T.NoneV, z3.And(isa(r, RUNNER), ast_(r) == parsed(encoded(spec)), isa(ast_(r), "lark.Tree")))


def compiled_map(r, spec):
    return z3.If(spec == T.NoneV, r == T.NoneV, z3.And(isa(spec, "dict"), isa(r, RUNNER), ast_(r) == parsed(encoded(spec)), isa(ast_(r), "lark.Tree")))


def refused(r):
    """a PermFail which says why"""
    return z3.And(isa(r, PERMFAIL), wf_outcome(r), said(r))


def prepare_post(rel):
    def post(cx):
        return [("nothing, the compiled expression, or a PermFail with a message", z3.Or(rel(cx.res, cx.a["spec"]), refused(cx.res))),
                ("an absent expression is not an error", z3.Implies(cx.a["spec"] == T.NoneV, cx.res == T.NoneV))]
    return post


spec_param = sym()
P3 = dict(cel_env=sym("celpy.Environment"), location=sym("str"))
expression = Contract(MOD, "prepare_expression", params=params(cel_env=P3["cel_env"], spec=sym(), location=P3["location"]), cases=returns(prepare_post(compiled)))
map_expression = Contract(MOD, "prepare_map_expression", params=params(cel_env=P3["cel_env"], spec=sym(), location=P3["location"]), cases=returns(prepare_post(compiled_map)))


# ---------------------------------------------------------------------------------------------- encoding
encode = Contract(ENC, "encode_cel", params=params(value=sym()), cases=returns(lambda cx: [("text", T.exact(cx.res, "str"))] + ([("", sv(cx.res) == encoded(cx.a["value"]))] if getattr(cx, "kind", None) is None else [])),
                  opts={"trusted": ["encode_cel is a function of its argument"]})
escape = Contract(ENC, "_escape", params=params(value=sym("str")), pre=lambda e, st, a: [("text", isa(e.to_v(st, a["value"]), "str"))], cases=returns(lambda cx: [("text", T.exact(cx.res, "str"))]))
plain_text = Contract(ENC, "_encode_plain", params=params(maybe_number=sym()), cases=returns(lambda cx: [("a truth value", isa(cx.res, "bool")), ("anything but text is plain", z3.Implies(z3.Not(isa(cx.a["maybe_number"], "str")), iv(cx.res) == 1))]))


# ---------------------------------------------------------------------------------------------- overlays
FRAME = z3.DeclareSort("Frame")                          # a reading of absolute positions: a value and whether the position exists
at, there = z3.Function("frame_at", FRAME, I, V), z3.Function("frame_there", FRAME, I, B)
frame = z3.Function("a_frame", FRAME, B)
maps = z3.Function("overlay_maps", V, V, FRAME, B)       # overlay_maps(index, spec, F): every leaf of spec is found in F where index says
indexed = z3.Function("overlay_indexed", V, V, FRAME, B)
OVERLAY = MOD + ".Overlay"
F_ = z3.Const("ovF", FRAME)


def branch(x):
    """maps with entries are merged key by key; everything else replaces"""
    return z3.And(isa(x, "dict"), klen(x) > 0)


def overlay_axioms(e):
    if getattr(e, "_celprep_ax", False):
        return
    e._celprep_ax = True
    ix, x, k = z3.Const("ovi", V), z3.Const("ovx", V), z3.Const("ovk", K)
    w = z3.Function("overlay_maps_w", V, V, FRAME, K)
    item = lambda k: z3.And(dom(ix)[k] == dom(x)[k], z3.Implies(dom(x)[k], indexed(mp(ix)[k], mp(x)[k], F_)))
    m, n = maps(ix, x, F_), indexed(ix, x, F_)
    e.extra_axioms += [
        z3.ForAll([ix, x, F_, k], z3.Implies(m, item(k)), patterns=[z3.MultiPattern(m, dom(ix)[k]), z3.MultiPattern(m, dom(x)[k])]),
        z3.ForAll([ix, x, F_], z3.Implies(m, isa(ix, "dict")), patterns=[m]),
        z3.ForAll([ix, x, F_], z3.Or(m, z3.Not(isa(ix, "dict")), z3.Not(item(w(ix, x, F_)))), patterns=[m]),
        z3.ForAll([ix, x, F_], n == z3.If(branch(x), maps(ix, x, F_), z3.And(isa(ix, "int"), there(F_, iv(ix)), at(F_, iv(ix)) == x)), patterns=[n]),
        z3.ForAll([F_], frame(F_), patterns=[frame(F_)]),
    ]


def reads(F, values, base):
    """F reads values at the positions from base on"""
    i = z3.Const("ovj", I)
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln(values)), z3.And(there(F, base + i), at(F, base + i) == la(values)[i])), patterns=[la(values)[i]])


def placed(ix, x, values, base):
    return z3.ForAll([F_], z3.Implies(z3.And(frame(F_), reads(F_, values, base)), maps(ix, x, F_)), patterns=[frame(F_)])


def indexer_post(cx):
    r, b = cx.res, iv(cx.a["base"])
    return [("two results", z3.And(T.exact(r, "tuple"), ln(r) == 2)), ("an index and the list of leaves", z3.And(isa(la(r)[0], "dict"), T.exact(la(r)[1], "list"))),
            ("every leaf of the overlay is found where the index says", placed(la(r)[0], cx.a["spec"], la(r)[1], b))]


def indexer_inv(cx):
    spec, index, values, b = cx.p("spec"), cx.t("index"), cx.t("values"), iv(cx.p("base"))
    k = z3.Const("ovkk", K)
    return [("index and leaves", z3.And(T.exact(index, "dict"), T.exact(values, "list"))),
            ("the entries so far are indexed", z3.ForAll([k], dom(index)[k] == z3.And(dom(spec)[k], T.kidx(spec, k) < cx.i), patterns=[dom(index)[k], dom(spec)[k]])),
            ("their leaves are found where the index says", z3.ForAll([F_, k], z3.Implies(z3.And(frame(F_), reads(F_, values, b), dom(index)[k]), indexed(mp(index)[k], mp(spec)[k], F_)), patterns=[z3.MultiPattern(frame(F_), mp(index)[k])]))]


indexer = Contract(MOD, "_overlay_indexer", params=params(spec=sym("dict"), base=lambda e, st, n: e.sym(st, n, "int", exact=True)), pre=lambda e, st, a: [("a mapping", isa(e.to_v(st, a["spec"]), "dict"))],
                   cases=returns(indexer_post), loops={0: Loop(indexer_inv)})


overlay_of = z3.Function("overlay_of", V, V, B)          # the overlay is the compiled form of that spec: the definition is what prepare_overlay_expression is proved to return


def overlay_facts(e):
    """what overlay_of means, with the list of leaves named"""
    r, s = z3.Const("oor", V), z3.Const("oos", V)
    l = z3.Function("overlay_leaves", V, V, V)(r, s)
    o = overlay_of(r, s)
    e.extra_axioms += [z3.ForAll([r, s], z3.Implies(o, z3.And(isa(r, OVERLAY), isa(fld("values")(r), RUNNER), isa(fld("value_index")(r), "dict"), isa(ast_(fld("values")(r)), "lark.Tree"), isa(l, "list"), compiled(fld("values")(r), l), isa(s, "dict"))), patterns=[o]),
                       z3.ForAll([r, s], z3.Implies(o, placed(fld("value_index")(r), s, l, z3.IntVal(0))), patterns=[o])]


def overlay_post(cx):
    r, sp = cx.res, cx.a["spec"]
    l = z3.Const("ovl", V)
    if getattr(cx, "kind", None) is None:
        made = overlay_of(r, sp)
    else:
        made = z3.And(isa(r, OVERLAY), isa(fld("values")(r), RUNNER), isa(fld("value_index")(r), "dict"),
                      z3.Exists([l], z3.And(isa(l, "list"), compiled(fld("values")(r), l), placed(fld("value_index")(r), sp, l, z3.IntVal(0)))))
    return [("nothing, the compiled overlay, or a PermFail with a message", z3.Or(z3.And(sp == T.NoneV, r == T.NoneV), z3.And(isa(sp, "dict"), made), refused(r))), ("an absent overlay is not an error", z3.Implies(sp == T.NoneV, r == T.NoneV))]


overlay_expression = Contract(MOD, "prepare_overlay_expression", params=params(cel_env=P3["cel_env"], spec=sym(), location=P3["location"]), cases=returns(overlay_post))

# ---------------------------------------------------------------------------------------------- assertions
PH = "koreo.predicate_helpers"


failing = z3.Function("fmt:{}.filter(predicate, !predicate.assert)", T.S, T.S)


def asserts(r, sp):
    """r selects, from the assertions written as sp, those that do not hold, in their order (None: no assertions)"""
    return z3.If(T.truth(sp), z3.And(isa(r, RUNNER), isa(ast_(r), "lark.Tree"), ast_(r) == parsed(failing(encoded(sp)))), r == T.NoneV)


def extractor_post(cx):
    sp, r = cx.a["predicate_spec"], cx.res
    return [("nothing, the compiled assertions, or a PermFail with a message", z3.Or(asserts(r, sp), z3.And(T.truth(sp), refused(r))))]


extractor = Contract(PH, "predicate_extractor", params=params(cel_env=P3["cel_env"], predicate_spec=sym()), cases=returns(extractor_post))


def setup(e):
    text_axioms(e)
    if not getattr(e, "_celprep_ax", False):
        overlay_axioms(e)
        overlay_facts(e)


CONTRACTS = [expression, map_expression, encode, escape, plain_text, indexer, overlay_expression, extractor]
