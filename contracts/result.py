"""koreo/result.py: severity-maximal, lossless combination (C03)."""
from .common import *

OKD = R + "_OkData"


def vals_len(t):
    """number of values an accumulated Ok stands for"""
    d = fld("data")(t)
    return z3.If(isa(d, OKD), ln(fld("values")(d)), 1)


def val_at(t, j):
    d = fld("data")(t)
    return z3.If(isa(d, OKD), la(fld("values")(d))[j], d)


def wf_acc(t):
    d = fld("data")(t)
    vs = fld("values")(d)
    return z3.And(wf_outcome(t), z3.Implies(z3.And(isa(t, OK), isa(d, OKD)), z3.And(T.exact(vs, "list"), ln(vs) >= 1)))


def wf_item(t):
    """an outcome as produced by steps: its value is not the internal accumulator"""
    return z3.And(wf_outcome(t), z3.Implies(isa(t, OK), z3.Not(isa(fld("data")(t), OKD))))


def combine_post(cx):
    a, b, r = cx.a["self"], cx.a["other"], cx.res
    j = z3.Const("j", I)
    na = vals_len(a)
    both_ok = z3.And(isa(a, OK), isa(b, OK))
    m = lambda t: fld("message")(t)
    keeps = lambda x: z3.Implies(said(x), z3.And(said(r), substr(sv(m(x)), sv(m(r)))))
    dl = lambda t: iv(fld("delay")(t))
    return [
        ("result is a well-formed outcome", wf_acc(r)),
        ("severity is the maximum", sev(r) == z3.If(sev(a) >= sev(b), sev(a), sev(b))),
        ("values of both Oks are kept in order: count", z3.Implies(both_ok, vals_len(r) == na + 1)),
        ("values of both Oks are kept in order: left", z3.Implies(z3.And(both_ok, 0 <= cx.j, cx.j < na), val_at(r, cx.j) == val_at(a, cx.j))),
        ("values of both Oks are kept in order: right", z3.Implies(both_ok, val_at(r, na) == fld("data")(b))),
        ("an Ok beaten by nothing keeps its values: count", z3.Implies(z3.And(isa(a, OK), sev(b) < 2), vals_len(r) == na)),
        ("an Ok beaten by nothing keeps its values", z3.Implies(z3.And(isa(a, OK), sev(b) < 2, 0 <= cx.j, cx.j < na), val_at(r, cx.j) == val_at(a, cx.j))),
        ("a first Ok is taken over", z3.Implies(z3.And(sev(a) < 2, isa(b, OK)), z3.And(vals_len(r) == 1, val_at(r, 0) == fld("data")(b)))),
        ("messages of the winning error class are kept", z3.And(
            z3.Implies(z3.And(sev(a) >= 3, sev(a) == sev(r)), keeps(a)), z3.Implies(z3.And(sev(b) >= 3, sev(b) == sev(r)), keeps(b)))),
        ("the longest delay is kept", z3.Implies(isa(r, RETRY), z3.And(
            z3.Implies(isa(a, RETRY), dl(r) >= dl(a)), z3.Implies(isa(b, RETRY), dl(r) >= dl(b)),
            z3.Or(z3.And(isa(a, RETRY), dl(r) == dl(a)), z3.And(isa(b, RETRY), dl(r) == dl(b)))))),
    ]


def combine_cases(e, st, a):
    def post(cx):
        # quantified over the element index: as a skolem constant when proving, as a quantifier when assuming
        if getattr(cx, "kind", None) is not None:
            cx.j = e.fresh(I, "j")
            return combine_post(cx)
        cx.j = z3.Const("jq", I)
        out = []
        for lb, f in combine_post(cx):
            if "in order: left" in lb or lb == "an Ok beaten by nothing keeps its values":
                vs = la(fld("values")(fld("data")(cx.res)))
                f = z3.ForAll([cx.j], f, patterns=[vs[cx.j]])
            out.append((lb, f))
        return out
    return [Case("combines", post=post)]


def combine_contract(name):
    def ps(e, st):
        text_axioms(e)
        return {"self": e.sym(st, "self", R + name), "other": e.sym(st, "other", OUTCOMES)}

    def pre(e, st, a):
        s, o = e.to_v(st, a["self"]), e.to_v(st, a["other"])
        return [("left operand is well-formed", wf_acc(s)), ("right operand is a plain outcome", wf_item(o))]
    return Contract("koreo.result", f"{name}.combine", params=ps, pre=pre, cases=combine_cases)


okc = z3.Function("okc", V, I, I)     # number of Ok among the first n elements


def okc_axioms(e, src, isok):
    """defining equations of the ghost counter for this sequence (conservative: a recursive definition)"""
    j = z3.Const("j", I)
    e.extra_axioms += [okc(src, 0) == 0,
                       z3.ForAll([j], z3.Implies(0 <= j, okc(src, j + 1) == okc(src, j) + z3.If(isok(la(src)[j]), 1, 0)), patterns=[okc(src, j + 1)]),
                       z3.ForAll([j], z3.Implies(0 <= j, okc(src, j + 1) == okc(src, j) + z3.If(isok(la(src)[j]), 1, 0)), patterns=[la(src)[j]])]


def fold_inv(sevf, data):
    def inv(cx):
        acc, i, src = cx.acc, cx.i, cx.src
        x = lambda j: la(src)[j]
        j = z3.Const("jf", I)
        rng = z3.And(0 <= j, j < i)
        q = lambda f: z3.ForAll([j], z3.Implies(rng, f), patterns=[la(src)[j]])
        w = cx.eng.__dict__.setdefault("_foldw", z3.Function("foldw", V, I, I))
        m = lambda t: fld("message")(t)
        n = okc(src, i)
        return [
            ("accumulator is well-formed", wf_acc(acc)),
            ("nothing seen: DepSkip", z3.Implies(i == 0, sev(acc) == 0)),
            ("accumulator dominates every element", q(sevf(x(j)) <= sev(acc))),
            ("accumulator's severity occurs", z3.Implies(i > 0, z3.Exists([j], z3.And(rng, sevf(x(j)) == sev(acc))))),
            ("Ok values: count", z3.Implies(sev(acc) == 2, vals_len(acc) == n)),
            ("Ok values: in order", z3.Implies(sev(acc) == 2, q(z3.Implies(sevf(x(j)) == 2, val_at(acc, okc(src, j)) == data(x(j)))))),
            ("Ok positions are below the count", q(z3.Implies(sevf(x(j)) == 2, okc(src, j) < n))),
            ("no Ok yet", z3.Implies(sev(acc) < 2, n == 0)),
            ("all Ok: every one counted", z3.Implies(all_ok(src, ln(src), sevf), z3.And(n == i, q(okc(src, j) == j)))),
            ("count is not negative", z3.And(n >= 0, q(okc(src, j) >= 0))),
            ("messages of the winning class", z3.Implies(sev(acc) >= 3, q(z3.Implies(z3.And(sevf(x(j)) == sev(acc), said(x(j))),
                                                                                z3.And(said(acc), substr(sv(m(x(j))), sv(m(acc)))))))),
            ("longest delay", z3.Implies(sev(acc) == 3, z3.And(
                q(z3.Implies(sevf(x(j)) == 3, iv(fld("delay")(x(j))) <= iv(fld("delay")(acc)))),
                z3.Exists([j], z3.And(rng, sevf(x(j)) == 3, iv(fld("delay")(x(j))) == iv(fld("delay")(acc))))))),
        ]
    return inv


def all_ok(src, n, sevf):
    j = z3.Const("jall", I)
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), sevf(la(src)[j]) == 2), patterns=[la(src)[j]])


def fold_contract(name, sevf, data, unwrapped_):
    wf = (lambda t: z3.Implies(isa(t, *NONOK), wf_outcome(t))) if unwrapped_ else wf_item
    plain = (lambda t: z3.Not(isa(t, OKD))) if unwrapped_ else (lambda t: z3.BoolVal(True))

    def ps(e, st):
        text_axioms(e)
        s = e.sym(st, "outcomes", ("list", "tuple"))
        st.add(z3.Not(isa(s.t, *T.RECORDS)))
        st.add(ln(s.t) >= 0)
        okc_axioms(e, s.t, lambda t: sevf(t) == 2)
        return {"outcomes": s}

    def pre(e, st, a):
        s, j = e.to_v(st, a["outcomes"]), z3.Const("jp", I)
        return [("a sequence of well-formed outcomes", z3.And(isa(s, "list", "tuple"), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(s)), z3.And(wf(la(s)[j]), plain(la(s)[j]))), patterns=[la(s)[j]])))]

    def post(cx):
        src, r = cx.a["outcomes"], cx.res
        n = ln(src)
        x = lambda j: la(src)[j]
        j = z3.Const("jo", I)
        rng = z3.And(0 <= j, j < n)
        q = lambda f: z3.ForAll([j], z3.Implies(rng, f), patterns=[la(src)[j]])
        m = lambda t: fld("message")(t)
        s = (lambda t: sevf(t)) if unwrapped_ else sev
        lst = r if unwrapped_ else fld("data")(r)
        isok = s(r) == 2
        out = [
            ("empty sequence gives Skip", z3.Implies(n == 0, isa(r, SKIP))),
            ("most severe class: upper bound", z3.Implies(n > 0, q(sevf(x(j)) <= s(r)))),
            ("most severe class: occurs", z3.Implies(n > 0, z3.Exists([j], z3.And(rng, sevf(x(j)) == s(r))))),
            ("every Ok value is kept: list of the right length", z3.Implies(isok, z3.And(isa(lst, "list"), ln(lst) == okc(src, n)))),
            ("every Ok value is kept: at its position", z3.Implies(isok, q(z3.Implies(sevf(x(j)) == 2, la(lst)[okc(src, j)] == data(x(j)))))),
            ("all Ok: the values, each at its place", z3.Implies(z3.And(n > 0, all_ok(src, n, sevf)), z3.And(isok, isa(lst, "list"), ln(lst) == n, z3.ForAll([j], z3.Implies(rng, la(lst)[j] == data(x(j))), patterns=[la(src)[j], la(lst)[j]])))),
            ("every message of the winning error class is kept", z3.Implies(s(r) >= 3, q(z3.Implies(z3.And(sevf(x(j)) == s(r), said(x(j))),
                                                                                           z3.And(said(r), substr(sv(m(x(j))), sv(m(r)))))))),
            ("a value or a well-formed outcome", unwrapped(r) if unwrapped_ else wf_outcome(r)),
            ("longest Retry delay", z3.Implies(s(r) == 3, z3.And(
                q(z3.Implies(sevf(x(j)) == 3, iv(fld("delay")(x(j))) <= iv(fld("delay")(r)))),
                z3.Exists([j], z3.And(rng, sevf(x(j)) == 3, iv(fld("delay")(x(j))) == iv(fld("delay")(r))))))),
        ]
        return out

    return Contract("koreo.result", name, params=ps, pre=pre, cases=returns(post), loops={"reduce": Loop(fold_inv(sevf, data))})


def classifier(name, f):
    def post(cx):
        return [("classification", T.truth(cx.res) == f(cx.a["candidate"])), ("is a bool", T.exact(cx.res, "bool"))]
    return Contract("koreo.result", name, params=params(candidate=sym()), cases=returns(post))


CONTRACTS = [combine_contract(n) for n in ("DepSkip", "Skip", "Ok", "Retry", "PermFail")] + [
    fold_contract("combine", sev, lambda t: fld("data")(t), False),
    fold_contract("unwrapped_combine", usev, lambda t: t, True),
    classifier("is_ok", lambda t: isa(t, OK)),
    classifier("is_error", lambda t: isa(t, *ERRORS)),
    classifier("is_skip", lambda t: isa(t, DEPSKIP, SKIP)),
    classifier("is_unwrapped_ok", lambda t: z3.Not(isa(t, *NONOK))),
    classifier("is_not_ok", lambda t: z3.Not(isa(t, OK))),
    classifier("is_not_error", lambda t: z3.Not(isa(t, *ERRORS))),
]
