"""Shared specification vocabulary."""
import z3
from pyvc import theory as T
from pyvc.theory import V, K, I, B, isa, lit, fld, sv, iv, ln, la, dom, mp, klen
from pyvc.engine import Contract, Case, SV, C, BV, IV, TV, Tup, Rec, Event
from pyvc.stmts import Loop

R = "koreo.result."
DEPSKIP, SKIP, OK, RETRY, PERMFAIL = (R + x for x in ("DepSkip", "Skip", "Ok", "Retry", "PermFail"))
OUTCOMES = [DEPSKIP, SKIP, OK, RETRY, PERMFAIL]
NONOK = [DEPSKIP, SKIP, RETRY, PERMFAIL]
ERRORS = [RETRY, PERMFAIL]
substr = z3.Function("substr_in", T.S, T.S, B)
join = z3.Function("join", T.S, V, T.S)


def text_or_none(t):
    return z3.Or(t == T.NoneV, isa(t, "str"))


def wf_outcome(t):
    """class invariant of the outcome classes (their annotated attribute types)"""
    return z3.And(isa(t, *OUTCOMES),
                  text_or_none(fld("location")(t)),
                  z3.Implies(isa(t, *NONOK), text_or_none(fld("message")(t))),
                  z3.Implies(isa(t, RETRY), z3.And(isa(fld("delay")(t), "int"))))


def sev(t):
    """DepSkip 0 < Skip 1 < Ok 2 < Retry 3 < PermFail 4"""
    return z3.If(isa(t, PERMFAIL), 4, z3.If(isa(t, RETRY), 3, z3.If(isa(t, OK), 2, z3.If(isa(t, SKIP), 1, 0))))


def usev(t):
    """severity of an unwrapped outcome: every value that is not an outcome object counts as Ok"""
    return z3.If(isa(t, PERMFAIL), 4, z3.If(isa(t, RETRY), 3, z3.If(isa(t, SKIP), 1, z3.If(isa(t, DEPSKIP), 0, 2))))


def said(t):
    """the outcome carries a message"""
    m = fld("message")(t)
    return z3.And(isa(m, "str"), sv(m) != lit(""))


def text_axioms(eng):
    a, b, c = z3.Consts("sa sb sc", T.S)
    if getattr(eng, "_text_ax", False):
        return
    eng._text_ax = True
    eng.extra_axioms += [
        z3.ForAll([a], substr(a, a), patterns=[substr(a, a)]),
        z3.ForAll([a, b], z3.Implies(z3.And(substr(a, b), b == lit("")), a == lit("")), patterns=[substr(a, b)]),
        z3.ForAll([a, b, c], z3.Implies(z3.And(substr(a, b), substr(b, c)), substr(a, c)), patterns=[z3.MultiPattern(substr(a, b), substr(b, c))]),
    ]


def returns(post, name="returns"):
    """the single behaviour: returns normally, post holds"""
    return lambda e, st, a: [Case(name, post=post)]


def sym(cls=None, exact=False, own="borrowed"):
    return lambda e, st, n: e.sym(st, n, cls, own, exact)


def params(**kw):
    def mk(e, st):
        out = {}
        for n, f in kw.items():
            out[n] = f(e, st, n) if callable(f) else f
        return out
    return mk


def unwrapped(t):
    """a value, or a well-formed outcome; never a wrapped Ok"""
    return z3.And(z3.Not(isa(t, OK)), z3.Not(isa(t, R + "_OkData")), z3.Implies(isa(t, *NONOK), wf_outcome(t)))
