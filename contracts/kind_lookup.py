"""koreo/resource_function/reconcile/kind_lookup.py: a lookup that fails, is cancelled or times out leaves no lock behind (C09).

Tasks interleave only at awaits.  At every await the globals are replaced by arbitrary contents subject to what the other
calls of this very function guarantee (checked here for this call at each await and at the end)."""
from .common import *
from pyvc.engine import Coro, Unsupported
from .reconcile import excused

MOD = "koreo.resource_function.reconcile.kind_lookup"
F = z3.Function
T.add_class("asyncio.Timeout")
MAPK, LOCKK = (MOD, "_plural_map"), (MOD, "_lookup_locks")
OTHERS, SETS = ("ghost", "kind_owners"), ("ghost", "events")
GL = (MAPK, LOCKK, OTHERS, SETS)
TERM = {g: z3.Const(f"global:{'.'.join(g)}", V) for g in GL}
owned = F("lookup_under_way", V, K, B)                 # owned(ghost, k): another call that is still running installed the lock of k
isset = F("event_is_set", V, z3.ArraySort(V, B))
k = z3.Const("lk", K)


def setup(e):
    for g in GL:
        e.globals_spec[g] = glob(g)
    e.models.ext.update({"asyncio.Event": new_event, "asyncio.wait_for": wait_for, "asyncio.timeout": timeout})
    e.models.with_hook = with_hook
    e.models.meth.update(set=set_event, wait=wait, lookup_kind=lookup)


def glob(g):
    def f(e, st):
        st.add(T.exact(TERM[g], "dict"))
        return SV(TERM[g], "deep", (None, "global", "dict"))
    return f


def now(e, st):
    return [e.snap(st, e.globals_spec[g](e, st)) for g in GL]


def put(e, st, g, *facts):
    n = e.fresh(V, g[1])
    st.add(T.exact(n, "dict"), *[f(n) for f in facts])
    e.mutate(st, e.globals_spec[g](e, st), n, g[1])
    return n


def mine(st, locks, x):
    """the lock of x is the one this call made"""
    own = st.ghost.get("lock")
    return z3.BoolVal(False) if own is None else z3.And(dom(locks)[x], mp(locks)[x] == own)


def invariant(st, m, l, o, s, running=True):
    """a lock is either resolved, or some running call is going to resolve or remove it"""
    me = (lambda x: mine(st, l, x)) if running else (lambda x: z3.BoolVal(False))
    pats = [dom(l)[k], owned(o, k)]
    return [("answers are texts", z3.ForAll([k], z3.Implies(dom(m)[k], isa(mp(m)[k], "str")), patterns=[dom(m)[k]])),
            ("locks are events", z3.ForAll([k], z3.Implies(dom(l)[k], T.exact(mp(l)[k], "asyncio.Event")), patterns=[mp(l)[k]])),
            ("a lookup under way holds a lock", z3.ForAll([k], z3.Implies(owned(o, k), dom(l)[k]), patterns=pats)),
            ("no lock is left behind", z3.ForAll([k], z3.Implies(dom(l)[k], z3.Or(z3.And(dom(m)[k], isset(s)[mp(l)[k]]), owned(o, k), me(k))), patterns=pats))]


def guarantee(e, st, pre):
    """what this call changed since it last ran concerns its own lookup only"""
    m0, l0, o0, s0 = pre
    m, l, o, s = now(e, st)
    same = lambda a, b, x: z3.And(dom(a)[x] == dom(b)[x], mp(a)[x] == mp(b)[x])
    return [("lookups of other calls are left alone", z3.ForAll([k], z3.Implies(owned(o0, k), z3.And(same(l, l0, k), same(m, m0, k), isset(s)[mp(l)[k]] == isset(s0)[mp(l0)[k]])), patterns=[owned(o0, k)])),
            ("answers are kept", z3.ForAll([k], z3.Implies(dom(m0)[k], same(m, m0, k)), patterns=[dom(m0)[k]])),
            ("the only lock put in place is one made here", z3.ForAll([k], z3.Implies(z3.And(dom(l)[k], z3.Not(same(l, l0, k))), mine(st, l, k)), patterns=[dom(l)[k]]))]


def interleave(e, st):
    """other tasks run: everything but the lookup of this call may change"""
    cur = now(e, st)
    e.prove_many(st, [(f"at an await: {lb}", f) for lb, f in invariant(st, *cur) + guarantee(e, st, st.ghost["segment"])])
    m, l, o, s = cur
    m2 = put(e, st, MAPK, lambda n: z3.ForAll([k], z3.Implies(dom(m)[k], z3.And(dom(n)[k], mp(n)[k] == mp(m)[k])), patterns=[dom(m)[k]]))
    l2 = put(e, st, LOCKK)
    o2, s2 = put(e, st, OTHERS), put(e, st, SETS)
    own = st.ghost.get("lock")
    if own is not None:
        st.add(z3.ForAll([k], z3.Implies(z3.And(dom(l)[k], mp(l)[k] == own), z3.And(dom(l2)[k], mp(l2)[k] == own, dom(m2)[k] == dom(m)[k], mp(m2)[k] == mp(m)[k], z3.Not(owned(o2, k)))), patterns=[dom(l)[k]]),
               isset(s2)[own] == isset(s)[own],
               z3.ForAll([k], z3.Implies(z3.And(dom(l2)[k], mp(l2)[k] == own), z3.And(dom(l)[k], mp(l)[k] == own)), patterns=[mp(l2)[k]]))
    for lb, f in invariant(st, m2, l2, o2, s2):
        st.add(f)
    st.ghost["segment"] = now(e, st)
    e.models.note("tasks interleave only at awaits; other calls of get_plural_kind keep the guarantee proved for this one")


def event_obj(e, st, o):
    if not isinstance(o, SV):
        return None, None
    t = e.snap(st, o)
    return e.guard(st, isa(t, "asyncio.Event"), "AttributeError"), t


def new_event(e, st, args, kw, node):
    v = e.sym(st, "event", "asyncio.Event", own="deep", exact=True)
    m, l, o, s = now(e, st)
    st.add(z3.ForAll([k], z3.Implies(dom(l)[k], mp(l)[k] != v.t), patterns=[mp(l)[k]]))      # a new object
    put(e, st, SETS, lambda n: isset(n) == z3.Store(isset(s), v.t, z3.BoolVal(False)))
    if "lock" in st.ghost:
        raise Unsupported("more than one lock")
    st.ghost["lock"] = v.t
    e.models.note("asyncio.Event(): a new event, not set; set() sets it; wait() returns once it is set")
    return [(st, v)]


def set_event(e, st, o, args, kw, node):
    s, t = event_obj(e, st, o)
    if t is None:
        return None
    if s is None:
        return []
    es = now(e, s)[3]
    put(e, s, SETS, lambda n: isset(n) == z3.Store(isset(es), t, z3.BoolVal(True)))
    return [(s, C(None))]


def wait(e, st, o, args, kw, node):
    s, t = event_obj(e, st, o)
    if t is None:
        return None
    return [] if s is None else [(s, SV(e.fresh(V, "waiter"), "deep"))]


def fails(e, s):
    x = e.sym(s.copy(), "raised", "BaseException", own="deep")
    bad = s.copy().add(isa(x.t, "BaseException"), excused(x.t))
    e.sinks[-1].append((bad, x))


def wait_for(e, st, args, kw, node):
    def th(s):
        interleave(e, s)
        fails(e, s)
        return [(s, SV(e.fresh(V, "waited")))]
    return [(st, Coro(th))]


def lookup(e, st, o, args, kw, node):
    def th(s):
        s.ghost["asked"] = e.to_v(s, args[0])
        interleave(e, s)
        fails(e, s)
        r = e.sym(s, "plural", "str")
        s.ghost["answer"] = r.t
        e.models.note("kr8s Api.lookup_kind answers with a triple whose second element is the plural name, or raises")
        return [(s, Tup([SV(e.fresh(V, "x")), r, SV(e.fresh(V, "y"))]))]
    return [(st, Coro(th))]


def timeout(e, st, args, kw, node):
    return [(st, e.sym(st, "timeout", "asyncio.Timeout", own="deep", exact=True))]


def with_hook(e, st, cm, item, body, n):
    if not isinstance(cm, SV) or not e.entails(st, T.exact(cm.t, "asyncio.Timeout")):
        return None
    if item.optional_vars is not None:
        raise Unsupported("timeout as name")
    e.models.note("asyncio.timeout: a cancellation that leaves the block may leave it as TimeoutError instead; nothing else changes")
    e.sinks.append([])
    try:
        res = body(st)
    finally:
        exc = e.sinks.pop()
    for s, x in exc:
        t = s.copy()
        y = e.sym(t, "timed_out", "TimeoutError", own="deep")
        t.add(excused(y.t), e.isinst(t, x, "asyncio.CancelledError"))
        e.sinks[-1].append((s, x))
        if e.feasible(t):
            e.sinks[-1].append((t, y))
    return res


def cases(e, st, a):
    def end(cx):
        cur = now(cx.eng, cx.st)
        return invariant(cx.st, *cur, running=False) + guarantee(cx.eng, cx.st, cx.st.ghost["segment"])

    def ret(cx):
        m = now(cx.eng, cx.st)[0]
        kd, av = cx.a["kind"], cx.a["api_version"]
        ans = cx.st.ghost.get("answer")
        x = z3.Const("lx", K)
        return [("a text or nothing", isa(cx.res, "str", "NoneType")),
                ("a text is a remembered answer", z3.Implies(isa(cx.res, "str"), z3.Exists([x], z3.And(dom(m)[x], mp(m)[x] == cx.res))))] + end(cx)

    return [Case("answered", post=ret), Case("fails", outcome="raise", exc=["BaseException"], post=end)]


def pre(e, st, a):
    return invariant(st, *now(e, st))


def start(e, st, a):
    st.ghost["segment"] = now(e, st)


plural = Contract(MOD, "get_plural_kind", params=params(api=sym("kr8s.Api"), kind=sym("str"), api_version=sym("str")), pre=pre, cases=cases, setup=start,
                  opts={"modifies": GL})
CONTRACTS = [plural]
USES = []
