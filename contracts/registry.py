"""koreo/registry.py: the two views of the subscription graph, acyclicity, delivery (C17)."""
from .common import *
from pyvc.theory import rv
from pyvc.engine import Unsupported

MOD = "koreo.registry"
RES = "koreo.registry.Resource"
F = z3.Function
AVI, AVB = z3.ArraySort(V, I), z3.ArraySort(V, B)
rel = F("subscription", V, K, K, B)                    # rel(view, k, k2): k2 is listed under k
rk = F("rank", V, K, I)                                # ghost: a subscriber ranks above everything it watches
qsz, qun = F("q_size", V, AVI), F("q_unfinished", V, AVI)
qshut = F("q_shut", V, AVB)
qkill = F("q_told_to_end", V, AVB)       # a Kill was put
late = F("q_latest", V, z3.ArraySort(V, z3.RealSort()))     # the latest time of the events that wait in a queue, 0 when none does
bounded = F("q_bounded", V, B)
putev = F("put", V, V, V)                              # an attempt to put a message into a queue
lev = F("level", V, V, I, K, B)                        # lev(resources, view, n, k): k is n steps below one of the resources
mark = F("at_level", I, B)
mem = F("among", V, K, B)                              # a resource with key k is among the list
below = F("below", V, V, I, K, K)
ev_of = F("resource_event", V, V, V)

NAMES = ["_RESOURCE_SUBSCRIBERS", "_SUBSCRIBER_RESOURCES", "_SUBSCRIPTION_QUEUES"]
RSK, SRK, QK = [(MOD, n) for n in NAMES]
RANK, QS, PUTS = ("ghost", "rank"), ("ghost", "queues"), ("ghost", "puts")
TERM = {g: z3.Const(f"global:{'.'.join(g)}", V) for g in (RSK, SRK, QK, RANK, QS, PUTS)}


def setup(e):
    k, k2, g, R, j, i, q = z3.Const("k", K), z3.Const("k2", K), z3.Const("g", V), z3.Const("R", V), z3.Const("j", I), z3.Const("i", I), z3.Const("q", V)
    for n in (RSK, SRK):
        e.globals_spec[n] = lambda e, st, n=n: SV(TERM[n], "deep", (None, "global", "defaultdict"))
    for n in (QK, RANK, QS, PUTS):
        e.globals_spec[n] = lambda e, st, n=n: SV(TERM[n], "deep", (None, "global", "dict"))
    memw = F("among_at", V, K, I)
    e.extra_axioms += [
        T.exact(TERM[RSK], "defaultdict"), T.exact(TERM[SRK], "defaultdict"), T.exact(TERM[QK], "dict"), T.exact(TERM[PUTS], "list"),
        z3.ForAll([g, k, k2], rel(g, k, k2) == z3.And(dom(g)[k], dom(mp(g)[k])[k2]), patterns=[rel(g, k, k2), dom(mp(g)[k])[k2]]),
        z3.ForAll([R, j], z3.Implies(z3.And(0 <= j, j < ln(R)), mem(R, T.key(la(R)[j]))), patterns=[T.key(la(R)[j])]),
        z3.ForAll([R, k], z3.Implies(mem(R, k), z3.And(0 <= memw(R, k), memw(R, k) < ln(R), T.key(la(R)[memw(R, k)]) == k)), patterns=[mem(R, k)]),
        z3.ForAll([g], z3.Implies(z3.And(isa(g, "set"), klen(g) > 0), dom(g)[F("some", V, K)(g)]), patterns=[klen(g)]),
        # levels below a list of resources
        z3.ForAll([R, g, k], lev(R, g, 0, k) == mem(R, k), patterns=[lev(R, g, 0, k)]),
        z3.ForAll([R, g, i, k, k2], z3.Implies(z3.And(i >= 0, lev(R, g, i, k), rel(g, k, k2)), lev(R, g, i + 1, k2)), patterns=[z3.MultiPattern(lev(R, g, i, k), rel(g, k, k2))]),
        z3.ForAll([R, g, i, k], z3.Implies(z3.And(i >= 1, lev(R, g, i, k)), z3.And(lev(R, g, i - 1, below(R, g, i, k)), rel(g, below(R, g, i, k), k))),
                  patterns=[z3.MultiPattern(lev(R, g, i, k), mark(i))]),
        z3.ForAll([i], mark(i), patterns=[mark(i)]),
        z3.ForAll([R, q], z3.And(F("put_q", V, V)(putev(R, q)) == R, F("put_m", V, V)(putev(R, q)) == q), patterns=[putev(R, q)]),
    ]
    e.models.ext["time.monotonic"] = lambda e, st, a, kw, n: [(st, e.sym(st, "now", "float", exact=True))]
    e.models.meth.update(put_nowait=put_nowait, shutdown=shutdown, empty=empty, get_nowait=get_nowait, task_done=task_done)
    e.models.ext["asyncio.LifoQueue"] = e.models.ext["asyncio.Queue"] = new_queue


# ---------------------------------------------------------------------------------------------- asyncio.Queue (assumed)
def ghost(e, st, g):
    return e.snap(st, e.globals_spec[g](e, st))


def set_ghost(e, st, g, t):
    e.mutate(st, e.globals_spec[g](e, st), t, g[1])


def queues(e, st, sz=None, un=None, shut=None, lt=None, kl=None):
    q0 = ghost(e, st, QS)
    n = e.fresh(V, "queues")
    st.add(T.cls(n) == T.cls(q0), qsz(n) == (qsz(q0) if sz is None else sz), qun(n) == (qun(q0) if un is None else un), qshut(n) == (qshut(q0) if shut is None else shut), late(n) == (late(q0) if lt is None else lt), qkill(n) == (qkill(q0) if kl is None else kl))
    set_ghost(e, st, QS, n)


def queue_of(e, st, o):
    e.models.note("asyncio.Queue: put_nowait raises QueueShutDown when shut and QueueFull when full (an unbounded one never is), otherwise adds one item and one unfinished task; get_nowait takes one item; "
                  "task_done finishes one; shutdown() makes every later put fail and wakes getters once the queue is empty")
    t = e.snap(st, o)
    s = e.guard(st, isa(t, "asyncio.Queue"), "AttributeError")
    return s, t


def new_queue(e, st, args, kw, node):
    v = e.sym(st, "queue", "asyncio.LifoQueue", own="deep", exact=True)
    if args or kw:
        raise Unsupported("queue with arguments")
    qs, Q = ghost(e, st, QS), ghost(e, st, QK)
    st.add(qsz(qs)[v.t] == 0, qun(qs)[v.t] == 0, z3.Not(qshut(qs)[v.t]), z3.Not(qkill(qs)[v.t]), late(qs)[v.t] == 0, z3.Not(bounded(v.t)), z3.ForAll([k], z3.Implies(dom(Q)[k], mp(Q)[k] != v.t), patterns=[mp(Q)[k]]))
    return [(st, v)]


def put_nowait(e, st, o, args, kw, node):
    if not isinstance(o, SV):
        return None
    s, q = queue_of(e, st, o)
    if s is None:
        return []
    m = e.to_v(s, args[0])
    qs, p = ghost(e, s, QS), ghost(e, s, PUTS)
    n = e.fresh(V, "puts")
    s.add(T.cls(n) == T.cls(p), ln(n) == ln(p) + 1, la(n) == z3.Store(la(p), ln(p), putev(q, m)), ln(p) >= 0)
    set_ghost(e, s, PUTS, n)
    e.throw(s, "asyncio.QueueShutDown", qshut(qs)[q])
    s = s.copy().add(z3.Not(qshut(qs)[q]))
    if not e.feasible(s):
        return []
    full = z3.And(e.fresh(B, "full"), bounded(q))
    e.throw(s, "asyncio.QueueFull", full)
    s = s.copy().add(z3.Not(full))
    lt = late(qs)[q]
    at = rv(fld("event_time")(m))
    event = isinstance(args[0], Rec) and args[0].cls == MOD + ".ResourceEvent"
    queues(e, s, kl=None if event else z3.Store(qkill(qs), q, z3.Or(qkill(qs)[q], z3.Not(T.exact(m, MOD + ".ResourceEvent")))), sz=z3.Store(qsz(qs), q, qsz(qs)[q] + 1), un=z3.Store(qun(qs), q, qun(qs)[q] + 1), lt=z3.Store(late(qs), q, z3.If(z3.And(T.exact(m, MOD + ".ResourceEvent"), at > lt), at, lt)))
    return [(s, C(None))]


def shutdown(e, st, o, args, kw, node):
    if not isinstance(o, SV):
        return None
    s, q = queue_of(e, st, o)
    if s is None:
        return []
    queues(e, s, shut=z3.Store(qshut(ghost(e, s, QS)), q, z3.BoolVal(True)))
    return [(s, C(None))]


def empty(e, st, o, args, kw, node):
    if not isinstance(o, SV):
        return None
    s, q = queue_of(e, st, o)
    return [] if s is None else [(s, BV(qsz(ghost(e, s, QS))[q] == 0))]


def taken(e, s, q):
    """one message is taken from a queue: the latest event is this one or still there"""
    m, lt = e.fresh(V, "got"), e.fresh(z3.RealSort(), "latest")
    old = late(ghost(e, s, QS))[q]
    ev = T.exact(m, MOD + ".ResourceEvent")
    s.add(isa(m, MOD + ".ResourceEvent", MOD + ".Kill"), z3.Implies(z3.Not(ev), qkill(ghost(e, s, QS))[q]), lt <= old, z3.Or(lt == old, z3.And(ev, rv(fld("event_time")(m)) == old)), z3.Implies(ev, z3.And(rv(fld("event_time")(m)) <= old, T.exact(fld("event_time")(m), "float"))),
          z3.Implies(ev, z3.And(isa(m, "tuple"), ln(m) == 2, la(m)[0] == fld("resource")(m), la(m)[1] == fld("event_time")(m))))          # a NamedTuple
    return m, lt


def get_nowait(e, st, o, args, kw, node):
    if not isinstance(o, SV):
        return None
    s, q = queue_of(e, st, o)
    if s is None:
        return []
    qs = ghost(e, s, QS)
    n = qsz(qs)[q]
    e.throw(s, "asyncio.QueueShutDown", z3.And(n == 0, qshut(qs)[q]))
    e.throw(s, "asyncio.QueueEmpty", z3.And(n == 0, z3.Not(qshut(qs)[q])))
    s = s.copy().add(n != 0)
    if not e.feasible(s):
        return []
    m, lt = taken(e, s, q)
    queues(e, s, sz=z3.Store(qsz(qs), q, n - 1), lt=z3.Store(late(qs), q, lt))
    return [(s, SV(m))]


def task_done(e, st, o, args, kw, node):
    if not isinstance(o, SV):
        return None
    s, q = queue_of(e, st, o)
    if s is None:
        return []
    qs = ghost(e, s, QS)
    s = e.guard(s, qun(qs)[q] > 0, "ValueError")
    if s is None:
        return []
    queues(e, s, un=z3.Store(qun(qs), q, qun(qs)[q] - 1))
    return [(s, C(None))]


# ---------------------------------------------------------------------------------------------- vocabulary
k, k2, qv, jj = z3.Const("rk1", K), z3.Const("rk2", K), z3.Const("rq", V), z3.Const("rj", I)


class G:
    """the registry before (0) and after"""

    def __init__(self, cx):
        e = cx.eng
        self.e, self.cx = e, cx
        for nm, g in (("RS", RSK), ("SR", SRK), ("Q", QK), ("rho", RANK), ("qs", QS), ("puts", PUTS)):
            setattr(self, nm, ghost(e, cx.st, g))
            setattr(self, nm + "0", ghost(e, cx.pre, g))


def sets(g):
    return z3.ForAll([k], z3.Implies(dom(g)[k], isa(mp(g)[k], "set")), patterns=[mp(g)[k], dom(g)[k]])


def inverse(RS, SR):
    return z3.ForAll([k, k2], rel(RS, k, k2) == rel(SR, k2, k), patterns=[rel(RS, k, k2), rel(SR, k2, k)])


def acyclic(SR, rank):
    return z3.ForAll([k, k2], z3.Implies(rel(SR, k, k2), z3.And(rank(k) > rank(k2), rank(k2) >= 0)), patterns=[rel(SR, k, k2)])


def q_ok(Q, qs):
    return z3.And(z3.ForAll([k], z3.Implies(dom(Q)[k], isa(mp(Q)[k], "asyncio.Queue")), patterns=[mp(Q)[k]]),
                  z3.ForAll([qv], z3.And(0 <= qsz(qs)[qv], qsz(qs)[qv] <= qun(qs)[qv]), patterns=[qsz(qs)[qv], qun(qs)[qv]]))


def positive(rho):
    return z3.ForAll([k], rk(rho, k) >= 0, patterns=[rk(rho, k)])


def consistent(e, st):
    RS, SR, Q, rho, qs = (ghost(e, st, g) for g in (RSK, SRK, QK, RANK, QS))
    return [("both views hold sets", z3.And(sets(RS), sets(SR))), ("the views are inverses", inverse(RS, SR)), ("no cycle", acyclic(SR, lambda x: rk(rho, x))), ("ranks", positive(rho)),
            ("queues", q_ok(Q, qs))]


def keeps(cx, rank=None):
    """the invariant of the registry still holds"""
    g = G(cx)
    r = rank or (lambda x: rk(g.rho, x))
    out = [("the subscriber view holds sets", sets(g.RS)), ("the subscription view holds sets", sets(g.SR)), ("the views stay inverses", inverse(g.RS, g.SR)),
           ("no cycle", acyclic(g.SR, r)), ("queues", q_ok(g.Q, g.qs))]
    if rank is None:
        out.append(("ranks", positive(g.rho)))
    return out


def unchanged(g, which="SR"):
    a, b = getattr(g, which), getattr(g, which + "0")
    return z3.ForAll([k, k2], rel(a, k, k2) == rel(b, k, k2), patterns=[rel(a, k, k2)])


def verifying(cx):
    return getattr(cx, "kind", None) is not None


def resource(own="borrowed"):
    return lambda e, st, n: e.sym(st, n, RES, own, exact=True)


def resource_list(e, st, n):
    v = e.sym(st, n, ("list", "tuple"), exact=True)
    st.add(all_resources(v.t))
    return v


def all_resources(t):
    return z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < ln(t)), T.exact(la(t)[jj], RES)), patterns=[la(t)[jj]])


def reg_pre(*res):
    def pre(e, st, a):
        out = list(consistent(e, st))
        for n in res:
            if n == "resources":
                t = e.to_v(st, a[n])
                out.append(("a sequence of resources", z3.And(isa(t, "list", "tuple"), all_resources(t))))
            else:
                out.append((f"{n} is a resource", z3.BoolVal(True) if isinstance(a[n], Rec) and a[n].cls == RES else T.exact(e.to_v(st, a[n]), RES)))
        return out
    return pre


def keyof(cx, n):
    return cx.eng.keyterm(cx.st if verifying(cx) else cx.pre, cx.args[n])


# ---------------------------------------------------------------------------------------------- _check_for_cycles
def bound_fact(e, st, R, rho, base="M"):
    M = e.fresh(I, base)
    st.add(M >= 0, z3.ForAll([k], z3.Implies(mem(R, k), rk(rho, k) <= M), patterns=[mem(R, k)]))
    return M


def max_lemma(e, st):
    """a finite sequence of numbers is bounded: by induction on its length"""
    f = F(T.fresh_name("seq"), I, I)
    n, m, j, M = (e.fresh(I, x) for x in ("n", "m", "j", "M"))
    hyp = z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < n), f(jj) <= m), patterns=[f(jj)])
    s = st.copy().add(n >= 0, hyp, M == z3.If(f(n) > m, f(n), m))
    e.prove(s, z3.Implies(z3.And(0 <= j, j < n + 1), f(j) <= M), "lemma: a finite sequence of ranks is bounded (step)")
    e.prove(st, z3.Not(z3.And(0 <= j, j < 0)), "lemma: a finite sequence of ranks is bounded (base)")


def cyc_setup(e, st, a):
    max_lemma(e, st)
    R = e.to_v(st, a["resources"])
    st.ghost["M"] = IV(bound_fact(e, st, R, ghost(e, st, RANK)))


def cyc_outer(cx):
    e = cx.eng
    R, SR, rho = e.to_v(cx.st, cx.v("resources")), ghost(e, cx.st, SRK), ghost(e, cx.st, RANK)
    tc = cx.t("to_check")
    i = cx.i
    sub = e.keyterm(cx.st, cx.v("subscriber"))
    M = cx.st.ghost["M"].t
    j = z3.Const("cj", I)
    return [("a set", isa(tc, "set")),
            ("members are at this level", z3.ForAll([k], z3.Implies(dom(tc)[k], lev(R, SR, i, k)), patterns=[dom(tc)[k]])),
            ("all of the level", z3.ForAll([k], z3.Implies(z3.And(mark(i), lev(R, SR, i, k)), dom(tc)[k]), patterns=[lev(R, SR, i, k)])),
            ("the subscriber was on no earlier level", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(lev(R, SR, j, sub))), patterns=[lev(R, SR, j, sub)])),
            ("ranks fall with every level", z3.ForAll([k], z3.Implies(dom(tc)[k], rk(rho, k) <= M - i), patterns=[dom(tc)[k]])),
            ("the number of levels is bounded", i <= M + 1), ("there are levels only if resources were given", z3.Or(i == 0, ln(R) > 0))]


def cyc_inner(cx):
    e = cx.eng
    SR = ghost(e, cx.st, SRK)
    nx = cx.t("next_check_set")
    if cx.src is None:
        raise Unsupported("the inner loop does not run over a collection")
    return [("a set", isa(nx, "set")),
            ("only what they watch", z3.ForAll([k2], z3.Implies(dom(nx)[k2], z3.Exists([k], z3.And(dom(cx.src)[k], T.kidx(cx.src, k) < cx.i, rel(SR, k, k2)), patterns=[rel(SR, k, k2)])), patterns=[dom(nx)[k2]])),
            ("all they watch", z3.ForAll([k, k2], z3.Implies(z3.And(dom(cx.src)[k], T.kidx(cx.src, k) < cx.i, rel(SR, k, k2)), dom(nx)[k2]), patterns=[z3.MultiPattern(dom(cx.src)[k], rel(SR, k, k2))]))]


def cyc_cases(e, st, a):
    def ret(cx):
        g = G(cx)
        R, sub = cx.a["resources"], keyof(cx, "subscriber")
        if verifying(cx):
            n = z3.Const("cn", I)
            it = cx.st.ghost.get("iter")
            if it is None:
                raise Unsupported("the walk over the levels is not recognised")
            Fp = lambda x: z3.Exists([n], z3.And(0 <= n, n < it.t, lev(R, g.SR0, n, x)), patterns=[lev(R, g.SR0, n, x)])
            a1, b1 = e.fresh(K, "a"), e.fresh(K, "b")
            n1 = e.fresh(I, "n")
            return [("what is watched lies within", z3.Implies(mem(R, a1), z3.Or(Fp(a1), z3.Not(lev(R, g.SR0, 0, a1))))),
                    ("closed under watching", z3.Implies(z3.And(0 <= n1, n1 < it.t, lev(R, g.SR0, n1, a1), rel(g.SR0, a1, b1)), z3.And(mark(n1 + 1), Fp(b1)))),
                    ("the subscriber lies outside", z3.Not(Fp(sub)))]
        Fn_ = F(T.fresh_name("within"), K, B)
        cx.st.ghost["within"] = Fn_
        cx.st.ghost["checked"] = R
        return [("", z3.ForAll([k], z3.Implies(mem(R, k), Fn_(k)), patterns=[mem(R, k)])),
                ("", z3.ForAll([k, k2], z3.Implies(z3.And(Fn_(k), rel(g.SR0, k, k2)), Fn_(k2)), patterns=[rel(g.SR0, k, k2)])), ("", z3.Not(Fn_(sub)))]

    def cyc(cx):
        g = G(cx)
        n = z3.Const("cn", I)
        R, sub = cx.a["resources"], keyof(cx, "subscriber")
        if verifying(cx):
            it = cx.st.ghost.get("iter")
            if it is None:
                raise Unsupported("the walk over the levels is not recognised")
            return [("the subscriber is below one of the resources", lev(R, g.SR0, it.t, sub)), ("resources were given", ln(R) > 0)]
        cx.st.ghost["checked"] = R
        return [("", z3.Exists([n], z3.And(n >= 0, lev(R, g.SR0, n, sub)))), ("", ln(R) > 0)]
    return [Case("no cycle", post=ret), Case("refused", outcome="raise", exc=[MOD + ".SubscriptionCycle"], post=cyc)]


cycles = Contract(MOD, "_check_for_cycles", params=params(subscriber=resource(), resources=resource_list), pre=reg_pre("subscriber", "resources"), cases=cyc_cases,
                  setup=cyc_setup, loops={0: Loop(cyc_outer), 1: Loop(cyc_inner)})


# ---------------------------------------------------------------------------------------------- subscribe, subscribe_only_to, unsubscribe
def new_rank(cx, M):
    """raise everything outside what the new resources reach above them"""
    e = cx.eng
    W = cx.st.ghost.get("within")
    g = G(cx)
    if W is None:
        raise Unsupported("the cycle check is not recognised")
    return lambda x: z3.If(W(x), rk(g.rho0, x), rk(g.rho0, x) + M + 1)


def sub_cases(e, st, a, listed):
    """listed(cx): (membership of k in the new subscriptions, resources term)"""
    def ret(cx):
        g = G(cx)
        s = keyof(cx, "subscriber")
        isin, R = listed(cx, g)
        want = ("exactly the requested subscriptions", z3.ForAll([k, k2], rel(g.SR, k, k2) == z3.If(k == s, isin(k2), rel(g.SR0, k, k2)), patterns=[rel(g.SR, k, k2), rel(g.SR0, k, k2)]))
        if not verifying(cx):
            return keeps(cx) + [want]
        if cx.st.ghost.get("within") is None:
            return [("the cycle check was made", z3.BoolVal(False))]
        M = bound_fact(e, cx.st, R, g.rho0)
        return [want] + keeps(cx, new_rank(cx, M))

    def refused(cx):
        g = G(cx)
        isin, R = listed(cx, g)
        n = z3.Const("cn", I)
        return [("the registry is unchanged", z3.And(unchanged(g), unchanged(g, "RS"))), ("for a cycle", z3.Exists([n], z3.And(n >= 0, lev(R, g.SR0, n, keyof(cx, "subscriber"))))),
                ("resources were given", ln(R) > 0)] + is_one(cx, R) + keeps(cx)
    return [Case("subscribed", post=ret), Case("refused", outcome="raise", exc=[MOD + ".SubscriptionCycle"], post=refused)]


def one(cx, g):
    r, s = keyof(cx, "resource"), keyof(cx, "subscriber")
    R = cx.st.ghost.get("checked") if verifying(cx) else None
    return (lambda x: z3.Or(x == r, rel(g.SR0, s, x))), (cx.eng.fresh(V, "one_resource") if R is None else R)


def is_one(cx, R):
    """the list that was checked holds the one resource"""
    if "resource" not in cx.args:
        return []
    r = keyof(cx, "resource")
    if verifying(cx):
        x = cx.eng.fresh(K, "x")
        return [("it was checked for the resource alone", z3.And(mem(R, x) == (x == r), T.key(la(R)[0]) == r))]
    return [("", z3.ForAll([k], mem(R, k) == (k == r), patterns=[mem(R, k)]))]


MODS = (RSK, SRK, RANK)
subscribe = Contract(MOD, "subscribe", params=params(subscriber=resource(), resource=resource()), pre=reg_pre("subscriber", "resource"), cases=lambda e, st, a: sub_cases(e, st, a, one), opts={"modifies": MODS})


def diff_loop(add):
    def inv(cx):
        e = cx.eng
        RS, RS0 = ghost(e, cx.st, RSK), ghost(e, cx.pre, RSK)
        s = e.keyterm(cx.st, cx.v("subscriber"))
        if cx.src is None:
            raise Unsupported("loop over something else")
        D = cx.src
        seen = lambda x: z3.And(dom(D)[x], T.kidx(D, x) < cx.i)
        body = lambda x, y: z3.Or(rel(RS0, x, y), z3.And(y == s, seen(x))) if add else z3.And(rel(RS0, x, y), z3.Not(z3.And(y == s, seen(x))))
        return [("sets", sets(RS)), ("what was done so far", z3.ForAll([k, k2], rel(RS, k, k2) == body(k, k2), patterns=[rel(RS, k, k2), rel(RS0, k, k2)]))]
    return inv


only = Contract(MOD, "subscribe_only_to", params=params(subscriber=resource(), resources=resource_list), pre=reg_pre("subscriber", "resources"),
                cases=lambda e, st, a: sub_cases(e, st, a, lambda cx, g: ((lambda x: mem(cx.a["resources"], x)), cx.a["resources"])),
                loops={0: Loop(diff_loop(True)), 1: Loop(diff_loop(False))}, opts={"modifies": MODS})


def unsub_cases(e, st, a):
    def ret(cx):
        g = G(cx)
        u, r = keyof(cx, "unsubscriber"), keyof(cx, "resource")
        return [("it was subscribed", rel(g.SR0, u, r)),
                ("exactly this subscription ends", z3.ForAll([k, k2], rel(g.SR, k, k2) == z3.And(rel(g.SR0, k, k2), z3.Not(z3.And(k == u, k2 == r))), patterns=[rel(g.SR, k, k2), rel(g.SR0, k, k2)]))] + keeps(cx)

    def bad(cx):
        g = G(cx)
        return [("it was not subscribed", z3.Not(rel(g.SR0, keyof(cx, "unsubscriber"), keyof(cx, "resource")))), ("the registry is unchanged", z3.And(unchanged(g), unchanged(g, "RS")))] + keeps(cx)
    return [Case("unsubscribed", post=ret), Case("not subscribed", outcome="raise", exc=["KeyError"], post=bad)]


unsubscribe = Contract(MOD, "unsubscribe", params=params(unsubscriber=resource(), resource=resource()), pre=reg_pre("unsubscriber", "resource"), cases=unsub_cases, opts={"modifies": (RSK, SRK)})


# ---------------------------------------------------------------------------------------------- notification
def event(cx, res, at):
    """ResourceEvent(resource=res, event_time=at)"""
    return lambda m: z3.And(T.exact(m, MOD + ".ResourceEvent"), fld("resource")(m) == res, fld("event_time")(m) == at)


msg = F("put_m", V, V)
pq = F("put_q", V, V)


def notified(cx, g, who, pos, n, res, at):
    """the attempts made from index n0 on are exactly one per active subscriber of n"""
    n0, n1 = ln(g.puts0), ln(g.puts)
    active = lambda x: z3.And(rel(g.RS, n, x), dom(g.Q)[x])
    j = jj
    P = la(g.puts)
    return [("earlier messages stay", z3.And(n0 <= n1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0), P[j] == la(g.puts0)[j]), patterns=[P[j]]))),
            ("only active subscribers get a message, of this event", z3.ForAll([j], z3.Implies(z3.And(n0 <= j, j < n1), z3.And(
                active(who(j)), pq(P[j]) == mp(g.Q)[who(j)], event(cx, res, at)(msg(P[j])))), patterns=[P[j]])),
            ("no two for one subscriber", z3.ForAll([j], z3.Implies(z3.And(n0 <= j, j < n1), pos(who(j)) == j), patterns=[P[j]])),
            ("every active subscriber gets one", z3.ForAll([k], z3.Implies(active(k), z3.And(n0 <= pos(k), pos(k) < n1, who(pos(k)) == k)), patterns=[rel(g.RS, n, k)]))]


def queues_only_grow(g):
    return z3.And(z3.ForAll([qv], late(g.qs)[qv] >= late(g.qs0)[qv], patterns=[late(g.qs)[qv]]), qshut(g.qs) == qshut(g.qs0), qkill(g.qs) == qkill(g.qs0), z3.ForAll([qv], z3.Implies(qshut(g.qs0)[qv], z3.And(qsz(g.qs)[qv] == qsz(g.qs0)[qv], qun(g.qs)[qv] == qun(g.qs0)[qv])), patterns=[qsz(g.qs)[qv], qun(g.qs)[qv]]),
                  z3.ForAll([qv], z3.And(qsz(g.qs)[qv] >= qsz(g.qs0)[qv], qun(g.qs)[qv] - qsz(g.qs)[qv] == qun(g.qs0)[qv] - qsz(g.qs0)[qv]), patterns=[qsz(g.qs)[qv], qun(g.qs)[qv]]))


def listening(qs, q, at):
    return z3.Implies(z3.And(z3.Not(qshut(qs)[q]), z3.Not(bounded(q))), late(qs)[q] >= rv(at))


def waits(g, n, at):
    return z3.ForAll([k], z3.Implies(z3.And(rel(g.RS, n, k), dom(g.Q)[k]), listening(g.qs, mp(g.Q)[k], at)), patterns=[rel(g.RS, n, k)])


def notify_loop(cx):
    e = cx.eng
    info = e.comp_info.get(cx.src.get_id()) if cx.src is not None else None
    if info is None:
        raise Unsupported("the loop does not run over the selected subscribers")
    P, Sx, it, t = info
    puts, puts0, qs, qs0 = ghost(e, cx.st, PUTS), ghost(e, cx.pre, PUTS), ghost(e, cx.st, QS), ghost(e, cx.pre, QS)
    n0 = ln(puts0)
    cx.st.ghost["active"] = (P, Sx, it, t)
    res, at = e.to_v(cx.st, cx.v("notifier")), e.to_v(cx.st, cx.v("event_time"))
    j = jj
    g = type("g", (), {})()
    g.qs, g.qs0 = qs, qs0
    return [("a list", isa(puts, "list")), ("one attempt per queue so far", ln(puts) == n0 + cx.i),
            ("earlier messages stay", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0), la(puts)[j] == la(puts0)[j]), patterns=[la(puts)[j]])),
            ("each for the queue in turn", z3.ForAll([j], z3.Implies(z3.And(n0 <= j, j < ln(puts)), z3.And(pq(la(puts)[j]) == la(cx.src)[j - n0], event(cx, res, at)(msg(la(puts)[j])))), patterns=[la(puts)[j]])),
            ("each that listens has it", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), listening(qs, la(cx.src)[j], at)), patterns=[la(cx.src)[j]])),
            ("queues only get more", queues_only_grow(g)), ("queue states", z3.ForAll([qv], z3.And(0 <= qsz(qs)[qv], qsz(qs)[qv] <= qun(qs)[qv]), patterns=[qsz(qs)[qv], qun(qs)[qv]]))]


def witnesses(cx, g):
    """who gets the j-th message, and where the message of a subscriber is"""
    if not verifying(cx):
        who, pos = F(T.fresh_name("who"), I, K), F(T.fresh_name("pos"), K, I)
        cx.st.ghost["notified"] = (who, pos)
        return who, pos
    if "notified" in cx.st.ghost:
        return cx.st.ghost["notified"]
    n0 = ln(g.puts0)
    if g.puts.eq(g.puts0):
        return F("whoever", I, K), F("wherever", K, I)
    if "active" not in cx.st.ghost:
        raise Unsupported("the loop over the subscribers is not recognised")
    P, Sx, it, t = cx.st.ghost["active"]
    return (lambda j: T.key(T.kat(it.src, Sx(j - n0)))), (lambda x: n0 + P(T.kidx(it.src, x)))


def notify_cases(e, st, a):
    def post(cx):
        g = G(cx)
        n = keyof(cx, "notifier")
        who, pos = witnesses(cx, g)
        return [("subscriptions stay", z3.And(unchanged(g, "RS"), unchanged(g)))] + notified(cx, g, who, pos, n, cx.a["notifier"], cx.a["event_time"]) + [("queues only get more", queues_only_grow(g)), ("the event waits for every subscriber that listens", waits(g, n, cx.a["event_time"]))] + keeps(cx)
    return [Case("notified", post=post)]


notify = Contract(MOD, "notify_subscribers", params=params(notifier=resource(), event_time=sym("float", exact=True)), pre=reg_pre("notifier"), cases=notify_cases, loops={0: Loop(notify_loop)},
                  opts={"modifies": (RSK, QS, PUTS)})


# ---------------------------------------------------------------------------------------------- register, kill, deregister
def others(a, b, q):
    return z3.ForAll([qv], z3.Implies(qv != q, z3.And(qsz(a)[qv] == qsz(b)[qv], qun(a)[qv] == qun(b)[qv], qshut(a)[qv] == qshut(b)[qv], qkill(a)[qv] == qkill(b)[qv], late(a)[qv] == late(b)[qv])), patterns=[qsz(a)[qv], qun(a)[qv], qshut(a)[qv], qkill(a)[qv], late(a)[qv]])


def others_grow(g, q):
    return z3.ForAll([qv], z3.Implies(q(qv), z3.And(qshut(g.qs)[qv] == qshut(g.qs0)[qv], qkill(g.qs)[qv] == qkill(g.qs0)[qv], late(g.qs)[qv] >= late(g.qs0)[qv])), patterns=[qshut(g.qs)[qv], qkill(g.qs)[qv], late(g.qs)[qv]])


def balanced(qs, qs0, but=None):
    """what was taken from a queue and is not done yet stays the same"""
    f = qun(qs)[qv] - qsz(qs)[qv] == qun(qs0)[qv] - qsz(qs0)[qv]
    return z3.ForAll([qv], f if but is None else z3.Implies(qv != but, f), patterns=[qun(qs)[qv], qsz(qs)[qv]])


def kill_post(cx, n, g):
    q = mp(g.Q0)[n]
    return [("its queue is shut", qshut(g.qs)[q]), ("other queues are left alone", others(g.qs, g.qs0, q)), ("what was waiting still is", qun(g.qs)[q] - qsz(g.qs)[q] == qun(g.qs0)[q] - qsz(g.qs0)[q]),
            ("queue states", z3.And(0 <= qsz(g.qs)[q], qsz(g.qs)[q] <= qun(g.qs)[q])), ("no event is added or taken", late(g.qs) == late(g.qs0))]


def _kill_cases(e, st, a):
    def post(cx):
        g = G(cx)
        n = keyof(cx, "resource")
        return [("it is registered", dom(g.Q0)[n]), ("its queue is returned", cx.res == mp(g.Q0)[n])] + kill_post(cx, n, g)

    def bad(cx):
        g = G(cx)
        return [("not registered", z3.Not(dom(g.Q0)[keyof(cx, "resource")])), ("", g.qs == g.qs0)]
    return [Case("killed", post=post), Case("not registered", outcome="raise", exc=["KeyError"], post=bad)]


_kill = Contract(MOD, "_kill_resource", params=params(resource=resource()), pre=reg_pre("resource"), cases=_kill_cases, own="borrowed", opts={"modifies": (QS, PUTS)})


def kill_cases(e, st, a):
    def post(cx):
        g = G(cx)
        n = keyof(cx, "resource")
        return [(lb, z3.Implies(dom(g.Q0)[n], f)) for lb, f in kill_post(cx, n, g)] + [("nothing to do", z3.Implies(z3.Not(dom(g.Q0)[n]), g.qs == g.qs0)), ("nothing or the queue", z3.Or(cx.res == T.NoneV, z3.And(dom(g.Q0)[n], cx.res == mp(g.Q0)[n])))] + keeps(cx)
    return [Case("killed", post=post)]


kill = Contract(MOD, "kill_resource", params=params(resource=resource()), pre=reg_pre("resource"), cases=kill_cases, own="borrowed", opts={"modifies": (QS, PUTS)})


def reg_cases(e, st, a):
    def post(cx):
        g = G(cx)
        n = keyof(cx, "registerer")
        was = dom(g.Q0)[n]
        fresh_ = z3.Not(was)
        who, pos = witnesses(cx, g)
        x = z3.Const("rx", K)
        given = cx.a["queue"]
        return [("registered already: the same queue", z3.Implies(was, z3.And(cx.res == mp(g.Q0)[n], z3.ForAll([x], z3.And(dom(g.Q)[x] == dom(g.Q0)[x], mp(g.Q)[x] == mp(g.Q0)[x]), patterns=[dom(g.Q)[x], mp(g.Q)[x]])))),
                ("registered now", z3.And(isa(cx.res, "asyncio.Queue"), dom(g.Q)[n], mp(g.Q)[n] == cx.res)),
                ("with the given queue", z3.Implies(z3.And(fresh_, given != T.NoneV), cx.res == given)),
                ("a queue of its own is usable", z3.Implies(z3.And(fresh_, given == T.NoneV), z3.And(z3.Not(qshut(g.qs)[cx.res]), z3.Not(qkill(g.qs)[cx.res]), z3.Not(bounded(cx.res))))),
                ("a queue of its own is new", z3.Implies(z3.And(fresh_, given == T.NoneV), z3.ForAll([x], z3.Implies(dom(g.Q0)[x], mp(g.Q0)[x] != cx.res), patterns=[mp(g.Q0)[x]]))),
                ("what was taken is still to be done", balanced(g.qs, g.qs0)),
                ("other queues only get more", others_grow(g, lambda q: z3.Or(was, given != T.NoneV, q != cx.res))),
                ("registered already: nothing is sent", z3.Implies(was, g.qs == g.qs0)),
                ("the other queues stay", z3.ForAll([x], z3.Implies(x != n, z3.And(dom(g.Q)[x] == dom(g.Q0)[x], mp(g.Q)[x] == mp(g.Q0)[x])), patterns=[dom(g.Q)[x], mp(g.Q)[x]])),
                ("subscriptions stay", z3.And(unchanged(g, "RS"), unchanged(g)))] + keeps(cx)
    return [Case("registered", post=post)]


def given_queue(e, st, n):
    return e.sym(st, n, ("asyncio.Queue", "NoneType"))


register = Contract(MOD, "register", params=params(registerer=resource(), queue=given_queue), pre=reg_pre("registerer"), cases=reg_cases, own="borrowed", opts={"modifies": (RSK, QK, QS, PUTS)})


def drain_loop(cx):
    e = cx.eng
    qs, qs0 = ghost(e, cx.st, QS), ghost(e, cx.pre, QS)
    q = cx.t("queue")
    return [("other queues are left alone", others(qs, qs0, q)), ("the queue stays shut", qshut(qs)[q] == qshut(qs0)[q]), ("everything taken is marked done", qun(qs)[q] - qsz(qs)[q] == qun(qs0)[q] - qsz(qs0)[q]),
            ("one less every time", z3.And(qsz(qs)[q] + cx.i == qsz(qs0)[q], qsz(qs)[q] >= 0))]


def dereg_cases(e, st, a):
    def post(cx):
        g = G(cx)
        n = keyof(cx, "deregisterer")
        x = z3.Const("rx", K)
        q = mp(g.Q0)[n]
        who, pos = witnesses(cx, g)
        return [("it follows nothing any more", z3.ForAll([k, k2], rel(g.SR, k, k2) == z3.And(k != n, rel(g.SR0, k, k2)), patterns=[rel(g.SR, k, k2), rel(g.SR0, k, k2)])),
                ("its queue is removed", z3.Not(dom(g.Q)[n])), ("the other queues stay", z3.ForAll([x], z3.Implies(x != n, z3.And(dom(g.Q)[x] == dom(g.Q0)[x], mp(g.Q)[x] == mp(g.Q0)[x])), patterns=[dom(g.Q)[x], mp(g.Q)[x]])),
                ("its queue is shut", z3.Implies(dom(g.Q0)[n], qshut(g.qs)[q])),
                ("what was taken is still to be done", balanced(g.qs, g.qs0)),
                ("other queues only get more", others_grow(g, lambda x: z3.Or(z3.Not(dom(g.Q0)[n]), x != q))),
                ("its subscribers stay", z3.ForAll([k], rel(g.SR, k, n) == z3.And(k != n, rel(g.SR0, k, n)), patterns=[rel(g.SR, k, n)])),
                ("the event waits for every subscriber that listens", waits(g, n, cx.a["deregistered_at"])),
                ("nothing is left in it", z3.Implies(dom(g.Q0)[n], qsz(g.qs)[q] == 0)),
                ("nothing waits for it any more", z3.Implies(dom(g.Q0)[n], qun(g.qs)[q] == qun(g.qs0)[q] - qsz(g.qs0)[q]))] + keeps(cx)
    return [Case("deregistered", post=post)]


deregister = Contract(MOD, "deregister", params=params(deregisterer=resource(), deregistered_at=sym("float", exact=True)), pre=reg_pre("deregisterer"), cases=dereg_cases, loops={0: Loop(drain_loop)},
                      opts={"modifies": (RSK, SRK, QK, RANK, QS, PUTS)})


def view_cases(which):
    def cases(e, st, a):
        def post(cx):
            g = G(cx)
            n = keyof(cx, "resource")
            return [("exactly the listed ones", z3.And(isa(cx.res, "set"), z3.ForAll([k], dom(cx.res)[k] == rel(getattr(g, which + "0"), n, k), patterns=[dom(cx.res)[k]]))),
                    ("subscriptions stay", z3.And(unchanged(g, "RS"), unchanged(g)))] + keeps(cx)
        return [Case("listed", post=post)]
    return cases


subscribers = Contract(MOD, "get_subscribers", params=params(resource=resource()), pre=reg_pre("resource"), cases=view_cases("RS"), own="borrowed", opts={"modifies": (RSK,)})
subscriptions = Contract(MOD, "get_subscriptions", params=params(resource=resource()), pre=reg_pre("resource"), cases=view_cases("SR"), own="borrowed", opts={"modifies": (SRK,)})

CONTRACTS = [cycles, subscribe, only, unsubscribe, notify, _kill, kill, register, deregister, subscribers, subscriptions]
