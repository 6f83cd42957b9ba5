"""koreo/cache.py: one preparation per version (C15), dependents are prepared again after every change (C16).

Tasks interleave only at awaits.  `coherent` is the invariant of the module: it holds whenever a task may be suspended.  At an
await everything may change as far as `coherent` and what every other segment guarantees (`guarantee`) allow."""
from .common import *
from pyvc.engine import Coro, Unsupported, Fn
from pyvc.theory import rv
from . import registry as RG, result as RS
from .registry import RSK, SRK, QK, RANK, QS, PUTS, rel, qshut, qkill, qsz, qun, balanced, late, bounded, mem, ghost, set_ghost

MOD = "koreo.cache"
F = z3.Function
ENTRY = MOD + ".__CachedResource"
RES = RG.RES
TASK = "asyncio.Task"
CACHE, PT, CT, TASKS = [(MOD, n) for n in ("__CACHE", "_PREPARE_TIMES", "_CHANGE_TIMES", "_REPREPARE_TASKS")]
CLOCK, DEAD, BUSY = ("ghost", "clock"), ("ghost", "cancelled_tasks"), ("ghost", "busy_tasks")
OWN = (CACHE, PT, CT, TASKS, CLOCK, DEAD, BUSY)
REG = (RSK, SRK, QK, RANK, QS, PUTS)
ALL = OWN + REG
TERM = {g: z3.Const(f"global:{'.'.join(g)}", V) for g in OWN}
clk = F("clock", V, z3.RealSort())
dead = F("task_cancelled", V, V, B)
busy = F("task_re_prepares", V, V, B)                   # the monitor has taken an event that is newer than the preparation and will prepare again
watches = fld("ghost_resource")                        # what a monitor task was made for
by = fld("ghost_preparer")
k, w, tv = z3.Const("ck", K), z3.Const("cw", K), z3.Const("ct", V)
version, spec_of, value, sysdata = fld("resource_version"), fld("spec"), fld("resource"), fld("system_data")
same = lambda a, b, x: z3.And(dom(a)[x] == dom(b)[x], mp(a)[x] == mp(b)[x])


def setup(e):
    RG.setup(e)
    for g in OWN:
        e.globals_spec[g] = glob(g)
    e.models.ext.update({"time.monotonic": monotonic, "asyncio.create_task": create_task, "asyncio.timeout": timeout})
    e.models.with_hook = with_hook
    e.models.values = call_preparer
    e.models.meth.update(add_done_callback=add_callback, cancel=cancel, join=queue_join, get=queue_get, task_done=task_done, exception=task_state, cancelled=task_state, _replace=entry_replace)


T.add_class("asyncio.Timeout")


def glob(g):
    def f(e, st):
        st.add(T.exact(TERM[g], "dict"))
        return SV(TERM[g], "deep", (None, "global", "dict"))
    return f


class Now:
    def __init__(self, e, st):
        for n, g in zip(("cache", "pt", "ct", "tasks", "clock", "dead", "busy", "RS", "SR", "Q", "rho", "qs", "puts"), ALL):
            setattr(self, n, ghost(e, st, g))


def change(e, st, g, *facts):
    n = e.fresh(V, g[1])
    st.add(T.cls(n) == T.cls(ghost(e, st, g)), *[f(n) for f in facts])
    set_ghost(e, st, g, n)
    return n


# ---------------------------------------------------------------------------------------------- the invariant
def stale(s, x, y):
    """x watches y, which changed after the preparation of x started"""
    return z3.And(rel(s.SR, x, y), dom(s.ct)[y], rv(mp(s.ct)[y]) > rv(mp(s.pt)[x]))


def fresh_or_due(s, x, y):
    return z3.Implies(stale(s, x, y), z3.Or(busy(s.busy, mp(s.tasks)[x]), late(s.qs)[mp(s.Q)[x]] > rv(mp(s.pt)[x])))


def idle(s):
    return z3.And(z3.ForAll([k], late(s.qs)[mp(s.Q)[k]] == 0, patterns=[mp(s.Q)[k]]), z3.ForAll([tv], z3.Not(busy(s.busy, tv)), patterns=[busy(s.busy, tv)]))


def coherent(e, st, but=None):
    """but: a resource whose entry was just replaced and whose followers are not told yet"""
    s = Now(e, st)
    other = (lambda x: x != but) if but is not None else (lambda x: z3.BoolVal(True))
    return RG.consistent(e, st) + [
        ("entries", z3.ForAll([k], z3.Implies(dom(s.cache)[k], T.exact(mp(s.cache)[k], ENTRY)), patterns=[mp(s.cache)[k]])),
        ("a cached resource has a queue", z3.ForAll([k], z3.Implies(z3.And(dom(s.cache)[k]), dom(s.Q)[k]), patterns=[dom(s.cache)[k]])),
        ("the times of a cached resource are known", z3.ForAll([k], z3.Implies(z3.And(other(k), dom(s.cache)[k]), dom(s.pt)[k]), patterns=[dom(s.cache)[k]])),
        ("times", z3.ForAll([k], z3.And(z3.Implies(dom(s.pt)[k], z3.And(T.exact(mp(s.pt)[k], "float"), rv(mp(s.pt)[k]) > 0, rv(mp(s.pt)[k]) <= clk(s.clock))),
                                        z3.Implies(dom(s.ct)[k], z3.And(T.exact(mp(s.ct)[k], "float"), rv(mp(s.ct)[k]) > 0, rv(mp(s.ct)[k]) <= clk(s.clock)))), patterns=[mp(s.pt)[k], mp(s.ct)[k]])),
        ("clock", clk(s.clock) >= 0),
        ("a monitor is a live task that watches its cached resource", z3.ForAll([k], z3.Implies(dom(s.tasks)[k], z3.And(
            T.exact(mp(s.tasks)[k], TASK), dom(s.cache)[k], z3.Not(dead(s.dead, mp(s.tasks)[k])), T.exact(watches(mp(s.tasks)[k]), RES), T.key(watches(mp(s.tasks)[k])) == k)), patterns=[dom(s.tasks)[k], mp(s.tasks)[k]])),
        ("who watches something is cached and has a monitor", z3.ForAll([k, w], z3.Implies(rel(s.SR, k, w), z3.And(dom(s.cache)[k], dom(s.tasks)[k])), patterns=[rel(s.SR, k, w)])),
        ("queues listen", z3.ForAll([k], z3.Implies(dom(s.Q)[k], z3.And(z3.Not(qshut(s.qs)[mp(s.Q)[k]]), z3.Not(qkill(s.qs)[mp(s.Q)[k]]), z3.Not(bounded(mp(s.Q)[k])))), patterns=[mp(s.Q)[k]])),
        ("a queue of one's own", z3.ForAll([k, w], z3.Implies(z3.And(dom(s.Q)[k], dom(s.Q)[w], mp(s.Q)[k] == mp(s.Q)[w]), k == w), patterns=[z3.MultiPattern(mp(s.Q)[k], mp(s.Q)[w])])),
        ("nothing is stale without being due", z3.ForAll([k, w], z3.Implies(other(k), fresh_or_due(s, k, w)) if but is None else z3.Implies(z3.And(other(k), w != but), fresh_or_due(s, k, w)), patterns=[rel(s.SR, k, w)])),
    ]


def guarantee(e, st, monitor):
    """what one segment (between two awaits) does to the others"""
    return promises(st.ghost["segment"], Now(e, st), st.ghost["me"] if monitor else None)


def promises(a, b, monitor=None):
    own = lambda x: z3.And(dom(a.tasks)[x], same(a.tasks, b.tasks, x))
    out = [("a monitor is replaced only after being cancelled", z3.ForAll([k], z3.Implies(dom(a.tasks)[k], z3.Or(same(a.tasks, b.tasks, k), dead(b.dead, mp(a.tasks)[k]))), patterns=[dom(a.tasks)[k]])),
           ("who is cancelled stays cancelled", z3.ForAll([tv], z3.Implies(dead(a.dead, tv), dead(b.dead, tv)), patterns=[dead(b.dead, tv)])),
           ("what was taken from a queue stays to be done by who took it", balanced(b.qs, a.qs, monitor[2] if monitor else None)),
           ("a monitored resource keeps its queue", z3.ForAll([k], z3.Implies(z3.And(own(k), dom(a.Q)[k]), same(a.Q, b.Q, k)), patterns=[dom(a.tasks)[k]])),
           ("every change is recorded with a later time", z3.ForAll([k], z3.Implies(z3.Not(same(a.cache, b.cache, k)), z3.And(dom(b.ct)[k], rv(mp(b.ct)[k]) > clk(a.clock))), patterns=[dom(b.cache)[k], mp(b.cache)[k]]))]
    if monitor:
        out += kept(a, b) + [("no queue is removed", z3.ForAll([k], z3.Implies(dom(a.Q)[k], dom(b.Q)[k]), patterns=[dom(a.Q)[k]]))]
    return out


def kept(a, b):
    """a re-preparation keeps every version as it was offered"""
    va, vb = mp(a.cache)[k], mp(b.cache)[k]
    return [("the cached names are the same", z3.ForAll([k], dom(a.cache)[k] == dom(b.cache)[k], patterns=[dom(b.cache)[k]])),
            ("every entry keeps its version and spec", z3.ForAll([k], z3.Implies(dom(b.cache)[k], z3.And(version(va) == version(vb), spec_of(va) == spec_of(vb), sysdata(va) == sysdata(vb))), patterns=[mp(b.cache)[k]]))]


def interleave(e, st):
    """other tasks run"""
    monitor = "me" in st.ghost
    e.prove_many(st, [(f"at an await: {lb}", f) for lb, f in coherent(e, st) + guarantee(e, st, monitor)])
    a = Now(e, st)
    for g in ALL:
        change(e, st, g)
    b = Now(e, st)
    st.add(*[f for _, f in coherent(e, st)])
    st.add(clk(b.clock) >= clk(a.clock), z3.ForAll([tv], z3.Implies(dead(a.dead, tv), dead(b.dead, tv)), patterns=[dead(b.dead, tv)]))
    if monitor:
        me, mk, mq = st.ghost["me"]
        if mq is not None:
            st.add(qun(b.qs)[mq] - qsz(b.qs)[mq] == qun(a.qs)[mq] - qsz(a.qs)[mq])
        st.add(z3.Implies(own_monitor(a, me, mk), z3.Or(own_monitor(b, me, mk), dead(b.dead, me))),
               z3.Implies(z3.And(own_monitor(a, me, mk), own_monitor(b, me, mk)), z3.And(busy(b.busy, me) == busy(a.busy, me), z3.Implies(dom(a.Q)[mk], same(a.Q, b.Q, mk)))))
    elif "offered" in st.ghost:
        x = st.ghost["offered"]
        st.add(z3.Implies(dom(a.Q)[x], dom(b.Q)[x]))
        e.models.note("the same resource is not offered or deleted a second time while its offer is being prepared; nobody but the cache registers, kills or deregisters cached resources")
    st.ghost["segment"] = b
    e.models.note("tasks interleave only at awaits; the other tasks that use the cache are the functions of koreo.cache, which keep the invariant and guarantee proved here")


def own_monitor(s, me, mk):
    return z3.And(dom(s.tasks)[mk], mp(s.tasks)[mk] == me)


def still_mine(e, s):
    """a monitor that was cancelled does not get past an await"""
    if "me" not in s.ghost:
        return s
    me, mk, _ = s.ghost["me"]
    b = Now(e, s)
    bad = s.copy().add(dead(b.dead, me))
    x = e.sym(bad, "cancelled", "asyncio.CancelledError", own="deep")
    e.sinks[-1].append((bad, x))
    e.models.note("asyncio: a task that was cancelled gets CancelledError at the await it is suspended at, or never starts; awaited functions do not swallow it")
    return s.add(z3.Not(dead(b.dead, me)))


# ---------------------------------------------------------------------------------------------- assumed: clock, tasks, queues, preparers
def monotonic(e, st, args, kw, node):
    v = e.sym(st, "now", "float", exact=True)
    st.add(rv(v.t) > clk(ghost(e, st, CLOCK)), rv(v.t) > 0)
    change(e, st, CLOCK, lambda n: clk(n) == rv(v.t))
    e.models.note("time.monotonic() is positive and strictly increasing from reading to reading")
    return [(st, v)]


def create_task(e, st, args, kw, node):
    if set(kw) - {"name", "context"} or len(args) != 1 or not isinstance(args[0], Coro) or id(args[0]) not in getattr(e, "coro_info", {}):
        raise Unsupported("create_task of something that is not a call")
    f, a, kws, selfarg = e.coro_info[id(args[0])][1]
    if (f.module, f.qual) != (MOD, "_monitor_and_reprepare"):
        raise Unsupported(f"task running {f.qual}")
    outs = []
    for s, b in e.bind_args(st, f.node, a, kws, f.module, selfarg):
        t = e.sym(s, "task", TASK, own="deep", exact=True)
        n = Now(e, s)
        e.prove(s, nameless(e, s, b), "precondition of _monitor_and_reprepare: a cached resource has no namespace")
        s.add(watches(t.t) == e.to_v(s, b["resource"]), T.key(watches(t.t)) == e.keyterm(s, b["resource"]), by(t.t) == e.to_v(s, b["preparer"]), z3.Not(dead(n.dead, t.t)), z3.Not(busy(n.busy, t.t)),
              z3.ForAll([k], z3.Implies(dom(n.tasks)[k], mp(n.tasks)[k] != t.t), patterns=[mp(n.tasks)[k]]))
        e.models.note("asyncio.create_task: a new task that will run _monitor_and_reprepare with these arguments")
        outs.append((s, t))
    return outs


def is_task(e, st, o):
    return isinstance(o, SV) and e.entails(st, isa(e.snap(st, o), TASK))


def add_callback(e, st, o, args, kw, node):
    if not is_task(e, st, o):
        return None
    if len(args) != 1 or not isinstance(args[0], Fn):
        raise Unsupported("done callback")
    return [(st, C(None))]


def cancel(e, st, o, args, kw, node):
    if not is_task(e, st, o):
        return None
    t = o.t
    d = ghost(e, st, DEAD)
    change(e, st, DEAD, lambda n: z3.ForAll([tv], dead(n, tv) == z3.Or(tv == t, dead(d, tv)), patterns=[dead(n, tv)]))
    return [(st, BV(e.fresh(B, "cancelled")))]


def task_state(e, st, o, args, kw, node):
    if not is_task(e, st, o):
        return None
    return [(st, SV(e.fresh(V, "state")))]


def entry_replace(e, st, o, args, kw, node):
    if not isinstance(o, SV) or args or not e.entails(st, T.exact(e.snap(st, o), ENTRY)):
        return None
    fields = [f for f, _, _ in T.FIELDS[ENTRY]]
    if not set(kw) <= set(fields):
        raise Unsupported("_replace of an unknown field")
    return [(st, Rec(ENTRY, {f: kw[f] if f in kw else SV(fld(f)(e.snap(st, o))) for f in fields}))]


def queue_get(e, st, o, args, kw, node):
    if not isinstance(o, SV) or args or kw or not e.entails(st, isa(e.snap(st, o), "asyncio.Queue")):
        return None
    q = e.snap(st, o)

    def th(s):
        interleave(e, s)
        s = still_mine(e, s)
        qs = ghost(e, s, QS)
        e.throw(s, "asyncio.QueueShutDown", qshut(qs)[q])
        s = s.copy()
        m, lt = RG.taken(e, s, q)
        RG.queues(e, s, sz=z3.Store(RG.qsz(qs), q, RG.qsz(qs)[q] - 1), lt=z3.Store(late(qs), q, lt))
        s.add(RG.qsz(qs)[q] > 0)
        if "me" in s.ghost:
            me, mk, _ = s.ghost["me"]
            n = Now(e, s)
            newer = z3.And(T.exact(m, RG.MOD + ".ResourceEvent"), rv(fld("event_time")(m)) > rv(mp(n.pt)[mk]))
            change(e, s, BUSY, lambda b: z3.ForAll([tv], busy(b, tv) == z3.Or(busy(n.busy, tv), z3.And(tv == me, newer)), patterns=[busy(b, tv)]))
        return [(s, SV(m))]
    return [(st, Coro(th))]


def task_done(e, st, o, args, kw, node):
    r = RG.task_done(e, st, o, args, kw, node)
    for s, _ in r or []:
        if "me" in s.ghost:
            me, mk, _ = s.ghost["me"]
            n = Now(e, s)
            change(e, s, BUSY, lambda b: z3.ForAll([tv], busy(b, tv) == z3.And(busy(n.busy, tv), z3.Not(z3.And(tv == me, own_monitor(n, me, mk)))), patterns=[busy(b, tv)]))
    return r


def queue_join(e, st, o, args, kw, node):
    if not isinstance(o, SV) or not e.entails(st, isa(e.snap(st, o), "asyncio.Queue")):
        return None

    def th(s):
        interleave(e, s)
        bad = s.copy()
        e.sinks[-1].append((bad, e.sym(bad, "cancelled", "asyncio.CancelledError", own="deep")))
        return [(s, C(None))]
    return [(st, Coro(th))]


def timeout(e, st, args, kw, node):
    return [(st, e.sym(st, "timeout", "asyncio.Timeout", own="deep", exact=True))]


def with_hook(e, st, cm, item, body, n):
    if not isinstance(cm, SV) or item.optional_vars is not None or not e.entails(st, T.exact(cm.t, "asyncio.Timeout")):
        return None
    e.sinks.append([])
    try:
        res = body(st)
    finally:
        exc = e.sinks.pop()
    for s, x in exc:
        t = s.copy()
        y = e.sym(t, "timed_out", "TimeoutError", own="deep")
        t.add(e.isinst(t, x, "asyncio.CancelledError"))
        e.sinks[-1].append((s, x))
        if e.feasible(t):
            e.sinks[-1].append((t, y))
    return res


def call_preparer(e, st, f, args, kw, node):
    if kw or len(args) != 2:
        raise Unsupported("call of a preparer with other arguments")

    def th(s):
        key, spec = e.to_v(s, args[0]), e.to_v(s, args[1])
        at = clk(ghost(e, s, CLOCK))
        r = e.fresh(V, "prepared")
        s.log.append(Event("prepare", by=e.to_v(s, f), key=key, spec=spec, res=r))
        s.ghost["asked at"] = at
        s.ghost["asked"] = (e.to_v(s, f), key, spec, r)
        interleave(e, s)
        bad = s.copy()
        x = e.sym(bad, "raised", "Exception", own="deep")
        bad.ghost["raised"] = x.t
        s = still_mine(e, s)
        if "me" not in s.ghost or e.feasible(bad):
            e.sinks[-1].append((bad, x))
        subs = la(r)[1]
        s.add(z3.Or(z3.And(isa(r, *NONOK), wf_outcome(r)), z3.And(T.exact(r, "tuple"), ln(r) == 2, z3.Or(subs == T.NoneV, z3.And(z3.Or(T.exact(subs, "list"), T.exact(subs, "tuple")), ln(subs) >= 0, RG.all_resources(subs))))))
        e.models.note("a preparer answers with a non-Ok outcome or a pair of the prepared resource and the resources it depends on (None or a sequence of Resource), or raises")
        return [(s, SV(r, "deep"))]
    return [(st, Coro(th))]


# ---------------------------------------------------------------------------------------------- vocabulary of the contracts
def pre_of(*res, also=None):
    def pre(e, st, a):
        out = list(coherent(e, st))
        for n in res:
            out.append((f"{n} is a resource", T.exact(e.to_v(st, a[n]), RES)))
        return out + (also(e, st, a) if also else [])
    return pre


def start(e, st, a):
    st.ghost["segment"] = Now(e, st)


def end(cx, monitor=False):
    return coherent(cx.eng, cx.st) + guarantee(cx.eng, cx.st, monitor)


def key_for(cx, cls_name="resource_class", name=None):
    """the key of Resource(resource_type=…, name=…)"""
    e = cx.eng
    rec = Rec(RES, {"resource_type": cx.args[cls_name], "name": cx.args["cache_key"] if name is None else SV(name), "namespace": C(None)})
    return e.keyterm(cx.st, rec)


# ---------------------------------------------------------------------------------------------- lookups
def lookup_cases(result):
    def cases(e, st, a):
        def post(cx):
            s = Now(cx.eng, cx.st)
            n = key_for(cx)
            return [("what is cached", z3.Implies(dom(s.cache)[n], cx.res == result(mp(s.cache)[n]))), ("nothing when nothing is cached", z3.Implies(z3.Not(dom(s.cache)[n]), cx.res == T.NoneV)),
                    ("once nothing waits and no monitor is at work, what it watches changed last before it was prepared", z3.Implies(idle(s), z3.ForAll([w], z3.Implies(z3.And(dom(s.cache)[n], rel(s.SR, n, w), dom(s.ct)[w]), rv(mp(s.ct)[w]) <= rv(mp(s.pt)[n])), patterns=[rel(s.SR, n, w)])))]
        return [Case("found or not", post=post)]
    return cases


look = dict(params=params(resource_class=sym("type"), cache_key=sym("str")), pre=pre_of())
get_res = Contract(MOD, "get_resource_from_cache", cases=lookup_cases(value), **look)
get_sys = Contract(MOD, "get_resource_system_data_from_cache", cases=lookup_cases(lambda x: x), **look)


# ---------------------------------------------------------------------------------------------- metadata
META = MOD + ".__ResourceMetadata"
entry = lambda t, n: z3.If(dom(t)[T.kstr(lit(n))], mp(t)[T.kstr(lit(n))], T.NoneV)


def metadata_param(e, st, n):
    v = e.sym(st, n, "dict")
    for f in ("name", "resourceVersion"):
        st.add(isa(entry(v.t, f), "str", "NoneType"))
    e.models.note("metadata.name and metadata.resourceVersion are texts when present")
    return v


def named(md):
    return z3.And(T.truth(entry(md, "name")), T.truth(entry(md, "resourceVersion")))


def meta_cases(e, st, a):
    def ret(cx):
        md = cx.a["metadata"]
        return [("named", named(md)), ("a record", T.exact(cx.res, META)), ("name", fld("resource_name")(cx.res) == entry(md, "name")), ("version", fld("resource_version")(cx.res) == entry(md, "resourceVersion"))]
    return [Case("read", post=ret), Case("malformed", outcome="raise", exc=["TypeError", "AttributeError"], post=malformed)]


def malformed(cx):
    md = cx.a["metadata"]
    x = z3.Const("lbl", K)
    ml = mp(md)[T.kstr(lit("labels"))]
    good_labels = z3.Or(z3.Not(dom(md)[T.kstr(lit("labels"))]), z3.And(isa(ml, "dict"), z3.ForAll([x], z3.Implies(dom(ml)[x], isa(mp(ml)[x], "str")), patterns=[mp(ml)[x]])))
    return [("name or version missing, or malformed labels", z3.Not(z3.And(named(md), good_labels)))]


meta = Contract(MOD, "_extract_meta", params=params(metadata=metadata_param), cases=meta_cases,
                pre=lambda e, st, a: [("texts", z3.And(*[isa(entry(e.to_v(st, a["metadata"]), f), "str", "NoneType") for f in ("name", "resourceVersion")]))])


# ---------------------------------------------------------------------------------------------- notifications
def hn_param(e, st):
    a = params(resource=RG.resource(), prepare_started_at=sym("float", exact=True), prepare_finished_at=sym("float", exact=True))(e, st)
    a["subscriptions"] = e.sym(st, "subscriptions", ("list", "tuple", "NoneType"), exact=True)
    a["preparer"] = e.sym(st, "preparer")
    return a


def subs_ok(t):
    return z3.Or(t == T.NoneV, z3.And(z3.Or(T.exact(t, "list"), T.exact(t, "tuple")), RG.all_resources(t)))


def hn_pre(e, st, a):
    r = e.keyterm(st, a["resource"])
    s = Now(e, st)
    t0, t1 = e.to_v(st, a["prepare_started_at"]), e.to_v(st, a["prepare_finished_at"])
    p = e.to_v(st, a["preparer"]) if a.get("preparer") is not None else T.NoneV
    return coherent(e, st, but=r) + [("the resource is cached", dom(s.cache)[r]), ("a cached resource has no namespace", nameless(e, st, a)), ("a sequence of resources or nothing", subs_ok(e.to_v(st, a["subscriptions"]))),
                                     ("times", z3.And(T.exact(t0, "float"), T.exact(t1, "float"), 0 < rv(t0), rv(t0) <= rv(t1), rv(t1) <= clk(s.clock))),
                                     ("there is a monitor or a way to prepare again", z3.Or(T.truth(p), dom(s.tasks)[r]))]


def member(subs, x):
    return z3.And(subs != T.NoneV, mem(subs, x))


def hn_cases(e, st, a):
    def ret(cx):
        a0, b = Now(cx.eng, cx.pre), Now(cx.eng, cx.st)
        r = cx.eng.keyterm(cx.st if RG.verifying(cx) else cx.pre, cx.args["resource"])
        subs, t0, t1 = cx.a["subscriptions"], cx.a["prepare_started_at"], cx.a["prepare_finished_at"]
        p = cx.a.get("preparer")
        p = T.NoneV if p is None else p
        return [("exactly the declared dependencies are watched", z3.ForAll([k], rel(b.SR, r, k) == member(subs, k), patterns=[rel(b.SR, r, k)])),
                ("the watches of others stay", z3.ForAll([k, w], z3.Implies(k != r, rel(b.SR, k, w) == rel(a0.SR, k, w)), patterns=[rel(b.SR, k, w)])),
                ("the start of the preparation is remembered", z3.And(dom(b.pt)[r], mp(b.pt)[r] == t0)), ("the change is recorded", z3.And(dom(b.ct)[r], mp(b.ct)[r] == t1)),
                ("the times of others stay", z3.ForAll([k], z3.Implies(k != r, z3.And(same(a0.pt, b.pt, k), same(a0.ct, b.ct, k))), patterns=[mp(b.pt)[k], mp(b.ct)[k], dom(b.pt)[k], dom(b.ct)[k]])),
                ("monitors stay", z3.ForAll([k], z3.Implies(z3.Or(k != r, dom(a0.tasks)[k]), same(a0.tasks, b.tasks, k)), patterns=[dom(b.tasks)[k], mp(b.tasks)[k]])),
                ("a new monitor watches for this resource, with this preparer", z3.Implies(z3.And(z3.Not(dom(a0.tasks)[r]), dom(b.tasks)[r]), z3.And(T.key(watches(mp(b.tasks)[r])) == r, by(mp(b.tasks)[r]) == p, z3.Not(busy(b.busy, mp(b.tasks)[r]))))),
                ("queues stay", z3.ForAll([k], same(a0.Q, b.Q, k), patterns=[dom(b.Q)[k], mp(b.Q)[k]])), ("nothing is taken from a queue", balanced(b.qs, a0.qs)),
                ("what it missed meanwhile is due", z3.ForAll([k], z3.Implies(stale(b, r, k), late(b.qs)[mp(b.Q)[r]] > rv(t0)), patterns=[rel(b.SR, r, k)]))] + coherent(cx.eng, cx.st)
    return [Case("told", post=ret), Case("a cycle", outcome="raise", exc=[RG.MOD + ".SubscriptionCycle"], post=lambda cx: [("nothing is taken from a queue", balanced(Now(cx.eng, cx.st).qs, Now(cx.eng, cx.pre).qs))])]


def hn_loop(cx):
    e = cx.eng
    b, a0 = Now(e, cx.st), Now(e, cx.pre)
    if cx.src is None:
        raise Unsupported("the loop does not run over the dependencies")
    r = e.keyterm(cx.st, cx.v("resource"))
    t0 = e.to_v(cx.st, cx.v("prepare_started_at"))
    j = RG.jj
    q = mp(b.Q)[r]
    g = type("g", (), {})()
    g.qs, g.qs0 = b.qs, a0.qs
    return [("what it missed so far is due", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i, dom(b.ct)[T.key(la(cx.src)[j])], rv(mp(b.ct)[T.key(la(cx.src)[j])]) > rv(t0)), late(b.qs)[q] > rv(t0)), patterns=[la(cx.src)[j]])),
            ("queues only get more", RG.queues_only_grow(g)), ("queues stay", z3.ForAll([k], same(a0.Q, b.Q, k), patterns=[dom(b.Q)[k], mp(b.Q)[k]])),
            ("watches stay", z3.ForAll([k, w], z3.And(rel(b.SR, k, w) == rel(a0.SR, k, w), rel(b.RS, k, w) == rel(a0.RS, k, w)), patterns=[rel(b.SR, k, w), rel(b.RS, k, w)]))] + RG.consistent(e, cx.st)


HN_MODS = (PT, CT, TASKS) + REG
handle = Contract(MOD, "_handle_notifications", params=hn_param, pre=hn_pre, cases=hn_cases, setup=start, loops={0: Loop(hn_loop)}, opts={"modifies": HN_MODS})

# ---------------------------------------------------------------------------------------------- offer
copied = lambda x, y: z3.Or(x == y, F("same_value", V, V, B)(x, y))


def prep_cases(e, st, a):
    def n(cx):
        return key_for(cx, name=mp(cx.a["metadata"])[T.kstr(lit("name"))])

    def cached(cx):
        s, x = Now(cx.eng, cx.pre), n(cx)
        c = mp(s.cache)[x]
        return [("this version was cached", z3.And(dom(s.cache)[x], T.pyeq(version(c), entry(cx.a["metadata"], "resourceVersion")))), ("the cached result", cx.res == value(c)), ("nothing changed", unchanged(cx))]

    def unchanged(cx):
        return z3.And(*[ghost(cx.eng, cx.st, g) == ghost(cx.eng, cx.pre, g) for g in ALL if g != CLOCK])

    def prepared(cx):
        s0, s, x = Now(cx.eng, cx.pre), Now(cx.eng, cx.st), n(cx)
        md = cx.a["metadata"]
        ev = cx.ev[0].args
        c = mp(s.cache)[x]
        out = ev["res"]
        ok = z3.Not(isa(out, *NONOK))
        v = entry(md, "resourceVersion")
        return [("this version was not cached", z3.Not(z3.And(dom(s0.cache)[x], T.pyeq(version(mp(s0.cache)[x]), v)))),
                ("prepared from the offered spec", z3.And(copied(ev["spec"], cx.a["spec"]), ev["key"] == entry(md, "name"), ev["by"] == cx.a["preparer"])),
                ("the result is what was prepared", cx.res == z3.If(ok, la(out)[0], out)),
                ("it is cached under the offered version", z3.And(dom(s.cache)[x], value(c) == cx.res, version(c) == v, spec_of(c) == cx.a["spec"], sysdata(c) == cx.a["_system_data"])),
                ("the preparation started after the recorded time", z3.And(dom(s.pt)[x], rv(mp(s.pt)[x]) <= cx.st.ghost["asked at"])),
                ("exactly the declared dependencies are watched", z3.ForAll([k], rel(s.SR, x, k) == z3.And(ok, member(la(out)[1], k)), patterns=[rel(s.SR, x, k)])),
                ("a watched change makes it prepared again", z3.ForAll([k], z3.Implies(z3.And(ok, member(la(out)[1], k)), z3.And(rel(s.SR, x, k), dom(s.tasks)[x], T.key(watches(mp(s.tasks)[x])) == x)), patterns=[rel(s.SR, x, k)]))] + end(cx)
    bad = lambda cx: malformed(cx) + [("nothing changed", unchanged(cx))]

    def failed(cx):
        x = n(cx)
        r = cx.st.ghost.get("raised")
        a1 = cx.st.ghost["segment"]
        return [("only what the preparer raised, or a cycle", z3.Or(isa(cx.res, RG.MOD + ".SubscriptionCycle"), z3.BoolVal(False) if r is None else cx.res == r))] + \
            ([(lb, z3.Or(isa(cx.res, RG.MOD + ".SubscriptionCycle"), f)) for lb, f in end(cx)] if r is not None else [])
    P = [("prepare", ["by", "key", "spec", "res"])]
    return [Case("cached", post=cached), Case("prepared", events=P, post=prepared), Case("malformed", outcome="raise", exc=["TypeError", "AttributeError"], post=bad), Case("fails", events=P, outcome="raise", exc=["Exception"], post=failed)]


def offer_setup(e, st, a):
    start(e, st, a)
    st.ghost["offered"] = e.keyterm(st, Rec(RES, {"resource_type": a["resource_class"], "name": SV(mp(e.to_v(st, a["metadata"]))[T.kstr(lit("name"))]), "namespace": C(None)}))


prepare = Contract(MOD, "prepare_and_cache", params=params(resource_class=sym("type"), preparer=sym("function_"), metadata=metadata_param, spec=sym("dict"), _system_data=sym(("dict", "NoneType"))), pre=pre_of(), cases=prep_cases,
                   setup=offer_setup, opts={"modifies": ALL})


# ---------------------------------------------------------------------------------------------- delete
def gone(cx, x, v):
    """the effect of deleting x, unless it is not cached (or not in this version)"""
    a, b = Now(cx.eng, cx.pre), Now(cx.eng, cx.st)
    c = mp(a.cache)[x]
    hit = z3.And(dom(a.cache)[x], z3.Or(z3.Not(T.truth(v)), T.pyeq(v, version(c)))) if v is not None else dom(a.cache)[x]
    same_state = z3.And(*[ghost(cx.eng, cx.st, g) == ghost(cx.eng, cx.pre, g) for g in ALL if g != CLOCK])
    joined = cx.st.ghost["segment"] is not cx.st.ghost["first"]
    out = [("otherwise nothing changed", z3.Implies(z3.Not(hit), same_state))]
    if joined:
        return [("it was to be deleted", hit)]
    return out + [("it is not cached any more", z3.Implies(hit, z3.Not(dom(b.cache)[x]))), ("everything else stays cached", z3.ForAll([k], z3.Implies(k != x, same(a.cache, b.cache, k)), patterns=[dom(b.cache)[k], mp(b.cache)[k]])),
                  ("it has no monitor", z3.Implies(hit, z3.Not(dom(b.tasks)[x]))), ("its monitor was cancelled", z3.Implies(z3.And(hit, dom(a.tasks)[x]), dead(b.dead, mp(a.tasks)[x]))),
                  ("it watches nothing", z3.Implies(hit, z3.ForAll([k], z3.Not(rel(b.SR, x, k)), patterns=[rel(b.SR, x, k)]))), ("its queue is gone", z3.Implies(hit, z3.Not(dom(b.Q)[x]))),
                  ("who watches it still does", z3.ForAll([k], z3.Implies(k != x, rel(b.SR, k, x) == rel(a.SR, k, x)), patterns=[rel(b.SR, k, x)]))]


def del_cases(e, st, a):
    post = lambda cx: gone(cx, key_for(cx), cx.a["version"]) + end(cx)
    return [Case("deleted", post=post), Case("timed out", outcome="raise", exc=["TimeoutError", "asyncio.CancelledError"], post=lambda cx: end(cx))]


def del_setup(e, st, a):
    start(e, st, a)
    st.ghost["first"] = st.ghost["segment"]


delete = Contract(MOD, "delete_from_cache", params=params(resource_class=sym("type"), cache_key=sym("str"), version=sym(("str", "NoneType"))), pre=pre_of(), cases=del_cases, setup=del_setup,
                  opts={"modifies": ALL, "optional_cases": ("timed out",), "inline": True})


def del_res_cases(e, st, a):
    post = lambda cx: gone(cx, key_for(cx, name=mp(cx.a["metadata"])[T.kstr(lit("name"))]), None) + [("it was named", named(cx.a["metadata"]))] + end(cx)
    bad = lambda cx: malformed(cx) + [("nothing changed", z3.And(*[ghost(cx.eng, cx.st, g) == ghost(cx.eng, cx.pre, g) for g in ALL if g != CLOCK]))]
    return [Case("deleted", post=post), Case("malformed", outcome="raise", exc=["TypeError", "AttributeError"], post=bad), Case("timed out", outcome="raise", exc=["TimeoutError", "asyncio.CancelledError"], post=lambda cx: end(cx))]


delete_resource = Contract(MOD, "delete_resource_from_cache", params=params(resource_class=sym("type"), metadata=metadata_param), pre=pre_of(), cases=del_res_cases, setup=del_setup, opts={"modifies": ALL, "optional_cases": ("timed out",)})


# ---------------------------------------------------------------------------------------------- preparing again
def monitored(s, me, r, q):
    return [("this is the monitor of a resource", z3.And(own_monitor(s, me, r), dom(s.Q)[r], mp(s.Q)[r] == q))]


def re_setup(e, st, a):
    start(e, st, a)
    s = Now(e, st)
    me = e.sym(st, "me", TASK, own="deep", exact=True)
    r = e.keyterm(st, Rec(RES, {"resource_type": a["resource_class"], "name": a["cache_key"], "namespace": C(None)}))
    st.ghost["me"] = (me.t, r, mp(s.Q)[r])


def re_pre(e, st, a):
    me, r, q = st.ghost["me"]
    return coherent(e, st) + monitored(Now(e, st), me, r, q) + [("for the resource that is monitored", e.keyterm(st, Rec(RES, {"resource_type": a["resource_class"], "name": a["cache_key"], "namespace": C(None)})) == r)]


def re_loop(cx):
    a, b = Now(cx.eng, cx.pre), Now(cx.eng, cx.st)
    return coherent(cx.eng, cx.st) + monitored(b, *cx.st.ghost["me"]) + taken_stays(a, b, cx.st.ghost["me"]) + guarantee(cx.eng, cx.st, True)


def taken_stays(a, b, me):
    q = me[2]
    return [("what it took stays to be done", qun(b.qs)[q] - qsz(b.qs)[q] == qun(a.qs)[q] - qsz(a.qs)[q])]


def re_ensures(e, a, st):
    """the part of the contract that the monitor needs"""
    b, (me, r, q) = Now(e, st), st.ghost["me"]
    return monitored(b, me, r, q) + taken_stays(a, b, st.ghost["me"]) + coherent(e, st) + guarantee(e, st, True) + \
        [("no event is outstanding for what it read", z3.ForAll([k], z3.Implies(stale(b, r, k), late(b.qs)[q] > rv(mp(b.pt)[r])), patterns=[rel(b.SR, r, k)]))]


def re_cancelled(e, a, st):
    return [("the monitor was cancelled", dead(Now(e, st).dead, st.ghost["me"][0]))] + coherent(e, st) + guarantee(e, st, True)


def re_cases(e, st, a):
    def ret(cx):
        b, x = Now(cx.eng, cx.st), key_for(cx)
        asked = cx.st.ghost.get("asked")
        out = re_ensures(cx.eng, Now(cx.eng, cx.pre), cx.st)
        if asked is None:
            return out + [("only when it is not cached", z3.Not(dom(b.cache)[x]))]
        f, key, spec, res = asked
        c = mp(b.cache)[x]
        ok = z3.Not(isa(res, *NONOK))
        return out + [("prepared from the cached spec", z3.And(key == cx.a["cache_key"], f == cx.a["preparer"], dom(b.cache)[x], copied(spec, spec_of(c)))), ("its result is cached", value(c) == z3.If(ok, la(res)[0], res)),
                      ("the preparation started after the recorded time", z3.And(dom(b.pt)[x], rv(mp(b.pt)[x]) <= cx.st.ghost["asked at"])),
                      ("exactly the declared dependencies are watched", z3.ForAll([k], rel(b.SR, x, k) == z3.And(ok, member(la(res)[1], k)), patterns=[rel(b.SR, x, k)]))]

    def raised(cx):
        a0 = Now(cx.eng, cx.pre)
        r = cx.st.ghost.get("raised")
        return taken_stays(a0, Now(cx.eng, cx.st), cx.st.ghost["me"]) + [(f"cancelled: {lb}", z3.Implies(isa(cx.res, "asyncio.CancelledError"), f)) for lb, f in re_cancelled(cx.eng, a0, cx.st)] + \
            [("only what the preparer raised, or a cycle", z3.Or(isa(cx.res, RG.MOD + ".SubscriptionCycle", "asyncio.CancelledError"), z3.BoolVal(False) if r is None else cx.res == r))]
    return [Case("prepared", post=ret), Case("fails", outcome="raise", exc=["Exception", "asyncio.CancelledError"], post=raised)]


again = Contract(MOD, "_reprepare_and_update_cache", params=params(resource_class=sym("type"), preparer=sym("function_"), cache_key=sym("str")), pre=re_pre, cases=re_cases, setup=re_setup,
                 loops={0: Loop(re_loop, keep=("prepare",), enter=lambda e, st: start(e, st, None))}, opts={"modifies": ALL, "soft": ("prepare",)})


def again_applied(e, st, args):
    """the contract above at a call: what was proved about the segments of the callee, the last of which continues in the caller"""
    if "me" not in st.ghost:
        raise Unsupported("called by something that is not a monitor")
    a0, seg = Now(e, st), st.ghost["segment"]
    need = re_pre(e, st, args) + [("nothing was changed since the last await", z3.And(*[getattr(a0, n) == getattr(seg, n) for n in ("cache", "pt", "ct", "tasks", "clock", "dead", "Q", "RS", "SR")]))]
    e.prove_many(st, [(f"precondition of _reprepare_and_update_cache: {lb}", f) for lb, f in need])

    def later(s):
        for g in ALL:
            change(e, s, g)
        s.ghost["segment"] = Now(e, s)
        for g in ALL:
            change(e, s, g)
        e.models.note("asyncio.Queue: qsize() is never negative")
        return s.add(qsz(ghost(e, s, QS))[s.ghost["me"][2]] >= 0, *[f for _, f in taken_stays(a0, Now(e, s), s.ghost["me"])])
    ok, canc, bad = later(st.copy()), later(st.copy()), later(st.copy())
    ok.add(*[f for _, f in re_ensures(e, a0, ok)])
    ok.ghost["prepared"] = True
    canc.add(*[f for _, f in re_cancelled(e, a0, canc)])
    e.sinks[-1].append((canc, e.sym(canc, "cancelled", "asyncio.CancelledError", own="deep")))
    x = e.sym(bad, "raised", "Exception", own="deep")
    bad.ghost["raised"] = x.t
    e.sinks[-1].append((bad, x))
    return [(ok, C(None))]


# ---------------------------------------------------------------------------------------------- the monitor
def mon_setup(e, st, a):
    start(e, st, a)
    me = e.sym(st, "me", TASK, own="deep", exact=True)
    x = e.to_v(st, a["resource"])           # a NamedTuple is its fields
    st.add(T.key(x) == F("kres", V, V, V, K)(fld("resource_type")(x), F("kname", K, V)(e.keyterm(st, SV(fld("name")(x)))), fld("namespace")(x)))
    st.ghost["me"] = (me.t, e.keyterm(st, a["resource"]), mp(Now(e, st).Q)[e.keyterm(st, a["resource"])])


def nameless(e, st, a):
    return fld("namespace")(e.to_v(st, a["resource"])) == T.NoneV


def mon_pre(e, st, a):
    me, r, q = st.ghost["me"]
    s = Now(e, st)
    return [("a cached resource has no namespace", nameless(e, st, a))] + coherent(e, st) + monitored(s, me, r, q) + [("it has not taken anything yet", z3.Not(busy(s.busy, me)))]


def mon_loop(cx):
    b, (me, r, q) = Now(cx.eng, cx.st), cx.st.ghost["me"]
    return coherent(cx.eng, cx.st) + monitored(b, me, r, q) + guarantee(cx.eng, cx.st, True) + [("everything taken is done", z3.Not(busy(b.busy, me))), ("nothing was raised", cx.t("caught_exception") == T.NoneV), ("its queue", cx.t("queue") == q), ("queue states", z3.And(qsz(b.qs)[q] >= 0, qun(b.qs)[q] >= qsz(b.qs)[q]))]


def mon_cases(e, st, a):
    def ret(cx):
        b, (me, r, q) = Now(cx.eng, cx.st), cx.st.ghost["me"]
        return [("it ends only because it was cancelled", dead(b.dead, me))] + end(cx, True)

    def raised(cx):
        r = cx.st.ghost.get("raised")
        canc = [("the monitor was cancelled", dead(Now(cx.eng, cx.st).dead, cx.st.ghost["me"][0]))] + end(cx, True)
        return [(f"cancelled: {lb}", z3.Implies(isa(cx.res, "asyncio.CancelledError"), f)) for lb, f in canc] + [("only what preparing raised", z3.Or(isa(cx.res, "asyncio.CancelledError"), z3.BoolVal(False) if r is None else cx.res == r))]
    return [Case("ended", post=ret), Case("fails", outcome="raise", exc=["Exception", "asyncio.CancelledError"], post=raised)]


monitor = Contract(MOD, "_monitor_and_reprepare", params=params(resource=RG.resource(), preparer=sym("function_")), pre=mon_pre, cases=mon_cases, setup=mon_setup,
                   loops={0: Loop(mon_loop, enter=lambda e, st: start(e, st, None))}, opts={"modifies": ALL})


# ---------------------------------------------------------------------------------------------- the end of a monitor
def deletor_check(e, pre, args, res):
    r = e.keyterm(pre, args["resource"])
    for s, kind, v in res:
        if kind != "return" or not isinstance(v, Fn):
            e.prove(s, z3.BoolVal(False), "a callback is returned")
            continue
        for g in ALL:                                   # it is called later, when the monitor has ended
            change(e, s, g)
        s.add(*[f for _, f in coherent(e, s)])
        a = Now(e, s)
        t = e.sym(s, "ended", TASK, own="deep", exact=True)
        e.sinks.append([])
        outs = e.call_fn(s, v, [t], {}, None)
        outs += [(s2, None) for s2, x in e.sinks.pop()]
        for s2, _ in outs:
            b = Now(e, s2)
            mine = z3.And(dom(a.tasks)[r], mp(a.tasks)[r] == t.t)
            noop = z3.And(*[ghost(e, s2, g) == ghost(e, s, g) for g in ALL if g != CLOCK])
            e.prove_many(s2, [("nothing happens unless it still is the monitor", z3.Implies(z3.Not(mine), noop)),
                              ("it is the monitor no longer", z3.Implies(mine, z3.Not(dom(b.tasks)[r]))),
                              ("the others stay", z3.ForAll([k], z3.Implies(k != r, same(a.tasks, b.tasks, k)), patterns=[dom(b.tasks)[k], mp(b.tasks)[k]])),
                              ("what is cached stays", b.cache == a.cache), ("times stay", z3.And(b.pt == a.pt, b.ct == a.ct)),
                              ("it watches nothing any more", z3.Implies(mine, z3.ForAll([k], z3.Not(rel(b.SR, r, k)), patterns=[rel(b.SR, r, k)]))),
                              ("others watch what they watched", z3.ForAll([k, w], z3.Implies(k != r, rel(b.SR, k, w) == rel(a.SR, k, w)), patterns=[rel(b.SR, k, w)]))])
            e.cover(s2, "the callback has a live path")


deletor = Contract(MOD, "_deletor", params=params(resource=RG.resource()), check=deletor_check, setup=lambda e, st, a: start(e, st, a), pre=lambda e, st, a: coherent(e, st), opts={"modifies": ALL})

again_used = Contract(MOD, "_reprepare_and_update_cache", cases=re_cases, apply=again_applied)
CONTRACTS = [get_res, get_sys, meta, handle, prepare, delete, delete_resource, again, monitor, deletor]
USES = [c for c in RG.CONTRACTS] + [c for c in RS.CONTRACTS if c.qual == "is_unwrapped_ok"] + [again_used]
