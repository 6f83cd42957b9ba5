"""koreo/workflow/reconcile.py: steps, conditions, state and overall outcome (C01, C02, C03, C09)."""
import copy
from .common import *
from pyvc.engine import Coro, Unsupported
from . import cel_eval as CE, result as RS, reconcile as RE
from .cel_eval import cel_eval, cel_raises, cel_crashes, clean
from .reconcile import excused, using, soft, verifying, E, is_true
from .payload import MAP, LIST, kk, has

WR = "koreo.workflow.reconcile"
WS = "koreo.workflow.structure."
SR = WR + ".StepResult"
WRES = WR + ".Result"
RF = "koreo.resource_function.structure.ResourceFunction"
VF = "koreo.value_function.structure.ValueFunction"
WF = WS + "Workflow"
SW = WS + "LogicSwitch"
FUNCS = (RF, VF, WF)
res_of = fld("result")
ids_of = fld("resource_ids")

step_result = lambda t: z3.And(isa(t, SR), unwrapped(res_of(t)))
good = lambda t: z3.Not(isa(t, *NONOK))



# ---------------------------------------------------------------------------------------------- conditions
def entry(t, name):
    return mp(t)[kk(name)]


def text(t, s):
    return z3.And(isa(t, "str"), sv(t) == lit(s))


def reason_posts(c, outcome, type_):
    ok = good(outcome)
    r = entry(c, "reason")
    return [("a condition", z3.And(isa(c, "dict"), has(c, kk("type")), has(c, kk("reason")), has(c, kk("status")), has(c, kk("message")), has(c, kk("location")))),
            ("of the given type", z3.BoolVal(True) if type_ is None else entry(c, "type") == type_),
            ("ready exactly for an outcome that is Ok", text(r, "Ready") == ok),
            ("the reason names the outcome's class", z3.And(z3.Implies(isa(outcome, DEPSKIP), text(r, "DepSkip")), z3.Implies(isa(outcome, SKIP), text(r, "Skip")),
                                                             z3.Implies(isa(outcome, RETRY), text(r, "Wait")), z3.Implies(isa(outcome, PERMFAIL), text(r, "Failure"))))]


def condition_post(cx):
    return reason_posts(cx.res, cx.a["outcome"], cx.a["condition_type"])


helper = Contract(WR, "_condition_helper", params=params(condition_type=sym("str"), thing_name=sym("str"), outcome=sym(), workflow_key=sym("str")), cases=returns(condition_post))

encoder = Contract(WR, "_outcome_encoder", params=params(outcome=sym()), cases=returns(lambda cx: [
    ("a value is passed on", z3.Implies(z3.Not(isa(cx.a["outcome"], DEPSKIP, SKIP)), cx.res == cx.a["outcome"])),
    ("a skip becomes text", z3.Implies(isa(cx.a["outcome"], DEPSKIP, SKIP), isa(cx.res, "celtypes.StringType")))]))


# ---------------------------------------------------------------------------------------------- logic of one step
def inputs_param(e, st, n):
    return e.sym(st, n)


logic_ok = lambda t: isa(t, RF, VF, WF, SW, *NONOK)
EV = {"rf": ["api", "location", "function", "owner", "inputs", "res"], "vf": ["location", "function", "inputs", "value_base", "res"],
      "workflow": ["workflow", "trigger", "owner", "api", "res"]}
rf = using(RE.rf, mark="rf", cases=lambda e, st, a: [
    Case("reconciled", post=lambda cx: [("", isa(cx.res, RE.RES)), ("", unwrapped(fld("outcome")(cx.res)))]),
    Case("fails", outcome="raise", exc=["BaseException"], post=lambda cx: [("", excused(cx.res))])])
vf = using(CE.vf, mark="vf", pre=lambda e, st, a: [], cases=lambda e, st, a: [Case("reconciled", post=lambda cx: [("", unwrapped(cx.res))])])
workflow_used = Contract(WR, "reconcile_workflow", opts={"mark": "workflow"}, cases=lambda e, st, a: [Case("reconciled", post=lambda cx: workflow_result(cx.res))])


def workflow_result(r):
    return [("a workflow result", isa(r, WRES)), ("its outcome is not wrapped", unwrapped(res_of(r))), ("its state is a CEL map", isa(fld("state")(r), MAP))]


def logic_cases(e, st, a):
    lg = lambda cx: cx.a["logic"]

    def is_result(cx, value, ids=None):
        return [("a step result", step_result(cx.res)), ("with the logic's value", res_of(cx.res) == value)] + ([("and its managed resources", ids_of(cx.res) == ids)] if ids is not None else [])

    def rfp(cx):
        v = cx.ev[0].args
        return [("the step's own logic", z3.And(isa(lg(cx), RF), v["function"] == lg(cx))), ("with exactly the step's inputs", v["inputs"] == cx.a["inputs"]), ("for the given parent", same_owner(v["owner"], cx.a["owner"]))] + \
            (is_result(cx, fld("outcome")(v["res"]), fld("resource_id")(v["res"])) if kind_of(cx) == "return" else [("only what a dependency raised", excused(cx.res))])

    def vfp(cx):
        v = cx.ev[0].args
        return [("the step's own logic", z3.And(isa(lg(cx), VF), v["function"] == lg(cx))), ("with exactly the step's inputs", v["inputs"] == cx.a["inputs"])] + is_result(cx, v["res"], T.NoneV)

    def wfp(cx):
        v = cx.ev[0].args
        r = v["res"]
        return [("the step's own logic", z3.And(isa(lg(cx), WF), v["workflow"] == lg(cx))), ("with exactly the step's inputs as trigger", v["trigger"] == cx.a["inputs"]), ("for the given parent", same_owner(v["owner"], cx.a["owner"]))] + \
            is_result(cx, z3.If(good(res_of(r)), fld("state")(r), res_of(r)), ids_of(r))

    def swp(cx):
        v = cx.ev[0].args
        fs = [("the step's own switch", z3.And(isa(lg(cx), SW), v["logic_switch"] == lg(cx))), ("with exactly the step's inputs", z3.And(v["inputs"] == cx.a["inputs"], v["workflow_inputs"] == cx.a["workflow_inputs"])), ("for the given parent", same_owner(v["owner"], cx.a["owner"]))]
        return fs + ([("a step result", step_result(cx.res)), ("the switch's result", cx.res == v["res"])] if kind_of(cx) == "return" else [("only what a dependency raised", excused(cx.res))])
    none = lambda cx: [("only an outcome in place of logic needs no evaluation", isa(lg(cx), *NONOK))] + is_result(cx, lg(cx))
    K1 = lambda k: [(k, EV_NAMES[k])]
    return [Case("ResourceFunction", events=K1("rf"), post=rfp), Case("ValueFunction", events=K1("vf"), post=vfp), Case("Workflow", events=K1("workflow"), post=wfp), Case("refSwitch", events=K1("switch"), post=swp),
            Case("outcome", post=none), Case("ResourceFunction fails", events=K1("rf"), outcome="raise", exc=["BaseException"], post=rfp), Case("refSwitch fails", events=K1("switch"), outcome="raise", exc=["BaseException"], post=swp)]


EV_NAMES = {"rf": [], "vf": [], "workflow": [], "switch": [], "logic": [], "eval": []}
kind_of = lambda cx: getattr(cx, "kind", "return")
same_owner = lambda x, y: z3.And(la(x)[0] == la(y)[0], la(x)[1] == la(y)[1])
logic_param = lambda e, st, n: e.sym(st, n, (RF, VF, WF, SW, *NONOK))
owner_param = RE.owner_param
common = dict(api=sym("kr8s.Api"), workflow_key=sym("str"), owner=owner_param, inputs=inputs_param, workflow_inputs=sym(MAP), location=sym("str"))


def logic_pre(e, st, a):
    l = e.to_v(st, a["logic"])
    return [("logic of a known kind", logic_ok(l)), ("an outcome in place of logic is well formed", z3.Implies(isa(l, *NONOK), wf_outcome(l))), ("a switch is well formed", z3.Implies(isa(l, SW), switch_ok(l)))]


def switch_ok(s):
    k = z3.Const("swk", K)
    m, d = fld("logic_map")(s), fld("default_logic")(s)
    return z3.And(isa(fld("switch_on")(s), "celpy.Runner"), isa(m, "dict"), isa(d, *FUNCS, "NoneType", *NONOK), z3.Implies(isa(d, *NONOK), wf_outcome(d)),
                  z3.ForAll([k], z3.Implies(dom(m)[k], z3.And(isa(mp(m)[k], *FUNCS, *NONOK), z3.Implies(isa(mp(m)[k], *NONOK), wf_outcome(mp(m)[k])))), patterns=[mp(m)[k]]))


switch_used = Contract(WR, "_reconcile_ref_switch", opts={"mark": "switch"}, pre=lambda e, st, a: [("a prepared switch", z3.And(isa(e.to_v(st, a["logic_switch"]), SW), switch_ok(e.to_v(st, a["logic_switch"]))))], cases=lambda e, st, a: [
    Case("reconciled", post=lambda cx: [("", step_result(cx.res))]), Case("fails", outcome="raise", exc=["BaseException"], post=lambda cx: [("", excused(cx.res))])])
logic = Contract(WR, "_reconcile_step_logic", params=params(**common, logic=logic_param), pre=logic_pre, cases=logic_cases)
logic_used = Contract(WR, "_reconcile_step_logic", opts={"mark": "logic"}, pre=logic_pre, cases=switch_used.cases)


# ---------------------------------------------------------------------------------------------- refSwitch
def switch_cases(e, st, a):
    s = lambda cx: cx.a["logic_switch"]

    def asked(cx):
        q = cx.ev[0].args
        ins, wi = q["inputs"], cx.a["workflow_inputs"]
        k = z3.Const("sik", K)
        return [("switchOn is what decides", q["expression"] == fld("switch_on")(s(cx))),
                ("over the step's inputs and the workflow's values", z3.And(isa(ins, "dict"), z3.Implies(z3.Not(has(wi, kk("inputs"))), z3.And(has(ins, kk("inputs")), entry(ins, "inputs") == cx.a["inputs"])),
                                                                        z3.ForAll([k], z3.Implies(has(wi, k), z3.And(has(ins, k), mp(ins)[k] == mp(wi)[k])), patterns=[dom(ins)[k]])))]

    def choice(cx):
        v = cx.ev[0].args["res"]
        m, d = fld("logic_map")(s(cx)), fld("default_logic")(s(cx))
        k = z3.If(isa(v, "str"), T.kstr(sv(v)), T.kint(iv(v)))
        return z3.If(has(m, k), mp(m)[k], d), isa(v, "str", "celtypes.IntType")

    def none(cx):
        c, plain = choice(cx)
        v = cx.ev[0].args["res"]
        return asked(cx) + [("a step result", step_result(cx.res)), ("PermFail", isa(res_of(cx.res), PERMFAIL)), ("only when no case can be selected", z3.Or(isa(v, PERMFAIL), z3.Not(plain), z3.Not(T.truth(c)))), ("nothing is managed", ids_of(cx.res) == T.NoneV)]

    def one(cx):
        c, plain = choice(cx)
        v = cx.ev[1].args
        return asked(cx) + [("exactly the selected case", z3.And(plain, T.truth(c), v["logic"] == c)), ("with the step's inputs", z3.And(v["inputs"] == cx.a["inputs"], v["workflow_inputs"] == cx.a["workflow_inputs"])), ("for the given parent", same_owner(v["owner"], cx.a["owner"]))] + \
            ([("a step result", step_result(cx.res)), ("its result", cx.res == v["res"])] if kind_of(cx) == "return" else [("only what a dependency raised", excused(cx.res))])
    return [Case("no case", events=[("eval", [])], post=none), Case("selected", events=[("eval", []), ("logic", [])], post=one), Case("the selected case fails", events=[("eval", []), ("logic", [])], outcome="raise", exc=["BaseException"], post=one)]


def prepared_switch(e, st, n):
    s = e.sym(st, n, SW)
    st.add(switch_ok(s.t))
    return s


switch = Contract(WR, "_reconcile_ref_switch", params=params(**common, logic_switch=prepared_switch), cases=switch_cases)

# ---------------------------------------------------------------------------------------------- tasks
T.add_class("asyncio.TaskGroup")
T.add_class("asyncio.Timeout")
TASK = "asyncio.Task"
finished = z3.Function("finished", V, B)          # the task was done at a point already passed (tasks stay done)
gname, gcancelled, gexc, gres, ggroup = fld("ghost_name"), z3.Function("task_cancelled", V, B), fld("ghost_exception"), fld("ghost_result"), fld("ghost_group")
ran = lambda p: fld("run_" + p)


def task_facts(t):
    """what holds of every task, now or once it is done (asyncio, and the contract of what it runs)"""
    return z3.And(isa(t, TASK), isa(gname(t), "str"), z3.Or(gexc(t) == T.NoneV, isa(gexc(t), "BaseException")), z3.Implies(gexc(t) != T.NoneV, z3.And(excused(gexc(t)), z3.Not(gcancelled(t)))),
                  z3.Implies(z3.And(z3.Not(gcancelled(t)), gexc(t) == T.NoneV), step_result(gres(t))))


def create_task(e, st, o, args, kw, node):
    only = set(kw) - {"name", "context"}
    if only or len(args) != 1 or not isinstance(args[0], Coro) or id(args[0]) not in getattr(e, "coro_info", {}):
        raise Unsupported("create_task of something that is not a call")
    f, a, k, selfarg = e.coro_info[id(args[0])][1]
    c = e.contracts.get((f.module, f.qual))
    if c is None or f.env is not None:
        raise Unsupported(f"task running {f.qual}, which has no contract")
    e.models.note("asyncio: a task runs the coroutine it was given to its end, keeps its name, and ends with a result, an exception or cancelled")
    outs = []
    for s, b in e.bind_args(st, f.node, a, k, f.module, selfarg):
        if c.pre is not None:
            need = c.pre(e, s, b)
            e.prove_many(s, [(f"precondition of the task's {c.qual}: {lb}", g) for lb, g in need])
            s.add(*[g for _, g in need])
        t = e.sym(s, "task", TASK, own="deep", exact=True)
        s.add(task_facts(t.t), ggroup(t.t) == e.to_v(s, o), fld("ghost_runs")(t.t) == e.to_v(s, f))
        name = kw.get("name")
        if name is not None:
            s.add(sv(gname(t.t)) == T.tostr(e.to_v(s, name)), z3.Implies(isa(e.to_v(s, name), "str"), sv(gname(t.t)) == sv(e.to_v(s, name))))
        for p, v in b.items():
            x = e.argterm(s, v)
            if x is not None:
                s.add(ran(p)(t.t) == x)
        if c.opts.get("task_result"):
            s.add(*c.opts["task_result"](e, s, t.t))
        outs.append((s, t))
    return outs


def task_method(name):
    def call(e, st, o, args, kw, node):
        if not isinstance(o, SV) or args or kw:
            return None
        t = e.snap(st, o)
        s = e.guard(st, isa(t, TASK), "AttributeError")
        if s is None:
            return []
        if name == "get_name":
            s.add(isa(gname(t), "str"))
            return [(s, SV(gname(t)))]
        if name == "cancelled":
            return [(s, BV(z3.And(finished(t), gcancelled(t))))]
        if name == "done":
            return [(s, BV(finished(t)))]
        s = e.guard(s, finished(t), "asyncio.InvalidStateError")
        if s is None:
            return []
        gone = z3.simplify(gcancelled(t))
        c = e.sym(s, "cancelled", "asyncio.CancelledError", own="deep", exact=True)
        s.add(excused(c.t))
        e.throw(s, "asyncio.CancelledError", gone, value=c)
        x = s.copy().add(z3.Not(gone))
        if not e.feasible(x):
            return []
        if name == "exception":
            return [(x, SV(gexc(t)))]
        e.throw(x, "BaseException", gexc(t) != T.NoneV, value=SV(gexc(t), "deep"))
        x.add(gexc(t) == T.NoneV)
        return [(x, SV(gres(t), "borrowed"))] if e.feasible(x) else []
    return call


def wait(e, st, args, kw, node):
    if kw or len(args) != 1:
        raise Unsupported("asyncio.wait with a timeout")

    def th(s):
        t = e.to_v(s, args[0])
        s.log.append(Event("wait", tasks=t))
        bad = s.copy()
        x = e.sym(bad, "cancelled", "BaseException", own="deep")
        bad.add(excused(x.t))
        e.sinks[-1].append((bad, x))
        s = e.guard(s, T.truth(t), "ValueError")
        if s is None:
            return []
        j = z3.Const(T.fresh_name("wj"), I)
        s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(t)), finished(la(t)[j])), patterns=[la(t)[j]]))
        done = e.sym(s, "done", "set", own="deep", exact=True)
        e.models.note("asyncio.wait(tasks) without a timeout returns when every task is done, leaving none pending")
        return [(s, Tup([done, e.new_set(s, [])]))]
    return [(st, Coro(th))]


def group(e, st, args, kw, node):
    return [(st, e.sym(st, "group", "asyncio.TaskGroup", own="deep", exact=True))]


def timeout(e, st, args, kw, node):
    return [(st, e.sym(st, "timeout", "asyncio.Timeout", own="deep", exact=True))]


def with_hook(e, st, cm, item, body, n):
    """leaving `async with TaskGroup()`: every task of the group is done; leaving may raise (a task failed, timeout, cancelled)"""
    if not isinstance(cm, SV):
        return None
    if e.entails(st, T.exact(cm.t, "asyncio.Timeout")):
        if item.optional_vars is not None:
            raise Unsupported("timeout as name")
        return body(st)
    if not e.entails(st, T.exact(cm.t, "asyncio.TaskGroup")):
        return None
    e.models.note("asyncio.TaskGroup: when the block is left, normally or not, every task created in it is done")
    if item.optional_vars is not None:
        (r,) = e.bind_target(st, item.optional_vars, cm)
        st = r[0]
    e.sinks.append([])
    try:
        res = body(st)
    finally:
        exc = e.sinks.pop()
    t = z3.Const("gt", V)
    end = z3.ForAll([t], z3.Implies(ggroup(t) == cm.t, finished(t)), patterns=[ggroup(t)])
    for s, k, v in res:
        s.add(end)
        s2 = s.copy()
        x = e.sym(s2, "group_exc", "BaseException", own="deep")
        s2.add(excused(x.t))
        e.sinks[-1].append((s2, x))
    for s, x in exc:
        s.add(end)
        e.sinks[-1].append((s, x))
    return res


def setup(e):
    RE.setup(e)
    e.ordered = True
    for n in ("get_name", "cancelled", "done", "exception", "result"):
        e.models.meth[n] = task_method(n)
    e.models.meth["create_task"] = create_task
    e.models.ext.update({"asyncio.wait": wait, "asyncio.TaskGroup": group, "asyncio.timeout": timeout})
    e.models.with_hook = with_hook


# ---------------------------------------------------------------------------------------------- one step
STEP, ESTEP, FOREACH = WS + "Step", WS + "ErrorStep", WS + "ForEach"


def step_ok(t):
    """a prepared step"""
    i = z3.Const("soi", V)
    lg, ins, fe = fld("logic")(t), fld("inputs")(t), fld("for_each")(t)
    runner = lambda x: isa(x, "celpy.Runner", "NoneType")
    return z3.And(isa(t, STEP, ESTEP), isa(fld("label")(t), "str"),
                  z3.Implies(isa(t, ESTEP), z3.And(isa(fld("outcome")(t), *NONOK), wf_outcome(fld("outcome")(t)))),
                  z3.Implies(isa(t, STEP), z3.And(logic_ok(lg), z3.Implies(isa(lg, *NONOK), wf_outcome(lg)), z3.Implies(isa(lg, SW), switch_ok(lg)), runner(fld("skip_if")(t)), runner(ins), runner(fld("state")(t)),
                                                  isa(fld("dynamic_input_keys")(t), "set"), z3.Or(fe == T.NoneV, z3.And(isa(fe, FOREACH), isa(fld("source_iterator")(fe), "celpy.Runner"), isa(fld("input_key")(fe), "str"))),
                                                  z3.ForAll([i], z3.Implies(z3.And(ins != T.NoneV, clean(cel_eval(ins, i))), isa(cel_eval(ins, i), MAP)), patterns=[cel_eval(ins, i)]))),
                  z3.Or(fld("condition")(t) == T.NoneV, z3.And(isa(fld("condition")(t), WS + "StepConditionSpec"), isa(fld("type_")(fld("condition")(t)), "str"), isa(fld("name")(fld("condition")(t)), "str"))),
                  z3.Implies(isa(t, ESTEP), fld("state")(t) == T.NoneV))


def deps_ok(d):
    i, j = z3.Consts("di dj", I)
    rng = lambda x: z3.And(0 <= x, x < ln(d))
    return [("dependencies are a list of tasks", z3.And(isa(d, "list"), z3.ForAll([i], z3.Implies(rng(i), task_facts(la(d)[i])), patterns=[la(d)[i]]))),
            ("each dependency has its own name", z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), sv(gname(la(d)[i])) == sv(gname(la(d)[j]))), la(d)[i] == la(d)[j]), patterns=[z3.MultiPattern(la(d)[i], la(d)[j])]))]


def step_pre(e, st, a):
    return [("a prepared step", step_ok(e.to_v(st, a["step"])))] + deps_ok(e.to_v(st, a["dependencies"]))


name_key = lambda t: T.kstr(sv(gname(t)))
dep_value = lambda t: res_of(gres(t))
ended_ok = lambda t: z3.And(finished(t), z3.Not(gcancelled(t)), gexc(t) == T.NoneV, good(dep_value(t)))
dep_of = z3.Function("dependency_named", V, K, I)


def values_of(m, d, n):
    """the map m holds exactly the values of the first n dependencies, under their names"""
    j, k = z3.Const("vj", I), z3.Const("vk", K)
    w = dep_of(d, k)
    return z3.And(isa(m, MAP), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(has(m, name_key(la(d)[j])), mp(m)[name_key(la(d)[j])] == dep_value(la(d)[j]))), patterns=[la(d)[j]]),
                  z3.ForAll([k], z3.Implies(has(m, k), z3.Exists([j], z3.And(0 <= j, j < n, k == name_key(la(d)[j])))), patterns=[dom(m)[k]]))


def deps_inv(cx):
    d, m = cx.p("dependencies"), cx.t("ok_outcomes")
    j = z3.Const("dj", I)
    return [("the dependencies so far ended Ok", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), ended_ok(la(d)[j])), patterns=[la(d)[j]])), ("their values, nothing else", values_of(m, d, cx.i))]


def step_cases(e, st, a):
    s = lambda cx, n: fld(n)(cx.a["step"])
    d = lambda cx: cx.a["dependencies"]
    j = z3.Const("sj", I)
    every = lambda cx: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(d(cx))), good(dep_value(la(d(cx))[j]))), patterns=[la(d(cx))[j]])

    def sees(cx, wi):
        n = ln(d(cx))
        st_ = entry(wi, "steps")
        k = z3.Const("seek", K)
        return [("the expressions see the trigger", z3.And(isa(wi, MAP), has(wi, kk("parent")), entry(wi, "parent") == cx.a["trigger"])),
                ("and exactly the values of the referenced steps", z3.If(n == 0, z3.Not(has(wi, kk("steps"))), z3.And(has(wi, kk("steps")), values_of(st_, d(cx), n)))),
                ("and nothing else", z3.ForAll([k], z3.Implies(has(wi, k), z3.Or(k == kk("parent"), k == kk("steps"))), patterns=[dom(wi)[k]]))]

    def runs(cx, fe):
        v = cx.ev[-1].args
        wi, ins = v["workflow_inputs"], v["inputs"]
        sval, sok = E(s(cx, "skip_if"), wi)
        ival, iok = E(s(cx, "inputs"), wi)
        out = [("only a prepared step is run", isa(cx.a["step"], STEP)), ("every referenced step has finished with an Ok outcome", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(d(cx))), ended_ok(la(d(cx))[j])), patterns=[la(d(cx))[j]]))]
        out += sees(cx, wi)
        out += [("skipIf is absent or false", z3.Or(s(cx, "skip_if") == T.NoneV, z3.And(sok, isa(sval, "celtypes.BoolType"), iv(sval) == 0))),
                ("it receives the step's inputs", z3.If(s(cx, "inputs") == T.NoneV, z3.And(isa(ins, MAP), klen(ins) == 0), z3.And(iok, ins == ival))),
                ("for the given parent", same_owner(v["owner"], cx.a["owner"]))]
        out += [("a forEach step runs once per item", z3.And(s(cx, "for_each") != T.NoneV, v["step"] == cx.a["step"]))] if fe else [("a step without forEach runs its logic", z3.And(s(cx, "for_each") == T.NoneV, v["logic"] == s(cx, "logic")))]
        if cx.kind == "return":
            out += [("a step result", step_result(cx.res)), ("its result", cx.res == v["res"])]
        else:
            out.append(("only what a dependency raised", excused(cx.res)))
        return out

    def none(cx):
        r = res_of(cx.res)
        out = [("a step result", step_result(cx.res)), ("an outcome", isa(r, *NONOK)), ("nothing is managed", ids_of(cx.res) == T.NoneV)]
        if "wait" in [x.kind for x in cx.ev]:
            out.append(("some referenced step did not end Ok: a dependency-skip", z3.Implies(z3.Not(every(cx)), isa(r, DEPSKIP))))
        else:
            out.append(("it waits for what it depends on", z3.Or(isa(cx.a["step"], ESTEP), ln(d(cx)) == 0)))
        ev = soft(cx, "eval")
        out.append(("an unprepared step: its outcome", z3.Implies(isa(cx.a["step"], ESTEP), r == s(cx, "outcome"))))
        if not ev:
            out.append(("not run before anything is evaluated only for a dependency", z3.Or(isa(cx.a["step"], ESTEP), z3.And(isa(r, DEPSKIP), z3.Not(every(cx))))))
            return out
        wi = ev[0]["inputs"]
        sval, sok = E(s(cx, "skip_if"), wi)
        ival, iok = E(s(cx, "inputs"), wi)
        skip, ins = s(cx, "skip_if"), s(cx, "inputs")
        out += [("expressions are evaluated only when every referenced step ended Ok", every(cx))] + sees(cx, wi)
        skipped = z3.And(skip != T.NoneV, sok, isa(sval, "celtypes.BoolType"), iv(sval) == 1)
        passed = z3.Or(skip == T.NoneV, z3.And(sok, isa(sval, "celtypes.BoolType"), iv(sval) == 0))
        out += [("skipIf true: skipped", z3.Implies(skipped, isa(r, SKIP))), ("skipIf cannot be decided: PermFail", z3.Implies(z3.Not(z3.Or(skipped, passed)), isa(r, PERMFAIL))),
                ("skipIf false: stops only for inputs that cannot be evaluated", z3.Implies(passed, z3.And(isa(r, PERMFAIL), ins != T.NoneV, z3.Not(iok))))]
        return out
    exc = lambda cx: [("only what a dependency raised", excused(cx.res))]
    W = [("wait", ["tasks"])]
    L, F = [("logic", [])], [("foreach", [])]
    return [Case("not run", post=none), Case("not run after waiting", events=W, post=none), Case("run", events=L, post=lambda cx: runs(cx, False)), Case("run after waiting", events=W + L, post=lambda cx: runs(cx, False)),
            Case("run per item", events=F, post=lambda cx: runs(cx, True)), Case("run per item after waiting", events=W + F, post=lambda cx: runs(cx, True)),
            Case("fails", events=L, outcome="raise", exc=["BaseException"], post=lambda cx: runs(cx, False)), Case("fails after waiting", events=W + L, outcome="raise", exc=["BaseException"], post=lambda cx: runs(cx, False)),
            Case("an item fails", events=F, outcome="raise", exc=["BaseException"], post=lambda cx: runs(cx, True)), Case("an item fails after waiting", events=W + F, outcome="raise", exc=["BaseException"], post=lambda cx: runs(cx, True)),
            Case("a dependency crashed", events=W, outcome="raise", exc=["BaseException"], post=exc)]


foreach_used = Contract(WR, "_for_each_reconciler", opts={"mark": "foreach"}, pre=lambda e, st, a: foreach_pre(e, st, a), cases=lambda e, st, a: [
    Case("reconciled", post=lambda cx: [("", step_result(cx.res))]), Case("fails", outcome="raise", exc=["BaseException"], post=lambda cx: [("", excused(cx.res))])])


def foreach_pre(e, st, a):
    s, ins = e.to_v(st, a["step"]), e.to_v(st, a["inputs"])
    return [("a prepared forEach step", z3.And(step_ok(s), isa(s, STEP), fld("for_each")(s) != T.NoneV)), ("its inputs are a CEL map", isa(ins, MAP))]


step = Contract(WR, "_reconcile_step", params=params(api=sym("kr8s.Api"), workflow_key=sym("str"), step=sym((STEP, ESTEP)), trigger=sym(), dependencies=sym("list"), owner=owner_param), pre=step_pre, cases=step_cases,
                loops={0: Loop(deps_inv)}, opts={"join": True, "soft": ("eval",), "cost": 4})

# ---------------------------------------------------------------------------------------------- forEach
fault = lambda t: z3.Or(gcancelled(t), gexc(t) != T.NoneV)
waits = lambda r: z3.And(isa(r, SR), isa(res_of(r), RETRY), wf_outcome(res_of(r)), ids_of(r) == T.NoneV)
reported = lambda t, r: z3.If(fault(t), waits(r), r == gres(t))      # what a finished task contributes
logic_fn = z3.Const("fn:" + WR + "._reconcile_step_logic", V)


def with_item(m, base, key, item):
    """m is base with `key` set to item"""
    k = T.kstr(sv(key))
    return z3.And(T.cls(m) == T.cls(base), dom(m) == z3.Store(dom(base), k, z3.BoolVal(True)), mp(m) == z3.Store(mp(base), k, item))


def item_task(e, t, cx_a, item):
    s = cx_a["step"]
    return z3.And(task_facts(t), fld("ghost_runs")(t) == logic_fn, ran("logic")(t) == fld("logic")(s), ran("workflow_inputs")(t) == cx_a["workflow_inputs"],
                  same_owner(ran("owner")(t), cx_a["owner"]), with_item(ran("inputs")(t), cx_a["inputs"], fld("input_key")(fld("for_each")(s)), item))


FE_ARGS = ("step", "workflow_inputs", "owner", "inputs")


def spawn_inv(cx):
    a = {n: cx.p(n) for n in FE_ARGS}
    ts, g, j = cx.t("tasks"), cx.t("task_group"), z3.Const("tj", I)
    t = la(ts)[j]
    return [("one task per item so far", z3.And(isa(ts, "list"), ln(ts) == cx.i)),
            ("each runs the step's logic on its own item", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), z3.And(ggroup(t) == g, item_task(cx.eng, t, a, la(cx.src)[j]))), patterns=[la(ts)[j]]))]


def gather_inv(cx):
    o, ts, j = cx.t("outcomes"), cx.src, z3.Const("oj", I)
    return [("one outcome per task so far", z3.And(isa(o, "list"), ln(o) == cx.i)),
            ("each is the task's result, or Retry", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx.i), z3.And(step_result(la(o)[j]), reported(la(ts)[j], la(o)[j]))), patterns=[la(o)[j], la(ts)[j]]))]


def foreach_cases(e, st, a):
    def asked(cx):
        q = cx.ev[0].args
        return [("the items are what itemIn evaluates to", z3.And(q["expression"] == fld("source_iterator")(fld("for_each")(cx.a["step"])), q["inputs"] == cx.a["workflow_inputs"]))], q["res"]

    def local(cx, name):
        v = cx.st.env.get(name)
        return None if v is None else cx.eng.to_v(cx.st, v)

    def post(cx):
        fs, src = asked(cx)
        r, n, j = res_of(cx.res), ln(src), z3.Const("fj", I)
        fs += [("a step result", step_result(cx.res)), ("items that are no list: PermFail", z3.Implies(z3.Not(isa(src, "list")), z3.And(isa(r, PERMFAIL), ids_of(cx.res) == T.NoneV))),
               ("no items: no results", z3.Implies(z3.And(isa(src, "list"), n == 0), z3.And(isa(r, LIST), ln(r) == 0)))]
        ts = local(cx, "tasks")
        if ts is None:
            return fs + [("without running anything only when there are no items", z3.Or(z3.Not(isa(src, "list")), n == 0))]
        os = local(cx, "outcomes")
        t, x = la(ts)[j], la(os)[j]
        rng = z3.And(0 <= j, j < n)
        q = lambda f: z3.ForAll([j], z3.Implies(rng, f), patterns=[la(ts)[j], la(os)[j]])
        err = isa(res_of(x), *ERRORS)
        ids = ids_of(cx.res)
        arg = {k: cx.a[k] for k in FE_ARGS}
        fs += [("one run per item, in order, each with its own item", z3.And(ln(ts) == n, q(z3.And(finished(t), item_task(cx.eng, t, arg, la(src)[j]))))),
               ("each contributes its result, a crashed or late one a Retry", z3.And(ln(os) == n, q(reported(t, x)))),
               ("an item that waits or failed makes the step wait or fail", q(z3.Implies(err, z3.And(step_result(x), isa(r, *ERRORS), sev(res_of(x)) <= sev(r))))),
               ("the step waits or fails only for an item", z3.Implies(isa(r, *NONOK), z3.And(isa(r, *ERRORS), z3.Exists([j], z3.And(rng, err, sev(res_of(x)) == sev(r)))))),
               ("otherwise the results in the order of the items", z3.Implies(z3.Not(isa(r, *NONOK)), z3.And(isa(r, LIST), ln(r) == n, z3.ForAll([j], z3.Implies(rng, z3.If(isa(res_of(x), DEPSKIP, SKIP), isa(la(r)[j], "celtypes.StringType"), la(r)[j] == res_of(x))), patterns=[la(r)[j]])))),
               ("managed resources in the order of the items", z3.And(isa(ids, "list"), ln(ids) == n, z3.ForAll([j], z3.Implies(rng, la(ids)[j] == ids_of(x)), patterns=[la(ids)[j]])))]
        return fs
    return [Case("returns", events=[("eval", [])], post=post), Case("cancelled", events=[("eval", [])], outcome="raise", exc=["BaseException"], post=lambda cx: [("only what a dependency raised", excused(cx.res))])]


foreach = Contract(WR, "_for_each_reconciler", params=params(api=sym("kr8s.Api"), step=sym(STEP), workflow_key=sym("str"), location=sym("str"), owner=owner_param, workflow_inputs=sym(MAP), inputs=sym(MAP)), pre=foreach_pre, cases=foreach_cases,
                   loops={0: Loop(spawn_inv), 1: Loop(gather_inv)}, opts={"join": True, "soft": ("wait",), "cost": 4})

# ---------------------------------------------------------------------------------------------- all steps
step_fn = z3.Const("fn:" + WR + "._reconcile_step", V)
CSPEC = WS + "StepConditionSpec"
earlier = z3.Function("earlier_step", V, I, K, I)      # (steps, i, label) -> position of the step of that label before i
label_of = lambda steps, j: fld("label")(la(steps)[j])
skey = lambda steps, j: T.kstr(sv(label_of(steps, j)))
task_at = lambda tm, steps, j: mp(tm)[skey(steps, j)]


def steps_ok(steps):
    """what preparation establishes for the steps of a ready workflow: prepared steps, distinct labels, references to earlier steps only"""
    i, j, k = z3.Const("soj", I), z3.Const("sok", I), z3.Const("sol", K)
    rng = lambda x: z3.And(0 <= x, x < ln(steps))
    dyn = fld("dynamic_input_keys")(la(steps)[i])
    e = earlier(steps, i, k)
    return z3.And(isa(steps, "list", "tuple"), z3.ForAll([i], z3.Implies(rng(i), step_ok(la(steps)[i])), patterns=[la(steps)[i]]),
                  z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), sv(label_of(steps, i)) == sv(label_of(steps, j))), i == j), patterns=[z3.MultiPattern(label_of(steps, i), label_of(steps, j))]),
                  z3.ForAll([i, k], z3.Implies(z3.And(rng(i), isa(la(steps)[i], STEP), dom(dyn)[k]), z3.And(0 <= e, e < i, k == skey(steps, e))), patterns=[z3.MultiPattern(la(steps)[i], dom(dyn)[k])]))


def wired(t, steps, j, tm, g, a):
    """t is the task of step j: that very step, the tasks of exactly the steps it references, the trigger, the parent"""
    s, m = la(steps)[j], z3.Const("wm", I)
    d, dyn = ran("dependencies")(t), fld("dynamic_input_keys")(s)
    return z3.And(task_facts(t), ggroup(t) == g, fld("ghost_runs")(t) == step_fn, sv(gname(t)) == sv(fld("label")(s)), ran("step")(t) == s, ran("trigger")(t) == a["trigger"], same_owner(ran("owner")(t), a["owner"]),
                  isa(d, "list"), z3.If(isa(s, STEP), z3.And(ln(d) == klen(dyn), z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < ln(d)), la(d)[m] == mp(tm)[T.key(T.kat(dyn, m))]), patterns=[la(d)[m]])), ln(d) == 0))


ST_ARGS = ("trigger", "owner")


def launch_inv(cx):
    a = {n: cx.p(n) for n in ST_ARGS}
    steps, tm, om, g, j = cx.src, cx.t("task_map"), cx.t("outcome_map"), cx.t("task_group"), z3.Const("lj", I)
    rng = z3.And(0 <= j, j < cx.i)
    t, o = task_at(tm, steps, j), mp(om)[skey(steps, j)]
    q = lambda f, *p: z3.ForAll([j], z3.Implies(rng, f), patterns=[la(steps)[j], *p])
    return [("one task per step so far", z3.And(isa(tm, "dict"), klen(tm) == cx.i)),
            ("in the order of the steps", q(z3.And(has(tm, skey(steps, j)), T.kidx(tm, skey(steps, j)) == j, T.key(T.kat(tm, j)) == skey(steps, j)), T.kat(tm, j))),
            ("each runs its step after exactly the steps it references", q(wired(t, steps, j, tm, g, a))),
            ("with its condition and state", z3.And(isa(om, "dict"), q(z3.And(has(om, skey(steps, j)), T.exact(o, "tuple"), ln(o) == 2, la(o)[0] == fld("condition")(la(steps)[j]), la(o)[1] == fld("state")(la(steps)[j])))))]


emitted = z3.Function("conditions_before", V, V, I, I)          # (tasks, steps, i): conditions reported for the steps before i
sdom = z3.Function("state_keys", V, V, I, z3.ArraySort(K, B))   # the state published by the steps before i, merged in listed order
smp = z3.Function("state_values", V, V, I, z3.ArraySort(K, V))
inp = z3.Function("value_inputs", V, V)                         # {"value": v}


def published(tm, steps, j):
    """(step j publishes state, the map it publishes)"""
    t, run = task_at(tm, steps, j), fld("state")(la(steps)[j])
    v = res_of(gres(t))
    val, ok = E(run, inp(v))
    tried = z3.And(z3.Not(fault(t)), run != T.NoneV, good(v))
    return z3.And(tried, ok, isa(val, MAP)), val, tried


def emits(tm, steps, j):
    return z3.Or(fault(task_at(tm, steps, j)), fld("condition")(la(steps)[j]) != T.NoneV)


def unroll(tm, steps, i):
    """defining equations of the three recursive functions, at i"""
    k = z3.Const("uk", K)
    pub, val, _ = published(tm, steps, i - 1)
    first = z3.And(emitted(tm, steps, 0) == 0, z3.ForAll([k], z3.Not(sdom(tm, steps, 0)[k]), patterns=[sdom(tm, steps, 0)[k]]))
    new = z3.And(pub, dom(val)[k])
    return [first, z3.Implies(i > 0, z3.And(emitted(tm, steps, i) == emitted(tm, steps, i - 1) + z3.If(emits(tm, steps, i - 1), 1, 0),
                                            z3.ForAll([k], sdom(tm, steps, i)[k] == z3.Or(new, sdom(tm, steps, i - 1)[k]), patterns=[sdom(tm, steps, i)[k]]),
                                            z3.ForAll([k], smp(tm, steps, i)[k] == z3.If(new, mp(val)[k], smp(tm, steps, i - 1)[k]), patterns=[smp(tm, steps, i)[k]])))]


def collected(tm, steps, i, outcomes, conditions, state, errors):
    """after the first i steps: what has been gathered, as a function of the steps, their tasks and the listed order"""
    j, m, k = z3.Const("cj", I), z3.Const("cm", I), z3.Const("ck", K)
    rng = z3.And(0 <= j, j < i)
    t, key = task_at(tm, steps, j), skey(steps, j)
    q = lambda f, *p: z3.ForAll([j], z3.Implies(rng, f), patterns=[la(steps)[j], *p])
    o, c = mp(outcomes)[key], la(conditions)[emitted(tm, steps, j)]
    cond = fld("condition")(la(steps)[j])
    _, val, tried = published(tm, steps, j)
    return [("one outcome per step", z3.And(isa(outcomes, "dict"), klen(outcomes) == i)),
            ("in listed order", q(z3.And(has(outcomes, key), T.kidx(outcomes, key) == j, T.key(T.kat(outcomes, j)) == key), T.kat(outcomes, j))),
            ("a step's outcome is what its task returned, Retry for one that crashed or is late", q(z3.And(step_result(o), reported(t, o)))),
            ("as many conditions as steps that have one", z3.And(isa(conditions, "list"), ln(conditions) == emitted(tm, steps, i), emitted(tm, steps, i) >= 0)),
            ("counting never goes back", q(z3.And(0 <= emitted(tm, steps, j), emitted(tm, steps, j) <= emitted(tm, steps, i)), emitted(tm, steps, j))),
            ("a step with a condition counts", q(z3.Implies(emits(tm, steps, j), emitted(tm, steps, j) < emitted(tm, steps, i)), emitted(tm, steps, j))),
            ("in listed order, about the step's own outcome", q(z3.Implies(emits(tm, steps, j), z3.And([f for _, f in reason_posts(c, res_of(o), None)] + [z3.If(fault(t), text(entry(c, "type"), "Ready"), entry(c, "type") == fld("type_")(cond))])))),
            ("and no others", z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < ln(conditions)), z3.And(isa(la(conditions)[m], "dict"), z3.Exists([j], z3.And(rng, emits(tm, steps, j), m == emitted(tm, steps, j))))), patterns=[la(conditions)[m]])),
            ("state merged in listed order: keys", z3.And(isa(state, MAP), z3.ForAll([k], dom(state)[k] == sdom(tm, steps, i)[k], patterns=[dom(state)[k], sdom(tm, steps, i)[k]]))),
            ("state merged in listed order: values", z3.ForAll([k], z3.Implies(dom(state)[k], mp(state)[k] == smp(tm, steps, i)[k]), patterns=[mp(state)[k]])),
            ("state that cannot be published is reported", z3.And(isa(errors, "dict"), q(has(errors, key) == z3.And(tried, z3.Not(published(tm, steps, j)[0]))), z3.ForAll([k], z3.Implies(has(errors, k), z3.Exists([j], z3.And(rng, k == key))), patterns=[dom(errors)[k]])))]


def collect_inv(cx):
    tm, steps = cx.src, cx.p("steps")
    cx.st.add(*unroll(tm, steps, cx.i))
    return [("as many steps", cx.it.n == ln(steps))] + collected(tm, steps, cx.i, cx.t("outcomes"), cx.t("conditions"), cx.t("state"), cx.t("state_errors"))


def steps_cases(e, st, a):
    def post(cx):
        steps, r = cx.a["steps"], cx.res
        got = [la(r)[i] for i in range(4)]
        n, j = ln(steps), z3.Const("pj", I)
        fs = [("four results", z3.And(T.exact(r, "tuple"), ln(r) == 4)), ("no steps: nothing", z3.Implies(n == 0, z3.And(isa(got[0], "dict"), klen(got[0]) == 0, isa(got[1], "list"), ln(got[1]) == 0, isa(got[2], MAP), klen(got[2]) == 0)))]
        tm = cx.st.env.get("task_map")
        if tm is None:
            return fs + [("only no steps need no task", n == 0)]
        tm, g = cx.eng.to_v(cx.st, tm), cx.eng.to_v(cx.st, cx.st.env["task_group"])
        arg = {k: cx.a[k] for k in ST_ARGS}
        fs += [("one task per step, wired to exactly the steps it references", z3.And(klen(tm) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), wired(task_at(tm, steps, j), steps, j, tm, g, arg)), patterns=[la(steps)[j]]))),
               ("every task has ended", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), finished(task_at(tm, steps, j))), patterns=[la(steps)[j]]))]
        return fs + collected(tm, steps, n, *got)
    return [Case("returns", post=post)]


def steps_pre(e, st, a):
    return [("the steps of a ready workflow", steps_ok(e.to_v(st, a["steps"])))]


def value_axioms(e):
    r, d, v = z3.Consts("vr vd vv", V)
    key = kk("value")
    one = z3.And(isa(d, "dict"), klen(d) == 1, dom(d)[key])
    e.models.note("evaluating the same expression on equal inputs gives the same result (celpy)")
    for f in (cel_eval, cel_raises, cel_crashes):
        e.extra_axioms.append(z3.ForAll([r, d], z3.Implies(one, f(r, d) == f(r, inp(mp(d)[key]))), patterns=[f(r, d)]))
    e.extra_axioms.append(z3.ForAll([v], z3.And(isa(inp(v), "dict"), klen(inp(v)) == 1, dom(inp(v))[key], mp(inp(v))[key] == v), patterns=[inp(v)]))


def sparams(e, st):
    value_axioms(e)
    return params(api=sym("kr8s.Api"), workflow_key=sym("str"), owner=owner_param, trigger=sym(), steps=sym(("list", "tuple")))(e, st)


steps = Contract(WR, "_reconcile_steps", params=sparams, pre=steps_pre, cases=steps_cases, loops={0: Loop(launch_inv), 1: Loop(collect_inv, keep=("eval",))}, opts={"soft": ("eval",), "cost": 5})

# ---------------------------------------------------------------------------------------------- a workflow
def steps_used_post(cx):
    r = cx.res
    tm = fld("ghost_tasks")(r)      # the tasks the verified contract speaks about
    return [("four results", z3.And(T.exact(r, "tuple"), ln(r) == 4))] + collected(tm, cx.a["steps"], ln(cx.a["steps"]), *[la(r)[i] for i in range(4)])


combine_used = using(next(c for c in RS.CONTRACTS if c.qual == "unwrapped_combine"), mark="combine")
steps_used = Contract(WR, "_reconcile_steps", pre=steps_pre, opts={"mark": "steps"}, cases=lambda e, st, a: [Case("returns", post=steps_used_post)])


def workflow_cases(e, st, a):
    w = lambda cx, n: fld(n)(cx.a["workflow"])

    def conditions_of(cx):
        return fld("conditions")(cx.res)

    def last_condition(cx, n):
        c = la(conditions_of(cx))[n]
        return [("the last condition is about the overall outcome", z3.And(isa(conditions_of(cx), "list"), ln(conditions_of(cx)) == n + 1, *[f for _, f in reason_posts(c, res_of(cx.res), None)], text(entry(c, "type"), "Ready")))]

    def not_ready(cx):
        r, o = res_of(cx.res), w(cx, "steps_ready")
        return workflow_result(cx.res) + [("a workflow whose steps are not ready is not run and says so", z3.And(isa(o, *NONOK), isa(r, *NONOK), sev(r) == sev(o), fld("message")(r) == fld("message")(o)))] + last_condition(cx, 0) + \
            [("nothing is managed", klen(ids_of(cx.res)) == 0), ("no state", klen(fld("state")(cx.res)) == 0)]

    def ready(cx):
        v = cx.ev[0].args
        got = [la(v["res"])[i] for i in range(4)]
        S, j, m = v["steps"], z3.Const("rj", I), z3.Const("rm", I)
        n, r = ln(S), res_of(cx.res)
        o = res_of(mp(got[0])[skey(S, j)])
        rng = z3.And(0 <= j, j < n)
        q = lambda f: z3.ForAll([j], z3.Implies(rng, f), patterns=[la(S)[j]])
        ids = ids_of(cx.res)
        rs = entry(ids, "resources")
        seq = soft(cx, "combine")[0]["outcomes"]
        return workflow_result(cx.res) + [
            ("only a ready workflow is run", isa(w(cx, "steps_ready"), OK)), ("its own steps", S == w(cx, "steps")), ("for this trigger and parent", z3.And(v["trigger"] == cx.a["trigger"], same_owner(v["owner"], cx.a["owner"]))),
            ("no steps: Skip", z3.Implies(n == 0, isa(r, SKIP))),
            ("the outcomes are combined in listed order", z3.And(ln(seq) == n, q(la(seq)[j] == o))),
            ("at least as severe as every step", q(z3.And(la(seq)[j] == o, usev(o) <= usev(r)))), ("as severe as some step", z3.Implies(n > 0, z3.Exists([j], z3.And(rng, usev(o) == usev(r))))),
            ("Ok only if no step is waiting or failed", z3.Implies(good(r), q(z3.And(la(seq)[j] == o, z3.Not(isa(o, *ERRORS)))))),
            ("the conditions of the steps come first", z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < ln(got[1])), la(conditions_of(cx))[m] == la(got[1])[m]), patterns=[la(conditions_of(cx))[m]])),
            ("managed resources of every step under its label", z3.And(isa(ids, "dict"), has(ids, kk("workflow")), entry(ids, "workflow") == w(cx, "name"), has(ids, kk("resources")), isa(rs, "dict"), klen(rs) == n,
                                                                       q(z3.And(has(rs, skey(S, j)), mp(rs)[skey(S, j)] == ids_of(mp(got[0])[skey(S, j)]))))),
            ("the state of the steps", fld("state")(cx.res) == got[2]), ("and what could not be published", fld("state_errors")(cx.res) == got[3])] + last_condition(cx, ln(got[1]))
    return [Case("not ready", post=not_ready), Case("run", events=[("steps", [])], post=ready)]


def workflow_ok(t):
    r, s = fld("steps_ready")(t), fld("steps")(t)
    return z3.And(isa(t, WF), wf_outcome(r), isa(s, "list", "tuple"), z3.Implies(isa(r, OK), steps_ok(s)))


def prepared_workflow(e, st, n):
    s = e.sym(st, n, WF)
    st.add(workflow_ok(s.t))
    return s


workflow = Contract(WR, "reconcile_workflow", params=params(api=sym("kr8s.Api"), workflow_key=sym("str"), owner=owner_param, trigger=sym(), workflow=prepared_workflow), cases=workflow_cases, opts={"soft": ("combine",), "cost": 2})

CONTRACTS = [helper, encoder, logic, switch, step, foreach, steps, workflow]
USES = [rf, vf, workflow_used, steps_used, switch_used, logic_used, foreach_used] + [c for c in (CE.evaluate,)] + [c for c in RS.CONTRACTS if c.qual != "unwrapped_combine"] + [combine_used]
