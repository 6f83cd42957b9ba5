"""Calls, statements, pattern matching, loops, and the per-function verification driver."""
import ast
import z3
from . import theory as T
from .theory import V, K, I, B, isa, lit
from .engine import (Unsupported, C, SV, BV, IV, TV, Tup, Rec, Cls, Fn, Ext, Bound, Iter, Coro, Event, St, Case, Contract,
                     Cx, Obligation, has_quant)
from .execu import Exec, SeqIter

MAXDEPTH = 12


class Loop:
    """Sidecar loop invariant.

    inv(cx) -> list of (label, formula); cx.i index term, cx.it iterator, cx.pre state before the loop, cx.st head state,
    cx.v(name) current Val of a local, cx.t(name) its current term, cx.p(name) its term before the loop
    kinds: {local name: 'int'|'bool'|'text'|'obj'} how to havoc a reassigned local (default obj)
    """

    def __init__(self, inv, kinds=None, keep=(), enter=None):
        """enter(e, st): called on the state of an arbitrary iteration before the invariant is assumed there (ghost state)"""
        self.inv, self.kinds, self.keep, self.enter = inv, kinds or {}, keep, enter


def live(stmts, after):
    """names that may be read from here on before they are assigned (an over-approximation)"""
    loads = lambda *ns: {x.id for n in ns if n is not None for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}
    cur = set(after)
    for n in reversed(stmts):
        if isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets):
            cur = (cur - {t.id for t in n.targets}) | loads(n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            cur = (cur - {n.target.id}) | loads(n.value)
        elif isinstance(n, (ast.Return, ast.Raise)):
            cur = loads(n)
        elif isinstance(n, ast.If):
            cur = loads(n.test) | live(n.body, cur) | live(n.orelse, cur)
        elif isinstance(n, ast.Match):
            out = set(cur)
            for c in n.cases:
                names = {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                irrefutable = not any(isinstance(x, ast.MatchOr) for x in ast.walk(c.pattern))
                b = live(c.body, cur) | loads(c.guard)
                out |= (b - names if irrefutable else b) | loads(c.pattern)
            cur = out | loads(n.subject)
        else:
            cur = cur | {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    return cur


class Stmts(Exec):
    # ================================================================================================ calls
    def e_Call(self, e, st):
        f = e.func
        # method on super / special names
        outs = []
        for s, fv in self.eval(f, st):
            argv = [a for a in e.args]
            for s2, vs in self.eval_many(argv, s):
                kws = [(s2, vs, {})]
                for kw in e.keywords:
                    nxt = []
                    for s3, vv, kk in kws:
                        for s4, v in self.eval(kw.value, s3):
                            if kw.arg is None:
                                if isinstance(v, SV) and False:
                                    pass
                                k2 = self.spread(s4, v)
                                nxt.append((s4, vv, {**kk, **k2}))
                            else:
                                nxt.append((s4, vv, {**kk, kw.arg: v}))
                    kws = nxt
                for s3, vv, kk in kws:
                    outs.extend(self.call(s3, fv, vv, kk, e))
        return outs

    def spread(self, st, v):
        if isinstance(v, C) and isinstance(v.x, dict):
            return {k: C(x) for k, x in v.x.items()}
        return {"**": v}

    def call(self, st, f, args, kw, node=None):
        """list of (st, Val)"""
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw, node)
        if isinstance(f, Cls):
            return self.construct(st, f.name, args, kw, node)
        if isinstance(f, Ext):
            return self.models.call_ext(st, f.name, args, kw, node)
        if isinstance(f, Bound):
            return self.call_bound(st, f, args, kw, node)
        if isinstance(f, SV):
            return self.models.call_value(st, f, args, kw, node)
        raise Unsupported(f"call of {f}")

    def bind_args(self, st, fnode, args, kw, mod, selfarg=None):
        """[(st, {param: Val})]"""
        a = fnode.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if "**" in kw:
            raise Unsupported("** spread of a symbolic mapping")
        vals = list(args)
        if selfarg is not None:
            vals = [selfarg] + vals
        out = {}
        if len(vals) > len(pos):
            if a.vararg:
                out[a.vararg.arg] = Tup(vals[len(pos):])
                vals = vals[: len(pos)]
            else:
                self.throw(st, "TypeError")
                return []
        elif a.vararg:
            out[a.vararg.arg] = Tup([])
        for n, v in zip(pos, vals):
            out[n] = v
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        rest = []
        for k, v in kw.items():
            if k in out or k not in names:
                if a.kwarg and k not in out:
                    rest.append((C(k), v))
                    continue
                self.throw(st, "TypeError")
                return []
            out[k] = v
        if a.kwarg:
            out[a.kwarg.arg] = self.new_dict(st, rest)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        states = [st]
        for n in list(pos) + [x.arg for x in a.kwonlyargs]:
            if n in out:
                continue
            if n not in defaults:
                self.throw(st, "TypeError")
                return []
            save_env, save_mod = st.env, st.mod
            st.env, st.mod = {}, mod
            (r,) = self.eval(defaults[n], st)
            st = r[0]
            st.env, st.mod = save_env, save_mod
            out[n] = r[1]
        return [(st, out)]

    def call_fn(self, st, f, args, kw, node, selfarg=None):
        fnode = f.node
        if isinstance(fnode, ast.Lambda):
            return self.inline(st, f, args, kw, node, selfarg)
        c = self.contracts.get((f.module, f.qual))
        use = c is not None and f.env is None and c.cases is not None and not (c.opts.get("inline") and self.cur is not c)
        is_async = isinstance(fnode, ast.AsyncFunctionDef)

        def run(s):
            if use:
                out = []
                for s2, b in self.bind_args(s, fnode, args, kw, f.module, selfarg):
                    out.extend(self.apply_contract(s2, c, b))
                return out
            return self.inline(s, f, args, kw, node, selfarg)
        if is_async:
            co = Coro(run)
            co_args = (f, args, kw, selfarg)
            self.coro_info = getattr(self, "coro_info", {})
            self.coro_info[id(co)] = (co, co_args)
            return [(st, co)]
        return run(st)

    def inline(self, st, f, args, kw, node, selfarg=None):
        key = (f.module, f.qual)
        if key in self.stack and not isinstance(f.node, ast.Lambda):
            raise Unsupported(f"recursion without contract: {f.qual}")
        if len(self.stack) > MAXDEPTH:
            raise Unsupported("inlining too deep")
        if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported("generator function")
            for d in f.node.decorator_list:
                if not (isinstance(d, ast.Name) and d.id == "property"):
                    raise Unsupported("decorated function")
        outs = []
        for s, b in self.bind_args(st, f.node, args, kw, f.module, selfarg):
            saved_env, saved_mod = s.env, s.mod
            s = s.copy()
            s.env = dict(f.env or {})
            s.env.update(b)
            s.mod = f.module
            self.stack.append(key)
            self.sinks.append([])
            if not isinstance(f.node, ast.Lambda):
                self.inlined.add(f"{f.module}.{f.qual}")
            try:
                if isinstance(f.node, ast.Lambda):
                    res = [(s2, v) for s2, v in self.eval(f.node.body, s)]
                else:
                    res = []
                    for s2, k, v in self.exec_block(f.node.body, s):
                        if k == "return":
                            res.append((s2, v))
                        elif k == "next":
                            res.append((s2, C(None)))
                        else:
                            raise Unsupported(k)
            finally:
                self.stack.pop()
                exc = self.sinks.pop()
            for s2, v in exc:
                s2.env, s2.mod = dict(saved_env), saved_mod
                if not self.sinks:
                    raise Unsupported("no sink")
                self.sinks[-1].append((s2, v))
            for s2, v in res:
                s2.env, s2.mod = dict(saved_env), saved_mod
                outs.append((s2, v))
        return outs

    def construct(self, st, name, args, kw, node):
        if name in T.RECORDS:
            fs = T.FIELDS[name]
            f = {}
            if len(args) > len(fs):
                self.throw(st, "TypeError")
                return []
            for (n, _, _), v in zip(fs, args):
                f[n] = v
            for k, v in kw.items():
                if k not in [n for n, _, _ in fs] or k in f:
                    self.throw(st, "TypeError")
                    return []
                f[k] = v
            mod = name.rsplit(".", 1)[0]
            for n, _, d in fs:
                if n not in f:
                    if d is None:
                        self.throw(st, "TypeError")
                        return []
                    save = st.env, st.mod
                    st.env, st.mod = {}, mod
                    (r,) = self.eval(d, st)
                    st = r[0]
                    st.env, st.mod = save
                    f[n] = r[1]
            return [(st, Rec(name, {n: f[n] for n, _, _ in fs}))]
        if name in self.repo.classnodes:
            m, cnode = self.repo.classnodes[name]
            if any(p in ("dict",) for p in T.PARENTS[name]):
                return [(st, self.new_dict(st, [(C(k), v) for k, v in kw.items()]))]
            init = next((x for x in cnode.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
            rec = Rec(name, {})
            if init is None:
                if any(T.is_sub(p, "BaseException") for p in T.PARENTS[name]):
                    v = self.sym(st, "exc", name, own="deep", exact=True)
                    return [(st, v)]
                if args or kw:
                    self.throw(st, "TypeError")
                    return []
                return [(st, rec)]
            outs = []
            selfname = init.args.args[0].arg
            for s, b in self.bind_args(st, init, args, kw, m.name, rec):
                saved_env, saved_mod = s.env, s.mod
                s = s.copy()
                s.env, s.mod = dict(b), m.name
                self.sinks.append([])
                self.stack.append((m.name, cnode.name))
                try:
                    res = self.exec_block(init.body, s)
                finally:
                    self.stack.pop()
                    exc = self.sinks.pop()
                for s2, v in exc:
                    s2.env, s2.mod = dict(saved_env), saved_mod
                    self.sinks[-1].append((s2, v))
                for s2, k, v in res:
                    r = s2.env[selfname]
                    s2.env, s2.mod = dict(saved_env), saved_mod
                    outs.append((s2, r))
            return outs
        return self.models.construct(st, name, args, kw, node)

    def koreo_method(self, cname, meth):
        """(module, qual, node) of a method defined in the koreo class (or None)"""
        if cname not in self.repo.classnodes:
            return None
        m, cnode = self.repo.classnodes[cname]
        n = next((x for x in cnode.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == meth), None)
        if n is None:
            return None
        return m.name, f"{cnode.name}.{meth}", n

    def call_bound(self, st, b, args, kw, node):
        o = b.obj
        if isinstance(o, Rec):
            r = self.koreo_method(o.cls, b.name)
            if r:
                return self.call_fn(st, Fn(*r), args, kw, node, selfarg=o)
            if b.name == "_replace":
                f = dict(o.f)
                f.update(kw)
                return [(st, Rec(o.cls, f))]
            return self.models.call_method(st, o, b.name, args, kw, node)
        if isinstance(o, SV):
            outs = []
            cands = []
            for cname in self.repo.classnodes:
                r = self.koreo_method(cname, b.name)
                if r:
                    cands.append((cname, r))
            t = self.snap(st, o)
            rest = st
            for cname, r in cands:
                if rest is None:
                    break
                nxt = None
                for s, y in self.fork(rest, isa(t, cname)):
                    if y:
                        outs.extend(self.call_fn(s, Fn(*r), args, kw, node, selfarg=o))
                    else:
                        nxt = s
                rest = nxt
            if rest is not None:
                outs.extend(self.models.call_method(rest, o, b.name, args, kw, node))
            return outs
        return self.models.call_method(st, o, b.name, args, kw, node)

    # ------------------------------------------------------------------------------------------------ contracts at calls
    def apply_contract(self, st, c, args):
        """assume the callee's contract; its precondition is an obligation of the caller"""
        self.used = getattr(self, "used", set())
        self.used.add(f"{c.module}.{c.qual}")
        if c.apply is not None:
            return c.apply(self, st, args)
        cx = Cx()
        cx.eng, cx.args, cx.pre = self, args, st
        if c.pre is not None:
            need = c.pre(self, st, args)
            self.prove_many(st, [(f"precondition of {c.qual}: {label}", f) for label, f in need])
            st.add(*[f for _, f in need])
        outs = []
        for case in c.cases(self, st, args):
            s = st.copy()
            cx = Cx()
            cx.eng, cx.args, cx.pre, cx.st = self, args, st, s
            cx.a = {k: self.argterm(s, v) for k, v in args.items()}
            evs = []
            for kind, names in case.events:
                ev = Event(kind, **{n: self.fresh(V, f"{kind}_{n}") for n in names})
                evs.append(ev)
                s.log.append(ev)
            cx.ev = evs
            for p in c.opts.get("changes", ()):
                self.changed(s, args[p], f"{c.qual} changes {p}")
            for g in c.opts.get("modifies", ()):
                cur = self.glob_get(s, g)
                nt = self.fresh(V, "glob")
                s.add(T.cls(nt) == T.cls(self.snap(s, cur)))
                s.content[cur.t.get_id()] = (cur.t, nt)
            if case.outcome == "return":
                res = self.fresh(V, "res_" + c.qual.split(".")[-1])
                cx.res = res
                rv = SV(res, c.own)
            else:
                res = self.fresh(V, "exc")
                names = case.exc if isinstance(case.exc, (list, tuple)) else [case.exc]
                s.add(isa(res, *names))
                cx.res = res
                rv = SV(res, "deep")
            if case.when is not None:
                s.add(case.when(cx))
            if case.mk is not None:
                rv = case.mk(cx) or rv
            for label, f in (case.post(cx) if case.post else []):
                s.add(f)
            if c.opts.get("mark"):
                s.log.append(Event(c.opts["mark"], **cx.a, res=res))
            if not self.feasible(s):
                continue
            if case.outcome == "return":
                outs.append((s, rv))
            else:
                self.sinks[-1].append((s, rv))
        return outs

    def argterm(self, st, v):
        try:
            return self.to_v(st, v)
        except Unsupported:
            return None

    def glob_get(self, st, g):
        if g in self.globals_spec:
            return self.globals_spec[g](self, st)
        mod, name = g
        return self.lookup_global(st, mod, name)

    # ================================================================================================ statements
    def exec_block(self, stmts, st, join=False, keep=frozenset()):
        """[(st, kind, val)]"""
        live = [st]
        outs = []
        for pos, n in enumerate(stmts):
            nxt = []
            for s in live:
                for s2, k, v in self.exec_stmt(n, s):
                    if k == "next":
                        nxt.append(s2)
                    else:
                        outs.append((s2, k, v))
            live = self.join(nxt, stmts[pos + 1:], keep) if join and len(nxt) > 1 else nxt
            if len(live) + len(outs) > self.maxpaths:
                raise Unsupported("too many paths")
            if not live:
                break
        return outs + [(s, "next", None) for s in live]

    # ------------------------------------------------------------------------------------------------ joining paths
    def join(self, states, rest, keep=frozenset()):
        """states that reach the same statement with the same kinds of events become one state: what differs is a new
        symbol, equal to each state's own value under that state's condition (names not read later are forgotten)"""
        used = live(rest, set())
        if any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)) for n in rest for x in ast.walk(n)):
            return states
        for s in states:
            s.env = {k: v for k, v in s.env.items() if k in used or k in keep or k in self.stack_params and not isinstance(v, (Tup, Rec))}
        groups = {}
        for s in states:
            key = (tuple(e.kind for e in s.log), tuple(tuple(sorted(e.args)) for e in s.log), tuple(sorted(s.env)), s.mod)
            groups.setdefault(key, []).append(s)
        out = []
        for g in groups.values():
            while g:
                first, others = [g[0]], []
                for s in g[1:]:
                    (first if self.joinable(g[0], s) else others).append(s)
                out.append(self.join_states(first) if len(first) > 1 else first[0])
                g = others
        return out

    def same(self, x, y):
        if x is y:
            return True
        if type(x) is not type(y):
            return False
        if isinstance(x, SV):
            return x.t.eq(y.t) and x.own == y.own
        if isinstance(x, C):
            return type(x.x) is type(y.x) and x.x == y.x
        if isinstance(x, (BV, IV, TV)):
            return x.t.eq(y.t)
        if isinstance(x, (Cls, Ext)):
            return x.name == y.name
        if isinstance(x, z3.ExprRef):
            return x.eq(y)
        return False

    def joinable(self, a, b):
        scalar = lambda v: isinstance(v, (SV, C, BV, IV, TV)) or isinstance(v, Rec) and v.cls in T.RECORDS
        for k in a.env:
            x, y = a.env[k], b.env[k]
            if not self.same(x, y) and not (scalar(x) and scalar(y)):
                return False
        for d in ("ghost", "glob"):
            x, y = getattr(a, d), getattr(b, d)
            if set(x) != set(y) or not all(self.same(x[k], y[k]) for k in x):
                return False
        for e, f in zip(a.log, b.log):
            for k in e.args:
                if not self.same(e.args[k], f.args[k]) and not (isinstance(e.args[k], z3.ExprRef) and isinstance(f.args[k], z3.ExprRef)):
                    return False
        return True

    def join_states(self, states):
        first = states[0]
        n = min(len(s.pc) for s in states)
        c = 0
        while c < n and all(s.pc[c].eq(first.pc[c]) for s in states):
            c += 1
        r = first.copy()
        r.pc = list(first.pc[:c])
        bs = [z3.Const(T.fresh_name("via"), B) for _ in states]
        local = [s.copy() for s in states]                      # boxing values may add facts to them
        joins = []                                              # (new symbol, [value in each state])

        def new(ts):
            if all(t.eq(ts[0]) for t in ts):
                return ts[0]
            x = z3.Const(T.fresh_name("join"), ts[0].sort())
            joins.append((x, ts))
            return x
        for k in first.env:
            vs = [s.env[k] for s in states]
            if all(self.same(v, vs[0]) for v in vs):
                continue
            t = new([self.to_v(s, v) for s, v in zip(local, vs)])
            own = "deep" if all(not isinstance(v, SV) or v.own == "deep" for v in vs) else "borrowed"
            r.env[k] = SV(t, own)
            if not all(isinstance(v, (C, BV, IV, TV)) for v in vs):
                r.escaped.add(t.get_id())                       # it may alias another value: mutating it is outside the subset
                self.keep_alive = getattr(self, "keep_alive", []) + [t]
        ids = {}
        for s in states:
            ids.update({i: t0 for i, (t0, _) in s.content.items()})
        for i, t0 in ids.items():
            r.content[i] = (t0, new([s.content.get(i, (t0, t0))[1] for s in states]))
        r.log = [e if all(all(self.same(e.args[k], s.log[j].args[k]) for k in e.args) for s in states)
                 else Event(e.kind, **{k: new([s.log[j].args[k] for s in states]) for k in e.args}) for j, e in enumerate(first.log)]
        m = min(len(s.attrs) for s in states)
        d = 0
        eq = lambda x, y: x[0].eq(y[0]) and x[1] == y[1] and x[2].eq(y[2])
        while d < m and all(eq(s.attrs[d], first.attrs[d]) for s in states):
            d += 1
        r.attrs = list(first.attrs[:d])
        for b, s in zip(bs, states):
            for base, name, nv in s.attrs[d:]:
                old = T.fld(name)(base)
                for b2, n2, v2 in r.attrs:
                    if n2 == name:
                        old = v2 if b2.eq(base) else z3.If(base == b2, v2, old)
                r.attrs.append((base, name, z3.If(b, nv, old)))
        r.muts, r.taint = [], []
        for s in states:
            r.escaped |= s.escaped
            r.muts += [x for x in s.muts if x not in r.muts]
            r.taint += [x for x in s.taint if x not in r.taint]
        for b, s in zip(bs, local):
            r.pc += [z3.Implies(b, f) for f in s.pc[c:]]
        for x, ts in joins:
            r.pc += [z3.Implies(b, x == t) for b, t in zip(bs, ts)]
        r.pc.append(z3.Or(bs))
        r.pc += [z3.Not(z3.And(x, y)) for i, x in enumerate(bs) for y in bs[i + 1:]]
        return r

    def exec_stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__} at line {n.lineno}")
        return m(n, st)

    def s_Pass(self, n, st):
        return [(st, "next", None)]

    def s_Global(self, n, st):
        return [(st, "next", None)]

    def s_Import(self, n, st):
        raise Unsupported("local import")

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, "next", None)]
        return [(s, "next", None) for s, _ in self.eval(n.value, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, "return", C(None))]
        return [(s, "return", v) for s, v in self.eval(n.value, st)]

    def s_Break(self, n, st):
        return [(st, "break", None)]

    def s_Continue(self, n, st):
        return [(st, "continue", None)]

    def s_Assign(self, n, st):
        outs = []
        for s, v in self.eval(n.value, st):
            states = [s]
            for t in n.targets:
                states = [s3 for s2 in states for s3, _ in self.bind_target(s2, t, v)]
            outs.extend((x, "next", None) for x in states)
        return outs

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, "next", None)]
        return [(s3, "next", None) for s, v in self.eval(n.value, st) for s3, _ in self.bind_target(s, n.target, v)]

    def s_AugAssign(self, n, st):
        load = ast.copy_location(ast.parse(ast.unparse(n.target), mode="eval").body, n)
        outs = []
        for s, cur in self.eval(load, st):
            for s2, v in self.eval(n.value, s):
                if isinstance(cur, SV) and isinstance(n.op, ast.Add):
                    # list += is in place
                    for s3, isl in self.fork(s2, isa(self.snap(s2, cur), "list")):
                        if isl:
                            r = self.models.call_method(s3, cur, "extend", [v], {}, n)
                            outs.extend((s4, "next", None) for s4, _ in r)
                        else:
                            for s4, r in self.binop(s3, n.op, cur, v):
                                outs.extend((s5, "next", None) for s5, _ in self.bind_target(s4, n.target, r))
                    continue
                if isinstance(cur, SV) and isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
                    raise Unsupported("in-place set operator")
                for s3, r in self.binop(s2, n.op, cur, v):
                    outs.extend((s4, "next", None) for s4, _ in self.bind_target(s3, n.target, r))
        return outs

    def s_Delete(self, n, st):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    s.env[t.id] = None
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, o in self.eval(t.value, s):
                        for s3, k in self.eval(t.slice, s2):
                            nxt.extend(x for x in self.delitem(s3, o, k))
                else:
                    raise Unsupported("del")
            states = nxt
        return [(s, "next", None) for s in states]

    def delitem(self, st, o, k):
        if not isinstance(o, SV):
            raise Unsupported("del item")
        t = self.snap(st, o)
        s = self.guard(st, isa(t, "dict"), "TypeError")
        if s is None:
            return []
        kk = self.keyterm(s, k)
        s = self.guard(s, T.dom(t)[kk], "KeyError")
        if s is None:
            return []
        s.add(T.klen(t) >= 1)
        self.mutate(s, o, self.dict_remove(s, t, kk), "del item")
        return [s]

    def s_If(self, n, st):
        outs = []
        for s, v in self.eval(n.test, st):
            for s2, b in self.fork(s, self.truthy(s, v)):
                outs.extend(self.exec_block(n.body if b else n.orelse, s2))
        return outs

    def s_Assert(self, n, st):
        outs = []
        for s, v in self.eval(n.test, st):
            s2 = self.guard(s, self.truthy(s, v), "AssertionError")
            if s2 is not None:
                outs.append((s2, "next", None))
        return outs

    def s_Raise(self, n, st):
        if n.exc is None:
            h = getattr(self, "handling", [])
            if not h:
                raise Unsupported("bare raise")
            self.sinks[-1].append((st, h[-1]))
            return []
        for s, v in self.eval(n.exc, st):
            if isinstance(v, Cls):
                for s2, x in self.construct(s, v.name, [], {}, n):
                    self.sinks[-1].append((s2, x))
            else:
                self.sinks[-1].append((s, v))
        return []

    def s_FunctionDef(self, n, st):
        st.env[n.name] = Fn(st.mod, f"<local:{n.name}>", n, st.env)
        f = st.env[n.name]
        f.env = dict(st.env)
        return [(st, "next", None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_Try(self, n, st):
        if not hasattr(self, "handling"):
            self.handling = []
        self.sinks.append([])
        try:
            res = self.exec_block(n.body, st)
        finally:
            exc = self.sinks.pop()
        outs = []
        after = []          # (st, kind, val) before finally
        self.sinks.append([])    # exceptions that leave the try statement
        try:
            for s, k, v in res:
                if k == "next" and n.orelse:
                    after.extend(self.exec_block(n.orelse, s))
                else:
                    after.append((s, k, v))
            for s, x in exc:
                rest = s
                for h in n.handlers:
                    if rest is None:
                        break
                    if h.type is None:
                        cond = z3.BoolVal(True)
                    else:
                        (r,) = self.eval(h.type, rest)
                        names = self.class_names(r[1])
                        cond = self.isinst(rest, x, *names)
                    nxt = None
                    for s2, y in self.fork(rest, cond):
                        if not y:
                            nxt = s2
                            continue
                        if h.name:
                            s2.env[h.name] = x
                        self.handling.append(x)
                        try:
                            for s3, k, v in self.exec_block(h.body, s2):
                                if h.name:
                                    s3.env[h.name] = None
                                after.append((s3, k, v))
                        finally:
                            self.handling.pop()
                    rest = nxt
                if rest is not None:
                    self.sinks[-1].append((rest, x))
        finally:
            leaving = self.sinks.pop()
        if not n.finalbody:
            self.sinks[-1].extend(leaving) if leaving else None
            return after
        for s, k, v in after:
            for s2, k2, v2 in self.exec_block(n.finalbody, s):
                outs.append((s2, k, v) if k2 == "next" else (s2, k2, v2))
        for s, x in leaving:
            for s2, k2, v2 in self.exec_block(n.finalbody, s):
                if k2 == "next":
                    self.sinks[-1].append((s2, x))
                else:
                    outs.append((s2, k2, v2))
        return outs

    s_TryStar = None

    def class_names(self, v):
        if isinstance(v, Cls):
            return [v.name]
        if isinstance(v, Tup):
            return [x for y in v.xs for x in self.class_names(y)]
        if isinstance(v, Ext) and v.name.startswith("builtins."):
            return [v.name[9:]]
        if isinstance(v, C) and v.x is None:
            return ["NoneType"]
        raise Unsupported(f"class expression {v}")

    def s_With(self, n, st):
        return self.with_(n, st, 0)

    s_AsyncWith = s_With

    def with_(self, n, st, idx):
        if idx == len(n.items):
            return self.exec_block(n.body, st)
        item = n.items[idx]
        outs = []
        for s, cm in self.eval(item.context_expr, st):
            outs.extend(self.models.with_item(s, cm, item, lambda s2: self.with_(n, s2, idx + 1), n))
        return outs

    # ------------------------------------------------------------------------------------------------ match
    def s_Match(self, n, st):
        outs = []
        for s, subj in self.eval(n.subject, st):
            live = [s]
            for case in n.cases:
                nxt = []
                for s1 in live:
                    alts = self.pcond(s1, case.pattern, subj)
                    rest = s1
                    for cond, binds in alts:
                        if rest is None:
                            break
                        r2 = None
                        for s2, y in self.fork(rest, cond):
                            if not y:
                                r2 = s2
                                continue
                            for k, v in binds.items():
                                s2.env[k] = v
                            if case.guard is not None:
                                for s3, g in self.eval(case.guard, s2):
                                    for s4, yy in self.fork(s3, self.truthy(s3, g)):
                                        if yy:
                                            outs.extend(self.exec_block(case.body, s4))
                                        else:
                                            nxt.append(s4)
                            else:
                                outs.extend(self.exec_block(case.body, s2))
                        rest = r2
                    if rest is not None:
                        nxt.append(rest)
                live = nxt
            if live:
                # a match that binds the same local in every case is meant to be exhaustive: is falling through possible?
                each = [{y.id for z in c.body for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} for c in n.cases]
                if any(live[0].env.get(nm) is None for nm in set.intersection(*each)):
                    live = [x for x in live if not self.entails(x, z3.BoolVal(False))]
            outs.extend((x, "next", None) for x in live)
        return outs

    def pcond(self, st, p, v):
        """[(condition, bindings)] alternatives of pattern p for value v; adds definitional facts to st"""
        tr, fa = z3.BoolVal(True), z3.BoolVal(False)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return [(tr, {p.name: v} if p.name else {})]
            return [(c, {**b, p.name: v} if p.name else b) for c, b in self.pcond(st, p.pattern, v)]
        if isinstance(p, ast.MatchOr):
            return [x for q in p.patterns for x in self.pcond(st, q, v)]
        if isinstance(p, ast.MatchSingleton):
            return [(self.identical(st, v, C(p.value)), {})]
        if isinstance(p, ast.MatchValue):
            (r,) = self.eval(p.value, st)
            return [(self.equal(st, v, r[1]), {})]
        if isinstance(p, ast.MatchSequence):
            return self.pseq(st, p, v)
        if isinstance(p, ast.MatchMapping):
            if isinstance(v, (C, Tup, Rec, BV, IV, TV)) and not (isinstance(v, C) and isinstance(v.x, dict)):
                return []
            if not isinstance(v, SV):
                v = SV(self.to_v(st, v))
            t = self.snap(st, v)
            alts = [(isa(t, "dict"), {})]
            own = "deep" if v.own == "deep" else "borrowed"
            for kx, q in zip(p.keys, p.patterns):
                (r,) = self.eval(kx, st)
                k = self.keyterm(st, r[1])
                self.models.item_facts(st, v, "item", k, T.mp(t)[k], z3.And(isa(t, "dict"), T.dom(t)[k]))
                sub = SV(T.mp(t)[k], own, (v, "item", k))
                qa = self.pcond(st, q, sub)
                alts = [(z3.And(c, T.dom(t)[k], c2), {**b, **b2}) for c, b in alts for c2, b2 in qa]
            if p.rest:
                rest, ks, d, n = self.fresh(V, "rest"), [], T.dom(t), T.klen(t)
                for kx in p.keys:
                    (r,) = self.eval(kx, st)
                    k = self.keyterm(st, r[1])
                    n = n - z3.If(d[k], 1, 0)
                    d = z3.Store(d, k, z3.BoolVal(False))
                st.add(z3.Implies(isa(t, "dict"), z3.And(T.exact(rest, "dict"), T.dom(rest) == d, T.mp(rest) == T.mp(t), T.klen(rest) == n, n >= 0)))
                alts = [(c, {**b, p.rest: SV(rest, "shallow")}) for c, b in alts]
            return alts
        if isinstance(p, ast.MatchClass):
            (r,) = self.eval(p.cls, st)
            names = self.class_names(r[1])
            cond = self.isinst(st, v, *names)
            if z3.is_false(z3.simplify(cond)):
                return []
            alts = [(cond, {})]
            subs = []
            if p.patterns:
                if len(names) == 1 and names[0] in T.RECORDS:
                    subs += [(T.FIELDS[names[0]][i][0], q) for i, q in enumerate(p.patterns)]
                elif len(p.patterns) == 1 and names[0] in ("str", "int", "float", "bool", "dict", "list", "tuple", "bytes", "set", "frozenset"):
                    alts = [(z3.And(c, c2), {**b, **b2}) for c, b in alts for c2, b2 in self.pcond(st, p.patterns[0], v)]
                elif names[0].startswith("celtypes.") and len(p.patterns) == 1:
                    alts = [(z3.And(c, c2), {**b, **b2}) for c, b in alts for c2, b2 in self.pcond(st, p.patterns[0], v)]
                else:
                    raise Unsupported("positional class pattern")
            subs += list(zip(p.kwd_attrs, p.kwd_patterns))
            for a, q in subs:
                if isinstance(v, Rec):
                    if a not in v.f:
                        return []
                    sub = v.f[a]
                elif isinstance(v, SV):
                    t = self.snap(st, v)
                    rt = T.fld(a)(t)
                    for base, fname, nv in st.attrs:
                        if fname == a:
                            rt = z3.If(v.t == base, nv, rt) if not v.t.eq(base) else nv
                    sub = SV(rt, "deep" if v.own == "deep" else "borrowed", (v, "attr", a))
                    self.field_type(st, v, a, rt)
                    self.models.attr_facts(st, v, a, rt)
                else:
                    raise Unsupported("class pattern attribute")
                alts = [(z3.And(c, c2), {**b, **b2}) for c, b in alts for c2, b2 in self.pcond(st, q, sub)]
            return alts
        raise Unsupported(f"pattern {type(p).__name__}")

    def pseq(self, st, p, v):
        tr = z3.BoolVal(True)
        if isinstance(v, C) and v.x is None:
            return []
        if isinstance(v, Rec) and v.cls in T.RECORDS:
            v = Tup([v.f[f] for f, _, _ in T.FIELDS[v.cls]])
        stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        if isinstance(v, Tup):
            if not stars:
                if len(v.xs) != len(p.patterns):
                    return []
                alts = [(tr, {})]
                for q, x in zip(p.patterns, v.xs):
                    qa = self.pcond(st, q, x)
                    alts = [(z3.And(c, c2), {**b, **b2}) for c, b in alts for c2, b2 in qa]
                return alts
            raise Unsupported("star pattern")
        if isinstance(v, SV):
            t = self.snap(st, v)
            st.add(T.ln(t) >= 0)
            own = "deep" if v.own == "deep" else "borrowed"
            if not stars:
                alts = [(z3.And(isa(t, "list", "tuple"), T.ln(t) == len(p.patterns)), {})]
                for i, q in enumerate(p.patterns):
                    qa = self.pcond(st, q, SV(T.la(t)[i], own, (v, "index", z3.IntVal(i))))
                    alts = [(z3.And(c, c2), {**b, **b2}) for c, b in alts for c2, b2 in qa]
                return alts
            if len(stars) == 1 and len(p.patterns) == 1:
                b = {p.patterns[0].name: v} if p.patterns[0].name else {}
                return [(isa(t, "list", "tuple"), b)]
            if len(stars) == 1 and stars[0] == len(p.patterns) - 1 and p.patterns[-1].name is None:
                k = len(p.patterns) - 1
                alts = [(z3.And(isa(t, "list", "tuple"), T.ln(t) >= k), {})]
                for i, q in enumerate(p.patterns[:-1]):
                    qa = self.pcond(st, q, SV(T.la(t)[i], own, (v, "index", z3.IntVal(i))))
                    alts = [(z3.And(c, c2), {**b, **b2}) for c, b in alts for c2, b2 in qa]
                return alts
            raise Unsupported("star pattern")
        if isinstance(v, (BV, IV, TV, C)):
            return []
        raise Unsupported(f"sequence pattern on {v}")

    # ================================================================================================ loops
    def s_For(self, n, st):
        outs = []
        for s, src in self.eval(n.iter, st):
            it = self.iterate(s, src)
            if it is None:
                continue
            for s1, it1 in (it if isinstance(it, list) else [(s, it)]):
                if it1.spine is not None:
                    outs.extend(self.for_concrete(n, s1, it1.spine))
                else:
                    outs.extend(self.for_symbolic(n, s1, it1))
        return outs

    def s_AsyncFor(self, n, st):
        return self.models.async_for(n, st)

    def for_concrete(self, n, st, spine):
        live, outs = [st], []
        for x in spine:
            nxt = []
            for s in live:
                for s2, _ in self.bind_target(s, n.target, x):
                    for s3, k, v in self.exec_block(n.body, s2, join="join_loops" in getattr(self.cur, "opts", {})):
                        if k in ("next", "continue"):
                            nxt.append(s3)
                        elif k == "break":
                            outs.append((s3, "next", None))
                        else:
                            outs.append((s3, k, v))
            live = nxt
        for s in live:
            outs.extend(self.exec_block(n.orelse, s) if n.orelse else [(s, "next", None)])
        return outs

    def assigned(self, body, target=None):
        names = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, ast.MatchAs) and x.name:
                    names.add(x.name)
                elif isinstance(x, ast.MatchStar) and x.name:
                    names.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    names.add(x.name)
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    names.add(x.name)
        if target is not None:
            for x in ast.walk(target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        return names

    def read_first(self, body, names):
        """names possibly read in the body before being assigned in it (conservative: first occurrence in source order)"""
        out = set()
        seen = {}
        order = []
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in names:
                    order.append((x.lineno, x.col_offset, isinstance(x.ctx, ast.Store), x.id))
        return out

    def loop_spec(self, n):
        """sidecar invariant for this loop: by ordinal within the function under verification or an inlined function"""
        key = self.stack[-1] if self.stack else (self.cur.module, self.cur.qual)
        node = self.repo.func(*key)
        if node is None:
            return None
        loops = sorted([x for x in ast.walk(node) if isinstance(x, (ast.For, ast.While, ast.AsyncFor))], key=lambda x: (x.lineno, x.col_offset))
        try:
            ordn = loops.index(n)
        except ValueError:
            return None
        for c in ([self.cur] if self.cur else []) + [self.contracts.get(key)]:
            if c is None:
                continue
            if (c.module, c.qual) == key and ordn in c.loops:
                return c.loops[ordn]
            if (key[0], key[1], ordn) in c.loops:
                return c.loops[(key[0], key[1], ordn)]
        return None

    def havoc_names(self, s, names, kinds, pre):
        for nm in names:
            if nm in pre.env and pre.env[nm] is not None:
                k = kinds.get(nm)
                cur = pre.env[nm]
                if k == "int" or (k is None and isinstance(cur, IV)) or (k is None and isinstance(cur, C) and type(cur.x) is int):
                    s.env[nm] = IV(self.fresh(I, nm))
                elif k == "bool" or (k is None and isinstance(cur, BV)) or (k is None and isinstance(cur, C) and type(cur.x) is bool):
                    s.env[nm] = BV(self.fresh(B, nm))
                else:
                    s.env[nm] = SV(self.fresh(V, nm), "shallow")
            else:
                s.env[nm] = None

    def lcx(self, pre, s, i, it):
        cx = Cx()
        cx.eng, cx.pre, cx.st, cx.i, cx.it = self, pre, s, i, it

        def v(name):
            x = s.env.get(name)
            if x is None:
                raise Unsupported(f"invariant mentions unbound local {name}")
            return x

        def t(name):
            x = v(name)
            if isinstance(x, (IV, BV, TV)):
                return x.t
            if isinstance(x, C) and type(x.x) is int:
                return z3.IntVal(x.x)
            if isinstance(x, C) and type(x.x) is bool:
                return z3.BoolVal(x.x)
            return self.to_v(s, x)

        def p(name):
            x = pre.env.get(name)
            if x is None:
                raise Unsupported(f"invariant mentions unbound local {name}")
            if isinstance(x, (IV, BV, TV)):
                return x.t
            return self.to_v(pre, x)
        cx.v, cx.t, cx.p = v, t, p
        cx.src = getattr(it, "src", None)
        return cx

    def body_run(self, n, s, it, i):
        """run loop body once at index i; returns (nexts, exits) ; exits: (st, kind, val)"""
        nexts, exits = [], []
        keep = frozenset(k for k, v in s.env.items() if v is not None)
        for s2, _ in self.bind_target(s, n.target, it.elem(s, i)):
            for s3, k, v in self.exec_block(n.body, s2, join="join_loops" in getattr(self.cur, "opts", {}), keep=keep):
                if k in ("next", "continue"):
                    nexts.append(s3)
                else:
                    exits.append((s3, k, v))
        return nexts, exits

    def for_symbolic(self, n, st, it):
        spec = self.loop_spec(n)
        if spec is not None:
            return self.for_invariant(n, st, it, spec)
        return self.for_summary(n, st, it)

    def mutated_ids(self, base, states):
        out = {}
        for s in states:
            for k, (t0, nt) in s.content.items():
                if k not in base.content or base.content[k][1] is not nt:
                    out[k] = t0
        return out

    def all_havocked(self, h0, nx, mut, i):
        """every object that existed before the iteration and is changed by it was made arbitrary; and an iteration is possible"""
        if nx and not any(self.cover(s, "an arbitrary iteration is possible") for s in nx) and self.cover(h0, "the loop is entered"):
            raise Unsupported("no iteration satisfies the loop's invariant")
        born = int(str(i).split("!")[-1])

        def newer(t, seen):
            if t.get_id() in seen:
                return False
            seen.add(t.get_id())
            tail = t.decl().name().split("!")[-1] if z3.is_app(t) else ""
            return (tail.isdigit() and int(tail) > born) or any(newer(c, seen) for c in t.children())
        for k, t0 in self.mutated_ids(h0, nx).items():
            if k not in mut and not newer(t0, set()) and not self.item_of(t0, i, mut):
                raise Unsupported("a mutation the trial run of the loop did not show")

    def item_of(self, t, i, mut):
        """t is the item of this iteration, of a sequence which was itself made arbitrary (later iterations see other objects)"""
        if not (z3.is_select(t) and t.num_args() == 2 and t.arg(1).eq(i) and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == "la"):
            return False
        if t.arg(0).arg(0).get_id() not in mut:
            return False
        self.models.note("the items of a sequence whose items a loop changes are different objects")
        return True

    def for_invariant(self, n, st, it, spec, cond=None):
        names = self.assigned(n.body, getattr(n, "target", None))
        pre = st.copy()
        fname = f"loop@{n.lineno}"
        lab = f"loop {self.ordinal(n)}"
        zero = z3.IntVal(0)
        # trial run to discover which objects are mutated
        mut, gl = {}, {}
        for _ in range(3):
            tr = st.copy()
            self.havoc_names(tr, names, spec.kinds, pre)
            for k, t0 in mut.items():
                tr.content[k] = (t0, self.fresh_like(tr, t0, pre))
            ti = self.fresh(I, "ti")
            tr.add(0 <= ti, ti < it.n)
            for label, f in spec.inv(self.lcx(pre, tr, ti, it)):
                tr.add(f)
            tr.ghost["fori"] = IV(ti)
            nobs = len(self.obs), len(self.covers)
            self.sinks.append([])
            try:
                nx, ex = self.body_run(n, tr.copy(), it, ti)
            finally:
                exc = self.sinks.pop()
                del self.obs[nobs[0]:]
            new = self.mutated_ids(tr, nx)
            grew = {k: v for k, v in new.items() if k not in mut and self.existed(pre, v)}
            if not grew:
                break
            mut.update(grew)
        for label, f in spec.inv(self.lcx(pre, st, zero, it)):
            self.prove(st, f, f"{lab}: invariant holds initially: {label}")
        # arbitrary iteration
        h = st.copy()
        self.havoc_names(h, names, spec.kinds, pre)
        for k, t0 in mut.items():
            h.content[k] = (t0, self.fresh_like(h, t0, pre))
        i = self.fresh(I, "i")
        h.add(0 <= i, i < it.n)
        for label, f in spec.inv(self.lcx(pre, h, i, it)):
            h.add(f)
        h.ghost["fori"] = IV(i)
        outs = []
        h0 = h.copy()
        nx, ex = self.body_run(n, h, it, i)
        self.all_havocked(h0, nx, mut, i)
        for s in nx:
            self.prove_many(s, [(f"{lab}: invariant preserved: {label}", f) for label, f in spec.inv(self.lcx(pre, s, i + 1, it))])
            if any(ev.kind not in spec.keep for ev in s.log[len(pre.log):]):
                raise Unsupported("ghost events inside a loop")
            if len(s.attrs) != len(pre.attrs):
                raise Unsupported("attribute mutation in a loop")
        for s, k, v in ex:
            outs.append((s, "next", None) if k == "break" else (s, k, v))
        e = st.copy()
        for s in nx:
            for m in s.muts[len(pre.muts):]:
                if m not in e.muts:
                    e.muts.append(m)
            for x in s.taint[len(pre.taint):]:
                if x not in e.taint:
                    e.taint.append(x)
        self.havoc_names(e, names, spec.kinds, pre)
        for k, t0 in mut.items():
            e.content[k] = (t0, self.fresh_like(e, t0, pre))
        e.add(it.n >= 0)
        for label, f in spec.inv(self.lcx(pre, e, it.n, it)):
            e.add(f)
        outs.extend(self.exec_block(n.orelse, e) if n.orelse else [(e, "next", None)])
        return outs

    def existed(self, pre, t0):
        return True

    def fresh_like(self, st, t0, pre):
        cur = pre.content.get(t0.get_id(), (None, t0))[1]
        nt = self.fresh(V, "hv")
        st.add(T.cls(nt) == T.cls(cur), T.ln(nt) >= 0, T.klen(nt) >= 0)
        return nt

    def ordinal(self, n):
        key = self.stack[-1] if self.stack else (self.cur.module, self.cur.qual)
        node = self.repo.func(*key)
        if node is None:
            return n.lineno
        loops = sorted([x for x in ast.walk(node) if isinstance(x, (ast.For, ast.While, ast.AsyncFor))], key=lambda x: (x.lineno, x.col_offset))
        return loops.index(n) if n in loops else n.lineno

    def for_summary(self, n, st, it):
        """loops whose body carries no state from one iteration to the next: exact closed form.

        Loops that append to / store into one container declared before the loop are summarised as well.
        """
        names = self.assigned(n.body, n.target)
        pre = st.copy()
        i = z3.Const(T.fresh_name("i"), I)
        sub = st.copy()
        for nm in names:
            sub.env[nm] = None      # a body reading a carried local before assigning it is unsupported here
        inr = z3.And(0 <= i, i < it.n)
        sub.add(inr)
        mark = len(sub.pc)
        self.binders.append(i)
        self.sinks.append([])
        acc = AccMode()
        self.acc_stack = getattr(self, "acc_stack", [])
        self.acc_stack.append(acc)
        try:
            acc.base = set(k for k in [])
            acc.state0 = sub
            nexts, exits = self.body_run(n, sub, it, i)
        finally:
            self.acc_stack.pop()
            excs = self.sinks.pop()
            self.binders.pop()
        for s in nexts:
            if len(s.log) != len(st.log):
                raise Unsupported("ghost events inside a loop without invariant")
            if len(s.attrs) != len(st.attrs):
                raise Unsupported("attribute mutation in loop without invariant")
            if len(s.muts) != len(st.muts):
                raise Unsupported("mutation of borrowed data in a loop without invariant")
        mutated = self.mutated_ids(sub, nexts)
        # only objects that existed before the loop matter
        mutated = {k: t for k, t in mutated.items() if not self.local_to_body(t, i)}
        NX = z3.Or([z3.And(s.pc[mark:]) for s in nexts]) if nexts else z3.BoolVal(False)
        pats = self.src_pats(it, i)
        outs = []
        if mutated:
            return self.accum(n, st, it, i, mark, nexts, exits, excs, mutated, names, pats)

        def prefix(w):
            j = z3.Const(T.fresh_name("j"), I)
            body = z3.substitute(z3.Implies(z3.And(0 <= i, i < w), NX), (i, j))
            pp = [z3.substitute(p, (i, j)) for p in pats]
            return z3.ForAll([j], body, patterns=pp) if pp else z3.ForAll([j], body)

        def instantiate(s, w):
            ns = st.copy()
            ns.env = {k: self.subst_val(v, i, w) for k, v in s.env.items()}
            ns.content = {k: (t0, z3.substitute(nt, (i, w))) for k, (t0, nt) in s.content.items()}
            # objects created in the body are renamed by the substitution
            for k, (t0, nt) in s.content.items():
                t1 = z3.substitute(t0, (i, w))
                ns.content[t1.get_id()] = (t1, z3.substitute(nt, (i, w)))
            ns.pc = st.pc + [z3.substitute(f, (i, w)) for f in s.pc[mark - 1:]] + [prefix(w)]
            ns.attrs = st.attrs + [(z3.substitute(a, (i, w)), nme, z3.substitute(b, (i, w))) for a, nme, b in s.attrs[len(st.attrs):]]
            ns.log = st.log + [self.subst_event(e, i, w) for e in s.log[len(st.log):]]
            ns.taint = list(s.taint)
            ns.muts = list(s.muts)
            ns.ghost = dict(s.ghost)
            return ns
        for s, k, v in exits:
            w = self.fresh(I, "w")
            ns = instantiate(s, w)
            if self.feasible(ns):
                vv = self.subst_val(v, i, w) if v is not None else None
                outs.append((ns, "next", None) if k == "break" else (ns, k, vv))
        for s, x in excs:
            w = self.fresh(I, "w")
            ns = instantiate(s, w)
            if self.feasible(ns):
                self.sinks[-1].append((ns, self.subst_val(x, i, w)))
        done = st.copy()
        for nm in names:
            done.env[nm] = None
        done.add(it.n >= 0)
        if not nexts:
            done.add(it.n == 0)
        else:
            done.add(prefix(it.n))
            # which iterations could have happened: taints
            for s in nexts:
                for x in s.taint[len(st.taint):]:
                    if x not in done.taint:
                        done.taint.append(x)
        if self.feasible(done):
            outs.extend(self.exec_block(n.orelse, done) if n.orelse else [(done, "next", None)])
        return outs

    def local_to_body(self, t, i):
        """the object was created inside the loop body: its term depends on the binder"""
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(i):
                return True
            todo.extend(x.children())
        return False

    def subst_event(self, e, i, w):
        return Event(e.kind, **{k: (z3.substitute(x, (i, w)) if isinstance(x, z3.ExprRef) else self.subst_val(x, i, w)) for k, x in e.args.items()})

    def subst_val(self, v, i, w):
        sub = lambda t: z3.substitute(t, (i, w))
        if v is None:
            return None
        if isinstance(v, SV):
            o = v.origin
            if o:
                o = (self.subst_val(o[0], i, w) if isinstance(o[0], Val_) else o[0], o[1], sub(o[2]) if isinstance(o[2], z3.ExprRef) else o[2])
            return SV(sub(v.t), v.own, o)
        if isinstance(v, BV):
            return BV(sub(v.t))
        if isinstance(v, IV):
            return IV(sub(v.t))
        if isinstance(v, TV):
            return TV(sub(v.t))
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, i, w) for x in v.xs])
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.subst_val(x, i, w) for k, x in v.f.items()})
        if isinstance(v, Bound):
            return Bound(self.subst_val(v.obj, i, w), v.name)
        return v

    def accum(self, n, st, it, i, mark, nexts, exits, excs, mutated, names, pats):
        """one list that gets exactly one append per iteration (or a dict storing under one key per iteration)"""
        if exits:
            raise Unsupported("accumulating loop with early exit needs an invariant")
        outs = []
        done = st.copy()
        for nm in names:
            done.env[nm] = None
        done.add(it.n >= 0)
        for x in excs:
            raise Unsupported("accumulating loop with exceptions needs an invariant")
        inr = z3.And(0 <= i, i < it.n)
        for k, t0 in mutated.items():
            cur = st.content.get(k, (None, t0))[1]
            rows = []
            for s in nexts:
                acts = [a for a in getattr(s, "ghost", {}).get("acts", ()) if a[0] == k]
                new = s.content.get(k, (None, cur))[1]
                if new is cur:
                    rows.append((s, None))
                    continue
                if len(acts) != 1 or acts[0][1] != "append":
                    raise Unsupported("loop mutates a container in a way that needs an invariant")
                rows.append((s, acts[0][2]))
            if all(r is not None for _, r in rows):
                nt = self.fresh(V, "acc")
                done.add(T.cls(nt) == T.cls(cur), T.ln(nt) == T.ln(cur) + it.n)
                body = z3.Or([z3.And(z3.And(s.pc[mark:]), T.la(nt)[T.ln(cur) + i] == e) for s, e in rows])
                done.add(z3.ForAll([i], z3.Implies(inr, body), patterns=pats + [T.la(nt)[T.ln(cur) + i]] if pats else [T.la(nt)[T.ln(cur) + i]]))
                j = z3.Const(T.fresh_name("j"), I)
                done.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T.ln(cur)), T.la(nt)[j] == T.la(cur)[j]), patterns=[T.la(nt)[j]]))
                done.content[k] = (t0, nt)
            else:
                raise Unsupported("conditional append needs an invariant")
        outs.extend(self.exec_block(n.orelse, done) if n.orelse else [(done, "next", None)])
        return outs

    def s_While(self, n, st):
        spec = self.loop_spec(n)
        if spec is None:
            raise Unsupported("while without invariant")
        names = self.assigned(n.body)
        names |= {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        pre = st.copy()
        lab = f"loop {self.ordinal(n)}"

        class It:
            n, src = None, None
        mut = {}

        def runbody(h):
            nx, ex, dn = [], [], []
            for s, v in self.eval(n.test, h):
                for s2, b in self.fork(s, self.truthy(s, v)):
                    if not b:
                        dn.append(s2)
                        continue
                    for s3, k, vv in self.exec_block(n.body, s2):
                        (nx if k in ("next", "continue") else ex).append(s3 if k in ("next", "continue") else (s3, k, vv))
            return nx, ex, dn
        for _ in range(3):
            tr = st.copy()
            self.havoc_names(tr, names, spec.kinds, pre)
            for k, t0 in mut.items():
                tr.content[k] = (t0, self.fresh_like(tr, t0, pre))
            ti = self.fresh(I, "ti")
            tr.add(ti >= 0)
            if spec.enter:
                spec.enter(self, tr)
            for label, f in spec.inv(self.lcx(pre, tr, ti, It)):
                tr.add(f)
            nobs = len(self.obs)
            self.sinks.append([])
            try:
                nx, ex, dn = runbody(tr.copy())
            finally:
                self.sinks.pop()
                del self.obs[nobs:]
            new = {k: v for k, v in self.mutated_ids(tr, nx).items() if k not in mut}
            if not new:
                break
            mut.update(new)
        for label, f in spec.inv(self.lcx(pre, st, z3.IntVal(0), It)):
            self.prove(st, f, f"{lab}: invariant holds initially: {label}")
        h = st.copy()
        self.havoc_names(h, names, spec.kinds, pre)
        for k, t0 in mut.items():
            h.content[k] = (t0, self.fresh_like(h, t0, pre))
        i = self.fresh(I, "i")           # number of iterations so far
        h.add(i >= 0)
        if spec.enter:
            spec.enter(self, h)
        for label, f in spec.inv(self.lcx(pre, h, i, It)):
            h.add(f)
        h.ghost["iter"] = IV(i)
        h0 = h.copy()
        nx, ex, dn = runbody(h)
        self.all_havocked(h0, nx, mut, i)
        for s in nx:
            for label, f in spec.inv(self.lcx(pre, s, i + 1, It)):
                self.prove(s, f, f"{lab}: invariant preserved: {label}")
        for s in nx:
            if any(ev.kind not in spec.keep for ev in s.log[len(pre.log):]):
                raise Unsupported("ghost events inside a loop")
            if len(s.attrs) != len(pre.attrs):
                raise Unsupported("attribute mutation in a loop")
            for d in dn:
                d.muts.extend(m for m in s.muts[len(pre.muts):] if m not in d.muts)
                d.taint.extend(x for x in s.taint[len(pre.taint):] if x not in d.taint)
        outs = [(s, "next", None) if k == "break" else (s, k, v) for s, k, v in ex]
        for s in dn:
            outs.extend(self.exec_block(n.orelse, s) if n.orelse else [(s, "next", None)])
        return outs

    # ================================================================================================ driver
    def verify(self, c):
        """generate and discharge every obligation of one function; returns True when all are discharged"""
        node = self.repo.func(c.module, c.qual)
        self.cur = c
        first = len(self.obs)
        name = f"{c.module}.{c.qual}"
        self.extra_axioms = getattr(self, "dropped", []) + self.extra_axioms
        self.dropped = []
        if node is None:
            self.undecided.append((name, "function not found in the current tree"))
            return False
        self.npaths = 0
        self.sinks, self.stack, self.binders = [[]], [(c.module, c.qual)], []
        try:
            st = St()
            st.mod = c.module
            a = node.args
            pnames = [x.arg for x in [*a.posonlyargs, *a.args, a.vararg, *a.kwonlyargs, a.kwarg] if x is not None]
            for d in node.decorator_list:
                if ast.unparse(d) not in c.opts.get("decorators", ()):
                    raise Unsupported(f"decorated with {ast.unparse(d)}")
            self.stack_params = set(pnames)
            args = c.params(self, st) if c.params else {}
            for p in pnames:
                if p not in args:
                    args[p] = self.sym(st, p)
            extra = [p for p in args if p not in pnames]
            if extra:
                raise Unsupported(f"signature changed: no parameter {extra}")
            if c.setup:
                c.setup(self, st, args)
            unused = c.opts.get("without")          # axioms this proof can do without: fewer assumptions
            if unused:
                drop = {id(a) for n in unused for a in self.axiom_groups.get(n, ())}
                self.dropped = [a for a in self.extra_axioms if id(a) in drop]
                self.extra_axioms = [a for a in self.extra_axioms if id(a) not in drop]
            if c.pre:
                for label, f in c.pre(self, st, args):
                    st.add(f)
            if not self.cover(st, "precondition is satisfiable"):
                self.undecided.append((name, "contradictory precondition"))
                return False
            pre = st.copy()
            st.env = dict(args)
            defaults = {}
            res = []
            for s, k, v in self.exec_block(node.body, st, join=bool(c.opts.get("join"))):
                res.append((s, "return", v if k == "return" else C(None)))
            for s, x in self.sinks[0]:
                res.append((s, "raise", x))
            self.sinks = [[]]
            if c.check is not None:
                c.check(self, pre, args, res)
            else:
                self.check_cases(c, pre, args, res)
        except Unsupported as u:
            self.undecided.append((name, f"outside the verifier's subset: {u}"))
            return False
        except (RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, z3.Z3Exception) as u:
            import traceback
            tb = traceback.extract_tb(u.__traceback__)[-1]
            if getattr(self, "debug_raise", False):
                raise
            self.undecided.append((name, f"verifier error: {type(u).__name__}: {u} at {tb.filename.split('/')[-1]}:{tb.lineno}"))
            if self.verbose:
                traceback.print_exc()
            return False
        if len(self.obs) == first:
            self.undecided.append((name, "no obligation was generated"))
            return False
        return all(o.status == "discharged" for o in self.obs[first:])

    def check_cases(self, c, pre, args, res):
        self.sinks = [[]]
        hits, live = {}, {}
        n0 = len(pre.pc)
        argv = {k: self.argterm(pre, x) for k, x in args.items()}
        boxing = pre.pc[n0:]                     # facts about arguments that are boxed here
        for idx, (s, kind, v) in enumerate(res):
            s.add(*boxing)
            soft = c.opts.get("soft", ())
            hard = [e for e in s.log if e.kind not in soft]
            shape = [e.kind for e in hard]
            frame_bad = [w for t, w, root in s.muts if w not in c.opts.get("may_modify", ()) and not any(isinstance(args.get(p), SV) and root.eq(args[p].t) for p in c.opts.get("changes", ()))] if c.opts.get("frame", True) else []
            cx = Cx()
            cx.eng, cx.args, cx.pre, cx.st = self, args, pre, s
            cx.val = v
            cx.ev = hard
            cx.res = self.argterm(s, v)
            cx.a = dict(argv)
            cx.kind = kind
            cands = []
            for case in c.cases(self, pre, args):
                if case.outcome != kind or [k for k, _ in case.events] != shape:
                    continue
                cands.append(case)
            label = f"path {idx + 1} ({kind}{' ' + '+'.join(shape) if shape else ''})"
            if kind == "raise":
                keep = []
                for case in cands:
                    names = case.exc if isinstance(case.exc, (list, tuple)) else [case.exc]
                    keep.append((case, self.isinst(s, v, *names)))
                cands2 = keep
            else:
                cands2 = [(case, z3.BoolVal(True)) for case in cands]
            if not cands2:
                what = f"behaviour '{kind} {v if kind == 'raise' else ''} {shape}' is not allowed by the contract"
                self.prove(s, z3.BoolVal(False), f"{label}: no case of the contract allows it", what)
                continue
            for g, f in self.globals_spec.items():
                gv = f(self, s)
                if g not in c.opts.get("modifies", ()) and not self.snap(s, gv).eq(self.snap(pre, gv)):
                    self.prove(s, self.snap(s, gv) == self.snap(pre, gv), f"{label}: frame ({g[-1]} is not modified)")
            if frame_bad:
                self.prove(s, z3.BoolVal(False), f"{label}: frame (borrowed data is not modified)", "; ".join(frame_bad[:3]))
            if len(cands2) == 1:
                case, g = cands2[0]
                hits[case.name] = True
                live.setdefault(case.name, []).append(s)
                todo = []
                if case.when is not None:
                    todo.append((f"{label}: case '{case.name}' applies", case.when(cx)))
                if not z3.is_true(g):
                    todo.append((f"{label}: exception class allowed by case '{case.name}'", g))
                posts = case.post(cx) if case.post else []
                if not posts:
                    todo.append((f"{label}: {case.name}", z3.BoolVal(True)))
                todo += [(f"{label}: {case.name}: {lb}", f) for lb, f in posts]
                self.prove_many(s, todo)
            else:
                alts = []
                for case, g in cands2:
                    hits[case.name] = True
                    fs = [g] + ([case.when(cx)] if case.when is not None else []) + [f for _, f in (case.post(cx) if case.post else [])]
                    alts.append(z3.And(fs))
                self.prove(s, z3.Or(alts), f"{label}: one of the cases {', '.join(x.name for x, _ in cands2)}")
        # vacuity: for every case hit, some path must not be contradictory (facts with axioms not refutable)
        for nm, paths in live.items():
            if not any(self.cover(s, f"case '{nm}' has a live path") for s in paths[:6]):
                self.undecided.append((f"{c.module}.{c.qual}", f"vacuous: every path of case '{nm}' is contradictory"))
        missing = [case.name for case in c.cases(self, pre, args) if case.name not in hits and not c.opts.get("optional", False) and case.name not in c.opts.get("optional_cases", ())]
        self.unreached = getattr(self, "unreached", [])
        if missing:
            self.unreached.append((f"{c.module}.{c.qual}", missing))


class AccMode:
    base = None
    state0 = None


from .engine import Val as Val_
