"""Symbolic execution of Python ASTs with contracts; produces proof obligations for Z3."""
import ast
import time
import z3
from . import theory as T
from .theory import V, K, I, B, S as StrS, isa, lit


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------------------------ engine-level values
class Val:
    __slots__ = ()


class C(Val):
    """a concrete Python constant"""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return f"C({self.x!r})"


class SV(Val):
    """a symbolic object; own: deep (freshly allocated, all of it), shallow, borrowed; origin: (parent SV, kind, key)"""
    __slots__ = ("t", "own", "origin")

    def __init__(self, t, own="borrowed", origin=None):
        self.t, self.own, self.origin = t, own, origin

    def __repr__(self):
        return f"SV({self.t})"


class BV(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"BV({self.t})"


class IV(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"IV({self.t})"


class TV(Val):
    """text"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Tup(Val):
    __slots__ = ("xs", "box")

    def __init__(self, xs):
        self.xs, self.box = list(xs), None

    def __repr__(self):
        return f"Tup{self.xs}"


class Rec(Val):
    """instance of a koreo class built in this execution (treated as immutable)"""
    __slots__ = ("cls", "f", "box")

    def __init__(self, cls, f):
        self.cls, self.f, self.box = cls, f, None

    def __repr__(self):
        return f"Rec({self.cls.split('.')[-1]},{self.f})"


class Cls(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Cls({self.name})"


class Fn(Val):
    """koreo function: module, qualname, ast node; or closure"""
    __slots__ = ("module", "qual", "node", "env")

    def __init__(self, module, qual, node, env=None):
        self.module, self.qual, self.node, self.env = module, qual, node, env

    def __repr__(self):
        return f"Fn({self.module}.{self.qual})"


class Ext(Val):
    """external name (library function, module)"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class Bound(Val):
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"Bound({self.obj}.{self.name})"


class Iter(Val):
    """lazy iterable: n (Int term), elem(i) -> Val;  spine: optional concrete list"""
    __slots__ = ("n", "elem", "spine", "kind")

    def __init__(self, n, elem, spine=None, kind="seq"):
        self.n, self.elem, self.spine, self.kind = n, elem, spine, kind


class Coro(Val):
    __slots__ = ("thunk",)

    def __init__(self, thunk):
        self.thunk = thunk


class Event:
    """ghost event"""
    __slots__ = ("kind", "args")

    def __init__(self, kind, /, **args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return f"{self.kind}{self.args}"


class St:
    __slots__ = ("env", "pc", "content", "attrs", "log", "ghost", "glob", "taint", "escaped", "muts", "mod")

    def __init__(self):
        self.env, self.pc, self.content, self.attrs = {}, [], {}, []
        self.log, self.ghost, self.glob, self.taint = [], {}, {}, []
        self.escaped, self.muts, self.mod = set(), [], None

    def copy(self):
        n = St()
        n.env, n.pc, n.content, n.attrs = dict(self.env), list(self.pc), dict(self.content), list(self.attrs)
        n.log, n.ghost, n.glob, n.taint = list(self.log), dict(self.ghost), dict(self.glob), list(self.taint)
        n.escaped, n.muts, n.mod = set(self.escaped), list(self.muts), self.mod
        return n

    def add(self, *fs):
        self.pc.extend(f for f in fs if f is not None and not z3.is_true(f))
        return self


def conjuncts(f):
    return [g for c in f.children() for g in conjuncts(c)] if z3.is_and(f) else [f]


def has_quant(f, _memo={}):
    k = f.get_id()
    if k in _memo and _memo[k][0].eq(f):
        return _memo[k][1]
    st, seen, r = [f], set(), False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _memo[k] = (f, r)
    return r


class Obligation:
    def __init__(self, name, status, secs, detail="", taint=(), model=None, func=None):
        self.name, self.status, self.secs, self.detail, self.taint = name, status, secs, detail, list(taint)
        self.model, self.func = model, func

    def as_dict(self):
        return {"name": self.name, "function": self.func, "status": self.status, "secs": round(self.secs, 3),
                "detail": self.detail, "taint": self.taint, "model": self.model}


class Contract:
    """Specification of one function.

    params(eng, st)      -> dict of argument Vals for the verification run; adds the precondition facts to st
    pre(eng, st, args)   -> [(label, formula)] obligations at call sites (facts in the verification run)
    cases(eng, st, args) -> list of Case
    """
    pure = True

    def __init__(self, module, qual, params=None, pre=None, cases=None, loops=None, setup=None, note="", own="deep",
                 trusted=False, apply=None, result_uf=False, check=None, opts=None):
        self.module, self.qual, self.params, self.pre, self.cases = module, qual, params, pre, cases
        self.loops, self.setup, self.note, self.own = loops or {}, setup, note, own
        self.trusted, self.apply, self.result_uf, self.check = trusted, apply, result_uf, check
        self.opts = opts or {}

    @property
    def key(self):
        return (self.module, self.qual)


class Case:
    """One shape of behaviour: the sequence of ghost event kinds, normal/exceptional, and the facts that then hold.

    post(cx) -> list of (label, z3 formula), with cx.args, cx.res (SV/None), cx.ev (list of dict name->term),
    cx.pre / cx.st states.
    """

    def __init__(self, name, events=(), outcome="return", exc=None, post=None, when=None, mk=None):
        self.name, self.events, self.outcome, self.exc, self.post, self.when, self.mk = name, list(events), outcome, exc, post, when, mk


class Cx:
    pass


class Engine:
    def __init__(self, repo, contracts=(), models=(), timeout_ms=8000, verbose=False):
        self.repo = repo
        self.contracts = {c.key: c for c in contracts}
        self.timeout_ms = timeout_ms
        self.refute_ms = 2000
        self.refutes = {}
        self.verbose = verbose
        self.obs = []
        self.undecided = []
        self.assumptions = set()
        self.inlined = set()
        self.axioms = T.background() + T.record_axioms()
        self.extra_axioms = []
        self.axiom_groups = {}               # name -> axioms, for opts["without"]
        self.binders = []
        self.depth = 0
        self.sinks = []
        self.cur = None
        self.loop_counter = {}
        self.solver_time = 0.0
        self.seed = 1
        self.nqueries = 0
        self.maxpaths = 4000
        self.covers = []
        from . import models as M
        self.models = M.Models(self)
        self.globals_spec = {}
        self.await_hook = None
        self._feas_cache = {}
        self.comp_info = {}          # filtered comprehension -> (position of a source index, source index of a position, source)
        self.stack = []

    # ------------------------------------------------------------------------------------------------ fresh symbols
    def fresh(self, sort, base="x"):
        n = T.fresh_name(base)
        if self.binders:
            f = z3.Function(n, *[b.sort() for b in self.binders], sort)
            return f(*self.binders)
        return z3.Const(n, sort)

    def sym(self, st, base="v", cls=None, own="borrowed", exact=False):
        t = self.fresh(V, base)
        if cls:
            names = cls if isinstance(cls, (tuple, list)) else (cls,)
            st.add(isa(t, *names) if not exact else z3.Or([T.exact(t, n) for n in names]))
            if "NoneType" in names:
                st.add(z3.Implies(isa(t, "NoneType"), t == T.NoneV))
        return SV(t, own)

    # ------------------------------------------------------------------------------------------------ solving
    def solver(self, facts, timeout=None, quant=True):
        s = z3.SimpleSolver()
        s.set("timeout", timeout or self.timeout_ms)
        s.set("random_seed", self.seed)
        for a in T.lit_facts():
            s.add(a)
        if quant:
            for a in self.axioms:
                s.add(a)
            for a in self.extra_axioms:
                s.add(a)
        for f in facts:
            if quant or not has_quant(f):
                s.add(f)
        return s

    def feasible(self, st, extra=()):
        """quick check on ground facts only (over-approximation)"""
        fs = [f for f in list(st.pc) + list(extra) if not has_quant(f)]
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set("timeout", 400)
        for a in T.lit_facts():
            s.add(a)
        s.add(T.cls(T.NoneV) == T.CLASSES["NoneType"])
        for f in fs:
            s.add(f)
        r = s.check()
        self.solver_time += time.time() - t0
        self.nqueries += 1
        return r != z3.unsat

    def entails(self, st, f, timeout=1500):
        t0 = time.time()
        s = self.solver(list(st.pc) + [z3.Not(f)], timeout=timeout)
        s.set("mbqi", False)
        r = s.check()
        self.solver_time += time.time() - t0
        self.nqueries += 1
        return r == z3.unsat

    def prove(self, st, f, name, detail=""):
        t0 = time.time()
        fname = f"{self.cur.module}.{self.cur.qual}" if self.cur else "?"
        if z3.is_true(f):
            self.obs.append(Obligation(name, "discharged", 0.0, "trivial", st.taint, func=fname))
            return True
        # first without model-based instantiation (fast, complete enough for proofs), then with it (finds counter-models)
        s = self.solver(list(st.pc) + [z3.Not(f)])
        s.set("mbqi", False)
        r = s.check()
        sat_like = False
        if r != z3.unsat:
            sat_like = r == z3.sat or "incomplete" in s.reason_unknown()
            if r == z3.unknown and sat_like:
                # instantiation driven by all terms rather than by those relevant to the current branch
                s1 = self.solver(list(st.pc) + [z3.Not(f)], timeout=min(self.timeout_ms, 4000))
                s1.set("mbqi", False)
                s1.set("relevancy", 1)
                r = s1.check()
                if r != z3.unsat and self.refutes.get(fname, 0) < 12 and all(self.quick(st, g) for g in conjuncts(f)):
                    r = z3.unsat
        if r != z3.unsat:
            m0 = s.model() if sat_like else None
            self.refutes[fname] = self.refutes.get(fname, 0) + 1
            budget = self.refute_ms if sat_like else self.timeout_ms
            if self.refutes[fname] > 3:
                budget = 200 if sat_like else 2000
            s2 = self.solver(list(st.pc) + [z3.Not(f)], timeout=budget)
            r = s2.check()
            if r == z3.sat:
                s = s2
        dt = time.time() - t0
        self.solver_time += dt
        self.nqueries += 1
        status, model = "discharged", None
        if r == z3.sat:
            status = "refuted"
            try:
                model = str(s.model())[:4000]
            except Exception:
                model = "?"
        elif r == z3.unknown:
            status = "unknown"
            # a ground counter-model (quantified facts dropped) is a definite refutation only if there are no quantified
            # facts at all on this path
            model = s.reason_unknown()
            if sat_like:
                # instantiation saturated without contradiction: a candidate counter-model
                status = "saturated"
                try:
                    model = str(m0)[:4000]
                except Exception:
                    pass
        if self.verbose or status != "discharged":
            if self.verbose:
                print(f"   [{status:10}] {fname}: {name} ({dt:.2f}s) {detail}")
        self.obs.append(Obligation(name, status, dt, detail, st.taint, model, fname))
        return r == z3.unsat

    def quick(self, st, f):
        for rel, seed in ((2, 7), (1, 13), (2, 23), (1, 1)):
            s = self.solver(list(st.pc) + [z3.Not(f)], timeout=min(self.timeout_ms, 4000))
            s.set("mbqi", False)
            s.set("relevancy", rel)
            s.set("random_seed", seed + self.seed)
            self.nqueries += 1
            if s.check() == z3.unsat:
                return True
        return False

    def prove_many(self, st, items):
        """items: [(name, formula)]; one query for all of them, separate ones when it does not succeed"""
        items = [(n, f) for n, f in items]
        if len(items) > 1:
            t0 = time.time()
            s = self.solver(list(st.pc) + [z3.Not(z3.And([f for _, f in items]))], timeout=min(self.timeout_ms, 6000))
            s.set("mbqi", False)
            r = s.check()
            dt = time.time() - t0
            self.solver_time += dt
            self.nqueries += 1
            if r == z3.unsat:
                fname = f"{self.cur.module}.{self.cur.qual}" if self.cur else "?"
                for n, _ in items:
                    self.obs.append(Obligation(n, "discharged", dt / len(items), "", st.taint, func=fname))
                return True
        return all([self.prove(st, f, n) for n, f in items])

    def cover(self, st, name):
        """the facts of st must not be contradictory: a model of the ground part, and no refutation with the axioms"""
        fname = f"{self.cur.module}.{self.cur.qual}" if self.cur else "?"
        s = self.solver(list(st.pc), timeout=2000)
        s.set("mbqi", False)
        r = s.check()
        ok = r != z3.unsat and self.feasible(st)
        self.covers.append((fname, name, "satisfiable (ground part), not refutable" if ok else "contradictory"))
        return ok

    # ------------------------------------------------------------------------------------------------ boxing
    def to_v(self, st, v):
        if isinstance(v, SV):
            return self.snap(st, v)
        if isinstance(v, C):
            return self.box_const(st, v.x)
        if isinstance(v, BV):
            t = z3.Function("mkb", B, V)(v.t)
            st.add(T.exact(t, "bool"), T.iv(t) == z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
            return t
        if isinstance(v, IV):
            t = z3.Function("mki", I, V)(v.t)
            st.add(T.exact(t, "int"), T.iv(t) == v.t)
            return t
        if isinstance(v, TV):
            t = z3.Function("mks", StrS, V)(v.t)
            st.add(T.exact(t, "str"), T.sv(t) == v.t)
            return t
        if isinstance(v, Tup):
            xs = [self.to_v(st, x) for x in v.xs]
            t = self.boxed(v, xs, "tup")
            arr = z3.K(I, T.NoneV)
            for i, x in enumerate(xs):
                arr = z3.Store(arr, i, x)
            st.add(T.exact(t, "tuple"), T.ln(t) == len(v.xs), T.la(t) == arr)
            return t
        if isinstance(v, Rec):
            xs = [self.to_v(st, x) for x in v.f.values()]
            t = self.boxed(v, xs, v.cls.split(".")[-1])
            st.add(T.exact(t, v.cls))
            for n, x in zip(v.f, xs):
                st.add(T.fld(n)(t) == x)
            if v.cls == "koreo.registry.Resource":
                self.resource_key(st, v, t)
            return t
        if isinstance(v, Cls):
            t = z3.Const("class:" + v.name, V)
            st.add(T.exact(t, "type"), z3.Function("classid", V, I)(t) == T.CLASSES.get(v.name, -len(v.name)))
            return t
        if isinstance(v, Fn):
            t = z3.Const(f"fn:{v.module}.{v.qual}", V)
            st.add(T.exact(t, "function_"))
            return t
        if isinstance(v, Ext):
            return z3.Const(f"ext:{v.name}", V)
        if isinstance(v, Bound):
            t = self.fresh(V, "bound")
            st.add(T.exact(t, "function_"))
            return t
        if isinstance(v, Iter):
            return self.iter_to_list(st, v).t
        raise Unsupported(f"box {type(v).__name__}")

    def boxed(self, v, xs, base):
        """one constant per (object, contents): a later boxing after a mutation inside gets a new one"""
        sig = [x.get_id() for x in xs] + [b.get_id() for b in self.binders]
        if v.box is None:
            v.box = []
        for s0, t, keep in v.box:
            if s0 == sig:
                return t
        t = self.fresh(V, base)
        v.box.append((sig, t, xs))
        return t

    def iter_to_list(self, st, it, cls="list"):
        if it.spine is not None:
            return self.new_list(st, it.spine, cls)
        t = self.fresh(V, "lst")
        st.add(T.exact(t, cls), T.ln(t) == it.n)
        i = z3.Const(T.fresh_name("i"), I)
        self.binders.append(i)
        try:
            sub = st.copy()
            mark = len(sub.pc)
            e = self.to_v(sub, it.elem(sub, i))
            facts = sub.pc[mark:]
        finally:
            self.binders.pop()
        st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.n), z3.And(T.la(t)[i] == e, *facts)), patterns=[T.la(t)[i]] + self.src_pats(it, i)))
        return SV(t, "shallow")

    def box_const(self, st, x):
        if x is None:
            return T.NoneV
        if isinstance(x, bool):
            t = z3.Const(f"bool:{x}", V)
            st.add(T.exact(t, "bool"), T.iv(t) == int(x))
        elif isinstance(x, int):
            t = z3.Const(f"int:{x}", V)
            st.add(T.exact(t, "int"), T.iv(t) == x)
        elif isinstance(x, str):
            t = z3.Const("str:" + repr(x), V)
            st.add(T.exact(t, "str"), T.sv(t) == lit(x))
        elif isinstance(x, float):
            t = z3.Const(f"float:{x}", V)
            st.add(T.exact(t, "float"), T.rv(t) == z3.RealVal(str(x)))
        elif isinstance(x, (tuple, list)):
            return self.to_v(st, Tup([C(y) for y in x]))
        elif isinstance(x, (set, frozenset)):
            t = z3.Const("set:" + repr(sorted(x)), V)
            k = z3.Const("k", K)
            arr = z3.K(K, z3.BoolVal(False))
            for y in sorted(x):
                arr = z3.Store(arr, T.kstr_of(y), z3.BoolVal(True))
            st.add(T.exact(t, "set"), T.dom(t) == arr, T.klen(t) == len(x))
        elif isinstance(x, dict):
            return self.new_dict(st, [(C(k), C(v)) for k, v in x.items()]).t
        else:
            raise Unsupported(f"constant {x!r}")
        return t

    def snap(self, st, v):
        """current snapshot of a (possibly mutated) object"""
        return st.content.get(v.t.get_id(), (None, v.t))[1]

    # ------------------------------------------------------------------------------------------------ containers
    def new_list(self, st, xs, cls="list"):
        t = self.fresh(V, "list")
        arr = self.fresh(T.AIV, "arr")
        for i, x in enumerate(xs):
            arr = z3.Store(arr, i, self.to_v(st, x))
        st.add(T.exact(t, cls), T.ln(t) == len(xs), T.la(t) == arr)
        return SV(t, "shallow" if xs else "deep")

    def new_dict(self, st, items, cls="dict"):
        t = self.fresh(V, "dict")
        d = z3.K(K, z3.BoolVal(False))
        m = self.fresh(T.AKV, "m")
        for k, v in items:
            kk = self.keyterm(st, k)
            d = z3.Store(d, kk, z3.BoolVal(True))
            m = z3.Store(m, kk, self.to_v(st, v))
        st.add(T.exact(t, cls), T.dom(t) == d, T.mp(t) == m)
        if not items:
            st.add(T.klen(t) == 0)
        elif len(items) == 1:
            st.add(T.klen(t) == 1)
        else:
            st.add(T.klen(t) >= 1)
        return SV(t, "shallow" if items else "deep")

    def new_set(self, st, xs):
        t = self.fresh(V, "set")
        d = z3.K(K, z3.BoolVal(False))
        for x in xs:
            d = z3.Store(d, self.keyterm(st, x), z3.BoolVal(True))
        st.add(T.exact(t, "set"), T.dom(t) == d)
        st.add(T.klen(t) == 0 if not xs else T.klen(t) >= 1)
        return SV(t, "deep")

    def unhashable(self, st, v):
        """condition: hash(v) raises TypeError"""
        if isinstance(v, SV):
            return isa(self.snap(st, v), "dict", "list", "set")
        if isinstance(v, Tup):
            return z3.Or([self.unhashable(st, x) for x in v.xs]) if v.xs else z3.BoolVal(False)
        return z3.BoolVal(False)

    def resource_key(self, st, v, t):
        """NamedTuple hash/eq: the key is determined by the fields"""
        ty, ns = (self.to_v(st, v.f[n]) for n in ("resource_type", "namespace"))
        k = z3.Function("kres", V, V, V, K)(ty, z3.Function("kname", K, V)(self.keyterm(st, v.f["name"])), ns)
        st.add(T.key(t) == k)
        return k

    def keyterm(self, st, v):
        if isinstance(v, C) and isinstance(v.x, str):
            return T.kstr_of(v.x)
        if isinstance(v, C) and isinstance(v.x, int):
            return T.kint(z3.IntVal(int(v.x)))
        if isinstance(v, TV):
            return T.kstr(v.t)
        if isinstance(v, IV):
            return T.kint(v.t)
        if isinstance(v, BV):
            return T.kint(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        t = self.to_v(st, v)
        st.add(*T.key_facts(t))
        if isinstance(v, Tup) and len(v.xs) == 2:
            k = T.kpair(*[self.keyterm(st, x) for x in v.xs])
            st.add(T.key(t) == k)
            return k
        if isinstance(v, Rec) and v.cls == "koreo.registry.Resource":
            return self.resource_key(st, v, t)
        return T.key(t)

    def mutate(self, st, v, newt, what):
        """object v now has snapshot newt"""
        if not isinstance(v, SV):
            raise Unsupported(f"mutation of {v}")
        if v.t.get_id() in st.escaped:
            raise Unsupported(f"mutation of an object already stored elsewhere ({what})")
        st.content[v.t.get_id()] = (v.t, newt)
        if v.own == "borrowed" and not (v.origin and v.origin[1] == "global"):
            root = v
            while root.origin and root.origin[1] in ("item", "attr", "index", "either") and isinstance(root.origin[0], SV):
                root = root.origin[0]
            st.muts.append((v.t, what, root.t))
        if v.origin:
            parent, kind, k = v.origin
            if kind == "item":
                pt = self.snap(st, parent)
                n = self.dict_store(st, pt, k, newt)
                self.mutate(st, parent, n, what)
            elif kind == "attr":
                st.attrs.append((parent.t, k, newt))
            elif kind == "index":
                pt = self.snap(st, parent)
                n = self.fresh(V, "lst")
                st.add(T.cls(n) == T.cls(pt), T.ln(n) == T.ln(pt), T.la(n) == z3.Store(T.la(pt), k, newt))
                self.mutate(st, parent, n, what)
            elif kind == "global":
                pass
            else:
                raise Unsupported(f"mutation through {kind}")

    def changed(self, st, v, what):
        """a callee may have changed what v holds: its class and length are all that is still known"""
        if not isinstance(v, SV):
            if isinstance(v, C) and v.x is None:
                return
            raise Unsupported(f"a callee changes {v}")
        t = self.snap(st, v)
        nt = self.fresh(V, "changed")
        st.add(T.cls(nt) == T.cls(t), T.ln(nt) == T.ln(t), T.klen(nt) >= 0, (nt == T.NoneV) == (t == T.NoneV))
        if v.origin and v.origin[1] == "item":
            parent, _, k = v.origin
            st.content[v.t.get_id()] = (v.t, nt)
            pt, n = self.snap(st, parent), self.fresh(V, "dct")
            st.add(T.cls(n) == T.cls(pt), T.dom(n) == T.dom(pt), T.klen(n) == T.klen(pt), T.mp(n) == z3.Store(T.mp(pt), k, nt))
            self.mutate(st, parent, n, what)
        elif v.origin and v.origin[1] == "index":
            parent, _, k = v.origin
            st.content[v.t.get_id()] = (v.t, nt)
            pt, n = self.snap(st, parent), self.fresh(V, "lst")
            st.add(T.cls(n) == T.cls(pt), T.ln(n) == T.ln(pt), T.la(n) == z3.Store(T.la(pt), k, nt))
            self.mutate(st, parent, n, what)
        elif v.origin:
            raise Unsupported("a callee changes part of something else")
        else:
            self.mutate(st, v, nt, what)

    def dict_store(self, st, pt, k, vt):
        n = self.fresh(V, "dct")
        st.add(T.cls(n) == T.cls(pt), T.dom(n) == z3.Store(T.dom(pt), k, z3.BoolVal(True)),
               T.mp(n) == z3.Store(T.mp(pt), k, vt),
               T.klen(n) == z3.If(T.dom(pt)[k], T.klen(pt), T.klen(pt) + 1), T.klen(pt) >= 0)
        if getattr(self, "ordered", False):      # insertion order: a new key comes last, a stored one keeps its place
            x, j = z3.Const("sk", K), z3.Const("sj", I)
            at = z3.If(T.dom(pt)[k], T.kidx(pt, k), T.klen(pt))
            st.add(T.kidx(n, k) == at, z3.Implies(T.dom(pt)[k], z3.And(0 <= at, at < T.klen(pt))), T.key(T.kat(n, at)) == k,
                   z3.ForAll([x], z3.Implies(T.dom(pt)[x], T.kidx(n, x) == T.kidx(pt, x)), patterns=[T.kidx(n, x), T.dom(n)[x]]),
                   z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T.klen(pt)), T.kat(n, j) == T.kat(pt, j)), patterns=[T.kat(n, j)]))
        return n

    def dict_remove(self, st, pt, k):
        n = self.fresh(V, "dct")
        st.add(T.cls(n) == T.cls(pt), T.dom(n) == z3.Store(T.dom(pt), k, z3.BoolVal(False)), T.mp(n) == T.mp(pt),
               T.klen(n) == z3.If(T.dom(pt)[k], T.klen(pt) - 1, T.klen(pt)), T.klen(n) >= 0)
        return n

    # ------------------------------------------------------------------------------------------------ truth & equality
    def truthy(self, st, v):
        """z3 Bool"""
        if isinstance(v, C):
            return z3.BoolVal(bool(v.x))
        if isinstance(v, BV):
            return v.t
        if isinstance(v, IV):
            return v.t != 0
        if isinstance(v, TV):
            return v.t != lit("")
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.xs))
        if isinstance(v, Rec):
            if v.cls in T.RECORDS and not v.f:
                return z3.BoolVal(False)
            return z3.BoolVal(True)
        if isinstance(v, (Cls, Fn, Ext, Bound, Coro)):
            return z3.BoolVal(True)
        if isinstance(v, Iter):
            if v.kind == "gen":
                return z3.BoolVal(True)
            return v.n != 0
        if isinstance(v, SV):
            t = self.snap(st, v)
            st.add(T.klen(t) >= 0, T.ln(t) >= 0)
            return T.truth(t)
        raise Unsupported(f"truth of {v}")

    def equal(self, st, a, b):
        """z3 Bool for Python =="""
        if isinstance(a, C) and isinstance(b, C):
            return z3.BoolVal(a.x == b.x)
        if isinstance(b, C) and not isinstance(a, C):
            a, b = b, a
        if isinstance(a, C):
            if isinstance(b, SV):
                t = self.snap(st, b)
                if a.x is None:
                    return t == T.NoneV
                if isinstance(a.x, str):
                    return z3.And(isa(t, "str"), T.sv(t) == lit(a.x))
                if isinstance(a.x, (bool, int)):
                    return z3.Or(z3.And(isa(t, "int"), T.iv(t) == int(a.x)), z3.And(isa(t, "float"), T.rv(t) == int(a.x)))
            if isinstance(b, BV):
                if isinstance(a.x, (bool, int)):
                    return z3.If(b.t, z3.BoolVal(a.x == 1), z3.BoolVal(a.x == 0))
                return z3.BoolVal(False)
            if isinstance(b, IV):
                if isinstance(a.x, (bool, int)):
                    return b.t == int(a.x)
                return z3.BoolVal(False)
            if isinstance(b, TV):
                return b.t == lit(a.x) if isinstance(a.x, str) else z3.BoolVal(False)
            if isinstance(b, (Cls, Ext, Fn)):
                return z3.BoolVal(False)
            if isinstance(b, Rec) and a.x is None:
                return z3.BoolVal(False)
        if isinstance(a, BV) and isinstance(b, BV):
            return a.t == b.t
        if isinstance(a, IV) and isinstance(b, IV):
            return a.t == b.t
        if isinstance(a, TV) and isinstance(b, TV):
            return a.t == b.t
        if isinstance(a, Cls) and isinstance(b, Cls):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.xs) != len(b.xs):
                return z3.BoolVal(False)
            return z3.And([self.equal(st, x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, SV) and isinstance(b, TV):
            a, b = b, a
        if isinstance(a, TV) and isinstance(b, SV):
            t = self.snap(st, b)
            return z3.And(isa(t, "str"), T.sv(t) == a.t)
        if isinstance(a, SV) and isinstance(b, IV):
            a, b = b, a
        if isinstance(a, IV) and isinstance(b, SV):
            t = self.snap(st, b)
            return z3.Or(z3.And(isa(t, "int"), T.iv(t) == a.t), z3.And(isa(t, "float"), T.rv(t) == z3.ToReal(a.t)))
        ta, tb = self.to_v(st, a), self.to_v(st, b)
        if isinstance(a, Cls) or isinstance(b, Cls):
            return ta == tb
        st.add(z3.Implies(ta == tb, T.pyeq(ta, tb)))
        return T.pyeq(ta, tb)

    def identical(self, st, a, b):
        if isinstance(a, C) and isinstance(b, C):
            return z3.BoolVal(a.x is b.x or (a.x is not None and b.x is not None and a.x == b.x))
        if isinstance(a, C) and a.x is None or isinstance(b, C) and b.x is None:
            o = b if isinstance(a, C) else a
            if isinstance(o, SV):
                return self.snap(st, o) == T.NoneV
            return z3.BoolVal(False)
        if isinstance(a, Cls) and isinstance(b, Cls):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, C) and isinstance(a.x, bool) or isinstance(b, C) and isinstance(b.x, bool):
            o, c = (b, a) if isinstance(a, C) else (a, b)
            if isinstance(o, BV):
                return o.t == c.x
            if isinstance(o, SV):
                t = self.snap(st, o)
                return z3.And(T.exact(t, "bool"), T.iv(t) == int(c.x))
        ta, tb = self.to_v(st, a), self.to_v(st, b)
        if (isinstance(a, (SV, BV)) and isinstance(b, (SV, BV))) and not ta.eq(tb):      # True and False are one object each
            return z3.Or(ta == tb, z3.And(T.exact(ta, "bool"), T.exact(tb, "bool"), T.iv(ta) == T.iv(tb)))
        return ta == tb

    def isinst(self, st, v, *names):
        """z3 Bool"""
        if "object_" in names:
            return z3.BoolVal(True)
        if isinstance(v, SV):
            return isa(self.snap(st, v), *names)
        c = self.clsname(v)
        return z3.BoolVal(any(T.is_sub(c, n) for n in names))

    def clsname(self, v):
        if isinstance(v, C):
            return {type(None): "NoneType"}.get(type(v.x), type(v.x).__name__)
        if isinstance(v, BV):
            return "bool"
        if isinstance(v, IV):
            return "int"
        if isinstance(v, TV):
            return "str"
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, Rec):
            return v.cls
        if isinstance(v, Cls):
            return "type"
        if isinstance(v, (Fn, Bound)):
            return "function_"
        if isinstance(v, Iter):
            return "list" if v.kind == "seq" else "object_"
        if isinstance(v, Ext):
            return "module_"
        raise Unsupported(f"class of {v}")

    # ------------------------------------------------------------------------------------------------ control
    def fork(self, st, cond):
        """[(state, bool)] for feasible outcomes of z3 condition"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        out = []
        if self.feasible(st, [cond]):
            out.append((st.copy().add(cond), True))
        if self.feasible(st, [z3.Not(cond)]):
            out.append((st.copy().add(z3.Not(cond)), False))
        self.npaths = getattr(self, "npaths", 0) + 1
        if self.npaths > self.maxpaths:
            raise Unsupported("too many paths")
        return out

    def throw(self, st, exc_cls, cond=None, value=None):
        """record exceptional flow (when cond feasible); returns nothing"""
        if not self.sinks:
            raise Unsupported("raise outside sink")
        st2 = st.copy()
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_false(c) or not self.feasible(st, [c]):
                return
            st2.add(c)
        if value is None:
            value = self.sym(st2, "exc", exc_cls, own="deep", exact=exc_cls not in ("BaseException", "Exception"))
        self.sinks[-1].append((st2, value))

    def guard(self, st, ok, exc_cls):
        """assume ok on the continuing path, raise otherwise. Returns the continuing state or None."""
        ok = z3.simplify(ok)
        if z3.is_true(ok):
            return st
        self.throw(st, exc_cls, z3.Not(ok))
        if z3.is_false(ok) or not self.feasible(st, [ok]):
            return None
        st.add(ok)
        return st
