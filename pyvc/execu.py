"""Expressions and statements."""
import ast
import z3
from . import theory as T
from .theory import V, K, I, B, isa, lit
from .engine import (Engine, Unsupported, C, SV, BV, IV, TV, Tup, Rec, Cls, Fn, Ext, Bound, Iter, Coro, Event, St, has_quant)

BUILTIN_CLASSES = {"dict", "list", "tuple", "str", "int", "bool", "float", "bytes", "set", "frozenset", "Exception", "BaseException",
                   "KeyError", "TypeError", "ValueError", "IndexError", "AttributeError", "AssertionError", "RuntimeError",
                   "TimeoutError", "type", "ExceptionGroup", "LookupError", "StopIteration", "NameError",
                   "ArithmeticError", "ZeroDivisionError", "OverflowError", "OSError", "ConnectionError", "ConnectionResetError", "ConnectionRefusedError",
                   "ConnectionAbortedError", "BrokenPipeError", "PermissionError", "FileNotFoundError", "NotImplementedError", "RecursionError", "MemoryError",
                   "EOFError", "ImportError", "StopAsyncIteration", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "UnicodeError", "UnboundLocalError"}
BUILTIN_FUNCS = {"isinstance", "len", "enumerate", "zip", "max", "min", "any", "all", "range", "sorted", "print", "super", "getattr", "hasattr",
                 "iter", "next", "abs", "sum", "repr", "callable", "reversed", "id", "map", "filter"}

CONT = "normal"


class Exec(Engine):
    # ---------------------------------------------------------------------------------------------- names
    def lookup(self, st, name, node=None):
        if name in st.env:
            v = st.env[name]
            if v is None:
                raise Unsupported(f"possibly unbound {name}")
            return v
        return self.lookup_global(st, st.mod, name)

    def lookup_global(self, st, mod, name):
        m = self.repo.modules[mod]
        b = m.names.get(name)
        if b is None:
            if name in BUILTIN_CLASSES:
                return Cls(name)
            if name in BUILTIN_FUNCS:
                return Ext("builtins." + name)
            if name == "object":
                return Cls("object_")
            if name == "__name__":
                return C(mod)
            raise Unsupported(f"name {name}")
        kind, x = b
        if kind == "func":
            return Fn(mod, name, x)
        if kind == "class":
            return Cls(f"{mod}.{name}")
        if kind == "import":
            return self.dotted(st, self.repo.follow(x))
        if kind == "const":
            if (mod, name) in st.glob:
                return st.glob[(mod, name)]
            if (mod, name) in self.globals_spec:
                return self.globals_spec[(mod, name)](self, st)
            return self.const_global(st, mod, name, x)
        raise Unsupported(f"name {name} ({kind})")

    def const_global(self, st, mod, name, x):
        try:
            return C(ast.literal_eval(x))
        except Exception:
            pass
        sub = St()
        sub.mod = mod
        sub.pc = list(st.pc)
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
            return self.union_alias(sub, x)
        if isinstance(x, (ast.JoinedStr, ast.Name, ast.Attribute, ast.Call)):
            if isinstance(x, ast.Call):
                d = self.repo.resolve_dotted(self.repo.modules[mod], x.func)
                if d in ("re.compile",) and isinstance(x.args[0], ast.Constant):
                    rx = z3.Const(f"regex:{mod}.{name}", V)
                    self.models.regexes[rx.get_id()] = (rx, x.args[0].value if len(x.args) == 1 and not x.keywords else None)
                    st.add(T.exact(rx, "re.Pattern"))
                    return SV(rx)
                if d and (d.startswith("logging.") or d == "typing.TypeVar"):
                    return Ext(d + "()")
            if isinstance(x, ast.JoinedStr):
                s = self.concrete_fstring(sub, x)
                if s is not None:
                    return C(s)
            if isinstance(x, (ast.Name, ast.Attribute)):
                (r,) = self.eval(x, sub)
                return r[1]
        return SV(z3.Const(f"global:{mod}.{name}", V))

    def union_alias(self, st, x):
        """A | B used as a class in isinstance: a tuple of classes"""
        if isinstance(x, ast.BinOp):
            l, r = self.union_alias(st, x.left), self.union_alias(st, x.right)
            return Tup((l.xs if isinstance(l, Tup) else [l]) + (r.xs if isinstance(r, Tup) else [r]))
        if isinstance(x, ast.Subscript):
            return self.union_alias(st, x.value)
        if isinstance(x, ast.Constant) and x.value is None:
            return Cls("NoneType")
        (r,) = self.eval(x, st)
        return r[1]

    def concrete_fstring(self, st, x):
        out = ""
        for p in x.values:
            if isinstance(p, ast.Constant):
                out += p.value
            else:
                (r,) = self.eval(p.value, st)
                if not isinstance(r[1], C):
                    return None
                out += str(r[1].x)
        return out

    def dotted(self, st, d):
        """value for a fully qualified dotted name"""
        from .source import canon
        d = canon(d)
        if d in T.CLASSES:
            return Cls(d)
        mod, _, rest = self.repo.split(d)
        if mod is not None:
            if not rest:
                return Ext(mod)
            head, *tail = rest.split(".")
            if head not in self.repo.modules[mod].names:
                return Ext(d)
            v = self.lookup_global(st, mod, head)
            for t in tail:
                (r,) = self.getattr_(st, v, t)
                v = r[1]
            return v
        return Ext(d)

    # ---------------------------------------------------------------------------------------------- expressions
    def eval(self, e, st):
        """list of (st, Val); exceptional flow goes to the current sink"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {getattr(e, 'lineno', '?')}")
        return m(e, st)

    def eval_many(self, es, st):
        """list of (st, [Val])"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                if isinstance(e, ast.Starred):
                    for s2, v in self.eval(e.value, s):
                        it = self.iterate(s2, v)
                        if it.spine is None:
                            raise Unsupported("star of symbolic sequence")
                        nxt.append((s2, vs + list(it.spine)))
                else:
                    for s2, v in self.eval(e, s):
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return [(st, C(None))]
        return [(st, C(e.value))]

    def e_Name(self, e, st):
        if e.id not in st.env and self.stack and e.id in self.local_names(self.stack[-1]):
            # a local that no assignment on this path has bound
            self.throw(st, "UnboundLocalError")
            return []
        return [(st, self.lookup(st, e.id))]

    def local_names(self, key):
        cache = self.__dict__.setdefault("_locals_cache", {})
        if key not in cache:
            node = self.repo.func(*key)
            out = set()
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out = self.assigned(node.body)
                for x in ast.walk(node):
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        out -= set(x.names)
                    elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)) or x is not node and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        for y in ast.walk(x):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                out.discard(y.id)
            cache[key] = out
        return cache[key]

    def e_Tuple(self, e, st):
        return [(s, Tup(vs)) for s, vs in self.eval_many(e.elts, st)]

    def e_List(self, e, st):
        return [(s, self.new_list(s, vs)) for s, vs in self.eval_many(e.elts, st)]

    def e_Set(self, e, st):
        return [(s, self.new_set(s, vs)) for s, vs in self.eval_many(e.elts, st)]

    def e_Dict(self, e, st):
        if any(k is None for k in e.keys):
            raise Unsupported("dict unpacking")
        out = []
        for s, vs in self.eval_many([x for kv in zip(e.keys, e.values) for x in kv], st):
            out.append((s, self.new_dict(s, list(zip(vs[::2], vs[1::2])))))
        return out

    def e_JoinedStr(self, e, st):
        parts, exprs = [], []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(None)
                exprs.append(p.value)
                if p.format_spec is not None:
                    parts[-1] = None
        out = []
        for s, vs in self.eval_many(exprs, st):
            args = [self.text_of(s, v) for v in vs]
            if not args:
                out.append((s, C("".join(parts))))
                continue
            if len(parts) == 1:
                out.append((s, TV(args[0])))
                continue
            tmpl = "".join("{}" if p is None else p for p in parts)
            f = z3.Function("fmt:" + tmpl, *([T.S] * len(args)), T.S)
            r = f(*args)
            if any(p for p in parts if p):
                s.add(r != lit(""))
            for x in args:
                s.add(z3.Function("substr_in", T.S, T.S, B)(x, r))
            out.append((s, TV(r)))
        return out

    def text_of(self, st, v):
        """str(v) as text"""
        if isinstance(v, C):
            return lit(str(v.x))
        if isinstance(v, TV):
            return v.t
        if isinstance(v, SV):
            t = self.snap(st, v)
            st.add(z3.Implies(isa(t, "str"), T.tostr(t) == T.sv(t)))
            return T.tostr(t)
        if isinstance(v, IV):
            r = z3.Function("istr", I, T.S)(v.t)
            b = z3.Function("mks", T.S, V)(r)
            st.add(z3.Function("int_ok", V, z3.BoolSort())(b), z3.Function("int_of", V, I)(b) == v.t)      # int(str(n)) == n
            return r
        return T.tostr(self.to_v(st, v))

    def e_BoolOp(self, e, st):
        res = []
        work = [(st, 0)]
        is_and = isinstance(e.op, ast.And)
        for s, _ in [(st, 0)]:
            pend = [(s, 0)]
            while pend:
                s1, i = pend.pop()
                for s2, v in self.eval(e.values[i], s1):
                    if i == len(e.values) - 1:
                        res.append((s2, v))
                        continue
                    for s3, b in self.fork(s2, self.truthy(s2, v)):
                        if b == is_and:
                            pend.append((s3, i + 1))
                        else:
                            res.append((s3, v if not isinstance(v, BV) else C(b)))
        return res

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.eval(e.operand, st):
            if isinstance(e.op, ast.Not):
                c = z3.simplify(self.truthy(s, v))
                out.append((s, C(z3.is_false(c)) if z3.is_true(c) or z3.is_false(c) else BV(z3.Not(c))))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, C):
                    out.append((s, C(-v.x)))
                else:
                    out.append((s, IV(-self.as_int(s, v))))
            else:
                raise Unsupported("unary")
        return out

    def as_int(self, st, v):
        if isinstance(v, C) and isinstance(v.x, (int, bool)):
            return z3.IntVal(int(v.x))
        if isinstance(v, IV):
            return v.t
        if isinstance(v, BV):
            return z3.If(v.t, 1, 0)
        if isinstance(v, SV):
            return T.iv(self.snap(st, v))
        raise Unsupported(f"int of {v}")

    def index_int(self, st, v):
        """(state or None, Int term): a list index; anything but an int raises TypeError"""
        if isinstance(v, (C, TV)) and not (isinstance(v, C) and isinstance(v.x, int)):
            self.throw(st, "TypeError")
            return None, None
        if isinstance(v, SV):
            st = self.guard(st, isa(self.snap(st, v), "int"), "TypeError")
            if st is None:
                return None, None
        return st, self.as_int(st, v)

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.eval_many([e.left, e.right], st):
            out.extend(self.binop(s, e.op, a, b))
        return out

    def binop(self, s, op, a, b):
        if isinstance(a, C) and isinstance(b, C) and not isinstance(a.x, (set, dict)):
            try:
                x = {"Add": lambda: a.x + b.x, "Sub": lambda: a.x - b.x, "Mult": lambda: a.x * b.x}[type(op).__name__]()
                return [(s, C(x))]
            except Exception:
                raise Unsupported("constant binop")
        if isinstance(op, (ast.Add, ast.Sub)) and all(isinstance(x, (IV, C, BV)) for x in (a, b)) and not any(isinstance(x, C) and isinstance(x.x, str) for x in (a, b)):
            x, y = self.as_int(s, a), self.as_int(s, b)
            return [(s, IV(x + y if isinstance(op, ast.Add) else x - y))]
        if isinstance(op, ast.Sub):
            # set difference, or number difference
            ta, tb = self.to_v(s, a), self.to_v(s, b)
            sets = z3.And(isa(ta, "set", "dict"), isa(tb, "set", "dict"))
            out = []
            for s2, y in self.fork(s, sets):
                if y:
                    t = self.fresh(V, "sdiff")
                    k = z3.Const("k", K)
                    s2.add(T.exact(t, "set"), z3.ForAll([k], T.dom(t)[k] == z3.And(T.dom(ta)[k], z3.Not(T.dom(tb)[k])), patterns=[T.dom(t)[k], T.dom(ta)[k]]))
                    self.set_card(s2, t)
                    out.append((s2, SV(t, "deep")))
                else:
                    ok = self.guard(s2, z3.And(isa(ta, "int", "float"), isa(tb, "int", "float")), "TypeError")
                    if ok:
                        out.append((ok, SV(self.fresh(V, "num"), "deep")))
            return out
        if isinstance(op, ast.BitOr):
            if isinstance(a, (Cls, Tup)) and isinstance(b, (Cls, Tup)):
                return [(s, Tup((a.xs if isinstance(a, Tup) else [a]) + (b.xs if isinstance(b, Tup) else [b])))]
            ta, tb = self.to_v(s, a), self.to_v(s, b)
            t = self.fresh(V, "union")
            k = z3.Const("k", K)
            s = self.guard(s, z3.And(isa(ta, "set", "dict"), isa(tb, "set", "dict")), "TypeError")
            if s is None:
                return []
            s.add(z3.Implies(isa(ta, "dict"), T.exact(t, "dict")), z3.Implies(isa(ta, "set"), T.exact(t, "set")),
                  z3.ForAll([k], T.dom(t)[k] == z3.Or(T.dom(ta)[k], T.dom(tb)[k]), patterns=[T.dom(t)[k]]),
                  z3.ForAll([k], T.mp(t)[k] == z3.If(T.dom(tb)[k], T.mp(tb)[k], T.mp(ta)[k]), patterns=[T.mp(t)[k]]))
            self.set_card(s, t)
            return [(s, SV(t, "shallow"))]
        if isinstance(op, ast.Add):
            ta, tb = self.to_v(s, a), self.to_v(s, b)
            out = []
            for s2, y in self.fork(s, z3.And(isa(ta, "str"), isa(tb, "str"))):
                if y:
                    out.append((s2, TV(z3.Function("concat", T.S, T.S, T.S)(T.sv(ta), T.sv(tb)))))
                    continue
                for s3, y2 in self.fork(s2, z3.And(isa(ta, "list", "tuple"), isa(tb, "list", "tuple"))):
                    if y2:
                        out.append((s3, self.list_concat(s3, ta, tb)))
                    else:
                        ok = self.guard(s3, z3.And(isa(ta, "int", "float"), isa(tb, "int", "float")), "TypeError")
                        if ok:
                            n = self.fresh(V, "num")
                            ok.add(z3.Implies(z3.And(isa(ta, "int"), isa(tb, "int")), z3.And(T.exact(n, "int"), T.iv(n) == T.iv(ta) + T.iv(tb))))
                            out.append((ok, SV(n, "deep")))
            return out
        raise Unsupported(f"binop {type(op).__name__}")

    def list_concat(self, st, ta, tb):
        t = self.fresh(V, "cat")
        i = z3.Const("i", I)
        st.add(T.cls(t) == T.cls(ta), T.ln(t) == T.ln(ta) + T.ln(tb), T.ln(ta) >= 0, T.ln(tb) >= 0,
               z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < T.ln(t)),
                                         T.la(t)[i] == z3.If(i < T.ln(ta), T.la(ta)[i], T.la(tb)[i - T.ln(ta)])), patterns=[T.la(t)[i]]))
        return SV(t, "shallow")

    def set_card(self, st, t):
        k = z3.Const("k", K)
        w = self.fresh(K, "wit")
        st.add(T.klen(t) >= 0, z3.Implies(T.klen(t) > 0, T.dom(t)[w]),
               z3.Implies(T.klen(t) == 0, z3.ForAll([k], z3.Not(T.dom(t)[k]), patterns=[T.dom(t)[k]])))

    def e_Compare(self, e, st):
        if len(e.ops) != 1:
            # a < b < c with simple operands
            outs = [(st, None)]
            vals = self.eval_many([e.left] + e.comparators, st)
            out = []
            for s, vs in vals:
                conds = []
                for op, a, b in zip(e.ops, vs, vs[1:]):
                    r = self.compare(s, op, a, b)
                    if len(r) != 1:
                        raise Unsupported("chained compare")
                    s, c = r[0]
                    conds.append(self.truthy(s, c))
                out.append((s, BV(z3.And(conds))))
            return out
        out = []
        for s, (a, b) in self.eval_many([e.left, e.comparators[0]], st):
            out.extend(self.compare(s, e.ops[0], a, b))
        return out

    def mkbool(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        return C(True) if z3.is_true(c) else C(False) if z3.is_false(c) else BV(c)

    def compare(self, s, op, a, b):
        n = type(op).__name__
        if n == "Eq":
            return [(s, self.mkbool(self.equal(s, a, b)))]
        if n == "NotEq":
            return [(s, self.mkbool(z3.Not(self.equal(s, a, b))))]
        if n in ("Is", "IsNot"):
            c = self.identical(s, a, b)
            return [(s, self.mkbool(c if n == "Is" else z3.Not(c)))]
        if n in ("In", "NotIn"):
            out = []
            for s2, c in self.contains(s, b, a):
                out.append((s2, self.mkbool(c if n == "In" else z3.Not(c))))
            return out
        if isinstance(a, C) and isinstance(b, C):
            x = {"Lt": a.x < b.x, "LtE": a.x <= b.x, "Gt": a.x > b.x, "GtE": a.x >= b.x}[n]
            return [(s, C(x))]

        def num(v):
            if isinstance(v, SV):
                t = self.snap(s, v)
                return z3.If(isa(t, "float"), T.rv(t), z3.ToReal(T.iv(t)))
            return z3.ToReal(self.as_int(s, v))
        if all(isinstance(v, (IV, C, BV)) for v in (a, b)):
            x, y = self.as_int(s, a), self.as_int(s, b)
        else:
            x, y = num(a), num(b)
        return [(s, self.mkbool({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n]))]

    def contains(self, st, c, x):
        """[(st, z3 Bool)] for `x in c`"""
        if isinstance(c, C) and isinstance(c.x, (set, frozenset, tuple, list, dict)):
            return [(st, z3.Or([self.equal(st, x, C(y)) for y in sorted(c.x, key=repr)]) if c.x else z3.BoolVal(False))]
        if isinstance(c, C) and isinstance(c.x, str) and isinstance(x, C):
            return [(st, z3.BoolVal(x.x in c.x))]
        if isinstance(c, Tup):
            return [(st, z3.Or([self.equal(st, x, y) for y in c.xs]) if c.xs else z3.BoolVal(False))]
        if isinstance(c, Iter):
            if c.spine is not None:
                return [(st, z3.Or([self.equal(st, x, y) for y in c.spine]) if c.spine else z3.BoolVal(False))]
            if c.kind == "keys":
                c = c.src
        if isinstance(c, (TV,)) or (isinstance(c, C) and isinstance(c.x, str)):
            r = z3.Function("substr_in", T.S, T.S, B)(self.text_of(st, x), self.text_of(st, c))
            return [(st, r)]
        if isinstance(c, SV):
            t = self.snap(st, c)
            k = self.keyterm(st, x)
            out = []
            for s2, isd in self.fork(st, isa(t, "dict", "set", "frozenset")):
                if isd:
                    s2.add(T.klen(t) >= 0, z3.Implies(T.dom(t)[k], T.klen(t) >= 1))
                    out.append((s2, T.dom(t)[k]))
                    continue
                for s3, isl in self.fork(s2, isa(t, "list", "tuple")):
                    if isl:
                        i = z3.Const("i", I)
                        xt = self.to_v(s3, x)
                        r = self.fresh(B, "inlist")
                        w = self.fresh(I, "w")
                        s3.add(z3.Implies(r, z3.And(0 <= w, w < T.ln(t), T.pyeq(xt, T.la(t)[w]))),
                               z3.Implies(z3.Not(r), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < T.ln(t)), z3.Not(T.pyeq(xt, T.la(t)[i]))), patterns=[T.la(t)[i]])))
                        out.append((s3, r))
                    else:
                        for s4, iss in self.fork(s3, isa(t, "str")):
                            if iss:
                                out.append((s4, z3.Function("substr_in", T.S, T.S, B)(self.text_of(s4, x), T.sv(t))))
                            else:
                                ok = self.guard(s4, z3.Not(isa(t, "NoneType", "int", "float")), "TypeError")
                                if ok is not None:
                                    if self.entails(ok, z3.BoolVal(False)):
                                        continue
                                    ok.taint.append("in on opaque object")
                                    out.append((ok, self.fresh(B, "in")))
            return out
        raise Unsupported(f"in on {c}")

    def e_IfExp(self, e, st):
        out = []
        for s, v in self.eval(e.test, st):
            for s2, b in self.fork(s, self.truthy(s, v)):
                out.extend(self.eval(e.body if b else e.orelse, s2))
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            s.env[e.target.id] = v
            out.append((s, v))
        return out

    def e_Lambda(self, e, st):
        return [(st, Fn(st.mod, f"<lambda:{e.lineno}>", e, dict(st.env)))]

    def e_Yield(self, e, st):
        """a generator under contract: handing out a value is an event, resuming yields nothing"""
        if self.cur is None or not self.cur.opts.get("generator") or len(self.stack) != 1 or self.binders:
            raise Unsupported("yield")
        out = []
        for s, v in (self.eval(e.value, st) if e.value is not None else [(st, C(None))]):
            s.log.append(Event("yield", value=self.to_v(s, v)))
            out.append((s, C(None)))
        return out

    def e_Await(self, e, st):
        if isinstance(e.value, ast.Call):
            out = []
            for s, v in self.eval(e.value, st):
                out.extend(self.await_(s, v))
            return out
        out = []
        for s, v in self.eval(e.value, st):
            out.extend(self.await_(s, v))
        return out

    def await_(self, st, v):
        if isinstance(v, Coro):
            return v.thunk(st)
        return self.models.await_value(st, v)

    # -- attribute
    def e_Attribute(self, e, st):
        d = None
        n = e
        while isinstance(n, ast.Attribute):
            n = n.value
        if isinstance(n, ast.Name) and n.id not in st.env:
            d = self.repo.resolve_dotted(self.repo.modules[st.mod], e)
            if d is not None:
                b = self.repo.modules[st.mod].names.get(n.id)
                if b is None or b[0] == "import":
                    if d in T.CLASSES:
                        return [(st, Cls(d))]
                    mod, _, rest = self.repo.split(d)
                    if mod is None:
                        return [(st, Ext(d))]
                    if rest and "." not in rest:
                        if rest in self.repo.modules[mod].names:
                            return [(st, self.lookup_global(st, mod, rest))]
        out = []
        for s, v in self.eval(e.value, st):
            out.extend(self.getattr_(s, v, e.attr))
        return out

    def attr_names(self, c):
        """attributes known for a class, None when open"""
        cache = self.__dict__.setdefault("_attr_cache", {})
        if c not in cache:
            cache[c] = self._attr_names(c)
        return cache[c]

    def _attr_names(self, c):
        if c in T.FIELDS:
            base = {f for f, _, _ in T.FIELDS[c]} | {"_replace", "_asdict", "_fields", "count", "index"}
        elif c in self.repo.classnodes:
            base = set()
        else:
            return None
        m, node = self.repo.classnodes[c]
        for s in ast.walk(node):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                base.add(s.name)
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                base.add(s.target.id)
            if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name) and s.value.id == "self":
                base.add(s.attr)
        if any(p in ("Exception", "dict") for p in T.PARENTS[c]):
            return None
        return base

    def plain_fields(self):
        """data attributes of the plain koreo classes"""
        out = set()
        for c in T.PLAIN:
            if c not in self.repo.classnodes:
                continue
            for s in ast.walk(self.repo.classnodes[c][1]):
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    out.add(s.target.id)
                if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name) and s.value.id == "self":
                    out.add(s.attr)
        return out

    def data_classes(self, name):
        """koreo classes with a data attribute of this name"""
        cache = self.__dict__.setdefault("_data_cache", {})
        if name not in cache:
            out = []
            for c, (m, node) in self.repo.classnodes.items():
                if any(f == name for f, _, _ in T.FIELDS.get(c, ())):
                    out.append(c)
                elif any(isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and s.attr == name and isinstance(s.value, ast.Name) and s.value.id == "self"
                         for s in ast.walk(node)):
                    out.append(c)
            cache[name] = out
        return cache[name]

    PRIMS = ("NoneType", "int", "float", "str", "bytes", "dict", "list", "set")

    TOKEN_ATTRS = ("type", "value", "line", "column", "end_line", "end_column", "pos_in_stream")

    def lacks(self, t, name):
        """condition: t's class is known not to have attribute name"""
        bad = list(self.models.prims_lacking(name))
        for c in self.repo.classnodes:
            a = self.attr_names(c)
            if a is not None and name not in a:
                bad.append(c)
        r = isa(t, *bad) if bad else z3.BoolVal(False)
        return z3.And(r, z3.Not(isa(t, "lark.Token"))) if name in self.TOKEN_ATTRS else r

    def getattr_(self, st, v, name):
        if isinstance(v, Rec):
            if name in v.f:
                return [(st, v.f[name])]
            r = self.koreo_method(v.cls, name)
            if r and any(isinstance(d, ast.Name) and d.id == "property" for d in r[2].decorator_list):
                return self.call_fn(st, Fn(*r), [], {}, None, selfarg=v)
            return [(st, Bound(v, name))]
        if isinstance(v, Ext):
            return [(st, self.dotted(st, f"{v.name}.{name}"))]
        if isinstance(v, Cls):
            if name in ("__qualname__", "__name__"):
                return [(st, C(v.name.split(".")[-1]))]
            return [(st, Bound(v, name))]
        if isinstance(v, SV):
            t = self.snap(st, v)
            if self.models.is_method(name) and self.data_classes(name):
                outs = []
                for s, y in self.fork(st, isa(t, *self.data_classes(name))):
                    if y:
                        r = T.fld(name)(t)
                        outs.append((s, SV(r, "deep" if v.own == "deep" else "borrowed", (v, "attr", name))))
                        self.models.attr_facts(s, v, name, r)
                    else:
                        s = self.guard(s, z3.Not(self.lacks(t, name)), "AttributeError")
                        if s:
                            outs.append((s, Bound(v, name)))
                return outs
            if self.models.is_method(name):
                s = self.guard(st, z3.Not(self.lacks(t, name)), "AttributeError")
                return [(s, Bound(v, name))] if s else []
            s = self.guard(st, z3.Not(self.lacks(t, name)), "AttributeError")
            if s is None:
                return []
            if self.is_koreo_method(name):
                return [(s, Bound(v, name))]
            r = T.fld(name)(t)
            for base, fname, nv in s.attrs:
                if fname == name:
                    r = z3.If(v.t == base, nv, r) if not v.t.eq(base) else nv
            val = SV(r, "deep" if v.own == "deep" else "borrowed", (v, "attr", name))
            self.field_type(s, v, name, r)
            self.models.attr_facts(s, v, name, r)
            return [(s, val)]
        if isinstance(v, (C, TV, Tup, Iter, BV, IV, Fn, Bound)):
            if isinstance(v, C) and v.x is None:
                self.throw(st, "AttributeError")
                return []
            return [(st, Bound(v, name))]
        raise Unsupported(f"attribute {name} of {v}")

    def is_koreo_method(self, name):
        return name in ("combine", "append") or False

    # -- NamedTuple field types (type invariants of prepared structures; reported as an assumption)
    def field_type(self, st, v, name, r):
        t = self.snap(st, v)
        cands = []
        for c, fs in T.FIELDS.items():
            for f, ann, _ in fs:
                if f == name and ann is not None:
                    cands.append((c, ann))
        for c, ann in cands:
            try:
                p = self.type_pred(st, c.rsplit(".", 1)[0], ann, r)
            except Unsupported:
                p = None
            if p is not None:
                self.assumptions.add("NamedTuple fields hold values of their annotated types (prepared structures)")
                st.add(z3.Implies(isa(t, c), p))

    def type_pred(self, st, mod, ann, r, depth=0):
        if isinstance(ann, ast.Constant) and ann.value is None:
            return r == T.NoneV
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            return self.type_pred(st, mod, ast.parse(ann.value, mode="eval").body, r, depth)
        if isinstance(ann, ast.BinOp):
            a, b = self.type_pred(st, mod, ann.left, r, depth), self.type_pred(st, mod, ann.right, r, depth)
            return None if a is None or b is None else z3.Or(a, b)
        if isinstance(ann, ast.Subscript):
            d = self.repo.resolve_dotted(self.repo.modules[mod], ann.value)
            if d in ("koreo.result.UnwrappedOutcome", "koreo.result.Outcome"):
                arg = self.type_pred(st, mod, ann.slice, r, depth)
                non = isa(r, "koreo.result.DepSkip", "koreo.result.Skip", "koreo.result.Retry", "koreo.result.PermFail")
                if d.endswith("Unwrapped" + "Outcome"):
                    return None if arg is None else z3.Or(arg, non)
                return z3.Or(isa(r, "koreo.result.Ok"), non)
            if d in ("typing.Sequence",):
                return isa(r, "list", "tuple")
            if d == "type":
                return isa(r, "type")
            if d == "tuple":
                return isa(r, "tuple")
            return self.type_pred(st, mod, ann.value, r, depth)
        if isinstance(ann, (ast.Name, ast.Attribute)):
            d = self.repo.resolve_dotted(self.repo.modules[mod], ann)
            if isinstance(ann, ast.Name) and d in ("bool", "int", "str", "float", "dict", "list", "set", "tuple"):
                return isa(r, d)
            if d in T.CLASSES:
                return isa(r, d)
            if d == "koreo.result.Outcome":
                return isa(r, "koreo.result.Ok", "koreo.result.DepSkip", "koreo.result.Skip", "koreo.result.Retry", "koreo.result.PermFail")
            if d == "koreo.result.NonOkOutcome":
                return isa(r, "koreo.result.DepSkip", "koreo.result.Skip", "koreo.result.Retry", "koreo.result.PermFail")
            m, _, rest = self.repo.split(d or "")
            if m and rest in self.repo.modules[m].names and self.repo.modules[m].names[rest][0] == "const" and depth < 3:
                x = self.repo.modules[m].names[rest][1]
                if isinstance(x, ast.BinOp):
                    return self.type_pred(st, m, x, r, depth + 1)
        return None

    # -- subscript
    def e_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            out = []
            for s, v in self.eval(e.value, st):
                out.extend(self.slice_(s, v, e.slice))
            return out
        out = []
        for s, v in self.eval(e.value, st):
            if isinstance(v, (Cls, Ext)) or (isinstance(v, Fn)):
                out.append((s, v))
                continue
            for s2, k in self.eval(e.slice, s):
                out.extend(self.getitem(s2, v, k))
        return out

    def slice_(self, st, v, sl):
        def bound(x):
            if x is None:
                return None
            (r,) = self.eval(x, st)
            return r[1]
        lo, hi, step = bound(sl.lower), bound(sl.upper), bound(sl.step)
        if step is not None:
            raise Unsupported("slice step")
        if isinstance(v, Tup) and all(b is None or isinstance(b, C) for b in (lo, hi)):
            return [(st, Tup(v.xs[slice(lo.x if lo else None, hi.x if hi else None)]))]
        if isinstance(v, C) and all(b is None or isinstance(b, C) for b in (lo, hi)):
            return [(st, C(v.x[slice(lo.x if lo else None, hi.x if hi else None)]))]
        if lo is None and hi is None and isinstance(v, SV):
            t0 = self.snap(st, v)
            st = self.guard(st, isa(t0, "list", "tuple"), "TypeError")
            if st is None:
                return []
            t = self.fresh(V, "copy")
            st.add(T.cls(t) == T.cls(t0), T.ln(t) == T.ln(t0), T.la(t) == T.la(t0), T.ln(t) >= 0)
            return [(st, SV(t, "shallow"))]
        if isinstance(v, SV) and all(b is None or isinstance(b, C) and isinstance(b.x, int) for b in (lo, hi)):
            t0 = self.named(st, self.snap(st, v))
            st = self.guard(st, isa(t0, "list", "tuple"), "TypeError")       # (a slice of a text is outside the subset)
            if st is None:
                return []
            n = T.ln(t0)
            clamp = lambda b: z3.If(z3.IntVal(b) < n, z3.IntVal(b), n) if b >= 0 else z3.If(n + b > 0, n + b, z3.IntVal(0))
            a, b = clamp(lo.x if lo else 0), clamp(hi.x) if hi else n
            t, i = self.fresh(V, "slice"), z3.Const(T.fresh_name("i"), I)
            st.add(z3.If(isa(t0, "celtypes.ListType", "list"), T.exact(t, "list"), T.exact(t, "tuple")), T.ln(t) == z3.If(b > a, b - a, 0),
                   z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < T.ln(t)), T.la(t)[i] == T.la(t0)[i + a]), patterns=[T.la(t)[i]]))
            return [(st, SV(t, "shallow"))]
        raise Unsupported("slice")

    def getitem(self, st, v, k):
        if isinstance(v, Tup):
            if isinstance(k, C) and isinstance(k.x, int):
                if -len(v.xs) <= k.x < len(v.xs):
                    return [(st, v.xs[k.x])]
                self.throw(st, "IndexError")
                return []
            v = SV(self.to_v(st, v), "shallow")
        if isinstance(v, C) and isinstance(v.x, (str, tuple)) and isinstance(k, C):
            return [(st, C(v.x[k.x]))]
        if isinstance(v, C) and isinstance(v.x, dict):
            v = SV(self.to_v(st, v))
        if isinstance(v, SV):
            t = self.snap(st, v)
            out = []
            if v.origin and v.origin[1] == "global" and v.origin[2] == "defaultdict":
                st = st.copy().add(T.exact(t, "defaultdict"))
            for s, isd in self.fork(st, isa(t, "dict")):
                if isd:
                    kk = self.keyterm(s, k)
                    s2 = s
                    if not (v.origin and v.origin[1] == "global" and v.origin[2] == "defaultdict"):
                        s2 = self.guard(s, T.dom(t)[kk], "KeyError")
                        if s2 is None:
                            continue
                        r = T.mp(t)[kk]
                        own = "deep" if v.own == "deep" else "borrowed"
                        s2.add(T.klen(t) >= 1)
                        self.models.item_facts(s2, v, "item", kk, r, z3.BoolVal(True))
                        out.append((s2, SV(r, own, (v, "item", kk))))
                    elif not self.feasible(s, [z3.Not(T.dom(t)[kk])]):
                        if self.entails(s, isa(T.mp(t)[kk], "set")):
                            s.add(isa(T.mp(t)[kk], "set"))
                        out.append((s, SV(T.mp(t)[kk], v.own, (v, "item", kk))))
                    else:
                        # defaultdict(set): a missing key gets an empty set, which is stored
                        r = self.fresh(V, "dd")
                        if not self.entails(s2, z3.Implies(T.dom(t)[kk], isa(T.mp(t)[kk], "set"))):
                            raise Unsupported("a default dictionary of something else than sets")
                        s2.add(isa(r, "set"), z3.Implies(T.dom(t)[kk], r == T.mp(t)[kk]),
                               z3.Implies(z3.Not(T.dom(t)[kk]), z3.And(T.dom(r) == z3.K(K, z3.BoolVal(False)), T.klen(r) == 0)))
                        v0 = SV(v.t, "deep", v.origin)
                        self.mutate(s2, v0, self.dict_store(s2, t, kk, r), "defaultdict")
                        out.append((s2, SV(r, v.own, (v, "item", kk))))
                    continue
                for s2, isl in self.fork(s, isa(t, "list", "tuple")):
                    if isl:
                        s2, idx = self.index_int(s2, k)
                        if s2 is None:
                            continue
                        eff = idx if z3.is_const(idx) and self.entails(s2, idx >= 0) else z3.If(idx < 0, T.ln(t) + idx, idx)
                        s3 = self.guard(s2, z3.And(0 <= eff, eff < T.ln(t)), "IndexError")
                        if s3 is not None:
                            self.models.item_facts(s3, v, "index", eff, T.la(t)[z3.simplify(eff)], z3.BoolVal(True))
                            out.append((s3, SV(T.la(t)[z3.simplify(eff)], "deep" if v.own == "deep" else "borrowed", (v, "index", eff))))
                    else:
                        for s3, iss in self.fork(s2, isa(t, "str")):
                            if iss:
                                if isinstance(k, C) and isinstance(k.x, int):
                                    s4 = self.guard(s3, T.sv(t) != lit(""), "IndexError") if k.x in (0, -1) else s3
                                    if s4 is not None:
                                        out.append((s4, TV(z3.Function("charat", T.S, I, T.S)(T.sv(t), z3.IntVal(k.x)))))
                                else:
                                    s4, idx = self.index_int(s3, k)
                                    if s4 is not None:
                                        n = z3.Function("slen", T.S, I)(T.sv(t))
                                        s4 = self.guard(s4, z3.And(-n <= idx, idx < n), "IndexError")
                                        if s4 is not None:
                                            out.append((s4, TV(z3.Function("charat", T.S, I, T.S)(T.sv(t), idx))))
                            else:
                                s4 = self.guard(s3, z3.Not(isa(t, "NoneType", "int", "float", "celpy.CELEvalError")), "TypeError")
                                if s4 is not None:
                                    if self.entails(s4, z3.BoolVal(False)):
                                        continue
                                    s4.taint.append("subscript of opaque object")
                                    out.append((s4, SV(self.fresh(V, "item"))))
            return out
        raise Unsupported(f"subscript of {v}")

    # -- comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen")

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        out = []
        srcs = self.eval(g.iter, st)
        if g.is_async:
            # an asynchronous iterable is modelled by the list of everything it yields
            srcs = [x for s, src in srcs for x in self.async_items(s, src)]
        for s, src in srcs:
            it = self.iterate(s, src)
            if it is None:
                continue
            its = it if isinstance(it, list) else [(s, it)]
            for s1, it1 in its:
                if it1.spine is not None:
                    out.extend(self.comp_concrete(e, g, s1, it1.spine, kind))
                else:
                    out.extend(self.comp_symbolic(e, g, s1, it1, kind))
        return out

    def async_items(self, st, src):
        if not isinstance(src, Coro):
            raise Unsupported("async comprehension")
        return src.thunk(st)

    def comp_concrete(self, e, g, st, spine, kind):
        saved = dict(st.env)
        states = [(st, [])]
        for x in spine:
            nxt = []
            for s, acc in states:
                for s2, ok in self.bind_target(s, g.target, x):
                    conds = [(s2, True)]
                    for c in g.ifs:
                        c2 = []
                        for s3, alive in conds:
                            if not alive:
                                c2.append((s3, False))
                                continue
                            for s4, v in self.eval(c, s3):
                                c2.extend(self.fork(s4, self.truthy(s4, v)))
                        conds = c2
                    for s3, alive in conds:
                        if not alive:
                            nxt.append((s3, acc))
                        elif kind == "dict":
                            for s4, (k, v) in self.eval_many([e.key, e.value], s3):
                                nxt.append((s4, acc + [(k, v)]))
                        else:
                            for s4, v in self.eval(e.elt, s3):
                                nxt.append((s4, acc + [v]))
            states = nxt
        out = []
        for s, acc in states:
            s.env = dict(saved)
            if kind == "list":
                out.append((s, self.new_list(s, acc)))
            elif kind == "set":
                out.append((s, self.new_set(s, acc)))
            elif kind == "dict":
                out.append((s, self.new_dict(s, acc)))
            else:
                out.append((s, Iter(z3.IntVal(len(acc)), None, spine=acc, kind="gen")))
        return out

    def comp_symbolic(self, e, g, st, it, kind):
        """closed form: element i of the source is evaluated once, for a symbolic i"""
        i = z3.Const(T.fresh_name("i"), I)
        sub = st.copy()
        inrange = z3.And(0 <= i, i < it.n)
        sub.add(inrange)
        mark = len(sub.pc)
        self.binders.append(i)
        self.sinks.append([])
        rows = []      # (path facts, kept?, key term, value term)
        try:
            for s2, ok in self.bind_target(sub, g.target, it.elem(sub, i)):
                conds = [(s2, True)]
                for c in g.ifs:
                    c2 = []
                    for s3, alive in conds:
                        if not alive:
                            c2.append((s3, False))
                            continue
                        for s4, v in self.eval(c, s3):
                            c2.extend(self.fork(s4, self.truthy(s4, v)))
                    conds = c2
                for s3, alive in conds:
                    if not alive:
                        rows.append((s3.pc[mark:], False, None, None, s3))
                    elif kind == "dict":
                        for s4, (k, v) in self.eval_many([e.key, e.value], s3):
                            s4 = self.guard(s4, z3.Not(self.unhashable(s4, k)), "TypeError")
                            if s4 is None:
                                continue
                            kt, vt = self.keyterm(s4, k), self.to_v(s4, v)
                            rows.append((s4.pc[mark:], True, kt, vt, s4))
                    else:
                        for s4, v in self.eval(e.elt, s3):
                            if kind == "set":
                                s4 = self.guard(s4, z3.Not(self.unhashable(s4, v)), "TypeError")
                                if s4 is None:
                                    continue
                            vt = self.to_v(s4, v)
                            kt = self.keyterm(s4, v) if kind == "set" else None
                            rows.append((s4.pc[mark:], True, kt, vt, s4))
        finally:
            self.binders.pop()
            excs = self.sinks.pop()
        for r in rows:
            if len(r[4].log) != len(st.log):
                raise Unsupported("effects inside a comprehension")
            if any(st.content.get(k, (None, None))[1] is not v[1] for k, v in r[4].content.items() if k in st.content):
                raise Unsupported("mutation inside a comprehension")
        outs = []
        # exceptional: some element raises
        for s_exc, val in excs:
            s2 = st.copy()
            w = self.fresh(I, "wexc")
            for f in s_exc.pc[mark - 1:]:
                s2.add(z3.substitute(f, (i, w)))
            if isinstance(val, SV):
                val = SV(z3.substitute(val.t, (i, w)), val.own)
            if self.feasible(s2):
                s2.env = dict(st.env)
                self.sinks[-1].append((s2, val))
        s = st
        paths = [z3.And([f for f in r[0]]) if r[0] else z3.BoolVal(True) for r in rows]
        if not rows:
            s.add(it.n == 0)
        t = self.fresh(V, "comp")
        if kind == "list" and g.ifs and isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id \
                and it.src is not None and all(isinstance(x, (ast.Name, ast.Load)) and getattr(x, "id", g.target.id) == g.target.id for c in g.ifs for x in ast.walk(c)):
            t = z3.Function("truthy_items", V, V)(it.src)      # a function of the list alone
        q = lambda body, pats=None: z3.ForAll([i], z3.Implies(inrange, body), patterns=pats or [])
        for r in rows:
            for x in r[4].taint[len(st.taint):]:
                if x not in s.taint:
                    s.taint.append(x)
        filtered = bool(g.ifs)
        if kind in ("list", "gen"):
            if not filtered:
                s.add(T.exact(t, "list"), T.ln(t) == it.n, it.n >= 0)
                if rows:
                    body = z3.Or([z3.And(p, T.la(t)[i] == r[3]) for p, r in zip(paths, rows)])
                    pats = [T.la(t)[i]]
                    s.add(q(body, pats + self.src_pats(it, i)))
                res = SV(t, "shallow")
            else:
                # filtered: idx mapping result position -> source index, strictly increasing, onto the kept ones
                pos = z3.Function(T.fresh_name("pos"), *[b.sort() for b in self.binders], I, I)
                src = z3.Function(T.fresh_name("src"), *[b.sort() for b in self.binders], I, I)
                P = lambda x: pos(*self.binders, x)
                Sx = lambda x: src(*self.binders, x)
                kept = z3.Or([p for p, r in zip(paths, rows) if r[1]]) if any(r[1] for r in rows) else z3.BoolVal(False)
                j, j2 = z3.Const(T.fresh_name("j"), I), z3.Const(T.fresh_name("j2"), I)
                s.add(T.exact(t, "list"), T.ln(t) >= 0, T.ln(t) <= it.n)
                Kp = z3.Function(T.fresh_name("kept"), *[b.sort() for b in self.binders], I, B)
                s.add(q(Kp(*self.binders, i) == kept, [Kp(*self.binders, i)] + self.src_pats(it, i)),
                      z3.ForAll([i], z3.Implies(z3.And(inrange, Kp(*self.binders, i)), z3.And(0 <= P(i), P(i) < T.ln(t), Sx(P(i)) == i)), patterns=[P(i)] + [Kp(*self.binders, i)]),
                      z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T.ln(t)), z3.And(0 <= Sx(j), Sx(j) < it.n, Kp(*self.binders, Sx(j)), P(Sx(j)) == j)), patterns=[Sx(j), T.la(t)[j]]),
                      z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < T.ln(t)), Sx(j) < Sx(j2)), patterns=[z3.MultiPattern(Sx(j), Sx(j2))]))
                body = z3.Or([z3.And(p, T.la(t)[P(i)] == r[3]) if r[1] else p for p, r in zip(paths, rows)])
                s.add(q(body, [P(i)]))
                self.comp_info[t.get_id()] = (P, Sx, it, t)
                res = SV(t, "shallow")
            outs.append((s, res if kind == "list" else self.iter_of_list(s, res, "gen")))
        elif kind == "set":
            k = z3.Const(T.fresh_name("k"), K)
            wit = z3.Function(T.fresh_name("wit"), *[b.sort() for b in self.binders], K, I)
            W = lambda x: wit(*self.binders, x)
            s.add(T.exact(t, "set"))
            for p, r in zip(paths, rows):
                pass
            body = z3.Or([z3.And(p, T.dom(t)[r[2]]) if r[1] else p for p, r in zip(paths, rows)]) if rows else z3.BoolVal(True)
            sp = self.src_pats(it, i)
            s.add(q(body, sp) if sp else q(body))
            back = z3.Or([z3.And(z3.substitute(p, (i, W(k))), k == z3.substitute(r[2], (i, W(k)))) for p, r in zip(paths, rows) if r[1]]) if any(r[1] for r in rows) else z3.BoolVal(False)
            s.add(z3.ForAll([k], z3.Implies(T.dom(t)[k], z3.And(0 <= W(k), W(k) < it.n, back)), patterns=[T.dom(t)[k]]))
            self.set_card(s, t)
            outs.append((s, SV(t, "shallow")))
        else:
            k = z3.Const(T.fresh_name("k"), K)
            wit = z3.Function(T.fresh_name("wit"), *[b.sort() for b in self.binders], K, I)
            W = lambda x: wit(*self.binders, x)
            s.add(T.exact(t, "dict"), T.klen(t) >= 0)
            keys_are_src = bool(rows) and it.kind == "dict" and all((not r[1]) or self.same_key(r[2], it, i) for r in rows)
            sp = self.src_pats(it, i)
            if keys_are_src:
                # exact closed form over keys of the source
                body = z3.Or([z3.And(p, T.dom(t)[T.key(T.kat(it.src, i))], T.mp(t)[T.key(T.kat(it.src, i))] == r[3]) if r[1]
                              else z3.And(p, z3.Not(T.dom(t)[T.key(T.kat(it.src, i))])) for p, r in zip(paths, rows)])
                s.add(q(body, sp) if sp else q(body))
                if not filtered:
                    s.add(T.klen(t) == it.n)
                    if getattr(self, "ordered", False):
                        s.add(q(T.kat(t, i) == T.kat(it.src, i), [T.kat(t, i)]))
                s.add(z3.ForAll([k], z3.Implies(T.dom(t)[k], z3.And(T.dom(it.src)[k], 0 <= T.kidx(it.src, k), T.kidx(it.src, k) < it.n,
                                                                     T.key(T.kat(it.src, T.kidx(it.src, k))) == k)), patterns=[T.dom(t)[k]]))
            else:
                back = z3.Or([z3.And(z3.substitute(p, (i, W(k))), k == z3.substitute(r[2], (i, W(k))), T.mp(t)[k] == z3.substitute(r[3], (i, W(k)))) for p, r in zip(paths, rows) if r[1]]) if any(r[1] for r in rows) else z3.BoolVal(False)
                fwd = z3.Or([z3.And(p, T.dom(t)[r[2]]) if r[1] else p for p, r in zip(paths, rows)]) if rows else z3.BoolVal(True)
                s.add(q(fwd, sp) if sp else q(fwd))
                s.add(z3.ForAll([k], z3.Implies(T.dom(t)[k], z3.And(0 <= W(k), W(k) < it.n, back)), patterns=[T.dom(t)[k]]))
            self.set_card(s, t)
            outs.append((s, SV(t, "shallow")))
        return outs

    def same_key(self, kt, it, i):
        return z3.simplify(kt).eq(z3.simplify(T.key(T.kat(it.src, i))))

    def src_pats(self, it, i):
        if getattr(it, "src", None) is None or self.has_ite(it.src):
            return []
        if it.kind == "dict":
            return [T.kat(it.src, i)]
        if getattr(it, "src", None) is not None and it.kind in ("seq", "gen"):
            return [T.la(it.src)[i]]
        return []

    def has_ite(self, t):
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY):
                return True
            todo.extend(x.children())
        return False

    # -- iteration
    def named(self, st, t):
        """a term usable in patterns"""
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                n = self.fresh(V, "named")
                st.add(n == t)
                return n
            todo.extend(x.children())
        return t

    def iter_of_list(self, st, v, kind="seq"):
        t = self.named(st, self.snap(st, v))
        own = "deep" if v.own == "deep" else "borrowed"

        def elem(s, i):
            self.models.item_facts(s, v, "index", i, T.la(t)[i], z3.And(0 <= i, i < T.ln(t)))
            return SV(T.la(t)[i], own, (v, "index", i))
        it = SeqIter(T.ln(t), elem, kind=kind)
        it.src = t
        st.add(T.ln(t) >= 0)
        return it

    def iter_of_dict(self, st, v, what):
        t = self.named(st, self.snap(st, v))
        own = "deep" if v.own == "deep" else "borrowed"
        k = z3.Const("k", K)
        st.add(T.klen(t) >= 0, z3.ForAll([k], z3.Implies(T.dom(t)[k], z3.And(0 <= T.kidx(t, k), T.kidx(t, k) < T.klen(t), T.key(T.kat(t, T.kidx(t, k))) == k)),
                                        patterns=[T.dom(t)[k]]))

        def elem(s, i):
            kv = T.kat(t, i)
            s.add(z3.Implies(z3.And(0 <= i, i < T.klen(t)), z3.And(T.dom(t)[T.key(kv)], T.kidx(t, T.key(kv)) == i)))
            s.add(*T.key_facts(kv))
            s.add(z3.Implies(z3.And(0 <= i, i < T.klen(t)), z3.Not(isa(kv, "dict", "list", "set"))))     # a dictionary key is hashable
            kx = SV(kv)
            self.models.item_facts(s, v, "item", T.key(kv), T.mp(t)[T.key(kv)], z3.And(0 <= i, i < T.klen(t)))
            vx = SV(T.mp(t)[T.key(kv)], own, (v, "item", T.key(kv)))
            return {"keys": kx, "values": vx, "items": Tup([kx, vx])}[what]
        it = SeqIter(T.klen(t), elem, kind="dict")
        it.src = t
        it.srcv = v
        return it

    def iterate(self, st, v):
        """Iter for value v (the caller must be prepared for None when it certainly raises)"""
        if isinstance(v, Iter):
            return v
        if isinstance(v, Tup):
            return SeqIter(z3.IntVal(len(v.xs)), None, spine=v.xs)
        if isinstance(v, C):
            if isinstance(v.x, (tuple, list)):
                return SeqIter(z3.IntVal(len(v.x)), None, spine=[C(y) for y in v.x])
            if isinstance(v.x, (set, frozenset, dict)):
                xs = sorted(v.x)
                return SeqIter(z3.IntVal(len(xs)), None, spine=[C(y) for y in xs])
            if v.x is None or isinstance(v.x, (int, float)):
                self.throw(st, "TypeError")
                return None
        if isinstance(v, SV):
            t = self.snap(st, v)
            outs = []
            for s, isl in self.fork(st, isa(t, "list", "tuple")):
                if isl:
                    outs.append((s, self.iter_of_list(s, v)))
                    continue
                for s2, isd in self.fork(s, isa(t, "dict", "set", "frozenset")):
                    if isd:
                        outs.append((s2, self.iter_of_dict(s2, v, "keys")))
                    else:
                        s3 = self.guard(s2, z3.Not(isa(t, "NoneType", "int", "float", "type")), "TypeError")
                        if s3 is not None:
                            if self.entails(s3, z3.BoolVal(False)):
                                continue
                            s3.taint.append("iteration over an opaque object")
                            n = self.fresh(I, "n")
                            f = z3.Function(T.fresh_name("opaque_elem"), I, V)
                            s3.add(n >= 0)
                            outs.append((s3, SeqIter(n, lambda s_, i: SV(f(i)))))
            return outs
        raise Unsupported(f"iteration over {v}")

    def bind_target(self, st, tgt, val):
        """[(st, True)]"""
        if isinstance(tgt, ast.Name):
            st.env[tgt.id] = val
            return [(st, True)]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            if isinstance(val, SV):
                t = self.snap(st, val)
                if any(isinstance(x, ast.Starred) for x in tgt.elts):
                    raise Unsupported("starred target")
                recs = [c for c in T.RECORDS if len(T.FIELDS[c]) == len(tgt.elts)]
                outs = []
                for s, isr in (self.fork(st, isa(t, *recs)) if recs else [(st, False)]):
                    if isr:
                        xs = []
                        for idx in range(len(tgt.elts)):
                            r = self.fresh(V, "unp")
                            for c in recs:
                                fname = T.FIELDS[c][idx][0]
                                s.add(z3.Implies(isa(t, c), r == T.fld(fname)(t)))
                            xs.append(SV(r, val.own))
                        outs.extend(self.bind_target(s, tgt, Tup(xs)))
                        continue
                    s2 = self.guard(s, isa(t, "list", "tuple"), "TypeError")
                    if s2 is None:
                        continue
                    s2 = self.guard(s2, T.ln(t) == len(tgt.elts), "ValueError")
                    if s2 is None:
                        continue
                    outs.extend(self.bind_target(s2, tgt, Tup([SV(T.la(t)[i], val.own, (val, "index", z3.IntVal(i))) for i in range(len(tgt.elts))])))
                return outs
            if isinstance(val, Rec) and val.cls in T.RECORDS:
                val = Tup([val.f[f] for f, _, _ in T.FIELDS[val.cls]])
            if isinstance(val, Tup):
                if any(isinstance(x, ast.Starred) for x in tgt.elts):
                    idx = [isinstance(x, ast.Starred) for x in tgt.elts].index(True)
                    rest = len(tgt.elts) - idx - 1
                    xs = val.xs[:idx] + [self.new_list(st, val.xs[idx: len(val.xs) - rest])] + (val.xs[-rest:] if rest else [])
                    states = [(st, True)]
                    for x, v in zip(tgt.elts, xs):
                        x = x.value if isinstance(x, ast.Starred) else x
                        states = [r for s, _ in states for r in self.bind_target(s, x, v)]
                    return states
                if len(val.xs) != len(tgt.elts):
                    self.throw(st, "ValueError")
                    return []
                states = [(st, True)]
                for x, v in zip(tgt.elts, val.xs):
                    states = [r for s, _ in states for r in self.bind_target(s, x, v)]
                return states
            raise Unsupported(f"unpack {val}")
        if isinstance(tgt, ast.Subscript):
            outs = []
            for s, o in self.eval(tgt.value, st):
                for s2, k in self.eval(tgt.slice, s):
                    outs.extend(self.setitem(s2, o, k, val))
            return outs
        if isinstance(tgt, ast.Attribute):
            outs = []
            for s, o in self.eval(tgt.value, st):
                outs.extend(self.setattr_(s, o, tgt.attr, val))
            return outs
        raise Unsupported(f"target {type(tgt).__name__}")

    def setitem(self, st, o, k, val):
        if isinstance(o, SV):
            t = self.snap(st, o)
            outs = []
            for s, isd in self.fork(st, isa(t, "dict")):
                if isd:
                    kk = self.keyterm(s, k)
                    vt = self.to_v(s, val)
                    self.mutate(s, o, self.dict_store(s, t, kk, vt), "item assignment")
                    outs.append((s, True))
                else:
                    s2 = self.guard(s, isa(t, "list"), "TypeError")
                    if s2 is None:
                        continue
                    s2, idx = self.index_int(s2, k)
                    if s2 is None:
                        continue
                    s2 = self.guard(s2, z3.And(-T.ln(t) <= idx, idx < T.ln(t)), "IndexError")
                    if s2 is None:
                        continue
                    eff = z3.If(idx < 0, T.ln(t) + idx, idx)
                    n = self.fresh(V, "lst")
                    s2.add(T.cls(n) == T.cls(t), T.ln(n) == T.ln(t), T.la(n) == z3.Store(T.la(t), eff, self.to_v(s2, val)))
                    self.mutate(s2, o, n, "item assignment")
                    outs.append((s2, True))
            return outs
        raise Unsupported(f"item assignment on {o}")

    def setattr_(self, st, o, name, val):
        if isinstance(o, Rec):
            if o.cls in T.RECORDS:
                self.throw(st, "AttributeError")
                return []
            for nm, x in list(st.env.items()):
                if x is o and self.stack and self.stack[-1][1] == o.cls.rsplit(".", 1)[-1]:
                    st.env[nm] = Rec(o.cls, {**o.f, name: val})     # inside __init__: functional update of self
                    return [(st, True)]
            raise Unsupported("attribute assignment on a locally built object")
        if isinstance(o, SV):
            t = self.snap(st, o)
            if o.own == "deep":
                pass
            else:
                st.muts.append((o.t, f"attribute {name}", o.t))
            nv = self.to_v(st, val)
            if T.PLAIN and self.entails(st, isa(t, *T.PLAIN)):
                # what anyone who is handed the object from now on sees
                n = self.fresh(V, "obj")
                st.add(T.cls(n) == T.cls(t), *[T.fld(f)(n) == (nv if f == name else T.fld(f)(t)) for f in self.plain_fields() | {name}])
                st.content[o.t.get_id()] = (o.t, n)
            st.attrs.append((o.t, name, nv))
            return [(st, True)]
        if isinstance(o, Ext):
            return [(st, True)]
        raise Unsupported(f"attribute assignment on {o}")


class SeqIter(Iter):
    __slots__ = ("src", "srcv", "what")

    def __init__(self, n, elem, spine=None, kind="seq"):
        super().__init__(n, elem, spine, kind)
        self.src = None
        self.srcv = None
