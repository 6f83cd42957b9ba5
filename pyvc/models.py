"""Assumed contracts of Python built-ins and external libraries (everything here is trusted; check.py reports it)."""
import ast
import z3
from . import theory as T
from .theory import V, K, I, B, isa, lit

STR_METHODS = {"join", "startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "format", "isdecimal",
               "isdigit", "removeprefix", "encode", "find", "partition", "title", "capitalize", "casefold"}
DICT_METHODS = {"get", "items", "keys", "values", "update", "pop", "copy", "setdefault", "popitem", "clear"}
LIST_METHODS = {"append", "extend", "copy", "index", "pop", "insert", "remove", "sort", "reverse", "clear", "count"}
SET_METHODS = {"add", "remove", "discard", "difference", "intersection", "union", "issubset", "copy", "pop", "clear", "update", "isdisjoint"}
OBJ_METHODS = {"evaluate": ("celpy.Runner",), "compile": ("celpy.Environment",), "program": ("celpy.Environment",),
               "put_nowait": ("asyncio.Queue",), "get_nowait": ("asyncio.Queue",), "task_done": ("asyncio.Queue",), "empty": ("asyncio.Queue",),
               "shutdown": ("asyncio.Queue",), "setLevel": (), "cancel": ("asyncio.Task",), "done": ("asyncio.Task",), "cancelled": ("asyncio.Task",),
               "exception": ("asyncio.Task",), "result": ("asyncio.Task",), "add_done_callback": ("asyncio.Task",), "get_name": ("asyncio.Task",),
               "set": ("asyncio.Event",), "wait": ("asyncio.Event",), "is_set": ("asyncio.Event",),
               "is_integer": ("float",), "patch": ("kr8s.APIObject",), "delete": ("kr8s.APIObject",), "create": ("kr8s.APIObject",), "refresh": ("kr8s.APIObject",),
               "match": ("re.Pattern",), "fullmatch": ("re.Pattern",), "group": ("re.Match",), "_replace": (), "async_get": ("kr8s.Api",), "async_lookup_kind": ("kr8s.Api",), "lookup_kind": ("kr8s.Api",)}
METHODS = STR_METHODS | DICT_METHODS | LIST_METHODS | SET_METHODS | set(OBJ_METHODS)

TRUSTED = {}


def trusted(name, text):
    TRUSTED[name] = text


def regex_shape(text):
    """(literal prefix, group name, characters ending the group) of  prefix(?P<name>[^...]*)  or  prefix(?P<name>.*), else None"""
    import re._parser as P
    import re._constants as K_
    try:
        items = list(P.parse(text))
    except Exception:
        return None
    prefix = ""
    while items and items[0][0] is K_.LITERAL:
        prefix += chr(items.pop(0)[1])
    if len(items) != 1 or items[0][0] is not K_.SUBPATTERN or not prefix:
        return None
    num, _, _, body = items[0][1]
    names = {v: k for k, v in P.parse(text).state.groupdict.items()}
    if num not in names or len(body) != 1 or body[0][0] is not K_.MAX_REPEAT:
        return None
    lo, hi, what = body[0][1]
    if lo != 0 or hi is not K_.MAXREPEAT or len(what) != 1:
        return None
    op, arg = what[0]
    if op is K_.ANY:
        return prefix, names[num], "\n"
    if op is K_.NOT_LITERAL:
        return prefix, names[num], chr(arg)
    if op is K_.IN and arg[0][0] is K_.NEGATE and all(o is K_.LITERAL for o, _ in arg[1:]):
        return prefix, names[num], "".join(sorted(chr(c) for _, c in arg[1:]))
    return None


class Models:
    def __init__(self, eng):
        self.eng = eng
        self.used = set()
        self.ext = {}          # extra external-function models (name -> fn(eng, st, args, kw, node))
        self.meth = {}         # extra method models (name -> fn(eng, st, obj, args, kw, node))
        self.values = None     # hook for calling symbolic values
        self.regexes = {}
        self.attr_hook = None
        self.item_hook = None      # (eng, st, container SV, "item"|"index", key term, element term, presence condition)
        self.await_hook = None
        self.with_hook = None
        self.async_for_hook = None

    def note(self, what):
        self.used.add(what)

    def is_method(self, name):
        return name in METHODS or name in self.meth

    def prims_lacking(self, name):
        import builtins
        out = [p for p in ("NoneType", "int", "float", "str", "bytes", "dict", "list", "set") if not hasattr(type(None) if p == "NoneType" else getattr(builtins, p), name)]
        if name == "__class__":
            return []
        return out

    def item_facts(self, st, v, how, key, r, present):
        if self.item_hook and st.content.get(v.t.get_id(), (None, v.t))[1].eq(v.t):
            self.item_hook(self.eng, st, v, how, key, r, present)

    def attr_facts(self, st, v, name, r):
        if name == "logger":
            self.note("celpy runners have a logger")
            st.add(z3.Implies(isa(v.t, "celpy.Runner"), T.exact(r, "object_")))
        if self.attr_hook:
            self.attr_hook(self.eng, st, v, name, r)

    # ------------------------------------------------------------------------------------------------ awaits / with
    def await_value(self, st, v):
        if self.await_hook:
            r = self.await_hook(self.eng, st, v)
            if r is not None:
                return r
        from .engine import Unsupported
        raise Unsupported(f"await of {v}")

    def with_item(self, st, cm, item, body, n):
        from .engine import Unsupported
        if self.with_hook:
            r = self.with_hook(self.eng, st, cm, item, body, n)
            if r is not None:
                return r
        raise Unsupported(f"context manager {cm}")

    def async_for(self, n, st):
        from .engine import Unsupported
        if self.async_for_hook:
            return self.async_for_hook(self.eng, n, st)
        raise Unsupported("async for")

    def call_value(self, st, f, args, kw, node):
        from .engine import Unsupported
        if self.values:
            r = self.values(self.eng, st, f, args, kw, node)
            if r is not None:
                return r
        raise Unsupported("call of an unknown value")

    # ------------------------------------------------------------------------------------------------ constructors
    def construct(self, st, name, args, kw, node):
        from .engine import C, SV, TV, IV, BV, Tup, Iter, Cls, Unsupported
        e = self.eng
        if name in self.ext:
            return self.ext[name](e, st, args, kw, node)
        if name in ("celtypes.MapType", "dict", "defaultdict"):
            cname = "dict" if name == "defaultdict" else name
            if name == "defaultdict":
                return [(st, e.new_dict(st, []))]
            if kw:
                return [(st, e.new_dict(st, [(C(k), v) for k, v in kw.items()], cname))]
            if not args:
                return [(st, e.new_dict(st, [], cname))]
            a = args[0]
            if isinstance(a, SV):
                t = e.snap(st, a)
                s = e.guard(st, isa(t, "dict"), "TypeError")
                if s is None:
                    return []
                n = e.fresh(V, "dcopy")
                s.add(T.exact(n, cname), T.dom(n) == T.dom(t), T.mp(n) == T.mp(t), T.klen(n) == T.klen(t))
                self.dict_link(s, n, t)
                return [(s, SV(n, "shallow"))]
            raise Unsupported(f"{name}(...)")
        if name in ("celtypes.ListType", "list", "tuple", "set", "frozenset", "sorted"):
            if not args:
                return [(st, e.new_set(st, []) if name in ("set", "frozenset") else Tup([]) if name == "tuple" else e.new_list(st, [], name))]
            a = args[0]
            it = e.iterate(st, a)
            if it is None:
                return []
            outs = []
            for s, i in (it if isinstance(it, list) else [(st, it)]):
                if name in ("set", "frozenset"):
                    s = self.guard_hashable(s, i)
                    if s is None:
                        continue
                outs.append((s, self.collect(s, i, name)))
            return outs
        if name in ("celtypes.StringType", "str"):
            if not args:
                return [(st, C(""))]
            a = args[0]
            if isinstance(a, C):
                a = C(str(a.x))
                if name == "str":
                    return [(st, a)]
            tt = e.text_of(st, a)
            if name == "str":
                return [(st, TV(tt))]
            t = z3.Function("mkcelstr", T.S, V)(tt)
            st.add(T.exact(t, "celtypes.StringType"), T.sv(t) == tt)
            return [(st, SV(t, "deep"))]
        if name in ("celtypes.IntType", "celtypes.UintType", "int"):
            a = args[0] if args else C(0)
            if isinstance(a, (IV, BV)) or isinstance(a, C) and isinstance(a.x, (int, bool)):
                x = e.as_int(st, a)
                if name == "int":
                    return [(st, IV(x))]
                t = z3.Function("mk" + name, I, V)(x)
                st.add(T.exact(t, name), T.iv(t) == x)
                return [(st, SV(t, "deep"))]
            # text or symbolic: may raise ValueError / TypeError
            t = e.to_v(st, a)
            ok = z3.Function("int_ok", V, B)(t)
            isn = isa(t, "int")
            st.add(z3.Implies(isn, ok), z3.Implies(z3.And(isa(t, "float"), z3.Function("whole", z3.RealSort(), B)(T.rv(t))), ok))
            e.throw(st, "ValueError", z3.And(z3.Not(ok), isa(t, "str", "bytes", "float")))
            e.throw(st, "TypeError", z3.Not(z3.Or(ok, isa(t, "str", "bytes", "float"))))
            s = st.copy().add(ok)
            if not e.feasible(s):
                return []
            x = e.fresh(I, "int")
            g = z3.Function("int_of", V, I)
            s.add(x == g(t), z3.Implies(isn, g(t) == T.iv(t)), z3.Implies(isa(t, "float"), g(t) == z3.Function("whole_number", z3.RealSort(), I)(T.rv(t))))
            if name == "int":
                return [(s, IV(g(t)))]
            r = e.fresh(V, "celint")
            s.add(T.exact(r, name), T.iv(r) == g(t))
            return [(s, SV(r, "deep"))]
        if name in ("bool", "celtypes.BoolType"):
            b = e.truthy(st, args[0]) if args else z3.BoolVal(False)
            if name == "bool":
                return [(st, e.mkbool(b))]
            r = e.fresh(V, "celbool")
            st.add(T.exact(r, name), T.iv(r) == z3.If(b, 1, 0))
            return [(st, SV(r, "deep"))]
        if name == "type" and len(args) == 1:
            a = args[0]
            if isinstance(a, SV):
                t = z3.Function("typeof", V, V)(e.snap(st, a))
                st.add(T.exact(t, "type"), z3.Function("classid", V, I)(t) == T.cls(e.snap(st, a)))
                return [(st, SV(t))]
            return [(st, Cls(e.clsname(a)))]
        if name == "float":
            t = e.to_v(st, args[0])
            ok = z3.Function("float_ok", V, B)(t)
            st.add(z3.Implies(isa(t, "int", "float"), ok))
            e.throw(st, "ValueError", z3.And(z3.Not(ok), isa(t, "str", "bytes")))
            e.throw(st, "TypeError", z3.And(z3.Not(ok), z3.Not(isa(t, "str", "bytes"))))
            s = st.copy().add(ok)
            if not e.feasible(s):
                return []
            r = e.fresh(V, "flt")
            s.add(T.exact(r, "float"), z3.Implies(isa(t, "float"), T.rv(r) == T.rv(t)), z3.Implies(isa(t, "int"), T.rv(r) == z3.ToReal(T.iv(t))))
            return [(s, SV(r, "deep"))]
        if name in T.CLASSES and T.is_sub(name, "BaseException"):
            v = e.sym(st, "exc", name, own="deep", exact=True)
            for k, x in kw.items():
                st.add(T.fld(k)(v.t) == e.to_v(st, x))
            return [(st, v)]
        if name in ("asyncio.Event", "asyncio.Queue", "asyncio.LifoQueue", "object_", "bytes", "celtypes.BytesType", "celtypes.DoubleType",
                    "celpy.Environment", "celtypes.TimestampType", "celtypes.DurationType"):
            v = e.sym(st, name.split(".")[-1], name, own="deep", exact=True)
            if name == "celpy.Environment":
                self.note("celpy.Environment(...) never fails")
            return [(st, v)]
        raise Unsupported(f"constructor {name}")

    def dict_link(self, st, n, t):
        """iteration order of a copy is the order of the original"""
        i = z3.Const("i", I)
        st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < T.klen(n)), T.kat(n, i) == T.kat(t, i)), patterns=[T.kat(n, i)]))

    def guard_hashable(self, st, it):
        """set(items): TypeError when an item is not hashable"""
        e = self.eng
        if it.spine is not None:
            for x in it.spine:
                st = e.guard(st, z3.Not(e.unhashable(st, x)), "TypeError") if st is not None else None
            return st
        if it.kind == "dict" and getattr(it, "what", "keys") == "keys":
            return st
        i = z3.Const(T.fresh_name("i"), I)
        sub = st.copy()
        mark = len(sub.pc)
        e.binders.append(i)
        try:
            u = z3.simplify(e.unhashable(sub, it.elem(sub, i)))
            facts = sub.pc[mark:]
        finally:
            e.binders.pop()
        if z3.is_false(u):
            return st
        w = e.fresh(I, "unhashable")
        bad = z3.substitute(u, (i, w))
        if e.entails(st, z3.Implies(z3.And(0 <= w, w < it.n, *[z3.substitute(f, (i, w)) for f in facts]), z3.Not(bad))):
            return st
        e.throw(st, "TypeError", z3.And(0 <= w, w < it.n, *[z3.substitute(f, (i, w)) for f in facts], z3.substitute(u, (i, w))))
        pats = e.src_pats(it, i)
        body = z3.Implies(z3.And(0 <= i, i < it.n), z3.Not(u))
        st.add(z3.ForAll([i], body, patterns=pats) if pats else z3.ForAll([i], body))
        return st

    def collect(self, st, it, name):
        """list/tuple/set of an iterator"""
        from .engine import SV, Tup
        e = self.eng
        if it.spine is not None:
            if name in ("set", "frozenset"):
                return e.new_set(st, it.spine)
            if name == "tuple":
                return Tup(it.spine)
            return e.new_list(st, it.spine, name if name != "sorted" else "list")
        if name in ("set", "frozenset"):
            t = e.fresh(V, "setof")
            k = z3.Const(T.fresh_name("k"), K)
            i = z3.Const(T.fresh_name("i"), I)
            if it.kind == "dict" and getattr(it, "src", None) is not None and getattr(it, "what", "keys") == "keys":
                st.add(T.exact(t, "set"), T.dom(t) == T.dom(it.src), T.klen(t) == T.klen(it.src))
                return SV(t, "shallow")
            e.binders.append(i)
            try:
                sub = st.copy()
                mark = len(sub.pc)
                kt = e.keyterm(sub, it.elem(sub, i))
                facts = sub.pc[mark:]
            finally:
                e.binders.pop()
            W = z3.Function(T.fresh_name("wit"), *[b.sort() for b in e.binders], K, I)
            w = W(*e.binders, k)
            pats = e.src_pats(it, i)
            body = z3.Implies(z3.And(0 <= i, i < it.n), z3.And(T.dom(t)[kt], *facts))
            st.add(T.exact(t, "set"), z3.ForAll([i], body, patterns=pats) if pats else z3.ForAll([i], body),
                   z3.ForAll([k], z3.Implies(T.dom(t)[k], z3.And(0 <= w, w < it.n, k == z3.substitute(kt, (i, w)), *[z3.substitute(f, (i, w)) for f in facts])), patterns=[T.dom(t)[k]]))
            e.set_card(st, t)
            return SV(t, "shallow")
        r = e.iter_to_list(st, it, {"tuple": "tuple", "celtypes.ListType": "celtypes.ListType"}.get(name, "list"))
        return r

    # ------------------------------------------------------------------------------------------------ functions
    def call_ext(self, st, name, args, kw, node):
        from .engine import C, SV, TV, IV, BV, Tup, Iter, Cls, Ext, Fn, Rec, Bound, Unsupported, has_quant
        from .execu import SeqIter
        e = self.eng
        if name in self.ext:
            return self.ext[name](e, st, args, kw, node)
        if name.startswith("logging.") or ".logger" in name or name.startswith("koreo.") and name.split(".")[-2:-1] == ["logger"]:
            return [(st, C(None))]
        n = name[9:] if name.startswith("builtins.") else name
        if n == "isinstance":
            names = e.class_names(args[1])
            return [(st, e.mkbool(e.isinst(st, args[0], *names)))]
        if n == "callable":
            return [(st, BV(e.fresh(B, "callable")))]
        if n == "len":
            return self.length(st, args[0])
        if n == "enumerate":
            it = e.iterate(st, args[0])
            if it is None:
                return []
            start = e.as_int(st, kw.get("start", args[1] if len(args) > 1 else C(0)))
            outs = []
            for s, i in (it if isinstance(it, list) else [(st, it)]):
                if i.spine is not None:
                    outs.append((s, Iter(i.n, None, [Tup([IV(start + j) if not isinstance(kw.get("start", C(0)), C) else C(j + int(str(z3.simplify(start)))), x]) for j, x in enumerate(i.spine)], "gen")))
                else:
                    r = SeqIter(i.n, (lambda i: lambda s_, j: Tup([IV(start + j), i.elem(s_, j)]))(i), kind=i.kind if i.kind != "dict" else "dict")
                    r.src, r.srcv = getattr(i, "src", None), None
                    outs.append((s, r))
            return outs
        if n == "reversed":
            a = args[0]
            if isinstance(a, Tup):
                return [(st, Iter(None, None, list(a.xs)[::-1], "gen"))]
            if not isinstance(a, SV):
                raise Unsupported("reversed")
            t = e.snap(st, a)
            s = e.guard(st, isa(t, "list", "tuple"), "TypeError")
            if s is None:
                return []
            s.add(T.ln(t) >= 0)
            return [(s, SeqIter(T.ln(t), lambda s_, j: SV(T.la(t)[T.ln(t) - 1 - j], "borrowed"), kind="gen"))]
        if n == "zip":
            strict = "strict" in kw
            its = []
            s = st
            for a in args:
                it = e.iterate(s, a)
                if it is None:
                    return []
                if isinstance(it, list):
                    if len(it) != 1:
                        raise Unsupported("zip of ambiguous iterables")
                    s, it = it[0]
                its.append(it)
            if all(i.spine is not None for i in its):
                return [(s, Iter(None, None, [Tup(list(xs)) for xs in zip(*[i.spine for i in its])], "gen"))]
            nn = its[0].n
            for i in its[1:]:
                nn = z3.If(nn <= i.n, nn, i.n)
            m = e.fresh(I, "zipn")
            s.add(m == nn)
            r = SeqIter(m, lambda s_, j: Tup([i.elem(s_, j) if i.spine is None else None for i in its]), kind="seq")
            r.src = getattr(its[0], "src", None)
            return [(s, r)]
        if n == "range":
            if len(args) == 1 and isinstance(args[0], C):
                return [(st, Iter(None, None, [C(i) for i in range(args[0].x)], "seq"))]
            if len(args) == 1:
                nn = e.as_int(st, args[0])
                m = z3.If(nn < 0, 0, nn)
                return [(st, SeqIter(m, lambda s_, j: IV(j)))]
            raise Unsupported("range")
        if n in ("max", "min"):
            if len(args) == 2 and all(isinstance(a, (IV, C)) for a in args):
                x, y = e.as_int(st, args[0]), e.as_int(st, args[1])
                return [(st, IV(z3.If(x >= y, x, y) if n == "max" else z3.If(x <= y, x, y)))]
            if len(args) == 2:
                ts = [e.to_v(st, a) for a in args]
                s = e.guard(st, z3.Or(z3.And([isa(t, "int", "float") for t in ts]), z3.And([isa(t, "str") for t in ts])), "TypeError")
                if s is None:
                    return []
                num = lambda t: z3.If(isa(t, "float"), T.rv(t), z3.ToReal(T.iv(t)))
                r = e.fresh(V, n)
                second = num(ts[1]) > num(ts[0]) if n == "max" else num(ts[1]) < num(ts[0])
                s.add(z3.Implies(isa(ts[0], "int", "float"), r == z3.If(second, ts[1], ts[0])))
                s.add(z3.Or(r == ts[0], r == ts[1]))
                return [(s, SV(r))]
            raise Unsupported("max/min of an iterable")
        if n in ("any", "all"):
            it = e.iterate(st, args[0])
            if it is None:
                return []
            outs = []
            for s, i in (it if isinstance(it, list) else [(st, it)]):
                if i.spine is not None:
                    cs = [e.truthy(s, x) for x in i.spine]
                    outs.append((s, e.mkbool((z3.Or(cs) if n == "any" else z3.And(cs)) if cs else z3.BoolVal(n == "all"))))
                    continue
                j = z3.Const(T.fresh_name("j"), I)
                e.binders.append(j)
                try:
                    sub = s.copy()
                    mark = len(sub.pc)
                    c = e.truthy(sub, i.elem(sub, j))
                    facts = sub.pc[mark:]
                finally:
                    e.binders.pop()
                r = e.fresh(B, n)
                w = e.fresh(I, "w")
                rng = z3.And(0 <= j, j < i.n)
                pats = e.src_pats(i, j)
                good = c if n == "all" else z3.Not(c)
                fa = z3.ForAll([j], z3.Implies(rng, z3.And(good, *facts)), patterns=pats) if pats else z3.ForAll([j], z3.Implies(rng, z3.And(good, *facts)))
                ex = z3.And(0 <= w, w < i.n, z3.Not(z3.substitute(good, (j, w))), *[z3.substitute(f, (j, w)) for f in facts])
                s.add(z3.Implies(r if n == "all" else z3.Not(r), fa), z3.Implies(z3.Not(r) if n == "all" else r, ex))
                outs.append((s, BV(r)))
            return outs
        if n == "sorted":
            # a permutation: only the length and membership are specified
            it = e.iterate(st, args[0])
            if it is None:
                return []
            outs = []
            for s, i in (it if isinstance(it, list) else [(st, it)]):
                if i.spine is not None and len(i.spine) <= 1:
                    outs.append((s, e.new_list(s, i.spine)))
                    continue
                r = e.fresh(V, "sorted")
                s.add(T.exact(r, "list"), T.ln(r) >= 0)
                s.taint.append("sorted")
                outs.append((s, SV(r, "shallow")))
            return outs
        if n in ("getattr", "hasattr"):
            if len(args) >= 2 and isinstance(args[1], C) and n == "getattr" and len(args) == 2:
                return e.getattr_(st, args[0], args[1].x)
            raise Unsupported(n)
        if n == "print" or n.startswith("logging."):
            return [(st, C(None))]
        if n == "copy.replace":
            a = args[0]
            if isinstance(a, SV):
                t = e.snap(st, a)
                c = next((c for c in T.RECORDS if e.entails(st, T.exact(t, c))), None)
                if c is None:
                    raise Unsupported("copy.replace of an unknown class")
                a = Rec(c, {f: SV(T.fld(f)(t), "borrowed") for f, _, _ in T.FIELDS[c]})
            if not isinstance(a, Rec) or a.cls not in T.RECORDS:
                raise Unsupported("copy.replace")
            if any(k not in a.f for k in kw):
                e.throw(st, "TypeError")
                return []
            return [(st, Rec(a.cls, {**a.f, **kw}))]
        if n in ("copy.deepcopy", "copy.copy"):
            a = args[0]
            if isinstance(a, SV):
                t = e.snap(st, a)
                # the copy is structurally the same value; nothing reachable from it is shared
                c = e.fresh(V, "copy")
                st.add(T.cls(c) == T.cls(t), T.dom(c) == T.dom(t), T.mp(c) == T.mp(t), T.klen(c) == T.klen(t), T.ln(c) == T.ln(t), T.la(c) == T.la(t),
                       T.sv(c) == T.sv(t), T.iv(c) == T.iv(t), T.rv(c) == T.rv(t), T.utruth(c) == T.utruth(t), T.tostr(c) == T.tostr(t))
                if T.PLAIN and e.feasible(st, [isa(t, *T.PLAIN)]):
                    for f in sorted(e.plain_fields()):
                        if any(nm == f for _, nm, _ in st.attrs):
                            continue
                        x = T.fld(f)(t)
                        st.add(z3.Implies(z3.And(isa(t, *T.PLAIN), isa(x, "str", "int", "NoneType")), T.fld(f)(c) == x), z3.Implies(isa(t, *T.PLAIN), T.cls(T.fld(f)(c)) == T.cls(x)))
                if n == "copy.deepcopy":
                    st.add(z3.Function("same_value", V, V, B)(c, t))
                self.dict_link(st, c, t)
                self.note("copy.deepcopy returns an equal value sharing no mutable part")
                return [(st, SV(c, "deep" if n == "copy.deepcopy" else "shallow"))]
            return [(st, a)]
        if n == "json.dumps":
            a = args[0]
            t = e.to_v(st, a)
            suffix = ",".join(sorted(k + "=" + repr(v.x) if isinstance(v, C) else k for k, v in kw.items()))
            ok = z3.Function("json_ok" + (":" + suffix if "default" in kw or "cls" in kw else ""), V, B)(t)
            st.add(z3.Implies(isa(t, "str", "int", "NoneType", "float"), ok))
            e.throw(st, "TypeError", z3.And(z3.Not(ok)))
            e.throw(st, "ValueError", z3.And(z3.Not(ok)))
            s = st.copy().add(ok)
            if not e.feasible(s):
                return []
            s.ghost["dumped"] = t
            return [(s, TV(z3.Function("json_dumps" + (":" + suffix if suffix else ""), V, T.S)(t)))]
        if n == "json.loads":
            t = e.to_v(st, args[0])
            ok = z3.Function("jsontext_ok", V, B)(t)
            e.throw(st, "json.JSONDecodeError", z3.And(z3.Not(ok), isa(t, "str", "bytes")))
            e.throw(st, "TypeError", z3.Not(isa(t, "str", "bytes")))
            s = st.copy().add(ok, isa(t, "str", "bytes"))
            if not e.feasible(s):
                return []
            r = z3.Function("json_loads", V, V)(t)
            s.add(isa(r, "dict", "list", "str", "int", "float", "NoneType"))
            for cn in ("dict", "list", "str"):
                s.add(z3.Implies(isa(r, cn), T.exact(r, cn)))
            return [(s, SV(r, "deep"))]
        if n == "celpy.json_to_cel":
            a = args[0]
            t = e.to_v(st, a)
            r = z3.Function("to_cel", V, V)(t)
            self.cel_axioms()
            self.note("celpy.json_to_cel is total on JSON values (integers within 64 bits) and preserves structure")
            st.add(r == r, T.cls(r) == T.cls(r))
            if isinstance(a, C) and a.x is None:
                return [(st, C(None))]
            if getattr(self, "json_unfit", False):          # where integers beyond 64 bits are not excluded
                e.throw(st, "ValueError", z3.Function("cel_unfit", V, B)(t))
            return [(st, SV(r, "deep"))]
        if n == "celpy.tree_dump":
            self.note("celpy.celparser.tree_dump is total and returns text")
            return [(st, TV(e.fresh(T.S, "tree")))]
        if n in ("re.match", "re.compile"):
            raise Unsupported(n)
        if n in ("time.monotonic", "time.time"):
            r = e.fresh(V, "now")
            st.add(T.exact(r, "float"))
            return [(st, SV(r, "deep"))]
        if n == "functools.reduce":
            return self.reduce(st, args, kw, node)
        if n in ("typing.cast",):
            return [(st, args[1])]
        if n == "reversed":
            raise Unsupported("reversed")
        if n == "repr":
            return [(st, TV(e.fresh(T.S, "repr")))]
        if n == "id":
            return [(st, IV(e.fresh(I, "id")))]
        if name.startswith("koreo.") and name.endswith("()"):
            return [(st, C(None))]
        if "logging.getLogger()" in name or ".logger." in name or name.split(".")[0] == "logger" or "getLogger" in name:
            return [(st, C(None))]
        raise Unsupported(f"external function {name}")

    def cel_axioms(self):
        e = self.eng
        if getattr(e, "_cel_ax", False):
            return
        e._cel_ax = True
        t, k, i = z3.Const("jt", V), z3.Const("jk", K), z3.Const("ji", I)
        f = z3.Function("to_cel", V, V)
        r = f(t)
        A = e.extra_axioms
        A.append(z3.ForAll([t], z3.And(
            z3.Implies(isa(t, "dict"), z3.And(T.exact(r, "celtypes.MapType"), T.dom(r) == T.dom(t), T.klen(r) == T.klen(t))),
            z3.Implies(isa(t, "list", "tuple"), z3.And(T.exact(r, "celtypes.ListType"), T.ln(r) == T.ln(t))),
            z3.Implies(isa(t, "str"), z3.And(T.exact(r, "celtypes.StringType"), T.sv(r) == T.sv(t))),
            z3.Implies(T.exact(t, "bool"), z3.And(T.exact(r, "celtypes.BoolType"), T.iv(r) == T.iv(t))),
            z3.Implies(z3.And(isa(t, "int"), z3.Not(isa(t, "bool"))), z3.And(T.exact(r, "celtypes.IntType"), T.iv(r) == T.iv(t))),
            z3.Implies(isa(t, "float"), z3.And(T.exact(r, "celtypes.DoubleType"), T.rv(r) == T.rv(t))),
            z3.Implies(isa(t, "NoneType"), r == T.NoneV)), patterns=[r]))
        A.append(z3.ForAll([t, k], z3.Implies(z3.And(isa(t, "dict"), T.dom(t)[k]), T.mp(r)[k] == f(T.mp(t)[k])), patterns=[T.mp(r)[k]]))
        A.append(z3.ForAll([t, i], z3.Implies(z3.And(isa(t, "list", "tuple"), 0 <= i, i < T.ln(t)), T.la(r)[i] == f(T.la(t)[i])), patterns=[T.la(r)[i]]))

    def reduce(self, st, args, kw, node):
        """functools.reduce: a loop with a sidecar invariant (key 'reduce')"""
        from .engine import Unsupported, SV, C
        e = self.eng
        fn, seq, acc0 = args[0], args[1], args[2]
        spec = None
        key = e.stack[-1]
        for c in (e.cur, e.contracts.get(key)):
            if c is not None and (c.module, c.qual) == key and "reduce" in c.loops:
                spec = c.loops["reduce"]
        if spec is None:
            raise Unsupported("reduce without invariant")
        it = e.iterate(st, seq)
        if it is None:
            return []
        outs = []
        for s, i in (it if isinstance(it, list) else [(st, it)]):
            pre = s.copy()

            def cx(state, idx, acc):
                c = e.lcx(pre, state, idx, i)
                c.acc = e.to_v(state, acc)
                return c
            for label, f in spec.inv(cx(s, z3.IntVal(0), acc0)):
                e.prove(s, f, f"reduce: invariant holds initially: {label}")
            h = s.copy()
            idx = e.fresh(I, "i")
            h.add(0 <= idx, idx < i.n)
            acc = SV(e.fresh(V, "acc"), "deep")
            for label, f in spec.inv(cx(h, idx, acc)):
                h.add(f)
            for s2, v in e.call(h, fn, [acc, i.elem(h, idx)], {}, node):
                for label, f in spec.inv(cx(s2, idx + 1, v)):
                    e.prove(s2, f, f"reduce: invariant preserved: {label}")
            d = s.copy()
            acc = SV(e.fresh(V, "acc"), "deep")
            d.add(i.n >= 0)
            for label, f in spec.inv(cx(d, i.n, acc)):
                d.add(f)
            outs.append((d, acc))
        return outs

    def length(self, st, a):
        from .engine import C, SV, TV, IV, Tup, Iter, Unsupported
        e = self.eng
        if isinstance(a, C):
            return [(st, C(len(a.x)))]
        if isinstance(a, Tup):
            return [(st, C(len(a.xs)))]
        if isinstance(a, Iter):
            return [(st, IV(a.n) if a.spine is None else C(len(a.spine)))]
        if isinstance(a, TV):
            n = z3.Function("slen", T.S, I)(a.t)
            st.add(n >= 0, (n == 0) == (a.t == lit("")))
            return [(st, IV(n))]
        if isinstance(a, SV):
            t = e.snap(st, a)
            s = e.guard(st, isa(t, "dict", "set", "frozenset", "list", "tuple", "str", "bytes"), "TypeError")
            if s is None:
                return []
            sl = z3.Function("slen", T.S, I)(T.sv(t))
            s.add(T.klen(t) >= 0, T.ln(t) >= 0, sl >= 0, (sl == 0) == (T.sv(t) == lit("")))
            return [(s, IV(z3.If(isa(t, "dict", "set", "frozenset"), T.klen(t), z3.If(isa(t, "list", "tuple"), T.ln(t), sl))))]
        raise Unsupported("len")

    # ------------------------------------------------------------------------------------------------ methods
    def call_method(self, st, o, name, args, kw, node):
        from .engine import C, SV, TV, IV, BV, Tup, Iter, Cls, Ext, Fn, Rec, Bound, Unsupported, Event
        from .execu import SeqIter
        e = self.eng
        if name in self.meth:
            r = self.meth[name](e, st, o, args, kw, node)
            if r is not None:
                return r
        if isinstance(o, C) and isinstance(o.x, str):
            if name == "join":
                return self.join(st, o.x, args[0])
            if all(isinstance(a, C) for a in args) and hasattr(o.x, name):
                return [(st, C(getattr(o.x, name)(*[a.x for a in args])))]
            o = TV(lit(o.x))
        if isinstance(o, Cls) and o.name in ("celtypes.MapType", "dict") and name == "fromkeys":
            raise Unsupported("fromkeys")
        if isinstance(o, TV):
            return self.str_method(st, o.t, name, args, kw)
        if isinstance(o, Ext):
            return self.call_ext(st, f"{o.name}.{name}", args, kw, node)
        if isinstance(o, Tup):
            o = SV(e.to_v(st, o), "shallow")
        if isinstance(o, C) and isinstance(o.x, dict):
            o = SV(e.to_v(st, o))
        if not isinstance(o, SV):
            raise Unsupported(f"method {name} of {o}")
        t = e.snap(st, o)
        own = "deep" if o.own == "deep" else "borrowed"
        if name == "get" and not (z3.is_false(z3.simplify(isa(t, "dict")))):
            s = e.guard(st, isa(t, "dict"), "AttributeError")
            if s is None:
                return []
            k = e.keyterm(s, args[0])
            d = args[1] if len(args) > 1 else kw.get("default", C(None))
            s.add(T.klen(t) >= 0, z3.Implies(T.dom(t)[k], T.klen(t) >= 1))
            outs = []
            simple = isinstance(d, C) and d.x is None
            if simple:
                r = z3.If(T.dom(t)[k], T.mp(t)[k], T.NoneV)
                c = e.fresh(V, "get")
                s.add(c == r)
                self.item_facts(s, o, "item", k, c, T.dom(t)[k])
                # keep an alias to the stored object so that a mutation through it is written back
                return [(s, SV(c, own, (o, "item", k)))]
            if isinstance(d, Tup) and not d.xs or isinstance(d, C) and d.x == () or isinstance(d, SV) and node is not None and len(node.args) > 1 \
                    and isinstance(node.args[1], (ast.Dict, ast.List)) and not getattr(node.args[1], "keys", None) and not getattr(node.args[1], "elts", None):
                c = e.fresh(V, "get")
                s.add(c == z3.If(T.dom(t)[k], T.mp(t)[k], e.to_v(s, d)))
                self.item_facts(s, o, "item", k, c, T.dom(t)[k])
                return [(s, SV(c, own, (o, "either", k)))]
            for s2, y in e.fork(s, T.dom(t)[k]):
                if y:
                    self.item_facts(s2, o, "item", k, T.mp(t)[k], z3.BoolVal(True))
                outs.append((s2, SV(T.mp(t)[k], own, (o, "item", k)) if y else d))
            return outs
        if name in ("items", "keys", "values"):
            s = e.guard(st, isa(t, "dict"), "AttributeError")
            if s is None:
                return []
            it = e.iter_of_dict(s, o, name)
            it.what = name
            return [(s, it)]
        if name == "copy":
            c = e.fresh(V, "copy")
            s = e.guard(st, isa(t, "dict", "list", "set"), "AttributeError")
            if s is None:
                return []
            s.add(T.cls(c) == z3.If(isa(t, "dict"), T.CLASSES["dict"], z3.If(isa(t, "list"), T.CLASSES["list"], T.CLASSES["set"])),
                  T.dom(c) == T.dom(t), T.mp(c) == T.mp(t), T.klen(c) == T.klen(t), T.ln(c) == T.ln(t), T.la(c) == T.la(t))
            self.dict_link(s, c, t)
            return [(s, SV(c, "shallow"))]
        if name == "append":
            s = e.guard(st, isa(t, "list"), "AttributeError")
            if s is None:
                return []
            x = e.to_v(s, args[0])
            n = e.fresh(V, "lst")
            s.add(T.cls(n) == T.cls(t), T.ln(n) == T.ln(t) + 1, T.la(n) == z3.Store(T.la(t), T.ln(t), x), T.ln(t) >= 0)
            s.ghost["acts"] = tuple(s.ghost.get("acts", ())) + ((o.t.get_id(), "append", x),)
            e.mutate(s, o, n, "append")
            return [(s, C(None))]
        if name == "extend":
            outs = []
            it = e.iterate(st, args[0])
            if it is None:
                return []
            for s, i in (it if isinstance(it, list) else [(st, it)]):
                s = e.guard(s, isa(t, "list"), "AttributeError")
                if s is None:
                    continue
                other = e.iter_to_list(s, i)
                cat = e.list_concat(s, t, e.snap(s, other))
                s.ghost["acts"] = tuple(s.ghost.get("acts", ())) + ((o.t.get_id(), "extend", other.t),)
                e.mutate(s, o, cat.t, "extend")
                outs.append((s, C(None)))
            return outs
        if name == "update":
            a = args[0] if args else None
            if isinstance(a, Iter) and not z3.is_false(z3.simplify(isa(t, "set"))) and e.entails(st, isa(t, "set")):
                a = self.collect(st, a, "set")
            if not isinstance(a, SV):
                raise Unsupported("update")
            u = e.named(st, e.snap(st, a))
            outs = []
            s = e.guard(st, isa(t, "dict", "set"), "AttributeError")
            if s is None:
                return []
            s = e.guard(s, z3.Or(z3.And(isa(t, "dict"), isa(u, "dict")), z3.And(isa(t, "set"), isa(u, "set", "dict"))), "TypeError")
            if s is None:
                return []
            n = e.fresh(V, "upd")
            k = z3.Const("k", K)
            s.add(T.cls(n) == T.cls(t), z3.ForAll([k], T.dom(n)[k] == z3.Or(T.dom(t)[k], T.dom(u)[k]), patterns=[T.dom(n)[k], T.dom(u)[k]]),
                  z3.ForAll([k], T.mp(n)[k] == z3.If(T.dom(u)[k], T.mp(u)[k], T.mp(t)[k]), patterns=[T.mp(n)[k]]), T.klen(n) >= T.klen(t), T.klen(t) >= 0)
            e.mutate(s, o, n, "update")
            return [(s, C(None))]
        if name == "setdefault":
            s = e.guard(st, isa(t, "dict"), "AttributeError")
            if s is None:
                return []
            k = e.keyterm(s, args[0])
            outs = []
            for s2, y in e.fork(s, T.dom(t)[k]):
                if y:
                    outs.append((s2, SV(T.mp(t)[k], own, (o, "item", k))))
                else:
                    d = args[1] if len(args) > 1 else C(None)
                    dt = e.to_v(s2, d)
                    e.mutate(s2, o, e.dict_store(s2, t, k, dt), "setdefault")
                    outs.append((s2, SV(dt, own, (o, "item", k)) if not isinstance(d, C) else d))
            return outs
        if name == "pop":
            outs = []
            for s, isd in e.fork(st, isa(t, "dict")):
                if not isd:
                    for s2, isset in e.fork(s, isa(t, "set")):
                        if isset:
                            s3 = e.guard(s2, T.klen(t) > 0, "KeyError")
                            if s3 is None:
                                continue
                            k = e.fresh(K, "popped")
                            v = e.fresh(V, "popv")
                            s3.add(T.dom(t)[k], T.key(v) == k)
                            e.mutate(s3, o, e.dict_remove(s3, t, k), "pop")
                            outs.append((s3, SV(v)))
                        else:
                            s3 = e.guard(s2, isa(t, "list"), "AttributeError")
                            if s3 is None:
                                continue
                            if len(args) > 1:
                                e.throw(s3, "TypeError")
                                continue
                            if args:
                                raise Unsupported("list pop of an index")
                            s3 = e.guard(s3, T.ln(t) > 0, "IndexError")
                            if s3 is None:
                                continue
                            n = e.fresh(V, "lst")
                            s3.add(T.cls(n) == T.cls(t), T.ln(n) == T.ln(t) - 1, T.la(n) == T.la(t))
                            last = T.la(t)[T.ln(t) - 1]
                            e.mutate(s3, o, n, "pop")
                            outs.append((s3, SV(last, own)))
                    continue
                k = e.keyterm(s, args[0])
                s.add(T.klen(t) >= 0, z3.Implies(T.dom(t)[k], T.klen(t) >= 1))
                if len(args) < 2:
                    s = e.guard(s, T.dom(t)[k], "KeyError")
                    if s is None:
                        continue
                for s2, y in e.fork(s, T.dom(t)[k]):
                    if y:
                        e.mutate(s2, o, e.dict_remove(s2, t, k), "pop")
                        outs.append((s2, SV(T.mp(t)[k], own)))
                    else:
                        outs.append((s2, args[1]))
            return outs
        if name in ("add", "discard", "remove"):
            s = e.guard(st, isa(t, "set") if name != "remove" else isa(t, "set", "list"), "AttributeError")
            if s is None:
                return []
            k = e.keyterm(s, args[0])
            s.add(T.klen(t) >= 0, z3.Implies(T.dom(t)[k], T.klen(t) >= 1))
            if name == "remove":
                s = e.guard(s, isa(t, "set"), "TypeError")
                if s is None:
                    return []
                s = e.guard(s, T.dom(t)[k], "KeyError")
                if s is None:
                    return []
            n = e.fresh(V, "st")
            if name == "add":
                s.add(T.cls(n) == T.cls(t), T.dom(n) == z3.Store(T.dom(t), k, z3.BoolVal(True)), T.klen(n) == z3.If(T.dom(t)[k], T.klen(t), T.klen(t) + 1))
            else:
                s.add(T.cls(n) == T.cls(t), T.dom(n) == z3.Store(T.dom(t), k, z3.BoolVal(False)), T.klen(n) == z3.If(T.dom(t)[k], T.klen(t) - 1, T.klen(t)), T.klen(n) >= 0)
            e.mutate(s, o, n, name)
            return [(s, C(None))]
        if name in ("difference", "intersection", "union"):
            s = e.guard(st, isa(t, "set"), "AttributeError")
            if s is None:
                return []
            a = args[0]
            if isinstance(a, Iter):
                a = self.collect(s, a, "set")
            u = e.to_v(s, a)
            outs = []
            for s2, isd in e.fork(s, isa(u, "set", "dict")):
                if not isd:
                    s3 = e.guard(s2, isa(u, "list", "tuple"), "TypeError")
                    if s3 is None:
                        continue
                    su = e.snap(s3, self.collect(s3, e.iter_of_list(s3, SV(u)), "set"))
                else:
                    s3, su = s2, u
                n = e.fresh(V, "setop")
                t, su = e.named(s3, t), e.named(s3, su)
                k = z3.Const("k", K)
                body = {"difference": z3.And(T.dom(t)[k], z3.Not(T.dom(su)[k])), "intersection": z3.And(T.dom(t)[k], T.dom(su)[k]),
                        "union": z3.Or(T.dom(t)[k], T.dom(su)[k])}[name]
                s3.add(T.exact(n, "set"), z3.ForAll([k], T.dom(n)[k] == body, patterns=[T.dom(n)[k], T.dom(t)[k], T.dom(su)[k]]))
                e.set_card(s3, n)
                outs.append((s3, SV(n, "shallow")))
            return outs
        if name in STR_METHODS or name == "count" and e.entails(st, isa(t, "str")):
            s = e.guard(st, isa(t, "str"), "AttributeError")
            if s is None:
                return []
            if name == "join":
                return self.join(s, None, args[0], T.sv(t))
            return self.str_method(s, T.sv(t), name, args, kw)
        if name in ("match", "fullmatch") and t.get_id() in self.regexes and len(args) == 1 and not kw:
            return self.regex_match(st, t, name, args[0])
        if name == "group" and len(args) == 1 and isinstance(args[0], C) and e.entails(st, isa(t, "re.Match")):
            of = t.arg(0) if z3.is_app(t) and t.decl().name() == "re_match" else None
            shape = regex_shape(self.regexes[of.get_id()][1] or "") if of is not None and of.get_id() in self.regexes else None
            if shape and shape[1] == args[0].x:
                return [(st, TV(z3.Function(f"re_group:{args[0].x}", V, T.S)(t)))]
            r = z3.Function(f"re_group_of:{args[0].x}", V, V)(t)
            st.add(z3.Or(r == T.NoneV, T.exact(r, "str")))
            return [(st, SV(r))]
        if name == "compile" and len(args) == 1 and not kw:
            return self.cel_compile(st, t, args[0])
        if name == "program":
            return self.cel_program(st, t, args, kw)
        if name == "evaluate":
            return self.cel_evaluate(st, o, args, kw)
        if name == "setLevel":
            return [(st, C(None))]
        if name == "is_integer" and not args and e.entails(st, isa(t, "float")):
            return [(st, BV(z3.Function("whole", z3.RealSort(), B)(T.rv(t))))]
        raise Unsupported(f"method {name}")

    def regex_match(self, st, rx, how, a):
        """pattern.match(text): a literal prefix and one group of any text or of characters outside a set"""
        from .engine import SV, Unsupported
        e = self.eng
        text = self.regexes[rx.get_id()][1]
        fm = z3.Function("re_" + how, V, T.S, V)
        done = self.__dict__.setdefault("_rx_done", set())
        if (rx.get_id(), how) not in done:
            x = z3.Const("rxs", T.S)
            m = fm(rx, x)
            shape = regex_shape(text) if text is not None and how == "match" else None
            if shape is None:
                e.extra_axioms.append(z3.ForAll([x], z3.Or(m == T.NoneV, T.exact(m, "re.Match")), patterns=[m]))
            else:
                prefix, group, stop = shape
                start = z3.Function("str_startswith", T.S, T.S, B)(x, lit(prefix))
                rest = z3.Function("str_removeprefix", T.S, T.S, T.S)(x, lit(prefix))
                until = z3.Function("span_until:" + stop, T.S, T.S)
                e.extra_axioms.append(z3.ForAll([x], z3.And(z3.If(start, T.exact(m, "re.Match"), m == T.NoneV), z3.Function(f"re_group:{group}", V, T.S)(m) == until(rest)), patterns=[m]))
                og = z3.Function(f"re_group_of:{group}", V, V)(m)
                e.extra_axioms.append(z3.ForAll([x], z3.Implies(start, z3.And(T.exact(og, "str"), T.sv(og) == until(rest))), patterns=[m]))
                sub = z3.Function("substr_in", T.S, T.S, B)
                e.extra_axioms.append(z3.ForAll([x], z3.Implies(z3.And([z3.Not(sub(lit(c), x)) for c in stop]), until(x) == x), patterns=[until(x)]))
                cat = z3.Function("cat3", T.S, T.S, T.S, T.S)(lit(prefix[:-1]), lit(prefix[-1:]), x)
                e.extra_axioms.append(z3.ForAll([x], z3.And(z3.Function("str_startswith", T.S, T.S, B)(cat, lit(prefix)), z3.Function("str_removeprefix", T.S, T.S, T.S)(cat, lit(prefix)) == x), patterns=[cat]))
            done.add((rx.get_id(), how))
            self.note(f"re: {how} of {text!r}" + (" matches texts starting with the prefix; its group is what follows, up to the first excluded character" if shape else " may match or not"))
        v = e.to_v(st, a)
        s = e.guard(st, isa(v, "str"), "TypeError")
        if s is None:
            return []
        m = fm(rx, T.sv(v))
        s.add(z3.Or(m == T.NoneV, T.exact(m, "re.Match")))
        return [(s, SV(m))]

    def cel_compile(self, st, t, a):
        """celpy Environment.compile(text): a parse tree, a function of the text; or CELParseError"""
        from .engine import SV
        e = self.eng
        s = e.guard(st, isa(t, "celpy.Environment"), "AttributeError")
        if s is None:
            return []
        x = e.text_of(s, a)
        self.note("celpy Environment.compile(text) is a function of the text; it returns a parse tree or raises CELParseError")
        e.throw(s, "celpy.CELParseError", z3.Function("cel_malformed", T.S, B)(x))
        s = s.copy()
        r = z3.Function("cel_parse", T.S, V)(x)
        s.add(z3.Not(z3.Function("cel_malformed", T.S, B)(x)), T.exact(r, "lark.Tree"))
        return [(s, SV(r))]

    def cel_program(self, st, t, args, kw):
        """celpy Environment.program(tree, functions): a runner for that tree"""
        from .engine import SV, Unsupported
        e = self.eng
        if len(args) != 1 or set(kw) - {"functions"}:
            raise Unsupported("program")
        s = e.guard(st, isa(t, "celpy.Environment"), "AttributeError")
        if s is None:
            return []
        r = e.fresh(V, "runner")
        self.note("celpy Environment.program(tree) gives a runner whose ast is the tree")
        s.add(T.exact(r, "celpy.Runner"), T.fld("ast")(r) == e.to_v(s, args[0]))
        return [(s, SV(r, "deep"))]

    def cel_evaluate(self, st, o, args, kw):
        """celpy Runner.evaluate: a function of runner and inputs; raises CELEvalError or anything else"""
        from .engine import SV
        e = self.eng
        t = e.snap(st, o)
        a = e.to_v(st, args[0])
        self.note("celpy Runner.evaluate(inputs) is deterministic, does not modify its arguments, may return any value (CELEvalError objects included) and may raise any Exception")
        e.throw(st, "celpy.CELEvalError", z3.Function("cel_raises", V, V, B)(t, a))
        e.throw(st, "Exception", z3.Function("cel_crashes", V, V, B)(t, a))
        s = st.copy()
        s.add(z3.Not(z3.Function("cel_raises", V, V, B)(t, a)), z3.Not(z3.Function("cel_crashes", V, V, B)(t, a)))
        r = z3.Function("cel_eval", V, V, V)(t, a)
        s.add(z3.Not(isa(r, *[c for c in e.repo.classnodes])))
        return [(s, SV(r, "borrowed"))]

    def join(self, st, sep, a, sept=None):
        from .engine import C, SV, TV, IV, Tup, Iter, Unsupported
        e = self.eng
        sept = lit(sep) if sept is None else sept
        if isinstance(a, Iter) and a.spine is not None or isinstance(a, Tup):
            xs = a.spine if isinstance(a, Iter) else a.xs
            if all(isinstance(x, C) for x in xs) and sep is not None:
                return [(st, C(sep.join(x.x for x in xs)))]
            a = e.new_list(st, xs)
        outs = []
        it = e.iterate(st, a)
        if it is None:
            return []
        for s, i in (it if isinstance(it, list) else [(st, it)]):
            lst = a if isinstance(a, SV) and e.entails(s, isa(a.t, "list", "tuple")) else e.iter_to_list(s, i)
            lt = e.snap(s, lst)
            s2 = s
            # every item must be text
            j = z3.Const(T.fresh_name("j"), I)
            if i.spine is None and not e.entails(s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T.ln(lt)), isa(T.la(lt)[j], "str")), patterns=[T.la(lt)[j]]), timeout=1500):
                w = e.fresh(I, "w")
                e.throw(s, "TypeError", z3.And(0 <= w, w < T.ln(lt), z3.Not(isa(T.la(lt)[w], "str"))))
                s2 = s.copy()
                s2.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T.ln(lt)), isa(T.la(lt)[j], "str")), patterns=[T.la(lt)[j]]))
            r = z3.Function("join", T.S, V, T.S)(sept, lt)
            s2.add(z3.Implies(T.ln(lt) == 0, r == lit("")), z3.Implies(T.ln(lt) == 1, r == T.sv(T.la(lt)[0])))
            s2.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T.ln(lt)), z3.Function("substr_in", T.S, T.S, B)(T.sv(T.la(lt)[j]), r)), patterns=[T.la(lt)[j]]))
            s2.add(z3.Implies(T.ln(lt) == 2, r == z3.Function("cat3", T.S, T.S, T.S, T.S)(T.sv(T.la(lt)[0]), sept, T.sv(T.la(lt)[1]))))
            for c in range(2):
                s2.add(z3.Implies(c < T.ln(lt), z3.Function("substr_in", T.S, T.S, B)(T.sv(T.la(lt)[c]), r)))
            outs.append((s2, TV(r)))
        return outs

    def str_method(self, st, t, name, args, kw):
        from .engine import C, SV, TV, IV, BV, Unsupported
        e = self.eng
        ats = [e.text_of(st, a) for a in args if not (isinstance(a, C) and isinstance(a.x, int))]
        if name in ("startswith", "endswith", "isdecimal", "isdigit"):
            return [(st, BV(z3.Function("str_" + name, *([T.S] * (1 + len(ats))), B)(t, *ats)))]
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "removeprefix", "title", "capitalize", "casefold"):
            r = z3.Function("str_" + name, *([T.S] * (1 + len(ats))), T.S)(t, *ats)
            if name == "replace" and len(ats) == 2:
                st.add(z3.Implies(z3.And(t != lit(""), ats[1] != lit("")), r != lit("")))
            return [(st, TV(r))]
        if name == "split":
            r = e.fresh(V, "split")
            j = z3.Const("j", I)
            st.add(T.exact(r, "list"), T.ln(r) >= 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T.ln(r)), T.exact(T.la(r)[j], "str")), patterns=[T.la(r)[j]]))
            return [(st, SV(r, "deep"))]
        if name == "format":
            return [(st, TV(e.fresh(T.S, "format")))]
        if name == "count" and len(args) == 1 and len(ats) == 1:
            r = z3.Function("str_count", T.S, T.S, I)(t, ats[0])
            st.add(r >= 0)
            return [(st, IV(r))]
        raise Unsupported(f"str.{name}")
