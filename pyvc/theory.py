"""First-order theory of Python values used by the VC generator.

One uninterpreted sort V for every Python object, observed through functions; one sort K for dictionary keys up to
Python's hash/== (StringType('a') and 'a' are one key).  Containers are *snapshots* (values); mutation is modelled by the
engine, which replaces the snapshot held by a cell.
"""
import itertools
import z3

V = z3.DeclareSort("V")
K = z3.DeclareSort("K")
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
S = z3.DeclareSort("Str")      # text, compared by equality only
AKB = z3.ArraySort(K, B)
AKV = z3.ArraySort(K, V)
AIV = z3.ArraySort(I, V)

F = z3.Function
cls = F("cls", V, I)
sv = F("sv", V, S)
iv = F("iv", V, I)
rv = F("rv", V, R)
dom = F("dom", V, AKB)
mp = F("mp", V, AKV)
klen = F("klen", V, I)
kat = F("kat", V, I, V)
kidx = F("kidx", V, K, I)
ln = F("ln", V, I)
la = F("la", V, AIV)
key = F("key", V, K)
kstr = F("kstr", S, K)
kint = F("kint", I, K)
kkind = F("kkind", K, I)     # 0 string, 1 int-like, 2 other
kstr_inv = F("kstr_inv", K, S)
kint_inv = F("kint_inv", K, I)
kpair, kp1, kp2 = F("kpair", K, K, K), F("kp1", K, K), F("kp2", K, K)     # keys of pairs
kval = F("kval", K, V)      # a representative object for a key of the third kind
utruth = F("utruth", V, B)
pyeq = F("pyeq", V, V, B)
tostr = F("tostr", V, S)
typeof = F("typeof", V, V)

_cnt = itertools.count()


sid = F("sid", S, I)
LITS = {}


def lit(s):
    """the Str constant for a literal; distinct literals are distinct through sid"""
    if s not in LITS:
        LITS[s] = (z3.Const("lit:" + repr(s), S), len(LITS))
    return LITS[s][0]


def lit_facts():
    return [sid(c) == n for c, n in LITS.values()]


def fresh_name(base):
    return f"{base}!{next(_cnt)}"


def fld(name, _c={}):
    if name not in _c:
        _c[name] = F(f"f_{name}", V, V)
    return _c[name]


# --- classes ---------------------------------------------------------------------------------------------------------
CLASSES = {}        # name -> id
PARENTS = {}        # name -> tuple of parent names
FIELDS = {}         # koreo class name -> list of (field, annotation ast or None, default ast or None)
RECORDS = set()     # NamedTuple classes


def add_class(name, *parents):
    if name in CLASSES:
        return CLASSES[name]
    for p in parents:
        assert p in CLASSES, (name, p)
    CLASSES[name] = len(CLASSES) + 1
    PARENTS[name] = parents
    _desc.clear()
    return CLASSES[name]


_desc = {}


def descendants(name):
    if name not in _desc:
        out = [name]
        for c, ps in PARENTS.items():
            if any(p in ps for p in out) and c not in out:
                out.append(c)
        # PARENTS is insertion ordered (parents first) so one pass suffices
        _desc[name] = out
    return _desc[name]


def is_sub(a, b):
    return a in descendants(b)


for n, ps in [
    ("object_", ()), ("NoneType", ()), ("int", ()), ("bool", ("int",)), ("float", ()), ("str", ()), ("bytes", ()),
    ("dict", ()), ("list", ()), ("tuple", ()), ("set", ()), ("frozenset", ()), ("timedelta", ()), ("datetime", ()),
    ("BaseException", ()), ("Exception", ("BaseException",)), ("asyncio.CancelledError", ("BaseException",)),
    ("KeyboardInterrupt", ("BaseException",)), ("GeneratorExit", ("BaseException",)), ("SystemExit", ("BaseException",)),
    ("ArithmeticError", ("Exception",)), ("ZeroDivisionError", ("ArithmeticError",)),
    ("LookupError", ("Exception",)), ("KeyError", ("LookupError",)), ("IndexError", ("LookupError",)),
    ("AttributeError", ("Exception",)), ("TypeError", ("Exception",)), ("ValueError", ("Exception",)),
    ("json.JSONDecodeError", ("ValueError",)), ("UnicodeError", ("ValueError",)),
    ("AssertionError", ("Exception",)), ("RuntimeError", ("Exception",)), ("RecursionError", ("RuntimeError",)),
    ("NameError", ("Exception",)), ("UnboundLocalError", ("NameError",)), ("StopIteration", ("Exception",)),
    ("OSError", ("Exception",)), ("TimeoutError", ("OSError",)), ("MemoryError", ("Exception",)),
    ("ConnectionError", ("OSError",)), ("ConnectionResetError", ("ConnectionError",)), ("ConnectionRefusedError", ("ConnectionError",)),
    ("ConnectionAbortedError", ("ConnectionError",)), ("BrokenPipeError", ("ConnectionError",)), ("PermissionError", ("OSError",)),
    ("FileNotFoundError", ("OSError",)), ("OverflowError", ("ArithmeticError",)), ("NotImplementedError", ("RuntimeError",)),
    ("EOFError", ("Exception",)), ("ImportError", ("Exception",)), ("StopAsyncIteration", ("Exception",)),
    ("asyncio.QueueFull", ("Exception",)), ("asyncio.QueueEmpty", ("Exception",)),
    ("asyncio.QueueShutDown", ("Exception",)), ("ExceptionGroup", ("Exception",)),
    ("asyncio.InvalidStateError", ("Exception",)),
    ("celtypes.BoolType", ("int",)), ("celtypes.IntType", ("int",)), ("celtypes.UintType", ("int",)),
    ("celtypes.DoubleType", ("float",)), ("celtypes.StringType", ("str",)), ("celtypes.BytesType", ("bytes",)),
    ("celtypes.MapType", ("dict",)), ("celtypes.MessageType", ("celtypes.MapType",)), ("celtypes.ListType", ("list",)),
    ("celtypes.TimestampType", ("datetime",)), ("celtypes.DurationType", ("timedelta",)), ("celtypes.NullType", ()),
    ("celtypes.TypeType", ()), ("celtypes.FunctionType", ()),
    ("celpy.CELEvalError", ("Exception",)), ("celpy.CELParseError", ("Exception",)), ("celpy.Runner", ()),
    ("celpy.Environment", ()), ("kr8s.ServerError", ("Exception",)), ("kr8s.NotFoundError", ("Exception",)),
    ("kr8s.APIObject", ()), ("kr8s.Api", ()), ("lark.Tree", ()), ("lark.Token", ("str",)),
    ("fastjsonschema.JsonSchemaException", ("ValueError",)),
    ("fastjsonschema.JsonSchemaValueException", ("fastjsonschema.JsonSchemaException",)),
    ("fastjsonschema.JsonSchemaDefinitionException", ("fastjsonschema.JsonSchemaException",)),
    ("asyncio.Queue", ()), ("asyncio.LifoQueue", ("asyncio.Queue",)), ("asyncio.Task", ()), ("asyncio.Event", ()),
    ("function_", ()), ("type", ()), ("module_", ()), ("defaultdict", ("dict",)), ("re.Match", ()), ("re.Pattern", ()),
]:
    add_class(n, *ps)

NoneV = z3.Const("None_", V)


def isa(t, *names):
    """z3: the class of t is (a subclass of) one of names."""
    ids = sorted({CLASSES[d] for n in names for d in descendants(n)})
    c = cls(t)
    if len(ids) == 1:
        return c == ids[0]
    # compress into ranges
    out, lo, hi = [], ids[0], ids[0]
    for i in ids[1:]:
        if i == hi + 1:
            hi = i
        else:
            out.append((lo, hi)); lo = hi = i
    out.append((lo, hi))
    return z3.Or([c == a if a == b else z3.And(c >= a, c <= b) for a, b in out])


def exact(t, name):
    return cls(t) == CLASSES[name]


def is_record(t):
    recs = sorted(RECORDS)
    return isa(t, *recs) if recs else z3.BoolVal(False)


def truth(t):
    empty_recs = [r for r in RECORDS if not FIELDS.get(r)]
    full_recs = [r for r in RECORDS if FIELDS.get(r)]
    e = utruth(t)
    if full_recs:
        e = z3.If(isa(t, *full_recs), z3.BoolVal(True), e)
    e = z3.If(isa(t, "BaseException", "celpy.Runner", "kr8s.APIObject", "kr8s.Api", "celtypes.NullType", "lark.Tree",
                  "asyncio.Queue", "asyncio.Task", "asyncio.Event", "function_", "type", "re.Match", "re.Pattern", *PLAIN), z3.BoolVal(True), e)
    e = z3.If(isa(t, "float"), rv(t) != 0, e)
    lst = isa(t, "list") if not RECORDS else z3.Or(isa(t, "list"), z3.And(isa(t, "tuple"), z3.Not(isa(t, *full_recs) if full_recs else z3.BoolVal(False))))
    e = z3.If(lst, ln(t) != 0, e)
    e = z3.If(isa(t, "dict", "set", "frozenset"), klen(t) != 0, e)
    e = z3.If(isa(t, "str"), sv(t) != lit(""), e)
    e = z3.If(isa(t, "int"), iv(t) != 0, e)
    if empty_recs:
        e = z3.If(isa(t, *empty_recs), z3.BoolVal(False), e)
    return z3.If(isa(t, "NoneType"), z3.BoolVal(False), e)


PLAIN = []     # plain koreo classes (no __bool__/__len__): always truthy


def keyof(t):
    """the dictionary key denoted by object t (ground definition is added by the engine as facts)"""
    return key(t)


def key_facts(t):
    """ground facts linking key(t) with t's observations"""
    k = key(t)
    return [
        z3.Implies(isa(t, "str"), k == kstr(sv(t))),
        z3.Implies(isa(t, "int"), k == kint(iv(t))),
        z3.Implies(z3.Not(isa(t, "str", "int")), kkind(k) >= 2),
    ]


def kstr_of(s):
    return kstr(s if isinstance(s, z3.ExprRef) else lit(s))


def background():
    """quantified background axioms; each has an explicit trigger"""
    s, i, t, k = z3.Const("s", S), z3.Const("i", I), z3.Const("t", V), z3.Const("k", K)
    u, k2 = z3.Const("u", V), z3.Const("k2", K)
    ax = [
        z3.ForAll([s], z3.And(kstr_inv(kstr(s)) == s, kkind(kstr(s)) == 0), patterns=[kstr(s)]),
        z3.ForAll([i], z3.And(kint_inv(kint(i)) == i, kkind(kint(i)) == 1), patterns=[kint(i)]),
        z3.ForAll([t], z3.And(
            z3.Implies(isa(t, "str"), key(t) == kstr(sv(t))),
            z3.Implies(isa(t, "int"), key(t) == kint(iv(t))),
            z3.Implies(z3.Not(isa(t, "str", "int")), kkind(key(t)) >= 2),
            z3.Implies(kkind(key(t)) == 3, z3.And(isa(t, "tuple"), ln(t) == 2, key(la(t)[0]) == kp1(key(t)), key(la(t)[1]) == kp2(key(t))))), patterns=[key(t)]),
        z3.ForAll([k, k2], z3.And(kp1(kpair(k, k2)) == k, kp2(kpair(k, k2)) == k2, kkind(kpair(k, k2)) == 3), patterns=[kpair(k, k2)]),
        z3.ForAll([t], klen(t) >= 0, patterns=[klen(t)]),
        z3.ForAll([t], ln(t) >= 0, patterns=[ln(t)]),
        z3.ForAll([t, k], z3.Implies(klen(t) == 0, z3.Not(dom(t)[k])), patterns=[z3.MultiPattern(klen(t), dom(t)[k])]),
        z3.ForAll([t, i], z3.Implies(z3.And(0 <= i, i < klen(t)),
                                     z3.And(dom(t)[key(kat(t, i))], kidx(t, key(kat(t, i))) == i)),
                  patterns=[kat(t, i)]),
        z3.ForAll([t], z3.Implies(isa(t, "str"), tostr(t) == sv(t)), patterns=[tostr(t)]),
        z3.ForAll([t, u], z3.Implies(z3.And(isa(t, "str"), isa(u, "str")), pyeq(t, u) == (sv(t) == sv(u))), patterns=[pyeq(t, u)]),
        z3.ForAll([t, u], z3.Implies(z3.And(isa(t, "int"), isa(u, "int")), pyeq(t, u) == (iv(t) == iv(u))), patterns=[pyeq(t, u)]),
        z3.ForAll([t, u], z3.Implies(z3.And(isa(t, "float"), isa(u, "float")), pyeq(t, u) == (rv(t) == rv(u))), patterns=[pyeq(t, u)]),
        z3.ForAll([t, u], z3.Implies(z3.And(isa(t, "int"), isa(u, "float")), pyeq(t, u) == (z3.ToReal(iv(t)) == rv(u))), patterns=[pyeq(t, u)]),
        z3.ForAll([t, u], z3.Implies(z3.And(isa(t, "float"), isa(u, "int")), pyeq(t, u) == (z3.ToReal(iv(u)) == rv(t))), patterns=[pyeq(t, u)]),
        # objects of different basic kinds never compare equal
        z3.ForAll([t, u], z3.Implies(z3.And(isa(t, "str"), z3.Not(isa(u, "str")), isa(u, "int", "float", "NoneType", "dict", "list", "tuple", "set")), z3.Not(pyeq(t, u))), patterns=[pyeq(t, u)]),
        z3.ForAll([t, u], z3.Implies(z3.And(isa(u, "str"), z3.Not(isa(t, "str")), isa(t, "int", "float", "NoneType", "dict", "list", "tuple", "set")), z3.Not(pyeq(t, u))), patterns=[pyeq(t, u)]),
        z3.ForAll([t, u], z3.Implies(z3.Xor(isa(t, "NoneType"), isa(u, "NoneType")), z3.Not(pyeq(t, u))), patterns=[pyeq(t, u)]),
        z3.ForAll([t, u], z3.Implies(z3.And(isa(t, "bool", "int", "float"), isa(u, "dict", "list", "tuple", "set")), z3.Not(pyeq(t, u))), patterns=[pyeq(t, u)]),
        z3.ForAll([t, u], z3.Implies(z3.And(isa(u, "bool", "int", "float"), isa(t, "dict", "list", "tuple", "set")), z3.Not(pyeq(t, u))), patterns=[pyeq(t, u)]),
        cls(NoneV) == CLASSES["NoneType"],
        z3.ForAll([t], z3.Implies(cls(t) == CLASSES["NoneType"], t == NoneV), patterns=[cls(t)]),
        z3.ForAll([t], z3.Implies(isa(t, "bool", "celtypes.BoolType"), z3.And(iv(t) >= 0, iv(t) <= 1)), patterns=[iv(t)]),
    ]
    # what json.dumps accepts
    jo = z3.Function("json_ok", V, B)
    ax += [
        z3.ForAll([t], z3.Implies(jo(t), isa(t, "NoneType", "str", "int", "float", "dict", "list", "tuple")), patterns=[jo(t)]),
        z3.ForAll([t, k], z3.Implies(z3.And(jo(t), isa(t, "dict"), dom(t)[k]), jo(mp(t)[k])), patterns=[z3.MultiPattern(jo(t), mp(t)[k])]),
        z3.ForAll([t, i], z3.Implies(z3.And(jo(t), isa(t, "list", "tuple"), 0 <= i, i < ln(t)), jo(la(t)[i])), patterns=[z3.MultiPattern(jo(t), la(t)[i])]),
    ]
    return ax


def record_axioms():
    """a NamedTuple has as many items as fields"""
    t = z3.Const("t", V)
    out = []
    for names, n in (([r for r in sorted(RECORDS) if not FIELDS.get(r)], 0), ([r for r in sorted(RECORDS) if FIELDS.get(r)], 1)):
        if names:
            out.append(z3.ForAll([t], z3.Implies(isa(t, *names), ln(t) == 0 if n == 0 else ln(t) >= 1), patterns=[ln(t)]))
    return out
