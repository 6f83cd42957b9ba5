"""What is sent to the API server: koreo/resource_function/reconcile (payload helpers), koreo/cel/functions overlays, koreo/cel/encoder.convert_bools
(C06, C08, C11, C12)."""
from .common import *

RC = "koreo.resource_function.reconcile"
MAP, LIST = "celtypes.MapType", "celtypes.ListType"
ERR = "celpy.CELEvalError"
kk = lambda s: T.kstr(lit(s))
DIRECTIVES = [kk("x-koreo-compare-as-set"), kk("x-koreo-compare-as-map"), kk("x-koreo-compare-last-applied")]
META, ANNO, LASTAPP, OWNERS, UID = kk("metadata"), kk("annotations"), kk("koreo.dev/last-applied-configuration"), kk("ownerReferences"), kk("uid")
stripped = z3.Function("stripped", V, V, B)     # stripped(r, o): r is o without directive keys, at every depth
nodir = z3.Function("no_directives", V, B)
deep = z3.Function("deep_merged", V, V, V, B)   # deep_merged(r, base, over)
conv = z3.Function("native", V, V, B)           # native(r, o): r is o in plain Python types
owned = z3.Function("lists_owner", V, V, B)     # lists_owner(refs, ref): one of refs has ref's uid
json_dumps = z3.Function("json_dumps", V, T.S)
json_ok = z3.Function("json_ok", V, B)
plainkeys = z3.Function("plain_keys", V, B)
INF = ("list", "tuple")


def listy(t):
    return isa(t, "list", "tuple")


def has(t, k):
    return dom(t)[k]


def is_dir(k):
    return z3.Or([k == d for d in DIRECTIVES])


def item(o, i):
    return z3.If(isa(o, "set"), T.kat(o, i), la(o)[i])


def size(o):
    return z3.If(isa(o, "set"), klen(o), ln(o))


def getval(t, k):
    return z3.If(has(t, k), mp(t)[k], T.NoneV)


def iff_def(A, pred, args, fwd, trig, wit, wsort, name):
    """pred(args) <-> forall w. fwd(w), with explicit triggers and a skolem witness"""
    w = z3.Const(name + "_w", wsort)
    W = z3.Function(name + "_wit", *[x.sort() for x in args], wsort)
    p = pred(*args)
    A.append(z3.ForAll([*args, w], z3.Implies(p, fwd(w)), patterns=[z3.MultiPattern(p, x) for x in trig(w)]))
    A.append(z3.ForAll([*args], z3.Or(p, z3.Not(fwd(W(*args)))), patterns=[p]))


def axioms(e):
    if getattr(e, "_payload_ax", False):
        return
    e._payload_ax = True
    A = e.extra_axioms
    r, o, b = z3.Const("pr", V), z3.Const("po", V), z3.Const("pb", V)
    k, i = z3.Const("pk", K), z3.Const("pi", I)
    seqs = lambda t: isa(t, "list", "tuple", "set")
    p = stripped(r, o)
    WK, WI = z3.Function("stripped_k", V, V, K), z3.Function("stripped_i", V, V, I)
    fk = lambda k: z3.And(has(r, k) == z3.And(has(o, k), z3.Not(is_dir(k))), z3.Implies(has(r, k), stripped(mp(r)[k], mp(o)[k])))
    fi = lambda i: z3.Implies(z3.And(0 <= i, i < ln(r)), stripped(la(r)[i], item(o, i)))
    A += [
        z3.ForAll([r, o, k], z3.Implies(z3.And(p, isa(o, "dict")), z3.And(T.exact(r, "dict"), fk(k))), patterns=[z3.MultiPattern(p, dom(r)[k])]),
        z3.ForAll([r, o, i], z3.Implies(z3.And(p, seqs(o)), fi(i)), patterns=[z3.MultiPattern(p, la(r)[i])]),
        z3.ForAll([r, o], z3.Implies(p, z3.If(isa(o, "dict"), T.exact(r, "dict"), z3.If(seqs(o), z3.And(T.exact(r, "list"), ln(r) == size(o)), r == o))), patterns=[p]),
        z3.ForAll([r, o], z3.Implies(z3.If(isa(o, "dict"), z3.And(T.exact(r, "dict"), fk(WK(r, o))), z3.If(seqs(o), z3.And(T.exact(r, "list"), ln(r) == size(o), fi(WI(r, o))), r == o)), p), patterns=[p]),
    ]
    # no directive key at any depth
    p = nodir(r)
    WK, WI = z3.Function("nodir_k", V, K), z3.Function("nodir_i", V, I)
    fk = lambda k: z3.Implies(has(r, k), z3.And(z3.Not(is_dir(k)), nodir(mp(r)[k])))
    fi = lambda i: z3.Implies(z3.And(0 <= i, i < ln(r)), nodir(la(r)[i]))
    A += [
        z3.ForAll([r, k], z3.Implies(z3.And(p, isa(r, "dict")), fk(k)), patterns=[z3.MultiPattern(p, dom(r)[k]), z3.MultiPattern(p, mp(r)[k])]),
        z3.ForAll([r, i], z3.Implies(z3.And(p, listy(r)), fi(i)), patterns=[z3.MultiPattern(p, la(r)[i])]),
        z3.ForAll([r], z3.Implies(z3.If(isa(r, "dict"), fk(WK(r)), z3.If(listy(r), fi(WI(r)), z3.Not(isa(r, "set")))), p), patterns=[p]),
    ]
    # ordered deep merge of maps
    p = deep(r, b, o)
    WK = z3.Function("deep_k", V, V, V, K)
    fk = lambda k: z3.And(has(r, k) == z3.Or(has(b, k), has(o, k)),
                          z3.Implies(z3.And(has(b, k), z3.Not(has(o, k))), mp(r)[k] == mp(b)[k]),
                          z3.Implies(has(o, k), z3.If(z3.And(has(b, k), isa(mp(b)[k], MAP), isa(mp(o)[k], MAP)), deep(mp(r)[k], mp(b)[k], mp(o)[k]), mp(r)[k] == mp(o)[k])))
    A += [
        z3.ForAll([r, b, o, k], z3.Implies(p, fk(k)), patterns=[z3.MultiPattern(p, dom(r)[k]), z3.MultiPattern(p, mp(r)[k])]),
        z3.ForAll([r, b, o], z3.Implies(p, T.cls(r) == T.cls(b)), patterns=[p]),
        z3.ForAll([r, b, o], z3.Implies(z3.And(T.cls(r) == T.cls(b), fk(WK(r, b, o))), p), patterns=[p]),
    ]
    # plain Python types (maps keyed by text, numbers or booleans)
    p = conv(r, o)
    WK, WI = z3.Function("conv_k", V, V, K), z3.Function("conv_i", V, V, I)
    fk = lambda k: z3.And(has(r, k) == has(o, k), z3.Implies(has(r, k), conv(mp(r)[k], mp(o)[k])))
    fi = lambda i: z3.Implies(z3.And(0 <= i, i < ln(r)), conv(la(r)[i], la(o)[i]))
    opaque = isa(o, "celtypes.TimestampType", "celtypes.DurationType")
    leafeq = z3.If(isa(o, "celtypes.BoolType"), z3.And(T.exact(r, "bool"), iv(r) == iv(o)),
             z3.If(isa(o, "celtypes.StringType"), z3.And(T.exact(r, "str"), sv(r) == sv(o)),
             z3.If(isa(o, "celtypes.IntType", "celtypes.UintType"), z3.And(T.exact(r, "int"), iv(r) == iv(o)),
             z3.If(isa(o, "celtypes.DoubleType"), z3.And(T.exact(r, "float"), rv_(r) == rv_(o)),
             z3.If(z3.Or(opaque, isa(o, "celtypes.BytesType")), isa(r, "str"),
             z3.If(isa(o, "celtypes.NullType"), r == T.NoneV, r == o))))))
    A += [
        z3.ForAll([r, o, k], z3.Implies(z3.And(p, isa(o, "dict"), plainkeys(o)), fk(k)), patterns=[z3.MultiPattern(p, dom(r)[k]), z3.MultiPattern(p, mp(r)[k])]),
        z3.ForAll([r, o, i], z3.Implies(z3.And(p, listy(o)), fi(i)), patterns=[z3.MultiPattern(p, la(r)[i])]),
        z3.ForAll([r, o], z3.Implies(p, z3.If(isa(o, "dict"), T.exact(r, "dict"), z3.If(listy(o), z3.And(T.exact(r, "list"), ln(r) == ln(o)), leafeq))), patterns=[p]),
        z3.ForAll([r, o], z3.Implies(z3.If(isa(o, "dict"), z3.And(T.exact(r, "dict"), z3.Implies(plainkeys(o), fk(WK(r, o)))), z3.If(listy(o), z3.And(T.exact(r, "list"), ln(r) == ln(o), fi(WI(r, o))), leafeq)), p), patterns=[p]),
    ]
    # every key is text, a number or a boolean
    W = z3.Function("plain_keys_k", V, K)
    A += [
        z3.ForAll([o, k], z3.Implies(z3.And(plainkeys(o), has(o, k)), T.kkind(k) <= 1), patterns=[z3.MultiPattern(plainkeys(o), dom(o)[k])]),
        z3.ForAll([o], z3.Or(plainkeys(o), z3.And(has(o, W(o)), T.kkind(W(o)) > 1)), patterns=[plainkeys(o)]),
    ]
    # one of the references has that uid
    W = z3.Function("lists_owner_i", V, V, I)
    same = lambda x, o: uid_eq(x, o)
    A += [
        z3.ForAll([r, o], z3.Implies(owned(r, o), z3.And(0 <= W(r, o), W(r, o) < ln(r), same(la(r)[W(r, o)], o))), patterns=[owned(r, o)]),
        z3.ForAll([r, o, i], z3.Implies(z3.And(0 <= i, i < ln(r), same(la(r)[i], o)), owned(r, o)), patterns=[z3.MultiPattern(owned(r, o), la(r)[i])]),
    ]


def rv_(t):
    return T.rv(t)


def uid_eq(x, o):
    return T.pyeq(getval(x, UID), getval(o, UID))


def setup(e):
    if getattr(e, "_payload_ax", False):
        return
    axioms(e)
    keysok_axioms(e)
    text_axioms(e)
    e.models.ext["base64.b64encode"] = lambda e, st, args, kw, node: [(st, e.sym(st, "b64", "bytes", own="deep"))]
    e.models.meth["decode"] = lambda e, st, o, args, kw, node: [(st, TV(e.fresh(T.S, "decoded")))]


def opaque_obj(e, st, n):
    return e.sym(st, n)


# ---------------------------------------------------------------------------------------------- directives
strip = Contract(RC, "_strip_koreo_directives", params=params(obj=sym()), cases=returns(lambda cx: [
    ("equal but for directive keys", stripped(cx.res, cx.a["obj"])), ("no directive key at any depth", z3.Implies(z3.Not(isa(cx.a["obj"], "frozenset")), nodir(cx.res)))]))


# ---------------------------------------------------------------------------------------------- what is sent
def annotated(r, p):
    """r is p with the last-applied annotation set to p's JSON"""
    k = z3.Const("ak", K)
    rm, pm = mp(r)[META], mp(p)[META]
    ra, pa = mp(rm)[ANNO], mp(pm)[ANNO]
    text = mp(ra)[LASTAPP]
    return [("maps all the way to the annotation", z3.And(T.exact(r, "dict"), has(r, META), isa(rm, "dict"), has(rm, ANNO), isa(ra, "dict"), has(ra, LASTAPP))),
            ("the annotation is the JSON of the object without it", z3.And(isa(text, "str"), sv(text) == json_dumps(p))),
            ("the annotated object was JSON", json_ok(p)),
            ("no annotation in what was written down", z3.Not(z3.And(has(p, META), isa(pm, "dict"), has(pm, ANNO), isa(pa, "dict"), has(pa, LASTAPP)))),
            ("everything else is as written down", z3.ForAll([k], z3.Implies(k != META, z3.And(has(r, k) == has(p, k), z3.Implies(has(p, k), mp(r)[k] == mp(p)[k]))), patterns=[dom(r)[k], mp(r)[k]])),
            ("metadata but for annotations as well", z3.ForAll([k], z3.Implies(z3.And(has(p, META), k != ANNO), z3.And(has(rm, k) == has(pm, k), z3.Implies(has(pm, k), mp(rm)[k] == mp(pm)[k]))), patterns=[dom(rm)[k], mp(rm)[k]])),
            ("metadata holds nothing else when it was absent", z3.ForAll([k], z3.Implies(z3.And(z3.Not(has(p, META)), k != ANNO), z3.Not(has(rm, k))), patterns=[dom(rm)[k]])),
            ("other annotations as well", z3.ForAll([k], z3.Implies(k != LASTAPP, z3.If(z3.And(has(p, META), has(pm, ANNO)), z3.And(has(ra, k) == has(pa, k), z3.Implies(has(pa, k), mp(ra)[k] == mp(pa)[k])), z3.Not(has(ra, k)))), patterns=[dom(ra)[k], mp(ra)[k]]))]


def without_annotation(p, obj):
    """p is obj stripped of directives, minus the annotation"""
    k = z3.Const("wk", K)
    om, pm = mp(obj)[META], mp(p)[META]
    oa, pa = mp(om)[ANNO], mp(pm)[ANNO]
    return [("written down: the object", z3.And(T.exact(p, "dict"), nodir(p))),
            ("fields as in the object", z3.ForAll([k], z3.Implies(z3.Or(k != META, z3.Not(isa(om, "dict"))), z3.And(has(p, k) == z3.And(has(obj, k), z3.Not(is_dir(k))), z3.Implies(has(p, k), stripped(mp(p)[k], mp(obj)[k])))), patterns=[dom(p)[k]])),
            ("metadata as in the object", z3.And(has(p, META) == has(obj, META), z3.Implies(z3.And(has(obj, META), isa(om, "dict")), z3.And(isa(pm, "dict"), z3.ForAll([k], z3.Implies(z3.Or(k != ANNO, z3.Not(isa(oa, "dict"))), z3.And(has(pm, k) == z3.And(has(om, k), z3.Not(is_dir(k))), z3.Implies(has(pm, k), stripped(mp(pm)[k], mp(om)[k])))), patterns=[dom(pm)[k]]))))),
            ("annotations as in the object, but for the last applied one", z3.Implies(z3.And(has(obj, META), isa(om, "dict"), has(om, ANNO), isa(oa, "dict")), z3.And(has(pm, ANNO), isa(pa, "dict"), z3.ForAll([k], z3.Implies(k != LASTAPP, z3.And(has(pa, k) == z3.And(has(oa, k), z3.Not(is_dir(k))), z3.Implies(has(pa, k), stripped(mp(pa)[k], mp(oa)[k])))), patterns=[dom(pa)[k]]))))]


written = z3.Function("written_down", V, V)      # ghost: what the annotation of a payload describes


def prepare_post(cx):
    r = cx.res
    if getattr(cx, "kind", None) is not None:
        p = cx.st.ghost.get("dumped")
        if p is None:
            return [("the annotation is computed by json.dumps", z3.BoolVal(False))]
        return annotated(r, p) + without_annotation(p, cx.a["obj"]) + [("no directive key at any depth", nodir(r))]
    p = written(r)
    return annotated(r, p) + without_annotation(p, cx.a["obj"]) + [("", nodir(r))]


def odd_annotations(cx):
    """metadata or its annotations are present, but not maps; or the object is not JSON"""
    o = cx.a["obj"]
    m = mp(o)[META]
    return z3.Or(z3.And(has(o, META), z3.Not(isa(m, "dict"))), z3.And(has(o, META), has(m, ANNO), z3.Not(isa(mp(m)[ANNO], "dict"))))


prepare = Contract(RC, "_prepare_for_api", params=params(obj=sym("dict")), pre=lambda e, st, a: [("an object", isa(e.to_v(st, a["obj"]), "dict"))],
                   cases=lambda e, st, a: [Case("payload", post=prepare_post), Case("no payload", outcome="raise", exc=["TypeError", "ValueError", "IndexError"], post=lambda cx: [])],
                   opts={"optional_cases": ("no payload",), "cost": 3})


# ---------------------------------------------------------------------------------------------- owners
def view_refs(v):
    return mp(mp(v)[META])[OWNERS]


def refs_ok(v):
    """metadata is a map, owner references (if any) a list"""
    return z3.And(has(v, META), isa(mp(v)[META], "dict"), z3.Or(z3.Not(has(mp(v)[META], OWNERS)), z3.Not(T.truth(view_refs(v))), listy(view_refs(v))))


def refs_of(v):
    """no references when absent or empty"""
    return z3.And(has(mp(v)[META], OWNERS), T.truth(view_refs(v)))


def updated_post(cx):
    v, ref, r = cx.a["resource_view"], cx.a["owner_ref"], cx.res
    refs = view_refs(v)
    i = z3.Const("ui", I)
    okv = refs_ok(v)
    grown = z3.And(ln(r) == ln(refs) + 1, la(r)[ln(refs)] == ref)
    kept = z3.ForAll([i], z3.Implies(z3.And(okv, refs_of(v), 0 <= i, i < ln(refs)), la(r)[i] == la(refs)[i]), patterns=[la(r)[i], la(refs)[i]])
    return [("a list of references, or a PermFail for a corrupt object", z3.And(z3.Implies(okv, listy(r)), z3.Implies(z3.Not(okv), z3.And(isa(r, PERMFAIL), wf_outcome(r))))),
            ("no references yet: just the parent's", z3.Implies(z3.And(okv, z3.Not(refs_of(v))), z3.And(ln(r) == 1, la(r)[0] == ref))),
            ("already listed: unchanged", z3.Implies(z3.And(okv, refs_of(v), owned(refs, ref)), r == refs)),
            ("otherwise the parent's is appended", z3.Implies(z3.And(okv, refs_of(v), z3.Not(owned(refs, ref))), grown)),
            ("no present reference is dropped", kept)]


def odd_refs(cx):
    v = cx.a["resource_view"]
    refs = view_refs(v)
    w = z3.Function("odd_ref", V, I)(refs)
    return z3.And(refs_ok(v), refs_of(v))


def reffed_post(cx):
    v, ref, r = cx.a["resource_view"], cx.a["owner_ref"], cx.res
    okv = refs_ok(v)
    return [("corrupt object: PermFail", z3.Implies(z3.Not(okv), z3.And(isa(r, PERMFAIL), wf_outcome(r)))),
            ("otherwise whether the parent is listed", z3.Implies(okv, z3.And(isa(r, "bool"), (iv(r) == 1) == z3.And(refs_of(v), owned(view_refs(v), ref)))))]


own_params = params(resource_view=sym("dict"), owner_ref=sym("dict"))
own_pre = lambda e, st, a: [("object and reference are mappings", z3.And(isa(e.to_v(st, a["resource_view"]), "dict"), isa(e.to_v(st, a["owner_ref"]), "dict")))]


def own_cases(post):
    return lambda e, st, a: [Case("references", post=post), Case("a listed reference is no object", outcome="raise", exc=["AttributeError"], when=odd_refs)]


updated = Contract(RC, "_updated_owner_refs", params=own_params, pre=own_pre, cases=own_cases(updated_post), own="shallow")
reffed = Contract(RC, "_validate_owner_reffed", params=own_params, pre=own_pre, cases=own_cases(reffed_post))


# ---------------------------------------------------------------------------------------------- last applied
lastval = z3.Function("last_applied_of", V, V)


def last_post(cx):
    r, o = cx.res, cx.a["resource"]
    if getattr(cx, "kind", None) is None:
        return [("", z3.And(r == lastval(o), z3.Or(r == T.NoneV, isa(r, "dict"))))]
    m = mp(o)[META]
    text = mp(mp(m)[ANNO])[LASTAPP]
    there = z3.And(T.truth(o), has(o, META), T.truth(m), has(m, ANNO), T.truth(mp(m)[ANNO]), has(mp(m)[ANNO], LASTAPP), T.truth(text), z3.Function("jsontext_ok", V, B)(text), isa(text, "str", "bytes"))
    val = z3.Function("json_loads", V, V)(text)
    return [("None or an object", z3.Or(r == T.NoneV, isa(r, "dict"))), ("what the annotation holds", z3.Implies(z3.And(there, isa(val, "dict")), r == val)),
            ("otherwise None", z3.Implies(z3.Not(z3.And(there, isa(val, "dict"))), r == T.NoneV))]


def last_pre(e, st, a):
    o = e.to_v(st, a["resource"])
    m = getval(o, META)
    an = getval(m, ANNO)
    return [("a live object: metadata and annotations are maps", z3.And(isa(o, "dict"), z3.Implies(T.truth(m), z3.And(isa(m, "dict"), z3.Implies(T.truth(an), isa(an, "dict"))))))]


last = Contract(RC, "_extract_last_applied", params=params(resource=sym("dict")), pre=last_pre, cases=returns(last_post))


# ---------------------------------------------------------------------------------------------- identity
def pinned(t, api, name, ns):
    """t carries apiVersion, kind, name (and namespace unless None) of the API class"""
    m = mp(t)[META]
    tx = lambda x: isa(x, "str")
    return z3.And(isa(t, "dict"), has(t, kk("apiVersion")), has(t, kk("kind")), has(t, META), isa(m, "dict"), has(m, kk("name")),
                  tx(mp(t)[kk("apiVersion")]), tx(mp(t)[kk("kind")]), tx(mp(m)[kk("name")]),
                  sv(mp(t)[kk("apiVersion")]) == sv(fld("version")(api)), sv(mp(t)[kk("kind")]) == sv(fld("kind")(api)), sv(mp(m)[kk("name")]) == sv(name),
                  z3.Implies(ns != T.NoneV, z3.And(has(m, kk("namespace")), tx(mp(m)[kk("namespace")]), sv(mp(m)[kk("namespace")]) == sv(ns))))


def fo_params(e, st):
    a = e.sym(st, "resource_api", "type")
    st.add(isa(fld("version")(a.t), "str"), isa(fld("kind")(a.t), "str"))
    e.models.note("version and kind of a kr8s API class are texts")
    return {"resource_api": a, "name": e.sym(st, "name", "str"), "namespace": e.sym(st, "namespace", ("str", "NoneType"))}


def wf_api(t):
    return z3.And(isa(t, "type"), isa(fld("version")(t), "str"), isa(fld("kind")(t), "str"))


def pin_map(t, api, name, ns):
    """all the way CEL maps, nothing but the identity"""
    return z3.And(pinned(t, api, name, ns), isa(t, MAP), isa(mp(t)[META], MAP), T.exact(t, MAP))


forced = Contract(RC, "_forced_overlay", params=fo_params, pre=lambda e, st, a: [("an API class and texts", z3.And(wf_api(e.to_v(st, a["resource_api"])), isa(e.to_v(st, a["name"]), "str"), isa(e.to_v(st, a["namespace"]), "str", "NoneType")))],
                  cases=returns(lambda cx: [("the identity apiConfig names", pin_map(cx.res, cx.a["resource_api"], cx.a["name"], cx.a["namespace"])),
                                            ("no metadata but name and namespace", z3.And(z3.Not(has(mp(cx.res)[META], OWNERS)), z3.Implies(cx.a["namespace"] == T.NoneV, z3.Not(has(mp(cx.res)[META], kk("namespace"))))))]))


# ---------------------------------------------------------------------------------------------- overlays of CEL values
def deep_inv(cx):
    b, o, r = cx.eng.to_v(cx.pre, cx.eng._vargs["resource"]), cx.p("overlay"), cx.t("resource")
    k = z3.Const("dk", K)
    seen = z3.And(has(o, k), T.kidx(o, k) < cx.i)
    f = z3.And(has(r, k) == z3.Or(has(b, k), seen),
               z3.Implies(z3.And(has(b, k), z3.Not(seen)), mp(r)[k] == mp(b)[k]),
               z3.Implies(seen, z3.If(z3.And(has(b, k), isa(mp(b)[k], MAP), isa(mp(o)[k], MAP)), deep(mp(r)[k], mp(b)[k], mp(o)[k]), mp(r)[k] == mp(o)[k])))
    return [("merged so far", z3.ForAll([k], f, patterns=[has(r, k), mp(r)[k]])), ("a mapping of the base's class", T.cls(r) == T.cls(b))]


def keep_args(e, st, args):
    e._vargs = args


maps = lambda e, st, a: [("both are mappings", z3.And(isa(e.to_v(st, a["resource"]), "dict"), isa(e.to_v(st, a["overlay"]), "dict")))]
deep_overlay = Contract("koreo.cel.functions", "_deep_overlay", params=params(resource=sym("dict"), overlay=sym("dict")), pre=maps, setup=keep_args,
                        cases=returns(lambda cx: [("the base with the overlay merged in", deep(cx.res, cx.a["resource"], cx.a["overlay"])), ("a mapping", z3.And(isa(cx.res, "dict"), z3.Not(isa(cx.res, ERR))))]), loops={0: Loop(deep_inv)})
overlay = Contract("koreo.cel.functions", "_overlay", params=params(resource=sym("dict"), overlay=sym("dict")), pre=maps,
                   cases=returns(lambda cx: [("the base with the overlay merged in", deep(cx.res, cx.a["resource"], cx.a["overlay"])), ("a mapping", z3.And(isa(cx.res, "dict"), z3.Not(isa(cx.res, ERR))))]), opts={"mark": "pin"})

# ---------------------------------------------------------------------------------------------- native types
keysok = z3.Function("no_tuple_key_anywhere", V, B)


def keysok_axioms(e):
    o, i = z3.Const("ko", V), z3.Const("ki", I)
    e.extra_axioms += [
        z3.ForAll([o, i], z3.Implies(z3.And(keysok(o), isa(o, "dict"), 0 <= i, i < klen(o)), z3.And(z3.Not(isa(T.kat(o, i), "tuple")), keysok(T.kat(o, i)), keysok(mp(o)[T.key(T.kat(o, i))]))), patterns=[z3.MultiPattern(keysok(o), T.kat(o, i))]),
        z3.ForAll([o, i], z3.Implies(z3.And(keysok(o), listy(o), 0 <= i, i < ln(o)), keysok(la(o)[i])), patterns=[z3.MultiPattern(keysok(o), la(o)[i])])]


convert = Contract("koreo.cel.encoder", "convert_bools", params=params(cel_object=sym()),
                   cases=lambda e, st, a: [Case("converted", post=lambda cx: [("the same value in plain types", conv(cx.res, cx.a["cel_object"]))]),
                                           Case("a tuple as key", outcome="raise", exc=["TypeError"], when=lambda cx: z3.Not(keysok(cx.a["cel_object"])))])

CONTRACTS = [strip, prepare, updated, reffed, last, forced, deep_overlay, overlay, convert]
