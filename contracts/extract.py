"""koreo/cel/structure_extractor.py: every named access of an expression is found (C14), on any parse tree (C20)."""
from .common import *

MOD = "koreo.cel.structure_extractor"
TREE, TOKEN = "lark.Tree", "lark.Token"
data, children, ttype, tvalue = fld("data"), fld("children"), fld("type"), fld("value")
BOOL = z3.BoolSort()
cat3 = z3.Function("cat3", T.S, T.S, T.S, T.S)                   # x + separator + n, as str.join makes it
text = z3.Function("celstr", T.S, T.S)                           # celpy's reading of a string literal
quoted = z3.Function('fmt:"{}"', T.S, T.S)
named = z3.Function("names_only", V, T.S, BOOL)                  # the member consists of the name x and nothing else
solo = z3.Function("consists_of_name", V, T.S, BOOL)             # the expression consists of the name x and nothing else
strlit = z3.Function("is_the_string", V, T.S, BOOL)              # the expression is the string literal n
access = z3.Function("accesses", V, T.S, T.S, BOOL)              # the subtree is x.n or x['n']
refers = z3.Function("refers_to", V, T.S, T.S, BOOL)             # x.n or x['n'] occurs somewhere in the expression
subtrees = z3.Function("subtrees", V, V)                         # lark: every subtree, itself included
LEVELS = ["expr", "conditionalor", "conditionaland", "relation", "addition", "multiplication", "unary"]


def d(t, *names):
    return z3.Or([sv(data(t)) == lit(n) for n in names])


def ch(t, i):
    return la(children(t))[i]


def nch(t):
    return ln(children(t))


def plain(n):
    """a label: no dots, no brackets"""
    return z3.And(z3.Not(substr(lit("."), n)), z3.Not(substr(lit("["), n)))


def tree(t):
    return isa(t, TREE)


def label(t, n):
    """how an access names the field n"""
    return z3.If(z3.And(d(t, "member_index"), z3.Not(plain(n))), quoted(n), n)


def axioms(e):
    if getattr(e, "_extract_ax", False):
        return
    e._extract_ax = True
    t, i, x, n = z3.Const("xt", V), z3.Const("xi", I), z3.Const("xx", T.S), z3.Const("xn", T.S)
    tok = lambda y: isa(y, TOKEN)
    A = e.extra_axioms
    D = data(t)
    # the CEL grammar (celpy/cel.lark): shape of the node kinds
    shape = lambda kinds, f: z3.ForAll([t], z3.Implies(z3.And(tree(t), d(t, *kinds)), f), patterns=[D])
    A += [
        z3.ForAll([t], z3.Implies(tree(t), z3.And(isa(D, "str"), T.exact(children(t), "list"), nch(t) >= 0)), patterns=[D]),
        z3.ForAll([t], z3.Implies(tree(t), z3.And(isa(D, "str"), T.exact(children(t), "list"), nch(t) >= 0)), patterns=[children(t)]),
        z3.ForAll([t, i], z3.Implies(z3.And(tree(t), 0 <= i, i < nch(t)), isa(ch(t, i), TREE, TOKEN)), patterns=[ch(t, i)]),
        shape(["member_dot", "member_dot_arg"], z3.And(nch(t) >= 2, tree(ch(t, 0)), tok(ch(t, 1)))),
        shape(["member_index"], z3.And(nch(t) == 2, tree(ch(t, 0)), tree(ch(t, 1)))),
        shape(["member", "primary"], z3.And(nch(t) == 1, tree(ch(t, 0)))),
        shape(["paren_expr"], z3.And(nch(t) == 1, tree(ch(t, 0)), d(ch(t, 0), "expr"))),
        shape(["ident", "dot_ident"], z3.And(nch(t) == 1, tok(ch(t, 0)))),
        shape(["literal"], z3.And(nch(t) == 1, tok(ch(t, 0)))),
        z3.ForAll([t], z3.Implies(tok(t), z3.And(isa(ttype(t), "str"))), patterns=[ttype(t)]),
        z3.ForAll([t], z3.Implies(tok(t), z3.And(isa(tvalue(t), "str"))), patterns=[tvalue(t)]),
    ]
    for a, b in zip(LEVELS, LEVELS[1:] + ["member"]):
        A.append(shape([a], z3.Implies(nch(t) == 1, z3.And(tree(ch(t, 0)), d(ch(t, 0), b)))))
    # definitions (unfolding)
    c0 = ch(t, 0)
    A += [
        z3.ForAll([t, x], z3.Implies(named(t, x), z3.And(tree(t), z3.Or(z3.And(d(t, "member", "primary"), named(c0, x)), z3.And(d(t, "paren_expr"), solo(c0, x)), z3.And(d(t, "ident", "dot_ident"), T.tostr(c0) == x)))), patterns=[named(t, x)]),
        z3.ForAll([t, x], z3.Implies(solo(t, x), z3.And(tree(t), z3.If(d(t, "member"), named(t, x), z3.And(nch(t) == 1, solo(c0, x))))), patterns=[solo(t, x)]),
        z3.ForAll([t, n], z3.Implies(strlit(t, n), z3.And(tree(t), nch(t) == 1, z3.If(d(t, "literal"), z3.And(z3.Or(sv(ttype(c0)) == lit("STRING_LIT"), sv(ttype(c0)) == lit("MLSTRING_LIT")), n == text(sv(c0))),
                                                                              z3.And(z3.Not(d(t, "ident", "member_object")), tree(c0), strlit(c0, n))))), patterns=[strlit(t, n)]),
        z3.ForAll([t, x, n], z3.Implies(access(t, x, n), z3.And(tree(t), named(c0, x), z3.If(d(t, "member_dot"), T.tostr(ch(t, 1)) == n, z3.And(d(t, "member_index"), strlit(ch(t, 1), n))))), patterns=[access(t, x, n)]),
    ]
    w = z3.Function("refers_w", V, T.S, T.S, I)
    at = la(subtrees(t))[w(t, x, n)]
    A += [
        z3.ForAll([t], z3.And(T.exact(subtrees(t), "list"), ln(subtrees(t)) >= 0), patterns=[subtrees(t)]),
        z3.ForAll([t, i], z3.Implies(z3.And(tree(t), 0 <= i, i < ln(subtrees(t))), tree(la(subtrees(t))[i])), patterns=[la(subtrees(t))[i]]),
        z3.ForAll([t, x, n], z3.Implies(refers(t, x, n), z3.And(tree(t), 0 <= w(t, x, n), w(t, x, n) < ln(subtrees(t)), access(at, x, n))), patterns=[refers(t, x, n)]),
    ]


def iter_subtrees(e, st, o, args, kw, node):
    if args or kw:
        return None
    t = e.snap(st, o)
    s = e.guard(st, tree(t), "AttributeError")
    if s is None:
        return []
    e.models.note("lark Tree.iter_subtrees yields every subtree of the parse tree, itself included")
    return [(s, e.iter_of_list(s, SV(subtrees(t))))]


def celstr(e, st, args, kw, node):
    if len(args) != 1 or kw:
        return None
    t = e.to_v(st, args[0])
    e.models.note("celpy celstr(token) is celpy's own reading of a string literal token, and is total on them")
    s = e.guard(st, isa(t, TOKEN), "AttributeError")
    if s is None:
        return []
    r = e.fresh(V, "celstr")
    s.add(T.exact(r, "celtypes.StringType"), sv(r) == text(sv(t)))
    return [(s, SV(r, "deep"))]


def tree_facts(e, st, v, name, r):
    """ground instances of the shape facts"""
    t = e.snap(st, v)
    if name == "data":
        st.add(z3.Implies(tree(t), isa(r, "str")))
    if name == "children":
        st.add(z3.Implies(tree(t), z3.And(T.exact(r, "list"), ln(r) >= 0)))


def obj(cx, name):
    return cx.eng.to_v(cx.st, cx.v(name))


def setup(e):
    text_axioms(e)
    axioms(e)
    before = e.models.attr_hook
    e.models.attr_hook = lambda *a: (before(*a) if before else None, tree_facts(*a))
    e.models.meth["iter_subtrees"] = iter_subtrees
    e.models.ext["celpy.evaluation.celstr"] = celstr
    e.models.note("parse trees have the shape of celpy's grammar (cel.lark)")


X, N = z3.Const("gx", T.S), z3.Const("gn", T.S)


def is_tree(p="tree"):
    return lambda e, st, a: [("a parse tree", tree(e.to_v(st, a[p])))]


# ---------------------------------------------------------------------------------------------- _process_literal
def literal_post(cx):
    t = cx.a["literal"]
    n = text(sv(t))
    return [("text", isa(cx.res, "str")), ("a string literal is named by its text", z3.Implies(z3.Or(sv(ttype(t)) == lit("STRING_LIT"), sv(ttype(t)) == lit("MLSTRING_LIT")), sv(cx.res) == z3.If(plain(n), n, quoted(n))))]


literal = Contract(MOD, "_process_literal", params=params(literal=sym(TOKEN)), pre=lambda e, st, a: [("a token", isa(e.to_v(st, a["literal"]), TOKEN))], cases=returns(literal_post))


# ---------------------------------------------------------------------------------------------- _process_index
def index_post(cx):
    t = cx.a["tree"]
    return [("text or nothing", text_or_none(cx.res)),
            ("a string literal is named by its text", z3.ForAll([N], z3.Implies(strlit(t, N), z3.And(isa(cx.res, "str"), sv(cx.res) == z3.If(plain(N), N, quoted(N)))), patterns=[strlit(t, N)]))]


def index_inv(cx):
    t, t0 = obj(cx, "tree"), cx.p("tree")
    return [("a tree", tree(t)), ("the literal is still ahead", z3.ForAll([N], z3.Implies(strlit(t0, N), strlit(t, N)), patterns=[strlit(t0, N)]))]


index = Contract(MOD, "_process_index", params=params(tree=sym(TREE)), pre=is_tree(), cases=returns(index_post), loops={0: Loop(index_inv)})


# ---------------------------------------------------------------------------------------------- _only_member
def only_post(cx):
    t = cx.a["tree"]
    return [("a member or nothing", z3.Or(cx.res == T.NoneV, z3.And(tree(cx.res), d(cx.res, "member")))),
            ("a name stays the name", z3.ForAll([X], z3.Implies(solo(t, X), named(cx.res, X)), patterns=[solo(t, X)]))]


def only_inv(cx):
    t, t0 = obj(cx, "tree"), cx.p("tree")
    return [("an expression", z3.And(tree(t), d(t, *LEVELS, "member"))), ("the name is still ahead", z3.ForAll([X], z3.Implies(solo(t0, X), solo(t, X)), patterns=[solo(t0, X)]))]


only = Contract(MOD, "_only_member", params=params(tree=sym(TREE)), pre=lambda e, st, a: is_tree()(e, st, a) + [("an expression", d(e.to_v(st, a["tree"]), *LEVELS, "member"))], cases=returns(only_post), loops={0: Loop(only_inv)})


# ---------------------------------------------------------------------------------------------- _process_member
def member_post(cx):
    t = cx.a["tree"]
    return [("text or nothing", text_or_none(cx.res)),
            ("an access is named by its path", z3.ForAll([X, N], z3.Implies(access(t, X, N), z3.And(isa(cx.res, "str"), sv(cx.res) == cat3(X, lit("."), label(t, N)))), patterns=[access(t, X, N)]))]


def member_inv(cx):
    t, t0, ts = obj(cx, "tree"), cx.p("tree"), cx.t("terminals")
    j = z3.Const("tj", I)
    return [("a tree or nothing", z3.Or(t == T.NoneV, tree(t))), ("terms are texts", z3.And(T.exact(ts, "list"), ln(ts) >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(ts)), isa(la(ts)[j], "str")), patterns=[la(ts)[j]]))),
            ("the name of the access is still ahead", z3.ForAll([X, N], z3.Implies(access(t0, X, N), z3.Or(z3.And(t == t0, ln(ts) == 0), z3.And(named(t, X), ln(ts) == 1, sv(la(ts)[0]) == label(t0, N)))), patterns=[access(t0, X, N)]))]


member = Contract(MOD, "_process_member", params=params(tree=sym((TREE, "NoneType"))), pre=lambda e, st, a: [("a parse tree or nothing", z3.Or(tree(e.to_v(st, a["tree"])), e.to_v(st, a["tree"]) == T.NoneV))],
                  cases=returns(member_post), loops={0: Loop(member_inv)})


# ---------------------------------------------------------------------------------------------- extract_argument_structure
def path(x, n):
    return T.kstr(cat3(x, lit("."), n))


def extract_post(cx):
    t, r = cx.a["compiled"], cx.res
    k = z3.Const("gk", K)
    return [("a set", T.exact(r, "set")), ("of texts", z3.And(z3.ForAll([k], z3.Implies(dom(r)[k], T.kkind(k) == 0), patterns=[dom(r)[k]]))),
            ("every named access is in it", z3.ForAll([X, N], z3.Implies(z3.And(refers(t, X, N), plain(N)), dom(r)[path(X, N)]), patterns=[refers(t, X, N)]))]


def extract_inv(cx):
    r = cx.t("var_map")
    j, k = z3.Const("ej", I), z3.Const("ek", K)
    at = la(cx.src)[j]
    return [("a set", T.exact(r, "set")), ("of texts", z3.And(z3.ForAll([k], z3.Implies(dom(r)[k], T.kkind(k) == 0), patterns=[dom(r)[k]]))),
            ("every access so far is in it", z3.ForAll([j, X, N], z3.Implies(z3.And(0 <= j, j < cx.i, access(at, X, N), plain(N)), dom(r)[path(X, N)]), patterns=[access(at, X, N)]))]


extract = Contract(MOD, "extract_argument_structure", params=params(compiled=sym(TREE)), pre=is_tree("compiled"), cases=returns(extract_post), loops={0: Loop(extract_inv)})

CONTRACTS = [literal, index, only, member, extract]
