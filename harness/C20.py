"""C20 at run time: preparing anything gives a prepared resource or PermFail/Retry with a message; schema violations give PermFail first."""
import ast
import pathlib
import yaml
from lib import *
from koreo.cel.functions import koreo_function_annotations

SCHEMAS = {}
for f in os.listdir(os.path.join(os.path.dirname(schema.__file__))):
    if f.endswith(".yaml"):
        for d in yaml.safe_load_all(open(os.path.join(os.path.dirname(schema.__file__), f))):
            if d and d.get("kind") == "CustomResourceDefinition":
                SCHEMAS[d["spec"]["names"]["kind"]] = {v["name"]: v["schema"]["openAPIV3Schema"]["properties"]["spec"] for v in d["spec"]["versions"]}
SCHEMA = {k: v.get("v1beta1") or next(iter(v.values())) for k, v in SCHEMAS.items()}


def violates(s, v):
    """own JSON-schema checker for the vocabulary the bundled CRDs use; a reason, or None"""
    if v is None and s.get("nullable") is True:
        return None
    t = s.get("type")
    ok = {"object": isinstance(v, dict), "array": isinstance(v, list), "string": isinstance(v, str), "boolean": isinstance(v, bool),
          "integer": isinstance(v, int) and not isinstance(v, bool) or isinstance(v, float) and v.is_integer(),
          "number": isinstance(v, (int, float)) and not isinstance(v, bool)}
    if t and not ok[t]:
        return f"not {t}"
    if "enum" in s and v not in s["enum"]:
        return "enum"
    if isinstance(v, dict):
        for r in s.get("required", ()):
            if r not in v:
                return f"required {r}"
        if len(v) > s.get("maxProperties", 1e9) or len(v) < s.get("minProperties", 0):
            return "properties count"
        for k, sub in s.get("properties", {}).items():
            if k in v:
                r = violates(sub, v[k])
                if r:
                    return f"{k}: {r}"
        if isinstance(s.get("additionalProperties"), dict):
            for k in v:
                if k not in s.get("properties", {}):
                    r = violates(s["additionalProperties"], v[k])
                    if r:
                        return f"{k}: {r}"
    if isinstance(v, list):
        if len(v) > s.get("maxItems", 1e9) or len(v) < s.get("minItems", 0):
            return "items count"
        for x in v if "items" in s else ():
            r = violates(s["items"], x)
            if r:
                return f"[]: {r}"
    if isinstance(v, str) and (len(v) > s.get("maxLength", 1e9) or len(v) < s.get("minLength", 0)):
        return "length"
    if isinstance(v, (int, float)) and not isinstance(v, bool) and (v < s.get("minimum", -float("inf")) or v > s.get("maximum", float("inf"))):
        return "range"
    for k, pred in (("oneOf", lambda n, m: n == 1), ("anyOf", lambda n, m: n >= 1), ("allOf", lambda n, m: n == m)):
        if k in s:
            n = sum(violates(x, v) is None for x in s[k])
            if not pred(n, len(s[k])):
                return k
    return None


# ------------------------------------------------------------------------------------------------ expressions of any shape
IDS = ["inputs", "steps", "parent", "locals", "resource", "x", "value", "template", "nope", "size", "steps2", "parents"]
LITS = ["0", "1", "-3", "0x1F", "7u", "1.5", ".5", "1e3", "true", "false", "null", "'s'", '"d"', "r'raw\\n'", '"""tri"ple"""', "''", "b'by'", "B\"x\"", "'\\u00e9'", "'it\\'s'", "'a.b'", "'a[0]'"]


def gexpr(rng, d):
    """grammar-directed: every production of CEL"""
    if d <= 0:
        return rng.choice([rng.choice(IDS), rng.choice(LITS), f"{rng.choice(IDS)}.{rng.choice(IDS)}", f"{rng.choice(['steps', 'inputs', 'parent'])}['{rng.choice(IDS)}']"])

    def e():
        return gexpr(rng, d - 1 - (rng.random() < 0.4))

    def m():
        return gmember(rng, d - 1)
    k = rng.randrange(12)
    if k == 0:
        return f"{m()} ? {m()} : {e()}"
    if k == 1:
        return f"{m()} {rng.choice(['||', '&&'])} {m()}"
    if k == 2:
        return f"{m()} {rng.choice(['<', '<=', '>', '>=', '==', '!=', ' in '])} {m()}"
    if k == 3:
        return f"{m()} {rng.choice('+-*/%')} {m()}"
    if k == 4:
        return f"{rng.choice(['!', '-', '!!', '--'])}{m()}"
    return m()


def gmember(rng, d):
    if d <= 0:
        return gexpr(rng, 0)

    def e():
        return gexpr(rng, d - 1)

    def es(lo=0):
        return ", ".join(e() for _ in range(rng.randint(lo, 2)))
    k = rng.randrange(14)
    if k < 3:
        return f"{gmember(rng, d - 1)}.{rng.choice(IDS)}"
    if k < 5:
        return f"{gmember(rng, d - 1)}[{e()}]"
    if k == 5:
        return f"{gmember(rng, d - 1)}.{rng.choice(['map', 'filter', 'all', 'exists', 'exists_one', 'startsWith', 'f', 'size'])}({es()})"
    if k == 6:
        return f"{gmember(rng, d - 1)}.{rng.choice(['map', 'filter', 'all'])}(x, {e()})"
    if k == 7:
        return f"{rng.choice(IDS + ['has', 'dyn', 'to_ref', 'overlay'])}({es()})"
    if k == 8:
        return f"({e()})"
    if k == 9:
        return f"[{es()}]"
    if k == 10:
        return f"{{{', '.join(f'{e()}: {e()}' for _ in range(rng.randint(0, 2)))}}}"
    if k == 11:
        return f".{rng.choice(IDS)}" + (f"({es()})" if rng.random() < 0.4 else "")
    if k == 12:
        return f"{rng.choice(['Foo', 'a.b.C'])}{{{', '.join(f'f{j}: {e()}' for j in range(rng.randint(0, 2)))}}}"
    return f"has({gmember(rng, d - 1)}.{rng.choice(IDS)})"


API = {"apiVersion": "example.dev/v1", "kind": "Widget", "plural": "widgets", "name": "obj", "namespace": "ns"}


def pred(rng, x):
    return {"assert": x(), **rng.choice([{"ok": {}}, {"skip": {"message": x()}}, {"depSkip": {"message": "m"}}, {"retry": {"message": x(), "delay": 3}}, {"permFail": {"message": x()}}])}


def wellformed(rng, kind, x):
    """a spec of the right shape; x() gives a value for an expression-bearing field"""
    def mp(n=3):
        return {f"k{j}": rng.choice([lambda: x(), lambda: {"in": x()}, lambda: [x(), 2], lambda: "static", lambda: {}, lambda: None, lambda: 5])() for j in range(rng.randint(0, n))}
    s = {}
    if kind == "ValueFunction":
        if rng.random() < 0.5:
            s["preconditions"] = [pred(rng, x) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.5:
            s["locals"] = mp()
        if "preconditions" not in s or rng.random() < 0.8:
            s["return"] = mp()
    elif kind == "ResourceFunction":
        s["apiConfig"] = dict(API)
        if rng.random() < 0.4:
            s["apiConfig"]["name"] = x()
        if rng.random() < 0.2:
            s["apiConfig"]["namespace"] = x()
        for k in ("preconditions", "postconditions"):
            if rng.random() < 0.4:
                s[k] = [pred(rng, x) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.4:
            s["locals"] = mp()
        if rng.random() < 0.6:
            s["resource"] = mp()
        else:
            s["resourceTemplateRef"] = {"name": x()}
        if rng.random() < 0.5:
            s["overlays"] = [rng.choice([lambda: {"overlay": mp()}, lambda: {"overlayRef": {"kind": "ValueFunction", "name": rng.choice(["vf", "gone", "badvf"])}, "inputs": mp()},
                                         lambda: {"overlay": {"a": x()}, "skipIf": x()}, lambda: {"overlayRef": {"kind": "ValueFunction", "name": "vf"}, "skipIf": x()}])() for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.4:
            s["create"] = rng.choice([{"enabled": False}, {"delay": 5}, {"overlay": mp()}, {"enabled": True, "delay": 3, "overlay": mp()}])
        if rng.random() < 0.4:
            s["update"] = rng.choice([{"patch": {"delay": 3}}, {"recreate": {"delay": 3}}, {"never": {}}])
        if rng.random() < 0.4:
            s["return"] = mp()
    elif kind == "ResourceTemplate":
        s["template"] = {"apiVersion": "v1", "kind": "X", **mp()}
        if rng.random() < 0.4:
            s["context"] = mp()
    elif kind == "Workflow":
        if rng.random() < 0.3:
            s["crdRef"] = {"apiGroup": "g.dev", "version": "v1", "kind": "Thing"}
        s["steps"] = []
        for n in range(rng.randint(1, 4)):
            t = {"label": f"step{n}"}
            lk = rng.choice([("ValueFunction", "vf"), ("ValueFunction", "vf"), ("ResourceFunction", "rf"), ("Workflow", "wf"), ("ValueFunction", "gone"), ("ValueFunction", "badvf")])
            if rng.random() < 0.6:
                t["ref"] = {"kind": lk[0], "name": lk[1]}
            else:
                t["refSwitch"] = {"switchOn": x(), "cases": [{"case": f"c{j}", "kind": lk[0], "name": lk[1], **({"default": True} if rng.random() < 0.4 else {})} for j in range(rng.randint(1, 3))]}
            if rng.random() < 0.5:
                t["inputs"] = mp()
            if rng.random() < 0.3:
                t["skipIf"] = x()
            if rng.random() < 0.3:
                t["forEach"] = {"itemIn": x(), "inputKey": "it"}
            if rng.random() < 0.3:
                t["state"] = mp()
            if rng.random() < 0.3:
                t["condition"] = {"type": "Abc", "name": "thing"}
            s["steps"].append(t)
    else:
        kindf, name = rng.choice([("ValueFunction", "vf"), ("ResourceFunction", "rf"), ("ResourceFunction", "rft"), ("ResourceFunction", "rfl"), ("ResourceFunction", "rfl"), ("ResourceFunction", "rfe"), ("ValueFunction", "gone"), ("ValueFunction", "badvf")])
        s["functionRef"] = {"kind": kindf, "name": name}
        if rng.random() < 0.6:
            s["inputs"] = rng.choice([{"a": 1}, {"tmpl": "t"}, {}, {"tmpl": 5, "a": [None, {"b": 1.5}]}])
        if rng.random() < 0.4:
            s["currentResource"] = {"apiVersion": "v1", "kind": "X"}
        s["testCases"] = []
        for n in range(rng.randint(0, 4)):
            t = rng.choice([lambda: {"expectReturn": {"a": 1}}, lambda: {"expectReturn": {}}, lambda: {"expectResource": {"a": 1}}, lambda: {"expectDelete": rng.random() < 0.5},
                            lambda: {"expectOutcome": rng.choice([{"ok": {}}, {"ok": {"x": 1}}, {"skip": {"message": ""}}, {"retry": {"message": "x", "delay": 0}}, {"retry": {"message": "x", "delay": 30.0}}, {"permFail": {"message": "y"}}, {"depSkip": {"message": "z"}}])}, lambda: {}])()
            if rng.random() < 0.2:
                t["expectReturn"] = {"b": 2}
            for k, v in (("variant", True), ("skip", True), ("label", "lab"), ("inputOverrides", {"tmpl": "u"}), ("currentResource", {"kind": "Y"}), ("overlayResource", {"a": x(), "b": {"c": x()}})):
                if rng.random() < 0.25:
                    t[k] = v
            s["testCases"].append(t)
    return s


JUNK = [None, True, False, 0, 1, -1, 2.5, "", "text", "=", "==", "=inputs.a", "=(", "=1 +", [], {}, [None], [1, 2], {"a": 1}, {"": None}, [[]], [{}], {"name": "x"}, {"name": None}, {"kind": "ValueFunction", "name": "vf"},
        10 ** 30, "x" * 5000, list(range(300)), {f"k{i}": i for i in range(60)}, "\x00", "\ud7ff", "a\nb", "a/b/c", "/", "v1/", "Kind.v1.group", ".", "\ud800", "\u00e9", -(10 ** 30), 2 ** 63, [10 ** 30], {"n": {"m": [2 ** 64]}}, [{"assert": True}], "=inputs.\"", 1e308, {"assert": "=true", "ok": {}}]
PREPARED = [("ValueFunction", "vf", {"return": {"a": "=inputs.a"}}), ("ValueFunction", "badvf", {"return": {"a": "=(("}}),
            ("ResourceFunction", "rf", {"apiConfig": {**API, "kind": "Gizmo", "plural": "gizmos"}, "resource": {}}),
            ("ResourceFunction", "rft", {"apiConfig": {**API, "kind": "Gizmo", "plural": "gizmos"}, "resourceTemplateRef": {"name": "=inputs.tmpl"}}),
            ("ResourceFunction", "rfl", {"apiConfig": {**API, "kind": "Gizmo", "plural": "gizmos"}, "locals": {"t": "=inputs.tmpl + 'x'", "u": "=inputs.missing.deep"}, "resourceTemplateRef": {"name": "=locals.t"}}),
            ("ResourceFunction", "rfe", {"apiConfig": {**API, "kind": "Gizmo", "plural": "gizmos"}, "locals": {"t": "=['a'].map(x, x.nosuchfield)"}, "resourceTemplateRef": {"name": "=inputs.tmpl"}}),
            ("Workflow", "wf", {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "vf"}}]})]


def paths(v, p=()):
    yield p
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from paths(v[i], p + (i,))


def get(v, p):
    for k in p:
        v = v[k]
    return v


def put(v, p, x):
    if not p:
        return x
    v = copy.copy(v)
    v[p[0]] = put(v[p[0]], p[1:], x)
    return v


def remove(v, p):
    v = copy.copy(v)
    if len(p) == 1:
        del v[p[0]]
    else:
        v[p[0]] = remove(v[p[0]], p[1:])
    return v


class Recording(dict):
    log = None

    def get(self, k, d=None):
        self.log.append(f"lookup {getattr(k, 'name', k)}")
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.log.append(f"lookup {getattr(k, 'name', k)}")
        return dict.__getitem__(self, k)


def beyond_int64(v, at=()):
    """a number CEL can not represent, in one of the three places FunctionTest converts"""
    if isinstance(v, dict) or isinstance(v, list):
        return any(beyond_int64(x, at + (k,)) for k, x in (v.items() if isinstance(v, dict) else enumerate(v)))
    place = at[:1] == ("inputs",) or len(at) > 2 and at[0] == "testCases" and at[2] in ("inputOverrides", "expectOutcome")
    return place and isinstance(v, int) and not -2 ** 63 <= v < 2 ** 63


def check(h, kind, spec, what):
    info = {"kind": kind, "how": what, "spec": spec}
    why = violates(SCHEMA[kind], spec)
    h.case([kind, spec], sample={"kind": kind, "spec": spec} if what == "expression" else None)
    h.count(("invalid:" if why else "valid:") + kind)
    log = []
    orig = celpy.Environment.compile

    def spy(self, text):
        log.append(f"compile {text}")
        return orig(self, text)

    async def go():
        fresh()
        registry._reset_registries()
        for d in PREPARED:
            await offer(*d)
        store = getattr(cache, "__CACHE", None)
        names = [k for k in vars(cache) if vars(cache)[k] is store and store is not None]
        if names:
            rec = Recording(store)
            rec.log = log
            for n in names:
                setattr(cache, n, rec)
        celpy.Environment.compile = spy
        try:
            direct = await PREP[kind]("it", copy.deepcopy(spec))
        finally:
            celpy.Environment.compile = orig
            for n in names:
                setattr(cache, n, store)
        via = await offer(kind, "it", spec)
        return direct, via
    try:
        direct, via = run(go())
    except Exception as x:
        if kind == "FunctionTest" and isinstance(x, ValueError) and str(x) == "overflow" and beyond_int64(spec):
            h.fail("known:function-test-int-overflow", info, f"{type(x).__name__}: {x}", "an outcome")
            return
        ref = spec.get("functionRef") if kind == "FunctionTest" and isinstance(spec, dict) else None
        if isinstance(x, celpy.CELEvalError) and isinstance(ref, dict) and (ref.get("kind"), ref.get("name")) == ("ResourceFunction", "rfe"):      # whose locals can never be evaluated
            h.fail("known:function-test-locals-raise", info, f"{type(x).__name__}: {x}", "an outcome")
            return
        h.fail(f"raised:{kind}:{type(x).__name__}", info, f"{type(x).__name__}: {x}"[:300] + " " + traceback.format_exc(limit=-1)[-200:], "an outcome")
        return
    for out in (direct, via):
        k = kind_of(out)
        if k in ("Skip", "DepSkip") or isinstance(out, result.Ok):
            h.fail(f"outcome:{kind}", info, show(out), "prepared, PermFail or Retry")
            return
        if k in ("PermFail", "Retry") and not (isinstance(out.message, str) and out.message.strip()):
            h.fail(f"no-message:{kind}", info, show(out), "a message")
            return
        if k == "Ok" and out is None:
            h.fail(f"outcome:{kind}", info, "None", "prepared, PermFail or Retry")
            return
        if why and k != "PermFail":
            h.fail(f"schema:{kind}", info, show(out) if k != "Ok" else "prepared", f"PermFail: spec violates the schema ({why})")
            return
    if why and log:
        h.fail(f"not-first:{kind}", info, log[:3], "rejected before anything is compiled or looked up")


KINDS = ["ValueFunction", "ResourceFunction", "ResourceTemplate", "Workflow", "FunctionTest"]


def expressions(rng, h, i):
    kind = [k for k in KINDS if k != "ResourceTemplate"][i % 4]
    check(h, kind, wellformed(rng, kind, lambda: "=" + gexpr(rng, rng.randint(0, 4))), "expression")


def confused(rng, h, i):
    kind = KINDS[i % 5]
    spec = wellformed(rng, kind, lambda: rng.choice(["=inputs.a", "=1", "='text'", "=steps.step0.a", "=["]))
    for _ in range(rng.choice([1, 1, 1, 2])):
        ps = list(paths(spec))
        p = rng.choice(ps)
        spec = put(spec, p, rng.choice(JUNK)) if not p or rng.random() < 0.7 else remove(spec, p)
        if not isinstance(spec, (dict, list)):
            break
    check(h, kind, spec, "type confusion")


_WORDS = []


def words():
    """the names the preparation code mentions"""
    if not _WORDS:
        found = set()
        for f in sorted(pathlib.Path(os.path.dirname(schema.__file__)).parent.glob("**/prepare.py")):
            found |= {n.value for n in ast.walk(ast.parse(f.read_text())) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier()}
        _WORDS.extend(sorted(found | {"condition", "delay", "message", "namespace"}))
    return _WORDS


def unlisted(rng, h, i):
    """fields the schema does not list where they appear, with names the code knows"""
    kind = KINDS[i % 5]
    spec = wellformed(rng, kind, lambda: rng.choice(["=inputs.a", "=1", "='text'", "=steps.step0.a"]))
    for _ in range(rng.choice([1, 2, 3])):
        ps = [p for p in paths(spec) if isinstance(get(spec, p), dict)]
        p = rng.choice(ps)
        d = get(spec, p)
        k = rng.choice(words())
        if k not in d:
            spec = put(spec, p, {**d, k: rng.choice(JUNK)})
    check(h, kind, spec, "unlisted fields")


def anything(rng, h, i):
    def v(d):
        c = rng.random()
        if d <= 0 or c < 0.4:
            return rng.choice(JUNK)
        if c < 0.7:
            return [v(d - 1) for _ in range(rng.randint(0, 4))]
        return {rng.choice(["steps", "return", "apiConfig", "resource", "locals", "template", "functionRef", "testCases", "preconditions", "a", "kind", "name", "label", "ref"]): v(d - 1) for _ in range(rng.randint(0, 4))}
    check(h, KINDS[i % 5], v(3), "any JSON")


def oversized(rng, h, i):
    kind = KINDS[i % 5]
    spec = wellformed(rng, kind, lambda: "=1")
    if kind == "Workflow":
        spec["steps"] = [{"label": f"step{n:03d}", "ref": {"kind": "ValueFunction", "name": "vf"}} for n in range(rng.choice([19, 20, 21, 40, 300]))]
    elif kind == "FunctionTest":
        spec["testCases"] = [{"expectReturn": {"a": 1}}] * rng.choice([20, 21, 300])
    elif kind == "ResourceTemplate":
        spec["template"]["big"] = [{"a": [1, 2, {"b": None}]}] * 500
    else:
        spec["preconditions"] = [{"assert": "=true", "skip": {"message": "m"}}] * rng.choice([19, 20, 21, 40])
        spec["locals"] = {"deep": eval("[" * 60 + "1" + "]" * 60), "wide": {f"k{n}": n for n in range(400)}}
    check(h, kind, spec, "oversized")


if __name__ == "__main__":
    main({"expressions": (expressions, 1600, 16000), "confused": (confused, 2500, 25000), "unlisted": (unlisted, 2000, 20000), "anything": (anything, 500, 5000), "oversized": (oversized, 40, 200)},
         "well-formed specs of each kind with grammar-directed CEL expressions (all productions, nesting up to 4) in every expression-bearing field; the same specs with 1-2 paths replaced by "
         "arbitrary JSON or removed; the same specs with fields the schema does not list, named as the code names them; arbitrary JSON; oversized lists. Every spec goes through prepare_* and through the cache; an independent schema checker decides which must be PermFail, "
         "with celpy compilation and cache lookups recorded; all cases are non-trivial, distinct by spec")
