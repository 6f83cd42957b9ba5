"""C11 at run time: literal values come out of every block exactly as written."""
import math
import re
from lib import *

NUM = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?")
EDGE = ["", " ", "a", '"', "'", "\\", "\\\\", "\n", "\r\n", "\t", "\\n", 'x"y', "a\\", 'a\\"', '"""', "'''", 'q"\nz', "\\\n", '\n"', "back\\slash\nnew",
        "inf", "nan", "-inf", "Infinity", "NaN", "true", "false", "null", "True", "None", "1_000", " 5", "5 ", "+5", "٣", "１２", "²", "0x10", "1u", "12abc", "1.2.3",
        "1e", "e5", "--5", "- 5", "-", ".", "b'x'", 'r"x"', 'r"""x"""', "${x}", "{{x}}", "%s", "//c", "# c", "has(x)", "inputs.x", "a=b", "x\u2028y", "\x85", "\x00", "\x1b",
        "\\u0041", "\\x41", "\\101", "\\t", "é", "日本", "😀", "\ud800", "\ufeff", "a\"b\\c\nd", "\\\"", "trailing\\\n", "\"\"", "\"\"\"\"", "end\"", "\r", "\x0b\x0c",
        "2024-01-01T00:00:00Z", "10s", "5", "-7", "72.3", "1e5", "-1.5E-3", "007", "0", "1.50", "9007199254740993", "on:off", " =x", "nan ", "1__0", "_1", "1_", "1e1_0"]
ALPHA = ['"', "\\", "\n", "'", "a", " ", "\t", "é", "=", "{", "n", "u", "x", "0", "1", "-", ".", "e", "_", "\r", "😀", ","]
NUMS = [0, 1, -1, 2**31, -2**31, 2**53 + 1, 2**63 - 1, -2**63, 0.5, -0.25, 1e16, 1e-7, 1e300, 5e-324, -1.7976931348623157e308, 3.0, 123456.789]


def text(rng):
    while True:
        s = rng.choice(EDGE) if rng.random() < 0.6 else "".join(rng.choice(ALPHA) for _ in range(rng.randint(1, 8)))
        if s.startswith("=") or re.fullmatch(r"\s*[+-]?[0-9]*\.?[0-9]*([eE][+-]?[0-9]+)?\s*", s) and not NUM.fullmatch(s) and "." in s:
            continue        # '5.' and '.5' are left out: the statement can be read both ways for them
        if NUM.fullmatch(s) and (not math.isfinite(float(s)) or (re.fullmatch(r"-?[0-9]+", s) and abs(int(s)) >= 2**63)):
            continue        # the number itself is out of a 64-bit number's range
        return s


def key(rng):
    while True:
        k = text(rng) if rng.random() < 0.4 else rng.choice(["k", "name", "a.b/c", "x y", "in", "true"])
        if k not in DIRECTIVES:
            return k


def value(rng, depth):
    c = rng.random()
    if depth and c < 0.25:
        return {key(rng): value(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))}
    if depth and c < 0.45:
        return [value(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    if c < 0.8:
        return text(rng)
    return rng.choice(NUMS + [True, False, None])


def delivered(v):
    if isinstance(v, dict):
        return {k: delivered(x) for k, x in v.items()}
    if isinstance(v, list):
        return [delivered(x) for x in v]
    if isinstance(v, str) and NUM.fullmatch(v):
        return int(v) if re.fullmatch(r"-?[0-9]+", v) else float(v)
    return v


def nonum(v):
    """numerals are only converted where a value is an expression: ResourceTemplates are left out of that question"""
    if isinstance(v, dict):
        return {k: nonum(x) for k, x in v.items()}
    if isinstance(v, list):
        return [nonum(x) for x in v]
    return "n" + v if isinstance(v, str) and NUM.fullmatch(v) else v


async def valuefn(spec, inputs):
    r = await offer("ValueFunction", "vf", spec)
    if kind_of(r) != "Ok":
        return r
    return await reconcile_value_function(location="t", function=r, inputs=cel(inputs))


async def resourcefn(spec, c, inputs=None):
    base = {"apiConfig": {"apiVersion": "example.dev/v1", "kind": "Widget", "plural": "widgets", "name": "obj", "namespace": "ns"}}
    r = await offer("ResourceFunction", "fn", base | spec)
    if kind_of(r) != "Ok":
        return r
    return (await reconcile_resource_function(api=c, location="t", function=r, owner=owner_of(), inputs=cel(inputs or {}))).outcome


async def workflow(spec, c):
    r = await offer("Workflow", "wf", spec)
    if kind_of(r) != "Ok":
        return r, None
    res = await reconcile_workflow(api=c, workflow_key="wf", owner=owner_of(), trigger=cel({"metadata": {"name": "t", "namespace": "ns"}, "spec": {}}), workflow=r)
    return res.result, res


async def b_return(v):
    return await valuefn({"return": {"v": v}}, {}), ["v"]


async def b_return_top(v):
    v = v if isinstance(v, dict) and v else {"x": v}
    return await valuefn({"return": v}, {}), [], v


async def b_locals(v):
    return await valuefn({"locals": {"w": v}, "return": {"v": "=locals.w"}}, {}), ["v"]


async def b_resource(v):
    c = Cluster()
    o = await resourcefn({"resource": {"spec": {"v": v}}}, c)
    return sent(c, o), ["spec", "v"]


async def b_overlay(v):
    c = Cluster()
    o = await resourcefn({"resource": {"spec": {"a": 1}}, "overlays": [{"overlay": {"spec": {"v": v}}}]}, c)
    return sent(c, o), ["spec", "v"]


async def b_overlay_fn(v):
    c = Cluster()
    await offer("ValueFunction", "ov", {"return": {"spec": {"v": v}, "in": "=inputs.w"}})
    o = await resourcefn({"resource": {"spec": {"a": 1}}, "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"w": v}}]}, c)
    s = sent(c, o)
    if isinstance(s, dict) and not same(s.get("in"), s.get("spec", {}).get("v")):
        return {"overlay return": s.get("spec", {}).get("v"), "overlay inputs": s.get("in")}, []
    return s, ["spec", "v"]


async def b_create_overlay(v):
    c = Cluster()
    o = await resourcefn({"resource": {"spec": {"a": 1}}, "create": {"overlay": {"spec": {"v": v}}}}, c)
    return sent(c, o), ["spec", "v"]


async def b_template(v):
    c = Cluster()
    v = nonum(v)
    await offer("ResourceTemplate", "tm", {"template": {"apiVersion": "example.dev/v1", "kind": "Widget", "spec": {"v": v}}})
    o = await resourcefn({"resourceTemplateRef": {"name": "tm"}}, c)
    return sent(c, o), ["spec", "v"], v


async def b_patch(v):
    c = Cluster()
    c.put("example.dev/v1", "widgets", "ns", "obj", {"apiVersion": "example.dev/v1", "kind": "Widget", "metadata": {"name": "obj", "namespace": "ns"}, "spec": {"other": 1}})
    o = await resourcefn({"resource": {"spec": {"must": 1, "v": v}}}, c)
    return sent(c, o), ["spec", "v"]


async def b_rf_return(v):
    c = Cluster()
    c.put("example.dev/v1", "widgets", "ns", "obj", {"apiVersion": "example.dev/v1", "kind": "Widget", "metadata": {"name": "obj", "namespace": "ns"}})
    spec = {"locals": {"w": v}, "resource": {"a": 1}, "return": {"v": v, "l": "=locals.w"}}
    spec["apiConfig"] = {"apiVersion": "example.dev/v1", "kind": "Widget", "plural": "widgets", "name": "obj", "namespace": "ns", "readonly": True}
    return await resourcefn(spec, c), ["v"]


async def b_step_inputs(v):
    await offer("ValueFunction", "vf", {"return": {"v": "=inputs.w"}})
    res, full = await workflow({"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"w": v}, "state": {"v": "=value.v"}}]}, Cluster())
    return (full.state if full else res), ["v"]


async def b_state(v):
    await offer("ValueFunction", "vf", {"return": {"a": 1}})
    res, full = await workflow({"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "vf"}, "state": {"v": v}}]}, Cluster())
    return (full.state if full else res), ["v"]


async def b_empty_rf(v):
    c = Cluster()
    c.put("example.dev/v1", "widgets", "ns", "obj", {"apiVersion": "example.dev/v1", "kind": "Widget", "metadata": {"name": "obj", "namespace": "ns"}})
    api = {"apiVersion": "example.dev/v1", "kind": "Widget", "plural": "widgets", "name": "obj", "namespace": "ns", "owned": False}
    return await resourcefn({"apiConfig": api, "resource": {}, "locals": {}, "return": {}}, c), [], {}


async def b_empty_vf(v):
    return await valuefn({"locals": {}, "return": {}}, {}), [], {}


def empty(rng, h, i):
    """a block that is itself an empty map"""
    b = [b_empty_vf, b_empty_rf][i % 2]

    async def go():
        fresh()
        return (await b(None))[0]
    got = run(go())
    h.case([b.__name__, "empty"])
    if kind_of(got) != "Ok" or not same(plain(got), {}):
        h.fail(f"changed:{b.__name__[2:]}", {"return": {}}, show(got), {})


def sent(c, o):
    bodies = [m["body"] for m in c.mutations()]
    return bodies[0] if len(bodies) == 1 else o


BLOCKS = [b_return, b_return_top, b_locals, b_resource, b_overlay, b_overlay_fn, b_create_overlay, b_template, b_patch, b_rf_return, b_step_inputs, b_state]


def literal(rng, h, i):
    b = BLOCKS[i % len(BLOCKS)]
    # the plain edge values come first, then generated structures
    k = i // len(BLOCKS)
    plainv = EDGE + NUMS + [True, False, None, {}, [], {"a": {}}, [[]], [{}], {"a": []}, [None], {"n": None}]
    if k < len(plainv):
        v = plainv[k]
    elif k < 2 * len(plainv):
        e = plainv[k - len(plainv)]
        v = {e: [e]} if isinstance(e, str) else {"deep": [{"er": e}]}
    else:
        v = value(rng, 3)

    async def go():
        fresh()
        return await b(v)
    try:
        r = run(go())
    except Exception as e:
        h.fail(f"raises:{b.__name__[2:]}", {"block": b.__name__[2:], "value": v}, f"{type(e).__name__}: {e}", v)
        return
    got, path = r[0], r[1]
    want = delivered(r[2] if len(r) > 2 else v) if b is not b_template else r[2]
    h.case([b.__name__, v])
    if kind_of(got) != "Ok":
        h.fail(f"not-delivered:{b.__name__[2:]}", {"block": b.__name__[2:], "value": v}, show(got), want)
        return
    got = plain(got)
    for p in path:
        got = got[p] if isinstance(got, dict) and p in got else f"<missing {p} in {got}>"
    if not same(got, want):
        h.fail(f"changed:{b.__name__[2:]}", {"block": b.__name__[2:], "value": v}, got, want)


if __name__ == "__main__":
    main({"literal": (literal, 4800, 40000), "empty": (empty, 2, 2)},
         "literal values (edge strings, numbers, containers, random JSON over a hostile alphabet) in 12 blocks: ValueFunction return/top-level "
         "keys/locals, resource, overlay, overlay function, create overlay, template, patch, ResourceFunction return/locals, step inputs, state")
