"""C13 at run time: first false assertion decides, unevaluable or non-boolean ones give PermFail."""
from lib import *

KINDS = ["ok", "skip", "depSkip", "retry", "permFail"]
NAMES = {"skip": "Skip", "depSkip": "DepSkip", "retry": "Retry", "permFail": "PermFail"}
TRUE = ["=true", "=inputs.yes", "=inputs.n == 3", "=has(inputs.n)", "=inputs.list.all(x, x > 0)", "=!inputs.no"]
FALSE = ["=false", "=inputs.no", "=inputs.n > 3", "=has(inputs.zzz)", "=inputs.list.exists(x, x > 9)", "=inputs.name == 'other'"]
NONBOOL = ["=1", "=0", "='true'", "=inputs.name", "=inputs.n", "=null", "=[]", "=inputs.list", "={}", "=1.5", "=''"]
BROKEN = ["=inputs.missing", "=inputs.name + 1 > 2", "=inputs.list[9] == 1", "=1/0 == 1", "=inputs.n.x", "=split('a', '') == 1",
          "=inputs.list.map(x, x.foo).size() > 0"]
INPUTS = {"yes": True, "no": False, "n": 3, "name": "bob", "list": [1, 2]}
MSG = ["plain", "two words", "=inputs.name + ' said'", "it's", "a-b: c", "50%"]
MSGV = {"=inputs.name + ' said'": "bob said"}


def gen(rng, weird):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 20])
    preds, facts = [], []
    for k in range(n):
        kind = rng.choice(KINDS)
        truth = rng.random() < 0.7
        a = rng.choice(TRUE if truth else FALSE)
        m = rng.choice(MSG)
        body = {} if kind == "ok" else {"message": m + ("" if m.startswith("=") else str(k))}
        mv = MSGV.get(m, m + str(k))
        d = None
        if kind == "retry":
            d = rng.choice([0, 1, 30, 300])
            body["delay"] = d
        preds.append({"assert": a, kind: body})
        facts.append((truth, kind, mv, d))
    bad = None
    if weird:
        k = rng.randrange(n)
        c = rng.random()
        if c < 0.4:
            preds[k]["assert"] = rng.choice(NONBOOL)
            bad = "non-boolean"
        elif c < 0.8:
            preds[k]["assert"] = rng.choice(BROKEN)
            bad = "unevaluable"
        else:
            kind = facts[k][1]
            if kind != "ok":
                preds[k][kind]["message"] = rng.choice(["=inputs.missing", "='a' + 1", "=1/0"])
                # the message of the deciding assertion: PermFail. Any other message: every assertion is boolean, so the first
                # false one decides - or PermFail, as the statement can be read both ways there
                first = next((n for n, f in enumerate(facts) if not f[0]), None)
                bad = "message" if first == k else "unneeded message"
    return preds, facts, bad


def expect(facts, bad):
    if bad:
        return ("PermFail", None, None)
    for truth, kind, m, d in facts:
        if not truth:
            if kind == "ok":
                return None
            return (NAMES[kind], m, d)
    return None


def judge(h, where, preds, facts, bad, got, log, touched_ok):
    want = expect(facts, bad if bad != "unneeded message" else None)
    inp = {"where": where, "assertions": preds, "inputs": INPUTS, "unusual": bad}
    h.case([where, preds], nontrivial=any(not f[0] for f in facts) or bool(bad))
    o = show(got)
    if bad == "unneeded message" and kind_of(got) == "PermFail":
        return
    if want is None:
        if kind_of(got) != "Ok":
            h.fail(f"{where}:continues", inp, o, "evaluation continues")
            return
        if where != "pre-vf" and not log:
            h.fail(f"{where}:continues", inp, "no API call", "evaluation continues")
        return
    if kind_of(got) != want[0]:
        h.fail(f"{where}:{bad or 'class'}", inp, o, f"{want[0]} {want[1] or ''}")
        return
    if want[1] is not None and got.message != want[1]:
        h.fail(f"{where}:message", inp, o, want[1])
    if want[2] is not None and got.delay != want[2]:
        h.fail(f"{where}:delay", inp, o, want[2])
    if not touched_ok and log:
        h.fail(f"{where}:cluster-touched", inp, log, "no API call at all")


def one(rng, h, i):
    preds, facts, bad = gen(rng, i % 2 == 1)
    where = ["pre-vf", "pre-rf", "post-rf"][i % 3]
    cluster = Cluster()

    async def go():
        fresh()
        if where == "pre-vf":
            # the body cannot be evaluated when the outcome must not be "continue": an evaluated body shows as PermFail
            cont = expect(facts, bad if bad != "unneeded message" else None) is None
            r = await offer("ValueFunction", "f", {"preconditions": preds, "locals": {"l": 1 if cont else "=inputs.body_was_evaluated"},
                                                    "return": {"v": "=locals.l" if cont else "=inputs.body_was_evaluated"}})
            if isinstance(r, result.PermFail):
                return r
            return await reconcile_value_function(location="t", function=r, inputs=cel(INPUTS))
        live = {"apiVersion": "v1", "kind": "Thing", "metadata": {"name": "n", "namespace": "ns"}, "spec": {"a": 1}}
        cluster.put("x.y/v1", "things", "ns", "n", {**live, "apiVersion": "x.y/v1"})
        cont = expect(facts, bad if bad != "unneeded message" else None) is None
        spec = {"apiConfig": {"apiVersion": "x.y/v1", "kind": "Thing", "plural": "things", "name": "n", "namespace": "ns", "readonly": True},
                "resource": {}, "return": {"v": "=inputs.n" if cont else "=inputs.body_was_evaluated"}}
        if where == "pre-rf":
            spec["preconditions"] = preds
            spec["locals"] = {"l": 1 if cont else "=inputs.body_was_evaluated"}
        else:
            spec["postconditions"] = preds
        r = await offer("ResourceFunction", "f", spec)
        if isinstance(r, result.PermFail):
            return r
        out = await reconcile_resource_function(api=cluster, location="t", function=r, owner=owner_of(), inputs=cel(INPUTS))
        return out.outcome
    try:
        got = run(go())
    except Exception as e:
        h.case([where, preds])
        h.fail(f"{where}:raised", {"where": where, "assertions": preds}, f"{type(e).__name__}: {e}", "an outcome")
        return
    judge(h, where, preds, facts, bad, got, cluster.log, where == "post-rf")


if __name__ == "__main__":
    main({"lists": (one, 900, 9000)},
         "lists of 1-20 assertions with random kinds, truth values, message expressions; odd indices additionally plant a non-boolean or "
         "unevaluable assertion/message at a random position; run as ValueFunction preconditions, ResourceFunction pre- and postconditions; "
         "non-trivial: at least one assertion is false, non-boolean or unevaluable")
