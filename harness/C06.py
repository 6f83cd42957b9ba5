"""C06 at run time: every create/patch is for the object named by apiConfig, whatever the definition's documents say."""
import rf
from rf import *


def check_calls(f, h, c, info):
    for m in c.mutations():
        if m["op"] == "delete":
            where = (m["version"], m["plural"], m["namespace"], m["name"])
        else:
            b = m["body"]
            md = b.get("metadata") if isinstance(b.get("metadata"), dict) else {}
            got = {"apiVersion": b.get("apiVersion"), "kind": b.get("kind"), "name": md.get("name")}
            want = {"apiVersion": f.version, "kind": f.kind, "name": f.name}
            if f.namespaced:
                got["namespace"], want["namespace"] = md.get("namespace"), f.ns
            if not same(got, want):
                h.fail("body-identity", info(), {"call": m["op"], "identity": got}, want)
                return False
            where = (m["version"], m["plural"], m["namespace"], m["name"])
        if where != (f.version, f.plural, f.ns, f.name):
            h.fail("call-address", info(), {"call": m["op"], "address": where}, (f.version, f.plural, f.ns, f.name))
            return False
    return True


def hostile(rng, h, i):
    f = gen(rng, hostile=True, policy=rng.choice(["patch", "patch", "patch", "recreate"]), directives=rng.random() < 0.3,
            create_overlay=rng.random() < 0.6)
    c = Cluster()
    start = rng.choice(["absent", "drifted", "bare"])
    if start != "absent":
        live = {"apiVersion": f.version, "kind": f.kind, "metadata": {"name": f.name, "uid": "u", "resourceVersion": "3"}, "spec": {"z": 1}}
        if f.ns:
            live["metadata"]["namespace"] = f.ns
        if start == "bare":
            del live["spec"]
        place(f, c, live)
    # objects of other names, kinds and namespaces that a redirected call could hit
    for ver, plural, ns, name in (("wrong/v9", "wrongs", f.ns, f.name), (f.version, f.plural, "evil-ns", f.name), (f.version, f.plural, f.ns, "evil")):
        c.put(ver, plural, ns, name, {"apiVersion": ver, "kind": "X", "metadata": {"name": name, "namespace": ns}})
    others = copy.deepcopy({k: v for k, v in c.store.items() if k != (f.version, f.plural, f.ns, f.name)})

    async def go():
        fresh()
        try:
            fn = await setup(f)
        except AssertionError:
            return None
        return [await reconcile(f, fn, c) for _ in range(3)]
    try:
        outs = run(go())
    except Exception as e:
        h.count(f"raised {type(e).__name__}: {e}"[:90])
        outs = []
    if outs is None:
        h.count("not-prepared")
        return
    h.case([f.spec, f.defs, start], nontrivial=any(m["op"] in ("create", "patch") for m in c.mutations()))
    info = lambda: inp(f, start=start, outcomes=[show(o.outcome) for o in outs])
    if not check_calls(f, h, c, info):
        return
    now = {k: v for k, v in c.store.items() if k != (f.version, f.plural, f.ns, f.name)}
    if now != others:
        h.fail("other-object-touched", info(), sorted(map(str, now.keys() ^ others.keys())) or "changed content", "only the named object")


def names(rng, h, i):
    """names and namespaces computed from inputs, including values that are not plain strings"""
    table = [("=inputs.a", "obj"), ("=inputs.a + '-' + string(inputs.n)", "obj-7"), ("='x' + inputs.a", "xobj"), ("=inputs.n", "7"),
             ("=locals.nm", "obj-l"), ("=inputs.null", None), ("=inputs.t ? 'a' : 'b'", "a")]
    nm, want = table[i % len(table)]
    nss = [("=inputs.ns", "space"), ("static", "static"), ("=inputs.null", None), ("=''", None), ("=inputs.ns + '2'", "space2")]
    ns, wantns = nss[(i // len(table)) % len(nss)]
    spec = {"locals": {"nm": "=inputs.a + '-l'"}, "apiConfig": {"apiVersion": VERSION, "kind": "Widget", "plural": "widgets", "name": nm, "namespace": ns},
            "resource": {"spec": {"a": 1}}, "return": {"ok": True}}
    c = Cluster()

    async def go():
        fresh()
        r = await offer("ResourceFunction", "fn", spec)
        if kind_of(r) != "Ok":
            return r
        a = await reconcile_resource_function(api=c, location="t", function=r, owner=owner_of("ns"),
                                              inputs=cel({"a": "obj", "n": 7, "null": None, "ns": "space", "t": True}))
        # drift it, so that the next pass patches
        for obj in c.store.values():
            obj["spec"] = {"a": 2}
        return a, await reconcile_resource_function(api=c, location="t", function=r, owner=owner_of("ns"),
                                                    inputs=cel({"a": "obj", "n": 7, "null": None, "ns": "space", "t": True}))
    try:
        out = run(go())
    except Exception as e:
        h.count(f"raised {type(e).__name__}")
        return
    h.case(["names", nm, ns])
    muts = c.mutations()
    info = {"function": spec, "name": nm, "namespace": ns}
    if want is None or wantns is None:
        bad = [m for m in muts]
        if bad:
            h.fail("object-without-a-name", info, bad, "no object: the name or namespace has no value")
        return
    if [m["op"] for m in muts] != ["create", "patch"]:
        h.fail("calls", info, [m["op"] for m in muts] + [str(out)], "create then patch")
        return
    for m in muts:
        md = m["body"].get("metadata", {})
        got = (m["namespace"], m["name"], md.get("namespace"), md.get("name"))
        if got != (wantns, want, wantns, want):
            h.fail("computed-identity", info, got, (wantns, want))


def groups(rng, h, i):
    """two definitions of one process, kinds that exist in several groups, versions and spellings"""
    kinds = [("v1", "Service"), ("serving.knative.dev/v1", "Service"), ("apps/v1", "Deployment"), ("example.dev/v1", "Deployment"), ("example.dev/v1beta1", "Deployment"),
             ("v1", "Pod"), ("v2", "Pod"), ("example.dev/v1", "Pod"), ("batch/v1", "Job"), ("v1", "Job"), ("example.dev/v1", "Gadget"), ("other.dev/v1", "Gadget"), ("v1", "Gadget"),
             ("example.dev/v1", "Gadgets"), ("example.dev/v1", "gadget"), ("networking.k8s.io/v1", "Ingress"), ("extensions/v1beta1", "Ingress"), ("v1", "Secret"), ("v1", "secret"),
             ("v1", "ConfigMap"), ("rbac.authorization.k8s.io/v1", "ClusterRole"), ("v1", "Namespace")]
    for ver, kind in rng.sample(kinds, 3):
        cluster_scoped = kind in ("ClusterRole", "Namespace")
        plural = {"Ingress": "ingresses"}.get(kind, kind.lower().rstrip("s") + "s")
        spec = {"apiConfig": {"apiVersion": ver, "kind": kind, "plural": plural, "name": "obj", **({"namespaced": False} if cluster_scoped else {"namespace": "ns"})},
                "resource": {"spec": {"a": 1}}, "return": {"ok": True}}
        c = Cluster()

        async def go():
            fresh()
            r = await offer("ResourceFunction", "fn", spec)
            if kind_of(r) != "Ok":
                return show(r)
            kw = dict(api=c, location="t", function=r, owner=owner_of("elsewhere"), inputs=cel({}))
            a = await reconcile_resource_function(**kw)
            for obj in c.store.values():
                obj["spec"] = {"a": 2}
            b = await reconcile_resource_function(**kw)
            return show(a.outcome), show(b.outcome)
        try:
            out = run(go())
        except Exception as e:
            h.fail("raises", {"function": spec}, f"{type(e).__name__}: {e}", "create then patch")
            return
        h.case([ver, kind])
        muts = c.mutations()
        info = {"function": spec}
        if [m["op"] for m in muts] != ["create", "patch"]:
            h.fail("calls", info, [m["op"] for m in muts] + [str(out)], "create then patch")
            return
        for m in muts:
            b = m["body"]
            got = (m["version"], m["plural"], b.get("apiVersion"), b.get("kind"), m["name"], b["metadata"].get("name"), m["namespace"], b["metadata"].get("namespace"))
            ns = None if cluster_scoped else "ns"
            want = (ver, plural, ver, kind, "obj", "obj", ns, ns)
            if got != want:
                h.fail("identity", info, got, want)
                return


if __name__ == "__main__":
    main({"hostile": (hostile, 1500, 15000), "names": (names, 40, 40), "groups": (groups, 60, 600)},
         "generated ResourceFunctions whose resource/template/overlays/overlay functions/create overlay set apiVersion, kind, metadata, name and "
         "namespace to other values or non-maps; non-trivial = at least one create or patch was sent; distinct by spec")
