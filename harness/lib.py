"""Run-time side of the checks: drives the real koreo code (public API) on generated cases.

Everything here is independent of how koreo is written: definitions go in through `prepare_*` / `cache`, effects are
observed on an in-memory kr8s-compatible cluster, and the expected behaviour is recomputed by an oracle.
"""
import argparse
import asyncio
import contextlib
import copy
import json
import logging
import multiprocessing
import os
import random
import selectors
import signal
import sys
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":                # set iteration order is the same in every run and replay
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

SRC = os.environ.get("KOREO_SRC", "/repo/src")
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)

import kr8s  # noqa: E402
import celpy  # noqa: E402
from celpy import celtypes  # noqa: E402
from koreo import cache, registry, result, schema  # noqa: E402
from koreo.resource_function.structure import ResourceFunction  # noqa: E402
from koreo.value_function.structure import ValueFunction  # noqa: E402
from koreo.resource_template.structure import ResourceTemplate  # noqa: E402
from koreo.workflow.structure import Workflow  # noqa: E402
from koreo.function_test.structure import FunctionTest  # noqa: E402
from koreo.resource_function.prepare import prepare_resource_function  # noqa: E402
from koreo.value_function.prepare import prepare_value_function  # noqa: E402
from koreo.resource_template.prepare import prepare_resource_template  # noqa: E402
from koreo.workflow.prepare import prepare_workflow  # noqa: E402
from koreo.function_test.prepare import prepare_function_test  # noqa: E402
from koreo.resource_function.reconcile import reconcile_resource_function  # noqa: E402
from koreo.value_function.reconcile import reconcile_value_function  # noqa: E402
from koreo.workflow.reconcile import reconcile_workflow  # noqa: E402
from koreo.function_test.run import run_function_test  # noqa: E402
from koreo.resource_function.reconcile import kind_lookup  # noqa: E402

assert os.path.realpath(cache.__file__).startswith(os.path.realpath(SRC)), cache.__file__

# Python 3.12.3 (the interpreter here) mangles the module-level name `__CACHE` once a private NamedTuple class statement
# has been compiled; 3.13 (the version koreo requires) does not. The alias makes both names one object; koreo is unchanged.
for _mangled in [k for k in vars(cache) if k.endswith("__CACHE") and k != "__CACHE"]:
    if "__CACHE" not in vars(cache):
        setattr(cache, "__CACHE", vars(cache)[_mangled])

CLS = {"ResourceFunction": ResourceFunction, "ValueFunction": ValueFunction, "ResourceTemplate": ResourceTemplate,
       "Workflow": Workflow, "FunctionTest": FunctionTest}
PREP = {"ResourceFunction": prepare_resource_function, "ValueFunction": prepare_value_function,
        "ResourceTemplate": prepare_resource_template, "Workflow": prepare_workflow, "FunctionTest": prepare_function_test}
LAST_APPLIED = "koreo.dev/last-applied-configuration"
DIRECTIVES = {"x-koreo-compare-as-set", "x-koreo-compare-as-map", "x-koreo-compare-last-applied"}
OWNER_UID = "owner-uid-1"


# ------------------------------------------------------------------------------------------------ virtual time
class _VSelector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        if timeout is None:
            raise Deadlock("every task waits and no timer is pending")
        if timeout > 0:
            self.loop.now += timeout
        return super().select(0)


class Deadlock(BaseException):
    pass


class VLoop(asyncio.SelectorEventLoop):
    """event loop whose clock jumps to the next timer"""

    def __init__(self):
        sel = _VSelector()
        super().__init__(sel)
        sel.loop = self
        self.now = 0.0

    def time(self):
        return getattr(self, "now", 0.0)


def run(coro):
    """run on a fresh virtual-time loop; cancels leftovers"""
    loop = VLoop()
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro)
    finally:
        try:
            left = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in left:
                t.cancel()
            if left:
                with contextlib.suppress(BaseException):
                    loop.run_until_complete(asyncio.gather(*left, return_exceptions=True))
        finally:
            asyncio.set_event_loop(None)
            loop.close()


def fresh():
    """forget everything cached (new process state as far as koreo is concerned)"""
    with contextlib.suppress(Exception):
        cache._reset_cache()
    for d in (getattr(cache, "_REPREPARE_TASKS", {}), getattr(cache, "_PREPARE_TIMES", {})):
        d.clear()
    with contextlib.suppress(Exception):
        kind_lookup._reset()


async def offer(kind, name, spec, version=None):
    offer.n += 1
    return await cache.prepare_and_cache(
        resource_class=CLS[kind], preparer=PREP[kind],
        metadata={"name": name, "resourceVersion": version or f"v{offer.n}"}, spec=copy.deepcopy(spec))
offer.n = 0


def cached(kind, name):
    return cache.get_resource_from_cache(resource_class=CLS[kind], cache_key=name)


# ------------------------------------------------------------------------------------------------ the cluster
class Response:
    def __init__(self, data, status=200):
        self.data, self.status_code = data, status

    def json(self):
        return copy.deepcopy(self.data)


def merge_patch(base, patch):
    """RFC 7386"""
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    out = dict(base) if isinstance(base, dict) else {}
    for k, v in patch.items():
        if v is None:
            out.pop(k, None)
        else:
            out[k] = merge_patch(out.get(k), v)
    return out


class Cluster:
    """In-memory object store behind the part of kr8s' Api that APIObject and koreo use; records every call."""

    def __init__(self, latency=None, fault=None, mutate_on_create=None):
        self.store = {}
        self.log = []
        self.latency, self.fault, self.mutate_on_create = latency, fault, mutate_on_create
        self.seq = 0
        self.active = 0

    namespace = "default"

    def mutations(self):
        return [e for e in self.log if e["op"] in ("create", "patch", "delete")]

    def put(self, version, plural, namespace, name, raw):
        self.store[(version, plural, namespace, name)] = copy.deepcopy(raw)

    def get(self, version, plural, namespace, name):
        return self.store.get((version, plural, namespace, name))

    async def _effects(self, op, ident):
        if self.latency:
            d = self.latency(op, ident)
            if d is not None:
                await asyncio.sleep(d)
        if self.fault:
            f = self.fault(op, ident)
            if f is not None:
                raise f

    async def lookup_kind(self, kind):
        self.log.append({"op": "lookup", "kind": kind})
        await self._effects("lookup", {"kind": kind})
        base = kind.split(".", 1)[0].lower()
        return (base, base + "s", True)

    async def async_get(self, cls, *names, namespace=None, **kw):
        name = names[0] if names else None
        ident = {"version": cls.version, "plural": cls.endpoint, "namespace": namespace, "name": name, "kind": cls.kind}
        self.log.append({"op": "get", **ident})
        await self._effects("get", ident)
        raw = self.store.get((cls.version, cls.endpoint, namespace, name))
        if raw is None:
            if kw.get("raise_not_found"):
                raise kr8s.NotFoundError(name)
            return
        yield cls(api=self, resource=copy.deepcopy(raw), namespace=namespace)

    @contextlib.asynccontextmanager
    async def call_api(self, method="GET", version="v1", base="", namespace=None, url="", **kw):
        op = {"POST": "create", "PATCH": "patch", "DELETE": "delete"}.get(method, method)
        body = json.loads(kw["data"]) if kw.get("data") else {}
        parts = url.split("/")
        plural, name = parts[0], parts[1] if len(parts) > 1 else (body.get("metadata") or {}).get("name")
        entry = {"op": op, "version": version, "plural": plural, "namespace": namespace, "name": name,
                 "url": url, "body": copy.deepcopy(body)}
        self.log.append(entry)
        await self._effects(op, entry)
        key = (version, plural, namespace, name)
        self.seq += 1
        if op == "create":
            if key in self.store:
                raise kr8s.ServerError("exists", status="409", response=Response(None, 409))
            obj = copy.deepcopy(body)
            obj = merge_patch({}, obj)
            md = obj.setdefault("metadata", {})
            md.setdefault("uid", f"uid-{self.seq}")
            md["resourceVersion"] = str(self.seq)
            if self.mutate_on_create:
                self.mutate_on_create(obj)
            self.store[key] = obj
            yield Response(obj)
        elif op == "patch":
            if key not in self.store:
                raise kr8s.ServerError("missing", status="404", response=Response(None, 404))
            obj = merge_patch(self.store[key], body)
            obj.setdefault("metadata", {})["resourceVersion"] = str(self.seq)
            self.store[key] = obj
            yield Response(obj)
        elif op == "delete":
            if key not in self.store:
                raise kr8s.ServerError("missing", status="404", response=Response(None, 404))
            del self.store[key]
            yield Response({})
        else:
            raise AssertionError(f"unexpected API call {method} {url}")


# ------------------------------------------------------------------------------------------------ helpers
def owner_of(ns="ns", uid=OWNER_UID):
    return (ns, celtypes.MapType({celtypes.StringType("apiVersion"): celtypes.StringType("v1"),
                                  celtypes.StringType("kind"): celtypes.StringType("Parent"),
                                  celtypes.StringType("name"): celtypes.StringType("parent"),
                                  celtypes.StringType("uid"): celtypes.StringType(uid),
                                  celtypes.StringType("blockOwnerDeletion"): celtypes.BoolType(True),
                                  celtypes.StringType("controller"): celtypes.BoolType(False)}))


def cel(v):
    return celpy.json_to_cel(v)


def plain(v):
    """celtypes -> JSON data (own implementation, used by oracles only)"""
    if isinstance(v, (celtypes.BoolType, bool)):
        return bool(v)
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, celtypes.BytesType):
        return "bytes:" + bytes(v).hex()
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v)
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, celtypes.NullType):
        return None
    return f"<{type(v).__name__} {v}>"


def same(a, b):
    """deep JSON equality that tells bool from int (and 1 from 1.0 only by value)"""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    return a == b


def show(o):
    """outcome as JSON"""
    for c in ("DepSkip", "Skip", "Retry", "PermFail"):
        if isinstance(o, getattr(result, c)):
            return {"outcome": c, "message": o.message, "location": o.location,
                    **({"delay": o.delay} if c == "Retry" else {})}
    if isinstance(o, result.Ok):
        return {"outcome": "Ok(wrapped)", "data": plain(o.data)}
    return {"outcome": "Ok", "value": plain(o)}


def kind_of(o):
    for c in ("DepSkip", "Skip", "Retry", "PermFail"):
        if isinstance(o, getattr(result, c)):
            return c
    return "Ok"


# ------------------------------------------------------------------------------------------------ driver
class Hang(BaseException):
    pass


class H:
    """collects what one worker observed"""

    def __init__(self):
        self.evaluations, self.errors, self.violations = 0, [], []
        self.distinct = set()
        self.samples = []
        self.stream, self.index, self.seed = None, None, None
        self.counts = {}

    def case(self, key, nontrivial=True, sample=None):
        """one evaluated case; `key` identifies it, nontrivial per the harness' stated rule"""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hash(key if isinstance(key, str) else json.dumps(key, sort_keys=True, default=str)))
        if sample is not None and len(self.samples) < 3:
            self.samples.append({"stream": self.stream, "index": self.index, "case": sample})

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def fail(self, sig, input, observed, expected):
        if len([v for v in self.violations if v["signature"] == sig]) >= 3:
            self.count(f"violations:{sig}")
            return
        self.violations.append({"signature": sig, "stream": self.stream, "index": self.index, "seed": self.seed,
                                "input": input, "observed": observed, "expected": expected})


def from_koreo(e):
    """was the exception raised by koreo (or below a call koreo made), rather than by the harness or its cluster?"""
    if isinstance(e, BaseExceptionGroup):
        return bool(e.exceptions) and all(from_koreo(x) for x in e.exceptions)
    here, src = os.path.dirname(os.path.abspath(__file__)), os.path.realpath(SRC)
    verdict, tb = False, e.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(here + os.sep):
            verdict = False
        elif f.startswith(src + os.sep):
            verdict = True
        tb = tb.tb_next
    return verdict


def _alarm(*_):
    raise Hang("the case used more than its CPU budget")


def _work(args):
    streams, jobs, seed, deadline = args
    h = H()
    signal.signal(signal.SIGVTALRM, _alarm)
    done = 0
    for name, i in jobs:
        if time.time() > deadline:
            break
        fn = streams[name][0]
        h.stream, h.index, h.seed = name, i, seed
        rng = random.Random(f"{seed}:{name}:{i}")
        signal.setitimer(signal.ITIMER_VIRTUAL, 60)
        try:
            fn(rng, h, i)
        except Hang as e:
            h.fail("hang", {"stream": name, "index": i}, f"no result after 60 s of CPU: {traceback.format_exc(limit=-3)}", "terminates")
        except Exception as e:
            if from_koreo(e):
                h.fail(f"raises:{type(e).__name__}", {"stream": name, "index": i}, "".join(traceback.format_exception(e))[-1500:], "no exception escapes")
            h.errors.append(f"{name}[{i}]: {type(e).__name__}: {e} | {traceback.format_exc(limit=-2)[-400:]}")
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        done += 1
    return {"evaluations": h.evaluations, "distinct": list(h.distinct), "samples": h.samples, "violations": h.violations,
            "errors": h.errors[:5], "nerrors": len(h.errors), "counts": h.counts, "done": done, "jobs": len(jobs)}


def main(streams, rule):
    """streams: name -> (fn(rng, h, i), quick count, thorough count)"""
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=150)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--replay", help="stream:index:seed")
    a = ap.parse_args()
    if a.replay:
        name, i, seed = a.replay.split(":")
        r = _work((streams, [(name, int(i))], int(seed), time.time() + 600))
        print(json.dumps({k: r[k] for k in ("violations", "errors", "samples")}, indent=1, default=str))
        sys.exit(1 if r["violations"] else 0)
    t0 = time.time()
    jobs = []
    for name, (fn, q, t) in streams.items():
        n = int((q if a.tier == "quick" else t) * (a.scale if q > 1 else 1))
        jobs += [(name, i, i / max(n, 1)) for i in range(n)]
    jobs.sort(key=lambda j: (j[2], j[0]))      # interleave the streams, so that a budget cut hits all of them alike
    jobs = [(n, i) for n, i, _ in jobs]
    nw = max(1, min(a.jobs, len(jobs)))
    parts = [jobs[k::nw] for k in range(nw)]
    with multiprocessing.get_context("fork").Pool(nw) as pool:
        rs = pool.map(_work, [(streams, p, a.seed, t0 + a.budget) for p in parts])
    out = {"evaluations": 0, "distinct": set(), "samples": [], "violations": [], "errors": [], "nerrors": 0, "counts": {},
           "done": 0, "planned": len(jobs), "rule": rule}
    for r in rs:
        out["evaluations"] += r["evaluations"]
        out["distinct"] |= set(r["distinct"])
        out["samples"] += r["samples"]
        out["violations"] += r["violations"]
        out["errors"] += r["errors"]
        out["nerrors"] += r["nerrors"]
        out["done"] += r["done"]
        for k, v in r["counts"].items():
            out["counts"][k] = out["counts"].get(k, 0) + v
    out["distinct"] = len(out["distinct"])
    out["samples"] = out["samples"][:4]
    out["violations"].sort(key=lambda v: (v["signature"], v["stream"], v["index"]))
    out["wall_s"] = time.time() - t0
    text = json.dumps(out, default=str)
    if a.out:
        with open(a.out, "w") as f:
            f.write(text)
    else:
        short = dict(out)
        short["violations"] = out["violations"][:10]
        print(json.dumps(short, indent=1, default=str)[:12000])
    return out
