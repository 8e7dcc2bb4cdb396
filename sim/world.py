"""Running pieces of a simulation: kernels, references, follow-ups."""
import gc
import json
import os
import pickle
import resource
import random
import select
import signal
import sys
import traceback

from . import prims, procs, ops
from .digest import canon, short, brief
from .kernel import Kernel, make_policy, SimError, SimUnsupported, SimDeadlock


def rng_for(*parts):
    return random.Random("/".join(map(str, parts)))


class HarnessError(Exception):
    pass


# ------------------------------------------------------- fresh processes
def in_fork(fn, timeout=300.0, cpu=None):
    """fn() in a forked copy of this process; its picklable result."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = prims.real["fork"]()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            try:
                out = ("ok", fn())
            except BaseException as e:        # noqa
                out = ("err", "".join(traceback.format_exception(e))[-4000:])
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        except BaseException:                 # noqa
            code = 3
        os._exit(code)
    os.close(w)
    chunks = []
    end = prims.real["monotonic"]() + timeout
    timed_out = False
    while True:
        left = end - prims.real["monotonic"]()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if timed_out:
        return ("timeout", None)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL) and cpu:
        return ("cpu", None)
    data = b"".join(chunks)
    if not data:
        return ("err", "child ended without an answer")
    return pickle.loads(data)


# --------------------------------------------------------------- kernels
def make_kernel(spec, profile=False, max_steps=20_000_000):
    prims.Entropy.reset(spec.get("entropy", 0))
    ps = procs.Procs(spec.get("world", 0))
    ps.start_method = spec.get("method", "fork")
    ps.shm_round = spec.get("shm_round", True)
    faults = spec.get("faults", [])
    for f in faults:
        if "op" in f:
            ps.op_faults[(f["op"], f["n"])] = f
        elif f["kind"] == "unpicklable":
            ps.op_faults[("unpicklable", f["task"])] = f
    k = Kernel(make_policy(spec.get("sched", {})), max_steps, faults,
               epoch=spec.get("epoch", 1.7e9), procs=ps, profile=profile)
    k.cpus = spec.get("cpus", 4)
    k.grain = spec.get("grain", 0.0)
    prims.Entropy.broken = bool(spec.get("no_entropy"))
    return k


def run_tasks(spec, mains, profile=False, max_steps=20_000_000, prepare=None):
    """Run [(name, fn)] as caller threads under the spec's schedule and faults."""
    k = make_kernel(spec, profile, max_steps)
    if prepare is not None:
        prepare(k)
    for name, fn in mains:
        k.spawn(name, fn, k.procs.root, fg=True, role="caller")
    k.run()
    if k.status == "unsupported":
        raise HarnessError("the simulator does not model something GIRTH used:\n"
                           + (k.extra_error or ""))
    return k


class Outcome:
    """What a call did: a canonical value or an exception."""
    __slots__ = ("kind", "canon", "show", "value", "exc", "interrupted")

    def as_key(self):
        return (self.kind, self.canon)


def observe(call, keep=False, frames=False):
    """Run a call inside a task and record its outcome without retaining frames."""
    k = Kernel.current
    o = Outcome()
    o.value = None
    o.interrupted = False
    try:
        v = call()
    except SimDeadlock as e:
        o.kind, o.canon, o.show, o.exc = "hang", "hang", str(e), None
        return o
    except SimError:
        raise
    except BaseException as e:      # noqa
        o.kind, o.canon = "raise", type(e).__name__
        o.show = f"{type(e).__name__}: {e}"[:200]
        o.exc = None
        if not frames:
            e.__traceback__ = None
        del e
    else:
        k.mute = True
        try:
            o.kind, o.canon, o.show, o.exc = "value", short(canon(v)), brief(v), None
        finally:
            k.mute = False
        if keep:
            o.value = v
        del v
    o.interrupted = k.cur.interrupted
    k.cur.interrupted = False
    return o


# -------------------------------------------------------------- references
_REF_SPEC = {"sched": {}, "entropy": 1, "world": 1}


def _reference(p, profile, env=None):
    def go():
        call = ops.build(p)

        def main():
            caller_settings(env)
            return observe(call)
        k = run_tasks(_REF_SPEC, [("m0", main)], profile=profile)
        t = k.tasks[0]
        if k.status != "ok" or t.exc is not None:
            raise HarnessError(f"reference run of {p} ended with {k.status} {t.exc!r}")
        o = t.result
        hits = lib = None
        if profile:
            hits = [(name, line, h[0], h[1], h[2:]) for (f, name, line), h in t.hits.items()]
            lib = [(kind, name, off, h[1:]) for (kind, f, name, off), h in t.lib.items()]
        return {"key": o.as_key(), "show": o.show, "steps": t.steps, "hits": hits,
                "lib": lib}
    return go


def caller_settings(env):
    """Floating-point handling the caller chose for its thread."""
    if env:
        import numpy as np
        np.seterr(**env)


def reference(p, profile=False, env=None):
    """Outcome of the call as the first and only one of a fresh process."""
    st, out = in_fork(_reference(p, profile, env))
    if st == "timeout":
        raise HarnessError(f"reference run of {p} timed out")
    if st != "ok":
        raise HarnessError(f"reference run failed: {out}")
    return out


class Refs:
    """References for the operations of one run, each computed once."""

    def __init__(self, profile=False, env=None):
        self.cache, self.profile, self.env = {}, profile, env

    def __getitem__(self, p):
        key = ops.key(p)
        if key not in self.cache:
            self.cache[key] = reference(p, self.profile, self.env)
        return self.cache[key]


def pick_sites(r, refs, n):
    """Code positions to preempt at, rare ones favoured."""
    pool = []
    for ref in refs:
        for name, line, cnt, first, _ in ref["hits"] or ():
            pool.append(((name, line), cnt))
    if not pool:
        return []
    pool = sorted(set(pool))
    sites = []
    names = sorted({site[0] for site, _ in pool})
    for _ in range(n):
        u = r.random()
        if u < 0.35:                       # some function, then some line of it
            name = r.choice(names)
            sites.append(list(r.choice([s for s, _ in pool if s[0] == name])))
        elif u < 0.75:
            sites.append(list(r.choices(pool, [1.0 / c for _, c in pool])[0][0]))
        else:
            sites.append(list(r.choice(pool)[0]))
    return sites


def gen_sched(r, steps, idx=None):
    """A scheduling style; the schedule itself is drawn from its seed."""
    style = r.choice(["gap", "gap", "mixed", "burst", "site", "site", "site"])
    s = {"style": style, "seed": r.randrange(1 << 30), "budget": 1500}
    if style == "gap":
        s["mean"] = r.choice([2, 5, 20, 60, 200, 1000])
    elif style == "burst":
        s["mean"] = r.choice([3, 10])
    elif style == "site":
        s["nsites"] = r.choice([1, 1, 2, 4, 10])
        s["p"] = r.choice([0.3, 1.0, 0.8])
    return s


def resolve_sites(sched, refs):
    if sched.get("style") == "site" and "sites" not in sched:
        r = rng_for("sites", sched["seed"])
        sched = dict(sched, sites=pick_sites(r, refs, sched["nsites"]))
    return sched


def ran_spec(spec, k):
    """The spec that replays run k exactly: recorded decisions instead of a seed."""
    out = dict(spec)
    out["sched"] = {"decisions": [list(d) for d in k.decisions]}
    return out


def collect():
    gc.collect()


def dumps(x):
    return json.dumps(x, sort_keys=True, default=str)
