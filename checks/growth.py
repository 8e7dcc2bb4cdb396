"""C26: repeated calls do not accumulate memory or other resources."""
import atexit
import builtins
import collections
import copy
import gc
import os
import sys
import threading
import tracemalloc
import types
import warnings
import weakref

import numpy as np

from sim import boot, ops, world
from sim.digest import canon, short
from sim.kernel import Kernel, events
from sim.runner import REAL, STUBS, VERIF, kernel_stats
from . import bootstrap, parallel
from .common import MAXSTEPS, group_ops, show_op, shrink_op, viol
from .faults import arm, disarm

ALL = group_ops(*ops.GROUPS)
LIGHT = [n for g in ("common", "fa", "util", "syn") for n in ops.GROUPS[g]
         if n not in ("polychoric_correlation", "polychoric_correlation_serial",
                      "sparsify_loadings", "principal_axis_factor",
                      "classical_test_statistics")]
HEAVY = [n for g in ("dich", "poly", "abil", "md") for n in ops.GROUPS[g]] + [
    "polychoric_correlation_serial", "sparsify_loadings", "principal_axis_factor",
    "classical_test_statistics"]
# rounds before the first mark, until the second, and for what then grew
FEW = (3, 6, (6, 12))
MANY = (150, 150, (150, 300))        # where every round has other data
SLOW = (12, 24, (150, 150, 150))     # the same with calls that take their time


def place_of(tb):
    f = tb[0]
    if f.filename.startswith(boot.REPO + os.sep):
        return f.filename[len(boot.REPO) + 1:], f.lineno
    return None


def memory():
    """Bytes alive per allocating GIRTH line."""
    out = {}
    for t in tracemalloc.take_snapshot().traces:
        w = place_of(t.traceback)
        if w is not None:
            out[w] = out.get(w, 0) + t.size
    return out


def objects(places):
    """Python objects alive per allocating line, for some lines: numpy itself
    loses small blocks that belong to no object."""
    out = dict.fromkeys(places, 0)
    seen = set()
    every = gc.get_objects()
    for o in every:
        for x in [o] + gc.get_referents(o):
            if id(x) not in seen:
                seen.add(id(x))
                tb = tracemalloc.get_object_traceback(x)
                w = tb and place_of(tb)
                if w in out:
                    out[w] += 1
    return out


def girth(name):
    return str(name or "").split(".")[0] == "girth"


def held():
    """Number of objects reachable from GIRTH's modules."""
    todo = [m for n, m in sys.modules.items() if girth(n)]
    seen = set(map(id, todo))
    n = 0
    while todo and n < 500_000:
        o = todo.pop()
        n += 1
        if isinstance(o, types.ModuleType):
            refs = [v for key, v in vars(o).items()
                    if not key.startswith("__") or key == "__warningregistry__"]
        elif isinstance(o, np.ndarray):
            refs = o.ravel().tolist() if o.dtype == object else [o.base]
        else:
            refs = gc.get_referents(o)
            if isinstance(o, (list, tuple, set, dict, collections.deque)):
                n += len(o)
        for x in refs:
            if id(x) in seen or isinstance(x, (types.CodeType, types.FrameType)):
                continue
            seen.add(id(x))
            if isinstance(x, types.ModuleType):
                if not girth(x.__name__):
                    continue
            elif isinstance(x, (type, types.FunctionType)) and not girth(x.__module__):
                continue
            elif isinstance(x, dict) and "__builtins__" in x and not girth(x.get("__name__")):
                continue
            elif isinstance(x, dict) and x is sys.modules or x is vars(builtins):
                continue
            todo.append(x)
    return n


def resources(k):
    """Things alive in the process besides memory."""
    ps = k.procs
    return {
        "worker processes": sum(1 for p in ps.all if p is not ps.root and not p.dead),
        "threads": sum(1 for t in k.tasks if t.alive()) + threading.active_count(),
        "shared memory": len(ps.registry) + len(ps.root.maps),
        "managers": ps.managers,
        "open files": len(os.listdir("/proc/self/fd")),
        "exit handlers": atexit._ncallbacks(),
        "finalisers": len(weakref.finalize._registry),
        "warning filters": len(warnings.filters),
        "modules": len(sys.modules),
        "uncollectable objects": len(gc.garbage),
    }


class Growth:
    id, title = "C26", "repeated calls do not accumulate memory or resources"
    runs = {"quick": 320, "thorough": 10000}
    measure = "distinct programs: hash of calls and fault placements of a run"
    rule = ("one case = a round of 1-3 calls (some failing, interrupted or hit by a fault at a "
            "drawn step; parallel bootstraps and polychoric correlations whose workers are "
            "killed, fail or stall among them) repeated 9 times with equal arguments, or one "
            "call repeated 300 times (36 times if it is slow) with other data each time; after "
            "a warm-up the memory alive per allocating GIRTH line, the caller's arrays still "
            "alive, and threads, processes, shared memory, open files, exit handlers, "
            "finalisers and warning filters must stop growing; what grew is watched for "
            "18 (450) rounds more; non-trivial = every call was made; distinct by hash "
            "of calls and faults")
    real = REAL[:2]
    stubs = STUBS
    assumptions = ["memory is what Python's allocators and numpy account for (tracemalloc)",
                   "bounded caches are allowed up to the warm-up (3 equal rounds, or 150 "
                   "calls with different data)",
                   "what a killed worker process held is not looked at"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        spec = {"entropy": r.randrange(1 << 30), "world": 0, "mode": "equal", "seq": []}
        if idx % 8 == 7:
            return dict(spec, mode="parallel", seq=[
                self.parallel(r) for _ in range(r.choice([1, 1, 2]))],
                sched={"style": "gap", "mean": r.choice([5, 60]), "budget": 300,
                       "seed": r.randrange(1 << 30)}, shm_round=r.random() < 0.5,
                method=r.choice(["fork", "fork", "spawn"]))
        if idx % 8 == 6:
            n = idx // 8
            names = HEAVY if n % 2 else LIGHT
            p = ops.gen(r, [names[n // 2 % len(names)]])
            for key in ("full", "bad", "cell"):
                p.pop(key, None)
            if names is HEAVY:
                p["ni"], p["np"] = min(p["ni"], 4), min(p["np"], 24)
                opts = p.get("opts")
                if opts is not None:
                    opts.update({key: v for key, v in ops.CHEAP.items() if key in opts})
                    opts.pop("estimate_distribution", None)
                    if p["op"] in ops.LUT_SLOW:
                        opts["use_LUT"] = False
            return dict(spec, mode="many", slow=names is HEAVY, seq=[{"p": p}])
        first = ops.gen(r, [ALL[idx % len(ALL)]])
        light = ops.OPS[first["op"]]["group"] in ("common", "fa", "util", "syn")
        for i in range(r.choice([1, 2, 3]) if light else r.choice([1, 1, 2])):
            p = first if not i else ops.neighbour(r, first)
            if p.get("opts") is not None and r.random() < 0.25:
                p = dict(p, bad=r.choice(ops.BAD))
            item = {"p": p}
            if r.random() < 0.5:
                item["fault"] = {"kind": r.choice(["kbd", "mem", "err", "linalg", "opt"]),
                                 "frac": r.random()}
            spec["seq"].append(item)
        return spec

    @staticmethod
    def parallel(r):
        u = r.random()
        if u < 0.45:
            c = dict(bootstrap.gen_call(r, ["quick", "quick", "poly", "failing"]),
                     kind="bootstrap")
            c["iters"], c["n"] = r.choice([2, 3, 5]), r.choice([1, 2, 3])
            if c["model"] == "failing":
                c["exc"], c["every"] = r.choice(["ValueError", "MemoryError"]), r.choice([1, 2])
        elif u < 0.9:
            c = parallel.gen_poly(r)
            c["ni"], c["np"], c["n"] = min(c["ni"], 4), min(c["np"], 20), min(c["n"], 4)
        else:
            c = dict(parallel.gen_md(r, False), kind="initial_guess_md")
            c["n"] = r.choice([2, 3])
        faults = []
        if c["n"] > 1:
            for _ in range(r.choice([0, 1, 1, 2])):
                f = parallel.gen_fault(r, c["n"])
                if f.get("exc") != "kbd" and not (f["kind"] == "kbd" and "wait" not in f):
                    faults.append(f)
        return {"c": c, "faults": faults}

    def run(self, spec):
        boots = spec["mode"] == "parallel"
        killed = []
        refs = world.Refs()
        seq = []
        for item in spec["seq"]:
            item = dict(item)
            f = item.get("fault")
            if item.get("faults"):
                ref = parallel.solo(item["c"], item["c"]["n"], spec["method"])
                item["faults"] = bootstrap.place_faults(
                    bootstrap.pool_label(item, ref), ref)
            if f and "step" not in f:
                item["fault"] = {"kind": f["kind"], "step":
                                 1 + int(f["frac"] * refs[item["p"]]["steps"])}
            seq.append(item)
        spec = dict(spec, seq=seq)
        count = {"calls": 0, "failed on purpose": 0, "watched longer": 0, "other failures": 0}
        live = []

        def note(v):
            if isinstance(v, np.ndarray):
                live.append(weakref.ref(v))
            elif isinstance(v, dict):
                for x in v.values():
                    note(x)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    note(x)

        def one_round(n):
            k = Kernel.current
            for item in seq:
                k.mute = True
                if boots:
                    call = parallel.Poly(item["c"])
                    note(call.data)
                    if call.kind == "bootstrap":
                        note([call.boot.solution, call.boot.opts])
                else:
                    p = item["p"]
                    if spec["mode"] == "many":
                        p = copy.deepcopy(p)
                        p["d"] = 10_000 + n
                    call = ops.build(p)
                    note(call.inputs())
                k.mute = False
                if item.get("fault"):
                    events(boot.all_codes, True)
                    arm(k, [item["fault"]])
                n0 = len(k.fired)
                if item.get("faults"):
                    parallel.Release.arm(k, item["faults"], n)
                o = world.observe(call, keep=True, frames=True)
                if boots:
                    bootstrap.stop_faults(k)
                    k.sleep(3000.0)
                k.mute = True
                disarm(k)
                if item.get("fault"):
                    events(boot.all_codes, False)
                count["calls"] += 1
                count["failed on purpose"] += len(k.fired) > n0
                count["other failures"] += o.kind == "raise" and len(k.fired) == n0
                note(o.value)
                del o, call
            k.fired.clear()

        def mark():
            k = Kernel.current
            for p in k.procs.all:
                if p is not k.procs.root and (p.dead or all(
                        not t.alive() for t in k.tasks if t.proc is p)):
                    p.mods = p.nprand = p.pyrand = None
                    if p.dead:
                        p.on_death = None
                    if p.dead not in (None, "exited"):
                        killed.append(p)
            for t in k.tasks:
                if t.done and not t.fg:
                    t.exc = t.result = t.fn = None
            k.procs.pools[:] = [c for c in k.procs.pools if c.live() or not hasattr(c, "exitcode")]
            for core in k.procs.pools:      # the simulator's record of a pool that ended
                if not core.live() and not getattr(getattr(core, "manager", None), "alive", bool)():
                    core.pending, core.events, core.running = [], [], {}
                    core.initargs = ()
            gc.collect()
            live[:] = [w for w in live if w() is not None] if not killed else []
            things = dict(resources(k), **{"objects held by GIRTH's modules": held()})
            if killed:
                things.pop("finalisers")
            return memory() if not killed else {}, len(live), things

        def grown(a, b):
            out = []
            for w in b[0]:
                x, y = a[0].get(w, 0), b[0][w]
                if y > x:
                    out.append(("memory allocated at %s:%d" % w, x, y, w))
            if b[1] > a[1]:
                out.append(("arrays of the caller", a[1], b[1]))
            for key in b[2]:
                if b[2][key] > a[2].get(key, b[2][key]):
                    out.append((key, a[2][key], b[2][key]))
            return out

        def go():
            k = Kernel.current
            warm, step, later = (SLOW if spec.get("slow") else MANY
                                 if spec["mode"] == "many" else FEW)
            n = 0
            ms, at = [], []

            def watch(rounds):
                nonlocal n
                for _ in range(rounds):
                    one_round(n)
                    n += 1
                ms.append(mark())
                at.append(n)
            watch(warm)
            watch(step)
            k.mute = True
            places = [g[3] for g in grown(*ms) if len(g) > 3]
            if places:
                alive = objects(places)
                places = [w for w in places if alive[w] >= step]
            if not places and all(len(g) > 3 for g in grown(*ms)):
                return None
            count["watched longer"] += 1
            found = []
            for more in later:
                watch(more)
                if places:
                    found.append(objects(places))
            k.mute = True
            steps = [{g[0]: g for g in grown(a, b)} for a, b in zip(ms, ms[1:])]
            always = sorted(w for w in set.intersection(*map(set, steps))
                            if len(steps[0][w]) < 4 or steps[0][w][3] in places
                            and found[-1][steps[0][w][3]] > found[-2][steps[0][w][3]])
            if not always:
                return None
            what = always[0]
            return viol("grows", f"{what} keeps growing: "
                        f"{[steps[0][what][1]] + [s[what][2] for s in steps]} after {at} "
                        "rounds" + f" (so do {len(always) - 1} more)" * (len(always) > 1))

        gc.collect()
        gc.freeze()
        if not boots:
            events(boot.all_codes, False)
        tracemalloc.start(1)
        k = world.run_tasks(dict(spec, sched=spec.get("sched", {})), [("m0", go)],
                            max_steps=10 ** 9)
        tracemalloc.stop()
        spec = world.ran_spec(spec, k)
        t = k.by_name["m0"]
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"calls do not end ({k.status})")
        elif t.exc is not None:
            raise world.HarnessError(f"harness failure {t.exc!r}")
        else:
            v = t.result
        if v is not None:
            v["trace"] = [(parallel.show(i["c"]) if boots else show_op(i["p"]))
                          + (f" fault={i['fault']}" if i.get("fault") else "")
                          + "".join(f" fault={f}" for f in i.get("faults", ())) for i in seq]
        st = kernel_stats(k, nontrivial=False, probes=count, extra={"calls": count["calls"]})
        st["hashes"] = [short(canon(world.dumps([spec["mode"], seq])))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    def shrink(self, spec):
        seq = spec["seq"]
        for i in range(len(seq)):
            if len(seq) > 1:
                yield dict(spec, seq=seq[:i] + seq[i + 1:])
        for i, item in enumerate(seq):
            if item.get("fault"):
                new = dict(item)
                new.pop("fault")
                yield dict(spec, seq=seq[:i] + [new] + seq[i + 1:])
            if "p" in item:
                for q in shrink_op(item["p"]):
                    yield dict(spec, seq=seq[:i] + [dict(item, p=q)] + seq[i + 1:])
            else:
                for j in range(len(item["faults"])):
                    new = dict(item, faults=item["faults"][:j] + item["faults"][j + 1:])
                    yield dict(spec, seq=seq[:i] + [new] + seq[i + 1:])
                for key in ("opts", "wide", "np", "order", "dt", "solution"):
                    if key in item["c"]:
                        c = dict(item["c"])
                        c.pop(key)
                        yield dict(spec, seq=seq[:i] + [dict(item, c=c)] + seq[i + 1:])


CHECKS = {"C26": Growth()}
