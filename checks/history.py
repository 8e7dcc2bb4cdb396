"""C17, C18: histories of calls in one process; ownership of results."""
import copy

import numpy as np

from sim import ops, world
from sim.digest import canon, short
from sim.kernel import Kernel
from sim.runner import REAL, STUBS, kernel_stats
from .common import MAXSTEPS, group_ops, show_op, shrink_op, viol
from .faults import ENVS, arm, disarm

ALL = group_ops(*ops.GROUPS)


def scribble(v, r, depth=0, seen=None):
    """Overwrite what a caller owns: arrays, dict entries, list items, and the
    arrays held by returned objects.  Number of things overwritten."""
    seen = set() if seen is None else seen
    if depth > 6 or id(v) in seen:
        return 0
    seen.add(id(v))
    if isinstance(v, np.ma.MaskedArray):
        v = v.data
    if isinstance(v, np.ndarray):
        if not v.flags.writeable or v.size == 0:
            return 0
        if v.dtype.kind in "fc":
            v[...] = -777.25
        elif v.dtype.kind in "iu":
            v[...] = 77
        elif v.dtype.kind == "b":
            v[...] = ~v
        return 1
    if isinstance(v, dict):
        n = sum(scribble(x, r, depth + 1, seen) for x in list(v.values()))
        for key in list(v):
            if isinstance(v[key], (int, float)) and not isinstance(v[key], bool):
                v[key] = -12345
                n += 1
        v["scribble"] = 1
        return n
    if isinstance(v, (list, tuple)):
        n = sum(scribble(x, r, depth + 1, seen) for x in v)
        if isinstance(v, list):
            v.append("scribble")
            n += 1
        return n
    if type(v).__module__.split(".")[0] == "girth" and hasattr(v, "__dict__"):
        return sum(scribble(x, r, depth + 1, seen) for x in list(vars(v).values())
                   if not callable(x) or type(x).__module__.split(".")[0] == "girth")
    return 0


class History:
    measure = "distinct histories: hash of the operations, faults and overwrites of a run"
    rule_h = ("one case = a seeded history of 6-12 public calls in one process: repeats, "
              "near-identical calls (one cell, one option, one argument, the integer type "
              "changed), calls of other functions, calls that fail or are interrupted; every "
              "call is compared with the same call as the first of a fresh process; "
              "non-trivial = at least two calls of one function with different arguments; "
              "distinct by hash of the history")
    rule_o = ("one case = a seeded history of 5-10 public calls in one process where the "
              "caller overwrites returned values, input arrays and options after some calls "
              "and keeps others; kept values must never change, later calls must equal "
              "fresh-process references; non-trivial = something was overwritten; distinct "
              "by hash of the history")
    real = REAL[:2]
    stubs = STUBS[:1] + STUBS[4:]
    assumptions = ["reference = the same call as the first of a fresh process of the same tree",
                   "bootstrap results are exempt where they hand back the caller's own "
                   "solution (documented)"]

    def __init__(self, cid, title, own, runs):
        self.id, self.title, self.own, self.runs = cid, title, own, runs
        self.rule = self.rule_o if own else self.rule_h

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        focus = r.random() < 0.75
        first = ops.gen(r, [ALL[idx % len(ALL)]])
        pool = [first]
        seq = []
        n = r.randrange(5, 11) if self.own else r.randrange(6, 13)
        for i in range(n):
            u = r.random()
            if i == 0:
                p = first
            elif u < (0.6 if focus else 0.3):
                p = ops.neighbour(r, r.choice(pool))
            elif u < (0.8 if focus else 0.45):
                p = copy.deepcopy(r.choice(pool))
            else:
                grp = ops.OPS[first["op"]]["group"]
                p = ops.gen(r, ops.GROUPS[grp] if r.random() < 0.5 else ALL)
            pool.append(p)
            item = {"p": p}
            if r.random() < 0.15:
                item["fault"] = {"kind": r.choice(["kbd", "mem", "err"]), "frac": r.random()}
            if self.own:
                item["result"] = r.choice(["keep", "keep", "overwrite"])
                item["inputs"] = r.random() < 0.4
            seq.append(item)
        return {"seq": seq, "entropy": r.randrange(1 << 30), "world": 0,
                "env": r.choice(ENVS) if r.random() < 0.2 else {}}

    def run(self, spec):
        refs = world.Refs(env=spec["env"])
        seq = []
        for item in spec["seq"]:
            item = dict(item)
            f = item.get("fault")
            if f and "step" not in f:
                item["fault"] = {"kind": f["kind"], "step":
                                 1 + int(f["frac"] * refs[item["p"]]["steps"])}
            seq.append(item)
        spec = dict(spec, seq=seq)
        steps = sum(refs[i["p"]]["steps"] for i in seq)
        count = {"overwritten": 0, "inputs overwritten": 0, "kept": 0, "failed on purpose": 0}

        def go():
            k = Kernel.current
            world.caller_settings(spec["env"])
            kept = []
            for n, item in enumerate(seq):
                k.mute = True
                p = item["p"]
                call = ops.build(p)
                inputs = call.inputs()
                k.mute = False
                if item.get("fault"):
                    arm(k, [item["fault"]])
                n0 = len(k.fired)
                o = world.observe(call, keep=True)
                k.mute = True
                disarm(k)
                hit = len(k.fired) > n0
                count["failed on purpose"] += hit
                if not (hit and o.kind == "raise") and o.as_key() != refs[p]["key"]:
                    return viol("depends-on-history",
                                f"call {n} {show_op(p)} returned {o.show}; as first call of a "
                                f"fresh process {refs[p]['show']}")
                if o.kind == "value":
                    if item.get("result") == "overwrite":
                        count["overwritten"] += bool(scribble(o.value, None))
                        o.value = None
                    else:
                        kept.append((n, p, o))
                        count["kept"] += 1
                if item.get("inputs"):
                    count["inputs overwritten"] += bool(scribble(inputs, None))
                for m, q, old in kept:
                    if short(canon(old.value)) != old.canon:
                        return viol("result-changed-later",
                                    f"the value returned by call {m} {show_op(q)} changed "
                                    f"after call {n} {show_op(p)} and what its caller did "
                                    "with that call's result or inputs")
                k.mute = False
            return None

        k = world.run_tasks({"sched": {}, "entropy": spec["entropy"], "world": 0},
                            [("m0", go)], max_steps=MAXSTEPS * steps + 2_000_000)
        t = k.tasks[0]
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"calls do not end ({k.status})")
        elif t.exc is not None:
            raise world.HarnessError(f"harness failure {t.exc!r}")
        else:
            v = t.result
        if v is not None:
            v["trace"] = [f"{n}: {show_op(i['p'])} " + " ".join(
                f"{a}={i[a]}" for a in ("fault", "result", "inputs") if i.get(a))
                for n, i in enumerate(seq)]
        names = {}
        for i in seq:
            names.setdefault(i["p"]["op"], set()).add(ops.key(i["p"]))
        near = any(len(s) > 1 for s in names.values())
        st = kernel_stats(k, nontrivial=False, probes=dict(
            count, **{"same function with different arguments": int(near)}),
            extra={"calls": len(seq), "functions": len(names)})
        if (count["overwritten"] + count["inputs overwritten"]) if self.own else near:
            st["hashes"] = [short(canon(world.dumps(seq)))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    def shrink(self, spec):
        seq = spec["seq"]
        if spec["env"]:
            yield dict(spec, env={})
        for size in (len(seq) // 2, len(seq) // 4, 1):
            if size:
                for i in range(0, len(seq), size):
                    if len(seq) > size:
                        yield dict(spec, seq=seq[:i] + seq[i + size:])
        for i, item in enumerate(seq):
            for a in ("fault", "inputs"):
                if item.get(a):
                    new = dict(item)
                    new.pop(a)
                    yield dict(spec, seq=seq[:i] + [new] + seq[i + 1:])
            if item.get("result") == "overwrite":
                yield dict(spec, seq=seq[:i] + [dict(item, result="keep")] + seq[i + 1:])
        for i, item in enumerate(seq):
            for q in shrink_op(item["p"]):
                # the same simplification for every equal or related call
                yield dict(spec, seq=seq[:i] + [dict(item, p=q)] + seq[i + 1:])


CHECKS = {
    "C17": History("C17", "results do not depend on the history", False,
                   {"quick": 700, "thorough": 20000}),
    "C18": History("C18", "results belong to the caller", True,
                   {"quick": 700, "thorough": 20000}),
}
