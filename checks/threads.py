"""C09-C13: concurrent caller threads against a fresh-process reference."""
import copy

import numpy as np

from sim import ops, world
from sim.digest import digest, short, canon
from sim.kernel import Kernel
from sim.runner import REAL, STUBS, kernel_stats
from .common import (MAXSTEPS, Snapshot, group_ops, share_inputs, show_op, shrink_op, viol)


class Threads:
    measure = ("distinct schedules: hash of the sequence (task, step) of every baton "
               "hand-over and fault of a run")
    rule = ("one case = 2-3 caller threads with 1-2 public calls each on generated inputs "
            "(half of the cases share the arrays and options objects, half use one function "
            "with near-identical arguments) under one seeded schedule; non-trivial = at least "
            "one preemption inside GIRTH code while another call was active; distinct by "
            "hash of all hand-overs")
    real = REAL[:2]
    stubs = STUBS[:1] + STUBS[4:]
    assumptions = [
        "threads are preempted at GIRTH source lines, calls made by GIRTH and simulated "
        "blocking points, not inside numpy/scipy",
        "reference = the same call alone in a fresh process of the same tree"]
    noise = False

    def __init__(self, cid, title, groups, runs, names=None):
        self.id, self.title, self.runs = cid, title, runs
        self.groups, self._names = groups, names

    def names(self):
        return self._names or group_ops(*self.groups)

    # ------------------------------------------------------------ generation
    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        names = self.names()
        ntask = r.choice([2, 2, 2, 3])
        mode = r.choice(["same", "near", "near", "mixed", "mixed", "samedata"])
        base = self.fix(ops.gen(r, [names[idx % len(names)]]))
        tasks = []
        for t in range(ntask):
            lst = []
            for _ in range(r.choice([1, 1, 1, 2])):
                if mode == "same":
                    p = copy.deepcopy(base)
                elif mode == "near":
                    p = base if r.random() < 0.35 else ops.neighbour(r, base)
                    p = copy.deepcopy(p)
                else:
                    p = copy.deepcopy(base) if t == 0 and not lst else ops.gen(r, names)
                    if mode == "samedata" and p["op"] != base["op"] and \
                            ops.OPS[p["op"]]["data"] == ops.OPS[base["op"]]["data"]:
                        for k in ("d", "ni", "np", "lv", "miss", "order"):
                            p.pop(k, None)
                            if k in base:
                                p[k] = base[k]
                lst.append(self.fix(p))
            tasks.append([f"m{t}", lst])
        spec = {"tasks": tasks, "share": r.random() < 0.5, "entropy": r.randrange(1 << 30),
                "world": r.randrange(1 << 30), "sched": world.gen_sched(r, 0),
                "follow": r.random() < 0.5}
        if r.random() < 0.2:
            # one of the callers fails while the others are at work
            spec["faults"] = [{"task": r.choice(tasks)[0], "frac": r.random(),
                               "kind": r.choice(["kbd", "kbd", "mem", "err", "stall"])}]
        if self.noise:
            spec["gseed"] = r.randrange(1 << 30)
            spec["noise"] = [r.choice([0, 3, 20]), r.choice(["draw", "reseed", "shuffle"])]
        return spec

    def fix(self, p):
        return p

    # ------------------------------------------------------------------- run
    def run(self, spec):
        site = spec["sched"].get("style") == "site"
        refs = world.Refs(profile=site)
        allp = [p for _, lst in spec["tasks"] for p in lst]
        steps = sum(refs[p]["steps"] for p in allp)
        sched = world.resolve_sites(spec["sched"], [refs[p] for p in allp])
        spec = dict(spec, sched=sched)
        for f in spec.get("faults", ()):
            if "step" not in f:
                mine = [p for name, lst in spec["tasks"] if name == f["task"] for p in lst]
                f = dict(f, step=1 + int(f["frac"] * sum(refs[p]["steps"] for p in mine)))
                spec["faults"] = [f]
        calls = {}
        for name, lst in spec["tasks"]:
            for i, p in enumerate(lst):
                calls[name, i] = ops.build(p)
        if spec["share"]:
            share_inputs(list(calls.values()), allp)
        snaps = {k: Snapshot(c.inputs()) for k, c in calls.items()}
        live = {"n": 0, "overlap": 0}

        def task(name, lst):
            def go():
                out = []
                for i, p in enumerate(lst):
                    live["n"] += 1
                    if live["n"] > 1:
                        live["overlap"] += 1
                    out.append(world.observe(calls[name, i], keep=True))
                    live["n"] -= 1
                return out
            return go
        mains = [(name, task(name, lst)) for name, lst in spec["tasks"]]
        probe = self.setup(spec, mains)
        if spec["follow"]:
            again = [p for _, lst in spec["tasks"] for p in lst[:1]][:2]
        else:
            again = []
        k = world.run_tasks(spec, mains, max_steps=MAXSTEPS * steps + 2_000_000)
        spec = world.ran_spec(spec, k)
        v = self.judge(spec, k, refs, snaps) or (probe() if probe else None)
        if v is None and again:
            for p in again:
                kk = world.run_tasks({"sched": {}, "entropy": 7, "world": 7},
                                     [("m0", lambda: world.observe(ops.build(p)))],
                                     max_steps=MAXSTEPS * steps + 2_000_000)
                o = kk.tasks[0].result
                if kk.status != "ok" or o.as_key() != refs[p]["key"]:
                    v = viol("later-call-differs",
                             f"{show_op(p)} after the concurrent calls gives "
                             f"{o.show if o else kk.status}, alone {refs[p]['show']}")
                    break
        if v is not None:
            v["trace"] = self.trace(spec, k)
        st = kernel_stats(k, nontrivial=k.switches > len(spec["tasks"]) + 1,
                          probes={"calls overlapped": int(live["overlap"] > 0),
                                  "inputs shared": int(bool(spec["share"])),
                                  "preempted": int(any(d[0] == "p" for d in k.decisions)),
                                  "a call raised in its reference":
                                      int(any(refs[p]["key"][0] == "raise" for p in allp))},
                          extra={"calls": len(allp)})
        return {"violation": v, "replay_spec": spec, "stats": st}

    def setup(self, spec, mains):
        return None

    def judge(self, spec, k, refs, snaps):
        if k.status in ("deadlock", "stepcap"):
            return viol("hang", f"concurrent calls do not end ({k.status}): "
                        + "; ".join(k.describe()))
        for name, lst in spec["tasks"]:
            t = k.by_name[name]
            if t.exc is not None:
                return viol("hang", f"{name}: {t.exc!r}")
            hit = any(f["task"] == name and f["kind"] != "stall" for f in k.fired)
            for i, p in enumerate(lst):
                o = t.result[i]
                ref = refs[p]
                if hit and o.kind == "raise":
                    pass
                elif o.as_key() != ref["key"]:
                    return viol("differs-from-solo",
                                f"{name}: {show_op(p)} returned {o.show}; alone it gives "
                                f"{ref['show']}")
                if o.kind == "value" and short(canon(o.value)) != o.canon:
                    return viol("result-changed-later",
                                f"{name}: the value {show_op(p)} returned was altered by "
                                f"another call")
                if snaps[name, i].changed():
                    return viol("inputs-changed",
                                f"{name}: {show_op(p)} left {snaps[name, i].what()} altered")
        return None

    def trace(self, spec, k):
        out = [f"{name}: " + "; ".join(show_op(p) for p in lst) for name, lst in spec["tasks"]]
        out.append(f"inputs shared: {bool(spec['share'])}")
        out += [f"fault: {f}" for f in k.fired]
        for d in k.decisions[:25]:
            out.append(f"{'preempt' if d[0] == 'p' else 'pick'} {d[1]}@{d[2]} -> {d[3]}")
        if len(k.decisions) > 25:
            out.append(f"... {len(k.decisions)} decisions")
        return out

    # ---------------------------------------------------------------- shrink
    def shrink(self, spec):
        tasks = spec["tasks"]
        if spec.get("faults"):
            yield dict(spec, faults=[])
        if spec.get("follow"):
            yield dict(spec, follow=False)
        for i in range(len(tasks)):
            if len(tasks) > 1:
                yield dict(spec, tasks=tasks[:i] + tasks[i + 1:])
        for i, (name, lst) in enumerate(tasks):
            for j in range(len(lst)):
                if len(lst) > 1:
                    new = [name, lst[:j] + lst[j + 1:]]
                    yield dict(spec, tasks=tasks[:i] + [new] + tasks[i + 1:])
        if spec["share"]:
            yield dict(spec, share=False)
        for i, (name, lst) in enumerate(tasks):
            for j, p in enumerate(lst):
                for q in shrink_op(p):
                    new = [name, lst[:j] + [q] + lst[j + 1:]]
                    yield dict(spec, tasks=tasks[:i] + [new] + tasks[i + 1:])


class Seeded(Threads):
    """C13: additionally a hostile environment of random-number users."""
    noise = True
    rule = Threads.rule + ("; besides, a noise thread draws from, reseeds or shuffles with "
                           "numpy's and random's global generators, whose draws are predicted")

    def fix(self, p):
        x = p.setdefault("x", {})
        x.pop("seedkind", None)
        if p["op"] == "standard_errors_bootstrap":
            x.setdefault("seed", 5)
        else:
            x.setdefault("seed", 3)
        return p

    def setup(self, spec, mains):
        import random as pyrandom
        n, kind = spec["noise"]
        np.random.seed(spec["gseed"] & 0xffffffff)
        pyrandom.seed(spec["gseed"])
        model = np.random.RandomState(spec["gseed"] & 0xffffffff)
        pymodel = pyrandom.Random(spec["gseed"])
        got, want = [], []

        def step(api, py, i):
            if kind == "reseed" and i == 1:
                api.seed(12345)
            if kind == "shuffle":
                a = np.arange(6)
                api.shuffle(a)
                return a.tolist() + [py.random()]
            return [float(api.standard_normal()), py.random(), int(api.randint(1 << 30))]
        for i in range(n):
            want.append(step(model, pymodel, i))

        def go():
            k = Kernel.current
            for i in range(n):
                got.append(step(np.random, pyrandom, i))
                k.preempt()
        if n:
            mains.append(("z0", go))

        def probe():
            if got != want:
                j = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), len(got))
                return viol("global-generator-advanced",
                            f"draw {j} of an unrelated user of the global generators changed: "
                            f"{got[j] if j < len(got) else None} instead of {want[j]}")
            from sim.digest import _np_state
            st = model.get_state(legacy=False)
            mine = [st["bit_generator"], np.array(st["state"]["key"]),
                    int(st["state"]["pos"]), int(st["has_gauss"]), float(st["gauss"])]
            if digest(_np_state()) != digest(mine):
                return viol("global-generator-advanced",
                            "numpy's global generator is not in the state its own users left")
            if pyrandom.getstate() != pymodel.getstate():
                return viol("global-generator-advanced",
                            "the random module's generator is not in the state its own users "
                            "left")
            return None
        return probe

    def shrink(self, spec):
        if spec["noise"][0]:
            yield dict(spec, noise=[0, "draw"])
        yield from super().shrink(spec)


CHECKS = {}
CHECKS["C09"] = Threads("C09", "dichotomous estimators from concurrent threads", ["dich"],
                        {"quick": 750, "thorough": 15000})
CHECKS["C10"] = Threads("C10", "polytomous estimators from concurrent threads", ["poly"],
                        {"quick": 750, "thorough": 15000})
CHECKS["C11"] = Threads("C11", "ability and multidimensional estimators from threads",
                        ["abil", "md"], {"quick": 750, "thorough": 15000})
CHECKS["C12"] = Threads("C12", "factor analysis, statistics and helpers from threads",
                        ["fa", "common", "util"], {"quick": 1600, "thorough": 30000})
CHECKS["C13"] = Seeded("C13", "seeded random functions", ["syn"],
                       {"quick": 750, "thorough": 15000},
                       names=["create_synthetic_irt_dichotomous",
                              "create_synthetic_irt_polytomous", "sparsify_loadings",
                              "standard_errors_bootstrap"])
