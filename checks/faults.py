"""C14-C16: a call that fails or is interrupted anywhere leaves no trace."""
import copy

from sim import ops, world
from sim.digest import diff_state, process_state, short, canon
from sim.kernel import FAILURES, LIB_FAILURES, Kernel
from sim.runner import REAL, STUBS, kernel_stats
from .common import MAXSTEPS, Snapshot, group_ops, show_op, shrink_op, viol

DENSITY_EXC = {"ValueError": ValueError, "MemoryError": MemoryError,
               "KeyboardInterrupt": KeyboardInterrupt, "ZeroDivisionError": ZeroDivisionError,
               "TypeError": TypeError, "FloatingPointError": FloatingPointError,
               "RuntimeError": RuntimeError, "OSError": OSError}


# what callers make of numpy's floating-point conditions
ENVS = [{"under": "warn"}, {"all": "ignore"}, {"over": "raise"}, {"under": "raise"},
        {"divide": "raise", "invalid": "raise"}, {"all": "warn"}, {"all": "raise"}]


def arm(k, faults):
    t = k.cur
    t.faults = sorted((dict(f, step=t.steps + f["step"]) for f in faults if "step" in f),
                      key=lambda f: f["step"])
    k._set_next(t)


def disarm(k):
    t = k.cur
    t.faults, t.armed = [], None
    k._set_next(t)


class Faults:
    measure = "distinct fault placements: hash of (operations, fault kind, step) of a run"
    rule = ("one case = 1-16 calls in one caller thread, each hit by one fault (interrupt, "
            "failed allocation, other exception, failing linear algebra or optimiser call, "
            "failing caller density) at a drawn step (uniform over the call, at rarely "
            "executed code, or at a drawn visit of a drawn line or library call of a drawn "
            "function), followed by undisturbed calls with the same objects, the "
            "same arguments afresh and near-identical arguments; non-trivial = the fault "
            "fired inside the call; distinct by operations and fault placements")
    real = REAL[:2]
    stubs = STUBS[:1] + STUBS[4:]
    assumptions = [
        "faults strike at GIRTH source lines, at calls made by GIRTH and in the caller's "
        "density, not inside numpy/scipy",
        "an asynchronous interrupt is a KeyboardInterrupt",
        "reference = the same call alone in a fresh process of the same tree"]

    def __init__(self, cid, title, groups, runs, drop=(), calls=(1, 1, 2, 3)):
        self.id, self.title, self.groups, self.runs, self.drop = cid, title, groups, runs, drop
        self.calls = calls

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        names = group_ops(*self.groups, drop=self.drop)
        seq = []
        p = ops.gen(r, [names[idx % len(names)]])
        for i in range(r.choice(self.calls)):
            if i:
                u = r.random() * (1 if max(self.calls) < 8 else 2)
                p = (ops.gen(r, names) if u < 0.2 else ops.neighbour(r, p) if u < 0.45
                     else copy.deepcopy(p))
            kind = r.choice(["kbd", "kbd", "kbd", "mem", "mem", "err", "linalg", "opt"])
            f = {"kind": kind, "frac": r.random(),
                 "how": r.choice(["uniform", "cold", "site", "site"]),
                 "off": r.randrange(4)}
            if kind == "err":
                f["exc"] = r.choice(FAILURES)
            elif kind in LIB_FAILURES:
                f["exc"] = r.choice(LIB_FAILURES[kind])
            dist = (p.get("opts") or {}).get("distribution")
            if dist and dist[0] in ("norm", "logis", "mix") and r.random() < 0.4:
                f = {"kind": "density", "at": r.choice([1, 1, 2, 3]),
                     "exc": r.choice(sorted(DENSITY_EXC))}
            seq.append({"p": p, "fault": f})
        follow = ["reuse", "again"] + r.sample(["neighbour", "neighbour", "other", "again"],
                                               r.choice([0, 1, 2]))
        return {"seq": seq, "follow": follow, "fseed": r.randrange(1 << 30),
                "env": r.choice(ENVS) if r.random() < 0.5 else {},
                "entropy": r.randrange(1 << 30), "world": 0}

    def place(self, spec, refs):
        seq = []
        for item in spec["seq"]:
            f = dict(item["fault"])
            if f["kind"] != "density" and "step" not in f:
                ref = refs[item["p"]]
                n = max(1, ref["steps"])
                if f["how"] == "site":
                    f["step"] = self.at_site(world.rng_for(f["frac"]), f["kind"], ref)
                elif f["how"] == "cold":
                    hits = sorted(ref["hits"], key=lambda h: (h[2], h[3]))
                    pool = [h for h in hits if h[2] <= 3] or hits
                    f["step"] = pool[int(f["frac"] * len(pool))][3] + f["off"]
                else:
                    f["step"] = 1 + int(f["frac"] * n)
                f = {k: f[k] for k in ("kind", "step", "exc") if k in f}
            seq.append({"p": item["p"], "fault": f})
        return dict(spec, seq=seq)

    @staticmethod
    def at_site(r, kind, ref):
        """Some function, some line of it (or failing library call), some visit of it."""
        pool = [(name, off, steps) for k, name, off, steps in ref["lib"] if k == kind]
        if kind not in LIB_FAILURES:
            pool = [(name, line, [first] + later) for name, line, n, first, later
                    in ref["hits"]]
        if not pool:
            return 1 + int(r.random() * ref["steps"])
        name = r.choice(sorted({x[0] for x in pool}))
        pool = sorted(x for x in pool if x[0] == name)
        return r.choice(r.choice(pool)[2])

    def run(self, spec):
        refs = world.Refs(True, spec["env"])
        spec = self.place(spec, refs)
        r = world.rng_for("follow", spec["fseed"])
        names = group_ops(*self.groups, drop=self.drop)
        plan = []                  # (what, op, index of the faulted call it follows)
        base = [i["p"] for i in spec["seq"]]
        for what in spec["follow"]:
            j = r.randrange(len(base)) if what != "reuse" else len(base) - 1
            p = base[j]
            if what == "neighbour":
                p = ops.neighbour(r, p)
            elif what == "other":
                p = ops.gen(r, names)
            plan.append((what, p, j))
        steps = sum(refs[p]["steps"] for p in base + [q for _, q, _ in plan])
        fired = {"n": 0, "absorbed": 0, "raised": 0}

        def go():
            k = Kernel.current
            world.caller_settings(spec["env"])
            held = []
            calls = []
            for item in spec["seq"]:
                p, f = item["p"], item["fault"]
                k.mute = True
                call = ops.build(p)
                calls.append(call)
                ref = refs[p]
                snap = Snapshot(call.inputs())
                if f["kind"] == "density":
                    for d in call.densities():
                        d.fail_at, d.fail_exc = f["at"], DENSITY_EXC[f["exc"]]
                before = process_state()
                n0 = len(k.fired)
                k.mute = False
                arm(k, [f])
                o = world.observe(call, keep=True)
                k.mute = True
                disarm(k)
                hit = len(k.fired) > n0
                kbd = hit and "KeyboardInterrupt" in (f.get("exc"), "KeyboardInterrupt"
                                                      if f["kind"] == "kbd" else "")
                for d in call.densities():
                    d.fail_at = None
                where = f"{show_op(p)} with {f}"
                fired["n"] += hit
                if o.kind == "raise":
                    fired["raised"] += hit
                else:
                    fired["absorbed"] += hit
                if kbd and o.as_key() != ("raise", "KeyboardInterrupt"):
                    return viol("interrupt-absorbed",
                                f"{where}: the interrupt did not reach the caller, who got "
                                f"{o.show}")
                if not (hit and o.kind == "raise") and o.as_key() != ref["key"]:
                    return viol("wrong-after-failure" if hit else "differs-from-fresh",
                                f"{where}: returned {o.show}; undisturbed {ref['show']}")
                if snap.changed():
                    return viol("inputs-changed", f"{where}: left {snap.what()} altered")
                bad = diff_state(before, process_state())
                if bad:
                    return viol("process-state-changed", f"{where}: changed {', '.join(bad)}")
                if o.kind == "value":
                    held.append((o, where))
                k.mute = False
            for what, p, j in plan:
                k.mute = True
                if what == "reuse" and (p.get("x") or {}).get("seedkind") != "gen":
                    call = calls[j]
                else:              # (a Generator passed as seed is used up by a call)
                    call = ops.build(p)
                snap = Snapshot(call.inputs())
                before = process_state()
                k.mute = False
                o = world.observe(call, keep=True)
                k.mute = True
                where = f"{what} call {show_op(p)}"
                if o.as_key() != refs[p]["key"]:
                    return viol("later-call-differs",
                                f"{where} after the failure gives {o.show}; in a fresh "
                                f"process {refs[p]['show']}")
                if snap.changed():
                    return viol("inputs-changed", f"{where}: left {snap.what()} altered")
                bad = diff_state(before, process_state())
                if bad:
                    return viol("process-state-changed", f"{where}: changed {', '.join(bad)}")
                if o.kind == "value":
                    held.append((o, where))
                k.mute = False
            k.mute = True
            for o, where in held:
                if short(canon(o.value)) != o.canon:
                    return viol("result-changed-later", f"the value returned by {where} was "
                                "altered by later calls")
            return None

        k = world.run_tasks({"sched": {}, "entropy": spec["entropy"], "world": spec["world"]},
                            [("m0", go)], max_steps=MAXSTEPS * steps + 2_000_000)
        t = k.tasks[0]
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"calls do not end ({k.status}): " + "; ".join(k.describe()))
        elif t.exc is not None:
            raise world.HarnessError(f"harness failure {t.exc!r}")
        else:
            v = t.result
        if v is not None:
            v["trace"] = ([f"caller's numpy settings {spec['env']}"] * bool(spec["env"]) + [f"call {show_op(i['p'])} fault {i['fault']}" for i in spec["seq"]]
                          + [f"then {w}: {show_op(p)}" for w, p, _ in plan])
        st = kernel_stats(k, nontrivial=False,
                          probes={"fault fired": fired["n"], "call raised": fired["raised"],
                                  "fault tolerated with exact result": fired["absorbed"],
                                  "armed but never reached": len(base) - fired["n"]},
                          extra={"calls": len(base) + len(plan)})
        for i, item in enumerate(spec["seq"]):
            f = item["fault"]
            if f["kind"] == "density" and fired["n"]:
                key = f"density:{f['exc']}"
                st["faults"][key] = st["faults"].get(key, 0) + 1
        st["faults"].pop("density", None)
        if fired["n"]:
            st["hashes"] = [short(canon(world.dumps([spec["seq"]])))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    def shrink(self, spec):
        seq = spec["seq"]
        if spec["env"]:
            yield dict(spec, env={})
        for i in range(len(seq)):
            if len(seq) > 1:
                yield dict(spec, seq=seq[:i] + seq[i + 1:])
        for i in range(len(spec["follow"])):
            yield dict(spec, follow=spec["follow"][:i] + spec["follow"][i + 1:])
        for i, item in enumerate(seq):
            for q in shrink_op(item["p"]):
                yield dict(spec, seq=seq[:i] + [dict(item, p=q)] + seq[i + 1:])


CHECKS = {
    "C14": Faults("C14", "faults in unidimensional item estimation", ["dich", "poly"],
                  {"quick": 1000, "thorough": 25000}),
    "C15": Faults("C15", "faults in ability and multidimensional estimation", ["abil", "md"],
                  {"quick": 1000, "thorough": 25000}),
    "C16": Faults("C16", "faults in statistics, factoring and synthesis",
                  ["common", "fa", "syn", "util"], {"quick": 2400, "thorough": 50000}, calls=(3, 6, 10, 16)),
}
