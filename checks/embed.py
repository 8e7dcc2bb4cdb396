"""C23, C24: calls inside other calls, and in the caller's own processes."""
import copy

import multiprocessing
from concurrent.futures import ProcessPoolExecutor

from sim import ops, world
from sim.digest import canon, diff_state, process_state, short
from sim.kernel import Kernel
from sim.runner import REAL, STUBS, kernel_stats
from .common import (MAXSTEPS, Snapshot, group_ops, share_inputs, show_op, shrink_op, viol)
from .faults import Faults, arm, disarm

ALL = [n for n in group_ops(*ops.GROUPS)]
LIGHT = ("common", "fa", "util", "syn")


def swapped(obj, key, new):
    return obj[:key] + [new] + obj[key + 1:]


# ----------------------------------------------------------- nested calls
class Nested:
    id, title = "C23", "calls made inside other calls are exact"
    runs = {"quick": 900, "thorough": 25000}
    measure = "distinct nestings: hash of outer and inner calls and the steps of nesting"
    rule = ("one case = 1-6 calls in one thread, during each of which 1-3 other calls (equal, "
            "near-identical, same input objects or unrelated) are made in the same thread "
            "before it continues: at a drawn step, line or library call of it as from a "
            "signal handler or finaliser, or from the caller's latent density (there again "
            "interrupted by a further call); non-trivial = an inner call ran inside an outer "
            "one; distinct by hash of calls and places")
    real = REAL[:2]
    stubs = STUBS[:1] + STUBS[4:]
    assumptions = ["inner calls strike at GIRTH source lines, at calls made by GIRTH and in "
                   "the caller's density; those that strike at lines run without further "
                   "nesting inside",
                   "reference = the same call alone in a fresh process of the same tree"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        first = ops.gen(r, [ALL[idx % len(ALL)]])
        group = ops.OPS[first["op"]]["group"]
        seq = []
        for i in range(r.choice([2, 4, 6]) if group in LIGHT else r.choice([1, 1, 2])):
            p = first if not i else r.choice([ops.neighbour(r, first), copy.deepcopy(first)])
            nest = []
            for _ in range(r.choice([1, 1, 2, 3])):
                u = r.random()
                q = (copy.deepcopy(p) if u < 0.25 else ops.neighbour(r, p) if u < 0.8 else
                     ops.gen(r, ops.GROUPS[group] if u < 0.95 else ALL))
                f = {"frac": r.random(), "how": r.choice(["uniform", "cold", "site", "site"]),
                     "off": r.randrange(4)}
                dist = (p.get("opts") or {}).get("distribution")
                if dist and dist[0] in ("norm", "logis", "mix") and r.random() < 0.6:
                    f = {"density": r.choice([1, 1, 2, 3])}
                nest.append({"p": q, "at": f})
            seq.append({"p": p, "nest": nest})
        return {"seq": seq, "share": r.random() < 0.5, "entropy": r.randrange(1 << 30),
                "world": 0, "follow": r.random() < 0.5}

    def place(self, spec, refs):
        seq = []
        for item in spec["seq"]:
            nest = []
            for n in item["nest"]:
                f = dict(n["at"])
                if "density" not in f and "step" not in f:
                    fake = {"seq": [{"p": item["p"], "fault": dict(f, kind="nest")}]}
                    f = {"step": Faults.place(Faults, fake, refs)["seq"][0]["fault"]["step"]}
                nest.append({"p": n["p"], "at": f})
            seq.append({"p": item["p"], "nest": nest})
        return dict(spec, seq=seq)

    def run(self, spec):
        refs = world.Refs(True)
        spec = self.place(spec, refs)
        every = [p for i in spec["seq"] for p in [i["p"]] + [n["p"] for n in i["nest"]]]
        steps = sum(refs[p]["steps"] for p in every)
        count = {"inner calls": 0, "from the density": 0, "inside inner calls": 0,
                 "never reached": 0}

        def go():
            k = Kernel.current
            held = []

            def check(what, call, snap, p, o):
                if o.as_key() != refs[p]["key"]:
                    return viol("differs-from-solo", f"{what} {show_op(p)} returned {o.show}; "
                                f"alone it gives {refs[p]['show']}")
                if snap.changed():
                    return viol("inputs-changed", f"{what} {show_op(p)} left {snap.what()} "
                                "altered")
                if o.kind == "value":
                    held.append((o, f"{what} {show_op(p)}"))
                return None

            for item in spec["seq"]:
                k.mute = True
                p, bad, depth = item["p"], [], [0]
                calls = [ops.build(q) for q in [p] + [n["p"] for n in item["nest"]]]
                if spec["share"]:
                    share_inputs(calls, [p] + [n["p"] for n in item["nest"]])
                snaps = [Snapshot(c.inputs()) for c in calls]
                before = process_state()
                ran = set()

                def inner(j, how):
                    if j in ran:
                        return
                    ran.add(j)
                    q = item["nest"][j]["p"]
                    count["inner calls"] += 1
                    count["from the density"] += how == "density"
                    count["inside inner calls"] += depth[0] > 0
                    depth[0] += 1
                    o = world.observe(calls[1 + j], keep=True)
                    depth[0] -= 1
                    mute, k.mute = k.mute, True
                    v = check(f"inside {show_op(p)} at {item['nest'][j]['at']}:",
                              calls[1 + j], snaps[1 + j], q, o)
                    k.mute = mute
                    if v:
                        bad.append(v)

                k.nested = lambda f: inner(f["j"], "step")
                own = calls[0].densities()
                wanted = {}
                for j, n in enumerate(item["nest"]):
                    if "density" in n["at"]:
                        wanted[n["at"]["density"]] = j
                for d in own:
                    d.hook = lambda c: inner(wanted[c], "density") if c in wanted else None
                k.mute = False
                arm(k, [{"kind": "nest", "j": j, "step": n["at"]["step"]}
                        for j, n in enumerate(item["nest"]) if "step" in n["at"]])
                o = world.observe(calls[0], keep=True)
                k.mute = True
                disarm(k)
                for d in own:
                    d.hook = None
                count["never reached"] += len(item["nest"]) - len(ran)
                if bad:
                    return bad[0]
                v = check("with calls inside it:", calls[0], snaps[0], p, o)
                if v:
                    return v
                changed = diff_state(before, process_state())
                if changed:
                    return viol("process-state-changed", f"{show_op(p)} with calls inside it "
                                f"changed {', '.join(changed)}")
                k.mute = False
            for p in ([i["p"] for i in spec["seq"]][:2] if spec["follow"] else []):
                call = ops.build(p)
                v = check("afterwards:", call, Snapshot(call.inputs()), p,
                          world.observe(call, keep=True))
                if v:
                    return dict(v, **{"class": "later-call-differs"})
            k.mute = True
            for o, what in held:
                if short(canon(o.value)) != o.canon:
                    return viol("result-changed-later", f"the value returned {what} was "
                                "altered by other calls")
            return None

        k = world.run_tasks({"sched": {}, "entropy": spec["entropy"], "world": 0},
                            [("m0", go)], max_steps=MAXSTEPS * steps + 2_000_000)
        t = k.tasks[0]
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"nested calls do not end ({k.status})")
        elif t.exc is not None:
            raise world.HarnessError(f"harness failure {t.exc!r}")
        else:
            v = t.result
        if v is not None:
            v["trace"] = [f"{show_op(i['p'])} and inside it " + "; ".join(
                f"{show_op(n['p'])} at {n['at']}" for n in i["nest"]) for i in spec["seq"]]
        st = kernel_stats(k, nontrivial=False, probes=count, extra={"calls": len(every)})
        if count["inner calls"]:
            st["hashes"] = [short(canon(world.dumps(spec["seq"])))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    def shrink(self, spec):
        seq = spec["seq"]
        for key in ("follow", "share"):
            if spec[key]:
                yield dict(spec, **{key: False})
        for i in range(len(seq)):
            if len(seq) > 1:
                yield dict(spec, seq=seq[:i] + seq[i + 1:])
        for i, item in enumerate(seq):
            nest = item["nest"]
            for j in range(len(nest)):
                yield dict(spec, seq=swapped(seq, i, dict(item, nest=nest[:j] + nest[j + 1:])))
            for q in shrink_op(item["p"]):
                yield dict(spec, seq=swapped(seq, i, dict(item, p=q)))
            for j, n in enumerate(nest):
                for q in shrink_op(n["p"]):
                    yield dict(spec, seq=swapped(seq, i, dict(item, nest=swapped(
                        nest, j, dict(n, p=q)))))


# --------------------------------------------------- the caller's processes
def child(ps):
    """What a worker process of the caller does: some calls, their outcomes."""
    out = []
    for p in ps:
        o = world.observe(ops.build(p))
        out.append((o.as_key(), o.show))
    return out


def child_to(q, i, ps):
    q.put((i, child(ps)))


class Processes:
    id, title = "C24", "calls in the caller's own worker processes are exact"
    runs = {"quick": 700, "thorough": 15000}
    measure = ("distinct schedules: hash of the sequence (task, step) of every baton "
               "hand-over of a run and its calls")
    rule = ("one case = a program that calls GIRTH, starts 1-3 batches of 1-3 worker processes "
            "(multiprocessing.Process, Pool or ProcessPoolExecutor; fork or spawn) which each "
            "make 1-2 calls, and goes on calling, while another thread of it is in the middle "
            "of a call, under one seeded schedule; a forked worker inherits all module data "
            "as they are at that moment; every call in every process is compared with the "
            "same call alone; non-trivial = a worker process made a call; distinct by hash of "
            "hand-overs and calls")
    real = REAL[:2]
    stubs = STUBS
    assumptions = ["a fork inherits module, class, closure and function data and the forking "
                   "thread's thread-local values, not caches inside C objects "
                   "(functools.lru_cache)",
                   "reference = the same call alone in a fresh process of the same tree"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        names = [n for n in ALL if n != "standard_errors_bootstrap"]
        base = self.op(r, [names[idx % len(names)]])

        def draw():
            u = r.random()
            if u < 0.35:
                return copy.deepcopy(base)
            if u < 0.8:
                return ops.neighbour(r, base)
            g = ops.OPS[base["op"]]["group"]
            return self.op(r, [n for n in names if ops.OPS[n]["group"] == g])
        heavy = ops.OPS[base["op"]]["group"] == "md"
        batches = []
        for _ in range(1 if heavy else r.choice([1, 1, 2])):
            batches.append({"how": r.choice(["process", "process", "pool", "executor"]),
                            "method": r.choice(["fork", "fork", "fork", "spawn"]),
                            "n": r.choice([1, 2]),
                            "lists": [[draw() for _ in range(r.choice([1, 1, 2]))]
                                      for _ in range(r.choice([1, 2] if heavy else [1, 2, 3]))]})
        spec = {"pre": [draw() for _ in range(r.choice([0, 1, 1]))], "batches": batches,
                "post": [draw() for _ in range(r.choice([0, 1]))],
                "other": [draw() for _ in range(r.choice([0, 1, 1, 2]))],
                "sched": world.gen_sched(r, 0), "entropy": r.randrange(1 << 30),
                "world": r.randrange(1 << 30), "method": r.choice(["fork", "spawn"])}
        if not heavy and r.random() < 0.35:     # fork while m0 is held in the middle of a call
            spec["other"] = [draw()]
            spec["pre"] = []
            spec["batches"] = [{"how": r.choice(["process", "process", "executor"]),
                                "method": "fork", "n": 1, "lists": [[draw()]]}
                               for _ in range(r.choice([2, 3, 4]))]
            spec["pins"] = [r.random() for _ in spec["batches"]]
        elif spec["other"] and r.random() < 0.15:
            spec["faults"] = [{"task": "m0", "frac": r.random(), "kind": "kbd"}]
        return spec

    @staticmethod
    def op(r, names):
        p = ops.gen(r, names)
        if p["op"] == "polychoric_correlation" and r.random() < 0.5:
            p["x"] = {"procs": r.choice([2, 3])}
        return p

    @staticmethod
    def every(spec):
        return (spec["pre"] + spec["post"] + spec["other"]
                + [p for b in spec["batches"] for lst in b["lists"] for p in lst])

    def run(self, spec):
        site = spec["sched"].get("style") == "site"
        refs = world.Refs(profile=site or bool(spec.get("pins")))
        every = self.every(spec)
        steps = sum(refs[p]["steps"] for p in every)
        spec = dict(spec, sched=world.resolve_sites(spec["sched"], [refs[p] for p in every]))
        for f in spec.get("faults", ()):
            if "step" not in f:
                n = sum(refs[p]["steps"] for p in spec["other"])
                spec["faults"] = [dict(f, step=1 + int(f["frac"] * n))]
        count = {"worker processes": 0, "calls in workers": 0,
                 "forked in the middle of a call": 0, "held for a fork": 0}
        live = [0]
        at = 0, 0                   # where m0 stands, how often m1 has forked there
        if spec.get("pins") and spec["other"]:
            ref = refs[spec["other"][0]]
            spec["pins"] = sorted(x if isinstance(x, int) else Faults.at_site(
                world.rng_for(x), "kbd", ref) for x in spec["pins"])

        def hold(f):
            nonlocal at
            k = Kernel.current
            at = f["n"], 0
            count["held for a fork"] += 1
            k.block(lambda: at[1], k.now + 1.0, "fork")

        def reached(n):
            k = Kernel.current
            k.block(lambda: at[0] >= n or k.by_name["m0"].done, None, "m0")

        def forked():
            nonlocal at
            at = at[0], 1

        def batch(b):
            ctx = multiprocessing.get_context(b["method"])
            lists = b["lists"]
            count["worker processes"] += len(lists)
            count["calls in workers"] += sum(map(len, lists))
            count["forked in the middle of a call"] += b["method"] == "fork" and live[0] > 0
            if b["how"] == "process":
                q = ctx.Queue()
                ps = [ctx.Process(target=child_to, args=(q, i, lst))
                      for i, lst in enumerate(lists)]
                for x in ps:
                    x.start()
                forked()
                got = dict(q.get() for _ in ps)
                for x in ps:
                    x.join()
                return [got[i] for i in range(len(lists))]
            if b["how"] == "pool":
                with ctx.Pool(b["n"]) as pool:
                    return pool.map(child, lists, 1)
            with ProcessPoolExecutor(b["n"], mp_context=ctx) as ex:
                res = ex.map(child, lists)
                forked()
                return list(res)

        def here(lst, what, out):
            for p in lst:
                live[0] += what == "thread"
                o = world.observe(ops.build(p))
                live[0] -= what == "thread"
                out.append((what, p, (o.as_key(), o.show)))

        def m1():
            out = []
            here(spec["pre"], "before", out)
            for n, b in enumerate(spec["batches"]):
                if spec.get("pins"):
                    reached(n + 1)
                for lst, res in zip(b["lists"], batch(b)):
                    out += [(f"in a {b['method']}ed {b['how']} worker", p, x)
                            for p, x in zip(lst, res)]
            here(spec["post"], "after", out)
            return out

        def m0():
            out = []
            if spec.get("pins"):
                Kernel.current.nested = hold
                arm(Kernel.current, [{"kind": "nest", "n": i + 1, "step": step}
                                     for i, step in enumerate(spec["pins"])])
            here(spec["other"], "thread", out)
            return out
        mains = [("m1", m1)] + ([("m0", m0)] if spec["other"] else [])
        k = world.run_tasks(spec, mains, max_steps=MAXSTEPS * steps + 2_000_000)
        spec = world.ran_spec(spec, k)
        v = None
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"does not end ({k.status}): " + "; ".join(k.describe()))
        for name, _ in mains:
            t = k.by_name[name]
            if v:
                break
            if t.exc is not None:
                raise world.HarnessError(f"{name}: {t.exc!r}")
            hit = any(f.get("task") == name for f in k.fired)
            for what, p, (key, show) in t.result:
                if tuple(key) != refs[p]["key"] and not (hit and key[0] == "raise"):
                    v = viol("differs-from-solo", f"{what}: {show_op(p)} returned {show}; "
                             f"alone it gives {refs[p]['show']}")
                    break
        if v is not None:
            v["trace"] = self.trace(spec, k)
        st = kernel_stats(k, nontrivial=False, probes=count, extra={"calls": len(every)})
        st["hashes"] = [short((k.log.hexdigest(), world.dumps(every)))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    def trace(self, spec, k):
        out = [f"{w}: " + "; ".join(show_op(p) for p in spec[w])
               for w in ("pre", "post", "other") if spec[w]]
        for b in spec["batches"]:
            out.append(f"{b['how']} {b['method']} n={b['n']}: " + " | ".join(
                "; ".join(show_op(p) for p in lst) for lst in b["lists"]))
        out += [f"fault: {f}" for f in k.fired]
        for d in k.decisions[:25]:
            out.append(f"{'preempt' if d[0] == 'p' else 'pick'} {d[1]}@{d[2]} -> {d[3]}")
        return out

    def shrink(self, spec):
        if spec.get("faults"):
            yield dict(spec, faults=[])
        for w in ("pre", "post") if spec.get("pins") else ("pre", "post", "other"):
            for i in range(len(spec[w])):
                yield dict(spec, **{w: spec[w][:i] + spec[w][i + 1:]})
        bs = spec["batches"]
        for i, b in enumerate(bs):
            if len(bs) > 1:
                pins = spec.get("pins")
                yield dict(spec, batches=bs[:i] + bs[i + 1:],
                           **({"pins": pins[:i] + pins[i + 1:]} if pins else {}))
            if b["how"] != "process":
                yield dict(spec, batches=swapped(bs, i, dict(b, how="process")))
            for j, lst in enumerate(b["lists"]):
                if len(b["lists"]) > 1:
                    yield dict(spec, batches=swapped(bs, i, dict(
                        b, lists=b["lists"][:j] + b["lists"][j + 1:])))
                if len(lst) > 1:
                    for n in range(len(lst)):
                        yield dict(spec, batches=swapped(bs, i, dict(b, lists=swapped(
                            b["lists"], j, lst[:n] + lst[n + 1:]))))
        for w in ("pre", "post", "other"):
            for i, p in enumerate(spec[w]):
                for q in shrink_op(p):
                    yield dict(spec, **{w: swapped(spec[w], i, q)})
        for i, b in enumerate(bs):
            for j, lst in enumerate(b["lists"]):
                for n, p in enumerate(lst):
                    for q in shrink_op(p):
                        yield dict(spec, batches=swapped(bs, i, dict(b, lists=swapped(
                            b["lists"], j, swapped(lst, n, q)))))


CHECKS = {"C23": Nested(), "C24": Processes()}
