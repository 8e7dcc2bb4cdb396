"""C05-C08: parallel polychoric correlation and what is built on it."""
import gc
import json

import numpy as np

from sim import models, ops, world
from sim.digest import canon, digest, short
from sim.kernel import Kernel
from sim.runner import REAL, STUBS, kernel_stats
from . import bootstrap as bs
from .common import viol

DTYPES = ["int64", "int64", "int32", "int16", "int8", "uint8", "uint16", "float64"]


# ------------------------------------------------------------------ calls
def ordinal(c):
    rs = np.random.RandomState(c["d"])
    ni, n, lv, lo = c["ni"], c["np"], c["lv"], c["start"]
    z = (rs.standard_normal(n)[None] * (0.3 + rs.rand(ni))[:, None]
         + rs.standard_normal((ni, n)))
    cut = np.quantile(z, np.linspace(0, 1, lv + 1)[1:-1], axis=1).T if ni else np.zeros((0, 1))
    data = lo + (z[:, :, None] > cut[:, None, :]).sum(2) if ni else np.zeros((0, n))
    data = np.asarray(data).astype(c["dt"])
    if c.get("order") == "F":
        data = np.asfortranarray(data)
    elif c.get("order") == "S":
        big = np.zeros((ni, 2 * n), data.dtype)
        big[:, ::2] = data
        data = big[:, ::2]
    elif c.get("order") == "R":         # reversed view
        data = data[::-1, ::-1].copy()[::-1, ::-1]
    elif c.get("order") == "RO":
        data.setflags(write=False)
    return data


def gen_poly(r, small=True):
    c = {"kind": "polychoric", "d": r.randrange(1000),
         "ni": r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6]), "np": r.choice([8, 13, 20]),
         "lv": r.choice([2, 2, 2, 3, 3, 4]), "start": r.choice([0, 1, 1]), "dt": r.choice(DTYPES),
         "n": r.choice([2, 2, 3, 3, 4, 5, 7])}
    if r.random() < 0.3:
        c["n"] = c["ni"] * (c["ni"] - 1) // 2 + r.choice([0, 1, 3])
        c["n"] = max(2, min(c["n"], 12))
    if r.random() < 0.06:
        c["ni"], c["np"], c["n"] = r.choice([7, 8, 9]), 8, r.choice([2, 3, 8, 16])
    elif r.random() < 0.1:
        c["np"] = r.choice([64, 200])
    if r.random() < 0.04:              # many response levels
        c["ni"], c["np"], c["n"] = r.choice([2, 3]), r.choice([40, 64]), r.choice([2, 3])
        c["lv"] = r.choice([6, 8, 11, 13])
    if r.random() < 0.35:
        c["order"] = r.choice(["F", "S", "R", "RO"])
    return c


def gen_md(r, heavy):
    name = r.choice(["initial_guess_md"] * (2 if heavy else 5)
                    + ["multidimensional_grm_mml", "multidimensional_twopl_mml"])
    c = {"kind": name, "d": r.randrange(1000), "ni": r.choice([5, 6]), "np": r.choice([40, 60]),
         "lv": 2 if name == "multidimensional_twopl_mml" else r.choice([2, 3]),
         "start": 0 if name == "multidimensional_twopl_mml" else 1, "dt": "int64",
         "n": r.choice([2, 3, 4])}
    c["opts"] = {"max_iteration": 1, "quadrature_n": 9}
    if r.random() < 0.3:
        c["opts"]["distribution"] = ["norm", 0.1, 1.1]
    return c


class Poly:
    """A call described by c, with c["n"] processors (n = 1: the serial form)."""

    def __init__(self, c, n=None):
        self.c, self.n = c, c["n"] if n is None else n
        self.kind = c["kind"]
        if self.kind == "bootstrap":
            self.boot = bs.Call(c)
            self.data = self.boot.data
        else:
            self.data = ordinal(c)
            self.keep = digest(self.data)

    def __call__(self):
        c = self.c
        if self.kind == "bootstrap":
            return self.boot()
        if self.kind == "polychoric":
            if self.n == 0:
                return ops.G("girth.common", "polychoric_correlation_serial")(
                    self.data, c["start"], c["start"] + c["lv"] - 1)
            return ops.G("girth.common", "polychoric_correlation")(
                self.data, c["start"], c["start"] + c["lv"] - 1, num_processors=self.n)
        mod = "girth.multidimensional" if self.kind == "initial_guess_md" else "girth"
        opts = dict(ops.options(c), num_processors=self.n)
        return ops.G(mod, self.kind)(self.data, 2, options=opts)


def show(c):
    if c["kind"] == "bootstrap":
        return bs.show(c)
    name = "polychoric_correlation" if c["kind"] == "polychoric" else c["kind"]
    extra = "".join(f", {k}={c[k]}" for k in ("order", "opts") if c.get(k))
    return (f"{name}({c['ni']}x{c['np']} {c['dt']} data {c['d']}, {c['lv']} levels from "
            f"{c['start']}, {c['n']} processors{extra})")


def solo(c, n, method="fork"):
    def go():
        call = Poly(c, n)
        k = world.run_tasks({"sched": {}, "entropy": 1, "world": 1, "method": method},
                            [("m0", lambda: world.observe(call, keep=True))])
        t = k.tasks[0]
        if k.status != "ok" or t.exc is not None:
            return {"key": ("hang", k.status), "show": k.status + "; ".join(k.describe()),
                    "total": k.total, "steps": {}, "value": None}
        v = t.result.value
        return {"key": t.result.as_key(), "show": t.result.show, "total": k.total,
                "steps": {x.name: x.steps for x in k.tasks},
                "value": v if isinstance(v, (np.ndarray, dict)) else None}
    st, out = world.in_fork(go)
    if st != "ok":
        raise world.HarnessError(f"reference: {out}")
    return out


def agree(o, ref, tol=3e-5):
    """The same outcome; numbers up to the tolerance of the solvers behind them.

    One and several processors are two paths through the code, which may round
    differently; a one-dimensional search then ends up to 1e-5 apart."""
    return o.as_key() == ref["key"] or (o.kind == "value" and ref["key"][0] == "value"
                                        and close(o.value, ref["value"], tol))


def close(a, b, tol):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)) and \
            all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and \
            all(close(x, y, tol) for x, y in zip(a, b))
    try:
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind not in "fiub" or a.dtype != b.dtype or a.shape != b.shape:
            return False
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    except (TypeError, ValueError):
        return False


def cap(*refs):
    return 60 * sum(r["total"] for r in refs) + 300_000


class Base(bs.Base):
    def trace(self, spec, k):
        out = [f"{n}: {show(c)}" for n, c in spec["calls"]]
        out.append(f"start method {spec.get('method')}")
        out += [f"fault: {f}" for f in k.fired]
        for d in k.decisions[:25]:
            out.append(f"{'preempt' if d[0] == 'p' else 'pick'} {d[1]}@{d[2]} -> {d[3]}")
        if len(k.decisions) > 25:
            out.append(f"... {len(k.decisions)} decisions")
        return out

    def shrink(self, spec):
        calls = spec["calls"]
        for i in range(len(calls)):
            if len(calls) > 1:
                yield dict(spec, calls=calls[:i] + calls[i + 1:])
        for i in range(len(spec.get("faults", ()))):
            yield dict(spec, faults=spec["faults"][:i] + spec["faults"][i + 1:])
        if spec.get("method") == "spawn":
            yield dict(spec, method="fork")
        for i, (name, c) in enumerate(calls):
            if c["kind"] == "bootstrap":
                continue
            cand = []
            for key in ("order",):
                if c.get(key):
                    q = dict(c)
                    q.pop(key)
                    cand.append(q)
            for key, lo in (("ni", 2 if c["kind"] == "polychoric" else 5), ("n", 2),
                            ("np", 8), ("lv", 2)):
                if c[key] > lo and not (key == "np" and c["kind"] != "polychoric"):
                    cand += [dict(c, **{key: x}) for x in sorted({lo, c[key] - 1})]
            if c["dt"] != "int64":
                cand.append(dict(c, dt="int64"))
            for q in cand:
                yield dict(spec, calls=calls[:i] + [[name, q]] + calls[i + 1:])


def env(r):
    return {"sched": bs.gen_pool_sched(r), "entropy": r.randrange(1 << 30),
            "world": r.randrange(1 << 30), "cpus": r.choice([1, 2, 8]),
            "method": r.choice(["fork", "fork", "spawn"]), "shm_round": r.random() < 0.7}


# ------------------------------------------------------------------ C05
class Equal(Base):
    id, title = "C05", "parallel polychoric correlation equals the serial one"
    runs = {"quick": 900, "thorough": 25000}
    rule = ("one case = 1-2 polychoric correlations (1-6 items, 2-3 levels, eight number "
            "types, five memory layouts, 2-12 processors, fork or spawn) in concurrent caller "
            "threads under one seeded schedule with stalled workers, compared with the serial "
            "function in a fresh process; non-trivial = at least two workers; distinct by "
            "hash of hand-overs and calls")

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        calls = [["m0", gen_poly(r)]]
        if r.random() < 0.35:
            c = gen_poly(r)
            if r.random() < 0.6:
                # same shape, other data: a mix-up of segments or results shows
                c = dict(calls[0][1], d=calls[0][1]["d"] + 1)
            calls.append(["m1", c])
        faults = []
        for _ in range(r.choice([0, 0, 1, 2])):
            faults.append({"task": f"m0/ppe0/w{r.randrange(4)}", "step": r.randrange(1, 200),
                           "kind": "stall", "dur": r.choice([0.5, 30.0, 4000.0])})
        return dict(env(r), calls=calls, faults=faults, again=r.random() < 0.3)

    def run(self, spec):
        refs = {n: solo(c, 0) for n, c in spec["calls"]}
        calls = {n: Poly(c) for n, c in spec["calls"]}

        def task(n):
            def go():
                out = [world.observe(calls[n], keep=True)]
                if spec.get("again"):
                    out.append(world.observe(calls[n], keep=True))
                return out
            return go
        k = world.run_tasks(spec, [(n, task(n)) for n, _ in spec["calls"]],
                            max_steps=2 * cap(*refs.values()))
        v = None
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"does not end ({k.status}): " + "; ".join(k.describe()))
        else:
            for n, c in spec["calls"]:
                for o in k.by_name[n].result:
                    v = v or self.judge(c, o, refs[n], calls[n])
        rspec = world.ran_spec(spec, k)
        if v:
            v["trace"] = self.trace(spec, k)
        nw = sum(t.role == "worker" for t in k.tasks)
        st = kernel_stats(k, nontrivial=False, probes={
            "concurrent callers": int(len(calls) > 1),
            "spawned workers": int(spec["method"] == "spawn"),
            "more processors than pairs": int(any(
                c["n"] > c["ni"] * (c["ni"] - 1) // 2 for _, c in spec["calls"])),
            "single item": int(any(c["ni"] == 1 for _, c in spec["calls"]))},
            extra={"workers": nw})
        if nw > 1:
            st["hashes"] = [short((k.log.hexdigest(), world.dumps(spec["calls"])))]
        return {"violation": v, "replay_spec": rspec, "stats": st}

    def judge(self, c, o, ref, call):
        if not agree(o, ref):
            return viol("differs-from-serial", f"{show(c)} returned {o.show}; serial "
                        f"{ref['show']}")
        if digest(call.data) != call.keep:
            return viol("inputs-changed", f"{show(c)} altered the caller's data")
        m = o.value
        if o.kind == "value":
            if m.shape != (c["ni"],) * 2 or not np.array_equal(m, m.T, equal_nan=True) or \
                    not np.array_equal(np.diag(m), np.ones(c["ni"])):
                return viol("malformed-matrix", f"{show(c)}: not symmetric with unit diagonal: "
                            f"{o.show}")
        return None


# ------------------------------------------------------------------ C06
def gen_fault(r, n):
    u = r.random()
    if u < 0.12:
        return {"op": "shm", "n": 0, "kind": "shm"}
    if u < 0.24:
        return {"op": "attach", "n": r.randrange(n), "kind": "attach"}
    if u < 0.3:
        return {"op": "manager", "n": 0, "kind": "manager"}
    return bs.gen_worker_fault(r, n)


class Partial(Base):
    id, title = "C06", "parallel polychoric correlation never returns a partial matrix"
    runs = {"quick": 900, "thorough": 25000}
    rule = ("one case = one parallel polychoric correlation under one seeded schedule with "
            "1-2 faults (worker killed while working or idle, exception in a worker, worker "
            "that cannot be started, result that cannot be pickled, shared memory that cannot "
            "be created or attached, manager that cannot be started, stall, interrupt of the "
            "caller before, at or during a wait), then a fault-free call; non-trivial = a "
            "fault fired; distinct by hash of hand-overs and faults")

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        c = gen_poly(r)
        c["ni"] = max(c["ni"], r.choice([1, 3, 3, 4]))
        follow = dict(gen_poly(r), n=r.choice([2, 3]))
        return dict(env(r), calls=[["m0", c]], follow=follow,
                    faults=[gen_fault(r, c["n"]) for _ in range(r.choice([1, 1, 1, 2]))])

    tol = 3e-5

    def refs(self, spec):
        c = spec["calls"][0][1]
        return solo(c, 0), solo(spec["follow"], 0), solo(c, c["n"])

    def run(self, spec):
        c = spec["calls"][0][1]
        ref, fref, par = self.refs(spec)
        if par["key"][0] == "hang":
            return {"violation": viol("hang", f"{show(c)} alone: {par['show']}"),
                    "stats": {"hashes": []}}
        spec = dict(spec, faults=bs.place_faults(bs.pool_label(spec, par), par))
        call, follow = Poly(c), Poly(spec["follow"])

        def go():
            o = world.observe(call, keep=True)
            k = Kernel.current
            first = list(k.fired)
            bs.stop_faults(k)
            gc.collect()
            o2 = world.observe(follow, keep=True)
            return o, o2, first
        k = world.run_tasks(spec, [("m0", go)], max_steps=cap(ref, fref, par))
        t = k.tasks[0]
        v = None
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"{show(c)} with {k.fired} does not end ({k.status}): "
                     + "; ".join(k.describe()))
        elif t.exc is not None:
            raise world.HarnessError(f"{t.exc!r}")
        else:
            v = self.judge(c, spec, call, ref, fref, *t.result)
        rspec = world.ran_spec(spec, k)
        if v:
            v["trace"] = self.trace(spec, k)
        out = t.result[0] if t.result else None
        st = kernel_stats(k, nontrivial=bool(k.fired) or self.id == "C08", probes={
            "call raised": int(bool(out) and out.kind == "raise"),
            "exact result in spite of a fault": int(bool(out) and out.kind == "value"
                                                    and bool(k.fired)),
            "planned fault not reached": max(0, len(spec["faults"]) - len(k.fired))})
        return {"violation": v, "replay_spec": rspec, "stats": st}

    def judge(self, c, spec, call, ref, fref, o, o2, first):
        kbd = any(f.get("exc") == "kbd" or (f["kind"] == "kbd" and f.get("task") == "m0")
                  for f in first)
        if o.kind == "value" and (kbd or o.interrupted):
            return viol("interrupt-absorbed", f"{show(c)} returned although the caller was "
                        f"interrupted ({first})")
        if o.kind == "raise" and not first and o.as_key() != ref["key"]:
            return viol("unexpected-failure", f"{show(c)}: {o.show}")
        if o.kind == "value" and not agree(o, ref, self.tol):
            return viol("partial-result", f"{show(c)} with {first} returned {o.show}; "
                        f"failure-free {ref['show']}")
        if digest(call.data) != call.keep:
            return viol("inputs-changed", f"{show(c)} altered the caller's data")
        if not agree(o2, fref, self.tol):
            return viol("later-call-differs", f"after {show(c)} with {first}: "
                        f"{show(spec['follow'])} gives {o2.show}; in a fresh process "
                        f"{fref['show']}")
        return None


# ------------------------------------------------------------------ C08
class Multi(Partial):
    id, title = "C08", "multidimensional estimation independent of processors"
    tol = 1e-3          # estimates built on the correlations
    runs = {"quick": 260, "thorough": 8000}
    rule = ("one case = initial_guess_md, multidimensional_grm_mml or "
            "multidimensional_twopl_mml with 2-4 processors under one seeded schedule, half "
            "of them with 1-2 faults in the parallel phase (as for C06), compared with one "
            "processor in a fresh process, then a fault-free call; non-trivial = at least two "
            "workers; distinct by hash of hand-overs and faults")

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        c = gen_md(r, idx % 2)
        faults = []
        if r.random() < 0.55:
            faults = [gen_fault(r, c["n"]) for _ in range(r.choice([1, 1, 2]))]
        follow = dict(gen_md(r, False), n=2)
        if r.random() < 0.5:
            follow = dict(c, n=2, d=c["d"] + 1)
        return dict(env(r), calls=[["m0", c]], follow=follow, faults=faults)

    def refs(self, spec):
        c = spec["calls"][0][1]
        return solo(c, 1), solo(spec["follow"], 1), solo(c, c["n"])

    def judge(self, c, spec, call, ref, fref, o, o2, first):
        v = super().judge(c, spec, call, ref, fref, o, o2, first)
        if v and v["class"] == "partial-result" and not first:
            v["class"] = "depends-on-processors"
        return v


# ------------------------------------------------------------------ C07
class Release(Base):
    id, title = "C07", "parallel calls release workers and shared memory"
    runs = {"quick": 900, "thorough": 25000}
    rule = ("one case = 1-3 parallel calls (polychoric correlation, bootstrap, "
            "multidimensional initial guess) in sequence under one seeded schedule, most with "
            "1-2 faults (as for C04 and C06, interrupts while waiting or failing); after each "
            "the shared-memory registry, managers, busy and remaining workers are inspected; "
            "non-trivial = workers or segments were created; distinct by hash of hand-overs "
            "and faults")
    assumptions = bs.Base.assumptions + [
        "inspected after the result or exception was dropped and garbage collected; workers "
        "without work get 100 simulated seconds to exit; after an interrupt that strikes in "
        "the executor's own shutdown, workers may finish the work they hold",
        "interrupts strike at waits, not inside the standard library's process start"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        seq = []
        for i in range(r.choice([1, 1, 2, 3])):
            kind = r.choice(["polychoric", "polychoric", "polychoric", "bootstrap", "md"])
            if kind == "bootstrap":
                c = dict(bs.gen_call(r, ["quick", "poly"]), kind="bootstrap")
                c["n"] = max(2, c["n"])
            elif kind == "md":
                c = gen_md(r, False)
                c["kind"] = "initial_guess_md"
            else:
                c = gen_poly(r)
            faults = []
            if r.random() < 0.8:
                for _ in range(r.choice([1, 1, 2])):
                    f = gen_fault(r, c["n"])
                    if f.get("exc") == "kbd" or (f["kind"] == "kbd" and "frac" in f):
                        f = {"task": "m0", "kind": "kbd", "wait": r.choice([1, 1, 2, 3])}
                    faults.append(f)
            seq.append([c, faults])
        return dict(env(r), calls=[[f"call {i}", c] for i, (c, _) in enumerate(seq)],
                    plan=[f for _, f in seq], faults=[])

    def run(self, spec):
        refs = [solo(c, c["n"]) for _, c in spec["calls"]]
        calls = [Poly(c) for _, c in spec["calls"]]
        plan = []
        for fs, ref in zip(spec["plan"], refs):
            sub = {"faults": fs}
            plan.append(bs.place_faults(bs.pool_label(sub, ref), ref))
        spec = dict(spec, plan=plan)
        count = {"segments": 0, "workers": 0, "raised": 0, "interrupted": 0}

        def go():
            k = Kernel.current
            ps = k.procs
            for i, (call, faults) in enumerate(zip(calls, plan)):
                self.arm(k, faults, i)
                npool, nshm, n0 = len(ps.pools), len(ps.shm_log), len(k.fired)
                o = world.observe(call)
                fired = list(k.fired[n0:])
                # what still works, before anything else may run
                count["raised"] += o.kind == "raise"
                count["segments"] += sum(a == "create" for a, _ in ps.shm_log[nshm:])
                mine = ps.pools[npool:]
                soft = any(f["kind"] == "kbd" and f.get("why") == "pool shutdown"
                           for f in fired)
                count["interrupted"] += any(f["kind"] == "kbd" for f in fired)
                gc.collect()
                what = f"{show(call.c)} with {fired} ({o.show[:60]})"
                busy = [w for p in mine for w in self.busy(p)]
                if busy and not soft:
                    return viol("worker-left-running", f"after {what}: {', '.join(busy)} "
                                "still at work")
                if ps.registry:
                    return viol("segment-left", f"after {what}: shared memory "
                                f"{sorted(ps.registry)} still exists")
                if ps.managers:
                    return viol("manager-left", f"after {what}: a shared-memory manager is "
                                "still running")
                bs.stop_faults(k)
                k.sleep(100.0)
                for _ in range(20):
                    if not any(p.live() for p in mine):
                        break
                    k.sleep(1000.0)
                gc.collect()
                live = [w for p in mine for w in p.live()]
                if live:
                    return viol("worker-left-running", f"after {what}: {', '.join(live)} "
                                "never ended")
                if ps.registry or ps.managers:
                    return viol("segment-left", f"after {what}: {sorted(ps.registry)}")
            return None
        k = world.run_tasks(spec, [("m0", go)], max_steps=cap(*refs))
        t = k.tasks[0]
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"calls do not end ({k.status}) with {k.fired}: "
                     + "; ".join(k.describe()))
        elif t.exc is not None:
            raise world.HarnessError(f"{t.exc!r}")
        else:
            v = t.result
        rspec = world.ran_spec(spec, k)
        if v:
            v["trace"] = self.trace(spec, k)
        nw = sum(x.role == "worker" for x in k.tasks)
        count["workers"] = nw
        return {"violation": v, "replay_spec": rspec,
                "stats": kernel_stats(k, probes=count,
                                      nontrivial=nw > 0 or count["segments"] > 0)}

    @staticmethod
    def busy(p):
        """Workers of a pool (or a bare process) that still have work."""
        if hasattr(p, "running"):
            if not p.live():
                return []
            out = list(p.running)
            if p.pending:
                out.append(f"{len(p.pending)} waiting tasks of {p.name}")
            return out
        return p.live()

    @staticmethod
    def arm(k, faults, i):
        """Faults are written for the first pool of a call; shift them to call i."""
        t = k.cur
        pools = t.nchild
        for f in faults:
            f = dict(f)
            if "op" in f:
                base = k.procs.op_counts.get(f["op"], 0)
                k.procs.op_faults[(f["op"], base + f["n"])] = f
                continue
            if f["task"] == "m0":
                if "wait" in f:
                    t.wait_faults[t.nwaits + f["wait"]] = f
                elif "step" in f:
                    f["step"] += t.steps
                    t.faults.append(f)
                    t.faults.sort(key=lambda x: x["step"])
                    k._set_next(t)
                continue
            head, _, rest = f["task"].partition("/")
            kind = rest.split("/")[0].rstrip("0123456789")
            n = int(rest.split("/")[0][len(kind):] or 0)
            f["task"] = "/".join([head, f"{kind}{pools + n}"] + rest.split("/")[1:])
            if f["kind"] == "unpicklable":
                k.procs.op_faults[("unpicklable", f["task"])] = f
            else:
                k.fault_specs.append(f)

    def shrink(self, spec):
        n = len(spec["calls"])
        for i in range(n):
            if n > 1:
                yield dict(spec, calls=spec["calls"][:i] + spec["calls"][i + 1:],
                           plan=spec["plan"][:i] + spec["plan"][i + 1:])
        for i in range(n):
            for j in range(len(spec["plan"][i])):
                new = spec["plan"][i][:j] + spec["plan"][i][j + 1:]
                yield dict(spec, plan=spec["plan"][:i] + [new] + spec["plan"][i + 1:])
        for cand in super().shrink(spec):
            if len(cand["calls"]) == n:
                yield cand


CHECKS = {"C05": Equal(), "C06": Partial(), "C07": Release(), "C08": Multi()}
