"""C01-C04: the bootstrap under schedules, worker faults and random streams."""
import gc
import math

import numpy as np
from scipy import stats as sps

from sim import models, ops, prims, world
from sim.digest import brief, canon, short
from sim.kernel import FAILURES, Kernel
from sim.runner import REAL, STUBS, kernel_stats
from .common import viol

NP = 32            # respondents; every column of a dataset is unique


def dataset(c):
    """Items x 32 answers; the first items spell the respondent's number."""
    rs = np.random.RandomState(c["d"])
    poly = c["model"] in ("poly", "recorder_poly")
    n = c.get("np", NP)
    code = (np.arange(n)[None] >> np.arange(max(5, (n - 1).bit_length()))[:, None]) & 1
    code = code[:, rs.permutation(n)]
    if c.get("wide"):
        extra = (rs.rand(c["wide"], n) < 0.5).astype(int)
        code = np.vstack([code, extra])
    code = code + 1 if poly else code
    if c.get("miss") and c.get("wide"):
        code[-1, rs.rand(n) < 0.2] = ops.INVALID
    code = code.astype(c.get("dt", "int64"))
    if c.get("order") == "F":
        code = np.asfortranarray(code)
    elif c.get("order") == "S":
        big = np.zeros((code.shape[0], 2 * n), code.dtype)
        big[:, ::2] = code
        code = big[:, ::2]
    return code


MODEL = dict(models.MODELS, recorder=models.recorder, recorder_poly=models.recorder_poly,
             recorder_scalar=models.recorder_scalar)
PURE = {"recorder": models.quick_model, "recorder_poly": models.quick_poly,
        "recorder_scalar": models.scalar_disc}


class Call:
    """One bootstrap call, rebuilt from its description."""

    def __init__(self, c):
        self.c = c
        self.data = dataset(c)
        if c["model"] == "failing":
            self.model = models.FailingModel(c["exc"], c["every"], c.get("unpicklable", False))
        else:
            self.model = MODEL[c["model"]]
        self.opts = ops.options(c)
        self.solution = None
        if c.get("solution"):
            full = dict(self.opts or {})
            base = PURE.get(c["model"], models.quick_model)
            if c["model"] == "poly":
                base = models.quick_poly
            elif c["model"] == "scalar":
                base = models.scalar_disc
            self.solution = base(self.data, full)
            self.solution["Difficulty"] = self.solution["Difficulty"] + 0.25

    def __call__(self):
        c = self.c
        kw = {"bootstrap_iterations": c["iters"], "n_processors": c["n"],
              "options": self.opts, "seed": c["seed"]}
        if self.solution is not None:
            kw["solution"] = self.solution
        return ops.G("girth", "standard_errors_bootstrap")(self.data, self.model, **kw)


MORE_OPTIONS = {"use_LUT": [False], "estimate_distribution": [True],
                "number_of_samples": [7, 11], "hyper_quadrature_n": [15, 31],
                "quadrature_bounds": [[-4, 4], [-5, 5]], "initial_guess": [False],
                "num_processors": [2]}


def gen_call(r, models_):
    c = {"d": r.randrange(1000), "model": r.choice(models_), "iters": r.choice(
        [2, 3, 4, 5, 7, 9, 12]), "n": r.choice([1, 2, 2, 3, 3, 4, 5]),
        "seed": r.choice([0, 1, 5, r.randrange(1 << 31)])}
    if r.random() < 0.3:
        c["n"] = c["iters"] + r.choice([0, 1, 2])
        c["iters"] = min(c["iters"], 5)
        c["n"] = min(c["n"], 7)
    if r.random() < 0.5:
        c["opts"] = {}
        if r.random() < 0.7:
            c["opts"]["quadrature_n"] = r.choice([9, 11, 21])
        if r.random() < 0.4:
            c["opts"]["distribution"] = ["norm", 0.2, 1.1]
        if r.random() < 0.3:
            c["opts"]["max_iteration"] = r.choice([1, 2, 7])
        for key, vals in MORE_OPTIONS.items():
            if r.random() < 0.15:
                c["opts"][key] = r.choice(vals)
    if r.random() < 0.08:              # long and wide pools
        c["iters"], c["n"] = r.choice([25, 50, 101, 130]), r.choice([2, 4, 8, 16])
    if r.random() < 0.3:
        c["wide"] = r.choice([1, 3, 3, 20])
    if r.random() < 0.2:
        c["np"] = r.choice([2, 3, 5, 9, 21, 40, 64, 150])
    if r.random() < 0.3:
        c["order"] = r.choice(["F", "S"])
    if r.random() < 0.3:
        c["dt"] = r.choice(["int8", "int32", "uint8", "float64"])
    if c.get("wide") and c.get("dt") in (None, "int32", "float64") and r.random() < 0.4:
        c["miss"] = 1
    if r.random() < 0.35 and c["model"] in ("quick", "poly", "scalar", "recorder",
                                            "recorder_poly", "recorder_scalar"):
        c["solution"] = 1
    return c


def show(c):
    return ("standard_errors_bootstrap(" + ", ".join(f"{k}={v}" for k, v in c.items()) + ")")


_SOLO = {"sched": {}, "entropy": 1, "world": 1}


def solo(c, method="fork"):
    """A failure-free run of the call alone in a fresh process."""
    def go():
        call = Call(c)
        k = world.run_tasks(dict(_SOLO, method=method), [("m0", lambda: world.observe(call))])
        t = k.tasks[0]
        if k.status != "ok" or t.exc is not None:
            return {"key": ("hang", k.status), "show": k.status, "steps": {}, "waits": {},
                    "total": k.total}
        return {"key": t.result.as_key(), "show": t.result.show, "total": k.total,
                "steps": {x.name: x.steps for x in k.tasks},
                "waits": {x.name: x.nwaits for x in k.tasks}}
    st, out = world.in_fork(go)
    if st != "ok":
        raise world.HarnessError(f"solo bootstrap: {out}")
    return out


def cap(*refs):
    return 40 * sum(r["total"] for r in refs) + 200_000


def gen_pool_sched(r):
    s = {"style": r.choice(["serial", "gap", "gap", "mixed", "burst", "forced"]),
         "seed": r.randrange(1 << 30), "budget": 600}
    if s["style"] == "gap":
        s["mean"] = r.choice([2, 5, 20, 80])
    elif s["style"] == "burst":
        s["mean"] = 3
    elif s["style"] == "forced":       # only the order of who runs next is drawn
        s["style"], s["log2max"] = "mixed", 13
        s["budget"] = 0
    return s


class Base:
    real = REAL
    stubs = STUBS
    measure = ("distinct schedules: hash of every baton hand-over (task, step) and fault of "
               "the run")
    assumptions = [
        "worker processes are simulated: own GIRTH module image and random state, messages "
        "pickled, behaviour of concurrent.futures and multiprocessing pools as in CPython "
        "3.12", "reference = the same call alone in a fresh process of the same tree"]

    def trace(self, spec, k):
        out = [f"{n}: {show(c)}" for n, c in spec["calls"]]
        out += [f"fault: {f}" for f in k.fired]
        for d in k.decisions[:25]:
            out.append(f"{'preempt' if d[0] == 'p' else 'pick'} {d[1]}@{d[2]} -> {d[3]}")
        if len(k.decisions) > 25:
            out.append(f"... {len(k.decisions)} decisions")
        return out

    def shrink(self, spec):
        calls = spec["calls"]
        for i in range(len(calls)):
            if len(calls) > 1:
                yield dict(spec, calls=calls[:i] + calls[i + 1:])
        if spec.get("noise"):
            yield dict(spec, noise=0)
        for i in range(len(spec.get("faults", ()))):
            yield dict(spec, faults=spec["faults"][:i] + spec["faults"][i + 1:])
        for i, (n, c) in enumerate(calls):
            for k, b in (("opts", None), ("wide", None), ("order", None), ("dt", None),
                         ("solution", None), ("np", None), ("miss", None)):
                if c.get(k):
                    q = dict(c)
                    q.pop(k)
                    yield dict(spec, calls=calls[:i] + [[n, q]] + calls[i + 1:])
            for k, lo in (("iters", 2), ("n", 2)):
                if c[k] > lo:
                    for val in sorted({lo, (c[k] + lo) // 2, c[k] - 1}):
                        yield dict(spec, calls=calls[:i] + [[n, dict(c, **{k: val})]]
                                   + calls[i + 1:])


# ------------------------------------------------------------------ C01
class Schedules(Base):
    id, title = "C01", "seeded bootstrap independent of scheduling"
    runs = {"quick": 700, "thorough": 20000}
    rule = ("one case = 1-2 seeded bootstraps (1-7 workers, several models, datasets, options) "
            "in concurrent caller threads under one seeded schedule of callers, workers and "
            "pool managers with stalled workers, other entropy, other global generator state "
            "and a thread drawing from it; results compared with each call alone in a fresh "
            "process; non-trivial = workers existed and the order of tasks deviated from the "
            "reference; distinct by hash of hand-overs")

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        names = ["quick", "quick", "quick", "poly", "scalar", "rasch_mml"]
        if idx % 12 == 0:
            names = ["onepl_mml", "twopl_mml", "onepl_jml", "rasch_mml"]
        calls = [["m0", gen_call(r, names)]]
        if r.random() < 0.4:
            c = gen_call(r, ["quick", "poly"])
            if r.random() < 0.5:
                c = dict(calls[0][1], seed=r.choice([calls[0][1]["seed"], 9]))
            calls.append(["m1", c])
        for _, c in calls:
            if c["model"] not in ("quick", "poly", "scalar"):
                c["iters"], c["n"] = min(c["iters"], 4), min(c["n"], 3)
                c["opts"] = {"quadrature_n": 9, "max_iteration": 2}
                for key in ("dt", "np", "miss", "wide"):
                    c.pop(key, None)
        faults = []
        for _ in range(r.choice([0, 0, 1, 2])):
            faults.append({"task": f"m0/ppe0/w{r.randrange(3)}", "step": r.randrange(1, 12),
                           "kind": "stall", "dur": r.choice([0.5, 30.0, 4000.0])})
        return {"calls": calls, "sched": gen_pool_sched(r), "faults": faults,
                "entropy": r.randrange(1 << 30), "world": r.randrange(1 << 30),
                "cpus": r.choice([1, 2, 8]), "gseed": r.randrange(1 << 30),
                "noise": r.choice([0, 0, 5]), "method": r.choice(["fork", "spawn"])}

    def run(self, spec):
        refs = {n: solo(c) for n, c in spec["calls"]}
        calls = {n: Call(c) for n, c in spec["calls"]}
        np.random.seed(spec["gseed"] & 0xffffffff)
        mains = [(n, lambda n=n: world.observe(calls[n])) for n, _ in spec["calls"]]
        if spec.get("noise"):
            def noise():
                k = Kernel.current
                for i in range(spec["noise"]):
                    np.random.standard_normal()
                    if i == 2:
                        np.random.seed(4)
                    np.random.default_rng(i).random()
                    k.preempt()
            mains.append(("z0", noise))
        k = world.run_tasks(spec, mains, max_steps=cap(*refs.values()))
        v = None
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"the bootstrap does not end ({k.status}): "
                     + "; ".join(k.describe()))
        else:
            for n, c in spec["calls"]:
                o = k.by_name[n].result
                if o.as_key() != refs[n]["key"]:
                    v = viol("differs-from-reference",
                             f"{n}: {show(c)} returned {o.show}; alone {refs[n]['show']}")
                    break
        spec = world.ran_spec(spec, k)
        if v:
            v["trace"] = self.trace(spec, k)
        nw = sum(t.role == "worker" for t in k.tasks)
        return {"violation": v, "replay_spec": spec,
                "stats": kernel_stats(k, nontrivial=nw > 0 and len(k.decisions) > 0,
                                      probes={"calls overlapped": int(len(spec["calls"]) > 1),
                                              "more workers than iterations":
                                                  int(any(c["n"] > c["iters"]
                                                          for _, c in spec["calls"]))},
                                      extra={"workers": nw, "calls": len(calls)})}


# ------------------------------------------------------------------ C02
def indices(data, sample):
    """Respondent numbers of a resample's columns, or None."""
    where = {data[:, j].tobytes(): j for j in range(data.shape[1])}
    if sample.ndim != 2 or sample.shape[0] != data.shape[0]:
        return None
    out = []
    for j in range(sample.shape[1]):
        col = where.get(np.ascontiguousarray(sample[:, j]).astype(data.dtype).tobytes())
        if col is None:
            return None
        out.append(col)
    return out


def pct(x, q):
    """Linear-interpolation percentile along axis 0, written out."""
    x = np.sort(x, axis=0)
    h = (x.shape[0] - 1) * q / 100.0
    lo = int(math.floor(h))
    hi = min(lo + 1, x.shape[0] - 1)
    return x[lo] + (x[hi] - x[lo]) * (h - lo)


class Counting(Base):
    id, title = "C02", "bootstrap summaries count each resample once"
    runs = {"quick": 1200, "thorough": 30000}
    rule = ("one case = one bootstrap with a recording model (2-24 iterations, 1-8 workers, "
            "more workers than iterations included) under one seeded schedule; the recorded "
            "fits are compared with the request and the summary is recomputed from them; "
            "non-trivial = at least two workers; distinct by hash of hand-overs and call")

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        c = gen_call(r, ["recorder", "recorder_poly", "recorder_scalar"])
        if r.random() < 0.2:
            c["iters"] = r.choice([16, 24, 41])
        elif r.random() < 0.04:        # sizes that users really ask for
            c["iters"] = r.choice([300, 500, 1000, 2000])
            c["n"] = r.choice([1, 2, 3, 4])
            c["np"] = r.choice([2, 4, 32])
        if r.random() < 0.15:
            c["seed"] = None
        faults = []
        if r.random() < 0.3:
            faults.append({"task": f"m0/ppe0/w{r.randrange(3)}", "step": r.randrange(1, 12),
                           "kind": "stall", "dur": 40.0})
        return {"calls": [["m0", c]], "sched": gen_pool_sched(r), "faults": faults,
                "entropy": r.randrange(1 << 30), "world": r.randrange(1 << 30),
                "cpus": 4, "method": "fork"}

    def run(self, spec):
        c = spec["calls"][0][1]
        call = Call(c)
        del models.LOG[:]
        k = world.run_tasks(spec, [("m0", lambda: world.observe(call, keep=True))],
                            max_steps=3_000_000)
        v = None
        o = k.tasks[0].result
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"{show(c)} does not end ({k.status}): "
                     + "; ".join(k.describe()))
        elif o.kind != "value":
            v = viol("unexpected-failure", f"{show(c)}: {o.show}")
        else:
            v = self.judge(c, call, list(models.LOG), o.value)
        spec = world.ran_spec(spec, k)
        if v:
            v["trace"] = self.trace(spec, k)
        nw = sum(t.role == "worker" for t in k.tasks)
        st = kernel_stats(k, nontrivial=False, probes={
            "more workers than iterations": int(c["n"] > c["iters"]),
            "solution supplied": int(bool(c.get("solution"))),
            "single processor": int(c["n"] == 1)},
            extra={"workers": nw, "fits recorded": len(models.LOG)})
        if nw > 1:
            st["hashes"] = [short((k.log.hexdigest(), world.dumps(c)))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    def judge(self, c, call, log, out):
        data = call.data
        if call.solution is None:
            own = [i for i, (d, _) in enumerate(log)
                   if d.shape == data.shape and np.array_equal(d, data)]
            # (a resample of a handful of respondents can equal the dataset)
            if not own or (len(own) > 1 and data.shape[1] >= 21):
                return viol("wrong-fits", f"{show(c)}: the dataset itself was fitted "
                            f"{len(own)} times instead of once")
            fits = log[:own[0]] + log[own[0] + 1:]
        else:
            fits = log
            if data.shape[1] >= 21 and any(np.array_equal(d, data) for d, _ in log):
                return viol("wrong-fits", f"{show(c)}: the dataset itself was fitted although "
                            "the solution was supplied")
        if len(fits) != c["iters"]:
            return viol("wrong-fits", f"{show(c)}: {len(fits)} resamples were fitted")
        for d, _ in fits:
            if d.shape != data.shape:
                return viol("wrong-resample", f"{show(c)}: a resample has shape {d.shape}")
            if indices(data, d) is None:
                return viol("wrong-resample", f"{show(c)}: a resample has columns that are no "
                            "respondent of the dataset")
        # with replacement: 32 of 32 distinct has probability 2e-13
        if data.shape[1] >= NP and any(len(set(indices(data, d))) == data.shape[1]
                                       for d, _ in fits):
            return viol("wrong-resample", f"{show(c)}: a resample holds every respondent once")
        keys = {o for _, o in log}
        if len(keys) > 1:
            return viol("wrong-options", f"{show(c)}: the fits got different options")
        if keys:
            got = dict(next(iter(keys))[1])
            mine = {kk: canon(vv) for kk, vv in (call.opts or {}).items()}
            for kk, vv in mine.items():
                if got.get(kk) != vv:
                    return viol("wrong-options", f"{show(c)}: option {kk} did not reach the "
                                "model as given")
            from sim.ops import G
            for kk, vv in G("girth", "default_options")().items():
                if kk not in mine and got.get(kk) != canon(vv):
                    return viol("wrong-options", f"{show(c)}: option {kk} is not the default")
        pure = PURE[c["model"]]
        full = {"quadrature_n": (call.opts or {}).get("quadrature_n", 41)}
        full = dict(ops.G("girth", "default_options")(), **(call.opts or {}))
        res = [pure(d, full) for d, _ in fits]
        sol = call.solution if call.solution is not None else pure(data, full)
        for name in ("Difficulty", "Discrimination"):
            x = np.array([np.ravel(q[name]) for q in res], float)
            shape = np.shape(sol[name])
            s = np.ravel(sol[name]).astype(float)
            n = x.shape[0]
            mean = x.sum(axis=0) / n
            with np.errstate(all="ignore"):
                se = np.sqrt(((x - mean) ** 2).sum(axis=0) / np.float64(n - 1)) if n > 1 \
                    else np.full_like(mean, np.nan)
            want = {"Standard Errors": se, "Bias": mean - s}
            for sec, val in want.items():
                got = np.asarray(out[sec][name], float)
                if name == "Difficulty" and got.shape != shape:
                    return viol("wrong-summary", f"{show(c)}: {sec} of {name} has shape "
                                f"{got.shape} instead of {shape}")
                if not np.allclose(got.ravel(), val, rtol=1e-8, atol=1e-10, equal_nan=True):
                    return viol("wrong-summary", f"{show(c)}: {sec} of {name} is "
                                f"{brief(got.ravel())}, the recorded fits give {brief(val)}")
            for q, side in ((2.5, 0), (97.5, 1)):
                got = np.asarray(out["95th CI"][name][side], float)
                if not np.allclose(got.ravel(), pct(x, q), rtol=1e-8, atol=1e-10):
                    return viol("wrong-summary", f"{show(c)}: the {q} percentile of {name} is "
                                f"{brief(got.ravel())}, the recorded fits give "
                                f"{brief(pct(x, q))}")
            if not np.allclose(np.ravel(out["Solution"][name]), s, rtol=1e-12):
                return viol("wrong-summary", f"{show(c)}: the solution's {name} is not that of "
                            "the dataset")
        return None


# ------------------------------------------------------------------ C03
W = 12      # this many equal consecutive draws do not happen by chance (32**-12)


class Independence(Base):
    id, title = "C03", "bootstrap resamples are independent"
    runs = {"quick": 500, "thorough": 12000}
    rule = ("one case = 2-3 bootstraps with a recording model in one process (equal, adjacent, "
            "random or no seeds, other entropy, reset global generator, 1-6 workers) or one "
            "of 400-800 iterations for uniformity; every pair of resamples is searched for a "
            "common run of 12 draws at any offset and respondents' frequencies are tested; "
            "non-trivial = more than one resample compared; distinct by hash of hand-overs")
    assumptions = Base.assumptions + [
        "12 equal consecutive draws from 32 respondents are taken as a shared stream "
        "(chance below 1e-10 per run); frequencies by chi-square below 1e-12"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        s0 = r.choice([0, 1, r.randrange(1000), r.randrange(1 << 31)])
        calls = []
        if idx % 4 == 0:
            c = gen_call(r, ["recorder"])
            c.update(iters=r.choice([400, 800]), n=r.choice([1, 2, 4]), seed=s0)
            calls.append(["m0", c])
        else:
            kind = r.choice(["adjacent", "adjacent", "none", "mixed"])
            n = r.choice([1, 2, 3, 4, 6])
            for j in range(r.choice([2, 3])):
                c = gen_call(r, ["recorder"])
                c["d"], c["n"] = 5, n if r.random() < 0.6 else r.choice([1, 2, 3, 5])
                c["iters"] = r.choice([4, 8, 12])
                c["seed"] = (s0 + j if kind == "adjacent" else None if kind == "none" else
                             r.choice([None, s0 + 7 * j, s0 + 1000 * j]))
                calls.append([f"m{j}", c])
        for _, c in calls:
            for key in ("wide", "dt", "order", "np", "miss"):
                c.pop(key, None)
        return {"calls": calls, "sched": gen_pool_sched(r), "entropy": r.randrange(1 << 30),
                "world": r.randrange(1 << 30), "cpus": 4, "method": "fork",
                "sequential": r.random() < 0.6, "gseed": r.randrange(1 << 30), "faults": []}

    def run(self, spec):
        rec, datas = {}, {}
        del models.LOG[:]
        np.random.seed(spec["gseed"] & 0xffffffff)
        calls = {n: Call(c) for n, c in spec["calls"]}

        def one(n):
            return world.observe(calls[n])
        if spec["sequential"]:
            def go():
                out = []
                for n, _ in spec["calls"]:
                    np.random.seed(spec["gseed"] & 0xffffffff)
                    a = len(models.LOG)
                    out.append(one(n))
                    rec[n] = [d for d, _ in models.LOG[a:]]
                return out
            mains = [("m0", go)]
        else:
            # a constant item per call marks whose resample it is
            for j, (n, _) in enumerate(spec["calls"]):
                mark = np.full((1, NP), j, dtype=calls[n].data.dtype)
                calls[n].data = np.vstack([calls[n].data, mark])
                if calls[n].solution is not None:
                    calls[n].solution = models.quick_model(calls[n].data)
            mains = [(n, lambda n=n: [one(n)]) for n, _ in spec["calls"]]
        k = world.run_tasks(spec, mains, max_steps=20_000_000)
        v = None
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", "; ".join(k.describe()))
        else:
            outs = [o for t in k.tasks if t.role == "caller" for o in (t.result or [])]
            bad = [o.show for o in outs if o.kind != "value"]
            if bad:
                v = viol("unexpected-failure", bad[0])
        nres = 0
        if v is None:
            if not spec["sequential"]:
                for j, (n, _) in enumerate(spec["calls"]):
                    rec[n] = [d for d, _ in models.LOG if d[-1, 0] == j]
            v, nres = self.judge(spec, calls, rec)
        rspec = world.ran_spec(spec, k)
        if v:
            v["trace"] = self.trace(spec, k)
        st = kernel_stats(k, nontrivial=nres > 1, probes={
            "unseeded calls": sum(c["seed"] is None for _, c in spec["calls"]),
            "uniformity tested": int(spec["calls"][0][1]["iters"] >= 400)},
            extra={"resamples compared": nres})
        return {"violation": v, "replay_spec": rspec, "stats": st}

    def judge(self, spec, calls, rec):
        seen = {}
        total = 0
        for n, c in spec["calls"]:
            data = calls[n].data
            counts = np.zeros(NP)
            first = np.zeros(NP)
            for i, d in enumerate(rec[n]):
                if np.array_equal(d, data):
                    continue
                ix = indices(data, d)
                if ix is None:
                    return viol("wrong-resample", f"{show(c)}: foreign columns"), total
                total += 1
                counts += np.bincount(ix, minlength=NP)
                first[ix[0]] += 1
                if c["iters"] >= 400 and i % 10:
                    continue            # windows of a tenth of the long runs
                for a in range(0, NP - W + 1):
                    w = tuple(ix[a:a + W])
                    old = seen.setdefault(w, (n, i, a))
                    same_call = old[0] == n
                    seeds = dict((m, cc["seed"]) for m, cc in spec["calls"])
                    if old[:2] != (n, i) and (same_call or seeds[old[0]] is None
                                              or seeds[old[0]] != c["seed"]):
                        return viol("shared-stream",
                                    f"fit {i} of {n} ({show(c)}) repeats {W} consecutive "
                                    f"respondents of fit {old[1]} of {old[0]}: "
                                    f"{list(w)}"), total
            for name, cnt in (("respondents", counts), ("first draws", first)):
                tot = cnt.sum()
                if tot >= 30 * NP / 3:
                    chi = ((cnt - tot / NP) ** 2 / (tot / NP)).sum()
                    if sps.chi2.sf(chi, NP - 1) < 1e-12:
                        return viol("not-uniform",
                                    f"{show(c)}: {name} are drawn unevenly: "
                                    f"{cnt.astype(int).tolist()}"), total
        return None, total


# ------------------------------------------------------------------ C04
EXC = ["ValueError", "MemoryError", "LinAlgError", "KeyError", "ZeroDivisionError",
       "FloatingPointError", "RuntimeError", "OSError", "TypeError", "OverflowError",
       "ArithmeticError"]


def gen_worker_fault(r, n, pool="ppe0", caller="m0"):
    """One fault of a parallel call with n workers."""
    w = f"{caller}/{pool}/w{r.randrange(max(1, n))}"
    if n < 2:
        return {"task": caller, "kind": r.choice(["kbd", "mem", "err"]),
                "exc": r.choice(FAILURES), "frac": r.random()}
    kind = r.choice(["kill", "kill", "kill-wait", "mem", "err", "err", "wkbd", "start", "unpicklable",
                     "kbd-wait", "kbd-wait", "kbd-late", "kbd", "stall", "kbd-start"])
    if kind == "kill":
        return {"task": w, "kind": "kill", "frac": r.random()}
    if kind == "kill-wait":
        return {"task": w, "kind": "kill", "wait": r.choice([1, 1, 2])}
    if kind == "err":
        return {"task": w, "kind": "err", "exc": r.choice(FAILURES), "frac": r.random()}
    if kind in ("mem", "wkbd"):
        return {"task": w, "kind": kind.replace("w", ""), "frac": r.random()}
    if kind == "start":
        return {"op": "start", "n": r.randrange(n), "kind": "start"}
    if kind == "kbd-start":
        return {"op": "start", "n": r.randrange(n), "kind": "start", "exc": "kbd"}
    if kind == "unpicklable":
        return {"kind": "unpicklable", "task": w}
    if kind == "kbd-wait":
        return {"task": caller, "kind": "kbd", "wait": r.choice([1, 1, 2, 3])}
    if kind == "kbd-late":
        return {"task": caller, "kind": "kbd", "wait": r.choice([1, 1, 2]),
                "delay": r.choice([1, 5, 20, 60, 200])}
    if kind == "kbd":
        return {"task": caller, "kind": "kbd", "frac": r.random()}
    return {"task": w, "kind": "stall", "frac": r.random(), "dur": r.choice([5.0, 5000.0])}


def stop_faults(k):
    """No more faults: from here on everything must work."""
    k.fault_specs, k.late, k.procs.op_faults = [], [], {}
    for t in k.tasks:
        t.faults, t.wait_faults, t.armed = [], {}, None
        t.stall = 0.0
    k.cur.pending = None
    k._set_next(k.cur)


def place_faults(faults, ref):
    out = []
    for f in faults:
        if "frac" in f:
            f = dict(f)
            n = ref["steps"].get(f["task"])
            if n is None:
                # (the same task under another executor type in the reference)
                n = 10
            f["step"] = 1 + int(f.pop("frac") * n)
        out.append(f)
    return out


def pool_label(spec, ref):
    """Faults name executor workers; a tree that uses multiprocessing.Pool or
    bare processes names its workers otherwise."""
    names = [n for n in ref["steps"] if "/w" in n or "/proc" in n]
    alt = sorted(n for n in names if n.startswith("m0/"))
    out = []
    for f in spec["faults"]:
        t = f.get("task", "")
        if "/w" in t and t not in ref["steps"] and alt:
            f = dict(f, task=alt[int(t.rsplit("w", 1)[1]) % len(alt)])
        out.append(f)
    return out


class Failures(Base):
    id, title = "C04", "bootstrap never absorbs a worker failure"
    runs = {"quick": 900, "thorough": 25000}
    rule = ("one case = one bootstrap with 1-6 workers under one seeded schedule with 1-2 "
            "faults (worker killed while working or idle, failing allocation or other "
            "exception in a worker, worker that cannot be started, result that cannot be "
            "pickled, model raising on some resamples, stalled worker, interrupt of the "
            "caller before, at or during a wait), then a fault-free bootstrap in the same "
            "process; non-trivial = a fault fired; distinct by hash of hand-overs and faults")

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        c = gen_call(r, ["quick", "quick", "poly", "scalar"])
        if c["n"] == 1 and r.random() < 0.8:
            c["n"] = r.choice([2, 3, 4])
        if r.random() < 0.25:
            c.update(model="failing", exc=r.choice(EXC), every=r.choice([2, 3, 5, 9]),
                     unpicklable=r.random() < 0.25)
            c.pop("solution", None)
            if r.random() < 0.5:
                c["solution"] = 1
        faults = [gen_worker_fault(r, c["n"]) for _ in range(r.choice([1, 1, 1, 2]))]
        if c["model"] == "failing" and r.random() < 0.7:
            faults = []
        return {"calls": [["m0", c]], "sched": gen_pool_sched(r), "faults": faults,
                "entropy": r.randrange(1 << 30), "world": r.randrange(1 << 30),
                "cpus": 4, "method": "fork", "follow": {"d": 3, "model": "quick", "iters": 3,
                                                        "n": r.choice([1, 2, 3]), "seed": 8}}

    def run(self, spec):
        c = spec["calls"][0][1]
        good = c
        ref = solo(c)
        fref = solo(spec["follow"])
        if ref["key"][0] == "hang":
            return {"violation": viol("hang", f"{show(c)} alone does not end"),
                    "stats": {"hashes": []}}
        spec = dict(spec, faults=place_faults(pool_label(spec, ref), ref))
        call, follow = Call(c), Call(spec["follow"])
        del models.RAISED[:]

        def go():
            o = world.observe(call)
            own = len(models.RAISED)
            k = Kernel.current
            first = list(k.fired)
            stop_faults(k)
            gc.collect()
            o2 = world.observe(follow)
            return o, o2, first, own
        k = world.run_tasks(spec, [("m0", go)], max_steps=cap(ref, fref))
        t = k.tasks[0]
        v = None
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"{show(c)} with {[x for x in k.fired]} does not end "
                     f"({k.status}): " + "; ".join(k.describe()))
        elif t.exc is not None:
            raise world.HarnessError(f"{t.exc!r}")
        else:
            o, o2, first, own = t.result
            kbd = any(f.get("exc") == "kbd" or (f["kind"] == "kbd" and f.get("task") == "m0")
                      for f in first)
            if o.kind == "value" and (kbd or o.interrupted):
                v = viol("interrupt-absorbed", f"{show(c)} returned although the caller was "
                         f"interrupted ({first})")
            elif o.kind == "value" and own:
                v = viol("failure-absorbed", f"{show(c)} returned {o.show} although the model "
                         f"raised {own} times")
            elif o.kind == "raise" and not first and o.as_key() != ref["key"]:
                v = viol("unexpected-failure", f"{show(c)}: {o.show}")
            elif o.kind == "value" and o.as_key() != ref["key"]:
                v = viol("failure-absorbed", f"{show(c)} with {first} returned {o.show}; "
                         f"failure-free {ref['show']}")
            elif o2.as_key() != fref["key"]:
                v = viol("later-call-differs", f"after {show(c)} with {first}: "
                         f"{show(spec['follow'])} gives {o2.show}; in a fresh process "
                         f"{fref['show']}")
        rspec = world.ran_spec(spec, k)
        if v:
            v["trace"] = self.trace(spec, k)
        out = t.result[0] if t.result else None
        st = kernel_stats(k, nontrivial=bool(k.fired) or good["model"] == "failing", probes={
            "call raised": int(bool(out) and out.kind == "raise"),
            "call returned the exact result in spite of a fault":
                int(bool(out) and out.kind == "value" and bool(k.fired)),
            "planned fault not reached": max(0, len(spec["faults"]) - len(k.fired)),
            "model raised by itself": int(ref["key"][0] == "raise")})
        return {"violation": v, "replay_spec": rspec, "stats": st}


CHECKS = {"C01": Schedules(), "C02": Counting(), "C03": Independence(), "C04": Failures()}
