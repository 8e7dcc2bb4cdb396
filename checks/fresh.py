"""C25: unseeded calls take fresh entropy in every call, thread and process."""
import multiprocessing
import random as pyrandom
from concurrent.futures import ProcessPoolExecutor

import numpy as np

from sim import ops, world
from sim.digest import short
from sim.kernel import Kernel
from sim.runner import REAL, STUBS, kernel_stats
from .common import viol

ZMAX = 9.0
SHAPES = {"dich": (20, 40), "grm": (20, 40), "pcm": (12, 60), "gum": (12, 60),
          "grm_md": (20, 40), "boot": (20, 40)}


LOADINGS = np.array([[0.9, 0.1], [0.7, -0.3], [0.2, 0.8], [-0.1, 0.6]])


class Draws:
    """An IRT model that notes which respondents it was given."""

    def __init__(self):
        self.log = []

    def __call__(self, dataset, options=None):
        ids = (dataset * (1 << np.arange(dataset.shape[0]))[:, None]).sum(0)
        self.log.append(ids)
        return {"Difficulty": dataset.mean(1), "Discrimination": dataset.mean(1) + 1.0}


def unit(kind, gseed, explicit):
    """One unseeded call; its random draws as numbers."""
    if gseed is not None:
        np.random.seed(gseed)
        pyrandom.seed(gseed)
    kw = {"seed": None} if explicit else {}
    if kind == "rotate":
        return np.concatenate([x.ravel() for x in ops.G("girth.factoranalysis",
                                                        "sparsify_loadings")(LOADINGS, **kw)])
    ni, n = SHAPES[kind]
    if kind == "boot":
        data = (np.arange(n)[None] >> np.arange(6)[:, None]) & 1
        m = Draws()
        ops.G("girth", "standard_errors_bootstrap")(
            data, m, bootstrap_iterations=ni, n_processors=1,
            solution={"Difficulty": np.zeros(6), "Discrimination": np.ones(6)}, **kw)
        return np.concatenate(m.log)
    if kind == "dich":
        return ops.G("girth.synthetic", "create_synthetic_irt_dichotomous")(
            np.zeros(ni), 1.0, np.zeros(n), **kw).ravel()
    diff = np.tile([-0.8, 0.0, 0.8], (ni, 1))
    disc, theta = np.ones(ni), np.zeros(n)
    if kind == "gum":
        diff = np.tile([-1.3, -0.6, 0.0, 0.6, 1.3], (ni, 1))
    if kind == "grm_md":
        diff, disc, theta = -diff, np.ones((ni, 2)), np.zeros((2, n))
    return ops.G("girth.synthetic", "create_synthetic_irt_polytomous")(
        diff, disc, theta, model=kind, **kw).ravel()


def units(kind, gseed, explicit, n):
    out = []
    for _ in range(n):
        try:
            out.append(unit(kind, gseed, explicit))
        except Exception as e:        # noqa
            if not Kernel.current.fired:
                raise
            out.append(type(e).__name__)
    return out


def units_to(q, i, *args):
    q.put((i, units(*args)))


def alike(a, b):
    """Largest standardised product moment of two streams over all shifts."""
    if a.size < 100:            # a result, not its draws: it depends on them in its last bits
        return (np.inf if a.tobytes() == b.tobytes() else 0.0), 0
    a, b = [(x - x.mean()) / (x.std() or 1.0) for x in (a.astype(float), b.astype(float))]
    n = a.size
    m = 1 << (2 * n - 1).bit_length()
    c = np.fft.irfft(np.fft.rfft(a, m) * np.conj(np.fft.rfft(b, m)), m)
    c = np.concatenate([c[-(n - 1):], c[:n]])
    overlap = n - np.abs(np.arange(-(n - 1), n))
    z = np.where(overlap >= 100, c / np.sqrt(overlap), 0.0)
    i = int(np.abs(z).argmax())
    return abs(z[i]), i - (n - 1)


class Fresh:
    id, title = "C25", "unseeded calls take fresh entropy"
    runs = {"quick": 1500, "thorough": 40000}
    measure = ("distinct cases: hash of the calls, processes and baton hand-overs of a run")
    rule = ("one case = 2-12 calls of one generator (dichotomous or polytomous synthesis, a "
            "bootstrap or a rotation) with the same arguments and no seed: one after another, in 1-3 "
            "threads, in 1-4 forked or spawned processes, before and after these, with the "
            "global generators reseeded alike before each, under a coarse or fine clock, in "
            "some cases without any source of entropy; every two calls' draws must be "
            "uncorrelated at every shift; non-trivial = at least two calls returned; distinct "
            "by hash of calls and hand-overs")
    real = REAL[:2]
    stubs = STUBS
    assumptions = ["two streams count as related when their standardised product moment at "
                   "some shift with 100 or more common draws exceeds 9; of sparsify_loadings, "
                   "whose draws are not visible, results must differ in some bit",
                   "the simulator's entropy source never repeats itself; a forked process "
                   "inherits all module data"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        kinds = sorted(SHAPES)
        kind = "rotate" if idx % 25 == 24 else kinds[idx % len(kinds)]
        spec = {"kind": kind, "pre": r.choice([0, 1, 2]),
                "threads": [r.choice([1, 1, 2]) for _ in range(r.choice([0, 1, 2]))],
                "batches": [], "post": r.choice([0, 1]), "explicit": r.random() < 0.5,
                "gseed": r.choice([0, 7] if kind == "rotate" else [None, None, 0, 7]), "grain": r.choice([0, 0, 0.015, 1e6]),
                "sched": world.gen_sched(r, 0), "entropy": r.randrange(1 << 30),
                "world": r.randrange(1 << 30), "method": "fork",
                "epoch": r.choice([1.7e9, 0.0, 1.8e9]), "no_entropy": int(r.random() < 0.12)}
        if spec["sched"]["style"] == "site":
            spec["sched"] = {"style": "gap", "seed": spec["sched"]["seed"], "budget": 500,
                             "mean": 4}
        for _ in range(r.choice([0, 1, 1, 2])):
            spec["batches"].append({
                "how": r.choice(["process", "process", "pool", "executor"]),
                "method": r.choice(["fork", "fork", "spawn"]),
                "n": r.choice([1, 2, 3]),
                "lists": [r.choice([1, 1, 2]) for _ in range(r.choice([1, 2, 3, 4]))]})
        if not spec["threads"] and not spec["batches"]:
            spec["pre"] += 2
        elif spec["pre"] + len(spec["threads"]) + len(spec["batches"]) < 2:
            spec["post"] += 1
        return spec

    def run(self, spec):
        args = (spec["kind"], spec["gseed"], spec["explicit"])

        def batch(b):
            ctx = multiprocessing.get_context(b["method"])
            lists = b["lists"]
            if b["how"] == "process":
                q = ctx.Queue()
                ps = [ctx.Process(target=units_to, args=(q, i, *args, n))
                      for i, n in enumerate(lists)]
                for x in ps:
                    x.start()
                got = dict(q.get() for _ in ps)
                for x in ps:
                    x.join()
                return [got[i] for i in range(len(lists))]
            cols = [[a] * len(lists) for a in args] + [lists]
            if b["how"] == "pool":
                with ctx.Pool(b["n"]) as pool:
                    return pool.starmap(units, list(zip(*cols)), 1)
            with ProcessPoolExecutor(b["n"], mp_context=ctx) as ex:
                return list(ex.map(units, *cols))

        def m0():
            out = [(f"call {i}", x) for i, x in enumerate(units(*args, spec["pre"]))]
            for j, b in enumerate(spec["batches"]):
                for i, res in enumerate(batch(b)):
                    out += [(f"call {n} of {b['method']}ed {b['how']} worker {j}.{i}", x)
                            for n, x in enumerate(res)]
            out += [(f"last call {i}", x) for i, x in enumerate(units(*args, spec["post"]))]
            return out

        def thread(j, n):
            return lambda: [(f"call {i} of thread {j}", x)
                            for i, x in enumerate(units(*args, n))]
        mains = [("m0", m0)] + [(f"m{j + 1}", thread(j, n))
                                for j, n in enumerate(spec["threads"])]
        k = world.run_tasks(spec, mains, max_steps=30_000_000)
        spec = world.ran_spec(spec, k)
        got, v, worst = [], None, 0.0
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"does not end ({k.status}): " + "; ".join(k.describe()))
        for name, _ in mains:
            if v:
                break
            t = k.by_name[name]
            if t.exc is not None:
                v = viol("unexpected-failure", f"{name}: {t.exc!r}"[:300])
            else:
                got += t.result
        live = [(w, x) for w, x in got if not isinstance(x, str)]
        for i, (wa, a) in enumerate(live):
            for wb, b in live[:i]:
                if v is None:
                    z, lag = alike(a, b)
                    worst = max(worst, z)
                    if z > ZMAX:
                        same = "equal" if np.array_equal(a, b) else "related"
                        v = viol("not-fresh", f"{spec['kind']}: the draws of {wb} and {wa} are "
                                 f"{same} (product moment {z:.1f} at shift {lag}, {a.size} "
                                 "draws)" + " without a source of entropy"
                                 * bool(spec["no_entropy"]))
        if v is not None:
            v["trace"] = [f"{key}: {spec[key]}" for key in
                          ("kind", "pre", "threads", "batches", "post", "gseed", "explicit",
                           "grain", "epoch", "no_entropy")]
        st = kernel_stats(k, nontrivial=False, probes={
            "calls": len(got), "calls that raised": len(got) - len(live),
            "pairs compared": len(live) * (len(live) - 1) // 2,
            "forked workers": sum(len(b["lists"]) for b in spec["batches"]
                                  if b["method"] == "fork"),
            "clock did not move": int(spec["grain"] > 1)})
        if len(live) > 1:
            st["hashes"] = [short((k.log.hexdigest(), world.dumps(
                [spec[x] for x in ("kind", "pre", "threads", "batches", "post", "gseed")])))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    def shrink(self, spec):
        for key in ("pre", "post"):
            if spec[key]:
                yield dict(spec, **{key: spec[key] - 1})
        for key in ("threads", "batches"):
            for i in range(len(spec[key])):
                yield dict(spec, **{key: spec[key][:i] + spec[key][i + 1:]})
        for i, b in enumerate(spec["batches"]):
            bs = list(spec["batches"])
            for j in range(len(b["lists"])):
                if len(b["lists"]) > 1:
                    bs[i] = dict(b, lists=b["lists"][:j] + b["lists"][j + 1:])
                    yield dict(spec, batches=list(bs))
                if b["lists"][j] > 1:
                    bs[i] = dict(b, lists=b["lists"][:j] + [1] + b["lists"][j + 1:])
                    yield dict(spec, batches=list(bs))
            if b["how"] != "process":
                bs[i] = dict(b, how="process")
                yield dict(spec, batches=list(bs))
        if spec["gseed"] is not None and spec["kind"] != "rotate":
            yield dict(spec, gseed=None)
        if spec["grain"]:
            yield dict(spec, grain=0)


CHECKS = {"C25": Fresh()}
