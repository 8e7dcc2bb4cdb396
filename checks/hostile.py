"""C27: hostile inputs and persistent failures: bounded work and no trace."""
import functools
import sys

import numpy as np

from sim import ops, world
from sim.digest import canon, diff_state, process_state, short
from sim.kernel import LIB_FAILURES, Kernel
from sim.runner import REAL, STUBS, kernel_stats
from . import bootstrap, parallel
from .common import Snapshot, group_ops, show_op, shrink_op, viol
from .faults import ENVS, arm, disarm

ALL = group_ops(*ops.GROUPS)
TIMES, PLUS = 30, 600_000     # the work a call may take: x the benign call, + steps

DENSITY = {
    "nan": lambda x, n: x * np.nan,
    "inf": lambda x, n: x * 0 + np.inf,
    "zero": lambda x, n: x * 0.0,
    "negative": lambda x, n: x * 0 - 1.0,
    "huge": lambda x, n: x * 0 + 1e300,
    "tiny": lambda x, n: x * 0 + 1e-310,
    "one point": lambda x, n: np.where(np.abs(x) < 0.2, 1.0, 0.0),
    "some nan": lambda x, n: np.where(x > 1, np.nan, np.exp(-x * x)),
    "varying": lambda x, n: np.exp(-x * x) * (1.0 + n % 3),
    "alternating sign": lambda x, n: np.exp(-x * x) * (-1.0) ** n,
    "noise": lambda x, n: np.abs(np.sin(1e6 * x + n)),
    "rough": lambda x, n: 1e6 * np.abs(np.sin(1e6 * x)),
    "spike": lambda x, n: np.where(np.abs(x - 0.1234) < 1e-9, 1e12, 1e-3),
    "steep": lambda x, n: np.exp(np.clip(60 * x, -700, 700)),
    "scalar": lambda x, n: 0.3,
    "short": lambda x, n: np.ones(3),
    "long": lambda x, n: np.ones(np.size(x) + 1),
    "two-dimensional": lambda x, n: np.ones((2, np.size(x))),
    "integers": lambda x, n: np.ones(np.shape(x), int),
    "complex": lambda x, n: np.exp(1j * x),
    "text": lambda x, n: "density",
    "none": lambda x, n: None,
    "failing": lambda x, n: 1 / 0,
    "failing later": lambda x, n: np.exp(-x * x) if n < 4 else 1 / 0,
}


class Hostile:
    def __init__(self, mode):
        self.fn, self.n = DENSITY[mode], -1

    def __call__(self, x):
        self.n += 1
        return self.fn(np.asarray(x, float) if not np.isscalar(x) else float(x), self.n)

    def sim_probe(self):
        return "hostile"


def cells(a, value, part):
    a = np.array(a, dtype=float)
    if a.size:
        f = a.reshape(-1)
        f[:: max(1, int(round(1 / part)))] = value
    return a


VALUES = {
    "all low": lambda a: np.full_like(a, a.min() if a.size else 0),
    "all high": lambda a: np.full_like(a, a.max() if a.size else 1),
    "item constant": lambda a: np.where(np.arange(a.shape[0])[:, None] == 0, a.max(), a)
    if a.ndim == 2 and a.size else a,
    "all missing": lambda a: np.full_like(a, -99999),
    "item missing": lambda a: np.where(np.arange(a.shape[0])[:, None] == 0, -99999, a)
    if a.ndim == 2 else a * 0 - 99999,
    "nan": lambda a: cells(a, np.nan, 0.1),
    "all nan": lambda a: cells(a, np.nan, 1.0),
    "inf": lambda a: cells(a, np.inf, 0.1),
    "minus inf": lambda a: cells(a, -np.inf, 0.3),
    "negative": lambda a: -np.asarray(a),
    "fractions": lambda a: np.asarray(a) + 0.5,
    "zeros": lambda a: np.zeros_like(a),
    "big": lambda a: cells(a, 60, 0.05),
    "huge floats": lambda a: np.asarray(a) * 1e300,
    "tiny floats": lambda a: np.asarray(a) * 1e-300,
    "no columns": lambda a: a[..., :0],
    "no rows": lambda a: a[:0],
    "one column": lambda a: a[..., :1],
    "two columns": lambda a: a[..., :2],
    "one row": lambda a: a[:1],
    "one axis": lambda a: a[0] if a.ndim > 1 else a,
    "three axes": lambda a: a[None],
    "transposed": lambda a: a.T[:6],
    "equal rows": lambda a: np.repeat(a[:1], len(a), 0),
    "complementary": lambda a: a.max() + a.min() - a if a.size else a,
    "bool": lambda a: np.asarray(a) > np.median(a) if a.size else a,
    "objects": lambda a: np.asarray(a).astype(object),
    "text": lambda a: np.asarray(a).astype(str),
    "complex": lambda a: np.asarray(a) + 1j,
    "masked": lambda a: np.ma.masked_equal(a, a.flat[0]) if a.size else a,
    "list": lambda a: np.asarray(a).tolist(),
    "half": lambda a: np.asarray(a).astype(np.float16),
    "uint8": lambda a: np.asarray(a).astype(np.uint8),
    "none": lambda a: None,
}

FLOATS = ["nan", "all nan", "inf", "inf", "minus inf", "negative", "zeros", "huge floats",
          "tiny floats"]

SHAPES = ("transposed", "one axis", "three axes")      # perhaps many more items or factors


def model(c):
    """A hostile IRT model for the bootstrap."""
    n = [0]

    def fit(dataset, options=None):
        n[0] += 1
        diff, disc = dataset.mean(1), dataset.std(1) + 0.5
        if c == "nan":
            diff = diff * np.nan
        elif c == "shapes":
            diff = diff[: 1 + n[0] % 3]
        elif c == "scalars":
            diff, disc = 0.3, 1.0
        elif c == "missing key":
            return {"Difficulty": diff}
        elif c == "nothing":
            return None
        elif c == "stops":
            raise StopIteration("no more")
        elif c == "generator":
            return (x for x in ())
        elif c == "writes":
            dataset[:] = 0
        elif c == "inf":
            disc = disc * np.inf
        return {"Difficulty": diff, "Discrimination": disc}
    return fit


MODELS = ["nan", "shapes", "scalars", "missing key", "nothing", "stops", "generator",
          "writes", "inf"]


def guard():
    """LAPACK may run for ever on an infinity; here it fails at once instead."""
    lib = sys.modules["numpy.linalg.linalg" if "numpy.linalg.linalg" in sys.modules
                      else "numpy.linalg._linalg"]
    for name in ("svd", "eigh", "eigvalsh", "eig", "eigvals"):
        real = getattr(lib, name)

        @functools.wraps(real)
        def safe(a, *args, _real=real, **kw):
            if not np.isfinite(np.asarray(a, dtype=complex)).all():
                raise np.linalg.LinAlgError("did not converge")
            return _real(a, *args, **kw)
        for m in [lib] + [m for n, m in sys.modules.items()
                          if n == "numpy.linalg" or n.split(".")[0] == "girth"]:
            for key, v in list(vars(m).items()):
                if v is real:
                    setattr(m, key, safe)


class HostileCheck:
    id, title = "C27", "hostile inputs: bounded work and no trace"
    runs = {"quick": 3200, "thorough": 60000}
    cpu = 100       # seconds of processor time a run may take; usual ones take below ten
    measure = "distinct cases: hash of the call and its hostile parts"
    rule = ("one case = a call with 1-3 hostile parts (a density returning nan, inf, zeros, "
            "negative, huge, varying or wrongly shaped values or failing; a dataset or "
            "parameter array that is constant, missing, nan, inf, empty, of one row or column, "
            "of another shape or type; every linear-algebra or optimiser call from a drawn "
            "step on failing), made twice from equal objects, then 1-2 ordinary calls; or a "
            "parallel bootstrap or correlation with a hostile model or data; the call must "
            "return or raise within a work bound, alike both times, leaving its inputs and "
            "the process as they were, and the ordinary calls must be exact; non-trivial = "
            "the hostile call was made; distinct by hash of calls and hostile parts")
    real = REAL[:2]
    stubs = STUBS
    assumptions = [f"bounded work = at most {TIMES} times the executed GIRTH lines and calls "
                   f"of the ordinary call plus {PLUS} (30 times as much if the data are "
                   "turned into more items or factors); besides, a run may take "
                   f"{cpu} s of processor time, ordinary ones stay below ten",
                   "numpy's singular value and eigenvalue routines raise LinAlgError for "
                   "matrices with nan or inf (LAPACK may not return from those)"]

    def endless(self, spec):
        """A run that used up its processor time inside numpy or scipy."""
        v = viol("no-answer", f"{self.show(spec)}: no answer after {self.cpu} s of processor time")
        v["trace"] = [self.show(spec)]
        return {"violation": v, "replay_spec": spec, "stats": {}}

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        spec = {"entropy": r.randrange(1 << 30), "world": 0, "p": None, "hostile": [],
                "follow": [], "env": r.choice(ENVS) if r.random() < 0.3 else {}}
        if idx % 10 == 9:
            if r.random() < 0.5:
                c = {"kind": "model", "model": r.choice(MODELS), "iters": r.choice([1, 2, 4]),
                     "n": r.choice([1, 2, 3]), "d": r.randrange(1000),
                     "solution": r.random() < 0.5}
                if c["model"] == "writes":      # else it is handed the caller's own dataset
                    c["solution"] = True
            else:
                c = dict(parallel.gen_poly(r), values=r.choice(sorted(VALUES)))
                c["ni"], c["n"] = min(c["ni"], 4), min(c["n"], 4)
            return dict(spec, par=c, method=r.choice(["fork", "spawn"]),
                        follow=[ops.gen(r, ["polychoric_correlation_serial", "rasch_mml"])])
        p = ops.gen(r, [ALL[idx % len(ALL)]])
        if "bad" in p:
            p.pop("bad")
        dens = "distribution" in (ops.OPS[p["op"]]["optkeys"] or ()) and p.get("opts") is not None
        for _ in range(r.choice([1, 1, 2, 3])):
            u = r.random()
            if dens and u < 0.45:
                spec["hostile"].append({"k": "density", "mode": r.choice(sorted(DENSITY))})
            elif u < (0.8 if ops.OPS[p["op"]]["group"] == "fa" else 0.6):
                kind = r.choice(["linalg", "opt"])
                spec["hostile"].append({
                    "k": "lib", "kind": kind, "at": r.choice([0.0, r.random(), r.random()]),
                    "exc": r.choice(LIB_FAILURES[kind] + LIB_FAILURES[kind][:1] * 3),
                    "calls": r.choice(["all", "same", "same"])})
            else:
                i = r.choice([0, r.randrange(8)])
                spec["hostile"].append({"k": "value", "i": i, "mode": r.choice(
                    FLOATS if i and r.random() < 0.6 else sorted(VALUES))})
        spec["p"] = p
        spec["follow"] = [ops.neighbour(r, p) if r.random() < 0.7 else p
                          for _ in range(r.choice([1, 1, 2]))]
        return spec

    def build(self, spec):
        p = spec["p"]
        call = ops.build(p)
        for h in spec["hostile"]:
            if h["k"] == "density":
                for v in list(call.args) + list(call.kwargs.values()):
                    if isinstance(v, dict):
                        v["distribution"] = Hostile(h["mode"])
            elif h["k"] == "value":
                slots = [(call.args, i) for i, v in enumerate(call.args)
                         if isinstance(v, np.ndarray)] + [
                             (call.kwargs, key) for key, v in sorted(call.kwargs.items())
                             if isinstance(v, np.ndarray)]
                if slots:
                    where, key = slots[h["i"] % len(slots)]
                    try:
                        with np.errstate(all="ignore"):
                            where[key] = VALUES[h["mode"]](where[key])
                    except (ValueError, IndexError, TypeError):
                        pass
        return call

    @staticmethod
    def build_par(c):
        if c["kind"] == "model":
            rs = np.random.RandomState(c["d"])
            data = (rs.rand(4, 18) < 0.5).astype(int)
            sol = {"Difficulty": np.zeros(4), "Discrimination": np.ones(4)} \
                if c["solution"] else None
            m = model(c["model"]) if c["n"] == 1 else Model(c["model"])
            return ops.Call(ops.G("girth", "standard_errors_bootstrap"), [data, m], {
                "bootstrap_iterations": c["iters"], "n_processors": c["n"], "seed": 4,
                "solution": sol})
        call = parallel.Poly(c)
        try:
            with np.errstate(all="ignore"):
                call.data = VALUES[c["values"]](call.data)
        except (ValueError, IndexError, TypeError):
            pass
        call.inputs = lambda: [call.data] if isinstance(call.data, np.ndarray) else []
        return call

    def par_steps(self, c):
        """Of a parallel call; hostile data may have many more items."""
        if c["kind"] == "model":
            return 20_000
        items = np.shape(self.build_par(c).data)[:1] or (1,)
        return 20_000 + items[0] ** 2 * 2000

    def run(self, spec):
        lib = [h for h in spec["hostile"] if h["k"] == "lib"]
        refs = world.Refs(profile=bool(lib), env=spec["env"])
        par = spec.get("par")
        count = {"hostile calls": 0, "hostile calls that raised": 0, "failures injected": 0}
        what = self.show(spec)
        base_steps = self.par_steps(par) if par else refs[spec["p"]]["steps"]
        grown = any(h.get("mode") in SHAPES for h in spec["hostile"])
        bound = TIMES * base_steps * (30 if grown else 1) + PLUS
        most = [0.0]

        def go():
            k = Kernel.current
            world.caller_settings(spec["env"])
            base = process_state()
            seen = []
            for n in range(2):
                k.mute = True
                call = self.build_par(par) if par else self.build(spec)
                snap = Snapshot([x for x in call.inputs()])
                k.mute = False
                arm(k, [{"kind": h["kind"], "exc": h["exc"], "always": h["calls"],
                         "step": self.step(h, refs[spec["p"]])} for h in lib[:1]])
                k.limit(bound)
                n0 = k.total
                o = world.observe(call)
                most[0] = max(most[0], (k.total - n0) / base_steps)
                k.mute = True
                disarm(k)
                count["hostile calls"] += 1
                count["hostile calls that raised"] += o.kind == "raise"
                seen.append(o)
                if o.kind == "hang":
                    return viol("hang", f"{what} does not end: {o.show}")
                if o.kind == "raise" and o.canon in ("SystemExit", "KeyboardInterrupt",
                                                     "GeneratorExit", "RecursionError"):
                    return viol("not-an-error", f"{what} raises {o.show}")
                if snap.changed():
                    return viol("inputs-changed", f"{what}: {snap.what()} changed")
                bad = diff_state(base, process_state())
                if bad:
                    return viol("process-state", f"{what} changes {', '.join(bad)}")
                k.mute = False
            if seen[0].as_key() != seen[1].as_key():
                return viol("not-repeatable", f"{what} gives {seen[0].show} and then "
                            f"{seen[1].show}")
            for p in spec["follow"]:
                k.limit(60 * refs[p]["steps"] + 2_000_000)
                o = world.observe(ops.build(p))
                if o.as_key() != refs[p]["key"]:
                    return viol("leaves-trace", f"after {what}, {show_op(p)} returned {o.show}; "
                                f"in a fresh process {refs[p]['show']}")
            return None

        for p in spec["follow"]:
            refs[p]
        guard()
        k = world.run_tasks(dict(spec, sched={}), [("m0", go)])
        count["failures injected"] = len(k.fired)
        t = k.tasks[0]
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"{what} does not end: {k.status} after {k.total} steps, the "
                     f"ordinary call takes {base_steps}; " + "; ".join(k.describe())[:300])
        elif t.exc is not None:
            raise world.HarnessError(f"harness failure {t.exc!r}")
        else:
            v = t.result
        if v is not None:
            v["trace"] = [what] + ["then " + show_op(p) for p in spec["follow"]]
        st = kernel_stats(k, nontrivial=False, probes=count, extra={
            "calls": count["hostile calls"] + len(spec["follow"])})
        st["most"] = most[0]
        st["hashes"] = [short(canon(world.dumps([spec["p"], par, spec["hostile"]])))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    @staticmethod
    def step(h, ref):
        """When the failures begin: at the first visit of a drawn library call."""
        first = sorted(steps[0] for kind, _, _, steps in ref["lib"] if kind == h["kind"])
        return first[int(h["at"] * len(first))] if first else 1

    @staticmethod
    def show(spec):
        c = spec.get("par")
        if c:
            return (f"standard_errors_bootstrap(model={c['model']}, {c['n']} processors)"
                    if c["kind"] == "model" else f"{parallel.show(c)} data {c['values']}")
        return show_op(spec["p"]) + " hostile: " + ", ".join(
            " ".join(str(x) for x in h.values()) for h in spec["hostile"])

    def shrink(self, spec):
        hs = spec["hostile"]
        for i in range(len(hs)):
            if len(hs) > 1:
                yield dict(spec, hostile=hs[:i] + hs[i + 1:])
        for i in range(len(spec["follow"])):
            yield dict(spec, follow=spec["follow"][:i] + spec["follow"][i + 1:])
        if spec["env"]:
            yield dict(spec, env={})
        if spec["p"]:
            for q in shrink_op(spec["p"]):
                yield dict(spec, p=q)
        elif spec["par"]["n"] > 2:
            yield dict(spec, par=dict(spec["par"], n=2))


class Model:
    """The hostile model, picklable."""

    def __init__(self, mode):
        self.mode, self.fit = mode, None

    def __call__(self, dataset, options=None):
        if self.fit is None:
            self.fit = model(self.mode)
        return self.fit(dataset, options)

    def __reduce__(self):
        return Model, (self.mode,)


CHECKS = {"C27": HostileCheck()}
