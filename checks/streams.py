"""C20-C22: random streams chosen by the simulator."""
import ctypes
import threading

import numpy as np
from scipy import stats as sps

from sim import ops, world
from sim.digest import canon, short
from sim.runner import REAL, STUBS
from sim.prims import Entropy
from .common import viol

TOP = (1 << 64) - 1


# ------------------------------------------------------- simulated bit source
class _bitgen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", ctypes.c_void_p),
                ("next_uint32", ctypes.c_void_p), ("next_double", ctypes.c_void_p),
                ("next_raw", ctypes.c_void_p)]


_F64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_F32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_FD = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)
_new = ctypes.pythonapi.PyCapsule_New
_new.restype = ctypes.py_object
_new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]


class Stream:
    """A numpy bit generator whose every word the simulator chooses."""

    def __init__(self, spec):
        self.rng = np.random.RandomState(spec["seed"])
        self.mode, self.rate = spec["mode"], spec.get("rate", 0.2)
        self.words = 0
        self.extreme = 0
        self._f = (_F64(lambda _: self.word()), _F32(lambda _: self.word() >> 32),
                   _FD(lambda _: (self.word() >> 11) * 2.0 ** -53))
        adr = [ctypes.cast(f, ctypes.c_void_p) for f in self._f]
        self._s = _bitgen(None, adr[0], adr[1], adr[2], adr[0])
        self._n = b"BitGenerator"
        self.capsule = _new(ctypes.addressof(self._s), self._n, None)
        self.lock = threading.Lock()

    def word(self):
        self.words += 1
        r = self.rng
        w = (int(r.randint(0, 1 << 32, dtype=np.uint64)) << 32) | int(
            r.randint(0, 1 << 32, dtype=np.uint64))
        if self.mode == "plain":
            return w
        if self.mode == "zero":
            hit, x = r.rand() < self.rate, 0
        elif self.mode == "ones":
            hit, x = r.rand() < self.rate, TOP
        elif self.mode == "sticky":          # long stretches of one word
            if r.rand() < self.rate or not hasattr(self, "last"):
                self.last = w if r.rand() < 0.6 else (0, TOP)[r.randint(2)]
            hit, x = True, self.last
        else:                                # "edges": words near representable extremes
            hit = r.rand() < self.rate
            x = (0, TOP, TOP - 2047, 1 << 11, (1 << 63), (1 << 63) - 1)[r.randint(6)]
        if hit:
            self.extreme += 1
            return x
        return w

    def generator(self):
        g = np.random.Generator(self)
        return g


def gen_stream(r):
    return {"seed": r.randrange(1 << 30),
            "mode": r.choice(["plain", "zero", "ones", "sticky", "edges", "edges"]),
            "rate": r.choice([0.02, 0.2, 1.0])}


# ----------------------------------------------------------- model, by itself
def sig(x):
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))),
                    np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def level_probs(model, diff, disc, theta):
    """items x levels x persons, from the textbook formulas."""
    ni, nt = diff.shape
    disc = np.asarray(disc, float)
    if disc.ndim == 0:
        disc = np.full(ni, float(disc))
    out = []
    for i in range(ni):
        if model in ("grm", "grm_md"):
            z = (disc[i] * (theta[None] - diff[i][:, None]) if model == "grm"
                 else (disc[i] @ theta)[None] + diff[i][:, None])
            up = np.vstack([np.ones(z.shape[1]), sig(z), np.zeros(z.shape[1])])
            out.append(up[:-1] - up[1:])
        else:
            z = np.vstack([np.zeros(theta.size), disc[i] * (theta[None] - diff[i][:, None])])
            z = np.cumsum(z, axis=0)
            p = np.exp(z - z.max(axis=0))
            p /= p.sum(axis=0)
            if model == "gum":
                h = p.shape[0] // 2
                p = p[:h] + p[::-1][:h]
            out.append(p)
    return np.array(out)


def binom_p(k, n, p):
    """Two-sided exact-tail p-values (twice the smaller tail), vectorised."""
    k, p = np.asarray(k), np.clip(p, 0.0, 1.0)
    lo = sps.binom.cdf(k, n, p)
    hi = sps.binom.sf(k - 1, n, p)
    return np.minimum(1.0, 2 * np.minimum(lo, hi))


PMIN = 1e-12
ZMAX = 8.0


class Synthetic:
    measure = "distinct streams: hash of parameters and stream of a run"
    real = REAL[:2]
    stubs = ["random words (a numpy bit generator whose words the simulator chooses)"]
    assumptions = ["frequencies are tested with exact binomial tails below 1e-12 and "
                   "covariances beyond 8 standard errors, so that a correct generator is "
                   "never reported",
                   "probabilities come from the textbook formulas, written independently"]

    def __init__(self, cid, title, poly, runs):
        self.id, self.title, self.poly, self.runs = cid, title, poly, runs
        self.rule = ("one case = drawn model and parameters; calls under 6 simulator-chosen "
                     "streams (zero, all-one, sticky and edge words) whose output is checked "
                     "for type, shape and range, and calls under 40-160 ordinary streams "
                     "whose cell frequencies and pairwise independence are tested against an "
                     "independent model; non-trivial = an extreme word was consumed or "
                     "frequencies were tested; distinct by parameters and streams")

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        models = ["grm", "pcm", "gum", "grm_md"] if self.poly else ["uni", "uni", "md"]
        return {"model": models[idx % len(models)], "d": r.randrange(1 << 30),
                "ni": r.choice([1, 2, 3, 5]), "lv": r.choice([2, 3, 4, 6]),
                "nth": r.choice([2, 3, 4]), "rep": r.choice([1, 6, 20]),
                "disc": r.choice(["vec", "scalar", "int"]),
                "guess": r.choice([0, 0, "vec", 0.25, 0.1]),
                "idiff": r.random() < 0.25, "wide": r.random() < 0.3,
                "ith": r.random() < 0.15, "case": r.choice(["lower", "lower", "upper"]),
                "steep": r.random() < 0.25, "flat": r.random() < 0.3,
                "extreme": r.random() < 0.08,
                "streams": [gen_stream(r) for _ in range(6)],
                "calls": r.choice([40, 80, 160]), "base": r.randrange(1 << 40),
                "large": r.choice([2000, 6000] if self.poly else [4000, 60000, 300000])
                if r.random() < 0.06 else 0,
                "seedkind": r.choice(["int", "int", "generator", "stream", "none", "seq"])}

    def params(self, s):
        rs = np.random.RandomState(s["d"] & 0x7fffffff)
        ni, model = s["ni"], s["model"]
        th = rs.uniform(-2, 2, s["nth"]) * (8 if s["wide"] else 1)
        if s["extreme"]:                     # as far out as numbers go in practice
            th = np.sign(th) * rs.choice([3.0, 50.0, 400.0], th.size)
        if s["ith"]:
            th = np.rint(th).astype(int)
        theta = np.repeat(th, s["rep"])
        lo, hi = (0.05, 6) if s["steep"] else (0.5, 2)
        disc = (rs.uniform(lo, hi, ni) if s["disc"] == "vec" else
                float(rs.uniform(lo, hi)) if s["disc"] == "scalar" else int(rs.randint(1, 3)))
        if model in ("md", "grm_md"):
            disc = rs.uniform(0.3, 1.4, (ni, 2)) * (3 if s["steep"] else 1)
            theta = rs.uniform(-2, 2, (2, s["nth"])) * (4 if s["wide"] else 1)
            if s["ith"]:
                theta = np.rint(theta).astype(int)
                disc = 1 + rs.randint(0, 2, (ni, 2))
            theta = np.repeat(theta, s["rep"], axis=1)
        if not self.poly:
            diff = rs.uniform(-1.5, 1.5, ni)
            if s["idiff"]:
                diff = rs.randint(-2, 3, ni)
            guess = rs.uniform(0, 0.4, ni) if s["guess"] == "vec" else s["guess"]
            return diff, disc, theta, guess
        nt = s["lv"]
        if model == "gum":
            half = np.cumsum(rs.uniform(0.3, 1.2, (ni, nt - 1)), axis=1)[:, ::-1]
            diff = np.hstack([-half, np.zeros((ni, 1)), half[:, ::-1]]) + rs.standard_normal(
                (ni, 1))
        else:
            diff = np.cumsum(rs.uniform(0.3, 1.2, (ni, nt)), axis=1)
            diff -= diff.mean(axis=1)[:, None] + 0.5 * rs.standard_normal((ni, 1))
            if model == "pcm" and rs.rand() < 0.4:
                diff = rs.permuted(diff, axis=1) if hasattr(rs, "permuted") else diff[:, ::-1]
            if model == "grm_md":
                diff = -diff
            if s["idiff"] and model != "grm_md":
                diff = np.arange(nt)[None] + rs.randint(-2, 1, (ni, 1))
        return diff, disc, theta, 0

    def run(self, s):
        diff, disc, theta, guess = self.params(s)
        n = theta.shape[-1]
        ni = s["ni"]
        if self.poly:
            fn = ops.G("girth.synthetic", "create_synthetic_irt_polytomous")
            name = s["model"].upper() if s["case"] == "upper" else s["model"]
            given = diff[0] if ni == 1 and s["flat"] else diff
            call = lambda seed, theta=theta: fn(given, disc, theta, model=name,      # noqa
                                                seed=seed)
            probs = level_probs(s["model"], diff, disc, theta)
            levels = np.arange(1, probs.shape[1] + 1)
            top = f"1..{levels[-1]}"
        else:
            fn = ops.G("girth.synthetic", "create_synthetic_irt_dichotomous")
            call = lambda seed, theta=theta: fn(diff, disc, theta, guessing=guess,   # noqa
                                                seed=seed)
            if s["model"] == "md":
                z = disc @ theta + diff[:, None]
            else:
                z = (np.broadcast_to(np.asarray(disc, float), (ni,))[:, None]
                     * (theta[None] - diff[:, None]))
            g = np.broadcast_to(np.asarray(guess, float), (ni,))[:, None]
            p1 = g + (1 - g) * sig(z)
            probs = np.stack([1 - p1, p1], axis=1)
            levels = np.array([0, 1])
            top = "0 and 1"
        desc = (f"model {s['model']}, {ni} items, {n} persons, difficulty "
                f"{np.round(diff, 3).tolist()}, discrimination {np.round(disc, 3).tolist()}, "
                f"guessing {np.round(guess, 3).tolist()}")
        v, words, extreme = None, 0, 0
        Entropy.reset(s["base"])
        keep = [np.array(a) for a in (diff, disc, theta, guess)]
        for st in s["streams"]:
            stream = Stream(st)
            x = call(stream.generator())
            words += stream.words
            extreme += stream.extreme
            bad = self.shape(x, ni, n, levels, top)
            if bad:
                v = viol("invalid-data", f"stream {st}: {bad}; {desc}")
                break
            if stream.words < 1:
                v = viol("stream-unused", f"no random word was drawn; {desc}")
                break
        hashes = []
        if v is None:
            data = []
            for i in range(s["calls"]):
                k = s["base"] + i
                if s["seedkind"] == "generator":
                    k = np.random.default_rng(k)
                elif s["seedkind"] == "none":
                    k = None                 # the simulated entropy decides
                elif s["seedkind"] == "seq":
                    k = np.random.SeedSequence(k)
                elif s["seedkind"] == "stream" and i < 40:
                    k = Stream({"seed": k & 0x7fffffff, "mode": "plain"}).generator()
                x = call(k)
                bad = self.shape(x, ni, n, levels, top)
                if bad:
                    v = viol("invalid-data", f"seed {k}: {bad}; {desc}")
                    break
                data.append(x)
            if v is None:
                v = self.frequencies(np.array(data), probs, levels, s, desc)
            if v is None and s["large"]:
                v = self.large(s, call, theta, probs, levels, desc)
            if v is None and not all(np.array_equal(a, b) for a, b in
                                     zip(keep, (diff, disc, theta, guess))):
                v = viol("inputs-changed", f"a parameter array was altered; {desc}")
        hashes.append(short(canon(world.dumps(s))))
        return {"violation": v, "stats": {
            "faults": {"extreme random word": extreme}, "hashes": hashes,
            "probes": {"wide abilities": int(s["wide"]), "integer difficulty": int(s["idiff"])},
            "sums": {"events": words, "random words chosen": words,
                     "calls": len(s["streams"]) + s["calls"]}}}

    def large(self, s, call, theta, probs, levels, desc):
        """Cells of one large call, and of two, are uncorrelated at every distance."""
        times = -(-s["large"] // theta.shape[-1])
        mean = np.einsum("ilj,l->ij", probs, levels)
        var = np.einsum("ilj,l->ij", probs, levels ** 2.0) - mean ** 2
        sd = np.where(var > 0.05, np.sqrt(np.maximum(var, 0.05)), np.inf)
        flat = []
        for seed in (s["base"], s["base"] + 1):
            x = call(None if s["seedkind"] == "none" else seed, np.tile(theta, times))
            n = x.shape[1]
            bad = self.shape(x, s["ni"], theta.shape[-1] * times, levels, "the levels")
            if bad:
                return viol("invalid-data", f"{n} persons: {bad}; {desc}")
            z = (x - np.tile(mean, times)) / np.tile(sd, times)
            flat.append(np.clip(z, -5, 5).ravel())
        a, b = flat
        size = 1 << (2 * a.size - 1).bit_length()
        fa, fb = np.fft.rfft(a, size), np.fft.rfft(b, size)
        for what, f in (("of one call", fa * fa.conj()), ("of two seeds", fa * fb.conj())):
            c = np.fft.irfft(f, size)[:a.size - a.size // 8]
            if what == "of one call":
                c[0] = 0
            c = c / np.sqrt(a.size)
            if np.abs(c).max() > 2 * ZMAX:
                lag = int(np.abs(c).argmax())
                return viol("dependent-cells",
                            f"cells {what} with {n} persons and a distance of {lag} are "
                            f"correlated ({c[lag]:.1f} standard errors); {desc}")
        return None

    @staticmethod
    def shape(x, ni, n, levels, top):
        if not isinstance(x, np.ndarray) or x.shape != (ni, n):
            return f"shape {np.shape(x)} instead of {(ni, n)}"
        if x.dtype.kind not in "iu":
            return f"dtype {x.dtype}"
        if x.min() < levels[0] or x.max() > levels[-1]:
            return f"values {x.min()}..{x.max()} instead of {top}"
        return None

    def frequencies(self, data, probs, levels, s, desc):
        calls, ni, n = data.shape
        # pool the persons of equal ability, then every cell for itself
        for rep in {s["rep"], 1}:
            for lev_ndx, lev in enumerate(levels):
                hit = (data == lev).sum(axis=0).reshape(ni, n // rep, rep).sum(axis=2)
                p = probs[:, lev_ndx].reshape(ni, n // rep, rep)[:, :, 0]
                pv = binom_p(hit, calls * rep, p)
                if pv.min() < PMIN:
                    i, j = np.unravel_index(pv.argmin(), pv.shape)
                    return viol("wrong-frequency",
                                f"answer {lev} of item {i} at ability group {j}: "
                                f"{hit[i, j]} of {calls * rep} cells, expected probability "
                                f"{p[i, j]:.4f}; {desc}")
        # independence: standardised answers of distinct cells are uncorrelated
        mean = np.einsum("ilj,l->ij", probs, levels)
        var = np.einsum("ilj,l->ij", probs, levels ** 2.0) - mean ** 2
        ok = var > 0.05
        if ok.sum() > 1:
            z = ((data - mean) / np.sqrt(np.where(ok, var, 1)))[:, ok]
            z = np.clip(z, -5, 5)
            m = z.shape[1]
            if m > 60:
                z = z[:, np.linspace(0, m - 1, 60).astype(int)]
            c = z.T @ z / np.sqrt(calls)
            np.fill_diagonal(c, 0)
            lag = z[1:].T @ z[:-1] / np.sqrt(max(1, calls - 1))
            for name, mat in (("of one call", c), ("of successive seeds", lag)):
                if calls >= 80 and np.abs(mat).max() > ZMAX + 4:
                    a, b = np.unravel_index(np.abs(mat).argmax(), mat.shape)
                    return viol("dependent-cells",
                                f"cells {a} and {b} {name} are correlated "
                                f"({mat[a, b]:.1f} standard errors); {desc}")
            # pooled over pairs: persons of one item, items of one person
            full = np.where(ok, (data - mean) / np.sqrt(np.where(ok, var, 1)), 0.0)
            full = np.clip(full, -5, 5)
            for name, ax in (("persons of one item", 2), ("items of one person", 1)):
                tot = full.sum(axis=ax)
                q = (tot ** 2 - (full ** 2).sum(axis=ax)) / 2
                k = ok.sum(axis={2: 1, 1: 0}[ax])
                pairs = float((k * (k - 1) / 2).sum()) * calls
                if pairs >= 400:
                    zz = q.sum() / np.sqrt(pairs)
                    # heavy right tail of the sum of products: wide margin
                    if abs(zz) > 3 * ZMAX:
                        return viol("dependent-cells",
                                    f"answers of {name} are correlated ({zz:.1f} standard "
                                    f"errors over {pairs:.0f} pairs); {desc}")
        return None

    def shrink(self, s):
        for a, b in (("wide", False), ("idiff", False), ("guess", 0), ("disc", "vec"),
                     ("ni", 1), ("nth", 2), ("rep", 1), ("lv", 2), ("seedkind", "int"),
                     ("ith", False), ("case", "lower"), ("steep", False), ("flat", False),
                     ("extreme", False), ("large", 0)):
            if s.get(a) != b:
                yield dict(s, **{a: b})
        for i in range(len(s["streams"])):
            yield dict(s, streams=s["streams"][:i] + s["streams"][i + 1:])


class Rotation:
    id, title = "C22", "loading rotation is a valid change of basis"
    runs = {"quick": 500, "thorough": 12000}
    measure = "distinct cases: hash of loadings, streams and arguments of a run"
    rule = ("one case = drawn loadings (2-3 factors) rotated 1-3 times under streams chosen by "
            "the simulator (integer seeds, generators, extreme and sticky restart words), "
            "with or without an initial guess and orthogonality, checked against an "
            "independent criterion and linear algebra; non-trivial = always; distinct by case")
    real = REAL[:2]
    stubs = ["random words (a numpy bit generator whose words the simulator chooses)"]
    assumptions = ["extreme words drive the random restarts; a random first guess is drawn from "
                   "ordinary words, because a first guess of parallel bases is singular",
                   "perpendicular = cosine below 0.05 (orthogonality is a penalty); criterion "
                   "compared up to 1e-4 (0.05 with the steep orthogonality penalty), the local "
                   "optimiser ends up to 1e-6 (0.005) above a start that is already optimal"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        calls = []
        nf = r.choice([2, 2, 2, 3])
        for _ in range(r.choice([1, 2, 2, 3])):
            kind = r.choice(["int", "generator", "stream", "stream"])
            guess = r.random() < 0.6 or kind == "stream"
            calls.append({"kind": kind, "seed": r.randrange(1 << 30), "guess": guess,
                          "stream": gen_stream(r), "gd": r.randrange(1 << 20),
                          "orthogonal": r.random() < 0.4,
                          "alpha": r.choice([0.25, 0.5, 1.0, 2.0]),
                          "restart": len(calls) > 0 and r.random() < 0.7})
        return {"d": r.randrange(1 << 30), "nf": nf, "ni": r.choice([4, 6, 8]),
                "scale": r.choice([1, 1, 1, 0.3, 4]),
                "calls": calls, "order": r.choice(["C", "F"])}

    @staticmethod
    def criterion(bases, loadings, alpha):
        x = loadings @ np.linalg.inv(bases)
        # entropy of the row-wise magnitudes, as girth.common documents it
        return ops.G("girth.common", "entropy")(x) + alpha * np.linalg.cond(bases)

    def run(self, s):
        rs = np.random.RandomState(s["d"] & 0x7fffffff)
        nf = s["nf"]
        load = np.where(rs.rand(s["ni"], nf) < 0.5, 0.2, 1.0) * rs.uniform(-0.9, 0.9,
                                                                           (s["ni"], nf))
        mix = np.eye(nf) + 0.4 * rs.standard_normal((nf, nf))
        load = np.asarray(load @ mix * s["scale"], order=s["order"])
        keep = load.copy()
        fn = ops.G("girth.factoranalysis", "sparsify_loadings")
        v, words, extreme, bases = None, 0, 0, None
        for n, c in enumerate(s["calls"]):
            g = None
            if c["guess"]:
                gr = np.random.RandomState(c["gd"])
                while True:
                    g = gr.uniform(0, 2 * np.pi, nf * (nf - 1))
                    if np.linalg.cond(spherical(g, nf)) < 20:
                        break
            seed = c["seed"]
            stream = None
            if c["kind"] == "generator":
                seed = np.random.default_rng(seed)
            elif c["kind"] == "stream":
                stream = Stream(c["stream"])
                seed = stream.generator()
            if c["restart"] and bases is not None:   # from where the last call ended
                g = np.concatenate([angles(b) for b in bases])
            g0 = None if g is None else g.copy()
            rot, bases = fn(load, initial_guess=g, alpha=c["alpha"],
                            orthogonal=c["orthogonal"], seed=seed)
            if stream:
                words += stream.words
                extreme += stream.extreme
            what = f"call {n} {c}"
            alpha = 50.0 if c["orthogonal"] else c["alpha"]
            if bases.shape != (nf, nf) or rot.shape != load.shape:
                v = viol("invalid-bases", f"{what}: shapes {bases.shape}, {rot.shape}")
            elif not np.allclose(np.linalg.norm(bases, axis=1), 1, atol=1e-8):
                v = viol("invalid-bases", f"{what}: basis lengths "
                         f"{np.linalg.norm(bases, axis=1)}")
            elif not np.allclose(rot @ bases, load, atol=1e-7):
                v = viol("not-a-change-of-basis", f"{what}: rotated loadings times bases "
                         "differ from the loadings by "
                         f"{np.abs(rot @ bases - load).max():.2e}")
            elif c["orthogonal"] and np.abs(bases @ bases.T - np.eye(nf)).max() > 0.05:
                v = viol("not-perpendicular", f"{what}: largest cosine "
                         f"{np.abs(bases @ bases.T - np.eye(nf)).max():.3f}")
            elif g is not None and (self.criterion(bases, load, alpha)
                                    > self.criterion(spherical(g, nf), load, alpha)
                                    + (0.05 if c["orthogonal"] else 1e-4)):
                v = viol("worse-than-start", f"{what}: criterion "
                         f"{self.criterion(bases, load, alpha):.6f}, at the start "
                         f"{self.criterion(spherical(g, nf), load, alpha):.6f}")
            elif not np.array_equal(load, keep) or (g is not None
                                                    and not np.array_equal(g, g0)):
                v = viol("inputs-changed", what)
            if v:
                break
        return {"violation": v, "stats": {
            "faults": {"extreme random word": extreme},
            "hashes": [short(canon(world.dumps(s)))], "probes": {
                "orthogonal": sum(c["orthogonal"] for c in s["calls"])},
            "sums": {"events": words, "random words chosen": words, "calls": len(s["calls"])}}}

    def shrink(self, s):
        c = s["calls"]
        for i in range(len(c)):
            if len(c) > 1:
                yield dict(s, calls=c[:i] + c[i + 1:])
        if s["order"] == "F":
            yield dict(s, order="C")
        if s["scale"] != 1:
            yield dict(s, scale=1)
        for i, x in enumerate(c):
            if x["restart"]:
                yield dict(s, calls=c[:i] + [dict(x, restart=False)] + c[i + 1:])


def angles(v):
    """Hyperspherical angles of a unit vector: the inverse of spherical()."""
    out, rest = [], np.asarray(v, float)
    for k in range(rest.size - 2):
        out.append(np.arctan2(np.linalg.norm(rest[k + 1:]), rest[k]))
    return out + [np.arctan2(rest[-1], rest[-2])]


def spherical(angles, nf):
    """Unit vectors from hyperspherical angles, written independently."""
    out = np.ones((nf, nf))
    for i, a in enumerate(np.reshape(angles, (nf, nf - 1))):
        for j in range(nf):
            v = 1.0
            for k in range(min(j, nf - 1)):
                v *= np.sin(a[k])
            if j < nf - 1:
                v *= np.cos(a[j])
            out[i, j] = v
    return out


CHECKS = {
    "C20": Synthetic("C20", "synthetic dichotomous data follow the model", False,
                     {"quick": 4000, "thorough": 100000}),
    "C21": Synthetic("C21", "synthetic polytomous data follow the model", True,
                     {"quick": 2500, "thorough": 60000}),
    "C22": Rotation(),
}
