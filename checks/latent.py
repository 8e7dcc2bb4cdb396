"""C19: steps of the latent-density estimation under faults and schedules."""
import numpy as np

from sim import ops, world
from sim.digest import canon, short
from sim.kernel import FAILURES, Kernel
from sim.runner import REAL, STUBS, kernel_stats
from .common import MAXSTEPS, viol
from .faults import arm, disarm

TOL = 1e-3


def partial_likelihood(seed, theta):
    """persons x quadrature: likelihoods of generated answers, as estimators pass."""
    rs = np.random.RandomState(seed)
    ni, n = rs.randint(4, 9), rs.randint(25, 60)
    kind = rs.randint(3)
    t = rs.standard_normal(n) if kind == 0 else (
        rs.choice([-1.0, 1.0], n) * 0.9 + 0.4 * rs.standard_normal(n) if kind == 1
        else rs.uniform(-1.7, 1.7, n))
    a, b = rs.uniform(0.7, 1.8, ni), rs.uniform(-1.5, 1.5, ni)
    y = rs.rand(ni, n) < 1 / (1 + np.exp(-a[:, None] * (t - b[:, None])))
    p = 1 / (1 + np.exp(-a[:, None] * (theta[None] - b[:, None])))
    out = np.ones((n, theta.size))
    for i in range(ni):
        out *= np.where(y[i][:, None], p[i][None], 1 - p[i][None])
    return out


def make(o):
    return ops.G("girth", "LatentPDF")(ops.options({"opts": o}))


def bspline(x):
    """Cubic B-spline, written independently of GIRTH."""
    x = np.abs(x)
    return np.where(x < 1, (4 - 6 * x ** 2 + 3 * x ** 3) / 6,
                    np.where(x < 2, (2 - x) ** 3 / 6, 0.0))


def step(pdf, s, part):
    """One step: an estimation step, or resampling the density at other points."""
    if s.get("resample"):
        return ops.G("girth.utilities.latent_ability_distribution", "resample")(
            pdf.cubic_splines[-1], s["resample"])
    return pdf(part, s["it"])


def identified(cs):
    """None or what is wrong with an estimated density."""
    c = np.array(cs.coefficients[2:-2])
    s = np.array(cs.sample_space[2:-2])
    if not np.all(np.isfinite(c)):
        return f"coefficients {c}"
    if c.min() < -1e-9:
        return f"a negative coefficient {c.min():.3g}"
    if abs(c.sum() - 1) > TOL:
        return f"coefficients sum to {c.sum():.6f}"
    if abs(c @ s) > TOL:
        return f"the mean is {c @ s:.6f}"
    d = s[1] - s[0]
    if abs(c @ s ** 2 - (1 - d * d / 3)) > TOL:
        return f"the variance is {c @ s**2:.6f} instead of {1 - d*d/3:.6f}"
    return None


class Latent:
    id, title = "C19", "latent-density steps are all-or-nothing and identified"
    runs = {"quick": 1500, "thorough": 30000}
    measure = "distinct cases: hash of steps, faults and baton hand-overs of a run"
    rule = ("one case = 1-2 LatentPDF objects, each driven by its own caller thread through "
            "2-7 estimation steps (first iterations, later iterations, changing data, "
            "resampling of the density at other points, faults inside steps, overwritten returned weights) under one seeded schedule; "
            "checked after every step against the state before it, an independent spline "
            "and moment model, and a fresh-process object given only the successful steps; "
            "non-trivial = a fault fired in a step or threads interleaved inside steps")
    real = REAL[:2]
    stubs = STUBS[:1] + STUBS[4:]
    assumptions = ["faults strike at GIRTH source lines and calls made by GIRTH",
                   "moments are checked to 1e-3 (the optimiser's own tolerance is 1e-6); "
                   "likelihoods passed are those of generated answers of 25-60 persons, "
                   "5 or more samples and bounds for which unit variance is attainable"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        pdfs = []
        for i in range(r.choice([1, 1, 2])):
            o = {"estimate_distribution": r.random() < 0.85,
                 "number_of_samples": r.choice([7, 9, 11, 13]),
                 "quadrature_n": r.choice([9, 15, 21])}
            if r.random() < 0.5:
                o["quadrature_bounds"] = r.choice([[-4.5, 4.5], [-4, 4], [-5, 4], [-5, 5]])
            if r.random() < 0.6:
                o["distribution"] = ops.gen_dist(r)
            steps = []
            for j in range(r.randrange(2, 8)):
                s = {"it": 0 if r.random() < 0.25 or (j == 0 and r.random() < 0.6)
                     else r.randrange(1, 6), "d": r.randrange(1000)}
                if j and r.random() < 0.3:
                    s["d"] = steps[-1]["d"]
                if r.random() < 0.4:
                    s["fault"] = {"kind": r.choice(["kbd", "kbd", "mem", "err", "opt"]),
                                  "frac": r.random()}
                    if s["fault"]["kind"] == "opt":
                        s["fault"]["frac"] *= 0.05
                    if s["fault"]["kind"] == "err":
                        s["fault"]["exc"] = r.choice(FAILURES)
                    s["retry"] = r.random() < 0.5
                s["overwrite"] = r.random() < 0.3
                if r.random() < 0.12:
                    s["resample"] = r.choice([5, 7, 9, 11, 13])
                steps.append(s)
            pdfs.append({"opts": o, "steps": steps})
        return {"pdfs": pdfs, "sched": world.gen_sched(r, 0) if len(pdfs) > 1 else {},
                "entropy": 1, "world": 1}

    def solo_steps(self, pd):
        """Events per step of an undisturbed pass, for placing faults."""
        def go():
            def task():
                k = Kernel.current
                pdf = make(pd["opts"])
                out = []
                for s in pd["steps"]:
                    n = k.cur.steps
                    world.observe(lambda: step(pdf, s, partial_likelihood(
                        s["d"], pdf.quadrature_locations)))
                    out.append(k.cur.steps - n)
                return out, {(n, ln) for _, n, ln in k.cur.hits}
            k = world.run_tasks({"sched": {}}, [("m0", task)], profile=True)
            t = k.tasks[0]
            if t.exc is not None:
                raise world.HarnessError(repr(t.exc))
            return t.result
        st, out = world.in_fork(go)
        if st != "ok":
            raise world.HarnessError(f"solo pass: {out}")
        return out

    def run(self, spec):
        spec = dict(spec, pdfs=[dict(p, steps=[dict(s) for s in p["steps"]])
                                for p in spec["pdfs"]])
        total, sites = 0, set()
        for pd in spec["pdfs"]:
            n, hit = self.solo_steps(pd)
            sites |= hit
            total += sum(n)
            for s, cnt in zip(pd["steps"], n):
                f = s.get("fault")
                if f and "step" not in f:
                    s["fault"] = dict({k: f[k] for k in ("kind", "exc") if k in f},
                                      step=1 + int(f["frac"] * max(1, cnt)))
        if spec["sched"].get("style") == "site" and "sites" not in spec["sched"]:
            r = world.rng_for("sites", spec["sched"]["seed"])
            spec["sched"] = dict(spec["sched"], sites=[
                list(s) for s in r.sample(sorted(sites),
                                          min(len(sites), spec["sched"]["nsites"]))])
        st, out = world.in_fork(lambda: self.simulate(spec, total))
        if st != "ok":
            raise world.HarnessError(f"simulation: {out}")
        v, hist, stats, spec = out
        if v is None:
            for j, pd in enumerate(spec["pdfs"]):
                st, ref = world.in_fork(lambda: self.reference(pd, hist[j]))
                if st != "ok":
                    raise world.HarnessError(f"reference: {ref}")
                for n, (a, b) in enumerate(zip(hist[j], ref)):
                    if a["out"] != b and a.get("failed"):
                        v = viol("failed-step-left-traces",
                                 f"{a['what']}: the step failed and left the density neither "
                                 "as it was nor as the whole step leaves it")
                        break
                    if a["out"] != b:
                        v = viol("differs-from-reference",
                                 f"object {j}, successful step {n} ({a['what']}): weights or "
                                 "density differ from those of a fresh object that performed "
                                 "only the successful steps")
                        break
                if v:
                    break
        if v is not None:
            v["trace"] = [f"object {j} {pd['opts']}: " + "; ".join(map(str, pd["steps"]))
                          for j, pd in enumerate(spec["pdfs"])]
        return {"violation": v, "replay_spec": spec, "stats": stats}

    def reference(self, pd, hist):
        def task():
            pdf = make(pd["opts"])
            out = []
            for h in hist:
                w = step(pdf, h, partial_likelihood(h["d"], pdf.quadrature_locations))
                out.append(short(canon(pdf if h.get("failed") else [w, pdf])))
            return out
        k = world.run_tasks({"sched": {}}, [("m0", task)])
        if k.tasks[0].exc is not None:
            raise world.HarnessError(repr(k.tasks[0].exc))
        return k.tasks[0].result

    def simulate(self, spec, total):
        hist = [[] for _ in spec["pdfs"]]
        count = {"step failed by a fault": 0, "failed step was complete": 0, "estimation steps": 0,
                 "first-iteration steps": 0, "first iteration after estimation": 0,
                 "weights overwritten": 0, "densities resampled": 0}

        def task(j, pd):
            def go():
                k = Kernel.current
                k.mute = True
                pdf = make(pd["opts"])
                theta0, w0 = np.array(pdf.quadrature_locations), np.array(pdf.weights)
                dens = np.array(ops.options({"opts": pd["opts"]}).get(
                    "distribution", _default_density)(theta0))
                k.mute = False
                estimated, taken = False, []
                for n, s in enumerate(pd["steps"]):
                    tries = [s.get("fault")] + ([None] if s.get("retry") else [])
                    for f in tries:
                        k.mute = True
                        part = partial_likelihood(s["d"], theta0)
                        keep = part.copy()
                        before = canon(pdf)
                        what = f"object {j} step {n} iteration {s['it']} data {s['d']} {f or ''}"
                        if s.get("resample"):
                            what = f"object {j} step {n} resampled at {s['resample']} {f or ''}"
                        k.mute = False
                        if f and f["kind"] != "density":
                            arm(k, [f])
                        n0 = len(k.fired)
                        o = world.observe(lambda: step(pdf, s, part), keep=True)
                        k.mute = True
                        disarm(k)
                        hit = any(x.get("task", k.cur.name) == k.cur.name
                                  for x in k.fired[n0:]) if f else False
                        if not np.array_equal(part, keep):
                            return viol("inputs-changed", f"{what}: the caller's likelihood "
                                        "array was altered")
                        if s.get("resample"):
                            same = s["resample"] == pdf.cubic_splines[-1].number_of_samples
                            if canon(pdf) != before:
                                return viol("resampling-changed-the-source", what)
                            if o.kind == "raise":
                                if not hit and not (same and o.canon == "AssertionError"):
                                    return viol("unexpected-failure", f"{what}: {o.show}")
                                count["step failed by a fault"] += hit
                                k.mute = False
                                continue
                            if same or (hit and o.interrupted):
                                return viol("interrupt-absorbed" if hit else
                                            "resampled-at-equal-size", what)
                            bad = identified(o.value)
                            if bad or o.value is pdf.cubic_splines[-1]:
                                return viol("not-identified", f"{what}: {bad}")
                            count["densities resampled"] += 1
                            hist[j].append({"resample": s["resample"], "what": what, "it": 0,
                                            "d": 0, "out": short(canon([o.value, pdf]))})
                            for was, cs in taken:
                                if canon(cs) != was:
                                    return viol("resampled-density-changed-later", what)
                            taken.append((canon(o.value), o.value))
                            if s.get("overwrite"):
                                o.value.update_coefficients(np.full(s["resample"], 2.5))
                                taken[-1] = (canon(o.value), o.value)
                            if canon(pdf) != before:
                                return viol("resampled-density-shares-state", what)
                            k.mute = False
                            break
                        if o.kind == "raise":
                            if not hit:
                                return viol("unexpected-failure", f"{what}: {o.show}")
                            count["step failed by a fault"] += 1
                            if canon(pdf) != before:
                                # all or nothing: then it must be what the whole step
                                # gives (compared with the reference object)
                                count["failed step was complete"] += 1
                                hist[j].append({"it": s["it"], "d": s["d"], "what": what,
                                                "failed": True, "out": short(canon(pdf))})
                            k.mute = False
                            continue
                        if hit and o.interrupted:
                            return viol("interrupt-absorbed", what)
                        w = np.asarray(o.value)
                        off = not pd["opts"]["estimate_distribution"]
                        if off or s["it"] == 0:
                            count["first-iteration steps"] += 1
                            count["first iteration after estimation"] += estimated
                            if w.shape != w0.shape or not np.allclose(
                                    w, dens * w0, rtol=1e-10, atol=1e-300):
                                return viol("wrong-initial-weights",
                                            f"{what}: weights are not the supplied density "
                                            "times the quadrature weights")
                            if canon(pdf) != before:
                                return viol("initial-step-left-traces",
                                            f"{what}: changed the estimated density")
                        else:
                            count["estimation steps"] += 1
                            estimated = True
                            bad = identified(pdf.cubic_splines[-1])
                            if bad:
                                return viol("not-identified", f"{what}: {bad}")
                            cs = pdf.cubic_splines[-1]
                            ss = np.array(cs.sample_space)
                            d = ss[1] - ss[0]
                            mine = bspline((theta0[:, None] - ss[None]) / d) @ np.array(
                                cs.coefficients) / d * w0
                            if w.shape != mine.shape or not np.allclose(w, mine, rtol=1e-8,
                                                                        atol=1e-12):
                                return viol("weights-disagree-with-density",
                                            f"{what}: the returned weights are not the "
                                            "estimated density times the quadrature weights")
                        hist[j].append({"it": s["it"], "d": s["d"], "what": what,
                                        "out": short(canon([w, pdf]))})
                        if s.get("overwrite") and w.flags.writeable:
                            w[...] = 3.5
                            count["weights overwritten"] += 1
                        part[...] = 0.123
                        k.mute = False
                        break
                return None
            return go
        mains = [(f"m{j}", task(j, pd)) for j, pd in enumerate(spec["pdfs"])]
        k = world.run_tasks(spec, mains, max_steps=MAXSTEPS * total + 2_000_000)
        v = None
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"steps do not end ({k.status})")
        for t in k.tasks:
            if t.exc is not None:
                raise world.HarnessError(repr(t.exc))
            v = v or t.result
        st = kernel_stats(k, probes=count, nontrivial=False)
        if k.fired or any(d[0] == "p" for d in k.decisions):
            st["hashes"] = [short((k.log.hexdigest(), world.dumps(spec["pdfs"])))]
        return v, hist, st, (world.ran_spec(spec, k) if len(mains) > 1 else spec)

    def shrink(self, spec):
        pdfs = spec["pdfs"]
        for j in range(len(pdfs)):
            if len(pdfs) > 1:
                yield dict(spec, pdfs=pdfs[:j] + pdfs[j + 1:])
        for j, pd in enumerate(pdfs):
            for n in range(len(pd["steps"])):
                if len(pd["steps"]) > 1:
                    new = dict(pd, steps=pd["steps"][:n] + pd["steps"][n + 1:])
                    yield dict(spec, pdfs=pdfs[:j] + [new] + pdfs[j + 1:])
            for n, s in enumerate(pd["steps"]):
                for a in ("fault", "retry", "overwrite", "resample"):
                    if s.get(a):
                        t = dict(s)
                        t.pop(a)
                        new = dict(pd, steps=pd["steps"][:n] + [t] + pd["steps"][n + 1:])
                        yield dict(spec, pdfs=pdfs[:j] + [new] + pdfs[j + 1:])


def _default_density(x):
    return np.exp(-0.5 * np.asarray(x) ** 2) / np.sqrt(2 * np.pi)


CHECKS = {"C19": Latent()}
