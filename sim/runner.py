"""Seeded search over many simulated runs, minimisation, replay, evidence."""
import gc
import hashlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import traceback

from . import boot as _boot
from . import prims, world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 240.0
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))


def now():
    return prims.real["monotonic"]()


# ------------------------------------------------------------ one run
def execute(check, spec):
    """One simulated run in a fresh fork: its report or a harness failure."""
    def go():
        gc.disable()
        return check.run(spec)
    st, out = world.in_fork(go, RUN_TIMEOUT, getattr(check, "cpu", None))
    if st == "ok":
        return out
    if st == "cpu":
        return check.endless(spec)
    return {"harness": st, "detail": out}


# ------------------------------------------------------------ search pool
class Pool:
    """Server processes forked from the booted zygote; server j takes every
    index handed to it and reports (index, report)."""

    def __init__(self, check, seed, n):
        self.check = check
        self.servers = []
        for _ in range(n):
            a, b = os.pipe()
            c, d = os.pipe()
            pid = prims.real["fork"]()
            if pid == 0:
                for fd in [a2 for s in self.servers for a2 in (s["in"], s["out"])] + [b, c]:
                    os.close(fd)
                self._serve(a, d, seed)
                os._exit(0)
            os.close(a)
            os.close(d)
            self.servers.append({"pid": pid, "in": b, "out": c, "buf": b"", "job": None})

    def _serve(self, fin, fout, seed):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        rd = os.fdopen(fin, "rb")
        while True:
            head = rd.read(8)
            if len(head) < 8:
                return
            job = pickle.loads(rd.read(int.from_bytes(head, "big")))
            try:
                if job[0] == "idx":
                    spec = self.check.gen(job[1], seed)
                else:
                    spec = job[1]
                rep = execute(self.check, spec)
                rep["gen_spec"] = spec
            except BaseException as e:       # noqa
                rep = {"harness": "err", "detail": "".join(traceback.format_exception(e))[-3000:]}
            data = pickle.dumps(rep)
            blob = len(data).to_bytes(8, "big") + data
            while blob:
                blob = blob[os.write(fout, blob):]

    def send(self, s, job):
        data = pickle.dumps(job)
        blob = len(data).to_bytes(8, "big") + data
        while blob:
            blob = blob[os.write(s["in"], blob):]
        s["job"] = job

    def results(self, timeout):
        fds = {s["out"]: s for s in self.servers}
        ready = select.select(list(fds), [], [], timeout)[0]
        out = []
        for fd in ready:
            s = fds[fd]
            b = os.read(fd, 1 << 20)
            if not b:
                raise RuntimeError("a search server died")
            s["buf"] += b
            if len(s["buf"]) >= 8:
                n = int.from_bytes(s["buf"][:8], "big")
                if len(s["buf"]) >= 8 + n:
                    rep = pickle.loads(s["buf"][8:8 + n])
                    s["buf"] = s["buf"][8 + n:]
                    job, s["job"] = s["job"], None
                    out.append((job, rep))
        return out

    def idle(self):
        return [s for s in self.servers if s["job"] is None]

    def map(self, specs, deadline=None):
        """Reports for explicit specs, in order; None where not run in time."""
        todo = list(enumerate(specs))
        todo.reverse()
        out = [None] * len(specs)
        pend = 0
        while todo or pend:
            for s in self.idle():
                if todo and not (deadline and now() > deadline):
                    i, spec = todo.pop()
                    self.send(s, ("spec", spec, i))
                    pend += 1
            if not pend:
                break
            for job, rep in self.results(5.0):
                out[job[2]] = rep
                pend -= 1
        return out

    def close(self):
        for s in self.servers:
            try:
                os.close(s["in"])
            except OSError:
                pass
            try:
                os.kill(s["pid"], signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(s["pid"], 0)
            os.close(s["out"])


# ------------------------------------------------------------ minimisation
def minimise(check, pool, spec, sig, budget):
    """Greedy parallel reduction; candidates come from the check and from
    dropping scheduling decisions.  Keeps the violation's class."""
    deadline = now() + budget
    best = spec
    tried = 0

    def same(rep):
        return rep and rep.get("violation") and rep["violation"]["class"] == sig

    def size(s):
        return len(json.dumps(s))

    # drop decisions in chunks, then structural candidates, until no progress
    progress = True
    while progress and now() < deadline:
        progress = False
        dec = best.get("sched", {}).get("decisions")
        if dec:
            chunk = len(dec)
            while chunk >= 1 and now() < deadline:
                dec = best["sched"]["decisions"]
                cands = []
                for i in range(0, len(dec), chunk):
                    keep = dec[:i] + dec[i + chunk:]
                    cands.append(dict(best, sched={"decisions": keep}))
                    if len(cands) >= 24:
                        break
                hit = None
                reps = pool.map(cands, deadline)
                tried += sum(r is not None for r in reps)
                for c, rep in zip(cands, reps):
                    if same(rep):
                        hit = c
                        break
                if hit is not None:
                    best = hit
                    progress = True
                    if not best["sched"]["decisions"]:
                        break
                    chunk = min(chunk, len(best["sched"]["decisions"]))
                else:
                    chunk //= 2
                    if chunk and len(dec) / chunk > 64:
                        break
        for _ in range(40):
            if now() > deadline:
                break
            cands = [c for c in check.shrink(best) if size(c) < size(best) + 40][:32]
            if not cands:
                break
            reps = pool.map(cands, deadline)
            tried += sum(r is not None for r in reps)
            hit = None
            for c, rep in zip(cands, reps):
                if same(rep):
                    hit = rep.get("replay_spec") or c
                    if size(hit) > size(best) * 1.5 + 200:
                        hit = c
                    break
            if hit is None:
                break
            best = hit
            progress = True
    return best, tried


# ------------------------------------------------------------------ known
def known_findings():
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh).get("findings", [])


# ----------------------------------------------------------------- main loop
def run_check(check, tier, seed):
    t0 = now()
    n = int(os.environ.get("SIM_RUNS", 0)) or check.runs[tier]
    pool = Pool(check, seed, WORKERS)
    agg = Aggregate(check, tier, seed)
    known = {f["signature"]: f for f in known_findings() if f["property"] == check.id
             and f.get("status", "open") == "open"}
    seen_known = {}
    bad = None
    harness = []
    nxt = 0
    retried = set()
    try:
        while True:
            for s in pool.idle():
                if nxt < n and bad is None and not harness:
                    pool.send(s, ("idx", nxt))
                    nxt += 1
            busy = [s for s in pool.servers if s["job"] is not None]
            if not busy:
                break
            for job, rep in pool.results(10.0):
                idx = job[1]
                if "harness" in rep:
                    if idx not in retried and rep["harness"] == "timeout":
                        retried.add(idx)
                        pool.send(pool.idle()[0], job)
                        continue
                    harness.append((idx, rep))
                    continue
                agg.add(idx, rep)
                v = rep.get("violation")
                if v and v["class"] in known:
                    seen_known[v["class"]] = seen_known.get(v["class"], 0) + 1
                elif v and (bad is None or idx < bad[0]):
                    bad = (idx, rep)
        if bad is None and not harness:
            v = check.finish(agg) if hasattr(check, "finish") else None
            if v:
                bad = (v["idx"], v["report"])
        if bad is not None:
            return report_violation(check, pool, agg, bad, tier, seed, t0)
    finally:
        pool.close()
    if harness:
        idx, rep = harness[0]
        print(f"HARNESS-ERROR property={check.id} run={idx} {rep['harness']}: {rep['detail']}",
              file=sys.stderr)
        agg.write(now() - t0, 0, note=f"harness error in run {idx}")
        return 2
    for sig, cnt in seen_known.items():
        print(f"KNOWN-FINDING: property={check.id} {known[sig]['what']} (seen in {cnt} runs)")
    agg.write(now() - t0, 0)
    print(f"OK property={check.id} tier={tier} seed={seed} runs={agg.runs} "
          f"distinct={len(agg.distinct)} wall={now() - t0:.1f}s")
    return 0


def report_violation(check, pool, agg, bad, tier, seed, t0):
    idx, rep = bad
    v = rep["violation"]
    print(f"run {idx} violates {check.id}: {v['class']}: {v['detail']}", file=sys.stderr)
    spec = rep.get("replay_spec") or rep["gen_spec"]
    budget = 60.0 if tier == "quick" else 180.0
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{check.id}-{seed}-{idx}.json")
    first = pool.map([spec])[0]
    tried = 0
    cands = []
    if first and first.get("violation") and first["violation"]["class"] == v["class"]:
        small, tried = minimise(check, pool, spec, v["class"], budget)
        cands = [small, spec]
    else:
        print("recorded decisions alone did not reproduce; keeping the seed form",
              file=sys.stderr)
    cands.append(rep["gen_spec"])
    ok = False
    for c in cands:
        doc = {"property": check.id, "seed": seed, "run": idx, "tier": tier, "spec": c,
               "original_spec": rep["gen_spec"], "class": v["class"], "detail": v["detail"]}
        with open(path, "w") as fh:
            json.dump(doc, fh, indent=1)
        for _ in range(2):
            r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "replay", path],
                               capture_output=True, text=True)
            if r.returncode == 1:
                ok = True
                break
        if ok:
            break
    agg.extra["minimisation_runs"] = tried
    agg.write(now() - t0, 1)
    if not ok:
        print(f"HARNESS-ERROR property={check.id} run={idx}: the violation did not replay\n"
              + r.stdout[-1500:] + r.stderr[-1500:], file=sys.stderr)
        return 2
    print(r.stdout.strip()[-2500:])
    print(f"VIOLATION property={check.id} replay={path}")
    return 1


def replay(check, doc):
    rep = execute(check, doc["spec"])
    if "harness" in rep:
        print(f"HARNESS-ERROR {rep['harness']}: {rep['detail']}")
        return 2
    v = rep.get("violation")
    if not v:
        print("no violation on this tree")
        return 0
    print(f"{check.id} {check.title}")
    print(f"  class : {v['class']}")
    print(f"  detail: {v['detail']}")
    for line in v.get("trace", [])[:40]:
        print("   ", line)
    return 1


class Aggregate:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.runs = 0
        self.distinct = set()
        self.faults = {}
        self.probes = {}
        self.sums = {}
        self.samples = []
        self.extra = {}
        self.data = []

    def add(self, idx, rep):
        self.runs += 1
        st = rep.get("stats", {})
        for h in st.get("hashes", ()):
            self.distinct.add(h)
        for k, n in st.get("faults", {}).items():
            self.faults[k] = self.faults.get(k, 0) + n
        for k, n in st.get("probes", {}).items():
            self.probes[k] = self.probes.get(k, 0) + n
        for k, n in st.get("sums", {}).items():
            self.sums[k] = self.sums.get(k, 0) + n
        if "data" in rep:
            self.data.append((idx, rep["data"], rep["gen_spec"]))
        if len(self.samples) < 3 and st.get("hashes"):
            s = json.loads(json.dumps(rep["gen_spec"], default=str))
            self.samples.append({"run": idx, "spec": s, "steps": st.get("sums", {}).get("events"),
                                 "switches": st.get("sums", {}).get("switches")})

    def write(self, wall, violations, note=None):
        c = self.check
        cov = {
            "evaluations": self.runs,
            "distinct_nontrivial": len(self.distinct),
            "rule": c.rule,
            "samples": self.samples or [{"note": "no non-trivial run"}],
            "runs_per_hour": round(self.runs / max(wall, 1e-6) * 3600),
            "seeds_per_hour": round(self.runs / max(wall, 1e-6) * 3600),
            "simulated_seconds": round(self.sums.get("sim_s", 0.0), 3),
            "events": self.sums.get("events", 0),
            "context_switches": self.sums.get("switches", 0),
            "faults_injected": dict(sorted(self.faults.items())),
            "probes": dict(sorted(self.probes.items())),
            "distinct_measure": c.measure,
            "real_components": c.real,
            "stub_components": c.stubs,
            "counters": {k: v for k, v in sorted(self.sums.items())
                         if k not in ("sim_s", "events", "switches")},
        }
        cov.update(self.extra)
        if note:
            cov["note"] = note
        doc = {"property": c.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
               "coverage": cov, "assumptions": c.assumptions, "wall_s": round(wall, 2),
               "violations": violations}
        path = os.path.join(VERIF, "evidence", f"{c.id}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + f".{os.getpid()}.tmp"
        with open(tmp, "w") as fh:
            json.dump(doc, fh, indent=1, default=str)
        os.replace(tmp, path)


def hash_run(k):
    return k.log.hexdigest()


def kernel_stats(k, probes=None, extra=None, nontrivial=True):
    faults = {}
    for f in k.fired:
        name = f.get("label") or f.get("op") or f["kind"]
        faults[name] = faults.get(name, 0) + 1
    st = {"faults": faults, "probes": probes or {},
          "sums": {"events": k.total, "switches": k.switches,
                   "sim_s": k.now + k.total * 1e-6}}
    st["sums"].update(extra or {})
    st["hashes"] = [hash_run(k)] if nontrivial else []
    return st


def merge_stats(a, b):
    for sec in ("faults", "probes", "sums"):
        for key, n in b.get(sec, {}).items():
            a.setdefault(sec, {})[key] = a.get(sec, {}).get(key, 0) + n
    a.setdefault("hashes", []).extend(b.get("hashes", []))
    return a


REAL = ["all GIRTH code of the tree under test", "numpy, scipy",
        "concurrent.futures Future/map/wait, threading.Thread/Condition/Event, queue.Queue"]
STUBS = ["thread scheduling and locks (baton scheduler)", "worker processes (own module image, "
         "pickled messages)", "ProcessPoolExecutor / multiprocessing.Pool internals",
         "SharedMemory and SharedMemoryManager", "clock, OS entropy, pid"]
