"""C28: results do not depend on the environment, calls touch nothing outside."""
import gc
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from sim import boot, ops, world
from sim.digest import canon, diff_state, process_state, short
from sim.kernel import Kernel
from sim.runner import REAL, STUBS, VERIF, kernel_stats
from . import bootstrap, parallel
from .common import MAXSTEPS, group_ops, show_op, shrink_op, viol
from .faults import arm, disarm

ALL = group_ops(*ops.GROUPS)
FLAGS = [[], ["-O"], ["-OO"], ["-X", "dev"], ["-X", "utf8=0"], ["-u"], ["-s", "-S"]]
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
HARMLESS = tuple({os.path.realpath(x) + os.sep for x in (
    sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), boot.REPO, VERIF, "/proc",
    "/sys", "/dev", os.path.dirname(os.path.dirname(np.__file__)))})
TOUCH = ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.link", "os.symlink",
         "os.truncate", "os.chmod", "os.utime", "os.putenv", "os.unsetenv", "os.chdir",
         "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.kill", "subprocess.Popen",
         "socket.connect", "socket.bind", "socket.__new__", "shutil.copyfile",
         "shutil.rmtree", "sqlite3.connect", "urllib.Request", "webbrowser.open",
         "resource.setrlimit", "signal.pthread_kill", "syslog.syslog", "tempfile.mkstemp",
         "tempfile.mkdtemp", "mmap.__new__")


class Audit:
    """What a call does to the world outside the process."""
    on = False
    seen = []

    @classmethod
    def hook(cls, event, args):
        if not cls.on:
            return
        if event in TOUCH:
            cls.seen.append(f"{event} {args!r}"[:200])
        elif event == "open":
            path, mode, flags = args
            flags = flags if isinstance(flags, int) else 0
            if flags & WRITES or isinstance(mode, str) and set(mode) & set("wax+"):
                cls.seen.append(f"opens {path!r} for writing")
            elif isinstance(path, (str, bytes)) and not isinstance(path, int):
                full = os.path.realpath(os.fsdecode(path)) + os.sep
                if not full.startswith(HARMLESS) and not full.endswith(
                        (".py/", ".pyc/", ".so/")):
                    cls.seen.append(f"reads {path!r}")


class Noise(io.TextIOBase):
    """A standard stream nobody reads; perhaps one that cannot be written."""
    encoding = "ascii"

    def __init__(self, broken):
        self.broken, self.got = broken, []

    def writable(self):
        return True

    def write(self, s):
        self.got.append(str(s)[:80])
        if self.broken:
            raise OSError(32, "Broken pipe")
        return len(s)


class Environ:
    """os.environ as GIRTH sees it: every variable it asks for is set."""
    value = None
    asked = set()

    @classmethod
    def install(cls):
        env = os._Environ
        real = env.__getitem__, env.__contains__

        def girth():
            f = sys._getframe(2)
            while f is not None and f.f_code.co_filename.endswith(
                    ("/os.py", "_collections_abc.py", "<frozen os>",
                     "<frozen _collections_abc>")):
                f = f.f_back
            return f is not None and f.f_code.co_filename.startswith(boot.REPO + os.sep)

        def getitem(self, key):
            if cls.value is not None and girth():
                cls.asked.add(str(key))
                return cls.value
            return real[0](self, key)

        def contains(self, key):
            if cls.value is not None and girth():
                cls.asked.add(str(key))
                return True
            return real[1](self, key)
        env.__getitem__, env.__contains__ = getitem, contains


def freeze(v, depth=0):
    """The caller's arrays, read-only from now on."""
    if isinstance(v, np.ndarray):
        v.setflags(write=False)
    elif isinstance(v, dict):
        for x in v.values():
            freeze(x)


PARTS = ("epoch", "tick", "grain", "jumps", "cpus", "pid", "variables", "folder", "print",
         "gc", "heap", "streams", "argv", "frozen", "depth")


def draw_env(r, parts):
    e = {}
    for part in parts:
        if part == "epoch":
            e[part] = r.choice([0.0, 1e9, 2.5e9, 4.1e9])
        elif part == "tick":            # seconds that pass per step
            e[part] = r.choice([0.0, 1.0, 60.0, 3600.0])
        elif part == "grain":
            e[part] = r.choice([0.015, 1.0, 1e9])
        elif part == "jumps":           # of the wall clock
            e[part] = sorted([r.random(), r.choice([-1e6, -3600.0, 1e5])]
                             for _ in range(r.choice([1, 2])))
        elif part == "cpus":
            e[part] = r.choice([None, 1, 1, 2, 64])
        elif part == "pid":
            e[part] = r.randrange(1 << 20)
        elif part == "variables":
            e[part] = r.choice(["", "0", "1", "2", "true", "x"])
        elif part == "folder":
            e[part] = r.choice(["empty", "gone", "readonly", "root"])
        elif part == "print":
            e[part] = r.choice([{"precision": 0}, {"threshold": 1, "edgeitems": 0},
                                {"suppress": True, "precision": 1}, {"legacy": "1.13"},
                                {"floatmode": "fixed", "precision": 1, "threshold": 3}])
        elif part == "gc":
            e[part] = r.choice([1, 5, 50, [r.random() for _ in range(4)]])
        elif part == "heap":
            e[part] = r.randrange(1, 20000)
        elif part == "streams":
            e[part] = r.choice(["broken", "none", "quiet"])
        elif part == "argv":
            e[part] = r.choice([[], ["x", "-v"], ["-m", "pytest"]])
        elif part == "depth":           # of the caller's stack
            e[part] = r.choice([50, 300])
        else:
            e[part] = True
    return e


def deep(n, fn):
    return fn() if n <= 0 else deep(n - 1, fn)


def probe():
    """In another interpreter: outcomes of the calls described on stdin."""
    boot.boot()
    sys.stdout.flush()
    doc = json.load(sys.stdin)
    out = []
    for p in doc["ops"]:
        r = world.reference(p)
        out.append([list(r["key"]), r["show"]])
    print("RESULT " + json.dumps(out), flush=True)
    os._exit(0)


class Environment:
    id, title = "C28", "results do not depend on the environment"
    runs = {"quick": 2000, "thorough": 40000}
    measure = "distinct cases: hash of the calls and the environment of a run"
    rule = ("one case = 1-4 calls (near-identical ones among them; one case in six a parallel "
            "bootstrap or polychoric correlation) in a drawn environment: clock epoch, speed, "
            "granularity and backward jumps, number of CPUs, process ids, environment "
            "variables the library asks for, working directory missing or read-only, numpy "
            "print options, garbage collection at drawn steps or very often, heap layout, "
            "closed or broken standard streams, program arguments, read-only inputs, depth of "
            "the caller's stack; one case in 40 makes 10-16 calls in another interpreter with "
            "other flags and hash seed; each call is compared bit for bit with the same call "
            "in the standard environment, and nothing may be printed, opened for writing, "
            "read outside the installation, started or connected; non-trivial = every call "
            "was made; distinct by hash of calls and environment")
    real = REAL[:2]
    stubs = STUBS
    assumptions = ["the numeric libraries themselves are kept at one code path and one thread",
                   "outside effects are those that raise Python audit events or pass through "
                   "sys.stdout and sys.stderr; warnings are filtered out by the caller"]

    def gen(self, idx, seed):
        r = world.rng_for(self.id, seed, idx)
        spec = {"entropy": r.randrange(1 << 30), "world": 0, "seq": [], "env": {}}
        if idx % 40 == 39:
            light = [n for n in ALL if ops.OPS[n]["group"] != "md"]
            return dict(spec, flags=r.choice(FLAGS), hashseed=r.randrange(1, 1 << 32),
                        seq=[ops.gen(r, light if i else ALL)
                             for i in range(r.randrange(10, 17))])
        parts = r.sample(PARTS, r.choice([1, 2, 3, 5, len(PARTS)]))
        if r.random() < 0.4:
            parts.append("tick")
        spec["env"] = draw_env(r, [x for x in PARTS if x in parts])
        if idx % 6 == 5:
            if r.random() < 0.5:
                c = dict(bootstrap.gen_call(r, ["quick", "quick", "poly"]), kind="bootstrap")
                c["iters"], c["n"] = r.choice([3, 5, 7]), r.choice([2, 3, 5])
                if c["seed"] == "none":
                    c["seed"] = 3
            else:
                c = parallel.gen_poly(r)
            spec["env"].update(draw_env(r, ["cpus"]))
            spec["env"].pop("jumps", None)
            return dict(spec, par=c, method=r.choice(["fork", "spawn"]))
        p = ops.gen(r, [ALL[idx % len(ALL)]])
        n = 1 if ops.OPS[p["op"]]["group"] == "md" else r.choice([1, 2, 2, 3])
        for i in range(n):
            spec["seq"].append(p)
            p = ops.neighbour(r, p) if r.random() < 0.8 else p
        return spec

    def run(self, spec):
        if spec.get("flags") is not None:
            return self.other(spec)
        env = spec["env"]
        par = spec.get("par")
        refs = world.Refs()
        if par:
            ref = parallel.solo(par, par["n"], spec["method"])
            steps = ref["total"]
            todo = [(lambda: parallel.Poly(par), ref, parallel.show(par))]
        else:
            steps = sum(refs[p]["steps"] for p in spec["seq"])
            todo = [((lambda p=p: ops.build(p)), refs[p], show_op(p)) for p in spec["seq"]]
        scratch = tempfile.mkdtemp(prefix="simenv-")
        tempfile.tempdir = os.environ["HOME"] = os.environ["TMPDIR"] = scratch
        Environ.install()
        sys.addaudithook(Audit.hook)
        streams = {w: Noise(env["streams"] == "broken") if env.get("streams") != "none"
                   else None for w in ("stdout", "stderr")} if "streams" in env else {
                       "stdout": Noise(False), "stderr": Noise(False)}
        count = {"calls": 0, "collections": 0, "variables asked for": 0}
        collections = []

        def go():
            k = Kernel.current
            base = process_state()
            keep = []
            for n, (make, ref, what) in enumerate(todo):
                k.mute = True
                call = make()
                if "heap" in env:
                    keep.append([bytearray(16 + i % 200) for i in range(env["heap"])])
                    del keep[-1][::3]
                if env.get("frozen"):
                    for x in ([call.data] if par else call.inputs()):
                        freeze(x)
                if isinstance(env.get("gc"), list) and not par:
                    arm(k, [{"kind": "nest", "step": 1 + int(f * ref["steps"])}
                            for f in env["gc"]])
                elif "gc" in env and not isinstance(env["gc"], list):
                    gc.set_threshold(env["gc"], 2, 2)
                    gc.enable()
                old = sys.stdout, sys.stderr, sys.argv
                sys.stdout, sys.stderr = streams["stdout"], streams["stderr"]
                if "argv" in env:
                    sys.argv = list(env["argv"])
                Environ.value = env.get("variables")
                Audit.on = True
                k.mute = False
                try:
                    o = deep(env.get("depth", 0), lambda: world.observe(call))
                finally:
                    Audit.on = False
                    Environ.value = None
                    sys.stdout, sys.stderr, sys.argv = old
                gc.disable()
                k.mute = True
                disarm(k)
                count["calls"] += 1
                if o.as_key() != tuple(ref["key"]):
                    return viol("depends-on-environment",
                                f"call {n} {what} returned {o.show}; in the standard "
                                f"environment {ref['show']}")
                if Audit.seen:
                    return viol("outside-effect", f"call {n} {what}: {Audit.seen[0]}")
                for w, s in streams.items():
                    if s is not None and s.got:
                        return viol("prints", f"call {n} {what} writes {s.got[0]!r} to {w}")
                bad = diff_state(base, process_state())
                if bad:
                    return viol("process-state", f"call {n} {what} changes {', '.join(bad)}")
                k.mute = False
            return None

        cwd = os.getcwd()
        ran = dict(spec, sched={}, epoch=env.get("epoch", 1.7e9), grain=env.get("grain", 0.0),
                   world=env.get("pid", 0))
        try:
            folder = env.get("folder")
            if folder == "root":
                os.chdir("/")
            elif folder:
                sub = os.path.join(scratch, folder)
                os.mkdir(sub, 0o555 if folder == "readonly" else 0o755)
                os.chdir(sub)
                if folder == "gone":
                    os.rmdir(sub)
            if "print" in env:
                np.set_printoptions(**env["print"])

            def prepare(k):
                k.nested = lambda f: (collections.append(1), gc.collect())
                k.tick = env.get("tick", 1e-6)
                k.jumps = [(1 + int(f * steps), d) for f, d in env.get("jumps", ())]
                if "cpus" in env:
                    k.cpus = env["cpus"]
            k = world.run_tasks(ran, [("m0", go)], prepare=prepare,
                                max_steps=MAXSTEPS * steps + 2_000_000)
        finally:
            os.chdir(cwd)
            np.set_printoptions(threshold=1000)
            shutil.rmtree(scratch)
        count["collections"] = len(collections)
        count["variables asked for"] = len(Environ.asked)
        t = k.tasks[0]
        if k.status in ("deadlock", "stepcap"):
            v = viol("hang", f"calls do not end ({k.status}): " + "; ".join(k.describe()))
        elif t.exc is not None:
            raise world.HarnessError(f"harness failure {t.exc!r}")
        else:
            v = t.result
        if v is not None:
            v["trace"] = [w for _, _, w in todo] + [
                f"environment: {a} = {b}" for a, b in env.items()] + [
                f"variables asked for: {sorted(Environ.asked)}"] * bool(Environ.asked)
        return self.report(spec, k, v, count)

    def report(self, spec, k, v, count):
        st = kernel_stats(k, nontrivial=False, probes=dict(count, **{
            f"environment with {a}": 1 for a in spec["env"]}), extra={"calls": count["calls"]})
        st["hashes"] = [short(canon(world.dumps(
            [spec["seq"], spec.get("par"), spec["env"], spec.get("flags")])))]
        return {"violation": v, "replay_spec": spec, "stats": st}

    def other(self, spec):
        """The same calls in another interpreter."""
        refs = world.Refs()
        env = dict(os.environ, PYTHONHASHSEED=str(spec["hashseed"]), SIM_REPO=boot.REPO)
        code = ("import sys; sys.path[:0] = [%r] + %r; from checks.envs import probe; probe()"
                % (VERIF, [p for p in sys.path if p.endswith("site-packages")]))
        cmd = ["timeout", "200", sys.executable, *spec["flags"], "-c", code]
        res = subprocess.run(cmd, input=json.dumps({"ops": spec["seq"]}), text=True,
                             capture_output=True, env=env, cwd="/")
        line = [x for x in res.stdout.splitlines() if x.startswith("RESULT ")]
        v, count = None, {"calls": len(spec["seq"]), "other interpreters": 1}
        if not line:
            raise world.HarnessError(f"interpreter {spec['flags']} gave no answer: "
                                     f"{res.returncode} {res.stderr[-1500:]}")
        for p, (key, show) in zip(spec["seq"], json.loads(line[0][7:])):
            if tuple(key) != refs[p]["key"]:
                v = viol("depends-on-interpreter", f"{show_op(p)} gave {show} under python "
                         f"{' '.join(spec['flags'])} with hash seed {spec['hashseed']}; "
                         f"{refs[p]['show']} in the standard one")
                v["trace"] = [show_op(p)]
                break
        k = world.run_tasks({"sched": {}}, [("m0", lambda: None)])
        return self.report(spec, k, v, count)

    def shrink(self, spec):
        seq, env = spec["seq"], spec["env"]
        for size in (len(seq) // 2, 1):
            if size:
                for i in range(0, len(seq), size):
                    if len(seq) > size:
                        yield dict(spec, seq=seq[:i] + seq[i + size:])
        for a in env:
            yield dict(spec, env={x: y for x, y in env.items() if x != a})
        for i, p in enumerate(seq):
            for q in shrink_op(p):
                yield dict(spec, seq=seq[:i] + [q] + seq[i + 1:])
        if spec.get("flags"):
            yield dict(spec, flags=[])


CHECKS = {"C28": Environment()}
