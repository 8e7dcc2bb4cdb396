"""Deterministic scheduler.

Tasks (caller threads, pool workers, pool managers) are real Python threads,
but exactly one of them holds the baton at any time.  Every line and call
executed inside GIRTH is an event (sys.monitoring); at an event, and whenever
a task blocks on a simulated primitive, the kernel may hand the baton over,
inject a fault or end the run.  All choices come from one policy object, so a
run is a pure function of its specification.
"""
import _thread
import hashlib
import random
import sys
import traceback

INF = float("inf")
_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
get_ident = _thread.get_ident


class SimError(BaseException):
    """Base of harness conditions; BaseException so that GIRTH cannot swallow it."""


class SimDeadlock(SimError):
    """A simulated primitive would block for ever."""


class SimUnsupported(SimError):
    """GIRTH used something the simulator does not model: no verdict."""


class Freeze(SimError):
    """Never raised: marks a frozen task."""


class Task:
    __slots__ = ("name", "fn", "proc", "fg", "steps", "next", "baton", "started",
                 "done", "killed", "pred", "deadline", "stall", "pending", "why",
                 "nforced", "nwaits", "result", "exc", "faults", "nchild",
                 "sentinel", "wait_faults", "role", "interrupted", "armed", "hits", "lib", "due", "starting")

    def __init__(self, name, fn, proc, fg, role):
        self.name, self.fn, self.proc, self.fg, self.role = name, fn, proc, fg, role
        self.steps = 0
        self.next = self.due = INF
        self.baton = _real_alloc()
        self.baton.acquire()
        self.started = self.done = self.killed = False
        self.pred = self.deadline = self.pending = self.why = None
        self.stall = 0.0
        self.nforced = self.nwaits = self.nchild = 0
        self.result = self.exc = None
        self.faults = []
        self.wait_faults = {}
        self.starting = False
        self.sentinel = None
        self.interrupted = False
        self.armed = None
        self.hits = self.lib = None

    def alive(self):
        return not (self.done or self.killed)


# ------------------------------------------------------------------ policies
class Policy:
    """Base: never preempt, forced switches go to the oldest runnable task."""
    sites = None

    def gap(self, task):
        return INF

    def choose(self, task, runnable):
        return runnable[0]

    def forced(self, task, runnable):
        return runnable[0]


class RandomPolicy(Policy):
    """Swarm of scheduling styles; spec = {"style":..., "seed":..., ...}."""

    def __init__(self, spec):
        self.spec = spec
        self.rng = random.Random(spec["seed"])
        self.style = spec["style"]
        self.mean = spec.get("mean", 10)
        self.budget = spec.get("budget", 3000)
        self.sites = None
        if self.style == "site":
            self.sites = {tuple(s) for s in spec["sites"]}
            self.p = spec.get("p", 0.5)

    def gap(self, task):
        if self.budget <= 0:
            return INF
        style, rng = self.style, self.rng
        if style == "gap":
            return 1 + int(rng.expovariate(1.0 / self.mean))
        if style == "mixed":
            return 1 + int(2 ** rng.uniform(0, self.spec.get("log2max", 13)))
        if style == "burst":
            # stretches of fine interleaving separated by long quiet ones
            if rng.random() < 0.03:
                return 1 + int(rng.expovariate(1.0 / (self.mean * 200)))
            return 1 + int(rng.expovariate(1.0 / 3))
        if style == "site":
            return INF
        return INF

    def choose(self, task, runnable):
        self.budget -= 1
        others = [t for t in runnable if t is not task]
        if not others:
            return task
        return self.rng.choice(others)

    def at_site(self):
        return self.budget > 0 and self.rng.random() < self.p

    def forced(self, task, runnable):
        if self.style == "serial":
            return runnable[0]
        return self.rng.choice(runnable)


class TablePolicy(Policy):
    """Replays recorded decisions; anything not in the table is the default."""

    def __init__(self, decisions):
        self.pre, self.frc = {}, {}
        for kind, task, at, target in decisions:
            if kind == "p":
                self.pre.setdefault(task, []).append((at, target))
            else:
                self.frc[(task, at)] = target
        for lst in self.pre.values():
            lst.sort()
        self.pos = {}

    def gap(self, task):
        lst = self.pre.get(task.name)
        if not lst:
            return INF
        pos = self.pos.get(task.name, 0)
        while pos < len(lst) and lst[pos][0] <= task.steps:
            pos += 1
        self.pos[task.name] = pos
        return lst[pos][0] - task.steps if pos < len(lst) else INF

    def choose(self, task, runnable):
        for at, target in self.pre.get(task.name, ()):
            if at == task.steps:
                for cand in runnable:
                    if cand.name == target:
                        return cand
        return task

    def forced(self, task, runnable):
        target = self.frc.get((task.name, task.nforced) if task else ("", 0))
        for cand in runnable:
            if cand.name == target:
                return cand
        return runnable[0]


def make_policy(spec):
    if "decisions" in spec:
        return TablePolicy(spec["decisions"])
    if spec.get("style") in (None, "serial"):
        return RandomPolicy({"style": "serial", "seed": 0})
    return RandomPolicy(spec)


# -------------------------------------------------------------------- kernel
class Kernel:
    current = None          # the kernel that is running, if any

    def __init__(self, policy=None, max_steps=50_000_000, faults=(), epoch=1.7e9,
                 procs=None, profile=False):
        self.policy = policy or Policy()
        self.max_steps = max_steps
        self.tasks = []
        self.by_name = {}
        self.cur = None
        self.now = 0.0
        self.epoch = epoch
        self.total = 0
        self.switches = 0
        self.decisions = []
        self.status = None
        self.harness = _real_alloc()
        self.harness.acquire()
        self.fault_specs = [dict(f) for f in faults]
        self.fired = []            # faults that took effect
        self.procs = procs         # process-image manager (sim.procs)
        self.cpus = 4
        self.log = hashlib.blake2b(digest_size=12)
        self.nlog = 0
        self.profile = profile
        self.extra_error = None
        self.forced_count = 0
        self.mute = False
        self.late = []             # interrupts to deliver while a task is blocked
        self.max_forced = 200_000
        self.grain = 0.0           # granularity of the clock, in seconds
        self.tick = 1e-6           # seconds that pass per step
        self.jumps = []            # (step, seconds): jumps of the wall clock
        self.nested = None         # runs the nested call of a "nest" fault

    def __deepcopy__(self, memo):
        return self

    # -- logging: a running hash, never touches the policy ------------------
    def note(self, *what):
        self.nlog += 1
        self.log.update(repr(what).encode())

    # -- tasks ---------------------------------------------------------------
    def spawn(self, name, fn, proc=None, fg=False, role="thread"):
        if proc is None:
            proc = self.cur.proc if self.cur else (self.procs.root if self.procs else None)
        assert name not in self.by_name, name
        t = Task(name, fn, proc, fg, role)
        if self.profile:
            t.hits, t.lib = {}, {}
        for f in self.fault_specs:
            if f.get("task") == name:
                if "wait" in f:
                    t.wait_faults[f["wait"]] = f
                elif "step" in f:
                    t.faults.append(f)
        t.faults.sort(key=lambda f: f["step"])
        self.tasks.append(t)
        self.by_name[name] = t
        self._set_next(t)
        self.note("spawn", name)
        return t

    def child_name(self, kind):
        parent = self.cur
        parent.nchild += 1
        return f"{parent.name}/{kind}{parent.nchild - 1}"

    def _set_next(self, t):
        gap = self.policy.gap(t)
        nxt = t.steps + gap
        if t.faults and t.faults[0]["step"] < nxt:
            nxt = max(t.faults[0]["step"], t.steps + 1)
        t.due = nxt
        self._cap(t)

    def _cap(self, t):
        """The next event; in any case one when the step bound may be reached."""
        left = self.max_steps - self.total
        t.next = min(t.due, t.steps + (left if left > 0 else 0) + 1)

    def limit(self, steps):
        """The current task may take so many further steps."""
        self.max_steps = self.total + steps
        self._cap(self.cur)

    # -- run -------------------------------------------------------------
    def run(self):
        Kernel.current = self
        try:
            first = self._pick(None)
            if first is None:
                self.status = "ok"
            else:
                self._handover(first)
                self.harness.acquire()
        finally:
            Kernel.current = None
            if self.procs:
                self.procs.enter(self.procs.root)
        return self.status

    def runnable(self):
        now = self.now
        if self.late:
            for item in list(self.late):
                if self.total >= item[1]:
                    self._fire_late(item)
        out = []
        for t in self.tasks:
            if t.done or t.killed or t.stall > now:
                continue
            if (t.pred is None or t.pending is not None or t.pred()
                    or (t.deadline is not None and t.deadline <= now)):
                out.append(t)
        return out

    def _pick(self, cur):
        """Forced choice of the next task; None when nothing can ever run."""
        self.forced_count += 1
        while True:
            run = self.runnable()
            if run:
                break
            if self.late:
                self._fire_late(self.late[0])
                continue
            fg = [t for t in self.tasks if t.fg and t.alive()]
            pool = self.tasks if fg else [t for t in self.tasks if t.stall > self.now]
            times = [max(t.stall, self.now) if t.stall > self.now else t.deadline
                     for t in pool if t.alive()
                     and (t.stall > self.now or t.deadline is not None)]
            if not times:
                return None
            self.now = min(times)
        if len(run) == 1:
            target = run[0]
        else:
            target = self.policy.forced(cur, run)
            self.decisions.append(("f", cur.name if cur else "", cur.nforced if cur else 0,
                                   target.name))
        if cur is not None:
            cur.nforced += 1
        return target

    def _fire_late(self, item):
        self.late.remove(item)
        t, _, f = item
        if t.alive() and t.pred is not None and not t.starting:
            self.fired.append(dict(f, why=t.why))
            self.note("fault", f["kind"], t.name, "late")
            t.interrupted = True
            t.pending = KeyboardInterrupt()

    def _handover(self, target):
        self.switches += 1
        prev = self.cur
        if self.procs and target.proc is not self.procs.cur:
            self.procs.enter(target.proc)
        self.cur = target
        self.log.update(f"{target.name}@{target.steps}".encode())
        if not target.started:
            target.started = True
            _real_start(self._boot, (target,))
        else:
            target.baton.release()
        return prev

    def _boot(self, t):
        try:
            t.result = t.fn()
        except SimError as e:
            t.exc = e
            if isinstance(e, SimUnsupported):
                self.extra_error = "".join(traceback.format_exception(e))[-3000:]
                self._stop("unsupported")
                return
        except BaseException as e:      # noqa
            t.exc = e
        self._end(t)

    def _end(self, t):
        t.done = True
        if t.sentinel is not None:
            t.sentinel._l = False
        self.note("end", t.name, t.steps)
        nxt = self._pick(t)
        if nxt is None:
            self._finish()
        else:
            self._handover(nxt)

    def _finish(self):
        fg = [t for t in self.tasks if t.fg and t.alive()]
        self._stop("deadlock" if fg else "ok")

    def _stop(self, status):
        if self.status is None:
            self.status = status
            self.harness.release()

    def _park(self, t):
        t.baton.acquire()

    def freeze_current(self):
        """The current task never runs again (it was killed)."""
        t = self.cur
        nxt = self._pick(t)
        if nxt is None:
            self._finish()
        else:
            self._handover(nxt)
        while True:
            t.baton.acquire()

    # -- blocking ----------------------------------------------------------
    def block(self, pred, deadline=None, why=""):
        """Block the current task until pred() or the deadline; True if pred()."""
        t = self.cur
        if self.forced_count > self.max_forced:
            self._stop("stepcap")
            while True:
                t.baton.acquire()
        f = None
        if not t.starting:           # waiting for a new thread's first breath is no strike point
            t.nwaits += 1
            f = t.wait_faults.pop(t.nwaits, None)
        if f is not None:
            if f["kind"] == "kill":
                self.fired.append(dict(f))
                self.note("fault", "kill", t.name, "wait", t.nwaits)
                self.procs.kill(t.proc, "killed")
                if t.killed:
                    self.freeze_current()
            elif f["kind"] == "kbd" and f.get("delay"):
                self.late.append((t, self.total + f["delay"], f))
            elif f["kind"] == "kbd":
                self.fired.append(dict(f, why=why))
                self.note("fault", f["kind"], t.name, "wait", t.nwaits)
                t.interrupted = True
                raise KeyboardInterrupt()
            if f["kind"] == "stall":
                self.fired.append(dict(f))
                t.stall = self.now + f.get("dur", 1.0)
        t.pred, t.deadline, t.why = pred, deadline, why
        nxt = self._pick(t)
        if nxt is None:
            self._finish()
            while True:
                t.baton.acquire()
        if nxt is not t:
            self._handover(nxt)
            t.baton.acquire()
        t.pred = t.deadline = t.why = None
        if self.late:
            self.late = [i for i in self.late if i[0] is not t]
        if t.pending is not None:
            exc, t.pending = t.pending, None
            raise exc
        return bool(pred())

    def sleep(self, dt):
        self.block(lambda: False, self.now + max(0.0, dt), "sleep")

    def preempt(self):
        """A scheduling point (and fault point) in a stub."""
        t = self.cur
        t.steps += 1
        self.total += 1
        if t.steps >= t.next:
            self._event(t, "stub", None, 0, None)

    # -- events --------------------------------------------------------------
    def _event(self, t, kind, code, pos, func):
        # faults due at this step
        while t.faults and t.faults[0]["step"] <= t.steps:
            f = t.faults[0]
            k = f["kind"]
            if k in ("linalg", "opt"):
                t.faults.pop(0)
                t.armed = f
                continue
            t.faults.pop(0)
            self._set_next(t)
            self.fired.append(dict(f))
            self.note("fault", k, t.name, t.steps)
            self._inject(t, f)
            return
        if self.total > self.max_steps:
            self._stop("stepcap")
            while True:
                t.baton.acquire()
        if t.steps < t.due and kind != "site":
            self._cap(t)
            return
        run = self.runnable()
        if len(run) > 1:
            target = self.policy.choose(t, run)
            if target is not t:
                self.decisions.append(("p", t.name, t.steps, target.name))
                self._set_next(t)
                self._handover(target)
                t.baton.acquire()
                return
        self._set_next(t)

    def _inject(self, t, f):
        k = f["kind"]
        if k == "kbd":
            t.interrupted = True
            raise KeyboardInterrupt()
        if k == "mem":
            raise MemoryError("simulated allocation failure")
        if k == "err":
            raise failure(f.get("exc"))
        if k == "stall":
            t.stall = self.now + f.get("dur", 1.0)
            nxt = self._pick(t)
            if nxt is not t:
                self._handover(nxt)
                t.baton.acquire()
            return
        if k == "kill":
            self.procs.kill(t.proc, "killed")
            if t.killed:
                self.freeze_current()
            return
        if k == "nest":
            self.nested(f)          # another call from inside this one, same thread
            return
        raise SimUnsupported(f"fault kind {k}")

    def _armed_call(self, t, func):
        f = t.armed
        if _library(func) != f["kind"]:
            return
        if f.get("always") == "same":   # every call of the function that fails first
            if func is not f.setdefault("func", func):
                return
        elif not f.get("always"):       # else every such call from now on fails
            t.armed = None
        self.fired.append({a: b for a, b in f.items() if a != "func"})
        self.note("fault", f["kind"], t.name, t.steps)
        raise failure(f.get("exc") or
                      ("LinAlgError" if f["kind"] == "linalg" else "RuntimeError"))

    def describe(self):
        frames = sys._current_frames()
        del frames
        out = []
        for t in self.tasks:
            state = ("done" if t.done else "killed" if t.killed else
                     f"waiting: {t.why}" if t.pred else "ready")
            out.append(f"{t.name} [{t.role}] step {t.steps}: {state}")
        return out


class SimulatedFailure(Exception):
    """An ordinary exception raised by an injected fault."""


# what numeric code, the operating system and callbacks really raise
FAILURES = ["SimulatedFailure", "ValueError", "LinAlgError", "RuntimeError", "OSError",
            "FloatingPointError", "ZeroDivisionError", "OverflowError", "ArithmeticError",
            "TypeError", "TimeoutError"]
LIB_FAILURES = {"linalg": ["LinAlgError", "LinAlgError", "ValueError", "MemoryError",
                           "FloatingPointError"],
                "opt": ["RuntimeError", "ValueError", "LinAlgError", "FloatingPointError",
                        "ZeroDivisionError", "OverflowError", "MemoryError"]}


def failure(name=None):
    """An injected exception of the named class."""
    import builtins
    import numpy as np
    if name == "LinAlgError":
        return np.linalg.LinAlgError("simulated failure")
    if name in (None, "SimulatedFailure"):
        return SimulatedFailure("simulated failure")
    return getattr(builtins, name)("simulated failure")


# -------------------------------------------------------------- event source
TOOL = 4
_mon = sys.monitoring
_E = _mon.events


def _on_line(code, line):
    k = Kernel.current
    if k is None or k.mute:
        return
    t = k.cur
    t.steps += 1
    k.total += 1
    if t.hits is not None:
        _count(t.hits, (code.co_filename, code.co_name, line), t.steps)
    if t.steps >= t.next:
        k._event(t, "line", code, line, None)
    elif k.policy.sites is not None and (code.co_name, line) in k.policy.sites:
        if k.policy.at_site():
            k._event(t, "site", code, line, None)


def _count(hits, key, step):
    """[number of hits, first, then some later ones (powers of two) and the last]"""
    h = hits.get(key)
    if h is None:
        hits[key] = [1, step]
        return
    h[0] += 1
    n = h[0]
    if len(h) > 2 and (n - 1) & (n - 2):
        h[-1] = step
    else:
        h.append(step)


def _library(func):
    """Which failing library call this is: "linalg", "opt" or None."""
    if isinstance(func, type):
        return None
    mod = getattr(func, "__module__", None) or ""
    if mod.startswith(("numpy.linalg", "scipy.linalg")):
        return "linalg"
    if mod.startswith("scipy.optimize"):
        return "opt"
    return None


def _on_call(code, offset, func, arg0):
    k = Kernel.current
    if k is None or k.mute:
        return
    t = k.cur
    t.steps += 1
    k.total += 1
    if t.lib is not None:
        kind = _library(func)
        if kind:
            _count(t.lib, (kind, code.co_filename, code.co_name, offset), t.steps)
    if t.steps >= t.next:
        k._event(t, "call", code, offset, func)
    if t.armed is not None:
        k._armed_call(t, func)


def install_events(codes):
    _mon.use_tool_id(TOOL, "girth-sim")
    _mon.register_callback(TOOL, _E.LINE, _on_line)
    _mon.register_callback(TOOL, _E.CALL, _on_call)
    add_events(codes)


def add_events(codes):
    for c in codes:
        _mon.set_local_events(TOOL, c, _E.LINE | _E.CALL)


def events(codes, on):
    """Switch the events of some code on or off (when nothing can happen there)."""
    for c in codes:
        _mon.set_local_events(TOOL, c, (_E.LINE | _E.CALL) if on else 0)
