"""Simulated processes, executors, pools and shared memory.

A simulated process has its own image of the GIRTH modules (imported afresh
for "spawn", plus a copy of the parent's module data for "fork"), its own
global random state and pid.  Everything that crosses a process boundary is
pickled and unpickled.  The stubs follow the observable behaviour of CPython's
concurrent.futures.process, multiprocessing.pool and shared_memory.
"""
import concurrent.futures
import concurrent.futures.process as cfp
import copy
import ctypes
import importlib.util
import multiprocessing
import multiprocessing.managers
import multiprocessing.pool
import multiprocessing.shared_memory
import os
import pickle
import queue
import random
import struct
import sys
import threading
import types
import weakref
from concurrent.futures import _base
from concurrent.futures.process import BrokenProcessPool, _get_chunks, _process_chunk
from functools import partial

import numpy as np

from .kernel import Kernel, SimUnsupported, SimulatedFailure, SimError
from . import prims
from .prims import SimLock, SimRLock

PAGE = 4096


def _girth_names():
    return [n for n in sys.modules if n == "girth" or n.startswith("girth.")]


def _mt_state():
    """Address and size of numpy's global MT19937 state (key[624], pos)."""
    bg = np.random.mtrand._rand._bit_generator
    if type(bg).__name__ != "MT19937":
        raise SimUnsupported("numpy's global generator was replaced")
    return bg.ctypes.state_address, 2500


class SimProc:
    def __init__(self, name, pid):
        self.name, self.pid = name, pid
        self.mods = None
        self.nprand = None
        self.pyrand = None
        self.dead = None
        self.maps = []              # shared-memory handles
        self.on_death = None
        self.locals = []
        self.parent, self.number, self.children, self.method = None, (), 0, None

    def inherit(self):
        """Thread-local values, taken over by the first thread of a fork."""
        for obj, values in self.locals:
            vars(obj).update(values)
        self.locals = []


class Procs:
    """All simulated processes of one run; the current one is swapped in."""

    def __init__(self, seed=0):
        self.rng = random.Random(f"procs-{seed}")
        self.root = SimProc("main", 10_000 + self.rng.randrange(50_000))
        self.cur = self.root
        self.all = [self.root]
        self.registry = {}          # shared-memory segments by name
        self.shm_seq = 0
        self.shm_log = []
        self.managers = 0
        self._nmods = -1
        self.manager_seq = 0
        self.pools = []
        self.start_method = "fork"
        self.shm_round = True
        self.op_faults = {}         # (kind, ordinal) -> fault
        self.op_counts = {}

    # -- images ----------------------------------------------------------
    def enter(self, proc):
        old = self.cur
        if old is proc:
            return
        mods = sys.modules
        if old.mods is None or len(mods) != self._nmods:
            old.mods = {n: mods[n] for n in _girth_names()}
        else:
            for n in old.mods:
                old.mods[n] = mods[n]
        for n in old.mods:
            if n not in proc.mods:
                del mods[n]
        mods.update(proc.mods)
        self._nmods = len(mods)
        addr, size = _mt_state()
        old.nprand = ctypes.string_at(addr, size)
        ctypes.memmove(addr, proc.nprand, size)
        old.pyrand = random.getstate()
        if proc.pyrand != old.pyrand:
            random.setstate(proc.pyrand)
        self.cur = proc

    def new_proc(self, name, method):
        parent = self.cur
        p = SimProc(name, 60_000 + self.rng.randrange(1_000_000))
        parent.children += 1
        p.parent, p.number, p.method = parent, parent.number + (parent.children,), method
        names = _girth_names()
        saved = {n: sys.modules.pop(n) for n in names}
        addr, size = _mt_state()
        rs, prs = ctypes.string_at(addr, size), random.getstate()
        k = Kernel.current
        mute, k.mute = k.mute, True
        try:
            for n in names:
                importlib.import_module(n)
            p.mods = {n: sys.modules.pop(n) for n in _girth_names()}
        finally:
            k.mute = mute
            for n in _girth_names():
                del sys.modules[n]
            sys.modules.update(saved)
        if method == "fork":
            k.mute = True
            try:
                p.locals = self._copy_data(saved, p.mods)
            finally:
                k.mute = mute
            p.nprand, p.pyrand = rs, prs
        else:
            r = random.Random(self.rng.random())
            p.pyrand = r.getstate()
            key = [r.getrandbits(32) for _ in range(624)] + [624]
            p.nprand = struct.pack("=625I", *key)
        ctypes.memmove(addr, rs, size)
        random.setstate(prs)
        self.all.append(p)
        return p

    @staticmethod
    def _copy_data(src, dst):
        """What a forked process inherits: module, class and function data."""
        skip = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type,
                np.ufunc)
        memo, pairs, locals_ = {}, [], []
        for n, mod in src.items():
            tgt = dst.get(n)
            if tgt is None:
                continue
            for key, val in vars(mod).items():
                new = vars(tgt).get(key)
                if isinstance(val, (type, types.FunctionType)) and type(val) is type(new):
                    memo[id(val)] = new
                    if str(getattr(val, "__module__", "")).startswith("girth"):
                        pairs.append((val, new))

        def put(val, setter):
            if isinstance(val, threading.local):
                # values of the forking thread, the only one the child has
                new = threading.local()
                locals_.append((new, copy.deepcopy(dict(vars(val)), memo)))
                memo[id(val)] = new
                setter(new)
                return
            try:
                setter(copy.deepcopy(val, memo))
            except Exception:
                pass

        def function(a, b, depth=0):
            if a.__code__ is not b.__code__ or depth > 3:
                return
            for attr in ("__defaults__", "__kwdefaults__"):
                if getattr(a, attr):
                    put(getattr(a, attr), lambda v, attr=attr: setattr(b, attr, v))
            for key, val in vars(a).items():
                if not isinstance(val, skip):
                    put(val, lambda v, key=key: b.__dict__.__setitem__(key, v))
            for x, y in zip(a.__closure__ or (), b.__closure__ or ()):
                try:
                    val = x.cell_contents
                    new = y.cell_contents
                except ValueError:
                    continue
                if isinstance(val, types.FunctionType) and isinstance(new, types.FunctionType):
                    function(val, new, depth + 1)
                elif not isinstance(val, skip):
                    put(val, lambda v, y=y: setattr(y, "cell_contents", v))

        for n, mod in src.items():
            tgt = dst.get(n)
            if tgt is None:
                continue
            for key, val in list(vars(mod).items()):
                if not key.startswith("__") and not isinstance(val, skip):
                    put(val, lambda v: vars(tgt).__setitem__(key, v))
        for a, b in pairs:
            if isinstance(a, types.FunctionType):
                function(a, b)
                continue
            for key, val in list(vars(a).items()):
                if isinstance(val, types.FunctionType) and isinstance(
                        vars(b).get(key), types.FunctionType):
                    function(val, vars(b)[key])
                elif not key.startswith("__") and not isinstance(val, skip + (
                        property, classmethod, staticmethod, types.MemberDescriptorType,
                        types.GetSetDescriptorType)):
                    put(val, lambda v, key=key: setattr(b, key, v))
        return locals_

    # -- death -------------------------------------------------------------
    def kill(self, proc, why):
        if proc.dead:
            return
        if proc is self.root:
            raise SimUnsupported("kill of the main process")
        proc.dead = why
        k = Kernel.current
        for t in k.tasks:
            if t.proc is proc and t.alive():
                t.killed = True
        self.release_maps(proc)
        if proc.on_death:
            proc.on_death(proc, why)

    def exit(self, proc):
        if not proc.dead:
            proc.dead = "exited"
            self.release_maps(proc)

    def release_maps(self, proc):
        for seg in proc.maps:
            seg.handles -= 1
        proc.maps = []

    # -- failing operations (start, allocation, attach) ------------------
    def op(self, kind):
        """Count an operation; raise when the run's fault plan says so."""
        n = self.op_counts.get(kind, 0)
        self.op_counts[kind] = n + 1
        f = self.op_faults.get((kind, n))
        if f is not None:
            k = Kernel.current
            k.fired.append(dict(f))
            k.note("opfault", kind, n)
            if f.get("exc") == "kbd":
                k.cur.interrupted = True
                raise KeyboardInterrupt()
            if kind == "attach":
                raise FileNotFoundError(2, "simulated: No such file or directory")
            if kind == "shm":
                raise OSError(28, "simulated: No space left on device")
            raise OSError(11, "simulated: Resource temporarily unavailable")


def procs():
    k = Kernel.current
    if k is None:
        raise SimUnsupported("process or shared memory used outside the simulation")
    return k.procs


class _In:
    """Run a block in another process's image (a manager thread's work)."""

    def __init__(self, proc):
        self.proc = proc

    def __enter__(self):
        k = Kernel.current
        self.t = k.cur
        self.old = self.t.proc
        self.t.proc = self.proc
        k.procs.enter(self.proc)

    def __exit__(self, *exc):
        k = Kernel.current
        self.t.proc = self.old
        if self.t is k.cur:
            k.procs.enter(self.old)


class RemoteTraceback(Exception):
    pass


# --------------------------------------------------------------- pool core
class PoolCore:
    """Work queue, worker processes and a manager task."""

    def __init__(self, n, method, kind, initializer=None, initargs=(), tasks_per_child=None):
        k = Kernel.current
        if k is None:
            raise SimUnsupported("pool made outside the simulation")
        self.k, self.ps = k, k.procs
        self.n, self.kind = n, kind
        self.method = method or self.ps.start_method
        self.owner = k.cur.proc
        self.name = k.child_name(kind)
        self.initializer, self.initargs = initializer, initargs
        self.tasks_per_child = tasks_per_child
        self.pending = []           # (id, item)
        self.events = []            # to the manager
        self.workers = {}           # name -> proc
        self.running = {}           # worker name -> item
        self.nworker = 0
        self.started = False
        self.shutdown = False       # no new work, exit when drained
        self.stopping = False       # terminate: exit now
        self.broken = None
        self.manager = None
        self.ps.pools.append(self)

    def start(self):
        if self.started:
            return
        self.started = True
        try:
            for _ in range(self.n):
                self.start_worker()
        except BaseException:
            self.terminate_workers()
            self.stopping = self.shutdown = True
            raise
        self.manager = self.k.spawn(self.name + "/m", self._manage, self.owner,
                                    role="pool-manager")

    def start_worker(self):
        j = self.nworker
        self.nworker += 1
        self.ps.op("start")
        p = self.ps.new_proc(f"{self.name}/w{j}", self.method)
        p.on_death = self._died
        self.workers[p.name] = p
        p.image_snapshot = None
        task = self.k.spawn(p.name, lambda: self._work(p), p, role="worker")
        return task

    def submit_item(self, item):
        if self.k.cur.proc is not self.owner:
            return      # inherited by a fork: its threads and workers are the parent's
        self.pending.append(item)

    def __deepcopy__(self, memo):
        return self

    # worker side ---------------------------------------------------------
    def _idle_ready(self):
        return bool(self.pending) or self.stopping or self.shutdown

    def _work(self, p):
        p.inherit()
        try:
            self._loop(p)
        except SimError:
            raise
        except BaseException:       # a failure in the worker's own loop ends the process
            self.ps.kill(p, "crashed")
            self.k.freeze_current()

    def _loop(self, p):
        k = self.k
        k.preempt()
        if self.initializer is not None:
            try:
                with _In(self.owner):
                    data = pickle.dumps((self.initializer, self.initargs))
                fn, args = pickle.loads(data)
                fn(*args)
            except SimError:
                raise
            except BaseException:
                if self.kind == "ppe":
                    self.ps.kill(p, "initializer failed")
                    k.freeze_current()
                # multiprocessing.Pool: worker dies and is replaced for ever
                self.events.append(("exit", p, None))
                self.ps.exit(p)
                return
        count = 0
        while True:
            k.block(self._idle_ready, None, "worker idle")
            if self.stopping or (not self.pending and self.shutdown):
                break
            item = self.pending.pop(0)
            if not item.begin():
                continue
            self.running[p.name] = item
            try:
                with _In(self.owner):
                    data = item.dump()
            except SimError:
                raise
            except BaseException as e:
                self.running.pop(p.name, None)
                self.events.append(("error", item, e))
                continue
            del item        # a worker that dies here must not keep its caller alive
            k.preempt()
            try:
                call = pickle.loads(data)
            except SimError:
                raise
            except BaseException:
                # the real worker dies with the unpickling traceback
                self.ps.kill(p, "task could not be unpickled")
                k.freeze_current()
            try:
                ok, value = True, call()
            except SimError:
                raise
            except BaseException as e:
                if self.kind == "mp" and not isinstance(e, Exception):
                    raise           # multiprocessing.Pool's worker ends with it
                ok, value = False, e
                e.__traceback__ = None
            k.preempt()
            try:
                if ok and self.ps.op_faults.get(("unpicklable", p.name)):
                    f = self.ps.op_faults.pop(("unpicklable", p.name))
                    k.fired.append(dict(f))
                    raise pickle.PicklingError("simulated: result cannot be pickled")
                payload = pickle.dumps(value)
            except SimError:
                raise
            except BaseException as e:
                ok = False
                e.__traceback__ = None
                if self.kind == "mp":
                    e = multiprocessing.pool.MaybeEncodingError(e, repr(value)[:200])
                try:
                    payload = pickle.dumps(e)
                except BaseException as e2:
                    payload = pickle.dumps(RuntimeError(f"unpicklable error {e2!r}"))
            del call, value, data
            item = self.running.pop(p.name)
            self.events.append(("result" if ok else "fail", item, payload))
            del item, payload
            count += 1
            if self.tasks_per_child and count >= self.tasks_per_child:
                self.events.append(("exit", p, None))
                break
        self.ps.exit(p)
        self.workers.pop(p.name, None)

    def _died(self, proc, why):
        if proc.name not in self.workers:
            return
        self.workers.pop(proc.name)
        item = self.running.pop(proc.name, None)
        self.events.append(("death", proc, item))

    # manager side -----------------------------------------------------------
    def _manager_ready(self):
        return (bool(self.events) or self.stopping
                or (self.shutdown and not self.pending and not self.running
                    and not self.workers))

    def _manage(self):
        k = self.k
        while True:
            k.block(self._manager_ready, None, "pool manager")
            if not self.events:
                if self.stopping:
                    self.terminate_workers()
                break
            kind, a, b = self.events.pop(0)
            if kind == "result":
                try:
                    value = pickle.loads(b)
                except SimError:
                    raise
                except BaseException as e:
                    if self.kind == "ppe":
                        self._break(f"result could not be unpickled: {e!r}", extra=a)
                    continue        # multiprocessing.Pool: handler thread dies
                a.succeed(value)
                del value
            elif kind == "fail":
                a.fail(pickle.loads(b))
            elif kind == "error":
                a.fail(b)
            elif kind == "death":
                if self.kind == "ppe":
                    self._break("A process in the process pool was terminated abruptly "
                                "while the future was running or pending.", extra=b)
                elif not (self.shutdown and not self.pending):
                    self.start_worker()       # Pool repopulates; the task is lost
                elif not self.stopping and self.pending:
                    self.start_worker()
            elif kind == "exit":
                self.workers.pop(a.name, None)
                if not self.stopping and (self.pending or not self.shutdown):
                    self.start_worker()
            del a, b

    def _break(self, msg, extra=None):
        self.broken = msg
        items = ([extra] if extra is not None else []) + list(self.running.values()) \
            + self.pending
        self.pending, self.running = [], {}
        self.stopping = True
        self.terminate_workers()
        for it in items:
            it.fail(BrokenProcessPool(msg))

    def terminate_workers(self):
        for name, p in list(self.workers.items()):
            self.workers.pop(name, None)
            self.ps.kill(p, "terminated")

    def close(self, cancel=False):
        self.shutdown = True
        if cancel:
            keep = []
            for it in self.pending:
                if not it.cancel():
                    keep.append(it)
            self.pending = keep

    def wait(self):
        m = self.manager
        if m is not None and Kernel.current is not None:
            self.k.block(lambda: not m.alive(), None, "pool shutdown")

    def live(self):
        return [n for n, p in self.workers.items() if not p.dead]


class _Call:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def __call__(self):
        return self.fn(*self.args, **self.kwargs)

    def __reduce__(self):
        return (_Call, (self.fn, self.args, self.kwargs))


class _FutureItem:
    def __init__(self, future, fn, args, kwargs):
        self.f, self.call = future, _Call(fn, args, kwargs)

    def begin(self):
        return self.f.set_running_or_notify_cancel()

    def dump(self):
        return pickle.dumps(self.call)

    def _done(self):
        return self.f.done()

    def succeed(self, v):
        if not self.f.done():
            self.f.set_result(v)

    def fail(self, e):
        if self.f.done():
            return
        try:
            self.f.set_exception(e)
        except _base.InvalidStateError:
            pass

    def cancel(self):
        if self.f.cancel():
            self.f.set_running_or_notify_cancel()
            return True
        return False


# ------------------------------------------------ concurrent.futures stub
class SimProcessPoolExecutor(_base.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(),
                 *, max_tasks_per_child=None):
        if max_workers is None:
            max_workers = os.cpu_count() or 1
        elif max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        method = None
        if mp_context is not None:
            method = mp_context.get_start_method()
        elif max_tasks_per_child is not None:
            method = "spawn"
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        if max_tasks_per_child is not None and not isinstance(max_tasks_per_child, int):
            raise TypeError("max_tasks_per_child must be an integer")
        self._max_workers = max_workers
        self._core = PoolCore(max_workers, method, "ppe", initializer, initargs,
                              max_tasks_per_child)
        weakref.finalize(self, self._core.close).atexit = False

    def submit(self, fn, /, *args, **kwargs):
        core = self._core
        if core.broken:
            raise BrokenProcessPool(core.broken)
        if core.shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = _base.Future()
        core.submit_item(_FutureItem(f, fn, args, kwargs))
        core.start()
        return f

    submit.__doc__ = _base.Executor.submit.__doc__

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        results = super().map(partial(_process_chunk, fn),
                              _get_chunks(*iterables, chunksize=chunksize),
                              timeout=timeout)
        return cfp._chain_from_iterable_of_lists(results)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._core.close(cancel_futures)
        if wait:
            self._core.wait()


# ------------------------------------------------------ multiprocessing stub
class _PoolItem:
    """One chunk of a multiprocessing.Pool job."""

    def __init__(self, job, ndx, fn, chunk):
        self.job, self.ndx, self.call = job, ndx, _Call(_run_chunk, (fn, chunk), {})

    def begin(self):
        return True

    def dump(self):
        return pickle.dumps(self.call)

    def succeed(self, v):
        self.job.deliver(self.ndx, True, v)

    def fail(self, e):
        self.job.deliver(self.ndx, False, e)

    def cancel(self):
        return False


def _run_chunk(fn, chunk):
    return [fn(*args, **kw) for args, kw in chunk]


class _Job:
    def __init__(self, pool, n, single=False, callback=None, error_callback=None):
        self.pool, self.n, self.single = pool, n, single
        self.parts, self.error = {}, None
        self.order = []
        self.callback, self.error_callback = callback, error_callback

    def deliver(self, ndx, ok, v):
        if ndx in self.parts:
            return
        self.parts[ndx] = (ok, v)
        self.order.append(ndx)
        if not ok and self.error is None:
            self.error = v
        if self.ready():
            if self.error is not None and self.error_callback:
                self.error_callback(self.error)
            elif self.error is None and self.callback:
                self.callback(self._value())

    def ready(self):
        return self.error is not None or len(self.parts) == self.n

    def _value(self):
        out = [x for i in range(self.n) for x in self.parts[i][1]]
        return out[0] if self.single else out

    def wait(self, timeout=None):
        k = Kernel.current
        if not self.ready():
            k.block(self.ready, None if timeout is None else k.now + timeout, "pool result")

    def successful(self):
        if not self.ready():
            raise ValueError(f"{self!r} not ready")
        return self.error is None

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.ready():
            raise multiprocessing.TimeoutError
        if self.error is not None:
            raise self.error
        return self._value()


class _IMap:
    def __init__(self, job, ordered):
        self.job, self.ordered, self.ndx, self.buf = job, ordered, 0, []

    def __iter__(self):
        return self

    def __next__(self):
        job, k = self.job, Kernel.current
        while not self.buf:
            if self.ndx >= job.n:
                raise StopIteration
            want = self.ndx
            if self.ordered:
                ready = lambda: want in job.parts           # noqa: E731
            else:
                ready = lambda: len(job.order) > want       # noqa: E731
            if not ready():
                k.block(ready, None, "pool result")
            key = want if self.ordered else job.order[want]
            self.ndx += 1
            ok, v = job.parts[key]
            if not ok:
                raise v
            self.buf = list(v)
        return self.buf.pop(0)

    def next(self, timeout=None):
        return self.__next__()


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None):
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        method = context.get_start_method() if context is not None else None
        self._core = PoolCore(processes, method, "mp", initializer, initargs,
                              maxtasksperchild)
        weakref.finalize(self, _pool_terminate, self._core).atexit = False
        self._core.start()

    def _check(self):
        if self._core.shutdown or self._core.stopping:
            raise ValueError("Pool not running")

    def _submit(self, fn, calls, chunksize, single=False, callback=None, error_callback=None):
        self._check()
        calls = list(calls)
        if chunksize is None:
            chunksize, extra = divmod(len(calls), self._core.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        chunks = [calls[i:i + chunksize] for i in range(0, len(calls), chunksize)]
        job = _Job(self, len(chunks), single, callback, error_callback)
        for i, c in enumerate(chunks):
            self._core.submit_item(_PoolItem(job, i, fn, c))
        return job

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._submit(func, [(tuple(args), dict(kwds or {}))], 1, True,
                            callback, error_callback)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, [((x,), {}) for x in iterable], chunksize,
                            False, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._submit(func, [(tuple(x), {}) for x in iterable], chunksize,
                            False, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def imap(self, func, iterable, chunksize=1):
        return _IMap(self._submit(func, [((x,), {}) for x in iterable], chunksize), True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return _IMap(self._submit(func, [((x,), {}) for x in iterable], chunksize), False)

    def close(self):
        self._core.close()

    def terminate(self):
        _pool_terminate(self._core)

    def join(self):
        if not (self._core.shutdown or self._core.stopping):
            raise ValueError("Pool is still running")
        self._core.wait()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.terminate()


def _pool_terminate(core):
    core.shutdown = core.stopping = True
    core.pending = []
    if Kernel.current is not None:
        core.terminate_workers()


class SimProcess:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *,
                 daemon=None, _method=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name, self.daemon, self._method = name, daemon, _method
        self._proc = self._task = None
        self.exitcode = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        ps, k = procs(), Kernel.current
        ps.op("start")
        method = self._method or ps.start_method
        if type(self).run is SimProcess.run:
            call = _Call(self._target, self._args, self._kwargs)
        else:
            call = _Call(self.run, (), {})
        try:
            data = pickle.dumps(call)
        except Exception:
            if method != "fork":
                raise
            data = None          # a forked process has the objects themselves
        pname = k.child_name("proc")
        p = ps.new_proc(pname, method)
        p.on_death = self._died

        def main():
            p.inherit()
            try:
                (call if data is None else pickle.loads(data))()
                self.exitcode = 0
            except SystemExit as e:
                self.exitcode = e.code if isinstance(e.code, int) else 1
            except SimError:
                raise
            except BaseException:
                self.exitcode = 1
            ps.exit(p)

        self._proc = p
        self._task = k.spawn(pname, main, p, role="worker")
        ps.pools.append(self)
        # as the real one: avoid a reference cycle through the objects' owner
        self._target = self._args = self._kwargs = None

    def live(self):
        return [self._proc.name] if self._proc and not self._proc.dead else []

    def _died(self, proc, why):
        self.exitcode = -9 if why == "killed" else -15

    def join(self, timeout=None):
        k, t = Kernel.current, self._task
        k.block(lambda: not t.alive(), None if timeout is None else k.now + timeout, "join")

    def is_alive(self):
        return self._task is not None and self._task.alive()

    def terminate(self):
        if self._proc:
            procs().kill(self._proc, "terminated")

    kill = terminate

    def close(self):
        pass

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid


class SimQueue:
    def __init__(self, maxsize=0):
        self._items, self._max, self._reader = [], maxsize, self

    def put(self, obj, block=True, timeout=None):
        self._items.append(pickle.dumps(obj))
        Kernel.current.preempt()

    def get(self, block=True, timeout=None):
        k = Kernel.current
        if not self._items:
            if not block:
                raise queue.Empty
            if not k.block(lambda: bool(self._items),
                           None if timeout is None else k.now + timeout, "queue"):
                raise queue.Empty
        return pickle.loads(self._items.pop(0))

    def put_nowait(self, obj):
        self.put(obj)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._items

    def qsize(self):
        return len(self._items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close

    def __reduce__(self):
        _queues.setdefault(id(self), self)
        return (_queue_by_id, (id(self),))


def _wait_any(readers, timeout=None):
    """multiprocessing.connection.wait over simulated queues."""
    k = Kernel.current
    k.block(lambda: any(r._items for r in readers),
            None if timeout is None else k.now + timeout, "wait")
    return [r for r in readers if r._items]


_queues = {}


def _queue_by_id(i):
    return _queues[i]


class _Shared:
    """One object for all processes, as the kernel's semaphores are."""

    def __reduce__(self):
        _queues[id(self)] = self
        return (_queue_by_id, (id(self),))

    def __deepcopy__(self, memo):
        return self


def _shared(name, base):
    return type(name, (_Shared, base), {})


MPLock, MPRLock = _shared("Lock", SimLock), _shared("RLock", SimRLock)
MPSemaphore = _shared("Semaphore", threading.Semaphore)
MPBoundedSemaphore = _shared("BoundedSemaphore", threading.BoundedSemaphore)
MPEvent, MPBarrier = _shared("Event", threading.Event), _shared("Barrier", threading.Barrier)
MPCondition = _shared("Condition", threading.Condition)


def _ctype(code):
    from multiprocessing.sharedctypes import typecode_to_type
    return typecode_to_type.get(code, code)


def raw_value(code, *args):
    t = _ctype(code)
    return type("Raw_" + t.__name__, (_Shared, t), {})(*args)


def raw_array(code, init):
    t = _ctype(code)
    n = init if isinstance(init, int) else len(init)
    out = type("RawArray", (_Shared, t * n), {})()
    if not isinstance(init, int):
        out[:] = list(init)
    return out


class Synchronized(_Shared):
    def __init__(self, obj, lock):
        self._obj, self._lock = obj, MPRLock() if lock is True else lock
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def get_obj(self):
        return self._obj

    def get_lock(self):
        return self._lock

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *exc):
        return self._lock.__exit__(*exc)

    @property
    def value(self):
        return self._obj.value

    @value.setter
    def value(self, v):
        self._obj.value = v

    def __len__(self):
        return len(self._obj)

    def __getitem__(self, i):
        return self._obj[i]

    def __setitem__(self, i, v):
        self._obj[i] = v


def mp_value(code, *args, lock=True):
    raw = raw_value(code, *args)
    return raw if lock is False else Synchronized(raw, lock)


def mp_array(code, init, *, lock=True):
    raw = raw_array(code, init)
    return raw if lock is False else Synchronized(raw, lock)


class SimConnection(_Shared):
    def __init__(self):
        self._items, self.peer, self.closed = [], None, False

    def send(self, obj):
        if self.peer.closed:
            raise BrokenPipeError(32, "Broken pipe")
        self.peer._items.append(pickle.dumps(obj))
        Kernel.current.preempt()

    def recv(self):
        k = Kernel.current
        if not self._items:
            k.block(lambda: self._items or self.peer.closed, None, "pipe")
        if not self._items:
            raise EOFError
        return pickle.loads(self._items.pop(0))

    def poll(self, timeout=0.0):
        k = Kernel.current
        if not self._items and timeout != 0:
            k.block(lambda: bool(self._items), None if timeout is None else k.now + timeout,
                    "pipe")
        return bool(self._items)

    def close(self):
        pass        # each process closes its own copy; the ends live while both processes do

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


def mp_pipe(duplex=True):
    a, b = SimConnection(), SimConnection()
    a.peer, b.peer = b, a
    return a, b


PRIMITIVES = {"Lock": MPLock, "RLock": MPRLock, "Semaphore": MPSemaphore,
              "BoundedSemaphore": MPBoundedSemaphore, "Event": MPEvent, "Barrier": MPBarrier,
              "Condition": MPCondition, "Value": mp_value, "Array": mp_array,
              "RawValue": raw_value, "RawArray": raw_array, "Pipe": mp_pipe}


class SimContext:
    def __init__(self, method):
        self._method = method

    def get_start_method(self, allow_none=False):
        return self._method or procs().start_method

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild, self)

    def Process(self, *a, **kw):
        return SimProcess(*a, _method=self._method, **kw)

    def Queue(self, maxsize=0):
        return SimQueue(maxsize)

    JoinableQueue = Queue

    def SimpleQueue(self):
        return SimQueue()

    def cpu_count(self):
        return os.cpu_count()

    def Manager(self):
        raise SimUnsupported("multiprocessing.Manager")

    def get_context(self, method=None):
        return get_context(method)

    def __getattr__(self, name):
        if name in PRIMITIVES:
            return PRIMITIVES[name]
        raise SimUnsupported(f"multiprocessing context attribute {name}")


_contexts = {}


def get_context(method=None):
    if method not in (None, "fork", "spawn", "forkserver"):
        raise ValueError(f"cannot find context for {method!r}")
    # forkserver workers start from a clean image, like spawned ones
    m = "spawn" if method == "forkserver" else method
    if m not in _contexts:
        _contexts[m] = SimContext(m)
    return _contexts[m]


def _get_start_method(allow_none=False):
    return procs().start_method


def _set_start_method(method, force=False):
    procs().start_method = "fork" if method == "fork" else "spawn"


# --------------------------------------------------------------- shared memory
class Segment:
    def __init__(self, name, size):
        self.name, self.size = name, size
        self.data = bytearray(size)          # POSIX: zero-filled
        self.handles = 0
        self.linked = True


class SimSharedMemory:
    def __init__(self, name=None, create=False, size=0):
        ps = procs()
        if size < 0:
            raise ValueError("'size' must be a positive integer")
        self._seg = None
        self._buf = None
        if create:
            if size == 0:
                raise ValueError("'size' must be a positive number different from zero")
            ps.op("shm")
            if name is None:
                ps.shm_seq += 1
                name = f"psm_{ps.shm_seq:08x}"
            if name in ps.registry:
                raise FileExistsError(17, "File exists", "/" + name)
            # the mapped size may exceed the requested one (page rounding)
            seg = Segment(name, -(-size // PAGE) * PAGE if ps.shm_round else size)
            ps.registry[name] = seg
            ps.shm_log.append(("create", name))
        else:
            if name is None and not size:
                raise ValueError("'name' can only be None if create=True")
            ps.op("attach")
            seg = ps.registry.get(name)
            if seg is None:
                raise FileNotFoundError(2, "No such file or directory", "/" + str(name))
        self._name = name
        self._seg = seg
        self._buf = memoryview(seg.data)
        self._proc = ps.cur
        seg.handles += 1
        ps.cur.maps.append(seg)
        Kernel.current.preempt()

    @property
    def buf(self):
        return self._buf

    @property
    def name(self):
        return self._name

    @property
    def size(self):
        # Linux reports the mapped size
        return self._seg.size

    def close(self):
        if self._buf is not None:
            self._buf.release()
            self._buf = None
            self._unmap()

    def _unmap(self):
        if self._seg in self._proc.maps:
            self._proc.maps.remove(self._seg)
            self._seg.handles -= 1

    def unlink(self):
        ps = procs()
        if ps.registry.get(self._name) is not self._seg:
            raise FileNotFoundError(2, "No such file or directory", "/" + self._name)
        del ps.registry[self._name]
        self._seg.linked = False
        ps.shm_log.append(("unlink", self._name))

    def __del__(self):
        try:
            self.close()
        except (OSError, BufferError, ValueError):
            if self._seg is not None:
                self._unmap()       # arrays on it keep the memory, as long as they live

    def __reduce__(self):
        return (SimSharedMemory, (self._name, False, self._seg.size))


class _ManagerState:
    def __init__(self, ps):
        self.ps, self.tracked, self.running = ps, [], False

    def shutdown(self):
        if not self.running:
            return
        self.running = False
        self.ps.managers -= 1
        for name in self.tracked:
            seg = self.ps.registry.pop(name, None)
            if seg is not None:
                seg.linked = False
                self.ps.shm_log.append(("unlink", name))
        self.tracked = []


class SimSharedMemoryManager:
    def __init__(self, *args, **kwargs):
        self._state = None
        self._ctx = kwargs.get("ctx")

    def start(self, initializer=None, initargs=()):
        if self._state is not None:
            raise multiprocessing.ProcessError("Already started server")
        ps = procs()
        ps.op("manager")
        st = _ManagerState(ps)
        st.running = True
        ps.managers += 1
        self._state = st
        fin = weakref.finalize(self, st.shutdown)
        fin.atexit = False
        self.shutdown = fin
        Kernel.current.preempt()

    def SharedMemory(self, size):
        if self._state is None:
            raise AssertionError("server not yet started")
        if not self._state.running:
            raise ConnectionRefusedError(111, "Connection refused")
        shm = SimSharedMemory(None, True, size)
        self._state.tracked.append(shm.name)
        return shm

    def ShareableList(self, sequence):
        raise SimUnsupported("ShareableList")

    def connect(self):
        raise SimUnsupported("manager connect")

    get_server = connect

    def __enter__(self):
        if self._state is None:
            self.start()
        return self

    def __exit__(self, *exc):
        self.shutdown()


class _Identity:
    """What multiprocessing.current_process() tells about a simulated process."""
    daemon = False

    def __init__(self, proc):
        self._proc = proc
        self.pid = self.ident = proc.pid
        self._identity = proc.number
        self.authkey = b"simulated"
        self.name = "MainProcess" if proc.parent is None else (
            f"{(proc.method or 'fork').capitalize()}Process-"
            + ":".join(map(str, proc.number)))

    def is_alive(self):
        return not self._proc.dead

    @property
    def exitcode(self):
        return None if not self._proc.dead else 0 if self._proc.dead == "exited" else -9


def _current_process():
    return _Identity(procs().cur)


def _parent_process():
    p = procs().cur.parent
    return None if p is None else _Identity(p)


def _active_children():
    ps = procs()
    return [_Identity(p) for p in ps.all if p.parent is ps.cur and not p.dead]


def _getppid():
    p = procs().cur.parent if Kernel.current is not None else None
    return 4000 if p is None else p.pid


def install():
    import multiprocessing.process as mpp
    for mod in (multiprocessing, mpp):
        mod.current_process = _current_process
        mod.parent_process = _parent_process
        mod.active_children = _active_children
    os.getppid = _getppid
    concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
    cfp.ProcessPoolExecutor = SimProcessPoolExecutor
    mp = multiprocessing
    ctx = get_context(None)
    mp.get_context = get_context
    mp.Pool = ctx.Pool
    mp.Process = SimProcess
    mp.Queue, mp.SimpleQueue, mp.JoinableQueue = ctx.Queue, ctx.SimpleQueue, ctx.Queue
    mp.get_start_method, mp.set_start_method = _get_start_method, _set_start_method
    mp.cpu_count = lambda: os.cpu_count()
    mp.Manager = ctx.Manager
    for name, prim in PRIMITIVES.items():
        setattr(mp, name, prim)
    # finalisers compare process ids; the one in their signature is the real one
    call = mp.util.Finalize.__call__
    call.__defaults__ = tuple(os.getpid if x is prims.real["getpid"] else x
                              for x in call.__defaults__)
    # thread pools are the standard library's own, over simulated threads
    spec = importlib.util.spec_from_file_location("multiprocessing.pool", mp.pool.__file__)
    threads = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(threads)
    threads.get_context, threads.wait = get_context, _wait_any
    mp.pool.ThreadPool = threads.ThreadPool
    mp.pool.Pool = SimPool
    mp.shared_memory.SharedMemory = SimSharedMemory
    mp.managers.SharedMemoryManager = SimSharedMemoryManager

    def no_generic_manager(*a, **k):
        raise SimUnsupported("multiprocessing manager")
    mp.managers.SyncManager = no_generic_manager
