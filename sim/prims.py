"""Simulated threading primitives, clock, entropy and process-wide identity.

install() replaces the names in the standard library that GIRTH (or the
standard-library code it calls) resolves at run time.  numpy and scipy are
imported before, so their own C-level locks stay real; no preemption point
lies inside them.
"""
import os
import random
import sys
import threading
import time
import _thread

from .kernel import Kernel, SimDeadlock, SimUnsupported, get_ident

real = {}


# ------------------------------------------------------------------- locks
class SimLock:
    __slots__ = ("_l", "__weakref__")

    def __init__(self):
        self._l = False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout != -1 and timeout < 0:
            raise ValueError("timeout value must be a non-negative number")
        if not self._l:
            self._l = True
            return True
        if not blocking:
            return False
        k = Kernel.current
        if k is None:
            if timeout >= 0:
                return False
            raise SimDeadlock("lock is held and nobody can release it")
        deadline = None if timeout < 0 else k.now + timeout
        k.block(lambda: not self._l, deadline, "lock")
        if self._l:
            return False
        self._l = True
        return True

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False

    def locked(self):
        return self._l

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._l = False


class SimRLock:
    __slots__ = ("_owner", "_count", "__weakref__")

    def __init__(self):
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._owner is None:
            self._owner, self._count = me, 1
            return True
        if not blocking:
            return False
        k = Kernel.current
        if k is None:
            if timeout >= 0:
                return False
            raise SimDeadlock("rlock is held and nobody can release it")
        deadline = None if timeout < 0 else k.now + timeout
        k.block(lambda: self._owner is None, deadline, "rlock")
        if self._owner is not None:
            return False
        self._owner, self._count = me, 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def __exit__(self, *exc):
        self.release()

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        return state

    def _is_owned(self):
        return self._owner == get_ident()

    def _recursion_count(self):
        return self._count if self._owner == get_ident() else 0

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


# ----------------------------------------------------------------- threads
def _start_new_thread(fn, args, kwargs=None):
    k = Kernel.current
    if k is None:
        raise SimUnsupported("thread started outside the simulation")
    kw = kwargs or {}
    k.spawn(k.child_name("t"), lambda: fn(*args, **kw), role="thread")
    return 0


def _set_sentinel():
    lock = SimLock()
    k = Kernel.current
    if k is not None and k.cur is not None:
        k.cur.sentinel = lock
    return lock


# ------------------------------------------------------------------- clock
class Clock:
    now = 0.0       # used only outside a kernel


def _mono():
    k = Kernel.current
    if k is None:
        return Clock.now
    t = k.now + k.total * k.tick
    return t - t % k.grain if k.grain else t


def _wall():
    k = Kernel.current
    if k is None:
        return 1.7e9 + _mono()
    return k.epoch + _mono() + sum(d for at, d in k.jumps if k.total >= at)


def _sleep(dt):
    k = Kernel.current
    if k is None:
        Clock.now += dt
    else:
        k.sleep(dt)


# ----------------------------------------------------------------- entropy
class Entropy:
    """Operating-system entropy, decided by the run's seed."""
    rng = random.Random(0)
    calls = 0
    broken = False

    @classmethod
    def reset(cls, seed):
        cls.rng = random.Random(f"entropy-{seed}")
        cls.calls, cls.broken = 0, False

    @classmethod
    def take(cls):
        cls.calls += 1
        if cls.broken:
            k = Kernel.current
            if k is not None:
                k.fired.append({"kind": "entropy"})
            raise NotImplementedError("simulated: no source of entropy")


def _randbits(n):
    Entropy.take()
    return Entropy.rng.getrandbits(n)


def _urandom(n):
    Entropy.take()
    return Entropy.rng.randbytes(n)


def _getpid():
    k = Kernel.current
    if k is not None and k.procs is not None:
        return k.procs.cur.pid
    return 4242


def _no_fork(*a, **k):
    raise SimUnsupported("os.fork inside the simulation")


class _ArgsHook:
    pass


def _start(start):
    def run(self):
        k = Kernel.current
        t = k.cur if k is not None else None
        if t is None:
            return start(self)
        was, t.starting = t.starting, True
        try:
            return start(self)
        finally:
            t.starting = was
    return run


def install():
    import queue
    import secrets
    import numpy as np
    import concurrent.futures.thread as cft
    import concurrent.futures._base  # noqa: F401

    real.update(time=time.time, monotonic=time.monotonic, sleep=time.sleep,
                perf_counter=time.perf_counter, fork=os.fork, getpid=os.getpid,
                urandom=os.urandom, Lock=threading.Lock)

    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = SimRLock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading.Thread.start = _start(threading.Thread.start)
    threading.excepthook = lambda args: None
    cft._global_shutdown_lock = SimLock()
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _mono
    threading._time = _mono
    # locks made at import time that a task may hold while it blocks
    threading._active_limbo_lock = threading.RLock()
    threading._shutdown_locks_lock = SimLock()

    time.time, time.monotonic, time.perf_counter = _wall, _mono, _mono
    time.process_time = time.thread_time = _mono
    time.time_ns = lambda: int(_wall() * 1e9)
    time.monotonic_ns = time.perf_counter_ns = lambda: int(_mono() * 1e9)
    time.sleep = _sleep

    np.random.bit_generator.randbits = _randbits
    os.urandom = _urandom
    secrets.randbits = _randbits
    secrets.token_bytes = lambda n=None: _urandom(n or 32)
    secrets._sysrand.getrandbits = _randbits
    random._urandom = _urandom
    os.getpid = _getpid
    os.fork = _no_fork
    os.cpu_count = lambda: Kernel.current.cpus if Kernel.current else 4
    os.sched_getaffinity = lambda pid=0: set(range(os.cpu_count() or 1))
