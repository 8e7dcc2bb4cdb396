"""Shared by the checks: input sharing, snapshots, violations, shrinking."""
import copy

import numpy as np

from sim import ops, world
from sim.digest import canon, digest
from sim.runner import REAL, STUBS, kernel_stats

MAXSTEPS = 60          # x solo steps of all operations of a run: then it is hung


def viol(cls, detail, trace=()):
    return {"class": cls, "detail": detail, "trace": list(trace)}


class Snapshot:
    """Digest of caller-owned inputs; densities and plain values included."""

    def __init__(self, objs):
        self.objs = list(objs)
        self.want = [self._d(o) for o in self.objs]

    @staticmethod
    def _d(o):
        if isinstance(o, np.ndarray):
            return (digest(o), o.flags.writeable, o.strides, o.dtype.str)
        return digest(o) if not isinstance(o, dict) else (
            tuple((k, id(v) if callable(v) else digest(v)) for k, v in o.items()))

    def changed(self):
        return [i for i, o in enumerate(self.objs) if self._d(o) != self.want[i]]

    def what(self):
        return ", ".join(f"argument {i} ({type(self.objs[i]).__name__})"
                         for i in self.changed())


def share_inputs(calls, ps):
    """Let calls use the same array and options objects where these are equal."""
    arrays, opts = [], []

    def swap(v, p):
        if isinstance(v, np.ndarray):
            for a in arrays:
                if (a.dtype == v.dtype and a.shape == v.shape and a.strides == v.strides
                        and a.tobytes() == v.tobytes()):
                    return a
            arrays.append(v)
        elif isinstance(v, dict):
            key = (world.dumps(p.get("opts")), canon(v))
            for k, o in opts:
                if k == key and set(o) == set(v):
                    return o
            opts.append((key, v))
        return v
    for c, p in zip(calls, ps):
        c.args = [swap(a, p) for a in c.args]
        c.kwargs = {k: swap(v, p) for k, v in c.kwargs.items()}


def shrink_op(p):
    """Simpler forms of one operation."""
    for k in ("miss", "order", "cell", "dt", "tweak", "perm", "rows", "full", "bad"):
        if k in p:
            q = copy.deepcopy(p)
            q.pop(k)
            yield q
    for k in list(p.get("opts") or {}):
        if k in ops.CHEAP:
            continue
        q = copy.deepcopy(p)
        q["opts"].pop(k)
        yield q
    for k in list(p.get("x") or {}):
        q = copy.deepcopy(p)
        q["x"].pop(k)
        yield q
    if p["np"] > 20 and not ops.OPS[p["op"]].get("np"):
        yield dict(copy.deepcopy(p), np=20)
    if p["ni"] > 3 and ops.OPS[p["op"]]["group"] != "md":
        yield dict(copy.deepcopy(p), ni=3)


def show_op(p):
    bits = [f"{p['ni']}x{p['np']}", f"data {p['d']}"]
    for k in ("lv", "miss", "order", "cell", "dt", "tweak", "perm", "rows", "full", "bad",
              "opts", "x"):
        if p.get(k):
            bits.append(f"{k}={p[k]}")
    return f"{p['op']}({', '.join(bits)})"


def group_ops(*groups, drop=()):
    return [n for g in groups for n in ops.GROUPS[g] if n not in drop]
