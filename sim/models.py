"""Caller-supplied IRT models for the bootstrap, picklable by reference.

"quick" models cost microseconds and depend on every cell of the dataset and
on the options, so that a lost, repeated or altered resample changes their
output.  The recording one also reports what it was called with.
"""
import numpy as np

from .digest import canon
from .kernel import Kernel

LOG = []           # (dataset, options) of every call, whole simulation
RAISED = []        # exception names FailingModel raised


def point():
    """A place inside the caller's model where a fault may strike."""
    k = Kernel.current
    if k is not None and not k.mute:
        k.preempt()


def _stats(dataset, options):
    point()
    d = np.where(dataset < -9000, 0.37, dataset).astype(float)
    n = d.shape[1]
    w = np.arange(1, d.shape[0] + 1)
    mean = d.mean(axis=1)
    cross = (d * np.roll(d, 1, axis=0)).mean(axis=1)
    point()
    q = 0.0 if not options else 1e-3 * options.get("quadrature_n", 0)
    return mean, cross + q, w, n


def quick_model(dataset, options=None):
    mean, cross, w, _ = _stats(dataset, options)
    return {"Difficulty": mean * w, "Discrimination": cross + 0.5}


def quick_poly(dataset, options=None):
    mean, cross, w, _ = _stats(dataset, options)
    return {"Difficulty": np.stack([mean, mean * w + 0.1, cross], axis=1),
            "Discrimination": cross + 0.5}


def scalar_disc(dataset, options=None):
    mean, cross, w, _ = _stats(dataset, options)
    return {"Difficulty": mean * w, "Discrimination": float(cross.sum())}


def recorder(dataset, options=None):
    LOG.append((np.array(dataset, copy=True), canon(options)))
    return quick_model(dataset, options)


def recorder_poly(dataset, options=None):
    LOG.append((np.array(dataset, copy=True), canon(options)))
    return quick_poly(dataset, options)


def recorder_scalar(dataset, options=None):
    LOG.append((np.array(dataset, copy=True), canon(options)))
    return scalar_disc(dataset, options)


class FailingModel:
    """Raises when a resample has a given property (decided by the data)."""

    def __init__(self, exc_name, every, unpicklable=False):
        self.exc_name, self.every, self.unpicklable = exc_name, every, unpicklable

    def __call__(self, dataset, options=None):
        score = int(np.abs(np.where(dataset < -9000, 0, dataset)
                           * np.arange(dataset.shape[1])).sum())
        if score % self.every == 0:
            if self.unpicklable:
                return {"Difficulty": lambda: None, "Discrimination": np.ones(3)}
            exc = {"ValueError": ValueError, "MemoryError": MemoryError,
                   "LinAlgError": np.linalg.LinAlgError,
                   "KeyError": KeyError, "RuntimeError": RuntimeError, "OSError": OSError,
                   "TypeError": TypeError, "OverflowError": OverflowError,
                   "ArithmeticError": ArithmeticError, "ZeroDivisionError": ZeroDivisionError,
                   "FloatingPointError": FloatingPointError}[self.exc_name]
            RAISED.append(self.exc_name)
            raise exc("simulated model failure")
        return quick_model(dataset, options)


def _rasch(dataset, options=None):
    import girth
    return girth.rasch_mml(dataset, 1.1, options=options)


class _Lazy:
    """A GIRTH estimator looked up when used (pickled by reference)."""

    def __init__(self, name):
        self.name = name

    def __call__(self, dataset, options=None):
        import girth
        return getattr(girth, self.name)(dataset, options=options)


MODELS = {"quick": quick_model, "poly": quick_poly, "scalar": scalar_disc,
          "rasch_mml": _Lazy("rasch_mml"), "onepl_mml": _Lazy("onepl_mml"),
          "twopl_mml": _Lazy("twopl_mml"), "onepl_jml": _Lazy("onepl_jml")}
