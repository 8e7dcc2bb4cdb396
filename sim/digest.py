"""Canonical fingerprints of values, inputs and process-wide state."""
import hashlib
import os
import random
import sys
import types
import warnings

import numpy as np


def _arr(a):
    if isinstance(a, np.ma.MaskedArray):
        return ("ma", _arr(np.asarray(a.filled(0) if a.dtype.kind != "O" else a.data)),
                _arr(np.ma.getmaskarray(a)))
    a = np.asarray(a)
    if a.dtype.kind == "O":
        return ("O", a.shape, tuple(canon(x) for x in a.ravel().tolist()))
    if a.dtype == np.longdouble:
        hi = a.astype("f8")
        lo = (a - hi.astype(np.longdouble)).astype("f8")
        return ("g", a.shape, _arr(hi), _arr(lo))
    b = np.ascontiguousarray(a)
    if b.dtype.kind in "fc":
        b = b.copy()
        b[np.isnan(b)] = np.nan
    return ("a", a.dtype.str, a.shape, hashlib.blake2b(b.tobytes(), digest_size=16).hexdigest())


_PROBE_T = np.linspace(-2.5, 2.5, 7)


def canon(v, depth=0):
    """A hashable, address-free description of a value, NaN-equal."""
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ("float", "nan" if v != v else float(v).hex())
    if isinstance(v, np.generic):
        return ("np", _arr(v))
    if isinstance(v, np.ndarray):
        return _arr(v)
    if depth > 8:
        return ("deep", type(v).__name__)
    if isinstance(v, dict):
        return ("dict", tuple(sorted(((str(k), canon(x, depth + 1)) for k, x in v.items()),
                                     key=lambda p: p[0])))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(canon(x, depth + 1) for x in v))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, (canon(x, depth + 1) for x in v)))))
    if isinstance(v, BaseException):
        return ("exc", type(v).__name__)
    name = type(v).__name__
    if name == "LatentPDF":
        return ("LatentPDF", canon([np.array(v.quadrature_locations), np.array(v.weights),
                                    np.array(v.null_distribution), v.n_points,
                                    list(v.quad_bounds), v.cubic_splines[-1]], depth + 1))
    if name == "CubicSplinePDF":
        return ("CubicSplinePDF", canon([np.array(v.coefficients), np.array(v.sample_space),
                                         np.array(v(_PROBE_T))], depth + 1))
    if callable(v):
        probe = getattr(v, "sim_probe", None)
        return ("callable", probe() if probe else None)
    if hasattr(v, "__dict__"):
        return (name, tuple((k, canon(x, depth + 1)) for k, x in sorted(vars(v).items())
                            if not k.startswith("_") and not callable(x)))
    return ("obj", name)


def short(c):
    return hashlib.blake2b(repr(c).encode(), digest_size=10).hexdigest()


def digest(v):
    return short(canon(v))


def brief(v, n=160):
    """Human-readable glance at a value for violation reports."""
    try:
        with np.printoptions(precision=6, threshold=12, edgeitems=2):
            s = " ".join(repr(v).split())
    except Exception as e:           # pragma: no cover
        s = f"<{type(v).__name__} {e!r}>"
    return s[:n]


def process_state(tree=True):
    """Process-wide state a library call has no business changing."""
    st = {
        "np.geterr": dict(np.geterr()),
        "np.geterrcall": repr(type(np.geterrcall())),
        "np.printoptions": {k: repr(v) for k, v in np.get_printoptions().items()},
        "np.bufsize": np.getbufsize(),
        "warnings.filters": repr([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4])
                                  for f in warnings.filters]),
        "warnings.showwarning": warnings.showwarning is _show,
        "np.random": digest(_np_state()),
        "random": hashlib.blake2b(repr(random.getstate()).encode(),
                                  digest_size=8).hexdigest(),
        "environ": dict(os.environ),
        "cwd": _folder(),
        "recursionlimit": sys.getrecursionlimit(),
        "stdout": sys.stdout is _stdout,
        "stderr": sys.stderr is _stderr,
        "trace": sys.gettrace() is None and sys.getprofile() is None,
        "excepthook": sys.excepthook is sys.__excepthook__,
        "switchinterval": sys.getswitchinterval(),
        "scipy.special.geterr": _special(),
    }
    return st


def _folder():
    try:
        return os.getcwd()
    except FileNotFoundError:
        return None


def _special():
    import scipy.special
    return dict(scipy.special.geterr())


def _np_state():
    s = np.random.mtrand._rand.get_state(legacy=False)
    return [s["bit_generator"], np.array(s["state"]["key"]), int(s["state"]["pos"]),
            int(s["has_gauss"]), float(s["gauss"])]


_show = warnings.showwarning
_stdout, _stderr = sys.stdout, sys.stderr


def diff_state(a, b):
    return [k for k in a if a[k] != b.get(k)]
