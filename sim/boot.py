"""Loads GIRTH from the tree under test with every seam in place."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("SIM_REPO", "/repo")
ROOTS = {"girth.synthetic": "synthetic", "girth.factoranalysis": "factoranalysis",
         "girth.common": "common"}
codes = {}          # path -> code object of the module
all_codes = []      # every function-level code object
_on_new = []


def _path_of(fullname):
    parts = fullname.split(".")
    base = os.path.join(REPO, "estimation")
    rest = parts[1:]
    if len(parts) > 1 and ".".join(parts[:2]) in ROOTS:
        base = os.path.join(REPO, ROOTS[".".join(parts[:2])])
        rest = parts[2:]
    stem = os.path.join(base, *rest)
    if os.path.isfile(os.path.join(stem, "__init__.py")):
        return os.path.join(stem, "__init__.py"), True, stem
    if os.path.isfile(stem + ".py"):
        return stem + ".py", False, None
    if os.path.isdir(stem):
        return None, True, stem
    return None, False, None


def _walk(code):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield c
            yield from _walk(c)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = codes.get(self.path)
        if code is None:
            with open(self.path, "rb") as fh:
                src = fh.read()
            code = compile(src, self.path, "exec", dont_inherit=True)
            codes[self.path] = code
            new = list(_walk(code))
            all_codes.extend(new)
            for hook in _on_new:
                hook(new)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Maps the girth packages onto the tree, as setup.py's package_dir does."""

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "girth" and not fullname.startswith("girth."):
            return None
        file, is_pkg, stem = _path_of(fullname)
        if file is None:
            return None
        spec = importlib.util.spec_from_file_location(
            fullname, file, loader=Loader(file),
            submodule_search_locations=[stem] if is_pkg else None)
        return spec


MODULES = ["girth", "girth.utilities", "girth.unidimensional.polytomous",
           "girth.unidimensional.dichotomous", "girth.multidimensional",
           "girth.synthetic", "girth.factoranalysis", "girth.common"]


def boot():
    """Imports numpy/scipy, installs the seams, imports GIRTH."""
    import warnings
    sys.dont_write_bytecode = True
    import numpy as np
    import scipy.integrate, scipy.interpolate, scipy.linalg, scipy.optimize  # noqa
    import scipy.special, scipy.stats  # noqa
    import concurrent.futures.process, concurrent.futures.thread  # noqa
    import multiprocessing.managers, multiprocessing.pool  # noqa
    import multiprocessing.shared_memory  # noqa
    import multiprocessing.resource_tracker  # noqa
    from . import kernel, prims, procs
    warnings.simplefilter("ignore")
    prims.install()
    procs.install()
    sys.meta_path.insert(0, Finder())
    for name in [n for n in sys.modules if n == "girth" or n.startswith("girth.")]:
        del sys.modules[name]
    kernel.install_events([])
    _on_new.append(kernel.add_events)
    for name in MODULES:
        importlib.import_module(name)
    np.random.seed(20231)
    import random
    random.seed(20231)
    import girth
    assert girth.__file__.startswith(REPO), girth.__file__
    return girth
