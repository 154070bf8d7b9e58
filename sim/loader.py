"""Import `mass` from the repository's working tree, with its Cython modules taken from the build cache."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
import warnings

from . import build


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, fullname, path=None, target=None):
        so = self.table.get(fullname)
        if so is None:
            return None
        return importlib.util.spec_from_file_location(
            fullname, so, loader=importlib.machinery.ExtensionFileLoader(fullname, so))


_MODULE_LEVEL = []   # generators the library made, without a seed, while being imported
_RUN = {"seed": None, "count": 0}


def _seam_default_rng():
    """Randomness seam: numpy.random.default_rng() with no seed becomes a function of the run's seed."""
    import numpy as np
    real = np.random.default_rng

    def default_rng(seed=None):
        if seed is not None:
            return real(seed)
        if _RUN["seed"] is None:
            g = real(0)
            _MODULE_LEVEL.append(g)
            return g
        _RUN["count"] += 1
        return real([_RUN["seed"], _RUN["count"]])
    np.random.default_rng = default_rng


def reseed_randomness(seed):
    import random
    import numpy as np
    seed = int(seed) & 0xffffffff
    _RUN["seed"], _RUN["count"] = seed, 0
    np.random.seed(seed)
    random.seed(seed)
    for g in _MODULE_LEVEL:
        g.bit_generator.state = type(g.bit_generator)(seed).state


def load_mass():
    """Returns the freshly imported package.  Call once, before forking workers."""
    if "mass" in sys.modules:
        return sys.modules["mass"]
    os.environ.setdefault("MPLBACKEND", "agg")
    warnings.simplefilter("ignore")
    table = build.build_all()
    _seam_default_rng()
    sys.meta_path.insert(0, _ExtFinder(table))
    sys.path.insert(0, build.REPO)
    if not os.path.exists(os.path.join(build.REPO, "mass", "_version.py")):
        stub = types.ModuleType("mass._version")
        stub.version = stub.__version__ = "0.8.6"
        stub.version_tuple = stub.__version_tuple__ = (0, 8, 6)
        sys.modules["mass._version"] = stub
    import mass
    import mass.off
    assert os.path.realpath(mass.__file__).startswith(os.path.realpath(build.REPO) + os.sep), mass.__file__
    for name in build.EXTENSIONS:
        so = table[name]
        mod = importlib.import_module(name)
        assert so is None or mod.__file__ == so, (mod.__file__, so)
    import logging
    logging.getLogger("mass").setLevel(logging.CRITICAL + 10)
    import matplotlib
    matplotlib.rc("figure", max_open_warning=0)
    import gc
    gc.collect()
    gc.freeze()     # the collector looks only at what the runs make
    return mass
