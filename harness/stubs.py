"""Environment stubs: silent tqdm, seeded numpy generators, no display, no sleeping."""
import random
import sys
import time
import types

import numpy as np

_orig_default_rng = np.random.default_rng
_counter = [0, 0]


def _seeded_default_rng(seed=None):
    if seed is None:
        _counter[1] += 1
        return _orig_default_rng([_counter[0], _counter[1]])
    return _orig_default_rng(seed)


def reset_rng(base):
    """Make every random choice of the code under test a function of the case alone."""
    _counter[0] = base
    _counter[1] = 0
    np.random.seed(base)
    random.seed(base)


class _Tqdm:
    def __init__(self, iterable=None, *a, **k):
        self._it = iterable

    def __iter__(self):
        return iter(self._it if self._it is not None else ())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        return lambda *a, **k: None


def install():
    mod = types.ModuleType("tqdm")
    mod.tqdm = _Tqdm
    mod.trange = lambda *a, **k: _Tqdm(range(*a))
    sys.modules["tqdm"] = mod
    np.random.default_rng = _seeded_default_rng
    time.sleep = lambda *_: None
    try:
        import matplotlib
        matplotlib.use("Agg")
        matplotlib.use = lambda *a, **k: None
    except ImportError:
        pass
