"""Environment stubs available to every harness (contracts listed in DESIGN.md)."""
from __future__ import annotations

import numpy as np

from .engine import R, Unsupported
from . import engine, symnp
from .rng import make_rng


def install(S):
    from . import stubs_expm
    stubs_expm.install(S)
    from . import stubs_eig
    stubs_eig.install(S)
    from . import stubs_mp
    stubs_mp.install(S)
    ex = engine.cur()

    def pick(name, n):
        ps = getattr(ex, "rng_per_seed", None)
        if ps is not None:
            k = int(name.split("_")[2])
            return (k % n if getattr(ex, "rng_cycle", False) else 0) if k >= ps else int(ex.int(name, 0, n - 1))
        ex.rng_count = getattr(ex, "rng_count", 0) + 1
        lim = getattr(ex, "rng_limit", None)
        if lim is not None and ex.rng_count > lim:
            return 0
        return int(ex.int(name, 0, n - 1))

    def uni(name, lo, hi):
        return ex.real(name, lo, hi)

    def vec(xs):
        return symnp.tosym(list(xs))
    RS, glob = make_rng(pick, uni, vec)
    S["random.RandomState"] = RS
    S["random.default_rng"] = RS
    S["random.Generator"] = RS
    S["random.seed"] = glob.seed
    for n in ("choice", "shuffle", "permutation", "rand", "random", "randint", "random_sample", "uniform", "exponential"):
        S["random." + n] = getattr(glob, n)
