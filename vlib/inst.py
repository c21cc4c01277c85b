"""Shared workload of the instantaneous-data checks (C01-C04, ...)."""
from __future__ import annotations

import numpy as np

from . import gen, oracle, pipes, specs
from .core import Skip, rng_for

SIZES = (1, 2, 3, 5, 8, 13, 21, 34)
FIXED = [("Exp",), ("Matern32",), ("Matern52",), ("SHO",), ("SHO",), ("Cosine",), ("Constant",), ("ExpSineSquared",)]
S = gen.skel_leaf


def composite_skels():
    P = specs.PARAM
    return [
        ("sum", S("SHO"), S("Matern32")),
        ("sum", S("Matern52"), S("Matern52")),
        ("sum", ("sum", S("Exp"), S("Matern32")), S("Matern52")),
        ("sum", S("Exp"), ("sum", S("SHO"), S("Constant"))),
        ("prod", S("SHO"), S("Cosine")),
        ("prod", S("Exp"), S("Matern52")),
        ("prod", S("Matern32"), ("sum", S("Exp"), S("Cosine"))),
        ("sum", ("prod", S("Exp"), S("Cosine")), S("SHO")),
        ("scale", P, ("sum", S("Matern32"), S("SHO"))),
        ("sum", ("scale", P, S("Matern52")), ("scale", P, S("Exp"))),
        ("prod", S("Matern32"), S("ExpSineSquared")),
        ("sum", S("Exp"), S("ExpSineSquared")),
        ("scale", P, ("prod", S("SHO"), S("Matern32"))),
    ]


def jobs(prop, tier, seed, n_quick, n_thorough, cases=(20, 60), extra=None, big=()):
    rng = rng_for(seed, prop, "jobs")
    n = n_quick if tier == "quick" else n_thorough
    skels = [S(k[0]) for k in FIXED] + composite_skels()
    while len(skels) < n:
        skels.append(gen.random_skel(rng))
    if len(skels) > n:  # keep the leaves, rotate the composites with the seed
        head, tail = skels[:len(FIXED)], skels[len(FIXED):]
        rng.shuffle(tail)
        skels = head + tail[: n - len(head)]
    out = []
    for i, sk in enumerate(skels):
        N = int(SIZES[(i + seed) % len(SIZES)] if i % 3 else rng.choice(SIZES[3:]))
        out.append({"skel": sk, "N": N, "M": int(rng.choice([1, 2, 7, 12])),
                    "cases": cases[0] if tier == "quick" else cases[1]})
    if extra:
        for j in out:
            j.update(extra(rng, j))
    # a few data sets much larger than the rest (first, as they take longest)
    pool = [S(k[0]) for k in FIXED[:5]] + composite_skels()[:4]
    large = [dict(out[0], skel=pool[int(rng.integers(len(pool)))], N=int(n), M=int(rng.choice([3, 50])), big=True,
                  cases=3 if tier == "quick" else 6) for n in big]
    return large + out


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, (list, tuple)) else x


def make_case(rng, skel, N, M, lo=-4, mode=None, tie_ok=True):
    """One random instance: spec, coordinates, noise, data, test points, oracle."""
    L = float(rng.choice([1.0, 1.0, 1e-2, 300.0, 86400.0, 1e-9, 3e9]))
    amp = float(rng.choice([1.0, 1.0, 1e-3, 40.0, 2e-7, 1e6]))
    spec = gen.params_for(rng, skel, L, amp)
    t, cm = gen.coords(rng, N, L, mode)
    # lags must be representable: coordinates are float64
    a2 = max(oracle.amp2(spec), 1e-300)
    diag = gen.noise(rng, N, a2, lo=lo)
    K = oracle.cov(spec, t, t)
    y = gen.data(rng, K + np.diag(diag))
    dn = oracle.Dense(spec, t, diag, y)
    if not np.isfinite(dn.cond) or dn.cond > 1e9:
        raise Skip
    Xs = gen.test_points(rng, t, M, L)
    desc = dict(spec=spec, N=N, M=M, coords=cm, L=L, t=t[:6], y=y[:3], diag=diag[:3], cond=dn.cond)
    return spec, t, diag, y, Xs, dn, desc
