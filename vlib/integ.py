"""Shared workload of the exposure-integrated checks (C05-C07, ...)."""
from __future__ import annotations

import numpy as np

from . import gen, oracle, pipes, specs
from .core import Skip, rng_for
from .inst import tup  # noqa: F401

S = gen.skel_leaf
PAR = specs.PARAM


def I(kind):
    return ("int", S(kind))


def base_skels():
    out = [I(k) for k in specs.INTEGRABLE]
    out += [I("SHO"), I("SHO"),
            ("sum", I("SHO"), I("Matern32")), ("sum", I("Matern52"), I("Exp")),
            ("sum", I("SHO"), I("SHO")), ("scale", PAR, I("Matern32")),
            ("sum", ("scale", PAR, I("Exp")), I("Cosine")),
            ("scale", PAR, ("sum", I("Matern32"), I("Cosine"))),
            ("sum", ("sum", I("Exp"), I("Matern32")), I("SHO"))]
    return out


MODES = ("gaps", "contiguous", "mixed", "short", "long", "same", "zeros")


def jobs(prop, tier, seed, n_quick, n_thorough, cases=(14, 40), sizes=(1, 2, 3, 5, 8, 12, 17), extra=None, big=()):
    rng = rng_for(seed, prop, "jobs")
    n = n_quick if tier == "quick" else n_thorough
    sk = base_skels()
    skels = list(sk)
    while len(skels) < n:
        skels.append(sk[int(rng.integers(len(sk)))])
    if n < len(sk):
        head, tail = sk[:6], sk[6:]
        rng.shuffle(tail)
        skels = head + tail[:n - 6]
    out = []
    for i, s in enumerate(skels[:n]):
        j = {"skel": s, "N": int(sizes[(i + seed) % len(sizes)]), "ninst": int(rng.choice([1, 1, 2, 2, 3, 4])),
             "M": int(rng.choice([1, 3, 8, 15])), "cases": cases[0] if tier == "quick" else cases[1]}
        if extra:
            j.update(extra(rng, j))
        out.append(j)
    large = [dict(out[0], skel=sk[int(rng.integers(len(sk)))], N=int(n), ninst=int(rng.choice([1, 3, 6])),
                  M=int(rng.choice([3, 40])), big=True, cases=3 if tier == "quick" else 6) for n in big]
    return large + out


def exposure_points(rng, X, m, L):
    """Test times before/after/inside/at the edges and middles of exposures."""
    t, d, _ = X
    ts, te = t - d / 2, t + d / 2
    lo, hi = ts.min(), te.max()
    span = max(hi - lo, L)
    out = []
    for _ in range(m):
        k = int(rng.integers(len(t)))
        r = rng.random()
        out.append(ts[k] if r < 0.12 else te[k] if r < 0.24 else t[k] if r < 0.34 else
                   rng.uniform(ts[k], te[k]) if r < 0.55 else
                   lo - span * gen.logu(rng, -3, 0) if r < 0.68 else
                   hi + span * gen.logu(rng, -3, 0) if r < 0.8 else rng.uniform(lo, hi))
    out = np.array(out)
    return np.sort(out) if rng.random() < 0.3 else out


def make_case(rng, skel, N, ninst, M, lo=-3, mode=None, solver="auto"):
    L = float(rng.choice([1.0, 1.0, 1e-2, 300.0, 86400.0, 1e-9, 3e9]))
    amp = float(rng.choice([1.0, 1.0, 1e-2, 40.0, 2e-7, 1e6]))
    spec = gen.params_for(rng, skel, L, amp)
    X, em = gen.exposures(rng, N, ninst, L, mode)
    if pipes.too_short(spec, X, solver):
        raise Skip
    K = oracle.cov(spec, X, X)
    a2 = oracle.amp2(spec)
    diag = gen.noise(rng, N, a2, lo=lo)
    y = gen.data(rng, K + np.diag(diag))
    dn = oracle.Dense(spec, X, diag, y)
    if not np.isfinite(dn.cond) or dn.cond > 1e8:
        raise Skip
    ps = exposure_points(rng, X, M, L)
    Xs = (ps, np.zeros(M), rng.integers(0, ninst, M).astype(int))
    desc = dict(spec=spec, N=N, ninst=ninst, M=M, exposures=em, L=L, t=X[0][:5], delta=X[1][:5], inst=X[2][:5],
                y=y[:3], diag=diag[:3], cond=dn.cond, Xs=ps[:5])
    return spec, X, diag, y, Xs, dn, desc


def overlaps(X):
    """Number of pairs of exposures (of different instruments) that overlap."""
    t, d, i = X
    ts, te = t - d / 2, t + d / 2
    n = 0
    for a in range(len(t)):
        for b in range(a):
            n += bool(ts[a] < te[b] and ts[b] < te[a])
    return n
