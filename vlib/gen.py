"""Workload generators: model structures, parameters, coordinates, data."""
from __future__ import annotations

import numpy as np

from . import oracle, specs

SHO_Q = [0.5, 0.5 + 2e-5, 0.5 - 2e-5, 0.5 + 1e-3, 0.5 - 1e-3, 0.501, 0.499, 0.52, 0.45, 0.6,
         0.3, 0.1, 0.05, 0.7071067811865476, 1.0, 2.0, 7.0, 30.0]


def logu(rng, a, b):
    return float(10 ** rng.uniform(a, b))


def leaf(rng, kind, L, amp, qpick=None):
    """Random parameters of a leaf kernel; L is the typical time scale."""
    s = amp * logu(rng, -0.5, 0.5) * (-1.0 if rng.random() < 0.05 else 1.0)
    if kind in ("Exp", "Matern32", "Matern52"):
        return (kind, L * logu(rng, -0.8, 1.0), s)
    if kind == "SHO":
        Q = qpick if qpick is not None else (
            float(rng.choice(SHO_Q)) if rng.random() < 0.6 else logu(rng, -1, 1.5))
        if abs(Q - 0.5) < 2e-5:
            Q = 0.5 + (0 if Q == 0.5 else np.sign(Q - 0.5) * 2e-5)
        w = 2 * np.pi / (L * logu(rng, -0.3, 1.0))
        if Q < 0.5:  # keep the slow decay rate comparable to 1/L
            w = w * max(1.0, 0.5 / Q) if rng.random() < 0.5 else w
        return ("SHO", w, Q, s)
    if kind == "Cosine":
        return (kind, L * logu(rng, -0.3, 1.0), s)
    if kind == "Constant":
        return (kind, s)
    if kind == "ExpSineSquared":
        return (kind, L * logu(rng, -0.3, 0.7), logu(rng, -0.7, 0.6), s)
    raise ValueError(kind)


def params_for(rng, skel, L, amp):
    """A spec with random parameters for a skeleton (filled leaf by leaf)."""
    k = skel[0]
    if k in ("sum", "prod"):
        f = 1.0 if k == "sum" else 0.5
        a = amp if k == "sum" else abs(amp) ** f
        return (k, params_for(rng, skel[1], L, a), params_for(rng, skel[2], L, a))
    if k == "scale":
        return ("scale", logu(rng, -1, 1), params_for(rng, skel[2], L, amp))
    if k == "int":
        return ("int", params_for(rng, skel[1], L, amp))
    return leaf(rng, k, L, amp)


def skel_leaf(kind):
    n = {"Exp": 2, "Matern32": 2, "Matern52": 2, "SHO": 3, "Cosine": 2, "Constant": 1,
         "ExpSineSquared": 3}[kind]
    return (kind,) + (specs.PARAM,) * n


BASIC = ("Exp", "Matern32", "Matern52", "SHO", "Cosine", "Constant")


def random_skel(rng, depth=2, kinds=BASIC, p_leaf=0.45, scale=True, maxdim=14):
    for _ in range(100):
        s = _skel(rng, depth, kinds, p_leaf, scale)
        if dim(s) <= maxdim:
            return s
    return skel_leaf("Matern32")


def _skel(rng, depth, kinds, p_leaf, scale):
    if depth == 0 or rng.random() < p_leaf:
        s = skel_leaf(str(rng.choice(kinds)))
    else:
        op = "sum" if rng.random() < 0.6 else "prod"
        s = (op, _skel(rng, depth - 1, kinds, p_leaf, scale), _skel(rng, depth - 1, kinds, p_leaf, scale))
    if scale and rng.random() < 0.15:
        s = ("scale", specs.PARAM, s)
    return s


def dim(skel):
    k = skel[0]
    if k == "sum":
        return dim(skel[1]) + dim(skel[2])
    if k == "prod":
        return dim(skel[1]) * dim(skel[2])
    if k == "scale":
        return dim(skel[2])
    if k == "int":
        return dim(skel[1]) + 1
    return {"Exp": 1, "Matern32": 2, "Matern52": 3, "SHO": 2, "Cosine": 2, "Constant": 1, "ExpSineSquared": 32}[k]


# ------------------------------------------------------------------ coordinates
COORD_MODES = ("uniform", "grid", "clusters", "ties", "loggaps", "offset", "negative", "close", "jitter")


def coords(rng, n, L, mode=None):
    """n sorted coordinates over a few tens of L; returns (t, mode)."""
    mode = mode or str(rng.choice(COORD_MODES))
    T = L * logu(rng, 0.3, 1.7)
    if mode == "uniform":
        t = rng.uniform(0, T, n)
    elif mode == "grid":
        t = np.arange(n) * (T / max(n, 2))
    elif mode == "clusters":
        c = rng.uniform(0, 5 * T, max(1, n // 5))
        t = rng.choice(c, n) + rng.normal(0, 0.05 * L, n)
    elif mode == "ties":
        u = rng.uniform(0, T, max(1, (2 * n) // 3))
        t = rng.choice(u, n)
    elif mode == "loggaps":
        t = np.cumsum(L * 10 ** rng.uniform(-2.5, 1.2, n))
    elif mode == "offset":
        t = rng.uniform(0, T, n) + L * float(rng.choice([1e3, -1e4, 2.4e5]))
    elif mode == "negative":
        t = rng.uniform(-T, T / 3, n)
    elif mode == "close":
        t = np.repeat(rng.uniform(0, T, (n + 1) // 2), 2)[:n] + rng.uniform(0, 1e-4 * L, n)
    elif mode == "jitter":
        t = np.arange(n) * (T / max(n, 2)) + rng.normal(0, 0.1 * T / max(n, 2), n)
    else:
        raise ValueError(mode)
    t = np.sort(t)
    if mode == "ties":
        return t, mode
    return t, mode


def test_points(rng, t, m, L):
    """Unsorted test points before/after/between/at data, with duplicates."""
    lo, hi = t[0], t[-1]
    span = max(hi - lo, L)
    out = []
    for _ in range(m):
        r = rng.random()
        if r < 0.15:
            out.append(lo - span * logu(rng, -3, 0))
        elif r < 0.3:
            out.append(hi + span * logu(rng, -3, 0))
        elif r < 0.45:
            out.append(float(rng.choice(t)))
        elif r < 0.55:
            out.append(float(rng.choice(t)) + rng.choice([-1, 1]) * L * logu(rng, -4, -1))
        elif r < 0.6 and out:
            out.append(out[-1])
        else:
            out.append(rng.uniform(lo, hi) if hi > lo else lo + L * rng.normal())
    out = np.array(out)
    o = rng.random()
    return np.sort(out) if o < 0.2 else (np.sort(out)[::-1].copy() if o < 0.35 else out)


def noise(rng, n, amp2, lo=-4, hi=1):
    r = rng.random()
    if r < 0.3:
        return np.full(n, amp2 * logu(rng, lo, hi))
    if r < 0.8:
        return amp2 * 10 ** rng.uniform(lo, hi, n)
    d = np.full(n, amp2 * logu(rng, lo, 0))
    d[rng.random(n) < 0.3] *= 1e4   # a few nearly useless data
    return d


def data(rng, C):
    """Draw from the model (or scaled / outlier-ridden variants)."""
    n = len(C)
    L = np.linalg.cholesky(C + 1e-12 * np.trace(C) / n * np.eye(n))
    y = L @ rng.normal(size=n)
    r = rng.random()
    if r < 0.15:
        y = y * 5
    elif r < 0.3:
        y[rng.integers(n)] += 20 * np.sqrt(np.max(np.diag(C)))
    elif r < 0.35:
        y = np.zeros(n)
    return y


# ------------------------------------------------------------------ exposures
def exposures(rng, n, ninst, L, mode=None, zero=None):
    """(t_mid, delta, inst): exposures never overlap within an instrument but
    overlap freely between instruments.  Returned in arbitrary order."""
    mode = mode or str(rng.choice(["gaps", "contiguous", "mixed", "short", "long", "same", "zeros"]))
    inst = rng.integers(0, ninst, n)
    ts, te = np.empty(n), np.empty(n)
    t0 = 0.0 if rng.random() < 0.7 else L * float(rng.choice([-50.0, 1e3, 2.4e4]))
    for i in range(ninst):
        idx = np.flatnonzero(inst == i)
        cur = t0 + (0.0 if mode == "same" else L * rng.uniform(0, 1))
        for k in idx:
            d = {"gaps": lambda: L * logu(rng, -1, 0.3), "contiguous": lambda: L * 0.25,
                 "mixed": lambda: L * logu(rng, -1.5, 0.7), "short": lambda: L * logu(rng, -2, -1),
                 "long": lambda: L * logu(rng, 0, 0.8), "same": lambda: L * 0.3,
                 "zeros": lambda: 0.0 if rng.random() < 0.5 else L * logu(rng, -1, 0)}[mode]()
            if mode == "contiguous":
                gap = 0.0 if rng.random() < 0.7 else L * logu(rng, -1, 0)
            elif mode == "same":
                gap = 0.2 * L
            else:
                gap = L * logu(rng, -2, 0.5)
            cur += gap
            ts[k], te[k] = cur, cur + d
            cur += d
    t, d = 0.5 * (ts + te), te - ts
    if rng.random() < 0.6:
        order = np.argsort(t, kind="stable")
    else:
        order = rng.permutation(n)
    return (t[order], d[order], inst[order].astype(int)), mode


def describe(**kw):
    return kw
