"""Workload and reference linear algebra for the matrix-level checks (C08-C13)."""
from __future__ import annotations

import functools

import jax
import jax.numpy as jnp
import numpy as np

from . import gen, oracle, specs
from .core import sut


def expm(F):
    """Matrix exponential by scaling and squaring of a Taylor series (numpy)."""
    F = np.asarray(F, float)
    nrm = np.max(np.sum(np.abs(F), axis=1)) if F.size else 0.0
    s = max(0, int(np.ceil(np.log2(max(nrm, 1e-300) / 0.25))))
    A = F / 2.0**s
    # expm1-style squaring keeps (exp(A) - I) accurate
    term = A.copy()
    E = A.copy()
    for k in range(2, 20):
        term = term @ A / k
        E = E + term
    for _ in range(s):
        E = 2 * E + E @ E
    return np.eye(len(F)) + E


_GX, _GW = np.polynomial.legendre.leggauss(20)


def integrate(f, a, b, rate):
    """Gauss-Legendre panels; f(s) -> array."""
    m = int(min(3000, max(1, np.ceil(rate * (b - a) / 1.5))))
    h = (b - a) / m
    out = 0.0
    for i in range(m):
        mid = a + (i + 0.5) * h
        for x, w in zip(_GX, _GW):
            out = out + 0.5 * h * w * f(mid + 0.5 * h * x)
    return out


def units(Pinf):
    """Standard deviations used as units of the states."""
    d = np.sqrt(np.maximum(np.diag(Pinf), 0.0))
    return np.where(d > 0, d, 1.0)




@functools.lru_cache(maxsize=None)
def mats(skel, num_insts=1, order=16):
    """jitted (params, t1s, t2s) -> all state-space matrices of the structure."""

    def run(params, t1, t2):
        k = specs.smol(specs.fill(skel, params), num_insts, order)
        return dict(F=k.design_matrix(), P=k.stationary_covariance(), Qc=k.noise(), L=k.noise_effect_matrix(),
                    H=k.observation_matrix(0.0),
                    A=jax.vmap(k.transition_matrix)(t1, t2), Q=jax.vmap(k.process_noise)(t1, t2))

    jit = jax.jit(run)

    def call(params, t1, t2, eager=False):
        with sut("state-space matrices"):
            out = (run if eager else jit)([jnp.asarray(float(p)) for p in params], jnp.asarray(t1), jnp.asarray(t2))
            return {k: np.asarray(v, float) for k, v in out.items()}
    return call


def steps(rng, L, n):
    """Non-negative time steps from zero to many L."""
    out = [0.0]
    while len(out) < n:
        r = rng.random()
        out.append(L * (gen.logu(rng, -6, -2) if r < 0.2 else gen.logu(rng, -2, 0.5) if r < 0.6 else
                        gen.logu(rng, 0.5, 1.7) if r < 0.85 else gen.logu(rng, 1.7, 4)))
    return np.array(out[:n])
