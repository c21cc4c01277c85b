"""Independent reference model for smolgp (numpy only, float64).

Nothing here imports smolgp, tinygp or jax: covariances come from the closed
forms printed in the documentation of each kernel, exposure-averaged
covariances from Gauss-Legendre quadrature of those closed forms, and inference
from the textbook dense Gaussian-process formulas (Cholesky of the N x N
covariance matrix).

A kernel *spec* is a nested tuple
    ("Exp"|"Matern32"|"Matern52", scale, sigma)
    ("SHO", omega, quality, sigma)
    ("Cosine", scale, sigma)
    ("Constant", sigma)
    ("ExpSineSquared", period, gamma, sigma)
    ("Matern", nu, scale, sigma)
    ("sum", spec, spec) ("prod", spec, spec) ("scale", c, spec)
    ("int", spec)          exposure-integrated version of a leaf spec
"""
from __future__ import annotations

import math

import numpy as np

LEAVES = ("Exp", "Matern32", "Matern52", "SHO", "Cosine", "Constant",
          "ExpSineSquared", "Matern")


# --------------------------------------------------------------- closed forms
def k_leaf(spec, tau):
    tau = np.abs(np.asarray(tau, dtype=np.float64))
    kind = spec[0]
    if kind == "Exp":
        _, ell, s = spec
        return s**2 * np.exp(-tau / ell)
    if kind == "Matern32":
        _, ell, s = spec
        f = np.sqrt(3.0) / ell
        return s**2 * (1 + f * tau) * np.exp(-f * tau)
    if kind == "Matern52":
        _, ell, s = spec
        f = np.sqrt(5.0) / ell
        return s**2 * (1 + f * tau + f**2 * tau**2 / 3) * np.exp(-f * tau)
    if kind == "Matern":
        _, nu, ell, s = spec
        p = int(round(nu - 0.5))
        f = np.sqrt(2 * nu) / ell
        pol = np.zeros_like(tau)
        for i in range(p + 1):
            c = math.factorial(p + i) / (math.factorial(i) * math.factorial(p - i))
            pol = pol + c * (2 * f * tau) ** (p - i)
        return s**2 * np.exp(-f * tau) * pol * math.factorial(p) / math.factorial(2 * p)
    if kind == "Cosine":
        _, ell, s = spec
        return s**2 * np.cos(2 * np.pi * tau / ell)
    if kind == "Constant":
        return spec[1] ** 2 * np.ones_like(tau)
    if kind == "ExpSineSquared":
        _, P, g, s = spec
        return s**2 * np.exp(-g * np.sin(np.pi * tau / P) ** 2)
    if kind == "SHO":
        _, w, Q, s = spec
        a = 0.5 * w / Q
        x = w * tau
        if abs(Q - 0.5) < 1e-9:
            return s**2 * np.exp(-x) * (1 + x)
        eta = np.sqrt(abs(1 - 1 / (4 * Q**2)))
        if Q > 0.5:
            return s**2 * np.exp(-a * tau) * (
                np.cos(eta * x) + np.sin(eta * x) / (2 * eta * Q))
        # exp(-a t) cosh/sinh without overflow
        ep = np.exp((eta * w - a) * tau)
        em = np.exp(-(eta * w + a) * tau)
        return s**2 * (0.5 * (ep + em) + 0.5 * (ep - em) / (2 * eta * Q))
    raise ValueError(kind)


def k_fn(spec, tau):
    """Covariance as a function of lag for an instantaneous spec."""
    kind = spec[0]
    if kind == "sum":
        return k_fn(spec[1], tau) + k_fn(spec[2], tau)
    if kind == "prod":
        return k_fn(spec[1], tau) * k_fn(spec[2], tau)
    if kind == "scale":
        return spec[1] * k_fn(spec[2], tau)
    if kind == "int":
        return k_fn(spec[1], tau)
    return k_leaf(spec, tau)


def rate(spec):
    """A characteristic inverse length used to size quadrature panels."""
    kind = spec[0]
    if kind in ("sum",):
        return max(rate(spec[1]), rate(spec[2]))
    if kind == "prod":
        return rate(spec[1]) + rate(spec[2])
    if kind == "scale":
        return rate(spec[2])
    if kind == "int":
        return rate(spec[1])
    if kind == "Exp":
        return 1 / spec[1]
    if kind == "Matern32":
        return np.sqrt(3) / spec[1]
    if kind == "Matern52":
        return np.sqrt(5) / spec[1]
    if kind == "Matern":
        return np.sqrt(2 * spec[1]) / spec[2]
    if kind == "Cosine":
        return 2 * np.pi / spec[1]
    if kind == "Constant":
        return 0.0
    if kind == "ExpSineSquared":
        return 2 * np.pi / spec[1] * max(1.0, np.sqrt(abs(spec[2])))
    if kind == "SHO":
        w, Q = spec[1], spec[2]
        if Q >= 0.5:
            return w
        return w * (np.sqrt(abs(1 / (4 * Q**2) - 1)) + 0.5 / Q)
    raise ValueError(kind)


def amp2(spec):
    return float(k_fn(spec, np.zeros(())))


# ------------------------------------------------------------------ quadrature
_GLX, _GLW = np.polynomial.legendre.leggauss(24)


def _gl(f, a, b, r):
    """Vectorised int_a^b f for arrays a<=b; panels sized with rate r."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    L = float(np.max(b - a)) if a.size else 0.0
    m = int(min(400, max(1, math.ceil(r * L / 4.0))))
    out = np.zeros_like(a)
    h = (b - a) / m
    for i in range(m):
        lo = a + i * h
        mid = lo + h / 2
        u = mid[..., None] + 0.5 * h[..., None] * _GLX
        out = out + 0.5 * h * (f(u) @ _GLW)
    return out


def avg_cov(spec, m1, d1, m2, d2):
    """Cov of exposure averages over [m-d/2, m+d/2]; d==0 means a point value.

    Broadcasts.  Uses int int k(u-v) = int k(tau) w(tau) dtau with w the
    trapezoidal overlap density, integrated panel by panel between its kinks
    (and tau=0), where the integrand is analytic.
    """
    m1, d1, m2, d2 = np.broadcast_arrays(*(np.asarray(v, float) for v in (m1, d1, m2, d2)))
    D = m1 - m2
    s = (d1 + d2) / 2
    q = np.abs(d1 - d2) / 2
    r = rate(spec)
    big = np.maximum(d1, d2)
    out = np.empty(D.shape)
    pt = big <= 0
    out[pt] = k_fn(spec, D[pt])
    idx = ~pt
    if np.any(idx):
        Di, si, qi, bi = D[idx], s[idx], q[idx], big[idx]
        # density of (u - v): trapezoid centred on D, top half width q, base s
        kn = np.stack([Di - si, Di - qi, Di + qi, Di + si,
                       np.clip(np.zeros_like(Di), Di - si, Di + si)], -1)
        kn.sort(-1)

        def dens(u):
            x = np.abs(u - Di[:, None])
            w = si - qi
            with np.errstate(divide="ignore", invalid="ignore"):
                ramp = np.where(w[:, None] > 0, (si[:, None] - x) / np.where(w > 0, w, 1)[:, None], 1.0)
            return np.clip(ramp, 0, 1) / bi[:, None]

        tot = np.zeros_like(Di)
        for j in range(4):
            tot += _gl(lambda u: k_fn(spec, u) * dens(u), kn[:, j], kn[:, j + 1], r)
        out[idx] = tot
    return out


# ---------------------------------------------------------------- dense models
def split(spec):
    """Flatten a sum spec to its list of additive components."""
    if spec[0] == "sum":
        return split(spec[1]) + split(spec[2])
    return [spec]


def has_int(spec):
    if spec[0] == "int":
        return True
    return any(has_int(s) for s in spec[1:] if isinstance(s, tuple))


def cov(spec, X1, X2):
    """Dense covariance between two coordinate sets.

    A coordinate set is a 1-D array (instantaneous) or (t_mid, delta, inst).
    Integrated components average over the exposure; instantaneous components
    in a mixed model are sampled at the exposure end (the state at which the
    measurement update takes place).
    """
    kind = spec[0]
    if kind == "sum":
        return cov(spec[1], X1, X2) + cov(spec[2], X1, X2)
    if kind == "scale":
        return spec[1] * cov(spec[2], X1, X2)

    def td(X):
        if isinstance(X, tuple):
            return np.asarray(X[0], float), np.asarray(X[1], float)
        X = np.asarray(X, float)
        return X, np.zeros_like(X)

    t1, d1 = td(X1)
    t2, d2 = td(X2)
    if kind == "int":
        return avg_cov(spec[1], t1[:, None], np.maximum(d1, 0)[:, None], t2[None, :], np.maximum(d2, 0)[None, :])
    e1 = t1 + d1 / 2
    e2 = t2 + d2 / 2
    return k_fn(spec, e1[:, None] - e2[None, :])


class Dense:
    """Textbook dense GP regression on the closed-form covariance."""

    def __init__(self, spec, X, diag, y):
        self.spec, self.X = spec, X
        self.y = np.asarray(y, float)
        n = len(self.y)
        self.diag = np.broadcast_to(np.asarray(diag, float), (n,))
        self.K = cov(spec, X, X)
        self.C = self.K + np.diag(self.diag)
        self.L = np.linalg.cholesky(self.C)
        self.w = np.linalg.solve(self.L, self.y)
        self.alpha = np.linalg.solve(self.L.T, self.w)
        ev = np.linalg.eigvalsh(self.C)
        self.cond = ev[-1] / max(ev[0], 1e-300)

    def loglik(self):
        return float(-0.5 * self.w @ self.w - np.sum(np.log(np.diag(self.L)))
                     - 0.5 * len(self.y) * np.log(2 * np.pi))

    def prequential(self):
        """(v_k, S_k): one-step-ahead residuals/variances in the order given."""
        d = np.diag(self.L)
        return self.w * d, d**2

    def posterior(self, Xs, comp=None, full=False):
        """Posterior mean/var of (a component of) the latent function at Xs."""
        sp = self.spec if comp is None else comp
        Ks = cov(sp, Xs, self.X)
        mu = Ks @ self.alpha
        V = np.linalg.solve(self.L, Ks.T)
        if full:
            return mu, cov(sp, Xs, Xs) - V.T @ V
        if isinstance(Xs, tuple):
            n = len(Xs[0])
            kss = np.array([cov(sp, tuple(np.asarray(a)[i:i + 1] for a in Xs),
                                tuple(np.asarray(a)[i:i + 1] for a in Xs))[0, 0] for i in range(n)])
        else:
            kss = k_fn(sp, np.zeros(len(np.asarray(Xs)))) if sp[0] != "sum" or not has_int(sp) else \
                k_fn(sp, np.zeros(len(np.asarray(Xs))))
        return mu, kss - np.sum(V * V, 0)
