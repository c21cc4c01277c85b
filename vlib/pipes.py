"""Driving the real library: whole user-level pipelines, jitted per structure."""
from __future__ import annotations

import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import oracle, specs
from .core import sut


def solvers():
    from smolgp import solvers as S
    return {"auto": None, "serial": S.StateSpaceSolver, "parallel": S.ParallelStateSpaceSolver,
            "iserial": S.IntegratedStateSpaceSolver, "iparallel": S.ParallelIntegratedStateSpaceSolver}


def make_gp(spec, X, diag, solver="auto", num_insts=1, names=None, order=16):
    import smolgp
    X = jax.tree_util.tree_map(jnp.asarray, X)
    kw = {}
    s = solvers()[solver]
    if s is not None:
        kw["solver"] = s
    if diag is not None:
        kw["diag"] = jnp.asarray(diag)
    return smolgp.GaussianProcess(specs.smol(spec, num_insts, order, names), X, **kw)


def pipeline(skel, solver="auto", num_insts=1, want=("ll", "cond", "pred")):
    """jitted: (params, X, diag, y, Xs) -> dict of observable results"""

    def run(params, X, diag, y, Xs):
        gp = make_gp(specs.fill(skel, params), X, diag, solver, num_insts)
        out = {}
        if "ll" in want:
            out["ll"] = gp.log_probability(y)
        if "cond" in want or "pred" in want or "states" in want:
            res = gp.condition(y)
            out["ll_cond"] = res.log_probability
            c = res.gp
            out["loc"], out["var"] = c.loc, c.variance
            if "pred" in want:
                out["pm"], out["pv"] = c.predict(Xs, return_var=True)
            if "condpred" in want:
                r2 = gp.condition(y, Xs)
                out["cm"], out["cv"] = r2.gp.loc, r2.gp.variance
            if "states" in want:
                st = c.states
                out["states"] = dict(t=st.t_states, obsid=st.obsid, stateid=st.stateid,
                                     mp=st.predicted_mean, Pp=st.predicted_cov,
                                     mf=st.filtered_mean, Pf=st.filtered_cov,
                                     ms=st.smoothed_mean, Ps=st.smoothed_cov)
        return out

    jit = jax.jit(run)

    @functools.wraps(run)
    def call(params, X, diag, y, Xs=None, eager=False):
        X = jax.tree_util.tree_map(jnp.asarray, X)
        params = [jnp.asarray(float(p)) for p in params]
        diag = jnp.asarray(diag)
        y = jnp.asarray(y)
        if Xs is not None:
            Xs = jax.tree_util.tree_map(jnp.asarray, Xs)
        with sut("pipeline" + (" (eager)" if eager else "")):
            r = (run if eager else jit)(params, X, diag, y, Xs)
            return jax.tree_util.tree_map(np.asarray, r)

    return call


def tols(dn, base=None, amp=100.0, solver="auto", inst_base=1e-8):
    """Scale-aware tolerances of the dense comparison `dn` (oracle.Dense):
    (log density, means, variances).

    f = relative rounding budget from conditioning.  Smoothed variances of integrated
    models pass through pseudo-inverses of nearly singular covariances (10x); exposures
    much shorter than the scale of the smoothest kernel (Matern-5/2) lose further digits.
    """
    eps = 2.3e-16
    integrated = oracle.has_int(dn.spec)
    base = base if base is not None else 1e-6 if integrated else inst_base
    f = base + amp * eps * dn.cond
    if "ExpSineSquared" in str(dn.spec):
        f = f * 1e3  # state variances graded over many decades: less accurate internally
    chi2 = float(dn.w @ dn.w)
    n = len(dn.y)
    fm = fv = f
    if integrated:
        fv = 10 * f
        if "Matern52" in str(dn.spec):
            fv = 10 * fv
    return f * (n + chi2 + 1.0), fm * (np.max(np.abs(dn.y)) + np.sqrt(np.max(np.diag(dn.K)))), fv * np.max(np.diag(dn.K))


def too_short(spec, X, solver):
    """Parallel integrated Matern-5/2 with exposures below 1% of its scale: not claimed."""
    if solver != "iparallel" or not isinstance(X, tuple):
        return False
    d = X[1][X[1] > 0]
    return bool(len(d)) and any(np.min(d) < 0.01 * s[1] for s in leaves(spec) if s[0] == "Matern52")


def leaves(spec):
    if spec[0] in ("sum", "prod"):
        return leaves(spec[1]) + leaves(spec[2])
    if spec[0] == "scale":
        return leaves(spec[2])
    if spec[0] == "int":
        return leaves(spec[1])
    return [spec]
