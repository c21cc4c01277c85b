"""C09: state-space matrices of every kernel are mutually consistent."""
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, oracle, specs, ssm
from ..core import rng_for, sut

RULE = ("every kernel and random combinations x parameters x time steps (zero, tiny, moderate, thousands of correlation "
        "times) x offsets; non-trivial = distinct kernel and steps with all identities evaluated")
ASSUMPTIONS = ["float64; identities are evaluated with the states in units of their stationary standard deviations",
               "the Van Loan option is exercised for steps up to a few correlation times in unit scale"]
LEAVES = ("Exp", "Matern32", "Matern52", "SHO", "Cosine", "Constant", "ExpSineSquared")


def jobs(tier, seed):
    rng = rng_for(seed, "C09", "jobs")
    q = tier == "quick"
    out = [{"skel": gen.skel_leaf(k)} for k in LEAVES] + [{"skel": gen.skel_leaf("SHO")}] * 2
    out += [{"skel": s} for s in inst.composite_skels()[:7 if q else 99] if gen.dim(s) <= 14]
    out += [{"skel": gen.random_skel(rng, depth=2, kinds=LEAVES[:6])} for _ in range(6 if q else 100)]
    out += [{"matern": nu} for nu in ((0.5, 1.5, 2.5, 3.5) if q else (0.5, 1.5, 2.5, 3.5, 4.5))]
    for j in out:
        j["cases"] = (30 if "skel" in j else 3) * (1 if q else 6)
    return out


def identities(ctx, m, dts, t1, base, far=True):
    """m: matrices for steps [dt_i, dt_i/3, 2 dt_i/3] (time offset t1 included)."""
    d = ssm.units(m["P"])
    n = len(dts)
    F = m["F"] * d[None, :] / d[:, None]
    P = m["P"] / d[:, None] / d[None, :]
    B = m["L"] @ m["Qc"] @ m["L"].T / d[:, None] / d[None, :]
    A = m["A"] * d[None, None, :] / d[None, :, None]
    Q = m["Q"] / d[None, :, None] / d[None, None, :]
    lam = max(np.max(np.abs(F)), 1e-300)
    dim = len(F)
    tol = base * dim
    ctx.close("lyapunov", (F @ P + P @ F.T + B) / lam, np.zeros((dim, dim)), tol, None)
    ctx.close("stationary_covariance_symmetric", P, P.T, tol)
    ctx.true("stationary_covariance_psd", np.min(np.linalg.eigvalsh((P + P.T) / 2)) >= -tol)
    for i in range(n):
        Ai, A1, A2 = A[i], A[n + i], A[2 * n + i]
        Qi, Q1, Q2 = Q[i], Q[n + i], Q[2 * n + i]
        dt = dts[i]
        # rounding of the lag, and of the phase of deterministic components
        e = tol + 4e-16 * lam * (abs(t1) * 2 + dt) * 10
        if dt == 0:
            ctx.close("identity_at_zero_step", Ai, np.eye(dim), e, dt)
            ctx.close("no_noise_at_zero_step", Qi, np.zeros((dim, dim)), e, dt)
        if lam * dt < 2e4:
            ctx.close("exponential_of_design_matrix", Ai, ssm.expm(F * dt), e, dt)
        ctx.close("transition_composes", A2 @ A1, Ai, e, dt)
        ctx.close("noise_is_stationary_minus_propagated", Qi, P - Ai @ P @ Ai.T, e, dt)
        ctx.close("noise_accumulates", A2 @ Q1 @ A2.T + Q2, Qi, e, dt)
        ctx.close("noise_symmetric", Qi, Qi.T, e, dt)
        ctx.true("noise_psd", np.min(np.linalg.eigvalsh((Qi + Qi.T) / 2)) >= -e, dt)
    for i in range(min(n, 2)):  # the integral itself
        dt = dts[-1 - i]
        if lam * dt < 40:
            W = ssm.integrate(lambda s: (lambda E: E @ B @ E.T)(ssm.expm(F * s)), 0.0, dt, lam)
            ctx.close("van_loan_integral", Q[n - 1 - i], W + np.zeros((dim, dim)), tol * 10 + 4e-15 * lam * abs(t1), dt)


def run(job, ctx):
    if "matern" in job:
        return run_matern(job, ctx)
    skel = inst.tup(job["skel"])
    f = ssm.mats(skel)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        L = float(rng.choice([1.0, 1.0, 1e-3, 86400.0]))
        spec = gen.params_for(rng, skel, L, float(rng.choice([1.0, 1e-3, 40.0])))
        dts = np.sort(ssm.steps(rng, L, 8))
        dts = np.concatenate([dts, [L * gen.logu(rng, -1.5, 0.3)]])
        t1 = float(rng.choice([0.0, 0.0, 3.3 * L, -1e3 * L]))
        T1 = np.full(3 * len(dts), t1)
        T2 = t1 + np.concatenate([dts, dts / 3, 2 * dts / 3])
        with ctx.case(c, dict(spec=spec, dts=dts, t1=t1)):
            ctx.cover(structure=specs.label(skel))
            m = f(specs.flatten(spec)[1], T1, T2, eager=False)
            identities(ctx, m, dts, t1, 1e-9)
            if c % 10 == 0:  # units of order one
                spec = gen.params_for(rng, skel, 2.0, 1.0)
                vanloan_option(ctx, spec, f(specs.flatten(spec)[1], T1 * 0, T2 * 0), dts)


def vanloan_option(ctx, spec, m, dts):
    from smolgp.kernels.base import StateSpaceModel
    d = ssm.units(m["P"])
    F = m["F"] * d[None, :] / d[:, None]
    lam = np.max(np.abs(F))
    if lam == 0:
        return
    dt = 1.5 / lam
    # (the matrix exponential of jax gives NaN for large norms)
    if dt * max(np.max(np.abs(m["F"])), np.max(np.abs(m["L"] @ m["Qc"] @ m["L"].T))) > 1e4:
        return
    with sut("process_noise(use_van_loan=True)"):
        k = specs.smol(spec)
        Q = np.asarray(StateSpaceModel.process_noise(k, 0.0, dt, use_van_loan=True))
        Q0 = np.asarray(k.process_noise(0.0, dt))
        Qs = np.asarray(StateSpaceModel.process_noise(k, 0.0, dt))
        A = np.asarray(StateSpaceModel.transition_matrix(k, 0.0, dt))
        A0 = np.asarray(k.transition_matrix(0.0, dt))
    u = d[:, None] * d[None, :]
    ctx.close("van_loan_option", Q / u, Q0 / u, 1e-6, dt)
    ctx.close("default_process_noise", Qs / u, Q0 / u, 1e-6, dt)
    ctx.close("default_transition_matrix", A * d[None, :] / d[:, None], A0 * d[None, :] / d[:, None], 1e-6, dt)


def run_matern(job, ctx):
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        spec = ("Matern", job["matern"], gen.logu(rng, -0.5, 0.5), gen.logu(rng, -1, 1))
        dts = np.array([0.0, gen.logu(rng, -4, -1), gen.logu(rng, -1, 0.5), gen.logu(rng, -1, 0.3)])
        T2 = np.concatenate([dts, dts / 3, 2 * dts / 3])
        with ctx.case(c, dict(spec=spec, dts=dts)):
            ctx.cover(structure=f"Matern({job['matern']})")
            with sut("generic Matern"):
                k = specs.smol(spec)
                m = dict(F=k.design_matrix(), P=k.stationary_covariance(), Qc=k.noise(), L=k.noise_effect_matrix(),
                         A=[k.transition_matrix(0.0, jnp.asarray(t)) for t in T2],
                         Q=[k.process_noise(0.0, jnp.asarray(t)) for t in T2])
                m = {a: np.asarray(b) for a, b in m.items()}
            identities(ctx, m, dts, 0.0, 1e-6)
