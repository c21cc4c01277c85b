"""C12: integrated state-space matrices are the integrals of the base process."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, integ, oracle, specs, ssm
from ..core import rng_for, sut

RULE = ("every integrated kernel (and sums, scalings) x parameters x 1-4 instruments x steps from zero to thousands of "
        "correlation times x time units; non-trivial = distinct kernel and steps with all matrices checked")
ASSUMPTIONS = ["float64; states in units of their standard deviations, integrals in units of std * step",
               "oracle: own matrix exponential of the augmented design matrix and Gauss-Legendre panels; exposure "
               "variances from the double integral of the closed-form covariance"]


def jobs(tier, seed):
    q = tier == "quick"
    sk = [integ.I(k) for k in specs.INTEGRABLE] * 2 + [integ.I("SHO")] * 4
    comp = [s for s in integ.base_skels() if s[0] != "int"]
    rng = rng_for(seed, "C12", "jobs")
    rng.shuffle(comp)
    sk += [integ.tup(s) for s in comp[:4]] if q else [integ.tup(s) for s in comp] * 4 + sk * 4
    return [{"skel": s, "ninst": int(1 + (i + seed) % 4), "cases": 14 if q else 60} for i, s in enumerate(sk)]


def leaves(spec, c=1.0):
    if spec[0] == "sum":
        return leaves(spec[1], c) + leaves(spec[2], c)
    if spec[0] == "scale":
        return leaves(spec[2], c * spec[1])
    return [(c, spec[1])]


def check_leaf(ctx, spec, c, sl, m, dts, ni, d):
    """Block `sl` of the matrices, of leaf `spec` scaled by c."""
    n = len(dts)
    F = m["F"][sl, sl]
    P = m["P"][sl, sl]
    B = (m["L"] @ m["Qc"] @ m["L"].T)[sl, sl][:d, :d]
    s = np.sqrt(np.diag(P)[:d])
    s0 = np.sqrt(c * oracle.amp2(spec))
    lam = np.max(np.abs(F[:d, :d] * s[None, :] / s[:, None]))
    D = d + ni
    Fw = np.zeros((D, D))
    Fw[:d, :d] = F[:d, :d]
    Fw[d:, 0] = 1.0
    ctx.close("design_matrix", F, Fw, 1e-12 * np.max(np.abs(Fw)), None)
    ctx.close("prior_variance", P[0, 0], s0**2, 1e-9 * s0**2)
    ctx.true("prior_uncorrelated_with_integrals", not np.any(P[:d, d:]) and not np.any(P[d:, :d]))
    for i in range(n):
        dt = dts[i]
        u = np.concatenate([s, np.full(ni, s0 * max(dt, 3e-3 / lam))])
        uu = u[:, None] * u[None, :]
        blk = lambda M, k: M[k][sl, sl]  # noqa: E731
        A, A1, A2 = (blk(m["A"], k) for k in (i, n + i, 2 * n + i))
        Q, Q1, Q2 = (blk(m["Q"], k) for k in (i, n + i, 2 * n + i))
        g = u[None, :] / u[:, None]
        tol = 2e-8
        if dt == 0:
            ctx.close("identity_at_zero_step", A * g, np.eye(D), tol)
            ctx.close("no_noise_at_zero_step", Q / uu, np.zeros((D, D)), tol)
        ctx.close("transition_composes", (A2 @ A1) * g, A * g, tol, dt)
        ctx.close("noise_accumulates", (A2 @ Q1 @ A2.T + Q2) / uu, Q / uu, tol, dt)
        ctx.close("noise_symmetric", Q / uu, Q.T / uu, 1e-9, dt)
        ctx.true("noise_psd", np.min(np.linalg.eigvalsh((Q + Q.T) / 2 / uu)) >= -tol, dt)
        ctx.true("integrals_share_their_increments",
                 np.all(np.abs(Q[d:, d:] - Q[d, d]) <= 1e-12 * uu[d, d])
                 and np.all(np.abs(A[d:, :d] - A[d, :d]) <= 1e-12 * u[d] / s), dt)
        Fs = Fw * u[None, :] / u[:, None]
        if lam * dt < 300:
            ctx.close("transition_is_exponential", A * g, ssm.expm(Fs * dt), tol, dt)
        # Q by Gauss-Legendre panels of the matrix exponential
        if lam * dt < 30 and i >= n - 2:
            Bs = np.zeros((D, D))
            Bs[:d, :d] = B
            Bs = Bs / uu
            W = ssm.integrate(lambda x: (lambda E: E @ Bs @ E.T)(ssm.expm(Fs * x)), 0.0, dt, lam)
            ctx.close("noise_is_integral", Q / uu, W + np.zeros((D, D)), tol, dt)
        # statistics of an exposure that starts from the stationary process
        if dt > 0 and oracle.rate(spec) * dt < 1000:
            Pb = m["P"][sl, sl][:d, :d]
            v = (A[d, :d] @ Pb @ A[d, :d] + Q[d, d]) / dt**2
            want = c * float(oracle.avg_cov(spec, 0.0, dt, 0.0, dt))
            # absolute accuracy relative to the prior variance, as 1/lam sets the unit
            ctx.close("variance_of_an_exposure", v, want, 1e-8 * s0**2 * max(1.0, 3e-3 / (lam * dt)) ** 2, dt)
            x = (A[0, :d] @ Pb @ A[d, :d] + Q[0, d]) / dt
            want = c * float(oracle.avg_cov(spec, dt / 2, dt, dt, 0.0))
            ctx.close("covariance_of_exposure_and_end", x, want, 1e-8 * s0**2 * max(1.0, 3e-3 / (lam * dt)), dt)


def run(job, ctx):
    skel = integ.tup(job["skel"])
    ni = job["ninst"]
    f = ssm.mats(skel, ni)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        L = float(rng.choice([1.0, 1.0, 1e-2, 86400.0]))
        spec = gen.params_for(rng, skel, L, float(rng.choice([1.0, 1e-3, 40.0])))
        dts = np.sort(ssm.steps(rng, L, 6))
        dts = np.concatenate([[d for d in dts if d == 0 or d > 1e-3 * L], L * 10 ** rng.uniform(-1.5, 0.5, 3)])
        dts = np.resize(dts, 9) if len(dts) >= 9 else np.concatenate([dts, L * 10 ** rng.uniform(-1.5, 0.5, 9 - len(dts))])
        T2 = np.concatenate([dts, dts / 3, 2 * dts / 3])
        with ctx.case(c, dict(spec=spec, dts=dts, ninst=ni)):
            ctx.cover(structure=specs.label(skel), instruments=ni)
            m = f(specs.flatten(spec)[1], np.zeros(len(T2)), T2)
            lv = leaves(spec)
            dims = [{"Exp": 1, "Matern52": 3}.get(s[0], 2) for _, s in lv]
            o = 0
            total = sum(dims) + len(dims) * ni
            if not ctx.true("dimension", m["F"].shape == (total, total), m["F"].shape):
                continue
            off = np.ones((total, total), bool)
            for (cc, s), d in zip(lv, dims):
                sl = slice(o, o + d + ni)
                check_leaf(ctx, s, cc, sl, m, dts, ni, d)
                off[sl, sl] = False
                o += d + ni
            ctx.true("components_uncoupled", all(not np.any(M[off]) for M in
                                                 [m["F"], m["P"], *m["A"], *m["Q"]]))
            if c % 7 == 0:
                observation_and_reset(ctx, rng, spec, ni, dims, total)
            if c % 7 == 1 and skel[0] == "int":
                numerical(ctx, spec, ni, dts, L)


def observation_and_reset(ctx, rng, spec, ni, dims, total):
    with sut("observation/reset"):
        k = specs.smol(spec, ni)
        t, d = rng.uniform(-5, 5), gen.logu(rng, -3, 3)
        obs = jax.jit(lambda X: k.observation_matrix(X))
        mod = jax.jit(lambda X: k.observation_model(X))
        R = jax.jit(lambda i: k.reset_matrix(i))
        for i in range(ni):
            for delta in (d, 0.0):
                X = (jnp.asarray(t), jnp.asarray(delta), jnp.asarray(i))
                want = np.zeros((1, total))
                o = 0
                for dm in dims:
                    want[0, o + dm + i if delta > 0 else o] = 1 / delta if delta > 0 else 1.0
                    o += dm + ni
                ctx.close("observes_average", obs(X), want, 1e-12 * (1 / d + 1))
                ctx.close("observation_model", mod(X), want, 1e-12 * (1 / d + 1))
            want = np.ones(total)
            o = 0
            for dm in dims:
                want[o + dm + i] = 0.0
                o += dm + ni
            ctx.close("reset_clears_one_instrument", R(jnp.asarray(i)), np.diag(want), 1e-15)
        o, want = 0, np.zeros((1, total))
        for dm in dims:
            want[0, o] = 1.0
            o += dm + ni
        ctx.close("observes_latent_at_bare_time", k.observation_matrix(t), want, 1e-15)


def numerical(ctx, spec, ni, dts, L):
    base = spec[1]
    with sut("force_numerical"):
        k = specs.smol(spec, ni)
        for dt in dts[-3:-1]:
            Q = np.asarray(k.process_noise(0.0, jnp.asarray(dt)))
            Qn = np.asarray(k.process_noise(0.0, jnp.asarray(dt), force_numerical=True))
            P = np.asarray(k.base_model.stationary_covariance())
            u = np.concatenate([np.sqrt(np.diag(P)), np.full(ni, np.sqrt(oracle.amp2(base)) * max(dt, 3e-3 / oracle.rate(base)))])
            ctx.close("analytic_equals_numerical", Q / np.outer(u, u), Qn / np.outer(u, u), 1e-7, dt)
