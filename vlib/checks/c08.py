"""C08: kernels evaluate to their documented closed forms."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, oracle, specs
from ..core import rng_for, sut

RULE = ("every kernel and random combinations x parameters x coordinate pairs (equal, both orders, near, far, offset; "
        "1..12 x 1..12 of them); non-trivial = distinct kernel and coordinate sets compared with the closed form")
ASSUMPTIONS = ["float64", "closed forms as printed in the documentation (sign convention of the SHO: the standard one "
               "of Foreman-Mackey et al. 2017, which the printed formula transposes)",
               "generic Matern: eager only, moderate lags", "ExpSineSquared: order 16, gamma <= 4"]
LEAVES = ("Exp", "Matern32", "Matern52", "SHO", "Cosine", "Constant", "ExpSineSquared")


def jobs(tier, seed):
    rng = rng_for(seed, "C08", "jobs")
    out = [{"skel": gen.skel_leaf(k)} for k in LEAVES] + [{"skel": gen.skel_leaf("SHO")}]
    out += [{"skel": ("int", gen.skel_leaf(k))} for k in specs.INTEGRABLE]
    out += [{"skel": s} for s in inst.composite_skels()[:6 if tier == "quick" else 99]]
    n = 5 if tier == "quick" else 120
    out += [{"skel": gen.random_skel(rng, depth=3, kinds=LEAVES[:6])} for _ in range(n)]
    out += [{"matern": nu} for nu in ((0.5, 1.5, 2.5, 3.5) if tier == "quick" else (0.5, 1.5, 2.5, 3.5, 4.5, 5.5))]
    for j in out:
        j["cases"] = (40 if "skel" in j else 4) * (1 if tier == "quick" else 6)
    return out


def pair(rng, L, n, m):
    mode = str(rng.choice(["random", "same", "offset", "ties", "far", "tiny", "grid"]))
    a = L * rng.uniform(-5, 5, n)
    b = L * rng.uniform(-5, 5, m)
    if mode == "same":
        b = rng.permutation(a) if rng.random() < 0.5 else a.copy()
    elif mode == "offset":
        a, b = a + 2.4e5 * L, b + 2.4e5 * L
    elif mode == "ties":
        b = rng.choice(a, m)
    elif mode == "far":
        a = a * 10 ** rng.uniform(0, 4, n)
    elif mode == "tiny":
        b = rng.choice(a, m) + L * rng.normal(size=m) * 10 ** rng.uniform(-12, -3, m)
    elif mode == "grid":
        a, b = L * np.arange(n) * 0.5, L * np.arange(m)[::-1] * 0.5
    return a, b, mode


def checks(ctx, spec, a, b, got, tol, desc):
    s2 = oracle.amp2(spec)
    want = oracle.k_fn(spec, a[:, None] - b[None, :])
    t = tol * max(s2, 1e-300)
    ctx.close("closed_form", got["ab"], want, t, desc)
    ctx.close("symmetric_arguments", got["ba"], got["ab"].T, t, desc)
    ctx.close("closed_form_square", got["aa"], oracle.k_fn(spec, a[:, None] - a[None, :]), t, desc)
    ctx.close("matrix_symmetric", got["aa"], got["aa"].T, t, desc)
    ctx.close("stationary", got["sh"], got["ab"], t, desc)
    ctx.close("diagonal", got["d"], np.full(len(a), s2), t, desc)
    ctx.close("diagonal_of_matrix", np.diag(got["aa"]), got["d"], t, desc)
    if np.all(np.isfinite(got["aa"])):
        ctx.true("positive_semidefinite", np.min(np.linalg.eigvalsh((got["aa"] + got["aa"].T) / 2)) >= -len(a) * t, desc)


def run(job, ctx):
    if "matern" in job:
        return run_matern(job, ctx)
    skel = inst.tup(job["skel"])
    integ = oracle.has_int(skel)
    n, m = (7, 12) if job["i"] % 2 else (12, 5)

    def f(params, a, b, sh):
        k = specs.smol(specs.fill(skel, params), 2)
        if integ:  # a latent (instantaneous) coordinate, as bare time or as zero exposure
            X = lambda u: (u, jnp.zeros_like(u), jnp.ones(u.shape, int))  # noqa: E731
            return dict(ab=k(X(a), X(b)), ba=k(b, a), aa=k(a, a), sh=k(X(a + sh), X(b + sh)), d=k(X(a)))
        return dict(ab=k(a, b), ba=k(b, a), aa=k(a, a), sh=k(a + sh, b + sh), d=k(a))

    jit = jax.jit(f)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        L = float(rng.choice([1.0, 1.0, 1e-3, 86400.0]))
        spec = gen.params_for(rng, skel, L, float(rng.choice([1.0, 1e-3, 40.0])))
        a, b, mode = pair(rng, L, n, m)
        # a shift which keeps the lags exact
        sh = 0.0 if mode in ("tiny", "far") else L * 2.0 ** float(rng.integers(-1, 5))
        a = np.round(a / L * 2**26) / 2**26 * L if sh else a
        b = np.round(b / L * 2**26) / 2**26 * L if sh else b
        with ctx.case(c, dict(spec=spec, coords=mode, L=L, a=a[:5], b=b[:5])):
            ctx.cover(structure=specs.label(skel), coords=mode)
            eager = c == 0 and job["i"] % 4 == 0
            with sut("kernel evaluation"):
                r = (f if eager else jit)(specs.flatten(spec)[1], jnp.asarray(a), jnp.asarray(b), sh)
            tol = 1e-9 + 1e-15 * (abs(sh) + np.max(np.abs(a)) + np.max(np.abs(b))) * oracle.rate(spec)
            checks(ctx, spec, a, b, {k: np.asarray(v) for k, v in r.items()}, tol * 10, None)


def run_matern(job, ctx):
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        spec = ("Matern", job["matern"], gen.logu(rng, -0.5, 0.5), gen.logu(rng, -1, 1))
        a, b, mode = pair(rng, 0.6, 3, 4)
        if mode in ("far", "offset"):
            a, b = rng.uniform(-2, 2, 3), rng.uniform(-2, 2, 4)
        with ctx.case(c, dict(spec=spec, coords=mode, a=a, b=b)):
            ctx.cover(structure=f"Matern({job['matern']})", coords=mode)
            with sut("generic Matern"):
                k = specs.smol(spec)
                A, B = jnp.asarray(a), jnp.asarray(b)
                # (eager: its stationary covariance is not traceable)
                ev = lambda x, y: np.array([[float(k.evaluate(u, v)) for v in y] for u in x])  # noqa: E731
                r = dict(ab=ev(A, B), ba=ev(B, A), aa=ev(A, A), sh=ev(A + 8.0, B + 8.0),
                         d=np.array([float(k.evaluate_diag(u)) for u in A]))
            checks(ctx, spec, a, b, r, 1e-6, None)
