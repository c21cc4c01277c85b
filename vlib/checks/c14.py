"""C14: the periodic kernel's series approximation stays within its stated error."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, oracle
from ..core import rng_for, sut

RULE = ("period, gamma in 1e-3..60, amplitude, explicit orders 1..24 or automatic, 40 lags over a thousand periods in "
        "both argument orders; non-trivial = distinct kernel with all lags compared")
ASSUMPTIONS = ["float64", "the automatic order is claimed to keep the error below 1% of the variance for gamma <= 8 and "
               "7% for gamma <= 60 (its thresholds follow figure 2 of Solin & Sarkka 2014)"]


def jobs(tier, seed):
    orders = [None, None, 1, 2, 3, 4, 6, 8, 12, 16] + ([20, 24, 5, 7, 9, 10, 32] if tier == "thorough" else [])
    return [{"order": o, "k": k, "cases": 12 if tier == "quick" else 40}
            for o in orders for k in range(1 if tier == "quick" else 3)]


def run(job, ctx):
    from smolgp.kernels import ExpSineSquared
    order = job["order"]

    def f(p, g, s, a, b):
        k = ExpSineSquared(period=p, gamma=g, sigma=s, order=order)
        return dict(ab=jax.vmap(k.evaluate)(a, b), ba=jax.vmap(k.evaluate)(b, a), d=k(a[:3]), bound=k.error_bound(),
                    P=k.stationary_covariance(), A=jax.vmap(k.transition_matrix)(a[:4], b[:4]))

    jit = jax.jit(f)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        p = gen.logu(rng, -2, 5)
        g = gen.logu(rng, -3, 1.78) if rng.random() < 0.7 else float(rng.choice([0.5, 2.0, 8.0, 32.0, 1.999, 2.001, 8.01, 32.1]))
        s = gen.logu(rng, -2, 2)
        a = p * rng.uniform(-3, 3, 40)
        b = a + p * np.where(rng.random(40) < 0.2, rng.integers(-20, 20, 40), rng.uniform(-1, 1, 40) * 10 ** rng.uniform(-3, 2, 40))
        b[0] = a[0]
        with ctx.case(c, dict(period=p, gamma=g, sigma=s, order=order)):
            ctx.cover(order=order, gamma_decade=int(np.floor(np.log10(g))))
            with sut("ExpSineSquared"):
                if order is None:
                    if c >= 6 and c % 6:
                        continue
                    k = ExpSineSquared(period=p, gamma=g, sigma=s)
                    K = np.asarray(k(jnp.asarray(a[:8]), jnp.asarray(b[:8])))
                    r = dict(ab=np.diag(K), ba=np.diag(np.asarray(k(jnp.asarray(b[:8]), jnp.asarray(a[:8])))),
                             d=np.asarray(k(jnp.asarray(a[:3]))), bound=float(k.error_bound()))
                else:
                    r = {k: np.asarray(v) for k, v in jit(p, g, s, jnp.asarray(a), jnp.asarray(b)).items()}
            n = len(r["ab"])
            spec = ("ExpSineSquared", p, g, s)
            want = oracle.k_fn(spec, a[:n] - b[:n])
            slack = 1e-10 * s * s
            err = np.abs(r["ab"] - want)
            bound = float(r["bound"])
            ctx.true("bound_finite_nonnegative", np.isfinite(bound) and 0 <= bound <= s * s * (1 + 1e-9), bound)
            ctx.true("error_within_bound", np.all(err <= bound + slack), dict(err=float(err.max()), bound=bound))
            ctx.close("symmetric_arguments", r["ba"], r["ab"], slack)
            ctx.true("at_most_prior_variance", np.all(np.abs(r["ab"]) <= s * s * (1 + 1e-10)), r["ab"])
            # the error is largest at zero lag, where it equals the bound
            ctx.close("bound_attained_at_zero_lag", s * s - r["d"], np.full(3, bound), slack)
            ctx.true("bound_is_the_tail", abs(bound - s * s * tail(g / 2, order if order else autoorder(g))) <= 1e-9 * s * s
                     if order else True, dict(bound=bound))
            if order is None:
                lim = 0.01 if g <= 8 else 0.07
                ctx.true("automatic_order_accuracy", np.all(err <= lim * s * s) and bound <= lim * s * s,
                         dict(err=float(err.max()), gamma=g))
            else:
                ctx.close("periodic", r["A"][0], np.eye(len(r["A"][0])), 1e-9)  # zero lag
                ctx.close("covariance_trace", np.trace(r["P"]) / 2, s * s - bound, slack)
                if order >= 16 and g <= 4:
                    ctx.close("converged", r["ab"], want, 1e-9 * s * s)


def tail(x, order):
    from scipy.special import ive
    q = 2 * ive(np.arange(0, 300), x)
    q[0] /= 2
    return max(0.0, 1 - q[:order].sum())


def autoorder(g):
    return None
