"""C21: dense reference kernels equal the double integrals they stand for."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, oracle
from ..core import sut

RULE = ("random underdamped oscillators in both parameterisations x pairs of exposures (separated, touching, partial "
        "overlap, nested, sharing an edge, equal, zero-length outside/inside/at the edge) in both argument orders; "
        "non-trivial = distinct oscillator and exposures, each pair compared with the double integral")
ASSUMPTIONS = ["quality factor 0.6..20, exposures zero or at least 2% of the undamped period (the closed form cancels "
               "below)", "float64"]
CONF = ("separate", "touch", "partial", "nested", "edge", "equal", "point_out", "point_in", "point_edge", "points", "same_mid")


def jobs(tier, seed):
    return [{"par": p, "cases": 60 if tier == "quick" else 500, "k": k} for p in ("SwQ", "rts") for k in range(4 if tier == "quick" else 8)]


def pair(rng, conf, T):
    d1 = T * gen.logu(rng, -1.6, 0.7)
    d2 = T * gen.logu(rng, -1.6, 0.7)
    a = T * rng.uniform(-3, 3)
    if conf == "separate":
        b = a + d1 + T * gen.logu(rng, -2, 1)
    elif conf == "touch":
        a = np.round(a / T * 64) / 64 * T
        b = a + d1
    elif conf == "partial":
        m = max(min(d1, d2) * rng.uniform(0.05, 0.95), 0.005 * T)
        b = a + d1 - m
    elif conf == "nested":
        d1, d2 = max(d1, 3 * d2 if d2 < T else d1), min(d2, d1 * 0.6)
        if d2 >= d1:
            d2 = 0.5 * d1
        b = a + (d1 - d2) * rng.uniform(0.1, 0.9)
    elif conf == "edge":
        d1, d2 = max(d1, d2), min(d1, d2)
        b = a if rng.random() < 0.5 else a + d1 - d2
    elif conf == "same_mid":
        d1, d2 = max(d1, d2), min(d1, d2)
        b = a + (d1 - d2) / 2
    elif conf == "equal":
        d2, b = d1, a
    else:
        d2 = 0.0
        if conf == "point_out":
            b = a + d1 + T * gen.logu(rng, -2, 1)
        elif conf == "point_in":
            b = a + d1 * rng.uniform(0.1, 0.9)
        elif conf == "point_edge":
            b = a + d1 * float(rng.integers(0, 2))
        else:
            d1 = 0.0
            b = a + (0.0 if rng.random() < 0.2 else T * gen.logu(rng, -3, 1))
    if rng.random() < 0.5:  # the second one first
        b = 2 * a + d1 - b - d2
    p, q = (a + d1 / 2, d1), (b + d2 / 2, d2)
    return (p, q) if rng.random() < 0.5 else (q, p)


def run(job, ctx):
    from smolgp.kernels.dense import IntegratedSHOKernel, SHOKernel
    par = job["par"]

    def f(p1, p2, p3, t1, d1, t2, d2):
        kw = dict(S=p1, w=p2, Q=p3) if par == "SwQ" else dict(rho=p1, tau=p2, sig=p3)
        k = IntegratedSHOKernel(**kw)
        k0 = SHOKernel(**kw)
        i1, i2 = jnp.zeros(t1.shape, int), jnp.ones(t2.shape, int)
        ev = lambda kk, X, Y: jax.vmap(kk.evaluate)(X, Y)  # noqa: E731
        return dict(ab=ev(k, (t1, d1, i1), (t2, d2, i2)), ba=ev(k, (t2, d2, i2), (t1, d1, i1)),
                    K=k((t1, d1, i1), (t2, d2, i2)), lat=ev(k0, t1, t2), lat2=ev(k0, (t1, i1), (t2, i2)),
                    lat3=ev(k0, (t2, d2, i2), (t1, d1, i1)), nod=ev(k, t1, t2))

    jit = jax.jit(f)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        w = gen.logu(rng, -3, 3)
        Q = float(rng.choice([0.6, 0.7071067811865476, 1.0, 5.0, 20.0])) if rng.random() < 0.4 else gen.logu(rng, -0.2, 1.3)
        sig = gen.logu(rng, -2, 2)
        T = 2 * np.pi / w
        pars = (sig**2 / (w * Q), w, Q) if par == "SwQ" else (T, 2 * Q / w, sig)
        confs = [str(x) for x in rng.choice(CONF, 8)]
        ps = [pair(rng, cf, T) for cf in confs]
        t1, d1, t2, d2 = (np.array([p[i][j] for p in ps]) for i in (0, 1) for j in (0, 1))
        with ctx.case(c, dict(w=w, Q=Q, sig=sig, par=par, confs=confs, t1=t1, d1=d1, t2=t2, d2=d2)):
            for cf in confs:
                ctx.cover(configuration=cf)
            ctx.cover(quality=f"{Q:.1g}")
            eager = c % 30 == 0
            with sut("dense kernels"):
                r = (f if eager else jit)(*pars, *map(jnp.asarray, (t1, d1, t2, d2)))
                r = {k: np.asarray(v) for k, v in r.items()}
            spec = ("SHO", w, Q, sig)
            want = oracle.avg_cov(spec, t1, d1, t2, d2)
            # cancellation in the closed form for short exposures
            lo = np.minimum(*(np.where(d > 0, d, T) for d in (d1, d2)))
            tol = sig**2 * (1e-9 + 1e-13 * (T / lo) ** 3 * (1 + Q))
            ctx.close("double_integral", r["ab"], want, tol, dict(confs=confs))
            ctx.close("double_integral_swapped", r["ba"], want, tol, dict(confs=confs))
            ctx.close("matrix", np.diag(r["K"]), r["ab"], 1e-12 * sig**2)
            pt = oracle.k_fn(spec, t1 - t2)
            for nm in ("lat", "lat2", "lat3", "nod"):
                ctx.close("latent_" + nm, r[nm], pt, 1e-9 * sig**2)
