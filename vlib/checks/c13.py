"""C13: power spectral densities are the Fourier transforms of the covariances."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, oracle, specs
from ..core import rng_for, sut

RULE = ("every kernel with a spectrum, random sums, products and scalings of them x parameters x 40 frequencies of both "
        "signs over six decades; non-trivial = distinct kernel with all frequencies and 5 lags compared")
ASSUMPTIONS = ["float64; convention k(tau) = integral over all omega of psd(omega) cos(omega tau)",
               "oracle: closed forms for the leaves, Gauss-Legendre Fourier quadrature of closed-form covariances for "
               "combinations (accurate to about 1e-8 of the peak)"]
KINDS = ("Exp", "Matern32", "Matern52", "SHO")


def jobs(tier, seed):
    rng = rng_for(seed, "C13", "jobs")
    q = tier == "quick"
    S, P = gen.skel_leaf, specs.PARAM
    out = [{"skel": S(k)} for k in KINDS] + [{"skel": S("SHO")}]
    out += [{"skel": s} for s in [("sum", S("SHO"), S("Matern32")), ("prod", S("Exp"), S("Cosine")),
                                  ("prod", S("SHO"), S("Matern52")), ("prod", S("Cosine"), S("Matern32")),
                                  ("scale", P, S("SHO")), ("scale", P, ("prod", S("Exp"), S("Matern32"))),
                                  ("sum", ("scale", P, S("Exp")), ("prod", S("SHO"), S("Exp"))),
                                  ("prod", S("Matern32"), ("sum", S("Cosine"), S("Exp"))),
                                  ("prod", S("SHO"), ("scale", P, S("Matern32")))]]
    out += [{"skel": gen.random_skel(rng, kinds=KINDS, depth=2)} for _ in range(4 if q else 80)]
    out += [{"matern": nu} for nu in (0.5, 1.5, 2.5, 3.5)]
    for j in out:
        j["cases"] = (10 if "skel" in j else 2) * (1 if q else 5)
    return out


def slowest(spec):
    """(decay rate, or 0) of the slowest mode of a covariance function."""
    k = spec[0]
    if k == "sum":
        return min(slowest(spec[1]), slowest(spec[2]))
    if k == "prod":
        return slowest(spec[1]) + slowest(spec[2])
    if k == "scale":
        return slowest(spec[2])
    if k == "SHO":
        w, Q = spec[1], spec[2]
        return w / (2 * Q) if Q >= 0.5 else w / (2 * Q) * (1 - np.sqrt(1 - 4 * Q * Q))
    if k in ("Cosine", "Constant"):
        return 0.0
    return oracle.rate(spec)


def leaf_psd(spec, w):
    k, s2 = spec[0], oracle.amp2(spec)
    if k == "SHO":
        w0, Q = spec[1], spec[2]
        return s2 * 2 * w0**3 / Q / ((w * w - w0 * w0) ** 2 + (w * w0 / Q) ** 2) / (2 * np.pi)
    l = oracle.rate(spec)
    return s2 / (2 * np.pi) * {"Exp": 2 * l / (l * l + w * w), "Matern32": 4 * l**3 / (l * l + w * w) ** 2,
                               "Matern52": 16 / 3 * l**5 / (l * l + w * w) ** 3}[k]


def fourier(spec, w):
    lam = slowest(spec)
    T = 45.0 / lam
    m = int(np.ceil((oracle.rate(spec) + np.max(np.abs(w))) * T / 6.0)) + 1
    # geometric refinement near zero is unnecessary: the integrand is analytic for tau > 0
    x, g = np.polynomial.legendre.leggauss(24)
    h = T / m
    tau = ((np.arange(m)[:, None] + 0.5) * h + 0.5 * h * x[None, :]).ravel()
    wt = np.tile(0.5 * h * g, m)
    kt = oracle.k_fn(spec, tau) * wt
    return np.array([kt @ np.cos(wi * tau) for wi in w]) / np.pi, m


def run(job, ctx):
    if "skel" in job:
        skel = inst.tup(job["skel"])
        f = jax.jit(lambda params, w: specs.smol(specs.fill(skel, params)).psd(w))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        L = float(rng.choice([1.0, 1e-2, 300.0]))
        if "skel" in job:
            spec = gen.params_for(rng, skel, L, float(rng.choice([1.0, 1e-2, 30.0])))
        else:
            L = 1.0
            spec = ("Matern", job["matern"], gen.logu(rng, -0.5, 0.5), gen.logu(rng, -1, 1))
        lam, r = slowest(spec), oracle.rate(spec)
        w = np.concatenate([[0.0], r * 10 ** rng.uniform(-3, 0.7, 12), lam * 10 ** rng.uniform(-1, 1, 4)])
        hi = r * 10 ** rng.uniform(0.7, 2.5, 4)
        with ctx.case(c, dict(spec=spec, w=w[:6])):
            ctx.cover(structure=specs.label(skel) if "skel" in job else f"Matern({job['matern']})")
            allw = np.concatenate([w, -w, hi, -hi])
            with sut("psd"):
                if "skel" in job:
                    got = np.asarray(f(specs.flatten(spec)[1], jnp.asarray(allw)))
                else:
                    got = np.asarray(specs.smol(spec).psd(jnp.asarray(allw)))
            ctx.true("real", np.isrealobj(got))
            n, nh = len(w), len(hi)
            g, gm, gh, ghm = got[:n], got[n:2 * n], got[2 * n:2 * n + nh], got[2 * n + nh:]
            if "skel" not in job and job["matern"] < 3:
                spec = ({0.5: "Exp", 1.5: "Matern32", 2.5: "Matern52"}[job["matern"]], spec[2], spec[3])
            if spec[0] in KINDS:
                ctx.close("leaf_spectrum", got, leaf_psd(spec, allw), 1e-7 * leaf_psd(spec, allw) + 1e-300)
                peak = np.max(leaf_psd(spec, np.concatenate([allw, [spec[1] if spec[0] == "SHO" else 0.0]])))
            else:
                peak = np.max(np.abs(got))
            ctx.true("non_negative", np.all(got >= -1e-9 * peak), got)
            ctx.close("even", gm, g, 1e-9 * peak)
            ctx.close("even_high", ghm, gh, 1e-9 * peak)
            want, m = fourier(spec, w)
            ctx.close("fourier_transform", g, want, 1e-7 * np.max(np.abs(want)) + 1e-7 * peak, dict(panels=m))
            ctx.true("decays", np.all(np.abs(gh) <= peak * (1 + 1e-9)))
