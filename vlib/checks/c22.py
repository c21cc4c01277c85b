"""C22: inference stays finite and correct for extreme but valid inputs."""
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import Skip, rng_for

RULE = ("per structure and solver, hostile inputs in turn: groups of data separated by 50 to 1e7 correlation times, test points "
        "as far from the data, time and amplitude units over 18 decades, noise from 1e-10 to 1e10 of the variance in one "
        "data set, nearly noiseless and noise-free data, outliers of 1e6 standard deviations, oscillators with quality "
        "0.01 to 3000, exposures from 1e-3 to 1e3 correlation times; every output must be finite, equal the dense answer "
        "and obey the limit law of its input; non-trivial = distinct hostile input whose limit law was evaluated")
ASSUMPTIONS = ["float64, diagonal noise, zero mean", "coordinates of far groups are exactly representable",
               "integrated Matern-5/2: exposures at least 2% of its scale"]
KINDS = ("groups", "groups", "far", "units", "noise", "noiseless", "zeronoise", "outlier", "quality", "amplitude")
IKINDS = ("groups", "groups", "far", "units", "noise", "noiseless", "outlier", "quality", "amplitude", "longexp", "shortexp")


def jobs(tier, seed):
    rng = rng_for(seed, "C22", "jobs")
    q = tier == "quick"
    S, P, I = gen.skel_leaf, specs.PARAM, integ.I
    out = []
    plain = [S("SHO"), S("Exp"), S("Matern32"), S("Matern52"), S("Cosine"), ("sum", S("SHO"), S("Matern32")), ("prod", S("Exp"), S("Cosine")),
             ("prod", S("SHO"), S("Matern32")), ("scale", P, S("SHO")), ("sum", S("Matern52"), S("Exp"))]
    ii = [I("SHO"), I("Matern32"), I("Exp"), I("Matern52"), ("sum", I("Exp"), I("Matern32")), I("Cosine")]
    for rep in range(1 if q else 3):
        for i, s in enumerate(ii[:5] if q else ii):
            out.append(dict(skel=s, solver="iparallel" if (i + seed + rep) % 3 == 0 else "auto", ninst=1 + (i + seed + rep) % 2, N=int(rng.choice([6, 8])), M=6))
        for i, s in enumerate(plain[:8] if q else plain):
            out.append(dict(skel=s, solver="parallel" if (i + seed + rep) % 3 == 0 else "auto", N=int(rng.choice([6, 10, 14])), M=8))
    for j in out:
        j["cases"] = 44 if q else 120
    return out


def decay(spec):
    """Slowest decay rate of the covariance (0: it does not decay)."""
    k = spec[0]
    if k == "sum":
        return min(decay(spec[1]), decay(spec[2]))
    if k == "prod":
        return decay(spec[1]) + decay(spec[2])
    if k == "scale":
        return decay(spec[2])
    if k == "int":
        return decay(spec[1])
    if k == "Exp":
        return 1 / spec[1]
    if k == "Matern32":
        return np.sqrt(3) / spec[1]
    if k == "Matern52":
        return np.sqrt(5) / spec[1]
    if k == "SHO":
        w, Q = spec[1], spec[2]
        return w / (2 * Q) * (1 - np.sqrt(max(0.0, 1 - 4 * Q * Q)))
    return 0.0


def hostile(rng, skel, kind, N, M, ninst):
    integrated = oracle.has_int(skel)
    L, amp = 1.0, 1.0
    if kind == "units":
        L = 10.0 ** rng.uniform(-9, 9) if not integrated else 10.0 ** rng.uniform(-6, 9)
    if kind == "amplitude":
        amp = 10.0 ** rng.uniform(-9, 9)
    spec = gen.params_for(rng, skel, L, amp)
    if kind == "quality":
        def requal(s):
            if isinstance(s, tuple) and s[0] == "SHO":
                Q = float(10 ** rng.uniform(-2, -0.5) if rng.random() < 0.5 else 10 ** rng.uniform(1, 3.5))
                return ("SHO", s[1], Q, s[3])
            return tuple(requal(x) if isinstance(x, tuple) else x for x in s)
        if "SHO" not in str(spec):
            raise Skip
        spec = requal(spec)
    r = oracle.rate(spec)
    dec = decay(spec)
    a2 = oracle.amp2(spec)
    if integrated:
        mode = str(rng.choice(["gaps", "contiguous", "mixed"]))
        X = gen.exposures(rng, N, ninst, L, mode)[0]
        if kind in ("groups", "longexp", "shortexp"):
            # (contiguous exposures must not overlap by more than the rounding of their own times)
            X = (X[0] - np.min(X[0]), X[1] * (1 - 1e-9), X[2])
    else:
        X = gen.coords(rng, N, L, str(rng.choice(["uniform", "loggaps", "jitter"])))[0]
        X = X - X[0]
    if kind == "longexp":
        f = 10 ** rng.uniform(1, 3) / (r * np.max(X[1]))
        if dec == 0:
            f = min(f, 300)
        X = (X[0] * f, X[1] * f, X[2])
    if kind == "shortexp":
        f = 10 ** rng.uniform(-3, -1)
        if "Matern52" in str(spec):
            f = max(f, 0.02 / (r * np.min(X[1])))
        X = (X[0], X[1] * f, X[2])
    if integrated and pipes.too_short(spec, X, "iparallel"):
        raise Skip
    T = X[0] if integrated else X
    diag = gen.noise(rng, N, a2, lo=-3, hi=0)
    group = None
    if kind == "groups":
        if dec == 0:
            raise Skip
        gap = float(10 ** rng.uniform(1.7, 7)) / dec
        span = float(np.ptp(T)) + (np.max(X[1]) if integrated else 0)
        gap = max(gap, 50 / dec) + 2 * span
        grid = 2.0 ** np.ceil(np.log2(gap * 4)) * 2.0 ** -46
        gap = np.round(gap / grid) * grid
        T = np.round(T / (2 * grid)) * 2 * grid
        cut = np.sort(T)[N // 2]
        group = (T >= cut).astype(int)
        if integrated:  # keep the exposures of one instrument disjoint after rounding
            D = np.floor(X[1] * (1 - 1e-9) / (4 * grid)) * 4 * grid
            X = (T + group * gap, D, X[2])
            if np.any((D < 1e-2 / r) & (D > 0)) or np.any(D <= 0):
                raise Skip
        else:
            X = T + group * gap
    if kind == "noise":
        diag = a2 * 10.0 ** rng.uniform(-10, 10, N)
        diag[0] = max(diag[0], 1e-6 * a2)
    if kind == "noiseless":
        diag = a2 * 10.0 ** rng.uniform(-11, -7, N)
    if kind == "zeronoise":
        diag = np.zeros(N)
    K = oracle.cov(spec, X, X)
    C = K + np.diag(diag)
    y = np.linalg.cholesky(C + 1e-13 * a2 * np.eye(N)) @ rng.normal(size=N)
    if kind == "outlier":
        y[rng.integers(N)] += 1e6 * np.sqrt(a2) * rng.choice([-1, 1])
    try:
        dn = oracle.Dense(spec, X, diag, y)
    except np.linalg.LinAlgError:
        raise Skip from None
    d = np.sqrt(np.diag(dn.C))
    ev = np.linalg.eigvalsh(dn.C / np.outer(d, d))
    dn.cond = ev[-1] / max(ev[0], 1e-300)  # scaling of the data does not matter
    if dn.cond > 1e8:
        raise Skip
    T = X[0] if integrated else X
    if kind == "far":
        if dec == 0:
            raise Skip
        far = 10 ** rng.uniform(1.7, 8, M) / dec
        ps = np.where(rng.random(M) < 0.5, T.min() - far, T.max() + far) + (0 if not integrated else 0)
        if integrated:
            ps = np.where(ps > T.max(), ps + np.max(X[1]), ps - np.max(X[1]))
    elif integrated:
        ps = integ.exposure_points(rng, X, M, L)
    else:
        ps = gen.test_points(rng, X, M, L)
    if kind == "groups":
        ps = np.round(ps / grid) * grid
    Xs = (ps, np.zeros(M), rng.integers(0, ninst, M).astype(int)) if integrated else ps
    return spec, X, diag, y, Xs, dn, group, dec, dict(spec=spec, kind=kind, N=N, t=T[:5], delta=X[1][:4] if integrated else 0, y=y[:3], diag=diag[:3], cond=dn.cond)


def take(X, i):
    return tuple(a[i] for a in X) if isinstance(X, tuple) else X[i]


def run(job, ctx):
    skel = inst.tup(job["skel"])
    integrated = oracle.has_int(skel)
    ninst, N, M, solver = job.get("ninst", 1), job["N"], job["M"], job["solver"]
    pipe = pipes.pipeline(skel, solver, ninst, want=("ll", "cond", "pred"))
    kinds = IKINDS if integrated else KINDS
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        kind = kinds[c % len(kinds)]
        with ctx.case(c, {}):
            spec, X, diag, y, Xs, dn, group, dec, desc = hostile(rng, skel, kind, N, M, ninst)
            ctx._case[1].update(desc)
            ctx.cover(input=kind, structure=specs.label(skel), solver=solver)
            o = pipe(specs.flatten(spec)[1], X, diag, y, Xs)
            a2 = oracle.amp2(spec)
            tl, tm, tv = pipes.tols(dn, inst_base=1e-7, solver=solver)
            if kind in ("noise", "noiseless", "zeronoise"):
                # (outliers and noisy data leave the scale of the others' results alone)
                tm = tm / (np.max(np.abs(y)) + np.sqrt(a2)) * (np.max(np.abs(np.append(y[diag < 10 * a2], 0))) + np.sqrt(a2))
            if kind == "quality" or (integrated and kind in ("longexp", "groups", "units")):
                tl, tm, tv = 10 * tl, 10 * tm, 10 * tv
            info = dict(desc)
            for k in ("ll", "ll_cond", "loc", "var", "pm", "pv"):
                ctx.true("finite", np.all(np.isfinite(o[k])), dict(output=k, **info))
            for k in ("ll", "ll_cond"):
                ctx.close(kind + "_log_probability", o[k], dn.loglik(), tl, info)
            w, p = dn.posterior(X), dn.posterior(Xs)
            ctx.close(kind + "_mean_at_data", o["loc"], w[0], tm, info)
            ctx.close(kind + "_variance_at_data", o["var"], w[1], tv, info)
            ctx.close(kind + "_mean", o["pm"], p[0], tm, info)
            ctx.close(kind + "_variance", o["pv"], p[1], tv, info)
            # ---- limit laws
            if kind == "groups":
                tot = 0.0
                for g in (0, 1):
                    i = np.flatnonzero(group == g)
                    if len(i) == 0:
                        continue
                    dg = oracle.Dense(spec, take(X, i), diag[i], y[i])
                    tot += dg.loglik()
                    wg = dg.posterior(take(X, i))
                    ctx.close("groups_are_independent_mean", o["loc"][i], wg[0], tm + 1e-15, info)
                    ctx.close("groups_are_independent_variance", o["var"][i], wg[1], tv, info)
                ctx.close("groups_factorise", o["ll"], tot, tl + 1e-12, info)
            elif kind == "far":
                ctx.close("far_mean_is_prior", o["pm"], 0 * o["pm"], tm + np.exp(-40.0) * np.max(np.abs(y)), info)
                ctx.close("far_variance_is_prior", o["pv"], 0 * o["pv"] + a2, tv + 1e-15 * a2, info)
            elif kind in ("noiseless", "zeronoise"):
                tol = tm + np.sqrt(diag) * 8
                ctx.close("noiseless_mean_is_data", o["loc"], y, tol, info)
                ctx.true("noiseless_variance_vanishes", np.all(o["var"] <= diag + tv), info)
