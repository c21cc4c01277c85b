"""C16: inference is invariant under the symmetries of the problem (metamorphic)."""
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import Skip, rng_for

RULE = ("each random instance is run as it is and transformed: times shifted, reflected, in other units; data negated, in other "
        "units, superposed; tied data swapped, exposures permuted, instruments relabelled; one datum given enormous noise versus "
        "left out; repeated observations versus their weighted mean; also for data sets of thousands of points; "
        "non-trivial = distinct instance and transformation whose density, means and variances at data and test points were related")
ASSUMPTIONS = ["float64, diagonal noise, zero mean", "times on binary grids, so that shifts and changes of units are exact",
               "exposures of one instrument do not overlap each other", "parallel solver: Matern-5/2 exposures at least 1% of its scale"]
BIG = 1e9


def jobs(tier, seed):
    rng = rng_for(seed, "C16", "jobs")
    q = tier == "quick"
    leaf = [gen.skel_leaf(k) for k in ("Exp", "Matern32", "Matern52", "SHO", "Cosine", "Constant")]
    comp = inst.composite_skels()
    rng.shuffle(comp)
    ii = integ.base_skels()
    h, t = ii[:5], ii[5:]
    rng.shuffle(t)
    out = []
    for s in leaf + (comp[:3] if q else comp * 2):
        out.append({"skel": s, "solver": "parallel" if rng.random() < 0.3 else "auto", "N": int(rng.choice([2, 4, 9, 16])), "M": 5})
    for s in (h + t[:2] if q else h + t + h + h):
        out.append({"skel": s, "solver": "iparallel" if rng.random() < 0.3 else "auto", "N": int(rng.choice([2, 4, 7, 11])), "M": 5,
                    "ninst": int(rng.choice([2, 3]))})
    for s, so in ([(leaf[3], "auto"), (leaf[2], "parallel")] if q else [(s, so) for s in leaf[:5] + comp[:3] for so in ("auto", "parallel")]):
        out.append({"skel": s, "solver": so, "N": 2000, "M": 50, "long": 1})
    for s in ([integ.I("SHO")] if q else [integ.I(k) for k in specs.INTEGRABLE]):
        out.append({"skel": s, "solver": "auto", "N": 1000, "M": 50, "long": 1, "ninst": 2})
    for j in out:
        j["cases"] = (2 if j.get("long") else 8) if q else (4 if j.get("long") else 25)
    return out


def scale_time(s, c):
    k = s[0]
    if k in ("sum", "prod"):
        return (k, scale_time(s[1], c), scale_time(s[2], c))
    if k == "scale":
        return (k, s[1], scale_time(s[2], c))
    if k == "int":
        return (k, scale_time(s[1], c))
    if k == "SHO":
        return (k, s[1] / c) + s[2:]
    if k == "Constant":
        return s
    return (k, s[1] * c) + s[2:]


def scale_amp(s, a):
    k = s[0]
    if k == "sum":
        return (k, scale_amp(s[1], a), scale_amp(s[2], a))
    if k == "prod":
        return (k, scale_amp(s[1], a), s[2])
    if k == "scale":
        return (k, s[1] * a * a, s[2])
    if k == "int":
        return (k, scale_amp(s[1], a))
    return s[:-1] + (s[-1] * a,)


def mapt(X, f):
    return (f(X[0]), X[1], X[2]) if isinstance(X, tuple) else f(X)


def take(X, i):
    return tuple(a[i] for a in X) if isinstance(X, tuple) else X[i]


def long_case(rng, skel, N, M, ninst, solver):
    spec = gen.params_for(rng, skel, 1.0, 1.0)
    dt = 10 ** rng.uniform(-2, 0)
    if oracle.has_int(skel):
        half = np.sort(rng.uniform(0, N * dt, (2, N // 2)), axis=1)
        X0 = []
        for k in range(2):
            d = np.full(N // 2, 0.4 * dt)
            t = np.cumsum(np.maximum(np.diff(half[k], prepend=0), 0.5 * dt))
            X0.append((t, d, np.full(N // 2, k)))
        o = rng.permutation(2 * (N // 2))
        X = tuple(np.concatenate([a[i] for a in X0])[o] for i in range(3))
        n = len(X[0])
        Xs = (rng.uniform(-1, N * dt, M), np.zeros(M), rng.integers(0, 2, M))
    else:
        X = np.sort(rng.uniform(0, N * dt, N))
        X[N // 2] = X[N // 2 - 1]
        n = N
        Xs = rng.uniform(-1, N * dt + 1, M)
    a2 = oracle.amp2(spec)
    diag = a2 * 10 ** rng.uniform(-2, 0.5, n)
    y = rng.normal(size=n) * np.sqrt(a2)
    return spec, X, diag, y, Xs, None, dict(spec=spec, N=n, dt=dt)


def run(job, ctx):
    skel = inst.tup(job["skel"])
    integrated = oracle.has_int(skel)
    long = job.get("long")
    ni = job.get("ninst", 1)
    pipe = pipes.pipeline(skel, job["solver"], ni, want=("ll", "cond", "pred"))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            if long:
                case = long_case(rng, skel, job["N"], job["M"], ni, job["solver"])
            elif integrated:
                case = integ.make_case(rng, skel, job["N"], ni, job["M"], solver=job["solver"])
            else:
                case = inst.make_case(rng, skel, job["N"], job["M"], mode=str(rng.choice(["uniform", "ties", "grid", "close", "loggaps", "jitter"])))
            spec, X, diag, y, Xs, dn, desc = case
            # put times on a binary grid so that shifts and factors of two are exact
            tt = X[0] if integrated else X
            g = 2.0 ** (np.floor(np.log2(np.ptp(np.r_[tt, Xs[0] if integrated else Xs]) + 1e-300)) - (24 if integrated else 30))
            snap = lambda t: np.round(t / g) * g  # noqa: E731
            if integrated:
                # snap starts and ends
                ts, te = snap(X[0] - X[1] / 2), snap(X[0] + X[1] / 2)
                X = ((ts + te) / 2, te - ts, X[2])
            else:
                X = snap(X)
            Xs = mapt(Xs, snap)
            if not long:
                dn = oracle.Dense(spec, X, diag, y)
            ctx._case[1].update(desc, solver=job["solver"])
            rel(ctx, pipe, rng, skel, spec, X, diag, y, Xs, dn, desc, job, g, integrated, long, ni)


def rel(ctx, pipe, rng, skel, spec, X, diag, y, Xs, dn, desc, job, g, integrated, long, ni):
    n = len(y)
    par = specs.flatten(spec)[1]
    o = pipe(par, X, diag, y, Xs)
    a2 = oracle.amp2(spec)
    if dn is not None:
        tl, tm, tv = (3 * v for v in pipes.tols(dn, solver=job["solver"]))
    else:
        b = 1e-6 if integrated else 1e-8
        tl, tm, tv = b * n * 10, 10 * b * (np.max(np.abs(y)) + np.sqrt(a2)), 100 * b * a2
    if not ctx.true("finite", all(np.all(np.isfinite(v)) for v in o.values()), desc):
        return

    def same(clause, r, want=o, tl=tl, tm=tm, tv=tv, am=1.0, dl=0.0, idx=None, at_data=True, info=None):
        info = {**desc, "transformation": clause, **(info or {})}
        ctx.cover(transformation=clause, structure=specs.label(skel), solver=job["solver"], size="long" if long else "short")
        for k in ("ll", "ll_cond"):
            ctx.close(clause + "_density", r[k], want[k] + dl, tl, info)
        ctx.close(clause + "_mean", r["pm"], am * want["pm"], abs(am) * tm, info)
        ctx.close(clause + "_variance", r["pv"], am**2 * want["pv"], am**2 * tv, info)
        if at_data:
            i = slice(None) if idx is None else idx
            ctx.close(clause + "_mean_at_data", r["loc"], am * want["loc"][i], abs(am) * tm, info)
            ctx.close(clause + "_variance_at_data", r["var"], am**2 * want["var"][i], am**2 * tv, info)

    span = np.ptp(X[0] if integrated else X)
    # shift by up to 2^18 spans
    s = g * float(np.round(rng.choice([-1, 1]) * 2.0 ** rng.uniform(5, 20 if integrated else 21 + 0 * span) * max(1, span / g / 2**10)))
    same("shift", pipe(par, mapt(X, lambda t: t + s), diag, y, mapt(Xs, lambda t: t + s)), info={"shift": s})
    # reflection
    if integrated:
        same("reflection", pipe(par, mapt(X, lambda t: -t), diag, y, mapt(Xs, lambda t: -t)))
    else:
        same("reflection", pipe(par, -X[::-1], diag[::-1], y[::-1], -Xs), idx=slice(None, None, -1))
    # units of time
    c = 2.0 ** int(rng.choice([-14, -7, 3, 9, 16]))
    X2 = (X[0] * c, X[1] * c, X[2]) if integrated else X * c
    big = 1.0 if not integrated or abs(np.log2(c)) < 8 else 30.0
    same("time_units", pipe(specs.flatten(scale_time(spec, c))[1], X2, diag, y, mapt(Xs, lambda t: t * c)), info={"factor": c},
         tl=big * tl, tm=big * tm, tv=big * tv)
    # units of the data
    a = float(rng.choice([1e-4, 1e-2, 30.0, 2e3]))
    same("data_units", pipe(specs.flatten(scale_amp(spec, a))[1], X, diag * a * a, y * a, Xs), am=a, dl=-n * np.log(a), info={"factor": a},
         tl=tl + 1e-13 * n * abs(np.log(a)))
    # sign and superposition
    r = pipe(par, X, diag, -y, Xs)
    ctx.close("negated_density", r["ll"], o["ll"], tl, desc)
    ctx.close("negated_mean", r["pm"], -o["pm"], tm, desc)
    ctx.close("negated_mean_at_data", r["loc"], -o["loc"], tm, desc)
    y2 = rng.normal(size=n) * np.sqrt(a2)
    r2, r3 = pipe(par, X, diag, y2, Xs), pipe(par, X, diag, 2 * y - 3 * y2, Xs)
    tm2 = 6 * tm * (1 + np.max(np.abs(y2)) / (np.max(np.abs(y)) + np.sqrt(a2)))
    ctx.close("superposition_mean", r3["pm"], 2 * o["pm"] - 3 * r2["pm"], tm2, desc)
    ctx.close("superposition_mean_at_data", r3["loc"], 2 * o["loc"] - 3 * r2["loc"], tm2, desc)
    # order of the data
    if integrated:
        p = rng.permutation(n)
        same("permutation", pipe(par, take(X, p), diag[p], y[p], Xs), idx=p)
        q = rng.permutation(ni)
        X2, Xs2 = (X[0], X[1], q[X[2]]), (Xs[0], Xs[1], q[Xs[2]])
        same("relabelling", pipe(par, X2, diag, y, Xs2))
    else:
        ties = np.flatnonzero(np.diff(X) == 0)
        if len(ties):
            p = np.arange(n)
            for k in ties:
                if rng.random() < 0.7:
                    p[[k, k + 1]] = p[[k + 1, k]]
            same("swapped_ties", pipe(par, X[p], diag[p], y[p], Xs), idx=p)
    p = rng.permutation(len(Xs[0] if integrated else Xs))
    r = pipe(par, X, diag, y, take(Xs, p))
    ctx.close("permuted_test_points_mean", r["pm"], o["pm"][p], tm, desc)
    ctx.close("permuted_test_points_variance", r["pv"], o["pv"][p], tv, desc)
    # a useless datum is no datum (compares with a shorter data set)
    if n < 2:
        return
    k = int(rng.integers(n))
    keep = np.arange(n) != k
    R = BIG * a2
    d2 = diag.copy()
    d2[k] = R
    y2 = y.copy()
    y2[k] = np.sqrt(a2) * rng.normal()
    less = pipe(par, take(X, keep), diag[keep], y[keep], Xs)
    more = pipe(par, X, d2, y2, Xs)
    slack = 100 / BIG
    f = n if dn is None else 1 + dn.w @ dn.w
    ctx.cover(transformation="useless datum")
    dl = -0.5 * np.log(2 * np.pi * R) - 0.5 * y2[k] ** 2 / R
    ctx.close("useless_datum_density", more["ll"], less["ll"] + dl, tl + slack * f, desc)
    ctx.close("useless_datum_mean", more["pm"], less["pm"], tm + slack * f * np.sqrt(a2), desc)
    ctx.close("useless_datum_variance", more["pv"], less["pv"], tv + slack * a2, desc)
    ctx.close("useless_datum_mean_at_others", more["loc"][keep], less["loc"], tm + slack * f * np.sqrt(a2), desc)
    # repeated observations are one observation of their weighted mean
    j = int(rng.choice(np.flatnonzero(keep)))
    if integrated:
        other = (X[2][j] + 1) % ni
        # datum k repeats exposure j with another instrument, if that instrument is free then
        ts, te = X[0] - X[1] / 2, X[0] + X[1] / 2
        busy = [(ts[m] < te[j] and ts[j] < te[m]) or ts[m] == ts[j] or te[m] == te[j] for m in range(n) if m not in (j, k) and X[2][m] == other]
        if any(busy):
            return
        X2 = tuple(np.array(v) for v in X)
        X2[0][k], X2[1][k], X2[2][k] = X[0][j], X[1][j], other
        order = np.arange(n)
    else:
        X2 = X.copy()
        X2[k] = X[j]
        order = np.argsort(X2, kind="stable")
    yr, dr = y.copy(), diag.copy()
    yr[k] = y[j] + np.sqrt(diag[j] + diag[k]) * rng.normal()
    both = pipe(par, take(X2, order), dr[order], yr[order], Xs)
    w1, w2 = 1 / dr[j], 1 / dr[k]
    ym, dm = y.copy(), diag.copy()
    ym[j], dm[j] = (w1 * yr[j] + w2 * yr[k]) / (w1 + w2), 1 / (w1 + w2)
    one = pipe(par, take(X, keep), dm[keep], ym[keep], Xs)
    dl = -0.5 * (yr[j] - yr[k]) ** 2 / (dr[j] + dr[k]) - 0.5 * np.log(2 * np.pi * (dr[j] + dr[k]))
    if not long:
        dd = oracle.Dense(spec, take(X2, order), dr[order], yr[order])
        d1 = oracle.Dense(spec, take(X, keep), dm[keep], ym[keep])
        if max(dd.cond, d1.cond) > 1e9:
            return
        tl, tm, tv = (3 * max(u, v) for u, v in zip(pipes.tols(dd, solver=job["solver"]), pipes.tols(d1, solver=job["solver"])))
    ctx.cover(transformation="repeated observation")
    ctx.close("repeated_observation_density", both["ll"], one["ll"] + dl, tl, desc)
    ctx.close("repeated_observation_mean", both["pm"], one["pm"], tm, desc)
    ctx.close("repeated_observation_variance", both["pv"], one["pv"], tv, desc)
