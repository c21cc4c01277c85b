"""C17: reported uncertainties are coherent (invariants of every state)."""
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import rng_for
from .c16 import long_case

RULE = ("each random instance is conditioned and every predicted, filtered and smoothed state inspected; then run again with other "
        "data values, with one datum removed, and with more noise; non-trivial = distinct instance whose states all satisfied the "
        "invariants and whose runs were related")
ASSUMPTIONS = ["float64, diagonal noise, zero mean", "exposures of one instrument do not overlap each other",
               "parallel solver: Matern-5/2 exposures at least 1% of its scale",
               "invariants hold up to the rounding error in the units of each state variable (its stationary standard deviation)"]


def jobs(tier, seed):
    rng = rng_for(seed, "C17", "jobs")
    q = tier == "quick"
    leaf = [gen.skel_leaf(k) for k in ("Exp", "Matern32", "Matern52", "SHO", "Cosine", "Constant")]
    comp = inst.composite_skels()
    rng.shuffle(comp)
    ii = integ.base_skels()
    h, t = ii[:5], ii[5:]
    rng.shuffle(t)
    out = []
    for s in leaf + (comp[:3] if q else comp * 2):
        out.append({"skel": s, "solver": "parallel" if rng.random() < 0.4 else "auto", "N": int(rng.choice([2, 4, 9, 16, 25])), "M": 8})
    for s in (h + t[:3] if q else h + t + h + h):
        out.append({"skel": s, "solver": "iparallel" if rng.random() < 0.4 else "auto", "N": int(rng.choice([2, 4, 7, 11])), "M": 8,
                    "ninst": int(rng.choice([1, 2, 3]))})
    for s, so in ([(leaf[3], "auto"), (leaf[1], "parallel")] if q else [(s, so) for s in leaf[:5] + comp[:3] for so in ("auto", "parallel")]):
        out.append({"skel": s, "solver": so, "N": 1000, "M": 50, "long": 1})
    for s in ([integ.I("SHO")] if q else [integ.I(k) for k in specs.INTEGRABLE]):
        out.append({"skel": s, "solver": "auto", "N": 500, "M": 50, "long": 1, "ninst": 2})
    for j in out:
        j["cases"] = (2 if j.get("long") else 10) if q else (4 if j.get("long") else 30)
    return out


def stds(Pp, Pf, Ps):
    """natural unit of each state variable: the largest standard deviation it ever has"""
    d = np.max(np.abs(np.diagonal(np.concatenate([Pp, Pf, Ps]), axis1=1, axis2=2)), axis=0)
    return np.sqrt(np.where(d > 0, d, 1.0))


def mineig(P, s):
    return np.min(np.linalg.eigvalsh(0.5 * (P + np.swapaxes(P, -1, -2)) / np.multiply.outer(s, s)), axis=-1)


def run(job, ctx):
    skel = inst.tup(job["skel"])
    integrated = oracle.has_int(skel)
    long = job.get("long")
    ni = job.get("ninst", 1)
    pipe = pipes.pipeline(skel, job["solver"], ni, want=("ll", "cond", "pred", "states"))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            if long:
                case = long_case(rng, skel, job["N"], job["M"], ni, job["solver"])
            elif integrated:
                case = integ.make_case(rng, skel, job["N"], ni, job["M"], solver=job["solver"])
            else:
                case = inst.make_case(rng, skel, job["N"], job["M"])
            ctx._case[1].update(case[-1], solver=job["solver"])
            ctx.cover(structure=specs.label(skel), solver=job["solver"], N=len(case[3]))
            one(ctx, pipe, rng, case, job, integrated)


def take(X, i):
    return tuple(a[i] for a in X) if isinstance(X, tuple) else X[i]


def one(ctx, pipe, rng, case, job, integrated):
    spec, X, diag, y, Xs, dn, desc = case
    n = len(y)
    par = specs.flatten(spec)[1]
    o = pipe(par, X, diag, y, Xs)
    st = o["states"]
    a2 = oracle.amp2(spec)
    if dn is not None:
        tl, tm, tv = pipes.tols(dn, solver=job["solver"])
    else:
        b = 1e-6 if integrated else 1e-8
        tl, tm, tv = b * n * 10, 10 * b * (np.max(np.abs(y)) + np.sqrt(a2)), 100 * b * a2
    rel = max(tv / a2, 1e-9) * (1 if not integrated else 3)
    Pp, Pf, Ps = st["Pp"], st["Pf"], st["Ps"]
    s = stds(Pp, Pf, Ps)
    k = len(Pp)
    end = np.asarray(st["stateid"]).astype(bool) if st.get("stateid") is not None and np.ndim(st["stateid"]) else np.ones(k, bool)
    if not integrated:
        end = np.ones(k, bool)
    ctx.cover(states=min(2000, 10 * (k // 10)))
    for name, P in (("predicted", Pp), ("filtered", Pf), ("smoothed", Ps)):
        asym = np.max(np.abs(P - np.swapaxes(P, 1, 2)) / np.multiply.outer(s, s)) if k else 0
        ctx.true(name + "_finite", np.all(np.isfinite(P)), desc)
        ctx.close(name + "_symmetric", asym, 0.0, rel, desc)
        e = mineig(P, s)
        ctx.close(name + "_positive_semidefinite", min(0.0, float(np.min(e))), 0.0, rel, {"state": int(np.argmin(e)), **desc})
    d = mineig(Pp[end] - Pf[end], s)
    ctx.close("data_do_not_increase_uncertainty", min(0.0, float(np.min(d))), 0.0, rel, {"state": int(np.argmin(d)), **desc})
    d = mineig(Pf[end] - Ps[end], s)
    ctx.close("smoothing_does_not_increase_uncertainty", min(0.0, float(np.min(d))), 0.0, rel, {"state": int(np.argmin(d)), **desc})
    if not np.all(end):
        d = mineig(Pp[~end] - Ps[~end], s)
        ctx.close("smoothing_does_not_increase_uncertainty", min(0.0, float(np.min(d))), 0.0, rel, {"state": int(np.argmin(d)), **desc})
    ctx.true("one_state_per_datum_or_edge", k == (2 * n if integrated else n), {"states": k, "data": n})
    # bounds of the reported variances
    prior = np.full(n, a2)
    if integrated and dn is not None:
        prior = np.diag(dn.K)
    ctx.close("variance_nonnegative", np.minimum(np.r_[o["var"], o["pv"]], 0.0), np.zeros(n + len(o["pv"])), tv, desc)
    ctx.close("variance_below_prior", np.maximum(o["var"] - prior, 0.0), np.zeros(n), tv, desc)
    ctx.close("predictive_variance_below_prior", np.maximum(o["pv"] - a2, 0.0), np.zeros(len(o["pv"])), tv, desc)
    ctx.close("variance_below_noise", np.maximum(o["var"] - diag, 0.0), np.zeros(n), tv, desc)
    # other data values: same uncertainties
    r = pipe(par, X, diag, rng.normal(size=n) * 3 * np.sqrt(a2) + 5, Xs)
    ctx.close("variance_independent_of_data", np.r_[r["var"], r["pv"]], np.r_[o["var"], o["pv"]], 1e-3 * tv, desc)
    for q in ("Pp", "Pf", "Ps"):
        ctx.close("covariances_independent_of_data", r["states"][q] / np.multiply.outer(s, s), o["states"][q] / np.multiply.outer(s, s), 1e-3 * rel, desc)
    # more noise on some data: never less uncertain, anywhere
    d2 = diag * np.where(rng.random(n) < 0.4, 10 ** rng.uniform(0, 4, n), 1.0)
    r = pipe(par, X, d2, y, Xs)
    ctx.close("more_noise_never_helps", np.minimum(np.r_[r["var"] - o["var"], r["pv"] - o["pv"]], 0.0), np.zeros(n + len(o["pv"])), 2 * tv, desc)
    if n < 2:
        return
    # without one datum: never less uncertain; chain rule of the density through the leave-one-out posterior
    j = int(rng.integers(n))
    keep = np.arange(n) != j
    r = pipe(par, take(X, keep), diag[keep], y[keep], Xs)
    ctx.close("data_never_hurt", np.minimum(np.r_[r["var"] - o["var"][keep], r["pv"] - o["pv"]], 0.0), np.zeros(n - 1 + len(o["pv"])), 2 * tv, desc)
    R, v, m = diag[j], o["var"][j], o["loc"][j]
    if v < 0.9 * R and v > 100 * tv:
        vl = 1 / (1 / v - 1 / R)
        ml = vl * (m / v - y[j] / R)
        z2 = (y[j] - ml) ** 2 / (vl + R)
        want = -0.5 * z2 - 0.5 * np.log(2 * np.pi * (vl + R))
        # propagate the tolerances of v and m
        dv = (vl / v) ** 2 * tv
        dm = vl / v * tm + dv * (abs(m) + abs(y[j])) / v
        tol = 2 * tl + 2 * (dv / (vl + R) * (1 + z2) + dm * np.sqrt(z2 / (vl + R)) + dm**2 / (vl + R))
        if tol < 0.05:
            ctx.cover(chain_rule="decided")
            ctx.close("chain_rule_leave_one_out", o["ll"] - r["ll"], want, tol, desc)
    else:
        ctx.cover(chain_rule="ill-conditioned")
    # chain rule through a prediction of the datum left out
    if not integrated:
        r = pipe(par, take(X, keep), diag[keep], y[keep], np.r_[X[j], Xs[1:]])
        m, v = r["pm"][0], r["pv"][0]
        z2 = (y[j] - m) ** 2 / (v + R)
        tol = 2 * tl + 2 * (tv / (v + R) * (1 + z2) + tm * np.sqrt(z2 / (v + R)) + tm**2 / (v + R))
        if tol < 0.05:
            ctx.close("chain_rule_prediction", o["ll"] - r["ll"], -0.5 * z2 - 0.5 * np.log(2 * np.pi * (v + R)), tol, desc)
