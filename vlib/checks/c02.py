"""C02: conditioning gives the exact posterior mean and variance at the data."""
from .. import inst, pipes, specs

RULE = ("random model structures x parameters x sorted coordinates x noise x data; non-trivial = distinct "
        "instance whose conditioned mean and variance at every datum were compared with dense GP regression")
ASSUMPTIONS = ["coordinates sorted ascending (ties allowed), float64, diagonal noise, zero mean",
               "oracle: numpy Cholesky of the closed-form covariance matrix"]


def jobs(tier, seed):
    return inst.jobs("C02", tier, seed, 40, 200, (20, 60), big=(150, 500))


def run(job, ctx):
    skel = inst.tup(job["skel"])
    pipe = pipes.pipeline(skel, "auto", want=("cond",))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            spec, t, diag, y, _, dn, desc = inst.make_case(rng, skel, job["N"], 1)
            ctx._case[1].update(desc)
            ctx.cover(structure=specs.label(skel), N=job["N"], coords=desc["coords"])
            p = specs.flatten(spec)[1]
            tl, tm, tv = pipes.tols(dn)
            eager = c == 0 and job["i"] % 4 == 1
            out = pipe(p, t, diag, y, eager=eager)
            mu, var = dn.posterior(t)
            e = "_eager" if eager else ""
            ctx.close("mean_at_data" + e, out["loc"], mu, tm, desc)
            ctx.close("variance_at_data" + e, out["var"], var, tv, desc)
            ctx.close("loglik_from_condition" + e, out["ll_cond"], dn.loglik(), tl, desc)
