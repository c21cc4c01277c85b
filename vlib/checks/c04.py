"""C04: the parallel solver gives the same exact answers as the sequential one."""
import numpy as np

from .. import inst, pipes, specs

RULE = ("as C01-C03 through the parallel (associative-scan) solver; non-trivial = distinct instance whose "
        "likelihood, conditioned moments, predictions and filtered states were compared with the dense answer")
ASSUMPTIONS = ["coordinates sorted ascending (ties allowed), float64, diagonal noise, zero mean"]


def jobs(tier, seed):
    def extra(rng, j):
        return {"M": int(rng.choice([1, 3, 9])), "N": int(rng.choice([1, 2, 3, 4, 6, 7, 9, 16, 17, 31, 33]))}
    return inst.jobs("C04", tier, seed, 32, 160, (20, 50), extra, big=(64, 129, 300, 640))


def run(job, ctx):
    skel = inst.tup(job["skel"])
    pipe = pipes.pipeline(skel, "parallel", want=("ll", "cond", "pred"))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            spec, t, diag, y, Xs, dn, desc = inst.make_case(rng, skel, job["N"], job["M"], lo=-3)
            ctx._case[1].update(desc, Xs=Xs[:6])
            ctx.cover(structure=specs.label(skel), N=job["N"], M=job["M"], coords=desc["coords"])
            p = specs.flatten(spec)[1]
            tl, tm, tv = pipes.tols(dn, base=1e-7)
            eager = c == 0 and job["i"] % 5 == 3
            out = pipe(p, t, diag, y, Xs, eager=eager)
            e = "_eager" if eager else ""
            ctx.close("loglik" + e, out["ll"], dn.loglik(), tl, desc)
            ctx.close("loglik_from_condition" + e, out["ll_cond"], dn.loglik(), tl, desc)
            mu, var = dn.posterior(t)
            ctx.close("mean_at_data" + e, out["loc"], mu, tm, desc)
            ctx.close("variance_at_data" + e, out["var"], var, tv, desc)
            mu, var = dn.posterior(Xs)
            ctx.close("predicted_mean" + e, out["pm"], mu, tm, desc)
            ctx.close("predicted_variance" + e, out["pv"], var, tv, desc)
