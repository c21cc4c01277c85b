"""C06: conditioning and predicting with exposure-integrated data is exact."""
from .. import integ, pipes, specs

RULE = ("as C05, plus test times before, after, between, inside and exactly at the edges of exposures; non-trivial = "
        "distinct instance whose exposure averages and latent predictions were compared with the dense posterior")
ASSUMPTIONS = ["exposures of one instrument do not overlap each other", "float64, diagonal noise, zero mean"]
SOLVER = "auto"


def jobs(tier, seed):
    return integ.jobs("C06", tier, seed, 18, 160, (20, 40), big=(40, 120))


def run(job, ctx):
    skel = integ.tup(job["skel"])
    pipe = pipes.pipeline(skel, SOLVER, job["ninst"], want=("ll", "cond", "pred"))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            spec, X, diag, y, Xs, dn, desc = integ.make_case(rng, skel, job["N"], job["ninst"], job["M"])
            ctx._case[1].update(desc)
            ctx.cover(structure=specs.label(skel), N=job["N"], instruments=job["ninst"], layout=desc["exposures"],
                      overlapping_pairs=min(20, integ.overlaps(X)))
            tl, tm, tv = pipes.tols(dn)
            eager = c == 0 and job["i"] % 5 == 0
            out = pipe(specs.flatten(spec)[1], X, diag, y, Xs, eager=eager)
            e = "_eager" if eager else ""
            ctx.close("loglik" + e, out["ll"], dn.loglik(), tl, desc)
            ctx.close("loglik_from_condition" + e, out["ll_cond"], dn.loglik(), tl, desc)
            mu, var = dn.posterior(X)
            ctx.close("mean_of_exposures" + e, out["loc"], mu, tm, desc)
            ctx.close("variance_of_exposures" + e, out["var"], var, tv, desc)
            mu, var = dn.posterior(Xs)
            ctx.close("latent_mean" + e, out["pm"], mu, tm, desc)
            ctx.close("latent_variance" + e, out["pv"], var, tv, desc)
