"""C01: the log-likelihood of an instantaneous model is the exact Gaussian one."""
import numpy as np

from .. import inst, pipes, specs

RULE = ("random model structures (leaves, sums, products, scaled) x parameters x sorted coordinates "
        "(uniform, grid, clusters, ties, log gaps, large offsets, negative, near-coincident) x noise x data; "
        "non-trivial = distinct instance whose likelihood was compared with the dense Gaussian likelihood")
ASSUMPTIONS = ["coordinates sorted ascending (ties allowed), float64, diagonal noise, zero mean",
               "oracle: numpy Cholesky of the closed-form covariance matrix"]


def jobs(tier, seed):
    return inst.jobs("C01", tier, seed, 44, 240, (25, 60), big=(150, 700))


def run(job, ctx):
    skel = inst.tup(job["skel"])
    pipe = pipes.pipeline(skel, "auto", want=("ll",))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            spec, t, diag, y, _, dn, desc = inst.make_case(rng, skel, job["N"], 1)
            ctx._case[1].update(desc)
            ctx.cover(structure=specs.label(skel), N=job["N"], coords=desc["coords"])
            p = specs.flatten(spec)[1]
            tl, _, _ = pipes.tols(dn)
            eager = c == 0 and job["i"] % 4 == 0
            out = pipe(p, t, diag, y, eager=eager)
            ctx.close("loglik" + ("_eager" if eager else ""), out["ll"], dn.loglik(), tl, desc)
