"""C05: log-likelihood of exposure-integrated data is exact."""
from .. import integ, pipes, specs

RULE = ("random integrated model structures x parameters x exposure layouts (gaps, contiguous, mixed lengths, short, "
        "long, simultaneous starts, zero lengths; 1-4 instruments overlapping each other; any data order) x noise x "
        "data; non-trivial = distinct instance compared with the dense likelihood of double-integrated covariances")
ASSUMPTIONS = ["exposures of one instrument do not overlap each other", "float64, diagonal noise, zero mean",
               "oracle: Gauss-Legendre double integrals of closed-form covariances, numpy Cholesky"]


def jobs(tier, seed):
    return integ.jobs("C05", tier, seed, 32, 200, (16, 50), big=(60, 150))


def run(job, ctx):
    skel = integ.tup(job["skel"])
    pipe = pipes.pipeline(skel, "auto", job["ninst"], want=("ll",))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            spec, X, diag, y, _, dn, desc = integ.make_case(rng, skel, job["N"], job["ninst"], 1)
            ctx._case[1].update(desc)
            ctx.cover(structure=specs.label(skel), N=job["N"], instruments=job["ninst"], layout=desc["exposures"],
                      overlapping_pairs=min(20, integ.overlaps(X)))
            tl, _, _ = pipes.tols(dn, base=1e-7)
            eager = c == 0 and job["i"] % 4 == 0
            out = pipe(specs.flatten(spec)[1], X, diag, y, eager=eager)
            ctx.close("loglik" + ("_eager" if eager else ""), out["ll"], dn.loglik(), tl, desc)
