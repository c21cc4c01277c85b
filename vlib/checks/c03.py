"""C03: predictions at arbitrary test coordinates are the exact posterior."""
import numpy as np

from .. import inst, pipes, specs

RULE = ("as C01, plus test coordinates before, after, between, at and next to the data, unsorted, reversed, "
        "duplicated, from 1 to 40 of them; non-trivial = distinct instance with every test point compared")
ASSUMPTIONS = ["coordinates sorted ascending (ties allowed), float64, diagonal noise, zero mean",
               "oracle: dense GP regression on closed-form covariances"]


def jobs(tier, seed):
    def extra(rng, j):
        return {"M": int(rng.choice([1, 2, 5, 11, 40])), "cp": bool(rng.random() < 0.4)}
    return inst.jobs("C03", tier, seed, 40, 200, (20, 50), extra, big=(150, 500))


def run(job, ctx):
    skel = inst.tup(job["skel"])
    want = ("cond", "pred") + (("condpred",) if job["cp"] else ())
    pipe = pipes.pipeline(skel, "auto", want=want)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            spec, t, diag, y, Xs, dn, desc = inst.make_case(rng, skel, job["N"], job["M"])
            ctx._case[1].update(desc, Xs=Xs[:6])
            ctx.cover(structure=specs.label(skel), N=job["N"], M=job["M"], coords=desc["coords"])
            for x in Xs:
                ctx.cover(position="at" if x in t else "before" if x < t[0] else "after" if x > t[-1] else "between")
            p = specs.flatten(spec)[1]
            tl, tm, tv = pipes.tols(dn)
            eager = c == 0 and job["i"] % 4 == 2
            out = pipe(p, t, diag, y, Xs, eager=eager)
            mu, var = dn.posterior(Xs)
            e = "_eager" if eager else ""
            ctx.close("predicted_mean" + e, out["pm"], mu, tm, desc)
            ctx.close("predicted_variance" + e, out["pv"], var, tv, desc)
            if job["cp"]:
                ctx.close("condition_at_test_mean" + e, out["cm"], mu, tm, desc)
                ctx.close("condition_at_test_variance" + e, out["cv"], var, tv, desc)
