"""C20: solver choice, and zero-length exposures, do not matter."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import Skip, rng_for, sut

RULE = ("one data set through every solver able to run it: the plain model (automatic, serial, parallel), the same kernel "
        "with zero-length exposures through the integrated solvers, its integrated counterpart with zero-length exposures "
        "(sorted or not, one or several instruments), models mixing both kinds, and exposures shrinking to zero; plus the "
        "solver selected for every kind of model; non-trivial = distinct data set with at least three routes compared")
ASSUMPTIONS = ["mixed models only with zero-length exposures", "float64, diagonal noise, zero mean"]
S, P = gen.skel_leaf, specs.PARAM


def integrated(skel, which="all", n=[0]):
    """The integrated counterpart of a sum of leaves (of every leaf, or of every other one)."""
    k = skel[0]
    if k == "sum":
        return ("sum", integrated(skel[1], which, n), integrated(skel[2], which, n))
    if k == "scale":
        return ("scale", skel[1], integrated(skel[2], which, n))
    n[0] += 1
    if which == "all" or (which == "odd") == bool(n[0] % 2):
        return ("int", skel)
    return skel


def mixed(skel, which):
    return integrated(skel, which, [0])


def jobs(tier, seed):
    rng = rng_for(seed, "C20", "jobs")
    q = tier == "quick"
    sums = [S("SHO"), S("Matern32"), S("Matern52"), S("Exp"), S("Cosine"), ("sum", S("SHO"), S("Matern32")), ("scale", P, S("Exp")),
            ("sum", S("Exp"), S("Exp")), ("scale", P, ("sum", S("Matern32"), S("Cosine"))), ("sum", ("sum", S("Exp"), S("Matern32")), S("Exp") if q else S("SHO")),
            ("sum", ("scale", P, S("SHO")), S("Matern52"))]
    rng.shuffle(sums)
    out = [dict(kind="select", part=i) for i in range(4)] + [dict(kind="near_simultaneous")]
    plain_only = [("prod", S("Exp"), S("Cosine")), ("sum", S("SHO"), S("Constant")), ("prod", S("SHO"), S("Matern32"))]
    n = 0
    for rep in range(1 if q else 4):
        for i, s in enumerate(sums if not q else sums[:5]):
            n += 1
            rt = [["plain-iserial", "int-iparallel"], ["plain-iparallel", "int"], ["int", "int-iparallel"]][n % 3]
            out.append(dict(kind="zero", skel=s, routes=["plain"] + rt, ninst=1 + n % 3))
        for s in (plain_only[seed % 3:][:1] if q else plain_only):
            out.append(dict(kind="zero", skel=s, routes=["plain", "plain-iserial", "plain-iparallel"], ninst=1))
        two = [s for s in sums if s[0] == "sum"]
        for s in two[:1 if q else None]:
            n += 1
            out.append(dict(kind="zero", skel=s, routes=["plain", "mix-odd" if n % 2 else "mix-even", "mix-even-iparallel" if n % 2 else "mix-odd-iparallel"], ninst=1 + n % 2))
        for s in sums[:2 if q else None]:
            n += 1
            out.append(dict(kind="shrink", skel=s, routes=["plain", "int" if n % 3 else "int-iparallel"], ninst=1 + n % 2))
    out.sort(key=lambda j: -len(str(j.get("skel", ""))) - 50 * str(j).count("iparallel"))
    for i, j in enumerate(out):
        j["N"] = int([1, 4, 7, 12, 2, 9][(i + seed) % 6])
        j["M"] = int(rng.choice([1, 5]))
        j["cases"] = 6 if q else 25
    return out


def run(job, ctx):
    if job["kind"] == "select":
        return select(job, ctx)
    if job["kind"] == "near_simultaneous":
        return near_simultaneous(ctx)
    skel = inst.tup(job["skel"])
    N, M, ninst = job["N"], job["M"], job["ninst"]
    pl = {}
    for r in job["routes"]:
        base, _, so = r.partition("-i") if not r.startswith("mix") else (r[:8] if "even" in r else r[:7], "", "iparallel" if "iparallel" in r else "")
        if r.startswith("plain-"):
            pl[r] = (skel, r[6:])
        elif r == "parallel":
            pl[r] = (skel, "parallel")
        elif r == "plain":
            pl[r] = (skel, "auto")
        elif r.startswith("int"):
            pl[r] = (mixed(skel, "all"), "iparallel" if "iparallel" in r else "auto")
        else:
            pl[r] = (mixed(skel, "odd" if "odd" in r else "even"), "iparallel" if "iparallel" in r else "auto")
    fns = {r: pipes.pipeline(s, so, ninst, want=("ll", "cond", "pred")) for r, (s, so) in pl.items()}
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            spec, t, diag, y, Xs, dn, desc = inst.make_case(rng, skel, N, M, lo=-3, mode=str(rng.choice([m for m in gen.COORD_MODES if m != "close"])))
            if dn.cond > 1e7 or nearly_tied(spec, t):
                raise Skip
            ctx._case[1].update(desc, kind=job["kind"])
            p = specs.flatten(spec)[1]
            ctx.cover(structure=specs.label(skel), kind=job["kind"], N=N, instruments=ninst)
            iid = rng.integers(0, ninst, N).astype(int)
            want = dict(loc=dn.posterior(t), pred=dn.posterior(Xs), ll=dn.loglik())
            if job["kind"] == "shrink":
                shrink(ctx, rng, job, fns, spec, p, t, iid, diag, y, Xs, dn, desc)
                continue
            res = {}
            for r, f in fns.items():
                ctx.cover(route=r)
                order = np.arange(N)
                if r in ("plain", "parallel"):
                    X, T = t, Xs
                else:
                    if rng.random() < 0.6:  # exposures may come in any order
                        order = rng.permutation(N)
                    X = (t[order], np.zeros(N), iid[order])
                    T = (Xs, np.zeros(M), rng.integers(0, ninst, M).astype(int))
                o = f(p, X, diag[order], y[order], T)
                back = np.argsort(order)
                o["loc"], o["var"] = o["loc"][back], o["var"][back]
                res[r] = o
                info = dict(route=r, order=order[:8], inst=iid[:8], **desc)
                tl, tm, tv = tolerances(dn, *pl[r])
                for k in ("ll", "ll_cond"):
                    ctx.close("log_probability", o[k], want["ll"], tl, info)
                ctx.close("data_mean", o["loc"], want["loc"][0], tm, info)
                ctx.close("data_variance", o["var"], want["loc"][1], tv, info)
                ctx.close("test_mean", o["pm"], want["pred"][0], tm, info)
                ctx.close("test_variance", o["pv"], want["pred"][1], tv, info)
                for k, tol in dict(ll=tl, loc=tm, var=tv, pm=tm, pv=tv).items():
                    ctx.close("routes_agree", o[k], res["plain"][k], tol, info)


def nearly_tied(spec, t):
    """Distinct times so close (for several instruments) that the difference of their integrals
    is lost to rounding: see the known finding near_simultaneous."""
    g = np.diff(np.sort(t))
    g = g[g > 0]
    return len(g) and np.min(g) * oracle.rate(spec) < 1e-3


def tolerances(dn, skel, solver):
    """Those of the model as run: integrated kernels and solvers have looser variances."""
    tl, tm, tv = pipes.tols(dn, inst_base=1e-7)
    if oracle.has_int(skel) or solver.startswith("i"):
        tv = 10 * tv
        if "Matern52" in str(skel):
            tv *= 10
            if solver == "iparallel":
                tm, tv = 300 * tm, 30 * tv
    return tl, tm, tv


def near_simultaneous(ctx):
    """Two instruments with exposures 5e-6 correlation lengths apart (known finding)."""
    spec = ("sum", ("Exp", 6.39, 1.78), ("Exp", 0.374, 1.15))
    t = np.array([4.132297, 4.132302, 7.56, 12.98, 17.28])
    diag = np.full(5, 0.013)
    y = np.array([-4.2, -4.3, -3.1, 0.5, 1.0])
    iid = np.array([0, 1, 1, 1, 0])
    dn = oracle.Dense(spec, t, diag, y)
    skel = specs.flatten(spec)[0]
    f = pipes.pipeline(mixed(skel, "all"), "auto", 2, want=("ll", "cond"))
    with ctx.case(0, dict(spec=spec, t=t, inst=iid)):
        o = f(specs.flatten(spec)[1], (t, np.zeros(5), iid), diag, y)
        tl, tm, tv = tolerances(dn, mixed(skel, "all"), "auto")
        w = dn.posterior(t)
        ctx.close("log_probability", o["ll"], dn.loglik(), tl)
        ctx.close("data_mean", o["loc"], w[0], tm)
        ctx.close("data_variance", o["var"][2:], w[1][2:], tv)
        ctx.close("near_simultaneous_variance", o["var"][:2], w[1][:2], 1e-4 * w[1][:2], key="near-simultaneous-instruments")


def shrink(ctx, rng, job, fns, spec, p, t, iid, diag, y, Xs, dn0, desc):
    """Exposures shrink: results approach the plain ones as fast as the exact ones do."""
    r = job["routes"][1]
    N, M = len(t), len(Xs)
    L = 1.0 / oracle.rate(spec)
    gaps = np.diff(t)
    dmin = min(L, float(np.min(gaps[gaps > 0])) if np.any(gaps > 0) else L)
    if np.any(gaps <= 1e-9 * L):
        raise Skip  # simultaneous exposures of one instrument would overlap
    plain = fns["plain"](p, t, diag, y, Xs)
    ispec = mixed(spec, "all")
    T = (Xs, np.zeros(M), np.zeros(M, int))
    last = None
    for f in (0.9, 0.1, 0.02):
        X = (t, np.full(N, f * dmin), iid)
        if pipes.too_short(ispec, X, "iparallel" if "iparallel" in r else "auto") or (X[1][0] < 1e-3 * L and "Matern52" in str(ispec)):
            break
        dn = oracle.Dense(ispec, X, diag, y)
        tl, tm, tv = pipes.tols(dn, solver="iparallel" if "iparallel" in r else "auto")
        o = fns[r](p, X, diag, y, T)
        info = dict(route=r, exposure=f, **desc)
        lw, pw = dn.loglik(), dn.posterior(Xs)
        ctx.close("shrinking_log_probability", o["ll"], lw, tl, info)
        ctx.close("shrinking_mean", o["pm"], pw[0], tm, info)
        ctx.close("shrinking_variance", o["pv"], pw[1], tv, info)
        gap = abs(float(o["ll"]) - float(plain["ll"]))
        ctx.true("approaches_the_plain_model", gap <= 1.01 * abs(lw - dn0.loglik()) + 2 * tl, dict(gap=gap, **info))
        ctx.cover(route="shrink " + r, fraction=f)
        last = f
    if last is None:
        raise Skip


def select(job, ctx):
    """The solver chosen for every kind of model, and explicit choices."""
    import smolgp
    from smolgp import kernels as K
    from smolgp import solvers as SV
    from tinygp.noise import Diagonal
    t = jnp.array([0.0, 1.0, 2.5])
    X = (t, jnp.array([0.3, 0.2, 0.0]), jnp.array([0, 1, 0]))
    Z = (t, jnp.zeros(3), jnp.array([0, 1, 0]))
    y = np.array([0.3, -0.2, 0.1])
    d = np.full(3, 0.1)
    a, b, h = K.Exp(1.0, 1.0), K.Matern32(2.0, 0.7), K.SHO(3.0, 0.7, 1.0)
    ia, ib = K.IntegratedExp(1.0, 1.0, num_insts=2), K.IntegratedMatern32(2.0, 0.7, num_insts=2)
    sa, sb, sh = ("Exp", 1.0, 1.0), ("Matern32", 2.0, 0.7), ("SHO", 3.0, 0.7, 1.0)
    I = lambda s: ("int", s)
    models = {"leaf": (a, sa, t), "sum": (a + b, ("sum", sa, sb), t), "product": (a * b, ("prod", sa, sb), t), "scaled": (2.0 * h, ("scale", 2.0, sh), t),
              "scaled sum": (2.0 * (a + b), ("scale", 2.0, ("sum", sa, sb)), t), "nested": (a + 2.0 * (b * h), ("sum", sa, ("scale", 2.0, ("prod", sb, sh))), t),
              "integrated": (ia, I(sa), X), "scaled integrated": (2.0 * ia, ("scale", 2.0, I(sa)), X), "sum integrated": (ia + ib, ("sum", I(sa), I(sb)), X),
              "scaled sum integrated": (0.5 * (ia + ib), ("scale", 0.5, ("sum", I(sa), I(sb))), X),
              "sum of scaled integrated": (0.5 * ia + 3.0 * ib, ("sum", ("scale", 0.5, I(sa)), ("scale", 3.0, I(sb))), X),
              "doubly scaled integrated": (2.0 * (0.5 * ib), ("scale", 2.0, ("scale", 0.5, I(sb))), X),
              "mixed": (ia + b, ("sum", I(sa), sb), Z), "mixed reversed": (b + ia, ("sum", sb, I(sa)), Z),
              "mixed scaled": (a + 2.0 * ib, ("sum", sa, ("scale", 2.0, I(sb))), Z),
              "mixed scaled reversed": (2.0 * (ib + a) + h, ("sum", ("scale", 2.0, ("sum", I(sb), sa)), sh), Z)}
    for c, (name, (k, spec, XX)) in enumerate(models.items()):
        if not ctx.want_case(c) or c % 4 != job["part"]:
            continue
        with ctx.case(c, dict(model=name, spec=spec)):
            ctx.cover(kind="select", model=name)
            integrated_ = isinstance(XX, tuple)
            XN = jax.tree_util.tree_map(np.asarray, XX)
            dn = oracle.Dense(spec, XN, d, y)
            tl = pipes.tols(dn, inst_base=1e-7)[0]
            with sut(name):
                gp = smolgp.GaussianProcess(k, XX, diag=d)
                Xs = jnp.array([1.7, 5.0, -1.0]) if not integrated_ else (jnp.array([1.7, 5.0, -1.0]), jnp.zeros(3), jnp.array([1, 0, 0]))
                ll, m, v = jax.jit(lambda y: (gp.log_probability(y), *gp.condition(y).gp.predict(Xs, return_var=True)))(y)
                ctx.close("selected_log_probability", np.asarray(ll), dn.loglik(), tl, name)
            XsN = jax.tree_util.tree_map(np.asarray, Xs)
            w = dn.posterior(XsN)
            _, tm, tv = pipes.tols(dn, inst_base=1e-7)
            ctx.close("selected_mean", np.asarray(m), w[0], tm, name)
            ctx.close("selected_variance", np.asarray(v), w[1], tv, name)
            classes = [SV.IntegratedStateSpaceSolver, SV.ParallelIntegratedStateSpaceSolver] if integrated_ else [SV.StateSpaceSolver, SV.ParallelStateSpaceSolver]
            ctx.true("selected_solver", isinstance(gp.solver, (classes[0],)), type(gp.solver).__name__)
            if c % 5 == 0:
                with sut("explicit solver"):
                    noise = Diagonal(diag=jnp.asarray(d))
                    for cls in classes:
                        g = smolgp.GaussianProcess(k, XX, diag=d, solver=cls)
                        ctx.true("explicit_solver_used", type(g.solver) is cls, type(g.solver).__name__)
                        ctx.close("explicit_log_probability", np.asarray(jax.jit(lambda y: g.log_probability(y))(y)), dn.loglik(), tl, name)
                    g = smolgp.GaussianProcess(k, XX, diag=d, solver=classes[0](k, XX, noise))
                    ctx.close("instance_log_probability", np.asarray(jax.jit(lambda y: g.log_probability(y))(y)), dn.loglik(), tl, name)
            if name.startswith(("integrated", "scaled integrated", "mixed")):
                try:
                    smolgp.GaussianProcess(k, t, diag=d)
                    ctx.true("integrated_needs_exposures", False, name)
                except AssertionError:
                    ctx.true("integrated_needs_exposures", True)
            jax.clear_caches()
