"""C15: jit, vmap and automatic differentiation agree with direct evaluation."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import rng_for, sut

RULE = ("per model structure and solver: log density, conditioning and prediction run directly, compiled, batched over "
        "parameters, data, noise or all of them, and compiled+batched; value and gradient of the log probability with "
        "respect to every parameter, the noise and the data, compiled, and batched; derivative of predictions along a "
        "direction in data space; non-trivial = distinct instance and transformation with all outputs compared with the "
        "dense values and the dense analytic / finite-difference derivatives")
ASSUMPTIONS = ["float64, diagonal noise, zero mean, sorted times for instantaneous models",
               "gradient oracle: 0.5 tr((aa' - C^-1) dC), dC by Richardson-extrapolated central differences of closed forms",
               "parallel solver: Matern-5/2 exposures at least 1% of its scale"]
B = 3


def jobs(tier, seed):
    rng = rng_for(seed, "C15", "jobs")
    q = tier == "quick"
    leaf = [gen.skel_leaf(k) for k in ("SHO", "Matern52", "Exp", "Matern32", "Cosine", "Constant", "SHO")]
    comp = [s for s in inst.composite_skels()]
    ii = integ.base_skels()
    rng.shuffle(comp)
    comp.sort(key=lambda s: gen.dim(s) > 6)
    head, tail = ii[:6], ii[6:]
    rng.shuffle(tail)
    out = [{"kind": "batch", "solver": "auto"}, {"kind": "ibatch", "solver": "auto"},
           {"kind": "batch", "solver": "parallel"}, {"kind": "ibatch", "solver": "iparallel"}][:3 if q else 4]
    n1, n2, n3 = (2, 5, 2) if q else (len(comp), len(ii), 10)
    L1 = leaf[:5] if q else leaf
    for s in L1 + comp[:n1]:
        out.append({"kind": "grad", "skel": s, "solver": str(rng.choice(["auto", "auto", "parallel"])), "N": int(rng.choice([1, 3, 6, 12]))})
    for s in (head + tail)[:n2]:
        out.append({"kind": "grad", "skel": s, "solver": str(rng.choice(["auto", "auto", "iparallel"])), "N": int(rng.choice([1, 3, 6, 9])),
                    "ninst": int(rng.choice([1, 2, 3]))})
    pool = [(s, "auto") for s in comp] + [(s, "auto") for s in leaf] + [(s, "parallel") for s in leaf[:3]]
    for k in range(n3):
        s, so = pool[int(rng.integers(len(pool)))]
        out.append({"kind": "modes", "skel": s, "solver": so, "N": int(rng.choice([2, 5, 11])), "over": str(rng.choice(["params", "y", "noise", "all"]))})
    pool = [(s, "auto") for s in ii] + [(s, "iparallel") for s in ii[:4]]
    for k in range(n3):
        s, so = pool[int(rng.integers(len(pool)))]
        out.append({"kind": "modes", "skel": s, "solver": so, "N": int(rng.choice([2, 4, 7])), "ninst": int(rng.choice([1, 2])),
                    "over": str(rng.choice(["params", "y", "noise", "all"]))})
    for j in out:
        j["cases"] = 4 if q else 16
    out.sort(key=lambda j: (j["kind"] == "grad", j["kind"] != "ibatch"))
    return out


def case_of(job, rng, M=4):
    skel = inst.tup(job["skel"])
    while True:
        try:
            if oracle.has_int(skel):
                return integ.make_case(rng, skel, job["N"], job["ninst"], M, solver=job["solver"])
            return inst.make_case(rng, skel, job["N"], M)
        except Exception as e:
            if type(e).__name__ != "Skip":
                raise


# ------------------------------------------------------------ gradient oracle
def dense_gradient(dn, skel, p):
    """d loglik / d(params, diag, y) and an error scale for the parameters."""
    n = len(dn.y)
    Ci = np.linalg.inv(dn.C)
    A = np.outer(dn.alpha, dn.alpha) - Ci
    X = dn.X[0] if isinstance(dn.X, tuple) else dn.X
    span = float(np.ptp(X)) if n else 0.0
    g, sc = [], []
    for i in range(len(p)):
        h0 = 2e-3 * abs(p[i]) / (1 + 0.1 * oracle.rate(dn.spec) * span)

        def K(h):
            q = list(p)
            q[i] = q[i] + h
            return oracle.cov(specs.fill(skel, q), dn.X, dn.X)
        d1 = (K(h0) - K(-h0)) / (2 * h0)
        d2 = (K(h0 / 2) - K(-h0 / 2)) / h0
        d4 = (K(h0 / 4) - K(-h0 / 4)) / (h0 / 2)
        r1, r2 = (4 * d2 - d1) / 3, (4 * d4 - d2) / 3
        dK = (16 * r2 - r1) / 15
        g.append(0.5 * np.sum(A * dK))
        # error estimate: extrapolation remainder + rounding of the covariances + rounding in C^-1
        err = np.abs(dK - r2) + 1e-14 * oracle.amp2(dn.spec) / h0
        sc.append(0.5 * np.sum(np.abs(A) * err) + 0.5 * np.sum(np.abs(A)) * np.max(np.abs(dK)) * 1e-15 * dn.cond)
    return np.array(g), np.array(sc), 0.5 * np.diag(A), -dn.alpha, A


def ll_fn(job):
    skel = inst.tup(job["skel"])
    ninst = job.get("ninst", 1)
    route = job["i"] % 2

    def ll(p, diag, y, X):
        gp = pipes.make_gp(specs.fill(skel, p), X, diag, job["solver"], ninst)
        return gp.log_probability(y) if route else gp.condition(y).log_probability
    return ll


def J(x):
    return jax.tree_util.tree_map(jnp.asarray, x)


def stack(xs):
    return jax.tree_util.tree_map(lambda *a: jnp.stack([jnp.asarray(v) for v in a]), *xs)


def run_grad(job, ctx):
    skel = inst.tup(job["skel"])
    ll = ll_fn(job)
    vg = jax.value_and_grad(ll, argnums=(0, 1, 2))
    batched = bool(job["i"] % 2)
    f = jax.jit(jax.vmap(vg) if batched else vg)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            cs = [case_of(job, rng) for _ in range(B if batched else 1)]
            ctx._case[1].update(cs[0][-1], batched=batched, solver=job["solver"])
            ctx.cover(transformation="vmap(grad)" if batched else "jit(grad)", structure=specs.label(skel), solver=job["solver"])
            args = [([float(v) for v in specs.flatten(s[0])[1]], np.asarray(s[2]), np.asarray(s[3]), s[1]) for s in cs]
            with sut("gradient"):
                if batched:
                    v, g = f(*stack(args))
                else:
                    a = args[0]
                    v, g = f([jnp.asarray(x) for x in a[0]], J(a[1]), J(a[2]), J(a[3]))
                    v, g = v[None], jax.tree_util.tree_map(lambda x: x[None], g)
                v, g = np.asarray(v), jax.tree_util.tree_map(np.asarray, g)
            for k, s in enumerate(cs):
                dn, desc = s[5], s[6]
                integrated = oracle.has_int(skel)
                tl, _, _ = pipes.tols(dn, solver=job["solver"])
                ctx.close("value", v[k], dn.loglik(), tl, desc)
                p = args[k][0]
                gp_, sc, gd, gy, A = dense_gradient(dn, skel, p)
                base = 2e-6 if integrated else 1e-7
                amp = 1e2
                if near_critical(s[0]):
                    amp = 1e6 / 1e2
                tol = (base * (len(dn.y) + dn.w @ dn.w + 1 + np.sum(np.abs(A * dn.K)))) / np.abs(p) * (1 + oracle.rate(dn.spec) * span(dn)) + amp * sc
                got = np.array([float(x[k]) for x in g[0]])
                ctx.close("d_parameters", got, gp_, tol, desc)
                rel = base + 1e-13 * dn.cond
                ctx.close("d_noise", g[1][k], gd, rel * (np.max(np.abs(gd)) + np.max(np.abs(np.diag(A)))), desc)
                ctx.close("d_data", g[2][k], gy, rel * np.max(np.abs(gy)) + 1e-12 / np.sqrt(np.max(dn.diag)), desc)


def near_critical(spec):
    if spec[0] == "SHO":
        return abs(spec[2] - 0.5) < 0.02
    return any(near_critical(x) for x in spec[1:] if isinstance(x, tuple))


def span(dn):
    X = dn.X[0] if isinstance(dn.X, tuple) else dn.X
    return float(np.ptp(X))


# -------------------------------------------------------------------- modes
def run_modes(job, ctx):
    skel = inst.tup(job["skel"])
    integrated = oracle.has_int(skel)
    ninst = job.get("ninst", 1)
    over = job["over"]

    def f(p, diag, y, X, Xs, dy):
        gp = pipes.make_gp(specs.fill(skel, p), X, diag, job["solver"], ninst)
        r = gp.condition(y)
        m, v = r.gp.predict(Xs, return_var=True)
        out = dict(ll=gp.log_probability(y), llc=r.log_probability, loc=r.gp.loc, var=r.gp.variance, m=m, v=v)
        _, out["dm"] = jax.jvp(lambda yy: gp.predict(Xs, yy), (y,), (dy,))
        return out

    ax = {"params": (0, None, None, None, None, None), "y": (None, None, 0, None, None, None),
          "noise": (None, 0, None, None, None, None), "all": 0}[over]
    jf = jax.jit(f)
    vf = jax.jit(jax.vmap(f, in_axes=ax))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            cs = [case_of(job, rng) for _ in range(B)]
            if over != "all":   # same coordinates, different parameters / data / noise
                s0 = cs[0]
                new = [s0]
                while len(new) < B:
                    spec = s0[0]
                    diag, y = s0[2], s0[3]
                    if over == "params":
                        k = float(np.exp(0.3 * rng.normal()))
                        p = specs.flatten(spec)[1]
                        spec = specs.fill(skel, [x * float(np.exp(0.2 * rng.normal())) if abs(x - 0.5) > 0.03 else x for x in p])
                    elif over == "y":
                        y = y * rng.normal() + np.sqrt(np.mean(dnK(s0))) * rng.normal(size=len(y))
                    else:
                        diag = diag * np.exp(rng.normal(size=len(diag)))
                    dn = oracle.Dense(spec, s0[1], diag, y)
                    if dn.cond < 1e9:
                        new.append((spec, s0[1], diag, y, s0[4], dn, s0[6]))
                cs = new
            args = []
            for s in cs:
                dy = rng.normal(size=len(s[3])) * np.sqrt(np.mean(dnK(s)))
                args.append(([float(x) for x in specs.flatten(s[0])[1]], s[2], s[3], s[1], s[4], dy))
            if over != "all":
                for a in args:
                    a[5][:] = args[0][5]
            ctx._case[1].update(cs[0][-1], over=over, solver=job["solver"])
            ctx.cover(transformation=f"vmap({over})", structure=specs.label(skel), solver=job["solver"])
            runs = []
            with sut("compiled"):
                runs += [("jit", k, jf(*J(list(a)))) for k, a in enumerate(args[:2])]
            with sut("batched"):
                st = stack(args)
                if over == "all":
                    vo = vf(*st)
                else:
                    vo = vf(*[st[i] if ax[i] == 0 else J(args[0][i]) for i in range(6)])
                runs += [("vmap", k, jax.tree_util.tree_map(lambda x: x[k], vo)) for k in range(B)]
            if c == 0 and (job["i"] % 2 == 0 or ctx.tier != "quick"):
                ctx.cover(transformation="eager")
                with sut("direct"):
                    k = int(rng.integers(B))
                    runs.append(("eager", k, f(*J(list(args[k])))))
            for how, k, o in runs:
                s = cs[k]
                dn, desc = s[5], {"how": how, **s[6]}
                tl, tm, tv = pipes.tols(dn, solver=job["solver"])
                mu, va = dn.posterior(s[4])
                Xo = (s[1][0], s[1][1], s[1][2]) if integrated else s[1]
                lo, vo_ = dn.posterior(Xo)
                ctx.close(how + "_loglik", o["ll"], dn.loglik(), tl, desc)
                ctx.close(how + "_loglik_conditioned", o["llc"], dn.loglik(), tl, desc)
                ctx.close(how + "_mean", o["m"], mu, tm, desc)
                ctx.close(how + "_variance", o["v"], va, tv, desc)
                ctx.close(how + "_mean_at_data", o["loc"], lo, tm, desc)
                ctx.close(how + "_variance_at_data", o["var"], vo_, tv, desc)
                dd = oracle.Dense(s[0], s[1], s[2], args[k][5])
                ctx.close(how + "_derivative_of_prediction", o["dm"], dd.posterior(s[4])[0], pipes.tols(dd, solver=job["solver"])[1], desc)


def dnK(s):
    return np.diag(s[5].K)


# ---------------------------------------- gradient through a batch of oscillators
QS = [0.1, 0.45, 0.5 - 1e-4, 0.5 - 1e-6, 0.5, 0.5 + 1e-6, 0.5 + 2e-5, 0.501, 0.6, 4.0]


def run_batch(job, ctx):
    """d/dp of sum_b loglik(p_b): reverse mode through vmap, where both branches of every
    conditional are differentiated; all damping regimes and very long gaps in one batch."""
    integrated = job["kind"] == "ibatch"
    skel = integ.I("SHO") if integrated else gen.skel_leaf("SHO")

    def ll(p, diag, y, X):
        return pipes.make_gp(specs.fill(skel, p), X, diag, job["solver"], 1).log_probability(y)

    f = jax.jit(jax.value_and_grad(lambda P, *a: jnp.sum(jax.vmap(lambda *p: ll(p, *a))(*P))))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        w = gen.logu(rng, -1, 1)
        t = np.sort(rng.uniform(0, 10 / w, 6))
        t[4:] += float(rng.choice([0.0, 30.0, 2e3, 2e5])) / w
        X = (t, rng.choice([0.0, 0.1, 0.3], 6) / w, np.zeros(6, int)) if integrated else t
        if integrated:
            X[0][:] = np.cumsum(np.maximum(np.diff(np.r_[0, t]), 0.35 / w))
        diag, y = rng.uniform(0.05, 0.5, 6), rng.normal(size=6)
        Q = np.array(QS)
        P = [w * np.exp(0.1 * rng.normal(size=len(Q))), Q, np.exp(0.2 * rng.normal(size=len(Q)))]
        with ctx.case(c, dict(w=w, t=t, y=y, diag=diag, solver=job["solver"], integrated=integrated)):
            ctx.cover(transformation="grad(vmap)", structure=specs.label(skel), solver=job["solver"])
            with sut("gradient"):
                v, g = f([jnp.asarray(x) for x in P], J(diag), J(y), J(X))
            tot = 0.0
            for b in range(len(Q)):
                p = [float(x[b]) for x in P]
                dn = oracle.Dense(specs.fill(skel, p), X, diag, y)
                tot += dn.loglik()
                want, sc, _, _, A = dense_gradient(dn, skel, p)
                base = 1e-6 if integrated else 1e-7
                tol = base * (6 + dn.w @ dn.w + np.sum(np.abs(A * dn.K))) / np.abs(p) * (1 + min(1e3, oracle.rate(dn.spec) * span(dn))) + 1e4 * sc
                ctx.close("gradient_across_damping_regimes", [float(x[b]) for x in g], want, tol, {"Q": Q[b], "p": p})
            ctx.close("summed_loglik", v, tot, (1e-6 if integrated else 1e-8) * len(Q) * 20)


def run(job, ctx):
    {"grad": run_grad, "modes": run_modes, "batch": run_batch, "ibatch": run_batch}[job["kind"]](job, ctx)
