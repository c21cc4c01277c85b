"""C10: sums, products and scalings of kernels behave as covariance algebra."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import Skip, rng_for, sut

RULE = ("random expression trees (sum, product, scalar multiple on either side, builtin sum()) over all kernels, and "
        "sums/scalings of integrated kernels; each is rewritten (commuted, reassociated, distributed, scale moved) and "
        "original and rewritings are evaluated and used for inference; all expressions of up to two operators (and a sample of larger "
        "ones) with scalars of every numeric type; non-trivial = distinct tree and parameters with "
        "covariance, log density and predictions compared with the covariance algebra of the closed forms")
ASSUMPTIONS = ["float64, diagonal noise, zero mean; state dimension up to 14", "products of integrated kernels are not supported by the library"]
KINDS = ("Exp", "Matern32", "Matern52", "SHO", "Cosine", "Constant")


def jobs(tier, seed):
    rng = rng_for(seed, "C10", "jobs")
    q = tier == "quick"
    out = []
    P, S = specs.PARAM, gen.skel_leaf
    fixed = [("scale", P, ("prod", S("SHO"), S("Exp"))), ("prod", ("scale", P, S("Matern32")), ("scale", P, S("SHO"))),
             ("sum", ("prod", S("Exp"), S("Cosine")), ("prod", S("Exp"), S("Matern32"))),
             ("prod", S("Exp"), ("sum", S("SHO"), ("sum", S("Matern32"), S("Constant")))),
             ("prod", ("prod", S("Exp"), S("Matern32")), S("Cosine")), ("scale", P, ("scale", P, S("SHO"))),
             ("prod", ("sum", S("Exp"), S("Constant")), ("sum", S("Cosine"), S("Matern32")))]
    for s in fixed:
        out.append({"skel": s})
    while len(out) < (14 if q else 160):
        s = gen.random_skel(rng, depth=3, kinds=KINDS, p_leaf=0.25)
        if s[0] in ("sum", "prod", "scale") and dim(s) <= (6 if q else 14):
            out.append({"skel": s})
    ii = [s for s in integ.base_skels() if s[0] != "int"]
    out += [{"skel": ii[int(rng.integers(len(ii)))], "ninst": int(rng.integers(1, 3))} for _ in range(2 if q else 20)]
    for k, j in enumerate(out):
        j["cases"] = 8 if q else 25
        j["N"] = int(rng.choice([2, 5, 9, 14]))
        j["style"] = int(k % 4)
    parts = 4 if q else 16
    out += [{"expressions": 1, "integrated": False, "n": 130 if q else 1000, "part": k, "of": parts, "seed": seed} for k in range(parts)]
    out += [{"expressions": 1, "integrated": True, "n": 16 if q else 200, "part": k, "of": parts // 2, "seed": seed} for k in range(parts // 2)]
    return out


# ---------------------------------------------------------------- rewriting rules
# trees carry leaf parameter *indices* so that rewritten trees reuse parameters
def index(skel, it):
    k = skel[0]
    if k in ("sum", "prod"):
        return (k, index(skel[1], it), index(skel[2], it))
    if k == "scale":
        return (k, next(it), index(skel[2], it))
    if k == "int":
        return (k, index(skel[1], it))
    return (k,) + tuple(next(it) for _ in skel[1:])


def rewrite(t, rng, p=0.6):
    k = t[0]
    if k in ("sum", "prod"):
        a, b = rewrite(t[1], rng, p), rewrite(t[2], rng, p)
        r = rng.random()
        if k == "prod" and b[0] == "sum" and r < p and size(a) <= 2:      # distribute
            return ("sum", ("prod", a, b[1]), ("prod", a, b[2]))
        if k == "prod" and a[0] == "sum" and r < p and size(b) <= 2:
            return ("sum", ("prod", a[1], b), ("prod", a[2], b))
        if a[0] == k and r < p:                          # reassociate
            return (k, a[1], (k, a[2], b))
        if b[0] == k and r < p:
            return (k, (k, a, b[1]), b[2])
        if k == "prod" and a[0] == "scale" and rng.random() < p:
            return ("scale", a[1], ("prod", a[2], b))
        if rng.random() < p:                             # commute
            return (k, b, a)
        return (k, a, b)
    if k == "scale":
        a = rewrite(t[2], rng, p)
        r = rng.random()
        if a[0] == "sum" and r < p:
            return ("sum", ("scale", t[1], a[1]), ("scale", t[1], a[2]))
        if a[0] == "prod" and r < p:
            return ("prod", ("scale", t[1], a[1]), a[2]) if rng.random() < 0.5 else ("prod", a[1], ("scale", t[1], a[2]))
        return ("scale", t[1], a)
    return t


def dim(s):
    if s[0] == "sum":
        return dim(s[1]) + dim(s[2])
    if s[0] == "prod":
        return dim(s[1]) * dim(s[2])
    if s[0] == "scale":
        return dim(s[2])
    return {"Exp": 1, "Constant": 1, "Matern52": 3}.get(s[0], 2)


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, tuple))


def build(t, p, ninst, style):
    """kernel of an indexed tree; `style` varies how the operators are spelled."""
    from smolgp import kernels as K  # noqa: F401
    k = t[0]
    if k == "scale":
        a = build(t[2], p, ninst, style)
        return p[t[1]] * a if (style + t[1]) % 2 == 0 else a * p[t[1]]
    if k in ("sum", "prod"):
        if k == "sum" and style >= 2:
            parts = flat(t)
            return sum([build(x, p, ninst, style) for x in parts])
        a, b = build(t[1], p, ninst, style), build(t[2], p, ninst, style)
        return a + b if k == "sum" else a * b
    return specs.smol(spec_of(t, p), ninst)


def flat(t):
    return flat(t[1]) + flat(t[2]) if t[0] == "sum" else [t]


def spec_of(t, p):
    k = t[0]
    if k in ("sum", "prod"):
        return (k, spec_of(t[1], p), spec_of(t[2], p))
    if k == "scale":
        return (k, p[t[1]], spec_of(t[2], p))
    if k == "int":
        return (k, spec_of(t[1], p))
    return (k,) + tuple(p[i] for i in t[1:])


def run(job, ctx):
    import itertools

    import smolgp
    if job.get("expressions"):
        return run_expressions(job, ctx)
    skel = inst.tup(job["skel"])
    ninst = job.get("ninst", 1)
    integrated = oracle.has_int(skel)
    rng = ctx.rng(job["i"], "tree")
    t0 = index(skel, itertools.count())
    trees = [t0]
    for _ in range(30):
        t = rewrite(t0, rng)
        if t not in trees and size(t) <= 3 * size(t0) + 6:
            trees.append(t)
        if len(trees) == (2 if ctx.tier == 'quick' else 3):
            break

    def one(t, style, p, X, diag, y, Xs, a, b):
        k = build(t, p, ninst, style)
        gp = smolgp.GaussianProcess(k, X, diag=diag)
        r = gp.condition(y)
        m, v = r.gp.predict(Xs, return_var=True)
        return dict(k=k(a, b), d=k(a), ll=gp.log_probability(y), ll2=r.log_probability, m=m, v=v, loc=r.gp.loc, var=r.gp.variance)

    jits = [jax.jit(lambda *args, t=t, s=(job["style"] + n) % 4: one(t, s, *args)) for n, t in enumerate(trees)]
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            if integrated:
                spec, X, diag, y, Xs, dn, desc = integ.make_case(rng, skel, job["N"], ninst, 5)
                tt = X[0]
            else:
                spec, X, diag, y, Xs, dn, desc = inst.make_case(rng, skel, job["N"], 5)
                tt = X
            desc["trees"] = [str(t) for t in trees]
            ctx._case[1].update(desc)
            ctx.cover(structure=specs.label(skel), style=job["style"], rewritings=len(trees) - 1)
            p = [jnp.asarray(x) for x in specs.flatten(spec)[1]]
            a = np.concatenate([tt[:3], tt[:1]])
            b = np.concatenate([tt[::-1][:4], tt[:1] + 0.1 * desc["L"]])[:4] + 0.0
            want_k = oracle.k_fn(spec, a[:, None] - b[None, :])
            mu, var = dn.posterior(Xs)
            lo, va = dn.posterior(X)
            a2 = oracle.amp2(spec)
            tl, tm, tv = pipes.tols(dn, inst_base=1e-7)
            outs = []
            for n, f in enumerate(jits):
                with sut("kernel expression"):
                    o = f(p, jax.tree_util.tree_map(jnp.asarray, X), jnp.asarray(diag), jnp.asarray(y),
                          jax.tree_util.tree_map(jnp.asarray, Xs), jnp.asarray(a), jnp.asarray(b))
                    o = {k: np.asarray(v) for k, v in o.items()}
                outs.append(o)
                e = "" if n == 0 else "_rewritten"
                rt = a2 * (1e-9 + 1e-14 * np.max(np.abs(tt)) * oracle.rate(spec))
                ctx.close("covariance" + e, o["k"], want_k, rt, desc)
                ctx.close("variance" + e, o["d"], np.full(len(a), a2), 1e-9 * a2, desc)
                ctx.close("loglik" + e, o["ll"], dn.loglik(), tl, desc)
                ctx.close("loglik_conditioned" + e, o["ll2"], dn.loglik(), tl, desc)
                ctx.close("mean" + e, o["m"], mu, tm, desc)
                ctx.close("predictive_variance" + e, o["v"], var, tv, desc)
                ctx.close("mean_at_data" + e, o["loc"], lo, tm, desc)
                ctx.close("variance_at_data" + e, o["var"], va, tv, desc)
            for o in outs[1:]:
                ctx.close("equal_after_rewriting", o["ll"], outs[0]["ll"], tl, desc)


# ------------------------------------------------- every way of combining, by enumeration
UNARY, BINARY = ("c*x", "x*c"), ("x+y", "x*y", "sum")


def expressions(seed, want, integrated):
    """all expressions of up to two operators and a sample of those of three or four, as nested tuples"""
    rng = rng_for(seed, "C10", "expressions", int(integrated))
    ops2 = ("x+y", "sum") if integrated else BINARY
    l0 = ["E", "M"]
    l1 = [(u, "E") for u in UNARY] + [(b, "E", "M") for b in ops2]
    l2 = [(u, x) for u in UNARY for x in l1] + [(b, x, "M") for b in ops2 for x in l1] + [(b, "M", x) for b in ops2 for x in l1]
    l22 = [(b, x, y) for b in ops2 for x in l1 for y in l1]
    out = l1 + l2 + [l22[int(i)] for i in rng.permutation(len(l22))]
    if len(out) > want:
        out = out[:len(l1) + len(l2)] if not integrated else [out[int(i)] for i in rng.permutation(len(out))]
    pool = l1 + l2 + l22
    while len(out) < want:
        x = pool[int(rng.integers(len(pool)))]
        y = (pool + 20 * l0)[int(rng.integers(len(pool) + 40))]
        e = (str(rng.choice(UNARY)), x) if rng.random() < 0.5 else (str(rng.choice(ops2)),) + ((x, y) if rng.random() < 0.5 else (y, x))
        if edim(e) <= 12:
            out.append(e)
    return out[:want]


def edim(e):
    if isinstance(e, str):
        return 1 if e == "E" else 2
    d = [edim(x) for x in e[1:]]
    return d[0] * d[1] if e[0] == "x*y" else sum(d)


def run_expressions(job, ctx):
    import smolgp
    from smolgp import kernels as K
    from smolgp.kernels import integrated as KI
    integ_ = job["integrated"]
    exprs = expressions(job["seed"], job["n"], integ_)
    for c, e in enumerate(exprs):
        if c % job["of"] != job["part"] or not ctx.want_case(c):
            continue
        rng = ctx.rng("expr", int(integ_), c)
        with ctx.case(c, {}):
            def scalar():
                v = float(rng.choice([2.0, 3.0, 0.5, 0.1, 7.0]))
                kind = int(rng.integers(4))
                return v, [lambda: v if v % 1 else int(v), lambda: v, lambda: np.float64(v), lambda: jnp.asarray(v)][kind]()

            def mk(x):
                if x == "E":
                    l = float(rng.uniform(0.5, 2))
                    k = KI.IntegratedExp(scale=l, num_insts=2) if integ_ else K.Exp(scale=l)
                    return k, ("int", ("Exp", l, 1.0)) if integ_ else ("Exp", l, 1.0)
                if x == "M":
                    l, s = float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 2))
                    k = KI.IntegratedMatern32(scale=l, sigma=s, num_insts=2) if integ_ else K.Matern32(scale=l, sigma=s)
                    return k, ("int", ("Matern32", l, s)) if integ_ else ("Matern32", l, s)
                if x[0] in UNARY:
                    k, s = mk(x[1])
                    v, f = scalar()
                    return (f * k if x[0] == "c*x" else k * f), ("scale", v, s)
                (k1, s1), (k2, s2) = mk(x[1]), mk(x[2])
                k = k1 + k2 if x[0] == "x+y" else k1 * k2 if x[0] == "x*y" else sum([k1, k2])
                return k, ("prod" if x[0] == "x*y" else "sum", s1, s2)
            with sut("kernel expression"):
                k, spec = mk(e)
            desc = dict(expression=str(e), spec=spec)
            ctx._case[1].update(desc)
            ctx.cover(expression=str(e)[:60], operators=str(e).count("("))
            a2 = oracle.amp2(spec)
            if integ_:
                X = (np.array([0.4, 0.9, 2.0]), np.array([0.8, 0.5, 0.0]), np.array([0, 1, 1]))
                y, diag = np.array([0.7, -0.4, 1.1]), a2 * np.array([0.1, 0.2, 0.15])
                dn = oracle.Dense(spec, X, diag, y)
                with sut("inference"):
                    got = jax.jit(lambda X, d, y: smolgp.GaussianProcess(k, X, diag=d).log_probability(y))(tuple(map(jnp.asarray, X)), jnp.asarray(diag), jnp.asarray(y))
                ctx.close("expression_loglik", got, dn.loglik(), pipes.tols(dn)[0], desc)
                continue
            a, b = np.array([0.0, 0.7, 0.7]), np.array([0.7, 0.1, 2.5, 0.0])
            with sut("kernel evaluation"):
                o = [np.asarray(x) for x in (k(jnp.asarray(a), jnp.asarray(b)), k(jnp.asarray(a)), k.transition_matrix(0.0, 0.6),
                                             k.process_noise(0.0, 0.6), dense(k.stationary_covariance()))]
            ctx.close("expression_covariance", o[0], oracle.k_fn(spec, a[:, None] - b[None, :]), 1e-10 * a2 + 0 * o[0], desc)
            ctx.close("expression_variance", o[1], np.full(3, a2), 1e-10 * a2, desc)
            A, Q, P = o[2:]
            ctx.close("expression_noise_is_consistent", Q, P - A @ P @ A.T, 1e-9 * np.sqrt(np.outer(np.diag(P), np.diag(P))) + 1e-12 * a2, desc)
            if c % 5 == 0:
                y, diag = np.array([0.7, -0.4, 1.1]), a2 * np.array([0.1, 0.2, 0.15])
                dn = oracle.Dense(spec, np.array([0.0, 0.3, 1.5]), diag, y)
                with sut("inference"):
                    got = jax.jit(lambda t, d, y: smolgp.GaussianProcess(k, t, diag=d).log_probability(y))(jnp.array([0.0, 0.3, 1.5]), jnp.asarray(diag), jnp.asarray(y))
                ctx.close("expression_loglik", got, dn.loglik(), pipes.tols(dn)[0], desc)


def dense(P):
    return P if hasattr(P, "ndim") else P.to_dense()
