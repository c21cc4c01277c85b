"""C23: cost is linear in the data; the parallel solvers' depth logarithmic."""
import gc
import resource
import sys

import jax
import jax.numpy as jnp
import numpy as np
from scipy.linalg import cho_solve_banded, cholesky_banded

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import Skip, rng_for, sut

RULE = ("traced programs of the log probability, conditioning, prediction and component extraction, at sizes growing "
        "together in data and test points: largest array, total work (array elements written, times loop lengths), number "
        "of operations, and loop lengths; and runs with 4000 to 60000 data under a memory budget against an O(N) banded "
        "Cholesky oracle; non-trivial = distinct (model, solver, operation) measured at three or four sizes, or distinct large run")
ASSUMPTIONS = ["growth between sizes is measured, not absolute cost", "loops of unknown length (while) are counted once",
               "large runs: covariances below 1e-18 of the variance are zero in the oracle"]
S, P, I = gen.skel_leaf, specs.PARAM, integ.I
MEM = 1.5e9


def jobs(tier, seed):
    rng = rng_for(seed, "C23", "jobs")
    q = tier == "quick"
    plain = [S("SHO"), ("sum", S("Exp"), S("Matern52")), ("prod", S("Exp"), S("Cosine")), S("Matern32"), ("scale", P, ("sum", S("SHO"), S("Matern32")))]
    ii = [I("Matern32"), I("SHO"), ("sum", I("Exp"), I("Matern32")), ("scale", P, I("Exp")), I("Matern52")]
    out = []
    # large runs first: they take longest
    big = [(S("Exp"), "auto", 30000, 5000, 1), (S("SHO"), "auto", 20000, 2000, 1), (S("Matern32"), "parallel", 20000, 2000, 1),
           (("sum", S("Exp"), S("Matern52")), "auto", 12000, 1000, 1), (I("Exp"), "auto", 8000, 1000, 2), (I("Matern32"), "iparallel", 4000, 500, 1)]
    if not q:
        big += [(S("Matern52"), "parallel", 60000, 20000, 1), (("prod", S("Exp"), S("Cosine")), "auto", 50000, 60000, 1), (I("SHO"), "auto", 10000, 1000, 3),
                (("sum", I("Exp"), I("Matern32")), "iparallel", 8000, 1000, 2), (("sum", S("SHO"), S("Matern32")), "parallel", 30000, 3000, 1)]
    for s, so, N, M, ni in big:
        out.append(dict(kind="large", skel=s, solver=so, N=N, M=M, ninst=ni, cases=1 if q else 3))
    groups = [("log_probability", "predict"), ("condition", "predict_states"), ("components", "condition_at_test", "gradient")]
    for s, sos, ni in [(x, ("auto", "parallel"), 1) for x in (plain[:2] if q else plain)] + [(x, ("iparallel", "auto"), 2) for x in (ii[3:4] if q else ii)]:
        for so in sos:
            for g in groups[:2] if q and so == "iparallel" else groups:
                out.append(dict(kind="trace", skel=s, solver=so, ninst=ni, programs=g))
    out.sort(key=lambda j: (j["kind"] == "trace", j["solver"] != "iparallel"))
    return out


# ---------------------------------------------------------------- traced programs
def sub(params):
    for v in params.values():
        for w in v if isinstance(v, (list, tuple)) else [v]:
            j = getattr(w, "jaxpr", w)
            if hasattr(j, "eqns"):
                yield j, getattr(w, "consts", ())


def size(v):
    s = getattr(getattr(v, "aval", v), "shape", None)
    return int(np.prod(s)) if s is not None else 1


def measure(jaxpr, times=1, acc=None):
    """Largest array, elements written, operations and loops of a traced program."""
    acc = acc if acc is not None else dict(largest=0, work=0, ops=0, loop=0, whiles=0)
    for e in jaxpr.eqns:
        n = sum(size(v) for v in e.outvars)
        acc["largest"] = max([acc["largest"]] + [size(v) for v in e.outvars] + [size(v) for v in e.invars])
        acc["work"] += n * times
        acc["ops"] += 1
        t = times
        if e.primitive.name == "scan":
            acc["loop"] = max(acc["loop"], int(e.params["length"]))
            t = times * int(e.params["length"])
        elif e.primitive.name == "while":
            acc["whiles"] += 1
        for j, consts in sub(e.params):
            for c in consts:
                acc["largest"] = max(acc["largest"], int(np.size(c)))
            measure(j, t, acc)
    return acc


def programs(skel, solver, ninst):
    def base(p, X, d):
        return pipes.make_gp(specs.fill(skel, p), X, d, solver, ninst)

    return {"log_probability": lambda p, X, d, y, Xs: base(p, X, d).log_probability(y),
            "condition": lambda p, X, d, y, Xs: (lambda g: (g.loc, g.variance))(base(p, X, d).condition(y).gp),
            "predict": lambda p, X, d, y, Xs: base(p, X, d).predict(Xs, y, return_var=True),
            "predict_states": lambda p, X, d, y, Xs: base(p, X, d).predict(Xs, y, return_full_state=True).get_all_components(return_var=True),
            "components": lambda p, X, d, y, Xs: base(p, X, d).condition(y).gp.get_all_component_means(return_var=True),
            "condition_at_test": lambda p, X, d, y, Xs: (lambda g: (g.loc, g.variance))(base(p, X, d).condition(y, Xs).gp),
            "gradient": lambda p, X, d, y, Xs: jax.grad(lambda q: base(q, X, d).log_probability(y))(p)}


def trace(job, ctx):
    skel = inst.tup(job["skel"])
    solver, ninst = job["solver"], job["ninst"]
    integrated = oracle.has_int(skel)
    p = [1.0 + 0.1 * i for i in range(len(specs.flatten(specs.fill(skel, iter_params(skel)))[1]))]
    for c, (name, f) in enumerate(programs(skel, solver, ninst).items()):
        if name not in job["programs"] or not ctx.want_case(c):
            continue
        with ctx.case(c, dict(skel=specs.label(skel), solver=solver, program=name)):
            ctx.cover(program=name, structure=specs.label(skel), solver=solver)
            m = {}
            sizes = [(64, 64), (128, 128), (256, 256), (512, 512)]
            tested = name in ("predict", "predict_states", "condition_at_test")
            # (array sizes in the traced program of a prediction are no guide: selecting a case per
            # test point broadcasts the states in it, which compilation removes; see `compiled`)
            # and the same happens over states in the parallel integrated solver
            arrays = not tested and solver != "iparallel"
            for N, M in sizes if arrays else [sizes[0], sizes[-1]]:
                args = arguments(integrated, N, M, ninst, p)
                with sut(name):
                    j = jax.make_jaxpr(f)(*args)
                m[N, M] = measure(j.jaxpr)
                m[N, M]["largest"] = max([m[N, M]["largest"]] + [int(np.size(v)) for v in j.consts])
            a, d = m[sizes[0]], m[sizes[-1]]
            info = dict(program=name, sizes=[list(s) for s in m], measured=list(m.values()))
            # doubling the problem at most doubles increments (quadratic growth quadruples them)
            if arrays:
                _, b, c_, _ = (m[s] for s in sizes)
                for q in ("largest", "work"):
                    i1, i2, i3 = b[q] - a[q], c_[q] - b[q], d[q] - c_[q]
                    slack = 64 if q == "largest" else 4096
                    ctx.true("largest_array_grows_linearly" if q == "largest" else "work_grows_linearly",
                             i2 <= 2.6 * i1 + slack and i3 <= 2.6 * i2 + slack, info)
                    ctx.note(q + "_growth_ratio", i3 / max(i2, 1) / 2.6)
            ctx.true("program_size_does_not_grow_with_data", d["ops"] <= 2.0 * a["ops"] + 50, info)
            if solver in ("parallel", "iparallel"):
                longest = max(v["loop"] for v in m.values())
                ctx.true("no_sequential_loop_over_data", longest <= 64, info)
            ctx.cover(largest_loop=d["loop"], while_loops=d["whiles"])
            if tested or name == "condition" or name == "log_probability" and not arrays:
                small, big = (compiled(f, arguments(integrated, n, n, ninst, p), name) for n in (500, 4000))
                info = dict(program=name, sizes=[500, 4000], small=small, big=big)
                for q, v in small.items():  # eight times the problem: 8 when linear, 64 when quadratic
                    ctx.true("compiled_%s_grows_linearly" % q, big[q] <= 13 * v + 2e5, info)
                    ctx.note("compiled_%s_growth_ratio" % q, big[q] / max(v, 1) / 13)


def arguments(integrated, N, M, ninst, p):
    t = np.arange(N) * 1.3
    X = (t, np.full(N, 0.4), np.arange(N) % ninst) if integrated else t
    ts = np.linspace(-1, 1.3 * N, M)
    Xs = (ts, np.zeros(M), np.zeros(M, int)) if integrated else ts
    return jax.tree_util.tree_map(jnp.asarray, (p, X, np.full(N, 0.1), np.zeros(N), Xs))


def compiled(f, args, name):
    """Memory and operations of the compiled program, from the compiler's own accounts."""
    with sut(name):
        c = jax.jit(f).lower(*args).compile()
    cost = c.cost_analysis()
    cost = cost[0] if isinstance(cost, (list, tuple)) else cost
    mem = c.memory_analysis()
    return dict(memory=float(mem.temp_size_in_bytes + mem.output_size_in_bytes), operations=float(cost["flops"]))


def iter_params(skel):
    n = str(skel).count(specs.PARAM)
    return [1.0] * n


# ---------------------------------------------------------------- large runs
def banded(spec, X, diag, y, cut):
    """Exact log density and posterior at the data with a covariance negligible beyond `cut`."""
    integrated = isinstance(X, tuple)
    T = X[0] if integrated else X
    half = X[1] / 2 if integrated else np.zeros(len(T))
    n = len(T)
    w = 0
    reach = cut + 2 * np.max(half)
    j = np.searchsorted(T, T + reach)
    w = int(np.max(j - np.arange(n)))
    ab = np.zeros((w + 1, n))
    for k in range(w + 1):
        i = np.arange(n - k)
        if integrated:
            ab[k, :n - k] = pair(spec, X, i, i + k)
        else:
            ab[k, :n - k] = oracle.k_fn(spec, T[i + k] - T[i])
    K = ab.copy()
    ab[0] += diag
    L = cholesky_banded(ab, lower=True)
    alpha = cho_solve_banded((L, True), y)
    ll = -0.5 * y @ alpha - np.sum(np.log(L[0])) - 0.5 * n * np.log(2 * np.pi)
    mu = K[0] * alpha
    for k in range(1, w + 1):
        mu[:n - k] += K[k, :n - k] * alpha[k:]
        mu[k:] += K[k, :n - k] * alpha[:n - k]
    return ll, mu, alpha, L, w, reach


def pair(spec, X, i, j):
    k = spec[0]
    if k == "sum":
        return pair(spec[1], X, i, j) + pair(spec[2], X, i, j)
    if k == "scale":
        return spec[1] * pair(spec[2], X, i, j)
    return oracle.avg_cov(spec[1], X[0][i], X[1][i], X[0][j], X[1][j])


def large(job, ctx):
    from .c22 import decay
    skel = inst.tup(job["skel"])
    integrated = oracle.has_int(skel)
    N, M, ni, solver = job["N"], job["M"], job["ninst"], job["solver"]
    pipe = pipes.pipeline(skel, solver, ni, want=("ll", "cond", "pred"))
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            spec = gen.params_for(rng, skel, 1.0, 1.0)
            for _ in range(200):
                spec = gen.params_for(rng, skel, 1.0, 1.0)
                if decay(spec) > 0.35 * oracle.rate(spec):
                    break
            dec = decay(spec)
            cut = 45 / dec
            gaps = rng.exponential(1.5 / dec, N) + 0.02 / dec
            if integrated:
                D = rng.uniform(0.2, 0.9, N) * (1.0 / dec)
                ts = np.cumsum(gaps + np.concatenate([[0], D[:-1]]))
                X = (ts + D / 2, D, np.sort(rng.integers(0, ni, N)) if ni == 1 else np.arange(N) % ni)
            else:
                X = np.cumsum(gaps)
            T = X[0] if integrated else X
            a2 = oracle.amp2(spec)
            diag = a2 * 10 ** rng.uniform(-2.5, 0, N)
            y = rng.normal(size=N) * np.sqrt(a2)
            pts = np.sort(rng.uniform(T[0] - 1 / dec, T[-1] + 1 / dec, M))
            pts[: min(3, M)] = T[[0, N // 2, N - 1]][: min(3, M)]
            pts = pts[rng.permutation(M)]
            Xs = (pts, np.zeros(M), np.zeros(M, int)) if integrated else pts
            ctx._case[1].update(spec=spec, N=N, M=M, solver=solver)
            ctx.cover(structure=specs.label(skel), solver=solver, large_N=N)
            ll, mu, alpha, L, w, reach = banded(spec, X, diag, y, cut)
            ctx.cover(oracle_bandwidth=w)
            gc.collect()
            before, peak0 = rss(), resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024
            o = pipe(specs.flatten(spec)[1], X, diag, y, Xs)
            peak = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024
            grew = peak - before if peak > peak0 else 0
            info = dict(N=N, M=M, spec=spec, solver=solver, memory=grew)
            ctx.true("memory_is_bounded", grew < MEM, info)
            ctx.note("memory_over_budget", grew / MEM)
            b = 1e-6 if integrated else 1e-9
            ctx.close("large_log_probability", o["ll"], ll, b * N, info)
            ctx.close("large_log_probability", o["ll_cond"], ll, b * N, info)
            ctx.close("large_mean_at_data", o["loc"], mu, 10 * b * np.sqrt(a2) + 0 * mu, info)
            # predictions at a sample of the test points
            pick = np.concatenate([[int(np.argmin(pts)), int(np.argmax(pts))], rng.integers(0, M, 40)])
            for k in pick:
                lo, hi = np.searchsorted(T, [pts[k] - reach, pts[k] + reach])
                Xk = tuple(v[lo:hi] for v in X) if integrated else X[lo:hi]
                one = (pts[k:k + 1], np.zeros(1), np.zeros(1, int)) if integrated else pts[k:k + 1]
                kv = np.zeros(N)
                kv[lo:hi] = oracle.cov(spec, one, Xk)[0] if hi > lo else 0.0
                ctx.close("large_prediction_mean", o["pm"][k], kv @ alpha, 10 * b * np.sqrt(a2), info)
                ctx.close("large_prediction_variance", o["pv"][k], a2 - kv @ cho_solve_banded((L, True), kv), 100 * b * a2, info)
            for k in rng.integers(0, N, 20):
                lo, hi = np.searchsorted(T, [T[k] - reach, T[k] + reach])
                Xk = tuple(v[lo:hi] for v in X) if integrated else X[lo:hi]
                one = tuple(v[k:k + 1] for v in X) if integrated else X[k:k + 1]
                kv = np.zeros(N)
                kv[lo:hi] = oracle.cov(spec, one, Xk)[0]
                prior = oracle.cov(spec, one, one)[0, 0]
                ctx.close("large_variance_at_data", o["var"][k], prior - kv @ cho_solve_banded((L, True), kv), 100 * b * a2, info)
            del o
    jax.clear_caches()


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def run(job, ctx):
    (large if job["kind"] == "large" else trace)(job, ctx)
