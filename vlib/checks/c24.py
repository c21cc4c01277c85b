"""C24: filtered and predicted states are the exact partial-data posteriors."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import Skip, rng_for, sut

RULE = ("every step of the recursion of each run: the predicted, filtered and smoothed state is read through rows whose "
        "meaning does not depend on the state's internal basis (the process at a later time, its derivatives, the average "
        "since an instrument's last exposure start) and compared with the dense posterior given exactly the data before / "
        "up to / all around that step; plus derivative predictions at test points; non-trivial = distinct instance with "
        "all steps compared")
ASSUMPTIONS = ["the transition and observation matrices are those of C10-C12 (checked there)", "float64, diagonal noise, zero mean",
               "the running integral of an instrument is compared once it has started an exposure"]
S, P, I = gen.skel_leaf, specs.PARAM, integ.I
AHEAD = 5


def jobs(tier, seed):
    rng = rng_for(seed, "C24", "jobs")
    q = tier == "quick"
    plain = [S("SHO"), S("Matern52"), S("Matern32"), ("sum", S("SHO"), S("Matern32")), ("prod", S("Matern32"), S("Cosine")), S("Exp"),
             ("sum", S("Exp"), S("Matern52")), ("scale", P, ("sum", S("Matern52"), S("SHO"))), ("sum", S("Cosine"), S("SHO")),
             ("prod", S("SHO"), S("Matern52")), ("sum", ("prod", S("Exp"), S("Cosine")), S("Constant")), ("sum", S("Matern32"), S("ExpSineSquared"))]
    ii = [I("Exp"), I("SHO"), ("sum", I("Exp"), I("Matern32")), I("Matern32"), ("scale", P, I("Matern52")), ("sum", I("SHO"), I("Cosine")), ("scale", P, ("sum", I("Matern32"), I("SHO")))]
    ii, extra = ii[:2], ii[2:]
    rng.shuffle(extra)
    head, tail = plain[:3], plain[3:]
    rng.shuffle(tail)
    out = []
    for i, s in enumerate(head + (tail[:4] if q else tail)):
        for so in (("auto", "parallel") if not q or i < 2 else (("auto", "parallel")[(i + seed) % 2],)):
            out.append(dict(skel=s, solver=so, N=int([1, 2, 4, 7, 10][(i + seed) % 5]), M=6, ninst=1))
    for i, s in enumerate(ii + (extra[:2] if q else extra)):
        for so in (("auto", "iparallel") if not q or i < 1 else (("auto", "iparallel")[(i + seed) % 2],)):
            for ni in ((1 + (i + seed) % 3,) if q else (1, 2, 3)):
                out.append(dict(skel=s, solver=so, N=int([2, 4, 1, 6, 3][(i + seed) % 5]) + (so == "auto"), M=5, ninst=ni))
    for j in out:
        j["cases"] = 12 if q else 40
    out.sort(key=lambda j: -(2 * oracle.has_int(j["skel"]) + ("parallel" in j["solver"])))
    return out


# ------------------------------------------------------------ closed-form derivatives
def smooth(spec):
    """Number of derivatives compared (mean-square differentiability; at most two)."""
    k = spec[0]
    if k in ("sum", "prod"):
        return min(smooth(spec[1]), smooth(spec[2])) if k == "sum" else min(1, smooth(spec[1]), smooth(spec[2]))
    if k in ("scale", "int"):
        return smooth(spec[-1])
    return {"Matern32": 1, "SHO": 1, "Matern52": 2, "Cosine": 2, "Constant": 2}.get(k, 0)


def dk(spec, tau, n):
    """n-th derivative of the covariance in its (signed) lag; n <= 2, or n = 4 at lag zero."""
    tau = np.asarray(tau, float)
    k = spec[0]
    if n == 0:
        return oracle.k_fn(spec, tau)
    if k == "sum":
        return dk(spec[1], tau, n) + dk(spec[2], tau, n)
    if k == "scale":
        return spec[1] * dk(spec[2], tau, n)
    if k == "int":
        return dk(spec[1], tau, n)
    if k == "prod":
        a, b = spec[1], spec[2]
        if n == 1:
            return dk(a, tau, 1) * dk(b, tau, 0) + dk(a, tau, 0) * dk(b, tau, 1)
        return dk(a, tau, 2) * dk(b, tau, 0) + 2 * dk(a, tau, 1) * dk(b, tau, 1) + dk(a, tau, 0) * dk(b, tau, 2)
    x, s2 = np.abs(tau), spec[-1] ** 2
    sg = np.sign(tau) if n % 2 else 1.0
    if k == "Constant":
        return 0 * tau
    if k == "Matern32":
        f = np.sqrt(3) / spec[1]
        return sg * s2 * np.exp(-f * x) * (-f * f * x if n == 1 else f * f * (f * x - 1))
    if k == "Matern52":
        f = np.sqrt(5) / spec[1]
        if n == 4:
            return s2 * f**4 + 0 * tau
        return sg * s2 * f * f / 3 * np.exp(-f * x) * (-x * (1 + f * x) if n == 1 else f * f * x * x - f * x - 1)
    if k == "Cosine":
        w = 2 * np.pi / spec[1]
        return s2 * (-w * np.sin(w * tau) if n == 1 else -w * w * np.cos(w * tau) if n == 2 else w**4 * np.cos(w * tau))
    if k == "SHO":
        w, Q = spec[1], spec[2]
        a = 0.5 * w / Q
        # k = exp(-a x)(c(x) + a s(x)), c' = sign*e^2 s, s' = c; k' = -w^2 exp(-a x) s(x)
        if abs(Q - 0.5) < 1e-9:
            es, ec = x * np.exp(-a * x), np.exp(-a * x)
        else:
            e = w * np.sqrt(abs(1 - 1 / (4 * Q * Q)))
            if Q > 0.5:
                es, ec = np.exp(-a * x) * np.sin(e * x) / e, np.exp(-a * x) * np.cos(e * x)
            else:
                p, m = np.exp((e - a) * x), np.exp(-(e + a) * x)
                es, ec = (p - m) / (2 * e), (p + m) / 2
        return sg * s2 * (-w * w * es if n == 1 else -w * w * (ec - a * es))
    raise ValueError(k)


def dcov(spec, t, X, n):
    """Cov(f^(n)(t), data at X): data are values or exposure averages."""
    if spec[0] == "sum":
        return dcov(spec[1], t, X, n) + dcov(spec[2], t, X, n)
    if spec[0] == "scale":
        return spec[1] * dcov(spec[2], t, X, n)
    if not isinstance(X, tuple):
        return dk(spec, t[:, None] - X[None, :], n)
    m, d = X[0][None, :], X[1][None, :]
    u = t[:, None]
    safe = np.where(d > 0, d, 1.0)
    avg = (dk(spec, u - m + d / 2, n - 1) - dk(spec, u - m - d / 2, n - 1)) / safe
    return np.where(d > 0, avg, dk(spec, u - m, n))


def given(dn, Kts, Kss, idx):
    """Posterior mean and variance given the data `idx` only."""
    if not len(idx):
        return np.zeros(len(Kts)), Kss.copy()
    L = np.linalg.cholesky(dn.C[np.ix_(idx, idx)])
    V = np.linalg.solve(L, Kts[:, idx].T)
    return V.T @ np.linalg.solve(L, dn.y[idx]), Kss - np.sum(V * V, 0)


# ------------------------------------------------------------------- the program
def program(skel, solver, ninst):
    integrated = oracle.has_int(skel)
    nd = smooth(skel)

    def f(params, X, diag, y, Xs, tau):
        gp = pipes.make_gp(specs.fill(skel, params), X, diag, solver, ninst)
        c = gp.condition(y).gp
        st, k = c.states, gp.kernel
        A, Q, H = k.transition_matrix, k.process_noise, k.observation_model
        point = (lambda t: (t, jnp.zeros_like(t), jnp.zeros_like(t, int))) if integrated else (lambda t: t)

        def deriv(x, n):
            g = lambda h: H(x) @ A(0.0, h)
            for _ in range(n):
                g = jax.jacfwd(g)
            return g(0.0)

        def project(R, m, C):
            return jnp.einsum("kri,ki->kr", R, m), jnp.einsum("kri,kij,krj->kr", R, C, R)

        def ahead(h, m, C):  # the process a time h after each state
            a, q, row = A(0.0, h), Q(0.0, h), H(point(0.0 * h))[0]
            return row @ (a @ m), row @ (a @ C @ a.T + q) @ row

        kinds = dict(predicted=(st.predicted_mean, st.predicted_cov), filtered=(st.filtered_mean, st.filtered_cov), smoothed=(st.smoothed_mean, st.smoothed_cov))
        rows = jax.vmap(lambda t: jnp.concatenate([deriv(point(t), n) for n in range(nd + 1)]))(st.t_states)
        out = dict(t=st.t_states, obsid=st.obsid, stateid=st.stateid, instid=st.instid, m={n: v[0] for n, v in kinds.items()})
        out["now"] = {n: project(rows, *v) for n, v in kinds.items()}
        out["ahead"] = {n: jax.vmap(lambda m, C: jax.vmap(lambda h: ahead(h, m, C))(tau))(*kinds[n]) for n in ("predicted", "filtered")}
        if integrated:
            # rows of the average of length 1: running integral of each instrument
            R = jnp.concatenate([H((0.0, 1.0, i)) for i in range(ninst)])
            out["integral"] = {n: project(jnp.broadcast_to(R, (len(v[0]),) + R.shape), *v) for n, v in kinds.items()}
        out["test"] = [c.predict(Xs, return_var=True, observation_model=lambda x, n=n: deriv(x, n)) for n in range(nd + 1)]
        return out

    return jax.jit(f)


def run(job, ctx):
    skel = inst.tup(job["skel"])
    integrated = oracle.has_int(skel)
    N, M, solver, ninst = job["N"], job["M"], job["solver"], job["ninst"]
    prog = program(skel, solver, ninst)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            if integrated:
                spec, X, diag, y, Xs, dn, desc = integ.make_case(rng, skel, N, ninst, M, solver=solver)
            else:
                spec, X, diag, y, Xs, dn, desc = inst.make_case(rng, skel, N, M)
            ctx._case[1].update(desc)
            ctx.cover(structure=specs.label(skel), solver=solver, N=N, instruments=ninst)
            scale = 1.0 / oracle.rate(spec) if oracle.rate(spec) > 0 else 1.0
            tau = scale * 10 ** rng.uniform(-1.5, 0.7, AHEAD)
            ja = lambda v: jax.tree_util.tree_map(jnp.asarray, v)
            with sut("states"):
                o = prog([jnp.asarray(float(v)) for v in specs.flatten(spec)[1]], ja(X), ja(diag), ja(y), ja(Xs), ja(tau))
                o = jax.tree_util.tree_map(np.asarray, o)
            judge(ctx, o, spec, X, Xs, dn, tau, solver, desc, integrated, ninst)


def judge(ctx, o, spec, X, Xs, dn, tau, solver, desc, integrated, ninst):
    t, sid, oid = o["t"], o["stateid"], o["obsid"]
    K, N = len(t), len(dn.y)
    tl, tm, tv = pipes.tols(dn, solver=solver, inst_base=1e-7)
    nd = smooth(spec)
    a2 = oracle.amp2(spec)
    span = max(np.max(np.abs(t)), 1e-300)
    # ---- exactly once: every datum, at the right time, in order
    ends = np.flatnonzero(sid == 1)
    ctx.true("every_datum_enters_once", sorted(oid[ends]) == list(range(N)), dict(obsid=oid, stateid=sid))
    ctx.true("steps_in_time_order", bool(np.all(np.diff(t) >= -1e-12 * span)), dict(t=t))
    if integrated:
        starts = np.flatnonzero(sid == 0)
        ctx.true("every_exposure_starts_once", sorted(oid[starts]) == list(range(N)), dict(obsid=oid, stateid=sid))
        when = X[0][oid] + np.where(sid == 1, 0.5, -0.5) * X[1][oid]
        first = {int(oid[k]): k for k in starts}
        ctx.true("exposures_start_before_they_end", all(first[int(oid[k])] < k for k in ends if X[1][oid[k]] > 0), dict(obsid=oid, stateid=sid))
    else:
        when = X[oid]
    ctx.close("step_times", t, when, 1e-12 * span + 0 * t, desc)
    # ---- moments of the process and its derivatives at, and the process after, every step
    pt = lambda u: (u, np.zeros(len(u)), np.zeros(len(u), int)) if integrated else u
    zero = np.zeros(1)
    Kd, V0, unit = [], [], []
    for n in range(nd + 1):
        Kd.append(oracle.cov(spec, pt(t), X) if n == 0 else dcov(spec, t, X, n))
        V0.append(a2 if n == 0 else float((-1) ** n * dk(spec, zero, 2 * n)[0]))
        unit.append(np.sqrt(V0[n] / a2) if a2 > 0 else 1.0)
    Ka = oracle.cov(spec, pt((t[:, None] + tau[None, :]).ravel()), X).reshape(K, len(tau), N)
    everything = np.arange(N)
    started = {}
    for k in range(K):
        before = oid[:k][sid[:k] == 1]
        upto = oid[:k + 1][sid[:k + 1] == 1]
        for kind, idx in (("predicted", before), ("filtered", upto), ("smoothed", everything)):
            m, v = o["now"][kind]
            for n in range(nd + 1):
                wm, wv = given(dn, Kd[n][k:k + 1], np.array([V0[n]]), idx)
                name = kind + ("_process" if n == 0 else "_derivative" if n == 1 else "_second_derivative")
                info = dict(step=k, data_used=len(idx), **desc)
                ctx.close(name + "_mean", m[k, n], wm[0], tm * max(unit[n], 1e-300), info)
                ctx.close(name + "_variance", v[k, n], wv[0], tv * max(unit[n], 1e-300) ** 2, info)
            if kind != "smoothed":
                m, v = o["ahead"][kind]
                wm, wv = given(dn, Ka[k], np.full(len(tau), a2), idx)
                ctx.close(kind + "_then_ahead_mean", m[k], wm, tm + 0 * wm, dict(step=k, tau=tau, **desc))
                ctx.close(kind + "_then_ahead_variance", v[k], wv, tv + 0 * wv, dict(step=k, tau=tau, **desc))
        if integrated:
            i0 = int(X[2][oid[k]])
            for i in range(ninst):
                for kind, idx in (("predicted", before), ("filtered", upto), ("smoothed", everything)):
                    if i not in started or (kind != "predicted" and sid[k] == 0 and i == i0):
                        continue
                    a = started[i]
                    d = t[k] - a
                    m, v = o["integral"][kind]
                    if d <= 1e-9 * scale_of(spec):
                        ctx.close(kind + "_integral_of_nothing", m[k, i], 0.0, tm * scale_of(spec) * 1e-6, desc)
                        continue
                    row = (np.array([0.5 * (a + t[k])]), np.array([d]), np.array([i]))
                    wm, wv = given(dn, oracle.cov(spec, row, X), oracle.cov(spec, row, row)[0], idx)
                    info = dict(step=k, instrument=i, since=a, **desc)
                    ctx.close(kind + "_integral_mean", m[k, i] / d, wm[0], tm * 10, info)
                    ctx.close(kind + "_integral_variance", v[k, i] / d**2, wv[0], tv * 10, info)
            if sid[k] == 0:
                started[i0] = t[k]
    # ---- last step: nothing is left to smooth
    if sid[-1] == 1:
        last = o["m"]["filtered"][-1]
        ctx.close("last_smoothed_is_filtered", o["m"]["smoothed"][-1], last, 1e-12 * (1e-300 + np.max(np.abs(last))) + 0 * last, desc)
    # ---- derivatives at test points, through the public interface
    ts = Xs[0] if integrated else Xs
    for n in range(nd + 1):
        Ks = oracle.cov(spec, pt(ts), X) if n == 0 else dcov(spec, ts, X, n)
        wm, wv = given(dn, Ks, np.full(len(ts), V0[n]), everything)
        m, v = o["test"][n]
        name = ("process", "derivative", "second_derivative")[n] + "_at_test_points"
        ctx.close(name + "_mean", m, wm, tm * max(unit[n], 1e-300) + 0 * wm, desc)
        ctx.close(name + "_variance", v, wv, tv * max(unit[n], 1e-300) ** 2 + 0 * wv, desc)


def scale_of(spec):
    r = oracle.rate(spec)
    return 1 / r if r > 0 else 1.0
