"""C18: the prediction interface is self-consistent."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import Skip, rng_for, sut

RULE = ("model structures x solver x number of data and test points (one and many): every public route to the log "
        "probability, to the moments at test points and at the data, to components, to full states and to custom "
        "observation rows is run in one program and compared with the other routes and with the dense answer; "
        "non-trivial = distinct model and data with at least two routes per quantity")
ASSUMPTIONS = ["test points of exposure-integrated models are instantaneous", "float64, diagonal noise, zero mean"]

S, P, I = gen.skel_leaf, specs.PARAM, integ.I


def jobs(tier, seed):
    rng = rng_for(seed, "C18", "jobs")
    out = []
    plain = [S("SHO"), S("Matern52"), ("sum", S("SHO"), S("Matern32")), ("sum", ("sum", S("Exp"), S("Cosine")), S("SHO")),
             ("prod", S("Matern32"), S("Cosine")), ("scale", P, ("sum", S("Exp"), S("Matern32"))), S("Exp"),
             ("sum", S("Constant"), ("scale", P, S("SHO"))), ("sum", S("Matern32"), ("prod", S("Exp"), S("Cosine")))]
    integ_ = [I("SHO"), ("sum", I("Matern32"), I("Exp")), ("scale", P, I("Matern32")), I("Exp"), ("sum", I("Cosine"), I("Exp"))] + ([] if tier == "quick" else [("sum", I("SHO"), I("Matern32"))])
    rng.shuffle(plain)
    rng.shuffle(integ_)
    k = 1 if tier == "quick" else 5
    for rep in range(k):
        for i, s in enumerate(plain[:7 if tier == "quick" else None]):
            out.append(dict(kind="routes", skel=s, solver="parallel" if (i + seed + rep) % 3 == 0 else "auto",
                            part=i + rep + seed, N=int([1, 2, 7, 12, 20][(i + seed + rep) % 5]), M=int([1, 6, 2, 9][(i + rep) % 4]), ninst=1))
        for i, s in enumerate(integ_[:5 if tier == "quick" else None]):
            out.append(dict(kind="routes", skel=s, solver="iparallel" if (i + seed + rep) % 3 == 1 else "auto",
                            part=i + rep + seed, N=int([1, 5, 8, 3, 11][(i + seed + rep) % 5]), M=int([1, 5, 8][(i + rep) % 3]), ninst=int(rng.choice([1, 2, 3]))))
    for j in out:
        j["cases"] = 7 if tier == "quick" else 30
    for s in ([S("SHO"), I("Exp"), ("sum", S("Exp"), S("Matern32"))] if tier == "quick" else plain[:6] + integ_[:4]):
        out.append(dict(kind="eager", skel=s, solver="auto", N=6, M=1 + int(rng.integers(3)), ninst=2, cases=2))
    out.sort(key=lambda j: -(oracle.has_int(j["skel"]) + (j["solver"] == "iparallel")))
    return out


EXPENSIVE = 5


def routes(skel, solver, ninst, N, M, part):
    """f(params, X, diag, y, y2, Xs) -> group -> route -> (mean, var) or value.

    Routes that need a pass of their own over the data are dealt out over `part`
    (None: all of them); the cheap ones are in every program.
    """
    from smolgp.kernels.base import extract_leaf_kernels
    integrated = oracle.has_int(skel)

    def on(i):
        return part is None or i == part % EXPENSIVE

    def one(Xs, i):
        return jax.tree_util.tree_map(lambda a: a[i:i + 1], Xs)

    def lv(q):
        return q.loc, q.variance

    def hand(Hm, m, C):
        return (jnp.einsum("nij,nj->n", Hm, m), jnp.einsum("nij,njk,nlk->n", Hm, C, Hm))

    def f(params, X, diag, y, y2, Xs):
        gp = pipes.make_gp(specs.fill(skel, params), X, diag, solver, ninst)
        r = gp.condition(y)
        c = r.gp
        k = gp.kernel
        H = jax.vmap(k.observation_model)
        s = c.states
        ends = jnp.nonzero(s.stateid == 1, size=N)[0]
        rows = ends[jnp.argsort(s.obsid[ends])]
        st = c.predict(Xs, return_full_state=True)
        leaves = extract_leaf_kernels(gp.kernel)
        picked = sorted({0, len(leaves) - 1})
        two = lambda x: 2.0 * k.observation_model(x)
        fm, fc = c.predict(return_full_state=True, return_var=True)
        out = {"ll": dict(conditioned=r.log_probability),
               "test": dict(predict=c.predict(Xs, return_var=True), states=(st.loc, st.variance), by_hand=hand(H(Xs), st.mean, st.cov),
                            projected=(st.project_mean(k.observation_model), st.project_variance(k.observation_model))),
               "data": dict(loc=lv(c), predict=c.predict(return_var=True), mean_only=(c.predict(), c.variance),
                            by_hand=hand(H(X), s.smoothed_mean[rows], s.smoothed_cov[rows]), full_by_hand=hand(H(X), fm[rows], fc[rows]),
                            own_rows=c.predict(return_var=True, observation_model=k.observation_model)),
               "double": dict(projected=(st.project_mean(two), st.project_variance(two))),
               "double_data": dict(predict=c.predict(return_var=True, observation_model=two))}
        test, data, pv = out["test"], out["data"], out["test"]["predict"][1]
        alltest, alldata = st.get_all_components(return_var=True), c.get_all_component_means(return_var=True)
        for i in picked:
            q = leaves[i]
            Hc = lambda x, q=q: k.observation_model(x, component=q.name)
            out[f"comp{i}"] = dict(state=st.get_component(q.name, return_var=True), state_list=st.get_component([q.name], return_var=True),
                                   state_mean=(st.get_component(q.name), alltest[q.name][1]), all=alltest[q.name])
            out[f"compdata{i}"] = dict(by_name=c.predict(kernel=q.name, return_var=True), by_kernel=c.predict(kernel=q, return_var=True),
                                       mean_only=(c.predict(kernel=q), alldata[q.name][1]),
                                       component=c.get_component_mean(q.name, return_var=True),
                                       component_mean=(c.get_component_mean(q.name), alldata[q.name][1]),
                                       component_list=c.get_component_mean([q.name], return_var=True),
                                       all=alldata[q.name], rows=c.predict(return_var=True, observation_model=Hc))
        q = leaves[picked[-1]]
        last, lastdata = out[f"comp{picked[-1]}"], out[f"compdata{picked[-1]}"]
        Hq = lambda x: k.observation_model(x, component=q.name)
        if on(0):
            out["ll"]["direct"] = gp.log_probability(y)
            z = gp.condition(y, Xs)
            out["ll"]["at_test"] = z.log_probability
            test["condition"], test["loc_is_default"] = lv(z.gp), (z.gp.predict(), z.gp.variance)
            last["by_name"] = c.predict(Xs, kernel=q.name, return_var=True)
            out["double"]["predict"] = c.predict(Xs, return_var=True, observation_model=two)
        if on(1):
            test["direct"] = gp.predict(Xs, y, return_var=True)
            data["direct"] = gp.predict(None, y, return_var=True)
            out["double"]["direct"] = gp.predict(Xs, y, return_var=True, observation_model=two)
            last["by_kernel"] = c.predict(Xs, kernel=q, return_var=True)
            test["own_rows"] = c.predict(Xs, return_var=True, observation_model=k.observation_model)
        if on(2):
            z = c.condition(y2)
            out["ll2"] = dict(direct=gp.log_probability(y2), reconditioned=z.log_probability)
            out["test2"] = dict(reconditioned=z.gp.predict(Xs, return_var=True))
            data["reconditioned"] = lv(z.gp.condition(y).gp)
            test["mean_only"] = (c.predict(Xs), pv)
        if on(3):
            st2 = gp.predict(Xs, y, return_full_state=True)
            test["states_direct"] = (st2.loc, st2.variance)
            out["ll"]["of_conditioned"] = c.log_probability(y)
            last["condition"] = lv(gp.condition(y, Xs, kernel=q).gp)
            parts = [c.predict(one(Xs, i), return_var=True) for i in range(min(M, 2))]
            out["test_head"] = dict(all=(test["predict"][0][:2], pv[:2]),
                                    one_by_one=(jnp.concatenate([p[0] for p in parts]), jnp.concatenate([p[1] for p in parts])))
            last["mean_only"] = (c.predict(Xs, kernel=q), alltest[q.name][1])
        if on(4):
            last["direct"] = gp.predict(Xs, y, kernel=q, return_var=True)
            lastdata["condition"] = lv(gp.condition(y, kernel=q).gp)
            out["double_data"]["direct"] = gp.predict(y=y, return_var=True, observation_model=two)
            last["rows"] = c.predict(Xs, return_var=True, observation_model=Hq)
            if not integrated:
                data["at_test"] = c.predict(X, return_var=True)
        if part is None:
            test["own_rows_direct"] = gp.predict(Xs, y, return_var=True, observation_model=k.observation_model)
            test["mean_only_direct"] = (gp.predict(Xs, y), pv)
            data["mean_only_direct"] = (gp.predict(y=y), c.variance)
            lastdata["direct"] = gp.predict(y=y, kernel=q, return_var=True)
            if not integrated:
                data["as_test"] = lv(gp.condition(y, X).gp)
        return out

    return f


def run(job, ctx):
    import smolgp
    from tinygp.noise import Diagonal
    skel = inst.tup(job["skel"])
    integrated = oracle.has_int(skel)
    solver, ninst, N, M = job["solver"], job["ninst"], job["N"], job["M"]
    eager = job["kind"] == "eager"
    f = routes(skel, solver, ninst, N, M, None if eager else job["part"])
    jit = f if eager else jax.jit(f)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            if integrated:
                spec, X, diag, y, Xs, dn, desc = integ.make_case(rng, skel, N, ninst, M, solver=solver)
            else:
                spec, X, diag, y, Xs, dn, desc = inst.make_case(rng, skel, N, M)
            scalar = c % 3 == 1
            if scalar:
                diag = np.full(N, diag[0])
                dn = oracle.Dense(spec, X, diag, y)
                if dn.cond > 1e8:
                    raise Skip
            ctx._case[1].update(desc)
            y2 = rng.permutation(y) + 0.3 * np.std(y)
            dn2 = oracle.Dense(spec, X, diag, y2)
            ctx.cover(structure=specs.label(skel), solver=solver, N=N, M=M, mode=job["kind"], noise="scalar" if scalar else "per datum")
            ja = lambda v: jax.tree_util.tree_map(jnp.asarray, v)
            darg = jnp.asarray(diag[0]) if scalar else jnp.asarray(diag)
            with sut("routes"):
                r = jit(*ja(([float(v) for v in specs.flatten(spec)[1]], X)), darg, jnp.asarray(y), jnp.asarray(y2), ja(Xs))
                r = jax.tree_util.tree_map(np.asarray, r)
            judge(ctx, r, spec, X, Xs, dn, dn2, solver, desc, N, M)
            if eager:
                variants(ctx, skel, spec, X, diag, y, Xs, solver, ninst, dn, desc)


def judge(ctx, r, spec, X, Xs, dn, dn2, solver, desc, N, M):
    want = {"ll": dn.loglik(), "ll2": dn2.loglik(), "test": dn.posterior(Xs), "test2": dn2.posterior(Xs), "data": dn.posterior(X)}
    want["test_head"] = tuple(v[:2] for v in want["test"])
    for a, b in (("double", "test"), ("double_data", "data")):
        want[a] = (2 * want[b][0], 4 * want[b][1])
    for i, s in enumerate(oracle.split(spec)):
        want[f"comp{i}"], want[f"compdata{i}"] = dn.posterior(Xs, comp=s), dn.posterior(X, comp=s)
    n_routes = 0
    for group, rs in r.items():
        d_ = dn2 if group.endswith("2") else dn
        tl, tm, tv = pipes.tols(d_, solver=solver, inst_base=1e-7)
        f = 4.0 if group.startswith("double") else 1.0
        first = next(iter(rs))
        for name, got in rs.items():
            n_routes += 1
            info = dict(route=f"{group}/{name}", **desc)
            if group.startswith("ll"):
                ctx.close("log_probability_routes", got, want[group], tl, info)
                ctx.close("log_probability_routes_agree", got, rs[first], tl, info)
                continue
            base = group.rstrip("0123456789") if group.startswith("comp") else group
            ctx.close(base + "_mean", got[0], want[group][0], f * tm, info)
            ctx.close(base + "_variance", got[1], want[group][1], f * tv, info)
            # same computation by another door: far tighter than the dense comparison
            same = not name.startswith(("at_test", "as_test", "reconditioned", "one_by_one"))
            g = 1e-2 if same else 1.0
            ctx.close("routes_agree_mean", got[0], rs[first][0], f * tm * g, info)
            ctx.close("routes_agree_variance", got[1], rs[first][1], f * tv * g, info)
    ctx.cover(routes=n_routes)


def variants(ctx, skel, spec, X, diag, y, Xs, solver, ninst, dn, desc):
    """Eager only: accepted forms of the arguments, default noise, explicit solver."""
    import smolgp
    from smolgp import solvers as SV
    from tinygp.noise import Diagonal
    tl, tm, tv = pipes.tols(dn, inst_base=1e-7)
    k = specs.smol(spec, ninst)
    integrated = oracle.has_int(skel)
    exp = SV.IntegratedStateSpaceSolver if integrated else SV.StateSpaceSolver
    lists = jax.tree_util.tree_map(np.asarray, X)
    jX = jax.tree_util.tree_map(jnp.asarray, X)
    with sut("argument variants"):
        gps = dict(numpy=smolgp.GaussianProcess(k, lists, diag=diag), noise=smolgp.GaussianProcess(k, jX, noise=Diagonal(diag=jnp.asarray(diag))),
                   solver=smolgp.GaussianProcess(k, jX, diag=jnp.asarray(diag), solver=exp))
        for name, gp in gps.items():
            info = dict(variant=name, **desc)
            ctx.close("argument_forms_ll", np.asarray(gp.log_probability(np.asarray(y))), dn.loglik(), tl, info)
        m, v = gps["numpy"].predict(jax.tree_util.tree_map(np.asarray, Xs), np.asarray(y), return_var=True)
        ctx.close("argument_forms_mean", np.asarray(m), dn.posterior(Xs)[0], tm, desc)
        ctx.close("argument_forms_variance", np.asarray(v), dn.posterior(Xs)[1], tv, desc)
        jax.clear_caches()
        # default noise: sqrt(machine epsilon), regardless of the scale of the data
        base = smolgp.GaussianProcess(k, jX)
        d0 = np.full(len(y), np.sqrt(np.finfo(float).eps))
        ctx.close("default_noise", np.asarray(base.noise.diagonal()), d0, 1e-20, desc)
        # a process that was not conditioned refuses to predict without data
        for what, call in dict(predict=lambda: base.predict(Xs), components=lambda: base.get_component_mean(base.kernel.name),
                               all=lambda: base.get_all_component_means()).items():
            try:
                call()
                ctx.true("needs_data", False, what)
            except (AssertionError, ValueError):
                ctx.true("needs_data", True)
    jax.clear_caches()
