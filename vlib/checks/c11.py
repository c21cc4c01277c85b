"""C11: component decomposition is exact and components stay distinguishable."""
import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, inst, integ, oracle, pipes, specs
from ..core import rng_for, sut

RULE = ("sums of 2-4 components (distinct, repeated types, the same object reused, products, scaled kernels, integrated "
        "kernels) x naming (default, user-given, duplicated, clashing with generated names, names of other types) x "
        "nesting; components at data and test points by every public route; non-trivial = distinct model and data, "
        "every component compared with its dense posterior")
ASSUMPTIONS = ["components are the operands of the outermost sums; a product or scaled kernel is one component",
               "float64, diagonal noise, zero mean"]


def jobs(tier, seed):
    rng = rng_for(seed, "C11", "jobs")
    S, P, I = gen.skel_leaf, specs.PARAM, integ.I
    pool = [S("SHO"), S("Matern32"), S("Matern52"), S("Exp"), S("Cosine"), S("Constant"), ("prod", S("Exp"), S("Cosine")),
            ("prod", S("SHO"), S("Matern32")), ("scale", P, S("Matern32")), ("scale", P, ("sum", S("Exp"), S("SHO")))]
    ipool = [I("SHO"), I("Matern32"), I("Exp"), I("Matern52"), ("scale", P, I("Exp")), I("Cosine")]
    fixed = [  # (components, shared objects, names, nesting)
        ([S("SHO"), S("SHO")], [0, 1], [None, None], "left"),
        ([S("Matern32"), S("Matern32"), S("Matern32")], [0, 0, 2], [None] * 3, "right"),
        ([S("Exp"), S("Exp"), S("Matern32")], [0, 1, 2], ["Exp", "Exp", "Exp_1"], "left"),
        ([S("Exp"), S("Matern32"), S("SHO")], [0, 1, 2], ["a", "b", "a"], "right"),
        ([S("Matern52"), S("Exp")], [0, 1], ["Exp", "Matern52"], "left"),
        ([S("SHO"), S("Matern32"), S("SHO")], [0, 1, 2], ["SHO_2", None, None], "left"),
        ([S("SHO"), S("SHO"), S("SHO"), S("Exp")], [0, 1, 2, 3], [None, "SHO_1", None, None], "balanced"),
        ([("prod", S("Exp"), S("Cosine")), ("prod", S("Exp"), S("Cosine")), S("Exp")], [0, 1, 2], [None] * 3, "left"),
        ([("scale", P, S("Matern32")), S("Matern32")], [0, 1], [None] * 2, "left"),
        ([S("Exp"), S("SHO"), S("Matern52"), S("Cosine")], [0, 1, 2, 3], [None] * 4, "sum"),
        ([I("SHO"), I("SHO")], [0, 1], [None] * 2, "left"),
        ([I("Matern32"), I("Exp"), I("Matern32")], [0, 1, 0], ["x", "y", "x"], "right"),
    ]
    out = [dict(comps=a, share=b, names=c, nest=d) for a, b, c, d in fixed]
    n = 17 if tier == "quick" else 140
    while len(out) < n:
        pl = ipool if rng.random() < 0.2 else pool
        k = int(rng.integers(2, 5 if pl is pool else 4))
        cs = [pl[int(rng.integers(len(pl)))] for _ in range(k)]
        if sum(gen.dim(c) for c in cs) > 12:
            continue
        share = list(range(k))
        if rng.random() < 0.3:
            j = int(rng.integers(1, k))
            share[j] = 0
            cs[j] = cs[0]
        nm = [[None, "a", "b", "Exp", "SHO", "SHO_1", "a_1", "Sum(a, b)"][int(rng.integers(8))] if rng.random() < 0.6 else None for _ in range(k)]
        out.append(dict(comps=cs, share=share, names=nm, nest=str(rng.choice(["left", "right", "balanced", "sum"]))))
    for j in out:
        j["cases"] = 6 if tier == "quick" else 20
        j["N"] = int(rng.choice([1, 3, 8, 13]))
        j["ninst"] = int(rng.choice([1, 2]))
    return out


def nest(ks, how, add):
    if how == "right":
        out = ks[-1]
        for k in ks[-2::-1]:
            out = add(k, out)
        return out
    if how == "balanced" and len(ks) > 2:
        h = len(ks) // 2
        return add(nest(ks[:h], how, add), nest(ks[h:], how, add))
    out = ks[0]
    for k in ks[1:]:
        out = add(out, k)
    return out


def run(job, ctx):
    import smolgp
    from smolgp.kernels.base import extract_leaf_kernels
    comps = [inst.tup(c) for c in job["comps"]]
    share, names = job["share"], job["names"]
    integrated = any(oracle.has_int(c) for c in comps)
    ninst = job["ninst"] if integrated else 1
    n = len(comps)
    skel = nest(comps, job["nest"], lambda a, b: ("sum", a, b))
    info = {}
    leafish = [c[0] not in ("prod", "scale") for c in comps]

    def kernel_of(specs_):
        objs = {}
        ks = []
        for i, s in enumerate(specs_):
            o = share[i]
            if o not in objs:
                nm = iter([names[o]]) if (names[o] and leafish[o]) else None
                objs[o] = specs.smol(s, ninst, names=nm)
            ks.append(objs[o])
        return sum(ks) if job["nest"] == "sum" else nest(ks, job["nest"], lambda a, b: a + b)

    def f(plist, X, diag, y, Xs):
        gp = smolgp.GaussianProcess(kernel_of([specs.fill(c, p) for c, p in zip(comps, plist)]), X, diag=diag)
        c = gp.condition(y).gp
        allm = c.get_all_component_means(return_var=True)
        nm = list(allm)
        info["names"] = nm
        info["single"] = list(c.get_all_component_means()) == nm
        out = {"all": [allm[k] for k in nm], "allm": list(c.get_all_component_means().values()),
               "one": [c.get_component_mean(k, return_var=True) for k in nm],
               "onem": [c.get_component_mean(k) for k in nm],
               "data_by_name": [c.predict(kernel=k, return_var=True) for k in nm],
               "loc": (c.loc, c.variance), "pred": c.predict(Xs, return_var=True)}
        leaves = extract_leaf_kernels(c.kernel)
        info["leaves"] = [k.name for k in leaves]
        st = c.predict(Xs, return_full_state=True)
        out["by_kernel"] = [c.predict(Xs, kernel=k, return_var=True) for k in leaves[:2]]
        out["by_name"] = [c.predict(Xs, kernel=k, return_var=True) for k in nm[:2]]
        out["state_one"] = [st.get_component(k, return_var=True) for k in nm]
        out["state_all"] = list(st.get_all_components(return_var=True).values())
        out["state_allm"] = list(st.get_all_components().values())
        info["state_names"] = list(st.get_all_components())
        out["state_full"] = (st.loc, st.variance)
        out["cond_kernel"] = (lambda g: (g.loc, g.variance))(gp.condition(y, Xs, kernel=leaves[-1]).gp)
        out["cond_kernel_data"] = (lambda g: (g.loc, g.variance))(gp.condition(y, kernel=leaves[0]).gp)
        out["sub"] = [c.get_component_mean([nm[i] for i in s], return_var=True) for s in subsets(len(nm))]
        out["sub_state"] = [st.get_component([nm[i] for i in s], return_var=True) for s in subsets(len(nm))]
        out["everything"] = c.get_component_mean(nm, return_var=True)
        return out

    jit = jax.jit(f)
    for c in range(job["cases"]):
        if not ctx.want_case(c):
            continue
        rng = ctx.rng(job["i"], c)
        with ctx.case(c, {}):
            case = _shared_case(rng, comps, share, job["nest"], integrated, job["N"], ninst)
            sp, spec, X, diag, y, Xs, dn, desc = case
            desc.update(names=names, share=share, nest=job["nest"])
            ctx._case[1].update(desc)
            ctx.cover(structure=specs.label(skel), components=n, nesting=job["nest"], shared=len(set(share)) < n,
                      names="default" if not any(names) else "given" if len(set(names)) == n else "clashing")
            with sut("components"):
                r = jit([[jnp.asarray(float(v)) for v in specs.flatten(s)[1]] for s in sp],
                        jax.tree_util.tree_map(jnp.asarray, X), jnp.asarray(diag), jnp.asarray(y),
                        jax.tree_util.tree_map(jnp.asarray, Xs))
                r = jax.tree_util.tree_map(np.asarray, r)
            nm = info["names"]
            if not ctx.true("one_unique_name_per_component", len(nm) == n == len(set(nm)), nm):
                continue
            ctx.true("names_consistent", info["single"] and info["leaves"] == nm and info["state_names"] == nm, dict(info))
            # a component with a unique user-given name keeps it
            eff = [names[share[i]] if leafish[share[i]] and names[share[i]] else None for i in range(n)]
            for i, e in enumerate(eff):
                if e and eff.count(e) == 1 and _default_names(comps, share, eff).count(e) == 1:
                    ctx.true("user_name_kept", nm[i] == e, dict(want=e, got=nm))
            tl, tm, tv = pipes.tols(dn, inst_base=1e-7)

            def cmp(clause, got, want):
                ctx.close(clause + "_mean", got[0], want[0], tm, desc)
                ctx.close(clause + "_variance", got[1], want[1], tv, desc)

            data = [dn.posterior(X, comp=s) for s in sp]
            test = [dn.posterior(Xs, comp=s) for s in sp]
            for i in range(n):
                cmp("component_at_data", r["all"][i], data[i])
                cmp("component_at_data_by_name", r["one"][i], data[i])
                cmp("component_at_data_predict", r["data_by_name"][i], data[i])
                ctx.close("component_mean_only", r["allm"][i], data[i][0], tm, desc)
                ctx.close("component_mean_only", r["onem"][i], data[i][0], tm, desc)
                cmp("component_at_test_from_states", r["state_one"][i], test[i])
                cmp("component_at_test_from_states", r["state_all"][i], test[i])
                ctx.close("component_mean_only", r["state_allm"][i], test[i][0], tm, desc)
            for i in range(len(r["by_kernel"])):
                cmp("component_at_test_by_kernel", r["by_kernel"][i], test[i])
                cmp("component_at_test_by_name", r["by_name"][i], test[i])
            cmp("condition_on_component", r["cond_kernel"], test[-1])
            cmp("condition_on_component_at_data", r["cond_kernel_data"], data[0])
            for s, got, got_state in zip(subsets(n), r["sub"], r["sub_state"]):
                part = nest([sp[i] for i in s], "left", lambda a, b: ("sum", a, b))
                desc["subset"] = s
                cmp("subset_at_data", got, dn.posterior(X, comp=part))
                cmp("subset_at_test", got_state, dn.posterior(Xs, comp=part))
            desc.pop("subset")
            cmp("full_at_data", r["loc"], dn.posterior(X))
            cmp("all_components_at_data", r["everything"], dn.posterior(X))
            cmp("full_at_test", r["pred"], dn.posterior(Xs))
            cmp("full_at_test_from_states", r["state_full"], dn.posterior(Xs))
            ctx.close("components_add_up", sum(a[0] for a in r["all"]), r["loc"][0], tm, desc)
            ctx.close("components_add_up_test", sum(a[0] for a in r["state_all"]), r["pred"][0], tm, desc)


def subsets(n):
    """lists of components: pairs and triples, in order and not, one alone, all of them backwards"""
    out = [[0, n - 1], list(range(n))[:-1], list(range(n))[1:], list(range(n))[::-1], [n - 1, 0], [1, 0, n - 1][: min(3, n)]]
    return [list(s) for s in dict.fromkeys(tuple(dict.fromkeys(s)) for s in out)]


def _default_names(comps, share, eff):
    out = []
    for i, e in enumerate(eff):
        out.append(e or {"int": "Integrated" + str(comps[i][1][0])}.get(comps[i][0], comps[i][0]))
        if comps[i][0] == "scale":
            out[-1] = comps[i][2][1][0] if comps[i][2][0] == "int" else comps[i][2][0]
    return out


def _shared_case(rng, comps, share, how, integrated, N, ninst):
    """A case in which components that share an object share parameters."""
    from ..core import Skip
    L = float(rng.choice([1.0, 1.0, 1e-2, 300.0]))
    amp = float(rng.choice([1.0, 1e-2, 40.0]))
    sp = []
    for i, c in enumerate(comps):
        sp.append(sp[share[i]] if share[i] < i else gen.params_for(rng, c, L, amp))
    spec = nest(sp, how, lambda a, b: ("sum", a, b))
    if integrated:
        X, mode = gen.exposures(rng, N, ninst, L)
    else:
        X, mode = gen.coords(rng, N, L)
    a2 = oracle.amp2(spec)
    diag = gen.noise(rng, N, a2, lo=-3)
    y = gen.data(rng, oracle.cov(spec, X, X) + np.diag(diag))
    dn = oracle.Dense(spec, X, diag, y)
    if dn.cond > 1e8:
        raise Skip
    if integrated:
        ps = integ.exposure_points(rng, X, 6, L)
        Xs = (ps, np.zeros(6), rng.integers(0, ninst, 6).astype(int))
    else:
        Xs = gen.test_points(rng, X, 6, L)
    return sp, spec, X, diag, y, Xs, dn, dict(spec=spec, N=N, coords=mode, L=L, y=y[:3], cond=dn.cond)
