"""C19: no call history, sharing of objects or threading changes a result."""
import sys
import threading
import time

import jax
import jax.numpy as jnp
import numpy as np

from .. import gen, integ, oracle, pipes, specs
from ..core import Skip, SutError, is_env, EnvError, rng_for, sut

SCHEDULE_DEPENDENT = True
RULE = ("random histories of public calls (build, evaluate, log probability, condition, predict, components, compiled and "
        "differentiated versions) on a shared world of kernels, combinations of the same kernel objects, Gaussian "
        "processes and conditioned processes, with arrays that the caller reuses and rewrites in place, from one thread and from eight; every result is compared with the dense "
        "answer for its arguments and with the same call made alone; every object and array is compared with its snapshot "
        "afterwards; threads are perturbed by yields injected at lines of the library; non-trivial = distinct call with "
        "its arguments made after other calls (histories) or while other threads were inside the library")
ASSUMPTIONS = ["eager results of one call repeated agree to 1e-11 relative", "float64, diagonal noise, zero mean"]
OPS = ("build", "ll", "ll", "cond", "cond", "pred", "pred", "pred1", "direct", "direct_data", "comps", "statecomps", "kernel", "diag", "recond", "jit", "grad", "condtest")


def jobs(tier, seed):
    rng = rng_for(seed, "C19", "jobs")
    q = tier == "quick"
    S = gen.skel_leaf
    plain = [[S("SHO"), S("Matern32")], [S("Exp"), S("Matern52")], [S("Matern32"), S("Matern32")], [S("SHO"), S("Cosine")],
             [S("Exp"), S("Exp")], [S("Matern52"), S("SHO")]]
    ii = [[integ.I("Matern32"), integ.I("Exp")], [integ.I("SHO"), integ.I("SHO")], [integ.I("Exp"), integ.I("Exp")], [integ.I("Cosine"), integ.I("Matern32")]]
    rng.shuffle(plain)
    rng.shuffle(ii)
    out = []
    if q:
        ii = [x for x in ii if x[0][1][0] != "SHO"]
    n1, n2 = (4, 2) if q else (len(plain), len(ii))
    for rep in range(1 if q else 4):
        for k, (lv, integrated) in enumerate([(p, False) for p in plain[:n1]] + [(p, True) for p in ii[:n2]]):
            for kind in ("history", "threads"):
                if q and kind == "threads" and k % 2:
                    continue
                out.append(dict(kind=kind, leaves=lv, integrated=integrated, N=int(rng.choice([3, 5, 6])), M=int(rng.choice([1, 3])),
                                solver=["auto", "serial", "parallel"][int(rng.choice([0, 0, 1, 2]))], rep=rep,
                                names=[None, "same", "gen"][int(rng.integers(3))], steps=(70 if not integrated else 45) * (1 if q else 5)))
    out.sort(key=lambda j: -j["integrated"])
    return out


class World:
    """Shared objects, and what each of them means."""

    def __init__(self, job, rng):
        from .. import inst
        self.job, self.rng = job, rng
        self.integrated = job["integrated"]
        self.ninst = 2 if self.integrated else 1
        self.N, self.M = job["N"], job["M"]
        leaves = [inst.tup(s) for s in job["leaves"]]
        self.L = float(rng.choice([1.0, 50.0]))
        self.leaf_specs = [gen.params_for(rng, s, self.L, 1.0) for s in leaves]
        kw = [{}, {}]
        if job["names"] == "same":
            kw = [dict(names=iter(["a"])), dict(names=iter(["a"]))]
        elif job["names"] == "gen":
            kw = [dict(names=iter(["b_1"])), dict(names=iter(["b"]))]
        lk = [specs.smol(s, self.ninst, **k) for s, k in zip(self.leaf_specs, kw)]
        (s0, s1), (k0, k1) = self.leaf_specs, lk
        self.kspecs = [s0, s1, ("sum", s0, s1), ("sum", s0, s0), ("sum", ("sum", s1, s0), s1)]
        self.kernels = [k0, k1, k0 + k1, k0 + k0, (k1 + k0) + k1]
        self.factor = 2.5
        self.kspecs.append(("sum", ("scale", 2.5, s0), s0))
        self.kernels.append(2.5 * k0 + k0)
        if not self.integrated:
            self.kspecs.append(("prod", s0, s1))
            self.kernels.append(k0 * k1)
        keep = list(rng.permutation(len(self.kernels)))[:3 if self.integrated else 4]  # bounds the compilation cost
        self.kernels, self.kspecs = [self.kernels[i] for i in keep], [self.kspecs[i] for i in keep]
        self.Xs_data = []
        for _ in range(2):  # same shapes, different values
            self.Xs_data.append(gen.exposures(rng, self.N, 2, self.L, "mixed")[0] if self.integrated else gen.coords(rng, self.N, self.L, "uniform")[0])
        self.diags = [rng.uniform(0.02, 0.3, self.N), rng.uniform(0.02, 0.3, self.N)]
        self.ys = [rng.normal(size=self.N), 3 * rng.normal(size=self.N), rng.normal(size=self.N)]
        self.tests = []
        for X in self.Xs_data:
            if self.integrated:
                p = integ.exposure_points(rng, X, self.M, self.L)
                self.tests.append((p, np.zeros(self.M), rng.integers(0, 2, self.M).astype(int)))
            else:
                self.tests.append(gen.test_points(rng, X, self.M, self.L))
        self.gps, self.conds = [], []        # (kernel index, X index, diag index, object); (gp fields..., y, object)
        self.snaps = []
        for o in self.kernels + lk + [self.Xs_data, self.diags, self.ys, self.tests]:
            self.snaps.append((o, snapshot(o)))
        self.lock = threading.Lock()
        # a caller that reuses its buffers: every call of a history may be passed the same array, rewritten in place
        self.buffers = None
        if job["kind"] == "history":
            self.buffers = [np.zeros(self.N), jax.tree_util.tree_map(lambda a: np.array(a, copy=True), self.tests[0])]
        self._dn = {}

    def y(self, i):
        if self.buffers is None or self.rng.random() < 0.3:
            return self.ys[i]
        self.buffers[0][:] = self.ys[i]
        return self.buffers[0]

    def test(self, i):
        if self.buffers is None or self.rng.random() < 0.3:
            return self.tests[i]
        jax.tree_util.tree_map(lambda b, v: b.__setitem__(slice(None), v), self.buffers[1], self.tests[i])
        return self.buffers[1]

    def dense(self, k, x, d, y):
        key = (k, x, d, y)
        if key not in self._dn:
            self._dn[key] = oracle.Dense(self.kspecs[k], self.Xs_data[x], self.diags[d], self.ys[y])
        return self._dn[key]

    def build(self, k, x, d):
        kw = {}
        s = self.job["solver"]
        if s != "auto":
            kw["solver"] = pipes.solvers()[("i" if self.integrated else "") + s]
        import smolgp
        return smolgp.GaussianProcess(self.kernels[k], self.Xs_data[x], diag=self.diags[d], **kw)


def names_of(k):
    from smolgp.kernels.base import extract_leaf_kernels
    return [q.name for q in extract_leaf_kernels(k)]


def snapshot(o):
    leaves, tree = jax.tree_util.tree_flatten(o)
    vals = [np.array(v, copy=True) for v in leaves]
    return str(tree), vals, names_of(o) if hasattr(o, "transition_matrix") else None


def same(a, b):
    return a[0] == b[0] and a[2] == b[2] and len(a[1]) == len(b[1]) and all(np.array_equal(u, v, equal_nan=True) for u, v in zip(a[1], b[1]))


def choose(rng, w, gps, conds):
    """A random call whose arguments exist."""
    while True:
        op = str(rng.choice(OPS))
        if op == "build" and len(gps) < 8:
            return (op, int(rng.integers(len(w.kernels))), int(rng.integers(2)), int(rng.integers(2)))
        if op in ("ll", "cond", "direct", "direct_data", "jit", "grad", "condtest") and gps:
            g = gps[int(rng.integers(len(gps)))]
            return (op, g[:3], int(rng.integers(3)), g[3])
        if op in ("pred", "pred1", "comps", "statecomps", "recond") and conds:
            g = conds[int(rng.integers(len(conds)))]
            return (op, g[:4], int(rng.integers(3)), g[4])
        if op in ("kernel", "diag"):
            return (op, int(rng.integers(len(w.kernels))), int(rng.integers(2)), int(rng.integers(2)))


def execute(op, w, gps, conds):
    """Performs a call; returns its observable results."""
    kind = op[0]
    if kind == "build":
        gp = w.build(*op[1:])
        with w.lock:
            gps.append((*op[1:], gp))
        return {"unconditioned": gp.states is None}
    if kind in ("kernel", "diag"):
        k = w.kernels[op[1]]
        if w.integrated:
            return {"names": names_of(k)}
        a, b = w.Xs_data[op[2]], w.tests[op[3]]
        return {"K": k(a, b)} if kind == "kernel" else {"k0": k(a)}
    if kind in ("ll", "cond", "direct", "direct_data", "jit", "grad", "condtest"):
        gp, yi = op[3], op[2]
        y, Xs = w.y(yi), w.test(op[1][1])
        if kind == "ll":
            return {"ll": gp.log_probability(y)}
        if kind == "cond":
            r = gp.condition(y)
            with w.lock:
                if len(conds) < 8:
                    conds.append((*op[1], yi, r.gp))
            return {"ll": r.log_probability, "data": (r.gp.loc, r.gp.variance)}
        if kind == "direct":
            return {"test": gp.predict(Xs, y, return_var=True)}
        if kind == "direct_data":
            return {"data": gp.predict(None, y, return_var=True)}
        if kind == "condtest":
            r = gp.condition(y, Xs)
            return {"ll": r.log_probability, "test": (r.gp.loc, r.gp.variance)}
        if kind == "jit":
            return {"test": jax.jit(lambda q: gp.condition(q).gp.predict(Xs, return_var=True))(jnp.asarray(y))}
        return {"dy": jax.grad(lambda q: gp.log_probability(q))(jnp.asarray(y))}
    c = op[3]
    Xs = w.test(op[1][1])
    if kind == "pred":
        return {"test": c.predict(Xs, return_var=True)}
    if kind == "pred1":
        one = jax.tree_util.tree_map(lambda a: a[:1], Xs)
        return {"first": c.predict(one, return_var=True)}
    if kind == "comps":
        r = c.get_all_component_means(return_var=True)
        return {"cnames": list(r), "comps": list(r.values()), "data": (c.loc, c.variance)}
    if kind == "statecomps":
        st = c.predict(Xs, return_full_state=True)
        r = st.get_all_components(return_var=True)
        return {"cnames": list(r), "statecomps": list(r.values())}
    r = c.condition(w.y(op[2]))
    return {"recond": (r.gp.loc, r.gp.variance), "ll_recond": r.log_probability}


def judge(ctx, w, op, r, tag):
    kind = op[0]
    info = dict(call=kind, args=str(op[1:3]), where=tag)
    if kind == "build":
        ctx.true("fresh_process_is_unconditioned", r["unconditioned"], info)
        return
    if kind in ("kernel", "diag"):
        sp = w.kspecs[op[1]]
        a2 = oracle.amp2(sp)
        if "K" in r:
            ctx.close("kernel_value", r["K"], oracle.cov(sp, w.Xs_data[op[2]], w.tests[op[3]]), 1e-8 * a2, info)
        elif "k0" in r:
            ctx.close("kernel_value", r["k0"], np.full(w.N, a2), 1e-8 * a2, info)
        else:
            ctx.true("kernel_names_kept", len(r["names"]) == len(oracle.split(sp)), info)
        return
    k, x, d = op[1][:3]
    y = op[1][3] if len(op[1]) > 3 else op[2]
    dn = w.dense(k, x, d, y)
    tl, tm, tv = pipes.tols(dn, inst_base=1e-7)
    Xs, X = w.tests[x], w.Xs_data[x]

    def mv(clause, got, want):
        ctx.close(clause + "_mean", got[0], want[0], tm, info)
        ctx.close(clause + "_variance", got[1], want[1], tv, info)

    for key, got in r.items():
        if key == "ll":
            ctx.close("log_probability", got, dn.loglik(), tl, info)
        elif key == "data":
            mv("data", got, dn.posterior(X))
        elif key == "test":
            mv("test", got, dn.posterior(Xs))
        elif key == "first":
            p = dn.posterior(Xs)
            mv("test", got, (p[0][:1], p[1][:1]))
        elif key == "dy":
            ctx.close("gradient", got, -dn.alpha, 1e-6 * np.max(np.abs(dn.alpha)) * (1 + 1e-8 * dn.cond), info)
        elif key == "cnames":
            n = len(oracle.split(w.kspecs[k]))
            ctx.true("component_names", len(got) == len(set(got)) == n, dict(names=got, **info))
        elif key in ("comps", "statecomps"):
            for s, g in zip(oracle.split(w.kspecs[k]), got):
                mv("component", g, dn.posterior(X if key == "comps" else Xs, comp=s))
        elif key in ("recond", "ll_recond"):
            d2 = w.dense(k, x, d, op[2])
            a = pipes.tols(d2, inst_base=1e-7)
            if key == "recond":
                p = d2.posterior(X)
                ctx.close("recondition_mean", got[0], p[0], a[1], info)
                ctx.close("recondition_variance", got[1], p[1], a[2], info)
            else:
                ctx.close("recondition_ll", got, d2.loglik(), a[0], info)


def plain(r):
    return jax.tree_util.tree_map(lambda v: v if isinstance(v, (str, bool)) else np.asarray(v), r)


def agree(ctx, a, b, info):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    ctx.true("same_call_same_result", len(la) == len(lb), info)
    for u, v in zip(la, lb):
        if isinstance(u, (str, bool)):
            ctx.true("same_call_same_result", u == v, info)
        elif not isinstance(u, str):
            ctx.close("same_call_same_result", u, v, 1e-11 * (np.max(np.abs(v)) if np.size(v) else 1.0) + 1e-300, info)


def untouched(ctx, w):
    for o, s in w.snaps:
        now = snapshot(o)
        ctx.true("objects_and_arguments_unchanged", same(s, now), dict(object=type(o).__name__, before=s[0][:150], after=now[0][:150], names=(s[2], now[2])))


def run(job, ctx):
    if not ctx.want_case(0):
        return
    rng = ctx.rng(job["i"], job["rep"])
    w = World(job, rng)
    (history if job["kind"] == "history" else threads)(job, ctx, w, rng)
    jax.clear_caches()


def begin(w):
    gps, conds = [], []
    return gps, conds


def desc_of(w, job, op, t):
    return dict(kind=job["kind"], leaves=w.leaf_specs, solver=job["solver"], op=op[0], args=str(op[1:3]), step=t)


def history(job, ctx, w, rng):
    gps, conds = begin(w)
    log = []
    marked = 0
    for t in range(job["steps"]):
        again = t > 10 and rng.random() < 0.25
        if again:
            op, before = log[int(rng.integers(len(log)))]
            again = op[0] != "build"
        if not again:
            op, before = choose(rng, w, gps, conds), None
            # anything that just appeared is a shared object from now on
        with ctx.case(t, desc_of(w, job, op, t)):
            with sut(f"history step {t}: {op[0]}"):
                r = plain(execute(op, w, gps, conds))
            ctx.cover(call=op[0], kind="history", solver=job["solver"], integrated=w.integrated, repeated=again)
            judge(ctx, w, op, r, f"step {t}")
            if before is not None:
                agree(ctx, r, before, dict(call=op[0], step=t))
            log.append((op, r))
            for o in gps + conds:
                if not any(o[-1] is s[0] for s in w.snaps):
                    w.snaps.append((o[-1], snapshot(o[-1])))
    with ctx.case(job["steps"], dict(kind="snapshots", n=len(w.snaps), leaves=w.leaf_specs)):
        untouched(ctx, w)
        for g in gps:
            ctx.true("conditioning_leaves_the_prior_process_alone", g[3].states is None and g[3].variance is None)


class Yielder:
    """Injects yields at lines of the library and records how threads interleave."""

    def __init__(self, seed):
        self.events, self.last, self.switches, self.pairs, self.lines = 0, None, 0, set(), set()
        self.local = threading.local()
        self.seed = seed

    def start(self, tid):
        self.local.rng = np.random.default_rng([self.seed, tid]).random
        self.local.tid = tid
        sys.settrace(self.trace)

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if "smolgp" not in fn:
            return None
        self.note(frame)
        return self.on_line

    def on_line(self, frame, event, arg):
        if event == "line":
            self.lines.add((frame.f_code.co_name, frame.f_lineno))
            u = self.local.rng()
            if u < 0.02:
                time.sleep(0)
            elif u < 0.024:
                time.sleep(2e-4)
        return self.on_line

    def note(self, frame):
        self.events += 1
        me = (self.local.tid, frame.f_code.co_name)
        last, self.last = self.last, me
        if last and last[0] != me[0]:
            self.switches += 1
            self.pairs.add((last[1], me[1]))


def threads(job, ctx, w, rng):
    """Eight threads share the world; a few processes exist from the start."""
    gps, conds = begin(w)
    warm = int(rng.integers(2))  # half of the runs start with nothing compiled
    for i in range(3):
        op = ("build", int(rng.integers(len(w.kernels))), int(rng.integers(2)), int(rng.integers(2)))
        with sut("build"):
            execute(op, w, gps, conds)
    with sut("condition"):
        execute(("cond", gps[0][:3], 0, gps[0][3]), w, gps, conds)
        if warm:
            for g in gps:
                execute(("ll", g[:3], 0, g[3]), w, gps, conds)
    for o in gps + conds:
        w.snaps.append((o[-1], snapshot(o[-1])))
    T = 8
    per = max(6, job["steps"] // 6)
    results = [[] for _ in range(T)]
    errors = []
    gate = threading.Barrier(T)
    spy = Yielder(int(rng.integers(2**31)))
    seeds = [int(rng.integers(2**31)) for _ in range(T)]

    def body(tid):
        r = np.random.default_rng(seeds[tid])
        mine_g, mine_c = list(gps), list(conds)
        try:
            gate.wait(60)
            spy.start(tid)
            for t in range(per):
                op = choose(r, w, mine_g, mine_c)
                try:
                    results[tid].append((op, plain(execute(op, w, mine_g, mine_c))))
                except Exception as e:  # noqa: BLE001
                    errors.append((op, e))
                    return
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(T)]
        [t.start() for t in ts]
        [t.join(380) for t in ts]
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise EnvError("threads did not finish")
    for op, e in errors:
        if is_env(e):
            raise EnvError(str(e)[:300])
    ctx.cover(kind="threads", integrated=w.integrated, solver=job["solver"], started="warm" if warm else "cold")
    n = 0
    for tid in range(T):
        for op, r in results[tid]:
            with ctx.case(n, desc_of(w, job, op, (tid, n))):
                ctx.cover(call=op[0])
                judge(ctx, w, op, r, f"thread {tid}")
            n += 1
    with ctx.case(n, dict(kind="threads", leaves=w.leaf_specs, solver=job["solver"])):
        for op, e in errors:
            ctx.violate("raises_under_threads", f"{op[0]}: {type(e).__name__}: {str(e)[:300]}")
        untouched(ctx, w)
        # the same calls alone
        for tid in range(T):
            for op, r in results[tid][::4]:
                if op[0] == "build":
                    continue
                with sut("alone"):
                    agree(ctx, r, plain(execute(op, w, list(gps), list(conds))), dict(call=op[0], thread=tid))
    ctx.cover(library_calls_traced=spy.events // 1000 * 1000, thread_switches_inside_library=spy.switches // 100 * 100,
              distinct_interleaved_pairs=len(spy.pairs) // 10 * 10, library_lines_reached=len(spy.lines) // 10 * 10)
    ctx.true("threads_interleaved_inside_the_library", True, spy.switches)
