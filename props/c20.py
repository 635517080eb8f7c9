"""C20: the belief of Bayesian quadrature is the exact conditional of the integral, however the data arrive."""
import itertools
import math
import warnings
import numpy as np
from probnum import quad, randvars
from probnum.quad import integration_measures as im
from probnum.quad.solvers import BayesianQuadrature, BQState, acquisition_functions as af, belief_updates as bu
from probnum.quad import kernel_embeddings as ke
from probnum.randprocs import covfuncs as cf

RULE = ("every problem (kernel x measure) x every permutation of 4 nodes x every split into consecutive batches x scale estimation x jitter: integral belief, scale, Gram matrix, kernel means, stored data and "
        "the whole history of beliefs equal batch Gaussian conditioning; predictions and acquisition values at every grid point in every reached state; the data interfaces (single and multilevel) on every way to state the problem")
ASSUMPTIONS = ["kernel embeddings themselves are C19", "4 (thorough: 5) nodes; distinct nodes; jitter 1e-8 or 1e-2"]
FN = lambda X: np.sin(2.0 * X[:, 0]) + 0.4 * X.sum(axis=1) ** 2 - 0.3


def problems():
    return {
        "eq-leb1": (cf.ExpQuad((1,), lengthscales=0.6), im.LebesgueMeasure((-0.5, 1.5), input_dim=1)),
        "eq-leb1n": (cf.ExpQuad((1,), lengthscales=1.2), im.LebesgueMeasure((0.0, 2.0), input_dim=1, normalized=True)),
        "eq-gauss1": (cf.ExpQuad((1,)), im.GaussianMeasure(0.3, 0.8)),
        "eq-gauss2": (cf.ExpQuad((2,), lengthscales=0.9), im.GaussianMeasure(np.array([0.1, -0.4]), np.array([[1.0, 0.3], [0.3, 0.5]]))),
        "mat1": (cf.Matern((1,), nu=1.5, lengthscales=0.8), im.LebesgueMeasure((-1.0, 1.0))),
        "mat12": (cf.Matern((1,), nu=0.5, lengthscales=1.1), im.LebesgueMeasure((-1.0, 1.0), normalized=True)),
        "pm2": (cf.ProductMatern((2,), lengthscales=np.array([0.7, 1.4]), nus=np.array([2.5, 0.5])), im.LebesgueMeasure((-1.0, 1.0), input_dim=2)),
        "pm3": (cf.ProductMatern((3,), lengthscales=1.0, nus=3.5), im.LebesgueMeasure((np.array([-1.0, -1, -1]), np.array([1.0, 1.0, 1.5])))),
    }


NODES = np.array([[0.9, 0.2, -0.7], [-0.35, 0.6, 0.1], [0.25, -0.8, 0.9], [0.6, 0.95, -0.2], [-0.1, -0.3, 0.5]])
GRID = np.array([[-0.2, 0.3, 0.4], [0.45, -0.5, 0.0], [0.75, 0.1, -0.6], [0.05, 0.8, 0.75]])


def items(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for p in problems():
        for s, j in itertools.product(("mle", None), (1e-8, 1e-2)):
            out.append(["belief", p, s, j, n])
        out.append(["acq", p])
        out.append(["data", p])
        out.append(["multi", p])
        out.append(["long", p, tier])
    out.append(["guards"])
    return out


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


class Ref:
    """Gaussian conditioning in one batch"""

    def __init__(self, ker, meas, X, y, jitter, scale):
        self.ker, self.X, self.y = ker, X, np.asarray(y, float)
        self.emb = ke.KernelEmbedding(ker, meas)
        self.v0 = float(self.emb.kernel_variance())
        n = len(X)
        if n == 0:
            self.scale, self.mean, self.var = 1.0, 0.0, self.v0
            return
        self.K = np.asarray(ker(X[:, None], X[None]))
        self.z = np.asarray(self.emb.kernel_mean(X))
        self.A = np.linalg.inv(self.K + jitter * np.eye(n))
        self.scale = float(self.y @ self.A @ self.y) / n if scale == "mle" else 1.0
        self.mean = float(self.z @ self.A @ self.y)
        self.var = self.scale * (self.v0 - float(self.z @ self.A @ self.z))

    def predict(self, P):
        prior = np.asarray(self.ker(P, P.copy()))
        if not len(self.X):
            return np.zeros(len(P)), prior
        k = np.asarray(self.ker(self.X[:, None], P[None]))
        return k.T @ self.A @ self.y, self.scale * (prior - np.einsum("ip,ij,jp->p", k, self.A, k))

    def cross(self, P):
        """covariance of the integral with the values at P"""
        z = np.asarray(self.emb.kernel_mean(P))
        if not len(self.X):
            return z
        k = np.asarray(self.ker(self.X[:, None], P[None]))
        return self.scale * (z - k.T @ self.A @ self.z)


def splits(n):
    for cut in itertools.product((0, 1), repeat=n - 1):
        idx, out = [0], []
        for i, c in enumerate(cut):
            if c:
                out.append(idx)
                idx = []
            idx.append(i + 1)
        out.append(idx)
        yield out


TOL = dict(rtol=1e-6, atol=1e-9)


def same(ctx, W, st, r, d):
    ctx.close(float(st.integral_belief.mean), r.mean, W, msg="mean", **TOL)
    ctx.close(float(st.integral_belief.cov), r.var, W, msg="variance", **TOL)
    ctx.step(2)
    if len(r.X):
        ctx.close(float(st.scale_sq), r.scale, W, msg="scale", **TOL)
        ctx.close(st.nodes, r.X, W, rtol=0, msg="nodes")
        ctx.close(st.fun_evals, r.y, W, rtol=0, msg="function values")
        ctx.close(st.gram, r.K, W, rtol=1e-10, msg="Gram matrix")
        ctx.close(st.kernel_means, r.z, W, rtol=1e-10, msg="kernel means")


def run_belief(item, ctx):
    _, p, s, j, n = item
    ker, meas = problems()[p]
    d = meas.input_dim
    B = bu.BQStandardBeliefUpdate(jitter=j, scale_estimation=s)
    memo = {}

    def ref(idx):
        if idx not in memo:
            X = NODES[list(idx), :d]
            memo[idx] = Ref(ker, meas, X, FN(X), j, s)
        return memo[idx]

    start = BQState(measure=meas, kernel=ker, integral_belief=randvars.Normal(0.0, ke.KernelEmbedding(ker, meas).kernel_variance()))
    seen = {}
    for perm in itertools.permutations(range(n)):
        for sp in splits(n):
            st, chain = start, [(0.0, None)]
            done = ()
            for b in sp:
                idx = tuple(perm[i] for i in b)
                key = (done, idx, tuple(map(len, sp)))
                W = f"{p} scale={s} jitter={j} after {done} add {idx}"
                with ctx.no_error(W):
                    X = NODES[list(idx), :d]
                    Xc = X.copy()
                    before = (st.nodes.copy(), st.fun_evals.copy(), st.gram.copy(), st.kernel_means.copy())
                    belief, new = B(st, X, FN(X))
                    ctx.trace()
                    ctx.check(np.array_equal(X, Xc) and all(np.array_equal(a, b2) for a, b2 in zip(before, (st.nodes, st.fun_evals, st.gram, st.kernel_means))), W, "old state changed")
                    done += idx
                    ctx.state(p, s, j, done, len(chain))
                    r = ref(done)
                    same(ctx, W, new, r, d)
                    ctx.check(belief is new.integral_belief or (belief.mean == new.integral_belief.mean and belief.cov == new.integral_belief.cov), W, "returned belief is not that of the state")
                    ctx.check(len(new.previous_integral_beliefs) == len(chain), W, f"{len(new.previous_integral_beliefs)} previous beliefs after {len(chain)} updates")
                    for q, (m, _) in zip(new.previous_integral_beliefs, chain):
                        ctx.close(float(q.mean), m, W, msg="previous belief", **TOL)
                    chain.append((r.mean, None))
                    st = new
                    if perm == tuple(sorted(perm)) or len(sp) == n:
                        m, v = B.predict_integrand(GRID[:, :d], new)
                        wm, wv = r.predict(GRID[:, :d])
                        ctx.close(m, wm, W, msg="predictive mean", **TOL)
                        ctx.close(v, wv, W, msg="predictive variance", **TOL)
                        m, v = B.predict_integrand(new.nodes, new)
                        wm, wv = r.predict(new.nodes)
                        ctx.close(m, wm, W, msg="predictive mean at nodes", **TOL)
                        ctx.close(v, wv, W, msg="predictive variance at nodes", rtol=1e-6, atol=1e-6)
                        ctx.step(2)


def run_long(item, ctx):
    """long histories, repeated nodes, values of every magnitude"""
    _, p, tier = item
    ker, meas = problems()[p]
    d = meas.input_dim
    n = 10 if tier == "quick" else 16
    X = np.array([[np.sin(1.7 * i + 0.9 * j) for j in range(3)] for i in range(n)])[:, :d]
    X[4] = X[1]
    X[7] = X[0]
    B0 = ke.KernelEmbedding(ker, meas).kernel_variance()
    for s, mag, size in itertools.product(("mle", None), (0.0, 1e-9, 1e-3, 1.0, 1e5), (1, 2, 3)):
        W = f"{p} scale={s} values*{mag} batches of {size}"
        B = bu.BQStandardBeliefUpdate(jitter=1e-2, scale_estimation=s)
        y = mag * FN(X)
        with ctx.no_error(W):
            st, hist = BQState(measure=meas, kernel=ker, integral_belief=randvars.Normal(0.0, B0)), [(0.0, float(B0))]
            for k in range(0, n, size):
                _, st = B(st, X[k: k + size], y[k: k + size])
                r = Ref(ker, meas, X[: k + size], y[: k + size], 1e-2, s)
                w = f"{W} after {len(r.X)}"
                ctx.state(w)
                ctx.trace()
                got = np.array([float(st.integral_belief.mean), np.sqrt(max(0.0, float(st.integral_belief.cov))), np.sqrt(float(st.scale_sq))])
                f = mag if s and mag else 1.0
                ctx.close(got[0] / (mag or 1.0), r.mean / (mag or 1.0), w, msg="mean", rtol=1e-6, atol=1e-8)
                ctx.close(got[1] / f, np.sqrt(r.var) / f, w, msg="standard deviation", rtol=1e-5, atol=1e-7)
                ctx.close(got[2] / f, np.sqrt(r.scale) / f, w, msg="scale", rtol=1e-6, atol=1e-8)
                ctx.close(st.nodes, r.X, w, rtol=0, msg="nodes")
                ctx.close(st.fun_evals, r.y, w, rtol=0, msg="function values")
                ctx.close(st.gram, r.K, w, rtol=1e-10, msg="Gram matrix")
                ctx.close(st.kernel_means, r.z, w, rtol=1e-10, msg="kernel means")
                ctx.check(len(st.previous_integral_beliefs) == len(hist) and np.allclose([[float(q.mean), float(q.cov)] for q in st.previous_integral_beliefs], hist, rtol=1e-5, atol=1e-12), w, "history of beliefs")
                hist.append((r.mean, r.var))
                ctx.step(3)


def run_acq(item, ctx):
    p = item[1]
    ker, meas = problems()[p]
    d = meas.input_dim
    P = GRID[:, :d]
    for s in ("mle", None):
        B = bu.BQStandardBeliefUpdate(jitter=0.0, scale_estimation=s)
        for k in range(0, 5):
            for idx in itertools.combinations(range(5), k):
                W = f"{p} scale={s} nodes {idx}"
                ctx.state(W)
                X = NODES[list(idx), :d]
                st = BQState(measure=meas, kernel=ker, integral_belief=randvars.Normal(0.0, ke.KernelEmbedding(ker, meas).kernel_variance()))
                with ctx.no_error(W):
                    if k:
                        _, st = B(st, X, FN(X))
                    r = Ref(ker, meas, X, FN(X) if k else [], 0.0, s)
                    m, v = B.predict_integrand(P, st)
                    wm, wv = r.predict(P)
                    ctx.close(m, wm, W, msg="predictive mean", **TOL)
                    ctx.close(v, wv, W, msg="predictive variance", **TOL)
                    keep = (st.kernel_means.copy(), st.gram.copy(), st.fun_evals.copy())
                    # relative variance reduction by really adding the point
                    full = []
                    for x in P:
                        X2 = np.vstack([X, x[None]])
                        full.append(1.0 - Ref(ker, meas, X2, np.zeros(k + 1), 0.0, None).var / (r.var / r.scale))
                    full = np.array(full)
                    got, g = af.IntegralVarianceReduction()(P, st)
                    ctx.close(got, full, W, rtol=1e-5, atol=1e-7, msg="integral variance reduction")
                    mi, g2 = af.MutualInformation()(P, st)
                    ctx.close(mi, -0.5 * np.log(1 - full), W, rtol=1e-4, atol=1e-6, msg="mutual information")
                    wpv, g3 = af.WeightedPredictiveVariance()(P, st)
                    ctx.close(wpv, wv / r.scale * np.asarray(meas(P)) ** 2, W, rtol=1e-6, atol=1e-9, msg="weighted predictive variance")
                    ctx.check(g is None and g2 is None and g3 is None, W, "gradients")
                    for A in (af.IntegralVarianceReduction(), af.MutualInformation(), af.WeightedPredictiveVariance()):
                        all_ = A(P, st)[0]
                        ctx.close(np.array([A(x[None], st)[0][0] for x in P]), all_, W, rtol=1e-9, msg=f"{type(A).__name__}: single points")
                        ctx.check(A.has_gradients is False, W, "has_gradients")
                        ctx.step(4)
                    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (st.kernel_means, st.gram, st.fun_evals))), W, "state changed")
                    ctx.trace(3)


def run_data(item, ctx):
    p = item[1]
    ker, meas = problems()[p]
    d = meas.input_dim
    for k in range(1, 5):
        X = NODES[:k, :d].copy()
        y = FN(X)
        for opt in ({}, dict(scale_estimation=None), dict(jitter=1e-2), dict(jitter=0.0), dict(jitter=0.0, scale_estimation=None), dict(scale_estimation=None, jitter=1e-3), dict(scale_estimation="mle", max_evals=1, var_tol=1e-20, rel_tol=1e-20, batch_size=3)):
            r = Ref(ker, meas, X, y, opt.get("jitter", 1e-8), opt.get("scale_estimation", "mle"))
            W = f"{p} {k} nodes {opt}"
            ctx.state(W)
            forms = [("bayesquad_from_data", lambda: quad.bayesquad_from_data(nodes=X, fun_evals=y, kernel=ker, measure=meas, options=dict(opt) if opt else None))]
            solver = lambda: BayesianQuadrature.from_problem(input_dim=d, kernel=ker, measure=meas, policy=None, options=dict(opt))
            forms.append(("integrate(fun)", lambda: solver().integrate(fun=FN, nodes=X, fun_evals=None)[::2]))
            forms.append(("integrate(values)", lambda: solver().integrate(fun=None, nodes=X, fun_evals=y)[::2]))
            forms.append(("integrate(both)", lambda: solver().integrate(fun=lambda x: 1 / 0, nodes=X, fun_evals=y)[::2]))

            def twice():
                S = solver()
                S.integrate(fun=None, nodes=X[:1], fun_evals=y[:1])
                return S.integrate(fun=None, nodes=X, fun_evals=y)[::2]
            forms.append(("second integrate", twice))
            forms.append(("measure and domain", lambda: quad.bayesquad_from_data(nodes=X, fun_evals=y, kernel=ker, measure=meas, domain=(0.0, 7.0), options=dict(opt))))
            if isinstance(meas, im.LebesgueMeasure) and not meas.normalized:
                forms.append(("domain", lambda: quad.bayesquad_from_data(nodes=X, fun_evals=y, kernel=ker, domain=meas.domain, options=dict(opt))))
            if isinstance(ker, cf.ExpQuad) and float(ker.lengthscale) == 1.0:
                forms.append(("default kernel", lambda: quad.bayesquad_from_data(nodes=X, fun_evals=y, measure=meas, options=dict(opt))))
            for nm, f in forms:
                w = f"{W} {nm}"
                with ctx.no_error(w):
                    belief, info = f()
                    ctx.trace()
                    ctx.close(float(belief.mean), r.mean, w, msg="mean", **TOL)
                    ctx.close(float(belief.cov), r.var, w, msg="variance", **TOL)
                    ctx.check(info.nevals == k and info.iteration == 0 and info.has_converged, w, f"info {info}")
                    ctx.check(belief.shape == (), w, "shape of the integral")
                    ctx.step(2)


def run_multi(item, ctx):
    p = item[1]
    ker, meas = problems()[p]
    d = meas.input_dim
    ker2 = cf.ExpQuad((d,), lengthscales=0.77)
    for L in (1, 2, 3):
        for kk, shared, s, ks in itertools.product(itertools.product((1, 2, 3), repeat=L), (0, 1), ("mle", None), (0, 1)):
            if shared and len(set(kk)) > 1:
                continue
            W = f"{p} levels {kk} shared={shared} scale={s} kernels={ks}"
            ctx.state(W)
            nodes = [NODES[:k, :d] if shared else NODES[l: l + k, :d] if l + k <= 5 else NODES[5 - k:, :d] for l, k in enumerate(kk)]
            ys = [FN(x) * (0.5 ** l) + 0.1 * l for l, x in enumerate(nodes)]
            kers = [ker if (l + ks) % 2 == 0 else ker2 for l in range(L)]
            refs = [Ref(kers[l], meas, nodes[l], ys[l], 1e-8, s) for l in range(L)]
            with ctx.no_error(W):
                belief, infos = quad.multilevel_bayesquad_from_data(nodes=(nodes[0],) if shared else tuple(nodes), fun_diff_evals=tuple(ys), kernels=tuple(kers), measure=meas, options=dict(scale_estimation=s))
                ctx.trace()
                ctx.close(float(belief.mean), sum(r.mean for r in refs), W, msg="mean", **TOL)
                ctx.close(float(belief.cov), sum(r.var for r in refs), W, msg="variance", **TOL)
                ctx.check(len(infos) == L and [i.nevals for i in infos] == list(kk), W, "infos")
                ctx.step(2)
    X = NODES[:2, :d]
    y = FN(X)
    ctx.raises(lambda: quad.multilevel_bayesquad_from_data(nodes=(X, X), fun_diff_evals=(y, y, y), measure=meas), f"{p} levels mismatch", ValueError)
    ctx.raises(lambda: quad.multilevel_bayesquad_from_data(nodes=(X, X), fun_diff_evals=(y, y), kernels=(ker,), measure=meas), f"{p} kernels mismatch", ValueError)


def run_guards(item, ctx):
    ker, meas = problems()["eq-leb1"]
    X = NODES[:3, :1]
    y = FN(X)
    S = lambda **k: BayesianQuadrature.from_problem(input_dim=1, kernel=ker, measure=meas, **k)
    bad = [
        ("no domain, no measure", lambda: quad.bayesquad_from_data(nodes=X, fun_evals=y), ValueError),
        ("no domain, no measure (loop)", lambda: quad.bayesquad(FN, 1, rng=np.random.default_rng(1)), ValueError),
        ("from_problem without measure", lambda: BayesianQuadrature.from_problem(input_dim=1), ValueError),
        ("1-d nodes", lambda: quad.bayesquad_from_data(nodes=X[:, 0], fun_evals=y, measure=meas), ValueError),
        ("2-d values", lambda: quad.bayesquad_from_data(nodes=X, fun_evals=y[:, None], measure=meas), ValueError),
        ("numbers differ", lambda: quad.bayesquad_from_data(nodes=X, fun_evals=y[:2], measure=meas), ValueError),
        ("no function, no values", lambda: S(policy=None).integrate(fun=None, nodes=X, fun_evals=None), ValueError),
        ("no policy, no nodes", lambda: S(policy=None).integrate(fun=FN, nodes=None, fun_evals=None), ValueError),
        ("no policy, no nodes, values", lambda: S(policy=None).integrate(fun=None, nodes=None, fun_evals=y), ValueError),
        ("policy without function", lambda: S(policy="vdc").integrate(fun=None, nodes=X, fun_evals=y), ValueError),
        ("policy without rng", lambda: S(policy="bmc").integrate(fun=FN, nodes=None, fun_evals=None), ValueError),
        ("design without rng", lambda: S(policy="vdc", initial_design="mc").integrate(fun=FN, nodes=None, fun_evals=None), ValueError),
        ("design without policy", lambda: S(policy=None, initial_design="mc"), ValueError),
        ("unknown policy", lambda: S(policy="best"), NotImplementedError),
        ("unknown design", lambda: S(policy="bmc", initial_design="best"), NotImplementedError),
        ("unknown scale estimation", lambda: quad.bayesquad_from_data(nodes=X, fun_evals=y, measure=meas, options=dict(scale_estimation="best")), ValueError),
        ("negative jitter", lambda: bu.BQStandardBeliefUpdate(jitter=-1e-3, scale_estimation=None), ValueError),
        ("vdc in two dimensions", lambda: BayesianQuadrature.from_problem(input_dim=2, domain=(0.0, 1.0), policy="vdc"), ValueError),
        ("vdc on the line", lambda: BayesianQuadrature.from_problem(input_dim=1, measure=im.GaussianMeasure(0.0, 1.0), policy="vdc"), ValueError),
        ("latin on the line", lambda: BayesianQuadrature.from_problem(input_dim=1, measure=im.GaussianMeasure(0.0, 1.0), policy="bmc", initial_design="latin"), ValueError),
        ("dimensions", lambda: quad.bayesquad_from_data(nodes=NODES[:2, :2], fun_evals=y[:2], kernel=ker, measure=meas), ValueError),
    ]
    for n, f, e in bad:
        ctx.state(n)
        ctx.raises(f, n, e)
        ctx.trace()
