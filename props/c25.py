"""C25: problem zoo - every problem is what its documentation says, and stored solutions solve it."""
import itertools
import warnings
import numpy as np
import scipy.integrate
import scipy.sparse
import scipy.stats
from probnum import linops, problems, randprocs, randvars
from probnum.problems.zoo import diffeq as zd, filtsmooth as zf, linalg as zl, quad as zq
from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure

RULE = ("every problem of the zoo x every combination of its parameters over an alphabet: vector fields equal the documented formula, Jacobians and Hessians their derivatives at a grid of states, solutions start at the initial value and satisfy the equation; "
        "stored integrals equal tensor Gauss quadrature (with break points) of the integrand; time-series problems carry the documented model, data drawn from it (states and observations from the same scripted generator) and all given parameters; "
        "random matrices are symmetric positive definite with the requested spectrum, linear systems are solved by their solution; argument guards")
ASSUMPTIONS = ["quadrature problems in dimension <= 5 (uniform) and <= 2 (Gaussian)", "process_diffusion of car_tracking and ornstein_uhlenbeck is not covered"]


def items(tier):
    out = [["ode", n, k] for n in ODES for k in range(3)]
    out += [["quad", n, d, tier] for n in QUADS for d in (1, 2, 3, 4, 5)]
    out += [["gauss", n, d] for n in QUADS for d in (1, 2)]
    out += [["poly", d] for d in (1, 2)] + [["emukit"], ["qguards"]]
    out += [["car", q, v] for q in (1, 2) for v in range(3)] + [["ou", v] for v in range(4)] + [["pendulum", v] for v in range(3)] + [["benes", v] for v in range(3)] + [["logode", o] for o in (1, 2, 3, 4)]
    out += [["spd", d, s] for d in (1, 2, 3, 5) for s in range(3)] + [["sparse", d] for d in (1, 2, 4, 6)] + [["system", k] for k in range(5)] + [["classes"]]
    return out


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


# ---------------------------------------------------------------- ODEs
def f_threebody(p):
    mu = 0.012277471
    mp = 1 - mu

    def f(y):
        r1 = ((y[0] + mu) ** 2 + y[1] ** 2) ** 1.5
        r2 = ((y[0] - mp) ** 2 + y[1] ** 2) ** 1.5
        return np.array([y[2], y[3], y[0] + 2 * y[3] - mp * (y[0] + mu) / r1 - mu * (y[0] - mp) / r2, y[1] - 2 * y[2] - mp * y[1] / r1 - mu * y[1] / r2])
    return f


def f_lorenz96(p):
    def f(y):
        n = len(y)
        return np.array([(y[(i + 1) % n] - y[i - 2]) * y[i - 1] - y[i] + p[0] for i in range(n)])
    return f


ODES = {
    "vanderpol": (2, [1e1, (2.5,), 3], lambda p: lambda y: np.array([y[1], (p[0] if np.ndim(p) else p) * (1 - y[0] ** 2) * y[1] - y[0]]), [2.0, 0.0], 1e1, 30.0),
    "rigidbody": (3, [(-2.0, 1.25, -0.5), (1.0, -0.3, 2.0), (0.0, 1.0, 1.0)], lambda p: lambda y: np.array([p[0] * y[1] * y[2], p[1] * y[0] * y[2], p[2] * y[0] * y[1]]), [1.0, 0.0, 0.9], (-2.0, 1.25, -0.5), 20.0),
    "logistic": (1, [(3.0, 1.0), (1.5, 2.0), (0.7, 0.5)], lambda p: lambda y: p[0] * y * (1 - y / p[1]), [0.1], (3.0, 1.0), 2.0),
    "fitzhughnagumo": (2, [(0.2, 0.2, 3.0, 1.0), (0.0, 0.08, 0.07, 1.25), (1.0, -0.5, 2.0, 3.0)], lambda p: lambda y: np.array([y[0] - y[0] ** 3 / 3 - y[1] + p[0], (y[0] + p[1] - p[2] * y[1]) / p[3]]), [1.0, -1.0], (0.2, 0.2, 3.0, 1.0), 20.0),
    "lotkavolterra": (2, [(0.5, 0.05, 0.5, 0.05), (1.0, 0.3, 0.2, 0.7), (2.0, 1.0, 1.5, 0.25)], lambda p: lambda y: np.array([p[0] * y[0] - p[1] * y[0] * y[1], -p[2] * y[1] + p[3] * y[0] * y[1]]), [20.0, 20.0], (0.5, 0.05, 0.5, 0.05), 20.0),
    "seir": (4, [(0.3, 0.3, 0.1), (0.1, 0.7, 0.4), (1.0, 0.2, 0.0)], None, [998, 1, 1, 0], (0.3, 0.3, 0.1), 200.0),
    "lorenz63": (3, [(10.0, 28.0, 8.0 / 3.0), (1.0, 2.0, 3.0), (5.0, 0.5, 1.0)], lambda p: lambda y: np.array([p[0] * (y[1] - y[0]), y[0] * (p[1] - y[2]) - y[1], y[0] * y[1] - p[2] * y[2]]), [0.0, 1.0, 1.05], (10.0, 28.0, 8.0 / 3.0), 20.0),
    "threebody": (4, [None, None, None], f_threebody, [0.994, 0, 0, -2.00158510637908252240537862224], None, 17.0652165601579625588917206249),
    "lorenz96": (5, [(8.0,), (2.0,), (-1.0,)], f_lorenz96, None, (8.0,), 30.0),
}


def jacobian(f, y, h=1e-5):
    n = len(y)
    return np.array([(f(y + h * e) - f(y - h * e)) / (2 * h) for e in np.eye(n)]).T


def run_ode(item, ctx):
    _, name, k = item
    dim, params, ref, y0d, pd, tm = ODES[name]
    make = getattr(zd, name)
    p = params[k]
    for t0, tmax, y0, useparams in itertools.product((0.0, 1.5, -2.0), (None, 5.0), (None, 0, 1), (True, False)):
        kw = {"t0": t0}
        if tmax is not None:
            kw["tmax"] = tmax
        n = dim
        if y0 is not None:
            if name == "lorenz96" and y0 == 1:
                n = 4
            kw["y0"] = 0.3 + np.abs(np.sin(1.0 + np.arange(n) + y0))
        if useparams and p is not None:
            kw["params"] = p
        pp = p if useparams and p is not None else pd
        W = f"{name} {kw}"
        ctx.state(name, k, t0, tmax, y0, useparams)
        with ctx.no_error(W):
            ivp = make(**kw)
            ctx.check(isinstance(ivp, problems.InitialValueProblem) and ivp.t0 == t0 and ivp.tmax == (tm if tmax is None else tmax), W, "time span")
            want0 = kw.get("y0", np.array(y0d, dtype=float) if y0d is not None else np.full(5, pp[0]))
            ctx.close(ivp.y0, want0, W, rtol=0, msg="initial value")
            ctx.check(ivp.dimension == n, W, f"dimension {ivp.dimension}")
            if name == "seir":
                N = np.sum(want0)
                F = lambda y: np.array([-pp[1] * y[0] * y[2] / N, pp[1] * y[0] * y[2] / N - pp[0] * y[1], pp[0] * y[1] - pp[2] * y[2], pp[2] * y[2]])
            else:
                F = ref(pp)
            for j in range(6):
                y = want0.astype(float) if j == 0 else np.sin(1.3 * j + 2.0 * np.arange(n)) * (1 + j) * 0.6
                for t in (t0, t0 + 0.7):
                    y_ = y.copy()
                    ctx.close(ivp.f(t, y), F(y), f"{W} state {j}", rtol=1e-12, atol=1e-12, msg="vector field")
                    if ivp.df is not None:
                        sc = max(1.0, np.max(np.abs(y)))
                        ctx.close(np.reshape(ivp.df(t, y), (n, n)), jacobian(F, y, 1e-5 * sc), f"{W} state {j}", rtol=1e-5, atol=1e-5, msg="Jacobian")
                    if ivp.ddf is not None:
                        H = (F(y + 1e-3) - 2 * F(y) + F(y - 1e-3)) / 1e-6
                        ctx.close(np.ravel(ivp.ddf(t, y)), H, f"{W} state {j}", rtol=1e-4, atol=1e-5, msg="Hessian")
                    ctx.check(np.array_equal(y, y_), W, "state changed")
                    ctx.step()
            if name in ("vanderpol", "rigidbody", "logistic", "fitzhughnagumo", "lotkavolterra", "seir", "lorenz63"):
                ctx.check(ivp.df is not None, W, "no Jacobian")
            if ivp.solution is not None:
                ctx.close(ivp.solution(t0), want0, W, rtol=1e-12, msg="solution at t0")
                for t in t0 + np.array([0.0, 0.3, 1.0, 1.9]):
                    d = (ivp.solution(t + 1e-5) - ivp.solution(t - 1e-5)) / 2e-5
                    ctx.close(d, F(ivp.solution(t)), W, rtol=1e-6, atol=1e-7, msg="solution does not satisfy the equation")
                    ctx.step()
            ctx.trace()
    if name == "lorenz96":
        for nv in (1, 2, 3):
            ctx.raises(lambda: zd.lorenz96(num_variables=nv), f"lorenz96 {nv}", ValueError)
            ctx.raises(lambda: zd.lorenz96(y0=np.ones(nv)), f"lorenz96 {nv}", ValueError)
        for nv in (4, 5, 7):
            ctx.check(zd.lorenz96(num_variables=nv).dimension == nv, f"lorenz96 {nv}", "dimension")


# ---------------------------------------------------------------- quadrature
QUADS = ["genz_continuous", "genz_cornerpeak", "genz_discontinuous", "genz_gaussian", "genz_oscillatory", "genz_productpeak", "bratley1992", "roos_arnold", "gfunction", "morokoff_caflisch_1", "morokoff_caflisch_2"]


def rule(breaks, n):
    g, w = np.polynomial.legendre.leggauss(n)
    X, V = [], []
    for a, b in zip(breaks[:-1], breaks[1:]):
        if b > a:
            X.append(0.5 * (b - a) * g + 0.5 * (a + b))
            V.append(0.5 * (b - a) * w)
    return np.concatenate(X), np.concatenate(V)


def tensor(rules):
    X = np.stack([x.ravel() for x in np.meshgrid(*[r[0] for r in rules], indexing="ij")], axis=1)
    V = np.prod(np.stack([x.ravel() for x in np.meshgrid(*[r[1] for r in rules], indexing="ij")]), axis=0)
    return X, V


def qparams(name, d):
    if not name.startswith("genz"):
        return [({}, None, None)]
    if d > 3:
        return [(dict(a=a, u=u), a, u) for a in (np.array([1.3, 0.6, 0.8, 1.1, 0.4])[:d],) for u in (np.array([0.2, 0.7, 0.9, 0.5, 0.6])[:d], np.array([1.0, 0.0, 0.4, 0.3, 0.8])[:d])]
    As = [None, np.array([1.3, 0.6, 2.0])[:d], np.array([4.0, 0.5, 1.0])[:d]]
    Us = [None, np.array([0.2, 0.7, 0.9])[:d], np.array([1.0, 0.0, 0.4])[:d]]
    out = []
    for a, u in itertools.product(As, Us):
        kw = {}
        if a is not None:
            kw["a"] = a
        if u is not None:
            kw["u"] = u
        out.append((kw, np.full(d, 5.0) if a is None else a, np.full(d, 0.5) if u is None else u))
    return out


def reference(name, d, a, u):
    j = np.arange(d)
    return {
        "genz_continuous": lambda x: np.exp(-np.sum(a * np.abs(x - u), 1)),
        "genz_cornerpeak": lambda x: (1 + x @ a) ** (-d - 1.0),
        "genz_discontinuous": lambda x: np.where(np.any(x > u, 1), 0.0, np.exp(x @ a)),
        "genz_gaussian": lambda x: np.exp(-np.sum((a * (x - u)) ** 2, 1)),
        "genz_oscillatory": lambda x: np.cos(2 * np.pi * u[0] + x @ a),
        "genz_productpeak": lambda x: np.prod(1 / (a ** -2.0 + (x - u) ** 2), 1),
        "bratley1992": lambda x: np.sum((-1.0) ** (j + 1) * np.cumprod(x, 1), 1),
        "roos_arnold": lambda x: np.prod(np.abs(4 * x - 2), 1),
        "gfunction": lambda x: np.prod((np.abs(4 * x - 2) + (j - 1) / 2) / (1 + (j - 1) / 2), 1),
        "morokoff_caflisch_1": lambda x: (1 + 1 / d) ** d * np.prod(x ** (1 / d), 1),
        "morokoff_caflisch_2": lambda x: (d - 0.5) ** -float(d) * np.prod(d - x, 1),
    }[name]


def run_quad(item, ctx):
    _, name, d, tier = item
    for kw, a, u in qparams(name, d):
        W = f"{name} dimension {d} {kw}"
        ctx.state(name, d, repr(kw))
        with ctx.no_error(W):
            q = getattr(zq, name)(dim=d, **kw)
            ctx.check(isinstance(q.measure, LebesgueMeasure) and q.measure.input_dim == d and q.input_dim == d, W, "measure")
            ctx.close(np.array(q.measure.domain), np.array([np.zeros(d), np.ones(d)]), W, rtol=0, msg="domain")
            ctx.check(np.ndim(q.solution) == 0, W, "solution is not a number")
            n = {1: 60, 2: 40, 3: 24, 4: 10, 5: 6}[d]
            brk = [[0.0, float(c), 1.0] for c in (u if u is not None and name != "genz_oscillatory" else np.full(d, 0.5))]
            X, V = tensor([rule(b, n) for b in brk])
            if name == "morokoff_caflisch_1":
                # substitute x = z**d, which removes the root
                Y, J = X ** d, np.prod(d * X ** (d - 1), axis=1)
            else:
                Y, J = X, 1.0
            fx = np.ravel(q.fun(Y))
            ctx.close(fx, reference(name, d, a, u)(Y), W, rtol=1e-9, atol=1e-12, msg="integrand")
            ctx.close(np.sum(V * J * fx), q.solution, W, rtol=1e-6, atol=1e-9, msg="stored integral")
            ctx.check(np.shape(q.fun(Y[:3])) in ((3,), (3, 1)), W, "shape of values")
            for bad in (np.full((1, d), 1.2), np.full((1, d), -0.1)):
                ctx.raises(lambda: q.fun(bad), f"{W} outside", ValueError)
            ctx.raises(lambda: q.fun(np.full((2, d + 1), 0.5)), f"{W} wrong dimension", ValueError)
            ctx.trace()
            ctx.step(5)


def run_gauss(item, ctx):
    _, name, d = item
    kw, a, u = qparams(name, d)[-1 if name != "genz_discontinuous" else 4 if name.startswith("genz") else 0]
    for mean, std in itertools.product((0.0, 0.7, "vec"), (1.0, 0.4, "vec")):
        W = f"gaussian {name} {d} {kw} mean={mean} std={std}"
        ctx.state(name, d, mean, std)
        with ctx.no_error(W):
            q0 = getattr(zq, name)(dim=d, **kw)
            M = np.array([0.5, -1.0])[:d] if mean == "vec" else mean
            S = np.array([0.3, 1.5])[:d] if std == "vec" else std
            q = zq.uniform_to_gaussian_quadprob(q0, mean=M, std=S)
            ctx.check(isinstance(q.measure, GaussianMeasure) and q.input_dim == d, W, "measure")
            ctx.close(np.broadcast_to(q.measure.mean, (d,)), np.broadcast_to(M, (d,)), W, rtol=0, msg="mean")
            C = q.measure.cov
            C = C.todense() if isinstance(C, linops.LinearOperator) else np.asarray(C)
            ctx.close(np.reshape(C, (d, d)), np.diag(np.broadcast_to(S, (d,)) ** 2), W, rtol=1e-12, msg="covariance")
            ctx.check(q.solution == q0.solution, W, "solution")
            z = np.sin(np.arange(5 * d) * 1.7).reshape(5, d) * 2
            x = M + S * z
            ctx.close(np.ravel(q.fun(x)), np.ravel(q0.fun(scipy.stats.norm.cdf(z))), W, rtol=1e-10, atol=1e-13, msg="integrand")
            # integral with respect to the Gaussian, by substitution through its distribution function
            brk = [[0.0, float(c), 1.0] for c in (u if u is not None and name != "genz_oscillatory" else np.full(d, 0.5))]
            U, V = tensor([rule(b, 40) for b in brk])
            if name == "morokoff_caflisch_1":
                V = V * np.prod(d * U ** (d - 1), axis=1)
                U = U ** d
            ctx.close(np.sum(V * np.ravel(q.fun(M + S * scipy.stats.norm.ppf(U)))), q.solution, W, rtol=1e-5, atol=1e-8, msg="stored integral")
            ctx.trace()
            ctx.step(4)


def run_poly(item, ctx):
    d = item[1]
    h, w = np.polynomial.hermite_e.hermegauss(24)
    w = w / w.sum()
    degs = list(itertools.product(range(5), repeat=d))
    for var in (1.0, 2.0, 0.5, 3, "matrix"):
        if var == "matrix":
            vv = np.array([0.5, 2.0])[:d]
            V = np.diag(vv)
        else:
            vv, V = np.full(d, float(var)), var
        X, Q = tensor([(h * np.sqrt(s), w) for s in vv])
        cases = [(None, None)] + [(np.array([[1.5, -0.7][:d]]), np.array([e])) for e in degs] + [(np.array([[1.5, -0.7][:d], [0.3, 2.0][:d]]), np.array([e, degs[(7 * k + 3) % len(degs)]])) for k, e in enumerate(degs)]
        for k, (a, b) in enumerate(cases):
            W = f"sum_polynomials {d} var={var} b={None if b is None else b.tolist()}"
            ctx.state(d, var, k)
            with ctx.no_error(W):
                q = zq.sum_polynomials(d, a, b, V) if a is not None else zq.sum_polynomials(d, var=V)
                A, B = (np.ones((1, d)), np.ones((1, d), dtype=int)) if a is None else (a, b)
                ref = sum(np.prod(A[j] * X ** B[j], axis=1) for j in range(len(A)))
                ctx.close(np.ravel(q.fun(X)), ref, W, rtol=1e-10, atol=1e-12, msg="integrand")
                ctx.close(q.solution, np.sum(Q * ref), W, rtol=1e-8, atol=1e-9, msg="stored integral")
                C = q.measure.cov
                C = C.todense() if isinstance(C, linops.LinearOperator) else np.asarray(C)
                ctx.close(np.reshape(C, (d, d)), np.diag(vv), W, rtol=1e-12, msg="covariance of the measure")
                ctx.close(np.ravel(q.measure.mean), np.zeros(d), W, rtol=0, msg="mean of the measure")
                ctx.step(4)
                ctx.trace()


def run_emukit(item, ctx):
    x1, v1 = rule(np.linspace(-3, 3, 13), 16)
    X2, V2 = tensor([(x1, v1), (x1, v1)])
    def both(W, q, X, V, ref):
        with ctx.no_error(W):
            ctx.state(W)
            ctx.close(np.ravel(q.fun(X)), ref(X), W, rtol=1e-10, atol=1e-13, msg="integrand")
            ctx.close(np.array(q.measure.domain), np.array([np.full(X.shape[1], -3.0), np.full(X.shape[1], 3.0)]), W, rtol=0, msg="domain")
            if q.solution is not None:
                ctx.close(np.sum(V * ref(X)), q.solution, W, rtol=1e-6, msg="stored integral")
            ctx.step(3)
            ctx.trace()
    from probnum.problems.zoo.quad import _emukit_problems as em
    both("hennig1d", em.hennig1d(), x1[:, None], v1, lambda x: np.exp(-x[:, 0] ** 2 - np.sin(3 * x[:, 0]) ** 2))
    for c in (None, np.eye(2), np.array([[2.0, 0.3], [0.3, 0.5]])):
        cc = np.array([[1, 0.5], [0.5, 1]]) if c is None else c
        both(f"hennig2d {c}", em.hennig2d(c), X2, V2, lambda x: np.exp(-np.einsum("ki,ij,kj->k", x, cc, x) - np.sin(3 * np.sum(x ** 2, 1))))
    for w in (None, 1.0, 0.4, 2):
        both(f"sombrero2d {w}", em.sombrero2d(w), X2, V2, lambda x: np.sinc((w or 1.0) * np.linalg.norm(x, axis=1)))
    ctx.close(em.sombrero2d().fun(np.zeros((2, 2))), np.ones(2), "sombrero2d at the origin", rtol=0)
    for m, v in itertools.product((None, 0.0, 1.0, 2.5), (None, 1.0, 0.3)):
        mm, vv = m or 0.0, v or 1.0
        both(f"circulargaussian2d {m} {v}", em.circulargaussian2d(m, v), X2, V2, lambda x: np.sum(x ** 2, 1) * np.exp(-(np.linalg.norm(x, axis=1) - mm) ** 2 / (2 * vv)) / np.sqrt(2 * np.pi * vv))
    for f in (lambda: em.hennig2d(np.eye(3)), lambda: em.hennig2d(np.diag([1.0, -1.0])), lambda: em.sombrero2d(0.0), lambda: em.sombrero2d(-1), lambda: em.circulargaussian2d(m=-1.0), lambda: em.circulargaussian2d(v=0.0)):
        ctx.raises(f, "emukit guard", ValueError)


def run_qguards(item, ctx):
    for name in QUADS[:6]:
        f = getattr(zq, name)
        for d in (1, 2):
            for kw in (dict(a=np.ones(d + 1)), dict(u=np.full(d + 1, 0.5)), dict(a=np.ones((d, 1))), dict(u=np.full((1, d), 0.5)), dict(u=np.full(d, 1.1)), dict(u=np.append(np.full(d - 1, 0.5), -0.2))):
                ctx.state(name, d, repr(kw))
                ctx.raises(lambda: f(dim=d, **kw), f"{name} {d} {kw}", ValueError)
                ctx.step()
    q = problems.QuadratureProblem(fun=lambda x: x[:, 0], measure=LebesgueMeasure(domain=(0.0, 2.0), input_dim=1), solution=2.0)
    ctx.raises(lambda: zq.uniform_to_gaussian_quadprob(q), "not on the unit cube", ValueError)
    q = problems.QuadratureProblem(fun=lambda x: x[:, 0], measure=LebesgueMeasure(domain=(-1.0, 1.0), input_dim=1), solution=2.0)
    ctx.raises(lambda: zq.uniform_to_gaussian_quadprob(q), "not on the unit cube", ValueError)
    ctx.trace()


# ---------------------------------------------------------------- time series
def dense(v):
    return v.todense() if isinstance(v, linops.LinearOperator) else np.asarray(v)


def series(ctx, W, make, times, H, R, dyn, init, nstate, initarg=None):
    """common checks; dyn(t, dt, x) -> (mean, cov) of the next state"""
    reg, info = make(np.random.default_rng(3))
    reg2, _ = make(np.random.default_rng(3))
    reg3, _ = make(np.random.default_rng(4))
    pr = info["prior_process"]
    ctx.check(isinstance(reg, problems.TimeSeriesRegressionProblem), W, "type")
    ctx.close(reg.locations, times, W, rtol=1e-14, msg="locations")
    n = len(times)
    ctx.check(len(reg) == n and len(reg.observations) == n and len(reg.measurement_models) == n and np.shape(reg.solution) == (n, nstate), W, f"lengths {np.shape(reg.solution)}")
    ctx.check(np.array_equal(reg.observations, reg2.observations) and np.array_equal(reg.solution, reg2.solution), W, "not reproducible")
    ctx.check(not np.array_equal(reg.observations, reg3.observations) and not np.array_equal(reg.solution, reg3.solution), W, "generator ignored")
    ctx.close(pr.initrv.mean, init[0], W, rtol=0, msg="initial mean")
    ctx.close(pr.initrv.cov, init[1], W, rtol=1e-12, msg="initial covariance")
    ctx.check(pr.initarg == (times[0] if initarg is None else initarg), W, f"initial argument {pr.initarg}")
    for k in (0, n // 2, n - 1):
        mm = reg.measurement_models[k]
        for x in (np.zeros(nstate), np.sin(1.0 + np.arange(nstate))):
            got = mm.forward_realization(x, t=times[k])[0]
            ctx.close(got.mean, H(x), W, rtol=1e-12, atol=1e-14, msg="measurement mean")
            ctx.close(got.cov, R, W, rtol=1e-12, msg="measurement covariance")
            ctx.step()
    if dyn is not None:
        for t, x in itertools.product(times[:2], (np.zeros(nstate), np.cos(2.0 * np.arange(nstate)))):
            dt = times[1] - times[0]
            got = pr.transition.forward_realization(x, t=t, dt=dt)[0]
            m, C = dyn(t, dt, x)
            ctx.close(got.mean, m, W, rtol=1e-8, atol=1e-10, msg="dynamics mean")
            ctx.close(got.cov, C, W, rtol=1e-8, atol=1e-12, msg="dynamics covariance")
            ctx.step()
    # the data belong together: noise of the observations and increments of the states are of the right size
    r = np.array([np.asarray(reg.observations[k]) - H(reg.solution[k]) for k in range(n)])
    ctx.check(np.all(np.abs(r) <= 7 * np.sqrt(np.max(np.diag(np.atleast_2d(R))))), W, "observations are not near the states")
    ctx.check(np.any(r != 0), W, "observations carry no noise")
    ctx.trace()
    return reg, info


def iwp(q, d, dt):
    from math import factorial
    A = np.array([[dt ** (j - i) / factorial(j - i) if j >= i else 0.0 for j in range(q + 1)] for i in range(q + 1)])
    Q = np.array([[dt ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j) * factorial(q - i) * factorial(q - j)) for j in range(q + 1)] for i in range(q + 1)])
    return np.kron(np.eye(d), A), np.kron(np.eye(d), Q)


def run_car(item, ctx):
    _, q, v = item
    for mv, (ts, step), own, impl in itertools.product((0.5, 0.1), (((0.0, 20.0), 0.2), ((1.0, 4.0), 0.5)), (0, 1), (("classic", "classic"), ("sqrt", "sqrt"), ("classic", "joseph"))):
        if v == 0 and (own or impl[0] != "classic") or v == 1 and ts[0] == 0.0:
            continue
        W = f"car_tracking q={q} var={mv} span={ts} step={step} initrv={own} {impl}"
        ctx.state(W)
        m = 2 * (q + 1)
        A, Q = iwp(q, 2, step)
        with ctx.no_error(W):
            kw = dict(measurement_variance=mv, num_prior_derivatives=q, timespan=ts, step=step, forward_implementation=impl[0], backward_implementation=impl[1])
            if own:
                kw["initrv"] = randvars.Normal(np.arange(float(m)), 0.3 * np.eye(m))
            init = (np.arange(float(m)), 0.3 * np.eye(m)) if own else (np.zeros(m), mv * np.eye(m))
            # the observed components are the first two entries of the state
            series(ctx, W, lambda rng: zf.car_tracking(rng=rng, **kw), np.arange(*ts, step=step), lambda x: x[:2], mv * np.eye(2), lambda t, dt, x: (A @ x, Q), init, m)


def run_ou(item, ctx):
    v = item[1]
    for mv, ds, grid, own in itertools.product((0.1, 0.6), (0.21, 1.0), (None, np.linspace(2.0, 5.0, 11)), (0, 1)):
        if (v % 2) != own:
            continue
        impl = [("classic", "classic"), ("sqrt", "sqrt")][v // 2]
        W = f"ornstein_uhlenbeck var={mv} speed={ds} grid={grid is not None} initrv={own} {impl}"
        ctx.state(W)
        with ctx.no_error(W):
            kw = dict(measurement_variance=mv, driftspeed=ds, forward_implementation=impl[0], backward_implementation=impl[1])
            if grid is not None:
                kw["time_grid"] = grid
            if own:
                kw["initrv"] = randvars.Normal(np.array([-2.0]), np.array([[0.5]]))
            init = (np.array([-2.0]), np.array([[0.5]])) if own else (np.array([10.0]), np.eye(1))
            reg, info = series(ctx, W, lambda rng: zf.ornstein_uhlenbeck(rng=rng, **kw), np.arange(0.0, 20.0, step=0.2) if grid is None else grid, lambda x: x, mv * np.eye(1), None, init, 1)
            got = info["prior_process"].transition.forward_realization(np.array([1.5]), t=0.0, dt=0.3)[0]
            ctx.close(got.mean, np.array([1.5 * np.exp(-ds * 0.3)]), W, rtol=1e-8, msg="decay")


def run_pendulum(item, ctx):
    v = item[1]
    for mv, (ts, step), own, ia in itertools.product((0.1024, 0.3), (((0.0, 4.0), 0.0075), ((1.0, 2.0), 0.1)), (0, 1), (None, 0.25)):
        if v != 2 * (ts[0] == 0.0) and v != own:
            continue
        W = f"pendulum var={mv} span={ts} step={step} initrv={own} initarg={ia}"
        ctx.state(W)
        Q = np.array([[step ** 3 / 3, step ** 2 / 2], [step ** 2 / 2, step]])
        with ctx.no_error(W):
            kw = dict(measurement_variance=mv, timespan=ts, step=step)
            if own:
                kw["initrv"] = randvars.Normal(np.array([0.2, -1.0]), 0.3 * np.eye(2))
            if ia is not None and ts[0] > 0:
                kw["initarg"] = ia
            init = (np.array([0.2, -1.0]), 0.3 * np.eye(2)) if own else (np.ones(2), mv * np.eye(2))
            f = lambda x: np.array([x[0] + x[1] * step, x[1] - 9.81 * np.sin(x[0]) * step])
            reg, info = series(ctx, W, lambda rng: zf.pendulum(rng=rng, **kw), np.arange(*ts, step=step), lambda x: np.array([np.sin(x[0])]), mv * np.eye(1), lambda t, dt, x: (f(x), Q), init, 2, kw.get("initarg"))
            tr, mm = info["prior_process"].transition, reg.measurement_models[0]
            for x in (np.zeros(2), np.array([0.7, -1.0]), np.array([2.5, 0.3])):
                ctx.close(tr.transition_fun_jacobian(0.0, x), jacobian(f, x), W, rtol=1e-6, atol=1e-8, msg="Jacobian of the dynamics")
                ctx.close(mm.transition_fun_jacobian(0.0, x), jacobian(lambda z: np.array([np.sin(z[0])]), x), W, rtol=1e-6, atol=1e-8, msg="Jacobian of the measurement")
                ctx.step()


def run_benes(item, ctx):
    v = item[1]
    for mv, pdf, grid in itertools.product((0.1, 0.4), (1.0, 0.5), (None, np.linspace(1.0, 2.0, 5))):
        own = v == 1
        if v == 2 and grid is None:
            continue
        W = f"benes_daum var={mv} diffusion={pdf} grid={grid is not None} initrv={own}"
        ctx.state(W)
        with ctx.no_error(W):
            kw = dict(measurement_variance=mv, process_diffusion=pdf)
            if grid is not None:
                kw["time_grid"] = grid
            if own:
                kw["initrv"] = randvars.Normal(np.array([0.5]), np.array([[0.2]]))
            init = (np.array([0.5]), np.array([[0.2]])) if own else (np.zeros(1), 3.0 * np.eye(1))
            reg, info = series(ctx, W, lambda rng: zf.benes_daum(rng=rng, **kw), np.arange(0.0, 4.0, step=0.2) if grid is None else grid, lambda x: x, mv * np.eye(1), None, init, 1)
            sde = info["prior_process"].transition
            for x in (np.zeros(1), np.array([0.4]), np.array([-2.0])):
                ctx.close(sde.drift_function(0.0, x), np.tanh(x), W, rtol=1e-12, msg="drift")
                ctx.close(np.ravel(sde.drift_jacobian(0.0, x)), 1 - np.tanh(x) ** 2, W, rtol=1e-12, msg="drift Jacobian")
                ctx.close(np.ravel(sde.dispersion_function(0.0, x)), np.array([pdf]), W, rtol=1e-12, msg="dispersion")
                ctx.step()


def run_logode(item, ctx):
    order = item[1]
    for y0, ts, step, params, ev, ek, ex, own in itertools.product((None, 0.3, np.array([0.2])), ((0.0, 2.0), (1.0, 1.5)), (0.1, 0.25), ((6.0, 1.0), (2.0, 3.0)), (None, 0.01), (0, 1), (True, False), (0, 1)):
        if own and (ev is not None or ex is False):
            continue
        W = f"logistic_ode order={order} y0={y0} span={ts} step={step} params={params} evlvar={ev} ek{ek} exclude={ex} initrv={own}"
        ctx.state(W)
        with ctx.no_error(W):
            kw = dict(y0=y0, timespan=ts, step=step, params=params, ek0_or_ek1=ek, exclude_initial_condition=ex, order=order)
            if ev is not None:
                kw["evlvar"] = ev * np.eye(1)
            if own:
                kw["initrv"] = randvars.Normal(np.arange(order + 1.0), 2.0 * np.eye(order + 1))
            reg, info = zf.logistic_ode(**kw)
            Y0 = 0.1 if y0 is None else float(np.ravel(y0)[0])
            ivp, pr = info["ivp"], info["prior_process"]
            grid = np.arange(*ts, step=step)
            ctx.check(ivp.t0 == ts[0] and ivp.tmax == ts[1] and float(np.ravel(ivp.y0)[0]) == Y0, W, "initial value problem")
            ctx.close(ivp.f(0.0, np.array([0.4])), np.array([params[0] * 0.4 * (1 - 0.4 / params[1])]), W, rtol=1e-12, msg="vector field")
            want = (np.arange(order + 1.0), 2.0 * np.eye(order + 1)) if own else (np.append(Y0, np.zeros(order)), np.diag(np.append(0.0, np.ones(order))))
            ctx.close(pr.initrv.mean, want[0], W, rtol=1e-14, msg="initial mean")
            ctx.close(pr.initrv.cov, want[1], W, rtol=1e-14, msg="initial covariance")
            ctx.check(pr.initarg == ts[0], W, "initial argument")
            A, Q = iwp(order, 1, step)
            got = pr.transition.forward_rv(pr.initrv, t=ts[0], dt=step)[0]
            ctx.close(got.mean, A @ want[0], W, rtol=1e-8, atol=1e-10, msg="prior mean")
            ctx.close(got.cov, A @ want[1] @ A.T + Q, W, rtol=1e-8, atol=1e-12, msg="prior covariance")
            n = len(grid) - (1 if False else 0)
            ctx.close(reg.locations, grid, W, rtol=1e-12, msg="locations")
            ctx.check(len(reg) == len(grid), W, "length")
            sol = np.array([params[1] * Y0 * np.exp(params[0] * (t - ts[0])) / (params[1] + Y0 * (np.exp(params[0] * (t - ts[0])) - 1)) for t in reg.locations])
            ctx.close(np.ravel(reg.solution), sol, W, rtol=1e-10, msg="solution")
            ctx.trace()
            ctx.step(7)


# ---------------------------------------------------------------- linear algebra
def run_spd(item, ctx):
    _, d, s = item
    for seed in range(12):
        for spec in (None, 1.0 + np.arange(d), [0.5] * d, np.full(d, 2.0), tuple(10.0 ** -np.arange(d))):
            W = f"random_spd_matrix dim={d} seed={seed + 20 * s} spectrum={spec}"
            ctx.state(d, seed, s, repr(spec))
            with ctx.no_error(W):
                A = zl.random_spd_matrix(np.random.default_rng(seed + 20 * s), d, spectrum=spec)
                B = zl.random_spd_matrix(np.random.default_rng(seed + 20 * s), d, spectrum=spec)
                ctx.check(A.shape == (d, d) and np.array_equal(A, A.T), W, "not symmetric")
                ctx.check(np.array_equal(A, B), W, "not reproducible")
                ev = np.linalg.eigvalsh(A)
                ctx.check(np.all(ev > 0), W, f"eigenvalues {ev}")
                if spec is not None:
                    ctx.close(ev, np.sort(np.asarray(spec, dtype=float)), W, rtol=1e-8, atol=1e-10, msg="spectrum")
                ctx.step()
                ctx.trace()
    for bad in (np.append(np.ones(d - 1), 0.0), -np.ones(d)):
        ctx.raises(lambda: zl.random_spd_matrix(np.random.default_rng(0), d, spectrum=bad), f"spectrum {bad}", ValueError)


def run_sparse(item, ctx):
    d = item[1]
    for dens, lo, hi, fmt, seed in itertools.product((0.0, 0.1, 0.5, 1.0), (0.1, 0.5), (1.0, 0.7), ("csr", "csc", "coo"), range(3)):
        W = f"random_sparse_spd_matrix dim={d} density={dens} entries {lo}-{hi} {fmt} seed {seed}"
        ctx.state(d, dens, lo, hi, fmt, seed)
        with ctx.no_error(W):
            A = zl.random_sparse_spd_matrix(np.random.default_rng(seed), d, density=dens, chol_entry_min=lo, chol_entry_max=hi, format=fmt)
            ctx.check(scipy.sparse.issparse(A) and A.format == fmt and A.shape == (d, d), W, f"format {A.format}")
            M = A.toarray()
            ctx.check(np.allclose(M, M.T, rtol=1e-14, atol=0) and np.linalg.eigvalsh(M)[0] > 0, W, "not symmetric positive definite")
            L = np.linalg.cholesky(M)
            off = L[np.tril_indices(d, -1)]
            off = off[np.abs(off) > 1e-12]
            ctx.check(np.allclose(np.diag(L), 1.0) and np.all((off >= lo - 1e-12) & (off <= hi + 1e-12)), W, "entries of the factor")
            if dens == 0.0:
                ctx.check(len(off) == 0, W, "entries at density zero")
            if dens == 1.0:
                ctx.check(len(off) == d * (d - 1) // 2, W, "missing entries at full density")
            ctx.step()
            ctx.trace()
    for bad in (-0.1, 1.5):
        ctx.raises(lambda: zl.random_sparse_spd_matrix(np.random.default_rng(0), d, density=bad), f"density {bad}", ValueError)


def run_system(item, ctx):
    k = item[1]
    for n, seed, sol in itertools.product((1, 2, 4), range(5), (0, 1, 2)):
        W = f"random_linear_system kind {k} n={n} seed={seed} solution={sol}"
        ctx.state(k, n, seed, sol)
        M = np.array([[np.cos(i * 2 + j) + (3.0 if i == j else 0.0) for j in range(n)] for i in range(n)])
        mats = [M, scipy.sparse.csr_matrix(M), linops.Matrix(M), zl.random_spd_matrix, zl.random_sparse_spd_matrix]
        kw = [{}, {}, {}, {"dim": n}, {"dim": n, "density": 0.5}][k]
        rv = [None, randvars.Normal(np.arange(float(n)), np.eye(n)), randvars.Constant(np.arange(float(n)))][sol]
        with ctx.no_error(W):
            S = zl.random_linear_system(np.random.default_rng(seed), mats[k], solution_rv=rv, **kw)
            T = zl.random_linear_system(np.random.default_rng(seed), mats[k], solution_rv=rv, **kw)
            ctx.check(isinstance(S, problems.LinearSystem) and np.shape(S.solution) == (n,) and np.shape(S.b) == (n,), W, "shapes")
            ctx.close(np.asarray(S.A @ S.solution).ravel(), S.b, W, rtol=1e-12, atol=1e-13, msg="the solution does not solve the system")
            ctx.check(np.array_equal(S.b, T.b) and np.array_equal(S.solution, T.solution), W, "not reproducible")
            if k < 3:
                ctx.check(S.A is mats[k], W, "matrix replaced")
            if sol == 2:
                ctx.close(S.solution, np.arange(float(n)), W, rtol=0, msg="given solution")
            ctx.step()
            ctx.trace()
        ctx.raises(lambda: zl.random_linear_system(np.random.default_rng(seed), mats[k], solution_rv=randvars.Normal(np.zeros(n + 1), np.eye(n + 1)), **kw), f"{W} wrong solution size", ValueError)


def run_classes(item, ctx):
    T = problems.TimeSeriesRegressionProblem
    mm = randprocs.markov.discrete.LTIGaussian(transition_matrix=np.eye(1), noise=randvars.Normal(np.zeros(1), np.eye(1)))
    for nl, no, nm in itertools.product(range(4), range(4), (None, 0, 1, 2, 3)):
        W = f"regression problem {nl} locations {no} observations {nm} models"
        ctx.state(W)
        mk = lambda: T(locations=np.arange(nl), observations=np.arange(no) * 2.0, measurement_models=mm if nm is None else [mm] * nm)
        if nl == no and (nm is None or nm == nl):
            with ctx.no_error(W):
                p = mk()
                ctx.check(len(p) == nl and len(p.measurement_models) == nl, W, "length")
                ctx.check([(t, y) for t, y, _ in [p[i] for i in range(nl)]] == [(i, 2.0 * i) for i in range(nl)], W, "items")
                ctx.check(all(m is mm for _, _, m in [p[i] for i in range(nl)]), W, "models")
        else:
            ctx.raises(mk, W, ValueError)
        ctx.step()
    for y0, d in ((1.0, 1), (np.float64(1.0), 1), (np.ones(1), 1), (np.ones(3), 3)):
        ctx.check(problems.InitialValueProblem(f=lambda t, y: y, t0=0.0, tmax=1.0, y0=y0).dimension == d, f"dimension for {y0!r}", "")
    for d in (1, 2, 3):
        ctx.check(problems.QuadratureProblem(fun=None, measure=LebesgueMeasure(domain=(0, 1), input_dim=d), solution=None).input_dim == d, f"input dimension {d}", "")
    ctx.trace()
