"""C14: linearised (extended, unscented, iterated) filtering; stopping criterion; merging of regression problems."""
import itertools
import numpy as np
from probnum import filtsmooth, problems, randvars
from probnum.filtsmooth import gaussian, optim
from probnum.filtsmooth.gaussian import approx
from probnum.randprocs import markov
from probnum.randprocs.markov import continuous as cont, discrete as disc
from mc import rvlib as rl
from mc.gmlib import GM, memo
from props import c10

RULE = ("every linearisation x implementation x dimension x linearisation point x pass: exact for affine models, the documented linearisation for non-linear ones; Kalman filters, "
        "iterated components, iterated smoothers and Gauss-Newton on every data pattern: exact on affine models, a stationary point of the negative log-posterior on non-linear ones; "
        "every sequence of converged/not converged errors fed to the stopping criterion; every interleaving of two regression problems")
ASSUMPTIONS = ["state dimension <= 3, at most 4 locations; first location = initial argument for iterated smoothing", "unscented transforms are compared up to their regularisation (1e-12)"]


def affine(o, i):
    """affine model written as a non-linear one, with time-dependent parts"""
    A = lambda t: c10.tmat(o, i, t)
    b = lambda t: np.linspace(-1, 1, o) * (1 + t)
    m = lambda t: np.arange(1.0, o + 1) * t
    Q = lambda t: (1 + t) * rl.spd(o, 1)
    model = lambda: disc.NonlinearGaussian(input_dim=i, output_dim=o, transition_fun=lambda t, x: A(t) @ x + b(t), transition_fun_jacobian=lambda t, x: A(t),
                                           noise_fun=lambda t: randvars.Normal(m(t), Q(t)))
    return model, lambda t, dt: (A(t), b(t) + m(t), Q(t))


def nonlinear(o, i):
    A = c10.tmat(o, i, 0.7)
    f = lambda t, x: np.sin(A @ x + t) + 0.1 * (A @ x) ** 2
    J = lambda t, x: (np.cos(A @ x + t) + 0.2 * (A @ x))[:, None] * A
    m = lambda t: np.arange(1.0, o + 1) * t * 0.1
    Q = lambda t: (1 + t) * 0.3 * rl.spd(o, 1)
    model = lambda: disc.NonlinearGaussian(input_dim=i, output_dim=o, transition_fun=f, transition_fun_jacobian=J, noise_fun=lambda t: randvars.Normal(m(t), Q(t)))
    return model, f, J, m, Q


def comp(kind, model, fw, bw):
    cls = {"ekf": approx.DiscreteEKFComponent, "ukf": approx.DiscreteUKFComponent}[kind]
    return cls(model, forward_implementation=fw, backward_implementation=bw)


def items(tier):
    out = []
    dims = [(1, 1), (2, 2), (1, 2), (2, 1), (3, 2), (1, 3)]
    for kind in ("ekf", "ukf"):
        for fw, bw in itertools.product(c10.FW, c10.BW):
            out += [["pass", kind, fw, bw, o, i] for o, i in dims]
            out += [["kalman", kind, fw, bw, n] for n in (1, 2, 3)]
        out += [["iter", kind, n, r] for n in (1, 2) for r in (1, 2, 3)]
    out += [["cont", n] for n in ("2u", "1u", "nl")]
    out += [["units", kind, fw, bw] for kind in ("ekf", "ukf") for fw, bw in itertools.product(c10.FW, c10.BW)]
    out += [["stop", tier], ["merge", tier], ["zoo"]]
    return out


def run(item, ctx):
    return globals()["run_" + item[0]](item, ctx)


def cubature(rv, f, t):
    """statistical linear regression with the spherical cubature rule"""
    n = len(rv.mean)
    L = np.linalg.cholesky(rv.cov)
    pts = [rv.mean + s * np.sqrt(n) * L[:, k] for s in (1, -1) for k in range(n)]
    Y = np.array([f(t, x) for x in pts])
    X = np.array(pts)
    ym = Y.mean(0)
    Cxy = (X - rv.mean).T @ (Y - ym) / len(pts)
    Cyy = (Y - ym).T @ (Y - ym) / len(pts)
    A = np.linalg.solve(rv.cov, Cxy).T
    return A, ym - A @ rv.mean, Cyy - A @ Cxy


def check_passes(ctx, T, A, b, Q, rv, m, P, at, t, w, tol):
    """all passes against the affine-Gaussian formulas"""
    o, i = A.shape
    S = A @ P @ A.T + Q
    G = np.linalg.solve(S, A @ P).T
    kw = {} if at is None else {"_linearise_at": at}
    with ctx.no_error(w):
        f, info = T.forward_rv(rv, t=t, compute_gain=True, **kw)
        ctx.close(f.mean, A @ m + b, w + " forward mean", **tol)
        ctx.close(f.cov, S, w + " forward covariance", **tol)
        ctx.close(info["crosscov"], P @ A.T, w + " cross-covariance", **tol)
        ctx.close(info["gain"], G, w + " gain", **tol)
        y = np.sin(np.arange(1.0, o + 1)) * 2
        g, _ = T.backward_realization(y, rv, t=t, **kw)
        ctx.close(g.mean, m + G @ (y - A @ m - b), w + " backward_realization mean", **tol)
        ctx.close(g.cov, P - G @ S @ G.T, w + " backward_realization covariance", **tol)
        Co = 0.5 * rl.spd(o, 4)
        ro = randvars.Normal(y, Co)
        for hint in (0, 1):
            h = {} if not hint else dict(rv_forwarded=f, gain=info["gain"])
            g, _ = T.backward_rv(ro, rv, t=t, **h, **kw)
            ctx.close(g.mean, m + G @ (y - A @ m - b), w + f" backward_rv mean hint={hint}", **tol)
            ctx.close(g.cov, P + G @ (Co - S) @ G.T, w + f" backward_rv covariance hint={hint}", **tol)
        ctx.step(4)
        ctx.state(w)
        ctx.outcome(w, f.mean.round(6).tobytes())


def run_pass(item, ctx):
    _, kind, fw, bw, o, i = item
    tol = dict(rtol=1e-6, atol=1e-6)
    for what in ("affine", "nonlinear"):
        for t in (0.0, 0.8):
            for s in (3, 5):
                rv, m, P = c10.mkrv("plain" if s == 3 else "chol", i, s)
                other, _, _ = c10.mkrv("plain", i, 8)
                for at in (None, other):
                    w = f"{kind} {fw}/{bw} {what} {i}->{o} t={t} rv={s} linearised at {'the variable' if at is None else 'another variable'}"
                    if what == "affine":
                        model, exact = affine(o, i)
                        A, b, Q = exact(t, 0)
                    else:
                        model, f, J, nm, nQ = nonlinear(o, i)
                        x = at or rv
                        if kind == "ekf":
                            A = J(t, x.mean)
                            b, Q = f(t, x.mean) - A @ x.mean + nm(t), nQ(t)
                        else:
                            A, b, Q = cubature(x, f, t)
                            b, Q = b + nm(t), Q + nQ(t)
                    T = comp(kind, model(), fw, bw)
                    check_passes(ctx, T, A, b, Q, rv, m, P, at, t, w, tol)
                    ctx.check(T.input_dim == i and T.output_dim == o, w, "dimensions")
                    with ctx.no_error(w + " forward_realization"):
                        z = np.cos(np.arange(1.0, i + 1))
                        r, _ = T.forward_realization(z, t=t)
                        want = (affine(o, i)[1](t, 0)[0] @ z + affine(o, i)[1](t, 0)[1], affine(o, i)[1](t, 0)[2]) if what == "affine" else (f(t, z) + nm(t), nQ(t))
                        ctx.close(r.mean, want[0], w + " forward_realization mean", **tol)
                        ctx.close(r.cov, want[1], w + " forward_realization covariance", **tol)
                        if kind == "ukf":
                            ctx.check(T.dimension == i, w, "dimension of the state space")
    ctx.trace()
    ctx.sample(w)


def run_units(item, ctx):
    """the same non-linear model in other units of state and output: every pass is the rescaled one"""
    _, kind, fw, bw = item
    for (o, i), t in itertools.product([(1, 1), (2, 2), (1, 2), (3, 2)], (0.0, 0.8)):
        _, f, J, nm, nQ = nonlinear(o, i)
        rv, m, P = c10.mkrv("plain", i, 3)
        at, _, _ = c10.mkrv("plain", i, 8)
        data = np.linspace(0.3, 1.1, o)

        def passes(u):
            model = disc.NonlinearGaussian(input_dim=i, output_dim=o, transition_fun=lambda t, x: u * f(t, x / u), transition_fun_jacobian=lambda t, x: J(t, x / u),
                                           noise_fun=lambda t: randvars.Normal(u * nm(t), u**2 * nQ(t)))
            T = comp(kind, model, fw, bw)
            r, a = randvars.Normal(u * m, u**2 * P), randvars.Normal(u * np.asarray(at.mean), u**2 * np.asarray(at.cov))
            out = {}
            for nm_, lin in (("own", None), ("other", a)):
                g = T.forward_rv(r, t=t, _linearise_at=lin)[0]
                ob = randvars.Normal(g.mean + u * 0.2, 0.5 * g.cov)
                out["forward " + nm_] = g
                out["backward_rv " + nm_] = T.backward_rv(ob, r, t=t, _linearise_at=lin)[0]
                out["backward_realization " + nm_] = T.backward_realization(u * data, r, t=t, _linearise_at=lin)[0]
            return {k: (np.asarray(v.mean) / u, np.asarray(v.cov) / u**2) for k, v in out.items()}

        w0 = f"{kind} {fw}/{bw} {i}->{o} t={t}"
        with ctx.no_error(w0):
            ref = passes(1.0)
            for u in (2.0**-8, 2.0**8, 2.0**20):
                for k, (a, b) in passes(u).items():
                    ctx.close(a, ref[k][0], f"{w0} unit {u} {k} mean", rtol=1e-5, atol=1e-5)
                    ctx.close(b, ref[k][1], f"{w0} unit {u} {k} covariance", rtol=1e-5, atol=1e-5)
                    ctx.step()
                    ctx.state(w0, u, k)
                    ctx.outcome(w0, u, k)
                ctx.trace()
    ctx.sample(w0)


def run_kalman(item, ctx):
    """Kalman filtering with linearised affine measurement models and dynamics = batch conditioning; linearising anywhere changes nothing"""
    _, kind, fw, bw, n = item
    tol = dict(rtol=1e-5, atol=1e-5)
    rv, m, P = c10.mkrv("plain", n, 3)
    for dyn in ("lin", "approx"):
        amod, aexact = affine(n, n)
        if dyn == "lin":
            mk, exact, _, _ = c10._lg(n, n, fw, bw)
        else:
            mk, exact = (lambda: comp(kind, amod(), fw, bw)), aexact
        for r in (1, 2, 3):
            ts = [0.0, 0.5, 1.0][:r]
            for os_ in itertools.product((1, 2), repeat=r):
                models = [affine(o, n) for o in os_]
                ys = [np.sin(np.arange(1.0, o + 1) + k) for k, o in enumerate(os_)]
                obs = [(t, *mo[1](t, 0), y) for t, mo, y in zip(ts, models, ys)]
                G = GM(memo(exact), m, P, 0.0)
                want = [G.posterior(obs, [t]) for t in ts]
                fwant = [G.posterior(obs[: k + 1], [t]) for k, t in enumerate(ts)]
                w = f"{kind} {fw}/{bw} n={n} dynamics={dyn} outputs={os_}"
                mm = [comp(kind, mo[0](), fw, bw) for mo in models]
                it = [optim.IteratedDiscreteComponent(c) for c in mm]

                def cmp(post, what):
                    for k in range(r):
                        ctx.close(post[k].mean, want[k][0], f"{w} {what} mean {k}", **tol)
                        ctx.close(post[k].cov, want[k][1], f"{w} {what} covariance {k}", **tol)
                        ctx.close(post.filtering_posterior[k].mean, fwant[k][0], f"{w} {what} filtering mean {k}", **tol)
                        ctx.close(post.filtering_posterior[k].cov, fwant[k][1], f"{w} {what} filtering covariance {k}", **tol)
                    ctx.step(r)

                with ctx.no_error(w):
                    kf = gaussian.Kalman(markov.MarkovSequence(transition=mk(), initrv=rv, initarg=0.0))
                    P1 = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=ys, measurement_models=mm)
                    P2 = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=ys, measurement_models=it)
                    p1 = kf.filtsmooth(P1)[0]
                    cmp(p1, "filtsmooth")
                    cmp(kf.filtsmooth(P2)[0], "iterated components")
                    cmp(kf.filtsmooth(P1, _previous_posterior=p1)[0], "linearised at the posterior")
                    cmp(kf.iterated_filtsmooth(P1)[0], "iterated smoother")
                    cmp(kf.iterated_filtsmooth(P1, init_posterior=p1)[0], "iterated smoother with initial posterior")
                    cmp(optim.GaussNewton(kf).solve(P1, p1)[0], "Gauss-Newton")
                    ctx.trace()
                    ctx.state(w)
                    ctx.outcome(w, want[0][0].round(5).tobytes())
    ctx.sample(w)


def run_iter(item, ctx):
    """fixed points on non-linear problems are stationary points of the negative log-posterior (extended), and independent of the start"""
    _, kind, n, r = item
    rv, m, P = c10.mkrv("plain", n, 3)
    m, P = 0.3 * m, 0.2 * P
    rv = randvars.Normal(m, P)
    crit = lambda: optim.FiltSmoothStoppingCriterion(atol=1e-9, rtol=1e-9, maxit=300)
    ts = [0.0, 0.5, 1.0][:r]
    for o, dyn in itertools.product((1, 2), ("lin", "nl")):
        f0, J0 = (lambda t, x: 0.3 * np.sin(c10.tmat(n, n, 0.3) @ x + t)), (lambda t, x: 0.3 * np.cos(c10.tmat(n, n, 0.3) @ x + t)[:, None] * c10.tmat(n, n, 0.3))
        h, dh = (lambda t, x: np.sin(c10.tmat(o, n, t) @ x) + t), (lambda t, x: np.cos(c10.tmat(o, n, t) @ x)[:, None] * c10.tmat(o, n, t))
        R = 0.8 * rl.spd(o, 1)
        if dyn == "lin":
            A, Q = c10.tmat(n, n, 2.0) * 0.4, 0.5 * rl.spd(n, 2)
            f, J = (lambda t, x: A @ x), (lambda t, x: A)
            T = disc.LTIGaussian(transition_matrix=A, noise=randvars.Normal(np.zeros(n), Q))
        else:
            Q = 0.5 * rl.spd(n, 2)
            f, J = f0, J0
            T = comp(kind, disc.NonlinearGaussian(input_dim=n, output_dim=n, transition_fun=f, transition_fun_jacobian=J, noise_fun=lambda t: randvars.Normal(np.zeros(n), Q)), "classic", "classic")
        nl = disc.NonlinearGaussian(input_dim=n, output_dim=o, transition_fun=h, transition_fun_jacobian=dh, noise_fun=lambda t: randvars.Normal(np.zeros(o), R))
        mm = comp(kind, nl, "classic", "classic")
        ys = [np.sin(np.arange(1.0, o + 1) + k) * 0.5 + ts[k] for k in range(r)]
        prob = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=ys, measurement_models=mm)
        w = f"{kind} n={n} o={o} steps={r} dynamics={dyn}"

        def grad(X):
            g = np.zeros_like(X)
            g[0] += np.linalg.solve(P, X[0] - m)
            for k in range(r):
                g[k] -= dh(ts[k], X[k]).T @ np.linalg.solve(R, ys[k] - h(ts[k], X[k]))
                if k:
                    e = np.linalg.solve(Q, X[k] - f(ts[k - 1], X[k - 1]))
                    g[k] += e
                    g[k - 1] -= J(ts[k - 1], X[k - 1]).T @ e
            return g

        with ctx.no_error(w):
            kf = gaussian.Kalman(markov.MarkovSequence(transition=T, initrv=rv, initarg=0.0))
            a, _ = kf.iterated_filtsmooth(prob, stopcrit=crit())
            p1 = kf.filtsmooth(prob)[0]
            b, _ = optim.GaussNewton(kf, crit()).solve(prob, p1)
            # an arbitrary starting posterior: another data set
            far = kf.filtsmooth(problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=[y + 0.7 for y in ys], measurement_models=mm))[0]
            c, _ = optim.GaussNewton(kf, crit()).solve(prob, far)
            ctx.close(b.states.mean, a.states.mean, w + " Gauss-Newton and iterated smoother differ", rtol=1e-5, atol=1e-6)
            ctx.close(c.states.mean, a.states.mean, w + " fixed point depends on the start", rtol=1e-5, atol=1e-6)
            ctx.close(c.states.cov, a.states.cov, w + " covariances at the fixed point depend on the start", rtol=1e-5, atol=1e-6)
            nxt = kf.filtsmooth(prob, _previous_posterior=a)[0]
            ctx.close(nxt.states.mean, a.states.mean, w + " the result is not a fixed point", rtol=1e-6, atol=1e-7)
            if kind == "ekf":
                ctx.close(grad(np.array(a.states.mean)), np.zeros((r, n)), w + " gradient of the negative log-posterior", atol=1e-6)
                # posterior covariance = inverse Gauss-Newton Hessian
                Hs = np.zeros((r * n, r * n))
                X = np.array(a.states.mean)
                Hs[:n, :n] += np.linalg.inv(P)
                for k in range(r):
                    s = slice(k * n, k * n + n)
                    D = dh(ts[k], X[k])
                    Hs[s, s] += D.T @ np.linalg.solve(R, D)
                    if k:
                        q = slice(k * n - n, k * n)
                        B = np.hstack([-J(ts[k - 1], X[k - 1]), np.eye(n)])
                        u = slice(k * n - n, k * n + n)
                        Hs[u, u] += B.T @ np.linalg.solve(Q, B)
                C = np.linalg.inv(Hs)
                for k in range(r):
                    ctx.close(a[k].cov, C[k * n: k * n + n, k * n: k * n + n], w + f" covariance at the mode {k}", rtol=1e-4, atol=1e-6)
            # iterated update of a single measurement
            it = optim.IteratedDiscreteComponent(mm, crit())
            u, _ = it.backward_realization(ys[0], rv, t=0.0)
            if kind == "ekf":
                ctx.close(np.linalg.solve(P, u.mean - m) - dh(0.0, u.mean).T @ np.linalg.solve(R, ys[0] - h(0.0, u.mean)), np.zeros(n), w + " iterated update is not stationary", atol=1e-6)
            again, _ = mm.backward_realization(ys[0], rv, t=0.0, _linearise_at=u)
            ctx.close(again.mean, u.mean, w + " iterated update is not a fixed point", rtol=1e-6, atol=1e-7)
            ctx.close(again.cov, u.cov, w + " iterated update covariance", rtol=1e-6, atol=1e-7)
            ff, _ = it.forward_rv(rv, t=0.4)
            ctx.close(ff.mean, mm.forward_rv(rv, t=0.4)[0].mean, w + " forward pass of the iterated component")
            ctx.close(it.forward_realization(m, t=0.4)[0].mean, h(0.4, m), w + " forward realization of the iterated component", rtol=1e-6, atol=1e-7)
            ctx.check(it.input_dim == n and it.output_dim == o and it.linearize(0.0, rv).input_dim == n, w, "delegation of attributes")
            # a budget that is too small is reported
            tight = optim.FiltSmoothStoppingCriterion(atol=1e-300, rtol=0.0, maxit=3)
            ctx.raises(lambda: kf.iterated_filtsmooth(prob, stopcrit=tight), w + " exhausted iterations", RuntimeError)
            ctx.step(6)
            ctx.trace()
            ctx.state(w)
            ctx.outcome(w, np.array(a.states.mean).round(5).tobytes())
    ctx.sample(w)


def run_cont(item, ctx):
    _, n = item
    if n != "nl":
        F, L, u = c10.sdes()[n]
        d = len(F)
        sde = cont.SDE(state_dimension=d, wiener_process_dimension=L.shape[1], drift_function=lambda t, x: F @ x + u, dispersion_function=lambda t, x: L, drift_jacobian=lambda t, x: F)
    else:
        d = 2
        sde = cont.SDE(state_dimension=2, wiener_process_dimension=1, drift_function=lambda t, x: np.array([x[1], -np.sin(x[0]) + 0.1 * t]), dispersion_function=lambda t, x: np.array([[0.1], [1.0 + 0.2 * x[0]]]),
                       drift_jacobian=lambda t, x: np.array([[0.0, 1.0], [-np.cos(x[0]), 0.0]]))
    for fw in c10.FW:
        for t, dt, s in itertools.product((0.0, 0.7), (0.1, 0.9), (3, 5)):
            rv, m, P = c10.mkrv("plain", d, s)
            other, _, _ = c10.mkrv("plain", d, 8)
            for at in (None, other):
                w = f"continuous EKF {n} {fw} t={t} dt={dt} rv={s} at={'self' if at is None else 'other'}"
                if n != "nl":
                    A, b, Q = c10.lti_exact(F, L, u, dt)
                else:
                    x0 = (at or rv).mean
                    A, b, Q = c10.tv_exact(lambda r: np.array([[0.0, 1.0], [-np.cos(x0[0]), 0.0]]),
                                           lambda r: np.array([x0[1], -np.sin(x0[0]) + 0.1 * r]) - np.array([[0.0, 1.0], [-np.cos(x0[0]), 0.0]]) @ x0,
                                           lambda r: np.array([[0.1], [1.0 + 0.2 * x0[0]]]), t, dt)
                T = approx.ContinuousEKFComponent(sde, mde_atol=1e-9, mde_rtol=1e-9, forward_implementation=fw)
                tol = dict(rtol=1e-5, atol=1e-6)
                with ctx.no_error(w):
                    f, _ = T.forward_rv(rv, t=t, dt=dt, _linearise_at=at)
                    ctx.close(f.mean, A @ m + b, w + " forward mean", **tol)
                    ctx.close(f.cov, A @ P @ A.T + Q, w + " forward covariance", **tol)
                    y, Co = np.sin(np.arange(1.0, d + 1)), 0.5 * rl.spd(d, 4)
                    S = A @ P @ A.T + Q
                    G = np.linalg.solve(S, A @ P).T
                    g, _ = T.backward_rv(randvars.Normal(y, Co), rv, t=t, dt=dt, _linearise_at=at)
                    ctx.close(g.mean, m + G @ (y - A @ m - b), w + " backward mean", **tol)
                    ctx.close(g.cov, P + G @ (Co - S) @ G.T, w + " backward covariance", **tol)
                    z = np.cos(np.arange(1.0, d + 1))
                    if n != "nl" and fw == "classic":  # the square-root moment equations need a regular initial covariance
                        r, _ = T.forward_realization(z, t=t, dt=dt, _linearise_at=at)
                        ctx.close(r.mean, A @ z + b, w + " realization mean", **tol)
                        ctx.close(r.cov, Q, w + " realization covariance", **tol)
                    ctx.step(3)
                    ctx.state(w)
                    ctx.trace()
                    ctx.outcome(w, f.mean.round(5).tobytes())
    ctx.sample(w)


def run_stop(item, ctx):
    """the criterion as a state machine: converged calls reset the counter, more than maxit+1 unconverged ones in a row are refused"""
    _, tier = item
    for atol, rtol in ((1e-3, 1e-6), (1e-2, 0.5), (0.0, 0.1)):
        for ref in ([1.0], [-1.0], [2.0, -3.0], [-0.002, 5.0], [[1.0, -2.0], [3.0, -4.0]]):
            for e in (0.0, 0.5, 0.99, 1.01, 2.0, np.inf):
                R = np.array(ref)
                E = e * (atol + rtol * np.abs(R)) * np.where(np.arange(R.size).reshape(R.shape) % 2, -1, 1)
                c = optim.FiltSmoothStoppingCriterion(atol=atol, rtol=rtol)
                w = f"atol={atol} rtol={rtol} reference={ref} relative error {e}"
                with ctx.no_error(w):
                    ctx.close(c.evaluate_error(error=E, reference=R), e, w + " magnitude", rtol=1e-9)
                    ctx.check(bool(c(error=E, reference=R)) == (e <= 1), w, "verdict")
                ctx.state(w)
                ctx.outcome(atol, rtol, str(ref), e)
    for maxit in (0, 1, 2, 3):
        for h in itertools.product((0, 1), repeat=6 if tier == "quick" else 8):
            c = optim.FiltSmoothStoppingCriterion(atol=1.0, rtol=0.0, maxit=maxit)
            bad = 0
            w = f"maxit={maxit} history {h}"
            for conv in h:
                E, R = np.array([0.5 if conv else 5.0]), np.array([1.0])
                if bad > maxit:
                    ctx.raises(lambda: c(error=E, reference=R), w, RuntimeError)
                    break
                with ctx.no_error(w):
                    ctx.check(bool(c(error=E, reference=R)) == bool(conv), w, "verdict")
                bad = 0 if conv else bad + 1
                ctx.step()
                ctx.check(c.iterations == bad, w, f"iterations {c.iterations}, expected {bad}")
            ctx.state("hist", maxit, h)
            ctx.trace()
    ctx.sample("stopping criterion")


def run_merge(item, ctx):
    """all ways of splitting up to 5 locations over two problems, in any order inside each problem, with repetitions"""
    _, tier = item
    class M(disc.LTIGaussian):
        pass
    mods = [disc.LTIGaussian(transition_matrix=np.eye(1) * (k + 1), noise=randvars.Normal(np.zeros(1), np.eye(1))) for k in range(6)]
    for n1, n2 in itertools.product((1, 2, 3), (1, 2) if tier == "quick" else (1, 2, 3)):
        N = n1 + n2
        for locs in itertools.product(range(3 if N > 3 else 4), repeat=N):
            l1, l2 = [float(x) for x in locs[:n1]], [float(x) for x in locs[n1:]]
            for dim in ((), (2,)):
                for form in (list, np.array):
                    for sols in ((0, 0), (1, 1), (1, 0)):
                        if N > 3 and (form is list) != bool(dim):
                            continue
                        y = [np.full(dim, float(k + 1)) if dim else float(k + 1) for k in range(N)]
                        s = [-v for v in y] if dim else [-v for v in y]
                        w = f"locations {l1} and {l2} observation shape {dim} as {form.__name__} solutions {sols}"
                        mk = lambda a, b, ll, sol: problems.TimeSeriesRegressionProblem(locations=form(ll), observations=form(y[a:b]), measurement_models=mods[a:b], solution=form(s[a:b]) if sol else None)
                        p1, p2 = mk(0, n1, l1, sols[0]), mk(n1, N, l2, sols[1])
                        run_ = lambda: filtsmooth.utils.merge_regression_problems(p1, p2)
                        ctx.step()
                        ctx.state(w)
                        if set(l1) & set(l2):
                            ctx.raises(run_, w + " shared locations", ValueError)
                            continue
                        with ctx.no_error(w):
                            r = run_()
                            ctx.check(list(r.locations) == sorted(l1 + l2) and len(r) == N, w, f"locations {r.locations}")
                            got = sorted((float(t), float(np.max(d)), mods.index(mm)) for t, d, mm in zip(r.locations, r.observations, r.measurement_models))
                            want = sorted((t, float(k + 1), k) for k, t in enumerate(l1 + l2))
                            ctx.check(got == want, w, f"data lost or moved: {got}")
                            ctx.check((r.solution is not None) == (sols == (1, 1)), w, "solution")
                            if r.solution is not None:
                                ctx.check(np.array_equal(np.asarray(r.solution), -np.asarray(r.observations)), w, "solution does not follow its location")
                            ctx.outcome(w, str(got))
        ctx.trace()
    a = problems.TimeSeriesRegressionProblem(locations=np.array([0.0]), observations=np.ones((1, 2)), measurement_models=mods[0])
    b = problems.TimeSeriesRegressionProblem(locations=np.array([1.0]), observations=np.ones((1, 3)), measurement_models=mods[0])
    ctx.raises(lambda: filtsmooth.utils.merge_regression_problems(a, b), "observations of different dimension", ValueError)
    ctx.sample("merge")


def run_zoo(item, ctx):
    """the affine problems wrapped as non-linear ones inside continuous-time filtering"""
    for nu, fw in itertools.product((1, 2), c10.FW):
        mk, exact, n, _ = c10._integ("iwp", nu, 1, fw, "classic")
        for kind in ("ekf", "ukf"):
            rv, m, P = c10.mkrv("plain", n, 3)
            for sub in [s for r in (1, 2, 3) for s in itertools.combinations(range(4), r)]:
                ts = [(0.0, 0.3, 1.0, 1.2)[j] for j in sub]
                mo = affine(1, n)
                ys = [np.array([np.sin(k + 1.0)]) for k in range(len(ts))]
                obs = [(t, *mo[1](t, 0), y) for t, y in zip(ts, ys)]
                G = GM(memo(exact), m, P, 0.0)
                w = f"{kind} iwp{nu} {fw} locations={ts}"
                prob = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=ys, measurement_models=comp(kind, mo[0](), fw, "classic"))
                with ctx.no_error(w):
                    post = gaussian.Kalman(markov.MarkovProcess(transition=mk(), initrv=rv, initarg=0.0)).filtsmooth(prob)[0]
                    for k, t in enumerate(ts):
                        mm, CC = G.posterior(obs, [t])
                        ctx.close(post[k].mean, mm, w + " mean", rtol=1e-5, atol=1e-5)
                        ctx.close(post[k].cov, CC, w + " cov", rtol=1e-5, atol=1e-5)
                    ctx.state(w)
                    ctx.trace()
    ctx.sample(w)
