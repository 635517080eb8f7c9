"""C17: ODE filters compute the Gaussian posterior their linearisation and calibration prescribe; dense output, samples, initialisation, information operators."""
import itertools
import warnings
import numpy as np
from probnum import diffeq, filtsmooth, problems, randprocs, randvars
from probnum.diffeq import callbacks as cbm, odefilter, stepsize
from probnum.diffeq.odefilter import approx_strategies as aps, information_operators as iop, init_routines as ini, utils as ou
from probnum.randprocs import markov
from probnum.randprocs.markov import continuous as cont
from mc import rvlib as rl
from mc.gmlib import GM, memo
from props import c10

RULE = ("every ODE x prior x linearisation x diffusion model x initialisation x step pattern (constant, every subset of stops, adaptive): filtering and smoothing states, "
        "derivatives, error estimates, diffusion estimates, dense output on and off the grid and the joint law of samples equal one batch Gaussian conditioning on the linearised "
        "residuals; initial distributions, information operators and regression problems on the complete grid of points; every option combination of probsolve_ivp")
ASSUMPTIONS = ["ODE dimension <= 2, at most 3 modelled derivatives, at most 6 steps", "samplers affine in their Gaussian draws (confirmed on a mixed script)"]


def odes():
    A = lambda t: np.array([[-0.5, t], [0.3 - t, -0.2 * t]])
    b = lambda t: np.array([np.cos(2 * t), 1.0 + t * t])
    lv = (0.5, 0.05, 0.5, 0.05)
    return {
        "lin1": (lambda t, y: -0.7 * y + 0.3, lambda t, y: np.array([[-0.7]]), [0.8]),
        "tv2": (lambda t, y: A(t) @ y + b(t), lambda t, y: A(t), [1.0, -0.5]),
        "log1": (lambda t, y: 1.5 * y * (1 - y), lambda t, y: np.array([[1.5 * (1 - 2 * y[0])]]), [0.2]),
        "tvnl1": (lambda t, y: -t * y**2 + np.cos(t), lambda t, y: np.array([[-2 * t * y[0]]]), [-0.6]),
        "lv2": (lambda t, y: np.array([0.5 * y[0] - 0.4 * y[0] * y[1], -0.5 * y[1] + 0.3 * y[0] * y[1]]),
                lambda t, y: np.array([[0.5 - 0.4 * y[1], -0.4 * y[0]], [0.3 * y[1], -0.5 + 0.3 * y[0]]]), [2.0, 1.5]),
    }


T0, TM = 0.25, 1.25


def mkivp(n, t0=T0, tmax=TM, **k):
    f, df, y0 = odes()[n]
    return problems.InitialValueProblem(f=f, df=df, t0=t0, tmax=tmax, y0=np.array(y0), **k)


PRIORS = [("iwp", 1), ("iwp", 2), ("iwp", 3), ("ioup", 1), ("ioup", 2), ("matern", 1), ("matern", 2)]
INITS = {"stack": lambda: ini.Stack(scale_cholesky=3.0), "stackjac": lambda: ini.StackWithJacobian(scale_cholesky=3.0), "fit": lambda: ini.NonProbabilisticFit(), "fitjac": lambda: ini.NonProbabilisticFitWithJacobian()}
STEPS = ["const", "stops", "adaptive"]


def items(tier):
    out = []
    for o in odes():
        for k, nu in PRIORS:
            for ek, dm in itertools.product(("EK0", "EK1"), ("const", "piece")):
                for init in INITS:
                    q = (init == "stack" and (k == "iwp" or nu == 1)) or (k == "iwp" and nu == 2) or (init == "stackjac" and nu == 2 and o in ("lv2", "tvnl1"))
                    if tier == "quick" and not q:
                        continue
                    for st in STEPS:
                        if tier == "quick" and st == "adaptive" and init in ("fit", "fitjac", "stackjac") and o != "lv2":
                            continue
                        out.append(["solve", o, k, nu, ek, dm, init, st])
        for ek, dm in itertools.product(("EK0", "EK1"), ("const", "piece")):
            out.append(["sample", o, ek, dm, 1, tier])
            out.append(["event", o, ek, dm])
        out += [["stops", o, ek, dm] for ek, dm in itertools.product(("EK0", "EK1"), ("const", "piece")) if o in ("lin1", "tv2") or tier != "quick"]
        out += [["inits", o], ["info", o], ["regr", o]]
        out += [["api", o, tier]]
    out.append(["guards"])
    return out


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


def prior(k, nu, d, t0=T0):
    mk, exact, n, _ = c10._integ(k, nu, d, "sqrt", "sqrt")
    iv = randvars.Normal(np.zeros(n), 4.0 * np.eye(n), cov_cholesky=2.0 * np.eye(n))
    return markov.MarkovProcess(transition=mk(), initrv=iv, initarg=t0), memo(exact)


def proj(nu, d, c):
    E = np.zeros((d, d * (nu + 1)))
    E[np.arange(d), np.arange(d) * (nu + 1) + c] = 1
    return E


class Ref:
    """reference recursion: linearised residuals and calibration"""

    def __init__(self, o, exact, nu, ek, dm, m0, P0, event=None, t0=T0):
        f, df, y0 = odes()[o]
        self.f, self.df, self.d, self.nu, self.ek, self.dm, self.exact = f, df, len(y0), nu, ek, dm, exact
        self.E0, self.E1 = proj(nu, self.d, 0), proj(nu, self.d, 1)
        self.m, self.P, self.t = np.array(m0), np.array(P0), t0
        self.m0, self.P0, self.t0 = self.m, self.P, t0
        self.obs, self.s, self.ts, self.filt, self.err, self.ref, self.event = [], [], [t0], [(self.m, self.P)], [], [], event

    def step(self, t1):
        A, b, Q = self.exact(self.t, t1 - self.t)
        mp = A @ self.m + b
        y = self.E0 @ mp
        z = self.E1 @ mp - self.f(t1, y)
        H = self.E1 - (self.df(t1, y) @ self.E0 if self.ek == "EK1" else 0)
        S0 = H @ Q @ H.T
        AP = A @ self.P @ A.T
        self.ref.append(np.abs(self.E0 @ self.m))
        if self.dm == "piece":
            s = z @ np.linalg.solve(S0, z) / self.d
            Pp = AP + s * Q
        else:
            Pp = AP + Q
            s = z @ np.linalg.solve(H @ Pp @ H.T, z) / self.d
        self.err.append(np.sqrt(s * np.diag(S0)))
        S = H @ Pp @ H.T
        K = np.linalg.solve(S, H @ Pp).T
        self.obs.append((t1, H, z - H @ mp, np.zeros((self.d, self.d)), np.zeros(self.d)))
        self.s.append(s)
        self.m, self.P, self.t = mp - K @ z, Pp - K @ S @ K.T, t1
        if self.event:
            self.m, self.P = self.event(t1, self.m, self.P)
        self.ts.append(t1)
        self.filt.append((self.m, self.P))

    @property
    def sigma2(self):
        return np.mean(self.s) if self.dm == "const" else 1.0

    def gm(self):
        d = (lambda a, b: 1.0) if self.dm == "const" else (lambda a, b: self.s[min(max(np.searchsorted(self.ts, 0.5 * (a + b), side="right") - 1, 0), len(self.s) - 1)])
        return GM(self.exact, self.m0, self.P0, self.t0, d)

    def post(self, query, smooth=True):
        """joint law of the states at the query times (given all data / given the data up to each single query)"""
        obs = self.obs if smooth else [x for x in self.obs if x[0] <= query[-1] + 1e-12]
        m, C = self.gm().posterior(obs, query)
        return m, self.sigma2 * C


def cclose(ctx, got, want, W, msg, rtol=2e-5):
    """relative to the standard deviations; the batch reference loses digits against the (unit-size) prior, and other priors than the IWP
    carry a damping of 1e-12 in the Cholesky factors of their noise"""
    got, want = np.asarray(got), np.asarray(want)
    sc = np.sqrt(np.abs(np.diag(want)))
    A = rtol * (np.outer(sc, sc) + 1e-3 * np.max(np.abs(want), initial=0.0)) + (2e-12 if "iwp" in W or "ioup" not in W and "matern" not in W else 2e-10)
    ctx.step()
    ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= A)), W, f"{msg}: {got.tolist()} expected {want.tolist()}")


def mclose(ctx, got, want, cov, W, msg):
    """means: relative to their size and to the standard deviation"""
    got, want = np.asarray(got), np.asarray(want)
    tol = 1e-7 * (1 + np.abs(want)) + 1e-5 * np.sqrt(np.abs(np.diag(cov)))
    ctx.step()
    ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)), W, f"{msg}: {got.tolist()} expected {want.tolist()}")


def both(ctx, rv, m, C, W, msg):
    mclose(ctx, rv.mean, m, C, W, msg + " mean")
    cclose(ctx, rv.cov, C, W, msg + " covariance")
    L = np.asarray(rv.cov_cholesky)
    cclose(ctx, L @ L.T, C, W, msg + " Cholesky factor")


def diffusion(dm, t0=T0):
    return cont.ConstantDiffusion() if dm == "const" else cont.PiecewiseConstantDiffusion(t0=t0)


def rule(st):
    return stepsize.AdaptiveSteps(firststep=0.3, atol=2e-2, rtol=2e-2) if st == "adaptive" else stepsize.ConstantSteps(0.25 if st == "const" else 0.5)


def stops(st):
    return None if st == "const" else (0.35, 0.8) if st == "stops" else (0.9,)


def solver(o, k, nu, ek, dm, init, st, sm=True):
    P = mkivp(o)
    pr, exact = prior(k, nu, P.dimension)
    s = odefilter.ODEFilter(steprule=rule(st), prior_process=pr, approx_strategy=getattr(aps, ek)(), with_smoothing=sm, init_routine=INITS[init](), diffusion_model=diffusion(dm))
    return s, P, exact


def reference(o, k, nu, ek, dm, init, exact, locs, **kw):
    P = mkivp(o)
    rv = INITS[init]()(ivp=P, prior_process=prior(k, nu, P.dimension)[0])
    R = Ref(o, exact, nu, ek, dm, rv.mean, rv.cov, **kw)
    for t in locs[1:]:
        R.step(t)
    return R


def run_solve(item, ctx):
    _, o, k, nu, ek, dm, init, st = item
    W = f"{o} {k}{nu} {ek} {dm} {init} {st}"
    S, P, exact = solver(o, k, nu, ek, dm, init, st)
    with ctx.no_error(W):
        sol = S.solve(P, stop_at=stops(st))
        locs = [float(t) for t in sol.locations]
        ctx.trace()
        if len(locs) > 12 or min(np.diff(locs)) < 1e-3:
            ctx.outcome("too many steps for the batch reference")
            return
        R = reference(o, k, nu, ek, dm, init, exact, locs)
        ctx.state(W, len(locs))
        F = sol.filtering_solution
        d = P.dimension
        m, C = R.post(locs)
        n = d * (nu + 1)
        for i, t in enumerate(locs):
            sl = slice(i * n, (i + 1) * n)
            w = f"{W} step {i}"
            ms, Cs = m[sl], C[sl, sl]
            both(ctx, sol.kalman_posterior.states[i], ms, Cs, w, "smoothing state")
            both(ctx, sol.states[i], R.E0 @ ms, R.E0 @ Cs @ R.E0.T, w, "solution state")
            both(ctx, sol[i], R.E0 @ ms, R.E0 @ Cs @ R.E0.T, w, "indexed state")
            both(ctx, sol.derivatives[i], R.E1 @ ms, R.E1 @ Cs @ R.E1.T, w, "derivative")
            mf, Cf = R.filt[i][0], R.sigma2 * R.filt[i][1]
            both(ctx, F.kalman_posterior.states[i], mf, Cf, w, "filtering state")
            both(ctx, F.states[i], R.E0 @ mf, R.E0 @ Cf @ R.E0.T, w, "filtering solution")
        dmod = S.diffusion_model
        if dm == "const":
            ctx.close(dmod.diffusion, R.sigma2, W, rtol=1e-5, msg="diffusion estimate")
        else:
            ctx.close(dmod.diffusions, R.s, W, rtol=1e-5, msg="diffusion estimates")
            for i in range(len(locs) - 1):
                ctx.close(dmod(0.5 * (locs[i] + locs[i + 1])), R.s[i], f"{W} interval {i}", rtol=1e-5, msg="diffusion on the interval")
        qs = sorted({0.5 * (a + b) for a, b in zip(locs, locs[1:])} | {locs[0] + 0.1 * (locs[1] - locs[0]), locs[1], locs[-1] + 0.2})
        m, C = R.post(qs)
        out = sol(np.array(qs))
        for i, q in enumerate(qs):
            sl = slice(i * n, (i + 1) * n)
            w = f"{W} t={q:.4f}"
            ms, Cs = R.E0 @ m[sl], R.E0 @ C[sl, sl] @ R.E0.T
            both(ctx, out[i], ms, Cs, w, "dense output")
            both(ctx, sol(q), ms, Cs, w, "dense output at a number")
            mf, Cf = R.post([q], smooth=False)
            both(ctx, F(q), R.E0 @ mf, R.E0 @ Cf @ R.E0.T, w, "dense output of the filter")
    # error estimates of the accepted steps, on a second run through the generator
    S, P, exact = solver(o, k, nu, ek, dm, init, st, sm=False)
    with ctx.no_error(W + " generator"):
        for i, s in enumerate(S.solution_generator(P, stop_at=stops(st))):
            if i == 0:
                continue
            ctx.close(s.error_estimate, R.err[i - 1], f"{W} step {i}", rtol=2e-5, atol=1e-9, msg="error estimate")
            ctx.close(s.reference_state, R.ref[i - 1], f"{W} step {i}", rtol=1e-5, atol=1e-7, msg="reference state")
            mclose(ctx, s.rv.mean, R.filt[i][0], R.filt[i][1], f"{W} step {i}", "state of the generator")
            cclose(ctx, s.rv.cov, R.filt[i][1], f"{W} step {i}", "covariance of the generator")


def run_stops(item, ctx):
    """every subset of a set of stops gives the posterior on the grid it induces"""
    _, o, ek, dm = item
    pool = [0.4, 0.5, 0.85, 1.0]
    for r in range(len(pool) + 1):
        for c in itertools.combinations(pool, r):
            W = f"{o} {ek} {dm} stops={c}"
            ctx.state(W)
            ctx.trace()
            S, P, exact = solver(o, "iwp", 2, ek, dm, "stack", "stops")
            with ctx.no_error(W):
                sol = S.solve(P, stop_at=c)
                want = [T0]
                for b in list(c) + [TM]:
                    while b - want[-1] > 0.5 + 1e-9:
                        want.append(want[-1] + 0.5)
                    want.append(b)
                locs = [float(t) for t in sol.locations]
                ctx.check(len(locs) == len(want) and np.allclose(locs, want), W, f"locations {locs}, expected {want}")
                R = reference(o, "iwp", 2, ek, dm, "stack", exact, locs)
                m, C = R.post(locs)
                n = len(R.m0)
                for i in range(len(locs)):
                    both(ctx, sol.kalman_posterior.states[i], m[i * n:(i + 1) * n], C[i * n:(i + 1) * n, i * n:(i + 1) * n], f"{W} step {i}", "smoothing state")


def run_sample(item, ctx):
    _, o, ek, dm, sm, tier = item
    S, P, exact = solver(o, "iwp", 1, ek, dm, "stack", "stops", sm=bool(sm))
    W = f"{o} {ek} {dm} smoothing={sm}"
    with ctx.no_error(W):
        sol = S.solve(P, stop_at=stops("stops"))
        ctx.check(isinstance(sol.kalman_posterior, filtsmooth.gaussian.SmoothingPosterior if sm else filtsmooth.gaussian.FilteringPosterior), W, "kind of posterior")
        locs = [float(t) for t in sol.locations]
        R = reference(o, "iwp", 1, ek, dm, "stack", exact, locs)
        d = P.dimension
        pts = [None, [locs[1]], [0.5 * (locs[0] + locs[1])], [0.3, locs[1], 0.6], [locs[0], 0.7, 1.0, locs[-1]], [0.9, locs[-1] + 0.3]]
        for q, size in itertools.product(pts if tier != "quick" or o in ("tv2", "log1") else pts[:4], ((), (1,), (2,))):
            if size != () and q is not None and len(q) != 3:
                continue
            ts = locs if q is None else q
            w = f"{W} sample t={q} size={size}"
            ctx.state(w)
            law = rl.sample_law(lambda rng: sol.sample(rng, t=None if q is None else np.array(q), size=size), ctx, w)
            m, C = R.post(ts)
            E = np.kron(np.eye(len(ts)), R.E0)
            m, C = E @ m, E @ C @ E.T
            k = int(np.prod(size, dtype=int))
            got = np.asarray(law.mean)
            ctx.check(got.shape == tuple(size) + (len(ts), d), w, f"shape {got.shape}")
            mclose(ctx, got.reshape(k, -1).ravel(), np.tile(m, k), np.kron(np.eye(k), C), w, "mean of the samples")
            cclose(ctx, law.cov, np.kron(np.eye(k), C), w, "covariance of the samples", rtol=1e-4)


def run_event(item, ctx):
    """callbacks: the filter continues from the replaced state"""
    _, o, ek, dm = item
    P = mkivp(o)
    n = P.dimension * 3
    for at, kind in itertools.product((0.3, 0.7, 1.0), ("shift", "scale")):
        def ev(t, m, C):
            if t < at:
                return m, C
            return (m + 0.3, C) if kind == "shift" else (m * 0.8, 0.64 * C + 0.01 * np.eye(n))

        def repl(s):
            m, C = ev(s.t, s.rv.mean, s.rv.cov)
            return diffeq.ODESolverState(ivp=s.ivp, t=s.t, rv=randvars.Normal(m, C, cov_cholesky=s.rv.cov_cholesky if kind == "shift" else np.linalg.cholesky(C)), error_estimate=s.error_estimate, reference_state=s.reference_state)
        W = f"{o} {ek} {dm} event {kind} from {at}"
        ctx.state(W)
        ctx.trace()
        S, P, exact = solver(o, "iwp", 2, ek, dm, "stack", "const", sm=False)
        with ctx.no_error(W):
            sol = S.solve(P, callbacks=cbm.DiscreteCallback(replace=repl, condition=lambda s: s.t >= at))
            R = reference(o, "iwp", 2, ek, dm, "stack", exact, [float(t) for t in sol.locations], event=ev)
            for i in range(len(R.ts)):
                both(ctx, sol.kalman_posterior.states[i], R.filt[i][0], R.sigma2 * R.filt[i][1], f"{W} step {i}", "filtering state")


def taylor(o, t0, nu):
    """derivatives of the solution at t0 from a high-accuracy numerical solution (Chebyshev-fit of f along it)"""
    import scipy.integrate
    f, df, y0 = odes()[o]
    h = 0.4
    x = np.cos(np.pi * (np.arange(18) + 0.5) / 18)[::-1]
    s = scipy.integrate.solve_ivp(f, (t0, t0 + h), y0, method="DOP853", rtol=1e-13, atol=1e-14, t_eval=t0 + 0.5 * h * (x + 1))
    out = []
    for j in range(len(y0)):
        c = np.polynomial.chebyshev.chebfit(x, [f(t, y)[j] for t, y in zip(s.t, s.y.T)], 14)
        row = [y0[j]]
        for k in range(nu):
            row.append(np.polynomial.chebyshev.chebval(-1.0, np.polynomial.chebyshev.chebder(c, k)) * (2 / h) ** k)
        out.append(row)
    return np.array(out)


def run_inits(item, ctx):
    o = item[1]
    f, df, y0 = odes()[o]
    d = len(y0)
    for t0, nu, sc in itertools.product((0.0, 0.25, 2.0), (1, 2, 3), (1e3, 3.0)):
        P = mkivp(o, t0=t0, tmax=t0 + 1)
        pr, _ = prior("iwp", nu, d, t0)
        fy = f(t0, np.array(y0))
        for kind in ("stack", "stackjac"):
            W = f"{o} t0={t0} nu={nu} {kind} scale={sc}"
            ctx.state(W)
            rows = [np.array(y0), fy] + ([df(t0, np.array(y0)) @ fy] if kind == "stackjac" else [])
            rows = rows[: nu + 1]
            k = len(rows)
            M = np.stack(rows + [np.zeros(d)] * (nu + 1 - k))
            V = np.stack([np.zeros(d)] * k + [sc * np.ones(d)] * (nu + 1 - k))
            with ctx.no_error(W):
                rv = (ini.Stack if kind == "stack" else ini.StackWithJacobian)(scale_cholesky=sc)(ivp=P, prior_process=pr)
                ctx.close(rv.mean, M.T.ravel(), W, rtol=1e-10, atol=1e-12, msg="initial mean")
                ctx.close(rv.cov, np.diag(V.T.ravel() ** 2), W, rtol=1e-10, atol=1e-12, msg="initial covariance")
                ctx.close(rv.cov_cholesky @ rv.cov_cholesky.T, np.diag(V.T.ravel() ** 2), W, rtol=1e-10, atol=1e-12, msg="initial factor")
                ctx.step(3)
    for t0, nu, kind in itertools.product((0.25, 2.0), (1, 2, 3), ("fit", "fitjac")):
        P = mkivp(o, t0=t0, tmax=t0 + 1)
        pr, _ = prior("iwp", nu, d, t0)
        W = f"{o} t0={t0} nu={nu} {kind}"
        ctx.state(W)
        tr = taylor(o, t0, nu + 1)
        with ctx.no_error(W):
            rv = INITS[kind]()(ivp=P, prior_process=pr)
            m = np.asarray(rv.mean).reshape(d, nu + 1)
            ctx.close(m[:, 0], tr[:, 0], W, rtol=1e-5, atol=1e-6, msg="initial value")
            # fitted derivatives lose one order of accuracy each
            for k in range(1, nu + 1):
                ctx.close(m[:, k], tr[:, k], W, rtol=0, atol=0.05 * (1 + np.max(np.abs(tr[:, k:]))), msg=f"derivative {k}")
            ev = np.linalg.eigvalsh(np.asarray(rv.cov))
            ctx.check(ev.min() > -1e-9 * max(1, ev.max()), W, "initial covariance not positive semi-definite")
            ctx.check(rv.cov[0, 0] < 1e-10, W, "initial value uncertain")
            ctx.step(4)


def run_info(item, ctx):
    o = item[1]
    f, df, y0 = odes()[o]
    d = len(y0)
    for nu in (1, 2, 3):
        E0, E1 = proj(nu, d, 0), proj(nu, d, 1)
        n = d * (nu + 1)
        op = iop.ODEResidual(num_prior_derivatives=nu, ode_dimension=d)
        ctx.check(op.input_dim == n and op.output_dim == d and not op.ode_has_been_incorporated, f"{o} {nu}", "dimensions")
        ctx.raises(op.as_transition, f"{o} {nu} as_transition before incorporate_ode", ValueError)
        P = mkivp(o)
        op.incorporate_ode(P)
        ctx.check(op.ode_has_been_incorporated, f"{o} {nu}", "incorporated")
        ctx.raises(lambda: op.incorporate_ode(P), f"{o} {nu} second incorporate_ode", ValueError)
        e0, e1 = aps.EK0()(op), aps.EK1()(op)
        ops = {"residual": (op, 1), "ek1": (e1, 1), "ek0": (e0, 0)}
        noise = randvars.Normal(np.arange(1.0, d + 1), 0.3 * np.eye(d))
        for nm, (p, jac) in ops.items():
            for t, s in itertools.product((0.0, 0.5, 2.0), range(4)):
                x = np.sin(np.arange(1.0, n + 1) * (s + 1))
                W = f"{o} nu={nu} {nm} t={t} x#{s}"
                ctx.state(W)
                wf = E1 @ x - f(t, E0 @ x)
                wj = E1 - (df(t, E0 @ x) @ E0 if jac else 0)
                with ctx.no_error(W):
                    ctx.close(p(t, x), wf, W, rtol=1e-10, atol=1e-12, msg="residual")
                    ctx.close(p.jacobian(t, x), wj, W, rtol=1e-10, atol=1e-12, msg="Jacobian")
                    ctx.step(2)
                    for nz in (None, noise):
                        tr = p.as_transition() if nz is None else p.as_transition(noise_fun=lambda t: noise)
                        b, R = (0, np.zeros((d, d))) if nz is None else (np.arange(1.0, d + 1), 0.3 * np.eye(d))
                        rv, _ = tr.forward_realization(x, t=t)
                        ctx.close(rv.mean, wf + b, W, rtol=1e-9, atol=1e-10, msg="observation of a realization")
                        ctx.close(rv.cov, R, W, rtol=1e-9, atol=1e-10, msg="noise of a realization")
                        ctx.step(2)
                        if nm != "residual":
                            C = rl.spd(n, 1)
                            rv, _ = tr.forward_rv(randvars.Normal(x, C, cov_cholesky=np.linalg.cholesky(C)), t=t)
                            ctx.close(rv.mean, wf + b, W, rtol=1e-8, atol=1e-9, msg="linearised mean")
                            ctx.close(rv.cov, wj @ C @ wj.T + R, W, rtol=1e-8, atol=1e-9, msg="linearised covariance")
                            ctx.step(2)


def run_regr(item, ctx):
    """an IVP as regression problem: measurement models, and exact posteriors for linear ODEs"""
    o = item[1]
    f, df, y0 = odes()[o]
    d, y0 = len(y0), np.array(odes()[o][2])
    locs = np.array([T0, 0.6, 1.0, 1.3])
    for nu, var, ex, st in itertools.product((1, 2), (0.0, 0.2), (False, True), (None, "EK0", "EK1")):
        E0, E1 = proj(nu, d, 0), proj(nu, d, 1)
        n = d * (nu + 1)
        W = f"{o} nu={nu} variance={var} exclude={ex} {st}"
        ctx.state(W)
        with ctx.no_error(W):
            P = mkivp(o, solution=lambda t: y0 * np.exp(t))
            prob = ou.ivp_to_regression_problem(ivp=P, locations=locs, ode_information_operator=iop.ODEResidual(num_prior_derivatives=nu, ode_dimension=d),
                                                approx_strategy=None if st is None else getattr(aps, st)(), ode_measurement_variance=var, exclude_initial_condition=ex)
            ctx.close(prob.locations, locs, W, rtol=0, msg="locations")
            ctx.close(np.asarray(prob.observations), np.zeros((4, d)), W, rtol=0, msg="data")
            ctx.close(np.asarray(prob.solution), np.stack([y0 * np.exp(t) for t in locs]), W, rtol=1e-10, msg="solution")
            ctx.check(len(prob.measurement_models) == 4, W, "number of measurement models")
            for i, t in enumerate(locs):
                for s in range(3):
                    x = np.sin(np.arange(1.0, n + 1) * (s + 1))
                    want = E0 @ x - y0 if i == 0 and not ex else E1 @ x - f(t, E0 @ x)
                    rv, _ = prob.measurement_models[i].forward_realization(x, t=t)
                    ctx.close(rv.mean, want, f"{W} location {i}", rtol=1e-9, atol=1e-10, msg="mean of the observation")
                    ctx.close(rv.cov, var * np.eye(d), f"{W} location {i}", rtol=1e-9, atol=1e-10, msg="noise of the observation")
                    ctx.step(2)
            P2 = ou.ivp_to_regression_problem(ivp=mkivp(o), locations=locs, ode_information_operator=iop.ODEResidual(num_prior_derivatives=nu, ode_dimension=d), approx_strategy=aps.EK1(), ode_measurement_variance=var, exclude_initial_condition=ex)
            ctx.check(P2.solution is None, W, "solution without a reference")
            if st == "EK1":
                pr, exact = prior("iwp", nu, d)
                post, _ = filtsmooth.gaussian.Kalman(pr).filtsmooth(prob)
                ctx.trace()
                R = Ref(o, exact, nu, "EK1", "x", np.zeros(n), 4.0 * np.eye(n))
                obs, m, C, t = [], np.zeros(n), 4.0 * np.eye(n), T0
                for i, t1 in enumerate(locs):
                    if t1 > t:
                        A, b, Q = exact(t, t1 - t)
                        m, C = A @ m + b, A @ C @ A.T + Q
                    t = t1
                    if i == 0 and not ex:
                        H, z = E0, E0 @ m - y0
                    else:
                        H, z = E1 - df(t, E0 @ m) @ E0, E1 @ m - f(t, E0 @ m)
                    Rn = var * np.eye(d)
                    obs.append((t, H, z - H @ m, Rn, np.zeros(d)))
                    S = H @ C @ H.T + Rn
                    K = np.linalg.solve(S, H @ C).T
                    m, C = m - K @ z, C - K @ S @ K.T
                ms, Cs = GM(exact, np.zeros(n), 4.0 * np.eye(n), T0).posterior(obs, list(locs))
                for i in range(4):
                    sl = slice(i * n, (i + 1) * n)
                    both(ctx, post.states[i], ms[sl], Cs[sl, sl], f"{W} location {i}", "smoothed regression state")


def run_api(item, ctx):
    _, o, tier = item
    f, df, y0 = odes()[o]
    d = len(y0)
    for meth, dm, dense, nu, st in itertools.product(("EK0", "ek1", "EK1"), ("dynamic", "constant", "Dynamic"), (True, False), (1, 2), (None, (0.4, 0.9))):
        if (meth == "ek1") != (dm == "Dynamic"):
            continue
        W = f"{o} probsolve_ivp {meth} {dm} dense={dense} order={nu} stops={st}"
        ctx.state(W)
        ctx.trace()
        with ctx.no_error(W):
            sol = diffeq.probsolve_ivp(f, T0, TM, y0 if dense else np.array(y0), df=df, method=meth, dense_output=dense, algo_order=nu, adaptive=False, step=0.3, diffusion_model=dm, time_stops=st)
            locs = [float(t) for t in sol.locations]
            pr = markov.integrator.IntegratedWienerProcess(initarg=T0, num_derivatives=nu, wiener_process_dimension=d, diffuse=True, forward_implementation="sqrt", backward_implementation="sqrt")
            rv = ini.NonProbabilisticFit()(ivp=mkivp(o), prior_process=pr)
            R = Ref(o, prior("iwp", nu, d)[1], nu, meth.upper(), "const" if dm == "constant" else "piece", rv.mean, rv.cov)
            for t in locs[1:]:
                R.step(t)
            for b in st or ():
                ctx.check(min(abs(np.array(locs) - b)) < 1e-9, W, f"time stop {b} missing")
            m, C = R.post(locs)
            n = len(R.m0)
            for i in range(len(locs)):
                sl = slice(i * n, (i + 1) * n)
                mi, Ci = (m[sl], C[sl, sl]) if dense else (R.filt[i][0], R.sigma2 * R.filt[i][1])
                both(ctx, sol.states[i], R.E0 @ mi, R.E0 @ Ci @ R.E0.T, f"{W} step {i}", "solution")
            ctx.check(isinstance(sol.kalman_posterior, filtsmooth.gaussian.SmoothingPosterior if dense else filtsmooth.gaussian.FilteringPosterior), W, "kind of posterior")
    for meth, tol in itertools.product(("EK0", "EK1"), (1e-1, 1e-3)):
        W = f"{o} adaptive {meth} tolerance {tol}"
        ctx.state(W)
        ctx.trace()
        with ctx.no_error(W):
            sol = diffeq.probsolve_ivp(f, T0, TM, y0, df=df, method=meth, algo_order=3, atol=tol, rtol=tol)
            import scipy.integrate
            want = scipy.integrate.solve_ivp(f, (T0, TM), y0, rtol=1e-10, atol=1e-10).y[:, -1]
            ctx.close(sol.states[-1].mean, want, W, rtol=0, atol=10 * tol * (1 + np.max(np.abs(want))), msg="end point")
            ctx.close(sol.locations[-1], TM, W, rtol=1e-12)


def run_guards(item, ctx):
    f, df, y0 = odes()["lin1"]
    kw = dict(f=f, t0=0.0, tmax=1.0, y0=np.array(y0), df=df)
    for nm, k, exc in [("method", dict(method="EK7"), ValueError), ("diffusion", dict(diffusion_model="wild"), ValueError), ("step", dict(adaptive=False), ValueError),
                       ("atol", dict(atol=None), ValueError), ("rtol", dict(rtol=None), ValueError)]:
        ctx.state(nm)
        ctx.raises(lambda: diffeq.probsolve_ivp(**kw, **k), f"probsolve_ivp wrong {nm}", exc)
    ctx.raises(lambda: aps.EK0()(iop.ODEResidual(num_prior_derivatives=1, ode_dimension=1)), "EK0 without ODE", ValueError)
    pr = markov.MarkovProcess(transition=cont.LTISDE(drift_matrix=-np.eye(2), force_vector=np.zeros(2), dispersion_matrix=np.eye(2)), initrv=randvars.Normal(np.zeros(2), np.eye(2)), initarg=0.0)
    ctx.raises(lambda: odefilter.ODEFilter(steprule=stepsize.ConstantSteps(0.1), prior_process=pr), "prior that is no integrator", ValueError)
    ctx.state("guards")
    sol = diffeq.probsolve_ivp(**kw, adaptive=False, step=0.5)
    ctx.raises(lambda: sol.transform_base_measure_realizations(np.zeros((3, 1)), t=[0.1, 0.2, 0.3]), "base measure", NotImplementedError)
    ctx.raises(lambda: sol(np.array([0.5, 0.2])), "unsorted times", ValueError)
