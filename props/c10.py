"""C10: forward and backward passes of linear Markov transitions are exact Gaussian inference."""
import itertools
import numpy as np
import scipy.integrate
import scipy.linalg
from probnum import config, linops, randvars
from probnum.randprocs.markov import continuous as cont, discrete as disc, integrator as integ
from mc import rvlib as rl

RULE = ("every transition class x forward/backward implementation x dimensions x representation of the incoming variable (with or without Cholesky factor, "
        "constant) x diffusion (down to none) x step x units of states, times and observations x every combination of optional hints (gain, forwarded variable) x obtained variable or realization; results compared "
        "with the closed-form joint Gaussian; non-trivial = distinct (configuration, moments)")
ASSUMPTIONS = ["state dimensions <= 6, non-degenerate predictive covariances", "transitions of general (time-varying) linear SDEs are compared up to the tolerance of their ODE solver"]


def gl(n=24):
    return np.polynomial.legendre.leggauss(n)


def lti_exact(F, L, u, h):
    """transition matrix, shift and noise covariance by quadrature of the variation-of-constants formula"""
    x, w = gl()
    s = 0.5 * h * (x + 1)
    A = scipy.linalg.expm(F * h)
    Q = np.zeros_like(F)
    b = np.zeros(len(F))
    for si, wi in zip(s, w):
        E = scipy.linalg.expm(F * si)
        Q += 0.5 * h * wi * E @ L @ L.T @ E.T
        b += 0.5 * h * wi * E @ u
    return A, b, Q


def tmat(o, i, t=0.0):
    return np.cos(1.1 * np.arange(o * i).reshape(o, i) + 0.3 * t) + np.eye(o, i)


def _lg(o, i, fw, bw):
    return (lambda: disc.LinearGaussian(input_dim=i, output_dim=o, transition_matrix_fun=lambda t: tmat(o, i, t),
                                        noise_fun=lambda t: randvars.Normal(np.arange(1.0, o + 1) * t, (1 + t) * rl.spd(o, 1)),
                                        forward_implementation=fw, backward_implementation=bw),
            lambda t, dt: (tmat(o, i, t), np.arange(1.0, o + 1) * t, (1 + t) * rl.spd(o, 1)), i, o)


def _lti(o, i, fw, bw, noise="n"):
    A = tmat(o, i, 2.0)
    m = np.linspace(-1, 1, o) + 0.5
    if noise == "c":  # noise-free observation: predictive covariance A P A' is regular for o <= i
        return (lambda: disc.LTIGaussian.from_linop(transition_matrix=A, noise_mean=m, forward_implementation=fw, backward_implementation=bw),
                lambda t, dt: (A, m, np.zeros((o, o))), i, o)
    C = np.linalg.cholesky(rl.spd(o, 2))
    mk = {"n": lambda: randvars.Normal(m, rl.spd(o, 2)), "nc": lambda: randvars.Normal(m, C @ C.T, cov_cholesky=C)}[noise]
    return (lambda: disc.LTIGaussian(transition_matrix=A, noise=mk(), forward_implementation=fw, backward_implementation=bw),
            lambda t, dt: (A, m, C @ C.T), i, o)


def sdes():
    F2 = np.array([[0.0, 1.0], [-1.5, -0.7]])
    L2 = np.array([[0.3, 0.0], [0.2, 1.0]])
    F3 = np.array([[-0.5, 1.0, 0.2], [0.0, -0.3, 1.0], [-0.4, 0.1, -0.9]])
    L3 = np.array([[0.0, 0.1], [0.5, 0.0], [0.3, 1.2]])
    u3 = np.array([1.0, -2.0, 0.5])
    return {"2": (F2, L2, np.zeros(2)), "2u": (F2, L2, np.array([0.7, -1.1])), "3u": (F3, L3, u3), "1u": (np.array([[-0.8]]), np.array([[0.6]]), np.array([2.0])),
            "3": (F3, L3, np.zeros(3)), "2v": (F2 * 0, L2, np.array([0.0, 1.0]))}


def _ltisde(n, fw, bw):
    F, L, u = sdes()[n]
    return (lambda: cont.LTISDE(drift_matrix=F, force_vector=u, dispersion_matrix=L, forward_implementation=fw, backward_implementation=bw),
            lambda t, dt: lti_exact(F, L, u, dt), len(F), len(F))


def _linsde(n, fw):
    F, L, u = sdes()[n]
    return (lambda: cont.LinearSDE(state_dimension=len(F), wiener_process_dimension=L.shape[1], drift_matrix_function=lambda t: F, force_vector_function=lambda t: u,
                                   dispersion_matrix_function=lambda t: L, forward_implementation=fw, mde_atol=1e-9, mde_rtol=1e-9),
            lambda t, dt: lti_exact(F, L, u, dt), len(F), len(F))


def tv_exact(F, u, L, t, h):
    """fundamental matrix, shift and noise of a time-varying linear SDE from an accurate ODE solve"""
    n = len(u(t))

    def rhs(s, y):
        A, b, Q = y[: n * n].reshape(n, n), y[n * n: n * n + n], y[n * n + n:].reshape(n, n)
        f = F(s)
        return np.concatenate([(f @ A).ravel(), f @ b + u(s), (f @ Q + Q @ f.T + L(s) @ L(s).T).ravel()])

    y = scipy.integrate.solve_ivp(rhs, (t, t + h), np.concatenate([np.eye(n).ravel(), np.zeros(n + n * n)]), method="DOP853", rtol=1e-11, atol=1e-12).y[:, -1]
    return y[: n * n].reshape(n, n), y[n * n: n * n + n], y[n * n + n:].reshape(n, n)


def _tvsde(fw):
    F = lambda t: np.array([[-0.2, 1.0], [-t - 0.3, -0.5]])
    u = lambda t: np.array([np.sin(t), 1.0 + t])
    L = lambda t: np.array([[0.5, 0.1 * t], [0.0, 1.0 + 0.2 * t]])
    return (lambda: cont.LinearSDE(state_dimension=2, wiener_process_dimension=2, drift_matrix_function=F, force_vector_function=u, dispersion_matrix_function=L,
                                   forward_implementation=fw, mde_atol=1e-9, mde_rtol=1e-9), lambda t, dt: tv_exact(F, u, L, t, dt), 2, 2)


def _integ(kind, nu, d, fw, bw):
    k = dict(num_derivatives=nu, wiener_process_dimension=d, forward_implementation=fw, backward_implementation=bw)
    F1 = np.diag(np.ones(nu), 1)
    if kind == "iwp":
        mk = lambda: integ.IntegratedWienerTransition(**k)
    elif kind == "ioup":
        mk = lambda: integ.IntegratedOrnsteinUhlenbeckTransition(driftspeed=0.8, **k)
        F1[-1, -1] = -0.8
    else:
        mk = lambda: integ.MaternTransition(lengthscale=1.3, **k)
        lam = np.sqrt(2 * (nu + 0.5)) / 1.3
        F1[-1] = -np.poly(-lam * np.ones(nu + 1))[1:][::-1]
    L1 = np.eye(nu + 1)[:, -1:]
    F, L = np.kron(np.eye(d), F1), np.kron(np.eye(d), L1)
    return mk, lambda t, dt: lti_exact(F, L, np.zeros(len(F)), dt), len(F), len(F)


FW, BW = ("classic", "sqrt"), ("classic", "sqrt", "joseph")


class Units:
    """the same model in other units: states x' = D x, times t' = off + c t, observations y' = e y; results are mapped back to the units of the reference"""

    def __init__(self, name, D, c=1.0, off=0.0, e=1.0):
        self.name, self.D, self.Di, self.c, self.off, self.e = name, np.diag(D), np.diag(1 / np.asarray(D)), c, off, e

    def t(self, t):
        return self.off + self.c * t

    def back(self, t):
        return (t - self.off) / self.c

    def law(self, rv):
        return self.Di @ dense_(rv.mean), self.Di @ dense_(rv.cov) @ self.Di

    def rv(self, m, P, chol=False):
        m, P = self.D @ m, self.D @ P @ self.D
        return randvars.Normal(m, P, cov_cholesky=np.linalg.cholesky(P)) if chol else randvars.Normal(m, P)

    def sde(self, n, fw, bw):
        F, L, u = sdes()[n]
        return cont.LTISDE(drift_matrix=self.D @ F @ self.Di / self.c, force_vector=self.D @ u / self.c, dispersion_matrix=self.D @ L / np.sqrt(self.c), forward_implementation=fw, backward_implementation=bw)

    def lg(self, n, fw, bw):
        return disc.LinearGaussian(input_dim=n, output_dim=n, transition_matrix_fun=lambda t: self.D @ tmat(n, n, self.back(t)) @ self.Di,
                                   noise_fun=lambda t: randvars.Normal(self.D @ np.arange(1.0, n + 1) * self.back(t), (1 + self.back(t)) * self.D @ rl.spd(n, 1) @ self.D),
                                   forward_implementation=fw, backward_implementation=bw)

    def lti(self, n, fw, bw):
        return disc.LTIGaussian(transition_matrix=self.D @ tmat(n, n, 2.0) @ self.Di, noise=randvars.Normal(self.D @ (np.linspace(-1, 1, n) + 0.5), self.D @ rl.spd(n, 2) @ self.D),
                                forward_implementation=fw, backward_implementation=bw)

    def meas(self, o, n, fw, bw):
        """measurement model of c10._lg in these units"""
        return disc.LinearGaussian(input_dim=n, output_dim=o, transition_matrix_fun=lambda t: self.e * tmat(o, n, self.back(t)) @ self.Di,
                                   noise_fun=lambda t: randvars.Normal(self.e * np.arange(1.0, o + 1) * self.back(t), self.e**2 * (1 + self.back(t)) * rl.spd(o, 1)),
                                   forward_implementation=fw, backward_implementation=bw)


dense_ = rl.dense


def units(n, fw="classic", bw="classic"):
    out = [Units("state in thousands", [2.0**10] * n), Units("small states", [2.0 ** (-5 if "sqrt" in (fw, bw) else -10)] * n), Units("state in millions", [2.0**20] * n),
           Units("seconds to nanoseconds", [1.0] * n, 2.0**-30), Units("seconds to ages", [1.0] * n, 2.0**24), Units("late clock", [1.0] * n, 2.0**-10, 2.0**20),
           Units("mixed units", 2.0 ** (5 * np.arange(n) - 5), 2.0**-12), Units("small observations", [1.0] * n, e=2.0**-10), Units("large observations", [1.0] * n, e=2.0**20)]
    if "sqrt" not in (fw, bw):  # (the factors of variables given without one are damped by 1e-12)
        out += [Units("state in millionths", [2.0**-20] * n, e=2.0**-20), Units("tiny states at tiny times", [2.0**-20] * n, 2.0**-30, e=2.0**-20)]
    return out


def unit_tol(u):
    return dict(rtol=1e-4, atol=2e-5) if min(np.diag(u.D).min(), u.e) < 2.0**-3 else dict(rtol=1e-6, atol=1e-7)


def run_units(item, ctx):
    """inference does not depend on the units: tiny and huge states, steps and clocks; vanishing diffusion"""
    _, kind, fw, bw = item
    n = {"3u": 3, "2u": 2, "2v": 2, "1u": 1}.get(kind[3:], 2) if kind.startswith("sde") else int(kind[-1])
    base = {"sde": lambda: _ltisde(kind[3:], fw, bw), "lg": lambda: _lg(n, n, fw, bw), "lti": lambda: _lti(n, n, fw, bw)}[kind.rstrip("0123456789uv")]()[1]
    for u in [Units("same units", [1.0] * n)] + units(n, fw, bw):
        T = u.sde(kind[3:], fw, bw) if kind.startswith("sde") else (u.lg if kind.startswith("lg") else u.lti)(n, fw, bw)
        for dt, t, sig in itertools.product((0.125, 1.5) if kind.startswith("sde") else (None,), (0.0, 1.5), (0.0, 1e-6, 1.0, 1e6)):
            if sig > 1 and "sqrt" in (fw, bw) and np.diag(u.D).min() < 1:
                continue  # the damping would be amplified by the diffusion
            A, b, Q = base(t, dt)
            Q = sig * Q
            tol = unit_tol(u)
            if sig > 1:
                tol = dict(tol, atol=tol["atol"] * 1e3)
            _, m, P = mkrv("plain", n, 3)
            S, mf = A @ P @ A.T + Q, A @ m + b
            G = np.linalg.solve(S, A @ P).T
            kw = dict(t=u.t(t), _diffusion=sig, **({} if dt is None else dict(dt=u.c * dt)))
            w = f"{kind}-{fw}-{bw} {u.name} t={t} dt={dt} diffusion={sig}"
            ctx.state(w)
            ctx.trace()
            for chol in (False, True):
                rv = u.rv(m, P, chol)
                with ctx.no_error(w):
                    f, info = T.forward_rv(rv, compute_gain=True, **kw)
                    fm, fc = u.law(f)
                    ctx.close(fm, mf, w + " forward mean", **tol)
                    ctx.close(fc, S, w + " forward covariance", **tol)
                    ctx.close(u.Di @ rl.dense(info["gain"]) @ u.D, G, w + " gain", **tol)
                    f, _ = T.forward_realization(u.D @ m, **kw)
                    fm, fc = u.law(f)
                    ctx.close(fm, mf, w + " forward_realization mean", **tol)
                    ctx.close(fc, Q, w + " forward_realization covariance", **tol)
                    for frac in (1.0, 2.0**-8, 0.0):  # spread of the obtained variable, down to none
                        _, mo, Po = mkrv("plain", n, 7)
                        Po = frac**2 * Po
                        want = m + G @ (mo - mf), P + G @ (Po - S) @ G.T
                        if frac:
                            back, _ = T.backward_rv(u.rv(mo, Po, chol), rv, **kw)
                        else:
                            back, _ = T.backward_realization(u.D @ mo, rv, **kw)
                        bm, bc = u.law(back)
                        ctx.close(bm, want[0], f"{w} backward mean, spread {frac}", **tol)
                        ctx.close(bc, want[1], f"{w} backward covariance, spread {frac}", **tol)
                        ctx.step()
                    ctx.outcome(w, want[0].round(5).tobytes())
    ctx.sample(w)


def catalogue(tier):
    out = {}
    for fw, bw in itertools.product(FW, BW):
        for o, i in [(1, 1), (2, 2), (1, 2), (2, 1), (3, 2), (2, 3)]:
            out[f"lg{o}{i}-{fw}-{bw}"] = _lg(o, i, fw, bw)
            for nz in ("n", "nc"):
                out[f"lti{o}{i}{nz}-{fw}-{bw}"] = _lti(o, i, fw, bw, nz)
            if o <= i:
                out[f"lti{o}{i}c-{fw}-{bw}"] = _lti(o, i, fw, bw, "c")
        for n in sdes():
            out[f"ltisde{n}-{fw}-{bw}"] = _ltisde(n, fw, bw)
        for kind, nu, d in itertools.product(("iwp", "ioup", "matern"), (0, 1, 2, 3) if tier == "thorough" else (0, 1, 2), (1, 2)):
            if (nu + 1) * d <= 6 or tier == "thorough":
                out[f"{kind}{nu}x{d}-{fw}-{bw}"] = _integ(kind, nu, d, fw, bw)
    for fw in FW:
        out[f"linsdetv-{fw}-mde"] = _tvsde(fw)
        for n in sdes():
            out[f"linsde{n}-{fw}-mde"] = _linsde(n, fw)
    return out


_cat = {}


def items(tier):
    _cat.update(catalogue(tier))
    out = [["t", n, tier] for n in _cat]
    out += [["mf", n] for n in ("iwp", "lti")] + [["nl"]]
    out += [["units", k, fw, bw] for k in ("sde2u", "sde3u", "sde1u", "sde2v", "lg2", "lti3") for fw in FW for bw in BW]
    return out


def mkrv(kind, n, s):
    m = np.sin(np.arange(1.0, n + 1) + s) * 2
    P = rl.spd(n, s)
    if kind == "plain":
        return randvars.Normal(m, P), m, P
    if kind == "chol":
        C = np.linalg.cholesky(P)
        return randvars.Normal(m, P, cov_cholesky=C), m, P
    if kind == "partial":  # the first component is known
        C = np.linalg.cholesky(P)
        C[0] = C[:, 0] = 0.0
        return randvars.Normal(m, C @ C.T, cov_cholesky=C), m, C @ C.T
    if kind == "const":
        return randvars.Constant(m), m, np.zeros((n, n))
    raise KeyError(kind)


def snapshot(rv):
    return rl.dense(rv.mean).copy(), rl.dense(rv.cov).copy()


def run(item, ctx):
    if item[0] == "mf":
        return run_mf(item, ctx)
    if item[0] == "nl":
        return run_nl(ctx)
    if item[0] == "units":
        return run_units(item, ctx)
    _, name, tier = item
    mk, exact, i, o = _cat[name]
    mde = name.startswith("linsde")
    contin = mde or not name.startswith(("lg", "lti1", "lti2", "lti3"))
    tol = dict(rtol=2e-5, atol=2e-6) if mde else dict(rtol=1e-7, atol=1e-8)
    T = mk()
    ctx.check(T.input_dim == i and T.output_dim == o, name, "dimensions")
    dts = ((0.4,) if mde else (0.1, 1.3)) if contin else (None,)
    for dt, t, sig in itertools.product(dts, (0.0, 1.5), (1.0, 0.25, 3.0)):
        if (mde or tier == "quick") and (t, sig) in ((1.5, 1.0), (0.0, 3.0), (1.5, 0.25)):
            continue
        A, b, Q = exact(t, dt)
        Q = sig * Q
        kw = dict(t=t, _diffusion=sig) if dt is None else dict(t=t, dt=dt, _diffusion=sig)
        for kind in ("plain", "chol", "const"):
            rv, m, P = mkrv(kind, i, 3)
            w = f"{name} t={t} dt={dt} diffusion={sig} rv={kind}"
            if mde and kind == "const" and "sqrt" in name:
                continue  # a singular initial covariance is outside the square-root moment equations
            S = A @ P @ A.T + Q
            mf = A @ m + b
            cross = P @ A.T
            regular = np.linalg.cond(S) < 1e8
            hp = snapshot(rv)
            ctx.trace()
            ctx.state(w)
            with ctx.no_error(w + " forward_rv"):
                f, info = T.forward_rv(rv, **kw)
                rl.check_law(ctx, f, rl.Law(mf, S), w + " forward_rv", **tol)
                if "crosscov" in info:
                    ctx.close(rl.dense(info["crosscov"]), cross, w + " crosscov", **tol)
                ctx.outcome(name, dt, t, sig, kind, mf.round(6).tobytes(), S.round(6).tobytes())
                ctx.step()
            if kind != "chol":
                with ctx.no_error(w + " forward_realization"):
                    if not (mde and "sqrt" in name):
                        f, _ = T.forward_realization(m.copy(), **kw)
                        rl.check_law(ctx, f, rl.Law(mf, Q), w + " forward_realization", **tol)
                        ctx.step()
            if not regular:
                continue
            G = np.linalg.solve(S, cross.T).T
            gtol = dict(rtol=1e-6, atol=1e-7) if not mde else tol
            fwd, gain = None, None
            with ctx.no_error(w + " gain"):
                fwd, info = T.forward_rv(rv, compute_gain=True, **kw)
                if "gain" in info:
                    gain = info["gain"]
                    ctx.close(rl.dense(gain), G, w + " gain", **gtol)
                    rl.check_law(ctx, fwd, rl.Law(mf, S), w + " forward with gain", **tol)
                    ctx.step()
            if kind == "const" and mde:
                continue
            for okind in ("plain", "chol", "partial", "const", "real"):
                if okind == "partial" and (o == 1 or kind == "const"):
                    continue
                ob, mo, Po = mkrv("const" if okind == "real" else okind, o, 7)
                want = rl.Law(m + G @ (mo - mf), P + G @ (Po - S) @ G.T)
                for hint in ("none", "both", "gain", "fwd"):
                    if hint != "none" and (gain is None or tier == "quick" and (sig != 1.0) != (hint == "both")):
                        continue
                    h = dict(kw)
                    if hint in ("both", "gain"):
                        h["gain"] = gain
                    if hint in ("both", "fwd"):
                        h["rv_forwarded"] = fwd
                    ww = f"{w} backward obtained={okind} hint={hint}"
                    with ctx.no_error(ww):
                        if okind == "real":
                            back, info = T.backward_realization(mo.copy(), rv, **h)
                        else:
                            back, info = T.backward_rv(ob, rv, **h)
                        rl.check_law(ctx, back, want, ww, **(tol if mde else dict(rtol=1e-6, atol=1e-7)))
                        if info.get("rv_forwarded") is not None:
                            rl.check_law(ctx, info["rv_forwarded"], rl.Law(mf, S), ww + " info", **tol)
                        ctx.step()
                        ctx.outcome(name, dt, t, sig, kind, okind, want.mean.round(6).tobytes())
            h2 = snapshot(rv)
            ctx.check(np.array_equal(hp[0], h2[0]) and np.array_equal(hp[1], h2[1]), w, "input variable changed")
    if dts != (None,):
        rv = mkrv("plain", i, 3)[0]
        ctx.raises(lambda: T.forward_rv(rv, t=0.0), f"{name} forward_rv without dt", ValueError)
        ctx.raises(lambda: T.backward_rv(rv, rv, t=0.0), f"{name} backward_rv without dt", ValueError)
    ctx.sample(w)


def run_nl(ctx):
    """a nonlinear Gaussian transition of a realization is f(t, x) plus the scaled noise"""
    for o, i, sig, t in itertools.product((1, 2, 3), (1, 2), (1.0, 0.25, 3.0), (0.0, 2.0)):
        B = tmat(o, i)
        f = lambda t, x: B @ np.sin(x) + t
        N = disc.NonlinearGaussian(input_dim=i, output_dim=o, transition_fun=f, noise_fun=lambda t: randvars.Normal(np.ones(o) + t, (1 + t) * rl.spd(o, 1)))
        C = disc.NonlinearGaussian.from_callable(input_dim=i, output_dim=o, transition_fun=f, transition_fun_jacobian=lambda t, x: B @ np.diag(np.cos(x)))
        x = np.sin(np.arange(1.0, i + 1)) * 2
        w = f"nonlinear {o}<-{i} diffusion={sig} t={t}"
        ctx.trace()
        ctx.step(2)
        ctx.state(w)
        with ctx.no_error(w):
            r, _ = N.forward_realization(x, t=t, _diffusion=sig)
            rl.check_law(ctx, r, rl.Law(f(t, x) + 1 + t, sig * (1 + t) * rl.spd(o, 1)), w)
            r, _ = C.forward_realization(x, t=t, _diffusion=sig)
            ctx.close(r.mean, f(t, x), w + " from_callable")
            ctx.close(rl.dense(r.cov), np.zeros((o, o)), w + " from_callable")
            ctx.outcome(w, f(t, x).round(6).tobytes())
        for g in (lambda: N.forward_rv(randvars.Normal(x, np.eye(i)), t), lambda: N.transition_fun_jacobian):
            ctx.raises(g, w + " unavailable", NotImplementedError)


def run_mf(item, ctx):
    """the matrix-free mode and the array mode agree"""
    for order in ((True,), (False,)):
        for nu, d in ((1, 1), (1, 2), (2, 2)):
            n = (nu + 1) * d
            if item[1] == "iwp":
                mk, exact, _, _ = _integ("iwp", nu, d, "classic", "classic")
                T = mk()
                dts = (0.5, 2.0)
            else:
                mk, exact, _, _ = _lti(n, n, "classic", "classic")
                dts = (None,)
                T = mk()
            for pos, mode in enumerate(order):
                for dt in dts:
                    A, b, Q = exact(0.3, dt)
                    m = np.sin(np.arange(1.0, n + 1))
                    P = rl.spd(n, 3)
                    S = A @ P @ A.T + Q
                    G = np.linalg.solve(S, A @ P).T
                    w = f"{item[1]}{nu}x{d} modes={order[:pos + 1]} dt={dt}"
                    kw = dict(t=0.3) if dt is None else dict(t=0.3, dt=dt)
                    ctx.trace()
                    ctx.step(2)
                    ctx.state(w)
                    if item[1] != "iwp" and mode:
                        C = linops.aslinop(A)
                        T = disc.LTIGaussian(transition_matrix=C, noise=randvars.Normal(b, linops.aslinop(Q)))
                    elif item[1] != "iwp":
                        T = mk()
                    with config(matrix_free=mode):
                        mm = linops.aslinop if mode else (lambda a: a)
                        ch = np.linalg.cholesky(P)
                        rv = randvars.Normal(m, mm(P), cov_cholesky=mm(ch))
                        Po = rl.spd(n, 7)
                        ob = randvars.Normal(m + 1, mm(Po), cov_cholesky=mm(np.linalg.cholesky(Po)))
                        with ctx.no_error(w):
                            f, info = T.forward_rv(rv, compute_gain=True, **kw)
                            rl.check_law(ctx, f, rl.Law(A @ m + b, S), w + " forward")
                            ctx.close(rl.dense(info["gain"]), G, w + " gain", rtol=1e-6, atol=1e-7)
                            bk, _ = T.backward_rv(ob, rv, **kw)
                            rl.check_law(ctx, bk, rl.Law(m + G @ (m + 1 - A @ m - b), P + G @ (Po - S) @ G.T), w + " backward", rtol=1e-6, atol=1e-7)
                            ctx.outcome(w, S.round(6).tobytes())
