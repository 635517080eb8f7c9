"""C18: perturbed-step ODE solvers are the underlying Runge-Kutta method with randomly scaled steps."""
import itertools
import math
import warnings
import numpy as np
from scipy.integrate._ivp import rk
from probnum import diffeq, problems, randvars
from probnum.diffeq import callbacks as cbm, perturbed, stepsize
from probnum.diffeq.perturbed import scipy_wrapper as sw, step as ps
from mc import rvlib as rl
from props import c17

RULE = ("every Runge-Kutta method x ODE x step pattern (constant, stops, adaptive with rejected steps, callbacks) x every script of the perturbations over {0.6, 1, 1.5}^steps: "
        "states, error estimates, recorded scales and dense output equal the Butcher-tableau reference with the scaled steps; perturbation laws on the grid of steps, orders and scales under scripted draws; "
        "every option combination of perturbsolve_ivp")
ASSUMPTIONS = ["at most 5 (quick: 4) scripted perturbations per solve", "RK23 and RK45 (the supported methods)"]
METH = {"RK23": rk.RK23, "RK45": rk.RK45}
T0, TM = 0.25, 1.25
CARRY = "first stage is the derivative at the end of the previous attempt"


def items(tier):
    out = []
    for m in METH:
        for o in c17.odes():
            for pat in ("const", "stops", "adaptive", "tight", "event"):
                out.append(["wrap", m, o, pat])
                if tier != "quick" or o in ("tv2", "tvnl1", "log1"):
                    out.append(["pert", m, o, pat, tier])
            out.append(["api", m, o])
    out += [["law", "uniform"], ["law", "lognormal"], ["guards"]]
    return out


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


class Attempts:
    """records every attempted Runge-Kutta step (class-level wrapper, undone afterwards)"""

    def __enter__(self):
        self.log, self.orig = [], sw.WrappedScipyRungeKutta.attempt_step
        orig, log = self.orig, self.log

        def attempt_step(self, state, dt):
            log.append((float(state.t), np.array(state.rv.mean, float), float(dt)))
            return orig(self, state, dt)
        sw.WrappedScipyRungeKutta.attempt_step = attempt_step
        return self.log

    def __exit__(self, *a):
        sw.WrappedScipyRungeKutta.attempt_step = self.orig


def carried(M, f, log):
    """first stages as in the known finding: the derivative at the end of the most recent attempt, whatever became of it"""
    out, k0 = {}, None
    for t, y, h in log:
        k0 = f(t, y) if k0 is None else k0
        y1, err, K = ref_step(M, f, t, y, h, k0)
        out[(t, tuple(y))] = (y1, err, K)
        k0 = K[-1]
    return out


def ref_step(M, f, t, y, h, k0=None):
    s = len(M.C)
    K = [f(t, y) if k0 is None else k0]
    for i in range(1, s):
        K.append(f(t + M.C[i] * h, y + h * sum(M.A[i][j] * K[j] for j in range(i))))
    y1 = y + h * sum(b * k for b, k in zip(M.B, K))
    K.append(f(t + h, y1))
    K = np.array(K)
    return y1, h * K.T @ M.E, K


def dense(M, y, K, h, x):
    """value at the fraction x of the step"""
    Q = K.T @ M.P
    return y + h * Q @ np.array([x ** (i + 1) for i in range(Q.shape[1])])


class Log(stepsize.AdaptiveSteps):
    """counts decisions"""

    def is_accepted(self, scaled_error):
        r = super().is_accepted(scaled_error)
        self.n = getattr(self, "n", [0, 0])
        self.n[int(bool(r))] += 1
        return r


def rule(pat):
    if pat in ("const", "event"):
        return stepsize.ConstantSteps(0.3)
    if pat == "stops":
        return stepsize.ConstantSteps(0.4)
    return Log(firststep=0.9, atol=1e-3 if pat == "adaptive" else 1e-6, rtol=1e-2 if pat == "adaptive" else 1e-6)


def kw(pat):
    k = dict(stop_at=(0.5, 0.55) if pat == "stops" else None)
    if pat == "event":
        k["callbacks"] = cbm.DiscreteCallback(condition=lambda s: 0.5 < s.t < 0.9, replace=lambda s: diffeq.ODESolverState(
            ivp=s.ivp, t=s.t, rv=randvars.Constant(0.5 * s.rv.mean + 0.1), error_estimate=s.error_estimate, reference_state=s.reference_state))
    return k


def verify(ctx, W, M, o, pat, solver, sol, steps, scales=None, log=()):
    """the recorded solution against the reference method; steps: states from a generator run"""
    f, df, y0 = c17.odes()[o]
    alt = carried(M, f, log)
    ts = [float(t) for t in sol.locations]
    ctx.close(np.asarray(sol.states[0].mean), np.array(y0), W, rtol=0, atol=1e-14, msg="initial state")
    ctx.check(len(sol.states) == len(ts) and ts[0] == T0 and abs(ts[-1] - TM) < 1e-9, W, f"locations {ts}")
    if scales is not None:
        ctx.check(len(scales) == len(ts) - 1, W, f"{len(scales)} scales for {len(ts) - 1} steps")
    for i in range(len(ts) - 1):
        h = ts[i + 1] - ts[i]
        if h < 1e-9:
            continue
        hs = h * (1 if scales is None else scales[i])
        y = np.asarray(sol.states[i].mean, float)
        y1, err, K = ref_step(M, f, ts[i], y, hs)
        w = f"{W} step {i}"
        tol = dict(rtol=1e-8, atol=1e-9)
        after = lambda v: 0.5 * v + 0.1 if pat == "event" and 0.5 < ts[i + 1] < 0.9 else v

        def fits(y1, err, K):
            return (np.allclose(np.asarray(sol.states[i + 1].mean), after(y1), rtol=1e-11, atol=1e-12)
                    and (steps is None or np.allclose(steps[i + 1].error_estimate, err, rtol=1e-6, atol=1e-10)))
        if (ts[i], tuple(y)) in alt and not fits(y1, err, K):
            a = alt[(ts[i], tuple(y))]
            if fits(*a):
                if not any(v["msg"] == CARRY for v in ctx.viol):
                    ctx.fail("carried-derivative " + w, CARRY)
                y1, err, K = a
        want = after(y1)
        ctx.close(np.asarray(sol.states[i + 1].mean), want, w, msg="state", **tol)
        ctx.step()
        if steps is not None:
            ctx.close(steps[i + 1].error_estimate, err, w, rtol=1e-6, atol=1e-10, msg="error estimate")
            ctx.close(np.abs(steps[i + 1].reference_state), np.abs(y), w, rtol=1e-8, atol=1e-9, msg="reference state")
            ctx.step(2)
        for x in (0.2, 0.5, 0.9):
            t = ts[i] + x * h
            ctx.close(np.asarray(sol(t).mean), dense(M, y, K, hs, x), f"{w} t={t:.4f}", msg="dense output", rtol=1e-7, atol=1e-8)
            ctx.step()
    if pat != "event":
        for i in range(len(ts)):
            ctx.close(np.asarray(sol(ts[i]).mean), np.asarray(sol.states[i].mean), f"{W} location {i}", msg="dense output at a location", rtol=1e-7, atol=1e-8)
    qs = np.array([ts[0], 0.5 * (ts[0] + ts[1]), 0.3 * ts[-2] + 0.7 * ts[-1], ts[-1]])
    both = sol(qs)
    ctx.check(len(both) == 4, W, "number of dense outputs")
    for q, r in zip(qs, both):
        ctx.close(np.asarray(r.mean), np.asarray(sol(float(q)).mean), f"{W} array t={q:.4f}", rtol=1e-10, atol=1e-12, msg="dense output of an array")


def run_wrap(item, ctx):
    _, m, o, pat = item
    W = f"{m} {o} {pat}"
    ctx.state(W)
    with ctx.no_error(W):
        S = sw.WrappedScipyRungeKutta(METH[m], steprule=rule(pat))
        with Attempts() as log:
            sol = S.solve(c17.mkivp(o), **kw(pat))
        steps = list(sw.WrappedScipyRungeKutta(METH[m], steprule=rule(pat)).solution_generator(c17.mkivp(o), **kw(pat)))
        ctx.trace(2)
        ctx.outcome("rejected" if getattr(S.steprule, "n", [0])[0] else "no rejection")
        ctx.close(sol.locations, [s.t for s in steps], W, rtol=0, msg="generator and solve differ")
        ctx.check(isinstance(sol, sw.WrappedScipyODESolution), W, "type")
        verify(ctx, W, METH[m], o, pat, S, sol, steps, log=log)
        # a second solve with the same solver starts afresh
        sol2 = S.solve(c17.mkivp(o), **kw(pat))
        ctx.close(sol2.locations, sol.locations, W, rtol=0, msg="second solve: locations")
        ctx.close(sol2.states[-1].mean, sol.states[-1].mean, W, rtol=1e-12, msg="second solve: states")
        ctx.close(sol2(0.7).mean, sol(0.7).mean, W, rtol=1e-12, msg="second solve: dense output")


def run_pert(item, ctx):
    _, m, o, pat, tier = item
    depth = 4 if tier == "quick" else 5
    for script in itertools.product((0.6, 1.0, 1.5), repeat=depth):
        W = f"{m} {o} {pat} perturbations {script}"
        ctx.state(W)

        def mk():
            calls = []

            def fn(rng, step, solver_order, noise_scale, size):
                calls.append((step, solver_order, noise_scale))
                k = len(calls) - 1
                return step * (script[k] if k < len(script) else 1.0 + 0.05 * math.sin(k))
            return calls, ps.PerturbedStepSolver(rng=np.random.default_rng(1), solver=sw.WrappedScipyRungeKutta(METH[m], steprule=rule(pat)), noise_scale=2.5, perturb_function=fn)

        with ctx.no_error(W):
            calls, S = mk()
            with Attempts() as log:
                sol = S.solve(c17.mkivp(o), **kw(pat))
            c2, S2 = mk()
            steps = list(S2.solution_generator(c17.mkivp(o), **kw(pat)))
            ctx.trace(2)
            rej = getattr(S.solver.steprule, "n", [0])[0]
            ctx.outcome(f"rejected {min(rej, 3)}")
            ctx.check(all(c[1:] == (METH[m].order, 2.5) for c in calls), W, "perturbation called with another order or scale")
            ctx.check(isinstance(sol, ps.PerturbedStepSolution), W, "type")
            if rej == 0:
                ctx.close(np.asarray(sol.scales), [script[k] if k < len(script) else 1.0 + 0.05 * math.sin(k) for k in range(len(calls))], W, rtol=1e-9, msg="scales")
            verify(ctx, W, METH[m], o, pat, S, sol, steps, scales=list(sol.scales), log=log)
            if script == (1.0,) * depth:
                with Attempts() as log:
                    sol2 = S.solve(c17.mkivp(o), **kw(pat))
                verify(ctx, W + " (second solve)", METH[m], o, pat, S, sol2, None, scales=list(sol2.scales), log=log)


def run_law(item, ctx):
    kind = item[1]
    for h, p, s in itertools.product((1e-3, 0.05, 0.3, 0.9), (1, 3, 5), (0.0, 0.1, 1.0, 10.0)):
        W = f"perturb_{kind} step={h} order={p} scale={s}"
        ctx.state(W)
        if kind == "uniform":
            sh = s * h ** (p + 0.5)
            for u in (0.0, 0.25, 0.5, 0.999):
                for size, k in (((), 1), (1, 1), (3, 3), ((2,), 2), ((1, 2), 2)):
                    r = rl.ScriptRng()
                    r.uscript = [u] + [0.1 * (j + 1) for j in range(10)]
                    with ctx.no_error(W):
                        got = np.asarray(ps.perturb_uniform(rng=r, step=h, solver_order=p, noise_scale=s, size=size))
                        us = np.array(r.uscript[:k]).reshape(size)
                        ctx.close(got, h - sh + 2 * sh * us, f"{W} u={u} size={size}", rtol=1e-10, atol=1e-14, msg="perturbed step")
                        ctx.check(r.upos == k and r.pos == 0, W, "number of draws")
                        ctx.step()
                        ctx.trace()
        else:
            v = math.log1p(s * h ** (2 * p))
            for z in (-2.0, 0.0, 0.7):
                for size, k in (((), 1), (1, 1), (3, 3), ((2,), 2), ((1, 2), 2)):
                    r = rl.ScriptRng([z] + [0.3 * (j + 1) for j in range(10)])
                    with ctx.no_error(W):
                        got = np.asarray(ps.perturb_lognormal(rng=r, step=h, solver_order=p, noise_scale=s, size=size))
                        zs = np.array(r.script[:k]).reshape(size)
                        ctx.close(got, h * np.exp(-0.5 * v + math.sqrt(v) * zs), f"{W} z={z} size={size}", rtol=1e-8, atol=1e-14, msg="perturbed step")
                        ctx.check(r.pos == k and r.upos == 0, W, "number of draws")
                        ctx.step()
                        ctx.trace()
    if kind == "uniform":
        for h in (1.0, 1.5):
            ctx.raises(lambda: ps.perturb_uniform(rng=np.random.default_rng(1), step=h, solver_order=2, noise_scale=1.0), f"step {h}", ValueError)


def run_api(item, ctx):
    _, m, o = item
    f, df, y0 = c17.odes()[o]
    for pert, s, ad, st in itertools.product(("step-lognormal", "step-uniform"), (0.0, 1.0, 10.0), (0, 1), (None, (0.4, 0.8))):
        W = f"perturbsolve_ivp {m} {o} {pert} scale={s} adaptive={ad} stops={st}"
        ctx.state(W)
        k = dict(method=m, perturb=pert, noise_scale=s, time_stops=st)
        k.update(dict(adaptive=True, atol=1e-3, rtol=1e-3) if ad else dict(adaptive=False, step=0.2))
        with ctx.no_error(W):
            run = lambda seed: diffeq.perturbsolve_ivp(f, T0, TM, y0, rng=np.random.default_rng(seed), **k)
            g = np.random.get_state()[1].copy()
            with Attempts() as log:
                a = run(1)
            b, c = run(1), run(2)
            ctx.trace(3)
            ctx.check(np.array_equal(g, np.random.get_state()[1]), W, "global random state touched")
            ctx.check(np.array_equal(a.locations, b.locations) and all(np.array_equal(x.mean, y.mean) for x, y in zip(a.states, b.states)), W, "not reproducible")
            same = len(a.states) == len(c.states) and all(np.array_equal(x.mean, y.mean) for x, y in zip(a.states, c.states))
            ctx.check(same == (s == 0.0), W, "perturbation has no effect" if s else "perturbation in spite of zero noise scale")
            ctx.check(s > 0 or np.allclose(a.scales, 1.0), W, "scales without noise")
            verify(ctx, W, METH[m], o, "x", None, a, None, scales=list(a.scales), log=log)
            for x in st or ():
                ctx.check(np.min(np.abs(np.asarray(a.locations) - x)) < 1e-9, W, f"stop {x} missing")
            p = METH[m].order
            for h, sc in zip(np.diff(a.locations), a.scales):
                if pert == "step-uniform":
                    ctx.check(abs(sc - 1) <= s * h ** (p - 0.5) * (1 + 1e-9) + 1e-9, W, "perturbation too large")
                ctx.check(sc > 0 or pert == "step-uniform", W, "negative step")


def run_guards(item, ctx):
    f, df, y0 = c17.odes()["lin1"]
    k = dict(f=f, t0=0.0, tmax=1.0, y0=np.array(y0), rng=np.random.default_rng(1))
    for nm, a in [("method", dict(method="RK99")), ("perturbation", dict(perturb="step-cauchy")), ("atol", dict(atol=None)), ("rtol", dict(rtol=None))]:
        ctx.state(nm)
        ctx.raises(lambda: diffeq.perturbsolve_ivp(**k, **a), f"wrong {nm}", ValueError)
    ctx.raises(lambda: sw.WrappedScipyRungeKutta(rk.DOP853, steprule=stepsize.ConstantSteps(0.1)), "DOP853", TypeError)
    ctx.state("g")
