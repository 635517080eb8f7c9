"""C16: the stepping machine of ODE solvers - accepted and rejected steps, time stops, callbacks, the end of the domain; step-size rules."""
import itertools
import math
import warnings
import numpy as np
from scipy.integrate._ivp import rk
from probnum import diffeq, problems, randprocs, randvars
from probnum.diffeq import callbacks as cbm, odefilter, perturbed, stepsize

RULE = ("every sequence of accepted/rejected attempts and step suggestions up to the depth bound x first step x every set of requested stops x callbacks, on a recording solver "
        "driven by a scripted step rule: attempts, retries, locations, callback calls and recorded states equal the reference machine; every real solver x every set of stops; "
        "the step-size rules on the complete grid of errors, tolerances and references")
ASSUMPTIONS = ["at most 6 (quick: 4) scripted decisions, afterwards steps are accepted and doubled", "rejected steps come with smaller suggestions"]

STOPS = [None, (), (0.5,), (0.25, 0.5), (0.5, 0.5), (-1.0, 0.5), (-2.0, -1.0, 0.0, 0.25), (0.0,), (0.3125, 0.328125, 0.34375, 0.75), (1.0,), (0.5, 1.0, 2.0), (3.0,), (0.015625, 0.03125, 0.046875), (0.25, 0.25 + 2.0**-14, 0.75, 1 - 2.0**-14), (2.0**-20, 0.5, 0.5 + 2.0**-20)]  # dyadic: the times of the machine are exact
ALPH = [(0, 0.5), (1, 0.5), (1, 1.0), (1, 4.0)]


def items(tier):
    out = []
    depth = 4 if tier == "quick" else 6
    for k in range(len(STOPS)):
        for first in (0.125, 0.375, 3.0):
            for cb in ("none", "one", "two", "gen"):
                if cb in ("none", "one") or k in (0, 3, 8):
                    out.append(["machine", k, first, cb, depth if cb == "none" else depth - 1])
    out += [["tmax", depth - 1], ["rule"], ["norm"], ["first"], ["discrete"]]
    for s in ("ek0", "ek1", "rk23", "rk45", "pert-ln", "pert-un"):
        for ad in (0, 1):
            out.append(["real", s, ad, tier])
    return out


def run(item, ctx):
    return globals()["run_" + item[0]](item, ctx)


class Rule(stepsize.StepRule):
    def __init__(self, first, script):
        super().__init__(firststep=first)
        self.script, self.k, self.log, self.cur = script, 0, [], None

    def errorest_to_norm(self, errorest, reference_state):
        return (errorest, reference_state)

    def is_accepted(self, scaled_error):
        i = scaled_error[0]
        return bool(self.script[i][0]) if i < len(self.script) else True

    def suggest(self, laststep, scaled_error, localconvrate=None):
        i = scaled_error[0]
        self.log.append((laststep, i, scaled_error[1], localconvrate))
        f = self.script[i][1] if i < len(self.script) else 2.0
        return f * laststep if laststep > 1e-12 else 0.25


class Rec(diffeq.ODESolver):
    """records every attempt; error estimate and reference state carry the number of the attempt"""

    def __init__(self, rule, order=3):
        super().__init__(steprule=rule, order=order)
        self.att, self.mcb, self.n = [], [], 0

    def initialize(self, ivp):
        return diffeq.ODESolverState(ivp=ivp, t=ivp.t0, rv=randvars.Constant(np.array([0.0])), error_estimate=None, reference_state=None)

    def attempt_step(self, state, dt):
        self.att.append((state.t, float(np.asarray(state.rv.mean)[0]), dt))
        if len(self.att) > 400:
            raise RuntimeError("does not terminate")
        i = self.n
        self.n += 1
        return diffeq.ODESolverState(ivp=state.ivp, t=state.t + dt, rv=randvars.Constant(state.rv.mean + np.array([1.0 + i])), error_estimate=i, reference_state=100 + i)

    def method_callback(self, state):
        self.mcb.append(self.n - 1)

    def rvlist_to_odesol(self, times, rvs):
        return list(times), [float(np.asarray(r.mean)[0]) for r in rvs]


def ivp(tmax=1.0):
    return problems.InitialValueProblem(f=lambda t, y: y, t0=0.0, tmax=tmax, y0=np.array([0.0]))


def model(script, first, stops, replace, tmax=1.0):
    """reference machine -> attempts, times, values, callback arguments"""
    t, y, n = 0.0, 0.0, 0
    att, ts, ys, acc, sug = [], [0.0], [0.0], [], []
    dt = min(first, tmax)
    while t < tmax:
        nxt = [s for s in (stops or ()) if s > t]
        dt = min([dt] + [s - t for s in nxt])
        while True:
            att.append((t, y, dt))
            ok, f = script[n] if n < len(script) else (1, 2.0)
            d2 = f * dt if dt > 1e-12 else 0.25
            n += 1
            if ok:
                break
            dt = min(d2, tmax - t)
        y, t = y + n, t + dt
        acc.append(n - 1)
        y = replace(t, y)
        dt = min(d2, tmax - t)
        ts.append(t)
        ys.append(y)
    return att, ts, ys, acc, n


def run_machine(item, ctx):
    _, k, first, cb, depth = item
    stops = STOPS[k]
    todo = [()]
    while todo:
        s = todo.pop()
        ctx.state((k, first, cb, s))
        calls = []

        def mk(tag, cond, c):
            def repl(st):
                calls.append((tag, "replace", st.t))
                return diffeq.ODESolverState(ivp=st.ivp, t=st.t, rv=randvars.Constant(st.rv.mean * 0.5 + c), error_estimate=st.error_estimate, reference_state=st.reference_state)

            def con(st):
                calls.append((tag, "condition", st.t))
                return cond(st)
            return cbm.DiscreteCallback(replace=repl, condition=con)

        c1 = mk("a", lambda st: st.t >= 0.3, 0.25)
        c2 = mk("b", lambda st: float(st.rv.mean[0]) > 1.0, -1.0)
        cbs = {"none": None, "one": c1, "two": [c1, c2], "gen": (c for c in (c1, c2))}[cb]
        conds = {"none": [], "one": [("a", lambda t, y: t >= 0.3, 0.25)]}.get(cb, [("a", lambda t, y: t >= 0.3, 0.25), ("b", lambda t, y: y > 1.0, -1.0)])
        wantcalls = []

        def replace(t, y):
            for tag, con, c in conds:
                wantcalls.append((tag, "condition", t))
                if con(t, y):
                    wantcalls.append((tag, "replace", t))
                    y = 0.5 * y + c
            return y

        att, ts, ys, acc, n = model(s, first, stops, replace)
        ctx.trace()
        solver = Rec(Rule(first, s))
        W = f"first={first} stops={stops} script={s} callbacks={cb}"
        with ctx.no_error(W):
            sol = solver.solve(ivp(), stop_at=stops if k % 2 else (None if stops is None else np.array(stops)), callbacks=cbs)
            T, Y = sol
            ctx.step(len(solver.att))
            ctx.check(T[0] == 0.0 and all(a < b for a, b in zip(T, T[1:])), W, f"locations not increasing from the initial time: {T}")
            ctx.check(abs(T[-1] - 1.0) < 1e-9, W, f"does not end at tmax: {T[-1]}")
            for st in stops or ():
                if 0.0 < st < 1.0:
                    ctx.check(min(abs(np.array(T) - st)) < 1e-9, W, f"stop {st} is no location of the solution: {T}")
            ctx.check(len(solver.att) == len(att) and np.allclose(solver.att, att, atol=1e-9, rtol=1e-9), W, f"attempts (t, y, dt) {solver.att}, expected {att}")
            ctx.check(np.shape(T) == np.shape(ts) and np.allclose(T, ts, atol=1e-9) and np.allclose(Y, ys), W, f"solution {sol}, expected {(ts, ys)}")
            ctx.check(solver.mcb == acc, W, f"accepted-step hook called after attempts {solver.mcb}, expected {acc}")
            ctx.check([c[:2] for c in calls] == [c[:2] for c in wantcalls] and np.allclose([c[2] for c in calls], [c[2] for c in wantcalls]), W, f"callback calls {calls}, expected {wantcalls}")
            ctx.check([(l[1], l[2], l[3]) for l in solver.steprule.log] == [(i, 100 + i, 4) for i in range(n)] and np.allclose([l[0] for l in solver.steprule.log], [a[2] for a in att]), W, "step rule is asked with other values than those of the attempt")
            ctx.check(solver.num_steps == len(acc), W, f"num_steps {solver.num_steps} after {len(acc)} accepted steps")
        ctx.outcome(f"{len(acc)}:{len(att)}")
        if n > len(s) and len(s) < depth:
            todo += [s + (a,) for a in ALPH]


def run_tmax(item, ctx):
    """a callback that changes the end of the domain"""
    _, depth = item
    for new in (0.6, 1.5):
        for at in (0.2, 0.5):
            for d in range(depth + 1):
                for s in itertools.product(ALPH, repeat=d):
                    ctx.state((new, at, s))
                    cb = cbm.DiscreteCallback(condition=lambda st: st.t >= at, replace=lambda st: diffeq.ODESolverState(
                        ivp=ivp(new), t=st.t, rv=st.rv, error_estimate=st.error_estimate, reference_state=st.reference_state))
                    solver = Rec(Rule(0.125, s))
                    W = f"tmax->{new} at {at} {s}"
                    with ctx.no_error(W):
                        T, _ = solver.solve(ivp(), callbacks=cb)
                        ctx.step(len(T))
                        end = [t for t in T[1:] if t >= at][0]
                        want = max(new, end)
                        ctx.check(abs(T[-1] - want) < 0.125 * 4 + 1e-9 and T[-1] >= want - 1e-9, W, f"ends at {T[-1]}, expected {want}")
                        if new > 1:
                            ctx.check(abs(T[-1] - new) < 1e-9, W, f"ends at {T[-1]}, expected {new}")


def run_real(item, ctx):
    _, kind, ad, tier = item
    f, df = (lambda t, y: np.array([-y[0] + np.cos(3 * t), y[0] - 0.5 * y[1]])), (lambda t, y: np.array([[-1.0, 0.0], [1.0, -0.5]]))
    prob = problems.InitialValueProblem(f=f, df=df, t0=0.5, tmax=1.5, y0=np.array([-1.0, 0.2]))

    class Mon(stepsize.AdaptiveSteps):
        log = None

        def is_accepted(self, scaled_error):
            r = super().is_accepted(scaled_error)
            self.log.append((scaled_error, r))
            return r

    def mk(first):
        rule = Mon(firststep=first, atol=1e-3, rtol=1e-2) if ad else stepsize.ConstantSteps(first)
        rule.log = []
        if kind.startswith("ek"):
            pr = randprocs.markov.integrator.IntegratedWienerProcess(initarg=0.5, num_derivatives=2, wiener_process_dimension=2, diffuse=True, forward_implementation="sqrt", backward_implementation="sqrt")
            return rule, odefilter.ODEFilter(steprule=rule, prior_process=pr, approx_strategy=odefilter.approx_strategies.EK0() if kind == "ek0" else odefilter.approx_strategies.EK1(), init_routine=odefilter.init_routines.Stack())
        w = perturbed.scipy_wrapper.WrappedScipyRungeKutta(rk.RK23 if kind == "rk23" else rk.RK45, steprule=rule)
        if kind.startswith("rk"):
            return rule, w
        C = perturbed.step.PerturbedStepSolver
        return rule, (C.construct_with_lognormal_perturbation if kind == "pert-ln" else C.construct_with_uniform_perturbation)(rng=np.random.default_rng(3), solver=w, noise_scale=1.0)

    pool = [0.2, 0.5, 0.6, 0.75, 1.0, 1.00001, 1.5, 2.0]
    sets = [None] + [c for r in range(4) for c in itertools.combinations(pool, r)]
    for first in (0.2, 0.03, 2.0):
        if kind.startswith("pert-un") and first == 2.0:
            continue
        for stops in sets if tier != "quick" or first == 0.2 else sets[::4]:
            if stops is not None and len(stops) == 3 and tier == "quick" and ad:
                continue
            ctx.state((kind, ad, first, stops))
            W = f"{kind} adaptive={ad} first={first} stops={stops}"
            with ctx.no_error(W), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ctx.trace()
                rule, solver = mk(first)
                sol = solver.solve(prob, stop_at=stops)
                T = np.asarray(sol.locations)
                ctx.step(len(T))
                ctx.check(T[0] == 0.5 and np.all(np.diff(T) > 0) and abs(T[-1] - 1.5) < 1e-9, W, f"locations {T}")
                for s in stops or ():
                    if 0.5 < s < 1.5:
                        ctx.check(np.min(abs(T - s)) < 1e-9, W, f"stop {s} missing in {T}")
                ctx.check(len(sol.states) == len(T) and len(sol) == len(T), W, "states and locations differ in number")
                ctx.check(all(np.all(np.isfinite(np.asarray(r.mean))) for r in sol.states), W, "non-finite states")
                if ad:
                    ctx.check(all(r == (e < 1) for e, r in rule.log), W, "acceptance does not follow the error")
                    ctx.check(sum(e < 1 for e, r in rule.log) >= len(T) - 1, W, "a step with too large error has been kept")
                else:
                    cuts = sorted({0.5, 1.5} | {s for s in (stops or ()) if 0.5 < s < 1.5})
                    want = [0.5]
                    for a, b in zip(cuts, cuts[1:]):
                        while b - want[-1] > first + 1e-9:
                            want.append(want[-1] + first)
                        want.append(b)
                    # one step may be split by rounding
                    got = [T[0]] + [b for a, b in zip(T, T[1:]) if b - a > 1e-9]
                    ctx.check(len(got) == len(want) and np.allclose(got, want, atol=1e-8), W, f"locations {T}, expected {want}")


def run_rule(item, ctx):
    for small, large, saf, rate, last, err in itertools.product((0.2, 0.5), (2.0, 10.0), (0.95, 0.5), (1, 2, 3, 5, 8), (1e-3, 0.25, 7.0), (0.0, 1e-12, 1e-3, 0.3, 0.999, 1.0, 1.001, 2.0, 40.0, 1e6, 1e200)):
        ctx.state((small, large, saf, rate, last, err))
        r = stepsize.AdaptiveSteps(firststep=0.1, atol=1.0, rtol=1.0, limitchange=(small, large), safetyscale=saf)
        W = f"suggest({last}, {err}, rate={rate}) limits {(small, large)} safety {saf}"
        with ctx.no_error(W), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            got = r.suggest(last, np.float64(err), localconvrate=rate)
            ch = math.inf if err == 0 else saf * err ** (-1.0 / rate)
            ctx.close(got, last * min(max(ch, small), large), W, rtol=1e-9)
            ctx.check(bool(r.is_accepted(err)) == (err < 1), W, "acceptance")
            ctx.step(2)
            if err >= 1:
                ctx.check(got < last, W, "a rejected step is not made smaller")
    for lo, hi in ((1e-3, 10.0), (0.1, 0.2), (1e-15, 1e15)):
        for last, err in itertools.product((1e-4, 1e-2, 0.15, 5.0, 1e-15), (1e-6, 0.5, 3.0, 1e6)):
            r = stepsize.AdaptiveSteps(firststep=0.1, atol=1.0, rtol=1.0, minstep=lo, maxstep=hi)
            st = last * min(max(0.95 * err ** -0.25, 0.2), 10.0)
            W = f"minstep {lo} maxstep {hi} suggest({last}, {err})"
            ctx.step()
            if st < lo or st > hi:
                ctx.raises(lambda: r.suggest(last, err, localconvrate=4), W, RuntimeError)
            else:
                with ctx.no_error(W):
                    ctx.close(r.suggest(last, err, localconvrate=4), st, W, rtol=1e-9)
    for st, last, err in itertools.product((0.1, 2.0), (0.01, 3.0), (0.0, 1.0, 1e9, None, np.nan)):
        r = stepsize.ConstantSteps(st)
        ctx.step()
        with ctx.no_error("constant"):
            ctx.check(r.firststep == st and r.suggest(last, err) == st and r.suggest(last, err, localconvrate=3) == st and r.is_accepted(err) is True, "constant", "constant step rule")
    P = problems.InitialValueProblem(f=lambda t, y: -y, t0=0.0, tmax=1.0, y0=np.ones(1))
    for ad, st, at, rt in itertools.product((True, False), (None, 0.3), (None, 0.1), (None, 0.2)):
        from probnum.diffeq import _utils
        W = f"construct_steprule {ad} {st} {at} {rt}"
        kw = dict(ivp=P, adaptive=ad, step=st, atol=at, rtol=rt)
        ctx.step()
        if (ad and (at is None or rt is None)) or (not ad and st is None):
            ctx.raises(lambda: _utils.construct_steprule(**kw), W, ValueError)
            continue
        with ctx.no_error(W):
            r = _utils.construct_steprule(**kw)
            ctx.check(isinstance(r, stepsize.AdaptiveSteps if ad else stepsize.ConstantSteps), W, "wrong rule")
            ctx.close(r.firststep, st if st else 0.01, W, rtol=1e-12)
            if ad:
                ctx.check(r.atol == at and r.rtol == rt, W, "tolerances")


def run_norm(item, ctx):
    vals = (-2.0, -0.1, 0.0, 0.1, 2.0)
    for at, rt in itertools.product((0.1, 1e-3, 1.0), (0.0, 0.1, 1.0)):
        r = stepsize.AdaptiveSteps(firststep=0.1, atol=at, rtol=rt)
        for d in (1, 2, 3):
            for e in itertools.product((-1.0, 0.0, 0.3), repeat=d):
                for ref in itertools.product(vals if d < 3 else vals[::2], repeat=d):
                    ctx.state((at, rt, e, ref))
                    W = f"errorest_to_norm({e}, {ref}) atol={at} rtol={rt}"
                    with ctx.no_error(W), np.errstate(all="ignore"):
                        w = math.sqrt(sum((a / (at + rt * abs(b))) ** 2 for a, b in zip(e, ref)) / d)
                        ctx.close(r.errorest_to_norm(np.array(e), np.array(ref)), w, W, rtol=1e-10, atol=1e-13)
                        ctx.step()
        for e, ref in itertools.product((-1.0, 0.0, 0.3), vals):
            with ctx.no_error("scalar"):
                ctx.close(r.errorest_to_norm(np.float64(e), np.float64(ref)), abs(e) / (at + rt * abs(ref)), f"scalar {e} {ref} {at} {rt}", rtol=1e-10, atol=1e-13)
    ra = stepsize.AdaptiveSteps(firststep=0.1, atol=np.array([0.1, 1.0]), rtol=np.array([0.0, 0.5]))
    for e in itertools.product((-1.0, 0.0, 0.3), repeat=2):
        for ref in itertools.product(vals, repeat=2):
            with ctx.no_error("array tolerances"):
                w = math.sqrt(((e[0] / 0.1) ** 2 + (e[1] / (1.0 + 0.5 * abs(ref[1]))) ** 2) / 2)
                ctx.close(ra.errorest_to_norm(np.array(e), np.array(ref)), w, f"array tolerances {e} {ref}", rtol=1e-10, atol=1e-13)


def run_first(item, ctx):
    for d in (1, 2):
        for y0 in itertools.product((0.0, 1.0, -2.0), repeat=d):
            for fy in itertools.product((0.0, 0.5, -3.0), repeat=d):
                for t0 in (0.0, 2.0):
                    ctx.state((y0, fy, t0))
                    P = problems.InitialValueProblem(f=lambda t, y: np.array(fy) * (1.0 if t == t0 else 99.0), t0=t0, tmax=t0 + 1.0, y0=np.array(y0))
                    W = f"propose_firststep y0={y0} f={fy}"
                    with ctx.no_error(W), np.errstate(all="ignore"):
                        h = stepsize.propose_firststep(P)
                        ctx.check(np.isfinite(h) and h > 0, W, f"proposed step {h}")
                        if any(y0) and any(fy):
                            ctx.close(h, 0.01 * np.linalg.norm(y0) / np.linalg.norm(fy), W, rtol=1e-10)
                        ctx.step()
    for y0 in ([0.0], [0.0, 1.0], [0.0, 0.0]):
        for f in (lambda t, y: 1.0 - y, lambda t, y: 0.0 * y):
            for m in ("EK0", "RK45"):
                W = f"default first step {m} y0={y0}"
                ctx.state(W)
                with ctx.no_error(W), warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    if m == "EK0":
                        if f(0, np.zeros(1))[0] == 0.0:
                            continue  # a constant solution has a zero diffusion estimate
                        s = diffeq.probsolve_ivp(f, 0.0, 0.5, np.array(y0), method="EK0", atol=1e-1, rtol=1e-1)
                    else:
                        s = diffeq.perturbsolve_ivp(f, 0.0, 0.5, np.array(y0), rng=np.random.default_rng(1), method="RK45")
                    ctx.close(s.locations[-1], 0.5, W, rtol=1e-9)
                    want = np.array(y0) if f(0, np.zeros(1))[0] == 0.0 else 1 - (1 - np.array(y0)) * np.exp(-0.5)
                    ctx.close(s.states[-1].mean, want, W, rtol=0, atol=0.05)


def run_discrete(item, ctx):
    """a discrete callback replaces the state exactly when its condition holds"""
    for c in (True, False, np.bool_(True), np.bool_(False), 1, 0, 0.0, 2.0):
        ctx.state(repr(c))
        seen = []
        cb = cbm.DiscreteCallback(replace=lambda s: seen.append(s) or "new", condition=lambda s: c)
        with ctx.no_error(f"condition {c!r}"):
            r = cb("old")
            ctx.check(r == ("new" if c else "old") and seen == (["old"] if c else []), f"condition {c!r}", f"returned {r}")
            ctx.step()
