"""C21: the Bayesian quadrature loop - evaluation budget, stopping, nodes, initial designs, reproducibility."""
import itertools
import math
import warnings
import numpy as np
import probnum
from probnum import quad, randvars
from probnum.quad import integration_measures as im
from probnum.quad import kernel_embeddings as ke
from probnum.quad.solvers import BayesianQuadrature, BQIterInfo, BQState, acquisition_functions as af, initial_designs as idm, policies as pol, stopping_criteria as sc
from mc import rvlib as rl
from props import c20

RULE = ("every combination of policy x batch size x stopping options x initial design x initial data on 1-d and 2-d problems: the trace of states yielded by the loop is replayed against a reference loop "
        "(budget accounting, integrand calls, stopping decision in every state, beliefs, nodes as the policy defines them under scripted draws); every boolean expression of stopping criteria to depth 3 on every truth assignment; "
        "designs for every size")
ASSUMPTIONS = ["at most 40 evaluations per run", "Nelder-Mead policies are checked for feasibility and for not being worse than their starting points"]
CAP = 60


def items(tier):
    out = []
    for p in ("vdc", "bmc", "us_rand", "mi_rand", "ivr_rand"):
        for prob in ("eq-leb1", "mat12", "eq-gauss1", "eq-gauss2", "pm2"):
            if p == "vdc" and prob not in ("eq-leb1", "mat12"):
                continue
            for bs in (1, 2, 3):
                if bs > 1 and p.endswith("_rand"):
                    continue
                for de in (None, "mc", "latin"):
                    if de == "latin" and "gauss" in prob:
                        continue
                    out.append(["loop", p, prob, bs, de, tier])
    for p in ("us", "mi", "ivr"):
        for prob in ("eq-leb1", "eq-gauss1", "pm2") + (() if tier == "quick" else ("mat12", "eq-gauss2")):
            out.append(["opt", p, prob])
    out += [["vdcseq"], ["custom"], ["latin"], ["mcdesign"], ["zero"], ["algebra", tier], ["crit"], ["guards"], ["api"]]
    return out


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


class Count:
    def __init__(self, f, cap=CAP):
        self.f, self.calls, self.cap = f, [], cap

    def __call__(self, X):
        self.calls.append(np.array(X))
        if sum(map(len, self.calls)) > self.cap:
            raise RuntimeError("evaluation cap")
        return self.f(X)


def vdc(n):
    q, b = 0.0, 0.5
    while n:
        q += (n & 1) * b
        n >>= 1
        b /= 2
    return q


def stop_ref(opt, d, belief, prev, nevals):
    if not any(k in opt for k in ("max_evals", "var_tol", "rel_tol")):
        return float(belief.cov) <= 1e-6 or nevals >= 25 * d
    s = False
    if "max_evals" in opt:
        s |= nevals >= opt["max_evals"]
    if "var_tol" in opt:
        s |= float(belief.cov) <= opt["var_tol"]
    if "rel_tol" in opt and prev is not None:
        s |= abs(float(belief.mean) - float(prev.mean)) <= opt["rel_tol"] * abs(float(belief.mean))
    return bool(s)


def acq_ref(p, r, P, meas):
    _, v = r.predict(P)
    if p.startswith("us"):
        return v / r.scale * np.asarray(meas(P)) ** 2
    return r.cross(P) ** 2 / (r.var * v)  # monotone for both ivr and mi


def run_loop(item, ctx):
    _, p, prob, bs, de, tier = item
    ker, meas = c20.problems()[prob]
    d = meas.input_dim
    opts = []
    for me, vt, rt in itertools.product((None, 1, 4, 7), (None, 0.3, 1e-3), (None, 0.5, 0.05)):
        if me is None and (rt is None) != (vt is None) and bs == 2:
            continue
        o = {k: v for k, v in (("max_evals", me), ("var_tol", vt), ("rel_tol", rt)) if v is not None}
        opts.append(o)
    opts += [{"max_evals": 0}, {"max_evals": 0, "rel_tol": 0.5}]
    if bs == 3 or p.endswith("_rand") and d == 1:
        opts += [{"var_tol": 0.0}, {"rel_tol": 0.0}]
    for opt, given, s in itertools.product(opts, (0, 2), ("mle", None)):
        if s is None and (given or len(opt) == 1):
            continue
        if not opt and (d > 1 or given or s is None):
            continue
        o = dict(opt, batch_size=bs, scale_estimation=s, n_initial_design_nodes=3, n_candidates=4, jitter=1e-6)
        W = f"{p} {prob} batch={bs} design={de} given={given} scale={s} {opt}"
        ker, meas = c20.problems()[prob]
        f = Count(c20.FN)
        X0 = c20.NODES[:given, :d].copy() if given else None
        cand = []

        def script():
            r = rl.ScriptRng([((7 * i) % 11 - 5) / 3.7 for i in range(400)])
            r.uscript = [((5 * i + 3) % 17 + 0.31) / 17.9 for i in range(900)]
            return r
        rng = script() if de != "latin" else np.random.default_rng(5)
        with ctx.no_error(W):
            S = BayesianQuadrature.from_problem(input_dim=d, kernel=ker, measure=meas, policy=p, initial_design=de, options=o)
            orig = S.bq_iterator
            trace = []

            def it(*a, **k):
                for x in orig(*a, **k):
                    trace.append(x)
                    yield x
            S.bq_iterator = it
            orig_sample = meas.sample
            draws = []
            meas.sample = lambda n_sample, rng: (draws.append(orig_sample(n_sample, rng)), draws[-1])[1]
            if p == "bmc":
                S.policy.sample_func = meas.sample
            try:
                belief, st, info = S.integrate(fun=f, nodes=X0, fun_evals=None, rng=rng)
            except RuntimeError as e:
                if "cap" not in str(e):
                    raise
                # more evaluations than the cap: only acceptable if no criterion was met on the way
                ctx.check(not any(t[2].has_converged for t in trace), W, "went on after convergence")
                ctx.outcome("cap")
                continue
            ctx.trace()
            # calls of the integrand
            calls = list(f.calls)
            start = []
            if given:
                start.append(calls.pop(0))
                ctx.close(start[0], X0, W, rtol=0, msg="given nodes evaluated elsewhere")
            if de:
                start.append(calls.pop(0))
                ctx.check(start[-1].shape == (3, d), W, "size of the initial design")
                if de == "mc":
                    ctx.close(start[-1], draws.pop(0), W, rtol=0, msg="initial design")
            n0 = sum(map(len, start))
            ctx.check(len(trace) == len(calls) + 1, W, f"{len(trace)} states for {len(calls)} rounds")
            ctx.outcome(len(calls), bs)
            X, prev = (np.vstack(start) if start else np.empty((0, d))), None
            prevs = []
            if n0:
                prevs.append((0.0, float(ke.KernelEmbedding(ker, meas).kernel_variance())))
                prev = trace[0][1].previous_integral_beliefs[-1] if trace[0][1].previous_integral_beliefs else None
                ctx.check(prev is not None and float(prev.mean) == 0.0, W, "prior belief is not in the history")
            for i, (b, q, inf) in enumerate(trace):
                w = f"{W} state {i}"
                ctx.state(p, prob, bs, de, given, s, opt, i)
                r = c20.Ref(ker, meas, X, c20.FN(X) if len(X) else [], 1e-6, s)
                ctx.close(float(b.mean), r.mean, w, rtol=1e-4, atol=1e-6, msg="mean")
                ctx.close(float(b.cov), r.var, w, rtol=1e-3, atol=1e-6, msg="variance")
                ctx.check(b is q.integral_belief, w, "belief is not that of the state")
                ctx.check(inf.nevals == len(X) == len(q.nodes) == len(q.fun_evals), w, f"nevals {inf.nevals}, stored {len(q.nodes)}, evaluated {len(X)}")
                ctx.check(inf.iteration == i, w, f"iteration {inf.iteration}")
                ctx.close(q.nodes, X, w, rtol=0, msg="nodes")
                if len(X):
                    ctx.close(q.fun_evals, c20.FN(X), w, rtol=1e-13, msg="function values")
                stop = stop_ref(opt, d, b, prev, len(X))
                ctx.check(bool(inf.has_converged) == stop, w, f"has_converged {inf.has_converged}, criteria say {stop}")
                ctx.check(stop == (i == len(trace) - 1), w, "did not stop when a criterion was met" if stop else "stopped although no criterion was met")
                ctx.step(4)
                prev = b
                if i < len(calls):
                    nw = calls[i]
                    ctx.check(nw.shape == (bs, d), w, f"batch of shape {nw.shape}")
                    if p == "vdc":
                        lo, hi = float(meas.domain[0][0]), float(meas.domain[1][0])
                        ctx.close(nw[:, 0], [lo + (hi - lo) * vdc(len(X) + 1 + j) for j in range(bs)], w, rtol=1e-13, msg="van der Corput nodes")
                    elif p == "bmc":
                        ctx.close(nw, draws[i], w, rtol=0, msg="node is not the sample")
                    else:
                        C = draws[i]
                        ctx.check(C.shape == (4, d), w, "number of candidates")
                        v = acq_ref(p, r, C, meas)
                        j = int(np.argmin(np.abs(C - nw).sum(axis=1)))
                        ctx.close(nw[0], C[j], w, rtol=0, msg="node is not a candidate")
                        ctx.check(v[j] >= np.nanmax(v) * (1 - 1e-2) - 1e-6, w, f"candidate {j} chosen, acquisition values {v}")
                    X = np.vstack([X, nw])
            ctx.check(belief is trace[-1][0] and st is trace[-1][1] and info is trace[-1][2], W, "result is not the last state")
            if p in ("bmc", "us_rand", "mi_rand", "ivr_rand"):
                ctx.check(len(draws) == len(calls), W, f"{len(draws)} draws for {len(calls)} rounds")
            del meas.sample
        meas.__dict__.pop("sample", None)


def run_opt(item, ctx):
    _, p, prob = item
    ker, meas = c20.problems()[prob]
    d = meas.input_dim
    A = {"us": af.WeightedPredictiveVariance, "mi": af.MutualInformation, "ivr": af.IntegralVarianceReduction}[p]()
    for k, nr in itertools.product((0, 1, 3), (1, 2)):
        W = f"{p} {prob} nodes={k} restarts={nr}"
        ctx.state(W)
        with ctx.no_error(W):
            st = BQState(measure=meas, kernel=ker, integral_belief=randvars.Normal(0.0, ke.KernelEmbedding(ker, meas).kernel_variance()))
            X = c20.NODES[:k, :d]
            if k:
                _, st = c20.bu.BQStandardBeliefUpdate(jitter=1e-6, scale_estimation="mle")(st, X, c20.FN(X))
            P = pol.MaxAcquisitionPolicy(batch_size=1, acquisition_func=A, n_restarts=nr)
            orig, draws = meas.sample, []
            meas.sample = lambda n_sample, rng: (draws.append(orig(n_sample, rng)), draws[-1])[1]
            try:
                x = P(st, np.random.default_rng(7))
            finally:
                del meas.sample
            ctx.trace()
            ctx.check(x.shape == (1, d) and len(draws) == 1 and draws[0].shape == (nr, d), W, "shape / restarts")
            ctx.check(np.all(x >= meas.domain[0]) and np.all(x <= meas.domain[1]), W, "outside the domain")
            r = c20.Ref(ker, meas, X, c20.FN(X) if k else [], 1e-6, "mle")
            best = np.max(acq_ref(p, r, draws[0], meas))
            ctx.check(acq_ref(p, r, x, meas)[0] >= best - 1e-6, W, "worse than a starting point")
            ctx.step(2)
            if d == 1 and np.all(np.isfinite(meas.domain[0])):
                # a local maximiser: neighbours are not better
                h = 1e-2
                nb = np.clip(np.array([x[0] - h, x[0] + h]), meas.domain[0], meas.domain[1])
                ctx.check(acq_ref(p, r, x, meas)[0] >= np.max(acq_ref(p, r, nb, meas)) - 1e-6, W, "not a local maximum")
        f = Count(c20.FN)
        with ctx.no_error(W):
            S = BayesianQuadrature.from_problem(input_dim=d, kernel=ker, measure=meas, policy=p, options=dict(max_evals=3, n_restarts=2))
            b, q, info = S.integrate(fun=f, nodes=X if k else None, fun_evals=None, rng=np.random.default_rng(2))
            n = max(3, k)
            ctx.check(info.nevals == n == sum(map(len, f.calls)) and info.has_converged and info.iteration == n - k, W, f"info {info}, {len(f.calls)} calls")
            r = c20.Ref(ker, meas, q.nodes, q.fun_evals, 1e-8, "mle")
            ctx.close(float(b.mean), r.mean, W, rtol=1e-3, atol=1e-5, msg="mean")
            ctx.trace()
            ctx.step()


def run_vdcseq(item, ctx):
    f = pol.VanDerCorputPolicy.van_der_corput_sequence
    for a in range(0, 70):
        ctx.close(f(a), [vdc(a)], f"start {a}", rtol=0, msg="one element")
        for b in range(a, min(a + 9, 70)):
            ctx.state(a, b)
            ctx.close(f(a, b), [vdc(n) for n in range(a, b)], f"{a}-{b}", rtol=0, msg="sequence")
            ctx.step()
            ctx.trace()


def run_custom(item, ctx):
    """policies on arbitrary states and with user-defined acquisition functions of either sign"""
    ker, meas = c20.problems()["mat12"]
    lo, hi = float(meas.domain[0][0]), float(meas.domain[1][0])
    for pat in itertools.product((0.25, -0.5, 0.75), repeat=3):
        for k, bs in itertools.product(range(4), (1, 2, 3)):
            X = np.array(pat[:k]).reshape(k, 1)
            W = f"vdc after {pat[:k]} batch {bs}"
            ctx.state(W)
            with ctx.no_error(W):
                st = BQState(measure=meas, kernel=ker, nodes=X, fun_evals=np.ones(k))
                got = pol.VanDerCorputPolicy(bs, meas)(st, None)
                ctx.trace()
                ctx.close(got, [[lo + (hi - lo) * vdc(k + 1 + j)] for j in range(bs)], W, rtol=1e-13, msg="nodes")
                ctx.step()

    class Acq(af.AcquisitionFunction):
        def __init__(self, f):
            self.f = f

        @property
        def has_gradients(self):
            return False

        def __call__(self, x, bq_state):
            return self.f(x[:, 0]), None

    fs = {"negative": lambda x: -3.0 - (x - 0.3) ** 2, "positive": lambda x: np.exp(-(x + 0.4) ** 2), "both signs": lambda x: np.cos(4.0 * x) - 0.9 * x, "increasing": lambda x: x - 10.0, "decreasing": lambda x: 2.0 - x, "tiny": lambda x: -1e-12 * (x - 0.1) ** 2}
    st = BQState(measure=meas, kernel=ker, integral_belief=randvars.Normal(0.0, 1.0))
    for (nm, f), n, seed in itertools.product(fs.items(), (1, 2, 5), range(4)):
        W = f"acquisition {nm} candidates {n} seed {seed}"
        ctx.state(W)
        with ctx.no_error(W):
            C = meas.sample(n, rng=np.random.default_rng(seed))
            x = pol.RandomMaxAcquisitionPolicy(batch_size=1, acquisition_func=Acq(f), n_candidates=n)(st, np.random.default_rng(seed))
            ctx.close(x, C[[int(np.argmax(f(C[:, 0])))]], W, rtol=0, msg="candidate of largest value")
            y = pol.MaxAcquisitionPolicy(batch_size=1, acquisition_func=Acq(f), n_restarts=n)(st, np.random.default_rng(seed))
            ctx.check(y.shape == (1, 1) and lo <= y[0, 0] <= hi, W, f"optimiser {y}")
            ctx.check(f(y[:, 0])[0] >= np.max(f(C[:, 0])) - (1e-9 if nm != "tiny" else 0), W, "optimiser worse than a starting point")
            if nm not in ("both signs", "tiny"):
                g = np.linspace(lo, hi, 401)
                ctx.check(f(y[:, 0])[0] >= np.max(f(g)) - 1e-3, W, f"optimiser {y} of a unimodal function")
            ctx.trace(2)
            ctx.step(3)


def run_latin(item, ctx):
    for d, n, seed in itertools.product((1, 2, 3), range(1, 9), range(4)):
        lo, hi = np.array([-2.0, 0.5, 3.0])[:d], np.array([1.0, 0.75, 13.0])[:d]
        W = f"latin d={d} n={n} seed={seed}"
        ctx.state(W)
        with ctx.no_error(W):
            D = idm.LatinDesign(n, im.LebesgueMeasure((lo, hi), input_dim=d))
            ctx.check(D.requires_rng, W, "requires_rng")
            X = D(np.random.default_rng(seed))
            ctx.trace()
            ctx.check(X.shape == (n, d), W, "shape")
            U = (X - lo) / (hi - lo)
            for i in range(d):
                ctx.check(sorted(np.minimum(np.floor(U[:, i] * n + 1e-12).astype(int), n - 1)) == list(range(n)), W, f"strata of axis {i}: {U[:, i]}")
                ctx.step()
            ctx.check(np.array_equal(X, D(np.random.default_rng(seed))), W, "not reproducible")


def run_mcdesign(item, ctx):
    for prob in ("eq-leb1", "eq-gauss1", "eq-gauss2", "pm3"):
        ker, meas = c20.problems()[prob]
        for n in range(1, 6):
            W = f"mc {prob} n={n}"
            ctx.state(W)
            with ctx.no_error(W):
                D = idm.MCDesign(n, meas)
                mk = lambda: np.random.default_rng(4)
                ctx.check(D.requires_rng, W, "requires_rng")
                ctx.close(D(mk()), meas.sample(n, rng=mk()), W, rtol=0, msg="design")
                P = pol.RandomPolicy(n, meas.sample)
                ctx.close(P(None, mk()), meas.sample(n, rng=mk()), W, rtol=0, msg="random policy")
                ctx.trace(2)
                ctx.step(2)


def run_zero(item, ctx):
    """integrands that vanish on the nodes, constants, negative integrals: the loop ends"""
    ker, meas = c20.problems()["eq-leb1"]
    for nm, f in (("zero", lambda X: np.zeros(len(X))), ("constant", lambda X: np.full(len(X), 2.0)), ("negative", lambda X: -1.0 - X[:, 0] ** 2), ("tiny", lambda X: 1e-30 * (1 + X[:, 0]))):
        for p, rt, bs, de, s in itertools.product(("vdc", "bmc"), (0.3, 1e-2), (1, 2), (None, "mc"), ("mle", None)):
            W = f"{nm} {p} rel_tol={rt} batch={bs} design={de} scale={s}"
            ctx.state(W)
            g = Count(f, 400)
            with ctx.no_error(W):
                b, info = quad.bayesquad(g, 1, kernel=ker, measure=meas, policy=p, initial_design=de, rng=np.random.default_rng(1), options=dict(rel_tol=rt, batch_size=bs, scale_estimation=s, jitter=1e-6))
                ctx.trace()
                ctx.check(info.has_converged and info.nevals == sum(map(len, g.calls)), W, f"info {info}")
                ctx.step()


def run_algebra(item, ctx):
    tier = item[1]
    class Leaf(probnum.StoppingCriterion):
        def __init__(self, i):
            self.i = i

        def __call__(self, v, k=0):
            return v[self.i]
    leaves = [(Leaf(i), (lambda i: lambda v: v[i])(i), f"x{i}") for i in range(3)]
    leaves.append((probnum.LambdaStoppingCriterion(lambda v, k=0: v[0] != v[1]), lambda v: v[0] != v[1], "xor"))
    levels = list(leaves)

    def grow(A, B):
        out = [(~a, (lambda f: lambda v: not f(v))(fa), f"~{na}") for a, fa, na in A]
        for (a, fa, na), (b, fb, nb) in itertools.product(A, B):
            out.append((a & b, (lambda f, g: lambda v: f(v) and g(v))(fa, fb), f"({na}&{nb})"))
            out.append((a | b, (lambda f, g: lambda v: f(v) or g(v))(fa, fb), f"({na}|{nb})"))
        return out
    two = grow(leaves, leaves)
    three = grow(two, leaves) + grow(leaves, two) + (grow(two, two) if tier != "quick" else grow(two[::3], two[::2]))
    for e, f, n in leaves + two + three:
        ctx.state(n)
        for v in itertools.product((False, True), repeat=3):
            ctx.check(bool(e(v)) == f(v), n, f"on {v}")
            ctx.check(bool(e(v, k=3)) == f(v), n, f"on {v} with keyword")
            ctx.step()
        ctx.check(isinstance(e, probnum.StoppingCriterion), n, "type")
        ctx.trace()


def run_crit(item, ctx):
    ker, meas = c20.problems()["eq-leb1"]
    N = randvars.Normal
    for m, pm, v, n in itertools.product((-2.0, -1e-3, 0.0, 1e-3, 2.0), (None, -2.1, 0.0, 1e-3, 1.9, 2.0), (0.0, 1e-6, 0.5), (0, 1, 5, 6)):
        st = BQState(measure=meas, kernel=ker, integral_belief=N(m, v), previous_integral_beliefs=() if pm is None else (N(7.0, 1.0), N(pm, 1.0)))
        info = BQIterInfo(iteration=3, nevals=n, has_converged=False)
        W = f"mean={m} previous={pm} var={v} nevals={n}"
        ctx.state(W)
        with ctx.no_error(W):
            ctx.check(sc.ImmediateStop()(st, info) is True, W, "ImmediateStop")
            for k in (1, 5, 6.0, 7):
                ctx.check(bool(sc.MaxNevals(k)(st, info)) == (n >= k), W, f"MaxNevals({k})")
            for t in (0.0, 1e-6, 1e-3, 0.5, 1.0):
                ctx.check(bool(sc.IntegralVarianceTolerance(t)(st, info)) == (v <= t), W, f"IntegralVarianceTolerance({t})")
            for t in (1e-9, 0.01, 0.06, 0.5, 3.0):
                want = pm is not None and abs(m - pm) <= t * abs(m)
                ctx.check(bool(sc.RelativeMeanChange(t)(st, info)) == want, W, f"RelativeMeanChange({t})")
            ctx.step(14)
            ctx.trace()
            a = BQIterInfo.from_iteration(info, dnevals=2)
            b = BQIterInfo.from_stopping_decision(info, has_converged=True)
            ctx.check((a.iteration, a.nevals, a.has_converged) == (4, n + 2, False) and (b.iteration, b.nevals, b.has_converged) == (3, n, True), W, "iteration info")


def run_guards(item, ctx):
    ker, meas = c20.problems()["eq-leb1"]
    for bs in (0, 2, 5):
        ctx.state(bs)
        ctx.raises(lambda: pol.RandomMaxAcquisitionPolicy(batch_size=bs, acquisition_func=af.MutualInformation(), n_candidates=3), f"batch {bs}", ValueError)
        ctx.raises(lambda: pol.MaxAcquisitionPolicy(batch_size=bs, acquisition_func=af.MutualInformation(), n_restarts=3), f"batch {bs}", ValueError)
    for n in (0, -1):
        ctx.raises(lambda: pol.RandomMaxAcquisitionPolicy(batch_size=1, acquisition_func=af.MutualInformation(), n_candidates=n), f"candidates {n}", ValueError)
        ctx.raises(lambda: pol.MaxAcquisitionPolicy(batch_size=1, acquisition_func=af.MutualInformation(), n_restarts=n), f"restarts {n}", ValueError)
    want = dict(vdc=False, bmc=True, us=True, mi=True, ivr=True, us_rand=True, mi_rand=True, ivr_rand=True)
    for p, w in want.items():
        S = BayesianQuadrature.from_problem(input_dim=1, kernel=ker, measure=meas, policy=p)
        ctx.state(p)
        ctx.check(S.policy.requires_rng == w, p, "requires_rng")
        if w:
            ctx.raises(lambda: S.integrate(fun=c20.FN, nodes=None, fun_evals=None), p, ValueError)


def run_api(item, ctx):
    """bayesquad: the same seed gives the same result, the global generator is left alone, default budget"""
    for prob, p, de, bs in itertools.product(("eq-leb1", "mat1", "eq-gauss2", "pm2"), ("bmc", "vdc", "us_rand", "mi_rand", "ivr_rand"), (None, "mc", "latin"), (1, 3)):
        ker, meas = c20.problems()[prob]
        d = meas.input_dim
        if (p == "vdc" and d > 1) or (de == "latin" and "gauss" in prob) or (bs > 1 and p.endswith("_rand")):
            continue
        W = f"bayesquad {prob} {p} design={de} batch={bs}"
        ctx.state(W)
        with ctx.no_error(W):
            g = np.random.get_state()[1].copy()
            res = []
            for seed in (1, 1, 2):
                f = Count(c20.FN, 200)
                b, info = quad.bayesquad(f, d, kernel=ker, measure=meas, policy=p, initial_design=de, rng=np.random.default_rng(seed), options=dict(batch_size=bs, max_evals=6, n_candidates=5))
                res.append((np.vstack(f.calls), float(b.mean), float(b.cov)))
                n0 = 5 * d if de else 0
                want = n0
                while want < 6:
                    want += bs
                ctx.check(len(res[-1][0]) == want == info.nevals, W, f"{len(res[-1][0])} evaluations, expected {want}, reported {info.nevals}")
                ctx.check(np.all(res[-1][0] >= meas.domain[0]) and np.all(res[-1][0] <= meas.domain[1]), W, "node outside the domain")
                ctx.trace()
                ctx.step()
            ctx.check(np.array_equal(res[0][0], res[1][0]) and res[0][1:] == res[1][1:], W, "not reproducible")
            ctx.check(p == "vdc" and de is None or not np.array_equal(res[0][0], res[2][0]), W, "seed without effect")
            ctx.check(np.array_equal(g, np.random.get_state()[1]), W, "global random state touched")
    # domain instead of measure
    for dom, d in (((0.0, 1.0), 1), ((0.0, 1.0), 2), ((np.array([0.0, -1.0]), np.array([1.0, 1.0])), 2), ((-1, 1), 1)):
        W = f"domain {dom} d={d}"
        ctx.state(W)
        with ctx.no_error(W):
            M = im.LebesgueMeasure(dom, input_dim=d)
            a = quad.bayesquad(c20.FN, d, domain=dom, rng=np.random.default_rng(1), options=dict(max_evals=4))[0]
            b = quad.bayesquad(c20.FN, d, measure=M, rng=np.random.default_rng(1), options=dict(max_evals=4))[0]
            c = quad.bayesquad(c20.FN, d, measure=M, domain=(3.0, 4.0), rng=np.random.default_rng(1), options=dict(max_evals=4))[0]
            ctx.check(float(a.mean) == float(b.mean) == float(c.mean) and float(a.cov) == float(b.cov) == float(c.cov), W, "domain and measure differ")
            ctx.trace(3)
