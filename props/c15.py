"""C15: particle filters follow the sequential importance resampling recursion on every path."""
import itertools
import numpy as np
import scipy.stats
from probnum import problems, randvars
from probnum.filtsmooth import particle
from probnum.randprocs import markov
from probnum.randprocs.markov import discrete as disc
from mc import rvlib as rl
from props import c10

RULE = ("every model x importance distribution x number of particles x horizon x initial argument x sequence of informative/uninformative observations x every script of the random "
        "draws over a small alphabet: at every step the weights equal (previous weight) x likelihood x dynamics/importance density, normalised, continuing from the particles that "
        "were returned before; resampling happens exactly when the effective number of particles is below the threshold; non-trivial = distinct (configuration, script, weights)")
ASSUMPTIONS = ["state dimension <= 2, <= 3 particles, horizon <= 3", "weights compared up to the 1e-14 offset inside the logarithm of the old weight"]

ALPHA = (-1.1, 0.6)


def dynamics(name):
    """transition, exact(t, dt), n"""
    if name == "lg1":
        return c10._lg(1, 1, "classic", "classic")
    if name == "lg2":
        return c10._lg(2, 2, "classic", "classic")
    if name == "iwp1":
        return c10._integ("iwp", 1, 1, "classic", "classic")
    if name == "iwp0":
        return c10._integ("iwp", 0, 1, "classic", "classic")
    raise KeyError(name)


def model(kind, n, R):
    """measurement model (affine or sine) with time-dependent parts"""
    H = c10.tmat(1, n, 0.4)
    h = (lambda t, x: H @ x + 0.3 * t) if kind == "aff" else (lambda t, x: np.sin(H @ x) + 0.3 * t)
    J = (lambda t, x: H) if kind == "aff" else (lambda t, x: np.cos(H @ x)[:, None] * H)
    m = np.array([0.2])
    nl = disc.NonlinearGaussian(input_dim=n, output_dim=1, transition_fun=h, transition_fun_jacobian=J, noise_fun=lambda t: randvars.Normal(m * (1 + t), R * (1 + t) * np.eye(1)))
    return nl, h, J, (lambda t: m * (1 + t)), (lambda t: R * (1 + t) * np.eye(1))


def importance(kind, T):
    if kind == "boot":
        return particle.BootstrapImportanceDistribution(T)
    if kind == "ekf":
        return particle.LinearizationImportanceDistribution.from_ekf(T)
    if kind == "ekfs":
        return particle.LinearizationImportanceDistribution.from_ekf(T, "sqrt", "sqrt")
    return particle.LinearizationImportanceDistribution.from_ukf(T)


def items(tier):
    out = []
    for dyn in ("lg1", "lg2", "iwp0", "iwp1"):
        for imp in ("boot", "ekf", "ukf", "ekfs"):
            for meas in ("aff", "sin"):
                for N in (1, 2, 3):
                    if tier == "quick" and (imp == "ekfs" and N > 1 or dyn in ("lg2", "iwp0") and (N != 2 or meas == "aff") or N == 3 and meas == "aff"):
                        continue
                    for r in (1, 2) if tier == "quick" else (1, 2, 3):
                        out.append(["pf", dyn, imp, meas, N, r, tier])
    out += [["law", dyn, imp] for dyn in ("lg1", "lg2", "iwp1") for imp in ("boot", "ekf")]
    out += [["far", imp] for imp in ("boot", "ekf", "ukf")]
    out += [["reuse", imp] for imp in ("boot", "ekf", "ukf")]
    out += [["faint", imp] for imp in ("boot", "ekf", "ukf")]
    out += [["ess"], ["guard"]]
    return out


def run(item, ctx):
    return globals()["run_" + item[0]](item, ctx)


def build(dyn, imp, meas, N, Rs, before, thr, rng):
    mk, exact, n, _ = dynamics(dyn)
    T = mk()
    ts = [0.0, 0.5, 1.2][: len(Rs)]
    t0 = -0.3 if before else 0.0
    rv, m, P = c10.mkrv("plain", n, 3)
    mods = [model(meas, n, R) for R in Rs]
    ys = [np.array([0.7 - 0.9 * k]) for k in range(len(Rs))]
    cls = markov.MarkovSequence if dyn.startswith("lg") else markov.MarkovProcess
    proc = cls(transition=T, initrv=rv, initarg=t0)
    prob = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=ys, measurement_models=[x[0] for x in mods])
    pf = particle.ParticleFilter(proc, importance(imp, T), num_particles=N, rng=rng, with_resampling=thr is not None, **({} if thr is None else {"resampling_percentage_threshold": thr}))
    return pf, prob, exact, n, ts, t0, m, P, mods, ys


def laws(imp, A, b, Q, x_old, mod, t, y):
    """dynamics law and importance law of one particle (x_old None: the initial law, given as (b, Q))"""
    mean, cov = (b, Q) if x_old is None else (A @ x_old + b, Q)
    if imp == "boot":
        return (mean, cov), (mean, cov)
    nl, h, J, nm, nR = mod
    if imp.startswith("ekf"):
        H = J(t, mean)
        off = h(t, mean) - H @ mean
        E = np.zeros((1, 1))
    else:
        d = len(mean)
        L = np.linalg.cholesky(cov)
        X = np.array([mean + s * np.sqrt(d) * L[:, k] for s in (1, -1) for k in range(d)])
        Y = np.array([h(t, x) for x in X])
        ym = Y.mean(0)
        Cxy = (X - mean).T @ (Y - ym) / len(X)
        H = np.linalg.solve(cov, Cxy).T
        off = ym - H @ mean
        E = (Y - ym).T @ (Y - ym) / len(X) - H @ Cxy
    S = H @ cov @ H.T + nR(t) + E
    G = np.linalg.solve(S, H @ cov).T
    return (mean, cov), (mean + G @ (y - H @ mean - off - nm(t)), cov - G @ S @ G.T)


def logn(x, law):
    d = x - law[0]
    return -0.5 * (d @ np.linalg.solve(law[1], d) + np.linalg.slogdet(law[1])[1] + len(d) * np.log(2 * np.pi))


def weights(imp, S_old, w_old, S_new, k, exact, ts, t0, m, P, mods, ys, before):
    """the documented recursion: previous particles and weights (None before the first step) -> unnormalised log-weights of the new ones"""
    out = []
    t = ts[k]
    told = ts[k - 1] if k else t0
    initial = k == 0 and not before
    if not initial:
        A, b, Q = exact(told, t - told)
    for i, x in enumerate(S_new):
        xo = None if initial else S_old[i]
        dl, il = laws(imp, None if initial else A, m if initial else b, P if initial else Q, xo, mods[k], t, ys[k])
        nl, h, J, nm, nR = mods[k]
        ll = logn(ys[k], (h(t, x) + nm(t), nR(t)))
        out.append(np.log(w_old[i]) + ll + (0.0 if imp == "boot" else logn(x, dl) - logn(x, il)))
    out = np.array(out)
    out -= out.max()
    e = np.exp(out)
    return e / e.sum()


def run_pf(item, ctx):
    _, dyn, imp, meas, N, r, tier = item
    ref_imp = "ekf" if imp == "ekfs" else imp
    dim = dynamics(dyn)[2]
    for before in (0, 1):
        for Rs in itertools.product((0.3, 50.0), repeat=r):
            K = dim * N * (r + before)
            maxk = (3 if N < 3 and r == 1 else 2) if tier == "quick" else 7
            # all scripts of the first draws; the remaining ones follow a fixed pattern
            tail = np.sin(np.arange(max(0, K - maxk)) * 1.3 + 0.4)
            for head in itertools.product(ALPHA, repeat=min(K, maxk)):
                script = np.concatenate([head, tail])
                twin = None
                if before:
                    # with an earlier initial argument the first particles are hidden: the recursion is checked from the first returned set on
                    pass
                for thr in (None, 0.75, 2.0) if tier == "quick" else (None, -1.0, 0.75, 2.0):
                    for us in ((0.1, 0.6, 0.9),) if thr in (None, -1.0) else tuple(itertools.product((0.1, 0.8), repeat=min(N, 2))):
                        rng = rl.ScriptRng(script)
                        rng.uscript = tuple(us) * 3
                        pf, prob, exact, n, ts, t0, m, P, mods, ys = build(dyn, imp, meas, N, Rs, before, thr, rng)
                        w = f"{dyn} {imp} {meas} particles={N} noises={Rs} initarg={t0} threshold={thr} script={np.round(script, 2).tolist()} uniforms={us}"
                        with ctx.no_error(w):
                            S_old, w_old = None, np.full(N, 1.0 / N)
                            hist = []
                            for k, (rv, info) in enumerate(pf.filter_generator(prob)):
                                S, pr = np.asarray(rv.support), np.asarray(rv.probabilities)
                                ctx.check(S.shape == (N, n) and pr.shape == (N,), w, f"shapes {S.shape} {pr.shape}")
                                ctx.check(abs(pr.sum() - 1) < 1e-9 and np.all(pr >= 0), w, f"step {k}: weights {pr} are not a probability vector")
                                first_hidden = k == 0 and before
                                if thr in (None, -1.0):
                                    if not (first_hidden and imp != "boot") and min(w_old) > 1e-6:
                                        want = weights(ref_imp, S_old if not first_hidden else np.zeros((N, n)), w_old, S, k, exact, ts, t0, m, P, mods, ys, before)
                                        ctx.close(pr, want, w + f" weights at step {k}", rtol=1e-6, atol=1e-9)
                                    hist.append((S, pr))
                                else:
                                    # weights before resampling: the run without resampling has used the same draws as long as nothing was resampled
                                    if S_old is None:
                                        pre = twin[0] if twin else None
                                    else:
                                        pre = None
                                    if pre is not None:
                                        ess = 1.0 / np.sum(pre[1] ** 2)
                                        res = ess < thr * N
                                        if abs(ess - thr * N) > 1e-6:
                                            if res:
                                                ctx.close(pr, np.full(N, 1.0 / N), w + f" weights after resampling at step {k}", rtol=1e-12)
                                                ctx.check(all(any(np.allclose(x, q, rtol=1e-9, atol=1e-9) and pre[1][j] > 0 for j, q in enumerate(pre[0])) for x in S), w, "resampled particles are not among the particles")
                                            else:
                                                ctx.close(pr, pre[1], w + f" weights without need for resampling at step {k}", rtol=1e-9, atol=1e-12)
                                                ctx.close(S, pre[0], w + f" particles without need for resampling at step {k}", rtol=1e-9, atol=1e-12)
                                    elif S_old is not None:
                                        want = weights(ref_imp, S_old, w_old, S, k, exact, ts, t0, m, P, mods, ys, before)
                                        ess = 1.0 / np.sum(want ** 2)
                                        if min(w_old) < 1e-6 or np.allclose(pr, 1.0 / N, rtol=1e-12):
                                            pass  # the offset of old weights inside the logarithm matters, or resampled again
                                        else:
                                            ctx.check(ess > thr * N - 1e-6, w, f"step {k}: {ess} effective particles, not resampled")
                                            ctx.close(pr, want, w + f" weights at step {k} continue from the resampled particles", rtol=1e-6, atol=1e-9)
                                S_old, w_old = S, np.maximum(pr, 1e-14)
                                ctx.step()
                            if thr is None:
                                twin = hist
                            ctx.trace()
                            ctx.state(w)
                            ctx.outcome(dyn, imp, meas, N, Rs, before, thr, pr.round(6).tobytes())
    ctx.sample(w)


def run_law(item, ctx):
    """law of the particles: affine in the Gaussian draws for linear models"""
    _, dyn, imp = item
    for before in (0, 1):
        for N in (1, 2):
            for r in (1, 2):
                Rs = (0.5, 2.0)[:r]
                w = f"{dyn} {imp} particles={N} steps={r} before={before}"

                def draw(rng):
                    pf, prob, *_ = build(dyn, imp, "aff", N, Rs, before, None, rng)
                    post, info = pf.filter(prob)
                    ctx.check(np.array_equal(post.locations, prob.locations) and len(info) == r and len(post) == r, w, "locations of the posterior")
                    return np.asarray(post.states.support)

                pf, prob, exact, n, ts, t0, m, P, mods, ys = build(dyn, imp, "aff", N, Rs, before, None, rl.ScriptRng())
                with ctx.no_error(w):
                    law = rl.sample_law(draw, ctx, w)
                    ctx.check(law.shape == (r, N, n), w, f"shape {law.shape}")
                    # reference: one particle's path
                    mean, C = np.array(m), np.array(P)
                    M, CC = [], np.zeros((r * n, r * n))
                    prev = None
                    for k in range(r):
                        t, told = ts[k], (ts[k - 1] if k else t0)
                        if k == 0 and not before:
                            (dm, dc), (im, ic) = laws(imp, None, m, P, None, mods[k], t, ys[k])
                            mean, C = im, ic
                            F = None
                        else:
                            A, b, Q = exact(told, t - told)
                            z0 = laws(imp, A, b, Q, np.zeros(n), mods[k], t, ys[k])[1]
                            F = np.column_stack([laws(imp, A, b, Q, e, mods[k], t, ys[k])[1][0] - z0[0] for e in np.eye(n)])
                            mean, C = F @ mean + z0[0], F @ C @ F.T + z0[1]
                        M.append(mean)
                        s = slice(k * n, k * n + n)
                        CC[s, s] = C
                        if k:
                            CC[s, : k * n] = F @ CC[(k - 1) * n: k * n, : k * n]
                            CC[: k * n, s] = CC[s, : k * n].T
                    ctx.close(law.mean, np.broadcast_to(np.array(M)[:, None, :], (r, N, n)), w + " means of the particles", rtol=1e-6, atol=1e-6)
                    # order (step, particle, coordinate)
                    full = np.einsum("kalb,ij->kialjb", CC.reshape(r, n, r, n), np.eye(N)).reshape(r * N * n, r * N * n)
                    ctx.close(law.cov, full, w + " joint covariance of the particle paths", rtol=1e-5, atol=1e-6)
                    ctx.state(w)
                    ctx.outcome(w)
    ctx.sample(w)


def run_far(item, ctx):
    """observations so far from every particle that all likelihoods underflow still give probability vectors with the right ratios"""
    _, imp = item
    for dyn, N, off in itertools.product(("lg1", "iwp1"), (1, 2, 3), (50.0, 200.0, -1e3)):
        for head in itertools.product(ALPHA, repeat=2):
            rng = rl.ScriptRng(np.concatenate([head, np.sin(np.arange(8.0))]))
            pf, prob, exact, n, ts, t0, m, P, mods, ys = build(dyn, imp, "aff", N, (0.3,), 0, None, rng)
            ys = [y + off for y in ys]
            prob = problems.TimeSeriesRegressionProblem(locations=prob.locations, observations=ys, measurement_models=prob.measurement_models)
            w = f"{dyn} {imp} particles={N} observation {ys[0]} script={head}"
            with ctx.no_error(w):
                post, _ = pf.filter(prob)
                S, pr = np.asarray(post.states[0].support), np.asarray(post.states[0].probabilities)
                ctx.close(pr, weights(imp, None, np.full(N, 1.0 / N), S, 0, exact, ts, t0, m, P, mods, ys, 0), w + " weights", rtol=1e-5, atol=1e-9)
                ctx.step()
                ctx.state(w)
                ctx.trace()
                ctx.outcome(w, pr.round(6).tobytes())
    ctx.sample(w)


def run_faint(item, ctx):
    """particles of very small weight keep their share: an informative observation, then an uninformative one"""
    _, imp = item
    cases = ((0.01, 1e6), 0.0), ((0.002, 1e6), 0.0), ((0.01, 50.0), 0.0), ((0.3, 0.002, 1e6), 0.0), ((0.3, 0.01, 1e6), 12.0), ((0.3, 0.01, 1e6), -25.0)
    for dyn, N in itertools.product(("lg1", "iwp1"), (2, 3)):
        for (Rs, far), head in itertools.product(cases, itertools.product((-2.0, -0.4, 1.3), repeat=2)):
            rng = rl.ScriptRng(np.concatenate([head, np.sin(np.arange(20.0))]))
            pf, prob, exact, n, ts, t0, m, P, mods, ys = build(dyn, imp, "aff", N, Rs, 0, None, rng)
            ys[-2] = ys[-2] + far
            prob = problems.TimeSeriesRegressionProblem(locations=prob.locations, observations=ys, measurement_models=prob.measurement_models)
            k = len(Rs) - 1
            w = f"{dyn} {imp} particles={N} noises={Rs} far={far} script={head}"
            with ctx.no_error(w):
                post, _ = pf.filter(prob)
                S = [np.asarray(s.support) for s in post.states]
                pr = [np.asarray(s.probabilities) for s in post.states]
                want = weights(imp, S[k - 1], pr[k - 1] + 1e-14, S[k], k, exact, ts, t0, m, P, mods, ys, 0)
                ctx.close(np.log(pr[k] + 1e-13), np.log(want + 1e-13), w + " logarithm of the weights", rtol=1e-6, atol=0.02)
                ctx.step(2)
                ctx.state(w)
                ctx.trace()
                ctx.outcome(w, np.log(pr[k] + 1e-13).round(2).tobytes())
    ctx.sample(w)


def run_reuse(item, ctx):
    """one filter object used for several data sets, and non-positive resampling thresholds (which never resample)"""
    _, imp = item
    for dyn, N, before in [*itertools.product(("lg1", "iwp1"), (2, 3), (0, 1)), ("lg1", 12, 0), ("lg1", 12, 1)]:
        for thr in (None, 0.0, 1.0 / 12) if N == 12 else (None, 0.0, -1.0, 0.75, 2.0):
            script = np.sin(np.arange(200) * 1.3 + 0.4)

            def start(pf):
                pf.rng = rl.ScriptRng(script)
                pf.rng.uscript = (0.1, 0.6, 0.9) * 20

            def outcome(pf, prob):
                start(pf)
                post, infos = pf.filter(prob)
                return [(np.array(s.support), np.array(s.probabilities)) for s in post.states], len(infos)

            probs = [build(dyn, imp, "sin", N, Rs, before, thr, rl.ScriptRng())[1] for Rs in ((0.01, 0.01), (0.3,), (0.01, 50.0, 0.3))]
            w0 = f"{dyn} {imp} particles={N} before={before} threshold={thr}"
            with ctx.no_error(w0):
                fresh = [outcome(build(dyn, imp, "sin", N, (0.3,), before, thr, rl.ScriptRng())[0], p) for p in probs]
                if thr is not None and thr <= 0:
                    plain = [outcome(build(dyn, imp, "sin", N, (0.3,), before, None, rl.ScriptRng())[0], p) for p in probs]
                    for k, (a, b) in enumerate(zip(fresh, plain)):
                        for (Sa, pa), (Sb, pb) in zip(a[0], b[0]):
                            ctx.close(Sa, Sb, f"{w0} data set {k}: particles, never resampled", rtol=1e-12)
                            ctx.close(pa, pb, f"{w0} data set {k}: weights, never resampled", rtol=1e-12)
                for order in itertools.permutations(range(3)):
                    pf = build(dyn, imp, "sin", N, (0.3,), before, thr, rl.ScriptRng())[0]
                    for k in order + (order[0],):
                        got = outcome(pf, probs[k])
                        w = f"{w0} order {order} data set {k}"
                        ctx.check(got[1] == fresh[k][1], w, "number of infos")
                        for (Sa, pa), (Sb, pb) in zip(got[0], fresh[k][0]):
                            ctx.close(Sa, Sb, w + ": particles as with a new filter", rtol=1e-12)
                            ctx.close(pa, pb, w + ": weights as with a new filter", rtol=1e-12)
                        ctx.step()
                        ctx.state(w)
                    ctx.trace()
                ctx.outcome(w0, fresh[2][0][-1][1].round(6).tobytes())
    ctx.sample(w0)


def run_ess(item, ctx):
    for n in (1, 2, 3, 4):
        for c in itertools.product(range(5), repeat=n):
            if sum(c) == 0:
                continue
            p = np.array(c) / sum(c)
            e = particle.effective_number_of_events(randvars.Categorical(probabilities=p, support=np.arange(float(n))))
            ctx.close(e, 1 / np.sum(p**2), f"effective number of events of {p}", rtol=1e-10)
            ctx.state(c)
            ctx.outcome(n, round(float(e), 6))
            ctx.step()
    ctx.trace()
    ctx.sample("effective number of events")


def run_guard(item, ctx):
    for r in (2, 3):
        for ts in itertools.product((0.0, 0.5, 1.0), repeat=r):
            pf, prob, *_ = build("lg1", "boot", "aff", 2, (0.5,) * r, 0, None, np.random.default_rng(1))
            bad = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=prob.observations, measurement_models=prob.measurement_models)
            ok = all(a < b for a, b in zip(ts[:-1], ts[1:]))
            w = f"locations {ts}"
            ctx.step()
            ctx.state(ts)
            if not ok:
                ctx.raises(lambda: pf.filter(bad), w, ValueError)
            elif ts[0] == 0.0:
                with ctx.no_error(w):
                    post, _ = pf.filter(bad)
                    ctx.raises(lambda: post(0.5), w + " dense output", NotImplementedError)
                    ctx.raises(lambda: post.sample(np.random.default_rng(1)), w + " samples", NotImplementedError)
                    ctx.check(post.states.support.shape == (r, 2, 1) and post.states.probabilities.shape == (r, 2), w, "shapes")
    for imp in ("ekf", "ukf"):
        mk, _, n, _ = dynamics("lg1")
        d = importance(imp, mk())
        ctx.raises(lambda: d.generate_importance_rv(np.zeros(1), np.zeros(1), 0.0, 0.1), imp + " without measurement model", ValueError)
        ctx.raises(lambda: d.process_initrv_with_data(randvars.Normal(np.zeros(1), np.eye(1)), np.zeros(1), 0.0), imp + " without measurement model", ValueError)
    ctx.trace()
    ctx.sample("guards")
