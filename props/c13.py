"""C13: Gaussian posteriors as functions of time - interpolation, extrapolation, joint samples, diffusion models."""
import itertools
import numpy as np
from probnum import problems, randvars
from probnum.filtsmooth import gaussian
from probnum.randprocs import markov
from probnum.randprocs.markov import continuous as cont
from mc import rvlib as rl
from mc.gmlib import GM, memo
from props import c10

RULE = ("every prior x data pattern x (no / constant / piecewise constant diffusion with every assignment of estimates to steps) x units of states and times: the posterior at every query point "
        "(on the grid, in every gap, beyond the end, in every sorted pair, as number, list and array) and the joint law of samples at every tuple of query points "
        "(sorted or not, repeated) equal the conditional law of the joint Gaussian; every history of appends and freezes; every history of diffusion updates x query time")
ASSUMPTIONS = ["state dimension <= 4, at most 4 data locations (8 in chosen data sets)", "samplers affine in their Gaussian draws (confirmed on a mixed script)"]

LOCS = [0.0, 0.4, 1.0, 1.3]
QUERY = [0.0, 0.15, 0.4, 0.7, 1.0, 1.2, 1.3, 1.9, 2.5]


def priors():
    out = {}
    for fw, bw in (("classic", "classic"), ("sqrt", "sqrt"), ("classic", "joseph")):
        for kind, nu, d in [("iwp", 0, 1), ("iwp", 1, 1), ("iwp", 1, 2), ("ioup", 1, 1), ("matern", 1, 1)]:
            out[f"{kind}{nu}x{d}-{fw}-{bw}"] = c10._integ(kind, nu, d, fw, bw)
        out[f"ltisde2u-{fw}-{bw}"] = c10._ltisde("2u", fw, bw)
    out["tvsde-classic-mde"] = c10._tvsde("classic")
    return out


PATTERNS = [(0,), (0, 1), (0, 3), (1, 2), (0, 1, 2), (0, 2, 3), (0, 1, 2, 3)]


QS = ("iwp0x1-classic-classic", "iwp1x1-sqrt-sqrt", "ioup1x1-classic-joseph", "matern1x1-sqrt-sqrt", "ltisde2u-classic-classic")


def items(tier):
    out = []
    for p in priors():
        for pat in PATTERNS if "mde" not in p else PATTERNS[1:3]:
            if tier != "quick" or pat in PATTERNS[:3] or pat == (0, 2, 3) or p in QS:
                out.append(["call", p, pat, tier])
            if "mde" not in p and (tier != "quick" or p in QS and pat in ((0,), (0, 2, 3), (0, 1, 2, 3)[: 4 if "x1" in p else 0])):
                out.append(["sample", p, pat, tier])
    for p in ("iwp0x1-classic-classic", "iwp1x1-sqrt-sqrt") + (("ioup1x1-classic-classic",) if tier != "quick" else ()):
        for k in ("const", "piecewise"):
            for N in (1, 2, 3):
                out.append(["diff", p, k, N, tier])
    out += [["model", "const"], ["model", "piecewise"], ["append", tier], ["seq"]]
    out += [["units", k, fw, bw] for k in ("sde2u", "sde1u") for fw, bw in (("classic", "classic"), ("sqrt", "sqrt"), ("classic", "joseph"))]
    return out


def run(item, ctx):
    return globals()["run_" + item[0]](item, ctx)


def setup(p, pat):
    mk, exact, n, _ = priors()[p]
    fw, bw = p.split("-")[1:]
    if bw == "mde":
        bw = "classic"
    H = c10._lg(1, n, fw, bw)
    rv, m, P = c10.mkrv("plain", n, 3)
    ts = [LOCS[j] for j in pat]
    mod = H[0]()
    ys = [np.array([1.5 * np.sin(2.1 * k) + 0.4]) for k in range(len(ts))]
    obs = [(t, *H[1](t, 0.0), y) for t, y in zip(ts, ys)]
    G = GM(memo(exact), m, P, 0.0)
    T = mk()
    proc = markov.MarkovProcess(transition=T, initrv=rv, initarg=0.0)
    prob = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=ys, measurement_models=mod)
    return G, obs, ts, proc, prob, n, T


def run_call(item, ctx):
    _, p, pat, tier = item
    G, obs, ts, proc, prob, n, T = setup(p, pat)
    tol = dict(rtol=1e-6, atol=1e-7) if "mde" not in p else dict(rtol=2e-4, atol=1e-5)
    with ctx.no_error(f"{p} {ts} filtsmooth"):
        post, _ = gaussian.Kalman(proc).filtsmooth(prob)
        filt = post.filtering_posterior
    want = {}
    for q in QUERY:
        if q < ts[0]:
            continue
        want["s", q] = G.posterior(obs, [q])
        want["f", q] = G.posterior([o for o in obs if o[0] <= q], [q])
    ok = [q for q in QUERY if q >= ts[0]]
    for kind, po in (("s", post), ("f", filt)):
        for q in QUERY:
            w = f"{p} data at {ts} {'smoothing' if kind == 's' else 'filtering'} posterior at {q}"
            if q < ts[0]:
                ctx.raises(lambda: po(q), w + " left of the data", NotImplementedError)
                continue
            with ctx.no_error(w):
                for form in (q, np.float64(q), np.asarray(q)):
                    rv = po(form)
                    ctx.check(isinstance(rv, randvars.Normal) and rv.shape == (n,), w, f"type {type(rv)} for {type(form)}")
                    ctx.close(rv.mean, want[kind, q][0], w + " mean", **tol)
                    ctx.close(rv.cov, want[kind, q][1], w + " covariance", **tol)
                rl.check_law(ctx, rv, rl.Law(*want[kind, q]), w, **tol)
                ctx.step(3)
                ctx.state(p, pat, kind, q)
                ctx.outcome(p, pat, kind, q, want[kind, q][0].round(6).tobytes())
        tup = list(itertools.combinations_with_replacement(ok, 2)) + [tuple(ok)] if "mde" not in p else [tuple(ok[:2])]
        for qs in tup:
            w = f"{p} data at {ts} {kind}-posterior at {qs}"
            with ctx.no_error(w):
                for form in (list(qs), np.array(qs), qs):
                    rvs = po(form)
                    ctx.check(len(rvs) == len(qs), w, f"{len(rvs)} values")
                    for rv, q in zip(rvs, qs):
                        ctx.close(rv.mean, want[kind, q][0], w + f" mean at {q}", **tol)
                        ctx.close(rv.cov, want[kind, q][1], w + f" covariance at {q}", **tol)
                    ctx.close(rvs.mean, np.stack([want[kind, q][0] for q in qs]), w + " stacked means", **tol)
                ctx.trace()
                ctx.state(p, pat, kind, qs)
        for a, b in itertools.combinations(ok, 2):
            ctx.raises(lambda: po(np.array([b, a])), f"{p} unsorted query {b}, {a}", ValueError)
    ctx.raises(lambda: filt.sample(np.random.default_rng(1)), f"{p} samples of the filtering posterior", NotImplementedError)
    ctx.sample(w)


def joint(G, obs, qs):
    """law of the states at the (possibly unsorted, repeated) query points"""
    u = sorted(set(qs))
    m, C = G.posterior(obs, u)
    n = G.n
    sel = np.concatenate([np.arange(u.index(q) * n, (u.index(q) + 1) * n) for q in qs])
    return m[sel], C[np.ix_(sel, sel)]


def check_samples(ctx, post, G, obs, qs, size, w, n, form=np.array):
    sz = (size,) if isinstance(size, int) else size
    K = int(np.prod(sz))
    with ctx.no_error(w):
        if qs is None:
            law = rl.sample_law(lambda rng: post.sample(rng, size=size), ctx, w)
            qs = list(post.locations)
        else:
            law = rl.sample_law(lambda rng: post.sample(rng, t=form(qs), size=size), ctx, w)
        m, C = joint(G, obs, qs)
        if not ctx.check(law.shape == sz + (len(qs), n), w, f"shape of the samples {law.shape}"):
            return
        ctx.close(law.mean, np.broadcast_to(m.reshape(len(qs), n), law.shape), w + " mean of samples", rtol=1e-6, atol=1e-7)
        ctx.close(law.cov, np.kron(np.eye(K), C), w + " joint covariance of samples", rtol=1e-5, atol=2e-6)
        ctx.outcome(w, m.round(5).tobytes())
    ctx.state(w)
    ctx.trace()


def run_sample(item, ctx):
    _, p, pat, tier = item
    G, obs, ts, proc, prob, n, T = setup(p, pat)
    with ctx.no_error(f"{p} {ts} filtsmooth"):
        post, _ = gaussian.Kalman(proc).filtsmooth(prob)
    base = f"{p} data at {ts} samples at"
    for size in ((), 2, (2, 1)):
        check_samples(ctx, post, G, obs, None, size, f"{base} the grid size={size}", n)
    ok = [q for q in QUERY if q >= ts[0]]
    if tier == "quick":
        ok = [q for q in ok if q not in (1.0, 1.2, 2.5)]
    for q in ok:
        check_samples(ctx, post, G, obs, [q], (), f"{base} {[q]}", n)
    for qs in itertools.product(ok, repeat=2):
        if tier == "quick" and not (qs[0] in (0.7, 1.9) or qs == (0.4, 0.15)):
            continue
        check_samples(ctx, post, G, obs, list(qs), (), f"{base} {qs}", n, form=list if qs[0] > qs[1] else np.array)
    check_samples(ctx, post, G, obs, ok, (), f"{base} {ok}", n)
    check_samples(ctx, post, G, obs, ok[1:4][::-1] + ok[1:2], 2, f"{base} reversed with repetition, size=2", n)
    check_samples(ctx, post, G, obs, [ok[1], ok[-1]], (2, 2), f"{base} size=(2, 2)", n)
    a = post.sample(np.random.default_rng(1), t=np.array(ok), size=2)
    ctx.check(np.array_equal(a, post.sample(np.random.default_rng(1), t=np.array(ok), size=2)), base, "samples are not reproducible")
    for q in QUERY:
        if q < ts[0]:
            ctx.raises(lambda: post.sample(np.random.default_rng(1), t=np.array([q])), f"{base} {q} left of the data", NotImplementedError)


def run_seq(item, ctx):
    """joint samples of posteriors of discrete-time sequences"""
    for name, (mk, exact, n, _) in {"lg2": c10._lg(2, 2, "classic", "joseph"), "lti3": c10._lti(3, 3, "classic", "classic"), "lg1s": c10._lg(1, 1, "sqrt", "sqrt")}.items():
        for r in (1, 2, 3, 4):
            rv, m, P = c10.mkrv("plain", n, 3)
            H = c10._lg(1, n, "classic", "classic")
            ts = [float(k) for k in range(r)]
            ys = [np.array([np.sin(2.1 * k)]) for k in range(r)]
            obs = [(t, *H[1](t, 0.0), y) for t, y in zip(ts, ys)]
            G = GM(memo(exact), m, P, 0.0)
            prob = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=ys, measurement_models=H[0]())
            with ctx.no_error(f"{name} {ts}"):
                post, _ = gaussian.Kalman(markov.MarkovSequence(transition=mk(), initrv=rv, initarg=0.0)).filtsmooth(prob)
                for size in ((), 2):
                    check_samples(ctx, post, G, obs, None, size, f"{name} sequence of {r} size={size}", n)
    ctx.sample("sequences")


VALS = [0.25, 1.0, 4.0]


def mkdiff(kind, vals, ts):
    if kind == "const":
        d = cont.ConstantDiffusion()
    else:
        d = cont.PiecewiseConstantDiffusion(t0=ts[0])
    for v, t in zip(vals, ts[1:]):
        d.update_in_place(v, t=t)
    return d


def run_diff(item, ctx):
    """posteriors with a diffusion model: every assignment of local estimates to the steps"""
    _, p, kind, N, tier = item
    mk, exact, n, _ = priors()[p]
    ex = memo(exact)
    T = mk()
    H = c10._lg(1, n, "classic", "classic")
    rv, m, P = c10.mkrv("plain", n, 3)
    ts = LOCS[: N + 1]
    ys = [np.array([1.5 * np.sin(2.1 * k) + 0.4]) for k in range(N + 1)]
    obs = [(t, *H[1](t, 0.0), y) for t, y in zip(ts, ys)]
    for vals in itertools.product(VALS if tier != "quick" or N < 3 else VALS[:1] + VALS[2:], repeat=N):
        w = f"{p} {kind} diffusion {vals} on {ts}"
        mean = float(np.mean(vals))

        def sig(a, b):
            if kind == "const":
                return mean
            k = max([j for j in range(len(ts)) if ts[j] <= a + 1e-12] or [0])
            return vals[min(k, N - 1)]

        G = GM(ex, m, P, 0.0, sig)
        with ctx.no_error(w):
            d = mkdiff(kind, vals, ts)
            fs = [randvars.Normal(*(lambda q: (q[0], 0.5 * (q[1] + q[1].T)))(G.posterior(obs[: k + 1], [ts[k]]))) for k in range(N + 1)]
            ss = [randvars.Normal(*(lambda q: (q[0], 0.5 * (q[1] + q[1].T)))(G.posterior(obs, [ts[k]]))) for k in range(N + 1)]
            filt = gaussian.FilteringPosterior(transition=T, locations=ts, states=fs, diffusion_model=d)
            post = gaussian.SmoothingPosterior(filtering_posterior=filt, transition=T, locations=ts, states=ss, diffusion_model=d)
            dl = np.array([mean] * N if kind == "const" else vals)
            for k, got in enumerate(T.smooth_list(filt.states, np.array(ts), _diffusion_list=dl)):
                mm, CC = G.posterior(obs, [ts[k]])
                ctx.close(got.mean, mm, f"{w} smoothed list: mean at {ts[k]}", rtol=1e-6, atol=1e-7)
                ctx.close(got.cov, CC, f"{w} smoothed list: covariance at {ts[k]}", rtol=1e-6, atol=1e-7)
                ctx.step()
            for q in QUERY:
                for po, ob, what in ((post, obs, "smoothing"), (filt, [o for o in obs if o[0] <= q], "filtering")):
                    mm, CC = G.posterior(ob, [q])
                    got = po(q)
                    ctx.close(got.mean, mm, f"{w} {what} mean at {q}", rtol=1e-6, atol=1e-7)
                    ctx.close(got.cov, CC, f"{w} {what} covariance at {q}", rtol=1e-6, atol=1e-7)
                    ctx.step()
                    ctx.state(p, kind, vals, q, what)
            for qs in ([0.15, 0.7, 1.2], [0.7, 1.9], [1.9, 2.5, 0.15]):
                check_samples(ctx, post, G, obs, qs, (), f"{w} samples at {qs}", n)
            check_samples(ctx, post, G, obs, None, (), f"{w} samples on the grid", n)
    ctx.sample(w)


def run_model(item, ctx):
    """diffusion models alone: all histories of updates x all query times"""
    _, kind = item
    ts = [-1.0, 0.5, 1.0, 2.5, 3.0]
    grid = [-2.0, -1.0, 0.0, 0.5, 0.75, 1.0, 2.5, 2.75, 3.0, 9.0]
    fresh = mkdiff(kind, [], ts)
    ctx.raises(lambda: fresh(0.5), f"{kind} diffusion before any estimate", NotImplementedError)
    ctx.raises(lambda: fresh[0], f"{kind} diffusion before any estimate", NotImplementedError)
    for N in (1, 2, 3, 4):
        for vals in itertools.product(VALS + [2.0], repeat=N):
            w = f"{kind} diffusion after {vals}"
            with ctx.no_error(w):
                d = mkdiff(kind, vals, ts)
                want = [float(np.mean(vals))] * len(grid) if kind == "const" else [vals[max(0, min(N - 1, max([j for j in range(N + 1) if ts[j] <= t] or [0])))] for t in grid]
                for t, v in zip(grid, want):
                    got = d(t)
                    ctx.check(np.ndim(got) == 0, w, f"value at a number has shape {np.shape(got)}")
                    ctx.close(got, v, f"{w} at {t}", rtol=1e-12)
                ctx.close(d(np.array(grid)), want, w + " vectorised", rtol=1e-12)
                for k in range(N):
                    ctx.close(d[k], vals[k] if kind == "piecewise" else want[0], f"{w} item {k}", rtol=1e-12)
                ctx.close(d[np.arange(N)], vals if kind == "piecewise" else want[:1] * N, f"{w} items", rtol=1e-12)
                if kind == "piecewise":
                    ctx.check(d.t0 == ts[0] and d.tmax == ts[N], w, "bounds")
                    if N > 1:
                        ctx.raises(lambda: d.estimate_locally(randvars.Normal(np.ones(1), np.eye(1)), randvars.Normal(np.ones(1), np.eye(1)), t=ts[N - 1]), w + " estimate left of the last location", ValueError)
                ctx.step(N)
                ctx.state(kind, vals)
                ctx.outcome(kind, vals, tuple(want))
                ctx.trace()
    for n in (1, 2, 3):
        for s in range(4):
            a, b = randvars.Normal(rl.gen(n, s=s), rl.spd(n, s)), randvars.Normal(rl.gen(n, s=s + 1), rl.spd(n, s + 2))
            use = a if kind == "const" else b
            with ctx.no_error("estimate"):
                e = mkdiff(kind, [], ts).estimate_locally(meas_rv=a, meas_rv_assuming_zero_previous_cov=b, t=7.0)
                ctx.close(e, use.mean @ np.linalg.solve(use.cov, use.mean) / n, f"{kind} local quasi-MLE n={n}", rtol=1e-9)
            ctx.state("estimate", n, s)
    ctx.sample(f"{kind} diffusions")


def run_append(item, ctx):
    """histories of appends and freezes of a posterior"""
    _, tier = item
    mk, exact, n, _ = priors()["iwp1x1-classic-classic"]
    rvs = [randvars.Normal(np.arange(2.0) + k, np.eye(2) * (k + 1)) for k in range(6)]
    alphabet = [("a", 0), ("a", 0.5), ("a", 2.0), ("f", None)]
    for depth in range(0, 5 if tier == "quick" else 6):
        for h in itertools.product(alphabet, repeat=depth):
            po = gaussian.FilteringPosterior(transition=mk())
            locs, sts, frozen = [], [], False
            w = f"history {[x[1] if x[0] == 'a' else 'freeze' for x in h]}"
            for k, (op, t) in enumerate(h):
                if op == "f":
                    po.freeze()
                    frozen = True
                elif frozen or (locs and t <= locs[-1]):
                    ctx.raises(lambda: po.append(location=t, state=rvs[k]), w, ValueError)
                else:
                    with ctx.no_error(w):
                        po.append(location=t, state=rvs[k])
                    locs.append(t)
                    sts.append(rvs[k])
                ctx.step()
                ctx.check(po.frozen == frozen and len(po) == len(locs) and list(po.locations) == locs, w, f"locations {po.locations}")
                ctx.check(all(po[j] is sts[j] for j in range(len(sts))), w, "states differ from what was appended")
                if sts:
                    ctx.check(np.array_equal(po.states.mean, np.stack([s.mean for s in sts])), w, "means of the states")
                    ctx.check(po[-1] is sts[-1], w, "last state")
            ctx.state(h)
            ctx.trace()
            ctx.outcome(tuple(locs), frozen)
    ctx.sample(w)


def run_units(item, ctx):
    """evaluation and sampling of posteriors do not depend on the units of states and times; more and closer data locations"""
    _, kind, fw, bw = item
    n = int(kind[3])
    exact = memo(c10._ltisde(kind[3:], fw, bw)[1])
    _, m, P = c10.mkrv("plain", n, 3)
    same = c10.Units("same units", [1.0] * n)
    H = c10._lg(1, n, fw, bw)[1]
    close = 2.0**-12
    for u in [same] + [v for v in c10.units(n, "sqrt", bw) if v.e == 1.0]:
        for ts, qs in (([0.0, 0.5, 1.5], [0.0, 0.25, 0.5, 0.5 + close, 1.0, 1.5 - close, 1.5, 1.5 + close, 3.0]), ([0.25, 0.25 + close, 2.0], [0.25, 0.25 + close / 2, 0.25 + close, 0.25 + 2 * close, 1.0, 2.0, 2.0 + close]),
                       ([k * (k + 1) / 8 for k in range(8)], [0.0, 0.125, 0.5, 0.75, 2.0, 3.75, 4.0, 5.25, 6.0, 7.0, 8.5])):
            if len(ts) > 4 and u is not same:
                continue
            tol = c10.unit_tol(u)
            tol = dict(tol, atol=max(tol["atol"], 2e-6))
            w = f"{kind}-{fw}-{bw} {u.name} data at {ts}"
            ys = [np.array([1.5 * np.sin(2.1 * k) + 0.4]) for k in range(len(ts))]
            obs = [(t, *H(t, 0.0), y) for t, y in zip(ts, ys)]
            G = GM(exact, m, P, 0.0)
            with ctx.no_error(w):
                proc = markov.MarkovProcess(transition=u.sde(kind[3:], fw, bw), initrv=u.rv(m, P, fw == "sqrt"), initarg=u.t(0.0))
                prob = problems.TimeSeriesRegressionProblem(locations=np.array([u.t(t) for t in ts]), observations=ys, measurement_models=u.meas(1, n, fw, bw))
                post, _ = gaussian.Kalman(proc).filtsmooth(prob)
                for po, what in ((post, "smoothing"), (post.filtering_posterior, "filtering")):
                    lst = po(np.array([u.t(q) for q in qs]))
                    for rv, q in zip(lst, qs):
                        wm, wC = G.posterior(obs if what == "smoothing" else [o for o in obs if o[0] <= q], [q])
                        for got in (rv, po(u.t(q))):
                            gm, gC = u.law(got)
                            ctx.close(gm, wm, f"{w} {what} mean at {q}", **tol)
                            ctx.close(gC, wC, f"{w} {what} covariance at {q}", **tol)
                        ctx.step()
                        ctx.state(w, what, q)
                    # the posterior is a function of time: asking again gives the same answer
                    ctx.check(all(np.array_equal(a.mean, po(u.t(q)).mean) for a, q in zip(lst, qs)), w, f"{what} answers depend on the queries before")
                for sel in (qs[1:4], qs[-3:] + qs[:1], qs[2:3] * 2 + qs[4:5]):
                    law = rl.sample_law(lambda rng: post.sample(rng, t=np.array([u.t(q) for q in sel])), ctx, w)
                    wm, wC = joint(G, obs, sel)
                    B = np.kron(np.eye(len(sel)), u.Di)
                    ctx.check(law.shape == (len(sel), n), w, f"shape of samples {law.shape}")
                    ctx.close(B @ law.mean.ravel(), wm, f"{w} mean of samples at {sel}", **tol)
                    ctx.close(B @ law.cov @ B, wC, f"{w} joint covariance of samples at {sel}", **dict(tol, atol=max(tol["atol"], 2e-5)))
                    ctx.state(w, tuple(sel))
                ctx.outcome(w, wm.round(5).tobytes())
    ctx.sample(w)
