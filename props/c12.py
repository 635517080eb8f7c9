"""C12: Kalman filtering and Rauch-Tung-Striebel smoothing are batch Gaussian conditioning."""
import itertools
import numpy as np
from probnum import filtsmooth, problems, randprocs, randvars
from probnum.filtsmooth import gaussian
from probnum.randprocs import markov
from probnum.randprocs.markov import discrete as disc
from mc import rvlib as rl
from mc.gmlib import GM, memo
from props import c10

RULE = ("every prior x forward/backward implementation x every non-empty subset of the location grid as data locations x initial argument at or before the first location x "
        "units of states, times and observations x assignment of measurement models (different dimensions, time-varying matrices and noises, noise-free) to the locations: every filtering and every smoothing state "
        "equals the conditional law computed in one batch from the joint Gaussian; non-trivial = distinct (configuration, locations, assignment, posterior)")
ASSUMPTIONS = ["state dimension <= 6, every subset of at most 5 locations (6 in the thorough tier), chosen data sets of up to 12 locations", "general linear SDEs are compared up to the tolerance of their moment ODE solver"]

MAIN = [("classic", "classic"), ("sqrt", "sqrt"), ("classic", "joseph"), ("sqrt", "classic")]
GRID = [0.0, 0.3, 0.5, 1.1, 2.0, 2.3]


def priors(tier):
    out = {}
    for fw, bw in itertools.product(c10.FW, c10.BW):
        for kind, nu, d in [("iwp", 0, 1), ("iwp", 1, 1), ("iwp", 2, 1), ("iwp", 1, 2), ("ioup", 1, 1), ("matern", 1, 1)] + ([("matern", 2, 2), ("ioup", 2, 2)] if tier == "thorough" else []):
            out[f"{kind}{nu}x{d}-{fw}-{bw}"] = c10._integ(kind, nu, d, fw, bw)
        for n in ("2u", "3u", "1u"):
            out[f"ltisde{n}-{fw}-{bw}"] = c10._ltisde(n, fw, bw)
        out[f"lg2-{fw}-{bw}"] = c10._lg(2, 2, fw, bw)
        out[f"lti3-{fw}-{bw}"] = c10._lti(3, 3, fw, bw)
    for fw in c10.FW:
        out[f"tvsde-{fw}-mde"] = c10._tvsde(fw)
        out[f"linsde2u-{fw}-mde"] = c10._linsde("2u", fw)
    return out


def meas(n, fw, bw):
    """catalogue of measurement models of an n-dimensional state"""
    return {"s": c10._lg(1, n, fw, bw), "v": c10._lg(2, n, fw, bw), "c": c10._lti(1, n, fw, bw, "c"), "k": c10._lti(min(n, 2), n, fw, bw, "nc")}


_pri = {}


def items(tier):
    _pri.update(priors(tier))
    out = [["k", p, tier] for p in _pri]
    out += [["api", prior, n] for prior in ("continuous", "discrete") for n in (1, 2, 3)]
    out.append(["guard"])
    out += [["units", k, fw, bw] for k in ("sde2u", "sde3u", "sde1u", "lg2", "lti2") for fw, bw in MAIN]
    out += [["long", k, fw, bw] for k in ("sde2u", "sde1u", "lg2", "lti2") for fw, bw in MAIN]
    return out


def run(item, ctx):
    return globals()["run_" + item[0]](item, ctx)


def data(o, k):
    return np.sin(2.0 * np.arange(o) + 1.7 * k) * 2 - 0.5


def assignments(r, tier):
    full = list(itertools.product("sv", repeat=r))
    if r > 2 and tier == "quick":
        full = [full[1], full[-2]]
    return full + [("c",) + ("s",) * (r - 1), ("s",) * (r - 1) + ("k",), ("k",) * r, tuple("svck"[(j + 2) % 4] for j in range(r))]


def run_k(item, ctx):
    _, p, tier = item
    if not _pri:
        _pri.update(priors(tier))
    mk, exact, n, _ = _pri[p]
    exact = memo(exact)
    fw, bw = p.split("-")[1:]
    if bw == "mde":
        bw = "classic"
    mde = p.endswith("mde")
    tol = dict(rtol=2e-5, atol=2e-6) if mde else dict(rtol=1e-6, atol=1e-7)
    seq = p.startswith(("lg", "lti3"))
    M = meas(n, fw, bw)
    mods = {k: v[0]() for k, v in M.items()}
    ng = 5 if tier == "quick" else 6
    if mde:
        ng = 4
    rv, m, P = c10.mkrv("chol" if fw == "sqrt" else "plain", n, 3)
    for r in range(1, ng + 1):
        for sub in itertools.combinations(range(ng), r):
            if tier == "quick" and 1 < r < ng and sub[-1] != ng - 1 and sub[0] != 0:
                continue
            if tier == "quick" and (fw, bw) not in MAIN and 2 < r < ng:
                continue
            for before in (0, 1):
                # a discrete-time sequence makes one transition per location: its initial argument is the first location or its predecessor
                t0 = GRID[sub[0]] if not before else -0.4
                if mde and (before or r > 3):
                    continue
                asg = assignments(r, tier) if not mde else assignments(r, tier)[:1]
                for a in asg if (sub[-1] == r - 1 or tier != "quick") else asg[:2] if (sub[0] + sum(sub)) % 2 else asg[-2:]:
                    ts = [GRID[j] for j in sub]
                    w = f"{p} locations={ts} initarg={t0} models={''.join(a)}"
                    ys = [data(mods[c].output_dim, k) for k, c in enumerate(a)]
                    obs = [(t, *M[c][1](t, 0.0), y) for t, c, y in zip(ts, a, ys)]
                    G = GM(exact, m, P, t0)
                    proc = (markov.MarkovSequence if seq else markov.MarkovProcess)(transition=mk(), initrv=rv, initarg=t0)
                    prob = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=ys, measurement_models=[mods[c] for c in a])
                    with ctx.no_error(w):
                        kf = gaussian.Kalman(proc)
                        post, info = kf.filtsmooth(prob)
                        filt = post.filtering_posterior
                        ctx.check(isinstance(post, gaussian.SmoothingPosterior) and isinstance(filt, gaussian.FilteringPosterior), w, "types of the posteriors")
                        ctx.check(len(post) == r and len(filt) == r and len(info) == r and np.array_equal(post.locations, ts) and np.array_equal(filt.locations, ts), w, "locations of the posterior")
                        ctx.step(2 * r)
                        for k in range(r):
                            wf = G.posterior(obs[: k + 1], [ts[k]])
                            ws = G.posterior(obs, [ts[k]])
                            for got, want, what in ((filt[k], wf, "filtering"), (post[k], ws, "smoothing")):
                                if r <= 1 or a == asg[0] == ("s", "s"):
                                    rl.check_law(ctx, got, rl.Law(*want), f"{w} {what} state {k}", **tol)
                                else:
                                    ctx.close(got.mean, want[0], f"{w} {what} mean {k}", **tol)
                                    ctx.close(got.cov, want[1], f"{w} {what} covariance {k}", **tol)
                            ctx.state(p, sub, before, a, k)
                        ctx.outcome(p, sub, before, a, ws[0].round(5).tobytes(), ws[1].round(5).tobytes())
                        if r <= 2 and a == asg[0]:
                            only, _ = kf.filter(prob)
                            for k, (t, s, _i) in enumerate(kf.filtered_states_generator(prob)):
                                ctx.check(t == ts[k], w, "generator location")
                                ctx.close(s.mean, filt[k].mean, w + " filter generator", rtol=1e-10, atol=1e-12)
                                ctx.close(only[k].cov, filt[k].cov, w + " filter", rtol=1e-10, atol=1e-12)
                            again = kf.smooth(only)
                            ctx.close(again[0].mean, post[0].mean, w + " smooth(filter)", rtol=1e-9, atol=1e-11)
                            ctx.close(again[0].cov, post[0].cov, w + " smooth(filter) cov", rtol=1e-9, atol=1e-11)
                        ctx.close(rv.mean, m, w + " initial variable modified")
                        ctx.trace()
    ctx.sample(w)


def run_api(item, ctx):
    """filter_kalman and smooth_rts against their documented model"""
    _, prior, n = item
    F, L, _u = c10.sdes()[{1: "1u", 2: "2", 3: "3"}[n]]
    if prior == "discrete":
        F, L = c10.tmat(n, n, 2.0), rl.spd(n, 5)
        exact = lambda t, dt: (F, np.zeros(n), L)
    else:
        exact = memo(lambda t, dt: c10.lti_exact(F, L, np.zeros(n), dt))
    m, P = np.sin(np.arange(1.0, n + 1)), rl.spd(n, 3)
    for o in (1, 2, 3):
        H, R = c10.tmat(o, n, 1.0), rl.spd(o, 4)
        for r in range(1, 6):
            for sub in itertools.combinations(range(5), r):
                ts = np.array([GRID[j] for j in sub])
                Y = np.array([data(o, k) for k in range(r)])
                obs = [(t, H, np.zeros(o), R, y) for t, y in zip(ts, Y)]
                G = GM(exact, m, P, ts[0])
                w = f"{prior} model n={n} o={o} locations={ts.tolist()}"
                args = dict(observations=Y, locations=ts, F=F, L=L, H=H, R=R, m0=m, C0=P)
                with ctx.no_error(w):
                    f = filtsmooth.filter_kalman(**args, prior_model=prior)
                    s = filtsmooth.smooth_rts(**args, prior_model=prior)
                    for k in range(r):
                        rl.check_law(ctx, f[k], rl.Law(*G.posterior(obs[: k + 1], [ts[k]])), f"{w} filter_kalman {k}", rtol=1e-6, atol=1e-7)
                        rl.check_law(ctx, s[k], rl.Law(*G.posterior(obs, [ts[k]])), f"{w} smooth_rts {k}", rtol=1e-6, atol=1e-7)
                        ctx.step(2)
                    ctx.state(w)
                    ctx.trace()
                    ctx.outcome(w, s[0].mean.round(6).tobytes())
    if prior == "continuous":
        with ctx.no_error("default model"):
            ctx.close(filtsmooth.filter_kalman(**args)[-1].mean, f[-1].mean, w + " default prior model")
    ctx.raises(lambda: filtsmooth.filter_kalman(**args, prior_model="other"), "unknown prior model", ValueError)
    ctx.raises(lambda: filtsmooth.smooth_rts(**args, prior_model="other"), "unknown prior model", ValueError)
    ctx.sample(w)


def run_guard(item, ctx):
    """unsorted and repeated locations are refused, whatever the pattern; problems of unequal lengths too"""
    mk, exact, n, _ = c10._integ("iwp", 1, 1, "classic", "classic")
    rv, m, P = c10.mkrv("plain", n, 3)
    model = c10._lg(1, n, "classic", "classic")[0]()
    kf = gaussian.Kalman(markov.MarkovProcess(transition=mk(), initrv=rv, initarg=0.0))
    for r in (2, 3, 4):
        for ts in itertools.product((0.0, 0.5, 1.0, 1.5), repeat=r):
            prob = problems.TimeSeriesRegressionProblem(locations=np.array(ts), observations=[data(1, k) for k in range(r)], measurement_models=model)
            ok = all(a < b for a, b in zip(ts[:-1], ts[1:]))
            w = f"locations={ts}"
            ctx.step()
            ctx.state(ts)
            ctx.outcome(ts, ok)
            if ok:
                with ctx.no_error(w):
                    ctx.check(len(kf.filter(prob)[0]) == r, w, "sorted locations refused")
            else:
                ctx.raises(lambda: kf.filter(prob), w + " filter", ValueError)
                ctx.raises(lambda: kf.filtsmooth(prob), w + " filtsmooth", ValueError)
        ctx.trace()
    for a, b, c in itertools.product((1, 2, 3), repeat=3):
        mkp = lambda: problems.TimeSeriesRegressionProblem(locations=np.arange(float(a)), observations=[data(1, k) for k in range(b)], measurement_models=[model] * c)
        w = f"lengths {a} {b} {c}"
        ctx.state("len", a, b, c)
        if a == b == c:
            with ctx.no_error(w):
                pr = mkp()
                ctx.check(len(pr) == a, w, "length")
                for k in range(a):
                    t, y, mm = pr[k]
                    ctx.check(t == k and np.array_equal(y, data(1, k)) and mm is model, w, "item of the problem")
        else:
            ctx.raises(mkp, w, ValueError)
    ctx.sample("guards")


LONG = [0.0, 0.125, 0.5, 0.75, 1.75, 1.875, 2.0, 3.0, 3.5, 3.625, 4.5, 4.75]


def _model(kind, fw, bw):
    n = int(kind[3]) if kind[:3] in ("sde", "lti") else int(kind[2])
    exact = {"sde": lambda: c10._ltisde(kind[3:], fw, bw), "lg2": lambda: c10._lg(n, n, fw, bw), "lti": lambda: c10._lti(n, n, fw, bw)}[kind[:3]]()[1]
    mk = lambda u: u.sde(kind[3:], fw, bw) if kind[:3] == "sde" else (u.lg if kind[:2] == "lg" else u.lti)(n, fw, bw)
    return n, memo(exact), mk


def _compare(ctx, kind, fw, bw, u, ts, t0, os, w, tol):
    """filtering and smoothing in the units u against the batch conditional in the units of the reference"""
    n, exact, mk = _model(kind, fw, bw)
    _, m, P = c10.mkrv("plain", n, 3)
    G = GM(exact, m, P, t0)
    M = {o: (u.meas(o, n, fw, bw), c10._lg(o, n, fw, bw)[1]) for o in set(os)}
    ys = [data(o, k) for k, o in enumerate(os)]
    obs = [(t, *M[o][1](t, 0.0), y) for t, o, y in zip(ts, os, ys)]
    with ctx.no_error(w):
        proc = (markov.MarkovProcess if kind[:3] == "sde" else markov.MarkovSequence)(transition=mk(u), initrv=u.rv(m, P, fw == "sqrt"), initarg=u.t(t0))
        prob = problems.TimeSeriesRegressionProblem(locations=np.array([u.t(t) for t in ts]), observations=[u.e * y for y in ys], measurement_models=[M[o][0] for o in os])
        kf = gaussian.Kalman(proc)
        post, info = kf.filtsmooth(prob)
        ctx.check(len(post) == len(ts) == len(info), w, "number of states")
        for k in range(len(ts)):
            for po, ob, what in ((post.filtering_posterior, obs[: k + 1], "filtering"), (post, obs, "smoothing")):
                wm, wc = G.posterior(ob, [ts[k]])
                gm, gc = u.law(po[k])
                ctx.close(gm, wm, f"{w} {what} mean {k}", **tol)
                ctx.close(gc, wc, f"{w} {what} covariance {k}", **tol)
                ctx.step()
        again, _ = kf.filtsmooth(prob)
        ctx.check(all(np.array_equal(a.mean, b.mean) and np.array_equal(rl.dense(a.cov), rl.dense(b.cov)) for a, b in zip(again.states, post.states)), w, "a second run with the same filter differs")
        ctx.outcome(w, wm.round(5).tobytes())
    ctx.state(w)
    ctx.trace()


def run_units(item, ctx):
    """the posterior does not depend on the units of states, times and observations"""
    _, kind, fw, bw = item
    n = _model(kind, fw, bw)[0]
    for u in c10.units(n, fw, bw):
        for ts in ([0.0, 0.125, 1.0], [0.0, 1.0, 1.125, 2.0], [0.5]):
            for t0 in (ts[0], -0.25):
                for os in ([1] * len(ts), [1, 2, 1, 2][: len(ts)]):
                    _compare(ctx, kind, fw, bw, u, ts, t0, os, f"{kind}-{fw}-{bw} {u.name} locations={ts} initarg={t0} outputs={os}", c10.unit_tol(u))
    ctx.sample(f"{item}")


def run_long(item, ctx):
    """longer data sets with unequal gaps"""
    _, kind, fw, bw = item
    n = _model(kind, fw, bw)[0]
    u = c10.Units("same units", [1.0] * n)
    for r in (7, 8, 10, 12):
        for ts in (LONG[:r], LONG[-r:], [float(k) / 2 for k in range(r)]):
            for t0 in (ts[0], ts[0] - 0.25):
                for os in ([1] * r, [1 + k % 2 for k in range(r)]):
                    if os[-1] == 1 or r in (8, 12):
                        _compare(ctx, kind, fw, bw, u, ts, t0, os, f"{kind}-{fw}-{bw} locations={ts} initarg={t0} outputs={os}", dict(rtol=1e-6, atol=1e-7))
    ctx.sample(f"{item}")
