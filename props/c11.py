"""C11: Markov processes - consistency over partitions, joint sampling law, smoothing of lists."""
import itertools
import math
import numpy as np
import scipy.linalg
from probnum import randprocs, randvars
from probnum.randprocs import markov
from probnum.randprocs.markov import discrete as disc, integrator as integ, utils as mutils
from mc import rvlib as rl
from mc.gmlib import GM, memo
from props import c10

RULE = ("every process x every partition of the interval (2^(n-1) partitions of n grid cells): propagation through the partition equals the direct pass; every "
        "non-empty subset of the grid as sampling locations x size x units of states and times: joint law of the sampler from the complete set of unit scripts; every assignment of filtering "
        "variables: smoothed list and joint backward sampling law; query order of discretisations; non-trivial = distinct (process, partition or subset, law)")
ASSUMPTIONS = ["state dimension <= 6, every subset of a grid of 5 points, chosen grids of 8, non-decreasing distinct locations", "samplers affine in their Gaussian draws (confirmed on a mixed script)"]

GRID = np.array([0.0, 0.3, 0.5, 1.1, 2.0])


def procs():
    out = {}
    for kind, nu, d in [("iwp", 0, 1), ("iwp", 1, 1), ("iwp", 2, 1), ("iwp", 1, 2), ("ioup", 1, 1), ("ioup", 0, 2), ("matern", 1, 1), ("matern", 0, 1), ("matern", 2, 1)]:
        for fw, bw in [("classic", "classic"), ("sqrt", "sqrt")]:
            out[f"{kind}{nu}x{d}-{fw}"] = c10._integ(kind, nu, d, fw, bw)
    for n in ("2u", "3u", "1u"):
        out[f"ltisde{n}-classic"] = c10._ltisde(n, "classic", "classic")
        out[f"ltisde{n}-sqrt"] = c10._ltisde(n, "sqrt", "sqrt")
    return out


def seqs():
    return {"lg2": c10._lg(2, 2, "classic", "joseph"), "lg2s": c10._lg(2, 2, "sqrt", "sqrt"), "lti3": c10._lti(3, 3, "classic", "classic"), "lg1": c10._lg(1, 1, "classic", "classic")}


def items(tier):
    n = 5 if tier == "quick" else 6
    out = [["part", p, n] for p in procs()]
    out += [["sample", p, tier] for p in list(procs()) + list(seqs())]
    out += [["smooth", p, tier] for p in list(procs()) + list(seqs())]
    out += [["closed", nu, d] for nu in (0, 1, 2, 3, 4) for d in (1, 2, 3)]
    out += [["factory", k] for k in ("iwp", "ioup", "matern")]
    out.append(["meas"])
    out += [["units", k, fw, bw] for k in ("sde2u", "sde3u", "sde1u") for fw, bw in (("classic", "classic"), ("sqrt", "sqrt"), ("classic", "joseph"))]
    return out


def get(p):
    return procs()[p] if p in procs() else seqs()[p]


def chain(exact, m, P, ts, dt_needed=True):
    """joint law of the states at ts (initial law at ts[0]) stacked"""
    n, N = len(m), len(ts)
    mean = np.zeros(N * n)
    C = np.zeros((N * n, N * n))
    mean[:n], C[:n, :n] = m, P
    for k in range(1, N):
        A, b, Q = exact(ts[k - 1], ts[k] - ts[k - 1])
        s, q = slice(k * n, (k + 1) * n), slice((k - 1) * n, k * n)
        mean[s] = A @ mean[q] + b
        C[s, : k * n] = A @ C[q, : k * n]
        C[: k * n, s] = C[s, : k * n].T
        C[s, s] = A @ C[q, q] @ A.T + Q
    return mean, C


def run(item, ctx):
    return globals()["run_" + item[0]](item, ctx)


def run_part(item, ctx):
    _, p, n = item
    mk, exact, i, _ = get(p)
    rv, m, P = c10.mkrv("plain", i, 3)
    total = 1.7
    A, b, Q = exact(0.0, total)
    for sig in (1.0, 0.3):
        want = rl.Law(A @ m + b, A @ P @ A.T + sig * Q)
        for cuts in itertools.product((0, 1), repeat=n - 1):
            T = mk()
            ts = [0.0] + [total * (k + 1) / n for k in range(n - 1) if cuts[k]] + [total]
            w = f"{p} partition {cuts} diffusion={sig}"
            with ctx.no_error(w):
                r = rv
                for a, c in zip(ts[:-1], ts[1:]):
                    r, _ = T.forward_rv(r, t=a, dt=c - a, _diffusion=sig)
                    ctx.step()
                rl.check_law(ctx, r, want, w, rtol=1e-6, atol=1e-7)
                # the cached discretisations are per step, whatever was asked before
                for a, c in reversed(list(zip(ts[:-1], ts[1:]))):
                    D = T.discretise(dt=c - a)
                    A1, b1, Q1 = exact(0.0, c - a)
                    ctx.close(rl.dense(D.transition_matrix), A1, w + " discretise A", rtol=1e-8, atol=1e-10)
                    ctx.close(D.noise.mean, b1, w + " discretise b", rtol=1e-8, atol=1e-10)
                    ctx.close(rl.dense(D.noise.cov), Q1, w + " discretise Q", rtol=1e-7, atol=1e-12)
                ctx.trace()
                ctx.state(p, cuts, sig)
                ctx.outcome(p, cuts, sig)
    ctx.sample(w)


def run_sample(item, ctx):
    _, p, tier = item
    mk, exact, i, _ = get(p)
    T = mk()
    cls = markov.MarkovProcess if p in procs() else markov.MarkovSequence
    for kind in ("plain", "chol"):
        rv, m, P = c10.mkrv(kind, i, 3)
        proc = cls(initarg=GRID[0], initrv=rv, transition=T)
        ctx.check(proc.output_shape == (i,) and proc.input_shape == (), p, "process shapes")
        g = GRID if cls is markov.MarkovProcess else np.arange(5.0)
        for r in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            for sub in itertools.combinations(range(5), r):
                if kind == "chol" and r > 2:
                    continue
                if cls is markov.MarkovSequence and sub[0] != 0:
                    continue  # the law of a sequence between its initial argument and a later one is not defined by the transition alone
                ts = g[list(sub)]
                chain_ts = ts if sub[0] == 0 else np.concatenate(([g[0]], ts))
                mean, C = chain(exact, m, P, chain_ts)
                if sub[0] != 0:
                    mean, C = mean[i:], C[i:, i:]
                for size in ((), 2, (2, 1)) if r == 2 and sub[1] < 3 and kind == "plain" else ((),):
                    sz = (size,) if isinstance(size, int) else size
                    K = int(np.prod(sz))
                    w = f"{p} rv={kind} at {ts.tolist()} size={size}"
                    with ctx.no_error(w):
                        law = rl.sample_law(lambda rng: proc.sample(rng, args=ts.copy(), size=size), ctx, w)
                        ctx.check(law.shape == sz + (r, i), w, f"shape {law.shape}")
                        ctx.close(law.mean, np.broadcast_to(mean.reshape(r, i), sz + (r, i)), w + " mean", rtol=1e-6, atol=1e-7)
                        ctx.close(law.cov, np.kron(np.eye(K), C), w + " joint covariance of samples", rtol=1e-5, atol=1e-5)
                        ctx.state(w)
                        ctx.outcome(p, sub, size, C.round(5).tobytes())
    ctx.raises(lambda: proc.sample(np.random.default_rng(1), args=np.zeros((2, 2))), f"{p} two-dimensional args", ValueError)
    a = proc.sample(np.random.default_rng(3), args=g)
    ctx.check(np.array_equal(a, proc.sample(np.random.default_rng(3), args=g)), p, "not reproducible")
    ctx.sample(w)


def run_smooth(item, ctx):
    """smooth_list and joint backward sampling for arbitrary filtering variables"""
    _, p, tier = item
    mk, exact, i, _ = get(p)
    T = mk()
    for N in (1, 2, 3, 4):
        for seed, kind, sigs in itertools.product((0, 1), ("plain", "chol"), ((1.0,) * 3, (0.5, 2.0, 1.5))):
            ts = GRID[:N] if p in procs() else np.arange(float(N))
            rvs = [c10.mkrv(kind, i, 3 + 2 * k + seed) for k in range(N)]
            w = f"{p} N={N} seed={seed} rv={kind} diffusions={sigs}"
            # reference: backward Gaussian recursion with the filtering laws
            ms, Ps = [rvs[-1][1]], [rvs[-1][2]]
            joint_m = rvs[-1][1]
            joint_C = rvs[-1][2]
            ok = True
            for k in reversed(range(N - 1)):
                A, b, Q = exact(ts[k], ts[k + 1] - ts[k])
                m, P = rvs[k][1], rvs[k][2]
                S = A @ P @ A.T + sigs[k] * Q
                ok = ok and np.linalg.cond(S) < 1e7
                G = np.linalg.solve(S, A @ P).T
                R = P - G @ S @ G.T
                sm, sP = ms[0], Ps[0]
                ms.insert(0, m + G @ (sm - A @ m - b))
                Ps.insert(0, P + G @ (sP - S) @ G.T)
                # joint law of (x_k, x_{k+1..N})
                E = np.zeros((i, len(joint_m)))
                E[:, :i] = G
                joint_m, joint_C = np.concatenate([m + G @ (joint_m[:i] - A @ m - b), joint_m]), np.block([[R + E @ joint_C @ E.T, E @ joint_C], [joint_C @ E.T, joint_C]])
            if not ok:
                continue
            lst = randvars._RandomVariableList([r[0] for r in rvs])
            with ctx.no_error(w):
                out = T.smooth_list(lst, ts, _diffusion_list=np.array(sigs[: max(N - 1, 0)]))
                ctx.check(len(out) == N, w, f"{len(out)} smoothed variables")
                for k in range(N):
                    rl.check_law(ctx, out[k], rl.Law(ms[k], Ps[k]), f"{w} smoothed {k}", rtol=1e-5, atol=1e-6)
                ctx.step(N)
                ctx.trace()
                ctx.state(w)
                law = rl.sample_law(lambda rng: np.array(T.jointly_transform_base_measure_realization_list_backward(
                    base_measure_realizations=rng.standard_normal((N, i)), t=ts, rv_list=lst, _diffusion_list=np.array(sigs[: max(N - 1, 0)]))), ctx, w + " backward sampling")
                ctx.close(law.mean.ravel(), joint_m, w + " backward sample mean", rtol=1e-5, atol=1e-6)
                ctx.close(law.cov, joint_C, w + " joint covariance of backward samples", rtol=1e-5, atol=1e-5)
                ctx.outcome(p, N, seed, sigs, joint_C.round(5).tobytes())
                scaled = {float(t): g for t, g in zip(ts, sigs)}
                fm, fC = chain(lambda t, dt: (lambda A, b, Q: (A, b, scaled[float(t)] * Q))(*exact(t, dt)), rvs[0][1], rvs[0][2], ts)
                law = rl.sample_law(lambda rng: np.array(T.jointly_transform_base_measure_realization_list_forward(
                    base_measure_realizations=rng.standard_normal((N, i)), t=ts, initrv=rvs[0][0], _diffusion_list=np.array(sigs[: max(N - 1, 0)]))), ctx, w + " forward sampling")
                ctx.close(law.mean.ravel(), fm, w + " forward sample mean", rtol=1e-5, atol=1e-6)
                ctx.close(law.cov, fC, w + " joint covariance of forward samples", rtol=1e-5, atol=1e-5)
    ctx.sample(w)


def run_closed(item, ctx):
    """closed forms of the integrated Wiener process, coordinate conversion and projections"""
    _, nu, d = item
    T = integ.IntegratedWienerTransition(num_derivatives=nu, wiener_process_dimension=d)
    ctx.check((T.num_derivatives, T.wiener_process_dimension, T.state_dimension) == (nu, d, d * (nu + 1)), f"{item}", "attributes")
    for dt in (1e-5, 1e-2, 0.5, 1.0, 3.0, 1e3):
        A1 = np.array([[dt ** (j - i) / math.factorial(j - i) if j >= i else 0.0 for j in range(nu + 1)] for i in range(nu + 1)])
        Q1 = np.array([[dt ** (2 * nu + 1 - i - j) / ((2 * nu + 1 - i - j) * math.factorial(nu - i) * math.factorial(nu - j)) for j in range(nu + 1)] for i in range(nu + 1)])
        D = T.discretise(dt)
        w = f"iwp{nu}x{d} dt={dt}"
        ctx.close(D.transition_matrix, np.kron(np.eye(d), A1), w + " A", rtol=1e-9, atol=1e-13)
        ctx.close(D.noise.cov, np.kron(np.eye(d), Q1), w + " Q", rtol=1e-9, atol=1e-300)
        L = D.noise.cov_cholesky
        ctx.close(L @ L.T, np.kron(np.eye(d), Q1), w + " Q factor", rtol=1e-8, atol=1e-300)
        ctx.close(T.precon(dt) @ T.precon.inverse(dt), np.eye(d * (nu + 1)), w + " preconditioner", rtol=1e-10, atol=1e-12)
        ctx.trace()
        ctx.step()
        ctx.state(w)
        ctx.outcome(w)
    n = d * (nu + 1)
    x = np.arange(1.0, n + 1)
    # derivative-wise: (y_1..y_d, y'_1..), coordinate-wise: (y_1, y'_1, ..., y_2, ...)
    cw = x.reshape(nu + 1, d).T.ravel()
    ctx.close(integ.convert.convert_derivwise_to_coordwise(x, nu, d), cw, f"{item} derivwise->coordwise")
    ctx.close(integ.convert.convert_coordwise_to_derivwise(cw, nu, d), x, f"{item} coordwise->derivwise")
    for q in range(nu + 1):
        ctx.close(T.proj2coord(q) @ cw, x.reshape(nu + 1, d)[q], f"{item} proj2coord({q})")
        ctx.step()
        ctx.state("proj", nu, d, q)


def run_factory(item, ctx):
    """process constructors: initial variable, argument and transition"""
    k = item[1]
    extra = {"iwp": {}, "ioup": dict(driftspeed=0.7), "matern": dict(lengthscale=0.9)}[k]
    cls = {"iwp": integ.IntegratedWienerProcess, "ioup": integ.IntegratedOrnsteinUhlenbeckProcess, "matern": integ.MaternProcess}[k]
    for nu, d, fw, bw, diffuse, given in itertools.product((0, 1, 2), (1, 2), c10.FW, c10.BW, (False, True), (False, True)):
        n = d * (nu + 1)
        rv = c10.mkrv("plain", n, 3)[0] if given else None
        w = f"{cls.__name__} {nu} {d} {fw} {bw} diffuse={diffuse} initrv={given}"
        with ctx.no_error(w):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                P = cls(initarg=1.5, num_derivatives=nu, wiener_process_dimension=d, initrv=rv, diffuse=diffuse, forward_implementation=fw, backward_implementation=bw, **extra)
            T = P.transition
            ctx.check(P.initarg == 1.5 and P.output_shape == (n,) and T.num_derivatives == nu and T.wiener_process_dimension == d, w, "attributes")
            ctx.check(T.forward_implementation == fw and T.backward_implementation == bw, w, "implementations")
            if given:
                ctx.check(P.initrv is rv, w, "initial variable")
            else:
                s = 1e3 if diffuse else 1.0
                rl.check_law(ctx, P.initrv, rl.Law(np.zeros(n), s * s * np.eye(n)), w + " initrv")
            ctx.trace()
            ctx.step()
            ctx.state(w)
            ctx.outcome(w)
    ctx.raises(lambda: markov.MarkovSequence(initarg=0.0, initrv=P.initrv, transition=T), "sequence with continuous transition", TypeError)
    ctx.raises(lambda: markov.MarkovProcess(initarg=0.0, initrv=P.initrv, transition=T.discretise(0.1)), "process with discrete transition", TypeError)


def run_meas(item, ctx):
    """artificial measurements: joint law of states and observations"""
    for p in ("iwp1x1-classic", "ltisde2u-classic", "lg2"):
        mk, exact, i, _ = get(p)
        cls = markov.MarkovProcess if p in procs() else markov.MarkovSequence
        rv, m, P = c10.mkrv("plain", i, 3)
        proc = cls(initarg=0.0, initrv=rv, transition=mk())
        for o, N in itertools.product((1, 2), (1, 2, 3)):
            H = c10.tmat(o, i)
            meas = disc.LinearGaussian(input_dim=i, output_dim=o, transition_matrix_fun=lambda t: H * (1 + t), noise_fun=lambda t: randvars.Normal(t * np.ones(o), (1 + t) * rl.spd(o, 1)))
            ts = GRID[:N] if p in procs() else np.arange(float(N))
            mean, C = chain(exact, m, P, ts)
            B = scipy.linalg.block_diag(*[H * (1 + t) for t in ts])
            R = scipy.linalg.block_diag(*[(1 + t) * rl.spd(o, 1) for t in ts])
            om = B @ mean + np.repeat(ts, o)
            J = np.block([[C, C @ B.T], [B @ C, B @ C @ B.T + R]])
            w = f"measurements {p} o={o} N={N}"
            with ctx.no_error(w):
                def draw(rng):
                    x, y = mutils.generate_artificial_measurements(rng, proc, meas, ts)
                    return np.concatenate([np.ravel(x), np.ravel(y)])
                law = rl.sample_law(draw, ctx, w)
                ctx.close(law.mean, np.concatenate([mean, om]), w + " mean", rtol=1e-6, atol=1e-7)
                ctx.close(law.cov, J, w + " joint law", rtol=1e-5, atol=1e-5)
                ctx.state(w)
                ctx.outcome(w)


def run_units(item, ctx):
    """sampling and smoothing of lists do not depend on the units; longer grids with unequal gaps; first location at, close to and far from the initial argument"""
    _, kind, fw, bw = item
    n = int(kind[3])
    exact = memo(c10._ltisde(kind[3:], fw, bw)[1])
    _, m, P = c10.mkrv("plain", n, 3)
    same = c10.Units("same units", [1.0] * n)
    for u in [same] + c10.units(n, "sqrt", bw):
        if u.e != 1.0 and u.name.endswith("observations"):
            continue
        tol = c10.unit_tol(u)
        tol = dict(tol, atol=max(tol["atol"], 2e-6))
        grids = [[0.0, 0.125, 1.0], [0.0625], [2.0**-10, 0.5], [-0.5 + 0.5, 1.0, 1.125, 2.0]] + ([[0.0, 0.125, 0.5, 0.75, 1.75, 1.875, 2.0, 3.0], [k / 2 + 2.0**-9 for k in range(8)]] if u is same and n < 3 else [])
        for ts in grids:
            T = u.sde(kind[3:], fw, bw)
            r = len(ts)
            w = f"{kind}-{fw}-{bw} {u.name} at {ts}"
            with ctx.no_error(w):
                proc = markov.MarkovProcess(initarg=u.t(0.0), initrv=u.rv(m, P, fw == "sqrt"), transition=T)
                law = rl.sample_law(lambda rng: proc.sample(rng, args=np.array([u.t(t) for t in ts])), ctx, w)
                mean, C = chain(exact, m, P, ts if ts[0] == 0 else [0.0] + ts)
                if ts[0] != 0:
                    mean, C = mean[n:], C[n:, n:]
                ctx.check(law.shape == (r, n), w, f"shape {law.shape}")
                B = np.kron(np.eye(r), u.Di)
                ctx.close(B @ law.mean.ravel(), mean, w + " mean", **tol)
                ctx.close(B @ law.cov @ B, C, w + " joint covariance of samples", **tol)
                ctx.outcome(w, C.round(5).tobytes())
            if ts[0] == 0 and r > 1:
                G = GM(exact, m, P, 0.0)
                rvs, fm, fP = [], m, P
                # filtering variables: every second location carries an observation of the first component
                obs, laws = [], []
                for k, t in enumerate(ts):
                    if k % 2:
                        obs.append((t, np.eye(1, n), np.zeros(1), np.eye(1) * 0.5, np.array([np.sin(k)])))
                    laws.append(G.posterior(obs, [t]))
                with ctx.no_error(w + " smooth_list"):
                    out = T.smooth_list(randvars._RandomVariableList([u.rv(a, 0.5 * (b + b.T), fw == "sqrt") for a, b in laws]), np.array([u.t(t) for t in ts]), _diffusion_list=np.ones(r - 1))
                    for k, t in enumerate(ts):
                        wm, wC = G.posterior(obs, [t])
                        gm, gC = u.law(out[k])
                        ctx.close(gm, wm, f"{w} smoothed mean {k}", **tol)
                        ctx.close(gC, wC, f"{w} smoothed covariance {k}", **tol)
                        ctx.step()
            ctx.state(w)
            ctx.trace()
    ctx.sample(w)
