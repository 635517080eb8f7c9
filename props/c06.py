"""C06: the distribution functions of a random variable describe one and the same law."""
import itertools
import math
import numpy as np
import scipy.special as sp
import scipy.stats
from probnum import randvars, linops
from mc import rvlib as rl

RULE = ("every random variable of the catalogue (scalar/vector/matrix Gaussians in every covariance representation, constants, "
        "categoricals over scalar and vector supports with and without repeated points, wrapped SciPy variables, variables given by one of "
        "two callables) x every evaluation point of a grid, single and batched in every batch shape; densities, distribution functions, "
        "quantiles, entropy, mode/median/support and (damped) Cholesky factors checked against closed forms and against each other; "
        "non-trivial = distinct (variable, function, value)")
ASSUMPTIONS = ["points on a finite grid; Gaussian cdf in dimension >= 2 only compared for diagonal covariances"]
RT = 1e-6


def items(tier):
    out = []
    mus = [-3.0, -0.5, 0.0, 0.25, 10.0] + ([1e3, -1e-3, 77.7] if tier == "thorough" else [])
    vs = [1e-6, 0.25, 1.0, 4.0, 100.0] + ([1e-10, 3.3, 1e6] if tier == "thorough" else [])
    for m in mus:
        for v in vs:
            out.append(["N0", m, v])
    for sh in [(1,), (2,), (3,), (2, 2), (2, 3), (1, 2), (2, 1), (6,), (3, 3), (2, 4)]:
        for k in rl.kinds(sh):
            if k not in ("sing", "lsymk", "lsymk2"):
                out.append(["Nd", list(sh), k])
                out.append(["Lc", list(sh), k])
    out += [["Lc", [], k] for k in ("dense", "f32", "int", "sing")] + [["Lc", [2], "sing"], ["Lc", [2, 2], "sing"]]
    out += [["Sc", list(sh)] for sh in [(1,), (2,), (3,), (2, 2)]]
    out += [["C", list(s)] for s in [(), (1,), (2,), (2, 2)]]
    for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        grid = [1, 2, 5] if n < 4 else [1, 3]
        for p in itertools.product(grid, repeat=n):
            out.append(["K", n, list(p)])
    out += [["S", i] for i in range(len(scipy_rvs()))]
    out.append(["half"])
    return out


def run(item, ctx):
    {"N0": n0, "Nd": nd, "C": const, "K": cat, "Lc": chol, "Sc": scales, "S": sc, "half": half}[item[0]](item, ctx)
    ctx.sample(f"{item}: all functions on the grid")


def tick(ctx, *k):
    ctx.trace()
    ctx.step()
    ctx.state(*k)
    ctx.outcome(*k)


def n0(item, ctx):
    _, m, v = item
    s = math.sqrt(v)
    rv = randvars.Normal(m, v)
    w = f"N({m},{v})"
    zs = np.array([-6, -2.5, -1, -0.3, 0, 0.7, 1, 3, 5.5])
    xs = m + s * zs
    lp = -0.5 * zs**2 - math.log(s) - 0.5 * math.log(2 * math.pi)
    for i, x in enumerate(xs):
        t = dict(rtol=1e-5, atol=1e-12)
        ctx.close(rv.logpdf(x), lp[i], w + " logpdf", 1e-6, 1e-6)
        ctx.close(rv.pdf(x), math.exp(lp[i]), w + " pdf", **t)
        ctx.close(rv.cdf(x), sp.ndtr(zs[i]), w + " cdf", **t)
        ctx.close(rv.logcdf(x), sp.log_ndtr(zs[i]), w + " logcdf", **t)
        ctx.check(rv.in_support(x) is True, w, "in_support")
        tick(ctx, w, i)
    for sh in [(9,), (3, 3), (1, 9)]:
        X = xs.reshape(sh)
        ctx.close(rv.pdf(X), np.exp(lp).reshape(sh), w + " pdf batch", 1e-5, 1e-12)
        ctx.close(rv.logpdf(X), lp.reshape(sh), w + " logpdf batch", 1e-6, 1e-6)
        ctx.close(rv.cdf(X), sp.ndtr(zs).reshape(sh), w + " cdf batch", 1e-5, 1e-12)
    last = -np.inf
    for p in [1e-6, 0.01, 0.1, 0.25, 0.5, 0.6, 0.9, 0.999]:
        q = rv.quantile(p)
        ctx.close(rv.cdf(q), p, w + " cdf(quantile)", 1e-6, 1e-9)
        ctx.check(q > last, w, "quantile not increasing")
        last = q
        tick(ctx, w, "q", p)
    ctx.close(rv.entropy, 0.5 * math.log(2 * math.pi * math.e * v), w + " entropy", 1e-7, 1e-7)
    for n in ("mean", "mode", "median"):
        ctx.close(getattr(rv, n), m, w + " " + n)
    ctx.close(rv.var, v, w + " var")
    ctx.close(rv.std, s, w + " std")
    ctx.close(rv.quantile(0.5), m, w + " median/quantile", 1e-7, 1e-7)
    ctx.check(rv.in_support(np.float64(np.inf)) is False, w, "inf in support")
    for k in (0.0, 1e-3, 2.0):
        with ctx.no_error(w + " factor"):
            r = randvars.Normal(m, v)
            r.precompute_cov_cholesky(k)
            ctx.close(r.cov_cholesky**2 / (v + k), 1.0, w + f" factor damped by {k}", 1e-9, 1e-12)


def nd(item, ctx):
    _, sh, kind = item
    sh = tuple(sh)
    rv, law = rl.normal(kind, sh, 1)
    n = law.mean.size
    w = f"N{sh}/{kind}"
    Ci = np.linalg.inv(law.cov)
    ld = np.linalg.slogdet(law.cov)[1]
    pts = [np.zeros(n)] + [c * np.eye(n)[i] for i in range(n) for c in (1.0, -0.5)] + [np.cos(np.arange(n) + 1.0)]
    ref = np.array([-0.5 * d @ Ci @ d - 0.5 * ld - 0.5 * n * math.log(2 * math.pi) for d in pts])
    X = np.array([law.mean + d.reshape(sh) for d in pts])
    tol = 1e-4 if kind == "f32" else 1e-7
    for x, r in zip(X, ref):
        with ctx.no_error(w):
            ctx.close(rv.logpdf(x), r, w + " logpdf", tol, tol)
            ctx.close(rv.pdf(x), math.exp(r), w + " pdf", 10 * tol, 1e-12)
            ctx.check(rv.in_support(x) is True, w, "in_support")
            tick(ctx, w, r)
    k = len(pts) - len(pts) % 2
    for bs in [(k,), (2, k // 2), (1, k)]:
        with ctx.no_error(w + f" batch{bs}"):
            Xb = X[:k].reshape(bs + sh)
            got = rv.logpdf(Xb)
            ctx.close(np.asarray(got).reshape(-1), ref[:k], w + f" logpdf batch{bs}", tol, tol)
            got = rv.pdf(Xb)
            ctx.close(np.asarray(got).reshape(-1), np.exp(ref[:k]), w + f" pdf batch{bs}", 10 * tol, 1e-12)
            tick(ctx, w, bs)
    with ctx.no_error(w + " entropy"):
        ctx.close(rv.entropy, 0.5 * (n * math.log(2 * math.pi * math.e) + ld), w + " entropy", 1e-5, 1e-5)
    ctx.close(rl.dense(rv.mode), law.mean, w + " mode", tol, tol)
    rl.check_law(ctx, rv, law, w, rtol=tol, atol=tol)
    if np.allclose(law.cov, np.diag(np.diag(law.cov))):
        sd = np.sqrt(np.diag(law.cov))
        for d in pts:
            with ctx.no_error(w + " cdf"):
                want = np.prod(sp.ndtr(d / sd))
                ctx.close(rv.cdf(law.mean + d.reshape(sh)), want, w + " cdf", 1e-3, 1e-4)
                ctx.close(rv.logcdf(law.mean + d.reshape(sh)), math.log(want), w + " logcdf", 1e-2, 1e-3)


def chol(item, ctx):
    """the Cholesky factor, given, computed on demand or with any damping, is a lower-triangular factor of the (damped) covariance"""
    _, sh, kind = item
    sh = tuple(sh)
    n = rl.normal(kind, sh, 1)[1].mean.size
    cs = (n, n) if sh else ()
    tol = 1e-4 if kind == "f32" else 1e-8
    for damp in ("demand", None, 0.0, 1e-12, 1e-3, 0.5):
        if kind == "sing" and damp == 0.0 and sh:
            continue
        w = f"N{sh}/{kind} factor damping={damp}"
        with ctx.no_error(w):
            rv, law = rl.normal(kind, sh, 1)
            ctx.check(rv.cov_cholesky_is_precomputed is False, w, "a factor before any was asked for")
            if damp == "demand":
                C = rv.cov_cholesky
            elif damp is None:
                rv.precompute_cov_cholesky()
                C = rv.cov_cholesky
            else:
                rv.precompute_cov_cholesky(damp)
                C = rv.cov_cholesky
            d = damp if isinstance(damp, float) else 1e-12
            ctx.check(rv.cov_cholesky_is_precomputed is True and rv.cov_cholesky is C, w, "the factor is not kept")
            if sh:
                ctx.check(isinstance(C, linops.LinearOperator) == isinstance(rv.cov, linops.LinearOperator), w, "kind of the factor")
            C = rl.dense(C)
            ctx.check(C.shape == cs, w, f"shape of the factor {C.shape}")
            C = C.reshape(n, n)
            if kind in ("lkron", "lkronop"):  # each factor is damped
                A, B = rl.dense(rv.cov.A), rl.dense(rv.cov.B)
                want = np.kron(A + d * np.eye(len(A)), B + d * np.eye(len(B)))
            else:
                want = law.cov + d * np.eye(n)
            ctx.close(C @ C.T, want, w + " product", tol, max(tol * 1e-3, 1e-13) if kind != "sing" else 1e-9)
            ctx.check(np.array_equal(C, np.tril(C)) and np.all(np.diag(C) >= 0), w, "not a Cholesky factor")
            ctx.raises(lambda: rv.precompute_cov_cholesky(), w + " twice", Exception)
            if sh and isinstance(damp, float) and kind not in ("lkron", "lkronop"):
                D = rl.normal(kind, sh, 1)[0].dense_cov_cholesky(damp)
                ctx.close(D @ D.T, want, w + " dense factor", tol, 1e-9)
            rl.check_law(ctx, rv, law, w, rtol=tol, atol=tol, chol=False)
            given = randvars.Normal(rv.mean, rv.cov, cov_cholesky=rv.cov_cholesky)
            ctx.check(given.cov_cholesky_is_precomputed is True, w, "a given factor is dropped")
            ctx.close(rl.dense(given.cov_cholesky).reshape(n, n), C, w + " given factor", 1e-12, 1e-15)
            tick(ctx, w, C.round(6).tobytes())


def scales(item, ctx):
    """tiny and huge spreads and far means: densities are those of the standardised variable"""
    sh = tuple(item[1])
    n = int(np.prod(sh))
    P = rl.spd(n, 1)
    Ci, ld = np.linalg.inv(P), np.linalg.slogdet(P)[1]
    for s, off in itertools.product((2.0**-16, 2.0**-8, 1.0, 2.0**8, 2.0**20), (0.0, 4.0, 2.0**10)):
        for kind in ("array", "linop", "factor"):
            m = (off + s * rl.gen(*sh, s=1)).astype(float)
            cov = s * s * P
            w = f"N{sh} spread {s} mean {off} {kind}"
            with ctx.no_error(w):
                rv = randvars.Normal(m, linops.aslinop(cov) if kind == "linop" else cov, **({"cov_cholesky": np.linalg.cholesky(cov)} if kind == "factor" else {}))
                for d in [np.zeros(n)] + [c * np.eye(n)[i] for i in range(n) for c in (1.0, -0.5, 3.0)]:
                    want = -0.5 * d @ Ci @ d - 0.5 * ld - n * math.log(s) - 0.5 * n * math.log(2 * math.pi)
                    x = m + s * d.reshape(sh)
                    ctx.close(rv.logpdf(x), want, w + " logpdf", 1e-7, 1e-5)
                    ctx.close(rv.pdf(x) / math.exp(want), 1.0, w + " pdf", 1e-4, 1e-5)
                ctx.close(rv.entropy, 0.5 * (n * math.log(2 * math.pi * math.e) + ld) + n * math.log(s), w + " entropy", 1e-7, 1e-6)
                ctx.close(rv.std / (s * np.sqrt(np.diag(P)).reshape(sh)), np.ones(sh), w + " std", 1e-8, 1e-10)
                ctx.close(rv.var / (s * s * np.diag(P).reshape(sh)), np.ones(sh), w + " var", 1e-8, 1e-10)
                ctx.check(rv.var.shape == rv.std.shape == sh, w, "shape of the spreads")
                tick(ctx, w)


    for s, damp, kind in itertools.product((2.0**-20, 2.0**-30, 2.0**10), (0.0, 2.0**-40, None), ("array", "linop", "scalar")):
        cov = s * s * P
        d = (1e-12 if damp is None else damp) / (s * s)
        w = f"N{sh} spread {s} {kind} factor damping={damp}"
        with ctx.no_error(w):
            if kind == "scalar":
                rv = randvars.Normal(0.5, s * s)
                rv.precompute_cov_cholesky(damp)
                ctx.close(rv.cov_cholesky / (s * math.sqrt(1.0 + d)), 1.0, w, 1e-9, 1e-12)
                continue
            rv = randvars.Normal(np.zeros(sh), linops.aslinop(cov) if kind == "linop" else cov)
            rv.precompute_cov_cholesky(damp)
            for C in (rl.dense(rv.cov_cholesky) / s, rv.dense_cov_cholesky(damp) / s):
                ctx.close(C @ C.T, P + d * np.eye(n), w, 1e-9, 1e-11)
            tick(ctx, w)


def const(item, ctx):
    sh = tuple(item[1])
    v = rl.gen(*sh, s=1) if sh else np.float64(0.75)
    for rv, val in ((randvars.Constant(v), v), (randvars.Constant(np.rint(v).astype(int)), np.rint(v).astype(int))):
        for d in (-1.0, -1e-3, 0.0, 0.5):
            x = val + d
            w = f"Const{sh}{rv.dtype} at {d}"
            with ctx.no_error(w):
                ctx.close(rv.pmf(x), float(d == 0), w + " pmf")
                ctx.close(rv.cdf(x), float(d >= 0), w + " cdf")
                ctx.check(rv.in_support(x) is (d == 0), w, "in_support")
                with np.errstate(divide="ignore"):
                    ctx.close(rv.logpmf(x), 0.0 if d == 0 else -np.inf, w + " logpmf")
                    ctx.close(rv.logcdf(x), 0.0 if d >= 0 else -np.inf, w + " logcdf")
                tick(ctx, w)
        w = f"Const{sh}{rv.dtype}"
        ctx.close(rv.mean, val, w)
        ctx.close(rv.mode, val, w)
        ctx.close(rv.var, np.zeros(sh), w)
        ctx.close(rv.std, np.zeros(sh), w)
        if sh == ():
            ctx.close(rv.median, val, w)


def cat(item, ctx):
    n, p = item[1], np.array(item[2], float)
    p = p / p.sum()
    sups = {"default": None, "float": np.array([0.5, -1.5, 2.0, 3.0, 9.0][:n]), "str": np.array(list("abcde")[:n]),
            "rep": np.array([1.0, 2.0, 1.0, 2.0, 1.0][:n]),
            "vec": np.array([[0.0, 0.0], [0.0, 1.0], [1.0, 0.0], [1.0, 1.0], [2.0, 0.0]][:n]),
            "vecrep": np.array([[0.0, 0.0], [0.0, 1.0], [0.0, 0.0], [0.0, 1.0], [0.0, 0.0]][:n])}
    for name, sup in sups.items():
        w = f"Cat {name} p={item[2]}"
        with ctx.no_error(w):
            rv = randvars.Categorical(p, sup)
            s = np.arange(n) if sup is None else sup
            uniq = np.unique(s, axis=0)
            tot = 0.0
            for u in uniq:
                want = sum(pi for pi, si in zip(p, s) if np.all(si == u))
                got = rv.pmf(u)
                tot += got
                ctx.close(got, want, w + f" pmf({u})")
                ctx.close(rv.logpmf(u), np.log(want), w + f" logpmf({u})")
                tick(ctx, w, str(u))
            ctx.close(tot, 1.0, w + " total mass")
            out = np.array("zz"[:1]) if name == "str" else np.full_like(s[0], 77)
            ctx.close(rv.pmf(out.astype(s.dtype)), 0.0, w + " pmf outside the support")
            mass = [rv.pmf(u) for u in s]
            ctx.check(rv.shape == s[0].shape, w, "shape")
            if name not in ("rep", "vecrep"):
                ctx.close(rv.pmf(rv.mode), max(mass), w + " mode")
            for seed in range(3):
                smp = rv.sample(np.random.default_rng(seed), (4,))
                ctx.check(all(rv.pmf(x) > 0 for x in smp), w, "sample outside the support")
                rs = rv.resample(np.random.default_rng(seed))
                ctx.close(rs.probabilities.sum(), 1.0, w + " resample mass")
                ctx.check(rs.support.shape == s.shape, w, "resample shape")
                ctx.check(all(rv.pmf(x) > 0 for x in rs.support), w, "resampled point outside the support")
                cnt = [sum(np.all(t == x) for t in rs.support) for x in rs.support]
                for x, c in zip(rs.support, cnt):
                    ctx.close(rs.pmf(x), c / n, w + " pmf after resampling")


def scipy_rvs():
    st = scipy.stats
    return [("norm", st.norm(1.0, 2.0)), ("mvn", st.multivariate_normal([1.0, 2.0], [[2.0, 0.5], [0.5, 1.0]])), ("gamma", st.gamma(2.0, scale=1.5)),
            ("beta", st.beta(2.0, 3.0)), ("uniform", st.uniform(-1, 4)), ("t", st.t(5.0)), ("expon", st.expon(scale=0.5)), ("binom", st.binom(5, 0.3)),
            ("poisson", st.poisson(2.5)), ("bernoulli", st.bernoulli(0.4)), ("geom", st.geom(0.3)), ("laplace", st.laplace(0.5, 1.5)),
            ("dirichlet", st.dirichlet([1.0, 2.0, 3.0])), ("multinomial", st.multinomial(4, [0.2, 0.3, 0.5])), ("wishart", st.wishart(4, np.eye(2)))]


def sc(item, ctx):
    name, s = scipy_rvs()[item[1]]
    w = "scipy " + name
    state = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    rv = randvars.asrandvar(s)
    ctx.check(state == (np.random.get_state()[1].tobytes(), np.random.get_state()[2]), w, "conversion consumed global random numbers")
    uni = hasattr(s, "ppf")
    if uni:
        pts = [s.ppf(q) for q in (0.05, 0.3, 0.5, 0.8, 0.99)]
        for x in pts:
            x = np.asarray(x)[()].astype(rv.dtype)
            with ctx.no_error(w):
                ctx.close(rv.cdf(x), s.cdf(x), w + " cdf")
                ctx.close(rv.logcdf(x), s.logcdf(x), w + " logcdf")
                ctx.check(rv.in_support(x) is True, w, "in_support")
                for f in ("pdf", "logpdf", "pmf", "logpmf"):
                    if hasattr(rv, f):
                        ctx.close(getattr(rv, f)(x), getattr(s, f)(x), w + " " + f)
                tick(ctx, w, float(x))
        with ctx.no_error(w):
            for q in (0.05, 0.5, 0.8):
                ctx.close(rv.quantile(q), s.ppf(q), w + " quantile")
            ctx.close(rv.mean, s.mean(), w + " mean")
            ctx.close(rv.var, s.var(), w + " var")
            ctx.close(rv.std, s.std(), w + " std")
            ctx.close(rv.median, s.median(), w + " median")
            ctx.close(rv.entropy, s.entropy(), w + " entropy")
    else:
        x = s.rvs(random_state=np.random.default_rng(1))
        if name == "multinomial":
            x = x[0] if x.ndim > 1 else x
        for f in ("pdf", "logpdf", "pmf", "logpmf"):
            if hasattr(rv, f) and hasattr(s, f):
                with ctx.no_error(w):
                    a = x[0] if name == "dirichlet" and x.ndim > 1 else x
                    ctx.close(np.ravel(getattr(rv, f)(a)), np.ravel(getattr(s, f)(a)), w + " " + f)
                    tick(ctx, w, f)
    for size in ((), (3,), (2, 3)):
        if name in ("dirichlet", "multinomial", "wishart"):
            continue
        with ctx.no_error(w + f" sample{size}"):
            a = rv.sample(np.random.default_rng(3), size)
            ctx.check(np.shape(a) == size + rv.shape, w, f"sample shape {np.shape(a)} for size {size}")
            ctx.close(a, rv.sample(np.random.default_rng(3), size), w + " reproducible")


def half(item, ctx):
    """a variable given by only one of (f, log f) derives the other"""
    f = lambda x: np.float64(np.exp(-abs(x)) / 2)
    lf = lambda x: np.float64(-abs(x) - np.log(2))
    F = lambda x: np.float64(0.5 * np.exp(x) if x < 0 else 1 - 0.5 * np.exp(-x))
    lF = lambda x: np.log(F(x))
    C, D = randvars.ContinuousRandomVariable, randvars.DiscreteRandomVariable
    for x in (-2.0, -0.1, 0.0, 0.4, 3.0):
        for mk, a, b in ((lambda: C((), float, pdf=f), "pdf", "logpdf"), (lambda: C((), float, logpdf=lf), "pdf", "logpdf"),
                         (lambda: D((), float, pmf=f), "pmf", "logpmf"), (lambda: D((), float, logpmf=lf), "pmf", "logpmf")):
            with ctx.no_error(f"half {a}"):
                rv = mk()
                ctx.close(getattr(rv, a)(x), f(x), f"half {a}")
                ctx.close(getattr(rv, b)(x), lf(x), f"half {b}")
                tick(ctx, "half", a, x)
        for mk in (lambda: C((), float, cdf=F), lambda: C((), float, logcdf=lF), lambda: randvars.RandomVariable((), float, cdf=F)):
            with ctx.no_error("half cdf"):
                ctx.close(mk().cdf(x), F(x), "half cdf")
                ctx.close(mk().logcdf(x), lF(x), "half logcdf")
                tick(ctx, "half", "cdf", x)
