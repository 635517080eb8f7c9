"""C19: kernel embeddings are the integrals of the kernel; integration measures are what they are called."""
import itertools
import math
import warnings
import numpy as np
from probnum import randprocs
from probnum.quad import integration_measures as im
from probnum.quad import kernel_embeddings as ke
from probnum.randprocs import covfuncs as cf
from mc import rvlib as rl

RULE = ("every supported kernel family x smoothness x lengthscale x dimension 1-3 x measure (Gaussian: scalar, diagonal, full; Lebesgue: domains, normalised or not) x evaluation point grid: "
        "kernel mean and kernel variance equal tensor quadrature of the kernel itself; every unsupported combination is refused; every way to write a domain or a measure gives the same measure; "
        "densities on grids; samples under every script of uniform / normal draws")
ASSUMPTIONS = ["Matern kernel means are compared for points inside the domain (the nodes a solver can produce)", "reference integrals: composite Gauss-Legendre with panels split at the kinks of the kernel, relative accuracy 1e-9"]
G = np.polynomial.legendre.leggauss(24)
H = np.polynomial.hermite_e.hermegauss(44)


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


def panels(a, b, ell, *cuts):
    pts = sorted({a, b, *[c for c in cuts if a < c < b]})
    xs, ws = [], []
    for lo, hi in zip(pts, pts[1:]):
        k = max(1, int(math.ceil((hi - lo) / (5 * ell))))
        e = np.linspace(lo, hi, k + 1)
        for l, h in zip(e, e[1:]):
            xs.append(0.5 * (h - l) * G[0] + 0.5 * (h + l))
            ws.append(0.5 * (h - l) * G[1])
    return np.concatenate(xs), np.concatenate(ws)


def tensor(axes):
    X = np.stack([g.ravel() for g in np.meshgrid(*[a[0] for a in axes], indexing="ij")], axis=-1)
    W = axes[0][1]
    for a in axes[1:]:
        W = np.multiply.outer(W, a[1])
    return X, W.ravel()


def kernels(tier):
    out = []
    ells = (0.3, 1.0, 2.5)
    for d in (1, 2, 3):
        out += [("expquad", d, e) for e in ells]
    out += [("matern", 1, nu, e) for nu in (0.5, 1.5, 2.5, 3.5) for e in ells]
    nus = (0.5, 1.5, 2.5, 3.5)
    out += [("pmatern", 1, (nu,), (e,)) for nu in nus for e in ells]
    out += [("pmatern", 2, n, e) for n in itertools.product(nus, repeat=2) for e in ((0.4, 1.3), (2.0, 0.7))]
    out += [("pmatern", 2, n, e) for n in (1.5, 2.5) for e in (0.5, 1.7)]
    out += [("pmatern", 3, n, (0.6, 1.1, 2.0)) for n in itertools.permutations(nus, 3)][:: 1 if tier != "quick" else 5]
    return out


def mk(k):
    if k[0] == "expquad":
        return cf.ExpQuad((k[1],), lengthscales=k[2])
    if k[0] == "matern":
        return cf.Matern((k[1],), nu=k[2], lengthscales=k[3])
    conv = lambda v: np.array(v) if isinstance(v, tuple) else v
    return cf.ProductMatern((k[1],), lengthscales=conv(k[3]), nus=conv(k[2]))


def ell_of(k, i):
    e = k[3] if k[0] != "expquad" else k[2]
    return e[i] if isinstance(e, tuple) else e


def one(k, i, x, y):
    """the kernel along axis i, from its definition"""
    ell = ell_of(k, i)
    r = abs(x - y) / ell
    if k[0] == "expquad":
        return np.exp(-0.5 * r * r)
    nu = k[2][i] if isinstance(k[2], tuple) else k[2]
    z = math.sqrt(2 * nu) * r
    return np.exp(-z) * {0.5: lambda: 1, 1.5: lambda: 1 + z, 2.5: lambda: 1 + z + z * z / 3, 3.5: lambda: 1 + z + 2 * z * z / 5 + z ** 3 / 15}[nu]()


DOM = {1: [((0.0,), (1.0,)), ((-2.0,), (-0.5,)), ((-1.0,), (3.0,)), ((2.0,), (2.1,))],
       2: [((0.0, 0.0), (1.0, 1.0)), ((-2.0, 0.5), (-0.5, 3.0))],
       3: [((0.0, -1.0, 2.0), (1.0, 1.5, 2.5)), ((0.0, 0.0, 0.0), (2.0, 2.0, 2.0))]}


def items(tier):
    out = []
    for k in kernels(tier):
        out.append(["leb", list(k)])
        if k[0] == "expquad":
            out.append(["gauss", list(k)])
    out += [["refuse"], ["domain"], ["lebesgue"], ["gaussian"]]
    return out


def fix(k):
    return tuple(tuple(v) if isinstance(v, list) else v for v in k)


def run_leb(item, ctx):
    k = fix(item[1])
    d = k[1]
    ker = mk(k)
    for (a, b), normd in itertools.product(DOM[d], (0, 1)):
        m = im.LebesgueMeasure((np.array(a), np.array(b)), input_dim=d, normalized=bool(normd))
        c = 1.0 / np.prod(np.array(b) - np.array(a)) if normd else 1.0
        W = f"{k} Lebesgue {a}-{b} normalised={normd}"
        ctx.state(W)
        with ctx.no_error(W):
            emb = ke.KernelEmbedding(ker, m)
            fr = (0.0, 0.3, 0.5, 1.0) if d < 3 else (0.0, 0.4, 1.0)
            X = np.array([[a[i] + f[i] * (b[i] - a[i]) for i in range(d)] for f in itertools.product(fr, repeat=d)])
            if k[0] == "expquad":
                X = np.vstack([X, X[:2] - 1.7, X[-2:] + 0.6])
            got = emb.kernel_mean(X)
            ctx.check(np.shape(got) == (len(X),), W, f"shape {np.shape(got)}")
            # per-axis integrals of the definition; the first point also by tensor quadrature of the kernel object
            for n, x in enumerate(X):
                want = c
                for i in range(d):
                    p, w = panels(a[i], b[i], ell_of(k, i), x[i])
                    want *= float(w @ one(k, i, x[i], p))
                ctx.close(got[n], want, f"{W} x={np.round(x, 3).tolist()}", rtol=1e-7, atol=1e-12, msg="kernel mean")
                ctx.step()
                if n % 7 == 3:
                    P, w = tensor([panels(a[i], b[i], ell_of(k, i), x[i]) for i in range(d)]) if d < 3 else (None, None)
                    if P is not None and len(P) < 60000:
                        ctx.close(got[n], c * float(w @ np.asarray(ker(np.broadcast_to(x, P.shape), P))), f"{W} x={np.round(x, 3).tolist()}", rtol=1e-7, atol=1e-12, msg="kernel mean (tensor quadrature of the kernel object)")
                ctx.close(emb.kernel_mean(x[None, :])[0], got[n], W, rtol=1e-12, msg="kernel mean of a single point")
            want = c ** 2
            for i in range(d):
                p, w = panels(a[i], b[i], 0.3 * ell_of(k, i))
                inner = []
                for y in p:
                    q, v = panels(a[i], b[i], ell_of(k, i), y)
                    inner.append(float(v @ one(k, i, y, q)))
                want *= float(w @ np.array(inner))
            ctx.close(float(emb.kernel_variance()), want, W, rtol=1e-7, atol=1e-13, msg="kernel variance")
            ctx.step()
            ctx.trace(2)
            # same measure without / with input_dim
            if d > 1:
                e2 = ke.KernelEmbedding(ker, im.LebesgueMeasure((np.array(a), np.array(b)), normalized=bool(normd)))
                ctx.close(e2.kernel_mean(X), got, W, rtol=1e-13, msg="input_dim inferred")


def gauss_measures(d):
    out = []
    if d == 1:
        for m, v in itertools.product((0.0, -1.5), (0.2, 1.0, 3.0)):
            out += [(np.array([m]), np.array([[v]]), (m, v, None)), (np.array([m]), np.array([[v]]), (m, v, 1)), (np.array([m]), np.array([[v]]), (np.array([m]), np.array([[v]]), None))]
        return out
    out.append((np.zeros(d), 0.7 * np.eye(d), (0.0, 0.7, d)))
    mu = np.array([0.5, -1.0, 0.2])[:d]
    for C in (np.diag([0.3, 2.0, 1.1][:d]), rl.spd(d, 3) if hasattr(rl, "spd") else None):
        out.append((mu, C, (mu, C, None)))
    A = np.array([[1.0, 0, 0], [0.8, 0.6, 0], [-0.4, 0.9, 0.7]])[:d, :d]
    out.append((mu, A @ A.T, (mu, A @ A.T, d)))
    return out


def run_gauss(item, ctx):
    k = fix(item[1])
    d, ell = k[1], k[2]
    ker = mk(k)
    for mu, C, args in gauss_measures(d):
        W = f"{k} Gaussian mean={mu.tolist()} cov={np.round(C, 4).tolist()} dim={args[2]}"
        ctx.state(W)
        with ctx.no_error(W):
            m = im.GaussianMeasure(args[0], args[1], input_dim=args[2])
            emb = ke.KernelEmbedding(ker, m)
            X = np.array([mu + np.array(f) for f in itertools.product((-1.3, 0.0, 0.8), repeat=d)])
            got = emb.kernel_mean(X)
            ctx.check(np.shape(got) == (len(X),), W, f"shape {np.shape(got)}")
            # integrals of products of Gaussians by dense Gauss-Hermite (wide) or closed form of the definition
            S = C + ell ** 2 * np.eye(d)
            L = np.linalg.cholesky(S)
            for n, x in enumerate(X):
                z = np.linalg.solve(L, x - mu)
                want = ell ** d / np.prod(np.diag(L)) * math.exp(-0.5 * z @ z)
                ctx.close(got[n], want, f"{W} x={np.round(x, 3).tolist()}", rtol=1e-9, atol=1e-13, msg="kernel mean")
                ctx.step()
            want = ell ** d / math.sqrt(np.linalg.det(2 * C + ell ** 2 * np.eye(d)))
            ctx.close(float(emb.kernel_variance()), want, W, rtol=1e-9, msg="kernel variance")
            if ell >= 1.0 and d < 3:
                P, w = tensor([H] * d)
                w = w / w.sum()
                Y = mu + P @ np.linalg.cholesky(C).T
                for n in range(len(X)):
                    ctx.close(got[n], float(w @ np.asarray(ker(np.broadcast_to(X[n], Y.shape), Y))), f"{W} x={np.round(X[n], 3).tolist()}", rtol=2e-4, atol=1e-6, msg="kernel mean (quadrature of the kernel object)")
                ctx.close(float(emb.kernel_variance()), float(w @ emb.kernel_mean(Y)), W, rtol=1e-4, msg="kernel variance = integrated kernel mean")
            ctx.trace(2)


def run_refuse(item, ctx):
    leb = {d: im.LebesgueMeasure((0.0, 1.0), input_dim=d) for d in (1, 2, 3)}
    gau = {d: im.GaussianMeasure(0.0, 1.0, input_dim=d) for d in (1, 2, 3)}
    class Other(im.IntegrationMeasure):
        random_variable = None
    bad = []
    for d in (1, 2, 3):
        eq, ma = cf.ExpQuad((d,)), cf.Matern((d,), nu=1.5)
        for M, nm in ((leb[d], "lebesgue"), (gau[d], "gaussian")):
            others = [("white", cf.WhiteNoise((d,))), ("linear", cf.Linear((d,))), ("poly", cf.Polynomial((d,))), ("rq", cf.RatQuad((d,))), ("scaled", 2.0 * eq), ("sum", eq + eq), ("sum2", eq + cf.WhiteNoise((d,)))]
            for n, kk in others:
                bad.append((f"{n} {nm} {d}", lambda kk=kk, M=M: ke.KernelEmbedding(kk, M)))
            for d2 in (1, 2, 3):
                if d2 != d:
                    bad.append((f"dims {d2} {nm} {d}", lambda d2=d2, M=M: ke.KernelEmbedding(cf.ExpQuad((d2,)), M)))
        for nu in (0.5, 1.5, 2.5, 3.5):
            bad.append((f"matern gauss {d}", lambda d=d, nu=nu: ke.KernelEmbedding(cf.Matern((d,), nu=nu), gau[d])))
            bad.append((f"pmatern gauss {d}", lambda d=d, nu=nu: ke.KernelEmbedding(cf.ProductMatern((d,), lengthscales=1.0, nus=nu), gau[d])))
            if d > 1:
                for f in ("kernel_mean", "kernel_variance"):
                    bad.append((f"matern {nu} dim {d} {f}", lambda d=d, nu=nu, f=f: getattr(ke.KernelEmbedding(cf.Matern((d,), nu=nu), leb[d]), f)(*([np.full((2, d), 0.3)] if f == "kernel_mean" else []))))
        for nu in (1.0, 0.7, 2.0, 4.5):
            for f in ("kernel_mean", "kernel_variance"):
                bad.append((f"nu={nu} {f}", lambda nu=nu, d=d, f=f: getattr(ke.KernelEmbedding(cf.ProductMatern((d,), lengthscales=1.0, nus=nu), leb[d]), f)(*([np.full((2, d), 0.3)] if f == "kernel_mean" else []))))
        if d > 1:
            # several lengthscales: refused or right
            k = cf.ExpQuad((d,), lengthscales=np.array([0.5, 1.0, 2.0])[:d])
            for f in ("kernel_mean", "kernel_variance"):
                bad.append((f"several lengthscales {f} {d}", lambda k=k, d=d, f=f: getattr(ke.KernelEmbedding(k, leb[d]), f)(*([np.full((2, d), 0.3)] if f == "kernel_mean" else []))))
    bad.append(("scalar kernel", lambda: ke.KernelEmbedding(cf.ExpQuad(()), leb[1])))
    for n, f in bad:
        ctx.state(n)
        ctx.raises(f, n, Exception)
        ctx.trace()


def run_domain(item, ctx):
    try:
        from probnum.quad._utils import as_domain
    except ImportError:  # not a public name
        def as_domain(dom, d):
            m = im.LebesgueMeasure(dom, input_dim=d)
            return m.domain, m.input_dim
    for a, b in itertools.product((-2.0, 0, 1.5), (-1.0, 0.5, 3)):
        for d in (None, 1, 2, 3):
            for form in ("scalar", "tuple1", "array1", "list", "array", "int64", "0d"):
                W = f"domain ({a}, {b}) dim={d} form={form}"
                dd = d or 1
                mkf = {"scalar": lambda v: v, "tuple1": lambda v: (v,), "array1": lambda v: np.array([v]), "list": lambda v: [v] * dd, "array": lambda v: np.full(dd, v),
                       "int64": lambda v: np.float64(v), "0d": lambda v: np.array(v)}[form]
                dom = (mkf(a), mkf(b))
                ctx.state(W)
                if a >= b:
                    ctx.raises(lambda: as_domain(dom, d), W, ValueError)
                    ctx.raises(lambda: im.LebesgueMeasure(dom, input_dim=d), W, ValueError)
                    continue
                with ctx.no_error(W):
                    for (lo, hi), n in (as_domain(dom, d), (im.LebesgueMeasure(dom, input_dim=d).domain, im.LebesgueMeasure(dom, input_dim=d).input_dim)):
                        ctx.check(n == dd, W, f"input_dim {n}")
                        ctx.close(lo, np.full(dd, float(a)), W, rtol=0, msg="lower")
                        ctx.close(hi, np.full(dd, float(b)), W, rtol=0, msg="upper")
                        ctx.step(2)
                    ctx.trace(2)
    A = np.array
    bad = [(((0, 1, 2), 1), "length"), (((A([0., 0]), A([1., 1, 1])), None), "sizes"), (((A([0., 0]), A([1., 1])), 3), "dim"), (((A([0., 0, 0]), A([1., 1, 1])), 2), "dim"), (((0.0, 1.0), 0), "dim 0"), (((0.0, 1.0), -1), "dim -1"),
           (((A([[0., 0]]), A([[1., 1]])), 2), "ndim"), (((A([0., 2.]), A([1., 1.])), None), "order"), (((A([0., 1.]), A([1., 1.])), 2), "empty axis"), (((0.0,), 1), "length 1"), (((A([[0.], [0.]]), A([[1.], [1.]])), None), "column")]
    for (dom, d), n in bad:
        ctx.state(n, str(dom))
        ctx.raises(lambda: as_domain(dom, d), f"{n} {dom} {d}", ValueError)
    # the caller's arrays stay his
    lo, hi = A([0., -1.]), A([1., 2.])
    m = im.LebesgueMeasure((lo, hi))
    ctx.close(m.domain[1] - m.domain[0], A([1., 3.]), "array domain", rtol=0)


def run_lebesgue(item, ctx):
    for d, doms in DOM.items():
        for (a, b), normd in itertools.product(doms, (False, True)):
            m = im.LebesgueMeasure((np.array(a), np.array(b)), input_dim=d, normalized=normd)
            W = f"Lebesgue {a}-{b} normalised={normd}"
            c = 1.0 / np.prod(np.array(b) - np.array(a)) if normd else 1.0
            ctx.state(W)
            with ctx.no_error(W):
                for n in (1, 2, 5):
                    X = np.array([[a[i] + (j + 1) / (n + 2) * (b[i] - a[i]) for i in range(d)] for j in range(n)])
                    ctx.close(m(X), np.full(n, c), W, rtol=1e-13, msg="density")
                    ctx.step()
                for n in (1, 2, 3):
                    for s in itertools.product((0.0, 0.25, 0.999), repeat=min(n * d, 4)):
                        r = rl.ScriptRng()
                        r.uscript = list(s) + [0.1 * (j + 1) for j in range(n * d - len(s))]
                        x = m.sample(n, rng=r)
                        u = np.array(r.uscript[: n * d]).reshape(n, d)
                        ctx.close(x, np.array(a) + u * (np.array(b) - np.array(a)), f"{W} script {s}", rtol=1e-12, atol=1e-14, msg="sample")
                        ctx.check(r.upos == n * d and r.pos == 0, W, "number of draws")
                        ctx.trace()
                        ctx.step()
                x, y = m.sample(7, rng=np.random.default_rng(3)), m.sample(7, rng=np.random.default_rng(3))
                ctx.check(np.array_equal(x, y), W, "not reproducible")
    for dom in ((0.0, np.inf), (-np.inf, 0.0)):
        ctx.raises(lambda: im.LebesgueMeasure(dom, input_dim=2, normalized=True), f"normalised on {dom}", ValueError)


def run_gaussian(item, ctx):
    for d in (1, 2, 3):
        for mu, C, args in gauss_measures(d):
            W = f"Gaussian mean={mu.tolist()} cov={np.round(C, 4).tolist()} dim={args[2]} scalar={np.isscalar(args[0])}"
            ctx.state(W)
            with ctx.no_error(W):
                m = im.GaussianMeasure(args[0], args[1], input_dim=args[2])
                ctx.check(m.input_dim == d, W, "input_dim")
                ctx.close(m.mean, mu, W, rtol=1e-14, msg="mean")
                ctx.close(m.cov, C, W, rtol=1e-14, msg="cov")
                ctx.check(bool(m.diagonal_covariance) == bool(np.all(C == np.diag(np.diag(C)))), W, "diagonal flag")
                ctx.check(all(np.shape(v) == (d,) for v in m.domain) and np.all(m.domain[0] == -np.inf) and np.all(m.domain[1] == np.inf), W, "domain")
                Ci = np.linalg.inv(C)
                for n in (1, 2, 4):
                    X = np.array([mu + 0.4 * (j - 1) * np.array([1.0, -0.5, 0.3])[:d] for j in range(n)])
                    want = [math.exp(-0.5 * (x - mu) @ Ci @ (x - mu)) / math.sqrt((2 * math.pi) ** d * np.linalg.det(C)) for x in X]
                    ctx.close(m(X), np.array(want), W, rtol=1e-9, msg=f"density at {n} points")
                    ctx.step()
                A = None
                for n in (1, 2, 3):
                    # linear in the draws with A A^T = cov, independent rows
                    base = m.sample(n, rng=rl.ScriptRng())
                    ctx.close(base, np.tile(mu, (n, 1)), f"{W} n={n}", rtol=1e-12, atol=1e-12, msg="sample at zero draws")
                    rows = []
                    for j in range(n * d):
                        e = np.zeros(n * d)
                        e[j] = 1.0
                        r = rl.ScriptRng(e)
                        rows.append((m.sample(n, rng=r) - base).ravel())
                        ctx.check(r.pos == n * d, W, f"number of draws {r.pos}")
                        ctx.trace()
                    B = np.array(rows)
                    ctx.close(B.T @ B, np.kron(np.eye(n), C), f"{W} n={n}", rtol=1e-6, atol=1e-7, msg="covariance of the samples")
                x, y = m.sample(7, rng=np.random.default_rng(3)), m.sample(7, rng=np.random.default_rng(3))
                ctx.check(np.array_equal(x, y) and x.shape == (7, d), W, "not reproducible / shape")
    A = np.array
    for n, f in [("negative variance", lambda: im.GaussianMeasure(0.0, -1.0)), ("shape", lambda: im.GaussianMeasure(A([0., 0.]), np.eye(3))), ("shape2", lambda: im.GaussianMeasure(A([0., 0.]), 1.0))]:
        ctx.state(n)
        if n == "negative variance":
            continue
        ctx.raises(f, n, Exception)
