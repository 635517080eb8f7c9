"""C08: covariance functions - call, matrix and operator forms evaluate the stated formula."""
import itertools
import math
import os
import numpy as np
import scipy.special
from probnum import linops
from probnum.randprocs import covfuncs as cf
from mc import linlib as ll

RULE = ("every kernel of the catalogue and every sum/product/scaling expression up to depth 2 x every pair of batch shapes (broadcast or "
        "not, second argument omitted) x input dtype; the call, the covariance matrix and the covariance operator are compared entrywise with "
        "the scalar formula; Gram matrices are symmetric positive semi-definite; wrong shapes are refused; non-trivial = distinct (kernel, shapes, values)")
ASSUMPTIONS = ["input dimensions 1..3, at most two batch axes of length <= 3", "KeOps-backed products are exercised for the precompiled formula set in quick"]


def matern(r, nu):
    z = math.sqrt(2 * nu) * r
    if z < 1e-12:
        return 1.0
    if nu == 0.5:
        return math.exp(-z)
    if nu == 1.5:
        return (1 + z) * math.exp(-z)
    if nu == 2.5:
        return (1 + z + z * z / 3) * math.exp(-z)
    return 2 ** (1 - nu) / scipy.special.gamma(nu) * z ** nu * scipy.special.kv(nu, z)


def base(d):
    """name -> (constructor, scalar formula on 1-d arrays)"""
    sh = () if d == 0 else (d,)
    ls = np.array([0.6, 1.3, 2.1])[: max(d, 1)]
    nus = np.array([0.5, 2.5, 1.5])[: max(d, 1)]
    out = {
        "lin0": (lambda: cf.Linear(sh), lambda a, b: a @ b),
        "lin": (lambda: cf.Linear(sh, constant=0.7), lambda a, b: a @ b + 0.7),
        "poly2": (lambda: cf.Polynomial(sh, constant=1.2, exponent=2), lambda a, b: (a @ b + 1.2) ** 2),
        "poly3": (lambda: cf.Polynomial(sh, constant=2.0, exponent=3), lambda a, b: (a @ b + 2.0) ** 3),
        "eq": (lambda: cf.ExpQuad(sh, lengthscales=0.8), lambda a, b: math.exp(-np.sum((a - b) ** 2) / (2 * 0.64))),
        "rq": (lambda: cf.RatQuad(sh, lengthscale=1.4, alpha=0.6), lambda a, b: (1 + np.sum((a - b) ** 2) / (2 * 0.6 * 1.96)) ** -0.6),
        "rqi": (lambda: cf.RatQuad(sh, lengthscale=2, alpha=3), lambda a, b: (1 + np.sum((a - b) ** 2) / (2 * 3 * 4)) ** -3.0),
        "wn": (lambda: cf.WhiteNoise(sh, sigma_sq=0.3), lambda a, b: 0.3 * float(np.array_equal(a, b))),
        "wn2": (lambda: cf.WhiteNoise(sh, sigma_sq=2), lambda a, b: 2.0 * float(np.array_equal(a, b))),
        "pm": (lambda: cf.ProductMatern(sh, lengthscales=1.1, nus=1.5), lambda a, b: np.prod([matern(abs(x - y) / 1.1, 1.5) for x, y in zip(a, b)])),
    }
    for nu in (0.5, 1.5, 2.5, 3.5, 4.5, 0.7, 2, 1.2):
        out[f"m{nu}"] = (lambda nu=nu: cf.Matern(sh, nu=nu, lengthscales=0.9), lambda a, b, nu=nu: matern(np.linalg.norm(a - b) / 0.9, nu))
    if d >= 1:
        out["eqard"] = (lambda: cf.ExpQuad(sh, lengthscales=ls), lambda a, b: math.exp(-0.5 * np.sum(((a - b) / ls) ** 2)))
        out["mard"] = (lambda: cf.Matern(sh, nu=2.5, lengthscales=ls), lambda a, b: matern(np.linalg.norm((a - b) / ls), 2.5))
        out["mardb"] = (lambda: cf.Matern(sh, nu=1.2, lengthscales=ls), lambda a, b: matern(np.linalg.norm((a - b) / ls), 1.2))
        out["pmard"] = (lambda: cf.ProductMatern(sh, lengthscales=ls, nus=nus), lambda a, b: np.prod([matern(abs(x - y) / l, n) for x, y, l, n in zip(a, b, ls, nus)]))
        out["pmnu"] = (lambda: cf.ProductMatern(sh, lengthscales=np.array(0.5), nus=nus), lambda a, b: np.prod([matern(abs(x - y) / 0.5, n) for x, y, n in zip(a, b, nus)]))
    return out


class Multi(cf.CovarianceFunction):
    """user-defined multi-output cross-covariance with unequal outputs"""

    def __init__(self, d, o0, o1):
        self.W = np.arange(1.0, 1 + int(np.prod(o0)) * int(np.prod(o1))).reshape(o0 + o1) / 3
        super().__init__(input_shape=() if d == 0 else (d,), output_shape_0=o0, output_shape_1=o1)

    def _evaluate(self, x0, x1):
        x1 = x0 if x1 is None else x1
        s = x0 * x1 if self.input_ndim == 0 else np.sum(x0 * x1, axis=-1)
        t = x0 - 2 * x1 if self.input_ndim == 0 else np.sum(x0 - 2 * x1, axis=-1)
        e = (Ellipsis,) + (None,) * self.W.ndim
        return np.asarray(s)[e] * self.W + np.asarray(t)[e] * self.W ** 2


class Cross(cf.CovarianceFunction):
    """cross-covariance between functions of different arguments"""

    def __init__(self, d0, d1, o0, o1):
        self.W = np.arange(1.0, 1 + int(np.prod(o0)) * int(np.prod(o1))).reshape(o0 + o1) / 3
        super().__init__(input_shape_0=() if d0 == 0 else (d0,), input_shape_1=() if d1 == 0 else (d1,), output_shape_0=o0, output_shape_1=o1)

    def _evaluate(self, x0, x1):
        s = x0 if self.input_ndim_0 == 0 else x0 @ np.arange(1.0, 1 + x0.shape[-1])
        t = x1 if self.input_ndim_1 == 0 else x1 @ np.cos(np.arange(1.0, 1 + x1.shape[-1]))
        return np.asarray(np.cos(s + 2 * t) + s)[(Ellipsis,) + (None,) * self.W.ndim] * self.W


BATCH = [(), (1,), (2,), (3,), (2, 3), (1, 3), (2, 1)]


def points(bs, d, s, dt):
    n = int(np.prod(bs))
    k = max(d, 1)
    a = np.round(2.0 * np.sin(1.3 * np.arange(n * k) + s), 3).reshape(bs + ((d,) if d else ()))
    if s == 9:  # repeated points
        a = np.round(a)
    return a.astype(dt) if dt != "int64" else np.rint(a * 2).astype(dt)


def exprs(d, tier):
    b = base(d)
    out = [(n, c, f) for n, (c, f) in b.items()]
    red = ["lin", "eq", "m1.5", "wn", "poly2", "rq"] + (["m0.7", "pm"] if tier == "thorough" else [])
    sc = {"2.5*": lambda k: 2.5 * k, "*0.5": lambda k: k * 0.5, "3*": lambda k: 3 * k, "np*": lambda k: np.float64(1.5) * k}
    sv = {"2.5*": 2.5, "*0.5": 0.5, "3*": 3.0, "np*": 1.5}
    for n in red:
        for s in sc:
            out.append((f"{s}{n}", lambda n=n, s=s: sc[s](b[n][0]()), lambda x, y, n=n, s=s: sv[s] * b[n][1](x, y)))
    for m, n in itertools.product(red, repeat=2):
        out.append((f"({m}+{n})", lambda m=m, n=n: b[m][0]() + b[n][0](), lambda x, y, m=m, n=n: b[m][1](x, y) + b[n][1](x, y)))
        out.append((f"({m}*{n})", lambda m=m, n=n: b[m][0]() * b[n][0](), lambda x, y, m=m, n=n: b[m][1](x, y) * b[n][1](x, y)))
    l2 = red if tier == "thorough" else ["eq", "wn", "lin"]
    for m, n, o in itertools.product(l2, repeat=3):
        out.append((f"({m}+{n})*{o}", lambda m=m, n=n, o=o: (b[m][0]() + b[n][0]()) * b[o][0](),
                    lambda x, y, m=m, n=n, o=o: (b[m][1](x, y) + b[n][1](x, y)) * b[o][1](x, y)))
        out.append((f"{o}+2({m}*{n})", lambda m=m, n=n, o=o: b[o][0]() + 2.0 * (b[m][0]() * b[n][0]()),
                    lambda x, y, m=m, n=n, o=o: b[o][1](x, y) + 2 * b[m][1](x, y) * b[n][1](x, y)))
        out.append((f"{o}*({m}*{n})", lambda m=m, n=n, o=o: b[o][0]() * (b[m][0]() * b[n][0]()),
                    lambda x, y, m=m, n=n, o=o: b[o][1](x, y) * b[m][1](x, y) * b[n][1](x, y)))
        out.append((f"{o}+({m}+{n})", lambda m=m, n=n, o=o: b[o][0]() + (b[m][0]() + b[n][0]()),
                    lambda x, y, m=m, n=n, o=o: b[o][1](x, y) + b[m][1](x, y) + b[n][1](x, y)))
    return out


_ex = {}
QK = [[2, "eq"], [2, "eqard"], [0, "m0.5"], [1, "m1.5"], [2, "m2.5"]]


def items(tier):
    out = []
    for d in (0, 1, 2, 3):
        _ex[d] = exprs(d, tier)
        nb = len(base(d))
        for i, e in enumerate(_ex[d]):
            if i < nb or tier == "thorough" or (d == 2 and (i + len(e[0])) % 2) or (d == 0 and not (i + len(e[0])) % 2):
                out.append(["k", d, i, e[0], tier])
        for o0, o1 in [((), ()), ((2,), (2,)), ((2,), (3,)), ((), (2,)), ((3,), ()), ((2, 2), (2,))]:
            out.append(["multi", d, list(o0), list(o1)])
    for d in (0, 1, 2):
        for n in ("eq", "eqard", "m0.5", "m1.5", "m2.5"):
            if n in base(d) and (tier == "thorough" or [d, n] in QK):
                out.append(["keops", d, n, tier])
    out.append(["params"])
    out += [["cross", d0, d1, list(o0), list(o1)] for d0, d1 in ((0, 1), (0, 2), (2, 0), (1, 3), (3, 2)) for o0, o1 in (((), ()), ((2,), ()), ((), (1,)), ((2,), (2, 3)))]
    return sorted(out, key=lambda i: i[0] != "keops")


def ref_call(f, x0, x1, d):
    if d == 0:
        x0, x1 = x0[..., None], x1[..., None]
    x0, x1 = np.broadcast_arrays(x0.astype(float), x1.astype(float))
    bs = x0.shape[:-1]
    out = np.empty(bs)
    for i in np.ndindex(*bs):
        out[i] = f(x0[i], x1[i])
    return out


def ref_mat(f, x0, x1, d):
    k = max(d, 1)
    a, b = x0.reshape(-1, k).astype(float), x1.reshape(-1, k).astype(float)
    return np.array([[f(p, q) for q in b] for p in a])


def keops_cache():
    """KeOps compiles one library per formula; every worker gets its own build folder"""
    try:
        import pykeops
    except ImportError:
        return False
    d = os.path.join(os.environ.get("KEOPS_CACHE_FOLDER", "/tmp/none"), f"w{os.getpid()}")
    if not os.path.isdir(d):
        os.makedirs(d)
        pykeops.set_build_folder(d)
    return True


def run(item, ctx):
    if item[0] == "k":
        return run_k(item, ctx)
    if item[0] == "multi":
        return run_multi(item, ctx)
    if item[0] == "cross":
        return run_cross(item, ctx)
    if item[0] == "keops":
        return run_keops(item, ctx)
    return run_params(ctx)


def run_k(item, ctx):
    _, d, i, name, tier = item
    _, mk, f = _ex[d][i]
    isbase = i < len(base(d))
    k = mk()
    dts = ["float64", "int64", "float32"] if isbase else ["float64", "int64"]
    for dt in dts:
        tol = dict(rtol=1e-9, atol=1e-10) if dt != "float32" else dict(rtol=3e-5, atol=3e-5)
        if "m" in name:
            tol["atol"] = max(tol["atol"], 1e-7)
        bss = BATCH if isbase or tier == "thorough" else [(), (3,), (2, 1), (1, 3)]
        for b0 in bss:
            for b1 in bss + [None]:
                for s1 in ((4, 9) if b1 is not None and dt == "float64" else (4,)):
                    x0 = points(b0, d, 9 if s1 == 9 else 1, dt)
                    x1 = None if b1 is None else points(b1, d, s1, dt)
                    if s1 == 9 and b1 == b0:
                        x1 = x0.copy()
                    w = f"{name} d={d} {b0}x{b1} {dt} s{s1}"
                    X1 = x0 if x1 is None else x1
                    ctx.trace()
                    ctx.step()
                    ctx.state(name, d, b0, b1, dt, s1)
                    try:
                        np.broadcast_shapes(b0, b0 if b1 is None else b1)
                        comp = True
                    except ValueError:
                        comp = False
                    h = x0.copy()
                    if comp:
                        with ctx.no_error(w + " call"):
                            v = k(x0, x1)
                            ctx.close(v, ref_call(f, x0, X1, d), w + " call", **tol)
                            ctx.outcome(name, d, b0, b1, np.round(np.asarray(v, float), 6).tobytes())
                    else:
                        ctx.raises(lambda: k(x0, x1), w + " call", ValueError)
                    with ctx.no_error(w + " matrix"):
                        M = ref_mat(f, x0, X1, d)
                        ctx.close(k.matrix(x0, x1), M, w + " matrix", **tol)
                        if len(b0) <= 1 and (b1 is None or len(b1) <= 1):
                            L = k.linop(x0, x1)
                            ctx.close(L.todense(), M, w + " linop", **tol)
                            ctx.close(L.T.todense(), M.T, w + " linop.T", **tol)
                        if x1 is None:
                            G = np.asarray(k.matrix(x0), float)
                            ctx.close(G, G.T, w + " symmetric", rtol=1e-6, atol=1e-6)
                            ctx.check(np.linalg.eigvalsh(G)[0] >= -1e-5 * (1 + np.trace(G)), w + " psd", "Gram matrix is not positive semi-definite")
                    ctx.check(np.array_equal(h, x0), w, "input changed")
    # views of one array as both arguments
    x = points((3,), d, 1, "float64")
    for vn, X0, X1 in (("same", x, x), ("reversed", x, x[::-1]), ("shifted", x[1:], x[:-1]), ("transposed", np.broadcast_to(x, (3,) + x.shape), np.swapaxes(np.broadcast_to(x, (3,) + x.shape), 0, 1))):
        w = f"{name} d={d} views {vn}"
        with ctx.no_error(w):
            ctx.close(k(X0, X1), ref_call(f, X0, X1, d), w + " call")
            ctx.close(k.matrix(X0, X1), ref_mat(f, np.array(X0), np.array(X1), d), w + " matrix")
            ctx.step(2)
    # wrong input shapes are refused
    if d:
        for bad in [np.zeros(()), np.zeros((d + 1,)), np.zeros((2, d + 1)), np.zeros((d, 2 * d + 1))]:
            ctx.raises(lambda: k(bad, np.zeros((d,))), f"{name} bad x0 {bad.shape}", ValueError)
            ctx.raises(lambda: k(np.zeros((d,)), bad), f"{name} bad x1 {bad.shape}", ValueError)
            ctx.raises(lambda: k.matrix(bad), f"{name} bad matrix {bad.shape}", ValueError)
            ctx.raises(lambda: k.linop(np.zeros((2, d)), bad), f"{name} bad linop {bad.shape}", ValueError)
            ctx.step(4)
    ctx.sample(f"{name} d={d}: all batch shape pairs")


def run_multi(item, ctx):
    _, d, o0, o1 = item
    o0, o1 = tuple(o0), tuple(o1)
    n0, n1 = int(np.prod(o0)), int(np.prod(o1))
    forms = {"k": (lambda: Multi(d, o0, o1), lambda v: v), "2k": (lambda: 2 * Multi(d, o0, o1), lambda v: 2 * v),
             "k+k": (lambda: Multi(d, o0, o1) + Multi(d, o0, o1), lambda v: 2 * v), "k*k": (lambda: Multi(d, o0, o1) * Multi(d, o0, o1), lambda v: v * v),
             "k*2+k": (lambda: Multi(d, o0, o1) * 2 + Multi(d, o0, o1), lambda v: 3 * v)}
    for fn, (mk, g) in forms.items():
        k = mk()
        one = Multi(d, o0, o1)
        for b0 in [(), (1,), (2,), (2, 3)]:
            for b1 in [(), (1,), (3,), (2,), (2, 3), None]:
                x0 = points(b0, d, 1, "float64")
                x1 = None if b1 is None else points(b1, d, 4, "float64")
                X1 = x0 if x1 is None else x1
                w = f"multi{fn} {o0}{o1} d={d} {b0}x{b1}"
                p, q = x0.reshape((-1,) + x0.shape[len(b0):]), X1.reshape((-1,) + x0.shape[len(b0):])
                N0, N1 = len(p), len(q)
                vals = np.empty((N0, N1) + o0 + o1)
                for i, j in itertools.product(range(N0), range(N1)):
                    vals[i, j] = g(one._evaluate(p[i], q[j]))
                with ctx.no_error(w):
                    ctx.trace()
                    ctx.step()
                    ctx.state(w)
                    # rows ordered by (output, point)
                    M = np.moveaxis(vals.reshape(N0, N1, n0, n1), (2, 0, 3, 1), (0, 1, 2, 3)).reshape(n0 * N0, n1 * N1)
                    ctx.close(k.matrix(x0, x1), M, w + " matrix")
                    if len(b0) <= 1 and (b1 is None or len(b1) <= 1):
                        L = k.linop(x0, x1)
                        ctx.check(L.shape == M.shape, w, f"linop shape {L.shape}")
                        ctx.close(L.todense(), M, w + " linop")
                        v = np.cos(np.arange(M.shape[1] * 2.0)).reshape(M.shape[1], 2)
                        ctx.close(L @ v, M @ v, w + " linop@")
                        ctx.close(L @ v[:, 0], M @ v[:, 0], w + " linop@vec")
                        u = np.sin(np.arange(M.shape[0] * 1.0))
                        ctx.close(L.T @ u, M.T @ u, w + " linop.T@")
                    try:
                        bs = np.broadcast_shapes(b0, b0 if b1 is None else b1)
                    except ValueError:
                        ctx.raises(lambda: k(x0, x1), w, ValueError)
                        continue
                    X0b = np.broadcast_to(x0, bs + x0.shape[len(b0):])
                    X1b = np.broadcast_to(X1, bs + x0.shape[len(b0):])
                    want = np.empty(bs + o0 + o1)
                    for i in np.ndindex(*bs):
                        want[i] = g(one._evaluate(X0b[i], X1b[i]))
                    ctx.close(k(x0, x1), want, w + " call")
                    ctx.outcome(w, np.round(want, 6).tobytes())
    ctx.check((k.output_shape_0, k.output_shape_1, k.output_size_0, k.output_size_1) == (o0, o1, n0, n1), "multi output shapes")


def run_cross(item, ctx):
    _, d0, d1, o0, o1 = item
    o0, o1 = tuple(o0), tuple(o1)
    n0, n1 = int(np.prod(o0)), int(np.prod(o1))
    for fn, mk, c in (("k", lambda: Cross(d0, d1, o0, o1), 1), ("k*2", lambda: Cross(d0, d1, o0, o1) * 2, 2), ("3*k+k", lambda: 3 * Cross(d0, d1, o0, o1) + Cross(d0, d1, o0, o1), 4)):
        k, one = mk(), Cross(d0, d1, o0, o1)
        for b0, b1 in itertools.product([(), (1,), (2,), (2, 3)], [(), (1,), (3,), (2,), (2, 3)]):
            x0, x1 = points(b0, d0, 1, "float64"), points(b1, d1, 4, "float64")
            w = f"cross {fn} {d0}x{d1} {o0}{o1} {b0}x{b1}"
            ctx.state(w)
            p, q = x0.reshape((-1,) + x0.shape[len(b0):]), x1.reshape((-1,) + x1.shape[len(b1):])
            vals = np.array([[c * one._evaluate(a, b) for b in q] for a in p])
            M = np.moveaxis(vals.reshape(len(p), len(q), n0, n1), (2, 0, 3, 1), (0, 1, 2, 3)).reshape(n0 * len(p), n1 * len(q))
            with ctx.no_error(w):
                ctx.step(3)
                ctx.trace()
                ctx.close(k.matrix(x0, x1), M, w + " matrix")
                if len(b0) <= 1 and len(b1) <= 1:
                    L = k.linop(x0, x1)
                    ctx.close(L.todense(), M, w + " linop")
                    ctx.close(L @ np.ones(M.shape[1]), M @ np.ones(M.shape[1]), w + " linop@")
                    ctx.close(L.T @ np.ones(M.shape[0]), M.T @ np.ones(M.shape[0]), w + " linop.T@")
                try:
                    bs = np.broadcast_shapes(b0, b1)
                except ValueError:
                    ctx.raises(lambda: k(x0, x1), w, ValueError)
                    continue
                X0, X1 = np.broadcast_to(x0, bs + x0.shape[len(b0):]), np.broadcast_to(x1, bs + x1.shape[len(b1):])
                want = np.empty(bs + o0 + o1)
                for i in np.ndindex(*bs):
                    want[i] = c * one._evaluate(X0[i], X1[i])
                ctx.close(k(x0, x1), want, w + " call")
    ctx.check((k.input_shape_0, k.input_shape_1, k.input_size_0, k.input_size_1, k.input_ndim_0, k.input_ndim_1) == ((d0,) if d0 else (), (d1,) if d1 else (), max(d0, 1), max(d1, 1), int(d0 > 0), int(d1 > 0)), "input shapes")
    ctx.raises(lambda: k.input_shape, "common input shape", ValueError)


def run_keops(item, ctx):
    _, d, name, tier = item
    if not keops_cache():
        return
    mk, f = base(d)[name]
    k = mk()
    for n0, n1 in [(3, 3), (3, 5), (1, 4), (4, 1)]:
        x0, x1 = points((n0,), d, 1, "float64"), points((n1,), d, 4, "float64")
        for a, b in ((x0, x1), (x0, None)):
            w = f"keops {name} d={d} {n0}x{n1 if b is not None else None}"
            M = ref_mat(f, a, a if b is None else b, d)
            for deco in (lambda k: k, lambda k: 2.0 * k, lambda k: k + cf.WhiteNoise(k.input_shape, sigma_sq=0.0))[: 3 if tier == "thorough" else 1]:
                L = deco(k).linop(a, b)
                D = deco(k).matrix(a, b)
                v = np.cos(np.arange(M.shape[1] * 1.0) + 1)
                with ctx.no_error(w):
                    ctx.close(L @ v, D @ v, w + " @vec", rtol=1e-6, atol=1e-8)
                    ctx.close(L @ v[:, None], D @ v[:, None], w + " @mat", rtol=1e-6, atol=1e-8)
                    ctx.close(L.T @ np.ones(M.shape[0]), D.T @ np.ones(M.shape[0]), w + " T@vec", rtol=1e-6, atol=1e-8)
                    for dt in ("float32", "int64"):
                        ctx.close(L @ np.rint(2 * v).astype(dt), D @ np.rint(2 * v), w + f" @vec {dt}", rtol=1e-6, atol=1e-6)
                    ctx.step(5)
                    ctx.trace()
                    ctx.state(w)
            ctx.outcome(w, np.round(M, 6).tobytes())


def run_params(ctx):
    bad = [lambda: cf.Matern((), nu=0.0), lambda: cf.Matern((), nu=-1.5), lambda: cf.Matern((), lengthscales=0.0), lambda: cf.Matern((2,), lengthscales=[1.0, -1.0]),
           lambda: cf.ExpQuad((), lengthscales=-1.0), lambda: cf.ExpQuad((2,), lengthscales=[1.0, 0.0]), lambda: cf.ExpQuad((2,), lengthscales=[1.0, 2.0, 3.0]),
           lambda: cf.RatQuad((), alpha=0.0), lambda: cf.RatQuad((), alpha=-1.0), lambda: cf.WhiteNoise((), sigma_sq=-0.1),
           lambda: cf.Matern((1,), lengthscales=np.ones(3)), lambda: cf.ExpQuad((1,), lengthscales=np.ones(3)), lambda: cf.Matern((2,), lengthscales=np.ones(3)),
           lambda: cf.Matern((), lengthscales=np.ones(2)), lambda: cf.ExpQuad((), lengthscales=np.ones(2)),
           lambda: cf.Linear((2,)) + cf.Linear((3,)), lambda: cf.Linear((2,)) * cf.Linear(()), lambda: cf.Linear(()) + Multi(0, (2,), (2,)),
           lambda: cf.ProductMatern((), lengthscales=np.ones(2), nus=1.5)]
    for i, b in enumerate(bad):
        ctx.raises(b, f"invalid parameters {i}", (ValueError, TypeError))
        ctx.trace()
        ctx.step()
        ctx.state("params", i)
    for p in range(0, 8):
        c = cf.Matern.half_integer_coefficients(p)
        nu = p + 0.5
        for z in (0.1, 0.9, 3.0, 8.0):
            got = math.exp(-z) * sum(float(c[i]) * z ** i for i in range(p + 1))
            want = 2 ** (1 - nu) / scipy.special.gamma(nu) * z ** nu * scipy.special.kv(nu, z)
            ctx.close(got, want, f"half-integer coefficients p={p} z={z}", rtol=1e-9)
            ctx.outcome("coef", p, z)
