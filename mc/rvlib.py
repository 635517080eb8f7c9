"""Random-variable reference: exact Gaussian laws and scripted randomness."""
import numpy as np
import probnum as pn
from probnum import linops, randvars


def dense(x):
    return x.todense() if isinstance(x, linops.LinearOperator) else np.asarray(x)


class Law:
    """Gaussian law over an array of shape ``mean.shape`` (cov over the C-order flattening)."""

    def __init__(self, mean, cov):
        self.mean = np.array(mean, dtype=float)
        n = self.mean.size
        self.cov = np.array(cov, dtype=float).reshape(n, n)

    @property
    def shape(self):
        return self.mean.shape

    def push(self, f):
        """image under the affine map f (array -> array)"""
        m = np.asarray(f(self.mean), dtype=float)
        z = np.zeros(self.mean.size)
        f0 = np.asarray(f(z.reshape(self.shape)), dtype=float).ravel()
        J = np.empty((f0.size, z.size))
        for i in range(z.size):
            e = z.copy()
            e[i] = 1.0
            J[:, i] = np.asarray(f(e.reshape(self.shape)), dtype=float).ravel() - f0
        return Law(m, J @ self.cov @ J.T)

    def add(self, other, sign=1.0):
        return Law(self.mean + sign * other.mean, self.cov + other.cov)


def check_law(ctx, rv, law, w, rtol=1e-7, atol=1e-8, chol=True, what=""):
    """observable moments of ``rv`` are those of ``law``"""
    n = law.mean.size
    ctx.check(tuple(rv.shape) == law.shape, w, f"{what} shape {rv.shape} != {law.shape}")
    ctx.check(rv.ndim == law.mean.ndim and rv.size == n, w, f"{what} ndim/size")
    ctx.close(dense(rv.mean), law.mean, w, rtol, atol, msg=what + " mean")
    cshape = (n, n) if law.mean.ndim else ()
    ctx.close(dense(rv.cov), law.cov.reshape(cshape), w, rtol, atol, msg=what + " cov")
    ctx.close(dense(rv.var), np.diag(law.cov).reshape(law.shape), w, rtol, atol, msg=what + " var")
    sd = np.sqrt(np.maximum(np.diag(law.cov), 0.0)).reshape(law.shape)
    if np.all(np.diag(law.cov) > 1e-12):
        ctx.close(dense(rv.std), sd, w, rtol, 1e-6, msg=what + " std")
    if chol and isinstance(rv, randvars.Normal) and rv.cov_cholesky_is_precomputed:
        C = dense(rv.cov_cholesky)
        Cm = C.reshape(1, 1) if C.ndim == 0 else C
        ctx.check(C.shape == cshape, w, f"{what} Cholesky shape {C.shape}")
        if Cm.ndim == 2:
            ctx.close(Cm @ Cm.T, law.cov, w, max(rtol, 1e-6), max(atol, 1e-6), msg=what + " Cholesky product")
            ctx.close(Cm, np.tril(Cm), w, msg=what + " Cholesky factor not lower triangular")
            ctx.check(np.all(np.diag(Cm) >= -1e-12), w, what + " Cholesky factor has a negative diagonal")


class NotScripted(Exception):
    pass


class ScriptRng(np.random.Generator):
    """A Generator whose Gaussian draws come from a script (zero once exhausted)."""

    def __new__(cls, script=()):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, script=()):
        super().__init__(np.random.PCG64(0))
        self.script = np.asarray(script, dtype=float).ravel()
        self.pos = 0

    def _z(self, shape):
        k = int(np.prod(shape))
        out = np.zeros(k)
        part = self.script[self.pos:self.pos + k]
        out[: len(part)] = part
        self.pos += k
        return out.reshape(shape)

    @staticmethod
    def _shape(size):
        if size is None:
            return ()
        return tuple(int(s) for s in np.atleast_1d(size)) if np.ndim(size) else (int(size),)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        z = self._z(self._shape(size))
        return float(z) if size is None else z.astype(dtype)

    def normal(self, loc=0.0, scale=1.0, size=None):
        sh = self._shape(size) if size is not None else np.broadcast(loc, scale).shape
        z = loc + scale * self._z(sh)
        return float(z) if sh == () and size is None else np.asarray(z)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, *, method="svd"):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        w, V = np.linalg.eigh(0.5 * (cov + cov.T))
        A = V * np.sqrt(np.maximum(w, 0.0))
        z = self._z(self._shape(size) + (mean.size,))
        return mean + z @ A.T

    # uniform draws: scripted too (``uscript``), 0.5 once exhausted
    uscript = ()
    upos = 0

    def random(self, size=None, dtype=np.float64, out=None):
        sh = self._shape(size)
        k = int(np.prod(sh))
        u = np.full(k, 0.5)
        part = np.asarray(self.uscript[self.upos:self.upos + k], dtype=float)
        u[: len(part)] = part
        self.upos += k
        return float(u[0]) if size is None else u.reshape(sh)

    def uniform(self, low=0.0, high=1.0, size=None):
        sh = size if size is not None else (np.broadcast(low, high).shape or None)
        return low + (np.asarray(high) - low) * self.random(sh)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(arr)
        q = np.full(n, 1.0 / n) if p is None else np.asarray(p, dtype=float)
        if q.shape != (n,) or np.any(q < 0) or abs(q.sum() - 1) > 1e-6:
            raise ValueError("probabilities")
        if replace or size is None:
            idx = np.minimum(np.searchsorted(np.cumsum(q), np.asarray(self.random(size)), side="right"), n - 1)
            return arr[idx]
        if int(np.prod(self._shape(size))) > int(np.sum(q > 0)):
            raise ValueError("Fewer non-zero entries in p than size")
        out = []
        q = q.copy()
        for _ in range(int(np.prod(self._shape(size)))):
            c = np.cumsum(q) / q.sum()
            i = min(int(np.searchsorted(c, self.random(), side="right")), n - 1)
            out.append(i)
            q[i] = 0.0
        return arr[np.array(out)].reshape(self._shape(size) + arr.shape[1:])

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        high = high + 1 if endpoint else high
        return (low + np.floor(np.asarray(self.random(size)) * (high - low))).astype(dtype)[()]

    def _no(self, *a, **k):
        raise NotScripted()

    exponential = standard_t = permutation = shuffle = bytes = _no


def sample_law(draw, ctx=None, w="", maxdim=400):
    """Exact law of draw(rng) for a sampler that is affine in its Gaussian draws.

    Explores the environment scripts {0, e_1, ..., e_K} (and one mixed script to
    confirm that the sampler is affine) and returns the Law of the output.
    """
    r0 = ScriptRng()
    f0 = np.asarray(draw(r0), dtype=float)
    K = r0.pos
    if K > maxdim:
        raise NotScripted(f"{K} draws")
    A = np.empty((f0.size, K))
    for k in range(K):
        e = np.zeros(K)
        e[k] = 1.0
        A[:, k] = (np.asarray(draw(ScriptRng(e)), dtype=float) - f0).ravel()
    z = np.sin(np.arange(1.0, K + 1) * 1.9) * 1.5
    fz = np.asarray(draw(ScriptRng(z)), dtype=float)
    if ctx is not None:
        ctx.trace(K + 2)
        ctx.step(K + 2)
        ctx.close(fz.ravel(), f0.ravel() + A @ z, w, 1e-6, 1e-7, msg="sampler is not affine in its Gaussian draws")
    return Law(f0, A @ A.T)


def spd(n, s=0):
    g = np.round(np.sin(np.arange(n * n).reshape(n, n) * 1.3 + s + 0.5), 3)
    return np.round(g @ g.T + (1.0 + 0.2 * s) * np.eye(n), 6)


def gen(*shape, s=0):
    k = int(np.prod(shape)) if shape else 1
    return np.round(np.cos(np.arange(1.0, k + 1) * 1.37 + s) * 1.8, 3).reshape(shape)


def normal(kind, shape, s=0, pre=False):
    """(Normal, Law) of the given covariance representation"""
    n = int(np.prod(shape)) if shape else 1
    m = gen(*shape, s=s) if shape else np.float64(gen(1, s=s)[0])
    if kind == "dense":
        C = spd(n, s) if shape else np.float64(1.3 + 0.2 * s)
        c = C
    elif kind == "sing":          # singular covariance
        u = gen(n, s=s + 1)
        C = np.outer(u, u) if shape else np.float64(0.0)
        c = C
    elif kind == "f32":
        C = spd(n, s).astype(np.float32) if shape else np.float32(1.3)
        m = m.astype(np.float32)
        c = C
    elif kind == "int":
        m = np.rint(m * 3).astype(int)
        C = np.diag(np.arange(1, n + 1)) if shape else np.int64(4)
        c = C
    elif kind == "lmat":
        C = spd(n, s)
        c = linops.aslinop(C)
    elif kind == "lsym":
        C = spd(n, s)
        c = linops.aslinop(C)
        c.is_symmetric = True
    elif kind == "lscal":
        C = np.diag(1.0 + np.arange(n) * 0.5)
        c = linops.Scaling(np.diag(C).copy())
    elif kind == "lid":
        C = np.eye(n)
        c = linops.Identity(n)
    elif kind == "lkron":
        a, b = (spd(shape[0], s), spd(shape[1], s + 1)) if len(shape) == 2 else (spd(1, s), spd(n, s))
        C = np.kron(a, b)
        c = linops.Kronecker(a, b)
    elif kind == "lkronop":
        a, b = spd(shape[0], s), spd(shape[1], s + 1)
        C = np.kron(a, b)
        c = linops.Kronecker(linops.aslinop(a), linops.aslinop(b))
        m = linops.aslinop(m)
    elif kind == "lsymk":
        a = spd(shape[0], s)
        c = linops.SymmetricKronecker(a)
        C = c.todense()
    elif kind == "lsymk2":
        a, b = spd(shape[0], s), spd(shape[0], s + 1)
        c = linops.SymmetricKronecker(a, b)
        C = c.todense()
    else:
        raise KeyError(kind)
    rv = randvars.Normal(m, c)
    if pre:
        rv.precompute_cov_cholesky()
    return rv, Law(dense(m), C)


def kinds(shape):
    out = ["dense", "f32", "int", "sing"]
    if len(shape) >= 1:
        out += ["lmat", "lsym", "lscal", "lid", "lkron"]
    if len(shape) == 2:
        out += ["lkronop"]
        if shape[0] == shape[1]:
            out += ["lsymk", "lsymk2"]
    return out
