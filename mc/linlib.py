"""Leaf catalogue and expression evaluator: (library operator, dense reference)."""
import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from probnum import linops as lo

# deterministic generic entries (no structure, well conditioned when square)
def gen(m, n, s=0):
    i = np.arange(1, m + 1)[:, None] + 0.0
    j = np.arange(1, n + 1)[None, :] + 0.0
    a = np.sin(1.7 * i * i + 2.3 * j + 0.91 * i * j + 3.1 * s + 0.4)
    if m == n:
        a = a + (1.6 + 0.3 * s) * np.eye(n) * np.where(np.arange(n) % 2 == 0, 1, -1)
    return np.round(a, 3)


def igen(m, n, s=0):
    a = np.rint(2.4 * gen(m, n, s + 5)).astype(np.int64)
    if m == n:
        a = a + np.diag(3 + np.arange(n))
    return a


def spd(n, s=0):
    g = np.round(np.sin(np.arange(n * n).reshape(n, n) * 1.3 + s + 0.5), 3)
    return np.round(g @ g.T + (1.0 + 0.2 * s) * np.eye(n), 6)


def tril(n, s=0):
    return np.tril(gen(n, n, s)) + 0.0


def triu(n, s=0):
    return np.triu(gen(n, n, s + 1)) + 0.0


class Leaf:
    def __init__(self, name, make, dense, kron=False, nonlin=False):
        self.name, self.make, self.dense, self.kron = name, make, dense, kron


def flag(op, **kw):
    for k, v in kw.items():
        setattr(op, k, v)
    return op


def sel_dense(idx, n):
    d = np.zeros((len(idx), n))
    for r, c in enumerate(idx):
        d[r, c] = 1.0
    return d


def emb_dense(take, put, m, n):
    d = np.zeros((m, n))
    for t, p in zip(take, put):
        d[p, :] = 0.0
        d[p, t] = 1.0
    return d


class MethVec(lo.LinearOperator):
    """user-defined operator whose product method is broadcast from vectors"""

    def __init__(self, M):
        self.M = M
        super().__init__(M.shape, M.dtype)

    @lo.LinearOperator.broadcast_matvec(method=True)
    def _matmul(self, x):
        return self.M @ x


class MethMat(MethVec):
    @lo.LinearOperator.broadcast_matmat(method=True)
    def _matmul(self, x):
        return self.M @ x


def leaves(m, n, full=True):
    """All leaf constructors of shape (m, n)."""
    L = []

    def add(name, make, dense, kron=False):
        L.append(Leaf(name, make, np.asarray(dense), kron))

    G = gen(m, n)
    add("mat", lambda: lo.Matrix(G.copy()), G)
    I = igen(m, n)
    add("imat", lambda: lo.Matrix(I.copy()), I)
    S = np.where(np.abs(G) > 0.45, G, 0.0)
    add("csr", lambda: lo.Matrix(scipy.sparse.csr_matrix(S)), S)
    add("zero", lambda: lo.Zero((m, n)), np.zeros((m, n)))
    add("lam", lambda: lo.LambdaLinearOperator((m, n), np.double, matmul=lambda x: gen(m, n, 2) @ x), gen(m, n, 2))
    if full:
        add("csc", lambda: lo.aslinop(scipy.sparse.csc_matrix(S)), S)
        add("asarr", lambda: lo.aslinop(gen(m, n, 3)), gen(m, n, 3))
        add("matF", lambda: lo.Matrix(np.asfortranarray(gen(m, n, 4))), gen(m, n, 4))
        add("scipylo", lambda: lo.aslinop(scipy.sparse.linalg.aslinearoperator(gen(m, n, 1))), gen(m, n, 1))
        add("izero", lambda: lo.Zero((m, n), dtype=np.int64), np.zeros((m, n), dtype=np.int64))
        add("f32", lambda: lo.Matrix(np.rint(4 * G).astype(np.float32) / 4), np.rint(4 * G).astype(np.float32) / 4)
        add("lamvec", lambda: lo.LambdaLinearOperator(
            (m, n), np.double, matmul=lo.LinearOperator.broadcast_matvec(lambda x: gen(m, n, 6) @ x)), gen(m, n, 6))
        add("lammat", lambda: lo.LambdaLinearOperator(
            (m, n), np.double, matmul=lo.LinearOperator.broadcast_matmat(lambda x: gen(m, n, 7) @ x)), gen(m, n, 7))
        add("methvec", lambda: MethVec(gen(m, n, 6)), gen(m, n, 6))
        add("methmat", lambda: MethMat(gen(m, n, 7)), gen(m, n, 7))
    if m <= n:
        idx = [(2 * k + 1) % n for k in range(m)] if n > 1 else [0] * m
        if len(set(idx)) < m:
            idx = list(range(n))[::-1][:m]
        add("sel", lambda: lo.Selection(tuple(idx), shape=(m, n)), sel_dense(idx, n))
        if full and m > 1:
            dup = [0] * (m - 1) + [n - 1]
            dup = [0, 0] + idx[2:] if m >= 2 else dup
            add("seldup", lambda: lo.Selection(tuple(dup), shape=(m, n)), sel_dense(dup, n))
    if m >= n:
        put = [(2 * k + 1) % m for k in range(n)] if m > 1 else [0] * n
        if len(set(put)) < n:
            put = list(range(m))[::-1][:n]
        tk = list(range(n))
        add("emb", lambda: lo.Embedding(tk, tuple(put), shape=(m, n)), emb_dense(tk, put, m, n))
        if full and n > 1:
            tk2 = tk[1:] + tk[:1]
            add("embperm", lambda: lo.Embedding(tk2, tuple(put), shape=(m, n)), emb_dense(tk2, put, m, n))
            tk3, put3 = tk[1:], put[1:]
            add("embpart", lambda: lo.Embedding(tk3, tuple(put3), shape=(m, n)), emb_dense(tk3, put3, m, n))
    if m == n:
        add("id", lambda: lo.Identity(n), np.eye(n))
        add("sc", lambda: lo.Scaling(1.5, shape=(n, n)), 1.5 * np.eye(n))
        d = np.array([2.0, -0.5, 1.25, 3.0, 0.75, -1.5])[:n]
        add("diag", lambda: lo.Scaling(d.copy()), np.diag(d))
        P = spd(n)
        add("spd", lambda: flag(lo.Matrix(P.copy()), is_symmetric=True, is_positive_definite=True), P)
        Lw = tril(n)
        add("tril", lambda: flag(lo.Matrix(Lw.copy()), is_lower_triangular=True), Lw)
        if full:
            add("iid", lambda: lo.Identity(n, dtype=np.int64), np.eye(n, dtype=np.int64))
            add("isc", lambda: lo.Scaling(2, shape=n), 2 * np.eye(n, dtype=np.int64))
            add("sc1", lambda: lo.Scaling(1.0, shape=(n, n)), np.eye(n))
            add("scneg", lambda: lo.Scaling(-0.75, shape=(n, n)), -0.75 * np.eye(n))
            add("sc0", lambda: lo.Scaling(0.0, shape=(n, n)), np.zeros((n, n)))
            di = np.array([2, -3, 1, 4, -1, 5])[:n]
            add("idiag", lambda: lo.Scaling(di.copy()), np.diag(di))
            dc = np.full(n, 1.5)
            add("diagc", lambda: lo.Scaling(dc.copy()), np.diag(dc))
            if n > 1:
                dpm = np.array([2.0, -2.0, 2.0, 2.0, -2.0, 2.0])[:n]
                add("diagpm", lambda: lo.Scaling(dpm.copy()), np.diag(dpm))
            dz = d.copy()
            dz[0] = 0.0
            add("diag0", lambda: lo.Scaling(dz.copy()), np.diag(dz))
            Q = P - 2.2 * np.eye(n) * np.linalg.norm(P, 2) / 3
            add("symindef", lambda: flag(lo.Matrix(Q.copy()), is_symmetric=True), Q)
            U = triu(n)
            add("triu", lambda: flag(lo.Matrix(U.copy()), is_upper_triangular=True), U)
            add("symunk", lambda: lo.Matrix(P.copy()), P)
            add("spdT", lambda: lo.Matrix(gen(n, n, 2)).symmetrize(), 0.5 * (gen(n, n, 2) + gen(n, n, 2).T))
    # block diagonal
    if m >= 2 and n >= 2:
        a, b = m // 2, n // 2
        X, Y = gen(a, b, 1), gen(m - a, n - b, 2)
        D = np.zeros((m, n))
        D[:a, :b], D[a:, b:] = X, Y
        add("bd", lambda: lo.BlockDiagonalMatrix(lo.Matrix(X.copy()), lo.Matrix(Y.copy())), D)
        if full and m == n:
            E = np.zeros((m, n))
            E[:1, :1] = 2.0
            E[1:, 1:] = spd(n - 1, 1)
            add("bdspd", lambda: lo.BlockDiagonalMatrix(
                lo.Scaling(2.0, shape=1), flag(lo.Matrix(spd(n - 1, 1)), is_symmetric=True, is_positive_definite=True)), E)
            F = np.zeros((m, n))
            F[:1, : n - 1], F[1:, n - 1:] = gen(1, n - 1, 3), gen(m - 1, 1, 4)
            add("bdrect", lambda: lo.BlockDiagonalMatrix(gen(1, n - 1, 3), gen(m - 1, 1, 4)), F)
        if full and m >= 3 and n >= 3:
            H = np.zeros((m, n))
            H[0, 0], H[1, 1], H[2:, 2:] = 1.0, 3, gen(m - 2, n - 2, 6)
            add("bd3", lambda: lo.BlockDiagonalMatrix(lo.Identity(1), np.array([[3]]), gen(m - 2, n - 2, 6)), H)
    # Kronecker family
    for (p, q) in [(2, 2), (2, 1), (1, 2), (3, 3), (2, 3), (3, 2)]:
        if m % p or n % q:
            continue
        r, s = m // p, n // q
        if (p, q) != (2, 2) and (not full or r == 1 and s == 1):
            continue
        A, B = gen(p, q, 1), gen(r, s, 2)
        add(f"kr{p}{q}", lambda A=A, B=B: lo.Kronecker(lo.Matrix(A.copy()), lo.Matrix(B.copy())), np.kron(A, B), True)
        if (p, q) == (2, 2):
            add("idkr", lambda B=gen(r, s, 3): lo.IdentityKronecker(2, lo.Matrix(B.copy())), np.kron(np.eye(2), gen(r, s, 3)), True)
            if full:
                # same A factor as kr22 but different B (and vice versa): Kronecker sums
                add("kr22b", lambda A=A, B=gen(r, s, 5): lo.Kronecker(lo.Matrix(A.copy()), lo.Matrix(B.copy())),
                    np.kron(A, gen(r, s, 5)), True)
                add("kr22c", lambda A=gen(2, 2, 6), B=B: lo.Kronecker(lo.Matrix(A.copy()), lo.Matrix(B.copy())),
                    np.kron(gen(2, 2, 6), B), True)
                add("kr22n", lambda A=gen(2, 2, 7), B=-B: lo.Kronecker(lo.Matrix(A.copy()), lo.Matrix(B.copy())),
                    np.kron(gen(2, 2, 7), -B), True)
                add("krsp", lambda A=A, r=r, s=s: lo.Kronecker(scipy.sparse.csr_matrix(A), scipy.sparse.csr_matrix(gen(r, s, 3))),
                    np.kron(A, gen(r, s, 3)), True)
                add("krint", lambda r=r, s=s: lo.Kronecker(igen(2, 2, 1), igen(r, s, 2)), np.kron(igen(2, 2, 1), igen(r, s, 2)), True)
                if r == s:
                    add("krscal", lambda r=r: lo.Kronecker(lo.Scaling(2.0, shape=2), gen(r, r, 4)), np.kron(2 * np.eye(2), gen(r, r, 4)), True)
                    add("krspd", lambda r=r: lo.Kronecker(
                        flag(lo.Matrix(spd(2)), is_symmetric=True, is_positive_definite=True),
                        flag(lo.Matrix(spd(r, 1)), is_symmetric=True, is_positive_definite=True)), np.kron(spd(2), spd(r, 1)), True)
                    add("idkrspd", lambda r=r: lo.IdentityKronecker(
                        2, flag(lo.Matrix(spd(r, 1)), is_symmetric=True, is_positive_definite=True)), np.kron(np.eye(2), spd(r, 1)), True)
                    add("krid", lambda r=r: lo.Kronecker(lo.Identity(2), lo.Identity(r)), np.eye(2 * r), True)
    if m == n and m in (4, 9):
        k = int(round(m ** 0.5))
        A, B = gen(k, k, 1), gen(k, k, 2)
        add("symkr1", lambda: lo.SymmetricKronecker(lo.Matrix(A.copy())), np.kron(A, A), True)
        add("symkr2", lambda: lo.SymmetricKronecker(A.copy(), B.copy()), 0.5 * (np.kron(A, B) + np.kron(B, A)), True)
        if full:
            Pk = spd(k)
            add("symkrspd", lambda: lo.SymmetricKronecker(
                flag(lo.Matrix(Pk.copy()), is_symmetric=True, is_positive_definite=True)), np.kron(Pk, Pk), True)
        T = np.zeros((m, m))
        for i in range(k):
            for j in range(k):
                T[i * k + j, i * k + j] += 0.5
                T[i * k + j, j * k + i] += 0.5
        add("symz", lambda: lo.Symmetrize(k), T)
    return L


_cache = {}


def leaf(m, n, name):
    key = (m, n)
    if key not in _cache:
        _cache[key] = {l.name: l for l in leaves(m, n, True)}
    return _cache[key][name]


def names(m, n, full):
    return [l.name for l in leaves(m, n, full)]


class Undefined(Exception):
    """Reference says the operation has no (well-conditioned) value."""


def wellcond(d):
    d = np.asarray(d, dtype=float)
    return d.shape[0] == d.shape[1] and np.linalg.cond(d) < 1e5


def dense_of(e):
    """Reference semantics of an expression (pure numpy)."""
    op = e[0]
    if op == "leaf":
        return leaf(e[1], e[2], e[3]).dense
    if op == "arr":
        return gen(e[1], e[2], 8)
    if op in ("T", "transpose"):
        return dense_of(e[1]).T
    if op == "neg":
        return -dense_of(e[1])
    if op == "inv":
        d = dense_of(e[1])
        if not wellcond(d):
            raise Undefined
        return np.linalg.inv(d)
    if op in ("smul", "muls"):
        return e[1] * dense_of(e[2])
    if op == "symm":
        d = dense_of(e[1])
        return 0.5 * (d + d.T)
    if op == "cast":
        return dense_of(e[2]).astype(e[1])
    if op == "+":
        return dense_of(e[1]) + dense_of(e[2])
    if op == "-":
        return dense_of(e[1]) - dense_of(e[2])
    if op == "@":
        return dense_of(e[1]) @ dense_of(e[2])
    if op == "adds":
        d = dense_of(e[2])
        return d + e[1] * np.eye(d.shape[0])
    if op == "kron":
        return np.kron(dense_of(e[1]), dense_of(e[2]))
    if op == "idkron":
        return np.kron(np.eye(e[1]), dense_of(e[2]))
    if op == "bd":
        a, b = dense_of(e[1]), dense_of(e[2])
        out = np.zeros((a.shape[0] + b.shape[0], a.shape[1] + b.shape[1]))
        out[: a.shape[0], : a.shape[1]] = a
        out[a.shape[0]:, a.shape[1]:] = b
        return out
    if op == "symkron":
        a, b = dense_of(e[1]), dense_of(e[2])
        return 0.5 * (np.kron(a, b) + np.kron(b, a))
    raise KeyError(op)


def build(e):
    """Real operator of an expression (real library code)."""
    op = e[0]
    if op == "leaf":
        return leaf(e[1], e[2], e[3]).make()
    if op == "arr":
        return gen(e[1], e[2], 8)
    if op == "T":
        return build(e[1]).T
    if op == "transpose":
        return build(e[1]).transpose()
    if op == "neg":
        return -build(e[1])
    if op == "inv":
        return build(e[1]).inv()
    if op == "smul":
        return e[1] * build(e[2])
    if op == "muls":
        return build(e[2]) * e[1]
    if op == "symm":
        return build(e[1]).symmetrize()
    if op == "cast":
        return build(e[2]).astype(e[1])
    if op == "+":
        return build(e[1]) + build(e[2])
    if op == "-":
        return build(e[1]) - build(e[2])
    if op == "@":
        return build(e[1]) @ build(e[2])
    if op == "adds":
        return build(e[2]) + e[1]
    if op == "kron":
        return lo.Kronecker(build(e[1]), build(e[2]))
    if op == "idkron":
        return lo.IdentityKronecker(e[1], build(e[2]))
    if op == "bd":
        return lo.BlockDiagonalMatrix(build(e[1]), build(e[2]))
    if op == "symkron":
        return lo.SymmetricKronecker(build(e[1]), build(e[2]))
    raise KeyError(op)


def has_kron(e):
    if e[0] == "leaf":
        return leaf(e[1], e[2], e[3]).kron
    return e[0] in ("kron", "idkron", "symkron") or any(isinstance(x, list) and has_kron(x) for x in e[1:])


def show(e):
    op = e[0]
    if op == "leaf":
        return f"{e[3]}[{e[1]}x{e[2]}]"
    if op == "arr":
        return f"arr[{e[1]}x{e[2]}]"
    if op in ("+", "-", "@"):
        return f"({show(e[1])} {op} {show(e[2])})"
    args = ",".join(show(x) if isinstance(x, list) else str(x) for x in e[1:])
    return f"{op}({args})"
