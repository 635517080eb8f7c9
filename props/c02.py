"""C02: derived matrix quantities are right after every history of earlier queries."""
import itertools
import numpy as np
import scipy.sparse
from probnum import linops as lo
from mc import linlib as ll

RULE = ("every operator of the catalogue (leaves, unary wrappers, sums, products, Kronecker and block compositions) x every "
        "ordered history of queries up to the depth bound, each on a fresh object; operators scaled from 2^-60 to 2^60; every answer compared with numpy on the dense "
        "matrix, structural flags checked for truth at the end; non-trivial = distinct (operator class, query, value)")
ASSUMPTIONS = ["square operators of order <= 4 (6 in thorough); histories of length 2 (3 on a reduced set; 3 everywhere in thorough)"]

Q = ["todense", "dense_nc", "T", "diag", "trace", "rank", "eig", "cond", "cond1", "condfro", "det", "logdet",
     "inv", "invT", "solvev", "solvem", "chol", "cholu", "matvec", "symm", "setsym", "setpd", "cast", "eq", "use", "cast32"]
Q1 = ["todense", "T", "rank", "eig", "inv", "chol", "cholu", "setsym", "use"]
# quick: every query alone, and every ordered pair of the queries that fill a cache or set a flag
QP = ["todense", "T", "diag", "rank", "eig", "cond", "det", "logdet", "inv", "solvev", "chol", "cholu", "symm", "setsym", "setpd", "eq", "use", "cast32"]


def L(n, k):
    return ["leaf", n, n, k]


def catalogue(tier):
    out = []
    sizes = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 6)
    for n in sizes:
        full = ll.names(n, n, True)
        out += [L(n, a) for a in full]
        red = [a for a in full if a in ("mat", "csr", "spd", "tril", "triu", "diag", "sc", "isc", "idiag", "symindef", "lam", "kr22", "krspd", "kr21", "idkr",
                                        "idkrspd", "symkr1", "symkr2", "symkrspd", "symz", "bd", "bdspd", "bdrect", "sel", "emb", "id", "symunk", "f32", "imat")]
        if n in (2, 4) or tier == "thorough":
            for a in red:
                for u in (["T"], ["neg"], ["inv"], ["smul", 2.5], ["smul", -2.0], ["muls", 3], ["cast", "float64"], ["symm"], ["adds", 1.5]):
                    out.append(u + [L(n, a)])
    for a, b in itertools.product(["spd", "sc", "tril", "triu", "mat", "id", "diag", "symindef", "scneg", "lam"], repeat=2):
        for o in "+-@":
            out.append([o, L(3, a), L(3, b)])
    for a, b in itertools.product(["mat", "spd", "sc", "diag", "tril", "id", "scneg", "isc"], repeat=2):
        out.append(["kron", L(2, a), L(2, b)])
        out.append(["bd", L(2, a), L(2, b)])
        out.append(["symkron", L(2, a), L(2, b)])
        out.append(["inv", ["kron", L(2, a), L(2, b)]])
        out.append(["inv", ["@", L(2, a), L(2, b)]])
        out.append(["T", ["@", L(2, a), L(2, b)]])
        out.append(["T", ["+", L(2, a), L(2, b)]])
        out.append(["T", ["inv", ["+", L(2, a), L(2, b)]]])
        if tier == "thorough":
            for u in (["neg"], ["smul", -2.0], ["cast", "float64"]):
                for o in ("kron", "bd", "@", "+"):
                    out.append(u + [[o, L(2, a), L(2, b)]])
    for a, b in itertools.product(["mat", "csr", "lam", "sel", "bd", "zero", "scr"], ["mat", "csr", "lam", "emb", "bd"]):
        if a in ll.names(2, 3, True) and b in ll.names(3, 2, True):
            out.append(["@", ["leaf", 2, 3, a], ["leaf", 3, 2, b]])
            out.append(["@", ["leaf", 3, 2, b], ["leaf", 2, 3, a]])
            out.append(["T", ["@", ["leaf", 2, 3, a], ["leaf", 3, 2, b]]])
            out.append(["@", L(2, "spd"), ["@", ["leaf", 2, 3, a], ["leaf", 3, 2, b]]])
    out.append(["kron", ["neg", L(2, "spd")], ["neg", L(2, "spd")]])
    out.append(["kron", L(2, "scneg"), L(2, "scneg")])
    for a in ("mat", "spd", "tril", "diag", "kr22"):
        out.append(["idkron", 2, L(2, a)])
        out.append(["inv", ["idkron", 2, L(2, a)]])
        out.append(["inv", ["inv", L(2, a)]])
        out.append(["T", ["inv", L(2, a)]])
        out.append(["inv", ["T", L(2, a)]])
        out.append(["neg", ["inv", L(2, a)]])
    return out


_cat = []


def items(tier):
    _cat[:] = catalogue(tier)
    out = []
    deep3 = {"spd", "mat", "tril", "diag", "krspd", "bdspd", "symkrspd", "sc"}
    for i, e in enumerate(_cat):
        depth = 2
        if tier == "thorough" or (e[0] == "leaf" and e[1] == 2 and e[3] in deep3) or e[0] == "inv" and e[1][0] == "leaf" and e[1][1] == 2 and e[1][3] == "spd":
            depth = 3
        out.append([i, ll.show(e), depth, tier])
    return [["scale", n] for n in SCALED] + [["flags", n] for n in FLAGGED] + sorted(out, key=lambda x: (-x[2], x[0]))


def _spd(n):
    return ll.gen(n, n, 3) @ ll.gen(n, n, 3).T + n * np.eye(n)


# operator built with its entries scaled by s, the same matrix for s = 1, and the power of s by which the matrix scales
SCALED = {
    "matrix": (lambda s: lo.Matrix(s * ll.gen(3, 3, 2)), ll.gen(3, 3, 2), 1),
    "spd": (lambda s: sym(lo.Matrix(s * _spd(3))), _spd(3), 1),
    "isotropic": (lambda s: lo.Scaling(2.5 * s, shape=(4, 4)), 2.5 * np.eye(4), 1),
    "negative isotropic": (lambda s: lo.Scaling(-2.5 * s, shape=(3, 3)), -2.5 * np.eye(3), 1),
    "anisotropic": (lambda s: lo.Scaling(s * np.array([1.0, 2.0, 3.5, 0.25])), np.diag([1.0, 2.0, 3.5, 0.25]), 1),
    "indefinite anisotropic": (lambda s: lo.Scaling(s * np.array([1.0, -2.0, 3.5, -0.25])), np.diag([1.0, -2.0, 3.5, -0.25]), 1),
    "sum": (lambda s: sym(lo.Matrix(s * _spd(3))) + lo.Scaling(s * np.array([1.0, 2.0, 3.0])), _spd(3) + np.diag([1.0, 2.0, 3.0]), 1),
    "product": (lambda s: lo.Matrix(s * ll.gen(3, 3, 2)) @ lo.Matrix(_spd(3)), ll.gen(3, 3, 2) @ _spd(3), 1),
    "multiple": (lambda s: s * lo.Matrix(ll.gen(3, 3, 2)), ll.gen(3, 3, 2), 1),
    "kronecker": (lambda s: lo.Kronecker(s * ll.gen(2, 2, 2), s * ll.gen(3, 3, 4)), np.kron(ll.gen(2, 2, 2), ll.gen(3, 3, 4)), 2),
    "spd kronecker": (lambda s: lo.Kronecker(sym(lo.Matrix(s * _spd(2))), sym(lo.Matrix(_spd(2)))), np.kron(_spd(2), _spd(2)), 1),
    "kronecker of scalings": (lambda s: lo.Kronecker(lo.Scaling(s, shape=(2, 2)), lo.Scaling(s * np.array([1.0, 3.0]))), np.kron(np.eye(2), np.diag([1.0, 3.0])), 2),
    "identity kronecker": (lambda s: lo.IdentityKronecker(2, sym(lo.Matrix(s * _spd(2)))), np.kron(np.eye(2), _spd(2)), 1),
    "symmetric kronecker": (lambda s: lo.SymmetricKronecker(sym(lo.Matrix(s * _spd(2)))), np.kron(_spd(2), _spd(2)), 2),
    "block diagonal": (lambda s: lo.BlockDiagonalMatrix(sym(lo.Matrix(s * _spd(2))), lo.Scaling(s, shape=(2, 2))), np.block([[_spd(2), np.zeros((2, 2))], [np.zeros((2, 2)), np.eye(2)]]), 1),
    "triangular": (lambda s: tri(lo.Matrix(s * np.tril(_spd(3)))), np.tril(_spd(3)), 1),
}


def sym(op):
    op.is_symmetric = True
    return op


def tri(op):
    op.is_lower_triangular = True
    return op


def run_scale(item, ctx):
    """derived quantities of tiny and huge operators are those of the unscaled operator, scaled; every ordered pair of queries"""
    mk, M, k = SCALED[item[1]]
    n = len(M)
    spd = is_spd(M)
    b = np.sin(np.arange(1.0, n + 1) * 1.3)
    Mi = np.linalg.inv(M)
    t = dict(rtol=1e-7, atol=1e-9)

    def q_chol(op, c, w, lower):
        if not op.is_symmetric:
            return
        try:
            C = op.cholesky(lower=lower).todense() / np.sqrt(c)
        except np.linalg.LinAlgError:
            ctx.check(not spd, w, "Cholesky refused for a positive definite operator")
            return
        ctx.check(spd, w, "Cholesky accepted for a matrix that is not positive definite")
        ctx.close(C @ C.T if lower else C.T @ C, M, w + " factor product", **t)
        ctx.close(C, np.tril(C) if lower else np.triu(C), w + " triangular factor", **t)

    qs = {
        "rank": lambda op, c, w: ctx.check(int(op.rank()) == n, w, f"rank {op.rank()}"),
        "cond": lambda op, c, w: ctx.close(op.cond(), np.linalg.cond(M), w, rtol=1e-6),
        "condfro": lambda op, c, w: ctx.close(op.cond("fro"), np.linalg.cond(M, "fro"), w, rtol=1e-6),
        "eig": lambda op, c, w: ctx.check(eig_match(np.asarray(op.eigvals()) / c, np.linalg.eigvals(M), 1e-6), w, "eigenvalues differ"),
        "det": lambda op, c, w: ctx.close(op.det() / c**n, np.linalg.det(M), w, rtol=1e-6, atol=1e-9),
        "logdet": lambda op, c, w: ctx.close(op.logabsdet() - n * np.log(c), np.linalg.slogdet(M)[1], w, rtol=1e-6, atol=1e-6),
        "trace": lambda op, c, w: ctx.close(op.trace() / c, np.trace(M), w, **t),
        "diag": lambda op, c, w: ctx.close(op.diagonal() / c, np.diag(M), w, **t),
        "dense": lambda op, c, w: ctx.close(op.todense() / c, M, w, **t),
        "inv": lambda op, c, w: (ctx.close(op.inv() @ b * c, Mi @ b, w, rtol=1e-6, atol=1e-8), ctx.close(op.inv().todense() * c, Mi, w, rtol=1e-6, atol=1e-8)),
        "solve": lambda op, c, w: ctx.close(op.solve(b) * c, Mi @ b, w, rtol=1e-6, atol=1e-8),
        "T": lambda op, c, w: ctx.close(op.T @ b / c, M.T @ b, w, **t),
        "chol": lambda op, c, w: q_chol(op, c, w, True),
        "cholu": lambda op, c, w: q_chol(op, c, w, False),
        "symm": lambda op, c, w: ctx.close(op.symmetrize().todense() / c, 0.5 * (M + M.T), w, **t) if np.allclose(M, M.T) else None,
    }
    for s in (2.0**-60, 2.0**-35, 2.0**-12, 1.0, 2.0**20, 2.0**60):
        for h in itertools.product(qs, repeat=2):
            w = f"{item[1]} scaled by {s} after {h[0]}>{h[1]}"
            ctx.trace()
            ctx.step(2)
            with ctx.no_error(w):
                op = mk(s)
                for q in h:
                    qs[q](op, s**k, f"{w}#{q}")
                pd = op.is_positive_definite
                ctx.check(pd is None or bool(pd) == spd, w, f"flag is_positive_definite={pd}")
            ctx.state(w)
        ctx.outcome(item[1], s)
    ctx.sample(w)


FLAGGED = {
    "general": ll.gen(3, 3, 2),
    "lower": np.tril(_spd(3)),
    "upper": np.triu(_spd(3)) * np.array([1.0, -1.0, 1.0]),
    "diagonal": np.diag([1.0, 2.0, 3.5]),
    "indefinite diagonal": np.diag([1.0, -2.0, 3.5]),
    "spd": _spd(3),
    "indefinite": _spd(3) - 4.0 * np.eye(3),
    "skew": np.array([[0.0, 2.0], [-2.0, 0.0]]),
}


def run_flags(item, ctx):
    """every combination of true statements about the structure (told, not told) changes no derived quantity"""
    M = FLAGGED[item[1]]
    n = len(M)
    spd = is_spd(M)
    truth = {"is_symmetric": np.array_equal(M, M.T), "is_lower_triangular": np.array_equal(M, np.tril(M)), "is_upper_triangular": np.array_equal(M, np.triu(M)), "is_positive_definite": spd}
    b = np.sin(np.arange(1.0, n + 1) * 1.3)
    B = np.outer(b, [1.0, 2.0]) + np.arange(2.0 * n).reshape(n, 2)
    Mi = np.linalg.inv(M)
    t = dict(rtol=1e-8, atol=1e-9)

    def chol(op, w, lower):
        try:
            C = op.cholesky(lower=lower).todense()
        except np.linalg.LinAlgError:
            ctx.check(not (spd and op.is_symmetric), w, "Cholesky refused for a positive definite operator")
            return
        ctx.check(spd, w, "Cholesky accepted for a matrix that is not positive definite")
        ctx.close(C @ C.T if lower else C.T @ C, M, w + " factor product", **t)
        ctx.close(C, np.tril(C) if lower else np.triu(C), w + " triangular factor", **t)

    qs = {
        "solve": lambda op, w: ctx.close(op.solve(b), Mi @ b, w, **t),
        "solvem": lambda op, w: ctx.close(op.solve(B), Mi @ B, w, **t),
        "tsolve": lambda op, w: ctx.close(op.T.solve(b), Mi.T @ b, w, **t),
        "inv": lambda op, w: ctx.close(op.inv().todense(), Mi, w, **t),
        "invt": lambda op, w: ctx.close(op.T.inv() @ b, Mi.T @ b, w, **t),
        "tinv": lambda op, w: ctx.close(op.inv().T @ b, Mi.T @ b, w, **t),
        "det": lambda op, w: ctx.close(op.det(), np.linalg.det(M), w, **t),
        "logdet": lambda op, w: ctx.close(op.logabsdet(), np.linalg.slogdet(M)[1], w, **t),
        "eig": lambda op, w: ctx.check(eig_match(op.eigvals(), np.linalg.eigvals(M), 1e-7), w, "eigenvalues differ"),
        "cond": lambda op, w: ctx.close(op.cond(), np.linalg.cond(M), w, rtol=1e-7),
        "chol": lambda op, w: chol(op, w, True),
        "cholu": lambda op, w: chol(op, w, False),
        "symm": lambda op, w: ctx.close(op.symmetrize().todense(), 0.5 * (M + M.T), w, **t),
        "neg": lambda op, w: ctx.close((-op).solve(b), -Mi @ b, w, **t),
        "mult": lambda op, w: ctx.close((-2.0 * op).inv() @ b, -0.5 * (Mi @ b), w, **t),
        "sq": lambda op, w: ctx.close((op @ op).inv() @ b, Mi @ Mi @ b, w, **t),
        "sub": lambda op, w: ctx.close((op - 3.0 * op).solve(b), -0.5 * (Mi @ b), w, **t),
        "cast": lambda op, w: ctx.close(op.astype(np.float64).solve(b), Mi @ b, w, **t),
    }
    forms = {"dense": lambda: lo.Matrix(M.copy()), "sparse": lambda: lo.Matrix(scipy.sparse.csr_matrix(M)), "function": lambda: lo.LambdaLinearOperator((n, n), np.dtype(float), matmul=lambda x: M @ x)}
    for form, mk in forms.items():
        for told in itertools.product((0, 1), repeat=4):
            if spd and told[3] and not told[0]:
                continue
            for h in itertools.product(qs, repeat=2):
                if form == "function" and h[0] in ("tsolve", "invt", "tinv", "symm", "sq", "sub") and h[1] != h[0]:
                    continue
                w = f"{item[1]} {form} told {[k for k, x in zip(truth, told) if x]} after {h[0]}>{h[1]}"
                ctx.trace()
                ctx.step(2)
                with ctx.no_error(w):
                    op = mk()
                    for (k, v), x in zip(truth.items(), told):
                        if x:
                            setattr(op, k, bool(v))
                    for q in h:
                        qs[q](op, f"{w}#{q}")
                    for k, v in truth.items():
                        g = getattr(op, k)
                        ctx.check(g is None or bool(g) == v, w, f"flag {k}={g}")
                ctx.state(w)
            ctx.outcome(item[1], form, told)
    ctx.sample(w)


def is_spd(D):
    return np.allclose(D, D.T) and np.all(np.linalg.eigvalsh(D) > 1e-10)


def eig_match(got, want, tol):
    got, want = list(np.asarray(got, dtype=complex)), list(np.asarray(want, dtype=complex))
    if len(got) != len(want):
        return False
    for w in want:
        k = min(range(len(got)), key=lambda i: abs(got[i] - w))
        if abs(got[k] - w) > tol * (1 + abs(w)):
            return False
        got.pop(k)
    return True


def ask(op, D, q, ctx, w, ref, tol):
    n = D.shape[0]
    well = ref["well"]
    t = dict(rtol=tol, atol=tol)
    if q == "todense":
        return ctx.close(op.todense(), D, w, **t)
    if q == "dense_nc":
        return ctx.close(op.todense(cache=False), D, w, **t)
    if q == "T":
        return ctx.close(op.T.todense(), D.T, w, **t)
    if q == "diag":
        return ctx.close(op.diagonal(), np.diag(D), w, **t)
    if q == "trace":
        return ctx.close(op.trace(), np.trace(D), w, **t)
    if q == "rank":
        return ctx.check(int(op.rank()) == ref["rank"], w, f"rank {op.rank()} != {ref['rank']}")
    if q == "eig":
        v = op.eigvals()
        return ctx.check(eig_match(v, ref["eig"], max(1e-6, 10 * tol)), w, "eigenvalues differ", got=v, want=ref["eig"])
    if q in ("cond", "cond1", "condfro"):
        if not well:
            return True
        p = {"cond": None, "cond1": 1, "condfro": "fro"}[q]
        return ctx.close(op.cond(p), np.linalg.cond(D, p), w, rtol=max(1e-6, 10 * tol), atol=1e-6)
    if q == "det":
        return ctx.close(op.det(), ref["det"], w, rtol=max(1e-6, 10 * tol), atol=1e-8)
    if q == "logdet":
        if not well:
            ld = op.logabsdet()
            return ctx.check(ld < -20 or ref["rank"] == n, w, f"logabsdet of a singular operator is {ld}")
        return ctx.close(op.logabsdet(), np.linalg.slogdet(D)[1], w, rtol=max(1e-6, 10 * tol), atol=1e-6)
    if q in ("inv", "invT", "solvev", "solvem"):
        if not well:
            return True
        b = np.sin(np.arange(1.0, n + 1) * 1.3)
        B = np.cos(np.arange(2.0 * n).reshape(n, 2))
        if q == "inv":
            return ctx.close(op.inv().todense(), ref["inv"], w, rtol=1e-5 if tol > 1e-7 else 1e-6, atol=1e-5 if tol > 1e-7 else 1e-7)
        if q == "invT":
            return ctx.close(op.inv().T @ b, ref["inv"].T @ b, w, rtol=1e-5, atol=1e-5 if tol > 1e-7 else 1e-7)
        if q == "solvev":
            return ctx.close(op.solve(b), ref["inv"] @ b, w, rtol=1e-5, atol=1e-5 if tol > 1e-7 else 1e-7)
        return ctx.close(op.solve(B), ref["inv"] @ B, w, rtol=1e-5, atol=1e-5 if tol > 1e-7 else 1e-7)
    if q in ("chol", "cholu"):
        lower = q == "chol"
        try:
            C = op.cholesky(lower=lower)
        except np.linalg.LinAlgError:
            return ctx.check(not (op.is_symmetric and ref["spd"]), w, "Cholesky refused for an operator known to be SPD")
        if ref["border"]:
            return True
        ok = ctx.check(ref["spd"], w, "Cholesky accepted for a matrix that is not SPD")
        Cd = np.asarray(C.todense())
        ok &= ctx.close(Cd, np.tril(Cd) if lower else np.triu(Cd), w, msg="factor not triangular")
        ok &= ctx.close(Cd @ Cd.T if lower else Cd.T @ Cd, D, w, rtol=max(1e-6, tol), atol=max(1e-7, tol), msg="factor product")
        ok &= ctx.check(np.all(np.diag(Cd) > 0), w, "Cholesky diagonal not positive")
        flags(C, Cd, ctx, w + " factor")
        return ok
    if q == "matvec":
        b = np.sin(np.arange(1.0, n + 1) * 0.7)
        return ctx.close(op @ b, D @ b, w, **t)
    if q == "symm":
        S = np.asarray(op.symmetrize().todense())
        ctx.close(S, S.T, w, msg="symmetrize not symmetric")
        if ref["sym"]:
            return ctx.close(S, D, w, msg="symmetrize changed a symmetric operator", **t)
        if not ref["kron"]:
            return ctx.close(S, 0.5 * (D + D.T), w, **t)
        return True
    if q == "setsym":
        if ref["sym"] and op.is_symmetric is None:
            op.is_symmetric = True
        return True
    if q == "setpd":
        if ref["spd"] and op.is_symmetric and op.is_positive_definite is None:
            op.is_positive_definite = True
        return True
    if q == "cast":
        return ctx.close(op.astype(np.float64, copy=False).todense(), D, w, **t)
    if q == "eq":
        same = op == ref["build"]()
        ctx.check(bool(op == op), w, "operator differs from itself")
        for o in (lo.Identity(n), lo.Zero((n, n)), lo.LambdaLinearOperator((n, n), np.double, matmul=lambda x: ll.gen(n, n, 9) @ x)):
            for r in (op == o, o == op):
                ctx.check(not bool(r) or np.allclose(D, o.todense()), w, "equal to a different operator")
        oth = op == lo.Scaling(3.75, shape=(n, n))
        return ctx.check(not bool(oth) or np.allclose(D, 3.75 * np.eye(n)), w, "equal to a different operator") and (bool(same) or True)
    if q == "use":
        ctx.close((2.0 * op).todense(), 2.0 * D, w, msg="scalar multiple", **t)
        ctx.close((op @ lo.Scaling(np.arange(1.0, n + 1))).todense(), D * np.arange(1.0, n + 1), w, msg="scaled columns", **t)
        ctx.close((lo.Scaling(np.arange(1.0, n + 1)) - op).todense(), np.diag(np.arange(1.0, n + 1)) - D, w, msg="difference", **t)
        if n % 2 == 0:
            K = lo.Kronecker(ll.gen(2, 2, 3), ll.gen(n // 2, n // 2, 5))
            return ctx.close((op @ K).todense(), D @ K.todense(), w, msg="product with Kronecker", **t)
        return True
    if q == "cast32":
        return ctx.close(op.astype(np.float32).todense(), D, w, rtol=2e-5, atol=2e-5)
    raise KeyError(q)


def flags(op, D, ctx, w, border=False):
    truth = {
        "is_symmetric": np.allclose(D, D.T, atol=1e-6) if D.shape[0] == D.shape[1] else False,
        "is_lower_triangular": np.allclose(D, np.tril(D), atol=1e-8),
        "is_upper_triangular": np.allclose(D, np.triu(D), atol=1e-8),
    }
    truth["is_positive_definite"] = bool(truth["is_symmetric"] and is_spd(D))
    for k, v in truth.items():
        f = getattr(op, k)
        if border and k == "is_positive_definite":
            continue
        ctx.check(f is None or bool(f) == bool(v), w + " " + k, f"flag {k}={f} but the matrix says {v}")


def run(item, ctx):
    if item[0] == "flags":
        return run_flags(item, ctx)
    if item[0] == "scale":
        return run_scale(item, ctx)
    e, depth = _cat[item[0]], item[2]
    try:
        D = np.asarray(ll.dense_of(e), dtype=float)
    except ll.Undefined:
        return
    if D.shape[0] != D.shape[1] or (e[0] == "symm" and ll.has_kron(e)):
        return
    well = ll.wellcond(D)
    ref = dict(well=well, rank=np.linalg.matrix_rank(D), eig=np.linalg.eigvals(D), det=np.linalg.det(D),
               inv=np.linalg.inv(D) if well else None, sym=np.allclose(D, D.T), kron=ll.has_kron(e))
    ref["build"] = lambda: ll.build(e)
    ref["spd"] = bool(ref["sym"] and is_spd(D))
    # positive semi-definite but singular: in floating point either verdict of the factorization is right
    ref["border"] = bool(ref["sym"] and not ref["spd"] and np.linalg.eigvalsh(D)[0] > -1e-10)
    tol = 2e-5 if "f32" in str(e) else 1e-8
    name = ll.show(e)
    flags(ll.build(e), D, ctx, name, ref["border"])
    qs = QP if item[3] == "quick" else Q
    if item[3] == "quick" and e[0] != "leaf":
        qs = [q for q in qs if q not in ("eq", "cast32", "setpd", "det", "diag", "cholu")]
    first = Q1 if item[3] == "quick" and e[0] != "leaf" else qs
    for hist in itertools.chain([(q,) for q in Q if q not in first], itertools.product(first, *[qs] * (depth - 1))):
        if len(set(hist)) == 1 and len(hist) == 3:
            continue
        w = f"{name} after {'>'.join(hist)}"
        ctx.trace()
        with ctx.no_error(w):
            op = ll.build(e)
            for i, q in enumerate(hist):
                ask(op, D, q, ctx, w + f"#{i}", ref, tol)
                ctx.step()
            flags(op, D, ctx, w, ref["border"])
            ctx.state(name, tuple(sorted(set(hist))), op.is_symmetric, op.is_positive_definite)
    ctx.outcome(name, np.round(D, 5).tobytes(), ref["rank"])
    ctx.sample(f"{name}: all {len(Q)}^{depth} query histories")
