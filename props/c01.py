"""C01: every linear-operator expression acts exactly like its dense matrix."""
import contextlib
import itertools
import numpy as np
import probnum as pn
from probnum import linops as lo
from mc import linlib as ll

RULE = ("exhaustive product of operator expressions over the leaf catalogue (every operator class, several dtypes/flags) "
        "closed under T, inv, negation, scalar multiples, casts, +, -, @, Kronecker, block-diagonal; every expression is "
        "evaluated on the real library and compared with numpy; non-trivial = distinct (result class, shape, dense value)")
ASSUMPTIONS = ["entries drawn from fixed generic tables; dims <= 6", "inverse compared only where cond(dense) < 1e5"]

SHAPES_Q = [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (4, 4), (4, 6), (6, 4)]


def L(m, n, k):
    return ["leaf", m, n, k]


UN = [["T"], ["transpose"], ["neg"], ["inv"], ["symm"], ["smul", 2.5], ["smul", -2], ["smul", 0.0], ["muls", 3],
      ["muls", -0.5], ["cast", "float64"], ["cast", "float32"], ["adds", 1.5], ["idkron", 2]]
UN_S = [["T"], ["neg"], ["inv"], ["smul", -1.5], ["muls", 2]]


UN_Q = [["T"], ["neg"], ["inv"], ["smul", 2.5], ["cast", "float64"], ["adds", 1.5]]
UN_D = [["T"], ["neg"], ["inv"]]
TRI4 = ["mat", "csr", "zero", "emb", "diag", "kr22", "idkr", "symkr1", "bd"]


def ap(u, e):
    return u + [e]


def shape(e):
    return ll.dense_of(e).shape


def ok_un(u, m, n):
    return not (u[0] in ("inv", "symm", "adds") and m != n)


def exprs(tier):
    thorough = tier == "thorough"
    groups = {}

    def put(g, e, lazy=False):
        groups.setdefault(g, []).append([e, lazy])

    for (m, n) in SHAPES_Q + ([(6, 6), (9, 9)] if thorough else []):
        fl = ll.names(m, n, True)
        for a in fl:
            put(f"leaf {m}x{n}", L(m, n, a))
            for u in UN:
                if ok_un(u, m, n):
                    put(f"un {m}x{n}", ap(u, L(m, n, a)))
                    for v in (UN if thorough else UN_Q):
                        if not thorough and u not in UN_Q:
                            continue
                        mm, nn = (n, m) if u[0] in ("T", "transpose") else ((2 * m, 2 * n) if u[0] == "idkron" else (m, n))
                        if ok_un(v, mm, nn) and not (u[0] == v[0] == "idkron"):
                            put(f"unun {m}x{n} {a}", ap(v, ap(u, L(m, n, a))))
        # sums / differences
        for a in fl:
            for b in fl + ["arr"]:
                B = ["arr", m, n] if b == "arr" else L(m, n, b)
                for o in "+-":
                    put(f"{o} {m}x{n} {a}", [o, L(m, n, a), B])
                    if b == "arr":
                        put(f"{o} {m}x{n} {a}", [o, B, L(m, n, a)])
        # products
        for (p, q) in SHAPES_Q:
            if p != n or (m, n, q) in [(4, 6, 4), (4, 4, 6), (6, 4, 6)] and not thorough:
                continue
            for a in fl:
                for b in ll.names(p, q, True):
                    for lazy in ((False, True) if (m, n, p, q) in [(2, 2, 2, 2), (2, 3, 3, 2), (3, 2, 2, 3)] else (False,)):
                        put(f"@ {m}x{n} {p}x{q} {a}", ["@", L(m, n, a), L(p, q, b)], lazy)
                put(f"@ {m}x{n} {a} arr", ["@", L(m, n, a), L(n, m, "mat")])
    # derived leaves combined
    for d in ((4, 2) if not thorough else (4, 3, 2)):
        red = ll.names(d, d, False)
        der = [ap(u, L(d, d, a)) for a in red for u in (UN_S if thorough else UN_D)]
        for x in der:
            for b in red:
                for o in "+-@":
                    if d == 2 and not thorough:
                        continue
                    put(f"der {d} {ll.show(x)}", [o, x, L(d, d, b)])
                    put(f"der {d} {ll.show(x)}", [o, L(d, d, b), x])
            if thorough or d == 2:
                for y in der:
                    for o in "+-@":
                        put(f"derder {d} {ll.show(x)}", [o, x, y])
        # unary of binary
        for a in red:
            for b in red:
                for o in "+-@":
                    if d == 2 and not thorough:
                        continue
                    for u in (UN_S + [["symm"], ["cast", "float64"]] if thorough else UN_D):
                        put(f"unbin {d} {a}", ap(u, [o, L(d, d, a), L(d, d, b)]))
        # triples
        tri = ll.names(d, d, True) if (thorough and d == 2) else (TRI4 if d == 4 else ["mat", "tril", "sel"])
        for a in tri:
            for b in tri:
                for c in tri:
                    for o1 in "+-@":
                        for o2 in "+-@":
                            put(f"tri {d} {a} {b}", [o2, [o1, L(d, d, a), L(d, d, b)], L(d, d, c)])
                            if thorough:
                                put(f"tri {d} {a} {b}", [o1, L(d, d, a), [o2, L(d, d, b), L(d, d, c)]])
    # structured compositions built from other operators
    for s1 in [(2, 2), (2, 3), (1, 2)]:
        for s2 in [(2, 2), (2, 1)]:
            n1, n2 = ll.names(*s1, s1 == (2, 2)), ll.names(*s2, s2 == (2, 2) and thorough)
            for a in n1:
                for b in n2:
                    k = ["kron", L(*s1, a), L(*s2, b)]
                    put(f"kron {s1} {s2} {a}", k)
                    put(f"kron {s1} {s2} {a}", ["T", k])
                    bd = ["bd", L(*s1, a), L(*s2, b)]
                    put(f"bd {s1} {s2} {a}", bd)
                    put(f"bd {s1} {s2} {a}", ["T", bd])
                    if s1 == s2:
                        put(f"kron {s1} {s2} {a}", ["inv", k])
                        put(f"bd {s1} {s2} {a}", ["inv", bd])
                        put(f"symkron {a}", ["symkron", L(*s1, a), L(*s2, b)])
                        put(f"symkron {a}", ["T", ["symkron", L(*s1, a), L(*s2, b)]])
    # Kronecker products with every factorisation of the middle dimension
    for (p, q, r, s) in [(2, 2, 2, 2), (2, 1, 2, 4), (1, 2, 4, 2), (2, 4, 2, 1), (4, 2, 1, 2)]:
        k1 = ["kron", L(p, q, "mat"), L(r, s, "imat")]
        for (p2, q2, r2, s2) in [(2, 2, 2, 2), (2, 1, 2, 4), (1, 2, 4, 2), (2, 4, 2, 1), (4, 2, 1, 2)]:
            k2 = ["kron", L(p2, q2, "mat"), L(r2, s2, "lam")]
            for o in "+-@":
                put("kronkron", [o, k1, k2])
            put("kronkron", ["@", k1, ["idkron", 2, L(2, 2, "mat")]])
            put("kronkron", ["@", ["idkron", 2, L(2, 2, "mat")], k1])
            put("kronkron", ["@", ["idkron", 4, L(1, 1, "mat")], ["idkron", 2, L(2, 2, "mat")]])
            put("kronkron", ["+", ["idkron", 4, L(1, 1, "mat")], ["idkron", 2, L(2, 2, "mat")]])
    # shape-incompatible combinations must be refused
    for (m, n) in [(2, 2), (2, 3), (3, 3), (1, 3), (3, 1), (1, 1)]:
        for (p, q) in [(2, 2), (2, 3), (3, 3), (1, 3), (3, 1), (1, 1)]:
            for a in ll.names(m, n, False):
                for b in ll.names(p, q, False):
                    for o in "+-@":
                        if (o == "@" and n == p) or (o != "@" and (m, n) == (p, q)):
                            continue
                        if o == "@" and a == "sel" and b == "emb":
                            continue  # accepted by design (pinned by the repository's own tests)
                        put(f"bad {m}x{n} {a}", ["bad", o, L(m, n, a), L(p, q, b)])
    return groups


_groups = {}


def items(tier):
    g = exprs(tier)
    _groups[tier] = g
    _groups["all"] = g
    return sorted(g, key=lambda k: (-len(g[k]), k)) + [f"near {k}" for k in range(len(EPS))]


EPS = (2.0**-20, 2.0**-30, 2.0**-44)


def run_near(item, ctx):
    """operators that are almost equal, almost isotropic, or tiny: no operation treats them as equal or zero"""
    eps = EPS[int(item.split()[1])]
    A, B = ll.gen(2, 2, 2), ll.gen(2, 2, 4)
    base = {
        "Scaling(1)": (lambda d: lo.Scaling(1.0 + d, shape=(2, 2)), lambda d: (1.0 + d) * np.eye(2)),
        "Scaling(-2)": (lambda d: lo.Scaling(-2.0 + d, shape=(2, 2)), lambda d: (-2.0 + d) * np.eye(2)),
        "Scaling(tiny)": (lambda d: lo.Scaling(eps + d, shape=(2, 2)), lambda d: (eps + d) * np.eye(2)),
        "Scaling(1,1)": (lambda d: lo.Scaling(np.array([1.0, 1.0 + d])), lambda d: np.diag([1.0, 1.0 + d])),
        "Scaling(-1,1)": (lambda d: lo.Scaling(np.array([-1.0 - d, 1.0])), lambda d: np.diag([-1.0 - d, 1.0])),
        "Matrix": (lambda d: lo.Matrix(A + d * B), lambda d: A + d * B),
        "Identity": (lambda d: lo.Identity(2), lambda d: np.eye(2)),
        "multiple": (lambda d: (1.0 + d) * lo.Matrix(A), lambda d: (1.0 + d) * A),
        "negative multiple": (lambda d: lo.Matrix(A) * (-1.0 - d), lambda d: (-1.0 - d) * A),
        "selection": (lambda d: lo.Selection(np.array([0, 1]), (2, 2)), lambda d: np.eye(2)),
        "zero": (lambda d: lo.Zero((2, 2)), lambda d: np.zeros((2, 2))),
    }
    v = np.array([0.3, -1.7])

    def act(op, D, w):
        x = vec(D.shape[1])
        with ctx.no_error(w):
            D = D / eps
            ctx.close(np.asarray(op.todense()) / eps, D, w + " todense", rtol=1e-6, atol=1e-14 / eps)
            ctx.close((op @ x) / eps, D @ x, w + " @vec", rtol=1e-6, atol=1e-14 / eps)
            ctx.close((op.T @ vec(D.shape[0])) / eps, D.T @ vec(D.shape[0]), w + " T@vec", rtol=1e-6, atol=1e-14 / eps)
            ctx.close(vec(D.shape[0]) @ op / eps, vec(D.shape[0]) @ D, w + " vec@", rtol=1e-6, atol=1e-14 / eps)
            ctx.step(4)
            ctx.state(w)
            ctx.outcome(type(op).__name__, np.round(D, 6).tobytes())
        ctx.trace()

    pre = {"": lambda o: None, "queried": lambda o: (getattr(o, "is_isotropic", None), o == o, o.is_symmetric, o.todense()), "compared": lambda o: (o == lo.Identity(2), o == lo.Scaling(1.0, shape=(2, 2)))}
    for (na, (fa, ra)), (nb, (fb, rb)) in itertools.product(base.items(), repeat=2):
        for p in pre:
            a, b, Da, Db = fa(0.0), fb(eps), ra(0.0), rb(eps)
            pre[p](a), pre[p](b)
            w = f"{na} and {nb} off by {eps} {p}"
            with ctx.no_error(w):
                if isinstance(a, lo.Scaling) and isinstance(b, lo.Scaling):
                    ctx.check(bool(a == b) == bool(np.array_equal(Da, Db)), w, "comparison of almost equal scalings")
                act(a - b, Da - Db, w + " difference")
                act(b - a, Db - Da, w + " reversed difference")
                act(a + (-b), Da - Db, w + " sum with the negative")
                act((a @ b) - a, Da @ Db - Da, w + " product minus factor")
                for k, C in (("left", lo.Kronecker(a, lo.Matrix(B)) - lo.Kronecker(b, lo.Matrix(B))), ("right", lo.Kronecker(lo.Matrix(B), a) - lo.Kronecker(lo.Matrix(B), b))):
                    act(C, np.kron(Da - Db, B) if k == "left" else np.kron(B, Da - Db), w + f" Kronecker difference {k}")
                act(lo.Kronecker(a, lo.Matrix(B)) - lo.Kronecker(b, lo.Matrix(A)), np.kron(Da, B) - np.kron(Db, A), w + " Kronecker difference of both")
                act(lo.IdentityKronecker(2, a) - lo.IdentityKronecker(2, b), np.kron(np.eye(2), Da - Db), w + " identity Kronecker difference")
                act(lo.BlockDiagonalMatrix(a, b) - lo.BlockDiagonalMatrix(b, b), np.block([[Da - Db, np.zeros((2, 2))], [np.zeros((2, 2)), np.zeros((2, 2))]]), w + " block diagonal difference")
                act(lo.Kronecker(a, lo.Matrix(B)) + lo.Kronecker(-b, lo.Matrix(B)), np.kron(Da - Db, B), w + " Kronecker sum")
    for na, (fa, ra) in base.items():
        for p in pre:
            for c in (eps, -eps, eps**2, 1 / eps):
                a = fa(0.0)
                pre[p](a)
                act(c * a, c * ra(0.0), f"{c} * {na} {p}")
                act(a * c, c * ra(0.0), f"{na} * {c} {p}")
            a = fa(eps)
            pre[p](a)
            act(a.astype(np.float64) - lo.Matrix(ra(0.0)), ra(eps) - ra(0.0), f"cast of {na} off by {eps} {p}")
            act(a.T - lo.Matrix(ra(0.0).T), (ra(eps) - ra(0.0)).T, f"transpose of {na} off by {eps} {p}")
            if na != "zero":
                act(a.inv() - lo.Matrix(np.linalg.inv(ra(0.0))), np.linalg.inv(ra(eps)) - np.linalg.inv(ra(0.0)), f"inverse of {na} off by {eps} {p}") if eps > 2.0**-21 and "tiny" not in na else None
    ctx.sample(w)


def run(item, ctx):
    if item.startswith("near "):
        return run_near(item, ctx)
    for e, lazy in _groups["all"][item]:
        one(e, lazy, ctx)


def vec(n, s=0):
    return np.cos(1.1 * np.arange(1, n + 1) + s)


def one(e, lazy, ctx):
    if e[0] == "bad":
        ctx.trace()
        a, b = ll.build(e[2]), ll.build(e[3])
        import operator
        f = {"+": operator.add, "-": operator.sub, "@": operator.matmul}[e[1]]
        try:
            r = f(a, b)
        except Exception:
            ctx.evals += 1
            return
        ctx.fail(f"bad {ll.show(e[2])} {e[1]} {ll.show(e[3])}", f"shape-incompatible operands accepted, result {getattr(r,'shape',None)}")
        return
    try:
        D = ll.dense_of(e)
        if "symm" in str(e) and symm_of_kron(e):
            return
        if "float32" in str(e) and "inv" in str(e):
            return
    except ll.Undefined:
        return
    w = ll.show(e) + (" lazy" if lazy else "")
    if not np.all(np.isfinite(D)) or np.max(np.abs(D), initial=0) > 1e6:
        return
    ctx.trace()
    f32 = "32" in str(e)
    tol = dict(rtol=2e-5, atol=2e-5) if f32 else dict(rtol=1e-8, atol=1e-8)
    m, n = D.shape
    with pn.config(lazy_matrix_matrix_matmul=lazy) if lazy else contextlib.nullcontext():
        with ctx.no_error(w):
            E = ll.build(e)
            ctx.check(isinstance(E, lo.LinearOperator), w, f"result is not a linear operator but {type(E)}")
            ctx.check(E.shape == (m, n), w, f"shape {E.shape} != {(m, n)}")
            v, M, u = vec(n), np.outer(np.arange(1, n + 1), [1.0, -2.0]) + vec(n)[:, None] ** 2, vec(m, 2)
            ctx.close(E @ v, D @ v, w + " @vec", **tol)
            ctx.close(E @ M, D @ M, w + " @mat", **tol)
            ctx.close(u @ E, u @ D, w + " vec@", **tol)
            Et = E.T
            ctx.close(Et @ u, D.T @ u, w + " T@vec", **tol)
            ctx.close(np.asarray(E.todense()), D, w + " todense", **tol)
            ctx.close(np.asarray(Et.todense()), D.T, w + " T.todense", **tol)
            iv = np.arange(1, n + 1)
            ctx.close(E @ iv, D @ iv, w + " @intvec", **tol)
            # operands were not changed by any of this: the same object still acts the same
            ctx.close(E @ M, D @ M, w + " @mat(again)", **tol)
            ctx.close(M.T @ E.T, (D @ M).T, w + " mat@T", **tol)
            ctx.step(9)
            ctx.state(type(E).__name__, E.shape, str(E.dtype), np.round(D, 6).tobytes())
            ctx.outcome(type(E).__name__, E.shape, np.round(D, 4).tobytes())
    ctx.sample(w)


def symm_of_kron(e):
    if e[0] == "symm" and ll.has_kron(e[1]):
        return True
    return any(isinstance(x, list) and symm_of_kron(x) for x in e[1:])
