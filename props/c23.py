"""C23: problinsolve - the posterior over x, A and the inverse is the exact symmetric Gaussian conditional; info tells the truth."""
import contextlib
import io as sio
import itertools
import warnings
import numpy as np
import scipy.sparse
import scipy.sparse.linalg
from probnum import linalg, linops, randvars

RULE = ("system x matrix type x right-hand side x prior (none, initial guesses of every sign, approximate inverses and random-variable priors of every type) x calibration x iteration bound x tolerance: "
        "every iteration handed to the callback (and the returned posterior) is batch conditioning of the symmetric matrix-variate Gaussian on all action/observation pairs so far; "
        "actions, step sizes, iterates, residuals, covariance traces, convergence criterion and iteration counts are right; several right-hand sides; argument guards")
ASSUMPTIONS = ["symmetric positive definite systems of order <= 4", "symmetric matrix-variate law: only the action of covariances on symmetric matrices is determined"]


def systems():
    A3 = np.array([[2.0, 0.4, -0.3], [0.4, 1.5, 0.2], [-0.3, 0.2, 1.0]])
    A4 = np.array([[3.0, 0.5, 0.0, -0.2], [0.5, 2.0, 0.7, 0.1], [0.0, 0.7, 1.5, 0.3], [-0.2, 0.1, 0.3, 1.0]])
    return {"spd3": (A3, np.array([1.0, -0.5, 2.0])), "spd4": (A4, np.array([0.3, 1.0, -1.0, 0.6])), "spd2": (np.array([[2.0, 0.9], [0.9, 1.1]]), np.array([-1.0, 0.4])),
            "one": (np.array([[2.5]]), np.array([-1.5])), "diag3": (np.diag([1.0, 2.0, 5.0]), np.array([1.0, 1.0, 0.0])), "diag4": (np.diag([2.0, 2.0, 5.0, 5.0]), np.array([1.0, -1.0, 0.4, 2.0])),
            "eye": (np.eye(3), np.array([0.2, 1.0, -3.0])), "zero": (A3, np.zeros(3)), "int": (np.array([[4, 1, 0], [1, 3, -1], [0, -1, 2]]), np.array([1, 2, -3])), "small": (1e-2 * A3, 1e-2 * np.array([1.0, 0.3, 0.2]))}


TYPES = {"array": lambda A: A.copy(), "matrix": lambda A: linops.Matrix(A.copy()), "csr": lambda A: scipy.sparse.csr_matrix(A), "sum": lambda A: linops.aslinop(0.25 * A) + linops.aslinop(0.75 * A),
         "scipyop": lambda A: scipy.sparse.linalg.aslinearoperator(A)}


def spd(n, k):
    B = np.array([[np.sin(1.3 * i + 0.7 * j * j + k) for j in range(n)] for i in range(n)])
    return 0.4 * (B @ B.T) + 0.6 * np.eye(n)


def priors(n, A, b):
    """name -> (kwargs, H0, W0, A0, V0, start, calibrates); None: to be read off the solver"""
    I, Af = np.eye(n), np.asarray(A, dtype=float)
    P = {"none": ({}, I, I, I, Af, b.astype(float), True)}
    x = np.linalg.solve(Af, b)
    v = np.array([0.7, -0.4, 1.3, 0.5])[:n]
    for nm, x0 in {"pos": v if v @ b >= 0 else -v, "neg": v if v @ b <= 0 else -v, "zero": np.zeros(n), "exact": x, "col": (v if v @ b >= 0 else -v)[:, None]}.items():
        z = x0.ravel()
        if not np.any(b):
            P["x0" + nm] = ({"x0": x0}, I, I, I, Af, np.zeros(n), True)
            continue
        y = z.copy()
        if y @ b < 0:
            y = -y
        elif y @ b == 0:
            y = (b @ b) / (b @ Af @ b) * b
        al = 0.5 * (y @ b) / (b @ b)
        d = y - al * b
        H0 = al * I + 2 / (y @ b) * np.outer(d, d)
        P["x0" + nm] = ({"x0": x0}, H0, H0, np.linalg.inv(H0), Af, z, True)
    H, W, M, V = spd(n, 1), spd(n, 2), spd(n, 3), spd(n, 4)
    for nm, f in {"array": np.copy, "op": linops.aslinop, "csr": scipy.sparse.csr_matrix}.items():
        P["inv" + nm] = ({"Ainv0": f(H)}, H, H, np.linalg.inv(H), Af, H @ b, True)
    sk = lambda S: linops.SymmetricKronecker(S)
    for nm, f in {"array": np.copy, "op": linops.aslinop}.items():
        P["invrv" + nm] = ({"Ainv0": randvars.Normal(f(H), sk(W))}, H, W, np.linalg.inv(H), Af, H @ b, False)
        P["rv" + nm] = ({"A0": randvars.Normal(f(M), sk(V))}, np.linalg.inv(M), np.linalg.inv(M), M, V, np.linalg.solve(M, b), False)
        P["both" + nm] = ({"A0": randvars.Normal(f(M), sk(V)), "Ainv0": randvars.Normal(f(H), sk(W))}, H, W, M, V, H @ b, False)
        P["mixed" + nm] = ({"A0": randvars.Normal(f(M), sk(V)), "Ainv0": f(H)}, H, H, M, V, H @ b, False)
    P["invx0"] = ({"Ainv0": H.copy(), "x0": v.copy()}, H, H, np.linalg.inv(H), Af, v if np.any(b) else np.zeros(n), True)
    return P


def items(tier):
    out = []
    for s in systems():
        for t in TYPES:
            if tier == "quick" and t != "array" and s != "diag4":
                continue
            A, b = systems()[s]
            for p in priors(len(b), A, b):
                if tier == "quick" and t != "array" and p not in ("none", "x0pos", "invarray", "invrvop", "bothop"):
                    continue
                out.append(["one", s, t, p, tier])
    out += [["multi", s, t, tier] for s in ("spd3", "spd2", "diag4", "int", "spd4") for t in TYPES if tier != "quick" or t == "array" or s == "diag4"]
    return out + [["guards"]]


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(sio.StringIO()):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


def dense(v):
    if isinstance(v, linops.LinearOperator):
        return v.todense()
    return v.toarray() if scipy.sparse.issparse(v) else np.asarray(v)


def condition(H0, W, S, Y):
    """law N(H0, W (x)s W) of symmetric H given H Y = S"""
    if S is None:
        return H0, W
    G = Y.T @ W @ Y
    U = np.linalg.solve(G, Y.T @ W).T
    D = S - H0 @ Y
    return H0 + D @ U.T + U @ D.T - U @ (Y.T @ D) @ U.T, W - U @ Y.T @ W


def null(V):
    return np.eye(V.shape[0]) - V @ np.linalg.pinv(V)


CALS = (None, False, 0.0, 1.0, 0.3, "adhoc", "weightedmean")


def run_one(item, ctx):
    _, s, t, pn, tier = item
    A, b = systems()[s]
    n = len(b)
    kw, H0, W0, A0, V0, start, cal = priors(n, A, b)[pn]
    xs = np.linalg.solve(A.astype(float), b)
    for c, mx, (at, rt), col in itertools.product(CALS, (0, 1, 2, None), ((1e-6, 1e-6), (0.3, 0.0), (0.0, 0.2)), (0, 1)):
        if c is not None and not cal and c != 1.0:
            continue
        if tier == "quick" and (at != 1e-6 and (c not in (None, 1.0) or mx == 2) or c in (False, 0.3) and mx == 0):
            continue
        if col and (c not in (None, 1.0) or at != 1e-6):
            continue
        W = f"{s} {t} prior={pn} calibration={c} maxiter={mx} tol={at},{rt} column={col}"
        ctx.state(s, t, pn, c, mx, at, rt, col)
        kw = priors(n, A, b)[pn][0]
        S, Y, H, R, X = [], [], H0, A @ start - b, start.astype(float)
        norm = {"it": 0}

        def lawcheck(w, x, Ak, Ik, done):
            SS, YY = (np.array(S[:done]).T, np.array(Y[:done]).T) if done else (None, None)
            wH, wW = condition(H0, W0, SS, YY)
            wA, wV = condition(A0, V0, YY, SS)
            tol = dict(rtol=1e-5, atol=1e-6)
            if c and cal and done:
                if isinstance(c, str):
                    lr = np.log(np.einsum("ij,ij->j", SS, YY)) - np.log((SS ** 2).sum(0))
                    if done > 2 and c == "weightedmean":
                        phi = np.exp(np.mean(lr * 0.9 ** np.arange(done)))
                    else:
                        phi = np.exp(lr[-1])
                else:
                    phi = c
                wV, wW = phi * null(SS), 1 / phi * null(YY)
            ctx.close(dense(Ik.mean), wH, w, msg="mean of the inverse", **tol)
            ctx.close(dense(Ak.mean), wA, w, msg="mean of the matrix", **tol)
            ctx.check(isinstance(Ik.cov, linops.SymmetricKronecker) and isinstance(Ak.cov, linops.SymmetricKronecker), w, "type of covariance")
            ctx.close(dense(Ik.cov.A), wW, w, msg="covariance factor of the inverse", **tol)
            ctx.close(dense(Ak.cov.A), wV, w, msg="covariance factor of the matrix", **tol)
            Wb = wW @ b
            wC = 0.5 * (wW * (b @ Wb) + np.outer(Wb, Wb))
            ctx.close(dense(x.cov), wC, w, msg="covariance of the solution", **tol)
            ctx.step(5)
            return wH, wC

        st = {"H": H0, "C": None}

        def callback(xk, Ak, Ainvk, sk, yk, alphak, resid):
            k = len(S)
            w = f"{W} iteration {k}"
            sk, yk = np.asarray(sk, dtype=float), np.asarray(yk, dtype=float)
            ctx.check(sk.shape == (n, 1) and yk.shape == (n, 1), w, "shape of action")
            r = A @ st["x"] - b
            ctx.close(sk.ravel(), -st["H"] @ r, w, rtol=1e-5, atol=1e-7, msg="action")
            ctx.close(yk, A @ sk, w, rtol=1e-10, atol=1e-12, msg="observation")
            S.append(sk.ravel())
            Y.append(yk.ravel())
            st["x"] = st["x"] + float(alphak) * sk.ravel()
            ctx.close(np.asarray(xk.mean).ravel(), st["x"], w, rtol=1e-8, atol=1e-9, msg="iterate")
            ctx.close(np.asarray(resid).ravel(), A @ st["x"] - b, w, rtol=1e-7, atol=1e-8, msg="residual")
            ctx.check(abs(S[-1] @ (A @ st["x"] - b)) <= 1e-7 * (1 + np.linalg.norm(S[-1])), w, "not the minimum along the action")
            for i in range(k):
                ctx.check(abs(S[i] @ A @ S[k]) <= 1e-6 * np.sqrt((S[i] @ A @ S[i]) * (S[k] @ A @ S[k])) + 1e-9, w, f"action not conjugate to action {i}")
            st["H"], st["C"] = lawcheck(w, xk, Ak, Ainvk, k + 1)
        st["x"] = X
        with ctx.no_error(W):
            bb = b.copy()[:, None] if col else b.copy()
            AA = TYPES[t](A)
            x, Ak, Ik, info = linalg.problinsolve(AA, bb, maxiter=mx, atol=at, rtol=rt, callback=callback, calibration=c, **kw)
            ctx.trace()
            k = len(S)
            ctx.check(info["iter"] == k, W, f"{info['iter']} iterations reported, {k} seen")
            M = 10 * n if mx is None else mx
            ctx.check(info["maxiter"] == M and k <= M, W, f"maxiter {info['maxiter']}")
            ctx.check(x.shape == bb.shape, W, f"shape {x.shape} for right-hand side {bb.shape}")
            ctx.close(np.asarray(x.mean).ravel(), st["x"], W, rtol=1e-10, atol=1e-12, msg="solution is not the last iterate")
            _, C = lawcheck(W, x, Ak, Ik, k)
            rn, bn, tr = np.linalg.norm(A @ st["x"] - b), np.linalg.norm(b), np.trace(C)
            ctx.close(info["resid_l2norm"], rn, W, rtol=1e-6, atol=1e-8, msg="residual norm")
            ctx.close(info["trace_sol_cov"], tr, W, rtol=1e-5, atol=1e-8, msg="trace of the covariance")
            near = lambda v, lim: abs(v - lim) <= 1e-6 * (1e-3 + lim)
            sd = np.sqrt(max(tr, 0.0))
            crit = info["conv_crit"]
            amb = near(rn, at) or near(rn, rt * bn) or near(sd, at) or near(sd, rt * bn)
            ctx.outcome(crit)
            if crit == "maxiter":
                ctx.check(k == M, W, f"stopped by maxiter after {k}")
            elif not amb:
                conds = [("resid_atol", rn <= at), ("resid_rtol", rn <= rt * bn), ("tracecov_atol", sd <= at), ("tracecov_rtol", sd <= rt * bn)]
                first = next((nm for nm, ok in conds if ok), None)
                ctx.check(crit == first, W, f"criterion {crit}, expected {first}")
            if crit != "maxiter" and at == 1e-6 and crit.startswith("resid"):
                ctx.close(np.asarray(x.mean).ravel(), xs, W, rtol=1e-3, atol=1e-3 if s == "small" else 1e-5, msg="solution")
            if mx is None and at == 1e-6:
                ctx.check(k <= n + 1, W, f"{k} iterations")
            ctx.check(np.array_equal(dense(TYPES[t](A)) if t != "scipyop" else A, dense(AA) if t != "scipyop" else AA @ np.eye(n)) and np.array_equal(bb.ravel(), b), W, "inputs changed")
            ctx.step(6)


def run_multi(item, ctx):
    _, s, t, tier = item
    A, b = systems()[s]
    n = len(b)
    v = np.array([0.5, -1.0, 2.0, 0.3])[:n]
    cols = {"b": b.astype(float), "v": v, "b2": 2.0 * b, "zero": np.zeros(n), "e": np.eye(n)[0]}
    H = spd(n, 1)
    for k in (2, 3):
        for cs in itertools.product(cols, repeat=k):
            for pn in ("none", "inv", "x0", "x0m"):
                if (pn != "none" or tier == "quick" and t != "array") and k == 3:
                    continue
                W = f"multi {s} {t} columns {cs} prior={pn}"
                ctx.state(s, t, cs, pn)
                B = np.array([cols[c] for c in cs]).T
                kw = {"none": {}, "inv": {"Ainv0": H.copy()}, "x0": {"x0": np.ones(n)}, "x0m": {"x0": np.ones((n, k))}}[pn]
                seen = []
                with ctx.no_error(W):
                    B0 = B.copy()
                    x, Ak, Ik, info = linalg.problinsolve(TYPES[t](A), B, callback=lambda **q: seen.append((np.array(q["sk"]).ravel(), np.array(q["yk"]).ravel())), **kw)
                    ctx.trace()
                    ctx.check(x.shape == B.shape and np.array_equal(B, B0), W, f"shape {x.shape}")
                    ctx.close(np.asarray(x.mean), dense(Ik.mean) @ B, W, rtol=1e-9, atol=1e-10, msg="mean is not the mean inverse times b")
                    for S, Y in seen:
                        ctx.close(dense(Ik.mean) @ Y, S, W, rtol=1e-5, atol=1e-6, msg="observation forgotten by the mean inverse")
                        ctx.close(dense(Ak.mean) @ S, Y, W, rtol=1e-5, atol=1e-6, msg="observation forgotten by the mean matrix")
                        ctx.close(dense(Ik.cov.A) @ Y, 0 * Y, W, rtol=0, atol=1e-6, msg="uncertainty in the explored space")
                        ctx.step()
                    Wf = dense(Ik.cov.A)
                    ctx.close(dense(x.cov), np.kron(Wf, B.T @ Wf @ B), W, rtol=1e-5, atol=1e-6, msg="covariance of the solutions")
                    ctx.check(info["iter"] <= n + 1, W, "iterations")
                    if "x0" not in pn:
                        ctx.close(np.asarray(x.mean), np.linalg.solve(A.astype(float), B), W, rtol=1e-4, atol=2e-5, msg="solutions")


def run_guards(item, ctx):
    A, b = systems()["spd3"]
    f = linalg.problinsolve
    N = lambda n: randvars.Normal(np.eye(n), linops.SymmetricKronecker(np.eye(n)))
    bad = [dict(A=A, b=np.ones(4)), dict(A=A[:2], b=b[:2]), dict(A=A[:, :2], b=b), dict(A=A, b=b, x0=np.ones(2)), dict(A=A, b=b, x0=np.ones((4, 1))), dict(A=A, b=b, Ainv0=np.eye(2)), dict(A=A, b=b, Ainv0=np.ones((3, 2))),
           dict(A=A, b=b, A0=N(2)), dict(A=A, b=b, Ainv0=N(4)), dict(A=A, b=b, A0=np.eye(3)), dict(A=A, b=b, A0=linops.Identity(3)), dict(A=A.tolist(), b=b), dict(A=A, b=b.tolist()), dict(A=A, b=b, x0=b.tolist()), dict(A=A, b=b, Ainv0=np.eye(3).tolist()),
           dict(A=A, b=b, A0=N(3), x0=randvars.Normal(np.zeros(3), np.eye(3))), dict(A=A, b=b, Ainv0=N(3), x0=randvars.Normal(np.zeros(3), np.eye(3))), dict(A=A, b=b, assume_A="foo"), dict(A=A, b=b, assume_A="sympos!"), dict(A=A, b=b, calibration=-1.0),
           dict(A=np.ones((2, 3)), b=np.ones(2))]
    for k, kw in enumerate(bad):
        ctx.state("bad", k)
        ctx.raises(lambda: f(**kw), f"guard {k} {sorted(kw)}", ValueError)
        ctx.step()
    for k, kw in enumerate([dict(assume_A="gen"), dict(assume_A="sym"), dict(assume_A="pos"), dict(assume_A="symposnoise"), dict(assume_A="noise"), dict(x0=randvars.Constant(np.ones((3, 1)))), dict(x0=randvars.Normal(np.zeros(3), np.eye(3)))]):
        ctx.state("notimpl", k)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.raises(lambda: f(A, b, **kw), f"unsupported {k} {kw}", NotImplementedError)
        ctx.step()
    for a in ("sympos", "possym", "SymPos", "SYMPOS"):
        with ctx.no_error(f"assume {a}"):
            ctx.close(np.asarray(f(A, b, assume_A=a)[0].mean), np.linalg.solve(A, b), f"assume {a}", rtol=1e-4)
            ctx.step()
    with ctx.no_error("symmetry from the prior"):
        ctx.close(np.asarray(f(A, b, assume_A="pos", Ainv0=N(3))[0].mean), np.linalg.solve(A, b), "symmetry from the prior", rtol=1e-4)
        ctx.close(np.asarray(f(A, b, assume_A="pos", A0=N(3))[0].mean), np.linalg.solve(A, b), "symmetry from the prior", rtol=1e-4)
    ctx.trace()
