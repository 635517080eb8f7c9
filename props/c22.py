"""C22: probabilistic linear solvers - every belief is the exact Gaussian conditional on the observations made so far."""
import itertools
import warnings
import numpy as np
import scipy.sparse
from probnum import linops, problems, randvars
from probnum.linalg import solvers as ls
from probnum.linalg.solvers import belief_updates as bu, beliefs as bl, information_ops as io, policies as pol, stopping_criteria as sc
from probnum.utils import linalg as ul
from mc import rvlib as rl

RULE = ("every solver family (solution-based, matrix-based, symmetric matrix-based) x system x matrix type x prior x every action sequence over the alphabet up to the depth bound (repeated and dependent actions included): "
        "after each step, belief over x, A, inverse equals dense Gaussian conditioning on all observations at once, residuals, actions, observations and counters are right; "
        "policies (conjugate gradients with every reorthogonalisation, random unit vectors under every script of draws) and stopping criteria against references; ready-made solvers end-to-end")
ASSUMPTIONS = ["systems of order <= 4 (3 for matrix-valued beliefs)", "action sequences of length <= 3 (thorough: 4)"]


def systems():
    A3 = np.array([[2.0, 0.4, -0.3], [0.4, 1.5, 0.2], [-0.3, 0.2, 1.0]])
    A4 = np.array([[3.0, 0.5, 0.0, -0.2], [0.5, 2.0, 0.7, 0.1], [0.0, 0.7, 1.5, 0.3], [-0.2, 0.1, 0.3, 1.0]])
    G3 = np.array([[1.0, -2.0, 0.5], [0.3, 1.2, 0.0], [-0.7, 0.4, 2.0]])
    return {"spd3": (A3, np.array([1.0, -0.5, 2.0])), "spd4": (A4, np.array([0.3, 1.0, -1.0, 0.6])), "gen3": (G3, np.array([1.0, 0.7, -0.2])),
            "spd2": (np.array([[2.0, 0.9], [0.9, 1.1]]), np.array([-1.0, 0.4])), "gen2": (np.array([[0.5, -1.3], [2.0, 0.4]]), np.array([1.0, 1.5])),
            "tiny3": (1e-6 * A3, 1e-6 * np.array([0.4, 1.0, -2.0])), "tinyg2": (1e-6 * np.array([[0.5, -1.3], [2.0, 0.4]]), 1e-6 * np.array([1.0, 1.5])),
            "diag3": (np.diag([1.0, 2.0, 5.0]), np.array([1.0, 1.0, 0.0])),
            "tall": (np.array([[1.0, 0.5], [0.2, -1.0], [0.7, 0.3]]), np.array([1.5, -0.8, 1.0])), "wide": (np.array([[1.0, 0.5, -0.3], [0.2, -1.0, 0.8]]), np.array([0.4, 1.0]))}


TYPES = {"array": lambda A: A.copy(), "matrix": lambda A: linops.Matrix(A.copy()), "csr": lambda A: scipy.sparse.csr_matrix(A), "sum": lambda A: linops.aslinop(0.25 * A) + linops.aslinop(0.75 * A)}


def spd(n, k):
    B = np.array([[np.sin(1.3 * i + 0.7 * j * j + k) for j in range(n)] for i in range(n)])
    return B @ B.T + 0.6 * np.eye(n)


def items(tier):
    out = []
    for s, (A, b) in systems().items():
        for t in TYPES:
            out.append(["sol", s, t, tier])
            if A.shape[0] == A.shape[1]:
                if not s.startswith("tiny"):
                    out.append(["cg", s, t])
                    out.append(["end", s, t])
                if A.shape[0] <= 3:
                    out.append(["mat", s, t, tier])
                    if np.allclose(A, A.T):
                        out.append(["sym", s, t, tier])
            out.append(["unit", s, t])
    out += [["crit"], ["state"], ["ortho"], ["guards"]]
    return out


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


class Script(pol.LinearSolverPolicy):
    def __init__(self, acts):
        self.acts = acts

    def __call__(self, solver_state, rng=None):
        return self.acts[solver_state.step].copy()


def dense(v):
    return v.todense() if isinstance(v, linops.LinearOperator) else np.asarray(v)


def condition(m, C, H, y, noise=0.0):
    """N(m, C) given H x = y (+ noise)"""
    if not len(H):
        return m, C
    G = H @ C @ H.T + noise * np.eye(len(H))
    K = C @ H.T @ np.linalg.pinv(G, rcond=1e-11, hermitian=True)
    return m + K @ (y - H @ m), C - K @ H @ C


def alphabet(n, rich=True):
    E = list(np.eye(n))
    E.append(np.array([1.0, -0.7, 0.4, 1.1])[:n])
    E.append(2.0 * E[0] - E[1])
    if rich:
        E.append(np.zeros(n))
    return E


def dependent(acts, A, C):
    """no exact information left in one of the (non-zero) actions"""
    V = [a / np.linalg.norm(a) for a in acts if np.any(a)]
    if not V:
        return False
    H = np.array(V) @ A
    ev = np.linalg.eigvalsh(H @ C @ H.T)
    return ev[0] <= 1e-6 * ev[-1]


def walk(ctx, W, S, prior, prob, A, acts, verify):
    st = None
    for k, st in enumerate(S.solve_iterator(prior=prior, problem=prob)):
        w = f"{W} step {k}"
        ctx.check(st.step == k, w, f"step {st.step}")
        verify(w, st, acts[:k])
        r = np.asarray(prob.b) - A @ np.asarray(st.belief.x.mean)
        ctx.close(st.residual, r, w, rtol=1e-8, atol=1e-8, msg="residual")
        ctx.check(len(st.actions) == len(st.observations) == len(st.residuals) == k + 1 and st.action is None and st.observation is None, w, "bookkeeping")
        for i in range(k):
            ctx.close(st.actions[i], acts[i], w, rtol=0, msg="recorded action")
        ctx.step(3)
    ctx.check(st.step == len(acts), W, f"ended at step {st.step}")
    ctx.trace()
    return st


def run_sol(item, ctx):
    _, s, t, tier = item
    A, b = systems()[s]
    m, n = A.shape
    depth = 3 if tier == "quick" else 4
    if t != "array":
        depth -= 1
    prob = problems.LinearSystem(A=TYPES[t](A), b=b.copy())
    AL = alphabet(m)
    covs = {"identity": (np.eye(n), linops.Identity(n)), "spd": (spd(n, 1), spd(n, 1)), "spdop": (spd(n, 2), linops.aslinop(spd(n, 2)))}
    if m == n and np.allclose(A, A.T):
        covs["inverse"] = (np.linalg.inv(A), np.linalg.inv(A))
    for (cn, (Cd, C)), noise, x0, ai in itertools.product(covs.items(), (0.0, 0.1), (0, 1), (0, 1)):
        if (noise or x0) and ai or (tier == "quick" and noise and not x0):
            continue
        m0 = np.zeros(n) if not x0 else np.array([0.5, -1.0, 0.2, 0.8])[:n]
        top = depth - (tier == "quick" and depth > 2 and (cn not in ("identity", "spd") or s == "spd4" and cn == "spd"))
        for L in range(1, top + 1):
            if L < top and L > 1:
                continue
            for ix in itertools.product(range(len(AL)), repeat=L):
                acts = [AL[i] for i in ix]
                if not noise and dependent(acts, A, Cd):
                    continue
                W = f"{s} {t} prior={cn} noise={noise} x0={x0} Ainv={ai} actions {ix}"
                ctx.state(s, t, cn, noise, x0, ai, ix)
                prior = bl.LinearSystemBelief(x=randvars.Normal(m0.copy(), C), Ainv=randvars.Constant(0.1 * np.eye(n)) if ai and m == n else None, A=randvars.Constant(A.copy()) if ai and m == n else None, b=randvars.Constant(b.copy()) if ai else None)
                S = ls.ProbabilisticLinearSolver(policy=Script(acts), information_op=io.ProjectedResidualInformationOp(), belief_update=bu.solution_based.ProjectedResidualBeliefUpdate(noise_var=noise), stopping_criterion=sc.MaxIterationsStoppingCriterion(L))

                def verify(w, st, done):
                    H = np.array([a @ A for a in done]).reshape(-1, n)
                    y = np.array([a @ b for a in done])
                    wm, wC = condition(m0, Cd, H, y, noise)
                    ctx.close(np.asarray(st.belief.x.mean), wm, w, rtol=1e-6, atol=1e-7, msg="mean of x")
                    ctx.close(dense(st.belief.x.cov), wC, w, rtol=1e-6, atol=1e-7, msg="covariance of x")
                with ctx.no_error(W):
                    st = walk(ctx, W, S, prior, prob, A, acts, verify)
                    ctx.check((st.belief.b is None) == (not ai) and (not ai or np.array_equal(np.asarray(st.belief.b.mean), b)), W, "belief about the right-hand side changed")
                    ctx.check((st.belief.A is None) == (not (ai and m == n)) and (not (ai and m == n) or np.array_equal(dense(st.belief.A.mean), A)), W, "belief about the matrix changed")
                    # observations: innovations
                    for i in range(L):
                        H = np.array([a @ A for a in acts[:i]]).reshape(-1, n)
                        wm, _ = condition(m0, Cd, H, np.array([a @ b for a in acts[:i]]), noise)
                        ctx.close(st.observations[i], acts[i] @ (b - A @ wm), W, rtol=1e-6, atol=1e-7, msg="observation")


def matlaw(rv):
    return np.asarray(dense(rv.mean)).ravel(), dense(rv.cov)


def run_mat(item, ctx, sym=False):
    _, s, t, tier = item
    A, b = systems()[s]
    n = A.shape[0]
    Ai = np.linalg.inv(A)
    depth = (2 if n == 3 else 3) + (tier != "quick")
    if t != "array":
        depth -= 1
    prob = problems.LinearSystem(A=TYPES[t](A), b=b.copy())
    AL = alphabet(n)
    if sym:
        AL = AL[:-1]
    mk = (lambda W1, W2: linops.SymmetricKronecker(W1)) if sym else (lambda W1, W2: linops.Kronecker(W1, W2))
    priors = {}
    I = np.eye(n)
    priors["identity"] = (I, mk(linops.Identity(n), linops.Identity(n)), I, mk(linops.Identity(n), linops.Identity(n)))
    M = 0.3 * spd(n, 5)
    priors["spd"] = (M, mk(linops.aslinop(spd(n, 1)), linops.aslinop(spd(n, 2))), np.linalg.inv(M), mk(linops.aslinop(spd(n, 3)), linops.aslinop(spd(n, 4))))
    if not sym:
        N = np.array([[0.4, 1.0, -0.2], [0.0, 0.7, 0.1], [0.3, 0.0, 1.1]])[:n, :n]
        priors["gen"] = (N, mk(linops.aslinop(spd(n, 1)), linops.Identity(n)), N.T, mk(linops.Identity(n), linops.aslinop(spd(n, 4))))
    U = bu.matrix_based.SymmetricMatrixBasedLinearBeliefUpdate() if sym else bu.matrix_based.MatrixBasedLinearBeliefUpdate()
    for (pn, (A0, CA, H0, CH)), giveb, asop in itertools.product(priors.items(), (0, 1), (0, 1)):
        if giveb and asop:
            continue
        # a symmetric Kronecker covariance describes symmetric matrices: only its action on them is determined
        P = 0.5 * (np.eye(n * n) + np.eye(n * n).reshape(n, n, n, n).transpose(1, 0, 2, 3).reshape(n * n, n * n)) if sym else np.eye(n * n)
        lawA, lawH = (A0.ravel(), P @ dense(CA) @ P), (H0.ravel(), P @ dense(CH) @ P)
        top = depth - (tier == "quick" and depth > 2 and asop)
        for L in (1, top) if top > 1 else (1,):
            for ix in itertools.product(range(len(AL)), repeat=L):
                acts = [AL[i] for i in ix]
                if dependent(acts, I, I):
                    continue
                W = f"{s} {t} sym={sym} prior={pn} b={giveb} op={asop} actions {ix}"
                ctx.state(s, t, sym, pn, giveb, asop, ix)
                f = linops.aslinop if asop else (lambda v: v.copy())
                prior = bl.LinearSystemBelief(A=randvars.Normal(f(A0), CA), Ainv=randvars.Normal(f(H0), CH), x=randvars.Normal(np.ones(n), np.eye(n)) if not giveb else None, b=randvars.Constant(b.copy()) if giveb else None)
                S = ls.ProbabilisticLinearSolver(policy=Script(acts), information_op=io.MatVecInformationOp(), belief_update=U, stopping_criterion=sc.MaxIterationsStoppingCriterion(L))

                def verify(w, st, done):
                    HA = np.vstack([np.kron(I, a) for a in done]) if done else np.zeros((0, n * n))
                    yA = np.concatenate([A @ a for a in done]) if done else np.zeros(0)
                    HH = np.vstack([np.kron(I, A @ a) for a in done]) if done else np.zeros((0, n * n))
                    yH = np.concatenate(done) if done else np.zeros(0)
                    got = {"A": matlaw(st.belief.A), "Ainv": matlaw(st.belief.Ainv)}
                    lawH_ = None
                    for q, law, H, y in (("A", lawA, HA, yA), ("Ainv", lawH, HH, yH)):
                        wm, wC = condition(law[0], law[1], H, y)
                        ctx.close(got[q][0], wm, w, rtol=1e-6, atol=1e-6, msg=f"mean of {q}")
                        ctx.close(P @ got[q][1] @ P, wC, w, rtol=1e-6, atol=1e-6, msg=f"covariance of {q}")
                        lawH_ = (wm, wC)
                    if done or giveb:
                        Hb = np.kron(I, b)
                        ctx.close(np.asarray(st.belief.x.mean), Hb @ lawH_[0], w, rtol=1e-6, atol=1e-6, msg="mean of the induced x")
                        ctx.close(dense(st.belief.x.cov), Hb @ (got["Ainv"][1] if sym else lawH_[1]) @ Hb.T, w, rtol=1e-6, atol=1e-6, msg="covariance of the induced x")
                    else:
                        ctx.close(np.asarray(st.belief.x.mean), np.ones(n), w, rtol=0, msg="prior mean of x")
                    ctx.step(4)
                with ctx.no_error(W):
                    st = walk(ctx, W, S, prior, prob, A, acts, verify)
                    for i in range(L):
                        ctx.close(st.observations[i], A @ acts[i], W, rtol=1e-12, atol=1e-13, msg="observation")
                    ctx.close(np.asarray(st.belief.b.mean), b, W, rtol=0, msg="right-hand side")


def run_sym(item, ctx):
    return run_mat(item, ctx, sym=True)


def run_cg(item, ctx):
    _, s, t = item
    A, b = systems()[s]
    n = A.shape[0]
    gs = {"none": None, "gs": ul.gram_schmidt, "mgs": ul.modified_gram_schmidt, "dgs": ul.double_gram_schmidt}
    spdA = np.allclose(A, A.T)
    for rr, ra, cn, x0, noise in itertools.product(gs, gs, ("identity", "inverse", "spd"), (0, 1), (0.0, 0.2)):
        if noise and (x0 or ra == "none"):
            continue
        if cn == "inverse" and not spdA:
            continue
        C = {"identity": np.eye(n), "inverse": np.linalg.inv(A), "spd": spd(n, 3)}[cn]
        m0 = np.zeros(n) if not x0 else np.array([0.5, -1.0, 0.2, 0.8])[:n]
        W = f"cg {s} {t} residual={rr} action={ra} prior={cn} x0={x0} noise={noise}"
        prob = problems.LinearSystem(A=TYPES[t](A), b=b.copy())
        prior = bl.LinearSystemBelief(x=randvars.Normal(m0.copy(), linops.aslinop(C)))
        P = pol.ConjugateGradientPolicy(reorthogonalization_fn_residual=gs[rr], reorthogonalization_fn_action=gs[ra])
        S = ls.ProbabilisticLinearSolver(policy=P, information_op=io.ProjectedResidualInformationOp(), belief_update=bu.solution_based.ProjectedResidualBeliefUpdate(noise_var=noise), stopping_criterion=sc.MaxIterationsStoppingCriterion(n) | sc.ResidualNormStoppingCriterion(atol=1e-7, rtol=1e-7))
        with ctx.no_error(W):
            res, acts, st = [], [], None
            for st in S.solve_iterator(prior=prior, problem=prob):
                ctx.state(W, st.step)
                res.append(np.array(st.residual))
            ctx.trace()
            acts = [np.asarray(a) for a in st.actions[: st.step]]
            IP = A @ C @ A.T
            ortho = []
            for k, a in enumerate(acts):
                r = res[k]
                if rr != "none" and k:
                    for o in ortho:
                        r = r - (o @ r) / (o @ o) * o
                ortho.append(r)
                if k == 0:
                    want = r
                else:
                    want = r + (r @ r) / (ortho[k - 1] @ ortho[k - 1]) * acts[k - 1]
                    if ra != "none":
                        v = want.copy()
                        for o in acts[:k]:
                            v = v - (o @ IP @ (want if ra == "gs" else v)) / (o @ IP @ o) * o
                        want = v
                ctx.close(a, want, f"{W} action {k}", rtol=1e-5, atol=1e-6, msg="action")
                ctx.step()
                if k:
                    ctx.close(st.observations[k], a @ res[k], f"{W} observation {k}", rtol=1e-7, atol=1e-9)
                if ra in ("mgs", "dgs"):
                    for j in range(k):
                        ctx.check(abs(acts[j] @ IP @ a) <= 1e-6 * max(1e-9, np.sqrt((acts[j] @ IP @ acts[j]) * (a @ IP @ a))) + 1e-9, f"{W} action {k}", f"not conjugate to action {j}")
            if cn == "inverse" and not noise:
                # conjugate gradients: A-conjugate directions, orthogonal residuals, exact in n steps
                ctx.check(np.linalg.norm(b - A @ np.asarray(st.belief.x.mean)) <= 1e-6, W, "not solved after n steps")
                x, r = m0.copy(), b - A @ m0
                p = r.copy()
                for k in range(st.step):
                    ctx.close(res[k], r, f"{W} iterate {k}", rtol=1e-5, atol=1e-6, msg="residual of conjugate gradients")
                    al = (r @ r) / (p @ A @ p)
                    x = x + al * p
                    rn = r - al * A @ p
                    p = rn + (rn @ rn) / (r @ r) * p
                    r = rn


def rows_script(n):
    return [(i + 0.5) / n for i in range(n)]


def run_unit(item, ctx):
    _, s, t = item
    A, b = systems()[s]
    m, n = A.shape
    rn = (A ** 2).sum(axis=1)
    probs = {"uniform": np.full(m, 1.0 / m), "rownorm": rn / rn.sum()}
    for pn, rep in itertools.product(probs, (True, False)):
        depth = min(m, 3)
        for us in itertools.product((0.02, 0.3, 0.5, 0.77, 0.99) if t == "array" else (0.02, 0.5, 0.99), repeat=depth):
            W = f"unit {s} {t} {pn} replace={rep} draws {us}"
            ctx.state(W)
            r = rl.ScriptRng()
            r.uscript = list(us)
            with ctx.no_error(W):
                prob = problems.LinearSystem(A=TYPES[t](A), b=b.copy())
                prior = bl.LinearSystemBelief(x=randvars.Normal(np.zeros(n), linops.Identity(n)))
                S = ls.ProbabilisticLinearSolver(policy=pol.RandomUnitVectorPolicy(probabilities=pn, replace=rep), information_op=io.ProjectedResidualInformationOp(), belief_update=bu.solution_based.ProjectedResidualBeliefUpdate(), stopping_criterion=sc.MaxIterationsStoppingCriterion(depth))
                belief, st = S.solve(prior=prior, problem=prob, rng=r)
                ctx.trace()
                r2 = rl.ScriptRng()
                r2.uscript = list(us)
                _, st2 = S.solve(prior=prior, problem=prob, rng=r2)
                ctx.check(all(np.array_equal(x, y) for x, y in zip(st.actions[:-1], st2.actions[:-1])), W, "second solve with the same solver acts differently")
                p, picked = probs[pn].copy(), []
                for k, u in enumerate(us):
                    i = min(int(np.searchsorted(np.cumsum(p), u, side="right")), m - 1)
                    near = np.min(np.abs(np.cumsum(p) - u)) < 1e-6
                    a = np.asarray(st.actions[k])
                    j = int(np.argmax(a))
                    ctx.check(a.shape == (m,) and a.sum() == 1.0 and set(np.unique(a)) <= {0.0, 1.0}, W, f"action {a}")
                    ctx.check(near or i == j, W, f"draw {u} picks row {j}, probabilities {p}")
                    picked.append(j)
                    if not rep:
                        p[j] = 0.0
                        p = p / p.sum()
                    ctx.step()
                ctx.check(rep or len(set(picked)) == depth, W, "row drawn twice without replacement")
                H, y = A[picked], b[picked]
                wm, wC = condition(np.zeros(n), np.eye(n), H, y)
                ctx.close(np.asarray(belief.x.mean), wm, W, rtol=1e-6, atol=1e-7, msg="mean")
                ctx.close(dense(belief.x.cov), wC, W, rtol=1e-6, atol=1e-7, msg="covariance")


def run_end(item, ctx):
    _, s, t = item
    A, b = systems()[s]
    n = A.shape[0]
    x = np.linalg.solve(A, b)
    spdA = np.allclose(A, A.T)
    kr = lambda: linops.Kronecker(linops.Identity(n), linops.Identity(n))
    sk = lambda: linops.SymmetricKronecker(linops.Identity(n))
    def prior(kind):
        X = randvars.Normal(np.zeros(n), linops.Identity(n) if kind != "inv" else linops.aslinop(np.linalg.inv(A)))
        if kind in ("x", "inv"):
            return bl.LinearSystemBelief(x=X)
        K = kr if kind == "mat" else sk
        return bl.LinearSystemBelief(x=X, A=randvars.Normal(linops.Identity(n), K()), Ainv=randvars.Normal(linops.Identity(n), K()))
    cases = [("kaczmarz", ls.ProbabilisticKaczmarz, "x", True)]
    if spdA:
        cases += [("bayescg", ls.BayesCG, "inv", True), ("bayescg", ls.BayesCG, "x", True), ("matrix", ls.MatrixBasedPLS, "mat", False), ("symmatrix", ls.SymMatrixBasedPLS, "sym", False)]
    for (nm, cls, kind, _), seed, z in itertools.product(cases, (1, 2), (0, 1, 2)):
        bb = [b, np.zeros(n), 1e-3 * b][z]
        W = f"end {nm} {s} {t} prior={kind} rhs={z} seed={seed}"
        ctx.state(W)
        with ctx.no_error(W):
            prob = problems.LinearSystem(A=TYPES[t](A), b=bb.copy())
            belief, st = cls().solve(prior=prior(kind), problem=prob, rng=np.random.default_rng(seed))
            ctx.trace()
            r = np.linalg.norm(bb - A @ np.asarray(belief.x.mean))
            ok = r <= 1e-5 * max(1.0, np.linalg.norm(bb)) * (1 + 1e-6) + 1e-9
            ctx.check(ok or st.step == 10 * n, W, f"stopped at step {st.step} with residual {r}")
            ctx.check(ok, W, f"residual {r} after {st.step} steps")
            ctx.check(z != 1 or st.step == 0, W, "zero right-hand side needs no step")
            if nm in ("bayescg",) and kind == "inv":
                ctx.check(st.step <= n, W, f"{st.step} steps")
            b2, st2 = cls().solve(prior=prior(kind), problem=prob, rng=np.random.default_rng(seed))
            ctx.check(st2.step == st.step and np.array_equal(np.asarray(b2.x.mean), np.asarray(belief.x.mean)), W, "not reproducible")
            ctx.check(np.array_equal(dense(TYPES[t](A) if t != "csr" else A), dense(prob.A) if t != "csr" else prob.A.toarray()), W, "matrix changed")
            ctx.step(3)


def run_crit(item, ctx):
    A, b = systems()["spd3"]
    for bs, xm, cov in itertools.product((0.0, 1e-4, 1.0, 1e3), (0.0, 1e-7, 1e-3, 1.0), (0.0, 1e-12, 1e-4, 1.0)):
        bb = bs * b
        x = np.linalg.solve(A, bb) + xm * np.array([1.0, 0, 0])
        for op in (0, 1):
            C = cov * np.eye(3)
            prior = bl.LinearSystemBelief(x=randvars.Normal(x, linops.aslinop(C) if op else C), Ainv=randvars.Normal(np.eye(3), linops.Kronecker(cov * np.eye(3), np.eye(3))), A=randvars.Normal(np.eye(3), linops.Kronecker(np.eye(3), cov * np.eye(3))))
            st = ls.LinearSolverState(problem=problems.LinearSystem(A=A, b=bb), prior=prior)
            W = f"criteria b={bs} error={xm} cov={cov} op={op}"
            ctx.state(W)
            r, nb = np.linalg.norm(bb - A @ x), np.linalg.norm(bb)
            with ctx.no_error(W):
                edge = [(v * f, 0.0) for v in (r,) for f in (1 - 1e-6, 1 + 1e-6)] + [(0.0, r / nb * f) for f in (1 - 1e-6, 1 + 1e-6) if nb > 0]
                edge += [(np.sqrt(k * cov) * f, 0.0) for k in (3, 9) for f in (1 - 1e-6, 1 + 1e-6)] + [(0.0, np.sqrt(k * cov) / nb * f) for k in (3, 9) for f in (1 - 1e-6, 1 + 1e-6) if nb > 0]
                for at, rt in itertools.chain(itertools.product((0.0, 1e-9, 1e-5, 0.5, 10.0), repeat=2), [e for e in edge if r > 1e-9]):
                    ctx.check(bool(sc.ResidualNormStoppingCriterion(atol=at, rtol=rt)(st)) == (r <= at or r <= rt * nb), W, f"residual norm atol={at} rtol={rt}")
                    for q, tr in (("x", 3 * cov), ("A", 9 * cov), ("Ainv", 9 * cov)):
                        near = any(abs(tr - v ** 2) <= 1e-9 * tr and tr > 0 for v in (at, rt * nb))
                        ctx.check(near or bool(sc.PosteriorContractionStoppingCriterion(qoi=q, atol=at, rtol=rt)(st)) == (tr <= at ** 2 or tr <= (rt * nb) ** 2), W, f"contraction of {q} atol={at} rtol={rt}")
                    ctx.step(4)
                for k in range(4):
                    for mx in (0, 1, 2, 3, None):
                        ctx.check(bool(sc.MaxIterationsStoppingCriterion(mx)(st)) == (k >= (30 if mx is None else mx)), W, f"maxiter {mx} at {k}")
                    if op:
                        break
                    st.action = np.ones(3)
                    st.observation = 0.0
                    st.next_step()
                ctx.trace()


def run_state(item, ctx):
    """all histories of state operations"""
    A, b = systems()["spd3"]
    for seq in itertools.product(("action", "obs", "belief", "residual", "next"), repeat=5):
        prior = bl.LinearSystemBelief(x=randvars.Normal(np.zeros(3), np.eye(3)))
        st = ls.LinearSolverState(problem=problems.LinearSystem(A=A, b=b), prior=prior)
        W = f"state {seq}"
        ctx.state(W)
        acts, obs, step, xb = [None], [None], 0, np.zeros(3)
        cur = {0: b.copy()}
        ok = True
        with ctx.no_error(W):
            for i, o in enumerate(seq):
                if o in ("action", "obs"):
                    lst = acts if o == "action" else obs
                    setter = (lambda v: setattr(st, "action", v)) if o == "action" else (lambda v: setattr(st, "observation", v))
                    v = np.full(3, float(i))
                    if lst[step] is None:
                        setter(v)
                        lst[step] = v
                    else:
                        ctx.raises(lambda: setter(v), W, AssertionError)
                elif o == "belief":
                    xb = np.array([1.0, 2.0, 3.0]) * (i + 1)
                    st.belief = bl.LinearSystemBelief(x=randvars.Normal(xb, np.eye(3)))
                elif o == "residual":
                    if step not in cur:
                        cur[step] = b - A @ xb
                    ctx.close(st.residual, cur[step], W, rtol=1e-12, msg="residual")
                else:
                    st.next_step()
                    step += 1
                    acts.append(None)
                    obs.append(None)
                ctx.check(st.step == step and len(st.actions) == step + 1 and all((x is None) == (y is None) and (x is None or np.array_equal(x, y)) for x, y in zip(st.actions, acts)), W, "actions")
                ctx.check(all((x is None) == (y is None) and (x is None or np.array_equal(x, y)) for x, y in zip(st.observations, obs)) and len(st.observations) == step + 1 == len(st.residuals), W, "observations")
                ctx.check(st.prior is prior, W, "prior changed")
                ctx.step()
            ctx.trace()


def run_ortho(item, ctx):
    for n, k, M, nrm, fn in itertools.product((2, 3, 4), (1, 2, 3), (None, "array", "op", "fn"), (False, True), ("gs", "mgs", "dgs", "dgs2")):
        if k >= n:
            continue
        C = spd(n, 2)
        ip = {None: None, "array": C, "op": linops.aslinop(C), "fn": lambda a, b: np.asarray(a @ C @ b)}[M]
        G = C if M else np.eye(n)
        B = []
        for i in range(k):
            v = np.eye(n)[i] + 0.3 * np.array([np.cos(1.7 * i + j) for j in range(n)])
            for u in B:
                v = v - (u @ G @ v) / (u @ G @ u) * u
            B.append(v)
        B = np.array(B)
        f = {"gs": ul.gram_schmidt, "mgs": ul.modified_gram_schmidt, "dgs": ul.double_gram_schmidt, "dgs2": lambda **kw: ul.double_gram_schmidt(gram_schmidt_fn=ul.gram_schmidt, **kw)}[fn]
        for j in range(4):
            v = np.array([np.sin(2.1 * j + 0.9 * i * i + 1) for i in range(n)])
            W = f"{fn} n={n} k={k} inner={M} normalize={nrm} v={j}"
            ctx.state(W)
            want = v.copy()
            for u in B:
                want = want - (u @ G @ v) / (u @ G @ u) * u
            if nrm:
                want = want / np.sqrt(want @ G @ want)
            with ctx.no_error(W):
                v0 = v.copy()
                for basis in (B, list(B)) + ((B[0],) if k == 1 else ()):
                    got = f(v=v, orthogonal_basis=basis, inner_product=ip, normalize=nrm)
                    ctx.close(got, want, W, rtol=1e-8, atol=1e-9, msg="orthogonalised vector")
                    ctx.check(np.array_equal(v, v0), W, "input changed")
                    ctx.step()
                ctx.trace()
                for A_ in (None, C, linops.aslinop(C)):
                    GG = np.eye(n) if A_ is None else C
                    ctx.close(ul.inner_product(v, B[0], A=A_), v @ GG @ B[0], W, rtol=1e-10, atol=1e-12, msg="inner product")
                    ctx.close(ul.induced_norm(v, A=A_), np.sqrt(v @ GG @ v), W, rtol=1e-10, msg="norm")
                    V = np.stack([v, B[0], v - B[0]])
                    ctx.close(ul.inner_product(V, V[::-1], A=A_), np.einsum("ki,ij,kj->k", V, GG, V[::-1]), W, rtol=1e-9, atol=1e-12, msg="stacked inner product")
                    ctx.close(ul.induced_norm(V, A=A_), np.sqrt(np.einsum("ki,ij,kj->k", V, GG, V)), W, rtol=1e-10, msg="stacked norm")
                    ctx.close(ul.induced_norm(V.T, A=A_, axis=0), np.sqrt(np.einsum("ki,ij,kj->k", V, GG, V)), W, rtol=1e-10, msg="norm along axis 0")


def run_guards(item, ctx):
    N, C = randvars.Normal, randvars.Constant
    n = 3
    x, Ai, A, b = N(np.zeros(n), np.eye(n)), C(np.eye(n)), C(np.eye(n)), C(np.ones(n))
    bad = [("nothing", dict()), ("only b", dict(b=b)), ("only A", dict(A=A)), ("A and x", dict(A=C(np.eye(4)), x=x)), ("A and Ainv", dict(A=C(np.eye(4)), Ainv=Ai)), ("A and b", dict(A=C(np.eye(4)), Ainv=C(np.eye(4)), b=b)),
           ("scalar x", dict(x=C(1.0))), ("scalar b", dict(x=x, b=C(1.0))), ("3-d b", dict(x=x, b=C(np.ones((n, 2, 2))))), ("3-d A", dict(x=x, A=C(np.ones((n, n, 2))))), ("3-d Ainv", dict(Ainv=C(np.ones((n, n, 2))))), ("3-d x", dict(x=C(np.ones((2, 2, 2))))), ("vector Ainv", dict(Ainv=x)), ("vector A", dict(x=x, A=x)), ("x and b columns", dict(x=C(np.ones((n, 2))), b=C(np.ones((n, 3))))), ("x vector, b matrix", dict(x=x, b=C(np.ones((n, 2)))))]
    for nm, k in bad:
        ctx.state(nm)
        ctx.raises(lambda: bl.LinearSystemBelief(**k), nm, Exception)
    for nm, k in (("x array", dict(x=np.zeros(n))), ("Ainv array", dict(Ainv=np.eye(n))), ("A array", dict(x=x, A=np.eye(n))), ("b array", dict(x=x, b=np.ones(n)))):
        ctx.state(nm)
        ctx.raises(lambda: bl.LinearSystemBelief(**k), nm, TypeError)
    ctx.raises(lambda: pol.RandomUnitVectorPolicy(probabilities="colnorm"), "probabilities", ValueError)
    ctx.raises(lambda: bu.solution_based.ProjectedResidualBeliefUpdate(noise_var=-1.0), "noise", ValueError)
    for U, K in ((bu.matrix_based.MatrixBasedLinearBeliefUpdate(), linops.SymmetricKronecker(np.eye(n))), (bu.matrix_based.SymmetricMatrixBasedLinearBeliefUpdate(), linops.Kronecker(np.eye(n), np.eye(n)))):
        M = N(np.eye(n), K)
        st = ls.LinearSolverState(problem=problems.LinearSystem(A=np.eye(n), b=np.ones(n)), prior=bl.LinearSystemBelief(x=x, A=M, Ainv=M))
        st.action, st.observation = np.ones(n), np.ones(n)
        ctx.raises(lambda: U(st), f"covariance {type(K).__name__}", ValueError)
    with ctx.no_error("hyperparameters"):
        h = bl.LinearSystemBelief(x=x, hyperparams={"noise": C(0.3)})
        ctx.check(float(h.hyperparameter("noise").mean) == 0.3, "hyperparameters", "lost")
        i = bl.LinearSystemBelief(Ainv=C(2 * np.eye(n)), b=b)
        ctx.close(np.asarray(i.x.mean), 2 * np.ones(n), "induced x")
        ctx.check(i.x is i.x, "induced x", "not cached")
