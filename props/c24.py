"""C24: shared building blocks - scoped configuration, algebra of functions, lists of random variables, matrix factors, argument normalisation."""
import itertools
import warnings
import numpy as np
import scipy.sparse
import scipy.sparse.linalg
import scipy.stats
import probnum
from probnum import functions, linops, randvars, utils
from probnum.randvars import _RandomVariableList
from probnum.utils import linalg as ul

RULE = ("every program of set / register / enter / leave / leave by exception operations on a configuration up to the depth bound against a stack machine; "
        "every expression tree over functions up to the depth bound evaluated on every batch shape; every history of list operations on lists of random variables; "
        "Cholesky-factor updates for every shape and rank; argument normalisation over all kinds of arguments")
ASSUMPTIONS = ["configuration contexts are left in reverse order of entry (with statements)", "one thread"]

Configuration = type(probnum.config)


def items(tier):
    out = [["config", i, 5 if tier == "quick" else 6] for i in range(len(CONFOPS))]
    out += [["global"], ["matmul"]]
    out += [["fun", si, so, tier] for si in range(len(INS)) for so in range(len(OUTS))]
    out += [["list", k, 3 if tier == "quick" else 4] for k in KINDS]
    out += [["chol", n] for n in (1, 2, 3, 4)] + [["args"], ["asrv"]]
    return out


def run(item, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return globals()["run_" + item[0]](item, ctx)


# ---------------------------------------------------------------- configuration
CONFOPS = [("set", "a", 1), ("set", "a", 2), ("set", "b", None), ("set", "zz", 1), ("reg", "a"), ("reg", "n"), ("set", "n", 7),
           ("in", (("a", 5),)), ("in", (("a", 6), ("b", 8))), ("in", (("b", 9), ("zz", 1))), ("in", (("n", 3),)), ("in", ()), ("new", (("a", 77),)), ("out",), ("exc",)]


class Boom(Exception):
    pass


def run_config(item, ctx):
    _, first, depth = item
    for rest in itertools.product(range(len(CONFOPS)), repeat=depth - 1):
        prog = [CONFOPS[first]] + [CONFOPS[i] for i in rest]
        # prune programs in which something leaves a context that was not entered
        lvl, ok = 0, True
        for o in prog:
            if o[0] == "in":
                lvl += 1
            elif o[0] in ("out", "exc"):
                lvl -= 1
                if lvl < 0:
                    ok = False
                    break
        if not ok:
            continue
        c = Configuration()
        c.register("a", 0, "option a")
        c.register("b", "x", "option b")
        model, default = {"a": 0, "b": "x"}, {"a": 0, "b": "x"}
        stack = []
        W = None

        def same(where):
            for k in ("a", "b", "n"):
                if k in model:
                    if getattr(c, k) != model[k]:
                        ctx.fail(f"config {prog}", f"{where}: option {k} is {getattr(c, k)!r}, should be {model[k]!r}")
                elif hasattr(c, k):
                    ctx.fail(f"config {prog}", f"{where}: option {k} exists")
            ctx.evals += 1
        try:
            for j, o in enumerate(prog):
                err = None
                want = None
                try:
                    if o[0] == "set":
                        if o[1] in model:
                            model[o[1]] = o[2]
                        else:
                            want = AttributeError
                        setattr(c, o[1], o[2])
                    elif o[0] == "reg":
                        if o[1] in model:
                            want = KeyError
                        else:
                            model[o[1]] = default[o[1]] = 42
                        c.register(o[1], 42, "d")
                    elif o[0] == "new":
                        c(**dict(o[1]))  # a context that is never entered
                    elif o[0] == "in":
                        bad = any(k not in model for k, _ in o[1])
                        if bad:
                            want = AttributeError
                            stack.append(None)
                        else:
                            stack.append({k: model[k] for k, _ in o[1]})
                            model.update(dict(o[1]))
                        cm = c(**dict(o[1]))
                        if not bad:
                            stack[-1] = (stack[-1], cm)
                        cm.__enter__()
                    else:
                        top = stack.pop()
                        if top is not None:
                            old, cm = top
                            model.update(old)
                            if o[0] == "out":
                                cm.__exit__(None, None, None)
                            else:
                                e = Boom()
                                try:
                                    swallowed = cm.__exit__(Boom, e, None)
                                    ctx.check(not swallowed, f"config {prog}", "exception swallowed")
                                except Boom:
                                    pass
                except Exception as e:  # noqa: BLE001
                    err = e
                if want is None and err is not None:
                    ctx.fail(f"config {prog}", f"operation {j} raised {type(err).__name__}: {err}")
                    break
                if want is not None and not isinstance(err, want):
                    ctx.fail(f"config {prog}", f"operation {j}: expected {want.__name__}, got {err!r}")
                    break
                same(f"after operation {j}")
                ctx.step()
        finally:
            while stack:
                top = stack.pop()
                if top is not None:
                    model.update(top[0])
                    top[1].__exit__(None, None, None)
            same("after leaving all contexts")
        ctx.state(tuple(sorted((k, repr(v)) for k, v in model.items())), tuple(o[0] for o in prog))
        ctx.trace()
    ctx.outcome("config")


def run_global(item, ctx):
    names = {"covariance_inversion_damping": 1e-12, "matrix_free": False, "lazy_matrix_matrix_matmul": True}
    c = probnum.config
    for k, v in names.items():
        ctx.check(getattr(c, k) == v, "global", f"default of {k}")
    for combo in itertools.product((None, 0.5, True, False), repeat=3):
        kw = {k: v for k, v in zip(names, combo) if v is not None}
        for exc in (False, True):
            ctx.state(combo, exc)
            with ctx.no_error(f"global {kw}"):
                try:
                    with c(**kw):
                        for k in names:
                            ctx.check(getattr(c, k) == kw.get(k, names[k]), f"global {kw}", f"inside: {k}")
                        if exc:
                            raise Boom
                except Boom:
                    ctx.check(exc, f"global {kw}", "exception")
                for k, v in names.items():
                    ctx.check(getattr(c, k) == v and type(getattr(c, k)) is type(v), f"global {kw}", f"not restored: {k}")
                ctx.step()
                ctx.trace()
    ctx.raises(lambda: c.__call__(unknown_option=1).__enter__(), "global", AttributeError)


def run_matmul(item, ctx):
    """lazy_matrix_matrix_matmul decides the kind of the product, never its value"""
    A, B = np.array([[1.0, 2.0], [3.0, -1.0]]), np.array([[0.5, 1.0], [2.0, 0.0]])
    for seq in itertools.product((True, False, None), repeat=3):
        W = f"matmul {seq}"
        ctx.state(seq)
        with ctx.no_error(W):
            X = linops.Matrix(A)
            want = A
            for lazy in seq:
                if lazy is None:
                    X = X @ linops.Matrix(B)
                else:
                    with probnum.config(lazy_matrix_matrix_matmul=lazy):
                        X = X @ linops.Matrix(B)
                    if lazy is False and isinstance(X, linops.Matrix):
                        ctx.outcome("eager")
                want = want @ B
                ctx.close(X.todense(), want, W, rtol=1e-12)
                ctx.step()
            ctx.trace()
        with ctx.no_error(W):
            with probnum.config(lazy_matrix_matrix_matmul=False):
                ctx.check(isinstance(linops.Matrix(A) @ linops.Matrix(B), linops.Matrix), W, "eager product is not a matrix")
            ctx.check(not isinstance(linops.Matrix(A) @ linops.Matrix(B), linops.Matrix), W, "lazy product is a matrix")


# ---------------------------------------------------------------- functions
INS = [(), (2,), (2, 3), (1,)]
OUTS = [(), (3,), (2, 2), (1,)]


def leaf(si, so, k):
    nin = len(si)

    def raw(x):
        x = np.asarray(x, dtype=float)
        s = x.reshape(x.shape[: x.ndim - nin] + (int(np.prod(si)),))
        v = np.sin(s * (k + 1)).sum(-1) + 0.3 * k * s[..., 0] ** 2
        w = np.cos(np.arange(int(np.prod(so))) * 0.7 + k).reshape(so)
        return v[(...,) + (None,) * len(so)] * w
    return raw


def run_fun(item, ctx):
    _, i, o, tier = item
    si, so = INS[i], OUTS[o]
    batches = [(), (4,), (2, 3), (1,), (0,)]
    raw = [leaf(si, so, k) for k in range(3)]
    F = functions.LambdaFunction
    zero = lambda x: np.zeros(np.asarray(x).shape[: np.ndim(x) - len(si)] + so)
    L = [(F(r, input_shape=si, output_shape=so), r, f"f{k}") for k, r in enumerate(raw[: 2 if tier == "quick" else 3])]
    L.append((functions.Zero(input_shape=si, output_shape=so), zero, "0"))
    un = [("-{}", lambda f: -f, lambda r: lambda x: -r(x))]
    for c in (2.0, 0, -1, np.float64(0.5), np.array(1.5)):
        un.append((f"{c!r}*{{}}", lambda f, c=c: c * f, lambda r, c=c: lambda x: c * r(x)))
        un.append((f"{{}}*{c!r}", lambda f, c=c: f * c, lambda r, c=c: lambda x: c * r(x)))
    bi = [("({}+{})", lambda f, g: f + g, lambda r, s: lambda x: r(x) + s(x)), ("({}-{})", lambda f, g: f - g, lambda r, s: lambda x: r(x) - s(x))]

    def grow(S, T):
        out = []
        for (f, r, n) in S:
            for nm, op, ro in un:
                out.append((lambda f=f, op=op: op(f), ro(r), nm.format(n)))
        for (f, r, n), (g, s, m) in itertools.product(S, T):
            for nm, op, ro in bi:
                out.append((lambda f=f, g=g, op=op: op(f, g), ro(r, s), nm.format(n, m)))
                if S is not T:
                    out.append((lambda f=f, g=g, op=op: op(g, f), ro(s, r), nm.format(m, n)))
        return out

    def verify(th, r, n):
        W = f"function {si}->{so}: {n}"
        ctx.state(si, so, n)
        with ctx.no_error(W):
            f = th()
            ctx.check(isinstance(f, functions.Function), W, f"is a {type(f)}")
            ctx.check(f.input_shape == si and f.output_shape == so and f.input_ndim == len(si) and f.output_ndim == len(so), W, "shapes")
            for b in batches:
                x = np.sin(np.arange(int(np.prod(b + si))) + 0.4).reshape(b + si)
                x0 = x.copy()
                v = f(x)
                ctx.check(np.shape(v) == b + so, W, f"shape {np.shape(v)} for batch {b}")
                ctx.close(v, r(x), W, rtol=1e-12, atol=1e-13)
                ctx.check(np.array_equal(x, x0), W, "input changed")
                ctx.step()
            ctx.trace()
            return f
        return None
    lvl1 = []
    for th, r, n in grow(L, L):
        f = verify(th, r, n)
        if f is not None:
            lvl1.append((f, r, n))
    for th, r, n in grow(lvl1, L if tier == "quick" else L):
        verify(th, r, n)
    # two compound operands
    pick = lvl1[:: (5 if tier == "quick" else 1)]
    for (f, r, n), (g, s, m) in itertools.product(pick, pick):
        for nm, op, ro in bi:
            verify(lambda: op(f, g), ro(r, s), nm.format(n, m))
    f = L[0][0]
    for (sj, sp) in itertools.product(INS, OUTS):
        if (sj, sp) != (si, so):
            for g in (F(leaf(sj, sp, 1), input_shape=sj, output_shape=sp), functions.Zero(input_shape=sj, output_shape=sp)):
                for h in (f, L[-1][0], f + L[1][0]):
                    for op in (lambda: h + g, lambda: h - g, lambda: g + h, lambda: g - h):
                        ctx.raises(op, f"function {si}->{so} with {sj}->{sp}", ValueError)
                        ctx.step()
    for bad in ((5,) + si[1:], si + (5,), si[:-1] if len(si) else (7,)):
        if len(si) == 0:
            continue
        for h in (f, L[-1][0], f + f, 2.0 * f):
            ctx.raises(lambda: h(np.zeros(bad)), f"function {si}->{so} at shape {bad}", ValueError)
    for bad in (1, 2.0, "x", None, np.ones(3)):
        for op in (lambda: f + bad, lambda: f - bad):
            if not (isinstance(bad, np.ndarray)):
                ctx.raises(op, f"function {si}->{so} plus {bad!r}", TypeError)
    ctx.raises(lambda: functions.SumFunction(f, 2.0), "sum", TypeError)
    ctx.raises(lambda: functions.ScaledFunction(2.0, 2.0), "scaled", TypeError)
    ctx.raises(lambda: functions.ScaledFunction(f, np.ones(2)), "scaled", ValueError)


# ---------------------------------------------------------------- lists
KINDS = ["normal", "scalar", "categorical", "mixed"]


def run_list(item, ctx):
    _, kind, depth = item
    N = randvars.Normal
    if kind == "normal":
        pool = [N(np.array([1.0, i]), (i + 1) * np.eye(2)) for i in range(3)]
    elif kind == "scalar":
        pool = [N(float(i), 0.5 + i) for i in range(3)]
    elif kind == "categorical":
        pool = [randvars.Categorical(probabilities=np.array([0.25, 0.75]) if i % 2 else np.array([0.5, 0.5]), support=np.array([[1.0, i], [2.0, -i]])) for i in range(3)]
    else:
        pool = [N(np.array([1.0, 2.0]), np.eye(2)), randvars.Constant(np.array([3.0, 4.0])), N(np.array([0.0, -1.0]), 2 * np.eye(2))]
    attrs = {"categorical": ("mode", "support", "probabilities")}.get(kind, ("mean", "cov", "var", "std", "mode"))
    ops = [("append", lambda l: l.append(pool[1])), ("extend", lambda l: l.extend([pool[2], pool[0]])), ("insert", lambda l: l.insert(0, pool[2])), ("pop", lambda l: l.pop() if l else None),
           ("set", lambda l: l.__setitem__(0, pool[2]) if l else None), ("del", lambda l: l.__delitem__(0) if l else None), ("reverse", lambda l: l.reverse()), ("clear", lambda l: l.clear()), ("slice", None), ("step", None), ("read", lambda l: None)]
    for n0, seq in itertools.product((0, 1, 3), itertools.product(range(len(ops)), repeat=depth)):
        W = f"list {kind} start {n0}: {[ops[i][0] for i in seq]}"
        ctx.state(kind, n0, seq)
        with ctx.no_error(W):
            l, m = _RandomVariableList(list(pool[:n0])), list(pool[:n0])
            for i in (None,) + seq:
                if i is not None:
                    if ops[i][0] == "slice":
                        l, m = l[1:], m[1:]
                    elif ops[i][0] == "step":
                        l, m = l[::-2], m[::-2]
                    else:
                        ops[i][1](l), ops[i][1](m)
                ctx.check(isinstance(l, _RandomVariableList) and len(l) == len(m) and all(a is b for a, b in zip(l, m)), W, "elements")
                for a in attrs:
                    v = getattr(l, a)
                    want = np.stack([getattr(r, a) for r in m]) if m else np.array([])
                    if not (np.shape(v) == want.shape and np.allclose(v, want)):
                        ctx.fail(W, f"{a} does not describe the elements")
                ctx.evals += 1
                if m and kind != "categorical":
                    ctx.check(l.shape == (len(m),) + np.shape(m[0].mean), W, "shape")
                ctx.step()
            ctx.trace()
    if kind == "categorical":
        for n, sd in itertools.product((0, 1, 2, 3), range(4)):
            W = f"resample {n} variables seed {sd}"
            ctx.state(W)
            with ctx.no_error(W):
                g1, g2 = np.random.default_rng(sd), np.random.default_rng(sd)
                r, want = _RandomVariableList(list(pool[:n])).resample(rng=g1), [p.resample(rng=g2) for p in pool[:n]]
                ctx.check(isinstance(r, _RandomVariableList) and len(r) == n and all(np.array_equal(a.support, b.support) and np.array_equal(a.probabilities, b.probabilities) for a, b in zip(r, want)), W, "resampled list")
                ctx.step(n)
    for bad, e in ((pool[0], TypeError), ((pool[0],), TypeError), ([1.0], TypeError), (np.zeros(2), TypeError)):
        ctx.raises(lambda: _RandomVariableList(bad), f"list from {type(bad)}", e)


# ---------------------------------------------------------------- factors
def run_chol(item, ctx):
    n = item[1]
    def fac(k, r, z):
        M = np.array([[np.sin(1.1 * i + 2.3 * j + r) for j in range(k)] for i in range(n)]).reshape(n, k)
        if z == 1 and k:
            M[:, -1] = 0.0
        if z == 2:
            M[0, :] = 0.0
        if z == 3 and k > 1:
            M[:, 1] = M[:, 0]
        if z == 4:
            M = np.zeros((n, k))
        return M
    for k1, k2, z1, z2 in itertools.product((1, 2, 3, 4, 6), (None, 1, 2, 3, 4, 6), range(5), range(5)):
        if k2 is None and z2:
            continue
        A = fac(k1, 0, z1)
        B = None if k2 is None else fac(k2, 1, z2)
        W = f"cholesky update n={n} columns {k1},{k2} kinds {z1},{z2}"
        ctx.state(n, k1, k2, z1, z2)
        with ctx.no_error(W):
            A0 = A.copy()
            Lo = ul.cholesky_update(A) if B is None else ul.cholesky_update(A, B)
            want = A @ A.T + (0 if B is None else B @ B.T)
            ctx.check(Lo.shape == (n, n), W, f"shape {Lo.shape}")
            ctx.close(Lo @ Lo.T, want, W, rtol=1e-9, atol=1e-12)
            ctx.check(np.array_equal(Lo, np.tril(Lo)) and np.all(np.diag(Lo) >= 0), W, "not a lower triangular factor with non-negative diagonal")
            ctx.check(np.array_equal(A, A0), W, "input changed")
            ctx.step()
            ctx.trace()
    for signs in itertools.product((-1.0, 0.0, 1.0), repeat=n):
        T = np.tril(np.array([[np.cos(i + 2 * j) for j in range(n)] for i in range(n)]))
        T[np.diag_indices(n)] = np.array(signs) * (1.0 + np.arange(n))
        P = ul.tril_to_positive_tril(T)
        W = f"tril_to_positive_tril {signs}"
        ctx.state(W)
        ctx.close(P @ P.T, T @ T.T, W, rtol=1e-12)
        ctx.check(np.all(np.diag(P) >= 0) and np.array_equal(P, np.tril(P)), W, "diagonal")
        ctx.step()


def run_args(item, ctx):
    good = [(3, (3,)), (np.int64(3), (3,)), ((), ()), ((2, 3), (2, 3)), ([2, 3], (2, 3)), (np.array([2, 3]), (2, 3)), ((np.int32(2), 3), (2, 3)), (np.array([4]), (4,)), (True, (1,))]
    for x, want in good:
        for nd in (None, len(want), len(want) + 1, np.int64(len(want))):
            W = f"as_shape({x!r}, {nd})"
            ctx.state(W)
            if nd is not None and nd != len(want):
                ctx.raises(lambda: utils.as_shape(x, ndim=nd), W, TypeError)
            else:
                with ctx.no_error(W):
                    got = utils.as_shape(x, ndim=nd)
                    ctx.check(got == want and isinstance(got, tuple) and all(type(v) in (int, bool) for v in got), W, f"{got!r}")
            ctx.step()
    for x in (2.5, "ab", None, (2, 3.0), [1.5], object()):
        ctx.raises(lambda: utils.as_shape(x), f"as_shape({x!r})", TypeError)
    for x in (1, 2.5, np.float32(1.5), np.array(3), True, 1 + 2j):
        for dt in (None, np.float64, np.complex128):
            if isinstance(x, complex) and dt is np.float64:
                continue
            with ctx.no_error("as_numpy_scalar"):
                v = utils.as_numpy_scalar(x, dtype=dt)
                ctx.check(np.ndim(v) == 0 and v == x and (dt is None or v.dtype == dt), f"as_numpy_scalar({x!r}, {dt})", repr(v))
                ctx.step()
    for x in ([1], np.ones(1), (1, 2), np.ones((1, 1))):
        ctx.raises(lambda: utils.as_numpy_scalar(x), f"as_numpy_scalar({x!r})", ValueError)
    for s in ((3,), (3, 1), (3, 2), (1,), (2, 3, 4)):
        x = np.arange(float(np.prod(s))).reshape(s)
        with ctx.no_error(f"as_colvec {s}"):
            v = utils.as_colvec(x)
            ctx.check(v.shape == ((s[0], 1) if len(s) == 1 else s) and np.array_equal(v.ravel(), x.ravel()), f"as_colvec {s}", f"{v.shape}")
            if len(s) == 1 or s[1:] == (1,):
                n = s[0]
                for rv in (randvars.Normal(x, np.diag(1.0 + np.arange(n))), randvars.Constant(x)):
                    r = utils.as_colvec(rv)
                    ctx.check(r.shape == (n, 1) and np.array_equal(np.ravel(r.mean), x.ravel()) and np.array_equal(np.reshape(r.cov, (n, n)), np.reshape(rv.cov, (n, n))), f"as_colvec of {rv}", f"{r.shape}")
            ctx.step()
    for xs in itertools.product((np.array(1.0), np.ones(2), np.ones((2, 2)), scipy.sparse.eye(2)), repeat=2):
        with ctx.no_error("atleast_1d"):
            r = utils.atleast_1d(*xs)
            ctx.check(len(r) == 2 and all((scipy.sparse.issparse(x) and y is x) or (y.ndim >= 1 and np.array_equal(np.atleast_1d(x), y)) for x, y in zip(xs, r) if not scipy.sparse.issparse(x) or True), "atleast_1d", "values") if not any(scipy.sparse.issparse(x) for x in xs) else ctx.check(len(r) == 2, "atleast_1d", "length")
            one = utils.atleast_1d(xs[0])
            ctx.check(not isinstance(one, list), "atleast_1d", "single argument")
            ctx.step()
    ctx.trace()


def run_asrv(item, ctx):
    A = np.array([[1.0, 2.0], [3.0, 4.0]])
    v = np.array([2.0, -1.0])
    ops = [("array", A), ("csr", scipy.sparse.csr_matrix(A)), ("coo", scipy.sparse.coo_matrix(A)), ("op", linops.Matrix(A)), ("scipyop", scipy.sparse.linalg.aslinearoperator(A)), ("sum", linops.Matrix(0.5 * A) + linops.Matrix(0.5 * A))]
    for nm, M in ops:
        with ctx.no_error(f"aslinop {nm}"):
            ctx.state(nm)
            L = linops.aslinop(M)
            ctx.check(isinstance(L, linops.LinearOperator) and L.shape == (2, 2) and L.dtype == np.float64, f"aslinop {nm}", "shape")
            ctx.check(not isinstance(M, linops.LinearOperator) or L is M, f"aslinop {nm}", "operator not returned as is")
            ctx.close(L.todense(), A, f"aslinop {nm}", rtol=0)
            ctx.close(L @ v, A @ v, f"aslinop {nm}", rtol=1e-14)
            ctx.close(L @ np.stack([A, 2 * A]), A @ np.stack([A, 2 * A]), f"aslinop {nm}", rtol=1e-14)
            r = randvars.asrandvar(M)
            ctx.check(isinstance(r, randvars.Constant), f"asrandvar {nm}", f"{type(r)}")
            S = r.support
            S = S.todense() if isinstance(S, linops.LinearOperator) or scipy.sparse.issparse(S) else S
            ctx.close(np.asarray(S), A, f"asrandvar {nm}", rtol=0)
            ctx.step(3)
    for s in (1, 2.5, np.float32(0.5), v, True):
        with ctx.no_error(f"asrandvar {s!r}"):
            r = randvars.asrandvar(s)
            ctx.check(isinstance(r, randvars.Constant) and np.array_equal(r.support, s) and r.shape == np.shape(s), f"asrandvar {s!r}", "value")
            ctx.step()
    for r in (randvars.Constant(v), randvars.Normal(v, np.eye(2))):
        ctx.check(randvars.asrandvar(r) is r, "asrandvar of a random variable", "copied")
    laws = [scipy.stats.norm(loc=1.0, scale=2.0), scipy.stats.multivariate_normal(mean=v, cov=np.array([[2.0, 0.3], [0.3, 1.0]])), scipy.stats.uniform(loc=1.0, scale=3.0), scipy.stats.gamma(2.0, scale=0.5), scipy.stats.bernoulli(0.3), scipy.stats.beta(2.0, 3.0)]
    for k, d in enumerate(laws):
        with ctx.no_error(f"asrandvar of scipy law {k}"):
            r = randvars.asrandvar(d)
            if k == 1:
                ctx.close(r.mean, v, "multivariate normal", rtol=1e-12)
                ctx.close(r.cov, d.cov if hasattr(d, "cov") else np.array([[2.0, 0.3], [0.3, 1.0]]), "multivariate normal", rtol=1e-12)
                ctx.close(r.logpdf(np.zeros(2)), d.logpdf(np.zeros(2)), "multivariate normal", rtol=1e-8)
            else:
                ctx.close(np.squeeze(r.mean), d.mean(), f"law {k}", rtol=1e-12, msg="mean")
                ctx.close(np.squeeze(r.var), d.var(), f"law {k}", rtol=1e-12, msg="variance")
                for x in (0.0, 0.3, 1.0, 2.0):
                    ctx.close(np.squeeze(r.cdf(x)), d.cdf(x), f"law {k}", rtol=1e-8, atol=1e-12, msg="cdf")
                    if k == 4:
                        ctx.close(np.squeeze(r.pmf(x)), d.pmf(x), f"law {k}", rtol=1e-10, msg="pmf")
                    else:
                        ctx.close(np.squeeze(r.pdf(x)), d.pdf(x), f"law {k}", rtol=1e-10, atol=1e-14, msg="pdf")
            ctx.step(4)
    for bad in ("x", None, [1, 2], object()):
        if not np.isscalar(bad):
            ctx.raises(lambda: randvars.asrandvar(bad), f"asrandvar {bad!r}", ValueError)
    for bad in ("x", None, [1, 2], 3.0):
        ctx.raises(lambda: linops.aslinop(bad), f"aslinop {bad!r}", TypeError)
    ctx.trace()
