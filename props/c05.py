"""C05: indexing, reshaping and transposing a random variable is the same operation on its values."""
import itertools
import numpy as np
from probnum import linops, randvars
from mc import rvlib as rl

RULE = ("state machine: every random variable (Gaussian in every covariance representation, constant, categorical, generic with "
        "user-supplied callables) x every structural operation (all index keys of a key alphabet per axis incl. short keys, Ellipsis, "
        "slices, index arrays, masks; every reshape target; every axis permutation) and all two-step sequences; result law/samples "
        "compared with the same numpy operation on values; non-trivial = distinct (shape, operation sequence)")
ASSUMPTIONS = ["dims <= 3 per axis, at most 2 axes (3 for generic variables)"]

SHAPES = [(), (1,), (2,), (3,), (4,), (2, 2), (2, 3), (1, 3), (3, 1)]


def axis_keys(n, small=False):
    if small:
        return [0, -1, slice(1, None), slice(None, None, -1)] + ([[n - 1, 0, 0]] if n > 1 else [])
    ks = [0, -1, slice(None), slice(1, None), slice(None, None, -1), slice(None, 1)]
    if n > 1:
        ks += [1, [0, n - 1], [n - 1, 0, 0], np.arange(n) % 2 == 0, slice(None, None, 2)]
    return ks


def keys(shape, small=False):
    if shape == ():
        return [(), Ellipsis, (Ellipsis,)]
    out = [Ellipsis, ()]
    out += axis_keys(shape[0], small)
    if len(shape) == 1:
        out += [(Ellipsis, k) for k in axis_keys(shape[0], small)]
    else:
        out += [(Ellipsis, k) for k in axis_keys(shape[-1], small)] + [(k, Ellipsis) for k in axis_keys(shape[0], small)]
        adv = (list, np.ndarray)
        for a in axis_keys(shape[0], small):
            for b in axis_keys(shape[1], small):
                if isinstance(a, adv) and isinstance(b, adv):
                    continue
                out.append((a, b))
        out.append(np.arange(shape[0] * shape[1]).reshape(shape[:2]) % 2 == 0)
        out.append(([0, -1], [0, -1]))
    return out


def reshapes(shape):
    n = int(np.prod(shape)) if shape else 1
    out = [(n,), (n, 1), (1, n), (-1,), (-1, 1)]
    for a in range(2, n):
        if n % a == 0:
            out += [(a, n // a), (-1, n // a)]
    if n == 1:
        out.append(())
    return out


def transposes(shape):
    k = len(shape)
    out = [("T",), ("()",)]
    for p in itertools.permutations(range(k)):
        out.append(("args",) + p)
        out.append(("tuple",) + p)
        if k == 2:
            out.append(("args",) + tuple(a - k for a in p))
            out.append(("args", p[0], p[1] - k))
        if k == 3:
            for sg in itertools.product([0, -3], repeat=3):
                out.append(("args",) + tuple(a + s for a, s in zip(p, sg)))
            out.append(("tuple",) + tuple(a - k for a in p))
    return out


def ops(shape, small=False):
    for k in keys(shape, small):
        yield ["idx", k]
    for r in reshapes(shape):
        yield ["reshape", r]
    for t in transposes(shape):
        yield ["T", t]


def on_array(op, a):
    if op[0] == "idx":
        return a[op[1]]
    if op[0] == "reshape":
        return a.reshape(op[1])
    t = op[1]
    if t[0] in ("T", "()"):
        return a.T
    return a.transpose(*t[1:]) if t[0] == "args" else a.transpose(tuple(t[1:]))


def on_rv(op, x):
    if op[0] == "idx":
        return x[op[1]]
    if op[0] == "reshape":
        return x.reshape(op[1])
    t = op[1]
    if t[0] == "T":
        return x.T
    if t[0] == "()":
        return x.transpose()
    return x.transpose(*t[1:]) if t[0] == "args" else x.transpose(tuple(t[1:]))


def sh(op):
    return str(op).replace("array(", "(")


def push(law, op):
    idx = on_array(op, np.arange(law.mean.size).reshape(law.shape))
    f = np.asarray(idx).ravel()
    return rl.Law(law.mean.ravel()[f].reshape(np.shape(idx)), law.cov[np.ix_(f, f)])


def items(tier):
    out = []
    for s in SHAPES:
        for k in rl.kinds(s):
            out.append(["N", list(s), k, tier])
        out.append(["C", list(s), "", tier])
        out.append(["G", list(s), "", tier])
    out.append(["G", [2, 3, 2], "", tier])
    out.append(["C", [2, 3, 2], "", tier])
    out.append(["C", [1, 2, 3], "", tier])
    out.append(["K", [], "", tier])
    out.append(["K", [2], "", tier])
    return out


def gen_rv(shape):
    """generic random variable given by callables (samples m + L z)"""
    n = int(np.prod(shape)) if shape else 1
    C = rl.spd(n, 1)
    Lc = np.linalg.cholesky(C)
    m = rl.gen(*shape, s=2) if shape else np.float64(0.4)

    def sample(rng, size):
        z = rng.standard_normal(size + (n,))
        return np.asarray(m + (z @ Lc.T).reshape(size + shape))
    rv = randvars.RandomVariable(shape=shape, dtype=float, sample=sample, mean=lambda: np.asarray(m)[()].copy() if shape else np.float64(m),
                                 cov=lambda: C.copy() if shape else np.float64(C[0, 0]), mode=lambda: np.array(m)[()] if shape else np.float64(m),
                                 var=lambda: np.diag(C).reshape(shape).copy() if shape else np.float64(C[0, 0]))
    return rv, rl.Law(m, C)


def run(item, ctx):
    cls, shape, kind, tier = item[0], tuple(item[1]), item[2], item[3]
    if cls == "K":
        return run_cat(shape, ctx)
    if cls == "N":
        tol = 3e-5 if kind == "f32" else 1e-8
        mk = lambda: rl.normal(kind, shape)
        two = kind in ("dense", "lmat", "lkron") or tier == "thorough"
    elif cls == "C":
        v = rl.gen(*shape, s=1) if shape else np.float64(0.3)
        mk = lambda: (randvars.Constant(v), rl.Law(v, np.zeros((v.size, v.size))))
        tol, two = 1e-9, True
    else:
        mk = lambda: gen_rv(shape)
        tol, two = 1e-8, True
    base_rv, base_law = mk()

    def one(rv, law, op, path, orig):
        w = f"{cls}{shape}{kind} {path} {sh(op)}"
        try:
            want = push(law, op)
        except (IndexError, ValueError):
            ctx.raises(lambda: on_rv(op, rv), w)
            return None
        if want.mean.size == 0 or (cls == "N" and want.mean.ndim > 2):
            return None
        res = None
        with ctx.no_error(w):
            got = on_rv(op, rv)
            ctx.trace()
            ctx.step()
            if cls != "G":
                rl.check_law(ctx, got, want, w, tol, tol)
            else:
                ctx.check(tuple(got.shape) == want.shape, w, f"shape {got.shape} != {want.shape}")
                ctx.close(got.mean, want.mean, w)
                ctx.close(got.var, np.diag(want.cov).reshape(want.shape), w)
                ctx.close(got.std, np.sqrt(np.diag(want.cov)).reshape(want.shape), w, 1e-6, 1e-6)
                if op[0] != "idx" and not path:
                    ctx.close(got.cov, want.cov.reshape((want.mean.size,) * 2 if want.shape else ()), w, msg="cov")
                for size in ((), (1,), (2,), (2, 3)):
                    a = got.sample(np.random.default_rng(5), size)
                    b = orig[0].sample(np.random.default_rng(5), size)
                    flat = b.reshape((-1,) + shape)
                    ref = []
                    for x in flat:
                        for o in orig[1] + [op]:
                            x = on_array(o, x)
                        ref.append(x)
                    ref = np.array(ref).reshape(size + want.shape)
                    ctx.close(a, ref, w + f" sample{size}")
            res = (got, want)
        ctx.state(cls, shape, kind, path, sh(op))
        ctx.outcome(cls, shape, path, sh(op), want.shape)
        return res

    for op in ops(shape):
        r = one(base_rv, base_law, op, "", (base_rv, []))
        if r is None or not two or len(r[1].shape) > 2:
            continue
        for op2 in ops(r[1].shape, tier == "quick"):
            one(r[0], r[1], op2, sh(op), (base_rv, [op]))
    rl_after = base_law
    if cls == "N":
        rl.check_law(ctx, base_rv, rl_after, f"{cls}{shape}{kind} unchanged by structural operations", tol, tol)
    ctx.sample(f"{cls}{shape}{kind}: all structural operations, pairs={two}")


def run_cat(shape, ctx):
    p = np.array([0.2, 0.5, 0.3])
    supp = (np.array([1.0, -2.0, 4.0]) if shape == () else rl.gen(3, *shape))
    rv = randvars.Categorical(probabilities=p, support=supp)
    for op in ops(shape):
        w = f"K{shape} {sh(op)}"
        with ctx.no_error(w):
            want_supp = [on_array(op, s) for s in supp]
            if np.size(want_supp[0]) == 0:
                continue
            got = on_rv(op, rv)
            ctx.trace()
            ctx.step()
            ctx.state(w)
            ctx.outcome(w)
            ctx.check(tuple(got.shape) == np.shape(want_supp[0]), w, f"shape {got.shape}")
            for seed in range(6):
                for size in ((), (3,), (2, 2)):
                    a = np.asarray(got.sample(np.random.default_rng(seed), size))
                    b = np.asarray(rv.sample(np.random.default_rng(seed), size)).reshape((-1,) + shape)
                    ref = np.array([on_array(op, x) for x in b]).reshape(size + np.shape(want_supp[0]))
                    ctx.close(a, ref, w + f" sample{size}")
