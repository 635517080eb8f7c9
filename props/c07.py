"""C07: sampling - shape, reproducibility, isolation and the exact law under scripted randomness."""
import itertools
import operator
from collections import Counter
import numpy as np
import probnum as pn
from probnum import linops, randvars
from mc import rvlib as rl

RULE = ("every random variable of the catalogue x every sample size form; the generator is replaced by an environment script: for "
        "Gaussian samplers all scripts {0, e_1..e_K} of the K normal draws (which determine the affine sampler, hence its exact law, "
        "including independence between the requested samples), for categorical samplers all points of a uniform grid, for arithmetic of two independent categorical variables all combinations of the draws; plus "
        "shape = size + value shape, bitwise reproducibility and untouched global random state / parameters; "
        "non-trivial = distinct (variable, size, law)")
ASSUMPTIONS = ["the sampler draws its randomness from the passed numpy Generator's normal/uniform/choice methods",
               "a single multivariate Gaussian sample requested with size 1 is returned unstacked (pinned by an existing test)"]
SIZES = [(), 1, 2, (3,), (2, 3), (1, 3), (3, 1), (2, 1, 2), np.int64(2)]


BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "floordiv": operator.floordiv,
       "mod": operator.mod, "pow": operator.pow, "matmul": operator.matmul}


def items(tier):
    out = []
    for sh in [(), (1,), (2,), (3,), (2, 2), (2, 3), (1, 3), (3, 1), (1, 1)]:
        for k in rl.kinds(sh):
            out.append(["N", list(sh), k])
        out.append(["C", list(sh)])
        out.append(["A", list(sh)])
    for n in (1, 2, 3, 4):
        out.append(["K", n])
    for op in [b for b in BIN if b != "matmul"]:
        for s1, s2 in [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,))]:
            out.append(["B", op, list(s1), list(s2)])
    for s1, s2 in [((2,), (2,)), ((2, 2), (2,)), ((2,), (2, 2)), ((2, 2), (2, 2)), ((1, 2), (2, 1))]:
        out.append(["B", "matmul", list(s1), list(s2)])
    for s1, s2 in [((2, 2), (2,)), ((2,), (2, 2)), ((2, 1), (1, 2)), ((1,), (2,))]:
        out.append(["B", "mul", list(s1), list(s2)])
    out.append(["args"])
    return out


def tup(size):
    return size if isinstance(size, tuple) else (int(size),)


def glob():
    s = np.random.get_state()
    return s[1].tobytes(), s[2], s[3], s[4]


def basic(ctx, rv, w, squeeze1=False, sizes=SIZES):
    for size in sizes:
        want = tup(size) + tuple(rv.shape)
        g = glob()
        with ctx.no_error(f"{w} size={size}"):
            a = rv.sample(np.random.default_rng(11), size)
            b = rv.sample(np.random.default_rng(11), size)
            ctx.trace(2)
            ctx.step(2)
            ok = np.shape(a) == want or (squeeze1 and tup(size) == (1,) and np.shape(a) == tuple(rv.shape))
            ctx.check(ok, f"{w} size={size}", f"sample shape {np.shape(a)}, expected {want}")
            ctx.check(np.array_equal(a, b), f"{w} size={size}", "same generator state, different sample")
            ctx.check(g == glob(), f"{w} size={size}", "global random state changed")
            ctx.state(w, str(size))


def run(item, ctx):
    if item[0] == "N":
        sh, kind = tuple(item[1]), item[2]
        rv, law = rl.normal(kind, sh, 1)
        w = f"N{sh}/{kind}"
        basic(ctx, rv, w, squeeze1=len(sh) > 0)
        tol = 1e-4 if kind == "f32" else 1e-6
        cov = law.cov
        if kind == "lsymk":
            G = linops.Symmetrize(sh[0]).todense()
            cov = G @ cov @ G.T
        for size in ((), (2,), (2, 2), (3,)):
            with ctx.no_error(w + " law"):
                got = rl.sample_law(lambda r: rv.sample(r, size), ctx, w + f" law{size}")
                k = int(np.prod(size))
                ctx.close(got.mean, np.broadcast_to(law.mean, size + sh), w + f" sample mean {size}", tol, tol)
                ctx.close(got.cov, np.kron(np.eye(k), cov), w + f" sample cov {size}", tol, tol)
                ctx.outcome(w, size)
        if sh and kind in ("dense", "lmat", "lkron"):
            r2, _ = rl.normal(kind, sh, 1, pre=True)
            got = rl.sample_law(lambda r: r2.sample(r, (2,)), ctx, w + " law pre")
            ctx.close(got.cov, np.kron(np.eye(2), cov), w + " sample cov with precomputed factor", tol, tol)
        rl.check_law(ctx, rv, law, w + " after sampling", tol, tol)
    elif item[0] == "C":
        sh = tuple(item[1])
        v = rl.gen(*sh, s=1) if sh else np.float64(0.3)
        rv = randvars.Constant(v)
        basic(ctx, rv, f"C{sh}")
        for size in SIZES:
            s = np.array(rv.sample(np.random.default_rng(1), size))
            ctx.close(s, np.broadcast_to(v, tup(size) + sh), f"C{sh} {size}")
            ctx.outcome("C", sh, str(size))
        s = np.asarray(rv.sample(np.random.default_rng(1)))
        if sh:
            s[...] = 99.0
            ctx.close(rv.support, v, f"C{sh} sample aliases the support")
    elif item[0] == "A":
        # compound variables: (a*X + c) as generic arithmetic, indexing and negation of generic variables
        sh = tuple(item[1])
        rv, law = rl.normal("dense", sh, 1)
        c = rl.gen(*sh, s=5) if sh else np.float64(0.8)
        cases = {"X*c": (lambda: rv * c, lambda a: a * c), "c*X+c": (lambda: c * rv + c, lambda a: c * a + c), "-(X*c)": (lambda: -(rv * c), lambda a: -(a * c)),
                 "(X*c)-c": (lambda: (rv * c) - c, lambda a: a * c - c), "X/(c+3)": (lambda: rv / (c + 3), lambda a: a / (c + 3))}
        for n, (f, g) in cases.items():
            w = f"A{sh} {n}"
            with ctx.no_error(w):
                y = f()
                basic(ctx, y, w, squeeze1=True)
                want = law.push(g)
                for size in ((), (2,), (2, 2)):
                    got = rl.sample_law(lambda r: y.sample(r, size), ctx, w)
                    k = int(np.prod(size))
                    ctx.close(got.mean, np.broadcast_to(want.mean, size + sh), w + " mean", 1e-6, 1e-6)
                    ctx.close(got.cov, np.kron(np.eye(k), want.cov), w + " cov", 1e-6, 1e-6)
                    ctx.outcome(w, size)
    elif item[0] == "B":
        # two independent categorical variables: every combination of the uniform draws behind a sample of size k
        f, s1, s2 = BIN[item[1]], tuple(item[2]), tuple(item[3])
        a = [np.full(s1, 2.0) + np.arange(np.prod(s1)).reshape(s1), np.full(s1, 5.0) - 2 * np.arange(np.prod(s1)).reshape(s1)]
        b = [np.full(s2, 3.0) + np.arange(np.prod(s2)).reshape(s2), np.full(s2, 0.5) + 2 * np.arange(np.prod(s2)).reshape(s2)]
        half = np.array([0.5, 0.5])
        for size in ((), (1,), (2,), (1, 2), (3,)):
            k = int(np.prod(size))
            want, got = Counter(), Counter()
            for c in itertools.product([0, 1], repeat=2 * k):
                z = np.stack([f(a[c[2 * i]], b[c[2 * i + 1]]) for i in range(k)])
                want[np.round(z, 9).tobytes()] += 1
            w = f"B {item[1]} {s1} {s2} size={size}"
            with ctx.no_error(w):
                y = f(randvars.Categorical(half, np.stack(a)), randvars.Categorical(half, np.stack(b)))
                for c in itertools.product([0.25, 0.75], repeat=2 * k):
                    r = rl.ScriptRng()
                    r.uscript = c
                    s = np.asarray(y.sample(r, size))
                    ctx.trace()
                    ctx.step()
                    ctx.check(r.upos == 2 * k, w, f"{r.upos} draws for {k} pairs of independent variables")
                    ctx.check(s.shape == size + tuple(y.shape), w, f"shape {s.shape}")
                    got[np.round(s.reshape((k,) + tuple(y.shape)), 9).tobytes()] += 1
                ctx.check(got == want, w, "joint law of the samples is not that of independent pairs")
                ctx.state(w)
                ctx.outcome(w, len(want))
    elif item[0] == "K":
        n = item[1]
        K = 400
        us = (np.arange(K) + 0.5) / K
        for p in itertools.product([0, 1, 3], repeat=n):
            if sum(p) == 0:
                continue
            p = np.array(p, float) / sum(p)
            for sup in (None, np.arange(n) * 1.5 - 1, np.arange(2.0 * n).reshape(n, 2)):
                rv = randvars.Categorical(p, sup)
                S = np.arange(n) if sup is None else sup
                w = f"K{n} p={p}"
                if sup is not None:
                    basic(ctx, rv, w, sizes=[(), 1, (3,), (2, 3)])
                for size in ((K,), (20, 20)):
                    r = rl.ScriptRng()
                    r.uscript = us
                    with ctx.no_error(w):
                        s = np.asarray(rv.sample(r, size)).reshape((K,) + S.shape[1:])
                        ctx.trace(K)
                        ctx.step(K)
                        for i in range(n):
                            fr = np.mean(np.all((s == S[i]).reshape(K, -1), axis=1))
                            ctx.check(abs(fr - p[i]) <= 2.0 / K, w, f"outcome {i} has mass {fr}, expected {p[i]}")
                # resampling keeps the law of the points
                r = rl.ScriptRng()
                r.uscript = us[:: max(1, K // n)][:n]
                with ctx.no_error(w + " resample"):
                    q = rv.resample(r)
                    ctx.close(q.probabilities, np.ones(n) / n, w + " resample weights")
                    ctx.check(all(p[int(np.argmax(np.all((S == x).reshape(n, -1), axis=1)))] > 0 for x in q.support), w, "resample picks a zero-mass point")
                ctx.outcome(w)
    else:
        rv = randvars.Normal(0.0, 1.0)
        for bad in (None, 1, np.random.RandomState(1), np.random):
            ctx.raises(lambda: rv.sample(bad), f"bad generator {type(bad)}", TypeError)
        ctx.trace(4)
        ctx.step(4)
        for s in range(4):
            ctx.state("args", s)
    ctx.sample(f"{item}: all sizes and scripts")
