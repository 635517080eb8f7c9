"""C09: function algebra, and random processes evaluated at points."""
import itertools
import numpy as np
from probnum import functions as fn, randprocs, randvars
from probnum.randprocs import covfuncs as cf
from mc import rvlib as rl
from props import c08

RULE = ("every sum/difference/scaling expression of functions up to depth 3 x batch shapes against pointwise evaluation; every Gaussian process of the "
        "catalogue x every argument shape: the joint law of the evaluation, its marginals, var/std and the scripted law of samples against mean and "
        "covariance function; non-trivial = distinct (expression or process, argument shape, values)")
ASSUMPTIONS = ["input dimension <= 2, output dimension <= 3, at most 6 points", "samplers affine in their Gaussian draws are determined by the unit scripts (mixed script checked)"]

SH = [((), ()), ((), (2,)), ((2,), ()), ((2,), (3,)), ((1,), (1,))]


def atoms(i, o):
    """name -> (constructor, pointwise reference on one input)"""
    W = (1.0 + np.arange(int(np.prod(i)) * int(np.prod(o)))).reshape(i + o) / 3

    def lin(x):
        return np.tensordot(x, W, axes=len(i)) if i else np.asarray(x)[(...,) + (None,) * len(o)] * W

    def sq(x):
        s = np.sum(np.asarray(x) ** 2, axis=-1) if i else np.asarray(x) ** 2
        return np.asarray(s)[(...,) + (None,) * len(o)] * np.ones(o) - 0.5

    return {"z": (lambda: fn.Zero(i, o), lambda x: np.zeros(o)),
            "l": (lambda: fn.LambdaFunction(lin, i, o), lambda x: lin(x)),
            "s": (lambda: fn.LambdaFunction(sq, i, o), lambda x: sq(x))}


def grow(level):
    out = []
    for a in level:
        out += [("neg", a), ("2*", a), ("*-3", a), ("np*", a)]
    return out


def exprs(tier):
    l0 = [("z",), ("l",), ("s",)]
    u1 = grow(l0)
    b1 = [(op, a, b) for op in "+-" for a in l0 for b in l0]
    l1 = l0 + u1 + b1
    l2 = grow(b1) + [(op, a, b) for op in "+-" for a, b in itertools.product(b1 + u1[:4] + l0, l0)] + \
        [(op, a, b) for op in "+-" for a, b in itertools.product(l0, b1 + u1[4:8])]
    out = l1 + l2 + grow(grow([("l",)]))
    if tier == "thorough":
        out += [(op, a, b) for op in "+-" for a in b1 for b in b1] + grow(l2)
    return out


def name(e):
    if len(e) == 1:
        return e[0]
    return f"{e[0]}({name(e[1])})" if len(e) == 2 else f"({name(e[1])}{e[0]}{name(e[2])})"


def build(e, at):
    if len(e) == 1:
        return at[e[0]][0]()
    if len(e) == 2:
        a = build(e[1], at)
        return {"neg": lambda: -a, "2*": lambda: 2 * a, "*-3": lambda: a * -3.0, "np*": lambda: np.float64(0.5) * a}[e[0]]()
    a, b = build(e[1], at), build(e[2], at)
    return a + b if e[0] == "+" else a - b


def ref(e, at, x):
    if len(e) == 1:
        return at[e[0]][1](x)
    if len(e) == 2:
        return {"neg": -1.0, "2*": 2.0, "*-3": -3.0, "np*": 0.5}[e[0]] * ref(e[1], at, x)
    a, b = ref(e[1], at, x), ref(e[2], at, x)
    return a + b if e[0] == "+" else a - b


class Coreg(cf.CovarianceFunction):
    """user-defined multi-output covariance k(x,y) B + (x.y) C"""

    def __init__(self, i, o):
        n = int(np.prod(o))
        self.B, self.C = rl.spd(n, 1), rl.spd(n, 2)
        self.k = cf.Matern(i, nu=1.5, lengthscales=0.8)
        super().__init__(input_shape=i, output_shape_0=o, output_shape_1=o)

    def _evaluate(self, x0, x1):
        k = np.asarray(self.k(x0, x1))
        y = x0 if x1 is None else x1
        l = x0 * y if self.input_ndim == 0 else np.sum(x0 * y, axis=-1)
        e = (Ellipsis, None, None) if len(self.output_shape_0) else (Ellipsis,)
        B, C = (self.B, self.C) if len(self.output_shape_0) else (self.B[0, 0], self.C[0, 0])
        return k[e] * B + np.asarray(l)[e] * C


BATCH = [(), (1,), (2,), (3,), (2, 2), (3, 1)]


def items(tier):
    out = []
    ex = exprs(tier)
    for j in range(len(SH)):
        out += [["f", j, k, tier] for k in range(0, len(ex), 24)]
    out += [["fbad", j] for j in range(len(SH))]
    for j in range(len(SH)):
        i, o = SH[j]
        ks = ["coreg", "2coreg+coreg"] + ([] if o else ["eq", "m2.5", "wn", "lin", "2eq+wn"])
        out += [["gp", j, m, k] for m in ("z", "l", "s-l") for k in ks]
    out.append(["gpbad"])
    return out


def pts(bs, i, s, dt=float):
    n = int(np.prod(bs + i))
    a = np.round(1.5 * np.sin(1.7 * np.arange(n) + s), 2).reshape(bs + i)
    return a if dt is float else np.rint(2 * a).astype(int)


def run(item, ctx):
    if item[0] == "f":
        _, j, lo, tier = item
        i, o = SH[j]
        at = atoms(i, o)
        for e in exprs(tier)[lo:lo + 24]:
            w = f"{name(e)} {i}->{o}"
            with ctx.no_error(w):
                f = build(e, at)
                ctx.check(f.input_shape == i and f.output_shape == o and f.input_ndim == len(i) and f.output_ndim == len(o), w, "shapes")
                for bs in BATCH:
                    for dt in (float, int):
                        x = pts(bs, i, 3, dt)
                        h = x.copy()
                        want = np.empty(bs + o)
                        for p in np.ndindex(*bs):
                            want[p] = ref(e, at, x[p])
                        got = f(x)
                        ctx.check(np.shape(got) == bs + o, w, f"shape {np.shape(got)} for batch {bs}")
                        ctx.close(got, want, f"{w} {bs} {dt.__name__}")
                        ctx.close(f(x.tolist()), want, f"{w} {bs} {dt.__name__} list")
                        ctx.check(np.array_equal(x, h), w, "input changed")
                        ctx.step(2)
                        ctx.state(j, name(e), bs, dt.__name__)
                        ctx.outcome(j, bs, want.round(8).tobytes())
                ctx.trace()
        ctx.sample(f"{w} on all batch shapes")
    elif item[0] == "fbad":
        i, o = SH[item[1]]
        at = atoms(i, o)
        for e in exprs("quick")[:34]:
            f = build(e, at)
            ctx.trace()
            for bad in ([np.zeros(s) for s in ((), (i[0] + 1,), (i[0], i[0] + 1), (2, i[0] + 2))] if i else []):
                ctx.step()
                ctx.state(item[1], name(e), bad.shape)
                ctx.raises(lambda: f(bad), f"{name(e)} {i}->{o} bad input {bad.shape}", ValueError)
            for i2, o2 in SH:
                if (i2, o2) != (i, o):
                    for g in (atoms(i2, o2)[k][0]() for k in "zl"):
                        ctx.step(4)
                        ctx.state(item[1], name(e), "with", i2, o2, type(g).__name__)
                        for n, op in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b)):
                            ctx.raises(lambda: op(f, g), f"{name(e)}{n}{type(g).__name__} {i}->{o} with {i2}->{o2}", (ValueError, TypeError))
                            ctx.raises(lambda: op(g, f), f"{type(g).__name__}{n}{name(e)} {i2}->{o2} with {i}->{o}", (ValueError, TypeError))
        ctx.outcome("fbad", item[1])
    elif item[0] == "gp":
        run_gp(item, ctx)
    else:
        z = fn.Zero((), ())
        for k, f in enumerate([lambda: randprocs.GaussianProcess(np.sin, cf.ExpQuad(())), lambda: randprocs.GaussianProcess(z, cf.ExpQuad((2,))),
                               lambda: randprocs.GaussianProcess(fn.Zero((2,), ()), cf.ExpQuad(())), lambda: randprocs.GaussianProcess(z, np.dot),
                               lambda: randprocs.GaussianProcess(z, Coreg((), (2,))), lambda: randprocs.GaussianProcess(fn.Zero((), (2,)), cf.ExpQuad(())),
                               lambda: randprocs.GaussianProcess(fn.Zero((), (2,)), c08.Multi(0, (2,), (3,))), lambda: randprocs.GaussianProcess(fn.Zero((), (2, 2)), c08.Multi(0, (2, 2), (2, 2)))]):
            ctx.raises(f, f"invalid process {k}", (TypeError, ValueError))
            ctx.step()
            ctx.trace()
            ctx.state("gpbad", k)
            ctx.outcome("gpbad", k)


def run_gp(item, ctx):
    _, j, m, k = item
    i, o = SH[j]
    at = atoms(i, o)
    e = {"z": ("z",), "l": ("l",), "s-l": ("-", ("s",), ("l",))}[m]
    mean = build(e, at)
    if "coreg" in k:
        c = Coreg(i, o)
        kern = {"coreg": c, "2coreg+coreg": 2.0 * c + Coreg(i, o)}[k]
    else:
        kern = {"eq": lambda: cf.ExpQuad(i), "m2.5": lambda: cf.Matern(i, nu=2.5), "wn": lambda: cf.WhiteNoise(i, sigma_sq=0.4), "lin": lambda: cf.Linear(i, constant=1.0),
                "2eq+wn": lambda: 2.0 * cf.ExpQuad(i) + cf.WhiteNoise(i, sigma_sq=0.1)}[k]()
    gp = randprocs.GaussianProcess(mean, kern)
    no = int(np.prod(o))
    ctx.check(gp.input_shape == i and gp.output_shape == o and gp.input_ndim == len(i) and gp.output_ndim == len(o), f"{item}", "shapes")
    for bs in BATCH:
        for dt in (float, int):
            x = pts(bs, i, 5, dt)
            w = f"gp {m} {k} {i}->{o} at {bs} {dt.__name__}"
            p = x.reshape((-1,) + i)
            n = len(p)
            mu = np.array([ref(e, at, q) for q in p], dtype=float).reshape(n * no)
            C = np.empty((n, no, n, no))
            for a, b in itertools.product(range(n), repeat=2):
                C[a, :, b, :] = np.asarray(kern(p[a], p[b])).reshape(no, no)
            law = rl.Law(mu.reshape(bs + o), C.reshape(n * no, n * no))
            with ctx.no_error(w):
                joint = len(bs + o) <= 2  # Normal random variables are scalars, vectors or matrices
                ctx.trace()
                ctx.step(4)
                ctx.state(w)
                if joint:
                    rv = gp(x)
                    ctx.check(isinstance(rv, randvars.Normal), w, "not a Normal")
                    rl.check_law(ctx, rv, law, w)
                ctx.close(gp.mean(x), law.mean, w + " mean function")
                v = np.diag(law.cov).reshape(bs + o)
                ctx.close(gp.var(x), v, w + " var", atol=1e-8)
                ctx.close(gp.std(x), np.sqrt(v), w + " std", atol=1e-8)
                if bs:
                    ctx.close(gp.var(x.tolist()), v, w + " var(list)", atol=1e-8)
                ctx.outcome(j, k, bs, law.mean.round(6).tobytes(), law.cov.round(6).tobytes())
                for size in ((), 2, (2, 1)):
                    sz = (size,) if isinstance(size, int) else size
                    K = int(np.prod(sz))
                    if n * no * K > 12 or not joint:
                        continue
                    s = rl.sample_law(lambda r: gp.sample(r, x, size=size), ctx, w + f" sample {size}")
                    ctx.check(s.shape == sz + bs + o, w, f"sample shape {s.shape}")
                    ctx.close(s.mean, np.broadcast_to(law.mean, sz + bs + o), w + " sample mean", atol=1e-6)
                    ctx.close(s.cov, np.kron(np.eye(K), law.cov), w + " sample law", rtol=1e-5, atol=1e-4)
    ctx.sample(w)
