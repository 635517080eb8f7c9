"""C04: arithmetic with Gaussian and constant random variables is the exact affine pushforward."""
import functools
import numpy as np
from probnum import linops, randvars
from mc import rvlib as rl

RULE = ("state machine whose state is a Gaussian/constant random variable and whose transitions are all arithmetic operations with "
        "scalars, arrays, operators, constants and other Gaussians (from either side) plus 'precompute Cholesky'; every operation "
        "sequence up to the depth bound from every start (shape x covariance representation) on the real objects; after every step "
        "shape, mean, cov, var, std and any carried Cholesky factor equal the exactly pushed-forward law; "
        "non-trivial = distinct (shape, type, operation sequence)")
ASSUMPTIONS = ["dims <= 3 (vectors) and 2x3 (matrices); depth 2 (3 from the basic starts; 3 everywhere in thorough)",
               "operands of one expression are distinct, independent random variables"]

SHAPES = [(), (1,), (2,), (3,), (1, 1), (2, 2), (2, 3), (1, 3), (3, 1)]


FULL2 = ("dense", "lmat", "lkron")


@functools.lru_cache(None)
def ops_for(shape, full):
    """name -> (apply(rv), affine map or ('N', sign, law)) for a state of this shape"""
    out = {}
    c = rl.gen(*shape, s=3) if shape else np.float64(0.7)

    def put(n, f, g):
        out[n] = (f, g)
    put("neg", lambda x: -x, lambda a: -a)
    put("pos", lambda x: +x, lambda a: +a)
    put("+c", lambda x: x + c, lambda a: a + c)
    put("c-", lambda x: c - x, lambda a: c - a)
    put("*2.5", lambda x: x * 2.5, lambda a: a * 2.5)
    put("-3*", lambda x: -3 * x, lambda a: -3 * a)
    put("/-2", lambda x: x / -2.0, lambda a: a / -2.0)
    nb, law = rl.normal("dense", shape, 4)
    put("+N", lambda x: x + nb, ("N", 1.0, law, False))
    put("N-", lambda x: nb - x, ("N", -1.0, law, True))
    put("pre", None, None)
    if full:
        put("c+", lambda x: c + x, lambda a: a + c)
        put("-c", lambda x: x - c, lambda a: a - c)
        put("2.5*", lambda x: 2.5 * x, lambda a: a * 2.5)
        put("*-1", lambda x: x * -1, lambda a: -a)
        put("/4", lambda x: x / 4, lambda a: a / 4)
        put("*0", lambda x: x * 0, lambda a: a * 0)
        put("*Cst", lambda x: x * randvars.Constant(1.5), lambda a: a * 1.5)
        put("Cst*", lambda x: randvars.Constant(-1.5) * x, lambda a: a * -1.5)
        put("+Cst", lambda x: x + randvars.Constant(c), lambda a: a + c)
        put("Cst-", lambda x: randvars.Constant(c) - x, lambda a: c - a)
        put("+s", lambda x: x + 0.5, lambda a: a + 0.5)
        put("s-", lambda x: 0.5 - x, lambda a: 0.5 - a)
        put("-N", lambda x: x - nb, ("N", -1.0, law, False))
        put("N+", lambda x: nb + x, ("N", 1.0, law, False))
        np_, lawp = rl.normal("dense", shape, 5, pre=True)
        put("+Npre", lambda x: x + np_, ("N", 1.0, lawp, False))
        if shape:
            nl, lawl = rl.normal("lmat", shape, 6)
            put("+Nlin", lambda x: x + nl, ("N", 1.0, lawl, False))
            put("Nlin-", lambda x: nl - x, ("N", -1.0, lawl, True))
    if len(shape) == 1:
        d = shape[0]
        v = rl.gen(d, s=1)
        mats = {"Asq": rl.gen(d, d, s=2) + 2 * np.eye(d), "Awide": rl.gen(1, d, s=3), "Atall": rl.gen(d + 1, d, s=4)}
        put("v@", lambda x: v @ x, lambda a: v @ a)
        put("@v", lambda x: x @ v, lambda a: a @ v)
        for n, A in mats.items():
            put(n + "@", lambda x, A=A: A @ x, lambda a, A=A: A @ a)
            put("@" + n + "T", lambda x, A=A: x @ A.T, lambda a, A=A: a @ A.T)
            if full:
                put("Cst" + n + "@", lambda x, A=A: randvars.Constant(A) @ x, lambda a, A=A: A @ a)
                put("Lin" + n + "@", lambda x, A=A: linops.aslinop(A) @ x, lambda a, A=A: A @ a)
        if full:
            put("LinScal@", lambda x: linops.Scaling(2.0, shape=(d, d)) @ x, lambda a: 2 * a)
            put("F@", lambda x: np.asfortranarray(mats["Atall"]) @ x, lambda a: mats["Atall"] @ a)
    if len(shape) == 2:
        m, n = shape
        put("A@", lambda x: rl.gen(m, m, s=2) @ x, lambda a: rl.gen(m, m, s=2) @ a)
        put("@B", lambda x: x @ rl.gen(n, n, s=3), lambda a: a @ rl.gen(n, n, s=3))
        put("u@", lambda x: rl.gen(m, s=2) @ x, lambda a: rl.gen(m, s=2) @ a)
        put("@u", lambda x: x @ rl.gen(n, s=3), lambda a: a @ rl.gen(n, s=3))
        if full:
            put("At@", lambda x: rl.gen(3, m, s=4) @ x, lambda a: rl.gen(3, m, s=4) @ a)
            put("@Bt", lambda x: x @ rl.gen(n, 3, s=5), lambda a: a @ rl.gen(n, 3, s=5))
            put("LinA@", lambda x: linops.aslinop(rl.gen(2, m, s=4)) @ x, lambda a: rl.gen(2, m, s=4) @ a)
    return out


def starts():
    for sh in SHAPES:
        for k in rl.kinds(sh):
            for pre in ((False, True) if k in ("dense", "lmat", "lkron", "lsym") else (False,)):
                yield sh, k, pre


def items(tier):
    out = []
    for sh, k, pre in starts():
        deep = tier == "thorough" or (k == "dense" and sh in [(), (2,), (2, 2)])
        first = list(ops_for(sh, True))
        for f in first:
            out.append(["seq", list(sh), k, pre, f, 3 if deep else 2, tier])
    for sh in SHAPES:
        out.append(["const", list(sh)])
    out.append(["generic"])
    return out


def apply(rv, law, name, op):
    if name == "pre":
        if isinstance(rv, randvars.Normal) and not rv.cov_cholesky_is_precomputed:
            if np.linalg.eigvalsh(law.cov)[0] > 1e-6:
                rv.precompute_cov_cholesky()
        return rv, law
    f, g = op
    if isinstance(g, tuple):
        _, sg, l2, flip = g
        law2 = l2.add(law, sg) if flip else Law_add(law, l2, sg)
    else:
        law2 = law.push(g)
    return f(rv), law2


def Law_add(a, b, sg):
    return a.add(b, sg)


def run(item, ctx):
    if item[0] == "const":
        return run_const(tuple(item[1]), ctx)
    if item[0] == "generic":
        return run_generic(ctx)
    _, sh, kind, pre, first, depth, tier = item
    sh = tuple(sh)
    tol = 3e-4 if kind == "f32" else 1e-7

    def start():
        return rl.normal(kind, sh, 0, pre)

    def replay(prefix):
        rv, law = start()
        for n in prefix:
            rv, law = apply(rv, law, n, ops_for(law.shape, True)[n])
        return rv, law

    def rec(prefix, parent, n, k):
        path = prefix + [n]
        w = f"N{sh}/{kind}{'/chol' if pre else ''} {' '.join(path)}"
        ok = False
        with ctx.no_error(w):
            # children share the parent object unless the operation changes it in place
            rv, law = replay(prefix) if n == "pre" else parent
            if n in ("+s", "s-") and isinstance(rv.mean, linops.LinearOperator):
                return  # "operator + scalar" means adding a multiple of the identity
            before = (rv, law)
            rv, law = apply(rv, law, n, ops_for(law.shape, True)[n])
            ctx.step()
            rl.check_law(ctx, rv, law, w, tol, tol)
            if n != "pre" and len(path) == 1:
                rl.check_law(ctx, before[0], before[1], w, tol, tol, what="operand after the operation:")
            ok = True
        if not ok:
            return
        ctx.trace()
        ctx.state(sh, kind, pre, tuple(path))
        ctx.outcome(sh, type(rv).__name__, tuple(path))
        if isinstance(rv, randvars.Constant) and isinstance(rv.support, linops.LinearOperator):
            return  # operator-valued constants: outside the stated domain
        if k > 0 and law.mean.ndim <= 2:
            last = len(path) == depth - 1
            full = tier == "thorough" or (last and (depth == 3 or kind in FULL2))
            for m in ops_for(law.shape, full):
                rec(path, (rv, law), m, k - 1)

    rec([], start(), first, depth - 1)
    ctx.sample(f"N{sh}/{kind}/pre={pre}: every {depth}-step operation sequence starting with {first}")


def run_const(sh, ctx):
    import operator as o
    a = rl.gen(*sh, s=1) if sh else np.float64(1.7)
    b = rl.gen(*sh, s=2) if sh else np.float64(-0.6)
    ai, bi = np.asarray(np.rint(3 * a), int)[()], np.asarray(np.rint(3 * b) + 7, int)[()]
    for x, y in ((a, b), (ai, bi), (a, bi)):
        for name in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
            f = getattr(o, name)
            for l, r in ((randvars.Constant(x), randvars.Constant(y)), (randvars.Constant(x), y), (x, randvars.Constant(y))):
                w = f"Const{sh} {name} {np.asarray(x).dtype}"
                if name == "pow" and np.asarray(y).dtype.kind == "f":
                    continue
                with ctx.no_error(w):
                    want = f(np.asarray(x), np.asarray(y))
                    got = f(l, r)
                    ctx.check(isinstance(got, randvars.Constant), w, "not constant")
                    ctx.close(got.support, want, w)
                    ctx.close(got.mean, want, w)
                    ctx.close(rl.dense(got.cov), np.zeros((want.size,) * 2 if want.ndim else ()), w)
                    ctx.trace()
                    ctx.step()
                    ctx.state("const", sh, name)
        for name in ("neg", "pos", "abs"):
            with ctx.no_error(name):
                got = getattr(o, name)(randvars.Constant(x))
                ctx.close(got.support, getattr(o, name)(np.asarray(x)), f"Const{sh} {name}")
    ctx.outcome("const", sh)


def run_generic(ctx):
    """operations without a closed form: samples are the pointwise operation of operand samples"""
    import operator as o
    for sh in [(), (2,), (2, 3)]:
        c = rl.gen(*sh, s=2) + 3.0 if sh else np.float64(2.2)
        for size in [(), (1,), (3,), (2, 2)]:
            for name, f in [("mul", o.mul), ("truediv", o.truediv), ("floordiv", o.floordiv), ("mod", o.mod)]:
                n1, _ = rl.normal("dense", sh, 0)
                w = f"generic {name} {sh} size={size}"
                with ctx.no_error(w):
                    rv = f(n1, c) if (sh or name in ("floordiv", "mod")) else f(n1, n1)
                    other = (lambda r: c) if (sh or name in ("floordiv", "mod")) else (lambda r: n1.sample(r, size))
                    got = rv.sample(np.random.default_rng(3), size)
                    r = np.random.default_rng(3)
                    want = np.reshape(f(n1.sample(r, size), other(r)), size + sh)
                    ctx.close(got, want, w)
                    ctx.check(got.shape == size + sh, w, f"shape {got.shape}")
                    ctx.check(rv.shape == sh, w, "rv shape")
                    ctx.trace()
                    ctx.step()
                    ctx.state("gen", sh, size, name)
            n1, l1 = rl.normal("dense", sh, 0)
            n2, l2 = rl.normal("dense", sh, 1)
            with ctx.no_error(f"generic add {sh}"):
                g = (n1 * n2) + n1
                r = np.random.default_rng(3)
                a, b2 = n1.sample(r, size), n2.sample(r, size)
                ctx.close(g.sample(np.random.default_rng(3), size), a * b2 + n1.sample(r, size), f"generic add {sh} {size}")
        ctx.outcome("generic", sh)
