"""C03: applying an operator to stacked operands, along any axis, from either side."""
import itertools
import numpy as np
from mc import linlib as ll

RULE = ("every operator of the catalogue x every operand rank 1..4 / stack shape (dims 1,2,3) x every memory layout "
        "(C, Fortran, reversed strides, read-only) x operand dtype x mode (left product, right product, application along every "
        "axis, solve); compared with numpy on the dense matrix; operand bytes compared before/after; mismatching operands must be refused; "
        "non-trivial = distinct (operator, mode, operand shape)")
ASSUMPTIONS = ["operator dims <= 6; stacks up to 2 extra axes of size <= 3; solve compared only where cond < 1e5"]

SH = [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (4, 4), (4, 6), (6, 4)]
_cat = []


def L(m, n, k):
    return ["leaf", m, n, k]


def catalogue(tier):
    out = []
    for m, n in SH:
        fl = ll.names(m, n, True)
        out += [L(m, n, a) for a in fl]
        for a in fl:
            for u in (["T"], ["neg"], ["inv"], ["smul", -1.5], ["cast", "float64"], ["adds", 2.0], ["idkron", 2]):
                if u[0] in ("inv", "adds") and m != n:
                    continue
                out.append(u + [L(m, n, a)])
                if tier == "thorough" and u[0] != "T":
                    out.append(["T", u + [L(m, n, a)]])
    comp = ["mat", "csr", "diag", "tril", "sel", "emb", "id", "zero", "kr21", "bd", "lam", "lamv", "symkr1"]
    for a, b in itertools.product(comp, repeat=2):
        for m, n, p in ((2, 2, 2), (2, 3, 2), (3, 2, 3)):
            if a in ll.names(m, n, True) and b in ll.names(n, p, True):
                out.append(["@", L(m, n, a), L(n, p, b)])
                out.append(["T", ["@", L(m, n, a), L(n, p, b)]])
            if a in ll.names(m, n, True) and b in ll.names(m, n, True):
                out.append(["+", L(m, n, a), L(m, n, b)])
                out.append(["kron", L(m, n, a), L(m, n, b)])
                out.append(["bd", L(m, n, a), L(m, n, b)])
    return out


def items(tier):
    _cat[:] = catalogue(tier)
    return [[i, ll.show(e), tier] for i, e in enumerate(_cat)]


def fill(shape, dt, s):
    k = int(np.prod(shape))
    v = np.sin(np.arange(1.0, k + 1) * (1.1 + 0.37 * s) + s)
    if dt == "int64":
        v = np.rint(3 * v)
    if dt == "complex128":
        v = v + 1j * np.cos(np.arange(1.0, k + 1) * 0.77)
    return v.astype(dt).reshape(shape)


def layouts(x):
    yield "C", np.ascontiguousarray(x)
    if x.ndim > 1:
        yield "F", np.asfortranarray(x)
    r = x[::-1].copy()[::-1]
    yield "rev", r
    o = x.copy()
    o.setflags(write=False)
    yield "ro", o


STACKS = [(), (1,), (2,), (3,), (2, 3), (1, 2), (3, 1)]


def cases(m, n, tier):
    """(mode, operand shape, axis)"""
    yield "mul", (n,), None
    for s in STACKS:
        for k in ((1, 2, 3) if s in ((), (2,)) else (2,)):
            yield "mul", s + (n, k), None
        yield "rmul", s + (m,), None
    for base in [(n,), (n, 2), (2, n), (n, 2, 3), (2, n, 3), (2, 3, n), (n, n), (n, n, n), (n, 2, 3, 2), (2, n, 1, 3), (1, 2, n, 2), (2, 1, 3, n)]:
        for ax in [None] + list(range(-len(base), len(base))):
            d = base[-1] if ax is None else base[ax]
            if d == n:
                yield "ax", base, ax
    for s in STACKS:
        yield "solve", s + (n, 2), None
    yield "solve", (n,), None
    for base, ax in [((n + 1,), None), ((n + 1, 2), None), ((2, n + 1, 2), None)]:
        yield "badmul", base, ax
    for base, ax in [((m + 1,), None), ((2, m + 1), None)]:
        yield "badrmul", base, ax
    for base, ax in [((n, 2), 2), ((n, 2), -3), ((n,), 1), ((n + 1, n), 0), ((n, n + 1), 1), ((n, n + 1, n), 1)]:
        yield "badax", base, ax


def run(item, ctx):
    e = _cat[item[0]]
    try:
        D = np.asarray(ll.dense_of(e), dtype=float)
    except ll.Undefined:
        return
    if e[0] == "inv" and not ll.wellcond(D):
        return
    name = ll.show(e)
    m, n = D.shape
    tol = 5e-5 if ("f32" in str(e) or "float32" in str(e)) else 1e-7
    well = m == n and ll.wellcond(D)
    Di = np.linalg.inv(D) if well else None
    try:
        op = ll.build(e)
    except ll.Undefined:
        return
    for mode, sh, ax in cases(m, n, item[2]):
        if mode == "solve" and not well:
            continue
        dts = ["float64"] if mode.startswith("bad") else (["float64", "int64", "float32", "complex128"] if len(sh) <= 2 else ["float64"])
        for dt in dts:
            if dt == "complex128" and mode == "solve":
                continue
            x0 = fill(sh, dt, len(sh))
            for lay, x in layouts(x0):
                if lay != "C" and (dt != "float64" or len(sh) != 2):
                    continue
                w = f"{name} {mode} x{sh} axis={ax} {dt} {lay}"
                ctx.trace()
                ctx.step()
                if mode.startswith("bad"):
                    f = {"badmul": lambda: op @ x, "badrmul": lambda: x @ op, "badax": lambda: op(x, axis=ax)}[mode]
                    ctx.raises(f, w)
                    continue
                before = x.copy()
                with ctx.no_error(w):
                    t = tol if dt != "float32" else max(tol, 2e-5)
                    if mode == "mul":
                        got, want = op @ x, D @ x0
                    elif mode == "rmul":
                        got, want = x @ op, x0 @ D
                    elif mode == "solve":
                        got = op.solve(x)
                        want = Di @ x0
                        t = max(t * 10, 1e-6)
                    else:
                        got = op(x, axis=ax)
                        a = -1 if ax is None else ax
                        want = np.moveaxis(np.tensordot(D, x0, axes=(1, a)), 0, a)
                    ctx.close(got, want, w, rtol=t, atol=t)
                ctx.check(np.array_equal(x, before), w, "operand was modified")
                ctx.check(dt == "int64" or np.iscomplexobj(got) == (dt == "complex128"), w, "dtype kind lost") if mode == "mul" else None
            ctx.state(name, mode, sh, ax, dt)
        ctx.outcome(name, mode, sh, ax)
    ctx.sample(f"{name}: left/right products, all axes, solves over stacks of rank<=4")
