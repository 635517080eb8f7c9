#!/usr/bin/env python3
"""Mutation survey (author's helper, no check uses it): mutate.py CNN [-n COUNT] [-s SEED] [-w WORKERS] [--src REPO] [--files a,b]

Small changes are made one at a time, in scratch copies, to the files a property is anchored in; the property's check
is run on each.  Prints the changes it does not notice, for a human to judge (equivalent, outside the property, or a gap).
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("-n", type=int, default=30); ap.add_argument("-s", type=int, default=0)
ap.add_argument("-w", type=int, default=4); ap.add_argument("-j", type=int, default=2); ap.add_argument("--src", default="/repo"); ap.add_argument("--files")
ap.add_argument("--list", action="store_true")
a = ap.parse_args()


def seg(src, node):
    return ast.get_source_segment(src, node)


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def rep(node, new, why):
        s, e = pos(node)
        out.append((path, node.lineno, why, b[s:e].decode(), new, s, e))

    def txt(n):
        s, e = pos(n)
        return b[s:e].decode()

    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "*"}
    SKIP = {"__repr__", "_repr_html_", "__str__", "__len__repr"}

    def visit(n, intest=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in SKIP:
                return
            for s in n.body:
                visit(s)
            for d in n.args.defaults + n.args.kw_defaults:
                if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float)):
                    visit(d)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Raise):
            rep(n, "pass", "no raise")
            return
        if isinstance(n, ast.If):
            rep(n.test, f"not ({txt(n.test)})", "negate if")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "drop call")
        if isinstance(n, ast.AugAssign):
            rep(n, "pass", "drop augassign")
        if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) and not isinstance(n.value, ast.Constant):
            pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]
            rep(n, f"{txt(n.left)} {o} {txt(n.comparators[0])}", "compare")
        if isinstance(n, ast.BinOp):
            l, r = txt(n.left), txt(n.right)
            if type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
                rep(n, f"({l}) {BIN[type(n.op)]} ({r})", "binop")
            if isinstance(n.op, (ast.MatMult, ast.Sub, ast.Div)):
                rep(n, f"({r}) {'@' if isinstance(n.op, ast.MatMult) else '-' if isinstance(n.op, ast.Sub) else '/'} ({l})", "swap operands")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, f"({txt(n.operand)})", "drop unary")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join(f"({txt(v)})" for v in n.values) + ")", "boolop")
            rep(n, txt(n.values[0]), "boolop first")
        if isinstance(n, ast.IfExp):
            rep(n, f"({txt(n.body)})", "ifexp body"); rep(n, f"({txt(n.orelse)})", "ifexp else")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "bool")
            elif isinstance(n.value, (int, float)) and not isinstance(n.value, complex):
                rep(n, repr(n.value + 1), "const+1")
            return
        if isinstance(n, ast.Attribute) and n.attr == "T":
            rep(n, txt(n.value), "drop .T")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ("ValueError", "TypeError", "super", "isinstance", "NotImplementedError"):
                if f.id == "super":
                    return
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "astype", "reshape", "squeeze", "todense", "transpose", "inv") and isinstance(n, ast.Call):
                rep(n, txt(f.value), "drop method")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]) and not (isinstance(f, ast.Name) and f.id in ("isinstance", "issubclass", "getattr", "hasattr")):
                s0, e0 = pos(n.args[0]); s1, e1 = pos(n.args[1]); s, e = pos(n)
                new = (b[s:s0] + b[s1:e1] + b[e0:s1] + b[s0:e0] + b[e1:e]).decode()
                rep(n, new, "swap args")
            for k in n.keywords:
                if k.arg:
                    vs, ve = pos(k.value)
                    s, e = pos(n)
                    ks = b.rfind(k.arg.encode(), s, vs)
                    tail = b[ve:e]
                    j = 0
                    while j < len(tail) and tail[j:j+1] in (b",", b" ", b"\n"):
                        j += 1
                    new = (b[s:ks] + tail[j:]).decode()
                    try:
                        ast.parse(new.strip())
                        rep(n, new, f"drop kw {k.arg}")
                    except SyntaxError:
                        pass
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call) and False:
            pass
        if isinstance(n, ast.Subscript):
            visit(n.value); visit(n.slice); return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef,)) and c is n.returns:
                continue
            visit(c)

    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            for c in n.body:
                visit(c)
        else:
            visit(n)
    return out


prop = next(json.loads(l) for l in open(V + "/properties.jsonl") if json.loads(l)["id"] == a.prop)
files = []
for f in (a.files.split(",") if a.files else prop["anchors"]["files"]):
    if not f.startswith("src/"):
        f = "src/probnum/" + f
    p = os.path.join(a.src, f)
    if os.path.isdir(p):
        for d, _, fs in os.walk(p):
            files += [os.path.relpath(os.path.join(d, x), a.src) for x in sorted(fs) if x.endswith(".py") and x != "__init__.py"]
    else:
        files.append(f)
allm = []
for f in files:
    allm += mutants(f, open(os.path.join(a.src, f)).read())
rnd = random.Random(a.s)
rnd.shuffle(allm)
pick = allm[: a.n]
print(a.prop, len(allm), "mutants,", len(pick), "picked", flush=True)
if a.list:
    sys.exit()
trees = queue.Queue()
root = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
try:
    for i in range(a.w):
        t = f"{root}/{i}"; os.makedirs(t)
        subprocess.check_call(["cp", "-a", a.src + "/src", t + "/src"])
        trees.put(t)

    def one(m):
        path, line, why, old, new, s, e = m
        t = trees.get()
        p = os.path.join(t, path)
        orig = open(p, "rb").read()
        try:
            mut = orig[:s] + new.encode() + orig[e:]
            try:
                compile(mut, p, "exec")
            except SyntaxError:
                return "syntax", m
            open(p, "wb").write(mut)
            env = dict(os.environ, VERIF_REPO=t, VERIF_TIER="quick", VERIF_EVID=t)
            try:
                c = subprocess.run(["bash", V + "/check.sh", a.prop, "--first", "--jobs", str(a.j)], capture_output=True, text=True, env=env, timeout=900)
                return {0: "MISSED", 1: "caught"}.get(c.returncode, "rc%d" % c.returncode), m
            except subprocess.TimeoutExpired:
                return "timeout", m
        finally:
            open(p, "wb").write(orig)
            trees.put(t)

    n = {}
    with ThreadPoolExecutor(a.w) as ex:
        for r, m in ex.map(one, pick):
            n[r] = n.get(r, 0) + 1
            if r not in ("caught", "syntax"):
                print(f"{r} {m[0][12:]}:{m[1]} [{m[2]}] {' '.join(m[3].split())[:110]}  ->  {' '.join(m[4].split())[:110]}", flush=True)
    print(a.prop, n, flush=True)
finally:
    shutil.rmtree(root, ignore_errors=True)
