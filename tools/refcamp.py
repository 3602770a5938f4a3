"""refcamp.py N SEED WORKERS OUT [file-substring...]: mechanical behaviour-preserving rewrites of the code the properties
depend on; every check of the file has to stay quiet on each of them."""
import ast, os, random, shutil, subprocess, sys, tempfile, threading, queue, json, time, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from campaign import MAP
MAP = {k: list(v) for k, v in MAP.items()}
for k, v in MAP.items():
    if k.endswith("irounding_policy.py"):
        v += ["C20", "C21"]
    if k.endswith("keras_dense.py"):
        v += ["C25"]
    if k.endswith("core/itcl_quantization/quantization/operators.py"):
        v += ["C06"]
PURE = (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Subscript, ast.operator, ast.unaryop, ast.cmpop, ast.expr_context, ast.Tuple, ast.Slice)


def names(n, ctx=ast.Load):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def pure(n):
    return all(isinstance(x, PURE) for x in ast.walk(n))


def locals_of(fn):
    s = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set())
    return s


def bound(fn):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def exprs_first(st):
    """sub-expressions of a simple statement, largest first, that can be evaluated before it"""
    v = st.value if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) else None
    return v


def rewrites(src):
    """yields (kind, line, new source)"""
    base = ast.parse(src)
    fns = [n for n in ast.walk(base) if isinstance(n, ast.FunctionDef)]
    for fi, fn0 in enumerate(fns):
        if fn0.name.startswith("test") or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn0)):
            continue
        nb = len(list(blocks(fn0)))

        def fresh():
            t = copy.deepcopy(base)
            return t, [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)][fi]

        def out(kind, t, line):
            ast.fix_missing_locations(t)
            try:
                s = ast.unparse(t)
                compile(s, "x", "exec")
                return (kind, fn0.name, line, s)
            except SyntaxError:
                return None
        # rename all locals
        t, fn = fresh()
        ren = {v: v + "_value" for v in bound(fn) if v not in locals_of(fn) and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn))}
        nested = any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn for x in ast.walk(fn))
        if ren and not nested:
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
            yield out("rename", t, fn0.lineno)
        for bi in range(nb):
            stmts0 = list(blocks(fn0))[bi]
            for si, s0 in enumerate(stmts0):
                def at():
                    t, fn = fresh()
                    b = list(blocks(fn))[bi]
                    return t, fn, b, b[si]
                # return expr -> result = expr; return result
                if isinstance(s0, ast.Return) and s0.value is not None and not isinstance(s0.value, (ast.Name, ast.Constant)):
                    t, fn, b, s = at()
                    b[si:si + 1] = [ast.Assign([ast.Name("result_", ast.Store())], s.value), ast.Return(ast.Name("result_", ast.Load()))]
                    yield out("return-local", t, s0.lineno)
                # comprehension -> loop
                v = s0.value if isinstance(s0, (ast.Assign, ast.Return)) else None
                if isinstance(v, ast.ListComp) and len(v.generators) == 1:
                    t, fn, b, s = at()
                    g = s.value.generators[0]
                    tgt = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    if not (tgt & (names(fn, ast.Load) - names(s.value, ast.Load))):
                        app = ast.Expr(ast.Call(ast.Attribute(ast.Name("items_", ast.Load()), "append", ast.Load()), [s.value.elt], []))
                        body = [app]
                        for c in reversed(g.ifs):
                            body = [ast.If(c, body, [])]
                        loop = ast.For(g.target, g.iter, body, [])
                        s.value = ast.Name("items_", ast.Load())
                        b[si:si + 1] = [ast.Assign([ast.Name("items_", ast.Store())], ast.List([], ast.Load())), loop, s]
                        yield out("comp-to-loop", t, s0.lineno)
                # any comprehension inside the statement -> map via helper local list
                # conditional expression -> if statement
                if isinstance(s0, (ast.Assign, ast.Return)) and isinstance(s0.value, ast.IfExp):
                    t, fn, b, s = at()
                    c = s.value
                    mk = lambda e: ast.Return(e) if isinstance(s, ast.Return) else ast.Assign(copy.deepcopy(s.targets), e)
                    b[si] = ast.If(c.test, [mk(c.body)], [mk(c.orelse)])
                    yield out("ifexp-to-if", t, s0.lineno)
                # if/else -> inverted
                if isinstance(s0, ast.If) and s0.orelse and not (len(s0.orelse) == 1 and isinstance(s0.orelse[0], ast.If)):
                    t, fn, b, s = at()
                    b[si] = ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
                    yield out("invert-if", t, s0.lineno)
                # if c: return a; (rest) -> else branch
                if isinstance(s0, ast.If) and not s0.orelse and isinstance(s0.body[-1], (ast.Return, ast.Raise, ast.Continue)) and si + 1 < len(stmts0):
                    t, fn, b, s = at()
                    s.orelse = b[si + 1:]
                    del b[si + 1:]
                    yield out("early-to-else", t, s0.lineno)
                # if/else both assigning -> conditional expression
                if isinstance(s0, ast.If) and len(s0.body) == 1 == len(s0.orelse) and all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (s0.body[0], s0.orelse[0])) \
                        and ast.dump(s0.body[0].targets[0]) == ast.dump(s0.orelse[0].targets[0]):
                    t, fn, b, s = at()
                    b[si] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                    yield out("if-to-ifexp", t, s0.lineno)
                # and -> nested ifs
                if isinstance(s0, ast.If) and not s0.orelse and isinstance(s0.test, ast.BoolOp) and isinstance(s0.test.op, ast.And):
                    t, fn, b, s = at()
                    inner = s.body
                    for c in reversed(s.test.values):
                        inner = [ast.If(c, inner, [])]
                    b[si] = inner[0]
                    yield out("and-to-nested", t, s0.lineno)
                # condition -> local
                if isinstance(s0, ast.If) and not isinstance(s0.test, ast.Name):
                    t, fn, b, s = at()
                    elif_ = any(isinstance(p, ast.If) and p.orelse is b for p in ast.walk(fn))
                    b[si:si + 1] = [ast.Assign([ast.Name("condition_", ast.Store())], s.test), ast.If(ast.Name("condition_", ast.Load()), s.body, s.orelse)]
                    if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                        yield out("cond-local", t, s0.lineno)
                # for x in xs -> enumerate / index / while
                if isinstance(s0, ast.For) and not s0.orelse:
                    t, fn, b, s = at()
                    s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
                    s.target = ast.Tuple([ast.Name("position_", ast.Store()), s.target], ast.Store())
                    yield out("for-enumerate", t, s0.lineno)
                    if isinstance(s0.iter, (ast.Name, ast.Attribute)):
                        t, fn, b, s = at()
                        it = s.iter
                        s.body.insert(0, ast.Assign([s.target], ast.Subscript(it, ast.Name("position_", ast.Load()), ast.Load())))
                        s.target = ast.Name("position_", ast.Store())
                        s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(it)], [])], [])
                        yield out("for-index", t, s0.lineno)
                    if isinstance(s0.iter, ast.Call) and getattr(s0.iter.func, "id", "") == "enumerate" and len(s0.iter.args) == 1 and isinstance(s0.target, ast.Tuple) and isinstance(s0.iter.args[0], (ast.Name, ast.Attribute)):
                        t, fn, b, s = at()
                        it = s.iter.args[0]
                        i, x = s.target.elts
                        s.body.insert(0, ast.Assign([x], ast.Subscript(it, ast.Name(i.id, ast.Load()), ast.Load())))
                        s.target = i
                        s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(it)], [])], [])
                        yield out("enumerate-to-range", t, s0.lineno)
                    if not isinstance(s0.iter, ast.Call):
                        t, fn, b, s = at()
                        b[si:si + 1] = [ast.Assign([ast.Name("sequence_", ast.Store())], s.iter), ast.For(s.target, ast.Name("sequence_", ast.Load()), s.body, [])]
                        yield out("for-local", t, s0.lineno)
                    # append loop -> comprehension / list(map)
                    if len(s0.body) == 1 and isinstance(s0.body[0], ast.Expr) and isinstance(s0.body[0].value, ast.Call) and isinstance(s0.body[0].value.func, ast.Attribute) and s0.body[0].value.func.attr == "append" and isinstance(s0.body[0].value.func.value, ast.Name):
                        t, fn, b, s = at()
                        c = s.body[0].value
                        b[si] = ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", ast.Load()), [ast.ListComp(c.args[0], [ast.comprehension(s.target, s.iter, [], 0)])], []))
                        yield out("append-to-extend", t, s0.lineno)
                # adjacent simple assignments: swap, tuple
                if si + 1 < len(stmts0):
                    a0, b0 = s0, stmts0[si + 1]
                    if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) and pure(x.value) for x in (a0, b0)):
                        ta, tb = ast.unparse(a0.targets[0]), ast.unparse(b0.targets[0])
                        if ta != tb and ta not in ast.unparse(b0) and tb not in ast.unparse(a0) and not (isinstance(a0.targets[0], ast.Attribute) and a0.targets[0].attr in ast.unparse(b0.value)) and not (isinstance(b0.targets[0], ast.Attribute) and b0.targets[0].attr in ast.unparse(a0.value)):
                            t, fn, b, s = at()
                            b[si], b[si + 1] = b[si + 1], b[si]
                            yield out("swap", t, s0.lineno)
                            t, fn, b, s = at()
                            b[si:si + 2] = [ast.Assign([ast.Tuple([b[si].targets[0], b[si + 1].targets[0]], ast.Store())], ast.Tuple([b[si].value, b[si + 1].value], ast.Load()))]
                            yield out("tuple-assign", t, s0.lineno)
                # extract: the value of a statement into a helper function / method
                if isinstance(s0, (ast.Assign, ast.Return)) and s0.value is not None and isinstance(s0.value, (ast.BinOp, ast.Call, ast.Compare, ast.ListComp, ast.IfExp, ast.Dict, ast.Subscript)):
                    t, fn, b, s = at()
                    cls = next((c for c in ast.walk(t) if isinstance(c, ast.ClassDef) and fn in c.body), None)
                    comp = {x.id for g in ast.walk(s.value) if isinstance(g, ast.comprehension) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    lam = {a.arg for l in ast.walk(s.value) if isinstance(l, ast.Lambda) for a in l.args.args}
                    free = sorted((names(s.value) & (locals_of(fn) | bound(fn))) - comp - lam)
                    top = fn in t.body or cls is not None
                    bad = any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(s.value)) or any(isinstance(x, ast.Name) and x.id in ("super", "locals") for x in ast.walk(s.value))
                    if top and not bad:
                        stat = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") for d in fn.decorator_list) or any(isinstance(d, ast.Attribute) for d in fn.decorator_list)
                        if cls is not None and "self" in locals_of(fn):
                            ps = [p for p in free if p != "self"]
                            h = ast.FunctionDef("_extracted_helper", ast.arguments([], [ast.arg("self")] + [ast.arg(p) for p in ps], None, [], [], None, []), [ast.Return(s.value)], [], None)
                            cls.body.insert(cls.body.index(fn) + 1, h)
                            s.value = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_extracted_helper", ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [])
                            yield out("extract-method", t, s0.lineno)
                        elif "__" not in ast.unparse(s.value):
                            h = ast.FunctionDef("_extracted_helper", ast.arguments([], [ast.arg(p) for p in free], None, [], [], None, []), [ast.Return(s.value)], [], None)
                            where = cls if cls is not None else fn
                            t.body.insert(t.body.index(where), h)
                            s.value = ast.Call(ast.Name("_extracted_helper", ast.Load()), [ast.Name(p, ast.Load()) for p in free], [])
                            yield out("extract-function", t, s0.lineno)
                # sub-expression -> local (first call argument or left operand that is not a name)
                if isinstance(s0, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s0.value, ast.Call) and s0.value.args and not isinstance(s0.value.args[0], (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp, ast.Lambda)) \
                        and isinstance(s0.value.func, (ast.Name, ast.Attribute)) and pure(s0.value.func):
                    t, fn, b, s = at()
                    x = s.value.args[0]
                    if not any(isinstance(y, ast.NamedExpr) for y in ast.walk(x)):
                        s.value.args[0] = ast.Name("first_", ast.Load())
                        b[si:si + 1] = [ast.Assign([ast.Name("first_", ast.Store())], x), s]
                        yield out("arg-local", t, s0.lineno)
                if isinstance(s0, (ast.Assign, ast.Return)) and isinstance(s0.value, ast.BinOp) and isinstance(s0.value.left, (ast.BinOp, ast.Call)):
                    t, fn, b, s = at()
                    x = s.value.left
                    s.value.left = ast.Name("left_", ast.Load())
                    b[si:si + 1] = [ast.Assign([ast.Name("left_", ast.Store())], x), s]
                    yield out("left-local", t, s0.lineno)
                # a < b -> b > a
                if isinstance(s0, ast.If) and isinstance(s0.test, ast.Compare) and len(s0.test.ops) == 1 and type(s0.test.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq):
                    t, fn, b, s = at()
                    m = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq}
                    c = s.test
                    if pure(c):
                        s.test = ast.Compare(c.comparators[0], [m[type(c.ops[0])]()], [c.left])
                        yield out("flip-compare", t, s0.lineno)


def main():
    n, sd, workers, outp = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    subs = sys.argv[5:]
    rng = random.Random(sd)
    pool = []
    for f in MAP:
        if subs and not any(s in f for s in subs):
            continue
        ms = [m for m in rewrites(open("/repo/" + f).read()) if m]
        rng.shuffle(ms)
        k = max(6, int(3 * len(ms) ** 0.5))
        pool += [(f, m) for m in ms[:k]]
    rng.shuffle(pool)
    pool = pool[:n]
    print(len(pool), "rewrites", flush=True)
    q = queue.Queue()
    for x in pool:
        q.put(x)
    lock = threading.Lock()
    res = open(outp, "a")

    def work():
        d = tempfile.mkdtemp(prefix="refc")
        r = d + "/r"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        while True:
            try:
                f, m = q.get_nowait()
            except queue.Empty:
                break
            t0 = time.time()
            open(f"{r}/{f}", "w").write(m[3])
            bad = []
            for c in MAP[f]:
                e = dict(os.environ, PVC_REPO=r, PVC_OUT=d + "/o")
                p = subprocess.run(["timeout", "900", "python3-vt", "/verif/check.py", c], cwd="/verif", env=e, capture_output=True, text=True)
                if p.returncode != 0:
                    bad.append(f"{c} rc={p.returncode} " + " | ".join((p.stdout + p.stderr[-300:]).strip().split("\n")[-3:])[:500])
            if bad:
                keep = f"/tmp/refkeep/{os.path.basename(f)[:-3]}-{m[0]}-{m[1]}-{m[2]}.py"
                os.makedirs("/tmp/refkeep", exist_ok=True)
                shutil.copy(f"{r}/{f}", keep)
            shutil.copy("/repo/" + f, f"{r}/{f}")
            with lock:
                res.write(json.dumps(["ALARM" if bad else "quiet", bad, f, *m[:3], round(time.time() - t0)]) + "\n")
                res.flush()
        shutil.rmtree(d)
    ts = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
