"""Loads the real source of /repo mechanically for symbolic execution.

Per run: read the file from the working tree, parse, apply the syntactic
transformation below, compile and exec.  The transformation is semantics
preserving on ordinary values; what it drops: type annotations, docstrings'
formatting of proxies, and output of print/logging.
 * annotations are removed;
 * bare `except:` -> `except Exception:`;
 * `for`/single-generator list comprehensions and generator expressions go
   through pvc helpers, which iterate natively when the length is concrete and
   use a loop contract (invariant) when it is symbolic;
 * subscripts, f-strings, `x[i] op= v` go through helpers (symbolic indices).
"""
import ast
import builtins
import importlib
import math as _math
import os
import re as _re
import sys
import types
import z3
from . import engine as E
from . import terms as T
from . import symnp
from .arrays import (in_term, SArr, SList, SRange, OShape, as_array, ix, dim, eng, list_to_slist, merge, sum_term,
                     bound_index, scope, norm_index)
from .engine import Unsupported, PathEnd, PvcStop
from .terms import Sym, kind

REPO = os.environ.get("PVC_REPO", "/repo")
ROOTS = ["core", "inference_engine", "quantizer", "model_converters/onnx2json",
         "model_converters/keras2json", "model_converters/tflite2json", "demo/demo_lib"]


# ------------------------------------------------------------- AST transform
class Nested(ast.NodeTransformer):
    """x = [e for a in A for b in B]  ->  t = []; for a in A: t.extend([e for b in B]); x = t
    (the comprehension's own variables renamed: they are local to it)"""

    def __init__(self):
        self.uid, self.depth = 0, 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_Lambda(self, n):
        return n

    def stmt(self, n):
        self.generic_visit(n)
        c = n.value
        if not (self.depth and isinstance(c, ast.ListComp) and len(c.generators) > 1) or any(g.is_async for g in c.generators) or any(
                isinstance(x, (ast.NamedExpr, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) and x is not c for x in ast.walk(c)):
            return n
        own = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        self.uid += 1
        tmp = f"pvc_nc{self.uid}"      # no leading underscores: not mangled in classes
        first = c.generators[0].iter          # evaluated outside the comprehension
        for x in ast.walk(c):
            if isinstance(x, ast.Name) and x.id in own and x not in list(ast.walk(first)):
                x.id = f"{tmp}_{x.id}"
        T_ = lambda ctx: ast.Name(tmp, ctx)
        inner = c.generators[-1]
        if isinstance(c.elt, ast.Name) and isinstance(inner.target, ast.Name) and c.elt.id == inner.target.id and not inner.ifs:
            part = ast.Call(ast.Name("list", ast.Load()), [inner.iter], [])
        else:
            part = ast.ListComp(c.elt, [inner])
        body = ast.Expr(ast.Call(ast.Attribute(T_(ast.Load()), "extend", ast.Load()), [part], []))
        for g in c.generators[-2::-1]:
            for cond in g.ifs[::-1]:
                body = ast.If(cond, [body], [])
            body = ast.For(g.target, g.iter, [body], [])
        n.value = T_(ast.Load())
        out = [ast.Assign([T_(ast.Store())], ast.List([], ast.Load())), body, n]
        for o in out[:2]:
            for x in ast.walk(o):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, n)
        return out

    def visit_Assign(self, n): return self.stmt(n)

    def visit_AnnAssign(self, n): return self.stmt(n) if n.value is not None else n

    def visit_Return(self, n): return self.stmt(n) if n.value is not None else n


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.fn_locals, self.fn_stores = [], []
        self.loops = {}
        self.uid = 0

    def h(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name("__pvc__", ast.Load()), name, ast.Load()), list(args), [])

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        if n.args.vararg:
            n.args.vararg.annotation = None
        if n.args.kwarg:
            n.args.kwarg.annotation = None
        # a generator of the form `for t in it: yield e` is the lazy sequence of e
        body = [b for b in n.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.For) and not body[0].orelse and len(body[0].body) == 1 \
                and isinstance(body[0].body[0], ast.Expr) and isinstance(body[0].body[0].value, ast.Yield) \
                and body[0].body[0].value.value is not None:
            f = body[0]
            lam = self.lam(f.target, f.body[0].value.value)
            if lam is not None:
                self.generic_visit(n.args)
                n.body = [ast.copy_location(ast.Return(self.h("genseq", self.visit(f.iter), self.visit(lam))), f)]
                self.stack.pop()
                return n
        a = n.args
        self.fn_locals.append({x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]} |
                              {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        self.fn_stores.append({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        self.generic_visit(n)
        self.fn_stores.pop()
        self.fn_locals.pop()
        self.stack.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            # dataclass-style declaration: keep in class bodies
            if isinstance(n.target, ast.Name):
                n.annotation = ast.Constant("object")
                return n
            return ast.Pass()
        if self.keep_ann:
            n.annotation = ast.Constant("object")
            return n
        return ast.Assign([n.target], n.value)

    keep_ann = True

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name("Exception", ast.Load())
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(self.h("getitem", n.value, self.slice(n.slice)), n)
        return n

    def slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Attribute(ast.Name("__pvc__", ast.Load()), "slice", ast.Load()),
                            [s.lower or none, s.upper or none, s.step or none], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and sum(isinstance(x, ast.Starred) for x in n.targets[0].elts) == 1:
            e = n.targets[0].elts
            k = next(i for i, x in enumerate(e) if isinstance(x, ast.Starred))
            n.value = ast.copy_location(self.h("unstar", n.value, ast.Constant(k), ast.Constant(len(e) - k - 1)), n.value)
            e[k] = e[k].value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(self.h("setitem", t.value, self.slice(t.slice), n.value)), n)
        return n

    def visit_AugAssign(self, n):
        op = n.op
        tgt = n.target
        if isinstance(tgt, ast.Subscript):
            val, idx = self.visit(tgt.value), self.slice(self.visit(tgt.slice))
            self.uid += 1
            a, b = f"__ao{self.uid}", f"__ai{self.uid}"
            v = self.visit(n.value)
            ld = lambda x: ast.Name(x, ast.Load())
            st = lambda x: ast.Name(x, ast.Store())
            cur = self.h("getitem", ld(a), ld(b))
            return [ast.copy_location(ast.Assign([st(a)], val), n),
                    ast.copy_location(ast.Assign([st(b)], idx), n),
                    ast.copy_location(ast.Expr(self.h("setitem", ld(a), ld(b),
                                                      self.h("iop", ast.Constant(type(op).__name__), cur, v))), n)]
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                    parts.append(self.h("fmt", v.value, ast.Constant(v.conversion), spec))
                else:
                    parts.append(v.value)
        return ast.copy_location(self.h("fstr", *parts), n)

    def lam(self, target, body):
        """lambda taking one element and destructuring `target`"""
        if isinstance(target, ast.Name):
            args = ast.arguments([], [ast.arg(target.id)], None, [], [], None, [])
            return ast.Lambda(args, body)
        if isinstance(target, ast.Tuple) and all(isinstance(e, ast.Name) for e in target.elts):
            inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in target.elts], None, [], [], None, []), body)
            args = ast.arguments([], [ast.arg("__t")], None, [], [], None, [])
            return ast.Lambda(args, ast.Call(inner, [ast.Starred(ast.Name("__t", ast.Load()), ast.Load())], []))
        if isinstance(target, ast.Tuple):
            # nested: (i, (a, b))
            names = []
            for k, e in enumerate(target.elts):
                names.append(f"__n{k}" if not isinstance(e, ast.Name) else e.id)
            b = body
            for k, e in enumerate(target.elts):
                if not isinstance(e, ast.Name):
                    b = ast.Call(self.lam(e, b), [ast.Name(f"__n{k}", ast.Load())], [])
            inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), b)
            args = ast.arguments([], [ast.arg("__t")], None, [], [], None, [])
            return ast.Lambda(args, ast.Call(inner, [ast.Starred(ast.Name("__t", ast.Load()), ast.Load())], []))
        return None

    def bound(self, lam):
        """the element of a comprehension is computed when it is asked for: the local
        variables it reads keep their values of now"""
        if not self.fn_locals or not isinstance(lam, ast.Lambda):
            return lam
        args = {x.arg for x in ast.walk(lam) if isinstance(x, ast.arg)}
        free = sorted({x.id for x in ast.walk(lam) if isinstance(x, ast.Name) and x.id in self.fn_locals[-1] and x.id in self.fn_stores[-1]} - args)
        if not free:
            return lam
        outer = ast.Lambda(ast.arguments([], [ast.arg(f) for f in free], None, [], [], None, []), lam)
        return ast.Call(outer, [ast.Name(f, ast.Load()) for f in free], [])

    def comp(self, n, kind):
        if len(n.generators) == 1 and not n.generators[0].is_async:
            g = n.generators[0]
            has_walrus = any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n))
            if not has_walrus:
                self.generic_visit(n)
                body = self.lam(g.target, n.elt)
                if body is not None:
                    if g.ifs:
                        c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                        cond = self.lam(g.target, c)
                    else:
                        cond = ast.Constant(None)
                    return ast.copy_location(self.h(kind, g.iter, self.bound(body), self.bound(cond)), n)
                return n
        self.generic_visit(n)
        return n

    def visit_BoolOp(self, n):
        """x or 0: equal to x when x is an integer (no path split)"""
        self.generic_visit(n)
        if isinstance(n.op, ast.Or) and len(n.values) == 2 and isinstance(n.values[1], ast.Constant) and type(n.values[1].value) is int and n.values[1].value == 0:
            return ast.copy_location(self.h("or0", n.values[0]), n)
        return n

    def visit_List(self, n):
        """[*xs, x]: concatenation"""
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in n.elts):
            parts = [ast.Tuple([ast.Constant(isinstance(x, ast.Starred)), x.value if isinstance(x, ast.Starred) else x], ast.Load()) for x in n.elts]
            return ast.copy_location(self.h("cat", *parts), n)
        return n

    def visit_ListComp(self, n):
        return self.comp(n, "listcomp")

    def visit_GeneratorExp(self, n):
        return self.comp(n, "genexp")

    def visit_DictComp(self, n):
        if len(n.generators) == 1 and not n.generators[0].is_async and not n.generators[0].ifs \
                and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)):
            g = n.generators[0]
            self.generic_visit(n)
            body = self.lam(g.target, ast.Tuple([n.key, n.value], ast.Load()))
            return n if body is None else ast.copy_location(self.h("dictcomp", g.iter, self.bound(body)), n)
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and isinstance(n.func.value, (ast.Constant, ast.Name)) and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(self.h("strjoin", n.func.value, n.args[0]), n)
        return n

    def visit_For(self, n):
        q = ".".join(self.stack)
        k = self.loops.get(q, 0)
        self.loops[q] = k + 1
        assigned = sorted({x.id for b in n.body for x in ast.walk(b)
                           if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} |
                          {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)})
        mutated = sorted(mutated_roots(n.body))
        replaceable = sorted(set(assigned) | {m for m in mutated if self.fn_locals and m in self.fn_locals[-1]})
        infunc = bool(self.stack)
        has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in ast.walk(b))
        self.generic_visit(n)
        if not infunc or has_yield:
            n.iter = self.h("native_iter", n.iter)
            return n
        self.uid += 1
        L = f"__L{self.uid}"
        ld = lambda: ast.Name(L, ast.Load())
        call = lambda m, *a: ast.Call(ast.Attribute(ld(), m, ast.Load()), list(a), [])
        locs = lambda: ast.Call(ast.Name("__locals__", ast.Load()), [], [])
        import copy
        body2 = copy.deepcopy(n.body)
        tgt2 = copy.deepcopy(n.target)
        else2 = copy.deepcopy(n.orelse)
        hav = []
        for v in replaceable:
            hav.append(ast.If(ast.Compare(ast.Constant(v), [ast.In()], [ast.Name(L + "m", ast.Load())]),
                              [ast.Assign([ast.Name(v, ast.Store())],
                                          ast.Subscript(ast.Name(L + "m", ast.Load()), ast.Constant(v), ast.Load()))], []))
        symbolic = [ast.If(call("enter", locs()),
                           [ast.Assign([ast.Name(L + "m", ast.Store())], call("havoc_iter", locs()))] + copy.deepcopy(hav) +
                           [ast.For(tgt2, call("one"), body2, [ast.Expr(call("close", locs()))])],
                           [ast.Assign([ast.Name(L + "m", ast.Store())], call("havoc_exit", locs()))] + copy.deepcopy(hav) +
                           else2)]
        symbolic = self.collect(n, L, call, locs, assigned, mutated, symbolic)
        out = [
            ast.Assign([ast.Name(L, ast.Store())],
                       self.h("loop", n.iter, ast.Constant(f"{self.mod}:{q}#{k}"), ast.Constant(tuple(assigned)), ast.Constant(tuple(mutated)), ast.Constant(counters(n.body)))),
            ast.If(ast.UnaryOp(ast.Not(), ast.Attribute(ld(), "symbolic", ast.Load())),
                   [ast.For(n.target, call("concrete"), n.body, n.orelse)],
                   symbolic),
        ]
        for o in out:
            ast.copy_location(o, n)
            for x in ast.walk(o):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, n)
        return out


    def collect(self, n, L, call, locs, assigned, mutated, symbolic):
        """for t in it: ...; out.append(e) without a contract: out grows by the sequence of e"""
        import copy
        if n.orelse or not n.body or not self.fn_locals:
            return symbolic
        last = n.body[-1]
        if not (isinstance(last, ast.Expr) and isinstance(last.value, ast.Call) and isinstance(last.value.func, ast.Attribute) and last.value.func.attr == "append"
                and isinstance(last.value.func.value, ast.Name) and len(last.value.args) == 1 and not last.value.keywords):
            return symbolic
        var, elt = last.value.func.value.id, last.value.args[0]
        rest = n.body[:-1]
        names = [x.id for b in rest + [elt] for x in ast.walk(b) if isinstance(x, ast.Name)]
        if var in names or set(mutated) - {var} or var not in self.fn_locals[-1] or any(
                isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global, ast.NamedExpr, ast.For, ast.While, ast.Try, ast.With,
                               ast.FunctionDef, ast.Lambda)) for b in rest + [elt] for x in ast.walk(b) if not (isinstance(x, ast.Lambda) and b is not None)):
            return symbolic
        fn = L + "f"
        free = sorted((set(names) & self.fn_locals[-1]) - set(assigned))
        a = ast.arguments([], [ast.arg("__e")] + [ast.arg(f) for f in free], None, [], [], None, [ast.Name(f, ast.Load()) for f in free])
        body = [ast.Assign([copy.deepcopy(n.target)], ast.Name("__e", ast.Load()))] + copy.deepcopy(rest) + [ast.Return(copy.deepcopy(elt))]
        d = ast.FunctionDef(name=fn, args=a, body=body, decorator_list=[], type_params=[])
        lost = [ast.Assign([ast.Name(v, ast.Store())], self.h("poison")) for v in assigned]
        return [ast.If(call("collects", locs()),
                       [d, ast.Assign([ast.Name(var, ast.Store())], call("collect", ast.Name(var, ast.Load()), ast.Name(fn, ast.Load()), locs()))] + lost,
                       symbolic)]

    def visit_While(self, n):
        """a while loop with a contract: one arbitrary iteration from any state of the invariant"""
        q = ".".join(self.stack)
        k = self.loops.get(q, 0)
        self.loops[q] = k + 1
        assigned = sorted({x.id for b in n.body + [n.test] for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))})
        mutated = sorted(mutated_roots(n.body + [ast.Expr(n.test)]))
        has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in ast.walk(b))
        self.generic_visit(n)
        if not self.stack or has_yield or n.orelse:
            return n
        self.uid += 1
        L = f"__L{self.uid}"
        import copy
        ld = lambda: ast.Name(L, ast.Load())
        call = lambda m, *a: ast.Call(ast.Attribute(ld(), m, ast.Load()), list(a), [])
        locs = lambda: ast.Call(ast.Name("__locals__", ast.Load()), [], [])
        hav = [ast.If(ast.Compare(ast.Constant(v), [ast.In()], [ast.Name(L + "m", ast.Load())]),
                      [ast.Assign([ast.Name(v, ast.Store())], ast.Subscript(ast.Name(L + "m", ast.Load()), ast.Constant(v), ast.Load()))], [])
               for v in sorted(set(assigned) | {m for m in mutated if self.fn_locals and m in self.fn_locals[-1]})]
        body2 = [ast.If(ast.UnaryOp(ast.Not(), copy.deepcopy(n.test)), [ast.Break()], [])] + copy.deepcopy(n.body)
        out = [ast.Assign([ast.Name(L, ast.Store())], self.h("wloop", ast.Constant(f"{self.mod}:{q}#{k}"), ast.Constant(tuple(assigned)), ast.Constant(tuple(mutated)), locs())),
               ast.If(ast.UnaryOp(ast.Not(), ast.Attribute(ld(), "symbolic", ast.Load())), [n],
                      [ast.Assign([ast.Name(L + "m", ast.Store())], call("begin", locs()))] + hav +
                      [ast.For(ast.Name(L + "i", ast.Store()), call("one"), body2, [ast.Expr(call("close", locs()))])])]
        for o in out:
            ast.copy_location(o, n)
            for x in ast.walk(o):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, n)
        return out


POISON = object()


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "update", "add",
            "setdefault", "popleft", "appendleft", "discard", "popitem"}


def counters(body):
    """((name, step), ...): names every run through the body increments by a constant, exactly once"""
    if any(isinstance(x, (ast.Continue, ast.Break)) for b in body for x in ast.walk(b)):
        return ()
    stores, steps = {}, {}
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores[x.id] = stores.get(x.id, 0) + 1
            if isinstance(x, (ast.Nonlocal, ast.Global)):
                return ()
        const = lambda v: isinstance(v, ast.Constant) and type(v.value) is int
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, (ast.Add, ast.Sub)) and const(b.value):
            steps[b.target.id] = b.value.value * (1 if isinstance(b.op, ast.Add) else -1)
        elif (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.BinOp)
              and isinstance(b.value.op, ast.Add) and isinstance(b.value.left, ast.Name) and b.value.left.id == b.targets[0].id and const(b.value.right)):
            steps[b.targets[0].id] = b.value.right.value
    return tuple(sorted((v, k) for v, k in steps.items() if stores.get(v) == 1))


def mutated_roots(body):
    """names whose object the statements visibly mutate"""
    out = set()

    def root(x):
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            x = x.value
        return x.id if isinstance(x, ast.Name) else None

    for b in body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(root(x))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                out.add(root(x.func.value))
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
    out.discard(None)
    return out


class Poison:
    def _no(self, *a, **k):
        raise Unsupported("value of a loop-assigned variable not described by the loop contract")

    def __getattr__(self, n):
        self._no()


for _n in ("bool add radd iadd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow neg abs int float len iter index "
           "getitem setitem call contains lt le gt ge eq ne matmul rmatmul lshift rshift and or").split():
    setattr(Poison, f"__{_n}__", Poison._no)
Poison.__hash__ = object.__hash__


LOOP_SPECS = []     # contract-supplied resolvers: f(site, seq, frame) -> spec or None


class LoopSpec:
    """Loop contract. havoc(i, frame) returns {var: value at the start of
    iteration i} and assumes the invariant; check(i, frame) proves it."""

    def entry(self, frame): pass
    def havoc(self, i, frame): return {}
    def check(self, i, frame): pass
    def on_exit(self, frame): pass


def state(frame):
    """visible state of the objects of a frame, by identity"""
    out, seen = [], set()

    def add(o, depth):
        if id(o) in seen or isinstance(o, (type, types.ModuleType, types.FunctionType, Sym)):
            return
        seen.add(id(o))
        if isinstance(o, (SList, SArr)):
            out.append((id(o), getattr(o, "version", 0), id(o.__dict__.get("fn")), id(o.__dict__.get("_get"))))
        elif isinstance(o, (list, tuple)):
            out.append((id(o), tuple(map(id, o))))
            if depth:
                for x in o[:16]:
                    add(x, depth - 1)
        elif isinstance(o, dict):
            out.append((id(o), tuple((str(k), id(v)) for k, v in o.items())))
            if depth:
                for x in list(o.values())[:16]:
                    add(x, depth - 1)
        elif hasattr(o, "__dict__") and not isinstance(o, Poison):
            out.append((id(o), tuple((k, id(v)) for k, v in vars(o).items())))
            if depth:
                for x in list(vars(o).values()):
                    add(x, depth - 1)
    for k, v in frame.items():
        if not k.startswith("__L"):
            add(v, 2)
    return out


class Loop:
    def __init__(self, it, site, assigned, mutated=(), counters=()):
        self.site, self.assigned, self.mutated, self.counters = site, assigned, mutated, counters
        self.it = it
        n = seq_len(it)
        self.n = n
        self.symbolic = n is not None and not isinstance(n, int)
        eng().functions.add(site.split("#")[0])

    def concrete(self):
        if isinstance(self.it, (SRange, SArr, SList)):
            return iter(self.it)
        return iter(self.it)

    def find(self, frame):
        self.spec = None
        for f in LOOP_SPECS:
            self.spec = f(self.site, self.it, frame)
            if self.spec is not None:
                break
        self.found = True

    def collects(self, frame):
        self.find(frame)
        return self.spec is None

    def collect(self, lst, body, frame):
        """the list after `for x in it: lst.append(body(x))`"""
        if not isinstance(lst, (list, SList)):
            raise Unsupported(f"no loop contract for {self.site}")
        it = self.it.copy() if isinstance(self.it, SArr) else self.it
        n = seq_len(it)
        g = it._get if hasattr(it, "_get") else (lambda i: seq_get(it, i))
        k = z3.Int(eng().fresh_name("c"))
        eng().index_vars[k.get_id()] = k
        if eng().branch(ix(n) > 0):
            eng().assume(z3.And(k >= 0, k < ix(n)))
            before = state(frame)
            body(g(k))
            if state(frame) != before:
                raise Unsupported(f"no loop contract for {self.site}")
        new = SList(n, lambda i: body(g(i)))
        if isinstance(lst, list):
            out = list_to_slist(list(lst)) + new if lst else new
            lst[:] = [Poison()]         # the list object itself is not updated
            return out
        lst.become(*(lambda r: (r.n, r._get))(lst + new))
        return lst

    def enter(self, frame):
        en = eng()
        if not getattr(self, "found", False):
            self.find(frame)
        if self.spec is None:
            raise Unsupported(f"no loop contract for {self.site}")
        self.spec.loop = self
        self.spec.n = ix(self.n)
        self.spec.entry(frame)
        self.start = {v: frame[v] for v, _ in self.counters if isinstance(frame.get(v), (int, Sym)) and not isinstance(frame.get(v), bool) and (not isinstance(frame[v], Sym) or kind(frame[v].t) == "i")}
        self.phase = "entry"
        with en.scope():
            try:
                self.spec.check(z3.IntVal(0), dict(frame))
            except PathEnd:
                pass        # the statement is about nothing here (empty range)
        if getattr(self.spec, "one_step_only", False):
            return True         # the contract looks at one arbitrary step, nothing runs after the loop
        return en.choose(2, self.site) == 0

    def _mods(self, m, frame, vers, i):
        out = {v: Poison() for v in self.assigned}
        for v, k in self.counters:
            if v in self.start:
                out[v] = Sym(z3.simplify(ix(self.start[v]) + k * i), "pyint")
        out.update(m or {})
        # frame condition: whatever the body visibly mutates is described by
        # the loop contract or unusable afterwards
        for v in self.mutated:
            if v in self.assigned or v not in frame:
                continue
            o = frame[v]
            if v in (m or {}):
                if m[v] is not o:
                    self._kill(o)
            elif v in getattr(self.spec, "owns", ()):
                pass
            elif isinstance(o, (SList, SArr)) and getattr(o, "version", 0) != vers.get(v):
                pass        # given its contract value in place
            else:
                self._kill(o)
        return out

    def _kill(self, o):
        """aliases of a havocked list must not show its stale content"""
        if isinstance(o, list):
            o[:] = [Poison()]
        elif isinstance(o, SList):
            o.become(o.n, lambda j: Poison())
        elif isinstance(o, SArr):
            raise Unsupported("array mutated in a loop without a contract for it")
        else:
            raise Unsupported(f"object mutated in the loop {self.site} is not described by its contract")

    def _vers(self, frame):
        return {v: getattr(frame.get(v), "version", 0) for v in self.mutated}

    def havoc_iter(self, frame):
        en = eng()
        i = z3.Int(en.fresh_name("it"))
        en.index_vars[i.get_id()] = i
        self.i = i
        self.phase = "run"
        en.assume(z3.And(i >= 0, i < ix(self.n)))
        vers = self._vers(frame)
        m = self.spec.havoc(i, dict(frame))
        return self._mods(m, frame, vers, i)

    def one(self):
        yield seq_get(self.it, self.i)

    def close(self, frame):
        self.phase = "preserve"
        f = {k: v for k, v in frame.items() if not isinstance(v, Poison)}
        self.spec.check(z3.simplify(self.i + 1), f)
        raise PathEnd()

    def havoc_exit(self, frame):
        self.phase = "done"
        vers = self._vers(frame)
        m = self.spec.havoc(ix(self.n), dict(frame))
        self.spec.on_exit(frame)
        return self._mods(m, frame, vers, ix(self.n))


class WLoop(Loop):
    """while loop: the contract (if any) is chosen with seq None; the number of iterations is not bounded,
    termination is not proved"""

    def __init__(self, site, assigned, mutated, frame):
        self.site, self.assigned, self.mutated, self.counters = site, assigned, mutated, ()
        self.it, self.start = None, {}
        self.spec = None
        for f in LOOP_SPECS:
            if getattr(f, "whiles", False):
                self.spec = f(site, None, frame)
                if self.spec is not None:
                    break
        self.symbolic = self.spec is not None
        if self.symbolic:
            eng().functions.add(site.split("#")[0])
            self.spec.loop = self

    def begin(self, frame):
        en = eng()
        self.spec.entry(frame)
        self.phase = "entry"
        with en.scope():
            try:
                self.spec.check(z3.IntVal(0), dict(frame))
            except PathEnd:
                pass
        self.phase = "run"
        self.i = z3.IntVal(0)
        vers = self._vers(frame)
        m = self.spec.havoc(self.i, dict(frame))
        return self._mods(m, frame, vers, self.i)

    def one(self):
        yield 0

    def close(self, frame):
        self.phase = "preserve"
        self.spec.check(None, {k: v for k, v in frame.items() if not isinstance(v, Poison)})
        raise PathEnd()


def seq_len(it):
    """None: unknown python iterable (concrete); int or Sym otherwise"""
    if isinstance(it, (SList, SRange)):
        return it.n
    if isinstance(it, SArr):
        if isinstance(it.shape_, OShape):
            raise Unsupported("iteration over an arbitrary shape")
        if not it.shape_:
            raise TypeError("iteration over a 0-d array")
        return it.shape_[0]
    if isinstance(it, LazySeq):
        return it.n
    return None


def seq_get(it, i):
    if isinstance(it, (SList, SRange, LazySeq)):
        return it.get(i)
    if isinstance(it, SArr):
        return it[Sym(i, "pyint")]
    raise Unsupported("sequence")


class LazySeq:
    """enumerate/zip/reversed/map over symbolic sequences"""

    def __init__(self, n, get):
        self.n, self._get = dim(n), get

    def get(self, i):
        return self._get(ix(i))

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.get(z3.IntVal(i)) for i in range(self.n)])
        raise Unsupported("native iteration over a symbolic sequence")

    def __next__(self):
        raise Unsupported("next() on a symbolic sequence")


def symbolic_seq(x):
    n = seq_len(x)
    return n is not None and not isinstance(n, int)


# --------------------------------------------------------------- pvc helpers
def keeps_all(n, g, cond):
    """does the filter hold for every element?  (decided on a generic one, without a path split)"""
    k = z3.Int(eng().fresh_name("c"))
    eng().index_vars[k.get_id()] = k
    if not eng().branch(ix(n) > 0):
        return True
    at = len(eng().decisions)
    with eng().scope():
        eng().assume(z3.And(k >= 0, k < ix(n)))
        c = cond(g(k))
        if len(eng().decisions) != at:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        if isinstance(c, Sym):
            c = eng().must(c.e if z3.is_bool(c.e) else c.e != 0)
        return bool(c) if isinstance(c, bool) or c is None else False


class Helpers:
    @staticmethod
    def or0(x):
        if isinstance(x, Sym) and x.t == "pyint":
            return x
        return x or 0

    slice = staticmethod(lambda a, b, c: slice(a, b, c))

    @staticmethod
    def loop(it, site, assigned, mutated=(), counters=()):
        return Loop(it, site, assigned, mutated, counters)

    wloop = staticmethod(lambda *a: WLoop(*a))

    @staticmethod
    def native_iter(it):
        return it

    @staticmethod
    def getitem(o, k):
        if isinstance(o, (list, tuple, str)) and not isinstance(o, SStr):
            if isinstance(k, SArr):
                k = k.scalar()
            if isinstance(k, Sym):
                c = T.concrete(k)
                if c is not None:
                    k = int(c) if T.kind(k.t) in "iub" else k
                if isinstance(k, Sym):
                    if T.kind(k.t) == "f":
                        raise TypeError("list indices must be integers or slices, not float")
                    i = norm_index(k, len(o))
                    if not len(o):
                        raise IndexError("list index out of range")
                    if isinstance(o, str):
                        return o[k.__index__()]
                    return list_to_slist(list(o))._get(i)
            if isinstance(k, slice) and any(isinstance(v, Sym) for v in (k.start, k.stop, k.step)):
                vals = [int(T.concrete(v)) if isinstance(v, Sym) and T.concrete(v) is not None else v
                        for v in (k.start, k.stop, k.step)]
                if any(isinstance(v, Sym) for v in vals):
                    return list_to_slist(list(o))[slice(*vals)]
                return o[slice(*vals)]
        return o[k]

    @staticmethod
    def setitem(o, k, v):
        if isinstance(o, list) and isinstance(k, Sym):
            c = T.concrete(k)
            if c is not None:
                k = int(c)
            else:
                i = norm_index(k, len(o))
                for j in range(len(o)):
                    o[j] = merge(i == j, v, o[j])
                return
        o[k] = v

    @staticmethod
    def iop(op, a, b):
        import operator as op_
        f = {"Add": op_.iadd, "Sub": op_.isub, "Mult": op_.imul, "Div": op_.itruediv, "FloorDiv": op_.ifloordiv,
             "Mod": op_.imod, "Pow": op_.ipow, "LShift": op_.ilshift, "RShift": op_.irshift, "BitOr": op_.ior,
             "BitAnd": op_.iand, "BitXor": op_.ixor, "MatMult": op_.imatmul}[op]
        return f(a, b)

    @staticmethod
    def fstr(*parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out += p.parts
            elif isinstance(p, Sym) and T.kind(p.t) in "iu":
                c = T.concrete(p)
                out.append(str(c) if c is not None else Dec(p.e))
            elif isinstance(p, (SArr, SList)):
                out.append("<sym>")
            else:
                out.append(str(p) if not isinstance(p, str) else p)
        return SStr.make(out)

    @staticmethod
    def fmt(v, conv, spec):
        if isinstance(v, (Sym, SArr, SList, SStr)):
            return "<sym>"
        v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v)
        return format(v, spec if isinstance(spec, str) else "")

    @staticmethod
    def listcomp(it, body, cond):
        if isinstance(it, range) and len(it) > 32 and cond is None:
            it = SRange(it.start, it.start + len(it)) if it.step == 1 else it
        if symbolic_seq(it) or (isinstance(it, (SList, SArr, SRange)) and cond is None and seq_len(it) > 32):
            if isinstance(it, SArr):
                it = it.copy()
            n = seq_len(it)
            g = it._get if hasattr(it, "_get") else (lambda i: seq_get(it, i))
            if cond is not None and not keeps_all(n, g, cond):
                raise Unsupported("filtered comprehension over a symbolic sequence")
            if isinstance(it, (SList, SArr)):
                # eager evaluation on a generic element: exceptions surface
                k = z3.Int(eng().fresh_name("c"))
                eng().index_vars[k.get_id()] = k
                if eng().branch(ix(n) > 0):
                    eng().assume(z3.And(k >= 0, k < ix(n)))
                    body(g(k))
            return SList(n, lambda i: body(g(i)))
        out = []
        for x in it:
            if cond is None or cond(x):
                out.append(body(x))
        return out

    @staticmethod
    def unstar(v, a, b):
        """x, *y, z = v"""
        if not (isinstance(v, SList) and not isinstance(v.n, int)):
            v = list(v)
            if len(v) < a + b:
                raise ValueError("not enough values to unpack")
            return (*v[:a], v[a:len(v) - b], *v[len(v) - b:])
        n = ix(v.n)
        if eng().branch(n < a + b):
            raise ValueError("not enough values to unpack")
        return (*[v.get(z3.IntVal(i)) for i in range(a)], v[a:Sym(z3.simplify(n - b), "pyint")], *[v.get(z3.simplify(n - b + i)) for i in range(b)])

    @staticmethod
    def cat(*parts):
        out = []
        for star, x in parts:
            if not star:
                out = out + [x]
            elif isinstance(x, SList) and not isinstance(x.n, int):
                out = x.copy() if isinstance(out, list) and not out else (list_to_slist(out) if isinstance(out, list) else out) + x
            else:
                out = out + list(x)
        return out

    @staticmethod
    def dictcomp(it, body):
        if not symbolic_seq(it):
            return dict(body(x) for x in it)
        g = it._get if hasattr(it, "_get") else (lambda i: seq_get(it, i))
        return KeyTable(seq_len(it), lambda i: body(g(i)))

    @staticmethod
    def poison():
        return Poison()

    @staticmethod
    def strjoin(sep, xs):
        if not isinstance(sep, str):
            return sep.join(xs)
        if symbolic_seq(xs):
            raise Unsupported("join of a symbolic sequence")
        out = []
        for i, x in enumerate(xs):
            if not isinstance(x, str):
                raise TypeError(f"sequence item {i}: expected str instance")
            for y in ([sep] if i else []) + [x]:
                out += y.parts if isinstance(y, SStr) else [y]
        return SStr.make(out)

    @staticmethod
    def genseq(it, body):
        if symbolic_seq(it):
            g = it._get if hasattr(it, "_get") else (lambda i: seq_get(it, i))
            return LazySeq(seq_len(it), lambda i: body(g(i)))
        return (body(x) for x in it)

    @staticmethod
    def genexp(it, body, cond):
        if symbolic_seq(it):
            r = Helpers.listcomp(it, body, cond)
            return LazySeq(r.n, r._get)
        def gen():
            for x in it:
                if cond is None or cond(x):
                    yield body(x)
        return gen()


class KeyTable:
    """{key(x): value(x) for x in seq} over a symbolic sequence whose keys are distinct texts;
    the harness tells where a text would be found: scratch["key_index"](text term)"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def find(self, k):
        en = eng()
        inv = en.scratch.get("key_index")
        if inv is None or not isinstance(k, str):
            raise Unsupported("look-up in a symbolic dictionary")
        t = k.term() if isinstance(k, SStr) else lit(k)
        i = inv(t)
        if not en.branch(z3.And(i >= 0, i < ix(self.n))):
            return None
        key, val = self.item(i)
        if not isinstance(key, SStr):
            raise Unsupported("look-up in a symbolic dictionary")
        return (val,) if en.branch(key.term() == t) else None

    def __getitem__(self, k):
        r = self.find(k)
        if r is None:
            raise KeyError(str(k))
        return r[0]

    def get(self, k, d=None):
        r = self.find(k)
        return d if r is None else r[0]

    def __contains__(self, k):
        return self.find(k) is not None

    def __len__(self):
        raise Unsupported("size of a symbolic dictionary")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic dictionary")


# -------------------------------------------------------------- strings
class Dec:
    """decimal rendering of a non-negative/any integer term"""

    def __init__(self, e):
        self.e = e


class Opq:
    """piece of an arbitrary string (z3 String term)"""

    def __init__(self, e):
        self.e = e


class SStr(str):
    """structured symbolic string: literals, decimal integers, opaque pieces"""

    def __new__(cls, parts):
        o = str.__new__(cls, "<symstr>")
        o.parts = parts
        return o

    @staticmethod
    def make(parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "" or not isinstance(p, str):
                out.append(p)
        if all(isinstance(p, str) for p in out):
            return "".join(out)
        return SStr(out)

    def lower(self):
        return SStr.make([p.lower() if isinstance(p, str) else p if isinstance(p, Dec) else Opq(LOWER(p.e)) for p in self.parts])

    def upper(self):
        return SStr.make([p.upper() if isinstance(p, str) else p if isinstance(p, Dec) else Opq(UPPER(p.e)) for p in self.parts])

    def __contains__(self, p):
        if not isinstance(p, str) or isinstance(p, SStr):
            raise Unsupported("search in a symbolic string")
        t = self.term()
        for q in eng().scratch.get("universe", ()):
            eng().assume(z3.Implies(t == lit(q), CONTAINS(lit(p), t) if p in q else z3.Not(CONTAINS(lit(p), t))))
        return eng().branch(CONTAINS(lit(p), t))

    def strip(self, *a):
        raise Unsupported("str.strip")

    def term(self):
        t = None
        for p in self.parts:
            x = lit(p) if isinstance(p, str) else DEC(p.e) if isinstance(p, Dec) else p.e
            t = x if t is None else CAT(t, x)
        return t

    def __eq__(self, o):
        if isinstance(o, SStr):
            a, b = self.parts, o.parts
            if len(a) == len(b) and all((isinstance(x, str) and x == y) or
                                        (isinstance(x, Dec) and isinstance(y, Dec) and z3.simplify(x.e - y.e).eq(z3.IntVal(0)))
                                        or (isinstance(x, Opq) and isinstance(y, Opq) and x.e.eq(y.e)) for x, y in zip(a, b)):
                return True
            return eng().branch(self.term() == o.term())
        if isinstance(o, str):
            return eng().branch(self.term() == lit(o))
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        # the harness lists the literals that can be the key of a table; any other text is no key
        u = eng().scratch.get("universe")
        if u is None:
            raise Unsupported("hash of a symbolic string")
        for q in u:
            if self == q:
                return hash(q)
        return str.__hash__("<no key>")

    def __add__(self, o):
        return SStr.make(self.parts + (o.parts if isinstance(o, SStr) else [o]))

    def __radd__(self, o):
        return SStr.make([o] + self.parts)

    def startswith(self, p):
        if isinstance(self.parts[0], str) and len(self.parts[0]) >= len(p):
            return self.parts[0].startswith(p)
        return eng().branch(PREFIX(lit(p), self.term()))

    def endswith(self, p):
        return eng().branch(SUFFIX(lit(p), self.term()))

    def isdigit(self):
        if all(isinstance(p, Dec) for p in self.parts):
            return True
        raise Unsupported("isdigit")

    def __getattribute__(self, n):
        if n in ("split", "replace", "find", "index", "encode", "rstrip", "lstrip", "isalpha", "isnumeric", "join", "format",
                 "partition", "rpartition", "removeprefix"):
            raise Unsupported(f"str.{n} on a symbolic string")
        return str.__getattribute__(self, n)

    def __getitem__(self, k):
        if isinstance(k, slice) and isinstance(self.parts[0], str):
            p0 = self.parts[0]
            if k.start is not None and isinstance(k.start, int) and 0 <= k.start <= len(p0) and k.stop is None and k.step is None:
                return SStr.make([p0[k.start:]] + self.parts[1:])
            if k.start in (None, 0) and isinstance(k.stop, int) and 0 <= k.stop <= len(p0):
                return p0[:k.stop]
        raise Unsupported("indexing of a symbolic string")


# abstract text: literals are distinct constants, everything else uninterpreted
TXT = z3.DeclareSort("Txt")
LOWER = z3.Function("str_lower", TXT, TXT)
UPPER = z3.Function("str_upper", TXT, TXT)
CONTAINS = z3.Function("str_contains", TXT, TXT, z3.BoolSort())
CAT = z3.Function("str_cat", TXT, TXT, TXT)
DEC = z3.Function("str_dec", z3.IntSort(), TXT)
PREFIX = z3.Function("str_prefix", TXT, TXT, z3.BoolSort())
SUFFIX = z3.Function("str_suffix", TXT, TXT, z3.BoolSort())


def lit(p):
    c = z3.Const(f"lit:{p}", TXT)
    seen = eng().scratch.setdefault("lits", {})
    if p not in seen:
        for o in seen.values():
            eng().assume(o != c)
        seen[p] = c
    return c


# -------------------------------------------------------------- builtins
class _TypeProxy(type):
    def __new__(mcs, name, bases, ns, **k):
        if any(isinstance(b, _TypeProxy) for b in bases):      # a class of the code derived from a builtin
            return type(name, tuple(b._real if isinstance(b, _TypeProxy) else b for b in bases), dict(ns), **k)
        return super().__new__(mcs, name, bases, ns, **k)

    def __init__(cls, name, bases, ns, **k):
        super().__init__(name, bases, ns)

    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __or__(cls, o):
        return object

    __ror__ = __or__

    def __getitem__(cls, k):
        return object        # a generic alias, used in annotations only


def _mk(name, real, inst, call, np_name=None):
    ns = {"_inst": staticmethod(inst), "_real": real, "__new__": lambda cls, *a, **k: call(*a, **k)}
    if np_name:
        ns["py_dtype"] = np_name
    return _TypeProxy(name, (), ns)


def p_int(x=0, base=None):
    if base is not None:
        return int(x, base)
    if isinstance(x, SArr):
        x = x.scalar()
    if isinstance(x, Sym):
        return Sym(T.trunc_(x.e) if not z3.is_bool(x.e) else T.toint_sort(x.e), "pyint")
    if isinstance(x, SStr):
        if len(x.parts) == 1 and isinstance(x.parts[0], Dec):
            return Sym(x.parts[0].e, "pyint")
        if len(x.parts) == 1 and getattr(x.parts[0], "digits", False):
            v = T.new_int("width", 0)
            eng().scratch.setdefault("decimals", []).append(v.e)
            return v
        raise Unsupported("int() of a symbolic string")
    return int(x)


def p_float(x=0.0):
    if isinstance(x, SArr):
        x = x.scalar()
    if isinstance(x, Sym):
        return Sym(T.toreal(x.e), "pyfloat")
    return float(x)


def p_bool(x=False):
    if isinstance(x, Sym):
        return Sym(T.truth(x), "pybool")
    return bool(x)


def p_len(x):
    n = seq_len(x)
    if n is None and isinstance(getattr(type(x), "__len__", None), types.FunctionType) and not isinstance(x, dict):
        return type(x).__len__(x)
    return len(x) if n is None else n


def p_range(*a):
    a = [x.scalar() if isinstance(x, SArr) else x for x in a]
    for x in a:
        if isinstance(x, Sym) and T.kind(x.t) == "f" or isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    a = [int(T.concrete(x)) if isinstance(x, Sym) and T.concrete(x) is not None else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    return SRange(*a)


def p_list(x=()):
    if isinstance(x, range) and len(x) > 32 and x.step == 1:
        return SList(len(x), lambda i, a=x.start: Sym(z3.simplify(i + a), "pyint"))
    n = seq_len(x)
    if isinstance(n, int) and n > 32 and isinstance(x, SList):
        return SList(n, x._get)
    if n is None:
        return list(x)
    if isinstance(n, int):
        return [seq_get(x, z3.IntVal(i)) for i in range(n)]
    if isinstance(x, SArr):
        snap = x.copy()
        return SList(n, lambda i: snap[Sym(i, "pyint")])
    if isinstance(x, SRange):
        return SList(n, x.get)
    return SList(n, x._get)


def p_tuple(x=()):
    n = seq_len(x)
    if n is not None and not isinstance(n, int):
        return p_list(x)
    return tuple(p_list(x)) if n is not None else tuple(x)


def p_str(x=""):
    if isinstance(x, SStr):
        return x
    if isinstance(x, Sym) and T.kind(x.t) in "iu":
        return Helpers.fstr(x)
    return str(x)


def p_isinstance(x, c):
    if isinstance(c, tuple):
        return any(p_isinstance(x, k) for k in c)
    if isinstance(c, symnp.AnyType):
        return isinstance(x, Sym) and not x.t.startswith("py") and T.kind(x.t) in c.kinds
    if isinstance(c, symnp.DT):
        return isinstance(x, Sym) and x.t == c.name
    if c is list and isinstance(x, SArr) and x.listy:
        return True
    if c in (list,):
        return isinstance(x, (list, SList))
    try:
        return isinstance(x, c)
    except TypeError:
        if isinstance(c, (StubModule, Stub)):
            return c.__pvc_instance__(x) if hasattr(type(c), "__pvc_instance__") else False
        raise


def p_sum(x, start=0):
    n = seq_len(x)
    if n is None or isinstance(n, int):
        r = start
        for v in (x if n is None else [seq_get(x, z3.IntVal(i)) for i in range(n)]):
            r = r + v
        return r
    en = eng()
    for hint in en.scratch.get("sum_hints", []):
        r = hint(x, n)
        if r is not None:
            return r + start if not (isinstance(start, int) and start == 0) else r
    k = bound_index("k")
    with scope(k >= 0, k < ix(n)):
        probe = in_term(lambda: seq_get(x, k))
    if isinstance(probe, SArr):
        sh, t = probe.shape_, probe.t
        real = T.kind(t) == "f"
        return SArr(sh, t, lambda idx: sum_term(lambda i: seq_get(x, i).at(*idx), n, real)) + start
    s = T.sym(probe)
    real = T.kind(s.t) == "f"
    t = s.t if s.t != "pybool" else "pyint"
    r = Sym(sum_term(lambda i: T.toint_sort(T.sym(seq_get(x, i)).e), n, real), t)
    return r + start if not (isinstance(start, int) and start == 0) else r


def p_anyall(isany):
    def f(x):
        n = seq_len(x)
        if n is None or isinstance(n, int):
            items = x if n is None else (seq_get(x, z3.IntVal(i)) for i in range(n))
            for v in items:
                if isany and v:
                    return True
                if not isany and not v:
                    return False
            return not isany
        if isinstance(x, SArr):
            if x.ndim > 1:
                bool(x[0])
            return symnp._quant(x, isany)
        arr = SArr((n,), "bool", lambda idx: in_term(lambda: T.truth(seq_get(x, idx[0]))))
        return Sym(symnp._quant(arr, isany).e, "pybool")
    return f


def p_maxmin(ismax):
    real = max if ismax else min

    def f(*a, key=None, default=None, **k):
        if key is not None:
            return real(*a, key=key, **k)
        if len(a) == 1:
            n = seq_len(a[0])
            if n is not None and not isinstance(n, int):
                return symnp._extreme(as_array(a[0]), None, False, ismax)
            items = list(a[0]) if n is None else [seq_get(a[0], z3.IntVal(i)) for i in range(n)]
            if not items:
                if default is not None:
                    return default
                raise ValueError("arg is an empty sequence")
        else:
            items = list(a)
        if not any(isinstance(x, (Sym, SArr)) for x in items):
            return real(items)
        r = items[0]
        for x in items[1:]:
            if isinstance(r, SArr) or isinstance(x, SArr):
                r = x if ((x > r) if ismax else (x < r)) else r
                continue
            c = T.truth((T.sym(x) > r) if ismax else (T.sym(x) < r))
            lx, lr = T.sym(x), T.sym(r)
            if T.kind(lx.t) == T.kind(lr.t):
                r = Sym(z3.If(c, lx.e, lr.e), lr.t if lx.t == lr.t else lx.t)
            else:
                r = x if eng().branch(c) else r
        return r
    return f


def p_enumerate(x, start=0):
    if symbolic_seq(x):
        return LazySeq(seq_len(x), lambda i: (Sym(z3.simplify(i + ix(start)), "pyint"), seq_get(x, i)))
    return enumerate(x if seq_len(x) is None else p_list(x), start)


def p_zip(*xs, strict=False):
    ns = [seq_len(x) for x in xs]
    if any(n is not None and not isinstance(n, int) for n in ns):
        n = None
        for x, k in zip(xs, ns):
            kk = k if k is not None else len(list(x))
            if n is None:
                n = kk
            elif not (isinstance(n, int) and isinstance(kk, int) and n == kk):
                if eng().must(ix(n) == ix(kk)):
                    continue
                n = kk if eng().branch(ix(kk) < ix(n)) else n
        xs2 = [x if k is not None else list_to_slist(list(x)) for x, k in zip(xs, ns)]
        return LazySeq(n, lambda i: tuple(seq_get(x, i) for x in xs2))
    return zip(*[x if k is None else p_list(x) for x, k in zip(xs, ns)], strict=strict)


def p_reversed(x):
    if symbolic_seq(x):
        n = seq_len(x)
        return LazySeq(n, lambda i: seq_get(x, z3.simplify(ix(n) - 1 - i)))
    return reversed(x if seq_len(x) is None else p_list(x))


def p_map(f, *xs):
    if len(xs) == 1 and symbolic_seq(xs[0]):
        x = xs[0]
        return LazySeq(seq_len(x), lambda i: f(seq_get(x, i)))
    return map(f, *[x if seq_len(x) is None else p_list(x) for x in xs])


def p_filter(f, x):
    if symbolic_seq(x):
        raise Unsupported("filter over a symbolic sequence")
    return filter(f, x)


def p_sorted(x, **k):
    if symbolic_seq(x):
        raise Unsupported("sorted of a symbolic sequence")
    return sorted(x, **k)


def p_abs(x):
    return abs(x)


def p_round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


def p_open(*a, **k):
    raise Unsupported("file access in symbolic execution")


def p_type(*a, **k):
    if len(a) == 1 and isinstance(a[0], Sym):
        t = a[0].t
        return {"pyint": BUILTINS["int"], "pyfloat": BUILTINS["float"], "pybool": BUILTINS["bool"]}.get(t) or symnp.DT.get(t)
    if len(a) == 1 and isinstance(a[0], (SList,)):
        return list
    return type(*a, **k)


def p_divmod(a, b):
    return (a // b, a % b)


def p_pow(a, b, *m):
    return pow(a, b, *m) if m else a ** b


def p_callable(x):
    return callable(x)


def _inst_py(t, real):
    return lambda x: (isinstance(x, Sym) and (x.t == t or (real is int and x.t == "pybool") or (real is float and x.t == "float64"))) \
        or (not isinstance(x, Sym) and isinstance(x, real))


BUILTINS = dict(vars(builtins))


# ---------------------------------------------------------------- stub modules
class Stub:
    """attribute/call sink for modules absent from the sandbox"""

    def __init__(self, name="stub"):
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        s = Stub(f"{self._name}.{n}")
        self.__dict__[n] = s
        return s

    def __call__(self, *a, **k):
        if len(a) == 1 and not k and (isinstance(a[0], types.FunctionType) or isinstance(a[0], type)):
            return a[0]        # used as a decorator
        return Stub(self._name + "()")

    def __mro_entries__(self, bases):
        return (StubBase,)

    def __getitem__(self, k):
        return Stub(self._name + "[]")

    def __or__(self, o): return object
    __ror__ = __or__

    def __iter__(self):
        raise Unsupported(f"iteration over stub {self._name}")

    def __bool__(self):
        raise Unsupported(f"truth of stub {self._name}")

    def __repr__(self):
        return f"<stub {self._name}>"


class StubBase:
    def __init__(self, *a, **k):
        pass


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n in ("__all__", "__path__", "__file__", "__spec__"):
            if n == "__all__":
                # the real package lets `os` through to star imports
                return ["os"] if self.__name__ == "qiskit.visualization" else []
            raise AttributeError(n)
        if n == "os" and self.__name__ == "qiskit.visualization":
            return types.SimpleNamespace(environ={})
        s = Stub(f"{self.__name__}.{n}")
        setattr(self, n, s)
        return s


# ------------------------------------------------------------------ the loader
class QuietLogging(types.ModuleType):
    def __init__(self):
        super().__init__("logging")
        import logging
        for n in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "NOTSET"):
            setattr(self, n, getattr(logging, n))

    class _L:
        def __getattr__(self, n):
            return lambda *a, **k: None

    def getLogger(self, *a): return QuietLogging._L()
    Logger = object

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: QuietLogging._L()


def sym_math():
    m = types.ModuleType("math")
    for n in dir(_math):
        if not n.startswith("__"):
            setattr(m, n, getattr(_math, n))

    def w(name, f):
        real = getattr(_math, name)

        def g(*a):
            a = [x.scalar() if isinstance(x, SArr) else x for x in a]
            if any(isinstance(x, Sym) for x in a):
                return f(*a)
            return real(*a)
        setattr(m, name, g)
    w("tanh", lambda x: T.f_tanh(x, "pyfloat"))
    w("exp", lambda x: T.f_exp(x, "pyfloat"))
    w("floor", lambda x: Sym(T.floor_(x.e), "pyint"))
    w("ceil", lambda x: -Sym(T.floor_(-T.toreal(x.e)), "pyint"))
    w("trunc", lambda x: Sym(T.trunc_(x.e), "pyint"))
    w("fabs", lambda x: p_float(abs(x)))
    w("frexp", lambda x: symnp.T_frexp(x))
    w("sqrt", lambda x: Sym(symnp.sqrt(x).e, "pyfloat"))
    w("log", lambda x: T.uf1("log", x, None, "pyfloat"))
    w("log2", lambda x: T.uf1("log2", x, None, "pyfloat"))
    w("log10", lambda x: T.f_log10(x, "pyfloat"))
    w("pow", lambda a, b: p_float(a ** b) if isinstance(a, Sym) else p_float(T.sym(a) ** b))
    w("isnan", lambda x: False)
    w("isinf", lambda x: False)
    w("isfinite", lambda x: True)
    w("ldexp", lambda a, b: p_float(a) * (T.sym(2) ** b))
    return m


def sym_re():
    m = types.ModuleType("re")
    for n in dir(_re):
        if not n.startswith("__"):
            setattr(m, n, getattr(_re, n))

    def findall(pat, s, *f):
        if not isinstance(s, SStr):
            return _re.findall(pat, s, *f)
        return ENG_RE("findall", pat, s)
    m.findall = findall

    def gen(nm):
        real = getattr(_re, nm)

        def g(pat, s, *f):
            if isinstance(s, SStr):
                return ENG_RE(nm, pat, s)
            return real(pat, s, *f)
        return g
    m.match, m.fullmatch, m.search = gen("match"), gen("fullmatch"), gen("search")

    def sub(pat, rep, s, *f):
        if isinstance(s, SStr):
            raise Unsupported("re.sub on a symbolic string")
        return _re.sub(pat, rep, s, *f)
    m.sub = sub
    return m


def ENG_RE(fn, pat, s):
    h = eng().scratch.get("re_contract")
    if h is None:
        raise Unsupported("regex on a symbolic string")
    return h(fn, pat, s)


CODE = {}       # transformed and compiled sources of this run


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.roots = [os.path.join(self.repo, r) for r in ROOTS]
        self.modules = {}
        self.replacements = {}
        self.sources = {}
        self.np = symnp.make_module()
        self.modules["numpy"] = self.np
        self.modules["math"] = sym_math()
        self.modules["re"] = sym_re()
        self.modules["logging"] = QuietLogging()
        self.stub_missing = True
        b = dict(vars(builtins))
        b.update(
            int=_mk("int", int, _inst_py("pyint", int), p_int, "int64"),
            float=_mk("float", float, _inst_py("pyfloat", float), p_float, "float64"),
            bool=_mk("bool", bool, lambda x: isinstance(x, bool) or (isinstance(x, Sym) and x.t == "pybool"), p_bool, "bool"),
            str=_mk("str", str, lambda x: isinstance(x, str), p_str),
            len=p_len, range=p_range, list=list, isinstance=p_isinstance, sum=p_sum, any=p_anyall(True), all=p_anyall(False),
            max=p_maxmin(True), min=p_maxmin(False), enumerate=p_enumerate, zip=p_zip, reversed=p_reversed, map=p_map,
            filter=p_filter, sorted=p_sorted, abs=p_abs, round=p_round, print=lambda *a, **k: None, open=p_open,
            type=p_type, divmod=p_divmod, pow=p_pow, input=p_open, __import__=self.imp)
        b["list"] = _mk("list", list, lambda x: isinstance(x, (list, SList)) or (isinstance(x, SArr) and x.listy), p_list)
        b["tuple"] = _mk("tuple", tuple, lambda x: isinstance(x, tuple), p_tuple)
        b["__pvc__"] = Helpers
        b["__locals__"] = None
        self.builtins = b
        BUILTINS.update(b)

    def find(self, name):
        rel = name.replace(".", "/")
        for r in self.roots:
            p = os.path.join(r, rel)
            if os.path.isdir(p):
                init = os.path.join(p, "__init__.py")
                return ("pkg", init if os.path.exists(init) else None, p)
            if os.path.exists(p + ".py"):
                return ("mod", p + ".py", None)
        return None

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            base = pkg.split(".")
            if level > 1:
                base = base[:-(level - 1)]
            name = ".".join(base + ([name] if name else []))
        mod = self.load(name)
        if fromlist:
            for f in fromlist:
                if f == "*":
                    continue
                if not isinstance(mod, StubModule) and not hasattr(mod, f):
                    if self.find(f"{name}.{f}"):
                        setattr(mod, f, self.load(f"{name}.{f}"))
            return mod
        return self.load(name.split(".")[0])

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        f = self.find(name)
        if f is None:
            top = name.split(".")[0]
            if top in ("numpy",):
                m = StubModule(name) if name not in ("numpy", "numpy.typing") else self.np if name == "numpy" else self.np.typing
                self.modules[name] = m
                return m
            if top in ("scipy", "matplotlib", "sklearn", "pandas", "tensorflow", "keras", "tqdm", "seaborn", "onnx"):
                m = self.modules[name] = StubModule(name)
                return m
            try:
                m = importlib.import_module(name)
            except Exception:
                m = StubModule(name)
            self.modules[name] = m
            return m
        kind, path, d = f
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        mod = types.ModuleType(name)
        mod.__dict__["__builtins__"] = dict(self.builtins, __locals__=_locals)
        self.modules[name] = mod
        if kind == "pkg":
            mod.__path__ = [d]
            mod.__package__ = name
        else:
            mod.__package__ = name.rpartition(".")[0]
        if path:
            self.exec_file(mod, path)
        if parent:
            setattr(self.modules[parent], leaf, mod)
        return mod

    def load_file(self, rel, name=None, pre=None):
        """load a single file by repository-relative path"""
        name = name or rel.replace("/", ".")[:-3]
        mod = types.ModuleType(name)
        mod.__dict__["__builtins__"] = dict(self.builtins, __locals__=_locals)
        mod.__package__ = name.rpartition(".")[0]
        if pre:
            mod.__dict__.update(pre)
        self.modules[name] = mod
        self.exec_file(mod, os.path.join(self.repo, rel))
        return mod

    def exec_file(self, mod, path):
        src = open(path, encoding="utf-8").read()
        mod.__file__ = path
        self.sources[path] = len(src)
        code = CODE.get((path, src))
        if code is None:
            tree = ast.parse(src, path)
            tree = Tr(os.path.relpath(path, self.repo)).visit(Nested().visit(tree))
            # class bodies with annotations keep them (dataclasses)
            ast.fix_missing_locations(tree)
            code = CODE[path, src] = compile(tree, path, "exec", dont_inherit=True)
        known = mod.__name__ in sys.modules     # dataclasses look their module up
        if not known:
            sys.modules[mod.__name__] = mod
        try:
            exec(code, mod.__dict__)
        finally:
            if not known:
                sys.modules.pop(mod.__name__, None)


def _locals():
    f = sys._getframe(1)
    return dict(f.f_locals)
