"""C17: relations between two inferences of a cell, of arbitrary lengths and batches."""
from .lstm import *

BOTH = ("H", "C")


def one_value(en, arrs, which, b, o):
    vs = [a.at(b, o) for a in arrs.get(which, [])]
    for v in vs[1:]:
        en.prove("one value per state", v == vs[0])
    return vs[0] if vs else None


class First(Run):
    """an inference on a cell that has not been used before"""
    nested = None

    def at_step(self, i):
        n = self.nested
        if n is None:
            return i
        en = E.ENG
        en.assume(i == n.loop_i)         # the same step of the other inference
        n.alias.append((i, n.loop_i))
        return n.t

    def after(self, spec, t, i, b, o, arrs):
        en = E.ENG
        n = self.nested
        if n is None:
            for w in BOTH:
                one_value(en, arrs, w, b, o)
            return
        for w in BOTH:
            v, x = one_value(en, arrs, w, n.other, n.unit), n.values[w]
            if (v is None) != (x is None):
                raise Unsupported("states of two inferences not comparable")
            if v is not None:
                en.prove(f"{'hidden' if w == 'H' else 'cell'} state: one step of the same sample with the same input gives the same state", v == x)


class Second(Run):
    """an inference whose sample b2 agrees with sample m of the first one for `cut` steps"""

    def __init__(self, cell, X, B, T_, idt, first, b2, m, cut, fresh):
        super().__init__(cell, X, B, T_, idt)
        self.first, self.b2, self.m, self.cut, self.fresh = first, b2, m, cut, fresh
        self.coupled = True

    def state(self, fn, i, lo, hi, zp):
        f = self.first
        mine = fn is self.H
        st = super().state(fn, i, lo, hi, zp)
        if z3.is_int_value(i) and i.as_long() == 0:
            return st
        fst = Run.state(f, f.H if mine else f.C, i, lo, hi, zp)

        def at(idx):
            b, k = ix(idx[0]), ix(idx[1])
            return fst.at(self.m, k) if b.eq(self.b2) and E.ENG.must(i <= self.cut.e) else z3.If(z3.And(b == self.b2, i <= self.cut.e), fst.at(self.m, k), st.at(b, k))
        return SArr((self.B, self.c.N), "int64", at)

    def after(self, spec, t, i, b, o, arrs):
        en = E.ENG
        en.assume(i <= self.cut.e)
        n = type("N", (), {})()
        n.values = {w: one_value(en, arrs, w, self.b2, o) for w in BOTH}
        n.other, n.unit, n.t, n.loop_i, n.alias = self.m, o, t, spec.loop.i, self.alias
        self.first.nested = n
        self.current[0] = self.first
        self.fresh.infer(self.first.X)
        raise PathEnd()


def harness(how, idt, celldt, last):
    def h(en, ld):
        en.scratch["plain_casts"] = True        # the proof compares the terms of two steps
        c = Cell(en, how, celldt, True)
        current = [None]
        LOOP_SPECS.append(resolver(lambda: current[0]))
        L, L0 = c.build(ld), c.build(ld)
        B1, T1 = new_int("batch", 1), new_int("steps", 1)
        X1 = new_array("x", (B1, T1, c.F), idt, -128, 127)
        alias = []
        raw = X1.fn
        X1.fn = lambda idx: raw((idx[0], z3.simplify(z3.substitute(idx[1], *alias)) if alias else idx[1], idx[2]))
        B2, T2 = new_int("batch2", 1), (T1 if last else new_int("steps2", 1))
        m, b2 = fresh_index(0, B1, "sample"), fresh_index(0, B2, "sample2")
        cut = T1 if last else new_int("common_steps", 1)
        en.assume(z3.And(cut.e <= T1.e, cut.e <= T2.e))
        Y = new_array("other", (B2, T2, c.F), idt, -128, 127)

        def x2(idx):
            b, t, k = idx
            if b.eq(b2) and en.must(t < cut.e):
                return X1.at(m, t, k)
            return z3.If(z3.And(b == b2, t < cut.e), X1.at(m, t, k), Y.at(b, t, k))
        X2 = SArr((B2, T2, c.F), idt, x2)
        r1 = First(c, X1, B1, T1, idt)
        if last:
            c.seq = False
            L2 = c.build(ld)
        else:
            L2 = L
        r2 = Second(c, X2, B2, T2, idt, r1, b2, m, cut, L0)
        r2.alias, r2.current = alias, current
        en.cover("precondition")
        current[0] = r1
        S1 = L.infer(X1)
        s1 = S1.snapshot()
        current[0] = r2
        S2 = L2.infer(X2)
        o = fresh_index(0, c.N, "unit")
        t = T1.e - 1 if last else fresh_index(0, cut, "step")
        en.prove("sequence of the first inference", isinstance(S1, SArr) and len(S1.shape_) == 3)
        en.prove("one element per sample, step and unit", z3.And(ix(S1.shape_[0]) == B1.e, ix(S1.shape_[1]) == T1.e, ix(S1.shape_[2]) == c.N.e))
        if last:
            en.prove("one element per sample and unit", z3.And(len(S2.shape_) == 2, ix(S2.shape_[0]) == B2.e, ix(S2.shape_[1]) == c.N.e))
            en.prove("the output without sequences is the last element of the sequence", S2.at(b2, o) == s1((m, t, o)))
        else:
            en.prove("one element per sample, step and unit (2)", z3.And(ix(S2.shape_[0]) == B2.e, ix(S2.shape_[1]) == T2.e, ix(S2.shape_[2]) == c.N.e))
            en.prove("element t depends on the sample's own inputs up to t only", S2.at(b2, t, o) == s1((m, t, o)))
            en.prove("the first result is not changed by the second inference", S1.at(m, t, o) == s1((m, t, o)))
    return h


HARNESSES = [(f"{'last element' if l else 'causal'}[{h},{i},cell {cd}]", harness(h, i, cd, l)) for h, i, cd, l in
             [("model", "int64", "int8", False), ("model", "int8", "int8", True), ("ctor", "int8", "int12", False), ("integer", "int64", "int8", True)]]
