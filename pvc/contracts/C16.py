"""C16: one recurrent step follows the real recurrence within the code grid."""
from .lstm import *


_L = {}


def trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def lemma_within(lo, hi):
    """truncation towards zero is within one of the nearest integer (checked once, for every real)"""
    if (lo, hi) not in _L:
        t = z3.Real("lem_t")
        a, b = trunc(t), nearest_up(t)
        if lo is not None:
            a, b = clipz(a, lo, hi), clipz(b, lo, hi)
        sv = z3.Solver()
        sv.set("timeout", 20000)
        sv.add(z3.Not(z3.And(a - b <= 1, b - a <= 1)))
        if sv.check() != z3.unsat:
            raise Unsupported("lemma on truncation not established")
        _L[lo, hi] = True


def within(en, name, code, t, lo=None, hi=None):
    """code is the quantised t within one code (t: real, zero point included)"""
    w, tr = nearest_up(t), trunc(t)
    if lo is None:
        en.prove(name + ": the conversion to int64 does not overflow", z3.And(t < 1 << 60, t > -(1 << 60)))
    if lo is not None:
        w, tr = clipz(w, lo, hi), clipz(tr, lo, hi)
        en.prove(name + " inside its type", in_range(code, lo, hi))
    goal = z3.And(code - w <= 1, w - code <= 1)
    lemma_within(lo, hi)
    en.assume(z3.And(tr - w <= 1, w - tr <= 1))
    en.entails(code == tr) or en.entails(code == w)      # then the lemma decides
    en.prove(name, goal)


class Step(Run):
    def after(self, spec, t, i, b, o, arrs):
        en, c = E.ENG, self.c
        it = arrs.get("inter")
        if it is None:
            raise Unsupported("recorded tensors not found")
        last = lambda f: L_.Helpers.getitem(getattr(it, f), Sym(z3.simplify(i - 1), "pyint"))
        for f, v in vars(it).items():
            if isinstance(v, SList):
                en.prove(f"one recorded entry of {f} per step", ix(v.n) == i)
        h0, c0 = spec.get_state("H", t), spec.get_state("C", t)
        first = z3.is_int_value(t) and t.as_long() == 0
        row = lambda a: z3.IntVal(0) if first else b
        acts = []
        for g in range(4):
            acc = A.sum_term(lambda k: (self.X.at(b, spec.loop.i, k) - c.zx.e) * (c.K[g].at(k, o) - c.zk[g].e), c.F, False) + c.b[g].at(o)
            # deq. inputs and weights, in units of the bias addition's scale
            real = toreal(acc) * (c.sx.e * c.sk[g]) / (c.su[g].e * c.sh)
            self.size(acc, c.M1[g].e, 1 << 33)
            P = toreal(acc) * c.M1[g].e
            en.prove(f"{GATES[g]} gate: real bias addition", real == P)
            ba = last("bias_add")[g].at(b, o)
            within(en, f"{GATES[g]} gate: bias addition", ba, P)
            acc = A.sum_term(lambda k: (h0.at(row(h0), k) - c.zh.e) * (c.U[g].at(k, o) - c.zu[g].e), c.N, False) + ba
            real = toreal(acc) * (c.su[g].e * c.sh) / c.sra[g] + toreal(c.zra[g].e)
            P = toreal(acc) * c.M2[g].e
            en.prove(f"{GATES[g]} gate: real recurrent addition", real == P + toreal(c.zra[g].e))
            ra = last("recurrent_add")[g].at(b, o)
            within(en, f"{GATES[g]} gate: recurrent addition", ra, P + toreal(c.zra[g].e), -128, 127)
            a = last(ACTS[g]).at(b, o)
            en.prove(f"{GATES[g]} gate: table entry of the recurrent addition", a == c.tabs[g].val(ra))
            acts.append(a - c.zg[g].e)
        cp = c0.at(row(c0), o) - c.zc.e
        fc, ic = acts[1] * cp, acts[0] * acts[2]
        P1, P2 = toreal(fc) * c.M3.e, toreal(ic) * c.M4.e
        # deq. forget gate * deq. cell state + deq. input gate * deq. candidate, in units of the cell state's scale
        real = toreal(fc) * c.sg[1].e * c.sc / c.sc + toreal(ic) * (c.sg[0].e * c.sg[2].e) / c.sc
        en.prove("real cell state", real == P1 + P2)
        self.size(fc, c.M3.e, (1 << 8) * (1 << len(bin(c.chi))))
        self.size(ic, c.M4.e, 1 << 16)
        en.prove("cell state: no overflow", z3.And(P1 < 1 << 60, P1 > -(1 << 60), P2 < 1 << 60, P2 > -(1 << 60)))
        cs = last("cell_state").at(b, o)
        within(en, "cell state", cs, P1 + P2 + toreal(c.zc.e), c.clo, c.chi)
        for v in arrs.get("C", []):
            en.prove("the recorded cell state is carried to the next step", v.at(b, o) == cs)
        ca = last("cell_state_act").at(b, o)
        en.prove("table entry of the cell state", ca == c.tabs[4].val(cs))
        hp = acts[3] * (ca - c.zg[4].e)
        P = toreal(hp) * c.M5.e
        real = toreal(hp) * (c.sg[3].e * c.sg[4].e) / c.sh
        en.prove("real hidden state", real == P)
        self.size(hp, c.M5.e, 1 << 16)
        en.prove("hidden state: no overflow", z3.And(P < 1 << 60, P > -(1 << 60)))
        hs = arrs["H"]
        for v in hs:
            within(en, "hidden state", v.at(b, o), P + toreal(c.zh.e), -128, 127)
        for v in hs[1:]:
            en.prove("one hidden state", v.at(b, o) == hs[0].at(b, o))
        en.assume(z3.And(self.H(i, b, o) == hs[0].at(b, o), self.C(i, b, o) == cs))

    def size(self, x, m, lim):
        """|x| <= lim, so |x * m| <= lim * 2^20: no conversion to int64 overflows"""
        en = E.ENG
        en.prove("operand size", z3.And(x <= lim, x >= -lim))
        mulmono(en, toreal(x), lim, m)
        mulmono(en, -lim, toreal(x), m)
        if self.c.how == "integer" and lim <= 1 << 17:
            P = toreal(x) * m
            en.prove("product size", z3.And(P <= lim << 11, P >= -(lim << 11)))


def step(how, idt, celldt, seq):
    def h(en, ld):
        c = Cell(en, how, celldt, seq)
        B, T_ = new_int("batch", 1), new_int("steps", 1)
        X = new_array("x", (B, T_, c.F), idt, -128, 127)
        r = Step(c, X, B, T_, idt)
        LOOP_SPECS.append(resolver(r))
        x0 = X.snapshot()
        L = c.build(ld)
        en.cover("precondition")
        y = L.infer(X)
        b, o, t = fresh_index(0, B, "sample"), fresh_index(0, c.N, "unit"), fresh_index(0, T_, "step")
        if seq:
            en.prove("one hidden state per sample and step", isinstance(y, SArr) and len(y.shape_) == 3)
            en.prove("shape", z3.And(ix(y.shape_[0]) == B.e, ix(y.shape_[1]) == T_.e, ix(y.shape_[2]) == c.N.e))
            en.prove("element t is the hidden state after step t", y.el(b, t, o).e == r.H(t + 1, b, o))
        else:
            en.prove("one hidden state per sample", isinstance(y, SArr) and len(y.shape_) == 2)
            en.prove("shape", z3.And(ix(y.shape_[0]) == B.e, ix(y.shape_[1]) == c.N.e))
            en.prove("the output is the hidden state after the last step", y.el(b, o).e == r.H(T_.e, b, o))
        hs = L.intermediate_tensors.hidden_state
        en.prove("recorded hidden states are those of the steps", hs.el(t, b, o).e == r.H(t + 1, b, o))
        unchanged(en, "input not modified", X, x0)
    return h


HARNESSES = [(f"step[{h},{i},cell {cd},sequences={s}]", step(h, i, cd, s)) for h, i, cd, s in
             [("model", "int64", "int8", True), ("model", "int8", "int8", False), ("ctor", "int8", "int12", True), ("integer", "int64", "int8", False)]]
