"""shared machinery for the recurrent cell: a cell built from an arbitrary
description, and the contract of its time loop"""
from .common import *
from pvc.loader import LoopSpec, LOOP_SPECS
from pvc import loader as L_

LS = "itcl_inference_engine.layers.itclq.lstm"
GATES = ("input", "forget", "cell", "output")
ACTS = ("input_gate_act", "forget_gate_act", "cell_gate_act", "output_gate_act")
I3 = (z3.IntSort(),) * 4


class Table:
    """the activation table of a node: one code for every code of its input type"""

    def __init__(self, name, lo, hi, olo, ohi):
        self.f = z3.Function(f"table_{name}", z3.IntSort(), z3.IntSort())
        self.lo, self.hi, self.olo, self.ohi = lo, hi, olo, ohi

    def __getitem__(self, k):
        k = ix(k)
        E.ENG.prove("looked-up code is inside the table", z3.And(k >= 0, k <= self.hi - self.lo))
        return Sym(self.val(k + self.lo), "pyint")

    def val(self, code):
        v = self.f(z3.simplify(code - self.lo))
        E.ENG.assume(in_range(v, self.olo, self.ohi))
        return v


class Cell:
    """description of an arbitrary cell; how: 'model' or 'ctor' (integer-only or not)"""

    def __init__(self, en, how="model", celldt="int8", seq=True):
        self.en, self.how, self.celldt, self.seq = en, how, celldt, seq
        self.clo, self.chi = tlimits(celldt)
        self.F, self.N = new_int("features", 1, 1 << 15), new_int("cells", 1, 1 << 15)
        z8 = lambda n: new_int(n, -128, 127)
        self.zx, self.zh = z8("input_zp"), z8("hidden_zp")
        self.zc = new_int("cell_zp", self.clo, self.chi)
        self.sx = new_real("input_scale", pos=True)
        self.K, self.U, self.b, self.zk, self.zu, self.zra, self.zg = [], [], [], [], [], [], []
        self.M1, self.M2, self.sg, self.su, self.sk, self.sra = [], [], [], [], [], []
        for g in GATES:
            self.K.append(new_array(f"kernel_{g}", (self.F, self.N), "int64", -128, 127))
            self.U.append(new_array(f"recurrent_{g}", (self.N, self.N), "int64", -128, 127))
            self.b.append(new_array(f"bias_{g}", (self.N,), "int64", -(1 << 31), (1 << 31) - 1))
            self.zk.append(z8(f"kernel_zp_{g}"))
            self.zu.append(z8(f"recurrent_zp_{g}"))
            self.zra.append(z8(f"recurrent_add_zp_{g}"))
            self.zg.append(z8(f"{g}_gate_zp"))
            self.M1.append(self.mult(f"M1_{g}"))
            self.M2.append(self.mult(f"M2_{g}"))
            self.sg.append(new_real(f"{g}_gate_scale", pos=True))
            self.su.append(new_real(f"recurrent_scale_{g}", pos=True))
        self.zg.append(z8("cell_act_zp"))
        self.sg.append(new_real("cell_act_scale", pos=True))
        lim = 1 << (11 if how == "integer" else 20)       # fixed point: the operand error stays below 1/4
        self.M4, self.M5 = self.mult("M4", lim), self.mult("M5", lim)
        en.assume(self.sg[1].e <= lim)
        self.M3 = self.sg[1]
        # every set of scales has this form
        self.sh = self.sg[3].e * self.sg[4].e / self.M5.e
        self.sc = self.sg[0].e * self.sg[2].e / self.M4.e
        self.sk = [self.M1[g].e * self.sh * self.su[g].e / self.sx.e for g in range(4)]
        self.sra = [self.su[g].e * self.sh / self.M2[g].e for g in range(4)]
        self.tabs = [Table(g, -128, 127, -128, 127) for g in GATES] + [Table("cell", self.clo, self.chi, -128, 127)]
        self.off = [128] * 4 + [-self.clo]

    def mult(self, n, lim=1 << 20):
        m = new_real(n, pos=True)
        self.en.assume(m.e <= lim)
        self.lim = lim
        return m

    def operator(self):
        f = lambda e: Sym(e, "pyfloat") if not isinstance(e, Sym) else e
        t = lambda v, dt: {"name": "n", "dtype": dt, "shape": None, "tensor": v}
        nd = lambda s, z, v=None, dt="int8", lut=None: {"scale": f(s), "zero_point": z, "tensor": t(v, dt), "LUT": lut}
        lut = lambda i: {"LUT": self.tabs[i], "reduced_LUT": None, "offset": self.off[i]}
        ins = [nd(self.sx, self.zx)]
        ins += [nd(self.sk[g], self.zk[g], nested(self.K[g])) for g in range(4)]
        ins += [nd(self.su[g], self.zu[g], nested(self.U[g])) for g in range(4)]
        ins += [nd(self.sx.e * self.sk[g], 0, nested(self.b[g]), "int32") for g in range(4)]
        ins += [nd(self.su[g].e * self.sh, 0, None, "int32") for g in range(4)]
        ins += [nd(self.sra[g], self.zra[g]) for g in range(4)]
        ins += [nd(self.sc, self.zc, None, self.celldt)]
        for g in range(4):
            ins += [nd(self.sra[g], self.zra[g], None, "int8", lut(g)), nd(self.sg[g], self.zg[g])]
        ins += [nd(self.sc, self.zc, None, self.celldt, lut(4)), nd(self.sg[4], self.zg[4])]
        return {"op_type": "LSTM", "name": "lstm", "inputs": ins, "outputs": [nd(self.sh, self.zh)],
                "attributes": {"return_sequences": {"value": [self.seq], "dtype": "bool"}, "n_cells": {"value": [self.N], "dtype": "int"}}}

    def build(self, ld):
        m = ld.load(LS)
        m.FloatingIntegerApprox = Approx
        if self.how == "model":
            return m.LSTM.from_model(self.operator())
        LA = ld.load("itcl_inference_engine.layers.common.lut").LUTActivation
        luts = [LA(self.tabs[i], self.off[i]) for i in range(5)]
        f = lambda e: Sym(e, "pyfloat") if not isinstance(e, Sym) else e
        return m.LSTM(kernel=[k - z for k, z in zip(self.K, self.zk)], recurrent_kernel=[k - z for k, z in zip(self.U, self.zu)], bias=list(self.b),
                      M1=list(self.M1), M2=list(self.M2), M3=f(self.M3), M4=f(self.M4), M5=f(self.M5),
                      input_gate_lut=luts[0], forget_gate_lut=luts[1], cell_gate_lut=luts[2], output_gate_lut=luts[3], cell_state_lut=luts[4],
                      input_zp=self.zx, bias_add_zp=0, recurrent_add_zp=list(self.zra), hidden_state_zp=self.zh, input_gate_zp=self.zg[0],
                      forget_gate_zp=self.zg[1], cell_gate_zp=self.zg[2], output_gate_zp=self.zg[3], cell_state_zp=self.zc,
                      cell_state_activation_zp=self.zg[4], bias_add_dtype="int32", recurrent_add_dtype="int8", cell_state_dtype=self.celldt,
                      hidden_state_dtype="int8", return_sequences=self.seq, fp_integer_only=self.how == "integer")


class Approx:
    """contract of FloatingIntegerApprox (discharged by C10): the real product, or
    in integer mode an integer within 1/2 + |x| M 2^-30 of it"""

    def __init__(self, floating_value, integer_only=True):
        self.v, self.integer = T.sym(floating_value), integer_only

    def __mul__(self, o):
        en = E.ENG
        if not self.integer:
            return o * self.v
        if not isinstance(o, SArr):
            raise Unsupported("product of a fixed-point multiplier with a scalar")
        f = z3.Function("approx_product", z3.RealSort(), z3.RealSort(), z3.IntSort())      # elementwise, no state

        def el(idx):
            idx = tuple(ix(i) for i in idx)
            x = toreal(o.at(*idx))
            r = f(self.v.e, x)
            P = x * self.v.e          # multipliers of the cell are positive
            b = z3.Q(1, 2) + z3.If(P >= 0, P, -P) / (1 << 30)
            en.assume(z3.And(toreal(r) - P <= b, toreal(r) - P >= -b))
            return r
        return SArr(o.shape_, "int64", lambda i: el(i))


class Run:
    """one inference: the ghost states and what the loop contract observed"""

    def __init__(self, cell, X, B, T_, idt):
        self.c, self.X, self.B, self.T = cell, X, B, T_
        en = E.ENG
        self.H = z3.Function(en.fresh_name("H"), *I3)      # (step, sample, unit): states after `step` steps
        self.C = z3.Function(en.fresh_name("C"), *I3)
        self.log = {k: z3.Function(en.fresh_name(k), *I3) for k in ACTS + ("cell_state_act",)}

    def at_step(self, i):
        return i

    def state(self, fn, i, lo, hi, zp):
        """state array after i steps"""
        N = self.c.N
        if z3.is_int_value(i) and i.as_long() == 0:
            return SArr((1, N), "int64", lambda idx: zp.e)

        E.ENG.scratch.setdefault("ranges", {})[fn.name()] = (lo, hi)

        def at(idx):
            v = fn(i, ix(idx[0]), ix(idx[1]))
            E.ENG.assume(in_range(v, lo, hi))
            return v
        return SArr((self.B, N), "int64", at)

    def hidden(self, i):
        return self.state(self.H, i, -128, 127, self.c.zh)

    def cellst(self, i):
        return self.state(self.C, i, self.c.clo, self.c.chi, self.c.zc)


def is_state(a, N):
    return isinstance(a, SArr) and not isinstance(a.shape_, OShape) and len(a.shape_) == 2 and E.ENG.must(ix(a.shape_[1]) == N.e)


class Steps(LoopSpec):
    """after i steps the states are those of the recurrence; recorded tensors have one entry per step"""
    owns = ()

    def __init__(self, run):
        self.r = run

    def entry(self, frame):
        en, c = E.ENG, self.r.c
        o = fresh_index(0, c.N, "o")
        self.role = {}
        for k in sorted(set(self.loop.assigned) | set(self.loop.mutated)):
            v = frame.get(k)
            if is_state(v, c.N) or (isinstance(v, list) and len(v) == 1 and is_state(v[0], c.N)):
                a = v[0] if isinstance(v, list) else v
                e = a.at(z3.IntVal(0), o)
                h, q = en.must(e == c.zh.e), en.must(e == c.zc.e)
                if h == q:
                    # not recognised by its value: by position of the state types
                    raise Unsupported(f"{k} does not start as the hidden or the cell state")
                self.role[k] = ("hist" if isinstance(v, list) else "arr", "H" if h else "C", a)
            elif isinstance(v, list) and not v:
                self.role[k] = ("out", None, None)
            elif type(v).__name__ == "LSTMIntermediateTensors":
                self.role[k] = ("inter", None, v)
                self.owns = self.owns + (k,)
        hs = [k for k, v in self.role.items() if v[1] == "H"]
        if not hs:
            raise Unsupported("hidden state not recognised among the loop's variables")

    def get_state(self, which, i):
        return self.r.hidden(i) if which == "H" else self.r.cellst(i)

    def hist(self, which, n, first):
        """list of the states after first, first+1, ... steps"""
        en = E.ENG

        def get(j):
            k = z3.simplify(j + first)
            if en.must(k == 0):
                return self.get_state(which, z3.IntVal(0))
            if en.must(k >= 1):
                return self.get_state(which, k)
            raise Unsupported("element of the state history before or after the initial state")
        return SList(n, get)

    def havoc(self, i, frame):
        en, r = E.ENG, self.r
        i = r.at_step(z3.simplify(i))
        if not z3.is_int_value(i) and not en.must(i >= 1):
            if en.choose(2) == 0:
                en.assume(i == 0)
                i = z3.IntVal(0)
            else:
                en.assume(i >= 1)
        self.i = i
        self.given = []
        out = {}
        for k, (kind_, which, a) in self.role.items():
            if kind_ == "arr":
                st = self.get_state(which, i)
                if z3.is_int_value(i) and i.as_long() == 0:
                    st = a
                out[k] = st
                self.given.append(st)
            elif kind_ == "hist":
                out[k] = self.hist(which, z3.simplify(i + 1), 0)
            elif kind_ == "out":
                out[k] = self.hist("H", i, 1)
            elif kind_ == "inter":
                o = a            # in place: every alias sees the entries
                for f, v in list(vars(o).items()):
                    if isinstance(v, (list, SList)):
                        setattr(o, f, SList(i, lambda j, f=f: Recorded(f, j)))
                out[k] = o
        return out

    def check(self, i, frame):
        en, r = E.ENG, self.r
        c = r.c
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() == 0:
            o, b = fresh_index(0, c.N, "o"), z3.IntVal(0)
            for k, (kind_, which, _) in self.role.items():
                v = frame[k]
                if which:
                    a = v[0] if kind_ == "hist" else v
                    en.prove(f"the {'hidden' if which == 'H' else 'cell'} state starts as real zero", a.at(b, o) == (c.zh if which == "H" else c.zc).e)
            return
        t = self.i
        i = z3.simplify(t + 1)
        b, o = fresh_index(0, r.B, "sample"), fresh_index(0, c.N, "unit")
        arrs = {}
        for k, (kind_, which, _) in self.role.items():
            v = frame.get(k)
            if kind_ in ("hist", "out"):
                n = z3.simplify(i + 1) if kind_ == "hist" else i
                if not isinstance(v, (list, SList)) or not en.must(ix(len(v) if isinstance(v, list) else v.n) == n):
                    if kind_ == "out":
                        continue
                    raise Unsupported("state history does not grow by one element per step")
                v = L_.Helpers.getitem(v, Sym(z3.simplify(n - 1), "pyint"))
                which = which or "H"
                root = v
                while isinstance(root, SArr) and root.base is not None:
                    root = root.base[0]
                if any(root is g for g in self.given):
                    raise Unsupported("recorded state shares its memory with a state that changes later")
            elif kind_ == "inter":
                arrs["inter"] = v
                continue
            if not isinstance(v, SArr) or len(v.shape_) != 2:
                raise Unsupported("a state of an unexpected form")
            en.prove("state has one row per sample and one column per unit", z3.And(ix(v.shape_[0]) == r.B.e, ix(v.shape_[1]) == c.N.e))
            arrs.setdefault(which, []).append(v)
        r.after(self, t, i, b, o, arrs)


class Recorded:
    """entry of the tensors recorded at an earlier step (never looked at by the code)"""

    def __init__(self, f, j):
        self.f, self.j = f, j


def resolver(run):
    def f(site, seq, frame):
        if "lstm.py" not in site:
            return None
        n = L_.seq_len(seq)
        r = run() if callable(run) else run
        if n is None or isinstance(n, int) or not E.ENG.must(ix(n) == r.T.e):
            return None
        sp = Steps(r)
        sp.one_step_only = getattr(r, "nested", None) is not None
        return sp
    return f
