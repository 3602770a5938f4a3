"""Linearisation: every nonlinear monomial of the polynomial normal form is
abstracted by one constant (the same monomial is always the same constant).
Stage 1 of every query is decided on the abstraction (sound for proving:
dropping the meaning of products only removes facts); the full nonlinear
query is stage 2."""
from fractions import Fraction
import z3

_keep = []
_lin = {}
_mono = {}
_mono_info = {}
ONE = {(): Fraction(1)}
_table = {}
_pcache = {}


def _reset_if_large():
    if len(_keep) > 400000:
        _keep.clear(); _lin.clear(); _mono.clear(); _mono_info.clear(); _table.clear(); _pcache.clear(); _inv.clear(); _invof.clear()


_inv = {}
_invof = {}


def toreal(e):
    if e.is_int():
        return z3.RealVal(e.as_long()) if z3.is_int_value(e) else z3.ToReal(e)
    return e


class TooBig(Exception):
    pass


def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        n = r.get(k, 0) + s * v
        if n == 0:
            r.pop(k, None)
        else:
            r[k] = n
    return r


def pmul(p, q):
    if len(p) * len(q) > 3000:
        raise TooBig()
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = mkmono(a + b)
            n = r.get(k, 0) + x * y
            if n == 0:
                r.pop(k, None)
            else:
                r[k] = n
    return r


def mkmono(ids):
    ids = sorted(ids)
    # cancel atom * 1/atom
    if any(i in _invof for i in ids):
        out = list(ids)
        for i in ids:
            if i in _invof and _invof[i] in out and i in out:
                out.remove(i)
                out.remove(_invof[i])
        ids = out
    return tuple(ids)


def atom(x):
    i = x.get_id()
    if i not in _table:
        _table[i] = x
        _keep.append(x)
    return {(i,): Fraction(1)}


def num(x):
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return None


def lpoly(x):
    """polynomial over *linearised* atoms"""
    i = x.get_id()
    r = _pcache.get(i)
    if r is None:
        r = _lpoly(x)
        _pcache[i] = r
        _keep.append(x)
    return r


def _lpoly(x):
    v = num(x)
    if v is not None:
        return {(): v} if v else {}
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in x.children():
            r = padd(r, lpoly(c))
        return r
    if k == z3.Z3_OP_SUB:
        ch = x.children()
        r = lpoly(ch[0])
        for c in ch[1:]:
            r = padd(r, lpoly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, lpoly(x.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = ONE
        for c in x.children():
            r = pmul(r, lpoly(c))
        return r
    if k == z3.Z3_OP_TO_REAL:
        return lpoly(x.arg(0))
    if k == z3.Z3_OP_POWER:
        e = num(x.arg(1))
        if e is not None and e.denominator == 1 and 0 <= e <= 6:
            r = ONE
            for _ in range(int(e)):
                r = pmul(r, lpoly(x.arg(0)))
            return r
    if k == z3.Z3_OP_DIV:
        return pmul(lpoly(x.arg(0)), pinv(lpoly(x.arg(1))))
    return atom(rebuild(x))


def pinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        r = {(): 1 / c}
        for a in m:
            r = pmul(r, inv_atom(_table[a]))
        return r
    if not p:
        return atom(z3.Real("inv_zero"))
    # normalise by leading coefficient
    key = tuple(sorted(p))
    lead = p[key[0]]
    q = {m: c / lead for m, c in p.items()}
    return pmul({(): 1 / lead}, inv_atom(build(q, True)))


def inv_atom(x):
    if x.get_id() in _invof:
        return atom(_table[_invof[x.get_id()]])
    t = toreal(x)
    i = x.get_id()
    if i not in _inv:
        c = z3.Const(f"inv#{len(_inv)}", z3.RealSort())
        _inv[i] = c
        _keep.append(x)
        _keep.append(c)
        a = atom(c)
        atom(x)
        _invof[c.get_id()] = i
    return atom(_inv[i])


def build(p, real):
    ts = []
    for m in sorted(p):
        c = p[m]
        if not m:
            ts.append(z3.RealVal(c) if real else z3.IntVal(int(c)))
            continue
        a = mono(m)
        if real:
            a = toreal(a)
            ts.append(a if c == 1 else z3.RealVal(c) * a)
        else:
            ts.append(a if c == 1 else z3.IntVal(int(c)) * a)
    if not ts:
        return z3.RealVal(0) if real else z3.IntVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def mono(m):
    if len(m) == 1:
        return _table[m[0]]
    if m not in _mono:
        isint = all(_table[a].is_int() for a in m)
        c = z3.Const(f"mono#{len(_mono)}", z3.IntSort() if isint else z3.RealSort())
        _mono[m] = c
        _mono_info[c.get_id()] = m
        _keep.append(c)
    return _mono[m]


def rebuild(x):
    """x with linearised children"""
    if x.num_args() == 0 or z3.is_quantifier(x):
        return x
    ch = [lin(c) for c in x.children()]
    if all(a.eq(b) for a, b in zip(ch, x.children())):
        return x
    k = x.decl().kind()
    if k == z3.Z3_OP_ITE:
        return z3.If(*ch)
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_EQ:
        return ch[0] == ch[1]
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return x.decl()(*ch)


ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_POWER}
CMPS = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GE: lambda a, b: a >= b,
        z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GT: lambda a, b: a > b}


def lin(x):
    i = x.get_id()
    r = _lin.get(i)
    if r is None:
        r = _lin1(x)
        _lin[i] = r
        _keep.append(x)
        _keep.append(r)
    return r


def _lin1(x):
    if z3.is_quantifier(x):
        return x
    if x.num_args() == 0:
        return x
    k = x.decl().kind()
    try:
        if k in ARITH:
            p = lpoly(x)
            real = not x.is_int()
            if not real and any(c.denominator != 1 for c in p.values()):
                return rebuild(x)
            return build(p, real)
        if k in CMPS or (k == z3.Z3_OP_EQ and z3.is_arith(x.arg(0))):
            a, b = x.arg(0), x.arg(1)
            p = padd(lpoly(a), lpoly(b), -1)
            real = any(not mono(m).is_int() for m in p if m) or any(c.denominator != 1 for c in p.values())
            e = build(p, real)
            z = z3.RealVal(0) if real else z3.IntVal(0)
            return (e == z) if k == z3.Z3_OP_EQ else CMPS[k](e, z)
    except TooBig:
        pass
    return rebuild(x)


def mono_facts(exprs, limit=60):
    """sign facts for nonlinear monomials occurring in linearised exprs"""
    return []
