from lstmlib import *
RULE = "random cells (1..3 units and features, batches 1..3, 1..5 steps), built from a description, directly, and in integer-only mode; cell states of 8 and 12 bits, every intermediate compared with the exact recurrence on its quantised operands; non-trivial: some non-zero weight"


def cases(rng, tier):
    for _ in range(700 if tier == "quick" else 8000):
        yield gen(rng)


def trivial(c):
    return not any(any(r) for k in "KU" for g in c[k] for r in g)


def q(t, z, dt):
    lo, hi = limits(dt)
    return min(max(floor(t + z + Fr(1, 2)), lo), hi)


def run(c):
    L = build(c)
    X = np.array(c["X"], dtype=c["dt"])
    keep = X.copy()
    Y = L.infer(X)
    if not np.array_equal(X, keep):
        return "input modified"
    B, T, N, F = c["B"], c["T"], c["N"], c["F"]
    if list(np.shape(Y)) != ([B, T, N] if c["seq"] else [B, N]):
        return f"result shape {np.shape(Y)}"
    it = L.intermediate_tensors
    hs = np.asarray(it.hidden_state)
    tabs = tables(c)
    clo = limits(c["celldt"])[0]
    fr = lambda v: Fr(float(v))
    for t in range(T):
        for b in range(B):
            h = [int(hs[t - 1][b, k]) - c["zh"] for k in range(N)] if t else [0] * N
            for o in range(N):
                where = f"step {t} sample {b} unit {o}"
                gates = []
                for g in range(4):
                    acc = sum((int(X[b, t, k]) - c["zx"]) * (c["K"][g][k][o] - c["zk"][g]) for k in range(F)) + c["b"][g][o]
                    ba = int(it.bias_add[t][g][b, o])
                    want = acc * fr(c["sx"]) * fr(c["sk"][g]) / (fr(c["su"][g]) * fr(c["sh"]))
                    if abs(ba - floor(want + Fr(1, 2))) > 1:
                        return f"{where}: bias addition of gate {g} is {ba}, expected {float(want)}"
                    acc = sum(h[k] * (c["U"][g][k][o] - c["zu"][g]) for k in range(N)) + ba
                    want = q(acc * fr(c["su"][g]) * fr(c["sh"]) / fr(c["sra"][g]), c["zra"][g], "int8")
                    ra = int(it.recurrent_add[t][g][b, o])
                    if abs(ra - want) > 1 or not -128 <= ra <= 127:
                        return f"{where}: recurrent addition of gate {g} is {ra}, expected {want}"
                    a = int([it.input_gate_act, it.forget_gate_act, it.cell_gate_act, it.output_gate_act][g][t][b, o])
                    if a != tabs[g][ra + 128]:
                        return f"{where}: activation of gate {g} is {a}, its table holds {tabs[g][ra + 128]} for {ra}"
                    gates.append((a - c["zg"][g]) * fr(c["sg"][g]))
                cp = (int(it.cell_state[t - 1][b, o]) - c["zc"]) * fr(c["sc"]) if t else Fr(0)
                want = q((gates[1] * cp + gates[0] * gates[2]) / fr(c["sc"]), c["zc"], c["celldt"])
                cs = int(it.cell_state[t][b, o])
                lo, hi = limits(c["celldt"])
                if abs(cs - want) > 1 or not lo <= cs <= hi:
                    return f"{where}: cell state is {cs}, expected {want}"
                ca = int(it.cell_state_act[t][b, o])
                if ca != tabs[4][cs - clo]:
                    return f"{where}: activated cell state is {ca}, its table holds {tabs[4][cs - clo]}"
                want = q(gates[3] * (ca - c["zg"][4]) * fr(c["sg"][4]) / fr(c["sh"]), c["zh"], "int8")
                hv = int(hs[t][b, o])
                if abs(hv - want) > 1 or not -128 <= hv <= 127:
                    return f"{where}: hidden state is {hv}, expected {want}"
                out = int(Y[b, t, o]) if c["seq"] else (int(Y[b, o]) if t == T - 1 else hv)
                if out != hv:
                    return f"{where}: output {out} is not the hidden state {hv}"
