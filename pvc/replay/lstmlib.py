"""random recurrent cells described as the quantiser exports them"""
from rc import *
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.common.lut import LUTActivation as A

I8, I16 = (-128, 127), (-32768, 32767)
ACT = {"s": lambda x: 1 / (1 + np.exp(-x)), "t": np.tanh}


def gen(rng, wide=True):
    F, N = rng.randint(1, 3), rng.randint(1, 3)
    celldt = rng.choice(["int8", "int8", "int8", "int12"]) if wide else "int8"
    z8 = lambda: rng.choice([0, rng.randint(-128, 127), -128, 127])
    codes = lambda r, c: [[rng.randint(-128, 127) for _ in range(c)] for _ in range(r)]
    clo, chi = limits(celldt)
    c = {"F": F, "N": N, "B": rng.randint(1, 3), "T": rng.randint(1, 5), "seq": rng.random() < .6, "celldt": celldt,
         "sx": rscale(rng), "zx": z8(), "sh": rng.choice([1 / 128, 1 / 100, 2.0 ** -rng.randint(5, 9)]), "zh": z8(),
         "sk": [rng.uniform(1e-4, 5e-2) for _ in range(4)], "zk": [z8() for _ in range(4)], "K": [codes(F, N) for _ in range(4)],
         "su": [rng.uniform(1e-4, 5e-2) for _ in range(4)], "zu": [z8() for _ in range(4)], "U": [codes(N, N) for _ in range(4)],
         "b": [[rng.choice([0, rng.randint(-3000, 3000), rng.randint(-10 ** 6, 10 ** 6)]) for _ in range(N)] for _ in range(4)],
         "sra": [rng.choice([1 / 16, 1 / 32, 1 / 64, rng.uniform(.01, .2)]) for _ in range(4)], "zra": [z8() for _ in range(4)],
         "sg": [rng.choice([1 / 256, 1 / 200, 1 / 128]) for _ in range(5)], "zg": [rng.choice([-128, 0, rng.randint(-128, 127)]) for _ in range(5)],
         "sc": rng.choice([1 / 64, 1 / 32, 1 / 20, 1 / 1000 if celldt != "int8" else 1 / 100]), "zc": rng.choice([0, 0, rng.randint(clo, chi)]),
         "dt": rng.choice(["int64", "int64", "int8"]), "how": "model"}
    if rng.random() < .3:
        c["zh"] = c["zc"] = 0
    c["sx"] = rng.choice([1 / 128, 1 / 64, .05])
    c["how"] = rng.choice(["model", "model", "model", "ctor", "integer"])
    c["X"] = [[[rng.choice([rng.randint(-128, 127), -128, 127, c["zx"]]) for _ in range(F)] for _ in range(c["T"])] for _ in range(c["B"])]
    return c


def table(fn, si, zi, so, zo, lo, hi, olo, ohi):
    x = (np.arange(lo, hi + 1) - zi) * si
    return [int(v) for v in np.clip(np.floor(fn(x) / so + zo + .5), olo, ohi)]


def operator(c):
    N = c["N"]
    t = lambda v, dt: {"name": "n", "dtype": dt, "shape": None, "tensor": v}
    nd = lambda s, z, v=None, dt="int8", lut=None: {"scale": s, "zero_point": z, "tensor": t(v, dt), "LUT": lut}
    lut = lambda L, off: {"LUT": L, "reduced_LUT": None, "offset": off}
    ins = [nd(c["sx"], c["zx"])]
    ins += [nd(c["sk"][g], c["zk"][g], c["K"][g]) for g in range(4)]
    ins += [nd(c["su"][g], c["zu"][g], c["U"][g]) for g in range(4)]
    ins += [nd(c["sx"] * c["sk"][g], 0, c["b"][g], "int32") for g in range(4)]
    ins += [nd(c["su"][g] * c["sh"], 0, None, "int32") for g in range(4)]
    ins += [nd(c["sra"][g], c["zra"][g]) for g in range(4)]
    ins += [nd(c["sc"], c["zc"], None, c["celldt"])]
    T = tables(c)
    for g in range(4):
        ins += [nd(c["sra"][g], c["zra"][g], None, "int8", lut(T[g], 128)), nd(c["sg"][g], c["zg"][g])]
    lo, hi = limits(c["celldt"])
    ins += [nd(c["sc"], c["zc"], None, c["celldt"], lut(T[4], -lo)), nd(c["sg"][4], c["zg"][4])]
    return {"op_type": "LSTM", "name": "lstm", "inputs": ins, "outputs": [nd(c["sh"], c["zh"])],
            "attributes": {"return_sequences": {"value": [c["seq"]], "dtype": "bool"}, "n_cells": {"value": [N], "dtype": "int"}}}


def tables(c):
    f = ["s", "s", "t", "s"]
    T = [table(ACT[f[g]], c["sra"][g], c["zra"][g], c["sg"][g], c["zg"][g], -128, 127, -128, 127) for g in range(4)]
    lo, hi = limits(c["celldt"])
    T.append(table(np.tanh, c["sc"], c["zc"], c["sg"][4], c["zg"][4], lo, hi, -128, 127))
    return T


def build(c):
    if c["how"] == "model":
        return LSTM.from_model(operator(c))
    T = tables(c)
    lo = limits(c["celldt"])[0]
    luts = [A(T[g], 128) for g in range(4)] + [A(T[4], -lo)]
    ar = lambda k, z: [np.array(a) - b for a, b in zip(c[k], c[z])]
    return LSTM(kernel=ar("K", "zk"), recurrent_kernel=ar("U", "zu"), bias=[np.array(b) for b in c["b"]],
                M1=[c["sk"][g] * c["sx"] / (c["sh"] * c["su"][g]) for g in range(4)], M2=[c["su"][g] * c["sh"] / c["sra"][g] for g in range(4)],
                M3=c["sg"][1], M4=c["sg"][0] * c["sg"][2] / c["sc"], M5=c["sg"][3] * c["sg"][4] / c["sh"],
                input_gate_lut=luts[0], forget_gate_lut=luts[1], cell_gate_lut=luts[2], output_gate_lut=luts[3], cell_state_lut=luts[4],
                input_zp=c["zx"], bias_add_zp=0, recurrent_add_zp=c["zra"], hidden_state_zp=c["zh"], input_gate_zp=c["zg"][0],
                forget_gate_zp=c["zg"][1], cell_gate_zp=c["zg"][2], output_gate_zp=c["zg"][3], cell_state_zp=c["zc"], cell_state_activation_zp=c["zg"][4],
                bias_add_dtype="int32", recurrent_add_dtype="int8", cell_state_dtype=c["celldt"], hidden_state_dtype="int8",
                return_sequences=c["seq"], fp_integer_only=c["how"] == "integer")
