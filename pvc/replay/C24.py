import qubolib as Q
import itertools
RULE = "the real rounding search on random layers (1-4 inputs, 1-3 outputs, 1-5 samples, zero inputs, linear and non-linear activations) with a recording stand-in of the solver: for every output the recorded form must equal the mean squared output error up to one constant at every 0/1 decision; non-trivial: more than one input or sample"


def cases(rng, tier):
    for _ in range(250 if tier == "quick" else 5000):
        yield Q.case(rng)


def trivial(c):
    return len(c["x"]) == 1 and len(c["w"][0]) == 1


def run(c):
    if Q.near_integer(c):
        return None
    log, _ = Q.search(c)
    m, n = len(c["w"]), len(c["w"][0])
    seen = set()
    for p, _ in log:
        ls = {l for l in range(m) for u in p.variables if l * n + 1 <= u <= l * n + n or u == n * m + 1 + l}
        if len(ls) != 1 or not p.binary:
            return f"a form over the variables {p.variables} ({'0/1' if p.binary else 'not 0/1'}) is not the form of one output"
        l = ls.pop()
        seen.add(l)
        keys = [l * n + i + 1 for i in range(n)] + [n * m + 1 + l]
        base = None
        for z in itertools.product((0, 1), repeat=n + 1):
            try:
                v = p.value({**{u: 0 for u in p.variables}, **dict(zip(keys, z))})
            except KeyError as e:
                return f"output {l}: the form has an unknown variable {e}"
            e, mag = Q.mse(c, l, z[:n], z[n])
            if base is None:
                base = v - e
            if abs(v - e - base) > 1e-9 * mag + 1e-12 * abs(base):
                return f"output {l}, decisions {z}: the form exceeds the mean squared error by {v - e} but by {base} at the all-zero decisions"
    if seen != set(range(m)):
        return f"no form was solved for the outputs {sorted(set(range(m)) - seen)}"
