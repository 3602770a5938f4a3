from lstmlib import *
RULE = "random cells as for C16: last element against the output without sequences, prefixes, samples alone, repeated inference, and another input in between; non-trivial: more than one step"


def cases(rng, tier):
    for _ in range(500 if tier == "quick" else 6000):
        c = gen(rng)
        c["T"] = rng.randint(2, 6)
        c["X"] = [[[rng.randint(-128, 127) for _ in range(c["F"])] for _ in range(c["T"])] for _ in range(c["B"])]
        c["cut"], c["alt"] = rng.randint(1, c["T"] - 1), rng.randint(0, 1 << 30)
        yield c


def run(c):
    X = np.array(c["X"], dtype=c["dt"])
    L = build({**c, "seq": True})
    S = np.array(L.infer(X))
    B, T, N = c["B"], c["T"], c["N"]
    if S.shape != (B, T, N):
        return f"sequence of shape {S.shape}"
    if not np.array_equal(np.array(L.infer(X)), S):
        return "second inference on the same data differs"
    L1 = build({**c, "seq": False})
    last = np.array(L1.infer(X))
    if last.shape != (B, N) or not np.array_equal(last, S[:, -1]):
        return "output without sequences is not the last element of the sequence"
    k = c["cut"]
    X2 = X.copy()
    X2[:, k:] = np.random.default_rng(c["alt"]).integers(-128, 128, X2[:, k:].shape)
    S2 = np.array(L.infer(X2))
    if not np.array_equal(S2[:, :k], S[:, :k]):
        return f"elements before step {k} depend on later inputs"
    if not np.array_equal(np.array(L.infer(X[:, :k])), S[:, :k]):
        return f"inference on the first {k} steps alone differs from the start of the sequence"
    for b in range(B):
        if not np.array_equal(np.array(L.infer(X[b:b + 1])), S[b:b + 1]):
            return f"sample {b} alone gives another result than in its batch"
    if not np.array_equal(np.array(L.infer(X)), S):
        return "inference after other inputs differs on the same data"
    X[:, k:] = X2[:, k:]
    if not np.array_equal(np.array(L.infer(X)), S2):
        return "inference on a refilled input buffer differs from inference on the same data"
