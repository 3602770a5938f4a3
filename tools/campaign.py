"""campaign.py N SEED WORKERS OUT [file-substring...]: random source mutants of the code the properties depend on.
A mutant that still passes the stable tests is run through the checks of its file; survivors are listed for triage."""
import ast, os, random, shutil, subprocess, sys, tempfile, threading, queue, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import stable_ok
IE = "inference_engine/itcl_inference_engine/"
Q = "quantizer/itcl_quantizer/"
K = Q + "tensor_extractor/keras/"
MAP = {
 "core/itcl_quantization/quantization/operators.py": ["C01", "C02", "C03", "C04", "C05"],
 "core/itcl_quantization/quantization/lut.py": ["C07", "C08", "C06"],
 IE + "layers/common/lut.py": ["C06"], IE + "util/floating.py": ["C10", "C09"],
 IE + "layers/tflite/fullyconnected.py": ["C10", "C09", "C19"],
 IE + "layers/onnx/q_linear_mmul.py": ["C11", "C19"], IE + "layers/onnx/q_linear_add.py": ["C12", "C19"],
 **{IE + "layers/" + f: ["C13", "C19"] for f in ("tflite/tanh.py", "tflite/logistic.py", "tflite/quantize.py", "tflite/dequantize.py", "onnx/q_linear_sigmoid.py", "onnx/quantize_linear.py", "onnx/dequantize_linear.py", "onnx/tanh.py")},
 IE + "layers/onnx/softmax.py": ["C14", "C19"], IE + "layers/common/relu.py": ["C15", "C19"],
 IE + "layers/itclq/lstm.py": ["C16", "C17", "C19"],
 IE + "network/sequential.py": ["C18"], IE + "layers/common/layer.py": ["C18"],
 IE + "layers/tflite/build_layer.py": ["C19"], IE + "layers/onnx/build_operator.py": ["C19"],
 Q + "tensor_extractor/tensor.py": ["C20", "C21"], K + "layers/activations.py": ["C21", "C32"],
 Q + "quantizer/distributions/distribution.py": ["C22"], K + "layers/keras_dense.py": ["C23", "C32"],
 Q + "equalizers/adaround/qubocalculation.py": ["C24"], Q + "equalizers/adaround/Calculationsint.py": ["C24"],
 Q + "equalizers/adaround/annealer.py": ["C25"], Q + "equalizers/adaround/qubo.py": ["C25", "C24"],
 Q + "equalizers/adaround/adaround.py": ["C25"], Q + "equalizers/adaround/iround_optimizer.py": ["C25"],
 Q + "equalizers/adaround/irounding_policy.py": ["C25"],
 **{Q + "equalizers/param_equalizer/" + f: ["C26"] for f in ("bfs_equalizer.py", "param_equalizer.py", "annealer.py", "abstract_param_optimizer.py")},
 "demo/demo_lib/demo_lib/fpga.py": ["C30", "C33"], Q + "config/models/keras.py": ["C34", "C32"],
 K + "layers/keras_lstm.py": ["C31"], K + "keras_builder.py": ["C32"], Q + "util/network.py": ["C32"],
 Q + "tensor_extractor/operator.py": ["C32"], K + "layers/keras_input.py": ["C32"], K + "layers/dequantize.py": ["C32"],
}
for root, ids in (("model_converters/onnx2json/helpers", ["C27", "C28"]), ("model_converters/tflite2json/itcl_tflite2json", ["C28"]),
                  ("model_converters/keras2json/keras2json", ["C29"])):
    for d, _, fs in os.walk("/repo/" + root):
        for f in fs:
            if f.endswith(".py") and "test" not in d and not f.startswith("test") and f != "__init__.py" and "/schema" not in d:
                MAP[os.path.relpath(d + "/" + f, "/repo")] = ids
TWINS = [("input", "output"), ("min", "max"), ("floor", "ceil"), ("scale", "zero_point"), ("_s", "_zp"), ("hidden", "cell"), ("rows", "cols"), ("weight", "bias"),
         ("weights", "bias"), ("start", "end"), ("lower", "upper"), ("forget", "input"), ("append", "insert"), ("left", "right"), ("start", "stop"), ("kernel", "recurrent"), ("any", "all")]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.LShift: ">>", ast.RShift: "<<", ast.Pow: "*", ast.Mod: "//"}


def mutants(src):
    t = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def put(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, seg(n), new, (b[:s] + new.encode() + b[e:]).decode()))
    skip = set()
    for n in ast.walk(t):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip |= {id(x) for x in ast.walk(a)}
        if isinstance(n, (ast.Assert, ast.Raise)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print"):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in seg(n.test):
            skip |= {id(x) for x in ast.walk(n)}
    infn = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            infn |= {id(x) for x in ast.walk(n) if x is not n}
    for n in ast.walk(t):
        if id(n) in skip or id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "bin")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, seg(n.left), "drop-right")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, str(n.value + 1), "const")
            if n.value > 0:
                put(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            put(n, repr(n.value * 2 + 1e-3), "const")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            put(n, j.join(f"({seg(v)})" for v in n.values), "boolop")
            put(n, seg(n.values[0]), "dropcond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, seg(n.operand), "not")
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "True", "iftrue")
            put(n.test, "False", "iffalse")
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                put(n.lower, "", "slice-lower")
            if n.upper is not None:
                put(n.upper, "", "slice-upper")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            put(n, "pass", "delete")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "delete")
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            i = 0
            for i in range(len(n.args) - 1):
                s, _ = pos(n.args[i])
                _, e = pos(n.args[i + 1])
                mid = b[pos(n.args[i])[1]:pos(n.args[i + 1])[0]].decode()
                new = seg(n.args[i + 1]) + mid + seg(n.args[i])
                out.append((n.lineno, "swapargs", b[s:e].decode(), new, (b[:s] + new.encode() + b[e:]).decode()))
        if isinstance(n, (ast.Attribute, ast.Name)):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id
            for x, y in TWINS:
                for u, v in ((x, y), (y, x)):
                    if u in nm and nm.replace(u, v) != nm and (nm.replace(u, v) in src or nm in ("min", "max", "floor", "ceil", "any", "all")):
                        new = (seg(n.value) + "." if isinstance(n, ast.Attribute) else "") + nm.replace(u, v)
                        put(n, new, "twin")
        if isinstance(n, ast.Call) and n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)) and any(k.arg for k in n.keywords) and "deepcopy" not in seg(n.func):
            pass
        if isinstance(n, ast.Call) and seg(n.func) in ("deepcopy", "copy.deepcopy", "list", "sorted", "reversed", "abs", "np.array", "np.round", "round", "np.floor", "np.clip", "set", "int", "np.copy", "copy") and n.args:
            put(n, seg(n.args[0]), "unwrap")
    res, seen = [], set()
    for m in out:
        if m[4] in seen or m[4] == src:
            continue
        seen.add(m[4])
        try:
            compile(m[4], "x", "exec")
        except SyntaxError:
            continue
        res.append(m)
    return res


def main():
    n, sd, workers, outp = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    subs = sys.argv[5:]
    rng = random.Random(sd)
    pool = []
    for f in MAP:
        if subs and not any(s in f for s in subs):
            continue
        ms = mutants(open("/repo/" + f).read())
        rng.shuffle(ms)
        # spread: at most a number of mutants proportional to sqrt of the file's total
        k = max(4, int(3 * len(ms) ** 0.5))
        pool += [(f, m) for m in ms[:k]]
    rng.shuffle(pool)
    pool = pool[:n]
    print(len(pool), "mutants", flush=True)
    q = queue.Queue()
    for x in pool:
        q.put(x)
    lock = threading.Lock()
    res = open(outp, "a")

    def work():
        d = tempfile.mkdtemp(prefix="camp")
        r = d + "/r"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        while True:
            try:
                f, m = q.get_nowait()
            except queue.Empty:
                break
            t0 = time.time()
            open(f"{r}/{f}", "w").write(m[4])
            st, by = "SURVIVED", ""
            try:
                if f.startswith(("core/", "inference_engine/")) and stable_ok(r):
                    st = "tests"
                else:
                    e = dict(os.environ, PVC_REPO=r, PVC_OUT=d + "/o")
                    for mode in ("--no-proof", "--no-concrete"):
                        for c in MAP[f]:
                            try:
                                p = subprocess.run(["timeout", "400", "python3-vt", "/verif/check.py", c, mode], cwd="/verif", env=e, capture_output=True, text=True)
                            except Exception as ex:
                                by += repr(ex)
                                continue
                            if p.returncode == 1:
                                st, by = "caught", c + mode
                                break
                            if p.returncode != 0:
                                by += f" {c}{mode} rc={p.returncode}"
                        if st == "caught":
                            break
            finally:
                shutil.copy("/repo/" + f, f"{r}/{f}")
            with lock:
                res.write(json.dumps([st, by, f, m[0], m[1], m[2][:120], m[3][:120], round(time.time() - t0)]) + "\n")
                res.flush()
        shutil.rmtree(d)
    ts = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
