"""writes MANIFEST.json from the contracts present"""
import json, os
H = '/verif'
NOTE = {
 "C01": "Quantization.quantize/round executed symbolically from /repo's source on arrays of arbitrary shape; all integer widths 1..32; reals exact (float rounding sampled by the concrete cross-check).",
 "C02": "dequantize and quantize-after-dequantize proved for arbitrary arrays, widths 1..32; reals exact.",
 "C03": "policy branch, base policy and fallback proved for arbitrary arrays; reals exact.",
 "C04": "name parsing proved over an abstract text theory (any digits string), limits, membership and saturation proved for every width.",
 "C05": "checked add/sub/mul proved exact or widened for int8/16/32 scalars and arrays of arbitrary shapes; exact wrap semantics of fixed-width integers.",
 "C06": "table construction loop proved entry by entry (symbolic index), look-up layer proved on arbitrary input shapes; the activation function is uninterpreted.",
 "C07": "loop contracts with run ghosts: every table length, content and depth; lemmas proved by induction (base and step).",
 "C08": "as C07, then serialize/deserialize (tuples turned to lists) and iteration.",
}
def main():
    props = [json.loads(l)["id"] for l in open(H + '/properties.jsonl')]
    extra = json.load(open(H + '/tools/notes.json')) if os.path.exists(H + '/tools/notes.json') else {}
    checks, na = [], []
    for p in props:
        if os.path.exists(f'{H}/pvc/contracts/{p}.py') and p in {**NOTE, **extra}:
            n = extra.get(p) or NOTE[p]
            lvl = "proof"
            if isinstance(n, dict):
                lvl, n = n["level"], n["note"]
            checks.append({"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick",
                           "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
                           "technique": "contract-based deductive verification of the real functions (symbolic execution of /repo's source against contracts, obligations discharged by z3/cvc5)",
                           "level": lvl, "level_note": n + " Trusts the pvc engine, its numpy/Python model and the SMT solvers; see DESIGN.md."})
        else:
            na.append({"property": p, "reason": "check under construction"})
    doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the verifier loads the sources of the current tree mechanically."}
    json.dump(doc, open(H + '/MANIFEST.json', 'w'), indent=1)
main()
