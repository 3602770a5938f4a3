"""Concrete cross-check of one property on the real code (run by /opt/venv)."""
import argparse, importlib.util, json, os, random, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PVC_REPO", "/repo")
for r in ("demo/demo_lib", "model_converters/tflite2json", "model_converters/keras2json", "model_converters/onnx2json",
          "quantizer", "inference_engine", "core"):
    sys.path.insert(0, os.path.join(REPO, r))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    for o in ("tier", "hints", "out", "replay"):
        ap.add_argument("--" + o)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=30)
    a = ap.parse_args()
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    res = {"failure": None, "evaluations": 0, "distinct": 0, "samples": [], "known": []}
    devnull = open(os.devnull, "w")
    so = sys.stdout
    sys.stdout = devnull
    try:
        spec = importlib.util.spec_from_file_location("replay_mod", os.path.join(HERE, a.prop + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    except BaseException as ex:
        # the code under test cannot even be imported / set up
        if os.path.exists(os.path.join(HERE, a.prop + ".py")):
            res["failure"] = {"case": {"import": True}, "message": "setup of the code under test failed: " +
                              "".join(traceback.format_exception(ex))[-1500:]}
            json.dump(res, open(a.out, "w"))
            return
        res["error"] = "no replay module"
        json.dump(res, open(a.out, "w"))
        return
    res["rule"] = getattr(m, "RULE", "")
    rng = random.Random(a.seed)
    t0 = time.time()

    def one(case):
        try:
            return m.run(case)
        except Exception as ex:
            return "unexpected exception: " + "".join(traceback.format_exception(ex))[-1500:]
    if a.replay:
        case = json.load(open(a.replay))["case"]
        msg = one(case) if "import" not in case else None
        if msg and not isinstance(msg, tuple):
            res["failure"] = {"case": case, "message": msg}
        json.dump(res, open(a.out, "w"))
        return
    hints = json.load(open(a.hints)) if a.hints else []
    seen = set()
    knownids = set()

    def gen():
        if hasattr(m, "from_hint"):
            for h in hints:
                try:
                    yield from m.from_hint(h)
                except Exception:
                    pass
        yield from m.cases(rng, a.tier)
    for case in gen():
        res["evaluations"] += 1
        key = json.dumps(case, sort_keys=True, default=str)
        if key not in seen:
            seen.add(key)
            if not getattr(m, "trivial", lambda c: False)(case):
                res["distinct"] += 1
                if len(res["samples"]) < 3 and len(key) < 1500:
                    res["samples"].append(case)
        msg = one(case)
        if isinstance(msg, tuple):
            kid, txt = msg
            if kid not in knownids:
                knownids.add(kid)
                res["known"].append({"id": kid, "message": txt, "case": case})
            continue
        if msg:
            res["failure"] = {"case": case, "message": str(msg)}
            break
        if time.time() - t0 > a.budget:
            break
    json.dump(res, open(a.out, "w"), default=str)


main()
