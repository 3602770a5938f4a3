"""seed.py FILE.py [id...]: builds /verif/seeded/<id>/ from the definitions in FILE.py after confirming each one:
builds, stable tests pass, demo exits 0 without and nonzero with the patch."""
import sys, os, subprocess, shutil, tempfile, json, importlib.util, re
V = "/verif"
PRE = '''import sys, os
R = os.getcwd()
for d in ("core", "inference_engine", "quantizer", "model_converters/onnx2json", "model_converters/keras2json", "model_converters/tflite2json", "demo/demo_lib"):
    sys.path.insert(0, os.path.join(R, d))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def stable_ok(repo):
    """stable tests in a scratch copy"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", MPLBACKEND="Agg",
               MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONPATH=f"{repo}/core:{repo}/inference_engine", PYTHONHASHSEED="0")
    bad = []
    for proj, args in (("core", ["tests"]), ("inference_engine", ["test", "--ignore=test/layers_/test_tflite/test_Logistic.py", "--ignore=test/model"])):
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", *args],
                           cwd=f"{repo}/{proj}", env=env, capture_output=True, text=True)
        bad += [l for l in p.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
    return [b for b in bad if "test_FullyConnected.py::TestFullyConnected::test_linear" not in b]


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for d in m.SEEDS:
        if want and d["id"] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix="seed")
        try:
            r = f"{tmp}/r"
            subprocess.run(["cp", "-a", "/repo", r], check=True)
            out = f"{V}/seeded/{d['id']}"
            work = f"{tmp}/out"
            os.makedirs(work)
            for f, old, new in [e if len(e) == 3 else (d["file"], *e) for e in d["edits"]]:
                s = open(f"{r}/{f}").read()
                assert s.count(old) >= 1, (d["id"], f, old)
                n = d.get("nth", {}).get(old, 0)
                i = -1
                for _ in range(n + 1):
                    i = s.index(old, i + 1)
                open(f"{r}/{f}", "w").write(s[:i] + new + s[i + len(old):])
                blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
                ln = s[:i].count("\n")
                mine = [b for b in blame[ln:ln + old.count("\n") + 1] if not b.startswith("^") and not b.startswith(base[:7])]
                if mine:
                    print("  note: touches lines of later commits:", mine[:3])
            diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
            open(f"{work}/patch.diff", "w").write(diff)
            extra = open(f"{V}/pvc/replay/stubs.py").read() if d.get("stubs") else None
            if extra:
                open(f"{work}/stubs.py", "w").write(extra)
            for x in d.get("files", ()):
                shutil.copy(f"{V}/pvc/replay/{x}", work)
            open(f"{work}/demo.py", "w").write(PRE + ("import stubs\n" if extra else "") + d["demo"])
            open(f"{work}/demo.sh", "w").write(SH)
            os.chmod(f"{work}/demo.sh", 0o755)
            json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d.get("breaks") or d["what_it_breaks"]}, open(f"{work}/meta.json", "w"), indent=1)
            p = subprocess.run(["/opt/venv/bin/python", "-c", "import sys,ast,subprocess\nfor f in subprocess.run(['git','ls-files','*.py'],capture_output=True,text=True).stdout.split():\n    compile(open(f).read(),f,'exec')"], cwd=r, capture_output=True, text=True)
            ok = p.returncode == 0
            a = subprocess.run(["bash", f"{work}/demo.sh"], cwd="/repo", capture_output=True, text=True)
            b = subprocess.run(["bash", f"{work}/demo.sh"], cwd=r, capture_output=True, text=True)
            st = stable_ok(r)
            good = ok and a.returncode == 0 and b.returncode != 0 and not st
            print(d["id"], "OK" if good else "REJECTED", "build", ok, "clean", a.returncode, "patched", b.returncode, "tests", st[:3])
            if not good:
                print((a.stdout + a.stderr)[-500:], (b.stdout + b.stderr)[-300:])
            else:
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(work, out)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
