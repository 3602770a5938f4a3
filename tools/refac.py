"""refac.py tools/refacs/<file>.py [names or ids]: behaviour-preserving edits on which the checks must stay quiet.
A file defines L = [(ids, name, [(file, old, new)..])] (ids: one id or a list)."""
import subprocess, os, shutil, tempfile, sys, runpy, concurrent.futures as cf
BASE = os.environ.get("PVC_BASE", "/repo")
NP = int(os.environ.get("NP", "5"))


def go(job):
    cid, name, edits = job
    d = tempfile.mkdtemp()
    try:
        subprocess.run(["cp", "-a", BASE, d + "/r"])
        for f, o, n in edits:
            s = open(f"{d}/r/{f}").read()
            if o not in s:
                return f"{cid} {name} EDIT DOES NOT APPLY: {o[:60]!r}"
            open(f"{d}/r/{f}", "w").write(s.replace(o, n))
        for f in {e[0] for e in edits}:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "py_compile", f"{d}/r/{f}"], capture_output=True, text=True)
            if p.returncode:
                return f"{cid} {name} SYNTAX {p.stderr[-200:]}"
        r = subprocess.run(["python3-vt", "check.py", cid], cwd="/verif", capture_output=True, text=True,
                           env=dict(os.environ, PVC_REPO=d + "/r", PVC_OUT=d))
        tail = " | ".join((r.stdout + r.stderr[-300:]).strip().split("\n")[-2:])[:420].replace(d, "")
        return f"{cid} {name} rc={r.returncode} " + (tail if r.returncode or "stand-in" in tail else "quiet")
    finally:
        shutil.rmtree(d)


L = runpy.run_path(sys.argv[1])["L"]
want = sys.argv[2:]
jobs = [(c, n, e) for cs, n, e in L for c in ([cs] if isinstance(cs, str) else cs) if not want or n in want or c in want]
with cf.ThreadPoolExecutor(NP) as ex:
    for r in ex.map(go, jobs):
        print(r, flush=True)
