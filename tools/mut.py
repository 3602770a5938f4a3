"""mutation driver: mut.py Cxx file 'old' 'new' [...] -- applies the textual change in a scratch copy and runs the check against it"""
import sys, subprocess, shutil, os, tempfile
def run(cid, path, old, new, extra=()):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(["cp", "-a", os.environ.get("PVC_BASE", "/repo"), d + "/r"], check=True)
        p = os.path.join(d, "r", path)
        s = open(p).read()
        if old not in s:
            return f"NOT FOUND {old!r}"
        open(p, "w").write(s.replace(old, new, 1))
        e = dict(os.environ, PVC_REPO=d + "/r", PVC_OUT=d)
        r = subprocess.run(["python3-vt", "/verif/check.py", cid, *extra], cwd="/verif", env=e, capture_output=True, text=True)
        return f"rc={r.returncode} " + " | ".join((r.stdout + r.stderr[-300:]).strip().split("\n")[-2:])[:300]
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    print(run(*sys.argv[1:5], sys.argv[5:]))
