"""every planted bug touches lines of the original repository (not of a fix commit)"""
import subprocess, re, glob, os
for d in sorted(glob.glob('/verif/seeded/*')):
    f = None; old = 0; bad = []; n = 0
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): old = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', f'{old},{old}', f], capture_output=True, text=True).stdout
            n += 1
            if not b.startswith('^'): bad.append((f, old, l.strip()))
            old += 1
        elif l.startswith(' '): old += 1
    if bad or not n: print(os.path.basename(d), f"{len(bad)}/{n}", bad[:2])
