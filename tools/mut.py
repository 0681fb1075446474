#!/usr/bin/env python3
"""mut.py FILE 'old' 'new' ID...: run checks against a scratch copy of /repo with one textual change (development aid)."""
import os, shutil, subprocess, sys, tempfile
B = os.environ.get("MUT_BASE", "/repo")
f, old, new, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut_")
subprocess.run(["cp", "-a"] + [os.path.join(B, x) for x in os.listdir(B) if x not in ("_build", ".git")] + [d], check=True)
p = os.path.join(d, f)
s = open(p).read()
n = s.count(old)
if n < 1:
    print("PATTERN NOT FOUND in", f); shutil.rmtree(d); sys.exit(3)
open(p, "w").write(s.replace(old, new, 1))
for i in ids:
    r = subprocess.run(["python3", "/verif/check.py", i], env=dict(os.environ, VERIF_REPO=d, VERIF_SKIP_MC="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    last = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "violation", "CHECK ERROR"))][:2]
    print(i, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", last or r.stdout[-300:])
shutil.rmtree(d)
