#!/usr/bin/env python3
"""plant.py SEEDID PROP FILE OLD NEW NEEDS BREAKS < demo.sh : write /verif/seeded/SEEDID from a textual change (development aid).
OLD/NEW may be repeated as a list by separating with a line '@@@'. FILE likewise."""
import json, os, shutil, subprocess, sys, tempfile
sid, prop, f, old, new, needs, breaks = sys.argv[1:8]
demo = sys.stdin.read()
d = tempfile.mkdtemp(prefix="plant_")
subprocess.run(["git", "clone", "-q", os.environ.get("PLANT_BASE", "/repo"), d + "/w"], check=True)
try:
    w = d + "/w"
    for ff, o, n in zip(f.split("\n@@@\n"), old.split("\n@@@\n"), new.split("\n@@@\n")):
        p = os.path.join(w, ff)
        s = open(p).read()
        if s.count(o) != 1:
            sys.exit("pattern occurs %d times in %s: %r" % (s.count(o), ff, o))
        open(p, "w").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
finally:
    shutil.rmtree(d, True)
out = "/verif/seeded/" + sid
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(diff)
open(out + "/demo.sh", "w").write(demo)
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
print(diff)
