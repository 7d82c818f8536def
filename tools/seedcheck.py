#!/usr/bin/env python3
"""tools/seedcheck.py [--tier TIER] NAME...: runs the property's check on a changed copy of /repo for each planted bug."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sys.argv[1:]
for n in names:
    d = next(p for p in (V + "/seeded/" + n, V + "/extra_seeds/" + n) if os.path.isdir(p))
    w = "/tmp/sc_%d_%s" % (os.getpid(), n)
    subprocess.run("git clone -q /repo %s && git -C %s apply %s/patch.diff" % (w, w, d), shell=True, check=True)
    prop = json.load(open(d + "/meta.json"))["property"]
    k = subprocess.run("TRAJOPT_REPO=%s python3 bin/check.py %s" % (w, prop), shell=True, cwd=V, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    v = any(l.startswith("VIOLATION property=" + prop) for l in k.stdout.split("\n"))
    print("CAUGHT" if k.returncode == 1 and v else "MISSED", n, "exit", k.returncode, flush=True)
    shutil.rmtree(w)
