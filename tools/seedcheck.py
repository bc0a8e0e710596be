#!/usr/bin/env python3
"""Run checks against planted bugs.  seedcheck.py [-a] [SEED...]   Each seed of /verif/seeded is applied
to a scratch copy of /repo and the check of its property (with -a: every check) is run against the copy.
Nothing the checks themselves run reads /verif/seeded; this is for whoever works on them."""
import json, os, re, subprocess, sys, shutil, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(H, "seeded")
a = sys.argv[1:]; every = "-a" in a; a = [x for x in a if x != "-a"] or sorted(os.listdir(S))
ids = [c["property"] for c in json.load(open(H + "/MANIFEST.json"))["checks"]]
for s in a:
    W = "/tmp/seedchk-" + s; shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W, symlinks=True)
    try:
        r = subprocess.run(["git", "apply", os.path.join(S, s, "patch.diff")], cwd=W)
        if r.returncode: print(s, "does not apply"); continue
        p = json.load(open(os.path.join(S, s, "meta.json")))["property"]
        for i in (ids if every else [p]):
            t = time.time()
            e = dict(os.environ, VERIF_REPO=W); e.setdefault("VERIF_SEED", "1"); e.setdefault("VERIF_TIER", "quick")
            r = subprocess.run([sys.executable, H + "/run.py", i], cwd=H, env=e, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + i)]
            if i == p or r.returncode: print("%-34s %s own=%s rc=%d %s %.0fs" % (s, i, p, r.returncode, "caught" if r.returncode == 1 and v else "MISSED", time.time() - t), (v or [""])[0][:160], flush=True)
            if i == p and not (r.returncode == 1 and v): print("   ", (r.stdout + r.stderr)[-300:].replace("\n", "\n    "))
    finally: shutil.rmtree(W, ignore_errors=True)
