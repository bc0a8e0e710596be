#!/usr/bin/env python3
"""Confirm and keep planted bugs.  mkseed.py FILE...   Each FILE is a Python file with
ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO = Go statements for main()
(plus optional IMPORTS, DECLS).  Kept in /verif/seeded/<ID> when the change builds, passes the
stable tests, and the demonstration passes without and fails with it."""
import json, os, subprocess, sys, tempfile, shutil, textwrap
HERE = os.path.dirname(os.path.abspath(__file__)); SEEDED = os.path.join(HERE, "..", "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
M = "github.com/PlatONnetwork/tecdsa/"
SH = '''#!/bin/bash
# exit 0: the property holds; run in the repository after its build
D=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$REPO" "$D" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 3
cd "$T" && timeout 200 ./demo
'''
SHRACE = SH.replace("go build -overlay", "CGO_ENABLED=1 go build -race -overlay")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, executable="/bin/bash", **k)
def go(ns):
    names = "common complaints curve dealings key mega poly rand ro seed sign testutils zk".split()
    body = ns["DEMO"]; decls = ns.get("DECLS", "")
    txt = body + decls
    std = [i for i in ns.get("IMPORTS", "").split()]
    import re
    imps = ['"%s%s"' % (M, n) for n in names if re.search(r"\b%s\." % n, txt)]
    imps += ['"%s"' % s for s in std]
    if "btree." in txt: imps.append('"github.com/tidwall/btree"')
    imps += ['"fmt"', '"os"']
    return "package main\n\nimport (\n\t%s\n)\n\nfunc must(err error, what string) {\n\tif err != nil {\n\t\tfmt.Println(\"unexpected error:\", what, err)\n\t\tos.Exit(1)\n\t}\n}\nfunc want(ok bool, what string) {\n\tif !ok {\n\t\tfmt.Println(\"BROKEN:\", what)\n\t\tos.Exit(1)\n\t}\n}\n%s\nfunc main() {\n%s\n\tfmt.Println(\"holds\")\n\tmust(nil, \"\")\n}\n" % ("\n\t".join(sorted(set(imps))), decls, body)
def one(f):
    ns = {}; exec(open(f).read(), ns)
    i = ns["ID"]; W = "/tmp/seedwork-" + i
    shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W, symlinks=True)
    D = os.path.join(tempfile.gettempdir(), "seedout-" + i); shutil.rmtree(D, ignore_errors=True); os.mkdir(D)
    try:
        open(D + "/main.go", "w").write(go(ns)); open(D + "/demo.sh", "w").write(SHRACE if ns.get("RACE") else SH)
        sh("gofmt -w main.go", cwd=D)
        r = sh("bash %s/demo.sh" % D, cwd=W)
        if r.returncode: return "%s: demo fails on the unchanged tree: %s %s" % (i, r.stdout[-800:], r.stderr[-1500:])
        for n, (fn, a, b) in enumerate(ns["EDITS"]):
            s = open(W + "/" + fn).read()
            if s.count(a) != 1: return "%s: edit %d matches %d times" % (i, n, s.count(a))
            open(W + "/" + fn, "w").write(s.replace(a, b))
        r = sh(". /opt/vp/env.sh; gofmt -l .; go build ./... && go vet ./... >/dev/null 2>&1; go build ./...", cwd=W)
        if r.returncode: return "%s: does not build: %s" % (i, r.stderr[-1500:])
        p = sh("git diff", cwd=W).stdout
        r = sh("bash %s/demo.sh" % D, cwd=W)
        if r.returncode == 0: return "%s: demo passes with the change" % i
        if r.returncode == 3: return "%s: demo does not build with the change %s" % (i, r.stderr[-800:])
        dem = (r.stdout + r.stderr).strip().splitlines()[0:2]
        sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 10m ./... > %s/log; python3 /opt/vp/results.py %s/out.json gojson:%s/log" % (W, W, W), cwd=W)
        passed = set(json.load(open(W + "/out.json"))["passed"])
        if BASE - passed: return "%s: breaks tests %s" % (i, sorted(BASE - passed)[:6])
        out = os.path.join(SEEDED, i); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for n in ("main.go", "demo.sh"): shutil.copy(D + "/" + n, out)
        open(out + "/patch.diff", "w").write(p)
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        return "%s: kept (%s) %s" % (i, ns["PROP"], dem)
    finally:
        shutil.rmtree(W, ignore_errors=True); shutil.rmtree(D, ignore_errors=True)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, sys.argv[1:]): print(r, flush=True)
