#!/usr/bin/env python3
"""Check one property:  python3 /verif/run.py C01   (see DESIGN.md)

 1. model check the bounded model(s) of the specification that state the property (TLC)
 2. generate scenarios from the specification (TLC)
 3. build the driver from /repo's working tree and execute the scenarios
 4. validate the recorded traces against the specification (TLC)

exit 0: held; exit 1 + VIOLATION line: an execution of the real code is not one the
specification allows; anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, FAMS

SEED = os.environ.get("VERIF_SEED", "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
LIMIT = 800 if TIER == "quick" else 7200

class Broken(Exception): pass

def env(**kw):
    e = dict(os.environ)
    e.update(VERIF_SEED=SEED, VERIF_TIER=TIER)
    e.update(kw)
    return e

def goenv(**kw):
    e = env(GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GONOSUMDB="*", GOWORK="off", CGO_ENABLED=kw.pop("cgo", "0"))
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env"], capture_output=True, text=True).stdout
        for l in out.splitlines():
            k, _, v = l.partition("=")
            if k in ("PATH", "GOFLAGS", "GOROOT", "GOPATH", "GOMODCACHE", "GOCACHE", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "HOME"): e[k] = v
    except Exception: pass
    e.update(kw)
    return e

def tlc(work, spec, cfg, extra=(), timeout=None, heap="6g", **kw):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", work + "/classes:" + CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, spec]
    try:
        p = subprocess.run(cmd, cwd=os.path.join(work, "spec"), env=env(**kw), capture_output=True, text=True, timeout=timeout or LIMIT)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out: %s %s" % (spec, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    return p

def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out)
    return (int(m[-1][0]), int(m[-1][1]), int(m[-1][2])) if m else None

def tail(s, n=40): return "\n".join(s.strip().splitlines()[-n:])

def build(work, race=False):
    h = os.path.join(V, "harness")
    for hooks in (True, False):  # without what reaches into the packages, if they changed there
        over = {}
        for f in os.listdir(h):
            if f.endswith(".go") and (hooks or not f.startswith("hook_")): over[os.path.join(REPO, "verifharness", f)] = os.path.join(h, f)
        for d in os.listdir(os.path.join(h, "inpkg")) if hooks else []:
            for f in os.listdir(os.path.join(h, "inpkg", d)):
                over[os.path.join(REPO, d, "zz_verif_" + f)] = os.path.join(h, "inpkg", d, f)
        o = os.path.join(work, "overlay.json")
        json.dump({"Replace": over}, open(o, "w"))
        out = os.path.join(work, "driver-race" if race else "driver")
        cmd = ["go", "build", "-overlay", o, "-o", out] + (["-race"] if race else []) + ["./verifharness"]
        p = subprocess.run(cmd, cwd=REPO, env=goenv(cgo="1" if race else "0"), capture_output=True, text=True)
        if p.returncode == 0:
            if not hooks: print("note: built without the hooks in harness/inpkg, which no longer fit the code")
            return out
        err = p.stderr if hooks else err
    raise Broken("cannot build the driver against %s:\n%s" % (REPO, tail(err)))

def limit():  # a call that takes all the memory fails in the driver, not the machine
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))

def main():
    prop = sys.argv[1]
    chk = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = run(prop, chk, work, t0)
    except Broken as e:
        print("ERROR: check %s: %s" % (prop, e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(prop, chk, work, t0):
    shutil.copytree(os.path.join(V, "spec"), os.path.join(work, "spec"))
    os.mkdir(os.path.join(work, "classes"))
    p = subprocess.run(["javac", "-cp", CP, "-d", work + "/classes", os.path.join(V, "java", "K256.java")], capture_output=True, text=True)
    if p.returncode: raise Broken("javac: " + tail(p.stderr))
    errs, mcres = [], []
    race = chk.get("race", False)

    # ---- 1: the models, in the background
    def models():
        for m in chk.get("mc", []):
            spec, cfg, fails = (m + (False,))[:3] if isinstance(m, tuple) else (m, m, False)
            c = cfg + ("_deep" if TIER == "thorough" and os.path.exists(os.path.join(work, "spec", cfg + "_deep.cfg")) else "")
            try:
                p = tlc(work, spec + ".tla", c + ".cfg", ["-workers", "4"])
                st = states(p.stdout)
                if fails:  # a flawed variant, which the properties must not accept
                    if not re.search("(Invariant|Temporal|Action property).* (is|were|was) violated", p.stdout): errs.append("flawed model %s/%s satisfies the properties\n%s" % (spec, c, tail(p.stdout + p.stderr, 60)))
                    else: mcres.append((spec + "/" + c + " (flawed: refused)", st or (0, 0, 0)))
                elif p.returncode != 0 or st is None or st[2] != 0:
                    errs.append("model %s/%s does not satisfy its properties or did not finish (a mistake of the specification, not of the code)\n%s" % (spec, c, tail(p.stdout + p.stderr, 60)))
                else: mcres.append((spec + "/" + c, st))
            except Broken as e: errs.append(str(e))
    th = threading.Thread(target=models); th.start()

    # ---- 3a: the driver, in the background
    drv = {}
    def bld():
        try: drv["bin"] = build(work, race)
        except Broken as e: errs.append(str(e))
    tb = threading.Thread(target=bld); tb.start()

    # ---- 2: scenarios
    fams = chk["fams"]
    scen = os.path.join(work, "scen.ndjson")
    parts, slots = {}, threading.Semaphore(8)
    def gen(f):
      with slots:
        out = os.path.join(work, "scen-%s.ndjson" % f)
        fam, _, par = f.partition(".")  # "lag.par": calls of family lag in concurrent groups
        p = tlc(work, FAMS[fam] + "Gen.tla", "Gen.cfg", ["-workers", "1"], heap="3g", OUT=out, FAM=fam, PAR="1" if par else "0")
        if "GENERATED" not in p.stdout or not os.path.exists(out):
            errs.append("scenario generation for %s failed:\n%s" % (f, tail(p.stdout + p.stderr)))
        else: parts[f] = out
    ths = []
    for f in fams:
        t = threading.Thread(target=gen, args=(f,)); t.start(); ths.append(t)
    for t in ths: t.join()
    tb.join()
    if errs: th.join(); raise Broken("\n".join(errs))
    with open(scen, "w") as o:
        for f in fams: o.write(open(parts[f]).read())
    nscen = sum(1 for l in open(scen) if l.strip())
    if nscen == 0: raise Broken("no scenarios")

    # ---- 3: execute
    trace = os.path.join(work, "trace.ndjson")
    denv = goenv(GORACE="halt_on_error=0 exitcode=0 log_path=" + work + "/race", GOTRACEBACK="single")
    if race: denv["VERIF_MEMO"] = "1"
    jobs = [(scen, trace)]
    if chk.get("pure"):
        # each process is sequential; its scenarios are of all families, so that what one leaves behind another meets
        denv["VERIF_PURE"] = "1"
        ls = [l for l in open(scen) if l.strip()]
        jobs = []
        for k in range(8):
            if ls[k::8]:
                open("%s.%d" % (scen, k), "w").write("".join(ls[k::8])); jobs.append(("%s.%d" % (scen, k), "%s.%d" % (trace, k)))
    ps = [subprocess.Popen([drv["bin"], a, b], env=denv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=None if race else limit) for a, b in jobs]
    try:
        t1 = time.time()
        outs = [p.communicate(timeout=max(1, LIMIT - (time.time() - t1))) for p in ps]
    except subprocess.TimeoutExpired:
        for p in ps: p.kill(); p.wait()
        raise Broken("the driver timed out")
    p = subprocess.CompletedProcess(jobs, next((q.returncode for q in ps if q.returncode), 0), "", "".join(o[1] for o in outs))
    if len(jobs) > 1 and p.returncode == 0:
        with open(trace, "w") as o:
            for _, b in jobs: o.write(open(b).read())
    viol = []
    crash = None
    if p.returncode == 3: raise Broken("driver: " + tail(p.stderr))
    if p.returncode != 0:
        if p.returncode == 4 and "HANG: " in p.stderr:
            crash = p.stderr[p.stderr.index("HANG: "):][:4000]
            viol.append(dict(kind="hang", detail=crash))
        elif "fatal error" in p.stderr or "panic:" in p.stderr or "stack overflow" in p.stderr:
            crash = tail(p.stderr, 400)[:6000]
            viol.append(dict(kind="crash", detail=crash))
        else: raise Broken("driver ended with %d\n%s" % (p.returncode, tail(p.stderr)))
    if race:
        for f in os.listdir(work):
            if f.startswith("race."):
                txt = open(os.path.join(work, f)).read()
                if "DATA RACE" in txt: viol.append(dict(kind="data race", detail=txt[:6000]))

    # ---- 4: validate
    ntr = nev = 0
    st = (0, 0, 0)
    traces = []
    if not crash:
        traces = [json.loads(l) for l in open(trace) if l.strip()]
        ntr, nev = len(traces), sum(len(t["ev"]) for t in traces)
        if ntr != nscen: raise Broken("the trace has %d of %d scenarios" % (ntr, nscen))
        p = tlc(work, "TraceRun.tla", "TraceRun.cfg", ["-workers", "8"], heap="8g", TRACE=trace)
        out = p.stdout
        rej = sorted(set((int(a), int(b)) for a, b in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+)', out)))
        st = states(out)
        # an outcome of a form the specification has no case for makes TLC stop there
        stop = re.findall(r"^/\\ (sc|i) = (\d+)", out, re.M) if p.returncode != 0 and "Error:" in out else []
        if stop:
            at = dict(stop)
            if "sc" in at and "i" in at and 1 <= int(at["sc"]) <= ntr and 1 <= int(at["i"]) <= len(traces[int(at["sc"]) - 1]["ev"]): rej = sorted(set(rej + [(int(at["sc"]), int(at["i"]))]))
        if not rej and (p.returncode != 0 or st is None or st[1] != nev + ntr):
            raise Broken("trace validation did not complete (%s, expected %d states)\n%s" % (st, nev + ntr, tail(out + p.stderr, 60)))
        if rej and (st is None): st = (0, 0, 0)
        bys = {}
        for a, b in rej: bys.setdefault(a, []).append(b)
        for a, bs in bys.items():
            t = traces[a - 1]
            viol.append(dict(kind="trace", scenario=t["id"], rejected=bs, events=[t["ev"][b - 1] for b in bs[:5]], trace=t))
    th.join()
    if errs and not viol: raise Broken("\n".join(errs))

    # ---- verdict
    known = []
    kf = os.path.join(V, "known-findings.txt")
    for l in open(kf) if os.path.exists(kf) else []:
        m = re.match(r"finding: property=(\S+) scenario=(\S+) op=(\S+) (.*)", l)
        if m and m.group(1) == prop: known.append(m.groups())
    left = []
    for v in viol:
        hit = None
        for k in known:
            if v["kind"] == "trace" and all(e["op"] == k[2] for e in v["events"]) and re.fullmatch(k[1], v["scenario"]): hit = k
        if hit: print("KNOWN-FINDING: property=%s %s" % (prop, hit[3]))
        else: left.append(v)
    samples = []
    for t in traces[:: max(1, len(traces) // 3)][:3]:
        samples.append(json.dumps(dict(id=t["id"], ev=t["ev"][:2]))[:1500])
    ops = {}
    for t in traces:
        for e in t["ev"]: ops.setdefault(e["op"], {}).setdefault(e["res"], 0); ops[e["op"]][e["res"]] += 1
    ev = dict(property=prop, tier=TIER, seed=int(SEED) if re.fullmatch(r"-?\d+", SEED) else 0, level="model_checking",
        coverage=dict(states=st[1] + sum(s[1] for _, s in mcres), transitions=nev + sum(s[0] for _, s in mcres),
            traces_validated_against_impl=ntr, events_validated=nev, models=[dict(model=m, generated=s[0], distinct=s[1]) for m, s in mcres],
            outcomes_by_operation=ops, families=fams, samples=samples or ["(driver crashed)"]),
        assumptions=["java/K256.java evaluates the primitive operators of spec/K256.tla", "TLC", "Go compiler and runtime"],
        wall_s=round(time.time() - t0, 2), violations=len(left))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if left:
        rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s-%s.json" % (prop, TIER, SEED))
        json.dump(left[:20], open(rp, "w"), indent=1)
        for v in left[:5]:
            if v["kind"] == "trace": print("  scenario %s: event(s) %s not allowed by the specification, first: %s" % (v["scenario"], v["rejected"][:8], json.dumps(v["events"][0])[:700]))
            else: print("  %s: %s" % (v["kind"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s models=%d states=%d traces=%d events=%d %.1fs" % (prop, len(mcres), ev["coverage"]["states"], ntr, nev, time.time() - t0))
    return 0

if __name__ == "__main__": main()
