#!/usr/bin/env python3
"""plant.py SPECS.py [-j N] [-only ID,...] [-nocheck]: makes and tests planted bugs.

SPECS.py defines P, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], and one of
  fmt=(input, flags)      the demonstration formats input with cljfmt flags and compares with the right output
  go="package main ..."   the demonstration is a Go program which exits non-zero on a wrong result
  sh="..."                the demonstration is a script; $CLJFMT is the built command, $D a scratch directory
Each is tried in scratch copies of /repo and /verif; what qualifies is written to /verif/seeded/<id>.
"""
import sys, os, subprocess, shutil, json, concurrent.futures as cf, importlib.util, threading
args = sys.argv[1:]
spec = importlib.util.spec_from_file_location("specs", args[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
jobs = int(args[args.index("-j")+1]) if "-j" in args else 4
only = args[args.index("-only")+1].split(",") if "-only" in args else None
W = "/tmp/plantwork"
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", VERIF_SEED="1", VERIF_TIER="quick")
BASELINE = set()
_b = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, cwd, timeout=900, input=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, capture_output=True, shell=isinstance(cmd, str))
        return r.returncode, (r.stdout + r.stderr).decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

PRE = '''#!/bin/bash
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
'''
FMT = PRE + '''export HOME=$D
unset CLJFMT_CONFIG_PATH || true
export GOCACHE=${GOCACHE:-$D/cache}
go build -o "$D/cljfmt" ./cljfmt
%s
"$D/cljfmt" %s < "$here/in.clj" > "$D/out.clj"
cmp "$here/want.clj" "$D/out.clj" || { diff "$here/want.clj" "$D/out.clj" || true; exit 1; }
'''
GO = PRE + '''cp "$here/main.go.txt" "$D/main.go"
printf 'module demo\\n\\ngo 1.12\\n\\nrequire github.com/cespare/goclj v0.0.0\\n\\nreplace github.com/cespare/goclj => %%s\\n' "$repo" > "$D/go.mod"
cd "$D"
go build %s -o demo .
timeout 120 ./demo
'''
SHT = PRE + '''export HOME=$D
unset CLJFMT_CONFIG_PATH || true
export GOCACHE=${GOCACHE:-$D/cache}
go build -o "$D/cljfmt" ./cljfmt
CLJFMT=$D/cljfmt
%s
'''

def writedemo(s, d):
    if "fmt" in s:
        inp, flags = s["fmt"][:2]
        setup = s.get("setup", "")
        open(d+"/in.clj", "wb").write(inp.encode() if isinstance(inp, str) else inp)
        open(d+"/demo.sh", "w").write(FMT % (setup, flags))
        open(d+"/want.clj", "w").write("")
    elif "go" in s:
        open(d+"/main.go.txt", "w").write(s["go"].lstrip())
        open(d+"/demo.sh", "w").write(GO % s.get("buildflags", ""))
    else:
        open(d+"/demo.sh", "w").write(SHT % s["sh"].strip("\n"))
    os.chmod(d+"/demo.sh", 0o755)

lock = threading.Lock()
free = list(range(jobs))
def mk(i):
    w = f"{W}/{i}"
    os.makedirs(w, exist_ok=True)
    sh(f"rsync -a --delete /repo/ {w}/repo/ && rsync -a --delete --exclude .git --exclude evidence --exclude replays --exclude seeded /verif/ {w}/verif/ && mkdir -p {w}/verif/evidence && sed -i 's#/repo#{w}/repo#' {w}/verif/mon/go.mod && sed -i 's#\"/repo\"#\"{w}/repo\"#; s#\"/verif\"#\"{w}/verif\"#' {w}/verif/mon/frame.go && sed -i 's#/verif/mon#{w}/verif/mon#' {w}/verif/bin/check.sh", "/")
    return w

def tests(repo):
    rc, out = sh(["go", "test", "-count=1", "-vet=off", "./..."], repo)
    return rc == 0, out

def one(s):
    with lock: i = free.pop()
    try:
        return _one(s, f"{W}/{i}")
    except Exception as e:
        import traceback; traceback.print_exc()
        return s["id"], s["property"], "EXC", str(e), ""
    finally:
        with lock: free.append(i)

def _one(s, w):
    repo = w + "/repo"
    sh("git checkout -q -- . && git clean -fdq", repo)
    d = f"{w}/demo/{s['id']}"
    shutil.rmtree(f"{w}/demo", ignore_errors=True); os.makedirs(d)
    writedemo(s, d)
    if "fmt" in s:
        rc, out = sh(["bash", d+"/demo.sh"], repo)
        # the right output
        h = w + "/home"; shutil.rmtree(h, ignore_errors=True); os.makedirs(h)
        script = open(d+"/demo.sh").read().split("cmp ")[0].replace('> "$D/out.clj"', '> "$here/want.clj"')
        open(d+"/gen.sh", "w").write(script)
        rc, out = sh(["bash", d+"/gen.sh"], repo); os.remove(d+"/gen.sh")
        if rc != 0: return s["id"], s["property"], "GENFAIL", out, ""
    rc, out = sh(["bash", d+"/demo.sh"], repo, 300)
    if rc != 0: return s["id"], s["property"], "DEMO-FAILS-CLEAN", out, ""
    for f, old, new in s["edits"]:
        p = f"{repo}/{f}"; t = open(p).read()
        if t.count(old) != 1: return s["id"], s["property"], "EDIT", f"{f}: {t.count(old)} matches of {old!r}", ""
        open(p, "w").write(t.replace(old, new))
    rc, out = sh("gofmt -l . | grep -v testdata; go vet ./... ", repo)
    fmtout = out
    diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True).stdout.decode()
    # removed or adjacent lines of the original
    orig = False
    for line in subprocess.run("git diff -U0 --no-color | grep '^-[^-]' | cut -c2-", cwd=repo, shell=True, capture_output=True).stdout.decode().splitlines():
        for f in set(e[0] for e in s["edits"]):
            base = subprocess.run(["git", "show", "ed98fdc:"+f], cwd=repo, capture_output=True).stdout.decode().splitlines()
            if line.strip() and line in base: orig = True
    rc, out = sh(["go", "build", "./..."], repo)
    if rc: return s["id"], s["property"], "BUILD", out, ""
    ok, out = tests(repo)
    if not ok: return s["id"], s["property"], "TESTS-FAIL", out[-1500:], ""
    rc, dout = sh(["bash", d+"/demo.sh"], repo, 300)
    if rc == 0: return s["id"], s["property"], "DEMO-PASSES-PATCHED", dout, ""
    dest = f"/verif/seeded/{s['id']}"
    shutil.rmtree(dest, ignore_errors=True); os.makedirs("/verif/seeded", exist_ok=True)
    shutil.copytree(d, dest)
    open(dest+"/patch.diff", "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(dest+"/meta.json", "w"), indent=1)
    st = "" if orig else "NO-ORIGINAL-LINE "
    if "-nocheck" in args: return s["id"], s["property"], st+"KEPT", fmtout, dout[-600:]
    rc, out = sh(["bash", w+"/verif/bin/check.sh", s["property"]], w+"/verif")
    hit = rc == 1 and f"VIOLATION property={s['property']}" in out
    extra = ""
    if not hit or "-all" in args:
        extra = out[-400:]
    return s["id"], s["property"], st+("CAUGHT" if hit else f"MISSED rc={rc}"), fmtout + extra, dout[-300:]

specs = [s for s in m.P if not only or s["id"] in only]
for i in range(jobs): mk(i)
with cf.ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, specs):
        print(f"== {r[0]} {r[1]} {r[2]}")
        if r[2] != "CAUGHT":
            if r[3].strip(): print("   " + r[3].strip().replace("\n", "\n   "))
            if r[4].strip(): print("   demo: " + r[4].strip().replace("\n", "\n   "))
        sys.stdout.flush()
shutil.rmtree(W, ignore_errors=True)
