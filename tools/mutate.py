#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [-files a,b] [-div N] [-sample K] [-redo]: mutation analysis of /repo.

Every small change listed by tools/mutants (of the non-test files) is made in a scratch copy, and
classified: "build" (does not compile), "tests" (the existing tests notice), the ID of the first
check that notices, or "survived". Checks run with 1/div of their quick case numbers.
With -redo the survivors in OUT.jsonl are run again with the current checks at full quick numbers.
"""
import sys, os, subprocess, json, threading, concurrent.futures as cf, re, random, shutil
args = sys.argv[1:]
out = args[0]
opt = lambda n, d: type(d)(args[args.index(n)+1]) if n in args else d
jobs, div, files, sample = opt("-j", 3), opt("-div", 20), opt("-files", ""), opt("-sample", 0)
redo = "-redo" in args
W = opt("-work", "/tmp/mutwork")
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", VERIF_SEED="1", VERIF_TIER="quick")
PARSE = "C13 C12 C14 C01 C15 C16 C11 C22 C02 C06 C19 C29 C05 C09 C08 C04 C31 C30 C34".split()
FMT = "C01 C04 C05 C06 C08 C09 C07 C02 C03 C10 C11 C21 C20 C17 C23 C24 C22 C30 C33 C34 C35 C36 C29".split()
CLI = "C27 C25 C26 C28 C32 C11 C19".split()
ORDER = {"parse": PARSE, "format": FMT, "cljfmt": CLI, "": ["C31"] + FMT}
FIRST = {"format/unused.go": ["C24"], "format/require.go": ["C23", "C03", "C08"], "format/threadfirst.go": ["C09", "C10"], "parse/node.go": ["C22", "C13"]}

def sh(cmd, cwd, timeout=300):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, "timeout"

def mk(i):
    w = f"{W}/{i}"
    os.makedirs(w, exist_ok=True)
    sh(f"rsync -a --delete /repo/ {w}/repo/ && rsync -a --delete --exclude .git --exclude evidence --exclude replays --exclude seeded /verif/ {w}/verif/ && mkdir -p {w}/verif/evidence && sed -i 's#/repo#{w}/repo#' {w}/verif/mon/go.mod && sed -i 's#\"/repo\"#\"{w}/repo\"#; s#\"/verif\"#\"{w}/verif\"#' {w}/verif/mon/frame.go", "/")

quick = {}
for f in os.listdir("/verif/mon"):
    if f.startswith("c_"):
        for m in re.finditer(r'ID: "(C\d+)", Quick: (\d+)', open("/verif/mon/"+f).read()):
            quick[m.group(1)] = int(m.group(2))

lock = threading.Lock()
free = list(range(jobs))

def one(m):
    with lock: i = free.pop()
    w = f"{W}/{i}"
    p = f"{w}/repo/{m['file']}"
    orig = open("/repo/"+m["file"], "rb").read()
    try:
        mod = orig[:m["off"]] + m["new"].encode() + orig[m["end"]:]
        open(p, "wb").write(mod)
        rc, o = sh(["go", "build", "./..."], w+"/repo", 120)
        if rc:
            return dict(m, result="build")
        rc, o = sh(["go", "test", "-count=1", "-vet=off", "-timeout", "20s", "./..."], w+"/repo", 120)
        if rc:
            return dict(m, result="tests")
        rc, o = sh(["go", "build", "-o", w+"/mon", "."], w+"/verif/mon", 120)
        if rc:
            return dict(m, result="monbuild", out=o)
        order = []
        for c in FIRST.get(m["file"], []) + ORDER[m["file"].rpartition("/")[0]]:
            if c not in order: order.append(c)
        odd = []
        for c in order:
            n = max(60, quick[c] // (1 if redo else div))
            rc, o = sh([w+"/mon", "run", c, "-n", str(n), "-maxv", "1"], w+"/verif", 400)
            if rc == 1 and "VIOLATION property="+c in o:
                return dict(m, result=c)
            if rc not in (0, 2) or redo and rc != 0:
                odd.append((c, rc, o[-300:]))
        return dict(m, result="survived", odd=odd)
    finally:
        open(p, "wb").write(orig)
        with lock: free.append(i)

if redo:
    ms = [m for m in map(json.loads, open(out)) if m["result"] == "survived"]
    for m in ms: m.pop("odd", None)
    out += ".redo"
else:
    fs = files.split(",") if files else sorted(f for f in subprocess.check_output("ls *.go */*.go | grep -v _test", cwd="/repo", shell=True, text=True).split())
    subprocess.check_call(["go", "build", "-o", "/tmp/mutants", "."], cwd="/verif/tools/mutants", env=env)
    ms = [json.loads(l) for l in subprocess.check_output(["/tmp/mutants"] + fs, cwd="/repo", text=True).splitlines()]
    random.Random(1).shuffle(ms)
    if sample: ms = ms[:sample]
done = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l); done.add((m["file"], m["off"], m["end"], m["new"]))
ms = [m for m in ms if (m["file"], m["off"], m["end"], m["new"]) not in done]
for i in range(jobs): mk(i)
with cf.ThreadPoolExecutor(jobs) as ex, open(out, "a") as f:
    for r in ex.map(one, ms):
        f.write(json.dumps(r)+"\n"); f.flush()
