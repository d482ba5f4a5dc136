#!/usr/bin/env python3
"""Mechanical mutants against the checks (development tool, not a check).
usage: mutate.py OUT PROPS[,..] LANES SAMPLE SEED FILES...
Every mutant which compiles and passes the tests is given to the checks of the
listed properties; OUT gets one line per mutant.  Works on copies in /tmp."""
import sys, os, json, subprocess, random, shutil, threading, queue
out, props, lanes, sample, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
files = sys.argv[6:]
ENV = ". /opt/vp/env.sh; "
RUNS = {"C01": 6000, "C02": 40000, "C07": 40000, "C15": 20000, "C16": 1200, "C17": 40000, "C18": 4000, "C19": 15000, "C20": 20000}
if os.environ.get("MUT_RUNS"):
    RUNS = {p: int(os.environ["MUT_RUNS"]) for p in RUNS}
def sh(cmd, cwd, timeout=900):
    try:
        return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "TIMEOUT", "")
base = "/tmp/mut.%d" % os.getpid()
os.makedirs(base)
sh("git clone -q /repo repo0 && git clone -q /verif verif0", base)
g = sh("go run ./cmd/mutgen %s/repo0 %s" % (base, " ".join(files)), base + "/verif0/sim")
muts = []
for l in g.stdout.splitlines():
    if l.startswith("{"):
        muts.append(json.loads(l))
random.Random(seed).shuffle(muts)
muts = muts[:sample]
done = set()
if os.path.exists(out):
    for l in open(out):
        try: r = json.loads(l); done.add((r["file"], r["off"], r["new"]))
        except Exception: pass
q = queue.Queue()
for m in muts:
    if (m["file"], m["off"], m["new"]) not in done:
        q.put(m)
lock = threading.Lock()
def lane(i):
    d = "%s/l%d" % (base, i)
    os.makedirs(d)
    sh("git clone -q ../repo0 repo && cp -r ../verif0 verif && sed -i 's#=> /repo#=> %s/repo#' verif/sim/go.mod && cd verif/sim && go build -o ../simctl ./cmd/simctl" % d, d)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = d + "/repo/" + m["file"]
        src = open(p, "rb").read()
        new = src[:m["off"]] + m["new"].encode() + src[m["off"]+m["len"]:]
        open(p, "wb").write(new)
        r = sh("go build ./... 2>&1", d + "/repo")
        res = None
        if r.returncode != 0:
            res = "nocompile"
        else:
            r = sh("GOGC=off timeout 120 go test ./... 2>&1 | grep -v '^ok\\|no test files' | head -5", d + "/repo")
            if r.stdout.strip():
                res = "tests"
            else:
                res = "SURVIVED"
                for pr in props:
                    r = sh("timeout 600 ../verif/simctl check -root %s/verif -prop %s -tier quick -runs %d -j 2" % (d, pr, RUNS[pr]), d + "/verif")
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        res = "caught " + pr; break
                    if r.returncode != 0:
                        res = "ERROR %s rc=%d %s" % (pr, r.returncode, r.stdout[-300:]); break
        open(p, "wb").write(src)
        m["result"] = res
        with lock:
            with open(out, "a") as f: f.write(json.dumps(m) + "\n")
ts = [threading.Thread(target=lane, args=(i,)) for i in range(lanes)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree(base)
