#!/usr/bin/env python3
"""mutants.py OUT.jsonl [--sample N] [--workers W] [--seed S] [--only SUBSTR]
Plants small mutations in scratch copies of /repo, one at a time; of those that build and pass the tests,
tells which no check of the package's list sees. Used to look for blind spots; no check depends on it."""
import sys, os, json, subprocess, tempfile, shutil, random, argparse, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--sample", type=int, default=0); ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--only", default=""); ap.add_argument("--limit", type=float, default=1e9); ap.add_argument("--all", action="store_true"); a = ap.parse_args()
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOROOT="/opt/veriftools/go1.27.3", GOTOOLCHAIN="local", GOFLAGS="-mod=vendor", GOPROXY="off", GOCACHE="/root/.cache/go-build")
MAP = [
 ("libs/asts/applications", "A01 A02 A04 A05 A06 A07 A08 A09 A03 A11 A10 G01 G05"),
 ("libs/asts/domain/trees", "A02 A11 A01 A04 A08 Q01 A10"),
 ("libs/asts/domain/grammars/coverages", "A08 A09"),
 ("libs/asts/domain/grammars", "A12 A01 A08 A09 A07 G04"),
 ("libs/cryptography/domain/hashtrees", "M01 M02 M03 S03 D03"),
 ("libs/cryptography/domain/hash", "H01 S01"),
 ("libs/databases/domain/references", "S01 S03 S04 D02 D03 D10 D01"),
 ("libs/databases/domain/contents", "S02 S03 D01"),
 ("libs/databases/infrastructure", "D01 D02 D03 D04 D05 D09 D10 D07 D06 D08 D11"),
 ("libs/interpreters", "I01 I02 I03 I04 I06 I05"),
 ("libs/queries", "Q01 Q02 Q03 Q05 Q04"),
 ("instances", "G04 G03 G05 G01 G02 G06"),
]
def checks(f):
    l = checks0(f)
    if f.endswith("builder.go"): l = ["B02" if "cryptography" in f or "databases" in f else "B01"] + l
    if "domain" in f and "builder" not in f: l = l + ["R01", "B01", "B02"]
    return l
def checks0(f):
    for p, c in MAP:
        if f.startswith(p): return c.split()
    return []
files = subprocess.check_output("cd /repo && git ls-files '*.go' | grep -v -e _test.go -e ^vendor -e ^guis", shell=True, text=True).split()
files = [f for f in files if checks(f) and a.only in f and "test_helper" not in f]
with tempfile.TemporaryDirectory() as t:
    shutil.copy(HERE + "/main.go.txt", t + "/main.go"); open(t + "/go.mod", "w").write("module m\ngo 1.22\n")
    subprocess.check_call(["go", "build", "-o", t + "/m", "."], cwd=t, env=dict(ENV, GOFLAGS=""))
    muts = [json.loads(l) for l in subprocess.check_output([t + "/m"] + files, cwd="/repo", text=True).splitlines()]
random.Random(a.seed).shuffle(muts)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l); done.add((d["file"], d["start"], d["new"], d["op"]))
SRC = {}
def text(m):
    if m["file"] not in SRC: SRC[m["file"]] = open("/repo/" + m["file"], "rb").read()
    return SRC[m["file"]][m["start"]:m["end"]].decode()
if not a.all: muts = [m for m in muts if text(m) not in ("err", "err != nil", "panic(err)")]  # mostly paths nothing reaches
muts = [m for m in muts if (m["file"], m["start"], m["new"], m["op"]) not in done]
if a.sample: muts = muts[:a.sample]
print(len(muts), "mutants", flush=True)
Q = queue.Queue(); [Q.put(m) for m in muts]
lock = threading.Lock(); t0 = time.time()
def work(k):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
        while time.time() - t0 < a.limit:
            try: m = Q.get_nowait()
            except queue.Empty: return
            p = d + "/repo/" + m["file"]; src = open(p, "rb").read()
            open(p, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
            m["text"] = src[m["start"]:m["end"]].decode()
            r = subprocess.run(["go", "build", "./..."], cwd=d + "/repo", env=ENV, capture_output=True)
            if r.returncode: m["res"] = "nobuild"
            else:
                try: r = subprocess.run(["go", "test", "-vet=off", "-timeout", "60s", "./..."], cwd=d + "/repo", env=ENV, capture_output=True, timeout=200).returncode
                except subprocess.TimeoutExpired: r = 1
                if r: m["res"] = "tests"
                else:
                    m["res"] = "missed"; os.makedirs(d + "/out", exist_ok=True); shutil.copy(VERIF + "/known_findings.jsonl", d + "/out/")
                    for c in checks(m["file"]):
                        e = dict(ENV, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_OUT=d + "/out")
                        t1 = time.time()
                        try: rr = subprocess.run([VERIF + "/check.sh", c], env=e, capture_output=True, text=True, timeout=600); rc = rr.returncode
                        except subprocess.TimeoutExpired: rc = -9
                        if rc:
                            m["res"] = "caught"; m["by"] = c; m["rc"] = rc; m["t"] = round(time.time() - t1, 1); break
            open(p, "wb").write(src)
            with lock: open(a.out, "a").write(json.dumps(m) + "\n")
    finally: shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
