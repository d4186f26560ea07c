#!/usr/bin/env python3
"""survey.py MUTANTS.jsonl RESULTS.jsonl [-j N] [--scale S]: which small changes that compile
and pass the existing tests does no check notice?

Each mutant (see main.go) is applied to a scratch copy of /repo. If it compiles and passes the
tests, the harness is built against the copy and the properties run, at a reduced scale and one
process each, until one reports a violation. RESULTS gets one line per mutant that passed the
tests, with the property that killed it or null. Resumable."""
import argparse, json, os, shutil, subprocess, sys, threading, queue, signal, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ap = argparse.ArgumentParser()
ap.add_argument("mutants"); ap.add_argument("results")
ap.add_argument("-j", type=int, default=8)
ap.add_argument("--scale", default="0.1")
ap.add_argument("--only", default="")
a = ap.parse_args()
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GOMAXPROCS="2",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
ORDER = "C24 C11 C09 C20 C07 C12 C19 C23 C10 C01 C03 C22 C04 C13 C15 C16 C17 C18 C05 C06 C02 C08 C25 C14".split()
def run(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return "timeout", ""
ms = [json.loads(l) for l in open(a.mutants)]
key = lambda m: "%s:%d:%d:%s" % (m["file"], m["off"], m["end"], m["new"])
done = set()
if os.path.exists(a.results):
    done = {json.loads(l)["key"] for l in open(a.results)}
q = queue.Queue()
for m in ms:
    if key(m) not in done and a.only in m["file"]:
        q.put(m)
lock = threading.Lock()
res = open(a.results, "a")
def worker(i):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        shutil.copytree(V + "/harness", d + "/harness")
        mod = open(V + "/harness/go.mod").read().replace("=> /repo", "=> " + d + "/repo")
        open(d + "/harness/go.mod", "w").write(mod)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            p = d + "/repo/" + m["file"]
            src = open(p, "rb").read()
            open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
            r = dict(key=key(m), file=m["file"], line=m["line"], desc=m["desc"][:200])
            try:
                r["stage"], r["by"], r["text"] = judge(m, d)
            finally:
                open(p, "wb").write(src)
            with lock:
                res.write(json.dumps(r) + "\n"); res.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)
def judge(m, d):
    rc, o = run(["go", "build", "./..."], d + "/repo", 120)
    if rc != 0:
        return "build", None, ""
    if not m["file"].startswith("cmd/"):
        rc, o = run(["go", "test", "-vet=off", "-count=1", "-failfast", "-timeout", "60s", "./pkg/...", "./test/..."], d + "/repo", 120)
        if rc != 0:
            return "tests", None, ""
    rc, o = run(["go", "build", "-buildvcs=false", "-o", d + "/vh", "."], d + "/harness", 300)
    if rc != 0:
        return "harness", None, o[-300:]
    env = dict(ENV, VERIF_REPO=d + "/repo", VERIF_SCRATCH=d)
    order = ORDER + ["C21"]
    if m["file"].startswith("cmd/"):
        order = ["C21"]
    for c in order:
        if c == "C21":
            os.makedirs(d + "/tools", exist_ok=True)
            run(["go", "build", "-buildvcs=false", "-o", d + "/tools/", "./cmd/keygen", "./cmd/signer"], d + "/repo", 120)
            env["VERIF_TOOLS"] = d + "/tools"
        rc, o = run([d + "/vh", "-prop", c, "-scale", a.scale, "-shard", "0/1", "-out", d + "/out.json", "-current", d + "/cur"], d, 600, env)
        if rc != 0:
            t = ""
            try:
                v = json.load(open(d + "/out.json"))["violations"]; t = v[0]["text"][:200]
            except Exception:
                t = "rc=%s %s" % (rc, o[:200])
            if os.path.exists(d + "/out.json"):
                os.remove(d + "/out.json")
            return "killed", c, t
    return "SURVIVED", None, ""
ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
