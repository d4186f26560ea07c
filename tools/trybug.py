#!/usr/bin/env python3
"""trybug.py [-j N] [-c C01,C02 | -a] [id...]: run checks against the planted bugs.

Each bug of /verif/seeded is applied to a copy of /repo under /tmp, the check of its property
(or the checks given with -c, or every check with -a) runs against that copy, and the copy is
removed. Prints which checks raised an alarm, and what they said."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=2)
ap.add_argument("-c", default="")
ap.add_argument("-a", action="store_true")
ap.add_argument("-s", default="1")
ap.add_argument("--patch", default="")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ALL = [c["property"] if "property" in c else c["id"] for c in json.load(open(V + "/MANIFEST.json")).get("checks", [])]

def one(job):
    name, patch, checks = job
    t = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    res = []
    try:
        shutil.copytree("/repo", t + "/repo", symlinks=True)
        p = subprocess.run(["git", "apply", patch], cwd=t + "/repo", stderr=subprocess.PIPE, text=True)
        if p.returncode:
            return name, [("apply", "failed", p.stderr[-300:], 0)]
        # run from a copy of the machinery, so that evidence and replays do not mix
        shutil.copytree(V, t + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        os.makedirs(t + "/verif/evidence")
        for c in checks:
            t0 = time.time()
            e = dict(os.environ, VERIF_REPO=t + "/repo", VERIF_SEED=a.s, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"))
            p = subprocess.run([sys.executable, t + "/verif/run.py", c], env=e, cwd=t + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            caught = p.returncode == 1 and re.search(r"^VIOLATION property=%s " % c, p.stdout, re.M)
            st = "CAUGHT" if caught else "quiet" if p.returncode == 0 else "rc=%d" % p.returncode
            res.append((c, st, "" if p.returncode == 0 else p.stdout[:700], time.time() - t0))
        return name, res
    finally:
        shutil.rmtree(t)

jobs = []
if a.patch:
    jobs.append((a.patch, os.path.abspath(a.patch), a.c.split(",") if a.c else ALL))
else:
    for i in a.ids or sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % i))
        jobs.append((i, V + "/seeded/%s/patch.diff" % i, ALL if a.a else a.c.split(",") if a.c else [m["property"]]))
with ThreadPoolExecutor(a.j) as ex:
    for name, res in ex.map(one, jobs):
        for c, st, out, dt in res:
            print("%-28s %s %-7s %4.0fs" % (name, c, st, dt), flush=True)
            if st != "quiet":
                print("    " + "\n    ".join(l[:220] for l in out.splitlines()[:4]), flush=True)
