#!/usr/bin/env python3
"""Builds the monitored harness against the current tree of /repo and runs the workload of
one property.

  run.py <property>            tier and seed from VERIF_TIER (quick), VERIF_SEED (1)
  run.py <property> --replay F re-runs the case recorded in a replay file

Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: no answer
(the build failed, the harness failed, or too little was observed)."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
RACE = {"C14"}
TOOLS = {"C21"}
TIMEOUT = {"quick": 840, "thorough": 6 * 3600}

def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off")
    d = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(d):
        e["PATH"] = d + ":" + e.get("PATH", "")
    return e

def build(scratch, race):
    mod = open(os.path.join(VERIF, "harness/go.mod")).read()
    mod = mod.replace("=> /repo", "=> " + REPO)
    open(os.path.join(scratch, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(VERIF, "harness/go.sum"), os.path.join(scratch, "go.sum"))
    exe = os.path.join(scratch, "vharness")
    cmd = ["go", "build", "-buildvcs=false", "-modfile=" + os.path.join(scratch, "go.mod"), "-o", exe]
    env = go_env()
    if race:
        cmd.append("-race")
        env["CGO_ENABLED"] = "1"
    cmd.append(".")
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("BUILD FAILED\n" + p.stdout[-4000:])
        sys.exit(2)
    return exe

def build_tools(scratch):
    """Builds the command-line tools from the repository's own module."""
    d = os.path.join(scratch, "tools")
    os.mkdir(d)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(scratch, "repo." + f[3:]))
    cmd = ["go", "build", "-buildvcs=false", "-modfile=" + os.path.join(scratch, "repo.mod"), "-o", d + "/", "./cmd/keygen", "./cmd/signer"]
    p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("BUILD FAILED\n" + p.stdout[-4000:])
        sys.exit(2)
    return d

LIB = re.compile(r"^(?:\s*)(github\.com/taurusgroup/frost-ed25519/(?!pkg/vharness)\S+\(.*)$", re.M)

def classify(rc, err):
    """A shard died: what does its stderr show? Returns a text if it shows a violation."""
    if "WARNING: DATA RACE" in err:
        m = LIB.search(err[err.index("WARNING: DATA RACE"):])
        if m:
            return "data race: " + m.group(1)
        return None
    for key in ("fatal error:", "panic:", "unexpected fault", "SIGSEGV"):
        i = err.find(key)
        if i >= 0:
            m = LIB.search(err[i:])
            if m:
                return "crash: %s in %s" % (err[i:].split("\n", 1)[0], m.group(1))
            return None
    return None

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
        tier, seed = replay.get("tier", tier), replay.get("seed", seed)
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    procs = []
    try:
        exe = build(scratch, prop in RACE)
        env = go_env()
        env["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
        env["GOMAXPROCS"] = os.environ.get("GOMAXPROCS", "4" if prop in RACE else "2")
        env["VERIF_REPO"] = REPO
        env["VERIF_SCRATCH"] = scratch
        if prop in TOOLS:
            env["VERIF_TOOLS"] = build_tools(scratch)
        def limits():
            if prop not in RACE:
                resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        n = 1 if replay else SHARDS
        for i in range(n):
            out = os.path.join(scratch, "out%d.json" % i)
            cmd = [exe, "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", "%d/%d" % (i, n),
                   "-out", out, "-current", os.path.join(scratch, "cur%d" % i)]
            if replay:
                cmd += ["-case", replay["case"]]
            if os.environ.get("VERIF_SCALE"):
                cmd += ["-scale", os.environ["VERIF_SCALE"]]
            err = open(os.path.join(scratch, "err%d" % i), "wb")
            procs.append((subprocess.Popen(cmd, env=env, stdout=err, stderr=err, cwd=scratch, preexec_fn=limits, start_new_session=True), i))
        deadline = t0 + TIMEOUT.get(tier, 840)
        violations, errors = [], []
        counters, distinct, samples, evals, cases = {}, set(), [], 0, 0
        for p, i in procs:
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            errtxt = open(os.path.join(scratch, "err%d" % i), "rb").read().decode("utf8", "replace")
            cur = ""
            try:
                cur = open(os.path.join(scratch, "cur%d" % i)).read().strip()
            except OSError:
                pass
            try:
                st = json.load(open(os.path.join(scratch, "out%d.json" % i)))
            except (OSError, ValueError):
                st = None
            if st:
                evals += st["evals"]; cases += st["cases"]
                for k, v in (st["counters"] or {}).items():
                    counters[k] = counters.get(k, 0) + v
                distinct.update(st["distinct"] or [])
                samples += (st["samples"] or [])[:1]
                for v in st["violations"] or []:
                    violations.append(dict(case="%s:%d" % (v["part"], v["case"]), text=v["text"], detail=v.get("detail", "")))
            if rc not in (0, 1) or st is None:
                why = classify(rc, errtxt)
                if why:
                    violations.append(dict(case=cur, text=why, detail=errtxt[:8000]))
                elif not (st and st["violations"]):
                    errors.append("shard %d ended with %s in case %s:\n%s" % (i, rc, cur, errtxt[:3000]))
        meta = {}
        m = subprocess.run([exe, "-list"], env=env, stdout=subprocess.PIPE, text=True)
        try:
            meta = json.loads(m.stdout)[prop]
        except (ValueError, KeyError):
            errors.append("no such property in the harness")
    finally:
        for p, _ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    known = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
        m = re.match(r"known: property=(\S+) text=(.*)$", line)
        if m and m.group(1) == prop:
            known.append(m.group(2).strip())
    new = []
    for k in known:
        hits = [v for v in violations if k in v["text"]]
        if hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, hits[0]["text"]))
    new = [v for v in violations if not any(k in v["text"] for k in known)]

    wall = time.time() - t0
    if not replay:
        cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=meta.get("Rule", ""),
                   samples=samples[:6], cases=cases, counters=dict(sorted(counters.items())), shards=SHARDS,
                   parts=meta.get("Parts", []))
        ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed,
                  level="exploration", coverage=cov, wall_s=round(wall, 2), violations=len(new),
                  assumptions=["the oracles of /verif/harness (math/big reference) and the Go standard library are right",
                               "crypto/rand.Reader is replaced by a deterministic generator in the harness process"])
        if len(json.dumps(ev)) > 60000:
            ev["coverage"]["samples"] = [json.dumps(s)[:2000] for s in samples[:3]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if new:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new[:3]):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            json.dump(dict(property=prop, tier=tier, seed=seed, **v), open(path, "w"), indent=1)
            print("%s [%s]" % (v["text"][:600], v["case"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        print("NO ANSWER:\n" + "\n".join(errors)[:6000])
        sys.exit(2)
    if not replay and not os.environ.get("VERIF_SCALE"):
        for k, least in (meta.get("Least") or {}).items():
            if counters.get(k, 0) < least:
                print("INCONCLUSIVE: only %d %s observed, at least %d needed" % (counters.get(k, 0), k, least))
                sys.exit(2)
    print("held: property=%s tier=%s cases=%d evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, cases, evals, len(distinct), wall))
    for k, v in sorted(counters.items()):
        print("  %s: %d" % (k, v))

if __name__ == "__main__":
    main()
