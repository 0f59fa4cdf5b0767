#!/usr/bin/env python3
"""Check driver: run.py <PROPERTY> [quick|thorough] | run.py --replay <dir> | run.py --setup

Builds the harness against /repo's working tree, runs every generated sub-check
of the property in its own process with a pinned seed, merges what they covered
into evidence/<PROPERTY>.json and reports violations with a replay directory.
Exit 0: held on everything explored. 1: VIOLATION. Anything else: the check could not decide."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
GO = "/opt/veriftools/go1.27.3/bin/go"
MULT = {"quick": 1, "thorough": 12}
SHARDS = {"quick": 1, "thorough": 4}
TIMEOUT = {"quick": 700, "thorough": 5400}

def env_base():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             CGO_ENABLED="0", GOCACHE=os.environ.get("VERIF_GOCACHE", "/tmp/verif-gocache"), GOMAXPROCS="4",
             GOSUMDB="off", TZ="UTC")
    for k in list(e):
        if k.startswith("VERIF_SUB") or k in ("VERIF_LIST", "VERIF_KNOWN", "VERIF_CHECKS") or k.startswith("RAPID_"):
            del e[k]
    return e

def build(scratch, race=False):
    exe = os.path.join(scratch, "race.test" if race else "props.test")
    e = env_base()
    if race:
        e["CGO_ENABLED"] = "1"
    e["GOMAXPROCS"] = "8"
    # the module files are copied so that nothing committed is rewritten by the build
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, f), scratch)
    r = subprocess.run([GO, "test", "-c", "-vet=off"] + (["-race"] if race else []) + [ "-modfile", os.path.join(scratch, "go.mod"), "-o", exe, "./props"],
                       cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("build failed:\n" + r.stdout)
        sys.exit(3)
    return exe

def build_cli(scratch):
    """The command line tool, for the checks that run it."""
    out = os.path.join(scratch, "pdfer")
    r = subprocess.run([GO, "build", "-modfile", os.path.join(scratch, "go.mod"), "-o", out, "github.com/benedoc-inc/pdfer/cmd/pdfer"],
                       cwd=HARNESS, env=dict(env_base(), GOMAXPROCS="8"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("build failed:\n" + r.stdout)
        sys.exit(3)
    os.environ["VERIF_PDFER"] = out

def known_list(pid):
    out = {}
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out[d["key"]] = d
    return out

def run_sub(exe, scratch, sub, checks, seed, shard, tier):
    tag = "%s-%s-%d" % (sub["ID"], sub["Name"], shard)
    d = os.path.join(scratch, tag)
    os.makedirs(os.path.join(d, "journal"))
    replay = os.path.join(d, "replay")
    out = os.path.join(d, "out.json")
    h = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, sub["ID"], sub["Name"], shard)).encode()).digest()[:7], "big") | 1
    e = env_base()
    e.update(VERIF_SUB="%s/%s" % (sub["ID"], sub["Name"]), VERIF_CHECKS=str(checks), VERIF_REPLAY_DIR=replay,
             GORACE="halt_on_error=1 exitcode=66", VERIF_OUT=out, VERIF_JOURNAL_DIR=os.path.join(d, "journal"), TMPDIR=d)
    res = {"sub": sub["Name"], "shard": shard, "seed": h, "replay": replay, "checks": checks, "race": sub["Race"]}
    t0 = time.time()
    with open(os.path.join(d, "log"), "wb") as lf:
        p = subprocess.Popen([exe, "-test.run", "^TestSub$", "-test.v", "-test.timeout", "0", "-rapid.seed=%d" % h],
                             cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=TIMEOUT[tier])
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    res["wall"] = time.time() - t0
    log = open(os.path.join(d, "log"), "rb").read().decode("utf-8", "replace")
    res["rc"], res["log"] = rc, log
    res["out"] = json.load(open(out)) if os.path.exists(out) else None
    kind = "error"
    if rc == 0 and res["out"] and not res["out"]["Failed"] and "--- PASS: TestSub" in log:
        kind = "ok"
    elif rc == 1 and res["out"] and res["out"]["Failed"] and "[rapid] only generated" not in log:
        kind = "violation"
    elif rc == 7 or rc == -9 and "RUNAWAY" in log:
        kind = "violation"
    elif rc == 66 and "DATA RACE" in log:
        kind = "violation"
        if not os.path.isdir(replay):
            shutil.copytree(os.path.join(d, "journal"), replay)
    elif rc == 2 and ("goroutine stack exceeds" in log or "fatal error: stack overflow" in log or "fatal error: concurrent map" in log or "fatal error: all goroutines are asleep" in log or log.lstrip().startswith("panic:") or "\npanic: " in log):
        kind = "violation"
        if not os.path.isdir(replay) and os.path.isdir(os.path.join(d, "journal")):
            shutil.copytree(os.path.join(d, "journal"), replay)
    res["kind"] = kind
    return res

def keep_replay(pid, res, tier, vseed):
    dst = os.path.join(REPLAYS, "%s-%s-%d" % (pid, res["sub"], res["shard"]))
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    if os.path.isdir(res["replay"]):
        for f in os.listdir(res["replay"]):
            shutil.copy(os.path.join(res["replay"], f), dst)
    d = os.path.dirname(res["replay"])
    for root, _, fs in os.walk(os.path.join(d, "testdata")):
        for f in fs:
            if f.endswith(".fail"):
                shutil.copy(os.path.join(root, f), os.path.join(dst, "rapid.fail"))
    with open(os.path.join(dst, "log.txt"), "w") as f:
        f.write(res["log"][-200000:])
    with open(os.path.join(dst, "meta.json"), "w") as f:
        json.dump({"property": pid, "sub": res["sub"], "rapid_seed": res["seed"], "checks": res["checks"], "tier": tier, "verif_seed": vseed, "race": res["race"]}, f)
    return dst

def main():
    if sys.argv[1] == "--setup":
        s = tempfile.mkdtemp(prefix="verif-")
        try:
            build(s)
            build_cli(s)
            build(s, True)
        finally:
            shutil.rmtree(s, ignore_errors=True)
        return 0
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2], scratch)
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"), scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def replay(rdir, scratch):
    rdir = os.path.abspath(rdir)
    m = json.load(open(os.path.join(rdir, "meta.json")))
    exe = build(scratch, m.get("race", False))
    build_cli(scratch)
    e = env_base()
    e.update(GORACE="halt_on_error=1 exitcode=66", VERIF_SUB="%s/%s" % (m["property"], m["sub"]), VERIF_CHECKS=str(m["checks"]))
    ff = os.path.join(rdir, "rapid.fail")
    args = [exe, "-test.run", "^TestSub$", "-test.v", "-test.timeout", "0", "-rapid.nofailfile"]
    if os.path.exists(ff):
        e["VERIF_CHECKS"] = "1"
        args += ["-rapid.failfile", ff]
    args += ["-rapid.seed=%d" % m["rapid_seed"]]
    return subprocess.run(args, cwd=scratch, env=e).returncode

def check(pid, tier, scratch):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    exe = build(scratch)
    if pid == "C26":
        build_cli(scratch)
    e = env_base()
    subs = [s for s in json.loads(subprocess.run([exe], env=dict(e, VERIF_LIST="1"), stdout=subprocess.PIPE, text=True, check=True, cwd=scratch).stdout) if s["ID"] == pid]
    if os.environ.get("VERIF_ONLY"):
        subs = [s for s in subs if s["Name"] in os.environ["VERIF_ONLY"].split(",")]
    if not subs:
        print("no such property: " + pid)
        return 3
    race = build(scratch, True) if any(s["Race"] for s in subs) else None
    listed = known_list(pid)
    bad = 0
    kr = subprocess.run([exe], env=dict(e, VERIF_KNOWN=pid), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=scratch, timeout=600)
    known_lines = []
    if kr.returncode == 0:
        for k in json.loads(kr.stdout):
            if not k["Fails"]:
                continue
            if k["Key"] in listed:
                known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, k["Key"], listed[k["Key"]]["what"]))
            else:
                dst = os.path.join(REPLAYS, "%s-probe-%s" % (pid, k["Key"]))
                os.makedirs(dst, exist_ok=True)
                open(os.path.join(dst, "what.txt"), "w").write(k["What"])
                print("VIOLATION property=%s replay=%s" % (pid, dst))
                print("  probe %s: %s" % (k["Key"], k["What"]))
                bad += 1
    else:
        print("known-finding probes failed to run:\n" + kr.stdout[-2000:] + kr.stderr[-4000:])
        return 3
    for l in known_lines:
        print(l)
    jobs = []
    mult = float(os.environ.get("VERIF_MULT", MULT[tier]))
    for s in subs:
        sh = max(SHARDS[tier], 4 // len(subs))
        for i in range(sh):
            jobs.append((s, max(1, int(s["N"] * mult / sh)), i))
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(lambda j: run_sub(race if j[0]["Race"] else exe, scratch, j[0], j[1], seed, j[2], tier), jobs))
    errors = []
    evals = nt = 0
    rules, classes, excluded, samples, per = [], {}, {}, [], {}
    for r in results:
        o = r["out"]
        if o:
            evals += o["Evaluations"]
            nt += o["NonTrivial"]
            if r["shard"] == 0:
                rules.append("%s: %s" % (r["sub"], o["Rule"]))
                for s in o["Samples"] or []:
                    samples.append({"sub": r["sub"], "case": s})
            for k, v in (o["Classes"] or {}).items():
                classes["%s/%s" % (r["sub"], k)] = classes.get("%s/%s" % (r["sub"], k), 0) + v
            for k, v in (o["Excluded"] or {}).items():
                excluded["%s/%s" % (r["sub"], k)] = excluded.get("%s/%s" % (r["sub"], k), 0) + v
            q = per.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0})
            q["evaluations"] += o["Evaluations"]
            q["distinct_nontrivial"] += o["NonTrivial"]
        if r["kind"] == "violation":
            bad += 1
            dst = keep_replay(pid, r, tier, seed)
            print("VIOLATION property=%s replay=%s" % (pid, dst))
            lines = [l for l in r["log"].splitlines() if "[rapid] draw" not in l]
            i = next((i for i, l in enumerate(lines) if "[rapid] failed" in l or "[rapid] panic" in l or "fatal error" in l or "DATA RACE" in l or "RUNAWAY" in l or "[rapid] flaky" in l), 0)
            print("  sub %s:\n%s" % (r["sub"], "\n".join("    " + l[:400] for l in lines[i:i + 14])))
        elif r["kind"] == "error":
            errors.append(r)
            print("ERROR sub %s shard %d rc=%s\n%s" % (r["sub"], r["shard"], r["rc"], r["log"][-3000:]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nt, "rule": " | ".join(rules), "samples": samples[:24],
                       "classes": classes, "excluded_known_findings": excluded, "per_sub": per, "known_findings_still_failing": known_lines},
          "assumptions": ["the reference model in /verif/harness/ref and the Go standard library are correct"],
          "wall_s": round(time.time() - t0, 2), "violations": bad}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_TIMES"):
        for r in results:
            print("  %-30s %7.1fs evals=%s nt=%s" % (r["sub"], r["wall"], r["out"] and r["out"]["Evaluations"], r["out"] and r["out"]["NonTrivial"]))
    print("%s %s: %d cases, %d non-trivial, %d violations, %.1fs" % (pid, tier, evals, nt, bad, time.time() - t0))
    if bad:
        return 1
    return 2 if errors else 0

if __name__ == "__main__":
    sys.exit(main())
