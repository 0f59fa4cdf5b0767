#!/usr/bin/env python3
"""mkseed.py FILE.py [ID...]: plants the bugs FILE.py lists in SEEDS and runs the checks on them, all in
scratch copies. A seed is (id, property, needs, what, [(path, old, new)...], demo_go, [checks])."""
import sys, os, subprocess, json, shutil, re, concurrent.futures
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
BASE = "84cebad"
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0", GOCACHE="/tmp/gocache", VERIF_GOCACHE="/tmp/gocache",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], VERIF_SEED="1")
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = """(cd tests/scripts && go run create_test_pdfs.go) >/dev/null 2>&1
qpdf --encrypt testpass ownerpass 256 -- tests/resources/acroform_test.pdf tests/resources/test_aes256.pdf >/dev/null 2>&1
[ -e forms/acroform/tests ] || ln -s ../../tests forms/acroform/tests
[ -e content/extract/tests/resources/test_font.ttf ] || { mkdir -p content/extract/tests/resources; cp tests/resources/test_font.ttf content/extract/tests/resources/; }
go test -json -vet=off -count=1 -timeout 5m ./..."""

def one(seed):
    id, prop, needs, what, edits, demo, checks = seed
    out = ["== " + id]
    W = "/tmp/seedw/" + id
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    wt = W + "/repo"
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    for path, old, new in edits:
        p = os.path.join(wt, path); s = open(p).read()
        if s.count(old) != 1:
            return out + ["EDIT %s: %d matches for %r" % (path, s.count(old), old)]
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    # the lines it removes must be of the original repository
    for path in {e[0] for e in edits}:
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", path], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        d = subprocess.run(["git", "-C", wt, "diff", "-U0", path], stdout=subprocess.PIPE, text=True).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for k in range(a, a + n):
                if not bl[k - 1].startswith("^" + BASE):
                    out.append("NOT ORIGINAL %s:%d %s" % (path, k, bl[k - 1][:120]))
            if n == 0:
                out.append("pure insertion at %s:%d" % (path, a))
    d = "/verif/seeded/" + id
    tmp = W + "/seed"
    os.makedirs(tmp)
    open(tmp + "/patch.diff", "w").write(diff)
    shutil.copy("/verif/tools/demo_template.sh", tmp + "/demo.sh"); os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/demo.go", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(tmp + "/meta.json", "w"), indent=1)
    r = subprocess.run(["go", "build", "./..."], cwd=wt, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 0
    if not ok: return out + ["BUILD " + r.stdout[:500]]
    r = subprocess.run(["sh", tmp + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: ok = False; out.append("DEMO CLEAN fails %d %s" % (r.returncode, r.stdout[-600:]))
    r = subprocess.run(["sh", tmp + "/demo.sh"], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not r.returncode: ok = False; out.append("DEMO PATCHED passes " + r.stdout[-300:])
    else: out.append("demo: " + r.stdout.strip()[-150:])
    r = subprocess.run(["sh", "-c", SH], cwd=wt, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    st = {}
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Test") and e["Action"] in ("pass", "fail"): st[e["Package"] + "/" + e["Test"]] = e["Action"]
    lost = sorted(k for k in base if st.get(k) != "pass")
    if lost: ok = False; out.append("TESTS LOST %s" % lost[:4])
    if not ok: return out
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    subprocess.run(["rsync", "-a", "--exclude", ".git", "/verif/", W + "/verif/"], check=True)
    gm = W + "/verif/harness/go.mod"
    s = open(gm).read().replace("=> /repo", "=> " + wt); open(gm, "w").write(s)
    for c in checks or [prop]:
        r = subprocess.run(["python3", "run.py", c, "quick"], cwd=W + "/verif", env=env, stdout=subprocess.PIPE, text=True)
        subs = sorted({l.strip()[4:].split(":")[0] for l in r.stdout.splitlines() if l.startswith("  sub ")})
        out.append("%s exit %d %s %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", ",".join(subs)))
        open(W + "/log-" + c, "w").write(r.stdout)
    shutil.rmtree(wt)
    return out

with concurrent.futures.ThreadPoolExecutor(max_workers=3) as ex:
    for o in ex.map(one, [s for s in spec["SEEDS"] if not only or s[0] in only]):
        print("\n".join(o), flush=True)
