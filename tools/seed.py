#!/usr/bin/env python3
"""seed.py validate ID...   the planted change builds, passes the tests, and its demonstration tells it from the original
   seed.py check ID... [--prop C02,C03] [--seed N]   which checks report it
Everything happens in a copy of /repo that is bind-mounted over /repo in a mount namespace of its own."""
import json, os, subprocess, sys, shutil, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sd"
ORIG = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--reverse"], capture_output=True, text=True).stdout.split()[0]

def ns(copy, cmd, **kw):
    return subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], capture_output=True, text=True, errors="replace", **kw)

def copy(i, patch=True):
    c = "%s/%s" % (W, i)
    if os.path.exists(c): shutil.rmtree(c)
    os.makedirs(W, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    if patch:
        r = subprocess.run(["git", "-C", c, "apply", "%s/seeded/%s/patch.diff" % (H, i)], capture_output=True, text=True)
        if r.returncode: raise SystemExit("%s: patch: %s" % (i, r.stderr))
    return c

def orig_lines(i):
    """lines removed by the patch that are not lines of the original repository"""
    bad, f = [], None
    for l in open("%s/seeded/%s/patch.diff" % (H, i)):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            o = subprocess.run(["git", "-C", "/repo", "show", "%s:%s" % (ORIG, f)], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].rstrip("\n") not in o: bad.append(l)
    return bad

def validate(i):
    d = "%s/seeded/%s" % (H, i)
    bad = orig_lines(i)
    c = copy(i)
    r = ns(c, "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/%s.json" % (W, i))
    ok = r.returncode == 0
    msg = [] if ok else ["build: " + (r.stdout + r.stderr)[-1500:]]
    if ok:
        res = json.load(open("%s/%s.json" % (W, i)))
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if not st <= set(res["passed"]): msg.append("tests fail: %s" % (st - set(res["passed"])))
        r = ns(c, "bash %s/demo.sh" % d)
        if r.returncode == 0: msg.append("demo passes with the patch")
        out = (r.stdout + r.stderr)[-300:]
        r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True, errors="replace")
        if r.returncode: msg.append("demo fails on the original: " + (r.stdout + r.stderr)[-1500:])
        if not msg: print(i, "VALID", "| demo says:", out.strip().split("\n")[-1][:200])
    if bad: msg.append("touches lines that are not original: " + "".join(bad))
    for m in msg: print(i, "INVALID", m)
    shutil.rmtree(c); subprocess.run(["rm", "-f", "%s/%s.json" % (W, i)])
    return not msg

def check(i, props, seed):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i)))
    c = copy(i)
    for p in props or [m["property"]]:
        t = time.time()
        r = ns(c, "cd %s && VERIF_SEED=%s VERIF_TIER=quick VERIF_NOEVID=1 python3 check.py %s" % (H, seed, p))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        first = [l for l in r.stdout.split("\n") if l.startswith("  ")][:1]
        print(i, p, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "NO ANSWER"), "%d reports %.0fs" % (len(v), time.time() - t), (first[0][:260] if first else r.stderr[-800:] if r.returncode not in (0, 1) else ""), flush=True)
    shutil.rmtree(c)

a = sys.argv[1:]
props = seed = None
if "--prop" in a: k = a.index("--prop"); props = a[k + 1].split(","); del a[k:k + 2]
seed = "1"
if "--seed" in a: k = a.index("--seed"); seed = a[k + 1]; del a[k:k + 2]
ids = a[1:] or sorted(os.listdir(H + "/seeded"))
for i in ids:
    if a[0] == "validate": validate(i)
    else: check(i, props, seed)
