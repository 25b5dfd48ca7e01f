#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--keep]
Builds /repo's current sources together with the monitors in harness/ under compiler sanitizers, runs the suites that
decide <property> in parallel shards, attributes every crash, sanitizer report, hang and oracle failure to a case, and
writes evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer (build error).
VERIF_SEED selects the random cases, VERIF_TIER (quick|thorough) their number.  VERIF_REPO overrides /repo."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
CACHE = os.path.join(HERE, ".cache")
REPLAYS = os.path.join(HERE, "replays")
sys.path.insert(0, HERE)
from suites import SUITES, PROPS  # noqa: E402

NPROC = max(2, min(16, os.cpu_count() or 4))
T0 = time.time()

COMMON = ["-w", "-std=c++17", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-DEIGEN_MPL_ONLY", "-I", REPO, "-I", HARN,
          "-isystem", "/usr/include/eigen3"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
FLAVOURS = {
    # name: (compile flags, link flags, is debug)
    "debug": (["-O1", "-g1"] + SAN, SAN),
    "release": (["-O1", "-g1", "-DNDEBUG"] + SAN, SAN),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "tsanrel": (["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": (["-O1", "-g1"], []),
    "opt": (["-O2", "-g1", "-DNDEBUG"], []),
    "neutral": (["-O2", "-g1"], []),
}
NEUTRAL = {"main", "diag_ref", "oracle"}  # do not include the library: built once, without sanitizers
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:strict_init_order=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
ENV["LSAN_OPTIONS"] = "exitcode=99"
ENV["LC_ALL"] = "C.UTF-8"


class BuildError(Exception):
    pass


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    r = []
    for d, dn, fn in os.walk(os.path.join(REPO, "src")):
        dn.sort()
        r += [os.path.join(d, f) for f in fn]
    return sorted(r)


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        src = repo_sources()
        self.cpp = [f for f in src if f.endswith((".cpp", ".cc", ".cxx"))]
        hdr = [f for f in src if f not in self.cpp and f.endswith((".hpp", ".h", ".ipp", ".inl", ".hh", ".tpp"))]
        h = hashlib.sha256()
        for f in hdr:
            h.update(os.path.relpath(f, REPO).encode() + b"\0" + read(f) + b"\0")
        self.repo_h = h.hexdigest()
        h = hashlib.sha256()
        for f in sorted(os.listdir(HARN)):
            if f.endswith(".hpp"):
                h.update(f.encode() + b"\0" + read(os.path.join(HARN, f)) + b"\0")
        self.harn_h = h.hexdigest()

    def obj(self, src, flavour):
        base = os.path.basename(src)[:-4]
        harness = src.startswith(HARN)
        if harness and base in NEUTRAL:
            flavour = "neutral"
        flags = COMMON + FLAVOURS[flavour][0]
        key = hashlib.sha256("\0".join([src, self.harn_h if harness else "", "" if flavour == "neutral" else self.repo_h] + flags).encode() + read(src)).hexdigest()[:24]
        return base, os.path.join(CACHE, base + "-" + key + ".o"), ["clang++"] + flags + ["-c", src]

    def build(self, targets):
        """targets: list of (suite, flavour); returns {(suite, flavour): exe}"""
        os.makedirs(CACHE, exist_ok=True)
        jobs, links = {}, {}
        for suite, fl in targets:
            objs = []
            srcs = [os.path.join(HARN, m + ".cpp") for m in ["main"] + SUITES[suite]["modules"]] + self.cpp
            for s in srcs:
                base, o, cmd = self.obj(s, fl)
                objs.append(o)
                if not os.path.exists(o):
                    jobs[o] = (cmd, os.path.getsize(s) * (4 if s.startswith(HARN) else 1))
            links[(suite, fl)] = objs
        todo = sorted(jobs.items(), key=lambda kv: -kv[1][1])

        def comp(it):
            o, (cmd, _) = it
            tmp = os.path.join(self.tmp, os.path.basename(o))
            p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True, errors="replace")
            if p.returncode:
                raise BuildError(" ".join(cmd) + "\n" + p.stderr[-6000:])
            shutil.move(tmp, o + ".%d" % os.getpid())
            os.rename(o + ".%d" % os.getpid(), o)

        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(comp, todo))

        def link(it):
            (suite, fl), objs = it
            exe = os.path.join(self.tmp, suite + "-" + fl)
            cmd = ["clang++"] + FLAVOURS[fl][1] + objs + ["-lpthread", "-o", exe]
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
            if p.returncode:
                raise BuildError(" ".join(cmd) + "\n" + p.stderr[-6000:])
            return (suite, fl), exe

        with cf.ThreadPoolExecutor(NPROC) as ex:
            return dict(ex.map(link, links.items()))

    def prune(self):
        fs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getmtime)
        size = sum(os.path.getsize(f) for f in fs)
        while fs and size > 1.5e9:
            size -= os.path.getsize(fs[0])
            os.remove(fs.pop(0))


def run_one(exe, args, wd, timeout, wrapper=()):
    """returns (rc, stderr_tail, status)"""
    st = os.path.join(wd, "status")
    err = os.path.join(wd, "stderr")
    out = os.path.join(wd, "out.json")
    for f in (st, out):
        if os.path.exists(f):
            os.remove(f)
    with open(err, "wb") as ef:
        p = subprocess.Popen(list(wrapper) + [exe] + args + ["--status", st, "--out", out], stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, cwd=wd, env=ENV, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            rc = -999
    txt = read(err)
    txt = (txt if len(txt) < 60000 else txt[:30000] + b"\n...\n" + txt[-30000:]).decode("utf-8", "replace")
    status = read(st).decode("utf-8", "replace").split() if os.path.exists(st) else []
    res = None
    if os.path.exists(out):
        try:
            res = json.loads(read(out))
        except ValueError:
            res = None
    return rc, txt, status, res


def summarize(txt):
    """the decisive lines of a sanitizer report"""
    keep = []
    for l in txt.splitlines():
        if re.search(r"ERROR: |runtime error|SUMMARY|WARNING: ThreadSanitizer|Assertion|terminate called|what\(\)|Invalid |uninitialised|definitely lost", l):
            keep.append(l.strip()[:300])
        elif re.match(r"\s*(#\d+|==\d+==\s+(at|by))", l) and "/repo/" in l and len(keep) < 8:
            keep.append(l.strip()[:200])
        if len(keep) >= 8:
            break
    return " | ".join(keep) or txt[-400:].replace("\n", " | ")


class Check:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.viol = []       # dicts
        self.cases = 0
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.rules = []
        self.parts = []
        self.notes = []

    def add_result(self, part, res):
        pref = part["name"] + ": " if part.get("name") else ""
        self.cases += res["cases"]
        for k, v in res["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for d in res["distinct"]:
            self.distinct.add(part["suite"] + d)
        if len(self.samples) < 6:
            self.samples += [pref + s for s in res["samples"][:1]]
        if res["rule"] not in self.rules:
            self.rules.append(res["rule"])
        part["cases"] = part.get("cases", 0) + res["cases"]
        part.setdefault("digests", {}).update(res.get("digests", {}))

    def violation(self, part, case, msg, txt=""):
        if len(self.viol) >= 12:
            return
        self.viol.append({"property": self.prop, "suite": part["suite"], "flavour": part["flavour"], "seed": self.seed + part.get("seed_off", 0),
                          "case": case, "args": part.get("args", []), "wrapper": part.get("wrapper", []), "thorough": self.tier == "thorough",
                          "message": msg, "log": txt[-8000:]})

    def run_part(self, part, exe, deadline):
        """runs one suite in one flavour over all shards"""
        n = part["count"]
        shards = min(NPROC, n)
        wrapper = part.get("wrapper", [])
        hang = part.get("hang", 25)
        base = ["--seed", str(self.seed + part.get("seed_off", 0)), "--hang", str(hang)] + (["--thorough"] if self.tier == "thorough" else []) + part.get("args", [])

        def shard(i):
            wd = os.path.join(self.tmp, "w-%s-%s-%d" % (part["suite"], part["flavour"], i))
            os.makedirs(wd, exist_ok=True)
            todo = list(range(i, n, shards))
            start, probs, results = 0, [], []
            while start < len(todo):
                left = deadline - time.time()
                if left < 1:
                    break
                args = base + ["--from", str(todo[start]), "--stride", str(shards), "--count", str(len(todo) - start), "--cap", str(max(1.0, left))]
                rc, txt, status, res = run_one(exe, args, wd, left + 2 * hang + 120, wrapper)
                if rc in (0, 1) and res is not None:
                    results.append(res)
                    for v in res["violations"]:
                        probs.append((v["case"], v["msg"], txt))
                    break
                # crashed, killed by a sanitizer, or hung
                if not status:
                    probs.append((todo[start], "the monitored program ended with code %d before its first case: %s" % (rc, summarize(txt)), txt))
                    break
                if "DONE" in status:
                    # all cases ran and the process died in the end: a leak report or a race report
                    probs.append((None, "reported when the program ended (code %d): %s" % (rc, summarize(txt)), txt))
                    if res is not None:
                        results.append(res)
                    break
                case = int(status[0])
                hung = rc == 97 or rc == -999
                rc2, txt2, status2, res2 = run_one(exe, base + ["--from", str(case), "--count", "1"], wd, 2 * hang + 120, wrapper)
                if rc2 in (0, 1) and res2 is not None and (hung or rc == -9):
                    # a timeout or kill that does not reproduce: machine load, not a violation
                    self.notes.append("case %d: timeout/kill not reproduced" % case)
                    results.append(res2)
                    for v in res2["violations"]:
                        probs.append((v["case"], v["msg"], txt2))
                elif hung and (rc2 == 97 or rc2 == -999):
                    probs.append((case, "does not terminate (CPU limit %ds exceeded, twice)" % hang, txt2))
                elif rc2 == -9 and rc == -9:
                    probs.append((case, "killed twice (memory limit?): %s" % summarize(txt), txt))
                else:
                    t = txt2 if rc2 not in (0, 1) else txt
                    probs.append((case, "crash or sanitizer report (exit code %d): %s" % (rc if rc2 in (0, 1) else rc2, summarize(t)), t))
                if len(probs) >= 3:
                    break
                # continue after that case
                start = todo.index(case) + 1
            return probs, results

        with cf.ThreadPoolExecutor(shards) as ex:
            for probs, results in ex.map(shard, range(shards)):
                for r in results:
                    self.add_result(part, r)
                for case, msg, txt in probs:
                    self.violation(part, case, msg, txt)


    def compare_pair(self, a, b, exes):
        """cases whose digests differ between two builds: run again, compared number by number"""
        da, db = a.get("digests", {}), b.get("digests", {})
        bad = [k for k in da if k in db and da[k] != "0" and da[k] != db[k]]
        both = sum(1 for k in da if k in db and da[k] != "0")
        self.counters["cases compared between debug and release builds"] = self.counters.get("cases compared between debug and release builds", 0) + both
        self.counters["cases with an error in the debug build (not compared)"] = sum(1 for k in da if da[k] == "0")
        for k in sorted(bad, key=int)[:200]:
            if len(self.viol) >= 6:
                break
            msg = pair_diff(a, b, int(k), self.seed + a.get("seed_off", 0), self.tier == "thorough", exes, self.tmp)
            if msg:
                self.violation(dict(b, flavour="pair"), int(k), msg)
            else:
                self.notes.append("case %s: digests differ within rounding" % k)


def pair_diff(a, b, case, seed, thorough, exes, tmp):
    txt = []
    for p in (a, b):
        f = os.path.join(tmp, "dump")
        run_one(exes[(p["suite"], p["flavour"])], ["--seed", str(seed), "--from", str(case), "--count", "1", "--dump", f] + (["--thorough"] if thorough else []) + p.get("args", []), tmp, 300)
        txt.append(read(f).decode("utf-8", "replace").splitlines())
    if len(txt[0]) != len(txt[1]):
        return "debug and release differ: %d and %d recorded lines" % (len(txt[0]), len(txt[1]))
    for i, (x, y) in enumerate(zip(*txt)):
        if x == y:
            continue
        xs, ys = x.split(" "), y.split(" ")
        ok = len(xs) == len(ys)
        for u, v in zip(xs, ys):
            if u != v:
                try:
                    ok = ok and abs(float(u) - float(v)) <= 1e-9 * (1 + abs(float(u)))
                except ValueError:
                    ok = False
        if not ok:
            return "debug and release differ: line %d: debug: %s | release: %s" % (i, x[:500], y[:500])
    return ""


def known_findings(prop):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    return r


def do_replay(path):
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vh-")
    try:
        b = Builder(tmp)
        if v["flavour"] == "pair":
            exes = b.build([(v["suite"], "debug"), (v["suite"], "release")])
            m = pair_diff({"suite": v["suite"], "flavour": "debug"}, {"suite": v["suite"], "flavour": "release"}, v["case"], v["seed"], v.get("thorough"), exes, tmp)
            print(m or "no difference")
            return 1 if m else 0
        exe = b.build([(v["suite"], v["flavour"])])[(v["suite"], v["flavour"])]
        args = ["--seed", str(v["seed"]), "--verbose"] + (["--thorough"] if v.get("thorough") else []) + v["args"]
        args += ["--from", str(v["case"]), "--count", "1"] if v["case"] is not None else ["--count", "50"]
        rc, txt, st, res = run_one(exe, args, tmp, 900, v.get("wrapper", []))
        print(txt)
        print("replay: exit code", rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        # nothing has to be prepared: every check builds what it needs; this only says whether the tools are there
        for tool in ("clang++", "valgrind"):
            if not shutil.which(tool):
                print("missing: " + tool)
                return 2
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="vh-")
    try:
        return check(prop, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, tmp):
    parts = []
    for p in PROPS[prop]["parts"]:
        q = dict(p)
        q["count"] = p["quick" if tier == "quick" else "thorough"]
        if q["count"] > 0:
            parts.append(q)
    ck = Check(prop, tier, seed, tmp)
    try:
        b = Builder(tmp)
        exes = b.build([(p["suite"], p["flavour"]) for p in parts])
        b.prune()
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    t_build = time.time() - T0
    total = float(os.environ.get("VERIF_CAP", "150" if tier == "quick" else "780"))
    t_end = max(T0 + total, time.time() + 0.6 * total)  # also after a slow build every part gets some time
    for i, p in enumerate(parts):
        t1 = time.time()
        share = (t_end - t1) / (len(parts) - i) * 2
        ck.run_part(p, exes[(p["suite"], p["flavour"])], min(t_end, t1 + share))
        p["wall_s"] = round(time.time() - t1, 1)
        if p.get("pair") and p["flavour"] == "release":
            ck.compare_pair(next(q for q in parts if q.get("pair") == p["pair"] and q is not p), p, exes)
        if len(ck.viol) >= 6:
            break
    known = known_findings(prop)
    new = []
    seen = set()
    for v in ck.viol:
        k = next((k for k, _ in known if k in v["message"]), None)
        if k:
            seen.add(k)
        else:
            new.append(v)
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    os.makedirs(REPLAYS, exist_ok=True)
    for i, v in enumerate(new):
        path = os.path.join(REPLAYS, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        if i < 6:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s/%s case %s: %s" % (v["suite"], v["flavour"], v["case"], v["message"][:1500]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": PROPS[prop].get("level", "exploration"),
        "coverage": {
            "evaluations": ck.cases, "distinct_nontrivial": len(ck.distinct), "rule": " || ".join(ck.rules) or "-",
            "samples": ck.samples or ["-"], "observed": ck.counters,
            "parts": [{k: p[k] for k in ("suite", "flavour", "count", "cases", "wall_s", "args") if k in p} for p in parts],
            "build_s": round(t_build, 1), "notes": ck.notes,
        },
        "assumptions": PROPS[prop].get("assumptions", []),
        "wall_s": round(time.time() - T0, 1), "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    print("%s: %d cases, %d distinct non-trivial, %d violations, build %.1fs, total %.1fs" % (prop, ck.cases, len(ck.distinct), len(new), t_build, time.time() - T0))
    if new:
        return 1
    if ck.cases == 0:
        print("no case was run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
