#!/usr/bin/env python3
"""Writes MANIFEST.json from suites.py (claimed properties) and the table below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from suites import PROPS
T = {p["id"]: p for p in map(json.loads, open(os.path.join(H, "properties.jsonl")))}
SAN = "AddressSanitizer + LeakSanitizer + UBSan, debug and NDEBUG builds"
TECH = {
 "C01": "runtime trace monitor: probes in every user callback and block, online ordering oracle over random diagrams, under sanitizers",
 "C02": "differential runtime oracle: independent reference interpreter compared bitwise-close at every accepted time, under sanitizers",
 "C03": "metamorphic runtime oracle: same diagram under permuted creation order, nesting, heap layout, simulator kind",
 "C04": "runtime oracle: independent fixpoint of determinable blocks vs observed activation, diagnostics and refusals, under sanitizers",
 "C05": "model-based API-history monitor (shadow state of signals and handles), under sanitizers",
 "C06": "model-based API-history monitor (shadow bus), under sanitizers",
 "C07": "runtime monitor of derivative calls against Butcher tableaux, under sanitizers",
 "C08": "runtime trace monitor of scripted and real steppers, online step-control oracle, under sanitizers",
 "C09": "runtime trace monitor of pre/post-step notifications plus reference states, under sanitizers",
 "C10": "runtime oracle: exhaustive sample log and interpolation reference, under sanitizers",
 "C11": "runtime monitor of stage states/derivatives and reference integrals, under sanitizers",
 "C12": "runtime monitor of clock histories (init/run/repeat/back), reference states, under sanitizers",
 "C13": "model-based API-history monitor (shadow table), under sanitizers",
 "C14": "runtime oracle: exported files parsed and compared with shadow table, under sanitizers",
 "C15": "model-based API-history monitor (shadow tree), recorded traversals, under sanitizers",
 "C16": "runtime oracle: per-path reference of bus blocks, connect-time shadow, under sanitizers",
 "C17": "runtime oracle: independent table of block contracts vs observed accept/refuse, under sanitizers",
 "C18": "compiler sanitizers and memcheck over random API histories with refused calls",
 "C19": "ThreadSanitizer and digest comparison of concurrent and interleaved models",
 "C20": "runtime monitor of trace depth and exception contents over random API histories with refused calls",
 "C21": "differential runtime oracle: digests of the same case in debug and release builds",
 "C22": "fault injection at every user callback, retry compared with fault-free reference",
}
NOTE = ("Held on every execution explored (count, distinct cases and observed events are in the evidence file); the cases are drawn "
        "from VERIF_SEED. Trusted: the reference/oracle code in harness/, the compiler and the sanitizer run times.")
EXTRA = {
 "C19": " Data races: only those on interleavings ThreadSanitizer's happens-before analysis sees in the threads run.",
 "C22": " The fault position is enumerated over all user callbacks of short runs and sampled for long ones.",
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in sorted(PROPS):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": PROPS[p].get("level", "exploration"), "level_note": NOTE + EXTRA.get(p, "")})
for p in sorted(T):
    if p not in PROPS:
        m["not_applicable"].append({"property": p, "reason": "its check is not finished yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
