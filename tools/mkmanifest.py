#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present and tools/notes below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
    "audit": "runtime monitoring: offline checker over the documents of real runs (independent PARI/Python oracle)",
    "model": "runtime monitoring: recorded runs checked against an independent executable model",
    "tsan": "ThreadSanitizer and an output monitor over threaded runs with injected delays and timeouts",
    "san": "AddressSanitizer, UndefinedBehaviorSanitizer and crash monitor over hostile workloads",
    "harness": "runtime monitoring: harness driving the real functions, every result checked against a model",
}
T = {"C05": "harness", "C06": "harness", "C07": "model", "C08": "model", "C09": "model", "C10": "model", "C13": "model",
     "C18": "san", "C19": "tsan", "C20": "harness", "C23": "harness", "C24": "harness"}
pids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in pids:
    if not os.path.exists("%s/checks/%s.py" % (V, p.lower())):
        continue
    m = importlib.import_module("checks." + p.lower())
    note = "Exploration of seeded workloads; each observed result is decided exactly. " + " ".join(getattr(m, "ASSUME", []) and ["Assumes: " + "; ".join(m.ASSUME) + "."])
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                   "technique": TECH[T.get(p, "audit")], "level": "exploration",
                   "level_note": (note + " Trusts PARI's point counting and factorisation as oracle (small fields are recounted by brute force).").strip()})
have = {c["property"] for c in checks}
man = {"version": 1, "setup_cmd": "python3 -m vf.build plain asan tsan", "checks": checks,
       "not_applicable": [{"property": p, "reason": "check not built yet"} for p in pids if p not in have],
       "notes": "No hooks in /repo: ecgen is built out of tree (build/) with a linked-in shim (harness/shim.c) that wraps calls of its objects into libc and PARI."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), [x["property"] for x in man["not_applicable"]])
