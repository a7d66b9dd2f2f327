#!/opt/veriftools/pyvenv/bin/python
"""Writes MANIFEST.json from properties.jsonl and props/P*.py (a property without props file is not claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/dv", V + "/specs", V + "/props"]
NA = {
    "P05": "not yet under contract: the parsers of Python, Ruby, Java and JavaScript traces build lists while scanning text; the scanners they use are proved (P01, P02), the parsers themselves are not brought under contract yet, and a fuzzing check alone would be another technique",
    "P07": "not yet under contract: the readers work on json-c objects, an external library whose tree ownership would first need an assumed contract for every call; the escaping side of JSON is proved under P06",
    "P08": "not yet under contract: it composes every printer with every reader of the seven trace types, so it needs P05 and P07 first",
    "P21": "the bindings are code against the CPython C API (reference counting, type slots, argument parsing macros): no contract for that API is within reach of the VC generator, so nothing here could be a discharged obligation",
    "P22": "correctness is relative to external binaries and to libelf/libdw/libopcodes, whose behaviour no contract within reach expresses; the unwinders are thin wrappers around them",
    "P23": "the code is a sequence of POSIX file-system calls; the property is about the state of the file system and I/O faults between calls, which the contracts do not model",
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    pid = p["id"]
    f = V + "/props/%s.py" % pid
    if os.path.exists(f) and pid not in NA:
        import importlib
        m = importlib.import_module(pid)
        checks.append({"property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
                       "technique": getattr(m, "TECHNIQUE", "function contracts on /repo's C code, verification conditions generated from its LLVM IR on every run, discharged by z3/cvc5; bounded contract replay on the real code as concretiser"),
                       "level": getattr(m, "LEVEL", "proof"), "level_note": m.NOTE})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "not yet under contract")})
json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
