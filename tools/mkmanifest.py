"""Writes MANIFEST.json from properties.jsonl and the contracts present."""
import json, glob, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(ROOT, "tools", "not_applicable.json")) else {}
LEVEL = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    have = glob.glob(os.path.join(ROOT, "contracts", i + "*.cpp"))
    if not have:
        na.append({"property": i, "reason": NA.get(i, "no contract has been built for it yet")})
        continue
    lv, note = LEVEL.get(i, ["other", "deductive contracts on the real code; values are arbitrary, sizes are enumerated up to the bound stated in the contract file (bounded)"])
    checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "bash check.sh %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "contract-based deductive verification of the real C++ code (contracts on the LLVM IR of the repository's functions, VCs discharged by polynomial normal forms, Groebner bases and z3/cvc5)",
                   "level": lv, "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, sympy' && clang++ --version >/dev/null",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
