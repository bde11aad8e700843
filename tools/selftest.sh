#!/bin/bash
# Self-test of the unbounded mode: P_good_* must be proved, P_bad_* must not be.
cd "$(dirname "$0")/.." || exit 2
bash check.sh SELF -v --no-native > work/self.log 2>&1
python3 - <<'PY'
import re, sys
bad = []
for l in open("work/self.log"):
    m = re.match(r'\s+(P_\w+)\s+(\w+)\s+obl (\d+)/(\d+)', l)
    if m:
        proved = m.group(2) == "ok" and m.group(3) == m.group(4)
        if proved != m.group(1).startswith("P_good"): bad.append(l.strip())
print("\n".join(bad) if bad else "self-test passed"); sys.exit(bool(bad))
PY
