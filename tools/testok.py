"""Compare the outcome of /opt/vp/test.sh with the baseline."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
def passed(x):
    for k in ("passed", "stable", "tests"):
        if isinstance(x, dict) and k in x:
            x = x[k]; break
    return set(x if not isinstance(x, dict) else [t for t, r in x.items() if r in ("passed", True, "pass")])
miss = passed(b) - passed(o)
print("baseline", len(passed(b)), "now", len(passed(o)), "missing", sorted(miss)[:10])
sys.exit(1 if miss or not passed(b) else 0)
