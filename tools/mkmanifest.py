"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "qv", "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="no check built for it yet"))
        continue
    src = open(f).read()
    tech = re.search(r'^TECHNIQUE = "(.*)"', src, re.M)
    lvl = re.search(r'^LEVEL = "(.*)"', src, re.M).group(1)
    checks.append(dict(
        property=p["id"], quick_cmd="bash run.sh %s --tier quick" % p["id"],
        thorough_cmd="bash run.sh %s --tier thorough" % p["id"],
        technique=tech.group(1) if tech else "runtime monitoring: public values of the running code judged by an independent reference model",
        level=lvl,
        level_note="held on the executions observed (counts in the evidence file); trusts numpy/scipy/qutip and the harness's own model"))
json.dump(dict(version=1, setup_cmd="bash setup.sh",
               hooks=dict(guard="none", enable="no hooks in /repo: the instrumentation wraps public methods from /verif at run time", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
