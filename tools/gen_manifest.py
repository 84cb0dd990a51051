"""Write MANIFEST.json from the property modules present in mc/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
 "default": "model checking: bounded exhaustive enumeration of inputs/histories, every one executed on the real code and compared with an independent reference model",
 "rng": "model checking: bounded exhaustive enumeration of configurations and of all random-draw sequences (generator replaced by an enumerating one), executed on the real code against a reference model",
 "fault": "model checking: exhaustive enumeration of crash points, torn writes and download faults over load/clear histories, executed on the real code",
 "hist": "model checking: explicit-state exploration of all operation sequences up to a depth on the real objects, compared with a stateless reference",
}
KIND = {"P08": "rng", "P12": "rng", "P18": "rng", "P19": "rng", "P20": "rng", "P23": "rng", "P26": "fault", "P21": "hist", "P27": "fault"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(V, "mc", i.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=i, reason="not claimed yet: the exploration for this property is still being built"))
        continue
    src = open(path).read()
    m = re.search(r'^LEVEL = "(\w+)"', src, re.M)
    level = m.group(1) if m else "model_checking"
    n = re.search(r'^NOTE = "(.*)"', src, re.M)
    checks.append(dict(property=i, quick_cmd="%s mc/run.py %s --tier quick" % (PY, i), thorough_cmd="%s mc/run.py %s --tier thorough" % (PY, i),
                       technique=TECH[KIND.get(i, "default")], level=level,
                       level_note=n.group(1) if n else "exhaustive within the bounds stated in DESIGN.md; every state's trace is replayed on the implementation"))
json.dump(dict(version=1, setup_cmd="%s -c \"import numpy, scipy, pandas\"" % PY, checks=checks, not_applicable=na,
               notes="Pure-Python explorer in /verif/mc; each command imports /repo's working tree, needs no build and no hooks."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
