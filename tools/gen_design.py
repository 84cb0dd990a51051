"""Assemble DESIGN.md."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "mc")]
T = os.path.join(V, "tools")
out = [open(os.path.join(T, "design_intro.md")).read(), "\n## Properties\n"]
notes, cur = {}, None
for l in open(os.path.join(T, "design_notes.md")):
    m = re.match(r"## (P\d+|END)", l)
    if m:
        cur = m.group(1)
        notes.setdefault(cur, "")
    elif cur:
        notes[cur] += l
caught = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    caught.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append("\n### %s %s\n\n" % (i, p["title"]))
    f = os.path.join(V, "mc", i.lower() + ".py")
    if os.path.exists(f):
        s = open(f).read()
        import ast
        t = {n.targets[0].id: n.value for n in ast.parse(s).body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
        out.append("*Enumerated*: %s.\n\n" % ast.literal_eval(t["RULE"]).rstrip("."))
        a = ast.literal_eval(t["ASSUMPTIONS"])
        out.append("*Bounds and assumptions*: %s.\n\n" % "; ".join(x.rstrip(".") for x in a))
    else:
        out.append("Not claimed (see `not_applicable` in MANIFEST.json).\n\n")
    if notes.get(i, "").strip():
        out.append(notes[i].strip() + "\n")
    for n, d in caught.get(i, []):
        out.append("\n- planted `%s` (%s): %s\n" % (n, d.get("needs", ""), d.get("caught", "caught by this check")))
out.append("\n" + notes.get("END", ""))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
