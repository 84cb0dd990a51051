"""Regenerate the 'fixed:' lines of known_findings.txt from the fix commits in /repo."""
import subprocess, re
MAP = [("TWFE treatment interaction", "P05"), ("exact two-way demeaning", "P05"), ("TWFE uses the treatment status", "P05"),
 ("inf are not a Callaway", "P06"), ("not-yet-treated controls", "P06"), ("Callaway-Sant'Anna IPW", "P06"), ("collinear covariates", "P07"),
 ("replicates that do not vary", "P08"), ("not a Sun-Abraham cohort", "P09"), ("Sun-Abraham reports NaN", "P09"), ("Sun-Abraham bootstrap selects", "P09"),
 ("Sun-Abraham bootstrap inference survives", "P09"), ("exact Bacon weights", "P10"), ("Bacon treated-vs-never", "P10"), ("synthetic DiD bootstrap p-value", "P12"),
 ("synthetic DiD reports NaN", "P12"), ("synthetic DiD refuses", "P11"), ("n_bootstrap=0", "P12"), ("doubly robust triple", "P13"), ("IPW triple-difference", "P13"),
 ("triple difference honours", "P13"), ("triple difference t-statistic", "P13")]
import os
EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fix_map.txt")
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if "|" in l:
            a, b = l.rsplit("|", 1); MAP.append((a.strip(), b.strip()))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    m = [p for k, p in MAP if k in s]
    if not m: print("UNMAPPED", l); continue
    out.append("fixed: property=%s %s repaired: %s" % (m[0], h, s[5:]))
f = "/verif/known_findings.txt"
keep = [x for x in open(f).read().splitlines() if not x.startswith("fixed:")]
open(f, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed lines")
