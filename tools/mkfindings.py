"""Writes known_findings.json (run by hand; no check runs it)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {l[4:].strip(): l[:3] for l in open(os.path.join(HERE, "tools", "fixprops.txt")) if l.strip()}
KNOWN = json.load(open(os.path.join(HERE, "tools", "known.json")))
out = list(KNOWN)
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    pr = PROP.get(s)
    if pr is None:
        print("no property for:", s); continue
    out.append(dict(key=f"fixed-{h}", property=pr, status="fixed", commit=h, what=f"fixed: property={pr} {h} {s}"))
json.dump({"findings": out}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out))
