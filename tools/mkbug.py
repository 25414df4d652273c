"""Makes /verif/seeded/ID from a spec: python3 tools/mkbug.py SPEC.py  (SPEC defines BUGS, a list of dicts)."""
import json, os, runpy, subprocess, sys
HERE = os.environ.get("VERIF_OUT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    d = os.path.join(HERE, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
    w = f"/tmp/mkbug.{b['id']}"; subprocess.run(["rm", "-rf", w]); subprocess.run(["cp", "-a", "/repo", w], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(w, "src/halomod", f); s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD/src:$PYTHONPATH" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.run(["rm", "-rf", w]); print("made", b["id"])
