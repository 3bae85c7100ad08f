"""Write a planted bug: bug.write(id, property, [(file, old, new)...], needs, breaks, demo_source)."""
import json
import os
import subprocess

ROOT = "/verif/seeded"


def write(id, prop, edits, needs, breaks, demo, repo="/repo"):
    d = f"{ROOT}/{id}"
    os.makedirs(d, exist_ok=True)
    files = sorted({f for f, _, _ in edits})
    work = f"/tmp/bug_{id}"
    os.makedirs(work, exist_ok=True)
    out = ""
    for f in files:
        s = open(f"{repo}/{f}").read()
        t = s
        for g, old, new in edits:
            if g == f:
                assert t.count(old) == 1, (id, f, t.count(old), old)
                t = t.replace(old, new)
        os.makedirs(os.path.dirname(f"{work}/a/{f}"), exist_ok=True)
        os.makedirs(os.path.dirname(f"{work}/b/{f}"), exist_ok=True)
        open(f"{work}/a/{f}", "w").write(s)
        open(f"{work}/b/{f}", "w").write(t)
        r = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=work, capture_output=True, text=True)
        out += f"diff --git a/{f} b/{f}\n" + r.stdout
    open(f"{d}/patch.diff", "w").write(out)
    subprocess.check_call(["git", "-C", repo, "apply", "--check", f"{d}/patch.diff"])
    open(f"{d}/demo.py", "w").write(demo.strip() + "\n")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    subprocess.check_call(["rm", "-r", work])
