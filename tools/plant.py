"""Confirm planted bugs in a scratch copy of the repository.

plant.py ID...       for each /verif/seeded/ID: demo passes on the clean tree, patch applies, builds, stable tests
                     pass, demo fails, and the property's quick check reports a violation (or does not).
Everything runs in a private mount namespace in which a copy under /tmp takes the place of /repo.
"""
import json
import os
import subprocess
import sys

SCRATCH = os.environ.get("PLANT_SCRATCH", "/tmp/plant_repo")
V = "/verif"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"] if isinstance(base, dict) and "stable" in base else base.get("passed", base))
    clean = lambda: sh("git checkout -q -- . && git status --short", cwd="/repo").stdout
    assert not clean().strip()
    b = sh("bash /opt/vp/build.sh")
    assert b.returncode == 0, b.stderr[-2000:]
    rows = []
    demos = {i: sh(f"timeout 300 bash {V}/seeded/{i}/demo.sh", cwd="/repo").returncode for i in ids}
    for i in ids:
        d = f"{V}/seeded/{i}"
        meta = json.load(open(f"{d}/meta.json"))
        row = {"id": i, "property": meta["property"], "demo_clean": demos[i]}
        a = sh(f"git apply {d}/patch.diff", cwd="/repo")
        row["applies"] = a.returncode == 0
        if row["applies"] and "--demo-only" not in sys.argv:
            t = sh(f"bash /opt/vp/test.sh {SCRATCH}.json")
            got = json.load(open(f"{SCRATCH}.json"))
            row["tests"] = f"{len(got['passed'])} passed, {len(stable - set(got['passed']))} stable missing"
        elif row["applies"]:
            sh("bash /opt/vp/build.sh")
        row["demo_bug"] = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo").returncode
        if "--no-check" not in sys.argv:
            c = sh(f"/opt/venv/bin/python checks/run.py {meta['property']}", cwd=V, timeout=900)
            hit = [l for l in c.stdout.splitlines() if l.startswith(f"VIOLATION property={meta['property']} ")]
            row["check"] = f"exit {c.returncode}, {len(hit)} violations"
        clean()
        ok = row["demo_clean"] == 0 and row["applies"] and row["demo_bug"] != 0 and "0 stable missing" in row.get("tests", "0 stable missing")
        caught = row.get("check", "").startswith("exit 1")
        if "check" in row:
            cj = f"{V}/tools/caught.json"
            c = json.load(open(cj)) if os.path.exists(cj) else {}
            c[i] = meta["property"] if caught else "missed"
            json.dump(dict(sorted(c.items())), open(cj, "w"), indent=0)
        print(("VALID  " if ok else "INVALID"), ("CAUGHT" if caught else "MISSED"), json.dumps(row), flush=True)
    return rows


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if os.environ.get("PLANT_INSIDE"):
        inside(ids)
        sys.exit()
    if not os.path.isdir(SCRATCH):
        subprocess.check_call(["cp", "-a", "/repo", SCRATCH])
    subprocess.check_call(f"git -C {SCRATCH} fetch -q /repo HEAD && git -C {SCRATCH} reset -q --hard FETCH_HEAD", shell=True)
    flags = " ".join(sys.argv[1:])
    os.environ["PLANT_INSIDE"] = "1"
    sys.exit(subprocess.call(["unshare", "-m", "bash", "-c", f"mount --bind {SCRATCH} /repo && exec /opt/venv/bin/python {__file__} {flags}"]))
