"""mkseed.py: builds /verif/seeded/<id> from SEEDS (old/new source text), checks
that each applies, passes the stable tests, and that its demo tells the trees apart."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
sys.path.insert(0, "/verif/tools")
from seeds import SEEDS
PY = "/opt/venv/bin/python"
OUT = pathlib.Path("/verif/seeded")
HEAD = """import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from number_parser import parse, parse_number, parse_ordinal, parse_fraction
def eq(got, want):
    if got != want:
        print("got", repr(got), "expected", repr(want))
        sys.exit(1)
"""
only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only:
        continue
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="seed_"))
    try:
        r = tmp / "repo"
        subprocess.run(["cp", "-a", "/repo", str(r)], check=True)
        subprocess.run(["git", "-C", str(r), "checkout", "-q", "--", "."], check=True)
        for f, old, new in s["edits"]:
            p = r / f
            t = p.read_text()
            assert t.count(old) >= 1, (s["id"], "old text not found", old)
            if t.count(old) > 1 and not s.get("all"):
                raise SystemExit((s["id"], "ambiguous", old))
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(r), "diff"], capture_output=True, text=True).stdout
        assert diff
        # stable tests in the copy
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=r, capture_output=True, text=True,
                           env={**os.environ, "PYTHONPATH": str(r), "PYTHONDONTWRITEBYTECODE": "1"})
        ok = t.returncode == 0
        d = OUT / s["id"]
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text((HEAD if not s.get("raw") else "") + s["demo"])
        (d / "demo.sh").write_text('#!/bin/sh\nexec %s -B "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
        a = subprocess.run(["sh", str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["sh", str(d / "demo.sh")], cwd=r, capture_output=True, text=True)
        good = ok and a.returncode == 0 and b.returncode != 0
        print(s["id"], s["property"], "tests", "pass" if ok else "FAIL " + t.stdout[-300:], "demo", a.returncode, b.returncode, "OK" if good else "BAD",
              b.stdout.strip()[:100], "" if good else a.stdout + a.stderr + b.stderr[-300:])
        if not good:
            shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
