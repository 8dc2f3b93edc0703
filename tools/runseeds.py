"""runseeds.py [ids]: run the check of each seed's property on a patched copy."""
import concurrent.futures as cf, json, os, pathlib, shutil, subprocess, sys, tempfile, time
S = pathlib.Path("/verif/seeded")
ids = sys.argv[1:] or sorted(p.name for p in S.iterdir())
def one(i):
    meta = json.loads((S / i / "meta.json").read_text())
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="rs_"))
    try:
        r = tmp / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(r)], check=True)
        subprocess.run(["git", "-C", str(r), "apply", str(S / i / "patch.diff")], check=True)
        v = tmp / "verif"
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "/verif/", str(v)], check=True) if shutil.which("rsync") else shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded"))
        t = time.time()
        p = subprocess.run(["python3-vt", "check.py", meta["property"]], cwd=v, capture_output=True, text=True,
                           env={**os.environ, "VERIF_REPO": str(r)})
        out = p.stdout.strip().splitlines()
        ev = v / "evidence" / (meta["property"] + ".json")
        st = json.loads(ev.read_text())["coverage"].get("status") if ev.exists() else None
        return f"{i} {meta['property']} exit={p.returncode} proof={st} {time.time()-t:.0f}s | {' | '.join(out)[:300]} {p.stderr[-200:] if p.returncode not in (0,1) else ''}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for l in ex.map(one, ids):
        print(l, flush=True)
