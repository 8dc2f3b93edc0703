"""mutate.py FILE [names]: run checks against mutants of /repo in scratch copies.
FILE defines M = [(name, [(path, old, new)...], [property ids])]."""
import concurrent.futures as cf, json, os, pathlib, shutil, subprocess, sys, tempfile, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
names = sys.argv[2:]


def one(m):
    name, edits, props = m
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="mu_"))
    out = []
    try:
        r = tmp / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(r)], check=True)
        for f, a, b in edits:
            s = (r / f).read_text()
            if s.count(a) != 1:
                return f"{name}: {s.count(a)} places for {a!r}"
            (r / f).write_text(s.replace(a, b))
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=r, capture_output=True, text=True)
        tests = t.stdout.strip().splitlines()[-1][:40]
        v = tmp / "verif"
        shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded"))
        for p in props:
            t0 = time.time()
            q = subprocess.run(["python3-vt", "check.py", p], cwd=v, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": str(r)})
            ev = v / "evidence" / (p + ".json")
            cov = json.loads(ev.read_text())["coverage"] if ev.exists() else {}
            ths = [(x["theorem"], x["lang"], x["status"]) for x in cov.get("theorems", []) if x["status"] != "proved"]
            line = (q.stdout.strip().splitlines() or ["-"])
            out.append(f"   {p} exit={q.returncode} {cov.get('status')} {time.time()-t0:.0f}s {ths[:4]} {line[0][:150] if q.returncode else ''} {'NOINPUT' if 'no-failing' in q.stdout else ''} {q.stderr[-200:] if q.returncode else ''}"
                       + (f" why={cov.get('reason', '')[-200:]}" if cov.get("status") == "undecided" else ""))
        return f"{name}: tests: {tests}\n" + "\n".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with cf.ThreadPoolExecutor(3) as ex:
    for l in ex.map(one, [m for m in ns["M"] if not names or m[0] in names]):
        print(l, flush=True)
