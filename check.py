#!/usr/bin/env python3-vt
"""check.py <property id> : decide one property on /repo's current tree.
check.py --replay <file>  : run a recorded violation again."""
import json
import os
import pathlib
import random
import sys
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from oracle import cases, datagen, harness  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
LEVELS = json.loads((HERE / "levels.json").read_text())
REPLAYS = HERE / "replay"


def jsonable(res):
    return [[a, str(b), *c] for a, b, *c in res]


def write_replay(pid, data):
    REPLAYS.mkdir(exist_ok=True)
    p = REPLAYS / f"{pid}.json"
    p.write_text(json.dumps({"property": pid, **data}, indent=1, ensure_ascii=True, default=str))
    return p


def sample(pid, budget):
    """Search the real code for a violation -> (violation dict or None, stats)"""
    t0 = time.time()
    if pid == "C23":
        modes = ["sorted", "reverse", "shuffle1"] + ([f"shuffle{i}" for i in range(2, 30)] if TIER == "thorough" else [])
        n, t, v = datagen.regenerate(modes)
        return v, dict(evaluations=n, distinct_nontrivial=t, samples=[dict(files=n, tables=t)],
                       rule="a run of the real generator in a scratch copy; every table of every shipped file is compared", wall=time.time() - t0)
    if pid == "C24":
        tried, v, seed = 0, None, SEED
        while v is None and time.time() - t0 < budget:
            k, v = datagen.filing(seed, 6000)
            tried += k
            seed += 1
        return v, dict(evaluations=tried, distinct_nontrivial=tried,
                       samples=[dict(rule=r) for r in datagen.rules(random.Random(SEED), 5)],
                       rule="synthetic rule sets of random shapes through the real generator", wall=time.time() - t0)
    rep = harness.run(cases.GENERATORS[pid](random.Random(SEED)), budget=budget, workers=6, stop_at=1)
    v = None
    if rep.violations:
        c, res, msg = rep.violations[0]
        v = dict(what=msg, calls=c.calls, results=jsonable(res))
    return v, dict(evaluations=rep.evaluations, distinct_nontrivial=len(rep.distinct), kinds=rep.kinds, samples=rep.samples,
                   rule="sampled calls of the real functions, judged against the specification's own value; non-trivial: distinct inputs",
                   wall=rep.wall)


def prove(pid):
    try:
        from pyvc import obligations
    except ImportError:
        return None
    return obligations.prove(pid, TIER)


def main(pid):
    t0 = time.time()
    known = json.loads((HERE / "known_findings.json").read_text())
    proof = None
    try:
        proof = prove(pid)
    except Exception:  # the prover's own failure: undecided, never a violation
        proof = dict(status="undecided", reason="internal error of the verifier:\n" + traceback.format_exc()[-3000:],
                     obligations=0, discharged=0)
    status = proof["status"] if proof else "none"
    budget = {"proved": 6, "none": 12}.get(status, 25)
    if TIER == "thorough":
        budget *= 20
    viol, stats = sample(pid, budget)
    level = LEVELS[pid]["level"]
    cov = {}
    if proof:
        cov.update({k: proof[k] for k in proof})
        cov.setdefault("checker_cmd", f"python3-vt check.py {pid}")
        cov.setdefault("trusted_base", LEVELS.get("trusted_base", []))
    cov["bounded_search"] = stats
    cov.update(evaluations=stats["evaluations"], distinct_nontrivial=stats["distinct_nontrivial"], rule=stats["rule"],
               samples=stats["samples"])
    code, line = 0, None
    if viol:
        p = write_replay(pid, dict(kind="input", **viol, failed_obligations=(proof or {}).get("failed", [])))
        line, code = f"VIOLATION property={pid} replay={p}", 1
        print(viol["what"])
    elif status == "refuted":
        p = write_replay(pid, dict(kind="obligation", what="an obligation is refuted; no failing input was found",
                                   failed_obligations=proof["failed"]))
        line, code = f"VIOLATION property={pid} replay={p} no-failing-input-found", 1
    if status == "undecided":
        print(f"note: the proof of {pid} is undecided on this tree ({proof['reason'].strip().splitlines()[-1]}); "
              "bounded search only", file=sys.stderr)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=1 if code else 0, assumptions=LEVELS[pid].get("assumptions", []) + LEVELS.get("assumptions", []))
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=True, default=str))
    for k in known.get("open", []):
        if k["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if line:
        print(line)
    else:
        print(f"ok property={pid} proof={status} evaluations={stats['evaluations']} wall={time.time() - t0:.1f}s")
    return code


def replay(path):
    d = json.loads(pathlib.Path(path).read_text())
    print(d.get("what"))
    if "calls" in d:
        w = harness.Worker()
        for c, r, old in zip(d["calls"], w.call(d["calls"], 60), d["results"]):
            print(c, "->", r, "(recorded:", old, ")")
        w.stop()
    else:
        print(json.dumps(d, indent=1)[:4000])
    return 0


if __name__ == "__main__":
    sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else main(sys.argv[1]))
