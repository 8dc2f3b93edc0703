"""C23 / C24 on the real generator, run in a scratch copy of its tree."""
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

from .harness import PY, REPO

RUN = r'''
import os, random, sys, runpy
sys.dont_write_bytecode = True
mode = sys.argv[1]
real = os.listdir
def listdir(p="."):
    l = sorted(real(p))
    if mode == "reverse": l.reverse()
    elif mode.startswith("shuffle"): random.Random(mode).shuffle(l)
    return l
os.listdir = listdir
_scan = os.scandir
m = runpy.run_path(sys.argv[2])
m["write_complete_data"]()
'''
SCRIPT = "number_parser_scripts/write_complete_language_data.py"


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="np_datagen_")
        shutil.copytree(os.path.join(REPO, "number_parser_scripts"), os.path.join(self.d, "number_parser_scripts"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(os.path.join(REPO, "number_parser_data"), os.path.join(self.d, "number_parser_data"))
        os.makedirs(os.path.join(self.d, "number_parser", "data"))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def clear(self):
        t = os.path.join(self.d, "number_parser", "data")
        for f in os.listdir(t):
            os.unlink(os.path.join(t, f))

    def run(self, mode="sorted"):
        p = subprocess.run([PY, "-B", "-c", RUN, mode, os.path.join(self.d, SCRIPT)], cwd=self.d, capture_output=True,
                           text=True, timeout=120, env={**os.environ, "PYTHONIOENCODING": "utf-8", "PYTHONHASHSEED": str(sum(map(ord, mode)) % 1000)})
        return p.returncode, p.stderr[-1500:]

    def info(self, name):
        return load(os.path.join(self.d, "number_parser", "data", name))


def load(path):
    ns = {}
    try:
        exec(compile(open(path, encoding="utf-8").read(), path, "exec"), ns)
    except FileNotFoundError:
        return None
    except Exception as e:  # noqa
        return f"unreadable: {e}"
    return ns.get("info")


def diff(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return f"{str(a)[:80]} instead of {str(b)[:80]}"
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, dict) and isinstance(y, dict):
                w = next(w for w in sorted(set(x) | set(y)) if x.get(w) != y.get(w))
                return f"{k}[{w!r}] is {x.get(w)!r} after regeneration, shipped {y.get(w)!r}"
            return f"{k} is {str(x)[:80]!r} after regeneration, shipped {str(y)[:80]!r}"
    return None


def regenerate(modes=("sorted", "reverse", "shuffle1")):
    """-> (files compared, tables compared, violation or None)"""
    shipped_dir = os.path.join(REPO, "number_parser", "data")
    shipped = sorted(f for f in os.listdir(shipped_dir) if f.endswith(".py") and f not in ("__init__.py", "root.py"))
    n = t = 0
    with Scratch() as s:
        for mode in modes:
            s.clear()
            rc, err = s.run(mode)
            if rc:
                return n, t, dict(listing=mode, what=f"the generator failed: {err}")
            got = sorted(f for f in os.listdir(os.path.join(s.d, "number_parser", "data")) if f.endswith(".py") and f != "root.py")
            if got != shipped:
                return n, t, dict(listing=mode, what=f"files differ: {sorted(set(got) ^ set(shipped))[:5]}")
            for f in shipped:
                a, b = s.info(f), load(os.path.join(shipped_dir, f))
                n += 1
                t += len(b) if isinstance(b, dict) else 0
                d = diff(a, b)
                if d:
                    return n, t, dict(listing=mode, file=f, what=d)
    return n, t, None


# ------------------------------------------------------------------- C24

TABLES = ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]


def zeros(n):
    return len(str(n)) - len(str(n).rstrip("0")) if n > 9 else 0


def expected_rule(n, text):
    """entries [(table, word, value)] the statement asks for"""
    t = text.replace(";", "").replace("\xad", "")
    if "=" in t:
        return []
    gt, lt = t.count(">"), t.count("<")
    if gt == 0 and lt == 0:
        if t in ("ERROR", ""):
            return []
        return [("UNIT_NUMBERS", t, n)] if n <= 9 else [("DIRECT_NUMBERS", t, n)] if n <= 99 else []
    z = zeros(n)
    if gt == 2 and lt == 0:
        if z not in (1, 2) or str(n)[0] == "1":
            return []
        w = re.split(r"\[" if "[" in t else ">", t)[0].strip()
        return [("TENS" if z == 1 else "HUNDREDS", w, n)] if w else []
    if gt == 2 and lt == 2:
        rest = t[t.rfind("<") + 1:]
        if not rest.startswith(" ") or z < 2:
            return []
        if "$" in rest:
            return [("BIG_POWERS_OF_TEN", w, 10 ** z) for w in re.findall(r"\{(.*?)\}", rest)]
        w = re.split(r"\[" if "[" in rest else ">", rest)[0].strip()
        return [("BIG_POWERS_OF_TEN", w, 10 ** z)] if w else []
    return []


def rules(rng, count):
    w = lambda: "".join(rng.choice("abcdéнл") for _ in range(rng.randint(2, 6))) + str(rng.randrange(10 ** 6))
    out = []
    for i in range(count):
        k = rng.random()
        n = rng.choice([rng.randrange(0, 10), rng.randrange(10, 100), rng.randrange(100, 1000), rng.randrange(1, 10) * 10,
                        rng.randrange(1, 10) * 100, rng.randrange(1, 10) * 10 ** rng.randint(1, 30), 10 ** rng.randint(1, 40),
                        rng.randrange(10, 100) * 10 ** rng.randint(1, 8), 9, 10, 99, 100, 0, 19, 20, 90, 110, 200, 1000, 2000])
        if k < 0.25:
            t = rng.choice([w(), w() + " " + w(), w() + "\xad" + w(), "ERROR", "", w() + "-" + w()])
        elif k < 0.5:
            a = rng.choice([w(), "", w() + " ", w() + " y ", w() + "-"])
            b = rng.choice([">>", "[>>]", "[ >>]", ">%%x>", "[ y >>]", "[>%%lenient>]", " >>", "[-" + w() + " >>]"])
            t = a + b
        elif k < 0.85:
            m = rng.choice(["<<", "<%x<", "<%%x<"])
            a = rng.choice([" " + w(), w(), " " + w() + " " + w(), " ", "", " $(cardinal,one{" + w() + "}other{" + w() + "})$",
                            "$(cardinal,one{" + w() + "}other{" + w() + "})$",
                            " $(cardinal,one{" + w() + "}few{" + w() + "}many{" + w() + "}other{" + w() + "})$"])
            b = rng.choice(["[ >>]", ">>", " >>", "[>%%x>]", "[ y >>]", " >%x>"])
            t = m + a + b
        elif k < 0.9:
            t = "=" + rng.choice(["%x", "0.0", "#,##0"]) + "=" + rng.choice(["", w()])
        else:
            t = rng.choice([w() + "<<" + w(), "<< " + w(), ">> " + w() + " >>", "<%x< " + w(), w() + ">", "[>>]<<", "<< >>", ">><<",
                            "<%x< $(cardinal,one{" + w() + "})$ ]>>"])
        if t.count("[") and rng.random() < 0.0:
            t = t.replace("[", "")
        out.append((n, t + (";" if rng.random() < 0.9 else "")))
    return out


def filing(seed, count=3000):
    """-> (rules tried, violation or None)"""
    rng = random.Random(seed)
    tried = 0
    with Scratch() as s:
        raw = os.path.join(s.d, "number_parser_data", "raw_cldr_translation_data")
        sup = os.path.join(s.d, "number_parser_data", "supplementary_translation_data")
        for d in (raw, sup):
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
        files = {}
        for k in range(6):
            sets, exp = {}, {t: {} for t in TABLES}
            rs = rules(rng, count // 6)
            groups = {}
            for n, t in rs:
                # the same number twice needs another rule set
                g = 0
                while n in groups.setdefault(g, {}):
                    g += 1
                groups[g][n] = t
            for g, rr in groups.items():
                name = rng.choice(["%spellout-cardinal", "%spellout-numbering"]) + f"-x{g}"
                valid = True
                if rng.random() < 0.06:
                    name, valid = rng.choice(["%spellout-ordinal", "%%cents", "%spellout-cardinal-cents"]) + f"{g}", False
                sets[name] = {"-x": "minus >>;", "x.x": "<< point >>;", **{str(n): t for n, t in rr.items()},
                              "1100/100": "<< hundred[ >>];"}
                if valid:
                    for n, t in rr.items():
                        for tb, w, v in expected_rule(n, t):
                            exp[tb][w] = v
                        tried += 1
            json.dump({"rbnf": {"rbnf": {"SpelloutRules": sets}}}, open(os.path.join(raw, f"l{k}.json"), "w"))
            json.dump({**{t: {} for t in TABLES}, "SKIP_TOKENS": [], "USE_LONG_SCALE": False},
                      open(os.path.join(sup, f"l{k}.json"), "w"))
            files[f"l{k}.py"] = (exp, groups)
        rc, err = s.run()
        if rc:
            return tried, dict(what=f"the generator failed: {err}", seed=seed)
        for f, (exp, groups) in files.items():
            got = s.info(f)
            if not isinstance(got, dict):
                return tried, dict(what=f"{f}: {got}", seed=seed)
            for tb in TABLES:
                if got.get(tb) != exp[tb]:
                    x, y = got.get(tb) or {}, exp[tb]
                    w = next(w for w in sorted(set(x) | set(y)) if x.get(w) != y.get(w))
                    rule = [(n, t) for rr in groups.values() for n, t in rr.items() if w and w in t.replace("\xad", "")]
                    return tried, dict(what=f"{tb}[{w!r}] is {x.get(w)!r}, should be {y.get(w)!r}", rules=rule[:4], seed=seed)
    return tried, None
