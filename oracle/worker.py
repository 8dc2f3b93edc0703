"""Runs calls of the real package (cwd-independent: argv[1] is the repository)
and reports results as JSON lines.  Started with the repository's own Python."""
import importlib
import json
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
out = sys.stdout
sys.stdout = sys.stderr


def enc(v):
    if v is None or isinstance(v, (str, bool)):
        return [type(v).__name__, v]
    if isinstance(v, int):
        return ["int", hex(v)]
    return [type(v).__name__, repr(v)]


try:
    np = importlib.import_module("number_parser")
    err = None
except BaseException as e:  # noqa
    np, err = None, e

for line in sys.stdin:
    calls = json.loads(line)
    res = []
    for name, args in calls:
        if np is None:
            res.append(["exc", type(err).__name__, str(err)])
            continue
        try:
            if name == "snapshot":
                res.append(["str", repr([sorted((k, repr(v)) for k, v in vars(np.parser.LanguageData).items()
                                                if isinstance(v, (dict, list))),
                                         sorted((k, repr(v)) for k, v in vars(np.parser).items()
                                                if isinstance(v, (dict, list, set, tuple, int, str)) and not k.startswith("__")),
                                         sorted((k, repr(m.info)) for k, m in sys.modules.items()
                                                if k.startswith("number_parser.data.") and k[19:] in ("en", "es", "hi", "ru", "uk")
                                                and hasattr(m, "info"))])])
                continue
            if name.startswith("isolated:"):
                # the package as freshly imported, without any history
                mine = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] == "number_parser"}
                try:
                    res.append(enc(getattr(importlib.import_module("number_parser"), name[9:])(*args)))
                finally:
                    for k in [k for k in sys.modules if k.split(".")[0] == "number_parser"]:
                        del sys.modules[k]
                    sys.modules.update(mine)
                continue
            if name == "parse2":
                res.append(enc(np.parse(np.parse(*args), *args[1:])))
                continue
            res.append(enc(getattr(np, name)(*args)))
        except BaseException as e:  # noqa
            if isinstance(e, KeyboardInterrupt):
                raise
            res.append(["exc", type(e).__name__, str(e)[:200]])
    out.write(json.dumps(res) + "\n")
    out.flush()
