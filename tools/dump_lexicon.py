"""One-off: write /verif/spec/lexicon.json from an audited tree. Not run by any check."""
import importlib, json, sys
sys.path.insert(0, "/repo")
out = {}
for l in ["en", "es", "hi", "ru", "uk"]:
    i = importlib.import_module("number_parser.data." + l).info
    out[l] = {
        "unit": i["UNIT_NUMBERS"], "direct": i["DIRECT_NUMBERS"], "tens": i["TENS"],
        "hundreds": i["HUNDREDS"], "scale": {k: v for k, v in i["BIG_POWERS_OF_TEN"].items()},
        "skip": i["SKIP_TOKENS"],
    }
json.dump(out, open("/verif/spec/lexicon.json", "w"), ensure_ascii=False, indent=1, sort_keys=True)
