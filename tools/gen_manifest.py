"""Writes MANIFEST.json and levels.json from the table below."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
IDS = [json.loads(l)["id"] for l in open(HERE / "properties.jsonl")]
T = "contracts on the real code, discharged by symbolic execution with inferred loop invariants (pyvc, z3)"
B = "bounded search of the real code against the specification"
# property -> (proved for all inputs, decided by bounded search only)
TABLE = {
    "C01": ("parse_number on the whole English number language", None),
    "C02": ("parse_number on the whole Spanish number language", None),
    "C03": ("parse_number on the whole Hindi number language", None),
    "C04": ("parse_number on the whole Russian number language", None),
    "C05": ("parse_number on the whole Ukrainian number language", None),
    "C06": ("parse_ordinal on every English ordinal and on every cardinal; parse on every English sentence with ordinals", None),
    "C07": ("the value of every fraction in every language, and a result of None or of this form on every text", None),
    "C08": ("parse on every sentence of this form with at most two connectives (three in English) in a row right after a cardinal, in every language", "more connectives in a row right after a cardinal"),
    "C09": ("parse on every text without number words, in every language", None),
    "C10": ("every text, in every language: the foreign words and symbols of the result; the connectives of every text with at most three in a row between a cardinal and something that is no number word", "connectives where more than three are in a row right after a cardinal"),
    "C11": ("every text, in every language: no number word and nothing glued in the result; with C09 this is idempotence", None),
    "C12": ("all four functions, on every text, with and without a language", None),
    "C13": ("all four functions, on every text, with and without a language", None),
    "C14": ("parse_number on every text; parse_ordinal on every text without apostrophes", None),
    "C15": ("parse_number on such texts; parse on every sentence with such pairs of numbers", None),
    "C16": ("parse_number, and parse on every sentence", None),
    "C17": ("parse_number, parse_ordinal, and parse on every sentence", None),
    "C18": ("parse_number, parse_ordinal, parse_fraction and parse", None),
    "C19": ("parse_number on every text with a separator; parse on every sentence of well-formed cardinals", "parse where the numbers next to the separator are not well-formed"),
    "C20": ("detection, and that each function without a language acts as with the detected one", None),
    "C21": ("parse, parse_number and parse_ordinal", None),
    "C22": ("no function writes anything that outlives its call (a frame condition on every path)", None),
    "C23": ("write_complete_data on the files there are, for every order in which they are listed: each iteration, started with arbitrary locals, writes its own module with the shipped tables and changes nothing shared", None),
    "C24": ("every rule number n >= 0 and every rule text: contracts on _count_zero, _is_valid, _extract_information with its filing functions, and the collection loops of write_complete_data", "that the merge with the supplementary data and the writing of the module keep what was filed"),
    "C25": ("parse_number on every spelling of every vocabulary word and on every other text", None),
}
TRUSTED = [
    "pyvc: the symbolic interpreter of the Python subset /repo uses (its models of str, re.split, unicodedata, list, dict), written for this task",
    "z3 " "4.x/5.x via the z3-solver Python binding",
    "the tokenisation contract: re.split(r'(\\W)') and re.split(r'(\\s+)') of any text is a sequence of blank, vocabulary and other tokens",
    "the specification itself: spec/lex.py (vocabulary with values) and spec/automata.py (number grammars)",
]
ASSUME = [
    "CPython's int, str and dict semantics are the mathematical ones; int() of 4300 or more digits is outside every claim",
    "loop invariants are inferred, and each is then checked to hold on entry and to be preserved by every step",
]


def main():
    levels = {"trusted_base": TRUSTED, "assumptions": ASSUME}
    checks = []
    for i in IDS:
        p, b = TABLE[i]
        if p and not b:
            level, tech = "proof", T
            note = f"Proved for every input: {p}. A bounded search of the real code runs as well, to give failing inputs."
        elif p:
            level, tech = "proof", T + "; " + B + " for the rest"
            note = f"Proved for every input: {p}. Bounded, not proved: {b}."
        else:
            level, tech = "exploration", B
            note = f"Bounded, not proved: {b} (sampled inputs)."
        levels[i] = {"level": level, "assumptions": [f"bounded only: {b}"] if b else []}
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3-vt check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=tech, level=level,
                           level_note=note + " Trusted: the verifier's model of Python, z3, the specification tables."))
    m = dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=[])
    (HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    (HERE / "levels.json").write_text(json.dumps(levels, indent=1) + "\n")


if __name__ == "__main__":
    main()
