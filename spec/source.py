"""Strings and numbers that occur in the current source text: hints for the
samplers (inputs only; nothing is judged by them)."""
import ast
import functools
import json
import os
import pathlib
import re
import unicodedata

from .lex import LEX, norm, number_like, skips


@functools.lru_cache(None)
def constants():
    strings, ints = set(), set()
    for p in sorted(pathlib.Path(os.environ.get("VERIF_REPO", "/repo")).glob("number_parser/**/*.py")):
        if p.parent.name == "data" and p.stem not in LEX:
            continue
        try:
            tree = ast.parse(p.read_text(encoding="utf-8"))
        except (SyntaxError, ValueError):
            continue
        docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef))
                and n.body and isinstance(n.body[0], ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str):
                    strings.add(n.value)
                elif type(n.value) is int and "data" not in p.parts:
                    ints.add(n.value)
    return strings, ints


@functools.lru_cache(None)
def source_strings():
    """Whole strings and the words in them that no lexicon has."""
    known = set().union(*(number_like(l) | skips(l) for l in LEX))
    out = set()
    for s in constants()[0]:
        if len(s) <= 60:
            out |= {s, *re.findall(r"\w+", s), *(s.split())}
    return sorted(s for s in out if s.strip() and norm(s) not in known)


BASE = pathlib.Path(__file__).parent / "source_baseline.json"


@functools.lru_cache(None)
def fresh_strings():
    """Those that were not there when the baseline was taken: tried more often."""
    old = set(json.loads(BASE.read_text()))
    return [s for s in source_strings() if s not in old]


@functools.lru_cache(None)
def fresh_words():
    return [w for w in fresh_strings() if re.fullmatch(r"\w+", w)]


@functools.lru_cache(None)
def source_words():
    return [w for w in source_strings() if re.fullmatch(r"\w+", w)]


@functools.lru_cache(None)
def source_symbols():
    cs = {c for s in constants()[0] if s.isascii() or len(s) < 3 for c in s}
    return sorted(c for c in cs if not re.match(r"[\w\s,.\-]", c) and unicodedata.category(c) not in ("Mn", "Me", "Cs") and c != "\xad")


@functools.lru_cache(None)
def source_sizes():
    return sorted(n for n in constants()[1] if 3 < n < 3000)
