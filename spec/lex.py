"""The specification's own vocabulary, independent of the code under test."""
import functools
import json
import pathlib
import unicodedata

LEX = json.loads((pathlib.Path(__file__).parent / "lexicon.json").read_text())
LANGS = ["en", "es", "hi", "ru", "uk"]
CLASSES = ("unit", "direct", "tens", "hundreds", "scale")
IRREGULAR = {"first": "one", "second": "two", "third": "three", "fifth": "five",
             "eighth": "eight", "ninth": "nine", "twelfth": "twelve"}


def norm(w):
    """What 'apart from letter case and accents' means."""
    return "".join(c for c in unicodedata.normalize("NFD", w.lower()) if unicodedata.category(c) != "Mn")


@functools.lru_cache(None)
def table(lang, cls):
    """normalised word -> value"""
    return {norm(w): v for w, v in LEX[lang][cls].items()}


@functools.lru_cache(None)
def skips(lang):
    return frozenset(LEX[lang]["skip"])


@functools.lru_cache(None)
def cardinals(lang):
    out = {}
    for c in CLASSES:
        for w, v in table(lang, c).items():
            out[w] = (c, v)
    return out


@functools.lru_cache(None)
def ordinals():
    """English ordinal words -> cardinal word."""
    out = {}
    rev = {v: k for k, v in IRREGULAR.items()}
    for w, (c, v) in cardinals("en").items():
        if v == 0:
            continue
        if w in rev:
            out[rev[w]] = w
        elif w.endswith("y"):
            out[w[:-1] + "ieth"] = w
        else:
            out[w + "th"] = w
    return out


@functools.lru_cache(None)
def number_like(lang):
    """Every normalised word that is a cardinal or would be one after undoing
    ordinal morphology (irregular stems anywhere, final -ieth / -th): a finite
    set, computed by enumerating all ways to put the ordinal pieces back."""
    cards = set(cardinals(lang))
    out = set(cards)
    base = cards | {w + "th" for w in cards} | {w[:-1] + "ieth" for w in cards if w.endswith("y")}
    # undoing: irregular words are replaced by cardinals first, then the ending
    frontier = set(base)
    for irr, car in IRREGULAR.items():
        new = set()
        for w in frontier:
            new |= _put_back(w, car, irr)
        frontier |= new
    return frozenset(out | frontier)


def _put_back(w, car, irr):
    out = {w}
    i = w.find(car)
    while i != -1:
        out |= {w[:i] + irr + r for r in _put_back(w[i + len(car):], car, irr)}
        i = w.find(car, i + 1)
    return out


def raw_variants(word, lang):
    """Spelling variants (finite sample) of one vocabulary word."""
    vs = {word, word.upper(), word.title(), word.capitalize()}
    if lang == "es":
        n = norm(word)
        vs |= {n, n.upper(), n.capitalize()}
    return frozenset(v for v in vs if norm(v) == norm(word))
