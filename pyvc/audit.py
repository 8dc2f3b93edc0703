"""Facts about Unicode that the models of string operations rely on, checked
on every code point of the running Python's tables (they are not assumed)."""
import functools
import re
import sys
import unicodedata

from .values import SpecError


def norm(s):
    return "".join(c for c in unicodedata.normalize("NFD", s.lower()) if unicodedata.category(c) != "Mn")


@functools.lru_cache(None)
def codepoints(vocab):
    """-> number of code points examined; SpecError when a fact fails.
    1 normalising is idempotent, character by character;
    2 the normal form of a non-word character consists of non-word characters,
      that of a word character of word characters, but for some that start with
      a letter found in no vocabulary word (so the word they are in is foreign
      before and after);
    3 no normal form of a non-blank character contains white space, and that of
      white space is white space;
    4 normal forms contain apostrophes and soft hyphens only where the text does;
    5 when a non-word character's normal form has several characters, none of
      them is a connective or number word (`vocab`)."""
    bad = []
    n = 0
    alphabet = frozenset("".join(vocab))
    word = re.compile(r"\w")
    for i in range(sys.maxunicode + 1):
        c = chr(i)
        if 0xD800 <= i < 0xE000:
            continue
        n += 1
        x = norm(c)
        if x == c and c.isascii():
            continue
        w = word.match(c) is not None
        if x != c and norm(x) != x:
            bad.append((i, "idempotent"))
        for y in x:
            if (word.match(y) is not None) != w and (not w or x[0] in alphabet or not word.match(x[0])):
                bad.append((i, "word"))
            if y.isspace() != c.isspace():
                bad.append((i, "space"))
            if y in "'’\xad" and y != c:
                bad.append((i, "apostrophe"))
            if not w and len(x) > 1 and y in vocab:
                bad.append((i, "pieces"))
        if c.isspace() and x.strip():
            bad.append((i, "blank"))
    if bad:
        raise SpecError(f"Unicode facts: {bad[:5]}")
    return n


@functools.lru_cache(None)
def decimals():
    """Normalising a decimal digit leaves it alone."""
    n = 0
    for i in range(sys.maxunicode + 1):
        c = chr(i)
        if c.isdecimal():
            n += 1
            if norm(c) != c or not re.match(r"\w", c) or c.isspace():
                raise SpecError(f"decimal digit {i:x} changes when normalised")
    return n
