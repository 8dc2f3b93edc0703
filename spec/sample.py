"""Concrete sampling of the specification automata: texts with known answers."""
import random

from .automata import phrase, incompatible
from .lex import LEX, cardinals, norm, number_like, ordinals, raw_variants, skips, table
from .source import fresh_words, source_symbols, source_words

_orig = {}


def originals(lang):
    """normalised word -> shipped spellings"""
    if lang not in _orig:
        d = {}
        for c in ("unit", "direct", "tens", "hundreds", "scale"):
            for w in LEX[lang][c]:
                d.setdefault(norm(w), []).append(w)
        _orig[lang] = d
    return _orig[lang]


def walk(rng, lang, maxlen=None, must_start=None, ordinal=False, full=False):
    """Random phrase: list of normalised words, value, last class, node.
    full: as many words as there are scales for."""
    ph = phrase(lang)
    maxlen = maxlen or full and 1000 or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 14, 20, 30])
    r = dict(N=0, m=0, g=0, lim=0)
    node, words, cls = "S", [], None
    while len(words) < maxlen:
        es = ph.out.get(node, [])
        if must_start and not words:
            es = [e for e in es if e.cls == must_start]
        es = [e for e in es if e.guard is None or e.guard(r, e.lo)]
        if not es:
            break
        # favour staying with big scales so that long phrases happen
        by = {}
        for e in es:
            by.setdefault(e.cls, []).append(e)
        c = rng.choice(sorted(by))
        if full and "scale" in by and len(by) > 1 and rng.random() < 0.8:
            c = rng.choice(sorted(set(by) - {"scale"}))
        e = rng.choice(by[c])
        if full and c == "scale":
            e = max(by[c], key=lambda e: e.lo)
        if c == "scale" and not full and rng.random() < 0.5:
            e = rng.choice(by[c][-4:])
        w = rng.choice(sorted(e.words))
        r = {**r, **e.upd(r, e.words[w])}
        words.append(w)
        node, cls = e.dst, e.cls
    if not words:
        return walk(rng, lang, maxlen, None)
    return words, ph.value(r), cls, node


def cover(lang):
    """Deterministic phrases covering every edge of the grammar (every value
    class transition), with every word of small edges."""
    ph = phrase(lang)
    import collections
    best = {"S": ((), dict(N=0, m=0, g=0, lim=0))}
    out = []
    q = collections.deque(["S"])
    # shortest prefix per node, but prefer prefixes with a big scale
    while q:
        n = q.popleft()
        ws, r = best[n]
        for e in ph.out.get(n, []):
            if e.guard is not None and not e.guard(r, e.lo):
                continue
            for w in sorted(e.words):
                r2 = {**r, **e.upd(r, e.words[w])}
                out.append((list(ws) + [w], ph.value(r2), e.cls, e.dst))
            if e.dst not in best:
                w = sorted(e.words)[-1]
                if e.cls == "scale":
                    w = max(e.words, key=lambda x: e.words[x])
                best[e.dst] = (ws + (w,), {**r, **e.upd(r, e.words[w])})
                q.append(e.dst)
    return out


def respell(rng, words, lang, variants=True):
    """Shipped spelling (accents, apostrophes), possibly another case."""
    res = []
    for w in words:
        s = rng.choice(originals(lang).get(w, [w]))
        if variants:
            s = recase(rng, s, lang)
        res.append(s)
    return res


def recase(rng, s, lang):
    k = rng.random()
    if lang == "es" and rng.random() < 0.3:
        s = norm(s)
    if k < 0.6:
        t = s
    elif k < 0.7:
        t = s.upper()
    elif k < 0.8:
        t = s.capitalize()
    else:
        t = "".join(c.upper() if rng.random() < 0.5 else c for c in s)
    return t if norm(t) == norm(s) else s


PLAIN = {
    "en": "cows cow hats I a the Onesie someone tone ones tens twos hundreds millions thousandfold secondary seconds thirdly "
          "fifths eights nines twelves oneself twenties sixties zeroes nonet tenet sand Andy andes handy fourty ninteen oneth2 "
          "x1 7 42 1st 2nd once twice half over by divided y uno mil два сто दो sixth_sense nineth_ ß İstanbul ſ Kelvin Å "
          "ninety9 ten4 and1 Ω naïve th ieth one1 été ǅ".split(),
    "es": "gatos gato tengo uñas unos unas pero yo ya Y2 millonario ciencia dosis tresillo onces ochos segundo primero and one two "
          "cien1 mile miles veinti treinta1 centenar vigésimo 7 42 два сто दो été ß İ Ω once1 treses sietes ye yy".split(),
    "hi": "गाय और मेरे पास हैं एकता दोस्त तीनो किताब सौदा लाखों cows one y 7 42 ७ дом ß Ω (दो दो) सौ, एक.".split(),
    "ru": "корова дом и кот одинокий двадцатка стол сторона миллионер тысячник семья пятак один1 сто1 шестерня cows one y दो 7 42 ß Ω ёж ы".split(),
    "uk": "корова дім і кіт самотній стіл мільйонер тисячник сімʼя сімя пятак один1 сто1 їжак ґанок cows one y दो 7 42 ß Ω ь".split(),
}
PUNCT = list("()!?:;\"*/&%$#@+=[]{}<>~^|\\…–—«»¿¡₴№'’`\u200b²½€")
PUNCT += [c for c in source_symbols() if c not in PUNCT]
BLANKS = [" ", "  ", "\n", "\t", "\u00a0", " \t ", "\u2003", "\x1f", "\r\n"]


def plain(rng, lang):
    k = rng.random()
    new = fresh_words()
    if k < 0.4:
        w = rng.choice(PLAIN[lang])
    elif k < 0.45:
        w = rng.choice(source_words() or PLAIN[lang])
    elif k < 0.6 and new:
        w = rng.choice(new)
        w += rng.choice(["", "", "", "s"])
    elif k < 0.75:
        w = near(rng, lang)
    elif k < 0.9:
        other = rng.choice([l for l in LEX if l != lang])
        w = rng.choice(sorted(cardinals(other)))
    else:
        w = "".join(rng.choice("abcdeonthwy6ñéиїыяд") for _ in range(rng.randint(1, 7)))
    n = norm(w)
    ok = n.strip() and n not in number_like(lang) and n not in skips(lang) and n not in (",", ".") and (
        lang == "hi" or all(c.isalnum() or c == "_" for c in w))
    return w if ok else "cows"


def near(rng, lang):
    w = rng.choice(sorted(number_like(lang)))
    k = rng.randrange(9)
    if k > 5:  # another ending
        cut = rng.choice([0, 0, 0, 1, 1, 2, 3])
        end = rng.choice(ENDS[lang]) if rng.random() < 0.6 else rng.choice(source_words() or ENDS[lang]) if rng.random() < 0.3 else rng.choice(sorted(number_like(lang)))[-rng.randint(1, 4):]
        return w[:len(w) - cut] + end
    if k == 5:
        return rng.choice([str, str.upper, str.capitalize])(look(rng, w))
    if k == 0:
        return w + rng.choice(["s", "th", "a", "1", "y", "ly", "й"])
    if k == 1:
        return rng.choice(["x", "un", "a", "1", "по"]) + w
    if k == 2 and len(w) > 1:
        i = rng.randrange(len(w))
        return w[:i] + w[i + 1:]
    if k == 3:
        return w + rng.choice(sorted(number_like(lang)))
    i = rng.randrange(len(w))
    return w[:i] + rng.choice("aeosxи") + w[i:]


ENDS = {"en": "st nd rd th ieth ths nds ty teen teens fold ish ed er est ies ones n ed en".split(),
        "es": "s es avo ava esimo o a os as ena illa ón ones n cientos cientas mil".split(),
        "hi": "वां वीं वें ों ें ा ी े ं ह".split(),
        "ru": "ми ям ях ах ов ей ого ый ая ть ти ту м х у а и ы ю ь ой ам ами".split(),
        "uk": "ми ам ях ах ів ей ого ий а та ти ту м х у и ю ь ою ома стам".split()}


# characters that are other characters, although some foldings identify them
LOOK = {"s": "ſｓˢ", "f": "ｆ", "e": "ｅᵉеė", "o": "ｏºᵒоө", "i": "ｉⁱıі", "t": "ｔᵗ", "n": "ｎⁿ", "a": "ªａа", "h": "ｈʰ", "u": "ｕᵘ",
        "r": "ｒ", "c": "ｃс", "о": "oᴏ", "е": "e", "а": "a", "с": "c", "и": "u", "i̇": "ı", "d": "ｄ", "y": "ｙу", "w": "ｗʷ", "v": "ｖᵛ", "l": "ｌˡ",
        "m": "ｍ", "і": "i", "х": "x", "р": "p"}
PAIRS = {"fi": "ﬁ", "ff": "ﬀ", "fl": "ﬂ", "st": "ﬆ", "ss": "ß", "dz": "ǆ", "ll": "ỻ"}


def look(rng, w):
    """w with a character replaced by one that only looks or folds like it;
    not the same word."""
    opts = []
    for a, b in PAIRS.items():
        if a in w:
            opts.append(w.replace(a, b, 1))
    for i, c in enumerate(w):
        for x in LOOK.get(c, ""):
            opts.append(w[:i] + x + w[i + 1:])
    opts = [o for o in opts if norm(o) != norm(w)]
    return rng.choice(opts) if opts else w
