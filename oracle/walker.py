"""Random walks of the theorems' own sentence automata: texts with the output
the proved contract specifies for them.  A refuted obligation is thereby
searched for where it was stated."""
import functools

from spec.lex import LANGS, cardinals, norm, number_like
from spec.sample import PLAIN, PUNCT, look, originals

def cased(rng, s, lang, p=0.5):
    """another spelling of the same word or connective"""
    if rng.random() > p:
        return s
    k = rng.randrange(5)
    t = s.upper() if k == 0 else s.capitalize() if k == 1 else s.swapcase() if k == 2 else "".join(
        c.upper() if rng.random() < 0.5 else c for c in s)
    if lang == "es" and k == 4:
        t = norm(t)
    return t if norm(t) == norm(s) else s


def one_word(s, style):
    return bool(s) and (all(c.isalnum() or c == "_" for c in s) if style == "W" else not any(c.isspace() for c in s))


def wordish(rng, lang, excl, style):
    for _ in range(30):
        k = rng.random()
        if k < 0.4:
            w = rng.choice(PLAIN[lang])
        elif k < 0.6:
            o = rng.choice(sorted(number_like(lang)))
            w = rng.choice([o + "s", "x" + o, o + o, o[:-1], o + "1", "_" + o, o + "_", "1" + o])
        elif k < 0.75:
            w = look(rng, rng.choice(sorted(number_like(lang))))
            w = rng.choice([w, w.capitalize(), w.upper()])
        elif k < 0.9:
            w = rng.choice(sorted(cardinals(rng.choice(LANGS))))
        else:
            w = str(rng.randrange(3000))
        n = norm(w)
        if n.strip() and n not in excl and one_word(w, style):
            return w
    return "cows"


ODDSYM = list("²½’'\"()!?:;*/&%$#@+=[]{}<>~^|\\…–—«»¿¡₴№\u200b€।\u200c\u200d\u2060\ufeff·‑™©°§") + ["\u2010", "\u2011", "−", "，", "。", "\u3001", "٫", "\u066c"]


def instance(rng, tok, lang, odd, style, spaces):
    """A string the token stands for, at an odd / even place; None: impossible."""
    if tok.one is not None:
        return tok.one if not odd else None
    if tok.words is None:
        blank = tok.cls.nonblank is False
        if blank:
            if odd:
                if style == "W":
                    return rng.choice([" "] * 12 + ["\n", "\t", "\u00a0", "\u2003", "\r", "\x1f"])
                return rng.choice([" "] * 6 + ["  ", "\n", "\t", "\u00a0", " \t "])
            return "" if not tok.cls.nonempty and style == "W" else None
        if odd:
            if style != "W":
                return None
            for _ in range(20):
                s = rng.choice(PUNCT + ODDSYM)
                if not (s.isalnum() or s == "_") and norm(s).strip() and norm(s) not in tok.excl:
                    return s
            return None
        return wordish(rng, lang, tok.excl, style)
    for _ in range(6):
        n = rng.choice(sorted(tok.words))
        if tok.raw is not None:
            s = rng.choice(sorted(tok.raw))
        else:
            s = cased(rng, rng.choice(originals(lang).get(n, [n])), lang, spaces)
        if style == "W":
            if odd != (len(s) == 1 and not (s.isalnum() or s == "_")) or not odd and not one_word(s, style):
                continue
        elif odd:
            return None
        return s
    return None


def piece(x):
    if isinstance(x, str):
        return x
    return str(x.v)  # NumStr


class Path:
    """An accepted path of an automaton: the edges and the tokens read."""

    def __init__(self, A, edges, toks):
        self.A, self.edges, self.toks = A, edges, toks

    @property
    def text(self):
        return "".join(self.toks)

    def output(self, toks=None):
        """what the specification says parse writes"""
        r, node, out = {k: 0 for k in self.A.regs}, self.A.start, []
        for e, s in zip(self.edges, toks or self.toks):
            v = value(e, s)
            if e.out is not None:
                out += [piece(x) for x in e.out(r, v, s)]
            r = step(e, r, v, s)
            node = e.dst
        return "".join(out + [piece(x) for x in self.A.final_out(node, r)]).strip()

    def visits(self, f):
        return any(f(e.dst) for e in self.edges)

    def respelt(self, rng):
        """the same text with number words and connectives in other spellings"""
        return [cased(rng, s, self.A.lang, 0.8) if e.tok.words is not None else s for e, s in zip(self.edges, self.toks)]

    def plain(self):
        """without the connectives inside numbers"""
        return [(" " if k % 2 else "") if e.tok.label == "skip" and e.dst[-1] == "+" else s
                for k, (e, s) in enumerate(zip(self.edges, self.toks))]


def value(e, s):
    return None if e.tok.vals is None else e.tok.vals.get(norm(s), e.tok.vals.get(s))


def step(e, r, v, s):
    r = {**r, **(e.upd(r, v) if e.upd else {})}
    if e.reg is not None:
        r[e.reg] = s
    return r


def walk(rng, A, maxlen=None, casing=0.4):
    """-> Path or None"""
    style = A.style
    r = {k: 0 for k in A.regs}
    node, path, toks = A.start, [], []
    n = maxlen or rng.choice([2, 3, 4, 6, 8, 10, 14, 20, 30])
    odd = False
    glue = rng.random() < 0.15
    while True:
        es = A.out[node]
        kinds = {}
        for e in es:
            blank = e.tok.words is None and (e.tok.one is not None or e.tok.cls.nonblank is False)
            # words drive the walk
            k = "blank" if blank else e.tok.label
            kinds.setdefault(k, []).append(e)
        stop = len(toks) > n and node in A.accept
        if not odd and stop and (toks and not toks[-1].strip() or rng.random() < 0.3):
            order = ["blank"]
        elif odd:
            order = ["blank"] * (1 if glue else 6) + [k for k in kinds if k != "blank"]
            first = rng.choice(order)
            order = [first] + [k for k in kinds if k != first]
        else:
            ks = [k for k in kinds if k != "blank"]
            order = ks * 2 + [k for k in ks if k == "skip"] * 2 + ["blank"] * (1 if style == "W" else 0)
            rng.shuffle(order)
            # long numbers: stay inside
            if rng.random() < 0.5:
                order.sort(key=lambda k: k in ("other", "sep", "blank"))
        done = False
        for k in order:
            cand = kinds.get(k, [])[:]
            rng.shuffle(cand)
            for e in cand:
                s = instance(rng, e.tok, A.lang, odd, style, casing)
                if s is None:
                    continue
                v = value(e, s)
                if e.guard is not None and not e.guard(r, v):
                    continue
                r, node = step(e, r, v, s), e.dst
                path.append(e)
                toks.append(s)
                done = True
                break
            if done:
                break
        if not done:
            if style == "s" and not odd and node in A.accept and toks:
                break
            return None
        odd = not odd
        if odd and node in A.accept and len(toks) >= n:
            break
        if len(toks) > n + 25:
            return None
    return Path(A, path, toks)


@functools.lru_cache(None)
def sentence(lang, opts):
    from pyvc import ghost
    return ghost.sentence(lang, **dict(opts))


def sentences(rng, lang, casing=0.4, **opts):
    """endless paths"""
    A = sentence(lang, tuple(sorted(opts.items())))
    while True:
        x = walk(rng, A, casing=casing)
        if x is not None:
            yield x
