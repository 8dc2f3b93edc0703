"""Token automata: the specification's description of a text as the sequence
of tokens the text has, with value registers, for use by the loop rule."""
import functools

import z3

from spec.automata import incompatible, phrase
from spec.lex import CLASSES, LANGS, LEX, cardinals, norm, number_like, ordinals, skips, table

from .values import *


class Tok:
    """What one token may be: kind 'norm': any string whose normal form is in
    `words` (word -> value, or a plain set); kind 'class': an opaque class."""

    def __init__(self, label, cls, words=None, vals=None, excl=frozenset(), raw=None, one=None):
        self.label, self.cls, self.excl = label, cls, frozenset(excl)
        self.words = None if words is None else frozenset(words)
        self.vals = dict(vals) if vals is not None else None
        self.raw = raw
        self.one = one  # a single concrete token

    def make(self, ctx):
        """-> (token value, spec value term or None)"""
        if self.one is not None:
            return self.one, None
        var = None
        if self.vals is not None:
            vs = sorted(set(self.vals.values()))
            if len(vs) == 1:
                var = vs[0]
            else:
                var = ctx.int_var("v")
                if vs[-1] - vs[0] == len(vs) - 1:
                    ctx.assume(z3.And(var >= vs[0], var <= vs[-1]))
                else:
                    ctx.assume(z3.Or([var == v for v in vs]))
        if self.raw is not None:
            a = ctx.atom(self.label, Fin(frozenset(self.raw)), self.vals, var)
        else:
            a = ctx.atom(self.label, Cof(self.cls, self.excl, (), self.words), self.vals, var)
        return SStr(a), var


class TEdge:
    __slots__ = ("src", "dst", "tok", "upd", "guard", "key", "out", "reg")

    def __init__(self, src, dst, tok, upd=None, guard=None, out=None, reg=None):
        self.src, self.dst, self.tok, self.upd, self.guard = src, dst, tok, upd, guard
        self.reg = reg  # token register that keeps the token
        self.out = out  # ghost output action, see ghost.py
        self.key = None

    def __repr__(self):
        return f"{self.src}-{self.tok.label}->{self.dst}"


class TAuto:
    """nodes: name -> inv(r) list of z3 constraints ; regs: register names"""

    def __init__(self, name, lang, start, nodes, regs, edges, accept, style, nonempty=True):
        self.name, self.lang, self.start, self.nodes, self.regs = name, lang, start, nodes, tuple(regs)
        self.edges = edges
        for i, e in enumerate(edges):
            e.key = i
        self.out = {n: [] for n in nodes}
        for e in edges:
            self.out[e.src].append(e)
        self.accept = set(accept)
        self.style = style
        self.nonempty = nonempty
        self.toks = {}  # node -> {token register: what it may hold}
        self.numeral = False  # the text is one numeral
        self.initial = None  # register values at the start, when the invariant does not fix them

    @functools.cached_property
    def consts(self):
        """registers that the node invariant forces to be 0"""
        consts = {}
        for n, inv in self.nodes.items():
            r = {k: z3.Int("r_" + k) for k in self.regs}
            s = z3.Solver()
            s.add(*inv(r))
            if s.check() != z3.sat:
                raise SpecError(f"{self.name}: invariant of node {n} is unsatisfiable")
            c = {}
            for k in self.regs:
                s.push()
                s.add(r[k] != 0)
                if s.check() == z3.unsat:
                    c[k] = 0
                s.pop()
            consts[n] = c
        return consts

    def closed(self):
        """May blanks be put in anywhere, and unnamed tokens be replaced by
        any tokens beginning with an unnamed one, without leaving the automaton?"""
        same = lambda e: e.src == e.dst
        blanks = {e.src for e in self.edges if same(e) and e.tok.cls is BLANK and (e.upd is None or not self.live(e.src))}
        if blanks != set(self.nodes):
            return False
        for e in self.edges:
            if e.tok.words is None and e.tok.cls is not BLANK:
                loops = [x for x in self.edges if x.src == x.dst == e.dst and x.guard is None]
                named = frozenset().union(*(x.tok.words for x in loops if x.tok.words is not None))
                if not any(x.tok.cls is e.tok.cls and possible_words(x.tok.excl) <= named for x in loops):
                    return False
        return True

    def live(self, node):
        """registers not fixed by the node's invariant"""
        return [k for k in self.regs if k not in self.consts[node]]

    def wordy(self):
        """Does every accepted text contain a named word?"""
        seen, todo = {self.start}, [self.start]
        while todo:
            for e in self.out[todo.pop()]:
                if e.tok.words is None and e.dst not in seen:
                    seen.add(e.dst)
                    todo.append(e.dst)
        return not seen & self.accept

    def inst(self, ctx, node):
        r = {}
        c = self.consts[node]
        for k in self.regs:
            r[k] = c[k] if k in c else ctx.int_var(k)
        for t in self.nodes[node](r):
            if not isinstance(t, bool):
                ctx.assume(t)
            elif not t:
                raise SpecError("node invariant")
        for k, t in self.toks.get(node, {}).items():
            r[k] = t.make(ctx)[0]
        return r

    def fire(self, ctx, e, r):
        tok, v = e.tok.make(ctx)
        if e.guard is not None:
            g = e.guard(r, v)
            if g is False:
                raise Infeasible()
            if g is not True:
                ctx.assume(g)
                ctx.feasible()
        r2 = dict(r)
        if e.upd is not None:
            r2.update(e.upd(r, v))
        for k, c in self.consts[e.dst].items():
            r2[k] = c
        if e.reg is not None:
            r2[e.reg] = tok
        if self.toks:
            live = self.toks.get(e.dst, ())
            r2 = {k: x for k, x in r2.items() if k[0] != "#" or k in live}
        return tok, r2

    def selfcheck(self):
        """Every edge preserves the node invariants (obligations about the
        specification itself) -> number of obligations."""
        n = 0
        for e in self.edges:
            if e.upd is None and e.src == e.dst:
                continue
            r = {k: z3.Int("r_" + k) for k in self.regs}
            s = z3.Solver()
            s.add(*self.nodes[e.src](r))
            v = None
            if e.tok.vals is not None:
                v = z3.Int("v")
                s.add(z3.Or([v == x for x in sorted(set(e.tok.vals.values()))]))
            if e.guard is not None:
                s.add(e.guard(r, v))
            r2 = {**r, **(e.upd(r, v) if e.upd else {})}
            bad = [z3.Not(t) if not isinstance(t, bool) else (not t) for t in self.nodes[e.dst](r2)]
            s.add(z3.Or(bad))
            if s.check() != z3.unsat:
                raise SpecError(f"{self.name}: edge {e} does not preserve the invariant")
            n += 1
        return n


# ------------------------------------------------------------------ classes

def _blank(n):
    return n.strip() == ""


# strings that are blank once accents (combining marks) are dropped
BLANK = OpaqueClass("blank", _blank, nonblank=False, facts={
    ("pred", "isdecimal"): False, ("pred", "isdigit"): False, ("pred", "isnumeric"): False, ("pred", "isalpha"): False,
    ("pred", "isalnum"): False})
# a word or symbol whose normal form is one of a finite set (case, accents free)
SPELL = OpaqueClass("spelling", lambda n: True, nonblank=True, nonempty=True, facts={"rawblank": False})
# any token at all that is not blank
OTHER = OpaqueClass("token", lambda n: n.strip() != "", nonblank=True, nonempty=True, facts={"rawblank": False})


def possible_words(words):
    """(a word with an apostrophe is never a token: the texts have none, or
    they are taken out before splitting)"""
    if isinstance(words, dict):
        return {w: v for w, v in words.items() if "'" not in w and "’" not in w}
    return frozenset(w for w in words if "'" not in w and "’" not in w)


def word_tok(lang, cls, words, plain=False):
    """plain: spelt exactly as in the lexicon"""
    words = possible_words(words)
    if plain:
        raws = {r: words[n] for n, rs in plain_spellings(lang).items() if n in words for r in rs}
        return Tok(cls, SPELL, words=words, vals=raws, raw=frozenset(raws))
    return Tok(cls, SPELL, words=words, vals=words)


@functools.lru_cache(None)
def plain_spellings(lang):
    out = {}
    for c in LEX[lang].values():
        for w in c:
            out.setdefault(norm(w), set()).add(w)
    for o in ordinals() if lang == "en" else ():
        out.setdefault(o, set()).add(o)
    return out


def blank_tok():
    return Tok("blank", BLANK)


def skip_tok(lang, plain=False):
    return Tok("skip", SPELL, words=skips(lang), raw=skips(lang) if plain else None)


def style_of(lang):
    return "s" if lang == "hi" else "W"


def phrase_edges(lang, plain=False):
    return [TEdge(e.src, e.dst, word_tok(lang, e.cls, e.words, plain), e.upd, e.guard) for e in phrase(lang).edges]


@functools.lru_cache(None)
def number_text(lang, connectives=True, plain=False):
    """Well-formed cardinals with any blanks anywhere and any connectives after
    the first word, each word in any letter case / accentuation."""
    ph = phrase(lang)
    edges = phrase_edges(lang, plain)
    for n in ph.nodes:
        edges.append(TEdge(n, n, blank_tok()))
        if n != ph.start and skips(lang) and connectives:
            edges.append(TEdge(n, n, skip_tok(lang, plain)))
    return TAuto("number:" + lang + ":plain" * plain + ":bare" * (not connectives), lang, ph.start, dict(ph.inv), ("N", "m", "g", "lim"), edges, ph.accept, style_of(lang))


@functools.lru_cache(None)
def ordinal_text():
    """English ordinals: a cardinal whose last word is in ordinal form."""
    base = number_text("en")
    rev = {}
    for o, c in ordinals().items():
        rev.setdefault(c, o)
    edges = list(TEdge(e.src, e.dst, e.tok, e.upd, e.guard) for e in base.edges)
    nodes = dict(base.nodes)
    for e in phrase("en").edges:
        ws = {rev[w]: v for w, v in e.words.items() if w in rev}
        if ws and e.dst in base.accept:
            o = e.dst + "th"
            nodes[o] = nodes[e.dst]
            edges.append(TEdge(e.src, o, word_tok("en", e.cls + "th", ws), e.upd, e.guard))
    for n in nodes:
        if n not in base.nodes:
            edges.append(TEdge(n, n, blank_tok()))
    return TAuto("ordinal:en", "en", base.start, nodes, base.regs, edges, {n for n in nodes if n not in base.nodes}, "W")


@functools.lru_cache(None)
def ordinal_any(lang):
    """As any_text, with every word that parse_ordinal may take for a number
    word among the number words."""
    t = {n: (lambda r: []) for n in "SCWX"}
    edges = []
    nums = number_like(lang)
    sk = skips(lang)
    for n in "SCWX":
        edges.append(TEdge(n, n, blank_tok()))
        edges.append(TEdge(n, "C" if n == "S" else n, Tok("skip", SPELL, words=sk)) if sk else None)
        edges.append(TEdge(n, "W" if n == "S" else n, Tok("num", SPELL, words=possible_words(nums))))
        edges.append(TEdge(n, "X", Tok("other", OTHER, excl=nums | sk)))
    return TAuto("ordany:" + lang, lang, "S", t, (), [e for e in edges if e], "SCWX", style_of(lang), nonempty=True)


@functools.lru_cache(None)
def any_text(lang):
    """Every text: blank tokens, connectives, cardinal words, anything else.
    The node remembers what has been seen: S nothing but blanks, C a connective
    first, W only cardinals and connectives (cardinal first), X some other word."""
    t = {n: (lambda r: []) for n in "SCWX"}
    edges = []
    cards = frozenset(cardinals(lang))
    sk = skips(lang)
    for n in "SCWX":
        edges.append(TEdge(n, n, blank_tok()))
        edges.append(TEdge(n, "C" if n == "S" else n, Tok("skip", SPELL, words=sk)) if sk else None)
        edges.append(TEdge(n, "W" if n == "S" else n, Tok("card", SPELL, words=possible_words(cards))))
        edges.append(TEdge(n, "X", Tok("other", OTHER, excl=cards | sk)))
    return TAuto("any:" + lang, lang, "S", t, (), [e for e in edges if e], "SCWX", style_of(lang), nonempty=True)


@functools.lru_cache(None)
def separated_text(lang):
    """Every text; B: it has a comma or a full stop."""
    cards, sk, seps = frozenset(cardinals(lang)), skips(lang), frozenset(",.")
    edges = []
    for n in "AB":
        edges.append(TEdge(n, n, blank_tok()))
        edges.append(TEdge(n, n, Tok("skip", SPELL, words=sk)) if sk else None)
        edges.append(TEdge(n, n, Tok("card", SPELL, words=possible_words(cards))))
        edges.append(TEdge(n, n, Tok("other", OTHER, excl=cards | sk | seps)))
        edges.append(TEdge(n, "B", Tok("sep", SPELL, words=seps)))
    return TAuto("separated:" + lang, lang, "A", {n: (lambda r: []) for n in "AB"}, (), [e for e in edges if e], "AB", style_of(lang), nonempty=True)


@functools.lru_cache(None)
def merge_text(lang):
    """A well-formed cardinal, then a number word that cannot continue it, then
    any number words; blanks and connectives anywhere after the first word."""
    base = number_text(lang)
    ph = phrase(lang)
    edges = [TEdge(e.src, e.dst, e.tok, e.upd, e.guard) for e in base.edges]
    nodes = dict(base.nodes)
    nodes["Y"] = lambda r: [r[k] == 0 for k in base.regs]
    zero = lambda r, v: {k: 0 for k in base.regs}
    for n in ph.nodes:
        if n == ph.start:
            continue
        for c in CLASSES:
            t = table(lang, c)
            if t and all(incompatible(lang, l, c) for l in ph.last[n]):
                edges.append(TEdge(n, "Y", word_tok(lang, c + "!", t), zero))
    cards = {w: v for w, (c, v) in cardinals(lang).items()}
    edges.append(TEdge("Y", "Y", blank_tok(), zero))
    edges.append(TEdge("Y", "Y", word_tok(lang, "card", cards), zero))
    if skips(lang):
        edges.append(TEdge("Y", "Y", skip_tok(lang), zero))
    return TAuto("merge:" + lang, lang, ph.start, nodes, base.regs, edges, {"Y"}, style_of(lang))


# a run of decimal digits
NUMERAL = OpaqueClass("numeral", lambda n: n.isdecimal(), nonblank=True, nonempty=True, facts={
    "rawblank": False, ("pred", "isdecimal"): True, ("pred", "isdigit"): True, ("pred", "isnumeric"): True})


@functools.lru_cache(None)
def numeral(style):
    t = {n: (lambda r: []) for n in "SE"}
    a = TAuto("numeral:" + style, None, "S", t, (), [
        TEdge("S", "S", blank_tok()), TEdge("E", "E", blank_tok()), TEdge("S", "E", Tok("numeral", NUMERAL))], "E", style)
    a.numeral = True
    return a


def anything_in(lang):
    return anything(style_of(lang))


@functools.lru_cache(None)
def anything(style="W"):
    return TAuto("anything:" + style, None, "S", {"S": lambda r: []}, (), [TEdge("S", "S", blank_tok()), TEdge("S", "S", Tok("other", OTHER))], "S", style, nonempty=True)


def vocabulary(lang):
    """Normalised words that count for a language in detection."""
    return number_like(lang) | skips(lang)


@functools.lru_cache(None)
def counting(langs, style):
    """Any text; one register per language counts the words of its vocabulary."""
    regions = {}
    for w in sorted(set().union(*(vocabulary(l) for l in langs))):
        sig = tuple(l for l in langs if w in vocabulary(l))
        regions.setdefault(sig, set()).add(w)
    regs = tuple("n_" + l for l in langs)
    edges = [TEdge("S", "S", blank_tok()), TEdge("S", "S", Tok("other", OTHER, excl=frozenset().union(*regions.values())))]
    for sig, ws in sorted(regions.items()):
        edges.append(TEdge("S", "S", Tok("+".join(sig), SPELL, words=ws),
                           lambda r, v, sig=sig: {"n_" + l: r["n_" + l] + 1 for l in sig}))
    a = TAuto("count:" + "+".join(langs), None, "S", {"S": lambda r: [r[k] >= 0 for k in regs]}, regs, edges, "S", style, nonempty=True)
    a.initial = {k: 0 for k in regs}
    return a
