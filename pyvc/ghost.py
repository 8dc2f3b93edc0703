"""Exactness of parse: the sentence automata with their ghost output, and what
the loop rule needs to relate the program's lists to it.

Ghost output (ctx.gout): the text the specification says has been written so
far, as a tuple of pieces: literal strings, tokens, decimal renderings of
registers, and opaque segments (whatever was written before this iteration).

Output relation of a loop: the concatenation of some of the lists that the
loop modifies, in some order (both found by search), equals ctx.gout.

Trace: a list that holds exactly the tokens read since it was last empty, each
under a fixed chain of string operations per edge of the automaton, except for
edges that add nothing.
"""
import functools
import re

from spec.automata import incompatible, phrase
from spec.lex import ordinals, skips

from .auto import *
from .values import *


class InvariantFailed(Exception):
    """No candidate invariant holds: a failed obligation."""


GAP = OpaqueClass("gap", lambda n: n.strip() == "", nonblank=False, nonempty=True, facts=dict(BLANK.facts))


NONUM = OpaqueClass("token without digits", lambda n: n.strip() != "" and not n.isnumeric(), nonblank=True, nonempty=True, facts={
    "rawblank": False, ("pred", "isdecimal"): False, ("pred", "isdigit"): False, ("pred", "isnumeric"): False})


def gap_tok():
    return Tok("gap", GAP)


def empty_tok():
    return Tok("empty", BLANK, one="")


SEPS = frozenset(",.")


def raw(r, v, tok):
    return (tok,)


@functools.lru_cache(None)
def sentence(lang, numbers=True, connectives=False, ordinal=False, plain=False, seps=True, numerals=True, trailing=False, two=False):
    """Sentences of foreign words, symbols, blanks, separators and well-formed
    cardinals, each cardinal followed by a foreign word, a symbol, a separator
    or the end.  Options: connectives inside cardinals; `trailing`: so
    many connectives after a cardinal; `two`: after a cardinal (and a connective, with
    `trailing`) a number word that cannot continue it begins a second one;
    English ordinals.

    O: outside a number.  q: the number phrase is in state q.  q~: the same,
    and a blank has been read since.  q+: connectives have been read since, the
    number goes on.  qk, qk~ (qkk, ..): one connective (two, ..) has been read since.  q|..: in a
    second number; V is the value of the first; q|k..: with a connective between."""
    ph = phrase(lang)
    base = ("N", "m", "g", "lim")
    regs = base + (("V",) if two else ())
    nil = lambda r, v: {k: 0 for k in regs}
    sk = skips(lang)
    trailing = int(trailing) if sk else 0
    connectives = connectives and bool(sk)
    nodes = {"O": lambda r: [r[k] == 0 for k in regs]}
    edges, final, toks = [], {"O": lambda r: ()}, {}
    foreign = Tok("other", OTHER if numerals else NONUM, excl=number_like(lang) | sk | SEPS)
    sep = Tok("sep", SPELL, words=SEPS)
    skip = skip_tok(lang, plain) if sk else None
    rev = {}
    for o, c in ordinals().items() if ordinal and lang == "en" else ():
        rev.setdefault(c, o)

    def inv(q, second):
        f = ph.inv[q]
        if not two:
            return f
        return lambda r: f(r) + [r["V"] >= 0 if second else r["V"] == 0]

    def exits(x, gap, before):
        """A number ends at node x: before(r) is what it becomes."""
        edges.append(TEdge(x, "O", foreign, nil, out=lambda r, v, t: before(r) + (" ", t)))
        if seps:
            edges.append(TEdge(x, "O", sep, nil, out=lambda r, v, t: before(r) + ((" ", t) if gap else (t,))))
        final[x] = before

    def blanks(x):
        """x and x~"""
        for y in (x, x + "~"):
            edges.append(TEdge(y, y, empty_tok()))
            edges.append(TEdge(y, x + "~", gap_tok()))

    edges.append(TEdge("O", "O", foreign, out=raw))
    edges.append(TEdge("O", "O", blank_tok(), out=raw))
    if seps:
        edges.append(TEdge("O", "O", sep, out=raw))
    if sk:
        edges.append(TEdge("O", "O", skip, out=raw))

    num = lambda r: NumStr(mk_int(ph.value(r)))
    written = {"": lambda r: (num(r),), "|": lambda r: (NumStr(mk_int(r["V"])), " ", num(r)),
               "|k": lambda r: (NumStr(mk_int(r["V"])), " ", r["#k"], " ", num(r))}
    copies = [""] + (["|"] + (["|k"] if trailing else []) if two else [])
    for c in copies if numbers else ():
        w = written[c]
        srcs = {}
        for q in ph.nodes:
            if q == ph.start:
                continue
            x = q + c
            mine = srcs[q] = [x, x + "~"]
            blanks(x)
            if q in ph.accept:
                exits(x, False, w)
                exits(x + "~", True, w)
            if trailing and not c:
                regs_k = []
                for k in range(int(trailing)):
                    reg = "#k" + str(k or "")
                    regs_k.append(reg)
                    y = x + "k" * (k + 1)
                    for z in mine if not k else mine[-2:]:
                        edges.append(TEdge(z, y, skip, reg=reg))
                    blanks(y)
                    for z in (y, y + "~"):
                        mine.append(z)
                        toks[z] = {r: skip for r in regs_k}
                        if q in ph.accept:
                            exits(z, z[-1] == "~", lambda r, w=w, ks=tuple(regs_k): w(r) + tuple(t for k in ks for t in (" ", r[k])))
            if connectives:
                # (any number of) connectives, the number goes on
                for y in mine if c or not trailing else mine[-2:]:
                    edges.append(TEdge(y, x + "+", skip))
                mine.append(x + "+")
                edges.append(TEdge(x + "+", x + "+", skip))
                edges.append(TEdge(x + "+", x + "+", blank_tok()))
            for y in mine:
                nodes[y] = inv(q, bool(c))
                if c == "|k":
                    toks[y] = {"#k": skip}
        for e in ph.edges:
            if e.src == ph.start:
                if not c:
                    edges.append(TEdge("O", e.dst, word_tok(lang, e.cls, e.words, plain), e.upd, e.guard))
                    ends = ["O"]
                else:
                    ends = []
                    for q in ph.nodes:
                        if q != ph.start and q in ph.accept and all(incompatible(lang, l, e.cls) for l in ph.last[q]):
                            begin = lambda r, v, e=e: {**{k: 0 for k in base}, "V": ph.value(r), **(
                                e.upd({k: 0 for k in base}, v) if e.upd else {})}
                            for y in ((q, q + "~") if c == "|" else (q + "k", q + "k~")):
                                edges.append(TEdge(y, e.dst + c, word_tok(lang, e.cls, e.words, plain), begin))
            else:
                ends = srcs[e.src]
                for y in ends:
                    edges.append(TEdge(y, e.dst + c, word_tok(lang, e.cls, e.words, plain), e.upd, e.guard))
            if rev and e.dst in ph.accept and not c:
                ws = {rev[x]: v for x, v in e.words.items() if x in rev}
                if ws:
                    out = lambda r, v, t, e=e: (num({**r, **(e.upd(r, v) if e.upd else {})}),)
                    for y in ends:
                        edges.append(TEdge(y, "O", word_tok(lang, e.cls + "th", ws, plain), nil, e.guard, out=out))
    name = f"sentence:{lang}:{numbers, connectives, ordinal, plain, seps, numerals, trailing, two}"
    a = TAuto(name, lang, "O", nodes, regs, edges, set(final), style_of(lang))
    a.toks = toks
    a.final_out = lambda node, r: final[node](r)
    return a


# ------------------------------------------------------------------- output

def flatten(items, erase=None):
    """Pieces of a concatenation: literals merged, empty ones dropped; None
    when it is not a concatenation of known pieces."""
    if erase is not None:
        items = [x for x in spread(items) if isinstance(x, GhostSeg) or not erase(x)]
    out = []

    def lit(s):
        if s == "":
            return
        if out and isinstance(out[-1], str):
            out[-1] += s
        else:
            out.append(s)

    def add(x):
        if isinstance(x, str):
            lit(x)
        elif isinstance(x, NumStr):
            if isinstance(x.v, int):
                lit(str(x.v))
            else:
                out.append(x)
        elif isinstance(x, SCat):
            return all(add(p) for p in x.parts)
        elif isinstance(x, JoinPart):
            if x.sep != "":
                return False
            return all(add(p) for p in x.items)
        elif isinstance(x, SStr):
            c = x.chain
            if c and c[-1][0] == "lcat":
                return add(c[-1][1]) and add(SStr(x.atom, c[:-1]))
            if c and c[-1][0] == "rcat":
                return add(SStr(x.atom, c[:-1])) and add(c[-1][1])
            out.append(x)
        elif isinstance(x, GhostSeg):
            out.append(x)
        elif type(x) is AnyStr:
            raise Refine(x.origin)
        else:
            return False
        return True

    return out if all([add(x) for x in items]) else None


def spread(items):
    """All parts of a concatenation, nested ones too."""
    for x in items:
        if isinstance(x, SCat):
            yield from spread(x.parts)
        elif isinstance(x, JoinPart) and x.sep == "":
            yield from spread(x.items)
        elif isinstance(x, SStr) and x.chain and x.chain[-1][0] == "lcat":
            yield from spread((x.chain[-1][1], SStr(x.atom, x.chain[:-1])))
        elif isinstance(x, SStr) and x.chain and x.chain[-1][0] == "rcat":
            yield from spread((SStr(x.atom, x.chain[:-1]), x.chain[-1][1]))
        elif type(x) is AnyStr:
            raise Refine(x.origin)
        else:
            yield x


def same_piece(ctx, a, b):
    if isinstance(a, GhostSeg) or isinstance(b, GhostSeg):
        return a is b
    if isinstance(a, NumStr) and isinstance(b, NumStr):
        return ctx.valid(term(a.v) == term(b.v))
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.atom.id == b.atom.id and canon_chain(a.chain) == canon_chain(b.chain)
    return False


def same_pieces(ctx, a, b):
    a, b = list(reversed(a)), list(reversed(b))
    while a and b:
        x, y = a.pop(), b.pop()
        if isinstance(x, str) or isinstance(y, str):
            if not isinstance(x, str):
                a, b, x, y = b, a, y, x
            if isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                if len(x) > n:
                    a.append(x[n:])
                if len(y) > n:
                    b.append(y[n:])
                continue
            if isinstance(y, NumStr):
                n = len(x) - len(x.lstrip("0123456789"))
                if not n or str(int(x[:n])) != x[:n] or not ctx.valid(term(y.v) == int(x[:n])):
                    return False
            elif isinstance(y, SStr):
                p = ctx.possible(y)
                if p is None or len(p) != 1 or not x.startswith(next(iter(p))):
                    return False
                n = len(next(iter(p)))
            else:
                return False
            if len(x) > n:
                a.append(x[n:])
        elif not same_piece(ctx, x, y):
            return False
    return not a and not b


def same_output(ctx, a, b, strip=False, erase=None):
    """Do two concatenations denote the same text (apart from outer blanks,
    apart from what `erase` accepts)?"""
    a, b = flatten(a, erase), flatten(b, erase)
    if a is None or b is None:
        return False
    if strip:
        a, b = trim(a), trim(b)
    return same_pieces(ctx, a, b)


def trim(p):
    p = list(p)
    if p and isinstance(p[-1], str):
        p[-1] = p[-1].rstrip()
        if not p[-1]:
            p.pop()
    if p and isinstance(p[0], str):
        p[0] = p[0].lstrip()
        if not p[0]:
            p.pop(0)
    return p


# ---------------------------------------------------------------- relations

class Exact:
    """The text written is the ghost output."""

    traced = True
    strict = True

    def check(self, ctx, items, tag):
        return same_output(ctx, items, ctx.gout), None


class Keeps:
    """The text written is the ghost output, apart from numbers, blanks and
    connectives."""

    traced = False
    strict = True

    def __init__(self, lang):
        self.skips = skips(lang)

    def word(self, w):
        return w in self.skips or not w.strip() or w.isascii() and w.isdecimal()

    def erase(self, ctx):
        def tree(t):
            if t[0] == "S":
                raise Refine(t[1])
            return t[0] == "n" or t[0] == "s" and all(map(self.word, t[1])) or t[0] == "o" and (
                t[1].nonblank is False or t[4] is not None and t[4] <= self.skips)

        def f(x):
            if isinstance(x, str):
                return self.word(x)
            if isinstance(x, NumStr):
                return True
            if isinstance(x, SumSeg):
                return all(tree(t) for t in x.kinds.values())
            if isinstance(x, SStr):
                p = ctx.possible(x)
                if p is not None:
                    return all(map(self.word, p))
                d = ctx.dom[x.atom.id]
                return not x.chain and (d.cls.nonblank is False or d.normfin is not None and d.normfin <= self.skips)
            return False
        return f

    def check(self, ctx, items, tag):
        return same_output(ctx, items, ctx.gout, erase=self.erase(ctx)), None


class Keeps2(Keeps):
    """The foreign words, symbols and connectives of the ghost output are in
    the text written, unchanged and in order, with nothing else but numbers,
    blanks and more connectives."""

    traced = True

    def skip(self, ctx, x):
        if isinstance(x, SStr):
            p = ctx.possible(x)
            if p is not None:
                return p <= self.skips
            d = ctx.dom[x.atom.id]
            return not x.chain and d.normfin is not None and d.normfin <= self.skips
        return isinstance(x, str) and x in self.skips

    def check(self, ctx, items, tag):
        erased = self.erase(ctx)
        want, i = list(spread(ctx.gout)), 0
        for x in spread(items):
            if i < len(want) and same_pieces(ctx, [x], [want[i]]):
                i += 1
            elif isinstance(x, GhostSeg) or not self.skip(ctx, x) and not erased(x):
                return False, None
        return i == len(want), None


class Clean:
    """What has been written consists of words and single symbols that are no
    number words, numerals and connectives, no two words side by side.  The tag
    is the kind of the last piece: w a word, x anything else, ^ nothing."""

    traced = False
    strict = False

    def __init__(self, lang):
        self.skips = skips(lang)
        self.style = style_of(lang)
        self.why = None

    def kind(self, s):
        """of a string the program has put in"""
        if s in self.skips or s.isascii() and s.isdecimal():
            return "w" if self.style == "s" or re.fullmatch(r"\w+", s) else "x"
        return "x" if s and not s.strip() else "?"

    def cls(self, cls, normfin):
        # a number word has no type; the words of the other classes are
        # connectives, or foreign by the automaton (`excl`)
        return cls.facts.get("type") or "?"

    def tree(self, t):
        if t[0] == "S":
            raise Refine(t[1])
        if t[0] == "n":
            return {"w"}
        if t[0] == "s":
            return {self.kind(w) for w in t[1]}
        if t[0] == "o" and not t[2]:
            return {self.cls(t[1], t[4])}
        return {"?"}

    def kinds(self, ctx, x):
        if isinstance(x, str):
            return {self.kind(x)}
        if isinstance(x, NumStr):
            return {"w"}
        if isinstance(x, SStr):
            p = ctx.possible(x)
            if p is not None:
                return {self.kind(w) for w in p}
            if not x.chain:
                return {self.cls(ctx.dom[x.atom.id].cls, ctx.dom[x.atom.id].normfin)}
        return {"?"}

    def check(self, ctx, items, tag):
        last = {"^"}
        todo = [x for x in ctx.gout if isinstance(x, GhostSeg)]
        if todo:
            last = None

        def step(a, b):
            if "?" in b:
                self.why = f"a piece that may be a number word or glued: {x!r:.200}"
                return False
            if "w" in a and "w" in b:
                self.why = f"two words side by side at {x!r:.200}"
                return False
            return True

        for x in spread(items):
            if isinstance(x, GhostSeg):
                if not todo or todo.pop(0) is not x:
                    raise Unsupported("the order of the text written")
                if not todo:
                    last = set(tag)
                continue
            if todo:
                raise Unsupported("text put in before other text")
            if isinstance(x, str) and not x:
                continue
            if isinstance(x, SumSeg):
                ks = {k: self.tree(t) for k, t in x.kinds.items()}
                if not all(step(last, ks[k]) for k in x.first) or not all(step(ks[a], ks[b]) for a, b in x.pairs):
                    return False, None
                end = set().union(*(ks[k] for k in x.last))
                last = last | end if x.empty else end
                continue
            k = self.kinds(ctx, x)
            if not step(last, k):
                return False, None
            last = k
        if todo:
            raise Unsupported("text written is lost")
        return True, frozenset(last)


def typed(base, name, t, pred=None):
    return OpaqueClass(name, pred or base.pred, base.nonblank, base.nonempty, {**base.facts, "type": t})


@functools.lru_cache(None)
def mixed_text(lang):
    """Every text: words and what is between them in turn.  a: a word (maybe an
    empty one) comes next; b: a symbol or blank comes next."""
    style = style_of(lang)
    like, sk = number_like(lang), skips(lang)
    isw = lambda w: re.fullmatch(r"\w+" if style == "W" else r"\S+", w) is not None
    W, X = typed(SPELL, "word spelling", "w"), typed(SPELL, "symbol spelling", "x")
    word = typed(OTHER, "word", "w", isw)
    sym = typed(OTHER, "symbol", "x")
    keep = lambda r, v, t: (t,)
    edges = [TEdge("a", "b", empty_tok()),
             TEdge("a", "b", Tok("number word", typed(SPELL, "number word", None), words=possible_words(w for w in like if isw(w)))),
             TEdge("a", "b", Tok("word", word, excl=like | sk), out=keep),
             TEdge("b", "a", Tok("gap", typed(GAP, "gap", "x")))]
    if style == "W":
        edges.append(TEdge("b", "a", Tok("symbol", sym, excl=like | sk), out=keep))
    else:
        edges.append(TEdge("a", "b", Tok("mark", typed(GAP, "mark", "w"))))
    for c, s in (("a", {w for w in sk if isw(w)}), ("b", {w for w in sk if not isw(w)})):
        if s:
            edges.append(TEdge(c, "b" if c == "a" else "a", Tok("skip", W if c == "a" else X, words=frozenset(s))))
    t = {n: (lambda r: []) for n in "ab"}
    a = TAuto("mixed:" + lang, lang, "a", t, (), edges, "b", style, nonempty=True)
    a.final_out = lambda node, r: ()
    return a

@functools.lru_cache(None)
def kept_text(lang, k):
    """Every text with at most k connectives in a row between a cardinal word
    and something that is no number word.  The ghost output has the foreign
    words, the symbols and every connective but those between two number words.
    O: after these; N, P: after a cardinal, an ordinal; N+, PB: the connectives
    here lead to a number word; Nk.., PK: they do not."""
    like, sk, cards = number_like(lang), skips(lang), frozenset(cardinals(lang))
    foreign = Tok("other", OTHER, excl=like | sk | SEPS)
    sep = Tok("sep", SPELL, words=SEPS)
    skip = skip_tok(lang)
    card = Tok("card", SPELL, words=possible_words(cards))
    ords = possible_words(like - cards)
    ords = Tok("ord", SPELL, words=ords) if ords else None
    keep = lambda r, v, t: (t,)
    edges, final = [], {}

    def exits(node, before):
        edges.extend(TEdge(node, "O", t, out=lambda r, v, t: before(r) + (t,)) for t in (foreign, sep))
        final[node] = before

    def numbers(node):
        edges.append(TEdge(node, "N", card))
        if ords:
            edges.append(TEdge(node, "P", ords))

    for x in ("O", "P", "N") if ords else ("O", "N"):
        edges.append(TEdge(x, x, blank_tok()))
        numbers(x)
        exits(x, lambda r: ())
    edges.append(TEdge("O", "O", skip, out=keep))
    if ords:
        for x, out in (("PK", keep), ("PB", None)):
            edges += [TEdge(y, x, skip, **({"out": out} if out else {})) for y in ("P", x)] + [TEdge(x, x, blank_tok())]
        exits("PK", lambda r: ())
        numbers("PB")
    edges += [TEdge("N", "N+", skip), TEdge("N+", "N+", skip), TEdge("N+", "N+", blank_tok())]
    numbers("N+")
    toks, prev = {}, "N"
    for i in range(k):
        regs = tuple("#k" + str(j or "") for j in range(i + 1))
        x = "N" + "k" * (i + 1)
        edges += [TEdge(prev, x, skip, reg=regs[-1]), TEdge(x, x, blank_tok())]
        toks[x] = {q: skip for q in regs}
        exits(x, lambda r, regs=regs: tuple(r[q] for q in regs))
        prev = x
    nodes = {n: (lambda r: []) for e in edges for n in (e.src, e.dst)}
    a = TAuto("kept:" + lang, lang, "O", nodes, (), edges, set(final), style_of(lang), nonempty=True)
    a.toks = toks
    a.final_out = lambda node, r: final[node](r)
    return a


# -------------------------------------------------------------------- trace

class Trace:
    """One list of one loop; `acts`: edge -> chain of operations, or None when
    the edge adds nothing."""

    def __init__(self, key, main):
        self.key, self.main = key, main
        self.starts = []  # nodes where the list may be empty and grow next
        self.acts = {}
        self.version = 0
        self.dead = False
        self._auto = None

    def begin(self, node):
        if node not in self.starts:
            self.starts.append(node)
            self.version += 1

    def set(self, e, act):
        """-> False on conflict"""
        if e.key in self.acts:
            return self.acts[e.key] == act
        self.acts[e.key] = act
        self.version += 1
        self._auto = None
        return True

    def edges_in(self, node):
        return [e for e in self.main.edges if e.key in self.acts and e.dst == node]

    def edges_out(self, node):
        return [e for e in self.main.out[node] if e.key in self.acts]

    def value(self, e, tok):
        """What the edge adds to the list"""
        act = self.acts[e.key]
        return tok if isinstance(tok, str) and not act else SStr(tok.atom, tok.chain + act)


class TraceView:
    """Iteration over a traced list."""

    def __init__(self, driver, seg, enum0=None):
        self.d, self.seg, self.tr, self.enum0 = driver, seg, seg.tr, enum0
        self.auto = seg.tr.main
        self.starts = seg.tr.starts

    def edges(self, node):
        return self.tr.edges_out(node)

    def start_regs(self, ctx):
        if not self.starts:
            raise Infeasible()
        self.start = self.starts[ctx.choose(len(self.starts))]
        return self.auto.inst(ctx, self.start)

    def inst(self, ctx, node):
        return self.auto.inst(ctx, node)

    def consts(self, node):
        return self.auto.consts[node]

    def accept(self, node):
        return True

    def fire(self, ctx, e, r):
        tok, r2 = self.auto.fire(ctx, e, r)
        if self.tr.acts[e.key] is None:
            return False, None, e.dst, r2
        el = self.tr.value(e, tok)
        if self.enum0 is not None:
            i = ctx.int_var("idx")
            ctx.assume(i >= self.enum0)
            el = (SInt(i), el)
        return True, el, e.dst, r2

    def final(self, ctx, node, r):
        pass

    def forced(self, ctx):
        return self.seg.node, self.seg.regs
