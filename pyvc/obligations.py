"""The theorems: one postcondition per property over the real functions of
/repo's current source, each decided by the verifier (session.py) from scratch
on every run."""
import ast
import multiprocessing
import os
import sys
import time
import traceback

import z3

from spec.automata import incompatible, phrase
from spec.lex import LANGS, cardinals, skips

from .auto import *
from .ghost import Clean, Exact, InvariantFailed, Keeps, Keeps2, kept_text, mixed_text, same_output, sentence
from .session import Session
from .values import *

CARD = {"C01": "en", "C02": "es", "C03": "hi", "C04": "ru", "C05": "uk"}
REGISTRY = {}  # property -> list of (theorem name, language, function)


def theorem(*pids, langs=LANGS):
    def deco(f):
        for p in pids:
            for l in (langs if langs else [None]):
                if p in CARD and l is not None and CARD[p] != l:
                    continue
                REGISTRY.setdefault(p, []).append((f.__name__, l, f))
        return f
    return deco


# (property, theorem) -> the same statement without what the property is about:
# where that fails too, the failure does not (yet) say anything about the property
BASE = {}


def baseline(*pairs):
    def deco(f):
        for pid, name in pairs:
            BASE[pid, name] = f
        return f
    return deco


class Proof:
    """Collects the obligations of one theorem."""

    def __init__(self, S, pid):
        self.S = S
        self.pid = pid
        self.obs = []  # (name, ok, detail)
        self.spec = 0
        self.reached = set()

    def check(self, name, ok, detail=None, frame=False):
        if (self.pid == "C22") != frame:
            return
        self.obs.append((name, bool(ok), None if ok else str(detail)[:1500], not ok and not self.S.ctx.approx))

    def frame(self, what):
        """Frame condition: nothing that outlives the call has been written."""
        w = self.S.ctx.global_writes
        self.check(f"{what} assigns nothing that outlives the call", not w, w, frame=True)

    def auto(self, a):
        self.spec += a.selfcheck()
        return a

    def eq(self, a, b):
        a, b = term(a), term(b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return self.S.ctx.valid(a == b)


def final_of(S, tx):
    return S.ctx.seq_final.get(tx.seq.id)


def stripped(v):
    """A string without outer whitespace?"""
    return isinstance(v, SOp) and v.name == "strip" or isinstance(v, str) and v == v.strip() or isinstance(v, NumStr)


# ----------------------------------------------------------------- theorems

@theorem("C01", "C02", "C03", "C04", "C05", "C07", "C16", "C17", "C25")
def number_value(P, S, lang):
    """parse_number(t, lang) == value(t) for every t in the number language,
    with any blanks, connectives, letter case and accents."""
    number_value_over(P, S, lang, number_text(lang))
    if lang == "uk":
        # the apostrophes ' and ’ are dropped from every text of number_text
        for w in ("пʼять", "девʼять", "пʼятнадцять", "девʼятнадцять", "пʼятдесят", "девʼяносто", "пʼятсот", "девʼятсот"):
            t = cardinals(lang)
            P.check(f"{w} without its apostrophe is a word of the same value", t.get(w.replace("ʼ", "")) == t[w])


def number_value_over(P, S, lang, A):
    P.auto(A)
    ph = phrase(lang)

    def path():
        tx = S.text(A)
        r = S.call("parse_number", tx, lang)
        fin = final_of(S, tx)
        name = f"parse_number returns the value of the phrase [{lang}, ends in {fin and fin[0]}]"
        ok = r[0] == "ret" and fin and isinstance(r[1], (int, SInt)) and not isinstance(r[1], bool) and P.eq(r[1], ph.value(fin[1]))
        P.check(name, ok, r)
        if fin:
            P.reached.add(fin[0])

    S.explore(path)
    P.check(f"every accepting state of the grammar is reachable [{lang}]", P.reached >= A.accept, A.accept - P.reached)


@theorem("C12", "C13", "C14", "C22", "C25")
def number_any(P, S, lang):
    """parse_number on every text: never raises, None or an integer >= 0; None
    when the text has a foreign word or starts with a connective."""
    A = P.auto(any_text(lang))
    S.ctx.fuzzy = True

    def path():
        tx = S.text(A, facts=dict(any=True, nonblank=None, decimal=None, nonempty=None))
        r = S.call("parse_number", tx, lang)
        P.frame("parse_number")
        fin = final_of(S, tx)
        tf = {q for (i, q, _), v in S.ctx.textfacts.items() if v and i == tx.seq.id}
        P.reached.add(fin[0] if fin else None)
        if r[0] != "ret":
            P.check(f"parse_number does not raise [{lang}]", False, r)
            return
        v = r[1]
        if isinstance(v, SOp) and v.facts.get("int"):
            P.check(f"a number is read from decimal text only [{lang}]", "isdecimal" in tf, tf)
            return
        ok = v is None or (isinstance(v, (int, SInt)) and not isinstance(v, bool) and P.S.ctx.valid(term(v) >= 0))
        P.check(f"parse_number returns None or an integer >= 0 [{lang}]", ok, v)
        if "blank" in tf:
            P.check(f"None for blank text [{lang}]", v is None, v)
        if not fin or fin[0] in ("X", "C", "S"):
            P.check(f"not a number when {fin[0] if fin else 'the rest of the text is not looked at'} [{lang}]", v is None, v)

    S.explore(path)


@theorem("C19", langs=[l for l in LANGS if style_of(l) == "W"])
def number_separated(P, S, lang):
    """parse_number returns None for every text with a comma or full stop."""
    A = P.auto(separated_text(lang))
    S.ctx.fuzzy = True

    def path():
        tx = S.text(A, facts=dict(any=True, nonblank=None, decimal=None, nonempty=None))
        r = S.call("parse_number", tx, lang)
        fin = final_of(S, tx)
        P.reached.add(fin[0] if fin else None)
        if r[0] != "ret":
            return  # (C12)
        if isinstance(r[1], SOp) and r[1].facts.get("int"):
            tf = {q for (i, q, _), v in S.ctx.textfacts.items() if v and i == tx.seq.id}
            P.check(f"a number is read from decimal text only [{lang}]", "isdecimal" in tf, tf)
        elif not fin or fin[0] == "B":
            P.check(f"no number in a text with a separator [{lang}]", r[1] is None, r)

    S.explore(path)
    P.check(f"such texts exist [{lang}]", "B" in P.reached or None in P.reached, P.reached)


@theorem("C15")
def number_merge(P, S, lang):
    """parse_number returns None when a well-formed cardinal is followed by a
    number word that cannot continue it, whatever cardinals follow."""
    A = P.auto(merge_text(lang))
    S.ctx.fuzzy = True

    def path():
        tx = S.text(A)
        r = S.call("parse_number", tx, lang)
        fin = final_of(S, tx)
        P.reached.add(fin and fin[0])
        P.check(f"two numbers are not merged [{lang}]", r == ("ret", None), r)

    S.explore(path)
    P.check(f"such texts exist [{lang}]", "Y" in P.reached, P.reached)


@theorem("C12", "C13", "C22")
def parse_any(P, S, lang):
    """parse on every text (language given) returns a string."""
    A = P.auto(any_text(lang))
    S.ctx.fuzzy = S.ctx.widen = True

    def path():
        tx = S.text(A, facts=dict(any=True, nonblank=None, decimal=None, nonempty=None), removable=("\xad",))
        r = S.call("parse", tx, lang)
        P.frame("parse")
        fin = final_of(S, tx)
        P.reached.add(fin[0] if fin else None)
        P.check(f"parse does not raise [{lang}]", r[0] == "ret", r)
        if r[0] == "ret":
            P.check(f"parse returns a string without outer whitespace [{lang}]", stripped(r[1]), r[1])

    S.explore(path)


def exact(P, S, lang, A, rel=None, what="parse returns the specified text", **kw):
    """parse(t) is the ghost output of the sentence automaton A, for every t in
    its language, apart from outer whitespace."""
    P.auto(A)
    rel = rel or Exact()

    def path():
        tx = S.text(A, removable=("\xad",), **kw)
        S.ctx.exact, S.ctx.gout, S.ctx.relation, S.ctx.gtag = tx.seq.id, (), rel, None
        r = S.call("parse", tx, lang)
        fin = final_of(S, tx)
        if not fin:
            P.check(f"the whole text is read [{lang}]", False, r)
            return
        P.reached.add(fin[0])
        name = f"{what} [{lang}, ends in {fin[0]}]"
        if r[0] != "ret":
            P.check(name, False, r)
            return
        v = r[1]
        ok = isinstance(v, SOp) and v.name == "strip"
        want = S.ctx.gout + A.final_out(*fin)
        if ok and isinstance(rel, Exact):
            ok = same_output(S.ctx, v.args, want, True)
        elif ok:
            ok = rel.check(S.ctx, v.args, S.ctx.gtag)[0]
        P.check(name, ok, (v, want))

    S.explore(path)
    P.check(f"every accepting state is reachable [{lang}]", P.reached >= A.accept, A.accept - P.reached)


@theorem("C09", "C18")
def parse_plain(P, S, lang):
    """parse of every text without number words is that text, stripped."""
    exact(P, S, lang, sentence(lang, numbers=False))


@baseline(("C18", "parse_plain"))
def plain_base(P, S, lang):
    exact(P, S, lang, sentence(lang, numbers=False, numerals=False))


@theorem("C08")
def parse_sentence(P, S, lang):
    """parse of every sentence: cardinals become their values, all else stays;
    two connectives (three in English) after a cardinal stay too."""
    exact(P, S, lang, sentence(lang, trailing=3 if lang == "en" else 2))


@theorem("C15")
def parse_two(P, S, lang):
    """As parse_sentence, with a number word that cannot continue a cardinal
    beginning a second one, right away or after one connective."""
    exact(P, S, lang, sentence(lang, connectives=True, trailing=True, two=True))


@baseline(("C15", "parse_two"))
def no_second(P, S, lang):
    exact(P, S, lang, sentence(lang, connectives=True, trailing=True))


@theorem("C16", "C17", "C19")
def parse_connectives(P, S, lang):
    """As parse_sentence, with connectives inside the cardinals."""
    exact(P, S, lang, sentence(lang, connectives=True))


@baseline(("C16", "parse_connectives"))
def no_connectives(P, S, lang):
    exact(P, S, lang, sentence(lang))


@baseline(("C17", "parse_connectives"))
def plain_words(P, S, lang):
    exact(P, S, lang, sentence(lang, connectives=True, plain=True))


@baseline(("C19", "parse_connectives"))
def no_separators(P, S, lang):
    exact(P, S, lang, sentence(lang, connectives=True, seps=False))


@theorem("C06", langs=("en",))
def parse_ordinals(P, S, lang):
    """As parse_connectives, with ordinals."""
    exact(P, S, lang, sentence(lang, connectives=True, ordinal=True))


@baseline(("C06", "parse_ordinals"))
def no_ordinals(P, S, lang):
    exact(P, S, lang, sentence(lang, connectives=True))


@baseline(("C16", "number_value"))
def number_bare(P, S, lang):
    number_value_over(P, S, lang, number_text(lang, connectives=False))


@baseline(("C17", "number_value"), ("C25", "number_value"))
def number_plain(P, S, lang):
    number_value_over(P, S, lang, number_text(lang, plain=True))


@baseline(("C17", "ordinal_cardinal"))
def ordinal_plain(P, S, lang):
    value_of(P, S, lang, P.auto(number_text(lang, plain=True)), "parse_ordinal", lambda q: q)


@theorem("C10")
def parse_keeps(P, S, lang):
    """The foreign words and symbols of every text are in the result of parse,
    unchanged and in order, and nothing else but numbers, blanks, connectives."""
    S.ctx.fuzzy = S.ctx.widen = True
    exact(P, S, lang, mixed_text(lang), Keeps(lang), "parse keeps the other words and symbols",
          facts=dict(any=True, nonblank=None, decimal=None, nonempty=None))


@theorem("C10", langs=("en", "es"))
def parse_keeps_connectives(P, S, lang):
    """In every text with at most three connectives in a row between a cardinal
    and something that is no number word, a connective disappears only between
    two number words."""
    S.ctx.fuzzy = True
    exact(P, S, lang, kept_text(lang, 3), Keeps2(lang), "parse keeps the connectives",
          facts=dict(any=True, nonblank=None, decimal=None, nonempty=None))


@theorem("C11")
def parse_clean(P, S, lang):
    """In the result of parse on every text no number word is left and no two
    words are side by side."""
    S.ctx.fuzzy = S.ctx.widen = True
    exact(P, S, lang, mixed_text(lang), Clean(lang), "no number word and nothing glued in the result of parse",
          facts=dict(any=True, nonblank=None, decimal=None, nonempty=None))


APOS = ("'", "’")


@theorem("C06", langs=("en",))
def ordinal_value(P, S, lang):
    """parse_ordinal(t, 'en') == value(t) for every English ordinal."""
    value_of(P, S, lang, P.auto(ordinal_text()), "parse_ordinal", lambda q: q[:-2])


@theorem("C06", "C17")
def ordinal_cardinal(P, S, lang):
    """parse_ordinal(t) == value(t) for every cardinal t (without apostrophes)."""
    value_of(P, S, lang, P.auto(number_text(lang)), "parse_ordinal", lambda q: q)


def value_of(P, S, lang, A, fn, node, **kw):
    ph = phrase(lang)

    def path():
        tx = S.text(A, absent=APOS)
        r = S.call(fn, tx, lang)
        fin = final_of(S, tx)
        ok = r[0] == "ret" and fin and isinstance(r[1], (int, SInt)) and not isinstance(r[1], bool) and P.eq(r[1], ph.value(fin[1]))
        P.check(f"{fn} returns the value of the phrase [{lang}, ends in {fin and fin[0]}]", ok, r)
        if fin:
            P.reached.add(fin[0])

    S.explore(path)
    P.check(f"every accepting state of the grammar is reachable [{lang}]", P.reached >= A.accept, A.accept - P.reached)


@theorem("C14", "C22")
def ordinal_any_text(P, S, lang):
    """parse_ordinal on every text without apostrophes: None or an integer >= 0;
    None when there is a foreign word or a connective comes first."""
    A = P.auto(ordinal_any(lang))
    S.ctx.fuzzy = True

    def path():
        tx = S.text(A, facts=dict(any=True, nonblank=None, decimal=None, nonempty=None), absent=APOS)
        r = S.call("parse_ordinal", tx, lang)
        P.frame("parse_ordinal")
        fin = final_of(S, tx)
        P.reached.add(fin[0] if fin else None)
        if r[0] != "ret":
            P.check(f"parse_ordinal does not raise [{lang}]", False, r)
            return
        v = r[1]
        if isinstance(v, SOp) and v.facts.get("int"):
            tf = {q for (i, q, _), x in S.ctx.textfacts.items() if x and i == (tx.seq.id, "joined")}
            P.check(f"a number is read from decimal text only [{lang}]", "isdecimal" in tf, tf)
            return
        ok = v is None or (isinstance(v, (int, SInt)) and not isinstance(v, bool) and P.S.ctx.valid(term(v) >= 0))
        P.check(f"parse_ordinal returns None or an integer >= 0 [{lang}]", ok, v)
        if not fin or fin[0] in ("X", "C", "S"):
            P.check(f"not a number when {fin[0] if fin else 'the rest of the text is not looked at'} [{lang}]", v is None, v)

    S.explore(path)


@theorem("C12", "C13")
def ordinal_total(P, S, lang):
    """parse_ordinal on every text, parse_number taken by its contract: None or
    an integer >= 0, no exception."""
    A = anything_in(lang)

    def path():
        tx = S.text(A, facts=dict(any=True, nonblank=None, decimal=None, nonempty=None), removable=("\xad",))
        S.I.contracts["number_parser.parser:parse_number"] = number_contract(S, lang)
        r = S.call("parse_ordinal", tx, lang)
        S.I.contracts.clear()
        P.check(f"parse_ordinal does not raise [{lang}]", r[0] == "ret", r)
        if r[0] == "ret":
            ok = r[1] is None or isinstance(r[1], (int, SInt)) and not isinstance(r[1], bool) and S.ctx.valid(term(r[1]) >= 0)
            P.check(f"parse_ordinal returns None or an integer >= 0 [{lang}]", ok, r[1])
            P.reached.add(r[1] is None)

    S.explore(path)
    P.check(f"both outcomes occur [{lang}]", len(P.reached) == 2, P.reached)


SEPARATORS = ("divided by", "over", "by", "/")


def number_contract(S, lang, value=None):
    """parse_number as its contract says: no exception, None or an integer
    >= 0; the given value where `value` knows the text.  The calls are kept."""
    def c(I, f, args, kw):
        b = I.bind(f, args, kw)
        text, l = b.get("input_string", next(iter(b.values()))), b.get("language", list(b.values())[1])
        if not (l is None or isinstance(l, str)):
            raise Unsupported(f"parse_number called for language {l!r}")
        if not I.lib.builtin("isinstance", text, str):
            I.raise_(AttributeError, "not a string")
        v = value(text) if value and l == lang else None
        if v is None:
            v = None if S.ctx.choose(2) == 0 else S.nonneg()
        if l != lang:  # (any number: it says nothing about the language of the text)
            return v
        S.ctx.setattr_ctx("calls", S.ctx.calls + ((text, v),))
        return v
    return c


def core(t):
    """The one symbolic text in a concatenation with blanks."""
    if isinstance(t, AText) and not t.ops:
        return t
    if isinstance(t, SCat):
        rest = [p for p in t.parts if not (isinstance(p, str) and not p.strip())]
        if len(rest) == 1 and isinstance(rest[0], AText) and not rest[0].ops:
            return rest[0]
    return None


def fraction_string(v):
    """(a, b) when v is the digits of a, '/', the digits of b"""
    if isinstance(v, SCat) and len(v.parts) == 3 and v.parts[1] == "/" and all(isinstance(v.parts[i], NumStr) for i in (0, 2)):
        return v.parts[0].v, v.parts[2].v
    return None


@theorem("C07")
def fraction_value(P, S, lang):
    """parse_fraction('<A> <sep> <B>', lang) == 'a/b' for all cardinals and numerals
    A, B with the values a, b (parse_number taken by its contract)."""
    kinds = [P.auto(number_text(lang)), P.auto(numeral("W"))]
    for a in kinds:
        for b in kinds:
            for sep in SEPARATORS:
                def path():
                    A, B = S.text(a, absent=APOS), S.text(b, absent=APOS)
                    vals = {A.seq.id: S.nonneg(), B.seq.id: S.nonneg()}

                    def value(t):
                        c = core(t)
                        return None if c is None else vals.get(c.seq.id)
                    S.I.contracts["number_parser.parser:parse_number"] = number_contract(S, lang, value)
                    r = S.call("parse_fraction", SCat([A, " " + sep + " ", B]), lang)
                    S.I.contracts.clear()
                    ab = fraction_string(r[1]) if r[0] == "ret" else None
                    ok = ab is not None and P.eq(ab[0], vals[A.seq.id]) and P.eq(ab[1], vals[B.seq.id])
                    P.check(f"'{a.name} {sep} {b.name}' gives numerator/denominator", ok, r)
                    P.reached.add((a.name, b.name, sep))
                S.explore(path)
    P.check("all combinations return", len(P.reached) == 16, P.reached)


@theorem("C07", "C12", "C13", "C22")
def fraction_any(P, S, lang):
    """parse_fraction on every text: None, or the two numbers left and right of
    the first separator; None when there is no separator or one of them is no
    number (parse_number taken by its contract)."""
    A = anything()

    def path():
        tx = S.text(A, facts=dict(any=True, nonblank=None, decimal=None, nonempty=None))
        S.I.contracts["number_parser.parser:parse_number"] = number_contract(S, lang)
        r = S.call("parse_fraction", tx, lang)
        S.I.contracts.clear()
        P.frame("parse_fraction")
        if r[0] != "ret":
            P.check(f"parse_fraction does not raise [{lang}]", False, r)
            return
        v = r[1]
        has = {q[1]: x for (i, q, _), x in S.ctx.textfacts.items() if i == tx.seq.id and isinstance(q, tuple)}
        blank = any(x for (i, q, _), x in S.ctx.textfacts.items() if i == tx.seq.id and q in ("blank", "empty"))
        used = {id(t): x for t, x in S.ctx.calls}
        side = lambda s, w: used.get(id(S.ctx.parts.get((tx.seq.id, s, w))), MISSING)
        if v is None:
            ok = blank or all(has.get(s) is False for s in SEPARATORS) or any(
                side(s, w) is None for s in SEPARATORS for w in ("before", "after") if has.get(s))
            P.check(f"None only without a separator or number [{lang}]", ok, (has, S.ctx.calls))
            P.reached.add("none")
            return
        ab = fraction_string(v)
        ok = ab is not None and any(has.get(s) and isinstance(side(s, "before"), SInt) and isinstance(side(s, "after"), SInt) and P.eq(
            ab[0], side(s, "before")) and P.eq(ab[1], side(s, "after")) for s in SEPARATORS)
        P.check(f"numerator and denominator are the numbers around a separator [{lang}]", ok, v)
        P.reached.add("some")

    S.explore(path)
    P.check(f"both outcomes occur [{lang}]", len(P.reached) == 2, P.reached)


class Stop(Exception):
    def __init__(self, stmt, vars_):
        self.stmt, self.vars = stmt, vars_


def same_value(a, b):
    if isinstance(a, AText) and isinstance(b, AText):
        return a.seq is b.seq and a.ops == b.ops and a.facts.get("tid") == b.facts.get("tid")
    if isinstance(a, SOp) and isinstance(b, SOp):
        return a.name == b.name and len(a.args) == len(b.args) and all(same_value(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, (str, int, type(None))) and isinstance(b, (str, int, type(None))):
        return type(a) is type(b) and a == b
    return a is b


@theorem("C12", "C13", "C18", "C20", "C22", langs=None)
def without_language(P, S, lang):
    """Each function called without a language does what it does when it is
    called with the detected one: it either returns before it needs a language,
    the same in both cases, or it asks for the detection of exactly the given
    text and reaches, with the answer for language, the same state that the call
    with that language reaches (so both go on alike)."""
    A = anything()
    I = S.I
    det = "number_parser.parser:_valid_tokens_by_language"

    def run(fn, tx, l, until, seen):
        """Up to the first statement of the function's body for which `until`."""
        f = S.fn(fn)
        top = {id(s) for s in f.node.body}

        def watch(s, fr):
            if fr.name == f.qual and id(s) in top and until(s):
                raise Stop(s, dict(fr.vars))
        I.watch = watch
        try:
            return S.call(fn, tx, *l)
        except Stop as x:
            return x
        finally:
            I.watch = None

    def detected(l, seen):
        def c(I, f, args, kw):
            seen.append(list(I.bind(f, args, kw).values())[0])
            return l
        return c

    for fn in ("parse", "parse_number", "parse_ordinal", "parse_fraction"):
        for l in LANGS:
            def path():
                tx = S.text(A, facts=dict(any=True, nonblank=None, decimal=None, nonempty=None))
                seen = []
                I.contracts[det] = detected(l, seen)
                try:
                    a = run(fn, tx, (), lambda s: seen, seen)
                finally:
                    I.contracts.pop(det)
                if not seen:
                    if isinstance(a, Stop):
                        raise Unsupported("stopped before detection")
                    b = S.call(fn, tx, l)
                    P.reached.add((fn, "early"))
                    P.check(f"{fn}: the same without and with a language when none is needed [{l}]",
                            a[0] == "ret" and b[0] == "ret" and same_value(a[1], b[1]), (a, b))
                    return
                P.check(f"{fn} asks for the language of its text", all(same_value(x, tx) for x in seen), seen)
                if not isinstance(a, Stop):
                    raise Unsupported("the function ends where the language is detected")
                b = run(fn, tx, (l,), lambda s: s is a.stmt, [])
                if not isinstance(b, Stop):
                    P.check(f"{fn} with language {l} goes the same way", False, b)
                    return
                names = sorted(set(a.vars) | set(b.vars))
                later = {x.id for s in S.fn(fn).node.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(
                    x.ctx, ast.Load) and (s.lineno >= a.stmt.lineno or isinstance(s, (ast.FunctionDef, ast.Lambda)))}
                diff = [n for n in names if n in later and not same_value(a.vars.get(n, MISSING), b.vars.get(n, MISSING))]
                for n in diff:
                    if n != "language" or a.vars.get(n) is not None:
                        raise Unsupported(f"state after detection: {n}")
                P.check(f"{fn} uses the detected language [{l}]", not diff, diff)
                P.frame(fn)
                P.reached.add((fn, l))
            S.explore(path)
    P.check("every function detects every language", all((f, l) in P.reached for l in LANGS for f in (
        "parse", "parse_number", "parse_ordinal", "parse_fraction")), P.reached)


UNSUP = OpaqueClass("unsupported language", lambda n: True, facts={"raw": lambda x: x not in LANGS})


@theorem("C21", langs=None)
def unsupported(P, S, lang):
    """parse, parse_number and parse_ordinal raise ValueError for every other
    language code (parse_number: on texts that are neither blank nor numerals)."""
    A = anything()
    for f in ("parse", "parse_number", "parse_ordinal"):
        def path():
            tx = S.text(A, facts=dict(any=True, nonblank=None, decimal=None, nonempty=None))
            code = SStr(S.ctx.atom("language", Cof(UNSUP)))
            r = S.call(f, tx, code)
            tf = {q for (i, q, _), v in S.ctx.textfacts.items() if v and i == tx.seq.id}
            if f == "parse_number" and tf & {"blank", "empty", "isdecimal"}:
                return
            ok = r[0] == "exc" and r[1].cls is ValueError
            P.reached.add(f)
            P.check(f"{f} raises ValueError for an unsupported language", ok, r)
        S.explore(path)
    P.check("all three functions reach the refusal", len(P.reached) == 3, P.reached)


def split_styles(A):
    """re.split on a text whose tokens are described per tokenisation style."""
    def h(lib, s, style):
        for c in s.facts.get("removable", ()):
            if ("rm", c) not in s.ops:
                raise Unsupported(f"{c!r} not removed before splitting")
        if "strip" in s.ops:
            raise Unsupported("split of stripped text")
        return lib.ctx.list([TokSeg(s.facts["seqs"][style])])
    return h


@theorem("C07", "C18", langs=None)
def numerals(P, S, lang):
    """parse_number and parse_ordinal of a numeral, with blanks around it, is
    its integer value, in every language and without one."""
    W, H = P.auto(numeral("W")), P.auto(numeral("s"))
    for f in ("parse_number", "parse_ordinal"):
        for l in LANGS + [None]:
            def path():
                tx, ty = S.text(W, absent=APOS), S.text(H, absent=APOS)
                tx.facts.update(nonblank=True, decimal=True, nonempty=True, split=split_styles(W), seqs={"W": tx.seq, "s": ty.seq})
                ty.seq.same = tx.seq.id
                r = S.call(f, tx, l)
                ok = r[0] == "ret" and isinstance(r[1], SOp) and r[1].name == "int" and r[1].args[0] in (tx.seq.id, ty.seq.id)
                P.check(f"{f} of a numeral is its value [{l}]", ok, r)
                P.reached.add((f, l))
            S.explore(path)
    P.check("all calls return", len(P.reached) == 12, P.reached)


@theorem("C12", "C13", "C20", "C22", langs=None)
def detection(P, S, lang):
    """_valid_tokens_by_language (the function the public functions call when
    no language is given) returns the language whose vocabulary has most words
    of the text, the earliest of equals, English when there is none."""
    W = P.auto(counting(("en", "es", "ru", "uk"), "W"))
    H = P.auto(counting(("hi",), "s"))

    def path():
        tx, ty = S.text(W), S.text(H)
        tx.facts.update(any=True, nonblank=None, decimal=None, nonempty=None, removable=frozenset("\xad"),
                        split=split_styles(W), seqs={"W": tx.seq, "s": ty.seq})
        r = S.call("_valid_tokens_by_language", tx)
        P.frame("language detection")
        f1, f2 = final_of(S, tx), final_of(S, ty)
        if not f1 or not f2:
            P.check("every word of the text is looked at", False, (f1, f2))
            return
        n = {k[2:]: v for k, v in {**f1[1], **f2[1]}.items()}
        ok = r[0] == "ret" and r[1] in LANGS
        if ok:
            i = LANGS.index(r[1])
            best = z3.And([n[r[1]] > n[l] for l in LANGS[:i]] + [n[r[1]] >= n[l] for l in LANGS[i + 1:]])
            ok = S.ctx.valid(best)  # (all zero: the earliest of equals is English)
            P.reached.add(r[1])
        P.check(f"the detected language has most words: {r[1]}", ok, r)

    S.explore(path)
    P.check("every language can be detected", P.reached == set(LANGS), P.reached)


# -------------------------------------------------------------------- runner

def run_theorem(args):
    name, lang, pid, budget, repo = args[:5]
    end = args[5] if len(args) > 5 else time.time() + 2 * budget
    fn = next(f for n, l, f in REGISTRY[pid] if n == name and l == lang)
    left = lambda: (name, lang, pid, max(5, min(budget, end - time.time())), repo)
    out = run_one(fn, left())
    base = BASE.get((pid, name))
    if out["status"] == "refuted" and base is not None:
        b = run_one(base, left())
        out["baseline"] = b["status"]
        if b["status"] != "proved":
            out.update(status="undecided", reason="fails even without what the property is about: " + out["reason"])
    return out


BLANK_GUESS = "('empty',) after ()"  # the text between two words: "" or not


def run_one(fn, args):
    name, lang, pid, budget, repo = args
    t0 = time.time()
    out = dict(theorem=name, lang=lang, doc=(fn.__doc__ or "").strip())
    S = P = None
    try:
        S = getattr(fn, "session", Session)(repo=repo, budget=budget)
        P = Proof(S, pid)
        fn(P, S, lang)
        bad = [o for o in P.obs if not o[1]]
        if not P.obs:
            out.update(status="undecided", reason="no obligation was generated")
        elif not bad:
            out.update(status="proved")
        elif any(o[3] for o in bad):
            out.update(status="refuted", reason=bad[0][0])
        else:
            out.update(status="undecided", reason=f"not provable with the invariants found: {bad[0][0]}: {bad[0][2]}")
        out["failed"] = [dict(obligation=o[0], detail=o[2]) for o in bad[:8]]
    except InvariantFailed as e:
        out.update(status="refuted", reason=f"no invariant: {e}", failed=[dict(obligation=f"{name} [{lang}]", detail=str(e)[:3000])])
    except (Unsupported, SolverUnknown, SpecError) as e:
        out.update(status="undecided", reason=f"{type(e).__name__}: {e}" + (f" at {S.I.where}" if S else ""))
    except RecursionError:
        out.update(status="undecided", reason="recursion limit of the verifier")
    except Exception:
        out.update(status="undecided", reason="internal error: " + traceback.format_exc()[-4000:])
    if S is not None:
        # a question about opaque strings that is beyond the domains was
        # answered both ways: a failure does not show that the code is wrong
        odd = sorted(g for g in S.ctx.guesses if " after " in g and g != BLANK_GUESS)
        if odd and out["status"] == "refuted":
            out.update(status="undecided", reason=f"not provable where {odd[0]} is answered both ways: {out['reason']}")
        st = S.ctx.stats
        steps = sum(r["steps"] for r in S.I.driver.report.values())
        out.update(obligations=len(P.obs) + steps + P.spec if P else 0, posts=len(P.obs) if P else 0, inductive=steps,
                   spec=P.spec if P else 0, loops=S.I.driver.report, functions=sorted(S.I.covered), notes=sorted(S.ctx.notes), guesses=sorted(S.ctx.guesses),
                   solver_s=round(st.solver_s, 2), queries=st.queries, paths=st.paths)
    out["wall"] = round(time.time() - t0, 2)
    return out


def prove(pid, tier, repo=None, workers=None):
    jobs = REGISTRY.get(pid)
    if not jobs:
        return None
    budget = 500 if tier == "quick" else 650
    end = time.time() + 720  # a check has 900 s
    args = [(n, l, pid, budget, repo, end) for n, l, _ in jobs]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(len(args), workers or os.cpu_count() or 4), maxtasksperchild=1) as pool:
        res = pool.map(run_theorem, args, chunksize=1)
    st = "proved"
    reason = ""
    for r in res:
        if r["status"] == "refuted":
            st, reason = "refuted", r["reason"]
        elif r["status"] == "undecided" and st == "proved":
            st, reason = "undecided", f"{r['theorem']}[{r['lang']}]: {r['reason']}"
    fns = sorted({f for r in res for f in r.get("functions", [])})
    total = sum(r.get("obligations", 0) for r in res)
    good = sum(r.get("obligations", 0) - len(r.get("failed", [])) for r in res if r["status"] == "proved")
    return dict(status=st, reason=reason, obligations=total, discharged=total if st == "proved" else good,
                failed=[dict(theorem=r["theorem"], lang=r["lang"], **f) for r in res for f in r.get("failed", [])],
                functions=fns, theorems=res, solver_s=round(sum(r.get("solver_s", 0) for r in res), 2),
                back_end="z3 " + __import__("z3").get_version_string())


if __name__ == "__main__":
    for p in sys.argv[1:] or sorted(REGISTRY):
        r = prove(p, "quick")
        print(p, r["status"], r["obligations"], r["solver_s"], max(t["wall"] for t in r["theorems"]))
        for t in r["theorems"]:
            print("   ", t["theorem"], t["lang"], t["status"], t.get("reason", "")[-500:], t["wall"], t.get("posts"), t.get("inductive"))
            for f in t.get("failed", [])[:3]:
                print("        ", f)


from . import gen_obligations  # noqa: E402,F401  (the theorems about the data generator)
