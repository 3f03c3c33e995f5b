"""The bootstrap tokenizer against maximal munch.

Up to 4 patterns, each named or not, on texts of 0 or 1 characters, 3 on 2, 2 on
3, 1 on 4 (thorough: one more each, and 1 on 5); each character any of Unicode; what a pattern matches at a position is a symbolic length, 0 included, or
no match. Patterns are stand-ins that decide so.
"""
import z3
import engine
from engine import SInt, SBool, zint
import symstr
from symstr import SStr

STRINGS = True
B = None
DEEP = 0


def And(*x):
    return z3.simplify(z3.And(*x))


class Text:
    """The text to tokenize."""

    def __init__(self, p, n):
        self.n = n
        self.chars = [p.number(0, 0x10FFFF) for _ in range(n)]
        self.lengths = {}

    def length(self, p, rule, at):
        """What a pattern matches: -1 for nothing."""
        if (rule, at) not in self.lengths:
            self.lengths[rule, at] = p.var(-1, self.n - at)
        return self.lengths[rule, at]

    def part(self, lo, hi):
        """A part of it (a plain string when replaying)."""
        if engine.cur.inputs is not None:
            return "".join(map(chr, self.chars[lo:hi]))
        return Part(self, lo, hi)


def conc(x):
    return x if isinstance(x, int) else engine.cur.choose(zint(x))


class Part(SStr):
    """A part of the text, the end of which may be symbolic."""

    def __init__(self, text, lo, hi):
        self.text = text
        self.lo = lo
        self.hi = hi

    @property
    def e(self):
        return tuple(self.text.chars[self.lo:conc(self.hi)])

    def symbolic_len(self):
        v = z3.simplify(zint(self.hi) - self.lo)
        return v.as_long() if z3.is_int_value(v) else SInt(v)

    def __len__(self):
        return conc(self.hi) - self.lo

    def __bool__(self):
        return bool(self.symbolic_len() > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, step = slice(*(x if x is None else conc(x) for x in (i.start, i.stop, i.step))).indices(len(self))
            if step == 1:
                return Part(self.text, self.lo + a, self.lo + max(a, b))
        return SStr.__getitem__(self, i)

    def __eq__(self, o):
        if isinstance(o, Part) and self.lo == o.lo:
            return bool(self.symbolic_len() == o.symbolic_len())
        return SStr.__eq__(self, o)

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else SBool(z3.Not(r.c))

    __hash__ = SStr.__hash__


def equal(x, y):
    """Condition that two texts are the same."""
    r = x == y
    return r if isinstance(r, bool) else r.c


class Match:
    def __init__(self, part, at):
        self.part = part
        self.at = at

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise engine.Unsupported("a match's " + a)

    def group(self, *a):
        if a not in ((), (0,)):
            raise IndexError("no such group")
        return self.part

    def __getitem__(self, i):
        return self.group(i)

    def start(self, i=0):
        return self.at

    def end(self, i=0):
        return self.at + symstr.slen(self.part)

    def span(self, i=0):
        return self.start(), self.end()


class Pattern:
    """A stand-in for a compiled regular expression."""

    def __init__(self, p, text, k, other=None):
        self.p = p
        self.text = text
        self.k = k
        self.other = other

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        if self.other is not None and hasattr(self.other, a):
            return getattr(self.other, a)
        raise engine.Unsupported("a pattern's " + a)

    def match(self, s, pos=0):
        pos = conc(pos)
        n = self.text.n
        if isinstance(s, Part):
            assert conc(s.hi) == n, "patterns are tried on the rest of the text"
            at = s.lo + pos
        else:
            at = n - len(s) + pos
            rest = self.text.part(at, n)
            assert at >= 0 and equal(s[pos:], rest), "patterns are tried on the rest of the text"
        v = self.text.length(self.p, self.k, at)
        if self.p.fork(v < 0):
            return None
        v = z3.simplify(at + v)
        return Match(self.text.part(at, v.as_long() if z3.is_int_value(v) else v), pos)


def where(p, text, i):
    """Location of a position as the text says."""
    line = col = 1
    for k in range(i):
        if p.fork(text.chars[k] == 10):
            line, col = line + 1, 1
        else:
            col += 1
    return (line, col, i)


def h_tokenize(p):
    n = p.choice(5 + DEEP)
    most = max(1, 5 + DEEP - max(n, 1))
    decide(p, n, 1 + p.choice(most) if n > 1 else most)


def decide(p, n, rules):
    text = Text(p, n)
    named = [p.flag() for _ in range(rules)]
    given = [("R%d" % k if named[k] else None, Pattern(p, text, k)) for k in range(rules)]
    got = []
    raised = False
    try:
        for t in B.tokenize(given, text.part(0, n)):
            got.append(t)
            p.check(len(got) <= n + 1, "more tokens than characters")
    except ValueError:
        raised = True
    # What has to come out: walk through the text again.
    at = 0
    k = 0
    bad = False
    while at < n:
        l = [text.length(p, r, at) for r in range(rules)]
        best = None
        for r in range(rules):
            c = And(l[r] > 0, *[l[q] < l[r] for q in range(r)], *[l[q] <= l[r] for q in range(r + 1, rules)])
            if p.fork(c):
                best = r
                break
        if best is None:
            bad = True
            at += 1
            p.cover("skipped")
            continue
        if not named[best]:
            at += p.choose(l[best])
            p.cover("dropped")
            continue
        p.check(k < len(got), "a token is missing")
        t = got[k]
        end = at + p.choose(l[best])
        p.check(t.name == "R%d" % best, "another token than the first of the longest")
        p.check(equal(t.text, text.part(at, end)), "a token with other text than what was matched")
        p.check(tuple(t.span.a) == where(p, text, at), "a token that does not start where its text does")
        p.check(tuple(t.span.b) == where(p, text, end), "a token that does not end where its text does")
        p.observe((t.name, tuple(t.span.a), tuple(t.span.b)))
        k += 1
        at = end
        p.cover("token")
    p.check(k == len(got) - 1, "not exactly the tokens of the text and an end")
    t = got[k]
    end = where(p, text, n)
    p.check(t.name == "EOF" and t.text == "" and tuple(t.span.a) == end and tuple(t.span.b) == end, "the last token is not the end of the text")
    p.check(raised == bad, "text without a token was not reported, or was although there is none")
    p.observe(raised)


ENTRIES = [h_tokenize]
