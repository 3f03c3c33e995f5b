"""A model of Python's regular expressions on symbolic patterns and texts.

A pattern (string of symbolic characters) is parsed into a tree; case splits
decide which of its characters have a meaning. What a tree matches first on a
symbolic text (Python's order of preference) is a term for the solver.

  ("set", inverted, [(lo, hi) or (category, inverted)...])  one character
  ("cat", [...]) ("alt", [...]) ("rep", x, min, max or None, greedy)
"""
import re
import z3
import engine
from engine import zint
from symstr import SStr

META = ".^$*+?{}[]\\|()"
error = re.error


from engine import Unsupported


CATEGORIES = {c: z3.Function("cat_" + c, z3.IntSort(), z3.BoolSort()) for c in "sdw"}


def special(c, chars, want=None):
    """The plain character out of `chars` that this is, or None."""
    if isinstance(c, int):
        return chr(c) if chr(c) in chars else None
    if not engine.cur.fork(z3.Or(*[c == ord(x) for x in chars])):
        return None
    return chr(engine.cur.choose(c))


ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


class Parse:
    def __init__(self, s, flags):
        self.e = SStr.of(s).e
        self.i = 0
        self.flags = flags
        if flags & ~(re.DOTALL | re.UNICODE | re.MULTILINE):
            raise Unsupported("flags %s" % flags)

    def peek(self, chars=META):
        return special(self.e[self.i], chars) if self.i < len(self.e) else None

    def at(self, s):
        """Whether plain text stands here."""
        if self.i + len(s) > len(self.e):
            return False
        return all(special(c, x) for c, x in zip(self.e[self.i:], s))

    def alt(self):
        xs = [self.cat()]
        while self.peek("|"):
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def cat(self):
        xs = []
        while self.i < len(self.e) and not self.peek("|)"):
            xs.append(self.piece())
        return xs[0] if len(xs) == 1 else ("cat", xs)

    def number(self):
        s = ""
        while self.i < len(self.e):
            c = special(self.e[self.i], "0123456789")
            if c is None:
                break
            s += c
            self.i += 1
        return int(s) if s else None

    def quantifier(self):
        c = self.peek("*+?{")
        if c is None:
            return None
        if c == "{":
            at = self.i
            self.i += 1
            if self.peek("}"):
                self.i = at
                return None
            lo = self.number()
            hi = lo
            if self.peek(","):
                self.i += 1
                hi = self.number()
                if lo is None and hi is None and not self.peek("}"):
                    self.i = at
                    return None
            elif lo is None:
                self.i = at
                return None
            if not self.peek("}"):
                self.i = at
                return None
            self.i += 1
            return lo or 0, hi
        self.i += 1
        return {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]

    def piece(self):
        x, q = self.atom()
        first = True
        while True:
            m = self.quantifier()
            if m is None:
                return x
            if not first or not q:
                raise error("multiple repeat" if not first else "nothing to repeat")
            first = False
            greedy = True
            if self.peek("?"):
                self.i += 1
                greedy = False
            elif self.peek("+"):
                raise Unsupported("possessive repetition")
            x = ("rep", x, m[0], m[1], greedy)

    def dot(self, flags):
        return ("set", False, [(0, 0x10FFFF)]) if flags & re.DOTALL else ("set", True, [(10, 10)])

    def atom(self):
        c = self.peek()
        if c is None or c in "]}{":
            c = self.e[self.i]
            self.i += 1
            return ("set", False, [(c, c)]), True
        self.i += 1
        if c == ".":
            return self.dot(self.flags), True
        if c == "[":
            return self.set(), True
        if c == "\\":
            return ("set", False, [self.escape()]), True
        if c == "(":
            flags = self.flags
            if self.peek("?"):
                if self.at("?:"):
                    self.i += 2
                elif self.at("?s:"):
                    self.i += 3
                    self.flags |= re.DOTALL
                elif self.at("?-s:"):
                    self.i += 4
                    self.flags &= ~re.DOTALL
                elif self.at("?!)"):
                    # Nothing at all.
                    self.i += 3
                    return ("set", False, []), True
                else:
                    raise Unsupported("group")
            x = self.alt()
            if not self.peek(")"):
                raise error("missing )")
            self.i += 1
            self.flags = flags
            return x, True
        if c in "*+?":
            raise error("nothing to repeat")
        if c == ")":
            raise error("unbalanced parenthesis")
        raise Unsupported(c)

    def escape(self):
        if self.i == len(self.e):
            raise error("bad escape (end of pattern)")
        c = special(self.e[self.i], ALNUM)
        if c is None:
            c = self.e[self.i]
            self.i += 1
            return (c, c)
        self.i += 1
        if c in "sdwSDW":
            return (c.lower(), c.isupper())
        simple = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "a": 7}
        if c in simple:
            return (simple[c], simple[c])
        if c in "xuU":
            v = 0
            for _ in range({"x": 2, "u": 4, "U": 8}[c]):
                d = special(self.e[self.i], "0123456789abcdefABCDEF") if self.i < len(self.e) else None
                if d is None:
                    raise error("incomplete escape")
                v = v * 16 + int(d, 16)
                self.i += 1
            return (v, v)
        if c in "0123456789bBAZ":
            raise Unsupported("\\" + c)
        raise error("bad escape \\" + c)

    def set(self):
        inverted = False
        if self.peek("^"):
            self.i += 1
            inverted = True
        items = []
        first = True
        while True:
            if self.i == len(self.e):
                raise error("unterminated character set")
            if self.peek("]") and not first:
                self.i += 1
                return ("set", inverted, items)
            first = False
            a = self.member()
            if self.peek("-"):
                self.i += 1
                if self.i == len(self.e):
                    raise error("unterminated character set")
                if self.peek("]"):
                    items += [a, (45, 45)]
                    continue
                b = self.member()
                if isinstance(a[0], str) or isinstance(b[0], str):
                    raise error("bad character range")
                bad = zint(a[0]) > zint(b[0])
                if engine.cur.fork(bad):
                    raise error("bad character range")
                items.append((a[0], b[0]))
            else:
                items.append(a)

    def member(self):
        if self.peek("\\"):
            self.i += 1
            return self.escape()
        c = self.e[self.i]
        self.i += 1
        return (c, c)


def parse(s, flags=0):
    p = Parse(s, int(flags) & ~re.UNICODE.value)
    x = p.alt()
    if p.i != len(p.e):
        raise error("unbalanced parenthesis")
    return x


def is_in(c, x):
    """Condition that a character is in a set."""
    _, inverted, items = x
    cs = []
    for a, b in items:
        if isinstance(a, str):
            t = CATEGORIES[a](zint(c))
            cs.append(z3.Not(t) if b else t)
        else:
            cs.append(z3.And(zint(a) <= zint(c), zint(c) <= zint(b)))
    r = z3.Or(*cs) if cs else z3.BoolVal(False)
    return z3.Not(r) if inverted else r


def first_end(x, text):
    """Where a match from the start of a text ends, or -1."""
    n = len(text)
    no = z3.IntVal(-1)

    def both(a, b):
        if z3.is_int_value(a):
            return b if a.as_long() < 0 else a
        if z3.is_int_value(b) and b.as_long() < 0:
            return a
        return z3.If(a >= 0, a, b)

    def m(x, i, k):
        t = x[0]
        if t == "set":
            if i == n:
                return no
            c = z3.simplify(is_in(text[i], x))
            if z3.is_false(c):
                return no
            r = k(i + 1)
            return r if z3.is_true(c) else z3.If(c, r, no)
        if t == "end":
            return k(i) if i == n else no
        if t == "cat":
            def go(j, i):
                return k(i) if j == len(x[1]) else m(x[1][j], i, lambda e: go(j + 1, e))
            return go(0, i)
        if t == "alt":
            r = no
            for y in reversed(x[1]):
                r = both(m(y, i, k), r)
            return r
        _, y, lo, hi, greedy = x

        def loop(i, done, last):
            stop = k(i) if done >= lo else no
            # No more after something empty.
            if (hi is not None and done >= hi) or (done >= lo and i == last):
                return stop
            more = m(y, i, lambda e: loop(e, done + 1, i))
            return both(more, stop) if greedy else both(stop, more)
        return loop(i, 0, None)
    return m(x, 0, lambda i: z3.IntVal(i))


class Compiled:
    """What re.compile gives in the module under test."""

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = flags
        self.real = re.compile(pattern, flags) if isinstance(pattern, str) else None
        self._tree = None

    @property
    def tree(self):
        if self._tree is None:
            self._tree = parse(self.pattern, self.flags)
        return self._tree

    def end(self, text):
        """Where the first match on a list of code points ends."""
        if self.real and engine.cur.inputs is not None:
            m = self.real.match("".join(map(chr, text)))
            return z3.IntVal(m.end() if m else -1)
        return first_end(self.tree, text)

    def fullmatch(self, s, pos=0):
        if self.real and isinstance(s, str):
            return self.real.fullmatch(s, pos)
        # The text must end where the match does.
        e = list(SStr.of(s).e[pos:])
        t = ("cat", [self.tree, ("end",)])
        n = engine.cur.choose(z3.simplify(first_end(t, e)))
        return Match(SStr.make(e[:n]), pos) if n >= 0 else None

    def search(self, s, pos=0):
        if self.real and isinstance(s, str):
            return self.real.search(s, pos)
        for i in range(pos, len(s) + 1):
            m = self.match(s, i)
            if m:
                return m
        return None

    def finditer(self, s):
        if self.real and isinstance(s, str):
            return self.real.finditer(s)
        at, out, empty = 0, [], False
        while at <= len(s):
            m = self.search(s, at)
            if m is None:
                break
            out.append(m)
            if m.end() == m.start():
                raise Unsupported("empty matches")
            at = m.end()
        return iter(out)

    def findall(self, s):
        return [m.group() for m in self.finditer(s)]

    def sub(self, new, s, count=0):
        if self.real and isinstance(s, str):
            return self.real.sub(new, s, count)
        out, at = (), 0
        for m in self.finditer(s):
            if count and count <= 0:
                break
            out += SStr.of(s).e[at:m.start()]
            out += SStr.of(new(m) if callable(new) else template(new, m)).e
            at = m.end()
        return SStr.make(out + SStr.of(s).e[at:])

    def match(self, s, pos=0):
        """A match on a string of symbolic characters."""
        if self.real and isinstance(s, str):
            return self.real.match(s, pos)
        e = SStr.of(s).e[pos:]
        n = engine.cur.choose(z3.simplify(first_end(self.tree, list(e))))
        return Match(SStr.make(e[:n]), pos) if n >= 0 else None


class Match:
    def __init__(self, s, pos):
        self.s = s
        self.pos = pos

    def group(self, *a):
        if a not in ((), (0,)):
            raise Unsupported("group")
        return self.s

    def __getitem__(self, i):
        return self.group(i)

    def start(self, i=0):
        return self.pos

    def end(self, i=0):
        return self.pos + len(self.s)

    def span(self, i=0):
        return self.start(), self.end()


def template(new, m):
    """A replacement text."""
    if not isinstance(new, str):
        raise Unsupported("template")
    out, i = (), 0
    while i < len(new):
        if new.startswith("\\g<0>", i):
            out += SStr.of(m.group()).e
            i += 5
        elif new.startswith("\\\\", i):
            out += (92,)
            i += 2
        elif new[i] == "\\":
            raise Unsupported("template")
        else:
            out += (ord(new[i]),)
            i += 1
    return SStr.make(out)


class Re:
    """Stands for the module re."""

    def match(self, pattern, s, flags=0):
        return Compiled(pattern, flags).match(s)

    def fullmatch(self, pattern, s, flags=0):
        return Compiled(pattern, flags).fullmatch(s)

    def search(self, pattern, s, flags=0):
        return Compiled(pattern, flags).search(s)

    def sub(self, pattern, new, s, count=0, flags=0):
        return Compiled(pattern, flags).sub(new, s, count)

    def findall(self, pattern, s, flags=0):
        return Compiled(pattern, flags).findall(s)

    def finditer(self, pattern, s, flags=0):
        return Compiled(pattern, flags).finditer(s)

    def compile(self, pattern, flags=0):
        c = Compiled(pattern, flags)
        if c.real is None:
            c.tree
        return c

    def escape(self, s):
        out = ()
        for c in SStr.of(s).e:
            if special(c, "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"):
                out += (92,)
            out += (c,)
        return SStr.make(out)

    def __getattr__(self, a):
        return getattr(re, a)
