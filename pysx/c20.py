"""The bootstrap parser's combinators against the language they denote.

Expressions: every nesting of 3 (thorough: 4) of the 9 constructs in every
argument place, every pair of constructs below a sequence, an alternative, or a
rule of one or two options, and 6 recursive grammars; terminals with symbolic
names out of 3; inputs of 0 to 3 tokens (recursive grammars: 5, thorough: 7)
with symbolic names out of 4, followed by EOF. Repetitions of something that
matches nothing, and left recursion, are left out: they do not terminate.
"""
import z3
import engine
from engine import Name, is_name, name

NAMES = ["A", "B", "C", "D"]
B = None  # The module under test.
DEEP = 0


def And(*x):
    return z3.simplify(z3.And(*x))


def Or(*x):
    return z3.simplify(z3.Or(*x))


def Not(x):
    return z3.simplify(z3.Not(x))


TRUE = z3.BoolVal(True)


class World:
    """Tokens, and what an expression has to do with them."""

    def __init__(self, p, n, names=NAMES):
        self.p = p
        self.n = n
        self.names = [name(names) for _ in range(n)]
        self.tokens = []
        loc = B.Loc(1, 1, 0)
        for k in range(n):
            text = "%d%s" % (k, "\n" if k % 2 else "x")
            end = loc.advance(text)
            self.tokens.append(B.Token(self.names[k], text, B.Span(loc, end)))
            loc = end
        self.tokens.append(B.Token("EOF", "", B.Span(loc, loc)))
        self.diverges = []
        self.memo = {}

    def match(self, e, pos):
        """{(end, tree): condition}, all of them exclusive."""
        key = (id(e), pos)
        if key not in self.memo:
            self.memo[key] = (e, self._match(e, pos))
        return self.memo[key][1]

    def ok(self, e, pos):
        return Or(*self.match(e, pos).values())

    def _match(self, e, pos):
        k, a = e[0], e[1:]
        out = {}

        def add(end, tree, c):
            c = z3.simplify(c)
            if z3.is_false(c):
                return
            out[end, tree] = Or(out[end, tree], c) if (end, tree) in out else c

        if k == "term":
            if pos < self.n:
                add(pos + 1, (pos,), is_name(self.names[pos], a[0]))
        elif k == "maybe":
            for (end, t), c in self.match(a[0], pos).items():
                add(end, t, c)
            add(pos, (), Not(self.ok(a[0], pos)))
        elif k == "any":
            for (end, t), c in self.match(a[0], pos).items():
                if end == pos:
                    self.diverges.append(c)
                    continue
                for (end2, t2), c2 in self.match(e, end).items():
                    add(end2, t + t2, And(c, c2))
            add(pos, (), Not(self.ok(a[0], pos)))
        elif k == "many":
            return self.match(("concat", a[0], ("any", a[0])), pos)
        elif k == "concat":
            cur = {(pos, ()): TRUE}
            for x in a:
                new = {}
                for (p, t), c in cur.items():
                    for (end, t2), c2 in self.match(x, p).items():
                        q = And(c, c2)
                        if not z3.is_false(q):
                            new[end, t + t2] = Or(new.get((end, t + t2), z3.BoolVal(False)), q)
                cur = new
            return cur
        elif k == "alter":
            none = TRUE
            for x in a:
                for (end, t), c in self.match(x, pos).items():
                    add(end, t, And(none, c))
                none = And(none, Not(self.ok(x, pos)))
        elif k == "named":
            for (end, t), c in self.match(a[1], pos).items():
                add(end, ((a[0], t),), c)
        elif k == "rule":
            r = a[0]
            if len(r.options) == 1:
                return self.match(("named", r.name, r.options[0][1]), pos)
            return self.match(("alter", *(("named", r.name + "." + o, x) for o, x in r.options)), pos)
        else:
            assert False
        return out


class Rule:
    """What stands for a Parser object of the tool."""

    def __init__(self, name):
        self.name = name
        self.real = B.Parser(name)
        self.options = []

    def opt(self, name, *parts):
        """An option of several parts, in sequence."""
        self.options.append((name, parts[0] if len(parts) == 1 else ("concat", *parts)))
        self.real.define_opt(name, *(build(x) for x in parts))

    def one(self, *parts):
        self.options.append(("", parts[0] if len(parts) == 1 else ("concat", *parts)))
        self.real.define_one(*(build(x) for x in parts))


def build(e):
    pf = B.ParserFactory()
    k, a = e[0], e[1:]
    if k == "term":
        return pf.term(a[0])
    if k == "maybe":
        return pf.maybe(build(a[0]))
    if k == "any":
        return pf.any(build(a[0]))
    if k == "many":
        return pf.many(build(a[0]))
    if k == "concat":
        return pf.concat(*map(build, a))
    if k == "alter":
        return pf.alter(*map(build, a))
    if k == "named":
        return pf.named(a[0], build(a[1]))
    return a[0].real


def shape(w, p, nodes, label=str):
    """The tree as nested tuples; spans and terminals are checked on the way."""
    out = []
    for x in nodes:
        if x.name == "FLAT":
            out += shape(w, p, x.data, label)
        elif x.is_terminal():
            i = [k for k in range(w.n) if w.tokens[k].text == x.data]
            p.check(len(i) == 1, "the tree lists a terminal that is not one of the tokens")
            t = w.tokens[i[0]]
            p.check(x.span == t.span, "a terminal has the span of another token")
            p.check(is_name(x.name, t.name), "a terminal has the name of another token")
            out.append(i[0])
        else:
            sub = shape(w, p, x.data, label)
            at = leaves(sub)
            if at:
                p.check(x.span == B.Span(w.tokens[at[0]].span.a, w.tokens[at[-1]].span.b), "a node does not span its tokens")
            out.append((label(x.name), tuple(sub)))
    return out


def leaves(t):
    r = []
    for x in t:
        r += [x] if isinstance(x, int) else leaves(x[1])
    return r


def decide(p, w, e, run, pos=0):
    want = w.match(e, pos)
    for c in w.diverges:
        p.assume(Not(c))
    given = w.tokens[pos:]
    before = list(given)
    node, rest = run(given)
    p.check(len(given) == len(before) and all(a is b for a, b in zip(given, before)), "the tokens passed in were changed")
    rest = list(rest)
    end = len(w.tokens) - len(rest)
    if node.is_error():
        p.check(end == pos and all(a is b for a, b in zip(rest, given)), "a failure consumed tokens")
        p.check(Not(Or(*want.values())), "refused what the expression matches")
        p.cover("refused")
        p.observe("refused")
        return
    p.check(pos <= end <= w.n, "consumed more tokens than there are")
    p.check(all(a is b for a, b in zip(rest, w.tokens[end:])), "other tokens left over than those that follow")
    t = tuple(shape(w, p, [node]))
    p.observe((end, repr(t)))
    p.check(leaves(t) == list(range(pos, end)), "the tree does not list the tokens consumed, in order")
    p.check(want.get((end, t), False), "matched otherwise than the expression denotes")
    p.cover("matched")


OPS = ["maybe", "any", "many", "concat", "alter", "named", "rule1", "rule2", "concat3", "alter3"]
ARITY = {"concat": 2, "alter": 2, "rule2": 2, "concat3": 3, "alter3": 3}


def leaf():
    return ("term", name(NAMES[:3]))


def make(p, k, kids):
    if k in ("concat3", "alter3"):
        return (k[:-1], *kids)
    if k == "named":
        return ("named", "N%d" % p.choice(2), kids[0])
    if k == "rule1":
        r = Rule("R")
        r.one(kids[0])
        return ("rule", r)
    if k == "rule2":
        r = Rule("S")
        r.opt("x", kids[0])
        r.opt("y", kids[1], leaf())
        return ("rule", r)
    return (k, *kids)


def spine(p, depth):
    if depth == 0:
        return leaf()
    k = OPS[p.choice(len(OPS))]
    n = ARITY.get(k, 1)
    at = p.choice(n) if n > 1 else 0
    return make(p, k, [spine(p, depth - 1) if i == at else leaf() for i in range(n)])


def h_spine(p):
    e = spine(p, 2)
    w = World(p, p.choice(4 + DEEP))
    decide(p, w, e, build(e))


def h_spine_deep(p):
    e = spine(p, 3)
    w = World(p, 1 + p.choice(1 + DEEP))
    decide(p, w, e, build(e))


def h_pairs(p):
    k = ["concat", "alter", "rule2"][p.choice(3)]
    small = ["maybe", "any", "many", "concat", "alter", "named", "rule1"]
    kids = []
    for _ in range(2):
        o = small[p.choice(len(small))]
        kids.append(make(p, o, [leaf() for _ in range(ARITY.get(o, 1))]))
    e = make(p, k, kids)
    w = World(p, p.choice(3 + DEEP))
    decide(p, w, e, build(e))


def T(s):
    return ("term", s)


def grammar(k):
    r = Rule("R")
    x = ("rule", r)
    if k == 0:  # Nested parentheses.
        r.opt("nest", T("A"), ("any", x), T("B"))
        r.opt("atom", T("C"))
    elif k == 1:  # Right-recursive list.
        r.one(T("A"), ("maybe", ("concat", T("B"), x)))
    elif k == 2:  # Expressions: two rules.
        s = Rule("S")
        y = ("rule", s)
        r.one(y, ("any", ("concat", T("B"), y)))
        s.opt("a", T("A"))
        s.opt("c", T("C"), x, T("C"))
        s.opt("cc", T("C"), T("B"))
    elif k == 3:  # Alternatives sharing a beginning.
        r.opt("long", T("A"), T("B"), ("maybe", x))
        r.opt("short", T("A"), ("maybe", x))
        r.opt("c", ("many", T("C")))
    elif k == 4:  # Rules that may match nothing.
        s = Rule("S")
        s.one(("maybe", T("B")))
        r.one(T("A"), ("rule", s), ("maybe", x), T("C"))
    else:  # Options of repetitions.
        s = Rule("S")
        s.opt("x", ("many", T("A")), T("B"))
        s.opt("y", ("any", T("A")), T("C"))
        r.one(("many", ("rule", s)), ("maybe", ("named", "N", T("A"))))
    return r


GRAMMARS = 6


def h_recursive(p):
    r = grammar(p.choice(GRAMMARS))
    w = World(p, p.choice(6 + 2 * DEEP))
    decide(p, w, ("rule", r), r.real)


def parsed(p, w, r):
    """A complete parse: everything or nothing."""
    want = w.match(("rule", r), 0)
    for c in w.diverges:
        p.assume(Not(c))
    given = list(w.tokens)
    full = Or(*[c for (end, _), c in want.items() if end == w.n])
    try:
        node = r.real.parse(given)
    except ValueError:
        p.check(Not(full), "refused an input that the rule matches to its end")
        p.cover("refused")
        p.observe("refused")
        return
    t = tuple(shape(w, p, [node]))
    p.observe(repr(t))
    p.check(full, "accepted an input that the rule does not match to its end")
    p.check(want.get((w.n, t), False), "gave another tree than the one matched")
    p.cover("accepted")


def h_parse(p):
    if p.flag():
        r = grammar(p.choice(GRAMMARS))
        n = p.choice(5 + DEEP)
    else:
        r = Rule("R")
        if p.flag():
            r.one(spine(p, 1), spine(p, 1))
        else:
            r.opt("x", spine(p, 1))
            r.opt("y", spine(p, 1), leaf())
        n = p.choice(3 + DEEP)
    w = World(p, n)
    parsed(p, w, r)


def h_again(p):
    """The same parser object on another input, and again."""
    if p.flag():
        r = grammar(p.choice(GRAMMARS))
        e, run = ("rule", r), r.real
    else:
        e = spine(p, 1)
        run = build(e)
    w1 = World(p, p.choice(3))
    w2 = World(p, p.choice(3))
    for w in (w1, w2, w1):
        decide(p, w, e, run)


def h_misuse(p):
    r = B.Parser("R")
    w = World(p, p.choice(2))
    try:
        r(w.tokens)
    except ValueError:
        p.cover("undefined")
    else:
        p.check(False, "a rule without definitions was used")
    # It can still be defined, then used; but not defined any more after use.
    r = B.Parser("R")
    r.define_one(B.ParserFactory().term("A"))
    r(w.tokens)
    try:
        if p.flag():
            r.define_one(B.ParserFactory().term("B"))
        else:
            r.define_opt("b", B.ParserFactory().term("B"))
    except ValueError:
        p.cover("late")
    else:
        node, rest = r(w.tokens)
        # If it is accepted, it has to take effect.
        p.check(node.is_error() == (not (w.n > 0 and w.names[0] in ("A", "B"))), "a late definition was ignored")


ENTRIES = [h_spine, h_spine_deep, h_pairs, h_recursive, h_parse, h_again, h_misuse]
