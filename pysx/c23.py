"""Grammars of the bootstrap tool: the parser and the tokenizer made from them.

Grammars of 2 or 3 rules with 1 or 2 alternatives each, together or in separate
definitions, named or not; bodies that nest every construct 1 (thorough: 2) deep
in every place over references to tokens, literals and rules, and 3 recursive
grammars; inputs of up to 2 (recursive: 4) tokens with symbolic names. Up to 4
tokens, fragments and literals defined in symbolic order, used or not, on texts
of up to 2 characters with symbolic match lengths. Two literals out of 10, and
texts of up to 2 (3) characters of Unicode, through the real patterns.
"""
import z3
import engine
import c20
import c21
import rx
from c20 import And, Or, Not, World, shape, leaves
import symstr
from symstr import SStr
from c22 import node, leaf, rep, nested, alternation, token_rule, E, one
import c22

STRINGS = True
B = None
DEEP = 0


def start():
    c20.B = c21.B = c22.B = B


def ref(name, e):
    return E(node("Singular.Symbol", leaf("Symbol", name)), e)


def lit(text, e):
    return E(node("Singular.StringLiteral", leaf("StringLiteral", "'%s'" % text)), e)


class G:
    """A grammar under construction."""

    def __init__(self, p, conv):
        self.p = p
        self.conv = conv
        self.rules = {}
        self.nodes = []
        self.named = set()

    def rule(self, name):
        """What stands for a rule, options to be filled in."""
        if name not in self.rules:
            r = c20.Rule.__new__(c20.Rule)
            r.name = self.conv(name)
            r.options = []
            self.rules[name] = r
        return ref(name, ("rule", self.rules[name]))

    def define(self, name, alters, doc=False):
        """alters: [(variant name or None, [(node, expression) ...])]."""
        kids = []
        self.rule(name)
        for k, (variant, body) in enumerate(alters):
            d = [leaf("Doc", "/** Text. */")] if doc else []
            parts = d + [leaf("ColColEq", "::=") if k == 0 else leaf("Bar", "|")]
            parts.append(node("Concatenation", *[x[0] for x in body]))
            if variant:
                parts.append(node("AlterName", leaf("MinGt", "->"), leaf("Symbol", variant)))
                self.named.add("%s.%s" % (self.conv(name), self.conv(variant)))
            kids.append(node("FirstAlter" if k == 0 else "SubseqAlter", *parts))
            e = [x[1] for x in body]
            self.rules[name].options.append((self.conv(variant) if variant else "*", e[0] if len(e) == 1 else ("concat", *e)))
        d = [leaf("Doc", "/**\n * Text.\n */")] if doc else []
        self.nodes.append(node("Rule.GrammarRule", *d, leaf("Symbol", name), *kids, leaf("Sem", ";")))

    def label(self, name):
        """Names of alternatives that have none are left open."""
        name = str(name)
        if "." in name and name not in self.named:
            return name.split(".")[0] + ".*"
        return name


def mode(x, m):
    """A repetition: its node, and what it matches."""
    n, _ = rep(x, m)
    return n, {"": x.tree, "?": ("maybe", x.tree), "*": ("any", x.tree), "+": ("many", x.tree)}[m]


def group(*alts):
    """(a b | c) of repetitions."""
    n, _ = alternation(*[[(x[0], None) for x in a] for a in alts])
    es = [a[0][1] if len(a) == 1 else ("concat", *[x[1] for x in a]) for a in alts]
    return E(node("Singular.Nested", leaf("Lp", "("), n, leaf("Rp", ")")), es[0] if len(es) == 1 else ("alter", *es))


MODES = ["", "?", "*", "+"]


def atom(p, g):
    """A token or a literal."""
    k = p.choice(3)
    if k == 2:
        return lit("+", ("term", g.conv("pls")))
    n = ["ta", "tb"][k]
    return ref(n, ("term", g.conv(n)))


def body(p, g, depth, other):
    """Any construct, nested."""
    if depth == 0:
        if other and p.flag():
            return g.rule(other)
        return atom(p, g)
    x = mode(body(p, g, depth - 1, other), MODES[p.choice(4)])
    k = p.choice(3)
    if k == 0:
        return group([x])
    y = mode(atom(p, g), "")
    xs = [x, y] if p.flag() else [y, x]
    return group(xs) if k == 1 else group(*[[z] for z in xs])


def tokens_of(p, g):
    """The token rules and the whitespace."""
    t = lambda n, s: token_rule(n, alternation([rep(lit(s, one(ord(s))), "")]))
    return [t("ta", "a"), t("tb", "b"), t("_", " ")]


def load(p, g, rules):
    B.re = rx.Re()
    return B.AstGrammar(node("Grammar", *rules), g.conv)


def names_of(g):
    return [g.conv("ta"), g.conv("tb"), g.conv("pls"), "Other"]


CONV = [lambda x: x, lambda x: x.upper()]


def parses(p, g, a, w, top, name=None):
    """A complete parse: everything or nothing, and the tree it denotes."""
    e = ("rule", g.rules[top])
    want = w.match(e, 0)
    for c in w.diverges:
        p.assume(Not(c))
    full = Or(*[c for (end, _), c in want.items() if end == w.n])
    given = list(w.tokens)
    try:
        n = a.parse(given, name) if name is not None else a.parse(given)
    except ValueError:
        p.check(Not(full), "refused what the grammar matches")
        p.cover("refused")
        p.observe("refused")
        return
    t = tuple(shape(w, p, [n], g.label))
    p.observe(repr(t))
    p.check(full, "accepted what the grammar does not match")
    p.check(leaves(t) == list(range(w.n)), "the tree does not list the tokens, in order")
    p.check(want.get((w.n, t), False), "gave another tree than the one the grammar denotes")
    p.cover("accepted")


def h_bodies(p):
    start()
    g = G(p, CONV[1])
    x = mode(body(p, g, 1 + DEEP, "h"), MODES[p.choice(4)])
    g.define("g", [(None, [x])])
    g.define("h", [(None, [mode(atom(p, g), "")])])
    a = load(p, g, g.nodes + tokens_of(p, g))
    n = p.choice(4)
    if n == 3:
        return tokens(p, g, a)
    w = World(p, n, names_of(g))
    parses(p, g, a, w, "g")


def h_groups(p):
    """Grouped alternatives of different sizes, which may begin alike."""
    start()
    g = G(p, CONV[0])
    T = lambda n: mode(ref(n, ("term", n)), "")
    alts = [[T(["ta", "tb"][p.choice(2)]) for _ in range(1 + p.choice(2 + (DEEP and not k)))] for k in range(2)]
    x = mode(group(*alts), MODES[p.choice(4)])
    after = p.choice(3)
    xs = [x] + [mode(ref("tb", ("term", "tb")), "?" if after == 1 else "")] * (after > 0)
    g.define("g", [(None, xs)])
    a = load(p, g, g.nodes + tokens_of(p, g))
    w = World(p, p.choice(4 + DEEP), ["ta", "tb"])
    parses(p, g, a, w, "g")


def used_in(n, found):
    """The names of tokens that grammar rules refer to."""
    if isinstance(n.data, str):
        if n.name == "Symbol" or n.name == "StringLiteral":
            found.add(n.data)
        return
    for c in n.data:
        used_in(c, found)


def tokens(p, g, a):
    """What the grammar uses are the tokens, wherever it uses it."""
    found = set()
    for n in g.nodes:
        used_in(n, found)
    c = p.number(0, 0x10FFFF)
    try:
        got = [t.name for t in a.tokenize(SStr.make([c]))]
    except ValueError:
        got = None
    p.observe(got)
    want = None
    for n, s, name in (("ta", "a", g.conv("ta")), ("tb", "b", g.conv("tb")), ("'+'", "+", g.conv("pls"))):
        if n in found and p.fork(symstr.same(c, ord(s))):
            want = [name, "EOF"]
    if want is None and p.fork(symstr.same(c, 32)):
        want = ["EOF"]
    p.check(got == want, "other tokens than those that the grammar uses")
    p.cover("tokens")


def h_alternatives(p):
    """Alternatives in one definition or several, named or not."""
    start()
    g = G(p, CONV[0])
    how = p.choice(3)
    named = p.choice(3)
    alters = []
    for k in range(3 if how == 2 else 2):
        parts = [mode(atom(p, g), ["", "?"][p.choice(2)] if k == 0 else "")]
        if k == 1 and p.flag():
            parts.append(mode(g.rule("h"), ""))
        alters.append(("v%d" % k if named > k % 2 else None, parts))
    top = p.flag()
    g.rule("top")
    if top:
        g.define("top", [(None, [mode(g.rule("g"), "+")])])
    if how == 0:
        g.define("g", alters, doc=p.flag())
        g.define("h", [(None, [mode(ref("ta", ("term", "ta")), "")])])
    elif how == 1:
        g.define("g", alters[:1])
        g.define("h", [(None, [mode(ref("ta", ("term", "ta")), "")])])
        g.define("g", alters[1:])
    else:
        g.define("h", [(None, [mode(ref("ta", ("term", "ta")), "")])])
        g.define("g", alters[:1])
        g.define("g", alters[1:])
    a = load(p, g, tokens_of(p, g) + g.nodes)
    w = World(p, p.choice(3), names_of(g))
    if not top:
        # The rule defined first is where parsing starts.
        parses(p, g, a, w, "h" if how == 2 else "g")
    elif p.flag():
        parses(p, g, a, w, "top")
    else:
        parses(p, g, a, w, "g", g.conv("g"))


def h_recursive(p):
    start()
    g = G(p, CONV[p.choice(2)])
    T = lambda n: mode(ref(n, ("term", g.conv(n))), "")
    plus = mode(lit("+", ("term", g.conv("pls"))), "")
    k = p.choice(3)
    if k == 0:
        g.define("g", [("pair", [T("ta"), mode(g.rule("g"), "*"), T("tb")]), (None, [plus])])
    elif k == 1:
        g.define("g", [(None, [mode(g.rule("h"), ""), mode(group([plus, mode(g.rule("h"), "")]), "*")])])
        g.define("h", [("a", [T("ta")]), ("b", [T("tb"), mode(g.rule("g"), ""), T("tb")])])
    else:
        g.define("g", [(None, [T("ta"), mode(group([plus, mode(g.rule("g"), "")], [T("tb")]), "?")])])
    a = load(p, g, g.nodes + tokens_of(p, g))
    w = World(p, p.choice(5 + DEEP), names_of(g))
    parses(p, g, a, w, "g")


class Standins(rx.Re):
    """Compiles patterns to stand-ins of symbolic match lengths."""

    def __init__(self, p, text):
        self.p = p
        self.text = text

    def compile(self, pattern, flags=0):
        return c21.Pattern(self.p, self.text, pattern, rx.Compiled(pattern, flags))


def h_tokens(p):
    """Which patterns are tokens, and in which order they take precedence."""
    start()
    n = p.choice(2 + DEEP)
    text = c21.Text(p, n)
    # Token rules in some order; the grammar uses some of them.
    order = [["a", "b", "c"], ["b", "c", "a"], ["c", "b", "a"]][p.choice(3)]
    used = [p.flag() for _ in range(3)]
    where = p.choice(4)
    g = G(p, CONV[p.choice(2) if n == 0 else 0])
    uses = [mode(ref("t" + x, ("term", "")), "") for x, u in zip("abc", used) if u]
    uses.append(mode(lit("+", ("term", "")), ""))
    g.define("g", [(None, uses)])
    rules = []
    for x in order:
        inner = rep(lit(x, None), "")
        if x == "a" and not used[1] and p.flag():
            # Fragments are only part of other tokens.
            inner = rep(ref("tb", None), "")
        rules.append(token_rule("t" + x, alternation([inner])))
    rules.insert(where, g.nodes[0])
    blank = p.flag()
    if blank:
        rules.insert(p.choice(2) * len(rules), token_rule("_", alternation([rep(lit(" ", None), "")])))
    B.re = Standins(p, text)
    a = B.AstGrammar(node("Grammar", *rules), g.conv)
    # What the patterns are called, in order of definition.
    want = []
    for r in rules:
        if r is g.nodes[0]:
            want.append(g.conv("pls"))
        elif r.name == "Rule.TokenRule":
            x = r.first("Symbol").data
            if used["abc".index(x[1])]:
                want.append(g.conv(x))
    pattern = {k: v.k for k, v in a.token_regexes.items()}
    for x in want:
        p.check(x in pattern, "a token has no pattern")
    got, raised = [], False
    try:
        for t in a.tokenize(text.part(0, n)):
            got.append(t)
    except ValueError:
        raised = True
    at, bad, i = 0, False, 0
    while at < n:
        l = [text.length(p, pattern[x], at) for x in want]
        s = text.length(p, pattern["_"], at) if blank else z3.IntVal(-1)
        # Which of whitespace and a token wins a tie is left open.
        for x in l:
            p.assume(z3.Or(x != s, s <= 0))
        best = None
        for r in range(len(want)):
            if p.fork(And(l[r] > 0, s < l[r], *[l[q] < l[r] for q in range(r)], *[l[q] <= l[r] for q in range(r + 1, len(want))])):
                best = r
                break
        if best is None:
            if p.fork(s > 0):
                at += p.choose(s)
                p.cover("blank")
            else:
                at += 1
                bad = True
                p.cover("error")
            continue
        p.check(i < len(got) and got[i].name == want[best], "another token than the longest and first")
        end = at + p.choose(l[best])
        p.check(c21.equal(got[i].text, text.part(at, end)), "a token of other text")
        p.check(tuple(got[i].span.a) == c21.where(p, text, at), "a token of another place")
        p.observe(got[i].name)
        at = end
        i += 1
        p.cover("token")
    p.check(i == len(got) - 1 and got[i].name == "EOF", "not exactly the tokens of the text and an end")
    p.check(raised == bad, "errors are not reported, or there are none")


def h_text(p):
    """From text to tree."""
    start()
    n = p.choice(3)
    text = c21.Text(p, n)
    g = G(p, CONV[0])
    g.define("g", [(None, [mode(ref("ta", ("term", "ta")), "+"), mode(ref("tb", ("term", "tb")), "?")])])
    B.re = Standins(p, text)
    a = B.AstGrammar(node("Grammar", *g.nodes, *tokens_of(p, g)))
    pattern = {k: v.k for k, v in a.token_regexes.items()}
    other = p.flag()
    try:
        tree = a.tokenize_and_parse(text.part(0, n), "g") if other else a.tokenize_and_parse(text.part(0, n))
    except ValueError:
        tree = None
    at, names, bad = 0, [], False
    while at < n:
        la, lb, s = (text.length(p, pattern[x], at) for x in ("ta", "tb", "_"))
        p.assume(z3.Or(s <= 0, And(s != la, s != lb)))
        if p.fork(And(la > 0, la >= lb, la > s)):
            names.append("ta")
            at += p.choose(la)
        elif p.fork(And(lb > 0, lb > la, lb > s)):
            names.append("tb")
            at += p.choose(lb)
        elif p.fork(s > 0):
            at += p.choose(s)
        else:
            bad = True
            at += 1
    k = 0
    while k < len(names) and names[k] == "ta":
        k += 1
    good = not bad and k > 0 and names[k:] in ([], ["tb"])
    p.check((tree is not None) == good, "accepted text that is not in the language, or refused some that is")
    p.observe(good)
    if tree is not None:
        p.check(tree.name == "g" and [x.name for x in tree.data] == names, "another tree than that of the text")
        p.cover("accepted")
    else:
        p.cover("refused")


def h_refused(p):
    """Names that are not defined, or defined as two things."""
    start()
    g = G(p, CONV[p.choice(2)])
    names = ["g", "h", "ta", "tb", "nope"]
    x, y = names[p.choice(5)], names[p.choice(5)]
    g.define("g", [(None, [mode(ref("ta", None), ""), mode(ref(x, None), "?")])])
    g.define("h", [(None, [mode(ref(y, None), "")])])
    toks = tokens_of(p, g)
    both = p.flag()
    if both:
        g.define(["ta", "tb"][p.choice(2)], [(None, [mode(ref("tb", None), "")])])
    rules = toks[:2] + g.nodes if p.flag() else g.nodes + toks[:2]
    if p.flag():
        rules.append(toks[2])
    bad = both or "nope" in (x, y)
    # Both kinds of definition only clash where the name is used.
    if both and "nope" not in (x, y):
        extra = g.nodes[2].first("Symbol").data
        bad = extra in ("ta", "tb", x, y) and (extra == "ta" or extra == "tb")
    try:
        load(p, g, rules)
    except ValueError:
        p.check(bad, "a sound grammar was refused")
        p.cover("refused")
        return
    p.check(not bad, "a grammar with unknown or ambiguous names was accepted")
    p.cover("accepted")


LITERALS = ["a", "A", "-", "min", "+", "--", "ab", "-a", "\u00e9", "a-"]


def h_literals(p):
    """From text to tree with the real patterns: literals stand for themselves,
    and for nothing else."""
    start()
    g = G(p, CONV[p.choice(2)])
    x, y = LITERALS[p.choice(len(LITERALS))], LITERALS[p.choice(len(LITERALS))]
    g.define("g", [(None, [mode(lit(x, None), ""), mode(lit(y, None), "")])])
    clash = x != y and g.conv(B.AstLiteral(x).as_symbol()) == g.conv(B.AstLiteral(y).as_symbol())
    try:
        a = load(p, g, g.nodes + [token_rule("_", alternation([rep(lit(" ", None), "")]))])
    except ValueError:
        p.check(clash, "a sound grammar was refused")
        p.cover("refused")
        p.observe("clash")
        return
    text = [p.number(0, 0x10FFFF) for _ in range(p.choice(3 + DEEP))]
    try:
        tree = a.tokenize_and_parse(SStr.make(text))
    except ValueError:
        tree = None
    # Maximal munch, then the two of them.
    at, seen, bad = 0, [], False
    while at < len(text):
        best, size = None, 0
        for z in sorted({x, y, " "}, key=lambda z: -len(z)):
            if at + len(z) <= len(text) and p.fork(symstr.conj([symstr.same(c, ord(d)) for c, d in zip(text[at:], z)])):
                best = z
                break
        if best is None:
            bad = True
            at += 1
            continue
        at += len(best)
        if best != " ":
            seen.append(best)
    good = not bad and seen == [x, y]
    p.observe(good)
    p.check((tree is not None) == good, "accepted text that is not in the language, or refused some that is")
    p.cover("accepted" if good else "not accepted")


ENTRIES = [h_literals, h_bodies, h_groups, h_alternatives, h_recursive, h_tokens, h_text, h_refused]
