"""The regular expressions made for token rules against what the rules denote.

Literals of up to 2 (thorough: 3) characters, plain or escaped in any of the
ways there are; character sets of up to 2 (3) members, single or ranges, one
character escaped in any way, inverted or not; constructs nested 2 (3) deep over
symbolic characters, with fragments; rules defined two or three times, also nearly alike; alternatives of 1 or 2 parts that
begin alike; fragments used several times and through others; texts of
up to 3 characters. All characters are any of Unicode. What Python's re does
with a pattern is modelled and compared with the real one on the runs that are
replayed.
"""
import z3
import engine
from engine import SInt, zint
import rx
from symstr import SStr

STRINGS = True
B = None
DEEP = 0
TOP = 0x10FFFF


def node(name, *kids):
    return B.Node.nonterminal(name, kids)


def leaf(name, text):
    return B.Node(name, text, None)


def z_not_in(c, chars):
    return z3.And(*[zint(c) != ord(x) for x in chars])


def char(p, but=""):
    c = p.number(0, TOP)
    if but:
        p.assume(z_not_in(c, but))
    return c


def fix(v):
    if isinstance(v, int):
        return v
    v = z3.simplify(v)
    return v.as_long() if z3.is_int_value(v) else v


def digits(p, n, top=None):
    """n hexadecimal digits and their value."""
    e, v = [], z3.IntVal(0)
    for _ in range(n):
        d = p.number(48, 102)
        x = zint(d)
        p.assume(z3.Or(x <= 57, z3.And(x >= 65, x <= 70), x >= 97))
        e.append(d)
        v = v * 16 + z3.If(x >= 97, x - 87, z3.If(x >= 65, x - 55, x - 48))
    if n == 8:
        p.assume(v <= TOP)
    return e, fix(v)


def unit(p, but, kinds=5):
    """(source, code point) of a character, written in some way."""
    k = p.choice(kinds)
    if k == 0:
        c = char(p, but + "#")
        return [c], c
    if k == 1:
        c = char(p, "xuU")
        x = zint(c)
        return [35, c], fix(z3.If(x == ord("t"), 9, z3.If(x == ord("n"), 10, z3.If(x == ord("r"), 13, x))))
    e, v = digits(p, {2: 2, 3: 4, 4: 8}[k])
    return [35, ord("xuU"[k - 2])] + e, v


# Rule bodies: what they are in the parse tree of the grammar, and what they
# denote, in terms of rx.

def one(c):
    return ("set", False, [(c, c)])


class E:
    """Node of a Singular, and tree."""

    def __init__(self, node, tree):
        self.node = node
        self.tree = tree


def string(p, size, kinds=5):
    q = "'\""[p.choice(2)]
    src, val = [], []
    for _ in range(size):
        s, v = unit(p, q, kinds)
        src += s
        val.append(v)
    text = SStr.make([ord(q)] + src + [ord(q)])
    return E(node("Singular.StringLiteral", leaf("StringLiteral", text)), ("cat", [one(v) for v in val]))


def character(p):
    src, v = unit_escaped(p)
    return E(node("Singular.CharacterLiteral", leaf("CharacterLiteral", SStr.make(src))), one(v))


def unit_escaped(p):
    k = 1 + p.choice(4)
    if k == 1:
        c = char(p, "xuU")
        x = zint(c)
        return [35, c], fix(z3.If(x == ord("t"), 9, z3.If(x == ord("n"), 10, z3.If(x == ord("r"), 13, x))))
    e, v = digits(p, {2: 2, 3: 4, 4: 8}[k])
    return [35, ord("xuU"[k - 2])] + e, v


def charset(p, size):
    """Also says whether one of its ranges is upside down."""
    inverted = p.flag()
    ranges = [p.flag() for _ in range(size)]
    ends = [k for i in range(size) for k in ((i, 0), (i, 1)) if k[1] <= ranges[i]]
    # One of the characters may be written in other ways.
    rich = ends[p.choice(len(ends))] if ends else None
    src, items, wrong = [], [], []
    for i in range(size):
        s, a = unit(p, "^-]", (5 if DEEP or len(ends) == 1 else 3) if rich == (i, 0) else 1)
        src += s
        b = a
        if ranges[i]:
            s, b = unit(p, "^-]", 3 + 2 * DEEP if rich == (i, 1) else 1)
            src += [45] + s
            wrong.append(zint(a) > zint(b))
        items.append((a, b))
    text = SStr.make([ord("[")] + ([ord("^")] if inverted else []) + src + [ord("]")])
    return E(node("Singular.CharacterSet", leaf("CharacterSet", text)), ("set", inverted, items)), z3.Or(*wrong) if wrong else False


def ref(name, tree):
    return E(node("Singular.Symbol", leaf("Symbol", name)), tree)


def rep(x, mode):
    name = {"": "One", "?": "Maybe", "*": "Any", "+": "Many"}[mode]
    kids = [x.node] + ([leaf({"?": "Qst", "*": "Ast", "+": "Pls"}[mode], mode)] if mode else [])
    tree = x.tree
    if mode:
        tree = ("rep", tree, int(mode == "+"), 1 if mode == "?" else None, True)
    return node("Repetition." + name, *kids), tree


def alternation(*alts):
    """Alternatives, each a list of repetitions."""
    kids, trees = [], []
    for a in alts:
        if kids:
            kids.append(leaf("Bar", "|"))
        kids.append(node("Concatenation", *[x[0] for x in a]))
        trees.append(("cat", [x[1] for x in a]))
    return node("Alternation", *kids), ("alt", trees)


def nested(*alts):
    n, t = alternation(*alts)
    return E(node("Singular.Nested", leaf("Lp", "("), n, leaf("Rp", ")")), t)


def token_rule(name, alt):
    if name == "_":
        return node("Rule.WhitespaceRule", leaf("Usc", "_"), leaf("ColEqEq", ":=="), alt[0], leaf("Sem", ";"))
    return node("Rule.TokenRule", leaf("Symbol", name), leaf("ColEqEq", ":=="), alt[0], leaf("Sem", ";"))


def grammar_rule(name, *uses):
    body = node("Concatenation", *[rep(ref(u, None), "")[0] for u in uses])
    return node("Rule.GrammarRule", leaf("Symbol", name), node("FirstAlter", leaf("ColColEq", "::="), body), leaf("Sem", ";"))


def space():
    return token_rule("_", alternation([rep(E(node("Singular.StringLiteral", leaf("StringLiteral", "' '")), one(32)), "")]))


def load(*rules):
    B.re = rx.Re()
    # What is generated for unnamed alternatives is of no interest here.
    B.AstLiteral.as_symbol = lambda self: "slug"
    return B.AstGrammar(node("Grammar", *rules))


def compare(p, g, name, tree, most=3):
    """The regular expression of a rule against what it denotes."""
    got = g.token_regexes[name]
    p.observe(str(type(got).__name__))
    for n in range(most + 1):
        text = [p.number(0, TOP) for _ in range(n)]
        want = z3.simplify(rx.first_end(tree, text))
        have = z3.simplify(got.end(text))
        p.check(have == want, "a token rule does not match what it denotes")
        # When replayed, this is what the real thing gives.
        p.observe(have)
    p.cover("compared")


def h_literal(p):
    size = 1 + p.choice(2 + DEEP)
    if p.flag():
        x = string(p, size, 5 if size == 1 else 2)
    else:
        x = character(p)
    mode = "?*+"[p.choice(3)] if p.flag() else ""
    alt = alternation([rep(x, mode)])
    g = load(grammar_rule("g", "t"), token_rule("t", alt), space())
    compare(p, g, "t", alt[1], 2 + DEEP)


def h_set(p):
    size = p.choice(3 + DEEP)
    x, wrong = charset(p, size)
    alt = alternation([rep(x, "")])
    bad = p.fork(wrong)
    try:
        g = load(grammar_rule("g", "t"), token_rule("t", alt), space())
    except ValueError:
        p.check(bad, "a character set was refused")
        p.cover("refused")
        return
    p.check(not bad, "a character range that is upside down was accepted")
    compare(p, g, "t", alt[1], 2)


def tree(p, depth, frags):
    """Any construct, nested."""
    if depth == 0:
        k = p.choice(3 if frags else 2)
        if k == 0:
            c = char(p, "#'")
            return E(node("Singular.StringLiteral", leaf("StringLiteral", SStr.make([39, c, 39]))), one(c))
        if k == 1:
            a = char(p, "#^-]")
            inv = p.flag()
            s = [91] + [94] * inv + [a, 93]
            return E(node("Singular.CharacterSet", leaf("CharacterSet", SStr.make(s))), ("set", inv, [(a, a)]))
        return ref(*frags[p.choice(len(frags))])
    k = p.choice(3)
    x = rep(tree(p, depth - 1, frags), ["", "?", "*", "+"][p.choice(4)])
    if k == 0:
        return nested([x])
    c = char(p, "#'")
    y = rep(E(node("Singular.StringLiteral", leaf("StringLiteral", SStr.make([39, c, 39]))), one(c)), "")
    pair = [x, y] if p.flag() else [y, x]
    return nested(pair) if k == 1 else nested(*[[z] for z in pair])


def h_structure(p):
    c = char(p, "#'")
    d = char(p, "#'")
    frag = alternation(
        [rep(E(node("Singular.StringLiteral", leaf("StringLiteral", SStr.make([39, c, 39]))), one(c)), "")],
        [rep(E(node("Singular.StringLiteral", leaf("StringLiteral", SStr.make([39, d, d, 39]))), ("cat", [one(d), one(d)])), "")],
    )
    x = tree(p, 2 + DEEP, [("f", frag[1])])
    alt = alternation([rep(x, "")])
    rules = [grammar_rule("g", "t"), token_rule("t", alt), token_rule("f", frag), space()]
    g = load(*rules)
    compare(p, g, "t", alt[1], 3)


def h_again(p):
    """Several definitions of a rule offer all of the alternatives."""
    alts = []
    for _ in range(2 + p.choice(2)):
        k = p.choice(4)
        if k == 3:
            x = ref("f", one(120))
        elif k == 2:
            x = E(node("Singular.StringLiteral", leaf("StringLiteral", "'ab'")), ("cat", [one(97), one(98)]))
        elif k == 1:
            a = char(p, "#'")
            x = E(node("Singular.StringLiteral", leaf("StringLiteral", SStr.make([39, a, 39]))), one(a))
        else:
            a = char(p, "#^-]")
            inv = p.flag()
            x = E(node("Singular.CharacterSet", leaf("CharacterSet", SStr.make([91] + [94] * inv + [a, 93]))), ("set", inv, [(a, a)]))
        alts.append(alternation([rep(x, "")]))
    frag = token_rule("f", alternation([rep(E(node("Singular.StringLiteral", leaf("StringLiteral", "'x'")), one(120)), "")]))
    name = ["t", "_"][p.choice(2)]
    rules = [token_rule(name, a) for a in alts]
    if name == "t":
        rules = [grammar_rule("g", "t")] + rules + [frag, space()]
    else:
        rules = rules[:1] + [frag, grammar_rule("g", "f")] + rules[1:]
    g = load(*rules)
    compare(p, g, name, ("alt", [a[1] for a in alts]), 2)


def quoted(c):
    return E(node("Singular.StringLiteral", leaf("StringLiteral", SStr.make([39, c, 39]))), one(c))


def h_similar(p):
    """Definitions of a rule that are nearly the same."""
    c, d = char(p, "#'^-]"), 98

    def some():
        k = p.choice(4)
        if k == 0:
            x = quoted(c)
        elif k == 3:
            x = ref("f", one(120))
        else:
            inv = k == 2
            x = E(node("Singular.CharacterSet", leaf("CharacterSet", SStr.make([91] + [94] * inv + [c, 93]))), ("set", inv, [(c, c)]))
        x = rep(x, ["", "?", "*", "+"][p.choice(4)])
        y = rep(quoted(d), "")
        k = p.choice(4)
        if k == 0:
            return alternation([x])
        if k == 1:
            return alternation([x, y])
        if k == 2:
            return alternation([y, x])
        return alternation([rep(nested([x], [y]), "")])

    alts = [some(), some()]
    frag = token_rule("f", alternation([rep(quoted(120), "")]))
    g = load(grammar_rule("g", "t"), *[token_rule("t", a) for a in alts], frag, space())
    compare(p, g, "t", ("alt", [a[1] for a in alts]), 2 + DEEP)


def h_groups(p):
    """Alternatives of different sizes, which may begin alike."""
    def part():
        n = 1 + p.choice(2)
        return [rep(quoted(p.number(97, 98)), "") for _ in range(n)]

    alts = [part() for _ in range(2 + DEEP)]
    x = rep(nested(*alts), ["", "?", "*", "+"][p.choice(4)])
    alt = alternation([x, rep(quoted(p.number(97, 99)), "?" if p.flag() else "")]) if p.flag() else alternation(*alts)
    g = load(grammar_rule("g", "t"), token_rule("t", alt), space())
    compare(p, g, "t", alt[1], 3 + DEEP)


def h_fragments(p):
    """Rules that refer to others several times, also through others."""
    bodies = {"v": [rep(quoted(120), "")], "w": [rep(quoted(p.number(120, 122)), "")]}
    trees = {"v": bodies["v"][0][1], "w": bodies["w"][0][1]}
    names = ["u", "v", "w", "t"]
    t = [names[p.choice(4)] for _ in range(2)]
    u = [["v", "w", "u"][p.choice(3)] for _ in range(1 + p.choice(2))]
    alike = p.flag()
    bad = "t" in t or ("u" in t and "u" in u)

    def build(uses):
        xs = [rep(ref(n, trees.get(n)), "") for n in uses]
        return alternation(*[[x] for x in xs]) if alike else alternation(xs)

    ub = build(u)
    trees["u"] = ub[1]
    tb = build(t)
    rules = [token_rule("t", tb), token_rule("u", ub)] + [token_rule(n, alternation(bodies[n])) for n in "vw"]
    if p.flag():
        rules.reverse()
    try:
        g = load(grammar_rule("g", "t"), *rules, space())
    except ValueError:
        p.check(bad, "a sound token rule was refused")
        p.cover("refused")
        return
    p.check(not bad, "a token rule that refers to itself was accepted")
    compare(p, g, "t", tb[1], 3 + DEEP)


def h_refused(p):
    """Rules that refer to themselves or to nothing."""
    a = ["t", "u", "v", "w"][p.choice(4)]
    b = ["t", "u", "v", "w"][p.choice(4)]
    x = E(node("Singular.StringLiteral", leaf("StringLiteral", "'x'")), one(120))
    mode = ["", "?", "*"][p.choice(3)]
    t = token_rule("t", alternation([rep(x, ""), rep(ref(a, None), mode)]))
    u = token_rule("u", alternation([rep(x, "")], [rep(ref(b, None), "")]))
    v = token_rule("v", alternation([rep(x, "")]))
    rules = [t, u, v]
    if p.flag():
        rules.reverse()
    bad = a in ("t", "w") or (a == "u" and b in ("t", "u", "w"))
    try:
        load(grammar_rule("g", "t"), *rules, space())
    except ValueError:
        p.check(bad, "a sound token rule was refused")
        p.cover("refused")
        return
    p.check(not bad, "a token rule that refers to itself or to nothing was accepted")
    p.cover("accepted")


def h_rust(p):
    """A pattern as a string literal of Rust."""
    n = p.choice(4 + DEEP)
    s = [p.number(0, TOP) for _ in range(n)]
    got = B.AstLiteral.escape_rust(SStr.make(s))
    e = SStr.of(got).e
    # Read it as Rust does.
    i = k = 0
    while i < len(e):
        c = e[i]
        p.check(k < n, "more characters than there are")
        x = rx.special(c, "\\\"\r")
        p.check(x != '"' and x != "\r", "the literal ends, or has a bare carriage return, in the middle")
        if x == "\\":
            p.check(i + 1 < len(e), "the literal has no end")
            y = rx.special(e[i + 1], "\\\"nrt0'")
            p.check(y is not None, "an escape that does not exist")
            c = {"n": 10, "r": 13, "t": 9, "0": 0}.get(y, ord(y))
            i += 1
        p.check(zint(c) == zint(s[k]), "another character")
        i += 1
        k += 1
    p.check(k == n, "fewer characters than there are")
    p.cover("read")


ENTRIES = [h_literal, h_set, h_structure, h_again, h_similar, h_groups, h_fragments, h_refused, h_rust]
