"""The Rust that the bootstrap tool generates from a grammar.

The whole tool is run on the text of a grammar, and the Rust it writes is read
and interpreted. Grammars of 2 or 3 rules: bodies that nest every construct 1
(thorough: 2) deep in every place, groups of sequences and of alternatives in
one another, rules of 1 or 2 alternatives in one or several definitions, and 3
recursive grammars; inputs of up to 3 (recursive: 4) tokens with symbolic
names; visitors that fail at any call. At most one alternative of a rule has no
name, and names are not keywords of Rust. What rustfmt, rustc and the fixed
parts of the generated file (module types, tests) do is left out.
"""
import io
import sys
import types
import engine
import c20
import c21
import c22
import c23
import rustgen
import rx
import symstr
from engine import Unsupported
from c20 import And, Or, Not, World, leaves
from c22 import rep, alternation, token_rule
from c23 import G, mode, group, ref, lit, body, atom, MODES, tokens_of

B = None
DEEP = 0
PATH = None
REPLAYS = 100
# Generated code of a shape that the reader does not expect.
STRANGE = (LookupError, TypeError, ValueError, AttributeError)


def start():
    c20.B = c21.B = c22.B = c23.B = B
    c23.DEEP = DEEP


def conv(x):
    return "".join(map(str.title, x.split("-")))


def text_of(n):
    if isinstance(n.data, str):
        return n.data
    return " ".join(map(text_of, n.data))


code = None
made = {}


def generate(text):
    """The Rust that the tool writes for a grammar."""
    if text in made:
        return made[text]
    global code
    path = B.__file__
    if code is None:
        with open(path, encoding="utf-8") as f:
            code = compile(f.read(), path, "exec")
    spec = path.rsplit("/", 1)[0] + "/self-spec.ebnf"
    reads = []
    written = {}

    class Out(io.StringIO):
        def close(self):
            written[self.name] = self.getvalue()
            super().close()

    def fake_open(name, mode="r", *a, **k):
        name = str(name)
        if "r" in mode and name.endswith("self-spec.ebnf"):
            reads.append(name)
            if len(reads) == 1:
                # The tool reads its own specification once to learn what
                # grammars look like.
                return open(spec, encoding="utf-8")
            return io.StringIO(text)
        if "w" in mode or "a" in mode:
            f = Out()
            f.name = name
            return f
        raise Unsupported("the tool opens %s" % name)

    nothing = types.ModuleType("subprocess")
    for n in ("check_call", "call", "run", "check_output", "Popen"):
        setattr(nothing, n, lambda *a, **k: 0)
    m = types.ModuleType("__main__")
    m.__file__ = path
    m.open = fake_open
    real = sys.modules.get("subprocess")
    out, argv = sys.stdout, sys.argv
    sys.modules["subprocess"] = nothing
    sys.stdout = io.StringIO()
    sys.argv = [path]
    failed = None
    try:
        exec(code, m.__dict__)
    except (engine.Hang, Unsupported):
        raise
    except (Exception, SystemExit) as e:
        failed = e
    finally:
        sys.stdout, sys.argv = out, argv
        if real is not None:
            sys.modules["subprocess"] = real
        else:
            del sys.modules["subprocess"]
    if failed is not None:
        made[text] = ("failed", "%s: %s" % (type(failed).__name__, failed))
    elif len(reads) < 2:
        raise Unsupported("the tool does not read the grammar twice")
    elif len(written) != 1:
        raise Unsupported("the tool writes %d files" % len(written))
    else:
        try:
            f = rustgen.File(list(written.values())[0])
            f.check_types()
            made[text] = ("file", f)
        except rustgen.Invalid as e:
            made[text] = ("invalid", str(e))
        except STRANGE as e:
            raise Unsupported("generated code: %r" % e)
    return made[text]


def load(p, g, rules):
    """The file generated for a grammar."""
    text = "\n".join(map(text_of, rules))
    how, f = generate(text)
    p.check(how != "failed", "the tool fails on a sound grammar with %s: %s" % (f, text))
    p.check(how != "invalid", "what is generated is not Rust: %s: %s" % (f, text))
    return f


def tree_of(f, v, direct=None):
    """The part of the grammar's tree that a value of a generated type is."""
    k = v[0]
    if k == "tok":
        return [v[2]]
    if k in ("some", "box"):
        return tree_of(f, v[1])
    if k == "none":
        return []
    if k in ("vec", "tuple"):
        return [t for x in v[1] for t in tree_of(f, x)]
    if k == "new":
        t = [t for x in v[3] for t in tree_of(f, x)]
        if not v[1].startswith("Pt"):
            return t
        return [(v[1][2:] + ("." + v[2] if v[2] else ""), tuple(t))]
    raise rustgen.Invalid("a value that is not part of a tree")


def order(v):
    """What visitors are called with: nodes before what is in them."""
    k = v[0]
    if k == "tok":
        return [v]
    if k in ("some", "box"):
        return order(v[1])
    if k == "none":
        return []
    if k in ("vec", "tuple"):
        return [t for x in v[1] for t in order(x)]
    inner = [t for x in v[3] for t in order(x)]
    return [v] + inner if v[1].startswith("Pt") else inner


def labelled(g, t):
    if isinstance(t, tuple):
        return (g.label(t[0]), tuple(labelled(g, x) for x in t[1]))
    return t


def parses(p, g, rules, names, n, top):
    f = load(p, g, rules)
    w = World(p, n, names)
    want = w.match(("rule", g.rules[top]), 0)
    for c in w.diverges:
        p.assume(Not(c))
    full = Or(*[c for (end, _), c in want.items() if end == n])
    tokens = [t.name for t in w.tokens[:n]]
    kind = "Pt" + g.rules[top].name
    bad = None
    try:
        ps = rustgen.Parsers(f, p, tokens)
        r = ps.run(ps.rule(kind), 0)
    except rustgen.Invalid as e:
        bad = str(e)
    except STRANGE as e:
        raise Unsupported("generated code: %r" % e)
    p.check(bad is None, "the generated parser cannot be Rust of these types, or panics: %s" % bad)
    if r is None:
        p.check(Not(full), "refused what the grammar matches")
        p.cover("refused")
        p.observe("refused")
        return
    end, v = r
    p.check(end == n, "a parser that does not look at all of the input")
    p.check(full, "accepted what the grammar does not match")
    p.check(v[0] == "new" and v[1] == kind, "a parser that gives another type")
    t = tuple(labelled(g, x) for x in tree_of(f, v))
    p.observe(repr(t))
    p.check(leaves(t) == list(range(n)), "the tree does not list the tokens, in order")
    p.check(want.get((n, t), False), "gave another tree than the one the grammar denotes")
    p.cover("accepted")
    visits(p, f, v)


def visits(p, f, v):
    """Both kinds of visitors, failing at every call and not at all."""
    calls = order(v)
    for mutable in (False, True):
        for fail_at in range(1, len(calls) + 2):
            bad = None
            try:
                vs = rustgen.Visits(f, mutable, fail_at)
                r = vs.start(v)
            except rustgen.Invalid as e:
                bad = str(e)
            except STRANGE as e:
                raise Unsupported("generated code: %r" % e)
            p.check(bad is None, "a function that visits trees cannot be Rust: %s" % bad)
            p.check(len(vs.log) == min(fail_at, len(calls)) and all(a is b for a, b in zip(vs.log, calls)), "visited other parts, or in another order, or beyond an error")
            p.check(r == (("err",) if fail_at <= len(calls) else ("ok",)), "an error of the visitor is lost, or made up")
    p.cover("visited")


def names_of():
    return ["Ta", "Tb", "Pls", "Other"]


def h_bodies(p):
    start()
    g = G(p, conv)
    x = mode(body(p, g, 1 + DEEP, "h"), MODES[p.choice(4)])
    g.define("g", [(None, [x])])
    g.define("h", [(None, [mode(atom(p, g), "")])])
    parses(p, g, g.nodes + tokens_of(p, g), names_of(), p.choice(4), "g")


def h_nested(p):
    """Groups in groups, in rules of one and of two alternatives."""
    start()
    g = G(p, conv)
    T = lambda n: mode(ref(n, ("term", conv(n))), "")
    k = p.choice(4)
    inner = [[[T("ta"), T("tb")]], [[T("ta")], [T("tb")]], [[T("ta"), T("tb")], [T("tb")]], [[mode(lit("+", ("term", "Pls")), "")], [T("ta"), mode(g.rule("h"), "")]]][k]
    x = mode(group(*inner), MODES[p.choice(4)])
    how = p.choice(4)
    y = [[[x, T("tb")]], [[T("ta"), x]], [[x], [T("tb"), T("ta")]], [[T("tb")], [x, mode(g.rule("h"), "?")]]][how]
    z = mode(group(*y), MODES[p.choice(4)])
    around = [[z], [T("ta"), z], [z, T("tb")]]
    other = (None, [mode(lit("+", ("term", "Pls")), "")])
    if DEEP:
        parts = around[p.choice(3)]
        alters = [[("one", parts)], [("one", parts), other], [other, ("one", parts)]][p.choice(3)]
    else:
        alters = [[("one", around[0])], [("one", around[2])], [other, ("one", around[1])]][p.choice(3)]
    g.define("g", alters)
    g.define("h", [(None, [T("tb")])])
    parses(p, g, tokens_of(p, g) + g.nodes, names_of(), p.choice(4), "g")


def h_alternatives(p):
    start()
    g = G(p, conv)
    named = p.choice(3)
    several = p.flag()
    alters = []
    for k in range(2 + DEEP):
        parts = [mode(atom(p, g), ["", "?"][p.choice(2)] if k == 0 else "")]
        if k == 1 and p.flag():
            parts.append(mode(g.rule("h"), ""))
        alters.append((None if named == k else "v%d" % k, parts))
    doc = p.flag()
    h = lambda: g.define("h", [(None, [mode(ref("ta", ("term", "Ta")), "")])])
    if p.flag():
        h()
    if several:
        for x in alters:
            g.define("g", [x], doc=doc)
    else:
        g.define("g", alters, doc=doc)
    if len(g.rules["h"].options if "h" in g.rules else []) == 0:
        h()
    parses(p, g, tokens_of(p, g) + g.nodes, names_of(), p.choice(3), "gh"[p.choice(2)])


def h_recursive(p):
    start()
    g = G(p, conv)
    T = lambda n: mode(ref(n, ("term", conv(n))), "")
    plus = mode(lit("+", ("term", "Pls")), "")
    k = p.choice(3)
    if k == 0:
        g.define("g", [("pair", [T("ta"), mode(g.rule("g"), "*"), T("tb")]), (None, [plus])])
    elif k == 1:
        g.define("g", [(None, [mode(g.rule("h"), ""), mode(group([plus, mode(g.rule("h"), "")]), "*")])])
        g.define("h", [("a", [T("ta")]), ("b", [T("tb"), mode(g.rule("g"), ""), T("tb")])])
    else:
        g.define("g", [(None, [T("ta"), mode(group([plus, mode(g.rule("g"), "")], [T("tb")]), "?")])])
    parses(p, g, g.nodes + tokens_of(p, g), names_of(), p.choice(5 + DEEP), "g")


def h_tokens(p):
    """The tokens and their regular expressions are those of the grammar."""
    start()
    g = G(p, conv)
    chars = "a+\"\\"
    names = ["ta", "tb", "tc"]
    order = [[0, 1, 2], [2, 1, 0], [1, 0, 2]][p.choice(3)]
    used = [x for x in range(3) if p.flag()]
    what = p.choice(len(chars))
    texts = [chars[what], chars[p.choice(len(chars)) if DEEP else what - 1], "c"]
    g.define("g", [(None, [mode(ref(names[x], None), "") for x in used] + [mode(lit("-", None), "")])])
    rules = [token_rule(names[x], alternation([rep(lit(texts[x], None), "")])) for x in order]
    rules.insert(p.choice(4) if DEEP else 1 + 2 * p.choice(2), g.nodes[0])
    blank = p.flag()
    if blank:
        rules.insert(p.choice(5) if DEEP else 4 * p.choice(2), token_rule("_", alternation([rep(lit(" ", None), "")])))
    f = load(p, g, rules)
    want = []
    for r in rules:
        if r is g.nodes[0]:
            want.append(("Min", "-"))
        elif r.name == "Rule.TokenRule":
            k = names.index(r.first("Symbol").data)
            if k in used:
                want.append((conv(names[k]), texts[k]))
    try:
        got = list(f.enums["TokenType"][2])
        fns = f.impls[("TokenType", "TokenType")]
        (_, e, _), = f.body(fns["all"])
        alls = [x[1] for x in e[1]]
        (_, subject, arms), = f.body(fns["regex"])
        regexes = {q[1]: b[0][1][1] for q, b in arms}
        (_, space, _), = f.body(fns["whitespace"])
    except (KeyError, ValueError, IndexError, TypeError):
        raise Unsupported("tokens are generated in another way")
    p.check(got == [x for x, _ in want], "the tokens are not those of the grammar, in order")
    p.check(alls == ["Self::" + x for x in got], "the list of tokens is not all of them, in order")
    p.check(sorted(regexes) == sorted(alls), "the regular expressions are not one for every token")
    fields = f.structs["TerminalPatterns"][2]
    p.check(list(fields) == got, "the patterns are not one for every token")
    c = p.number(0, 0x10FFFF)
    text = symstr.SStr.make([c])
    re = rx.Re()

    def matches(s):
        pattern = s[1:-1].encode("latin-1", "backslashreplace").decode("unicode_escape")
        if not pattern:
            return False
        m = re.compile(pattern).fullmatch(text)
        return m is not None

    for x, t in want:
        p.check(matches(regexes["Self::" + x]) == p.fork(symstr.same(c, ord(t))), "a regular expression that matches something else")
    p.check(matches(space[1]) == (blank and p.fork(symstr.same(c, 32))), "another whitespace")
    p.observe(got)
    p.cover("tokens")


ENTRIES = [h_tokens, h_recursive, h_alternatives, h_bodies, h_nested]
