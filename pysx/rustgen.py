"""Reads the Rust that the bootstrap tool generates and interprets it: the
expressions that build parsers (on tokens with symbolic names), the types, and
the functions that visit trees.  What is not known here is Unsupported; what
cannot be Rust at all, or cannot have the types it is declared with, is Invalid.
"""
import re
from engine import Unsupported, is_name


class Invalid(Exception):
    """rustc refuses this."""


TOKEN = re.compile(r"""
    \s+ | //[^\n]* | /\*.*?\*/
  | (?P<str>b?"(?:[^"\\]|\\.)*")
  | (?P<life>'[A-Za-z_]\w*(?!'))
  | (?P<chr>'(?:[^'\\]|\\[^u]|\\u\{[0-9a-fA-F]+\})')
  | (?P<num>\d\w*)
  | (?P<id>(?:r\#)?[A-Za-z_]\w*)
  | (?P<op>::|=>|->|\.\.=|\.\.|==|!=|<=|>=|&&|\|\||[-+*/%]=|[^\s\w])
""", re.X | re.S)


def lex(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Unsupported("generated text at %r" % text[i:i + 30])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


class Reader:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Invalid("ends early")
        self.i += 1
        return self.t[self.i - 1][1]

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise Invalid("%r instead of %r in %s" % (self.peek(), s, " ".join(x[1] for x in self.t[max(0, self.i - 12):self.i + 4])))

    def group(self):
        """The tokens inside a bracket that opens here."""
        start = self.i
        stack = []
        while True:
            x = self.next()
            if self.t[self.i - 1][0] == "op":
                if x in OPEN:
                    stack.append(OPEN[x])
                elif x in ")]}":
                    if not stack or stack.pop() != x:
                        raise Invalid("brackets do not match")
            if not stack:
                return self.t[start + 1:self.i - 1]

    def angles(self):
        """The tokens inside < and >."""
        self.need("<")
        out, d = [], 1
        while True:
            x = self.next()
            if x == "<":
                d += 1
            elif x == ">":
                d -= 1
                if not d:
                    return out
            out.append(self.t[self.i - 1])

    # Types.
    def type(self):
        if self.eat("&"):
            if self.kind() == "life":
                self.next()
            m = self.eat("mut")
            return ("ref", m, self.type())
        if self.peek() == "(":
            r = Reader(self.group())
            return ("tuple", r.types())
        if self.kind() != "id":
            raise Unsupported("type %r" % self.peek())
        path = self.next()
        while self.eat("::"):
            path = self.next()
        lives, args = 0, []
        if self.peek() == "<":
            r = Reader(self.angles())
            while r.peek() is not None:
                if r.kind() == "life":
                    r.next()
                    lives += 1
                else:
                    args.append(r.type())
                if r.peek() is not None:
                    r.need(",")
        return ("path", path, lives, args)

    def types(self):
        out = []
        while self.peek() is not None:
            self.eat("pub")
            out.append(self.type())
            if self.peek() is not None:
                self.need(",")
        return out

    # Patterns.
    def pattern(self):
        if self.eat("&"):
            self.eat("mut")
            return self.pattern()
        for w in ("ref", "mut"):
            self.eat(w)
        if self.peek() == "(":
            r = Reader(self.group())
            return ("tuple", r.patterns())
        if self.eat("_"):
            return ("any",)
        path = self.path()
        if self.peek() == "(":
            r = Reader(self.group())
            return ("ctor", path, r.patterns())
        if "::" in path or path[0].isupper():
            return ("ctor", path, None)
        return ("var", path)

    def patterns(self):
        out = []
        while self.peek() is not None:
            out.append(self.pattern())
            if self.peek() is not None:
                self.need(",")
        return out

    def path(self):
        if self.kind() != "id":
            raise Unsupported("%r as an expression" % self.peek())
        p = self.next()
        while self.eat("::"):
            if self.peek() == "<":
                self.angles()
                continue
            p += "::" + self.next()
        return p

    # Expressions.
    def args(self):
        r = Reader(self.group())
        out = []
        while r.peek() is not None:
            out.append(r.expr())
            if r.peek() is not None:
                r.need(",")
        return out

    def expr(self):
        if self.eat("&"):
            m = self.eat("mut")
            return ("ref", m, self.expr())
        if self.peek() in ("|", "||", "move"):
            self.eat("move")
            ps = []
            if not self.eat("||"):
                self.need("|")
                while not self.eat("|"):
                    ps.append(self.pattern())
                    if self.peek() != "|":
                        self.need(",")
            return ("closure", ps, self.expr())
        k = self.kind()
        if k == "num":
            e = ("num", int(re.match(r"\d+", self.next()).group()))
        elif k == "str":
            e = ("str", self.next())
        elif self.peek() == "(":
            r = Reader(self.group())
            es, comma = [], False
            while r.peek() is not None:
                es.append(r.expr())
                comma = r.eat(",")
                if not comma and r.peek() is not None:
                    raise Invalid("%r in an expression" % r.peek())
            e = es[0] if len(es) == 1 and not comma else ("tuple", es)
        elif self.peek() == "{":
            e = ("block", Reader(self.group()).block())
        elif self.peek() == "[":
            e = ("list", self.args())
        elif k == "id":
            e = ("path", self.path())
            if self.peek() == "!":
                raise Unsupported("macro %s" % e[1])
        else:
            raise Unsupported("%r as an expression" % self.peek())
        while True:
            if self.eat("."):
                n = self.next()
                if self.peek() == "::":
                    self.next()
                    self.angles()
                if self.peek() == "(":
                    e = ("method", e, n, self.args())
                else:
                    e = ("field", e, n)
            elif self.peek() == "(":
                e = ("call", e, self.args())
            elif self.eat("?"):
                e = ("try", e)
            else:
                return e

    def block(self):
        """Statements up to the end."""
        out = []
        while self.peek() is not None:
            if self.eat(";"):
                continue
            if self.eat("let"):
                p = self.pattern()
                if self.eat(":"):
                    self.type()
                self.need("=")
                e = self.expr()
                self.need(";")
                out.append(("let", p, e))
            elif self.peek() == "if" and self.peek(1) == "let":
                self.i += 2
                p = self.pattern()
                self.need("=")
                e = self.expr()
                out.append(("iflet", p, e, Reader(self.group()).block()))
            elif self.eat("for"):
                p = self.pattern()
                self.need("in")
                e = self.expr()
                out.append(("for", p, e, Reader(self.group()).block()))
            elif self.eat("match"):
                e = self.expr()
                r = Reader(self.group())
                arms = []
                while r.peek() is not None:
                    ps = [r.pattern()]
                    while r.eat("|"):
                        ps.append(r.pattern())
                    r.need("=>")
                    b = r.peek() == "{"
                    body = Reader(r.group()).block() if b else [("expr", r.expr(), False)]
                    if not r.eat(",") and not b and r.peek() is not None:
                        raise Invalid("arms without a comma")
                    arms += [(q, body) for q in ps]
                out.append(("match", e, arms))
            elif self.peek() in ("if", "while", "loop", "return", "unsafe"):
                raise Unsupported("statement %s" % self.peek())
            else:
                b = self.peek() == "{"
                e = self.expr()
                semi = self.eat(";")
                if not semi and not b and self.peek() is not None:
                    raise Invalid("%r after an expression" % self.peek())
                out.append(("expr", e, semi))
        return out


class File:
    """The items of a file."""

    def __init__(self, text):
        self.structs = {}  # name: (lifetimes, parameters, [types] or None if it has named fields)
        self.enums = {}  # name: (lifetimes, parameters, {variant: [types]})
        self.impls = {}  # (trait or "", type): {function: body tokens}
        self.fns = {}
        self.traits = {}
        self.items(Reader(lex(text)))

    def params(self, r):
        """How many lifetimes, and the names of the types."""
        if r.peek() != "<":
            return 0, ()
        g = Reader(r.angles())
        lives = 0
        args = []
        depth = 0
        fresh = True
        while g.peek() is not None:
            k, x = g.kind(), g.next()
            if x in ("<", "("):
                depth += 1
            elif x in (">", ")"):
                depth -= 1
            elif x == "," and depth == 0:
                fresh = True
                continue
            if fresh and depth == 0:
                if k == "life":
                    lives += 1
                else:
                    args.append(x)
                fresh = False
        return lives, tuple(args)

    def new(self, table, name, value):
        if name in self.structs or name in self.enums:
            raise Invalid("%s is defined twice" % name)
        table[name] = value

    def items(self, r):
        while r.peek() is not None:
            if r.eat("#"):
                r.eat("!")
                r.group()
                continue
            if r.eat("pub"):
                if r.peek() == "(":
                    r.group()
                continue
            x = r.next()
            if x == "use" or x == "type":
                self.skip(r)
            elif x == "mod":
                r.next()
                if not r.eat(";"):
                    r.group()
            elif x == "struct":
                name = r.next()
                g = self.params(r)
                if r.peek() == "(":
                    ts = Reader(r.group()).types()
                    self.new(self.structs, name, (*g, ts))
                    r.need(";")
                elif r.eat(";"):
                    self.new(self.structs, name, (*g, []))
                else:
                    self.fields(r)
                    f = Reader(r.group())
                    d = {}
                    while f.peek() is not None:
                        f.eat("pub")
                        n = f.next()
                        f.need(":")
                        d[n] = f.type()
                        if f.peek() is not None:
                            f.need(",")
                    self.new(self.structs, name, (*g, d))
            elif x == "enum":
                name = r.next()
                g = self.params(r)
                b = Reader(r.group())
                vs = {}
                while b.peek() is not None:
                    if b.eat("#"):
                        b.group()
                        continue
                    v = b.next()
                    if v in vs:
                        raise Invalid("%s::%s is defined twice" % (name, v))
                    vs[v] = Reader(b.group()).types() if b.peek() == "(" else []
                    if b.peek() is not None:
                        b.need(",")
                self.new(self.enums, name, (*g, vs))
            elif x == "impl":
                self.params(r)
                t = r.type()
                trait = ""
                if r.eat("for"):
                    trait, t = t[1], r.type()
                self.fields(r)
                fns = self.functions(Reader(r.group()))
                key = (trait, t[1] if t[0] == "path" else "")
                have = self.impls.setdefault(key, {})
                for n, f in fns.items():
                    if n in have or (trait and have):
                        raise Invalid("%s::%s is defined twice" % (t[1], n))
                for n, f in fns.items():
                    have[n] = f
            elif x == "trait":
                name = r.next()
                self.fields(r)
                self.traits[name] = self.functions(Reader(r.group()))
            elif x == "fn":
                n, f = self.function(r)
                self.fns[n] = f
            else:
                raise Unsupported("item %s" % x)

    def skip(self, r):
        """Past a semicolon."""
        while not r.eat(";"):
            if r.peek() in OPEN:
                r.group()
            else:
                r.next()

    def fields(self, r):
        """Up to the block."""
        while r.peek() != "{":
            if r.peek() == "<":
                r.angles()
            elif r.peek() in ("(", "["):
                r.group()
            else:
                r.next()

    def function(self, r):
        name = r.next()
        self.params(r)
        ps = []
        g = Reader(r.group())
        while g.peek() is not None:
            if g.peek() in ("&", "self", "mut") and "self" in (g.peek(), g.peek(1), g.peek(2), g.peek(3)):
                while g.peek() not in (None, ","):
                    g.next()
                ps.append("self")
            else:
                p = g.pattern()
                g.need(":")
                g.type()
                ps.append(p[1] if p[0] == "var" else None)
            if g.peek() is not None:
                g.need(",")
        while r.peek() not in ("{", ";"):
            if r.peek() in ("(", "["):
                r.group()
            elif r.peek() == "<":
                r.angles()
            else:
                r.next()
        return name, (ps, None if r.eat(";") else r.group())

    def functions(self, r):
        out = {}
        while r.peek() is not None:
            if r.eat("#"):
                r.group()
            elif r.eat("pub"):
                pass
            elif r.eat("type"):
                self.skip(r)
            elif r.eat("fn"):
                n, f = self.function(r)
                if n in out:
                    raise Invalid("%s is defined twice" % n)
                out[n] = f
            else:
                raise Unsupported("in a block: %s" % r.peek())
        return out

    def body(self, f):
        return Reader(f[1]).block()

    # Types.
    def sound(self, t, params, sized):
        """A type in the definition of another exists, with its parameters.
        What it holds directly is added to sized."""
        if t[0] == "ref":
            return self.sound(t[2], params, [])
        if t[0] == "tuple":
            for x in t[1]:
                self.sound(x, params, sized)
            return
        _, name, lives, args = t
        if name in params:
            return
        for x in args:
            self.sound(x, params, sized if name == "Option" else [])
        if name in ("Option", "Vec", "Box"):
            if len(args) != 1:
                raise Invalid("%s of %d types" % (name, len(args)))
        elif name in self.structs or name in self.enums:
            d = self.structs.get(name) or self.enums[name]
            if len(args) != len(d[1]) or lives != d[0]:
                raise Invalid("%s with other parameters than it is defined with" % name)
            sized.append(name)
        else:
            raise Invalid("%s is not defined" % name)

    def check_types(self):
        holds = {}
        for name, d in [*self.structs.items(), *self.enums.items()]:
            if isinstance(d[2], dict) and name in self.structs:
                continue
            fields = [d[2]] if name in self.structs else d[2].values()
            for ts in fields:
                for t in ts:
                    self.sound(t, d[1], holds.setdefault(name, []))
        done = set()

        def visit(name, path):
            if name in path:
                raise Invalid("%s has no finite size" % name)
            if name not in done:
                for x in holds.get(name, []):
                    visit(x, path | {name})
                done.add(name)
        for name in holds:
            visit(name, frozenset())

    def has_type(self, v, t):
        if t[0] == "tuple":
            return v[0] == "tuple" and len(v[1]) == len(t[1]) and all(self.has_type(x, y) for x, y in zip(v[1], t[1]))
        if t[0] != "path":
            return False
        name, args = t[1], t[3]
        if name == "Option":
            return v == ("none",) or v[0] == "some" and self.has_type(v[1], args[0])
        if name == "Vec":
            return v[0] == "vec" and all(self.has_type(x, args[0]) for x in v[1])
        if name == "Box":
            return v[0] == "box" and self.has_type(v[1], args[0])
        if v[0] == "tok":
            return v[1] == name
        return v[0] == "new" and v[1] == name and self.well_made(v)

    def well_made(self, v):
        """The fields of a value have the types that its definition gives."""
        _, name, variant, args = v
        if variant is None:
            ts = self.structs.get(name, (0, 0, None))[2]
        else:
            ts = self.enums.get(name, (0, 0, {}))[2].get(variant)
        return isinstance(ts, list) and len(ts) == len(args) and all(self.has_type(x, t) for x, t in zip(args, ts))


class Parsers:
    """Runs parsers over tokens with symbolic names."""

    def __init__(self, f, p, names):
        self.f = f
        self.p = p
        self.names = names
        self.env = {}
        self.result = self.make()

    def make(self):
        if "make_parsers" not in self.f.fns:
            raise Unsupported("no make_parsers")
        for s in self.f.body(self.f.fns["make_parsers"]):
            if s[0] == "let" and s[1][0] == "var":
                self.env[s[1][1]] = self.eval(s[2], {})
            elif s[0] == "expr" and s[2]:
                self.eval(s[1], {})
            elif s[0] == "expr":
                return self.eval(s[1], {})
            else:
                raise Unsupported("statement in make_parsers")

    def rule(self, type_name):
        """What the parser() of a type is."""
        ps, body = self.f.impls[("", type_name)]["parser"]
        (k, e, semi), = Reader(body).block()
        if k != "expr" or semi or e[0] != "field" or e[1][:2] != ("call", ("path", "make_parsers")):
            raise Unsupported("parser() of %s" % type_name)
        if self.result[0] != "tuple" or int(e[2]) >= len(self.result[1]):
            raise Invalid("no such field")
        return self.result[1][int(e[2])]

    def eval(self, e, env):
        k = e[0]
        if k == "path":
            n = e[1]
            if n in env:
                return env[n]
            if n in self.env:
                return self.env[n]
            if n == "None":
                return ("none",)
            return ("fn", n)
        if k == "num":
            return e
        if k == "ref":
            return self.eval(e[2], env)
        if k == "tuple":
            return ("tuple", [self.eval(x, env) for x in e[1]])
        if k == "block":
            if len(e[1]) != 1 or e[1][0][0] != "expr" or e[1][0][2]:
                raise Unsupported("a block")
            return self.eval(e[1][0][1], env)
        if k == "closure":
            return ("closure", e[1], e[2], env)
        if k == "field":
            if e[1] == ("path", "patterns"):
                return ("pattern", e[2])
            raise Unsupported("field %s" % e[2])
        if k == "call":
            f = self.eval(e[1], env)
            return self.apply(f, [self.eval(x, env) for x in e[2]])
        if k == "method":
            return self.method(self.eval(e[1], env), e[2], [self.eval(x, env) for x in e[3]])
        raise Unsupported("expression %s" % k)

    def bind(self, pat, v, env):
        k = pat[0]
        if k == "any":
            return
        if k == "var":
            env[pat[1]] = v
        elif k == "tuple":
            if v[0] != "tuple" or len(v[1]) != len(pat[1]):
                raise Invalid("a pattern of another type")
            for q, x in zip(pat[1], v[1]):
                self.bind(q, x, env)
        else:
            raise Unsupported("pattern")

    def apply(self, f, args):
        if f[0] == "closure":
            env = dict(f[3])
            if len(f[1]) != len(args):
                raise Invalid("a closure of other arguments")
            for q, v in zip(f[1], args):
                self.bind(q, v, env)
            return self.eval(f[2], env)
        if f[0] != "fn":
            raise Unsupported("call")
        n = f[1]
        if n == "Box::new":
            return ("box", *args)
        if n == "Some":
            return ("some", *args)
        if n == "one_of" or n == "just":
            if args[0][0] != "pattern":
                raise Unsupported("%s of something else" % n)
            return self.term(args[0][1])
        if n == "empty":
            return ("parser", lambda i: (i, ("tuple", [])))
        if n == "none":
            return ("parser", lambda i: (i, ("none",)))
        if n == "end":
            return ("parser", lambda i: (i, ("tuple", [])) if i == len(self.names) else None)
        if n == "Recursive::declare":
            return ("recursive", {})
        name, _, last = n.partition("::")
        if last == "new" and name in self.f.structs and isinstance(self.f.structs[name][2], dict):
            v = args[0]
            if v[0] != "raw":
                raise Invalid("%s of something that is not a token" % n)
            if "Pt" + v[2] != name:
                raise Invalid("%s of another token panics" % n)
            return ("tok", name, v[1])
        if name in self.f.structs or name in self.f.enums:
            v = ("new", name, last or None, list(args))
            if not self.f.well_made(v):
                raise Invalid("%s of values of other types" % n)
            return v
        raise Unsupported("call of %s" % n)

    def term(self, name):
        def run(i):
            if i < len(self.names) and self.p.fork(is_name(self.names[i], name)):
                return i + 1, ("raw", i, name)
            return None
        return ("parser", run)

    def run(self, q, i):
        if q[0] == "recursive":
            if "is" not in q[1]:
                raise Invalid("a parser that is not defined")
            return self.run(q[1]["is"], i)
        if q[0] == "repeat":
            return self.repeat(q, i)
        if q[0] != "parser":
            raise Invalid("not a parser")
        return q[1](i)

    def repeat(self, q, i):
        _, child, lo, hi = q
        out = []
        while hi is None or len(out) < hi:
            r = self.run(child, i)
            if r is None:
                break
            if r[0] == i:
                # Without end; left out by the bounds.
                self.p.assume(False)
            i = r[0]
            out.append(r[1])
        return (i, ("vec", out)) if len(out) >= lo else None

    def method(self, q, m, args):
        if q[0] not in ("parser", "recursive", "repeat"):
            raise Unsupported("method %s" % m)
        run = self.run

        def then(f, *ps):
            def go(i):
                vs = []
                for x in ps:
                    r = run(x, i)
                    if r is None:
                        return None
                    i = r[0]
                    vs.append(r[1])
                return i, f(*vs)
            return ("parser", go)

        if m in ("boxed", "clone"):
            return q
        if m == "define" and q[0] == "recursive":
            if "is" in q[1]:
                raise Invalid("defined twice")
            q[1]["is"] = args[0]
            return ("tuple", [])
        if m == "map":
            return then(lambda v: self.apply(args[0], [v]), q)
        if m == "map_with_span":
            return then(lambda v: self.apply(args[0], [v, ("span",)]), q)
        if m == "to":
            return then(lambda v: args[0], q)
        if m == "ignored":
            return then(lambda v: ("tuple", []), q)
        if m == "some":
            return then(lambda v: ("some", v), q)
        if m == "then":
            return then(lambda a, b: ("tuple", [a, b]), q, args[0])
        if m == "then_ignore":
            return then(lambda a, b: a, q, args[0])
        if m == "ignore_then":
            return then(lambda a, b: b, q, args[0])
        if m == "or":
            return ("parser", lambda i: run(q, i) or run(args[0], i))
        if m == "or_not":
            def go(i):
                r = run(q, i)
                return (r[0], ("some", r[1])) if r else (i, ("none",))
            return ("parser", go)
        if m == "repeated":
            return ("repeat", q, 0, None)
        if q[0] == "repeat" and m in ("at_least", "at_most", "exactly"):
            n = args[0][1]
            return ("repeat", q[1], n if m != "at_most" else q[2], n if m != "at_least" else q[3])
        raise Unsupported("method %s" % m)


class Stopped(Exception):
    """A visitor gave an error, and ? passes it on."""


class Visits:
    """Runs the functions that visit a tree, with a visitor that notes what it
    is called with and fails at a given call."""

    def __init__(self, f, mutable, fail_at):
        self.f = f
        self.trait = f.traits.get("VisitorMut" if mutable else "Visitor")
        if self.trait is None:
            raise Unsupported("no visitor")
        self.mutable = mutable
        self.fail_at = fail_at
        self.log = []

    def start(self, v):
        return self.of(v, "visit_mut" if self.mutable else "visit")

    def of(self, v, name):
        f = self.f.impls.get(("", v[1]), {}).get(name)
        if f is None:
            raise Invalid("%s has no %s" % (v[1], name))
        return self.function(f, {"self": v, "visitor": ("visitor",)})

    def function(self, f, env):
        try:
            return self.block(self.f.body(f), env)
        except Stopped:
            return ("err",)

    def visit(self, name, v):
        """A call of a method of the visitor."""
        v = self.place(v)
        while v[0] == "box":
            v = v[1]
        f = self.trait.get(name)
        if f is None:
            raise Invalid("the visitor has no %s" % name)
        if v[0] not in ("tok", "new") or "visit_" + v[1][2:] != name:
            raise Invalid("%s of something of another type" % name)
        self.log.append(v)
        if len(self.log) == self.fail_at:
            return ("err",)
        ps = f[0]
        return self.function(f, {"self": ("visitor",), ps[1]: v})

    def place(self, v):
        """Behind a reference."""
        if v[0] == "&":
            if v[1] != self.mutable:
                raise Invalid("a reference that is mutable and should not be, or the reverse")
            return v[2]
        return v

    def block(self, ss, env):
        env = dict(env)
        last = ("tuple", [])
        for s in ss:
            last = ("tuple", [])
            if s[0] == "let":
                if not self.bind(s[1], self.eval(s[2], env), env):
                    raise Invalid("a pattern that may not match")
            elif s[0] == "expr":
                v = self.eval(s[1], env)
                if not s[2]:
                    last = v
                elif v in (("ok",), ("err",)):
                    # An error that nobody looks at.
                    pass
            elif s[0] == "iflet":
                e2 = dict(env)
                if self.bind(s[1], self.eval(s[2], env), e2):
                    last = self.block(s[3], e2)
                    self.unit(last)
            elif s[0] == "for":
                v = self.eval(s[2], env)
                if v[0] == "&" and v[2][0] == "vec":
                    self.place(v)
                    v = ("iter", [("&", v[1], x) for x in v[2][1]])
                if v[0] != "iter":
                    raise Invalid("for over something else")
                for x in v[1]:
                    e2 = dict(env)
                    if not self.bind(s[1], x, e2):
                        raise Invalid("a pattern that may not match")
                    self.unit(self.block(s[3], e2))
            elif s[0] == "match":
                v = self.eval(s[1], env)
                for q, body in s[2]:
                    e2 = dict(env)
                    if self.bind(q, v, e2):
                        last = self.block(body, e2)
                        break
                else:
                    raise Invalid("no arm for a value")
        return last

    def unit(self, v):
        if v != ("tuple", []):
            raise Invalid("a block with a value where none is expected")

    def bind(self, pat, v, env):
        k = pat[0]
        if k == "any":
            return True
        if k == "var":
            env[pat[1]] = v
            return True
        ref = None
        if v[0] == "&":
            ref, v = v[1], v[2]
        wrap = (lambda x: x) if ref is None else (lambda x: x if x[0] == "&" else ("&", ref, x))
        if k == "tuple":
            if v[0] != "tuple" or len(v[1]) != len(pat[1]):
                raise Invalid("a pattern of another type")
            return all(self.bind(q, wrap(x), env) for q, x in zip(pat[1], v[1]))
        name, _, variant = pat[1].partition("::")
        if name == "Some" or name == "None":
            if v[0] not in ("some", "none"):
                raise Invalid("a pattern of another type")
            return v[0] == name.lower() and (name == "None" or self.bind(pat[2][0], wrap(v[1]), env))
        if name == "Self" and v[0] == "new":
            name = v[1]
        if v[0] != "new" or v[1] != name:
            raise Invalid("a pattern of another type")
        ts = self.f.enums[name][2] if variant else {None: self.f.structs[name][2]}
        if (variant or None) not in ts or len(ts[variant or None]) != len(pat[2] or []):
            raise Invalid("a pattern of another shape")
        return v[2] == (variant or None) and all(self.bind(q, wrap(x), env) for q, x in zip(pat[2] or [], v[3]))

    def eval(self, e, env):
        k = e[0]
        if k == "path":
            if e[1] in env:
                v = env[e[1]]
                return ("&", self.mutable, v) if e[1] == "self" and v[0] == "new" else v
            raise Unsupported("%s" % e[1])
        if k == "tuple":
            return ("tuple", [self.eval(x, env) for x in e[1]])
        if k == "ref":
            v = self.eval(e[2], env)
            return v if v[0] == "&" and v[1] == e[1] else ("&", e[1], v[2] if v[0] == "&" else v)
        if k == "block":
            return self.block(e[1], env)
        if k == "field":
            v = self.eval(e[1], env)
            if v[0] == "&":
                v = v[2]
            if v[0] == "tuple":
                fs = v[1]
            elif v[0] == "new" and v[2] is None:
                fs = v[3]
            else:
                raise Invalid("a field of something else")
            if int(e[2]) >= len(fs):
                raise Invalid("no such field")
            return fs[int(e[2])]
        if k == "try":
            v = self.eval(e[1], env)
            if v == ("err",):
                raise Stopped()
            if v != ("ok",):
                raise Invalid("? of something else")
            return ("tuple", [])
        if k == "call":
            if e[1] == ("path", "Ok"):
                return ("ok",)
            raise Unsupported("call")
        if k == "method":
            v = self.eval(e[1], env)
            m = e[2]
            args = [self.eval(x, env) for x in e[3]]
            if v == ("visitor",):
                return self.visit(m, args[0])
            if v in (("ok",), ("err",)):
                if m in ("or", "and"):
                    if args[0] not in (("ok",), ("err",)):
                        raise Invalid("%s of something else" % m)
                    return args[0] if (v == ("err",)) == (m == "or") else v
                if m in ("unwrap_or", "unwrap_or_default", "ok", "err"):
                    return ("tuple", [])
                raise Unsupported("method %s of a result" % m)
            if m in ("iter", "iter_mut", "as_ref", "as_mut", "as_deref", "as_deref_mut"):
                mut = m.endswith("_mut") or m == "as_mut"
                if v[0] == "&":
                    if mut and not v[1]:
                        raise Invalid("%s behind a reference that is not mutable" % m)
                    v = v[2]
                if m.startswith("iter"):
                    if v[0] == "vec":
                        return ("iter", [("&", mut, x) for x in v[1]])
                    if v[0] in ("some", "none"):
                        return ("iter", [("&", mut, x) for x in v[1:]])
                elif v[0] == "box" and not m.startswith("as_d"):
                    return ("&", mut, v[1])
                elif v[0] == "none":
                    return v
                elif v[0] == "some":
                    x = v[1]
                    if m.startswith("as_d"):
                        if x[0] != "box":
                            raise Invalid("as_deref of something else")
                        x = x[1]
                    return ("some", ("&", mut, x))
                raise Invalid("%s of something else" % m)
            if m in ("traverse", "traverse_mut", "visit", "visit_mut"):
                if args[0] != ("visitor",):
                    raise Invalid("another visitor")
                if m.endswith("_mut") != self.mutable:
                    raise Invalid("%s in a function that is the other kind" % m)
                v = self.place(v)
                while v[0] == "box":
                    v = v[1]
                if v[0] not in ("new", "tok"):
                    raise Invalid("%s of something else" % m)
                return self.of(v, m)
            raise Unsupported("method %s" % m)
        raise Unsupported("expression %s" % k)
