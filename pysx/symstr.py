"""Strings of symbolic characters, and the transformation of the module under
test that lets its code work on them."""
import ast
import builtins
import z3
import engine
from engine import SBool, SInt, zint


def conj(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    return z3.And(*cs) if cs else True


def same(a, b):
    """Condition that two characters are equal."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return zint(a) == zint(b)


class SStr:
    """A string whose characters are code points, symbolic or not."""

    def __init__(self, e):
        self.e = tuple(e)

    @staticmethod
    def of(x):
        return x if isinstance(x, SStr) else SStr(map(ord, x))

    @staticmethod
    def make(e):
        """A plain string if nothing about it is symbolic."""
        e = tuple(e)
        if all(isinstance(c, int) for c in e):
            return "".join(map(chr, e))
        return SStr(e)

    def real(self):
        return "".join(chr(engine.cur.choose(c)) for c in self.e)

    def _eq(self, o):
        if not isinstance(o, (str, SStr)):
            return False
        o = SStr.of(o)
        if len(o.e) != len(self.e):
            return False
        return conj([same(a, b) for a, b in zip(self.e, o.e)])

    def __eq__(self, o):
        c = self._eq(o)
        return c if isinstance(c, bool) else SBool(c)

    def __ne__(self, o):
        c = self._eq(o)
        return not c if isinstance(c, bool) else SBool(z3.Not(c))

    def __hash__(self):
        return hash(self.real())

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return bool(self.e)

    def __iter__(self):
        return iter([SStr.make((c,)) for c in self.e])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SStr.make(self.e[i])
        return SStr.make((self.e[i],))

    def __add__(self, o):
        return SStr(self.e + SStr.of(o).e) if isinstance(o, (str, SStr)) else NotImplemented

    def __radd__(self, o):
        return SStr(SStr.of(o).e + self.e) if isinstance(o, (str, SStr)) else NotImplemented

    def __mul__(self, n):
        return SStr(self.e * n)

    def _at(self, o, i):
        o = SStr.of(o)
        if i < 0 or i + len(o.e) > len(self.e):
            return False
        return conj([same(a, b) for a, b in zip(self.e[i:], o.e)])

    def startswith(self, o, start=0):
        for x in o if isinstance(o, tuple) else (o,):
            if engine.cur.fork(self._at(x, start)):
                return True
        return False

    def endswith(self, o):
        for x in o if isinstance(o, tuple) else (o,):
            if engine.cur.fork(self._at(x, len(self.e) - len(SStr.of(x).e))):
                return True
        return False

    def __contains__(self, o):
        n = len(SStr.of(o).e)
        cs = [self._at(o, i) for i in range(len(self.e) - n + 1)]
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return engine.cur.fork(z3.Or(*cs)) if cs else False

    def removeprefix(self, o):
        return self[len(SStr.of(o)):] if self.startswith(o) else self

    def removesuffix(self, o):
        return self[:len(self) - len(SStr.of(o))] if self.endswith(o) else self

    def join(self, parts):
        return join(self, parts)

    def _find(self, o, lo=None, hi=None, back=False):
        lo, hi, _ = slice(lo, hi).indices(len(self.e))
        n = len(SStr.of(o).e)
        r = range(lo, hi - n + 1)
        for i in reversed(r) if back else r:
            if engine.cur.fork(self._at(o, i)):
                return i
        return -1

    def find(self, o, lo=None, hi=None):
        return self._find(o, lo, hi)

    def rfind(self, o, lo=None, hi=None):
        return self._find(o, lo, hi, True)

    def index(self, o, lo=None, hi=None):
        i = self._find(o, lo, hi)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, o, lo=None, hi=None):
        i = self._find(o, lo, hi, True)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def split(self, sep=None, most=-1):
        if sep is None:
            return self.real().split(None, most)
        out, at, n = [], 0, len(SStr.of(sep).e)
        while most < 0 or len(out) < most:
            i = self._find(sep, at)
            if i < 0:
                break
            out.append(self[at:i])
            at = i + n
        return out + [self[at:]]

    def count(self, o, lo=None, hi=None):
        lo, hi, _ = slice(lo, hi).indices(len(self.e))
        if not len(SStr.of(o).e):
            return max(hi - lo + 1, 0)
        return len(SStr.of(self[lo:hi]).split(o)) - 1

    def replace(self, a, b, most=-1):
        if not len(SStr.of(a).e):
            return self.real().replace(a, b, most)
        return join(b, self.split(a, most))

    def partition(self, o):
        i = self._find(o)
        return (SStr.make(self.e), "", "") if i < 0 else (self[:i], o, self[i + len(SStr.of(o).e):])

    def rpartition(self, o):
        i = self._find(o, back=True)
        return ("", "", SStr.make(self.e)) if i < 0 else (self[:i], o, self[i + len(SStr.of(o).e):])

    def _strip(self, chars, left, right):
        chars = SStr.of(SPACE if chars is None else chars)
        lo, hi = 0, len(self.e)
        while left and lo < hi and self[lo] in Chars(chars):
            lo += 1
        while right and lo < hi and self[hi - 1] in Chars(chars):
            hi -= 1
        return self[lo:hi]

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def translate(self, table):
        out = []
        for c in self.e:
            x = pick(table, c if isinstance(c, int) else SInt(c), c)
            if x is None:
                continue
            out += [x] if isinstance(x, int) or isinstance(x, z3.ExprRef) else SStr.of(x).e
        return SStr.make(out)

    def _all(self, method):
        cs = []
        for c in self.e:
            if isinstance(c, int):
                if not getattr(chr(c), method)():
                    return False
            else:
                cs.append(z3.Or(*[z3.And(c >= a, c <= b) if a != b else c == a for a, b in intervals(method)]))
        return engine.cur.fork(z3.And(*cs)) if cs else True

    def isascii(self):
        return self._all("isascii")

    def isprintable(self):
        return self._all("isprintable")

    def isalnum(self):
        return bool(self.e) and self._all("isalnum")

    def isalpha(self):
        return bool(self.e) and self._all("isalpha")

    def isdigit(self):
        return bool(self.e) and self._all("isdigit")

    def isdecimal(self):
        return bool(self.e) and self._all("isdecimal")

    def isnumeric(self):
        return bool(self.e) and self._all("isnumeric")

    def isspace(self):
        return bool(self.e) and self._all("isspace")

    # Order and everything else a string can do: case-split.
    def __lt__(self, o):
        if isinstance(o, (str, SStr)) and len(self.e) == len(SStr.of(o).e) == 1:
            return SInt(self.e[0]) < SInt(SStr.of(o).e[0])
        return self.real() < (o.real() if isinstance(o, SStr) else o)

    def __le__(self, o):
        return not o < self

    def __gt__(self, o):
        return SStr.of(o) < self

    def __ge__(self, o):
        return not self < o

    def __str__(self):
        return self.real()

    def __format__(self, spec):
        return format(self.real(), spec)

    def __repr__(self):
        # For messages.
        return "<text>"

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return getattr(self.real(), a)


SPACE = "".join(chr(c) for c in range(0x3001) if chr(c).isspace())
INTERVALS = {}


def intervals(method):
    """The code points for which a method of str holds."""
    if method not in INTERVALS:
        out = []
        for c in range(0x110000):
            if getattr(chr(c), method)():
                if out and out[-1][1] == c - 1:
                    out[-1][1] = c
                else:
                    out.append([c, c])
        INTERVALS[method] = out
    return INTERVALS[method]


class Chars:
    """The characters of a string as a set."""

    def __init__(self, s):
        self.s = s

    def __contains__(self, c):
        return self.s.__contains__(c)


def symbolic(k):
    return isinstance(k, (SStr, SInt)) or (type(k) is tuple and any(symbolic(x) for x in k))


MISSING = object()


def pick(d, k, default=MISSING):
    """d[k], without asking for the hash of a symbolic key."""
    if isinstance(d, dict) and symbolic(k):
        for x in d:
            if x is not None and x == k:
                return d[x]
        if default is MISSING:
            if hasattr(type(d), "__missing__"):
                return d[k]
            raise KeyError("<text>")
        return default
    if default is MISSING:
        return d[k]
    return d.get(k, default)


def get(d, *a, **kw):
    if isinstance(d, dict) and not kw and a and symbolic(a[0]):
        return pick(d, a[0], a[1] if len(a) > 1 else None)
    return d.get(*a, **kw)


def mod(a, b):
    """a % b."""
    if type(a) is str and (symbolic(b) or isinstance(b, tuple)):
        args = list(b) if isinstance(b, tuple) else [b]
        if any(symbolic(x) for x in args):
            import re
            parts = re.split("(%[a-z%])", a)
            out = []
            for x in parts:
                if x == "%%":
                    out.append("%")
                elif x == "%s":
                    y = args.pop(0)
                    out.append(y if isinstance(y, (str, SStr)) else str(y))
                elif x[:1] == "%" and len(x) == 2:
                    y = args.pop(0)
                    out.append("<text>" if x == "%r" and symbolic(y) else x % y)
                else:
                    out.append(x)
            return join("", out)
    return a % b


def fmt(s, *a, **kw):
    """s.format(...)."""
    if type(s) is str and any(symbolic(x) for x in [*a, *kw.values()]):
        import string
        out, n = [], 0
        for text, field, spec, conv in string.Formatter().parse(s):
            out.append(text)
            if field is None:
                continue
            if field == "":
                field, n = str(n), n + 1
            v = a[int(field)] if field.isdigit() else kw[field] if field in kw else MISSING
            if v is MISSING or (symbolic(v) and (spec or conv)):
                return "<text>"
            out.append(v if isinstance(v, (str, SStr)) else format(v, spec))
        return join("", out)
    return s.format(*a, **kw)


def join(sep, parts):
    if not isinstance(sep, (str, SStr)):
        return sep.join(parts)
    out = []
    for k, x in enumerate(parts):
        if k:
            out += SStr.of(sep).e
        if not isinstance(x, (str, SStr)):
            raise TypeError("join of something that is not a string")
        out += SStr.of(x).e
    return SStr.make(out)


def contains(a, b):
    """a in b."""
    if isinstance(a, SStr) and isinstance(b, str):
        return SStr.of(b).__contains__(a)
    if symbolic(a) and isinstance(b, (dict, set, frozenset)):
        return any(bool(x == a) for x in b)
    return a in b


def fstr(*parts):
    return join("", [x if isinstance(x, (str, SStr)) else format(x) for x in parts])


def sint(x=0, base=None):
    if isinstance(x, SStr):
        if base not in (10, 16):
            return int(x.real(), *([] if base is None else [base]))
        v = 0
        for c in x.e:
            if isinstance(c, int):
                d = int(chr(c), base)
            else:
                ok = z3.And(c >= 48, c <= 57)
                d = c - 48
                if base == 16:
                    ok = z3.Or(ok, z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))
                    d = z3.If(c >= 97, c - 87, z3.If(c >= 65, c - 55, d))
                if not engine.cur.fork(ok):
                    raise ValueError("invalid literal")
            v = v * base + d
        return v if isinstance(v, int) else SInt(z3.simplify(v))
    if type(x) is SInt:
        return x
    return int(x) if base is None else int(x, base)


def sord(x):
    if isinstance(x, SStr):
        if len(x.e) != 1:
            raise TypeError("ord() expected a character")
        c = x.e[0]
        return c if isinstance(c, int) else SInt(c)
    return ord(x)


def schr(x):
    if type(x) is SInt:
        if not engine.cur.fork(z3.And(x.v >= 0, x.v <= 0x10FFFF)):
            raise ValueError("chr() arg not in range")
        return SStr((x.v,))
    return chr(x)


def slen(x):
    f = getattr(type(x), "symbolic_len", None)
    return f(x) if f else len(x)


def sstr(*a):
    return a[0] if len(a) == 1 and isinstance(a[0], SStr) else str(*a)


def sisinstance(x, t):
    if isinstance(t, tuple):
        return any(sisinstance(x, y) for y in t)
    if t is sstr or t is str:
        return isinstance(x, (str, SStr, engine.Name))
    if t is sint or t is int:
        return isinstance(x, (int, SInt))
    return isinstance(x, t)


# str.title and the like, found by name on our stand-in for str.
for _n in dir(str):
    if not _n.startswith("__"):
        setattr(sstr, _n, getattr(str, _n))

def sprint(*a, **kw):
    """What is printed is of no interest."""


NAMES = {"print": sprint, "int": sint, "ord": sord, "chr": schr, "len": slen, "str": sstr, "isinstance": sisinstance}


class Transform(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__in__", ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def visit_JoinedStr(self, n):
        # Only plain replacement fields are ours.
        for v in n.values:
            if isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion != -1):
                return self.generic_visit(n)
        self.generic_visit(n)
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        return ast.copy_location(ast.Call(ast.Name("__fstr__", ast.Load()), parts, []), n)

    def visit_Import(self, n):
        """import re binds a stand-in."""
        if any(x.name == "re" for x in n.names):
            out = [ast.copy_location(ast.Assign([ast.Name(x.asname or "re", ast.Store())], ast.Name("__re__", ast.Load())), n) for x in n.names if x.name == "re"]
            rest = [x for x in n.names if x.name != "re"]
            if rest:
                out.append(ast.copy_location(ast.Import(rest), n))
            return out
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not any(isinstance(x, ast.Slice) for x in ast.walk(n.slice)):
            return ast.copy_location(ast.Call(ast.Name("__item__", ast.Load()), [n.value, n.slice], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__mod__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AnnAssign(self, n):
        # Leave annotations alone.
        n.value = self.visit(n.value) if n.value else None
        return n

    def visit_arg(self, n):
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "format"):
            f = {"get": "__get__", "format": "__fmt__"}[n.func.attr]
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.func.value] + n.args, n.keywords), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1:
            return ast.copy_location(ast.Call(ast.Name("__join__", ast.Load()), [n.func.value, n.args[0]], []), n)
        return n


def compiled(source, path):
    return compile(ast.fix_missing_locations(Transform().visit(ast.parse(source))), path, "exec")


def names():
    import rx
    return dict(NAMES, __re__=rx.Re(), __in__=contains, __item__=pick, __get__=get, __mod__=mod, __fmt__=fmt, __fstr__=fstr, __join__=join, __builtins__=builtins)
