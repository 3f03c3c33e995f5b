"""Symbolic execution of ordinary Python code.

A harness is a function that draws symbolic values and runs the real code on
proxies for them.  Whenever the code branches on a proxy, both outcomes that the
solver finds feasible are explored, by running the harness again with the
decisions made so far fixed.  Assertions are decided by the solver for all
values that satisfy the path condition.  With a list of inputs given, the same
harness runs on plain values instead (replay).
"""
import multiprocessing
import signal
import time
import z3


class Stop(BaseException):
    """Path is infeasible or finished."""


class Failed(BaseException):
    def __init__(self, text):
        self.text = text


class Hang(BaseException):
    pass


class Unsupported(BaseException):
    """The code does something that is not modelled: nothing is known."""


class Path:
    """One execution: symbolic if inputs is None."""

    def __init__(self, prefix=(), inputs=None):
        self.prefix = list(prefix)
        self.taken = []
        self.inputs = inputs
        self.vars = []
        self.bounds = []
        self.solver = z3.Solver()
        self.alternatives = []
        self.queries = self.sat = self.unsat = 0
        self.solver_s = 0.0
        self.asserted = self.needed = 0
        self.covered = set()
        self.observed = []
        self.values = {}
        self.undecided = None

    # Values.
    def var(self, lo, hi):
        k = len(self.vars)
        if self.inputs is not None:
            v = self.inputs[k] if k < len(self.inputs) else lo
            if not lo <= v <= hi:
                raise Stop()
            v = z3.IntVal(v)
        else:
            v = z3.Int("v%d" % k)
            self.solver.add(v >= lo, v <= hi)
        self.vars.append(v)
        self.bounds.append((lo, hi))
        return v

    def number(self, lo, hi):
        """A symbolic number (a plain one when replaying)."""
        v = self.var(lo, hi)
        return v.as_long() if self.inputs is not None else v

    def choice(self, n):
        """A symbolic number below n, case-split."""
        return self.concrete(self.var(0, n - 1), 0, n - 1)

    def flag(self):
        return self.choice(2) == 1

    def concrete(self, v, lo, hi):
        for x in range(lo, hi):
            if self.fork(v == x):
                return x
        self.assume(v == hi)
        return hi

    # Solver.
    def query(self, *cs):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*cs)
        self.solver_s += time.time() - t
        if r == z3.sat:
            self.sat += 1
            return True
        if r == z3.unsat:
            self.unsat += 1
            return False
        raise RuntimeError("solver gave no answer")

    def fork(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            # The path so far is feasible, so one of the two is.
            d = self.query(c)
            if d and self.query(z3.Not(c)):
                self.alternatives.append(self.taken + [False])
        self.taken.append(d)
        self.solver.add(c if d else z3.Not(c))
        return d

    def choose(self, v):
        """A value of an expression; the others are left to other paths."""
        if isinstance(v, int):
            return v
        v = z3.simplify(v)
        while not z3.is_int_value(v):
            k = len(self.taken)
            if k < len(self.prefix):
                d, x = self.prefix[k]
            else:
                if not self.query():
                    raise Stop()
                d, x = True, self.solver.model().eval(v, model_completion=True).as_long()
                if self.query(v != x):
                    self.alternatives.append(self.taken + [(False, x)])
            self.taken.append((d, x))
            self.solver.add(v == x if d else v != x)
            if d:
                return x
        return v.as_long()

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Stop()
            return
        c = z3.simplify(c)
        if z3.is_false(c):
            raise Stop()
        if not z3.is_true(c):
            self.solver.add(c)
            if len(self.taken) >= len(self.prefix) and not self.query():
                raise Stop()

    def check(self, c, text):
        """Must hold for every value on this path."""
        self.asserted += 1
        if isinstance(c, bool):
            if not c:
                raise Failed(text)
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.needed += 1
        if z3.is_false(c) or self.query(z3.Not(c)):
            self.solver.add(z3.Not(c))
            raise Failed(text)

    def cover(self, what):
        self.covered.add(what)

    def observe(self, x):
        self.observed.append(x)

    def model(self):
        if not self.query():
            raise Stop()
        m = self.solver.model()
        ev = lambda v: m.eval(v, model_completion=True).as_long()
        # What was observed, for these values.
        self.observed = [ev(x) if isinstance(x, z3.ExprRef) else x for x in self.observed]
        return [ev(v) for v in self.vars]


cur = None


class SBool:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return cur.fork(self.c)


def zint(x):
    return z3.IntVal(x) if isinstance(x, int) else x.v if isinstance(x, SInt) else x


class SInt:
    """A symbolic number."""

    def __init__(self, v):
        self.v = zint(v)

    def _b(self, f, o):
        if not isinstance(o, (int, SInt)):
            return NotImplemented
        c = z3.simplify(f(self.v, zint(o)))
        return True if z3.is_true(c) else False if z3.is_false(c) else SBool(c)

    def _i(self, f, o):
        if not isinstance(o, (int, SInt)):
            return NotImplemented
        c = z3.simplify(f(self.v, zint(o)))
        return c.as_long() if z3.is_int_value(c) else SInt(c)

    def __eq__(self, o):
        r = self._b(lambda a, b: a == b, o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._b(lambda a, b: a != b, o)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._b(lambda a, b: a < b, o)

    def __le__(self, o):
        return self._b(lambda a, b: a <= b, o)

    def __gt__(self, o):
        return self._b(lambda a, b: a > b, o)

    def __ge__(self, o):
        return self._b(lambda a, b: a >= b, o)

    def __add__(self, o):
        return self._i(lambda a, b: a + b, o)

    def __radd__(self, o):
        return self._i(lambda a, b: b + a, o)

    def __sub__(self, o):
        return self._i(lambda a, b: a - b, o)

    def __rsub__(self, o):
        return self._i(lambda a, b: b - a, o)

    def __mul__(self, o):
        return self._i(lambda a, b: a * b, o)

    __rmul__ = __mul__

    def __neg__(self):
        return SInt(-self.v)

    def __bool__(self):
        return cur.fork(self.v != 0)

    # Where a plain number is needed: case-split.
    def __index__(self):
        return cur.choose(self.v)

    __int__ = __index__

    def __hash__(self):
        return hash(int(self))

    def __format__(self, spec):
        return format(int(self), spec)

    def __str__(self):
        return str(int(self))

    __repr__ = __str__


class Name:
    """A string out of a fixed list, chosen by a symbolic number."""

    def __init__(self, var, names):
        self.var = var
        self.names = names

    def _is(self, o):
        if isinstance(o, Name):
            return z3.Or([z3.And(self.var == i, o.var == k) for i, a in enumerate(self.names) for k, b in enumerate(o.names) if a == b])
        if isinstance(o, str):
            if o in self.names:
                return self.var == self.names.index(o)
        return z3.BoolVal(False)

    def __eq__(self, o):
        return SBool(self._is(o))

    def __ne__(self, o):
        return SBool(z3.Not(self._is(o)))

    def real(self):
        return self.names[cur.concrete(self.var, 0, len(self.names) - 1)]

    def __hash__(self):
        return hash(self.real())

    def __format__(self, spec):
        return "<name>"

    def __str__(self):
        return "<name>"

    def __repr__(self):
        return "<name>"

    # Anything else a string can do: case-split.
    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return getattr(self.real(), a)

    def __lt__(self, o):
        return self.real() < o

    def __contains__(self, o):
        return o in self.real()

    def __len__(self):
        return len(self.real())

    def __iter__(self):
        return iter(self.real())

    def __add__(self, o):
        return self.real() + o

    def __radd__(self, o):
        return o + self.real()

    def __bool__(self):
        return True


def name(names):
    """A symbolic name (a plain string when replaying)."""
    v = cur.var(0, len(names) - 1)
    if cur.inputs is not None:
        return names[v.as_long()]
    return Name(v, names)


def is_name(n, s):
    """Condition that a (symbolic) name is the other one."""
    if isinstance(n, Name):
        return n._is(s)
    if isinstance(s, Name):
        return s._is(n)
    return z3.BoolVal(n == s)


def alarm(*_):
    raise Hang()


def execute(entry, prefix=(), inputs=None, seconds=20):
    """Run one path. Gives (path, violation text or None)."""
    global cur
    cur = p = Path(prefix, inputs)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)
    try:
        entry(p)
        return p, None, True
    except Stop:
        return p, None, False
    except Failed as e:
        return p, e.text, True
    except Unsupported as e:
        p.undecided = str(e)
        return p, None, False
    except Hang:
        return p, "does not come to an end", True
    except RecursionError:
        return p, "recurses without end", True
    except (Exception, SystemExit) as e:
        return p, "raised %s: %s" % (type(e).__name__, e), True
    finally:
        signal.alarm(0)


def explore(job):
    """All paths below a prefix, up to a number of them."""
    entry, prefixes, limit, deadline = job
    st = dict(paths=0, cut=0, forks=0, queries=0, sat=0, unsat=0, solver_s=0.0, asserted=0, needed=0, covered=set(), samples=[], violations=[], undecided=set(), left=[], inputs=0)
    work = list(prefixes)
    while work:
        if st["paths"] + st["cut"] >= limit or time.time() > deadline:
            break
        p, bad, done = execute(entry, work.pop())
        work += p.alternatives
        st["forks"] += len(p.alternatives)
        st["paths" if done else "cut"] += 1
        for k in ("queries", "sat", "unsat", "solver_s", "asserted", "needed"):
            st[k] += getattr(p, k)
        st["covered"] |= p.covered
        if p.undecided:
            st["undecided"].add(p.undecided)
        st["inputs"] = max(st["inputs"], len(p.vars))
        if bad is not None:
            try:
                st["violations"].append((bad, p.model()))
            except Stop:
                st["violations"].append((bad, None))
            break
        # Every power of two, then every 50th.
        n = st["paths"]
        if done and (n & (n - 1) == 0 or n % 50 == 0):
            st["samples"].append((p.model(), p.observed))
    st["left"] = work
    return st


def run(entry, deadline, pool):
    """All paths of a harness entry."""
    total = None

    def add(st):
        nonlocal total
        if total is None:
            total = st
            return
        for k, v in st.items():
            if k == "left":
                pass
            elif isinstance(v, set):
                total[k] |= v
            elif isinstance(v, list):
                total[k] += v
            elif k == "inputs":
                total[k] = max(total[k], v)
            else:
                total[k] += v

    t = time.time()
    st = explore((entry, [[]], 12, deadline))
    left = st["left"]
    add(st)
    while left and not total["violations"] and time.time() < deadline:
        # Deal the open prefixes out again and again, so that none idles long.
        n = min(len(left), 32)
        few = len(left) < 64
        parts = [left[i::n] for i in range(n)]
        left = []
        for st in pool.imap_unordered(explore, [(entry, x, 20 if few else 100, deadline) for x in parts]):
            left += st["left"]
            add(st)
    total["left"] = len(left)
    total["wall_s"] = round(time.time() - t, 2)
    return total


def make_pool():
    return multiprocessing.get_context("fork").Pool(8)
