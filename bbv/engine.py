"""Dynamic symbolic execution of real Python code, on top of z3.

The code under test is imported from /repo/Code and *executed*; its inputs are
SymInt / SymBool proxies that carry z3 terms.  Whenever the code asks for the
truth value of a symbolic condition the path forks: the current run follows one
feasible side and the other side is queued as a decision prefix that is later
re-executed from the start.  Where CPython demands a machine value (list index,
hash, range bound, string formatting) the path forks over every feasible value
of the term.  Exploration is complete when no prefix is left: every value of the
declared inputs has then been covered by exactly one path.

This module must not be imported by the concrete replayer.
"""
import time
from fractions import Fraction
from . import term as T
from .term import Node

ENG = None  # current Path


class EngineStop(BaseException):
    """Base of path steering exceptions (never caught by `except Exception`)."""


class Infeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class PathTimeout(EngineStop):
    pass


class CheckFailed(EngineStop):
    """A property assertion is violated on the whole remaining path."""


MAX_VALUES = 400  # widest value fork


def _is_int(x):
    return isinstance(x, int)


def lift(x):
    """integer term of a value or None when it is not an integer."""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is int:
        return x
    if t is SymBool:
        return T.ite(x.e, 1, 0)
    if isinstance(x, int):
        return int(x)
    return None


def mk(e):
    return SymInt(e) if type(e) is Node else e


def rlift(x):
    """term (rational coefficients allowed) of a number, or None."""
    if type(x) is SymRat:
        return x.e
    if isinstance(x, Fraction):
        return x
    return lift(x)


def mkr(e):
    """Result of rational arithmetic."""
    if type(e) is Node:
        return SymInt(e) if T.denom(e) == 1 else SymRat(e)
    return e if isinstance(e, Fraction) else Fraction(e)


class SymRat:
    """A Fraction whose value is a term with rational coefficients."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _bin(f):
        def g(self, o):
            l = rlift(o)
            return NotImplemented if l is None else mkr(f(self.e, l))
        return g
    __add__ = __radd__ = _bin(lambda a, b: T.add(a, b))
    __mul__ = __rmul__ = _bin(lambda a, b: T.mul(a, b))
    __sub__ = _bin(lambda a, b: T.sub(a, b))
    __rsub__ = _bin(lambda a, b: T.sub(b, a))

    def __truediv__(self, o):
        l = rlift(o)
        if l is None:
            return NotImplemented
        if type(l) is Node:
            l = ENG.value(l)
        return mkr(T.scale(self.e, Fraction(1) / l))

    def __neg__(self):
        return mkr(T.neg(self.e))

    def __pow__(self, n):
        r = 1
        for _ in range(int(n)):
            r = self * r
        return r

    def _ncmp(op):
        def g(self, o):
            l = rlift(o)
            if l is None:
                if isinstance(o, float) and o in INFS:
                    pos = o > 0
                    return {"<": pos, "<=": pos, ">": not pos, ">=": not pos,
                            "==": False, "!=": True}[op]
                return NotImplemented
            d = T.sub(self.e, l)
            if op == "<=":
                return mkb(T.le0(d))
            if op == ">":
                return mkb(T.not_(T.le0(d)))
            if op == ">=":
                return mkb(T.le0(T.neg(d)))
            if op == "<":
                return mkb(T.not_(T.le0(T.neg(d))))
            if op == "==":
                return mkb(T.eq0(d))
            return mkb(T.not_(T.eq0(d)))
        return g
    __lt__, __le__, __gt__ = _ncmp("<"), _ncmp("<="), _ncmp(">")
    __ge__, __eq__, __ne__ = _ncmp(">="), _ncmp("=="), _ncmp("!=")

    def _integral(self):
        L = T.denom(self.e)
        return ENG.branch(T.eq0(T.mod(T.scale(self.e, L), L)))

    @property
    def denominator(self):
        # not reduced when it is not 1: only "== 1" is meaningful
        return 1 if self._integral() else T.denom(self.e)

    @property
    def numerator(self):
        if self._integral():
            return self._int()
        return mk(T.scale(self.e, T.denom(self.e)))

    def _int(self):
        L = T.denom(self.e)
        if not self._integral():
            raise Unsupported("truncating a symbolic fraction")
        return mk(T.div(T.scale(self.e, L), L))

    def __int__(self):
        return int(self._int())

    def __bool__(self):
        return ENG.branch(T.not_(T.eq0(self.e)))

    def __hash__(self):
        return hash(self.denominator and int(self))

    def __repr__(self):
        return "<rat>"
    __str__ = __repr__


def mkb(e):
    return SymBool(e) if type(e) is Node else e


def bterm(x):
    if type(x) is SymBool:
        return x.e
    if type(x) is SymInt:
        return T.not_(T.eq0(x.e))
    return bool(x)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkb(T.and_(self.e, bterm(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkb(T.or_(self.e, bterm(o)))
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return mkb(T.not_(self.e))

    def __xor__(self, o):
        b = bterm(o)
        return mkb(T.bite(b, T.not_(self.e), self.e))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkb(T.bite(bterm(o), self.e, T.not_(self.e)))
        l = lift(o)
        if l is None:
            return False
        return mkb(T.eq0(T.sub(lift(self), l)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def _i(self):
        return SymInt(lift(self))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o

    def __index__(self):
        return int(ENG.branch(self.e))
    __int__ = __index__

    def __hash__(self):
        return hash(ENG.branch(self.e))

    def __repr__(self):
        return ENG.fmt(self)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


INFS = (float("inf"), float("-inf"))


def _cmp(op):
    def f(self, o):
        l = lift(o)
        if l is None:
            if isinstance(o, float):
                if o in INFS:
                    pos = o > 0
                    return {"<": pos, "<=": pos, ">": not pos, ">=": not pos,
                            "==": False, "!=": True}[op]
                if o == int(o):
                    l = int(o)
                else:
                    import math
                    fl = math.floor(o)
                    if op == "==":
                        return False
                    if op == "!=":
                        return True
                    if op in ("<", "<="):
                        return mkb(T.le0(T.sub(self.e, fl)))
                    return mkb(T.not_(T.le0(T.sub(self.e, fl))))
            elif isinstance(o, Fraction):
                r = SymRat(self.e)
                return {"<": r.__lt__, "<=": r.__le__, ">": r.__gt__, ">=": r.__ge__,
                        "==": r.__eq__, "!=": r.__ne__}[op](o)
            else:
                return NotImplemented
        d = T.sub(self.e, l)
        if op == "<=":
            return mkb(T.le0(d))
        if op == "<":
            return mkb(T.le0(T.add(d, 1)))
        if op == ">=":
            return mkb(T.le0(T.neg(d)))
        if op == ">":
            return mkb(T.le0(T.sub(1, d)))
        if op == "==":
            return mkb(T.eq0(d))
        return mkb(T.not_(T.eq0(d)))
    return f


TO_BYTES = None     # stand-in for int.to_bytes of symbolic integers (set by a harness)


class SymInt:
    """A Python integer whose value is a z3 term."""
    __slots__ = ("e",)

    def to_bytes(self, *a, **k):
        return TO_BYTES(self, *a, **k) if TO_BYTES else int(self).to_bytes(*a, **k)

    def __init__(self, e):
        self.e = e

    __lt__ = _cmp("<")
    __le__ = _cmp("<=")
    __gt__ = _cmp(">")
    __ge__ = _cmp(">=")
    __eq__ = _cmp("==")
    __ne__ = _cmp("!=")

    def __bool__(self):
        return ENG.branch(T.not_(T.eq0(self.e)))

    def __hash__(self):
        return hash(ENG.value(self.e))

    def __index__(self):
        return ENG.value(self.e)

    def __int__(self):
        return ENG.value(self.e)

    def __float__(self):
        return float(ENG.value(self.e))

    def __repr__(self):
        return ENG.fmt(self)
    __str__ = __repr__

    def __format__(self, spec):
        if ENG.placeholder:
            return "<sym>"
        return format(ENG.value(self.e), spec)

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        l = lift(o)
        if l is None:
            if isinstance(o, Fraction):
                return mkr(T.add(self.e, o))
            if isinstance(o, float) and o in INFS:
                return o
            return NotImplemented
        return mk(T.add(self.e, l))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        l = lift(o)
        if l is None:
            if isinstance(o, Fraction):
                return mkr(T.sub(self.e, o))
            if isinstance(o, float) and o in INFS:
                return -o
            return NotImplemented
        return mk(T.sub(self.e, l))

    def __rsub__(self, o):
        l = lift(o)
        if l is None:
            if isinstance(o, Fraction):
                return mkr(T.sub(o, self.e))
            if isinstance(o, float) and o in INFS:
                return o
            return NotImplemented
        return mk(T.sub(l, self.e))

    def __mul__(self, o):
        l = lift(o)
        if l is None:
            if isinstance(o, Fraction):
                return mkr(T.mul(self.e, o))
            if isinstance(o, float) and o in INFS:
                if self > 0:
                    return o
                if self < 0:
                    return -o
                return float("nan")
            if isinstance(o, (list, tuple, str, bytes)):
                return o * ENG.value(self.e)
            return NotImplemented
        return mk(T.mul(self.e, l))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return mk(T.neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(T.ite(T.le0(T.neg(self.e)), self.e, T.neg(self.e)))

    def __floordiv__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return _divmod(self.e, l)[0]

    def __rfloordiv__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return _divmod(l, self.e)[0]

    def __mod__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return _divmod(self.e, l)[1]

    def __rmod__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return _divmod(l, self.e)[1]

    def __divmod__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return _divmod(self.e, l)

    def __rdivmod__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        return _divmod(l, self.e)

    def __truediv__(self, o):
        if isinstance(o, (int, SymInt, SymBool)):
            return ENG.value(self.e) / int(o)
        if isinstance(o, Fraction):
            return mkr(T.scale(self.e, 1 / o))
        return NotImplemented

    def __rtruediv__(self, o):
        return o / ENG.value(self.e)

    def __pow__(self, o, m=None):
        if isinstance(o, (SymInt, SymBool)):
            o = int(o)
        if isinstance(m, (SymInt, SymBool)):
            m = int(m)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            return ENG.value(self.e) ** o if m is None else pow(ENG.value(self.e), o, m)
        r = 1
        b = self
        if o > 64:
            b = ENG.value(self.e)
            return b ** o if m is None else pow(b, o, m)
        for _ in range(o):
            r = r * b
            if m is not None:
                r = r % m
        if m is not None:
            r = r % m
        return r

    def __rpow__(self, o, m=None):
        return pow(o, ENG.value(self.e), m)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << ENG.value(self.e)

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rrshift__(self, o):
        return o >> ENG.value(self.e)

    def __and__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            # x & o == x - (x & ~o)
            return self - (self & ~o)
        r = 0
        i = 0
        # contiguous low mask fast path
        if o & (o + 1) == 0:
            return self % (o + 1)
        while o >> i:
            if (o >> i) & 1:
                r = r + ((self // (1 << i)) % 2) * (1 << i)
            i += 1
        return r
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymInt):
            r = _disjoint_or(self, o)
            if r is None:
                r = _disjoint_or(o, self)
            if r is not None:
                return r
        if isinstance(o, (SymInt, SymBool)):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        return self + o - (self & o)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        return self + o - 2 * (self & o)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        return ENG.value(self.e).bit_length()


    def is_integer(self):
        return True

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def __round__(self, n=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __reduce__(self):
        # pickled by reference: a copy in the same path is the same integer
        PICKLED[id(self)] = self
        return (unpickle, (id(self),))


PICKLED = {}


def unpickle(i):
    return PICKLED[i]


def _disjoint_or(x, y):
    """x | y as x + y when x fits below the lowest bit of y."""
    l, h = T.bounds(x.e, ENG.box)
    if l is None or h is None or l < 0:
        return None
    r = y % (1 << h.bit_length())
    if isinstance(r, SymInt):
        c = r == 0
        if isinstance(c, SymBool):
            ENG.model()
            if ENG.query(T.not_(c.e)) != "unsat":
                return None
        elif not c:
            return None
    elif r != 0:
        return None
    return x + y


def _divmod(a, b):
    """Python floor division of integer terms (ZeroDivisionError included)."""
    b = ENG.simp(b)
    if type(b) is not Node:
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b < 0:
            na = T.neg(a)
            return mk(T.div(na, -b)), mk(T.neg(T.mod(na, -b)))
        return mk(T.div(a, b)), mk(T.mod(a, b))
    if ENG.branch(T.eq0(b)):
        raise ZeroDivisionError("integer division or modulo by zero")
    if ENG.branch(T.not_(T.le0(b))):
        return mk(T.div(a, b)), mk(T.mod(a, b))
    na, nb = T.neg(a), T.neg(b)
    return mk(T.div(na, nb)), mk(T.neg(T.mod(na, nb)))


class Stats:
    NUM = ("paths", "completed", "infeasible", "unsupported", "branches",
           "queries", "cache_hits", "asserts", "decided_by_solver", "solver_s",
           "unknown")

    def __init__(self):
        for k in self.NUM:
            setattr(self, k, 0)
        self.solver_s = 0.0
        self.max_depth = 0
        self.notes = {}

    def merge(self, o):
        for k in self.NUM:
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.max_depth = max(self.max_depth, o.max_depth)
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v


class Solver:
    """Query cache over z3: (set of constraint nodes) -> sat model / unsat."""

    def __init__(self, stats, query_ms):
        import z3
        z3.z3.Z3_DEBUG = False
        self.z3 = z3
        self.stats = stats
        self.ms = query_ms
        self.cache = {}
        self.vb = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.busy = 0   # start of the query under way

    def check(self, constraints):
        """constraints: iterable of bool Nodes.  -> ('sat', model)|('unsat',)|('unknown',)"""
        key = frozenset(constraints)
        r = self.cache.get(key)
        if r is not None:
            self.stats.cache_hits += 1
            return r
        if len(self.cache) > 200000:
            self.cache.clear()
        z3 = self.z3
        s = self.solver
        t = time.time()
        self.busy = t
        s.push()
        vs = set()
        for c in key:
            vs |= T.vars_of(c)
            s.add(T.to_z3(c))
        for v in vs:
            b = self.vb.get(v)
            if b is None:
                b = []
                if v.op == "var":
                    if v.args[1] is not None:
                        b.append(T.to_z3(v) >= v.args[1])
                    if v.args[2] is not None:
                        b.append(T.to_z3(v) <= v.args[2])
                b = z3.And(*b) if b else True
                self.vb[v] = b
            if b is not True:
                s.add(b)
        self.stats.queries += 1
        res = s.check()
        if res == z3.unknown:
            # a fresh solver with another strategy, once
            s2 = z3.SolverFor("QF_NIA")
            s2.set("timeout", self.ms)
            for a in s.assertions():
                s2.add(a)
            res = s2.check()
            src = s2
        else:
            src = s
        if res == z3.sat:
            m = src.model()
            d = {}
            for v in vs:
                val = m.eval(T.to_z3(v), model_completion=True)
                d[v.args[0]] = val.as_long() if v.op == "var" else z3.is_true(val)
            r = ("sat", d)
            memo = {}
            for c in key:
                if not T.evaluate(c, d, memo):
                    raise AssertionError("z3 model does not satisfy %r" % (c,))
        elif res == z3.unsat:
            r = ("unsat", None)
        else:
            r = ("unknown", None)
            self.stats.unknown += 1
        s.pop()
        self.stats.solver_s += time.time() - t
        self.busy = 0
        self.cache[key] = r
        return r


class Path:
    """One symbolic run that follows a decision prefix, then explores."""

    def __init__(self, prefix, stats, solver, placeholder=False):
        """prefix: (decisions, model) -- the model satisfies those decisions."""
        self.prefix, self.start_model = prefix
        self.decisions = []
        self.pending = []
        self.stats = stats
        self.placeholder = placeholder
        self.solver = solver
        self.constraints = []       # bool Nodes
        self.by_var = {}            # var -> constraint indices
        self.env = {}               # var -> known value
        self.box = {}               # var -> (lo, hi)
        self.memo = {}
        # models that satisfy the path so far (kept up to date after the prefix)
        self.cands = []
        self.inputs = {}            # name -> var node
        self.failure = None
        self.obligations = []
        self._seen_ob = set()

    # -- simplification ------------------------------------------------------
    def simp(self, e):
        if type(e) is not Node or not self.env:
            return e
        return T.subst(e, self.env, self.memo)

    def _box_decide(self, e):
        """Decide a comparison by interval arithmetic, or None."""
        if e.op == "le":
            l, h = T.bounds(e.args[0], self.box)
            if h is not None and h <= 0:
                return True
            if l is not None and l > 0:
                return False
        elif e.op == "eq":
            l, h = T.bounds(e.args[0], self.box)
            if (l is not None and l > 0) or (h is not None and h < 0):
                return False
        elif e.op == "not":
            r = self._box_decide(e.args[0])
            return None if r is None else not r
        elif e.op == "and":
            rs = [self._box_decide(a) for a in e.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        elif e.op == "or":
            rs = [self._box_decide(a) for a in e.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def _learn(self, e):
        if e.op == "and":
            for a in e.args:
                self._learn(a)
            return
        if e.op == "bvar":
            self._set(e, True)
            return
        if e.op == "not":
            x = e.args[0]
            if x.op == "bvar":
                self._set(x, False)
            elif x.op == "eq":
                c, d = T.parts(x.args[0])
                if len(d) == 1:
                    (m, k), = d.items()
                    if len(m) == 1 and m[0].op == "var" and abs(k) == 1:
                        v = m[0]
                        val = -c * k
                        lo, hi = self.box.get(v, v.args[1:])
                        if lo is not None and lo == val:
                            self._bound(v, lo + 1, hi)
                        elif hi is not None and hi == val:
                            self._bound(v, lo, hi - 1)
            return
        if e.op not in ("eq", "le"):
            return
        c, d = T.parts(e.args[0])
        if len(d) != 1:
            return
        (m, k), = d.items()
        if len(m) != 1 or m[0].op != "var":
            return
        v = m[0]
        if e.op == "eq":
            if c % k == 0:
                self._set(v, -c // k)
            return
        lo, hi = self.box.get(v, v.args[1:])
        if k > 0:           # k v + c <= 0 : v <= floor(-c/k)
            b = (-c) // k
            if hi is None or b < hi:
                self._bound(v, lo, b)
        else:               # v >= ceil(c/-k)
            b = -((-c) // (-k))
            if lo is None or b > lo:
                self._bound(v, b, hi)

    def _bound(self, v, lo, hi):
        self.box[v] = (lo, hi)
        if lo is not None and lo == hi:
            self._set(v, lo)

    def _set(self, v, val):
        self.env[v] = val
        if v.op == "var":
            self.box[v] = (val, val)
        self.memo.clear()

    def add(self, e):
        """Add a constraint known to be consistent (or to be checked later)."""
        if e is True:
            return
        if e is False:
            raise Infeasible()
        i = len(self.constraints)
        self.constraints.append(e)
        for v in T.vars_of(e):
            self.by_var.setdefault(v, []).append(i)
        self._learn(e)
        if self.cands:
            self.cands = [(m, mm) for m, mm in self.cands
                          if T.evaluate(e, m, mm)]

    # -- solver ----------------------------------------------------------------
    def slice(self, e):
        """Constraints that share variables (transitively) with e, known values
        substituted."""
        env = self.env
        seen_v = set()
        seen_c = set()
        out = []
        todo = [v for v in T.vars_of(e) if v not in env]
        while todo:
            v = todo.pop()
            if v in seen_v:
                continue
            seen_v.add(v)
            for i in self.by_var.get(v, ()):
                if i not in seen_c:
                    seen_c.add(i)
                    c = self.simp(self.constraints[i])
                    if c is True:
                        continue
                    if c is False:
                        raise Infeasible()
                    out.append(c)
                    for w in T.vars_of(c):
                        if w not in seen_v:
                            todo.append(w)
        return out

    def query(self, e):
        """Is path & e satisfiable?  Returns 'sat'|'unsat'|'unknown'; a model goes
        to the candidate list."""
        if e is True:
            e = None
        elif e is False:
            return "unsat"
        else:
            for m, mm in self.cands:
                if T.evaluate(e, m, mm):
                    self.hit = m
                    return "sat"
        cs = self.slice(e) + [e] if e is not None else list(self.constraints)
        r, d = self.solver.check(cs)
        if r == "sat":
            m = dict(self.model())
            m.update(d)
            mm = {}
            for c in self.constraints:
                if not T.evaluate(c, m, mm):
                    raise AssertionError("composed model fails %r" % (c,))
            self.hit = m
        return r

    def model(self):
        """A model of the path condition."""
        if self.start_model is not None:
            m, self.start_model = self.start_model, None
            mm = {}
            if all(T.evaluate(c, m, mm) for c in self.constraints):
                self.cands.append((m, mm))
        if not self.cands:
            r, d = self.solver.check(self.constraints)
            if r == "unsat":
                raise Infeasible()
            if r == "unknown":
                raise Unsupported("solver unknown on path condition")
            self.cands.append((dict(d), {}))
        return self.cands[0][0]

    def assume(self, cond):
        e = self.simp(bterm(cond))
        if e is True:
            return
        if e is False:
            raise Infeasible()
        self.add(e)
        if len(self.decisions) >= len(self.prefix):
            self.model()

    # -- forking -----------------------------------------------------------------
    def branch(self, e):
        e = self.simp(e)
        if type(e) is not Node:
            return bool(e)
        b = self._box_decide(e)
        if b is not None:
            return b
        self.stats.branches += 1
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != "b":
                raise Unsupported("non-deterministic re-execution")
            self.decisions.append(d)
            self.add(e if d[1] else T.not_(e))
            return d[1]
        m = self.model()
        self.hit = None
        side = bool(T.evaluate(e, m, {}))
        other = T.not_(e) if side else e
        r = self.query(other)
        if r != "unsat":
            self.pending.append((self.decisions + [("b", not side)],
                                 self.hit))
        self.decisions.append(("b", side))
        self.add(e if side else T.not_(e))
        return side

    def value(self, e):
        """Fork over all feasible values of the integer term e."""
        n = 0
        first = True
        while True:
            e = self.simp(e)
            if type(e) is not Node:
                return e
            l, h = T.bounds(e, self.box)
            if l is not None and l == h:
                return l
            if first:
                self.stats.branches += 1
                first = False
            i = len(self.decisions)
            if i < len(self.prefix):
                d = self.prefix[i]
                if d[0] != "v":
                    raise Unsupported("non-deterministic re-execution")
                self.decisions.append(d)
                n += 1
                q = T.eq0(T.sub(e, d[1]))
                if d[2]:
                    self.add(q)
                    return d[1]
                self.add(T.not_(q))
                continue
            m = self.model()
            self.hit = None
            v = T.evaluate(e, m, {})
            if n >= MAX_VALUES:
                raise Unsupported("more than %d feasible values where a "
                                  "concrete integer is needed" % MAX_VALUES)
            q = T.eq0(T.sub(e, v))
            r = self.query(T.not_(q))
            if r != "unsat":
                self.pending.append((self.decisions + [("v", v, False)],
                                     self.hit))
            self.decisions.append(("v", v, True))
            self.add(q)
            return v

    def fmt(self, x):
        if self.placeholder:
            return "<sym>"
        return repr(self.value(x.e)) if type(x) is SymInt else repr(bool(x))

    # -- property assertions -------------------------------------------------------
    def prove(self, cond, msg, now=False):
        """path => cond.  Decided at the end of the path (or at once)."""
        self.stats.asserts += 1
        e = self.simp(bterm(cond))
        if e is True:
            return
        if e is False:
            self.failure = (msg, self.assignment(self.model()))
            raise CheckFailed(msg)
        if now:
            self._decide(e, msg)
            self.add(e)
        elif e not in self._seen_ob:
            self._seen_ob.add(e)
            self.obligations.append((e, msg))

    def _decide(self, e, msg):
        e = self.simp(e)
        if e is True:
            return
        if e is not False:
            b = self._box_decide(e)
            if b is True:
                return
        self.stats.decided_by_solver += 1
        self.model()
        r = self.query(T.not_(e))
        if r == "unknown":
            raise Unsupported("solver unknown on assertion: " + msg)
        if r == "sat":
            self.failure = (msg, self.assignment(self.hit))
            raise CheckFailed(msg)

    def finish(self):
        """Decide the obligations of a path that ran to its end."""
        obs, self.obligations = self.obligations, []
        for e, msg in obs:
            self._decide(e, msg)

    def assignment(self, m=None):
        if m is None:
            m = self.model()
        out = {}
        for name, c in self.inputs.items():
            v = m.get(name)
            out[name] = T.default(c) if v is None else v
        return out



class SymCtx:
    """Input source and assertion sink handed to a harness (symbolic mode)."""
    symbolic = True

    def __init__(self, path):
        self.path = path

    def int(self, name, lo=None, hi=None):
        assert name not in self.path.inputs, name
        if lo is not None and lo == hi:
            return lo
        c = T.var(name, lo, hi)
        self.path.inputs[name] = c
        return SymInt(c)

    def bool(self, name):
        assert name not in self.path.inputs, name
        c = T.bvar(name)
        self.path.inputs[name] = c
        return SymBool(c)

    def choice(self, name, n):
        """A symbolic selector that is forked immediately: 0..n-1."""
        return int(self.int(name, 0, n - 1))

    def assume(self, cond):
        self.path.assume(cond)

    def check(self, cond, msg):
        self.path.prove(cond, msg)

    def check_now(self, cond, msg):
        """Decide at once and use as a lemma from here on."""
        self.path.prove(cond, msg, now=True)

    def fail(self, msg):
        self.path.prove(False, msg)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        return mk(T.ite(bterm(c), lift(a), lift(b)))

    def And(self, *cs):
        return mkb(T.and_(*[bterm(c) for c in cs]))

    def Or(self, *cs):
        return mkb(T.or_(*[bterm(c) for c in cs]))

    def Not(self, c):
        return mkb(T.not_(bterm(c)))

    def implies(self, a, b):
        return mkb(T.or_(T.not_(bterm(a)), bterm(b)))

    def concrete(self, x):
        return int(x) if isinstance(x, (SymInt, SymBool)) else x

    def known(self, x):
        """The value of x when the path already determines it syntactically."""
        if type(x) is SymInt:
            return mk(self.path.simp(x.e))
        return x

    def must(self, cond):
        """Is cond certain on this path?  (no fork)"""
        e = self.path.simp(bterm(cond))
        if type(e) is not Node:
            return e
        self.path.model()
        return self.path.query(T.not_(e)) == "unsat"

    def note(self, key):
        s = self.path.stats.notes
        s[key] = s.get(key, 0) + 1
