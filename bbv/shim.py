"""Import the real modules of /repo/Code, and (symbolic mode) let them compute
with SymInt: the names `int`, `isinstance`, `type`, `max`, `min`, `float` seen by
the repo's modules are replaced by versions that know the proxies.  Nothing else
of the code under test is replaced unless a harness says so."""
import builtins
import importlib
import os
import sys
import types

REPO = os.environ.get("BBV_REPO", "/repo")
CODE = os.path.join(REPO, "Code")


def setup_path():
    sys.dont_write_bytecode = True
    if CODE not in sys.path:
        sys.path.insert(0, CODE)
    sp = "/opt/venv/lib/python3.12/site-packages"
    if os.path.isdir(sp) and sp not in sys.path:
        sys.path.append(sp)


def stub_mpi():
    if "mpi4py" not in sys.modules:
        m = types.ModuleType("mpi4py")
        m.MPI = types.SimpleNamespace(COMM_WORLD=None)
        sys.modules["mpi4py"] = m


_loaded = {}


def load(name):
    m = _loaded.get(name)
    if m is not None:
        return m
    _loaded[name] = m = _load(name)
    return m


def _load(name):
    setup_path()
    if name.startswith("MPI_"):
        stub_mpi()
    m = importlib.import_module(name)
    f = getattr(m, "__file__", "") or ""
    if not os.path.realpath(f).startswith(os.path.realpath(CODE)):
        raise ImportError("%s was not loaded from %s: %s" % (name, CODE, f))
    if PATCH is not None:
        PATCH()
    return m


PATCH = None  # set by install()


def install():
    """Symbolic mode: patch repo modules now and whenever one more is loaded."""
    global PATCH
    from . import engine
    SymInt, SymBool = engine.SymInt, engine.SymBool
    from fractions import Fraction as rfrac
    SymRat = engine.SymRat
    rint, rtype, risinst, rbool = int, type, isinstance, bool
    rmax, rmin, rfloat = max, min, float

    class IntMeta(rtype):
        def __instancecheck__(cls, x):
            return risinst(x, rint) or rtype(x) is SymInt or rtype(x) is SymBool

        def __subclasscheck__(cls, c):
            return issubclass(c, rint) or c is SymInt

        def __call__(cls, *a, **k):
            if a and hasattr(a[0], "_bbv_int"):
                return a[0]._bbv_int(*a[1:], **k)
            if len(a) == 1 and not k:
                if rtype(a[0]) is SymInt:
                    return a[0]
                if rtype(a[0]) is SymBool:
                    return a[0]._i()
                if rtype(a[0]) is SymRat:
                    return a[0]._int()
            return rint(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is rint

        def __hash__(cls):
            return hash(rint)

        def __or__(cls, o):
            return rint | o

        def __ror__(cls, o):
            return o | rint

    class int_(metaclass=IntMeta):
        @staticmethod
        def from_bytes(b, *a, **k):
            f = getattr(b, "_from_bytes", None)
            return f(*a, **k) if f else rint.from_bytes(b, *a, **k)
        bit_length = rint.bit_length
        to_bytes = rint.to_bytes
    int_.__name__ = "int"

    class FracMeta(rtype):
        def __instancecheck__(cls, x):
            return risinst(x, rfrac) or rtype(x) is SymRat

        def __call__(cls, a=0, b=1):
            if rtype(a) in (SymInt, SymRat) or rtype(b) in (SymInt, SymRat):
                p, q = engine.rlift(a), engine.rlift(b)
                if rtype(q) is engine.Node:
                    q = engine.ENG.value(q)
                e = engine.T.scale(p, rfrac(1) / q)
                # an integral Fraction stays a Fraction
                return SymRat(e) if rtype(e) is engine.Node else rfrac(e)
            return rfrac(a, b)

    class Fraction_(metaclass=FracMeta):
        pass
    Fraction_.__name__ = "Fraction"

    def conv(c):
        if c is Fraction_ or c is rfrac:
            return (rfrac, SymRat)
        if c is int_:
            return (rint, SymInt, SymBool)
        if c is rint:
            return (rint, SymInt, SymBool)
        if c is rbool:
            return (rbool, SymBool)
        if risinst(c, tuple):
            r = []
            for x in c:
                y = conv(x)
                r.extend(y) if risinst(y, tuple) else r.append(y)
            return tuple(r)
        import numbers
        if c in (numbers.Number, numbers.Integral, numbers.Rational,
                 numbers.Real, numbers.Complex):
            return (c, SymInt, SymBool)
        return c

    def isinstance_(x, c):
        if rtype(x) is SymRat:
            if risinst(c, tuple):
                return any(isinstance_(x, k) for k in c)
            import numbers
            return c in (Fraction_, rfrac, numbers.Number, numbers.Rational, SymRat)
        if rtype(x) is SymInt or rtype(x) is SymBool:
            if risinst(c, types.UnionType):
                return any(isinstance_(x, k) for k in c.__args__)
            cc = conv(c)
            if rtype(x) is SymInt and c is rbool:
                return False
            return risinst(x, cc)
        if risinst(c, tuple):
            return any(isinstance_(x, k) for k in c)
        if c is int_:
            return risinst(x, rint)
        if c is Fraction_:
            return risinst(x, rfrac)
        return risinst(x, c)

    class TypeMeta(rtype):
        def __instancecheck__(cls, x):
            return risinst(x, rtype)

        def __call__(cls, *a, **k):
            if len(a) == 1:
                t = rtype(a[0])
                if t is SymInt or t is rint:
                    return int_
                if t is SymBool:
                    return rbool
                return t
            return rtype(*a, **k)

    class type_(metaclass=TypeMeta):
        pass

    def _m(real, less):
        def f(*a, **k):
            if k or len(a) == 0:
                return real(*a, **k)
            xs = list(a[0]) if len(a) == 1 else a
            if not any(rtype(x) is SymInt for x in xs):
                return real(xs)
            if not all(risinst(x, (rint, SymInt)) for x in xs):
                return real(xs)
            r = xs[0]
            for x in xs[1:]:
                p, q = engine.lift(x), engine.lift(r)
                c = engine.T.le0(engine.T.sub(p, q))
                r = engine.mk(engine.T.ite(c, p, q) if less
                              else engine.T.ite(c, q, p))
            return r
        return f

    def pow_(b, e, m=None):
        if rtype(e) is SymInt or rtype(e) is SymBool:
            if rtype(b) is not SymInt and not risinst(b, rint):
                return b ** e if m is None else pow(b, e, m)
            e = rint(e)
        if rtype(m) is SymInt:
            m = rint(m)
        return pow(b, e) if m is None else pow(b, e, m)

    names = {"int": int_, "pow": pow_, "isinstance": isinstance_, "type": type_,
             "max": _m(rmax, False), "min": _m(rmin, True)}

    import math as rmath

    def _c(f):
        def g(*a, **k):
            return f(*[rint(x) if rtype(x) in (SymInt, SymBool, SymRat) else x
                       for x in a], **k)
        return g
    mproxy = types.ModuleType("math")
    for k, v in vars(rmath).items():
        setattr(mproxy, k, _c(v) if callable(v) else v)
    mproxy.ceil = lambda x: x if rtype(x) is SymInt else rmath.ceil(x)

    def gcd(*xs):
        r = 0
        for b in xs:
            a, b = abs(r), abs(b)
            while b > 0:
                a, b = b, a % b
            r = a
        return r

    def lcm(*xs):
        r = 1
        for b in xs:
            if b == 0:
                return 0
            r = abs(r * b) // gcd(r, b)
        return r

    def any_sym(f, g):
        return lambda *xs: (g if any(rtype(x) is SymInt for x in xs) else f)(*xs)
    mproxy.gcd, mproxy.lcm = any_sym(rmath.gcd, gcd), any_sym(rmath.lcm, lcm)
    mproxy.floor = lambda x: x if rtype(x) is SymInt else rmath.floor(x)

    root = os.path.realpath(CODE)

    def patch():
        for m in list(sys.modules.values()):
            f = getattr(m, "__file__", None)
            if not f or not os.path.realpath(f).startswith(root):
                continue
            if getattr(m, "__bbv_patched__", False):
                continue
            if m.__name__.endswith("_pb2"):
                continue
            m.__bbv_patched__ = True
            for k, v in names.items():
                if k not in vars(m):
                    setattr(m, k, v)
            if vars(m).get("math") is rmath:
                m.math = mproxy
            for k in ("gcd", "lcm"):
                if vars(m).get(k) is getattr(rmath, k):
                    setattr(m, k, getattr(mproxy, k))
            if vars(m).get("Fraction") is rfrac:
                m.Fraction = Fraction_
    PATCH = patch
    patch()


class patched:
    """Temporarily replace names of a module (symbolic mode only)."""

    def __init__(self, ctx, mod, **names):
        self.on, self.mod, self.names = ctx.symbolic, mod, names

    def __enter__(self):
        if self.on:
            self.old = {k: vars(self.mod).get(k, self) for k in self.names}
            for k, v in self.names.items():
                setattr(self.mod, k, v)

    def __exit__(self, *a):
        if self.on:
            for k, v in self.old.items():
                if v is self:
                    delattr(self.mod, k)
                else:
                    setattr(self.mod, k, v)
