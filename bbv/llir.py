"""Symbolic execution of C++ code from LLVM's intermediate representation.

The textual IR of the program is parsed and every function that is called is
translated (once) to a Python function over the engine's values: integers are
Python ints or SymInts in signed canonical form, i1 is bool or SymBool, a pointer
is an integer (object << 40) + (1 << 39) + offset.  Memory is a set of objects
made of typed cells; accesses are checked for bounds, lifetime and
initialisation.  Nothing here knows the program: its meaning is the IR clang made
from the current source.
"""
import re
from . import engine as E
from . import term as T
from .engine import SymInt, SymBool, mk, mkb, lift, bterm, Unsupported
from .cppfault import CppFault

HALF = 1 << 39
OBJ = 1 << 40
LOW = OBJ - 1


class _Undef:
    """An uninitialised (or poison) value."""
    __slots__ = ()

    def __repr__(self):
        return "UNDEF"

    def _op(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _op
    __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = _op
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _op
    __neg__ = __invert__ = __floordiv__ = __mod__ = _op
    __hash__ = object.__hash__

    def __bool__(self):
        raise CppFault("branch on an uninitialised value")

    def __int__(self):
        raise CppFault("an uninitialised value is used as an address")
    __index__ = __int__


UNDEF = _Undef()


class Cat:
    """Bytes of several values side by side: parts = [(nbytes, value)], low first."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def full(self):
        """As one value (UNDEF if some byte is)."""
        r, sh = 0, 0
        n = sum(k for k, _ in self.parts)
        for i, (k, v) in enumerate(self.parts):
            if v is UNDEF:
                return UNDEF
            if isinstance(v, float):
                raise Unsupported("float inside an integer")
            if sh + k < n:
                v = uns(v, 8 * k)
            r = r + v * (1 << (8 * sh))
            sh += k
        return wrap(r, 8 * n)

    def _b(f):
        def g(self, o):
            a = self.full()
            return f(a, o.full() if type(o) is Cat else o)
        return g
    __add__ = __radd__ = _b(lambda a, b: a + b)
    __sub__ = _b(lambda a, b: a - b)
    __rsub__ = _b(lambda a, b: b - a)
    __mul__ = __rmul__ = _b(lambda a, b: a * b)
    __eq__ = _b(lambda a, b: a == b)
    __ne__ = _b(lambda a, b: a != b)
    __lt__ = _b(lambda a, b: a < b)
    __le__ = _b(lambda a, b: a <= b)
    __gt__ = _b(lambda a, b: a > b)
    __ge__ = _b(lambda a, b: a >= b)
    __hash__ = object.__hash__

    def _band(self, o):
        if type(o) is int:
            out = []
            sh = 0
            for k, v in self.parts:
                m = (o >> (8 * sh)) & ((1 << (8 * k)) - 1)
                if m == 0:
                    out.append((k, 0))
                elif m == (1 << (8 * k)) - 1:
                    out.append((k, v))
                else:
                    out.append((k, wrap(v & m, 8 * k)))
                sh += k
            return cat(out)
        return self.full() & o
    __and__ = __rand__ = _band

    def _bor(self, o):
        a, b = align(self, o)
        if a is None:
            return self.full() | (o.full() if type(o) is Cat else o)
        out = []
        for (k, x), (_, y) in zip(a, b):
            out.append((k, y if type(x) is int and x == 0 else
                        x if type(y) is int and y == 0 else x | y))
        return cat(out)
    __or__ = __ror__ = _bor

    def __xor__(self, o):
        return self.full() ^ (o.full() if type(o) is Cat else o)
    __rxor__ = __xor__

    def __bool__(self):
        return bool(self.full() != 0)

    def __int__(self):
        return int(self.full())
    __index__ = __int__


def align(a, b):
    """Split two values of the same size at the same byte boundaries."""
    n = sum(k for k, _ in a.parts)
    cuts = set()
    for c in (a, b):
        if type(c) is Cat:
            p = 0
            for k, _ in c.parts:
                cuts.add(p)
                p += k
    cuts = sorted(cuts | {n})
    if cuts[0] != 0:
        cuts = [0] + cuts

    def split(c):
        parts = c.parts if type(c) is Cat else [(n, c)]
        out = []
        for lo, hi in zip(cuts, cuts[1:]):
            p = 0
            for k, v in parts:
                if p <= lo and hi <= p + k:
                    out.append((hi - lo, extract(v, k, lo - p, hi - lo)))
                    break
                p += k
        return out
    return split(a), split(b)


def cat(parts):
    if len(parts) == 1:
        return parts[0][1]
    if all(type(v) is int for _, v in parts):
        r = sh = 0
        for k, v in parts:
            r |= (v & ((1 << (8 * k)) - 1)) << sh
            sh += 8 * k
        return wrap(r, sh)
    if all(v is UNDEF for _, v in parts):
        return UNDEF
    return Cat(parts)


def extract(v, total, lo, n):
    """Bytes lo..lo+n-1 of a value of `total` bytes, signed."""
    if lo == 0 and n == total:
        return v
    if v is UNDEF:
        return v
    if type(v) is Cat:
        out, p = [], 0
        for k, x in v.parts:
            a, b = max(p, lo), min(p + k, lo + n)
            if a < b:
                out.append((b - a, extract(x, k, a - p, b - a)))
            p += k
        return cat(out)
    if isinstance(v, float):
        raise Unsupported("bytes of a float")
    if lo == 0:
        return wrap(v, 8 * n)
    return wrap(v >> (8 * lo) if type(v) is int else v // (1 << (8 * lo)), 8 * n)


def bnd(v):
    return T.bounds(v.e, E.ENG.box)


def wrap(v, bits):
    """Signed canonical form modulo 2**bits."""
    t = type(v)
    h = 1 << (bits - 1)
    if t is int:
        if -h <= v < h:
            return v
        return ((v + h) & ((1 << bits) - 1)) - h
    if t is SymInt:
        l, u = bnd(v)
        if l is not None and u is not None and -h <= l and u < h:
            return v
        return (v + h) % (1 << bits) - h
    if t is bool:
        return int(v)
    if t is SymBool:
        return mk(lift(v))
    if t is Cat:
        n = sum(k for k, _ in v.parts)
        if bits == 8 * n:
            return v
        if bits % 8 == 0 and bits < 8 * n:
            return extract(v, n, 0, bits // 8)
        return wrap(v.full(), bits)
    return v        # UNDEF


def nwrap(v, bits):
    """Result of an operation whose overflow is undefined (nsw)."""
    t = type(v)
    if t is int:
        h = 1 << (bits - 1)
        return v if -h <= v < h else UNDEF
    return wrap(v, bits)


def uns(v, bits):
    """Unsigned value of a signed canonical one."""
    t = type(v)
    if t is int:
        return v & ((1 << bits) - 1)
    if t is SymInt:
        l, _ = bnd(v)
        if l is not None and l >= 0:
            return v
        return mk(T.ite(T.le0(T.add(v.e, 1)), T.add(v.e, 1 << bits), v.e))
    if t is bool:
        return int(v)
    if t is SymBool:
        return mk(lift(v))
    if t is Cat:
        return uns(v.full(), bits)
    return v


def zext(v, src, dst):
    t = type(v)
    if t is int:
        return v & ((1 << src) - 1)
    if t is bool:
        return 1 if v else 0
    if t is Cat:
        n = sum(k for k, _ in v.parts)
        if src == 8 * n and dst % 8 == 0:
            return Cat(v.parts + [(dst // 8 - n, 0)])
    if v is UNDEF:
        if src % 8 == 0 and dst % 8 == 0:
            return Cat([(src // 8, UNDEF), ((dst - src) // 8, 0)])
        return v
    return uns(v, src)


def sext(v, src, dst):
    t = type(v)
    if t is bool:
        return -1 if v else 0
    if t is SymBool:
        return mk(T.ite(v.e, -1, 0))
    if t is Cat:
        return v.full()
    return v


def trunc1(v):
    t = type(v)
    if t is int:
        return bool(v & 1)
    if t is Cat:
        n, x = v.parts[0]
        return trunc1(x)
    if v is UNDEF:
        return v
    l, u = bnd(v)
    if l is not None and l >= 0 and u is not None and u <= 1:
        return v == 1
    return v % 2 == 1


def shl(a, b, bits):
    b = int(b)
    if type(a) is int:
        return wrap(a << b, bits)
    if b % 8 == 0 and bits % 8 == 0 and 0 < b < bits and a is not UNDEF:
        return Cat([(b // 8, 0), ((bits - b) // 8, extract(a, bits // 8, 0, (bits - b) // 8))])
    if a is UNDEF:
        return a
    if type(a) is Cat:
        a = a.full()
    return wrap(a * (1 << b), bits)


def lshr(a, b, bits):
    b = int(b)
    if type(a) is int:
        return wrap(uns(a, bits) >> b, bits)
    if b == 0:
        return a
    if type(a) is Cat and b % 8 == 0:
        k = b // 8
        n = bits // 8
        hi = extract(a, n, k, n - k)
        return zext(hi, 8 * (n - k), bits)
    if a is UNDEF:
        return a
    return wrap(uns(a, bits) // (1 << b), bits)


def ashr(a, b, bits):
    b = int(b)
    if type(a) is int:
        return a >> b
    if type(a) is Cat:
        if b % 8 == 0:
            n = bits // 8
            return sext(extract(a, n, b // 8, n - b // 8), 0, 0)
        a = a.full()
    if a is UNDEF:
        return a
    return a // (1 << b)


def ult(a, b, bits):
    if type(a) is int and type(b) is int:
        m = (1 << bits) - 1
        return (a & m) < (b & m)
    return uns(a, bits) < uns(b, bits)


def ule(a, b, bits):
    if type(a) is int and type(b) is int:
        m = (1 << bits) - 1
        return (a & m) <= (b & m)
    return uns(a, bits) <= uns(b, bits)


def sdiv(a, b, bits):
    a, b = _num(a), _num(b)
    if b is UNDEF or a is UNDEF:
        return UNDEF
    if b == 0:
        raise CppFault("division by zero")
    if type(a) is int and type(b) is int:
        q = abs(a) // abs(b)
        return wrap(q if (a < 0) == (b < 0) else -q, bits)
    b = int(b)
    if b < 0:
        a, b = -a, -b
    if a >= 0:
        return a // b
    return -((-a) // b)


def srem(a, b, bits):
    a, b = _num(a), _num(b)
    if b is UNDEF or a is UNDEF:
        return UNDEF
    return wrap(a - sdiv(a, b, bits) * b, bits)


def udiv(a, b, bits):
    a, b = uns(a, bits), uns(b, bits)
    if b is UNDEF or a is UNDEF:
        return UNDEF
    if b == 0:
        raise CppFault("division by zero")
    return wrap(a // b, bits)


def urem(a, b, bits):
    a, b = uns(a, bits), uns(b, bits)
    if b is UNDEF or a is UNDEF:
        return UNDEF
    if b == 0:
        raise CppFault("division by zero")
    return wrap(a % b, bits)


def _num(v):
    return v.full() if type(v) is Cat else v


def select(c, a, b):
    t = type(c)
    if t is bool:
        return a if c else b
    if t is SymBool:
        ta, tb = type(a), type(b)
        if ta in (int, SymInt) and tb in (int, SymInt):
            return mk(T.ite(c.e, lift(a), lift(b)))
        if ta in (bool, SymBool) and tb in (bool, SymBool):
            return mkb(T.bite(c.e, bterm(a), bterm(b)))
        return a if bool(c) else b
    return UNDEF


def not1(c):
    t = type(c)
    if t is bool:
        return not c
    if t is SymBool:
        return ~c
    return c


class Obj:
    __slots__ = ("size", "cells", "fills", "alive", "const", "kind", "extra")

    def __init__(self, size, kind="heap"):
        self.size = size
        self.cells = {}
        self.fills = None
        self.alive = True
        self.const = False
        self.kind = kind
        self.extra = None


class Memory:
    def __init__(self, module):
        self.m = module
        self.objs = {}
        self.next = module.first_heap
        self.dead = set()

    def new(self, size, kind="heap"):
        i = self.next
        self.next = i + 1
        self.objs[i] = Obj(size, kind)
        return (i << 40) + HALF

    def locate(self, a, n, write):
        if type(a) is not int:
            a = int(a)
        i = a >> 40
        off = (a & LOW) - HALF
        o = self.objs.get(i)
        if o is None:
            o = self.m.instantiate(self, i) if a > 0 else None
            if o is None:
                if 0 <= a < 65536 or -65536 < a < 0:
                    raise CppFault("null pointer is dereferenced")
                raise CppFault("wild pointer is dereferenced" if i not in self.dead
                               else "memory is used after it was freed")
        if off < 0 or off + n > o.size:
            if not (o.kind == "vtable"):
                raise CppFault("%d bytes at offset %d of a %s object of %d bytes are %s" % (
                    n, off, o.kind, o.size, "written" if write else "read"))
        if write and o.const:
            raise CppFault("a constant is written")
        return o, off

    def load(self, a, n):
        o, off = self.locate(a, n, False)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return cat(self.gather(o, off, n))

    def gather(self, o, off, n):
        cells = o.cells
        out = []
        pos, end = off, off + n
        while pos < end:
            c = None
            for s in range(pos, pos - 8, -1):
                c = cells.get(s)
                if c is not None:
                    if s + c[0] <= pos:
                        c = None
                    break
            if c is not None:
                k = min(s + c[0], end) - pos
                out.append((k, extract(c[1], c[0], pos - s, k)))
                pos += k
                continue
            stop = pos + 1
            while stop < end and stop not in cells:
                stop += 1
            if o.fills is None:
                out.append((stop - pos, UNDEF))
            else:
                for p in range(pos, stop):
                    v = UNDEF
                    for lo, hi, b in reversed(o.fills):
                        if lo <= p < hi:
                            v = b
                            break
                    out.append((1, v))
            pos = stop
        # join bytes that are plain
        r = []
        for k, v in out:
            if r and type(v) is int and type(r[-1][1]) is int:
                r[-1] = (r[-1][0] + k, cat([r[-1], (k, v)]))
            elif r and v is UNDEF and r[-1][1] is UNDEF:
                r[-1] = (r[-1][0] + k, UNDEF)
            else:
                r.append((k, v))
        return r

    def clear(self, o, off, n):
        """Remove the cells of a range (cells cut at the edges keep their rest)."""
        cells = o.cells
        end = off + n
        if n > 64 and n > len(cells):
            for s in [s for s, c in cells.items() if s < end and s + c[0] > off]:
                self._cut(cells, s, off, end)
            return
        for s in range(off - 7, end):
            c = cells.get(s)
            if c is not None and s + c[0] > off:
                self._cut(cells, s, off, end)

    def _cut(self, cells, s, off, end):
        k, v = cells.pop(s)
        if s < off:
            cells[s] = (off - s, extract(v, k, 0, off - s))
        if s + k > end:
            cells[end] = (s + k - end, extract(v, k, end - s, s + k - end))

    def store(self, a, v, n):
        o, off = self.locate(a, n, True)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        t = type(v)
        if t is Cat:
            cells.pop(off, None)
            for k, x in v.parts:
                while k > 8:        # never larger than a machine word
                    raise Unsupported("wide store")
                cells[off] = (k, x)
                off += k
            return
        if t is bool:
            v = 1 if v else 0
        elif t is SymBool:
            v = mk(lift(v))
        cells[off] = (n, v)

    def memset(self, a, b, n):
        n = int(n)
        if n == 0:
            return
        o, off = self.locate(a, n, True)
        self.clear(o, off, n)
        b = wrap(b, 8)
        if n <= 8 and type(b) is int:
            o.cells[off] = (n, cat([(1, b)] * n))
            return
        if o.fills is None:
            o.fills = []
        o.fills = [f for f in o.fills if not (off <= f[0] and f[1] <= off + n)]
        o.fills.append((off, off + n, b))

    def memcpy(self, d, s, n):
        n = int(n)
        if n == 0:
            return
        so, soff = self.locate(s, n, False)
        do, doff = self.locate(d, n, True)
        src = []
        end = soff + n
        cells = so.cells
        if n > 64 and n > len(cells):
            it = sorted(x for x, c in cells.items() if x < end and x + c[0] > soff)
        else:
            it = [x for x in range(soff - 7, end) if x in cells and x + cells[x][0] > soff]
        for x in it:
            k, v = cells[x]
            lo, hi = max(x, soff), min(x + k, end)
            src.append((lo - soff, hi - lo, extract(v, k, lo - x, hi - lo)))
        fills = []
        for lo, hi, b in so.fills or ():
            lo, hi = max(lo, soff), min(hi, end)
            if lo < hi:
                fills.append((lo - soff, hi - soff, b))
        self.clear(do, doff, n)
        if do.fills is not None:
            do.fills = [f for f in do.fills if not (doff <= f[0] and f[1] <= doff + n)]
            if any(f[0] < doff + n and f[1] > doff for f in do.fills):
                do.fills.append((doff, doff + n, UNDEF))
        if fills:
            if do.fills is None:
                do.fills = []
            do.fills.extend((doff + lo, doff + hi, b) for lo, hi, b in fills)
        for off, k, v in src:
            do.cells[doff + off] = (k, v)

    def free(self, a):
        if type(a) is int and a == 0:
            return
        a = int(a)
        i = a >> 40
        o = self.objs.get(i)
        if o is None or o.kind != "heap" or (a & LOW) != HALF:
            raise CppFault("memory is freed twice or was not allocated")
        del self.objs[i]
        self.dead.add(i)

    def drop(self, ids):
        for i in ids:
            self.objs.pop(i >> 40, None)
            self.dead.add(i >> 40)


# ---------------------------------------------------------------------------
# parser

TOK = re.compile(r'''
    [%@]"(?:[^"\\]|\\.)*" | [%@][-\w.$]+ | c?"(?:[^"\\]|\\.)*" | ![-\w.]*(?:\([^)]*\))? | \#\d+
  | 0x[0-9A-Fa-fKLMHR]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ | \.\.\. | [A-Za-z_][\w.]* | [][(){}<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class Ty:
    __slots__ = ("k", "bits", "size", "align", "n", "elem", "fields", "offs")

    def __init__(self, k, size=0, align=1, bits=0, n=0, elem=None, fields=None, offs=None):
        self.k, self.size, self.align, self.bits = k, size, align, bits
        self.n, self.elem, self.fields, self.offs = n, elem, fields, offs


VOID = Ty("void")
PTR = Ty("ptr", 8, 8, 64)
DBL = Ty("double", 8, 8)
FLT = Ty("float", 4, 4)
META = Ty("meta")
_ints = {}


def int_ty(b):
    t = _ints.get(b)
    if t is None:
        n = (b + 7) // 8
        al = 1
        while al < n and al < 8:
            al *= 2
        t = _ints[b] = Ty("int", n, al, b)
    return t


def struct(fields, packed):
    off, al, offs = 0, 1, []
    for f in fields:
        a = 1 if packed else f.align
        off = (off + a - 1) // a * a
        offs.append(off)
        off += alloc_size(f)
        al = max(al, a)
    size = (off + al - 1) // al * al
    return Ty("struct", size, al, fields=fields, offs=offs)


def alloc_size(t):
    return (t.size + t.align - 1) // t.align * t.align


ATTRS = set("""noundef nonnull nocapture readonly writeonly readnone zeroext signext noalias returned
 immarg inreg nest swiftself nofree inrange writable dead_on_unwind""".split())
ATTRP = set("align dereferenceable dereferenceable_or_null sret byval range".split())


class P:
    """Token stream."""

    def __init__(self, m, toks):
        self.m, self.t, self.i = m, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported("IR: expected %r at %r" % (x, self.t[self.i:self.i + 8]))

    def type(self):
        x = self.next()
        if x == "ptr":
            if self.peek() == "addrspace":
                self.i += 4
            t = PTR
        elif x == "void":
            t = VOID
        elif x == "double":
            t = DBL
        elif x == "float":
            t = FLT
        elif x == "metadata" or x == "label" or x == "token":
            t = META
        elif x[0] == "i" and x[1:].isdigit():
            t = int_ty(int(x[1:]))
        elif x[0] == "%":
            t = self.m.named(x)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("array", n * alloc_size(e), e.align, n=n, elem=e)
        elif x == "{" or (x == "<" and self.peek() == "{"):
            packed = x == "<"
            if packed:
                self.next()
            fs = []
            while not self.eat("}"):
                fs.append(self.type())
                self.eat(",")
            if packed:
                self.expect(">")
            t = struct(fs, packed)
        elif x == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = Ty("vector", n * e.size, n * e.size, n=n, elem=e)
        else:
            raise Unsupported("IR type %r" % x)
        if self.peek() == "(" and t.k != "meta":
            # function type
            d = 0
            while True:
                y = self.next()
                d += (y == "(") - (y == ")")
                if d == 0:
                    break
        return t

    def attrs(self):
        out = {}
        while True:
            x = self.peek()
            if x in ATTRS:
                self.i += 1
            elif x in ATTRP:
                self.i += 1
                if self.eat("("):
                    if x in ("sret", "byval"):
                        out[x] = self.type()
                        self.expect(")")
                    else:
                        d = 1
                        while d:
                            y = self.next()
                            d += (y == "(") - (y == ")")
                elif x == "align":
                    self.i += 1
            elif x.startswith("#"):
                self.i += 1
            else:
                return out


class Func:
    def __init__(self, name, ret, params, body):
        self.name, self.ret, self.params, self.body = name, ret, params, body


def _unq(x):
    return x[0] + x[2:-1] if x[1:2] == '"' else x


class Module:
    def __init__(self, text):
        self.types_src = {}
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.ids = {}
        self.by_id = {}
        self.code = {}
        self.stubs = {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                name, _, rest = l.partition(" = type ")
                self.types_src[_unq(name)] = rest
            elif l.startswith("@"):
                name, _, rest = l.partition(" = ")
                m = re.search(r"\balias\b.*ptr (@\"[^\"]*\"|@[-\w.$]+)$", rest)
                if m:
                    self.aliases[_unq(name)] = _unq(m.group(1))
                else:
                    self.globals[_unq(name)] = rest
            elif l.startswith("define "):
                body = []
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                self._header(l, body)
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls[_unq("@" + m.group(1))] = l
            i += 1
        n = 1
        for g in list(self.globals) + list(self.funcs) + list(self.decls) + ["@bb_vt_d1", "@bb_vt_d0"]:
            self.ids[g] = n
            self.by_id[n] = g
            n += 1
        self.first_heap = n

    def named(self, x):
        x = _unq(x)
        t = self.types.get(x)
        if t is None:
            src = self.types_src[x]
            if src == "opaque":
                t = Ty("struct", 0, 1, fields=[], offs=[])
            else:
                t = P(self, tokenize(src)).type()
            self.types[x] = t
        return t

    def _header(self, l, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        name = _unq("@" + m.group(1))
        pre = tokenize(l[:m.start()])
        # return type: skip linkage words
        p = P(self, pre)
        p.next()
        while True:
            x = p.peek()
            if x in ("void", "ptr", "double", "float") or x[0] in "%[{<" or re.fullmatch(r"i\d+", x):
                break
            if x in ATTRP:
                p.attrs()
            else:
                p.i += 1
        q = P(self, tokenize(l[m.end() - 1:]))
        q.expect("(")
        params = []
        while not q.eat(")"):
            if q.eat("..."):
                continue
            t = q.type()
            a = q.attrs()
            params.append((t, _unq(q.next()), a))
            q.eat(",")
        self.funcs[name] = (p, params, body)

    def addr(self, g):
        g = _unq(g)
        g = self.aliases.get(g, g)
        i = self.ids.get(g)
        if i is None:
            raise Unsupported("unknown symbol " + g)
        return (i << 40) + HALF

    # -- globals ----------------------------------------------------------
    def instantiate(self, mem, i):
        g = self.by_id.get(i)
        if g is None or i in mem.objs:
            return None
        if g in self.globals:
            o = self._global(mem, g)
        else:
            o = Obj(0, "function")
            o.extra = g
        mem.objs[i] = o
        return o

    def _global(self, mem, g):
        src = self.globals[g]
        toks = tokenize(src.split(", !")[0])
        p = P(self, toks)
        const = ext = False
        while True:
            x = p.peek()
            if x in ("constant", "global"):
                const = x == "constant"
                p.next()
                break
            if x in ("external", "extern_weak"):
                ext = True
            p.next()
        t = p.type()
        o = Obj(t.size, "global")
        if ext:
            f = self.ext_global
            if f is None or not f(mem, g, o):
                raise Unsupported("external object " + g)
            return o
        self._init(p, t, o, 0, mem)
        o.const = const
        return o

    ext_global = None

    def _init(self, p, t, o, off, mem):
        x = p.peek()
        if x == "zeroinitializer" or (x == "null" and t.k == "ptr"):
            p.next()
            if t.size <= 8 and t.k in ("int", "ptr"):
                o.cells[off] = (t.size, 0)
            else:
                if o.fills is None:
                    o.fills = []
                o.fills.append((off, off + t.size, 0))
            return
        if x in ("undef", "poison"):
            p.next()
            return
        if t.k == "array":
            if x.startswith('c"'):
                p.next()
                b = cstring(x)
                for k, c in enumerate(b):
                    o.cells[off + k] = (1, c - 256 if c > 127 else c)
                return
            p.expect("[")
            k = 0
            while not p.eat("]"):
                et = p.type()
                self._init(p, et, o, off + k * alloc_size(et), mem)
                p.eat(",")
                k += 1
            return
        if t.k == "struct":
            packed = p.eat("<")
            p.expect("{")
            k = 0
            while not p.eat("}"):
                et = p.type()
                self._init(p, et, o, off + t.offs[k], mem)
                p.eat(",")
                k += 1
            if packed:
                p.expect(">")
            return
        v = eval(operand(p, t, None), GENV)
        o.cells[off] = (t.size, int(v) if isinstance(v, bool) else v)


def cstring(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ---------------------------------------------------------------------------
# translation of a function

def gep(p, names, const=False):
    """getelementptr after the keyword (and '(' for a constant) -> expression."""
    while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
        p.next()
    t = p.type()
    p.expect(",")
    p.type()
    base = operand(p, PTR, names)
    off = 0
    terms = []
    first = True
    while p.eat(","):
        if p.peek().startswith("!"):
            p.next()
            continue
        p.eat("inrange")
        it = p.type()
        x = operand(p, it, names)
        c = int(x) if re.fullmatch(r"-?\d+", x) else None
        if first:
            sz = alloc_size(t)
            first = False
        elif t.k == "struct":
            off += t.offs[c]
            t = t.fields[c]
            continue
        else:
            t = t.elem
            sz = alloc_size(t)
        if c is not None:
            off += c * sz
        else:
            terms.append("%s*%d" % (x, sz) if sz != 1 else x)
    if re.fullmatch(r"-?\d+", base):
        r = str(int(base) + off)
    else:
        r = base + (" + %d" % off if off else "")
    for x in terms:
        r += " + " + x
    return "(%s)" % r if (terms or off) else r


def operand(p, t, names):
    x = p.next()
    c = x[0]
    if c == "%":
        return names(_unq(x))
    if c == "@":
        return str(p.m.addr(x))
    if x == "null":
        return "0"
    if x in ("undef", "poison"):
        return "UNDEF" if t.k not in ("struct", "array") else _agg(t, "UNDEF")
    if x == "true":
        return "True"
    if x == "false":
        return "False"
    if x == "zeroinitializer":
        return _agg(t, "0")
    if x == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        p.expect("(")
        r = gep(p, names)
        p.expect(")")
        return r
    if x in ("ptrtoint", "inttoptr", "bitcast"):
        p.expect("(")
        st = p.type()
        r = operand(p, st, names)
        p.expect("to")
        p.type()
        p.expect(")")
        return r
    if x in ("sub", "add"):
        while p.peek() in ("nuw", "nsw"):
            p.next()
        p.expect("(")
        st = p.type()
        a = operand(p, st, names)
        p.expect(",")
        st = p.type()
        b = operand(p, st, names)
        p.expect(")")
        return "(%s %s %s)" % (a, "-" if x == "sub" else "+", b)
    if t.k == "int":
        v = int(x)
        if t.bits == 1:
            return str(bool(v & 1))
        return str(wrap(v, t.bits))
    if t.k in ("double", "float"):
        if x.startswith("0x"):
            import struct as S
            return repr(S.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])
        return repr(float(x))
    if t.k == "struct" and c == "{":
        out = []
        while not p.eat("}"):
            et = p.type()
            out.append(operand(p, et, names))
            p.eat(",")
        return "(%s,)" % ", ".join(out)
    if t.k == "ptr" and re.fullmatch(r"-?\d+", x):
        return x
    raise Unsupported("IR operand %r" % x)


def _agg(t, leaf):
    if t.k == "struct":
        return "(%s,)" % ", ".join(_agg(f, leaf) for f in t.fields)
    if t.k == "array":
        return "(%s,)" % ", ".join(_agg(t.elem, leaf) for _ in range(t.n))
    if leaf == "0" and t.k == "int" and t.bits == 1:
        return "False"
    if leaf == "0" and t.k in ("double", "float"):
        return "0.0"
    return leaf


def setin(v, i, x):
    v = list(v) if isinstance(v, tuple) else v
    v[i] = x
    return tuple(v)


SKIP = ("llvm.lifetime", "llvm.experimental", "llvm.dbg", "llvm.assume", "llvm.invariant",
        "llvm.donothing", "llvm.sideeffect")


class Gen:
    """Python source of one IR function."""

    def __init__(self, m, name):
        self.m = m
        rp, self.params, body = m.funcs[name]
        self.ret = P(m, rp.t[rp.i:]).type()
        self.name = name
        self.vars = {}
        self.blocks = []          # (label, [instruction lines])
        self._blocks(body)

    def var(self, n):
        v = self.vars.get(n)
        if v is None:
            v = self.vars[n] = "v%d" % len(self.vars)
        return v

    def _blocks(self, body):
        # unlabelled entry block gets the next number after the parameters
        cur = None
        joined = []
        for l in body:
            s = l.strip()
            if not s or s.startswith(";"):
                continue
            if joined and (joined[-1].startswith("  switch") or " switch " in joined[-1]) and \
                    not joined[-1].rstrip().endswith("]"):
                joined[-1] += " " + s
                continue
            if l.startswith("          "):
                joined[-1] += " " + s
                continue
            joined.append(l)
        for l in joined:
            if not l.startswith(" "):
                m = re.match(r'("(?:[^"]*)"|[-\w.$]+):', l)
                lab = m.group(1)
                if lab.startswith('"'):
                    lab = lab[1:-1]
                cur = []
                self.blocks.append(("%" + lab, cur))
            else:
                if cur is None:
                    cur = []
                    self.blocks.append(("%entry#", cur))
                cur.append(l.split(", !")[0].strip())

    def generate(self):
        blocks = self.blocks
        index = {b[0]: i for i, b in enumerate(blocks)}
        entry = blocks[0][0]
        if entry == "%entry#":
            # numbered after the parameters: only named by phis
            nums = [p[1] for p in self.params]
            k = 0
            for n in nums:
                if re.fullmatch(r"%\d+", n):
                    k = max(k, int(n[1:]) + 1)
            index["%" + str(k)] = 0
            self.entry_alias = "%" + str(k)
        else:
            self.entry_alias = entry
        self.index = index
        # phis per block: list of (var, type, {pred: operand expr})
        self.phis = {}
        preds = {}
        for i, (lab, ins) in enumerate(blocks):
            ph = []
            for s in ins:
                m = re.match(r"(%[^ ]+) = phi ", s)
                if not m:
                    break
                p = P(self.m, tokenize(s[m.end():]))
                while p.peek() in ("fast", "nnan", "ninf", "nsz", "contract", "reassoc", "arcp", "afn"):
                    p.next()
                t = p.type()
                d = {}
                while True:
                    p.expect("[")
                    v = operand(p, t, self.var)
                    p.expect(",")
                    d[index[_unq(p.next())]] = v
                    p.expect("]")
                    if not p.eat(","):
                        break
                ph.append((self.var(_unq(m.group(1))), d))
            self.phis[i] = ph
            for lab2 in re.findall(r'label (%"[^"]*"|%[-\w.$]+)', ins[-1]):
                preds.setdefault(index[_unq(lab2)], set()).add(i)
        # blocks with one predecessor are placed inside it
        self.npred = {i: len(preds.get(i, ())) for i in range(len(blocks))}
        self.emitted = set()
        out = []
        self.allocas = False
        bodies = {}
        todo = [0]
        heads = []
        self.inline_ok = lambda i, depth: self.npred[i] == 1 and i != 0 and depth < 12
        self.want = []
        self.seen_heads = {0}
        while todo:
            i = todo.pop(0)
            self.want = []
            lines = []
            self.emit(i, 0, lines)
            bodies[i] = lines
            heads.append(i)
            for w in self.want:
                if w not in self.seen_heads:
                    self.seen_heads.add(w)
                    todo.append(w)
        args = ", ".join(self.var(p[1]) for p in self.params)
        fn = "f"
        out.append("def f(R%s):" % (", " + args if args else ""))
        out.append("  M = R.mem; ld = M.load; st = M.store")
        for t, n, a in self.params:
            if "byval" in a:
                v = self.var(n)
                sz = a["byval"].size
                out.append("  b_ = M.new(%d, 'stack'); M.memcpy(b_, %s, %d); %s = b_" % (sz, v, sz, v))
        if self.allocas:
            out.append("  AL = []")
        out.append("  b = 0")
        out.append("  while True:")
        rank = {h: k for k, h in enumerate(heads)}
        self.rank = rank

        def tree(lo, hi, ind):
            if hi - lo == 1:
                for l in bodies[heads[lo]]:
                    out.append(ind + re.sub(r"b = @(\d+)@", lambda m: "b = %d" % rank[int(m.group(1))], l))
                return
            mid = (lo + hi) // 2
            out.append(ind + "if b < %d:" % mid)
            tree(lo, mid, ind + " ")
            out.append(ind + "else:")
            tree(mid, hi, ind + " ")
        tree(0, len(heads), "    ")
        return "\n".join(out)

    def jump(self, src, dst, depth, lines, ind):
        ph = self.phis[dst]
        if ph:
            l = ", ".join(v for v, _ in ph)
            r = ", ".join(d[src] for _, d in ph)
            if l != r:
                lines.append(ind + "%s = %s" % (l, r))
        if self.inline_ok(dst, depth):
            self.emit(dst, depth + 1, lines, ind)
        else:
            self.want.append(dst)
            lines.append(ind + "b = @%d@; continue" % dst)

    def emit(self, i, depth, lines, ind=""):
        for s in self.blocks[i][1]:
            if re.match(r"%[^ ]+ = phi ", s):
                continue
            self.ins(s, i, depth, lines, ind)

    def ins(self, s, bi, depth, lines, ind):
        dst = None
        toks = tokenize(s)
        if len(toks) > 1 and toks[1] == "=":
            dst = self.var(_unq(toks[0]))
            toks = toks[2:]
        p = P(self.m, toks)
        op = p.next()
        nm = self.var
        A = lambda x: lines.append(ind + x)

        if op == "br":
            if p.peek() == "label":
                p.next()
                self.jump(bi, self.index[_unq(p.next())], depth, lines, ind)
                return
            t = p.type()
            c = operand(p, t, nm)
            p.expect(",")
            p.next()
            a = self.index[_unq(p.next())]
            p.expect(",")
            p.next()
            b = self.index[_unq(p.next())]
            A("if %s:" % c)
            self.jump(bi, a, depth, lines, ind + " ")
            A("else:")
            self.jump(bi, b, depth, lines, ind + " ")
            return
        if op == "switch":
            t = p.type()
            c = operand(p, t, nm)
            p.expect(",")
            p.next()
            d = self.index[_unq(p.next())]
            p.expect("[")
            A("s_ = %s" % c)
            while not p.eat("]"):
                t = p.type()
                v = operand(p, t, nm)
                p.expect(",")
                p.next()
                b = self.index[_unq(p.next())]
                A("if s_ == %s:" % v)
                self.jump(bi, b, 99, lines, ind + " ")
            self.jump(bi, d, 99, lines, ind)
            return
        if op == "ret":
            t = p.type()
            r = "None" if t.k == "void" else operand(p, t, nm)
            if self.allocas_in_function():
                A("r_ = %s; M.drop(AL); return r_" % r)
            else:
                A("return %s" % r)
            return
        if op == "unreachable":
            A("raise CppFault('unreachable code is reached in %s')" % self.name)
            return
        if op == "resume":
            A("raise Unsupported('resume')")
            return
        if op == "alloca":
            t = p.type()
            n = 1
            if p.eat(","):
                if p.peek() != "align":
                    it = p.type()
                    n = operand(p, it, nm)
            self.allocas = True
            A("%s = M.new(%d*%s, 'stack'); AL.append(%s)" % (dst, alloc_size(t), n, dst))
            return
        if op == "load":
            p.eat("volatile")
            t = p.type()
            p.expect(",")
            p.type()
            a = operand(p, PTR, nm)
            if t.k == "int" and t.bits == 1:
                A("%s = trunc1(ld(%s, 1))" % (dst, a))
            elif t.k in ("int", "ptr", "double"):
                A("%s = ld(%s, %d)" % (dst, a, t.size))
            else:
                raise Unsupported("load of an aggregate")
            return
        if op == "store":
            p.eat("volatile")
            t = p.type()
            v = operand(p, t, nm)
            p.expect(",")
            p.type()
            a = operand(p, PTR, nm)
            if t.k in ("struct", "array", "vector"):
                if v.startswith("("):
                    raise Unsupported("store of an aggregate")
                raise Unsupported("store of an aggregate")
            A("st(%s, %s, %d)" % (a, v, t.size))
            return
        if op == "getelementptr":
            A("%s = %s" % (dst, gep(p, nm)))
            return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv",
                  "srem", "urem"):
            nsw = False
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"):
                nsw |= p.next() == "nsw"
            t = p.type()
            if t.k != "int":
                raise Unsupported("vector arithmetic")
            a = operand(p, t, nm)
            p.expect(",")
            b = operand(p, t, nm)
            if op in ("add", "sub", "mul"):
                if t.bits == 1:
                    A("%s = trunc1(zext(%s,1,8) %s zext(%s,1,8))" % (
                        dst, a, {"add": "+", "sub": "-", "mul": "*"}[op], b))
                    return
                h = 1 << (t.bits - 1)
                A("%s = %s %s %s" % (dst, a, {"add": "+", "sub": "-", "mul": "*"}[op], b))
                A("if %s.__class__ is not int or not %d <= %s < %d: %s = %s(%s, %d)" % (
                    dst, -h, dst, h, dst, "nwrap" if nsw else "wrap", dst, t.bits))
            elif op in ("and", "or", "xor"):
                if t.bits == 1 and op == "xor" and b == "True":
                    A("%s = not1(%s)" % (dst, a))
                else:
                    A("%s = %s %s %s" % (dst, a, {"and": "&", "or": "|", "xor": "^"}[op], b))
            else:
                A("%s = %s(%s, %s, %d)" % (dst, op, a, b, t.bits))
            return
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "contract", "reassoc", "arcp", "afn"):
                p.next()
            t = p.type()
            a = operand(p, t, nm)
            p.expect(",")
            b = operand(p, t, nm)
            A("%s = %s %s %s" % (dst, a, {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op], b))
            return
        if op == "fcmp":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "contract", "reassoc", "arcp", "afn"):
                p.next()
            c = p.next()
            t = p.type()
            a = operand(p, t, nm)
            p.expect(",")
            b = operand(p, t, nm)
            A("%s = %s %s %s" % (dst, a, {"gt": ">", "lt": "<", "ge": ">=", "le": "<=", "eq": "==",
                                          "ne": "!="}[c[1:]], b))
            return
        if op == "icmp":
            c = p.next()
            t = p.type()
            a = operand(p, t, nm)
            p.expect(",")
            b = operand(p, t, nm)
            bits = t.bits
            if bits == 1 and c not in ("eq", "ne"):
                raise Unsupported("ordered comparison of booleans")
            if c in ("eq", "ne"):
                A("%s = %s %s %s" % (dst, a, "==" if c == "eq" else "!=", b))
            elif c[0] == "s":
                A("%s = %s %s %s" % (dst, a, {"slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}[c], b))
            elif c == "ult":
                A("%s = ult(%s, %s, %d)" % (dst, a, b, bits))
            elif c == "ule":
                A("%s = ule(%s, %s, %d)" % (dst, a, b, bits))
            elif c == "ugt":
                A("%s = ult(%s, %s, %d)" % (dst, b, a, bits))
            else:
                A("%s = ule(%s, %s, %d)" % (dst, b, a, bits))
            return
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi",
                  "freeze"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type()
            a = operand(p, t, nm)
            if op == "freeze":
                A("%s = %s" % (dst, a))
                return
            p.expect("to")
            u = p.type()
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                A("%s = %s" % (dst, a))
            elif op in ("zext", "sext"):
                A("%s = %s(%s, %d, %d)" % (dst, op, a, t.bits, u.bits))
            elif op == "trunc":
                if u.bits == 1:
                    A("%s = trunc1(%s)" % (dst, a))
                else:
                    A("%s = wrap(%s, %d)" % (dst, a, u.bits))
            elif op in ("sitofp", "uitofp"):
                A("%s = float(%s)" % (dst, a))
            else:
                A("%s = int(%s)" % (dst, a))
            return
        if op == "select":
            while p.peek() in ("fast", "nnan", "ninf", "nsz"):
                p.next()
            t = p.type()
            c = operand(p, t, nm)
            p.expect(",")
            t = p.type()
            a = operand(p, t, nm)
            p.expect(",")
            t = p.type()
            b = operand(p, t, nm)
            A("%s = select(%s, %s, %s)" % (dst, c, a, b))
            return
        if op == "insertvalue":
            t = p.type()
            a = operand(p, t, nm)
            p.expect(",")
            u = p.type()
            v = operand(p, u, nm)
            p.expect(",")
            k = int(p.next())
            if p.eat(","):
                raise Unsupported("nested insertvalue")
            A("%s = setin(%s, %d, %s)" % (dst, a, k, v))
            return
        if op == "extractvalue":
            t = p.type()
            a = operand(p, t, nm)
            e = a
            while p.eat(","):
                e += "[%d]" % int(p.next())
            A("%s = %s" % (dst, e))
            return
        if op in ("tail", "musttail", "notail", "call", "invoke"):
            inv = op == "invoke"
            if op in ("tail", "musttail", "notail"):
                p.next()
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "fastcc", "ccc", "coldcc"):
                p.next()
            p.attrs()
            t = p.type()
            callee = p.next()
            if callee[0] not in "%@":
                raise Unsupported("call of %r" % callee)
            name = _unq(callee)
            if callee[0] == "@" and name[1:].startswith(SKIP):
                return
            p.expect("(")
            args = []
            while not p.eat(")"):
                ty = p.type()
                p.attrs()
                if ty.k == "meta":
                    p.next()
                else:
                    args.append(operand(p, ty, nm))
                p.eat(",")
            if callee[0] == "@":
                f = "R.fn(%r)" % name
            else:
                f = "R.fnptr(%s)" % nm(name)
            A("%s%s(%s)" % (dst + " = " if dst else "", f, ", ".join(["R"] + args)))
            if inv:
                labs = re.findall(r'label (%"[^"]*"|%[-\w.$]+)', s)
                self.jump(bi, self.index[_unq(labs[0])], depth, lines, ind)
            return
        if op == "fneg":
            t = p.type()
            A("%s = -%s" % (dst, operand(p, t, nm)))
            return
        if op in ("landingpad", "fence"):
            A("raise Unsupported(%r)" % op)
            return
        raise Unsupported("IR instruction " + op)

    _al = None

    def allocas_in_function(self):
        if self._al is None:
            self._al = any(" = alloca " in s for _, ins in self.blocks for s in ins)
        return self._al


GENV = {k: globals()[k] for k in (
    "UNDEF", "wrap", "nwrap", "uns", "zext", "sext", "trunc1", "shl", "lshr", "ashr", "ult", "ule",
    "sdiv", "srem", "udiv", "urem", "select", "not1", "setin", "CppFault", "Unsupported")}


class Run:
    """One execution: a module, a fresh memory and the library models."""

    def __init__(self, module, lib):
        self.m = module
        self.lib = lib
        self.mem = Memory(module)
        self.out = {}            # stream objects: id -> list of characters
        self.ins = {}
        self._fn = {}

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            f = self._fn[name] = self._find(name)
        return f

    def _find(self, name):
        f = self.lib.get(name[1:])
        if f is not None:
            return f
        code = self.m.code.get(name)
        if code is not None:
            return code
        if name in self.m.aliases:
            return self._find(self.m.aliases[name])
        if name in self.m.funcs:
            src = Gen(self.m, name).generate()
            env = dict(GENV)
            try:
                exec(compile(src, "<%s>" % name, "exec"), env)
            except SyntaxError as e:
                raise Unsupported("translation of %s: %s" % (name, e))
            code = self.m.code[name] = env["f"]
            return code
        f = self.lib.find(name[1:])
        if f is None:
            raise Unsupported("library function %s is not modelled" % name[1:])
        return f

    def fnptr(self, a):
        if type(a) is not int:
            a = int(a)
        g = self.m.by_id.get(a >> 40)
        if g is None or g in self.m.globals or (a & LOW) != HALF:
            raise CppFault("call through a bad pointer")
        return self.fn(g)
