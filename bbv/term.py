"""Hash-consed integer / boolean terms.

Integer terms are Python ints or Nodes; sums and products are kept as
polynomials over atoms (variables, div, mod, ite), so that ring identities fold
without a solver.  z3 translation is cached per node.
"""
import itertools
import math
from fractions import Fraction

_table = {}
_next = [0]


class Node:
    __slots__ = ("op", "args", "id", "z", "vars", "sort")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def node(op, *args):
    key = (op,) + args
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        n.id = _next[0]
        _next[0] += 1
        n.z = None
        n.vars = None
        n.sort = None
        _table[key] = n
    return n


def table_size():
    return len(_table)


def clear():
    _table.clear()


def show(x):
    if type(x) is not Node:
        return repr(x)
    if x.op in ("var", "bvar"):
        return x.args[0]
    if x.op == "poly":
        c, ms = x.args
        s = ["%s*%s" % (k, "*".join(map(show, m))) if k != 1 else
             "*".join(map(show, m)) for m, k in ms]
        if c:
            s.append(str(c))
        return "(" + " + ".join(s) + ")"
    return "%s(%s)" % (x.op, ", ".join(show(a) for a in x.args))


def vars_of(x):
    if type(x) is not Node:
        return frozenset()
    if x.vars is None:
        if x.op in ("var", "bvar"):
            x.vars = frozenset((x,))
        elif x.op == "poly":
            s = set()
            for m, _ in x.args[1]:
                for a in m:
                    s |= vars_of(a)
            x.vars = frozenset(s)
        else:
            s = set()
            for a in x.args:
                s |= vars_of(a)
            x.vars = frozenset(s)
    return x.vars


# ---------------------------------------------------------------- integers
def var(name, lo=None, hi=None):
    return node("var", name, lo, hi)


def bvar(name):
    return node("bvar", name)


def parts(x):
    """(const, {monomial: coef})"""
    if type(x) is not Node:
        return (x if type(x) is Fraction else int(x)), {}
    if x.op == "poly":
        return x.args[0], dict(x.args[1])
    return 0, {(x,): 1}


def _norm(k):
    return k.numerator if type(k) is Fraction and k.denominator == 1 else k


def denom(x):
    """Common denominator of the coefficients.  Coefficients are integers except
    in integer-valued polynomials (such as n(n-1)/2) made by div."""
    if type(x) is not Node:
        return x.denominator if type(x) is Fraction else 1
    if x.op != "poly":
        return 1
    l = x.args[0].denominator if type(x.args[0]) is Fraction else 1
    for _, k in x.args[1]:
        if type(k) is Fraction:
            l = math.lcm(l, k.denominator)
    return l


def _residues(p, b):
    """The residue mod b of an integer polynomial, when it is the same for all
    values of its atoms (decided over all residues of the atoms); else None."""
    if p.op != "poly" or all(len(m) == 1 for m, _ in p.args[1]):
        return None
    atoms = []
    for m, _ in p.args[1]:
        for a in m:
            if a not in atoms:
                atoms.append(a)
    if b ** len(atoms) > 3000:
        return None
    ms = [([atoms.index(a) for a in m], k) for m, k in p.args[1]]
    res = None
    for vs in itertools.product(range(b), repeat=len(atoms)):
        t = p.args[0]
        for m, k in ms:
            x = k
            for i in m:
                x *= vs[i]
            t += x
        t %= b
        if res is None:
            res = t
        elif res != t:
            return None
    return res


def build(c, d):
    c = _norm(c)
    items = [(m, _norm(k)) for m, k in d.items() if k != 0]
    if not items:
        return c
    if len(items) == 1 and c == 0 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda mk: (len(mk[0]), [a.id for a in mk[0]]))
    return node("poly", c, tuple(items))


def add(a, b):
    if type(a) is not Node and type(b) is not Node:
        return a + b
    c1, d1 = parts(a)
    c2, d2 = parts(b)
    for m, k in d2.items():
        d1[m] = d1.get(m, 0) + k
    return build(c1 + c2, d1)


def scale(a, k):
    if type(a) is not Node:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    c, d = parts(a)
    return build(c * k, {m: v * k for m, v in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if type(a) is not Node:
        return scale(b, a) if type(b) is Node else a * b
    if type(b) is not Node:
        return scale(a, b)
    c1, d1 = parts(a)
    c2, d2 = parts(b)
    if len(d1) * len(d2) > 400:
        return build(0, {tuple(sorted((_opaque(a), _opaque(b)),
                                      key=lambda n: n.id)): 1})
    r = {}
    for m, k in d1.items():
        if c2:
            r[m] = r.get(m, 0) + k * c2
        for m2, k2 in d2.items():
            mm = tuple(sorted(m + m2, key=lambda n: n.id))
            r[mm] = r.get(mm, 0) + k * k2
    if c1:
        for m2, k2 in d2.items():
            r[m2] = r.get(m2, 0) + k2 * c1
    return build(c1 * c2, r)


def _opaque(a):
    return a if a.op != "poly" else node("id", a)


def bounds(x, env=None):
    """Static (or path) interval of an integer term; None = unbounded."""
    if type(x) is not Node:
        return x, x
    op = x.op
    if op == "var":
        if env is not None:
            b = env.get(x)
            if b is not None:
                return b
        return x.args[1], x.args[2]
    if op == "poly":
        lo = hi = x.args[0]
        for m, k in x.args[1]:
            l, h = 1, 1
            for a in m:
                al, ah = bounds(a, env)
                if al is None or ah is None or l is None or h is None:
                    if (al is not None and al >= 0 and l is not None and l >= 0):
                        l, h = l * al, None if (ah is None or h is None) else h * ah
                    else:
                        l = h = None
                else:
                    ps = (l * al, l * ah, h * al, h * ah)
                    l, h = min(ps), max(ps)
            if len(m) == 2 and m[0] is m[1] and (l is None or l < 0):
                l = 0
            if k < 0:
                l, h = (None if h is None else h * k), (None if l is None else l * k)
            else:
                l, h = (None if l is None else l * k), (None if h is None else h * k)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return lo, hi
    if op == "ite":
        a, b = bounds(x.args[1], env), bounds(x.args[2], env)
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == "mod":
        k = x.args[1]
        if type(k) is not Node:
            return 0, k - 1
        return 0, None
    if op == "div":
        k = x.args[1]
        if type(k) is not Node:
            l, h = bounds(x.args[0], env)
            return (None if l is None else l // k), (None if h is None else h // k)
        return None, None
    if op == "id":
        return bounds(x.args[0], env)
    return None, None


def div(a, b):
    """floor division; b must be known positive when symbolic."""
    if type(b) is not Node:
        if type(a) is not Node:
            return a // b
        if b == 1:
            return a
        L = denom(a)
        if L > 1:
            return div(scale(a, L), b * L)
        c, d = parts(a)
        q = {m: k // b for m, k in d.items()}
        r = {m: k % b for m, k in d.items()}
        rest = build(c % b, r)
        base = build(c // b, q)
        if type(rest) is not Node:
            return base
        l, h = bounds(rest)
        if l is not None and h is not None and l // b == h // b:
            return add(base, l // b)
        if rest.op == "div" and type(rest.args[1]) is not Node:
            return add(base, node("div", rest.args[0], rest.args[1] * b))
        k = _residues(rest, b)
        if k is not None:
            return add(base, scale(sub(rest, k), Fraction(1, b)))
        return add(base, node("div", rest, b))
    return node("div", a, b)


def mod(a, b):
    if type(b) is not Node:
        if type(a) is not Node:
            return a % b
        if b == 1:
            return 0
        if denom(a) > 1:
            return sub(a, scale(div(a, b), b))
        c, d = parts(a)
        rest = build(c % b, {m: k % b for m, k in d.items()})
        if type(rest) is not Node:
            return rest % b
        l, h = bounds(rest)
        if l is not None and h is not None and l // b == h // b:
            return sub(rest, (l // b) * b)
        # (x mod (b*k)) mod b
        if rest.op == "mod" and type(rest.args[1]) is not Node and rest.args[1] % b == 0:
            return mod(rest.args[0], b)
        k = _residues(rest, b)
        if k is not None:
            return k
        return node("mod", rest, b)
    return node("mod", a, b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is not Node and type(b) is not Node and a == b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    # linear interpolation keeps equal parts outside
    return node("ite", c, a, b)


# ---------------------------------------------------------------- booleans
def le0(p):
    """p <= 0"""
    if type(p) is not Node:
        return p <= 0
    L = denom(p)
    if L > 1:
        p = scale(p, L)
    l, h = bounds(p)
    if h is not None and h <= 0:
        return True
    if l is not None and l > 0:
        return False
    c, d = parts(p)
    if len(d) == 1 and _ite_const(p):
        r = _push(p, lambda v: v <= 0)
        if r is not None:
            return r
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
    if g > 1:
        # g*q + c <= 0  <=>  q <= floor(-c/g)
        p = build(-((-c) // g), {m: k // g for m, k in d.items()})
    return node("le", p)


def eq0(p):
    if type(p) is not Node:
        return p == 0
    L = denom(p)
    if L > 1:
        p = scale(p, L)
    l, h = bounds(p)
    if (l is not None and l > 0) or (h is not None and h < 0):
        return False
    c, d = parts(p)
    if len(d) == 1 and _ite_const(p):
        r = _push(p, lambda v: v == 0)
        if r is not None:
            return r
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
    if g > 1:
        if c % g:
            return False
        c //= g
        d = {m: k // g for m, k in d.items()}
    p = build(c, d)
    # sign normal form
    first = p.args[1][0][1] if p.op == "poly" else 1
    if first < 0:
        p = scale(p, -1)
    return node("eq", p)


def _ite_const(p):
    c, d = parts(p)
    (m, k), = d.items()
    return len(m) == 1 and m[0].op == "ite" and _leaves(m[0], 8) is not None


def _leaves(n, limit):
    """Does the ite tree have only constant leaves (and few of them)?"""
    if type(n) is not Node:
        return limit - 1 if limit > 0 else None
    if n.op != "ite":
        return None
    for x in n.args[1:]:
        limit = _leaves(x, limit)
        if limit is None:
            return None
    return limit


def _push(p, f):
    c, d = parts(p)
    (m, k), = d.items()

    def rec(n):
        if type(n) is not Node:
            return bool(f(c + k * n))
        cond = n.args[0]
        return bite(cond, rec(n.args[1]), rec(n.args[2]))
    return rec(m[0])


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def not_(b):
    if b is True:
        return False
    if b is False:
        return True
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        # not p <= 0  <=>  1 - p <= 0
        return le0(sub(1, b.args[0]))
    return node("not", b)


def and_(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        if b.op == "and":
            for x in b.args:
                if x not in seen:
                    seen.add(x)
                    out.append(x)
        elif b not in seen:
            seen.add(b)
            out.append(b)
    for b in out:
        if b.op == "not" and b.args[0] in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return node("and", *out)


def or_(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        if b.op == "or":
            for x in b.args:
                if x not in seen:
                    seen.add(x)
                    out.append(x)
        elif b not in seen:
            seen.add(b)
            out.append(b)
    for b in out:
        if b.op == "not" and b.args[0] in seen:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return node("or", *out)


# ---------------------------------------------------------------- evaluation
def default(v):
    if v.op == "bvar":
        return False
    lo, hi = v.args[1], v.args[2]
    if lo is not None:
        return lo
    if hi is not None:
        return min(hi, 0)
    return 0


def evaluate(x, model, memo):
    if type(x) is not Node:
        return x
    op = x.op
    if op == "var" or op == "bvar":
        v = model.get(x.args[0])
        return default(x) if v is None else v
    r = memo.get(x)
    if r is not None:
        return r
    if op == "poly":
        r = x.args[0]
        for m, k in x.args[1]:
            t = k
            for a in m:
                t *= evaluate(a, model, memo)
            r += t
        r = _norm(r)
    elif op == "ite":
        r = evaluate(x.args[1] if evaluate(x.args[0], model, memo) else x.args[2],
                     model, memo)
    elif op == "le":
        r = evaluate(x.args[0], model, memo) <= 0
    elif op == "eq":
        r = evaluate(x.args[0], model, memo) == 0
    elif op == "not":
        r = not evaluate(x.args[0], model, memo)
    elif op == "and":
        r = all(evaluate(a, model, memo) for a in x.args)
    elif op == "or":
        r = any(evaluate(a, model, memo) for a in x.args)
    elif op == "div" or op == "mod":
        a, b = evaluate(x.args[0], model, memo), evaluate(x.args[1], model, memo)
        if b <= 0:
            r = 0  # unreachable on real paths (b > 0 is a path constraint)
        else:
            r = a // b if op == "div" else a % b
    elif op == "id":
        r = evaluate(x.args[0], model, memo)
    else:
        raise AssertionError(op)
    memo[x] = r
    return r


def subst(x, env, memo):
    """Replace variables with known values and re-normalise."""
    if type(x) is not Node:
        return x
    op = x.op
    if op == "var" or op == "bvar":
        v = env.get(x)
        return x if v is None else v
    r = memo.get(x)
    if r is not None:
        return r
    vs = vars_of(x)
    if not any(v in env for v in vs):
        r = x
    elif op == "poly":
        r = x.args[0]
        for m, k in x.args[1]:
            t = k
            for a in m:
                t = mul(t, subst(a, env, memo))
            r = add(r, t)
        r = _norm(r)
    elif op == "ite":
        c = subst(x.args[0], env, memo)
        if c is True:
            r = subst(x.args[1], env, memo)
        elif c is False:
            r = subst(x.args[2], env, memo)
        else:
            r = ite(c, subst(x.args[1], env, memo), subst(x.args[2], env, memo))
    elif op == "le":
        r = le0(subst(x.args[0], env, memo))
    elif op == "eq":
        r = eq0(subst(x.args[0], env, memo))
    elif op == "not":
        r = not_(subst(x.args[0], env, memo))
    elif op == "and":
        r = and_(*[subst(a, env, memo) for a in x.args])
    elif op == "or":
        r = or_(*[subst(a, env, memo) for a in x.args])
    elif op == "div":
        b = subst(x.args[1], env, memo)
        r = div(subst(x.args[0], env, memo), b) if type(b) is Node or b > 0 else x
    elif op == "mod":
        b = subst(x.args[1], env, memo)
        r = mod(subst(x.args[0], env, memo), b) if type(b) is Node or b > 0 else x
    elif op == "id":
        a = subst(x.args[0], env, memo)
        r = a if type(a) is not Node else _opaque(a)
    else:
        raise AssertionError(op)
    memo[x] = r
    return r


# ---------------------------------------------------------------- z3
def to_z3(x):
    import z3
    if type(x) is not Node:
        if isinstance(x, bool):
            return z3.BoolVal(x)
        return z3.IntVal(x)
    if x.z is not None:
        return x.z
    op = x.op
    if op == "var":
        z = z3.Int(x.args[0])
    elif op == "bvar":
        z = z3.Bool(x.args[0])
    elif op == "poly" and denom(x) > 1:
        L = denom(x)
        z = to_z3(scale(x, L)) / z3.IntVal(L)
    elif op == "poly":
        ts = []
        for m, k in x.args[1]:
            fs = [to_z3(a) for a in m]
            if k != 1:
                fs.insert(0, z3.IntVal(k))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        if x.args[0]:
            ts.append(z3.IntVal(x.args[0]))
        z = z3.Sum(ts) if len(ts) > 1 else ts[0]
    elif op == "ite":
        z = z3.If(to_z3(x.args[0]), to_z3(x.args[1]), to_z3(x.args[2]))
    elif op == "le":
        c, d = parts(x.args[0])
        # move the constant to the right hand side
        z = to_z3(build(0, d)) <= z3.IntVal(-c)
    elif op == "eq":
        c, d = parts(x.args[0])
        z = to_z3(build(0, d)) == z3.IntVal(-c)
    elif op == "not":
        z = z3.Not(to_z3(x.args[0]))
    elif op == "and":
        z = z3.And(*[to_z3(a) for a in x.args])
    elif op == "or":
        z = z3.Or(*[to_z3(a) for a in x.args])
    elif op == "div":
        z = to_z3(x.args[0]) / to_z3(x.args[1])
    elif op == "mod":
        z = to_z3(x.args[0]) % to_z3(x.args[1])
    elif op == "id":
        z = to_z3(x.args[0])
    else:
        raise AssertionError(op)
    x.z = z
    return z
