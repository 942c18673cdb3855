"""Exp_Int: formula integers against the integers they denote."""
from fractions import Fraction
from bbv.runner import Case
from bbv import shim

INFO = {
    "functions": ["Exp_Int.exp_int", "ExpTerm.normalize/eval/mod/mul_int/div_int/mul_term/substitute",
                  "normalize_terms", "ExpInt.normalize/eval/__add__/__sub__/__mul__/__truediv__/"
                  "__mod__/__divmod__/__floordiv__/__neg__/__gt__/__ge__/__lt__/__le__/substitute/min_val",
                  "try_eval", "try_simplify", "sign", "struct_eq", "Math.gcd/lcm/int_pow/exp_mod/carmichael"],
    "bounds": "formulas (a1 b^n1 + a2 b^n2 + c)/d: b in {2,3,4,6,9}, exponents from a list of small "
              "(1..6) and large (999..2001) ones, including exponents that are formulas themselves, "
              "every a1, a2 in -4..4 (nonzero), every integer c (unbounded), d in 1..4 with integral "
              "value; integer operands unbounded for sums, -6..6 for products, moduli 1..12",
    "outside": "more than two terms per operand, nesting deeper than 2, comparisons of values too "
               "large to evaluate (approximate by design), operands with different bases (refused)",
}

SMALL = [1, 2, 3, 5]
LARGE = [999, 1000, 1001, 2001]


def val(x):
    """The integer denoted by an int or a formula, from its stored structure."""
    if hasattr(x, "terms"):
        n = x.const
        for t in x.terms:
            p, q = val(t.exponent)
            n = n + t.coef * (t.base ** (p // q))
        return n, x.denom
    return x, 1


def same(ctx, r, num, den, msg):
    """r denotes num/den."""
    n, d = val(r)
    if not (type(d) is int):
        d = ctx.concrete(d)
    if not ctx.symbolic and d == 0:
        ctx.fail(msg)
    ctx.check(d != 0, msg)
    ctx.check(n * den == num * d, msg)


def conc(v):
    return v


def term(ctx, E, tag, base, exps, cmax):
    n = exps[ctx.choice(tag + "n", len(exps))]
    a = ctx.choice(tag + "a", 2 * cmax)      # forked: the code looks at its factors
    a = a - cmax if a < cmax else a - cmax + 1
    return a * E.exp_int(base, n), a * base ** n


def formula(ctx, E, tag, base, exps, nterms, cmax, den, const=None):
    x, v = term(ctx, E, tag + "0", base, exps, cmax)
    for i in range(1, nterms):
        y, w = term(ctx, E, tag + str(i), base, exps, cmax)
        x = x + y
        v = v + w
    c = ctx.int(tag + "c") if const is None else const
    x = x + c
    v = v + c
    if den > 1:
        d = 1 + ctx.choice(tag + "d", den)
        if d > 1:
            ctx.assume(v % d == 0)
            if not hasattr(x, "terms"):
                return None
            x = x / d
            return x, v // d
    return x, v


def arith1(ctx, base, exps, nterms, cmax, den):
    """One formula and integers."""
    E = shim.load("Exp_Int")
    f = formula(ctx, E, "x", base, exps, nterms, cmax, den)
    if f is None:
        return
    x, v = f
    same(ctx, x, v, 1, "value of a formula")
    if not hasattr(x, "terms"):
        return
    k = ctx.int("k")
    op = ctx.choice("op", 6)
    if op == 0:
        same(ctx, x + k, v + k, 1, "formula + integer")
        same(ctx, k + x, v + k, 1, "integer + formula")
        same(ctx, x - k, v - k, 1, "formula - integer")
        same(ctx, k - x, k - v, 1, "integer - formula")
        same(ctx, -x, -v, 1, "negation")
    elif op == 1:
        m = ctx.choice("m", 13) - 6
        same(ctx, x * m, v * m, 1, "formula * integer")
        same(ctx, m * x, v * m, 1, "integer * formula")
        if m != 0:
            y = (x * m) / m
            same(ctx, y, v, 1, "exact division")
            y = (x * m) // m if m > 0 else x
            same(ctx, y, v, 1, "exact floor division")
    elif op == 2:
        m = 1 + ctx.choice("m", 12)
        r = x % m
        ctx.check(r == v % m, "remainder")
        ctx.note("mod")
    elif op == 3:
        m = 2 + ctx.choice("m", 5)
        q, r = divmod(x, m)
        ctx.check(r == v % m, "remainder from divmod")
        same(ctx, q, v - v % m, m, "quotient from divmod")
    elif op == 4:
        # (shared operand reused) subtraction of close formulas cancels
        y = x + k
        z = y - x
        same(ctx, z, k, 1, "difference of a formula and itself plus k")
        same(ctx, x - x, 0, 1, "difference of a formula and itself")
        same(ctx, x + x, 2 * v, 1, "a formula plus itself")
    else:
        same(ctx, x, v, 1, "operands are not modified")
        if E.struct_eq(x, x + k):
            ctx.check(k == 0, "structural equality implies equality")


def arith2(ctx, base, e1, e2, cmax, den):
    """Two formulas with the same base."""
    E = shim.load("Exp_Int")
    f = formula(ctx, E, "x", base, e1, 1, cmax, den)
    g = formula(ctx, E, "y", base, e2, 1, cmax, den)
    if f is None or g is None:
        return
    x, v = f
    y, w = g
    same(ctx, x + y, v + w, 1, "sum of formulas")
    same(ctx, x - y, v - w, 1, "difference of formulas")
    if E.struct_eq(x, y):
        ctx.check(v == w, "structurally equal formulas are equal")


def mult2(ctx, base, e1, e2, cmax, cc):
    E = shim.load("Exp_Int")
    x, v = formula(ctx, E, "x", base, e1, 1, cmax, 1, ctx.int("xc", -cc, cc))
    y, w = formula(ctx, E, "y", base, e2, 1, cmax, 1, ctx.int("yc", -cc, cc))
    same(ctx, x * y, v * w, 1, "product of formulas")
    same(ctx, x, v, 1, "operands are not modified")
    same(ctx, y, w, 1, "operands are not modified")


def cmp_int(ctx, base, exps, nterms, cmax, den):
    """Comparisons, sign and evaluation of values small enough to evaluate."""
    E = shim.load("Exp_Int")
    f = formula(ctx, E, "x", base, exps, nterms, cmax, den)
    if f is None:
        return
    x, v = f
    if not hasattr(x, "terms"):
        return
    k = ctx.int("k")
    ctx.check(E.try_eval(x) == v, "evaluation")
    ctx.check(E.try_simplify(x) == v, "simplification")
    s = E.sign(x)
    ctx.check(s == ctx.ite(v > 0, 1, ctx.ite(v < 0, -1, 0)), "sign")
    for name, got, exp in (("<", x < k, v < k), ("<=", x <= k, v <= k),
                           (">", x > k, v > k), (">=", x >= k, v >= k),
                           ("r<", k < x, k < v), ("r>=", k >= x, k >= v)):
        ctx.check((True if got else False) == exp, "comparison with an integer " + name)
    ctx.check(x < float("inf") and x > float("-inf"), "comparison with infinity")


def cmp2(ctx, base, exps, cmax, den):
    E = shim.load("Exp_Int")
    f = formula(ctx, E, "x", base, exps, 1, cmax, den)
    g = formula(ctx, E, "y", base, exps, 1, cmax, 1)
    if f is None:
        return
    x, v = f
    y, w = g
    for name, got, exp in (("<", x < y, v < w), ("<=", x <= y, v <= w),
                           (">", x > y, v > w), (">=", x >= y, v >= w)):
        ctx.check((True if got else False) == exp, "comparison of formulas " + name)


def cmp_big(ctx, base):
    """A single large power against integers and against a clearly smaller one."""
    E = shim.load("Exp_Int")
    n = LARGE[ctx.choice("n", len(LARGE))]
    a = ctx.int("a", -4, 4)
    ctx.assume(a != 0)
    c = ctx.int("c", -1000, 1000)
    x = a * E.exp_int(base, n) + c
    v = a * base ** n + c
    k = ctx.int("k", -10 ** 6, 10 ** 6)
    ctx.check(E.sign(x) == ctx.ite(v > 0, 1, -1), "sign of a large value")
    ctx.check((True if x > k else False) == (v > k), "large value against an integer")
    ctx.check((True if x <= k else False) == (v <= k), "large value against an integer")


def nested(ctx, base, bases2):
    """Exponents that are formulas."""
    E = shim.load("Exp_Int")
    b2 = bases2[ctx.choice("b2", len(bases2))]
    n = 1 + ctx.choice("n", 3)
    k = ctx.choice("k", 7) - 4
    big = ctx.choice("big", 2)
    ev = b2 ** n * (300 if big else 1) + k
    ctx.assume(ev >= 0)
    ex = E.exp_int(b2, n) * (300 if big else 1) + k
    x = E.exp_int(base, ex)
    c = ctx.int("c")
    a = ctx.int("a", 1, 4)
    y = a * x + c
    v = a * base ** ev + c
    same(ctx, y, v, 1, "formula with a formula exponent")
    m = 1 + ctx.choice("m", 12)
    if hasattr(y, "terms"):
        ctx.check(y % m == v % m, "remainder with a formula exponent")
        same(ctx, y + y, 2 * v, 1, "sum with a formula exponent")
        if ev < 400:
            ctx.check(E.try_eval(y) == v, "evaluation with a formula exponent")
            kk = ctx.int("kk")
            ctx.check((True if y > kk else False) == (v > kk),
                      "comparison with a formula exponent")


def subst(ctx, base):
    """Formulas whose exponent contains a variable."""
    E = shim.load("Exp_Int")
    A = shim.load("Algebraic_Expression")
    x = A.Variable()
    u = 1 + ctx.choice("u", 2)
    w = ctx.choice("w", 4)
    d = 1 + ctx.choice("d", 2)
    a = ctx.int("a", 1, 4)
    c = ctx.int("c", -20, 20)
    e = u * A.VariableToExpression(x) + w
    f = a * E.exp_int(base, e) + c
    if d > 1:
        for t in range(4):
            ctx.assume((a * base ** (u * t + w) + c) % d == 0)
        f = f / d
    t = ctx.choice("t", 4)
    v = a * base ** (u * t + w) + c
    same(ctx, A.substitute(f, {x: t}), v, d, "substitution into an exponent")
    same(ctx, A.substitute(f + 5, {x: t}), v + 5 * d, d, "substitution after a sum")
    same(ctx, A.substitute(f * 3, {x: t}), v * 3, d, "substitution after a product")
    m = A.min_val(f)
    if m != float("-inf"):
        n, dd = val(m)
        ctx.check(n * d <= v * dd, "min_val is a lower bound")
    ctx.check(A.variables(f) == frozenset([x]), "variables")
    ctx.check(not A.is_const(f), "not constant")
    y = A.Variable()
    g = A.substitute(f, {x: A.VariableToExpression(y) + 1})
    if t >= 1:
        same(ctx, A.substitute(g, {y: t - 1}), v, d, "substituting an expression")


def cases(tier):
    q = tier == "quick"
    cs = []
    bases = [2, 3, 4, 6, 9] if not q else [2, 3, 4, 6]
    bases = bases + [5] if not q else bases
    for b in bases:
        cm = 2 if q else 4
        for nm, ex in (("small", SMALL), ("large", LARGE), ("mixed", [3, 1000])):
            if q and (b, nm) not in ((2, "small"), (3, "small"), (4, "small"), (6, "mixed"),
                                     (2, "mixed"), (3, "large"), (4, "large")):
                continue
            def add(h, **k):
                cs.append(Case(h, dict(base=b, **k), name="%s_b%d_%s_%s" % (
                    h, b, nm, "_".join(str(v) for v in k.values() if isinstance(v, int)))))
            add("arith1", exps=ex, nterms=1, cmax=cm, den=2 if q else 4)
            if not q or (b, nm) in ((2, "mixed"), (3, "small")):
                add("arith1", exps=ex[:2] if q else ex, nterms=2, cmax=2 if q else 3, den=2)
            add("arith2", e1=ex[:3] if q else ex, e2=ex[:2] if q else ex, cmax=2 if q else 3, den=2)
            add("mult2", e1=ex[:2] if q else ex, e2=ex[:2], cmax=2 if q else 4, cc=2 if q else 4)
        cs.append(Case("cmp_int", dict(base=b, exps=SMALL, nterms=1, cmax=cm, den=2 if q else 3),
                       name="cmp_int1_b%d" % b))
        cs.append(Case("cmp_int", dict(base=b, exps=SMALL[:2] if q else SMALL, nterms=2,
                                       cmax=2, den=2), name="cmp_int2_b%d" % b))
        cs.append(Case("cmp2", dict(base=b, exps=SMALL[:2] if q else SMALL, cmax=2, den=2),
                       name="cmp2_b%d" % b))
        cs.append(Case("cmp_big", dict(base=b), name="cmp_big_b%d" % b))
        cs.append(Case("nested", dict(base=b, bases2=[2 if b == 3 else 3] if q else [2, 3]), name="nested_b%d" % b))
        cs.append(Case("subst", dict(base=b), name="subst_b%d" % b))
    return cs
