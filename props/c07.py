"""Algebraic_Expression: operations commute with evaluation."""
from bbv.runner import Case
from bbv import shim

INFO = {
    "functions": ["Algebraic_Expression.Expression.__add__/__sub__/__mul__/__pow__/__neg__/"
                  "__truediv__/__floordiv__/__divmod__/__eq__/substitute/min_val/"
                  "is_var_plus_const/as_strictly_linear/variables", "always_ge", "always_gt",
                  "min_val", "term_sum", "compare_terms", "expr_prod", "vars_prod"],
    "bounds": "polynomials in up to 3 variables with up to 3 monomials of degree <= 3 (lists in "
              "SHAPES), every integer coefficient, constant, scalar and variable value (unbounded); "
              "exponents 0..3; divisors 1..6",
    "outside": "more than 3 monomials per operand, ExpInt coefficients (C08), parsing from text",
}

SHAPES = {
    "c": [],
    "x": [(1, 0, 0)],
    "y": [(0, 1, 0)],
    "x,y": [(1, 0, 0), (0, 1, 0)],
    "y,z": [(0, 1, 0), (0, 0, 1)],
    "x2": [(1, 0, 0), (2, 0, 0)],
    "xy": [(1, 0, 0), (1, 1, 0)],
    "xz": [(0, 0, 1), (1, 0, 1)],
    "x3": [(2, 0, 0), (3, 0, 0)],
    "x,y,xy": [(1, 0, 0), (0, 1, 0), (1, 1, 0)],
    "x2y,yz": [(2, 1, 0), (0, 1, 1)],
    "x2,y2": [(2, 0, 0), (0, 2, 0), (0, 1, 0)],
}


def mk(ctx, A, vs, shape, tag, lo=None, hi=None):
    """Expression built with the real operators, and its coefficients."""
    cs = []
    c0 = ctx.int(tag + "_c", lo, hi)
    e = A.ConstantToExpression(c0)
    for i, m in enumerate(SHAPES[shape]):
        c = ctx.int("%s_%d" % (tag, i), lo, hi)
        cs.append((m, c))
        t = A.ConstantToExpression(c)
        for v, p in zip(vs, m):
            for _ in range(p):
                t = t * A.VariableToExpression(v)
        e = e + t
    return e, cs, c0


def val(cs, c0, xs):
    r = c0
    for m, c in cs:
        t = c
        for x, p in zip(xs, m):
            for _ in range(p):
                t = t * x
        r = r + t
    return r


def setup(ctx, lo=None):
    A = shim.load("Algebraic_Expression")
    vs = [A.Variable() for _ in range(3)]
    xs = [ctx.int("v%d" % i, lo) for i in range(3)]
    return A, vs, xs, dict(zip(vs, xs))


def ev(A, e, sub):
    return A.substitute(e, sub)


def ring(ctx, s1, s2):
    A, vs, xs, sub = setup(ctx)
    e1, c1, k1 = mk(ctx, A, vs, s1, "a")
    e2, c2, k2 = mk(ctx, A, vs, s2, "b")
    v1, v2 = val(c1, k1, xs), val(c2, k2, xs)
    ctx.check(ev(A, e1, sub) == v1, "building an expression")
    ctx.check(ev(A, e1 + e2, sub) == v1 + v2, "sum")
    ctx.check(ev(A, e1 - e2, sub) == v1 - v2, "difference")
    ctx.check(ev(A, e1 * e2, sub) == v1 * v2, "product")
    ctx.check(ev(A, -e1, sub) == -v1, "negation")
    k = ctx.int("k")
    ctx.check(ev(A, e1 + k, sub) == v1 + k, "sum with an integer")
    ctx.check(ev(A, k + e1, sub) == v1 + k, "integer plus expression")
    ctx.check(ev(A, e1 - k, sub) == v1 - k, "expression minus integer")
    ctx.check(ev(A, k - e1, sub) == k - v1, "integer minus expression")
    ctx.check(ev(A, e1 * k, sub) == v1 * k, "product with an integer")
    ctx.check(ev(A, k * e1, sub) == v1 * k, "integer times expression")
    # operands unchanged
    ctx.check(ev(A, e1, sub) == v1, "operands are not modified")
    ctx.check(ev(A, e2, sub) == v2, "operands are not modified")


def power(ctx, s1):
    A, vs, xs, sub = setup(ctx)
    e1, c1, k1 = mk(ctx, A, vs, s1, "a")
    v1 = val(c1, k1, xs)
    n = ctx.choice("n", 4)
    r = 1
    for _ in range(n):
        r = r * v1
    ctx.check(ev(A, e1 ** n, sub) == r, "power")


def quotient(ctx, s1):
    # four values per variable decide a polynomial identity of degree <= 3; this
    # keeps the divisibility questions linear
    A = shim.load("Algebraic_Expression")
    vs = [A.Variable() for _ in range(3)]
    xs = [(0, 1, -1, 2)[ctx.choice("v%d" % i, 4)]
          if any(m[i] for m in SHAPES[s1]) else 0 for i in range(3)]
    sub = dict(zip(vs, xs))
    e1, c1, k1 = mk(ctx, A, vs, s1, "a")
    v1 = val(c1, k1, xs)
    d = 1 + ctx.choice("d", 6)
    ctx.check(ev(A, (e1 * d) / d, sub) == v1, "exact quotient")
    ctx.check(ev(A, (e1 * d) // d, sub) == v1, "exact quotient")
    q = e1 / d
    ctx.check(ev(A, q * d, sub) == v1, "quotient times divisor")
    ctx.check(ev(A, q + q, sub) * d == 2 * v1, "twice the quotient")
    qq, r = divmod(e1, 1)
    ctx.check(ev(A, qq, sub) == v1, "divmod by 1")
    ctx.check(r == 0, "remainder of division by 1")


def equality(ctx, s1, s2):
    A, vs, xs, sub = setup(ctx)
    e1, c1, k1 = mk(ctx, A, vs, s1, "a")
    e2, c2, k2 = mk(ctx, A, vs, s2, "b")
    ms = {}
    for m, c in c1:
        ms[m] = ms.get(m, 0) + c
    for m, c in c2:
        ms[m] = ms.get(m, 0) - c
    same = k1 == k2
    for d in ms.values():
        same = ctx.And(same, d == 0)
    r = e1 == e2
    ctx.check((True if r else False) == same, "equality of expressions")
    ctx.check((True if e1 != e2 else False) == ctx.Not(same), "inequality of expressions")
    ctx.check((True if e1 == k2 else False) ==
              ctx.And(k1 == k2, *[c == 0 for _, c in c1]), "equality with an integer")
    ctx.check(not (e1 == float("inf")), "never equal to infinity")


def compose(ctx, s1, s2):
    A, vs, xs, sub = setup(ctx)
    e1, c1, k1 = mk(ctx, A, vs, s1, "a")
    e2, c2, k2 = mk(ctx, A, vs, s2, "b")
    v2 = val(c2, k2, xs)
    # x := e2
    r = A.substitute(e1, {vs[0]: e2})
    ctx.check(ev(A, r, sub) == val(c1, k1, [v2, xs[1], xs[2]]), "substituting an expression")
    # x and y at once, each mentioning the other
    r = A.substitute(e1, {vs[0]: e2, vs[1]: A.VariableToExpression(vs[0]) - 3})
    ctx.check(ev(A, r, sub) == val(c1, k1, [v2, xs[0] - 3, xs[2]]),
              "simultaneous substitution")
    n = ctx.int("n")
    r = A.substitute(e1, {vs[1]: n})
    ctx.check(ev(A, r, sub) == val(c1, k1, [xs[0], n, xs[2]]), "partial substitution")


def order(ctx, s1, s2):
    """Claims about all non-negative values."""
    A, vs, xs, sub = setup(ctx, 0)
    e1, c1, k1 = mk(ctx, A, vs, s1, "a")
    e2, c2, k2 = mk(ctx, A, vs, s2, "b")
    v1, v2 = val(c1, k1, xs), val(c2, k2, xs)
    if A.always_ge(e1, e2):
        ctx.check(v1 >= v2, "always_ge")
        ctx.note("ge")
    if A.always_gt(e1, e2):
        ctx.check(v1 > v2, "always_gt")
        ctx.note("gt")
    m = A.min_val(e1)
    if m != float("-inf"):
        ctx.check(v1 >= m, "min_val is a lower bound")
        ctx.check(ev(A, e1, {v: 0 for v in vs}) == m, "min_val is attained")
    if A.always_ge(e1, k2):
        ctx.check(v1 >= k2, "always_ge of a number")
    if A.always_ge(k1, e2):
        ctx.check(k1 >= v2, "number always_ge an expression")
        ctx.note("const_ge")


def forms(ctx, s1):
    A, vs, xs, sub = setup(ctx)
    e1, c1, k1 = mk(ctx, A, vs, s1, "a", -3, 3)
    v1 = val(c1, k1, xs)
    if e1.is_var_plus_const():
        x = e1.variable_restricted()
        ctx.check(v1 == sub[x] + e1.const, "var + const form")
        ctx.note("vpc")
    r = e1.as_strictly_linear()
    if r:
        x, a, b = r
        ctx.check(v1 == a * sub[x] + b, "linear form")
        ctx.note("lin")
    if A.is_const(e1):
        ctx.check(v1 == A.as_const(e1), "constant form")
    vars_ = A.variables(e1)
    for i, v in enumerate(vs):
        if v not in vars_:
            ctx.check(v1 == val(c1, k1, [0 if j == i else x for j, x in enumerate(xs)]),
                      "an unlisted variable does not matter")
    w = ctx.int("w")
    x = A.Variable()
    e = A.VarPlusConstExpression(x, w)
    ctx.check(ev(A, e, {x: k1}) == k1 + w, "var + const")
    # fresh variables are distinct from all others
    y = A.NewVariableExpression()
    ctx.check(y.variable() != x and x not in vs and y.variable() not in vs, "fresh variables")


def cases(tier):
    q = tier == "quick"
    S = list(SHAPES)
    cs = []
    small = ["c", "x", "y", "x,y", "x2", "xy"]
    for i, a in enumerate(S):
        for b in S:
            if q and not (a in small and b in small) and (i + S.index(b)) % 3:
                continue
            if not (q and a == b == "x,y,xy"):
                cs.append(Case("ring", {"s1": a, "s2": b}))
            cs.append(Case("compose", {"s1": a, "s2": b}))
            if len(SHAPES[a]) + len(SHAPES[b]) <= (4 if q else 5):
                cs.append(Case("equality", {"s1": a, "s2": b}))
            cs.append(Case("order", {"s1": a, "s2": b}))
        cs.append(Case("power", {"s1": a}))
        cs.append(Case("quotient", {"s1": a}))
        cs.append(Case("forms", {"s1": a}))
    return cs
