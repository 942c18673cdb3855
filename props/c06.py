"""Rule_Func: closed forms against iteration."""
from bbv.runner import Case
from bbv import shim
from props.c08 import val

INFO = {
    "functions": ["Rule_Func.ceil_div", "Subtract_Func.max_reps/apply_rep", "Add_Func.apply_rep",
                  "Mult_Func.compute_min/apply_rep", "Pow_Func.compute_min", "Exp_Int", "Algebraic_Expression"],
    "bounds": "subtract/add: constants 1..8 (0..8), every start value and repetition count (unbounded, "
              "inductive over one repetition), also start values n + a symbolic in n; affine x -> m x + b: m in 2..5, "
              "b in -8..8, start -20..20, repetitions 0..6 (quick) or 0..9, "
              "minimums: every start value (unbounded); exponential x -> (a b^(u x + v) + c)/d: b in 2..4, a 1..3, c -10..10 (quick) or -40..40, "
              "d dividing, u 1..2, v -6..3, values up to minimum + 6",
    "outside": "constants and coefficients above the bounds; repetitions of an affine update above the bound",
}


def load():
    return shim.load("Macro.Rule_Func"), shim.load("Algebraic_Expression"), shim.load("Exp_Int")


def subtract(ctx, cmax):
    F, A, E = load()
    c = 1 + ctx.choice("c", cmax)
    mn = ctx.int("min", 0)
    f = F.Subtract_Func(A.Variable(), mn, c)
    x = ctx.int("x")
    ctx.check(f.is_decreasing, "decreasing")
    ctx.check(f.has_collatz_decrease == (c > 1), "larger decrease than 1")
    if x >= mn:
        n, fin = f.max_reps(x)
        if x - c >= mn:
            n2, fin2 = f.max_reps(x - c)
            ctx.check(n == n2 + 1, "one repetition fewer after one repetition")
            ctx.check(fin == fin2, "same remainder after one repetition")
            ctx.note("more")
        else:
            ctx.check(n == 1, "last repetition")
            ctx.check(fin == x - c, "value after the last repetition")
            ctx.note("last")
        ctx.check(f.apply_rep(x, n) == fin, "remainder is the value after that many repetitions")
    k = ctx.int("k", 0)
    ctx.check(f.apply_rep(x, 0) == x, "no repetition")
    ctx.check(f.apply_rep(x, k + 1) == f.apply_rep(x, k) - c, "one repetition more")


def subtract_expr(ctx, cmax):
    F, A, E = load()
    c = 1 + ctx.choice("c", cmax)
    mn = ctx.int("min", 0)
    v, y = A.Variable(), A.Variable()
    f = F.Subtract_Func(v, mn, c)
    a = ctx.int("a")
    t = ctx.int("t", 0)
    ctx.assume(a >= mn)
    e = A.VarPlusConstExpression(y, a)
    ctx.check(A.substitute(f.apply_rep(e, 3), {y: t}) == a + t - 3 * c, "repetitions of n + a")
    if c == 1:
        n, fin = f.max_reps(e)
        n2, fin2 = f.max_reps(a + t)
        ctx.check(A.substitute(n, {y: t}) == n2, "number of repetitions for n + a")
        ctx.check(A.substitute(fin, {y: t}) == fin2, "remainder for n + a")
    k = A.VarPlusConstExpression(y, ctx.int("k0"))
    x = ctx.int("x")
    ctx.check(A.substitute(f.apply_rep(x, k), {y: t}) == f.apply_rep(x, A.substitute(k, {y: t})),
              "symbolic number of repetitions")


def add(ctx, cmax):
    F, A, E = load()
    c = ctx.choice("c", cmax + 1)
    f = F.Add_Func(A.Variable(), ctx.int("min", 0), c)
    ctx.check(not f.is_decreasing, "not decreasing")
    x = ctx.int("x")
    k = ctx.int("k", 0)
    ctx.check(f.apply_rep(x, 0) == x, "no repetition")
    ctx.check(f.apply_rep(x, k + 1) == f.apply_rep(x, k) + c, "one repetition more")
    y = A.Variable()
    t = ctx.int("t", 0)
    e = A.VarPlusConstExpression(y, x)
    ctx.check(A.substitute(f.apply_rep(e, k), {y: t}) == x + t + k * c, "repetitions of n + a")


def mult_rep(ctx, m, reps, lo, hi):
    F, A, E = load()
    b = ctx.int("b", -8, 8)
    f = F.Mult_Func(A.Variable(), 1, m, b)
    x = ctx.int("x", lo, hi)
    n = ctx.choice("n", reps + 1)
    got = f.apply_rep(x, n)
    w = x
    for _ in range(n):
        w = m * w + b
    num, den = val(got)
    ctx.check(num == w * den, "value after n repetitions")
    ctx.note("rep")


def mult_big(ctx, m, n):
    """A number of repetitions too large to evaluate: x(n+1) = m x(n) + b."""
    F, A, E = load()
    b = ctx.int("b", -4, 4)
    x = ctx.int("x", 1, 6)
    f = F.Mult_Func(A.Variable(), 1, m, b)
    p, q = val(f.apply_rep(x, n))
    p1, q1 = val(f.apply_rep(x, n + 1))
    ctx.check(p1 * q == (m * p + b * q) * q1, "one repetition more")


def mult_min(ctx, m):
    F, A, E = load()
    b = ctx.int("b")
    mn = ctx.int("min", 0)
    f = F.Mult_Func(A.Variable(), mn, m, b)
    ctx.check(not f.is_decreasing, "not decreasing")
    ctx.check(f.min >= mn, "the minimum is not lowered")
    x = ctx.int("x")
    ctx.assume(x >= f.min)
    ctx.check(m * x + b >= x, "never decreases from the reported minimum on")
    ctx.check(A.substitute(f.expr, {f.var: x}) == m * x + b, "the stated function")


def pow_min(ctx, b, u, d, cmax):
    F, A, E = load()
    a = 1 + ctx.choice("a", 3)
    v = ctx.choice("v", 10) - 6
    # decided value by value: the code takes floating-point logarithms of it
    c = ctx.choice("c", 2 * cmax + 1) - cmax
    mn = ctx.choice("min", 6)
    ctx.assume(u * mn + v >= 0)
    # integral for every admissible argument
    ctx.assume(a * b ** (u * mn + v) * (b ** u - 1) % d == 0)
    ctx.assume((a * b ** (u * mn + v) + c) % d == 0)
    f = F.Pow_Func(A.Variable(), mn, b, a, c, d, u, v)
    ctx.check(not f.is_decreasing, "not decreasing")
    m = ctx.concrete(f.min)
    ctx.check(m >= mn, "the minimum is not lowered")
    for x in range(m, m + 7):
        ctx.check(a * b ** (u * x + v) + c >= d * x, "never decreases from the reported minimum on")
    x = m + ctx.choice("x", 3)
    num, den = val(A.substitute(f.expr, {f.var: x}))
    ctx.check(num * d == (a * b ** (u * x + v) + c) * den, "the stated function")
    ctx.note("pow")


def cases(tier):
    q = tier == "quick"
    cs = [Case("subtract", dict(cmax=8), name="subtract", need=["more", "last"]),
          Case("subtract_expr", dict(cmax=4), name="subtract_expr"),
          Case("add", dict(cmax=8), name="add")]
    for m in (2, 3, 4, 5):
        cs.append(Case("mult_rep", dict(m=m, reps=6 if q else 9, lo=-20, hi=20), name="mult_rep_%d" % m))
        cs.append(Case("mult_big", dict(m=m, n=1500), name="mult_big_%d" % m))
        cs.append(Case("mult_min", dict(m=m), name="mult_min_%d" % m))
    for b in (2, 3, 4):
        for u in (1, 2):
            for d in sorted({1, b - 1, b * b - 1 if u == 2 else 1, 2, 3}):
                if d:
                    cs.append(Case("pow_min", dict(b=b, u=u, d=d, cmax=10 if q else 40), name="pow_min_%d_%d_%d" % (b, u, d)))
    return cs
