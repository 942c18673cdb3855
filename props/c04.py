"""Proof_System.apply_rule: accelerated application equals one repetition at a time."""
import math
from types import SimpleNamespace
from bbv.runner import Case
from bbv import shim

INFO = {
    "functions": ["Proof_System.apply_rule/apply_diff_rule/apply_linear_rule/apply_exponential_rule/"
                  "apply_general_rule", "config_fits_min", "series_sum", "factor_var",
                  "Diff_Rule", "Limited_Diff_Rule", "Linear_Rule.try_gen", "Exponential_Rule.try_gen",
                  "General_Rule", "Rule_Func.Subtract_Func.max_reps", "Rule_Func.*.apply_rep",
                  "Algebraic_Expression", "Chain_Tape.copy"],
    "bounds": "diff rules with 1..3 variable runs, per-repetition changes -3..3 each, minimums 1..3 (1..2 with three runs), every "
              "run length (unbounded, also symbolic expressions n + a), step counts any polynomial from "
              "SHAPES (degree <= 3, all coefficients unbounded); the equality is inductive over one "
              "repetition, so it covers every number of repetitions. General, linear and exponential "
              "rules: result functions from GENERAL, run lengths unbounded, repetition limit 1..3; linear rules "
              "with all repetitions at once: run lengths 1..24 (quick) or 1..64",
    "outside": "rules with more than 3 variable runs, step polynomials of degree > 3 (refused by the "
               "code), larger repetition limits for general rules, formula-valued (ExpInt) run lengths "
               "except where they arise from an exponential rule",
}


def setup(ctx, **opt):
    PS = shim.load("Macro.Proof_System")
    A = shim.load("Algebraic_Expression")
    TP = shim.load("Macro.Tape")
    import optparse
    o = optparse.Values(dict(recursive=False, exp_linear_rules=False, exp_meta_linear_rules=False,
                             compute_steps=True, verbose_prover=False, limited_rules=False,
                             max_prover_configs=1000, max_num_reps=10))
    for k, v in opt.items():
        setattr(o, k, v)
    ps = PS.Proof_System(None, o, "")
    return PS, A, TP, ps


def mktape(TP, left, right):
    """left/right: lists of (symbol, num), nearest the head last."""
    t = TP.Chain_Tape()
    t.init(0, 1, SimpleNamespace(html_format=False, full_reps=False))
    t.tape[0] = [TP.Repeated_Symbol(0, math.inf)] + [TP.Repeated_Symbol(s, n) for s, n in left]
    t.tape[1] = [TP.Repeated_Symbol(0, math.inf)] + [TP.Repeated_Symbol(s, n) for s, n in right]
    return t


def blocks(t):
    """Non-empty runs (symbol, num) of both halves, the blank ends left out."""
    return [[(b.symbol, b.num) for b in h if not (type(b.num) is float)] for h in t.tape]


# monomials (as variable index lists) of the step counts
SHAPES = {
    "const": [()],
    "lin": [(), (0,)],
    "lin2": [(), (0,), (1,)],
    "lin3": [(), (0,), (1,), (2,)],
    "quad": [(), (0,), (0, 0)],
    "cross": [(), (0, 1), (1, 1)],
    "cube": [(0,), (0, 0, 0)],
    "cubx": [(0, 0, 1), (0, 1, 1)],
    "cross3": [(0, 1, 2)],
}


def poly(cs, xs):
    r = 0
    for c, m in cs:
        t = c
        for i in m:
            t = t * xs[i]
        r = r + t
    return r


def pexpr(A, cs, vs):
    e = A.ConstantToExpression(0)
    for c, m in cs:
        t = A.ConstantToExpression(c)
        for i in m:
            t = t * A.VariableToExpression(vs[i])
        e = e + t
    return e


def same_tape(ctx, t, want, msg):
    """want: per half list of (symbol, num); empty runs dropped on both sides."""
    got = blocks(t)
    for side in (0, 1):
        w = []
        for s, n in want[side]:
            if n != 0:
                w.append((s, n))
        g = got[side]
        if not all(n != 0 for _, n in g):
            ctx.fail(msg + ": an empty run is left on the tape")
        if len(g) != len(w) or [x[0] for x in g] != [x[0] for x in w]:
            ctx.fail(msg + ": runs differ")
        for (_, a), (_, b) in zip(g, w):
            ctx.check(a == b, msg)


def layout(kind, nv):
    """Positions of the variable runs: list of (side, index of run)."""
    L = {"L": [(0, 0)], "R": [(1, 0)], "LR": [(0, 0), (1, 0)], "LL": [(0, 0), (0, 1)],
         "RLR": [(1, 0), (0, 0), (1, 1)]}[kind]
    assert len(L) == nv
    return L


def place(lay, vals, one):
    """Halves for the given values of the variable runs; `one`: a constant run of
    length 1 sits next to the head on the right."""
    h = [[], []]
    for i, (side, idx) in enumerate(lay):
        h[side].append((i % 3 + 1, vals[i]))
    if one:
        h[1].append((7, 1))
    return h


def unplace(lay, h):
    pass


def mkdiff(ctx, PS, A, TP, lay, mins, deltas, steps, ls, one, limited):
    vs = [A.Variable() for _ in mins]
    init = mktape(TP, *place(lay, [A.VarPlusConstExpression(v, m) for v, m in zip(vs, mins)], one))
    diff = mktape(TP, *place(lay, deltas, False))
    if one:
        diff.tape[1].append(TP.Repeated_Symbol(7, 0))
    st = pexpr(A, steps, vs)
    seen = {"s%d" % i: pexpr(A, e, vs) for i, e in enumerate(ls)}
    if limited:
        ld, rd = len(init.tape[0]), len(init.tape[1])
        # the rule only looks at the runs nearest the head
        init.tape[0] = init.tape[0][1:]
        init.tape[1] = init.tape[1][1:]
        diff.tape[0] = diff.tape[0][1:]
        diff.tape[1] = diff.tape[1][1:]
        return PS.Limited_Diff_Rule(init, ld - 1, rd - 1, diff, "A", st, 1, 0, seen)
    return PS.Diff_Rule(init, diff, "A", st, 1, 0, False, seen)


def apply(PS, ps, TP, rule, lay, vals, one, extra=()):
    h = place(lay, vals, one)
    if extra:
        h = [[(5, extra[0])] + h[0], [(6, extra[1])] + h[1]]
    t = mktape(TP, *h)
    ok, res = ps.apply_rule(rule, ("A", t, 0, 0))
    after = [[(b.symbol, b.num) for b in side[1:]] for side in t.tape]
    return ok, (res[0] if ok else None), (h, after)


def diff(ctx, lay, nv, shape, dlo, dhi, one, limited):
    lay = layout(lay, nv)
    PS, A, TP, ps = setup(ctx)
    mins = [1 + ctx.choice("m%d" % i, 2 if nv == 3 else 3) for i in range(nv)]
    deltas = [dlo + ctx.choice("d%d" % i, dhi - dlo + 1) for i in range(nv)]
    ms = SHAPES[shape]
    if shape in ("cross", "cubx", "cross3"):
        # products of several runs: coefficients from a list, so that the
        # remaining identities are polynomials in the run lengths only
        cs = [((1, -2, 5)[ctx.choice("k%d" % i, 3)], m) for i, m in enumerate(ms)]
        l0 = [((3, 2)[i], m) for i, m in enumerate(ms[:2])]
    else:
        cs = [(ctx.int("c%d" % i), m) for i, m in enumerate(ms)]
        l0 = [(ctx.int("l%d" % i), m) for i, m in enumerate(ms[:2])]
    rule = mkdiff(ctx, PS, A, TP, lay, mins, deltas, cs, [l0], one, limited)
    v = [ctx.int("v%d" % i, 1) for i in range(nv)]
    if shape in ("cubx", "cross3"):
        v[0] = 1 + ctx.choice("w0", 5)
    extra = (ctx.int("e0", 1), ctx.int("e1", 1)) if limited else ()
    ok, r, (h0, h1) = apply(PS, ps, TP, rule, lay, v, one, extra)
    for a, b in zip(h0[0] + h0[1], h1[0] + h1[1]):
        ctx.check(a[1] == b[1], "the tape given is not modified")
    fits = all([True if x >= m else False for x, m in zip(v, mins)])
    if not fits:
        ctx.check(not ok, "a rule is not applied below its minimum")
        return
    if not ok:
        ctx.fail("an applicable rule on integers is applied")
    if all(d >= 0 for d in deltas):
        ctx.check(r.condition == PS.INF_REPEAT, "a rule without decrease repeats forever")
        ctx.note("inf")
        return
    if r.condition != PS.APPLY_RULE:
        ctx.fail("a decreasing rule does not repeat forever")
    u = [x - m for x, m in zip(v, mins)]          # values of the rule's variables
    f, l = poly(cs, u), poly(l0, u)
    w = [x + d for x, d in zip(v, deltas)]
    again = all([True if x >= m else False for x, m in zip(w, mins)])
    def ex(h):
        return [[(5, extra[0])] + h[0], [(6, extra[1])] + h[1]] if extra else h
    if not again:
        same_tape(ctx, r.new_tape, ex(place(lay, w, one)), "tape after the last repetition")
        ctx.check(r.num_base_steps == f, "steps of the last repetition")
        ctx.check(r.states_last_seen["s0"] == l, "last-use step of the last repetition")
        ctx.note("last")
        return
    ok2, r2, _ = apply(PS, ps, TP, rule, lay, w, one, extra)
    if not ok2 or r2.condition != PS.APPLY_RULE:
        ctx.fail("the rule still applies after one repetition")
    b2 = blocks(r2.new_tape)
    same_tape(ctx, r.new_tape, b2, "tape after one repetition more")
    ctx.check(r.num_base_steps == f + r2.num_base_steps, "total number of steps")
    ctx.check(r.states_last_seen["s0"] == f + r2.states_last_seen["s0"], "last-use step")
    ctx.note("more")


def exprtape(ctx, lay, nv, shape, dlo, dhi, which):
    """A tape whose run lengths are n + a behaves like every instance of it."""
    lay = layout(lay, nv)
    PS, A, TP, ps = setup(ctx)
    mins = [1 + ctx.choice("m%d" % i, 2) for i in range(nv)]
    deltas = [dlo + ctx.choice("d%d" % i, dhi - dlo + 1) for i in range(nv)]
    ms = SHAPES[shape]
    cs = [(ctx.int("c%d" % i), m) for i, m in enumerate(ms)]
    l0 = [(ctx.int("l%d" % i), m) for i, m in enumerate(ms[:1])]
    hard = any(len(m) > 1 for m in ms)
    if hard:
        # halves of symbolic coefficients would make every path condition
        # nonlinear: coefficients and offsets from a list, n itself unbounded
        cs = [((1, 2, 5)[ctx.choice("k%d" % i, 3)], m) for i, m in enumerate(ms)]
        l0 = [(2, m) for m in ms[:1]]
    rule = mkdiff(ctx, PS, A, TP, lay, mins, deltas, cs, [l0], False, False)
    n = [A.Variable() for _ in range(nv)]
    t = [ctx.int("t%d" % i, 0) for i in range(nv)]
    v = [1 + ctx.choice("w%d" % i, 4) if hard else ctx.int("v%d" % i, 1) for i in range(nv)]
    sub = {}
    sv, cv = [], []
    for i in range(nv):
        if i in which:
            sv.append(A.VarPlusConstExpression(n[i], v[i]))
            cv.append(v[i] + t[i])
            sub[n[i]] = t[i]
        else:
            sv.append(v[i])
            cv.append(v[i])
    ok, r, _ = apply(PS, ps, TP, rule, lay, sv, False)
    if not ok:
        return      # may decline on symbolic tapes
    ok2, r2, _ = apply(PS, ps, TP, rule, lay, cv, False)
    if not ok2:
        ctx.fail("applied to a family of tapes but not to its members")
    ctx.check(r.condition == r2.condition, "same verdict for every member")
    if r.condition != PS.APPLY_RULE:
        return
    def inst(x):
        return A.substitute(x, sub)
    tt = r.new_tape
    for h in tt.tape:
        for b in h:
            b.num = inst(b.num)
        h[:] = [b for b in h if type(b.num) is float or b.num != 0]
    same_tape(ctx, tt, blocks(r2.new_tape), "tape of every member")
    ctx.check(inst(r.num_base_steps) == r2.num_base_steps, "steps of every member")
    ctx.check(inst(r.states_last_seen["s0"]) == r2.states_last_seen["s0"], "last use of every member")
    ctx.note("applied")


def series(ctx, p, rest, q):
    """series_sum(e, k, N): S(0) = 0 and S(N+1) = S(N) + e(N)."""
    PS, A, TP, ps = setup(ctx)
    k, y, z = A.Variable(), A.Variable(), A.Variable()
    yv = ctx.choice("y", 7) - 2 if rest and p > 1 else ctx.int("y")
    c = (1, 2, 3, -5, 6)[ctx.choice("c", 5)]
    c0 = ctx.int("c0")
    K, Y = A.VariableToExpression(k), A.VariableToExpression(y)
    e = A.ConstantToExpression(c0)
    t = A.ConstantToExpression(c)
    for _ in range(p):
        t = t * K
    if rest:
        t = t * Y
    e = e + t
    if q:
        t = A.ConstantToExpression((1, 4, -3)[ctx.choice("c2", 3)])
        for _ in range(q):
            t = t * K
        e = e + t
    N = ctx.int("N", 0)
    def S(n):
        return A.substitute(PS.series_sum(e, k, n), {y: yv})
    s0 = S(N)
    ctx.check(S(N + 1) - s0 == A.substitute(A.substitute(e, {k: N}), {y: yv}), "one term more")
    ctx.check(S(0) == 0, "empty sum")
    # symbolic upper end
    Z = A.VariableToExpression(z)
    ctx.check(A.substitute(S(Z), {z: N}) == s0, "sum to a symbolic upper end")


# result functions of general rules, as (coef, var index, const) per variable run
# or ("pow", base, coef, const)
GENERAL = {
    "swap": [((1, 1, 4),), ((1, 0, -2),)],
    "swapinc": [((1, 1, 0),), ((1, 0, 2),)],
    "keep": [((1, 0, 0),), ((1, 1, 0),)],
    "sum": [((1, 0, 0), (1, 1, 0)), ((1, 1, -1),)],
    "double": [((2, 0, 1),), ((1, 1, -1),)],
    "dblm2": [((2, 0, -3),), ((1, 1, -2),)],
    "tri": [((3, 0, -2),), ((1, 1, 0),)],
    "inc": [((1, 0, 2),), ((1, 1, 0),)],
    "dec2": [((1, 0, -1),), ((1, 1, -2),)],
    "const": [((0, 0, 4),), ((1, 1, -1),)],
    "dbl1": [((2, 0, -1),), ((1, 1, 3),)],
    "zero": [((1, 0, -2),), ((1, 1, 3),)],
}


def lin(ts, xs):
    r = 0
    for c, i, k in ts:
        r = r + c * xs[i] + k
    return r


def general(ctx, g, maxreps, how, kinds="General_Rule"):
    """General_Rule / Linear_Rule (falling back) with a limit on repetitions."""
    PS, A, TP, ps = setup(ctx, max_num_reps=maxreps)
    fs = GENERAL[g]
    lay = layout("LR", 2)
    mins = [1 + ctx.choice("m%d" % i, 3) for i in range(2)]
    vs = [A.Variable() for _ in range(2)]
    X = [A.VariableToExpression(v) for v in vs]
    def ex(ts):
        e = lin(ts, X)
        return e if hasattr(e, "is_const") and not e.is_const else int(e.const if hasattr(e, "const") else e)
    res = mktape(TP, *place(lay, [ex(t) for t in fs], True))
    var_list = [None, vs[0], None, vs[1], None]
    min_list = [math.inf, mins[0], math.inf, mins[1], 1]
    cs = [(ctx.int("c%d" % i), m) for i, m in enumerate([(), (0,), (1,)])]
    l0 = [(ctx.int("l%d" % i), m) for i, m in enumerate([(), (0,)])]
    st, sl = pexpr(A, cs, vs), {"s0": pexpr(A, l0, vs)}
    if how == "General":
        rule = PS.General_Rule(var_list, min_list, res, st, 1, 0, sl)
    elif how == "Linear":
        rule = PS.Linear_Rule.try_gen(var_list, min_list, res, st, 1, 0, sl)
        if not rule:
            return
        mins = [rule.min_list[1], rule.min_list[3]]
    else:
        rule = PS.Exponential_Rule.try_gen(var_list, min_list, res, st, 1, 0, sl)
        if not rule:
            return
        mins = [rule.min_list[1], rule.min_list[3]]
    v = [ctx.int("v%d" % i, 1) for i in range(2)]
    ok, r, (h0, h1) = apply(PS, ps, TP, rule, lay, v, True)
    for a, b in zip(h0[0] + h0[1], h1[0] + h1[1]):
        ctx.check(a[1] == b[1], "the tape given is not modified")
    def fits(w):
        return all([True if x >= m else False for x, m in zip(w, mins)])
    if not fits(v):
        ctx.check(not ok, "a rule is not applied below its minimum")
        return
    if not ok:
        ctx.fail("an applicable rule is applied")
    ctx.check(r.condition in (PS.INF_REPEAT, PS.APPLY_RULE), "verdict")
    if r.condition == PS.INF_REPEAT:
        # either nothing changes, or from any admissible values on the rule
        # keeps applying: its image satisfies the minimums again
        w = v
        for _ in range(6):
            w = [lin(t, w) for t in fs]
            for x, m in zip(w, mins):
                ctx.check(x >= m, "a rule said to repeat forever stays applicable")
        z = [ctx.int("z%d" % i, m) for i, m in enumerate(mins)]
        fixed = ctx.And(lin(fs[0], v) == v[0], lin(fs[1], v) == v[1])
        zz = [lin(t, z) for t in fs]
        ctx.check(ctx.Or(fixed, ctx.And(zz[0] >= mins[0], zz[1] >= mins[1])),
                  "a rule said to repeat forever maps applicable runs to applicable runs")
        ctx.note("inf")
        return
    w, reps = v, 0
    steps, last = 0, None
    while reps < maxreps and fits(w):
        f = poly(cs, w)
        last = steps + poly(l0, w)
        steps = steps + f
        w = [lin(t, w) for t in fs]
        reps += 1
    same_tape(ctx, r.new_tape, place(lay, w, True), "tape after the repetitions")
    ctx.check(r.num_base_steps == steps, "total number of steps")
    ctx.check(r.states_last_seen["s0"] == last, "last-use step")
    ctx.note("applied")


def linexp(ctx, g, maxv):
    """Linear_Rule with exp_linear_rules: all repetitions at once."""
    PS, A, TP, ps = setup(ctx, exp_linear_rules=True, compute_steps=False)
    E = shim.load("Exp_Int")
    fs = GENERAL[g]
    lay = layout("LR", 2)
    mins = [1 + ctx.choice("m%d" % i, 3) for i in range(2)]
    vs = [A.Variable() for _ in range(2)]
    X = [A.VariableToExpression(v) for v in vs]
    res = mktape(TP, *place(lay, [lin(t, X) for t in fs], True))
    rule = PS.Linear_Rule.try_gen([None, vs[0], None, vs[1], None],
                                  [math.inf, mins[0], math.inf, mins[1], 1], res, 0, 1, 0, None)
    if not rule:
        return
    mins = [rule.min_list[1], rule.min_list[3]]
    v = []
    for i in range(2):
        dec = any(k < 0 for c, _, k in fs[i]) and fs[i][0][0] == 1
        v.append(ctx.int("v%d" % i, 1, maxv))
    # the runs never become empty: what an emptied run means is fixed by C05
    ctx.assume(ctx.And(*[m + min(0, t[0][2]) >= 1 or t[0][0] != 1 for m, t in zip(mins, fs)]))
    ok, r, _ = apply(PS, ps, TP, rule, lay, v, True)
    def fits(w):
        return all([True if x >= m else False for x, m in zip(w, mins)])
    if not fits(v):
        ctx.check(not ok, "a rule is not applied below its minimum")
        return
    if not ok:
        ctx.fail("an applicable rule is applied")
    if r.condition == PS.INF_REPEAT:
        z = [ctx.int("z%d" % i, m) for i, m in enumerate(mins)]
        for t, x, m in zip(fs, z, mins):
            ctx.check(lin(t, z) >= m, "a rule said to repeat forever stays applicable")
        ctx.note("inf")
        return
    w = v
    while fits(w):
        w = [lin(t, w) for t in fs]
    from props.c08 import val
    h = place(lay, w, True)
    got = blocks(r.new_tape)
    for side in (0, 1):
        if len(got[side]) != len(h[side]):
            ctx.fail("runs differ")
        for (_, a), (_, b) in zip(got[side], h[side]):
            n, d = val(a)
            ctx.check(n == b * d, "run lengths after all repetitions")
    ctx.note("applied")


def cases(tier):
    q = tier == "quick"
    cs = []
    def add(h, name, need=(), **k):
        cs.append(Case(h, k, name=name, need=list(need)))
    lo, hi = (-2, 2) if q else (-3, 3)
    for lay, nv, shapes in (("L", 1, ["const", "quad", "cube"]), ("R", 1, ["lin"]),
                            ("LR", 2, ["lin2", "cross", "cubx"]), ("LL", 2, ["lin2", "quad"]),
                            ("RLR", 3, ["lin3", "cross3"])):
        for s in shapes:
            wide = nv == 1
            for one in ((0, 1) if not q or s in ("lin2", "quad") else (0,)):
                if s in ("cross3", "cubx"):
                    l2, h2 = -1, 1      # cubic sums stay polynomial identities
                elif nv == 3 and q:
                    l2, h2 = -1, 1
                elif s == "cube":
                    l2, h2 = (-1, 1) if q else (-2, 2)
                else:
                    l2, h2 = (-3, 3) if wide else (lo, hi)
                add("diff", "diff_%s_%s_%d" % (lay, s, one), need=["inf", "last", "more"], lay=lay, nv=nv,
                    shape=s, dlo=l2, dhi=h2, one=one, limited=0)
    for lay, nv, s in (("LR", 2, "lin2"), ("LL", 2, "lin")):
        if lay == "LL":
            continue
        add("diff", "limited_%s_%s" % (lay, s), need=["inf", "last", "more"], lay=lay, nv=nv, shape=s,
            dlo=lo, dhi=hi, one=0, limited=1)
    for lay, nv, s in (("L", 1, "quad"), ("LR", 2, "lin2"), ("LR", 2, "cross"), ("LL", 2, "lin2"), ("L", 1, "cube")):
        for which in ([0], [1], [0, 1]) if nv == 2 else ([0],):
            add("exprtape", "expr_%s_%s_%s" % (lay, s, "".join(map(str, which))), need=["applied"], lay=lay,
                nv=nv, shape=s, dlo=-2 if s == "lin2" else -1, dhi=1 if q else 2, which=which)
    for p in range(4):
        for rest in (0, 1):
            for q2 in (0, 1, 2):
                if q2 < p or p == 0:
                    add("series", "series_%d_%d_%d" % (p, rest, q2), p=p, rest=rest, q=q2)
    for g in GENERAL:
        for how in ("General", "Linear", "Exponential"):
            for mr in ((1, 3) if q else (1, 2, 3, 5)):
                if how != "General" and g in ("swap", "swapinc", "sum", "const"):
                    continue
                if how == "Exponential" and (mr != 3 or q and g not in ("double", "inc", "dec2")):
                    continue
                add("general", "%s_%s_%d" % (how.lower(), g, mr), g=g, maxreps=mr, how=how)
        if g not in ("swap", "swapinc", "sum", "const"):
            add("linexp", "linexp_%s" % g, g=g, maxv=24 if q else 64)
    return cs
