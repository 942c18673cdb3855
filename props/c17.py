"""Count.count: conserved by expansion, and equal to an independent count."""
from bbv.runner import Case
from bbv import shim
from bbv.tm import RUN, HALT, UNDEF, LEFT, RIGHT
from props.c16 import eager

INFO = {
    "functions": ["Count.count/fact2", "TM_Enum.enum_children/set_halt_trans/blank_tm_enum"],
    "bounds": "node: every partial machine of sizes 2x2, 3x2, 2x3, 3x3, 4x2, 2x4, 5x2 (thorough also 4x3, 6x2, 2x6) whose first "
              "step is 1RB and whose used names are a prefix (larger sizes: the defined cells are a prefix of the table "
              "in one of two orders), every undefined cell, with or without a halting cell, both halting "
              "policies; root: every size up to 7x7 (thorough 12x12)",
    "outside": "larger machines; machines whose first step is not 1RB (the tool does not count those)",
}


def falling(n, k):
    r = 1
    for i in range(k):
        r *= n - i
    return r


def fills(ctx, Q, S, und, has_halt, allow):
    """Independent count of the completions with at most one halting cell."""
    a = 2 * Q * S
    if has_halt:
        return a ** und
    one = 0
    for _ in range(und):
        one += a ** (und - 1)
    return one + (a ** und if allow else 0)


def node(ctx, Q, S, prefix=0):
    C = shim.load("Count")
    E = shim.load("TM_Enum")
    allow = True if ctx.bool("allow") else False
    order = [(s, c) for s in range(Q) for c in range(S)][1:]
    kinds = {}
    if prefix:
        if ctx.bool("rev"):
            order.reverse()
        j = ctx.choice("ndef", len(order) + 1)
        h = ctx.choice("halt", 3)       # none, or at either end of the defined cells
        for i, x in enumerate(order):
            kinds[x] = RUN if i < j else UNDEF
        if h:
            ctx.assume(j > 0)
            kinds[order[0 if h == 1 else j - 1]] = HALT
    else:
        nh = 0
        for x in order:
            k = ctx.choice("k_%d_%d" % x, 3)
            nh += k == HALT
            ctx.assume(nh <= 1)
            kinds[x] = k
    has_halt = HALT in kinds.values()
    und = [x for x in kinds if kinds[x] == UNDEF]
    M = ctx.int("M", 1, Q - 1)
    K = ctx.int("K", 1, S - 1)
    full = {(0, 0): (RUN, 1, RIGHT, 1)}
    ns, ws = [1], [1]
    for x, k in kinds.items():
        if k != RUN:
            full[x] = (k, 1, RIGHT, -1)
            continue
        p = "t_%d_%d" % x
        w, d, n = ctx.int(p + "_w", 0, S - 1), ctx.int(p + "_d", 0, 1), ctx.int(p + "_n", 0, Q - 1)
        ctx.assume(ctx.And(w <= K, n <= M))
        full[x] = (RUN, w, d, n)
        ns.append(n)
        ws.append(w)
    for v in range(2, Q):
        ctx.assume(ctx.implies(M >= v, ctx.Or(*[n == v for n in ns])))
    for v in range(2, S):
        ctx.assume(ctx.implies(K >= v, ctx.Or(*[w == v for w in ws])))
    P = eager(ctx, full, Q, S)
    got = C.count(P, allow)
    m, k = ctx.concrete(M), ctx.concrete(K)
    want = falling(Q - 2, m - 1) * falling(S - 2, k - 1) * fills(ctx, Q, S, len(und), has_halt, allow)
    ctx.check(got == want, "number of machines a partial machine stands for")
    ctx.note("halt" if has_halt else "open")
    # conservation: no halting cell yet, a cell that the machine can have reached
    reach = [x for x in und if x[0] <= m and x[1] <= k]
    if has_halt or not reach:
        return
    s0, c0 = reach[ctx.choice("cell", len(reach))]
    parent = E.TM_Enum(P, allow_no_halt=allow)
    total = 0
    for kid in parent.enum_children(s0, c0):
        total = total + C.count(kid.tm, allow)
    parent.set_halt_trans(state_in=s0, symbol_in=c0)
    total = total + C.count(parent.tm, allow)
    ctx.check(total == got, "a node counts as much as its children and its halting child together")
    ctx.note("split")


def root(ctx, Qs, Ss):
    C = shim.load("Count")
    E = shim.load("TM_Enum")
    Q, S = Qs[ctx.choice("Q", len(Qs))], Ss[ctx.choice("S", len(Ss))]
    allow = True if ctx.bool("allow") else False
    e = E.blank_tm_enum(Q, S, first_1rb=True, allow_no_halt=allow)
    got = C.count(e.tm, allow)
    # the whole class, as the tool documents it
    n = Q * S
    want = (n - 1) * (2 * n) ** (n - 2)
    if allow:
        want += (2 * n) ** (n - 1)
    ctx.check(got == want, "the root counts the whole class")
    kids = list(e.enum_children(1, 0))
    e.set_halt_trans(state_in=1, symbol_in=0)
    ctx.check(sum(C.count(x.tm, allow) for x in kids) + C.count(e.tm, allow) == want, "the first level counts the whole class")


def cases(tier):
    q = tier == "quick"
    cs = []
    for Q, S in [(2, 2), (3, 2), (2, 3)]:
        cs.append(Case("node", dict(Q=Q, S=S), name="node_%d%d" % (Q, S), need=["halt", "open", "split"]))
    for Q, S in [(3, 3), (4, 2), (2, 4), (5, 2)] + ([] if q else [(4, 3), (6, 2), (2, 6)]):
        cs.append(Case("node", dict(Q=Q, S=S, prefix=1), name="nodep_%d%d" % (Q, S), need=["halt", "open", "split"]))
    r = list(range(2, 8 if q else 13))
    cs.append(Case("root", dict(Qs=r, Ss=r), name="root"))
    return cs
