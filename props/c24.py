"""C++ enumerator: expansion of one cell (from LLVM IR of the current source)."""
from bbv.runner import Case
from bbv import cpp

H = ("hx_expand",)
INFO = {
    "functions": ["BaseEnumerator::enumerate/expand_tm", "TuringMachine(num_states, num_symbols)",
                  "TuringMachine(table, name)", "TuringMachine(old, state, symbol, transition, order)", "Lookup"],
    "bounds": "1-4 states, 1-4 symbols; machines built from the empty one by 0 to 3 expansions in tree normal form "
              "(symbolic transitions, every choice of cells), or given as a table with every cell undecided or any "
              "running transition (up to 4 cells symbolic); every undecided cell expanded; both settings of "
              "allow_no_halt",
    "outside": "larger machines, tables with explicit halt transitions, completely blank tables (the source assumes "
               "them away)",
    "assumptions": ["clang -O1 IR of the sources means what the sources mean; C++ library containers are executed "
                    "from their headers' IR, operator new never fails"],
}


def dump(out, i, Q, S):
    head = out[i:i + 6]
    i += 6
    cells = {}
    for q in range(Q):
        for s in range(S):
            cells[q, s] = tuple(out[i:i + 4])
            i += 4
    return head, cells, i


def top(ctx, cells):
    """Highest state and symbol used so far (A and 0 always are)."""
    a = b = 0
    for c in cells.values():
        if c is not None:
            a = ctx.ite(c[2] > a, c[2], a)
            b = ctx.ite(c[0] > b, c[0], b)
    return a, b


def same(ctx, head, cells, Q, S, want, left, msg):
    a, b = top(ctx, want)
    ctx.check(ctx.And(head[0] == Q, head[1] == S), msg + ": size")
    ctx.check(head[2] == ctx.ite(a + 1 > Q - 1, Q - 1, a + 1), msg + ": highest next state")
    ctx.check(head[3] == ctx.ite(b + 1 > S - 1, S - 1, b + 1), msg + ": highest next symbol")
    ctx.check(head[4] == (1 if left else 0), msg + ": left moves allowed")
    ctx.check(head[5] == sum(1 for c in want.values() if c is None), msg + ": number of undecided cells")
    for k, c in want.items():
        g = cells[k]
        if c is None:
            ctx.check(ctx.And(g[2] == -1, g[3] == 1), msg + ": undecided cell")
        else:
            ctx.check(ctx.And(g[0] == c[0], g[1] == c[1], g[2] == c[2], g[3] == 0), msg + ": cell %d,%d" % k)


def expand(ctx, Q, S, kind, n):
    cells = {(q, s): None for q in range(Q) for s in range(S)}
    args = [kind, Q, S]
    order = []

    def trans(i, a, b):
        w = ctx.int("w%d" % i, 0, S - 1)
        q = ctx.int("q%d" % i, 0, Q - 1)
        m = ctx.int("m%d" % i, 0, 1) * 2 - 1
        if a is not None:
            ctx.assume(q <= a + 1)
            ctx.assume(w <= b + 1)
        return (w, m, q)
    ks = sorted(cells)
    for i in range(n):
        a, b = top(ctx, cells)
        free = [k for k in ks if cells[k] is None]
        if kind and order:
            free = [k for k in free if k > order[-1]]
        if not free:
            ctx.assume(False)
        k = free[ctx.choice("c%d" % i, len(free))] if i else (0, 0)
        t = trans(i, None if kind else a, b)
        if i == 0:
            ctx.assume(t[1] == 1)
        cells[k] = t
        order.append(k)
    if kind:
        for k in ks:
            args += list(cells[k]) + [0] if cells[k] else [1, 1, -1, 1]
        args += [0]
    else:
        args += [n]
        for k in order:
            args += list(k) + list(cells[k])
    allow = ctx.choice("allow", 2)
    free = [k for k in ks if cells[k] is None]
    if not free:
        ctx.assume(False)
    k = free[ctx.choice("cell", len(free))] if n else (0, 0)
    args += [allow] + list(k)
    out = cpp.call(ctx, H, "expand", args)
    if any(isinstance(v, str) for v in out):
        ctx.fail("uninitialised result")
    left = n > 0
    head, got, i = dump(out, 0, Q, S)
    same(ctx, head, got, Q, S, cells, left, "machine")
    num = ctx.concrete(out[i])
    i += 1
    a, b = top(ctx, cells)
    a, b = ctx.concrete(a), ctx.concrete(b)
    want = set()
    if allow or len(free) > 1:
        for q in range(min(a + 1, Q - 1) + 1):
            for s in range(min(b + 1, S - 1) + 1):
                for m in ((1, -1) if left else (1,)):
                    want.add((s, m, q))
        ctx.note("expanded")
    else:
        ctx.note("last cell kept")
    ctx.check(num == len(want), "number of children")
    seen = set()
    for _ in range(num):
        head, got, i = dump(out, i, Q, S)
        t = tuple(ctx.concrete(x) for x in got[k][:3])
        if t not in want:
            ctx.fail("child that is not in tree normal form")
        if t in seen:
            ctx.fail("child produced twice")
        seen.add(t)
        c = dict(cells)
        c[k] = t
        same(ctx, head, got, Q, S, c, True, "child")


def cases(tier):
    q = tier == "quick"
    cpp.module(*H)
    cs = []
    for Q in range(1, 5):
        for S in range(1, 5):
            for kind in (0, 1):
                for n in range(0, 3 if q else 4):
                    if kind and n == 0 or n >= Q * S or (q and n == 2 and Q * S > 9):
                        continue
                    cs.append(Case("expand", dict(Q=Q, S=S, kind=kind, n=n),
                                   name="%s_%dx%d_%d" % (("empty", "table")[kind], Q, S, n), need=["expanded"]))
    return cs
