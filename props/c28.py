"""C++ enumerators LinRecurEnum and LazyBeaverEnum (from LLVM IR of the current source):
what they write, against an independent enumeration and simulation."""
from bbv.runner import Case
from bbv import cpp
from bbv.cpptm import Run, parse, recurs

H = ("hx_enum",)
INFO = {
    "functions": ["LinRecurEnum (constructor, filter_tm, destructor, print_stats)",
                  "LazyBeaverEnum (constructor, filter_tm, min_missing, destructor)", "BaseEnumerator::enumerate/expand_tm",
                  "LinRecurDetect", "DirectSimulator", "WriteTuringMachine", "TuringMachine constructors"],
    "bounds": "roots of 2x2, 3x2, 2x3 cells with one to four running transitions or empty (also 1x1, 1x2, 2x1) (symbolic, tree normal form along "
              "the run) and the rest undecided; whole subtree below the root with at most one or two levels of "
              "expansion; step limits 2 to 20; with and without allow_no_halt and only_unknown",
    "outside": "the build with Boost (compressed output), larger roots, the command line tools around the classes, "
               "progress messages, failing streams",
    "assumptions": ["clang -O1 IR of the sources means what the sources mean; containers and strings are executed from "
                    "their headers' IR; file streams are modelled as lists of characters, std::set without rebalancing"],
}


class Fixed:
    def __init__(self, Q, S, cells):
        self.Q, self.S, self.c = Q, S, cells


def lines(ctx, out, i):
    n = ctx.concrete(out[i])
    t = []
    for v in out[i + 1:i + 1 + n]:
        if isinstance(v, str):
            ctx.fail("uninitialised character in a file")
        t.append(chr(ctx.concrete(v)))
    t = "".join(t)
    ctx.check(t == "" or t.endswith("\n"), "whole lines")
    return t.split("\n")[:-1], i + 1 + n


def root(ctx, Q, S, n, steps):
    """A table with n decided cells met in order by the run from the blank tape."""
    cells = {(q, s): [1, 1, -1, 1] for q in range(Q) for s in range(S)}
    tab = Fixed(Q, S, cells)
    h = Run(ctx, tab)
    top = [0, 0]
    for i in range(n):
        while True:
            if h.t >= steps:
                ctx.assume(False)
            k = (h.state, ctx.concrete(h.tape.get(h.pos, 0)))
            if cells[k][3]:
                break
            h.step()
        w = ctx.int("w%d" % i, 0, S - 1)
        q = ctx.int("q%d" % i, 0, Q - 1)
        m = 1 if i == 0 else ctx.int("m%d" % i, 0, 1) * 2 - 1
        ctx.assume(ctx.And(w <= top[1] + 1, q <= top[0] + 1))
        top = [ctx.ite(q > top[0], q, top[0]), ctx.ite(w > top[1], w, top[1])]
        cells[k] = [w, m, q, 0]
    return tab


def settle(ctx, tab):
    """The table once the code has run on it."""
    for k, c in tab.c.items():
        tab.c[k] = [ctx.concrete(x) for x in c]


def text(cells, Q, S):
    out = []
    for q in range(Q):
        r = ""
        for s in range(S):
            w, m, st, u = cells[q, s]
            r += "---" if u else "%d%s%s" % (w, "R" if m == 1 else "L", "Z" if st < 0 else chr(65 + st))
        out.append(r)
    return "_".join(out)


def args(tab):
    out = [tab.Q, tab.S]
    for q in range(tab.Q):
        for s in range(tab.S):
            out += tab.c[q, s]
    return out


def children(cells, Q, S, k, allow):
    if not allow and sum(c[3] for c in cells.values()) <= 1:
        return
    a = max([0] + [c[2] for c in cells.values() if not c[3]])
    b = max([0] + [c[0] for c in cells.values() if not c[3]])
    blank = all(c[3] for c in cells.values())
    for q in range(min(a + 1, Q - 1) + 1):
        for s in range(min(b + 1, S - 1) + 1):
            for m in (1,) if blank else (1, -1):
                c = dict(cells)
                c[k] = [s, m, q, 0]
                yield c


def lr(ctx, Q, S, n, limit, allow=None):
    tab = root(ctx, Q, S, n, limit)
    if allow is None:
        allow = ctx.choice("allow", 2)
    only = ctx.choice("only", 2)
    out = cpp.call(ctx, H, "lr", args(tab) + [allow, limit, only])
    settle(ctx, tab)
    halt, i = lines(ctx, out, 0)
    inf, i = lines(ctx, out, i)
    unk, i = lines(ctx, out, i)
    where = {}
    for name, ls in (("halt", halt), ("inf", inf), ("unknown", unk)):
        for l in ls:
            t, _, rest = l.partition(" | ")
            if t in where:
                ctx.fail("machine %s is listed twice" % t)
            where[t] = (name, rest)
    if only:
        ctx.check(not halt and not inf, "only unknown machines are written")
    todo, count = [tab.c], 0
    while todo:
        c = todo.pop()
        t = text(c, Q, S)
        h = Run(ctx, Fixed(Q, S, c))
        h.to(limit)
        got = where.pop(t, None)
        if only and got is None:
            # not listed: its verdict is a halt or a recurrence, decide which here
            h.to(2 * limit + 2)
            if h.end is not None:
                todo += list(children(c, Q, S, h.last, allow))
            else:
                ctx.check(any(recurs(h, s, p) is not None for s in range(h.t) for p in range(1, h.t - s)),
                          "a machine is left out that neither halts nor recurs")
            continue
        if got is None:
            ctx.fail("machine %s is missing from the files" % t)
        count += 1
        kind, rest = got
        if kind == "halt":
            f = rest.split()
            ctx.check(len(f) == 2 and f[0] == "Halt", "format of a halting machine")
            h.to(int(f[1]) + 1)
            ctx.check(h.end == int(f[1]), "step at which %s halts" % t)
            todo += list(children(c, Q, S, h.last, allow))
            ctx.note("halt")
        elif kind == "inf":
            f = rest.split()
            ctx.check(len(f) == 4 and f[0] == "Lin_Recur" and f[3][0] == "<", "format of a recurrent machine")
            p, off, s = int(f[1]), int(f[2]), int(f[3][1:])
            ctx.check(h.to(s + 2 * p), "a machine that halts is listed as recurrent")
            ctx.check(p > 0 and recurs(h, s, p) == off, "recurrence of %s" % t)
            ctx.note("inf")
        else:
            ctx.check(rest == "", "format of an unknown machine")
            ctx.check(h.end is None, "a machine that halts within the limit is listed as unknown")
            k = (limit - 1) // 2
            if k > 0:
                h.to(2 * k)
                ctx.check(all(recurs(h, k, p) is None for p in range(1, k + 1)),
                          "a machine that recurs early within the limit is listed as unknown")
            ctx.note("unknown")
    ctx.check(not where, "only machines of the tree are listed")


def lb(ctx, Q, S, n, limit, roots=1):
    tabs = []
    for r in range(roots):
        if r == 0:
            tabs.append(root(ctx, Q, S, n, limit))
        else:
            q, s, f = parse(["1RB1LB_1LA---", "1RB---_1LB---", "1RB1RB_1LA---"][ctx.choice("r%d" % r, 3)])
            tabs.append(Fixed(q, s, f))
    a = [len(tabs)]
    for t in tabs:
        a += args(t)
    out = cpp.call(ctx, H, "lb", a + [limit])
    for tab in tabs:
        settle(ctx, tab)
    lbv = ctx.concrete(out[0])
    wit, i = lines(ctx, out, 1)
    non, i = lines(ctx, out, i)
    steps, nonhalt, by = set(), [], {}
    for tab in tabs:
        todo = [tab.c]
        while todo:
            c = todo.pop()
            h = Run(ctx, Fixed(tab.Q, tab.S, c))
            h.to(limit)
            if h.end is not None:
                steps.add(h.end)
                by.setdefault(h.end, set()).add(text(c, tab.Q, tab.S))
                todo += list(children(c, tab.Q, tab.S, h.last, False))
                ctx.note("halt")
            else:
                nonhalt.append(text(c, tab.Q, tab.S))
                ctx.note("run")
    m = 1
    while m in steps:
        m += 1
    ctx.check(lbv == m, "least step count that no machine realises")
    ctx.check(sorted(non) == sorted(nonhalt), "machines that do not halt within the limit")
    seen = set()
    for l in wit:
        f = l.split("\t")
        ctx.check(len(f) == 2, "format of a witness")
        k = int(f[0])
        ctx.check(k not in seen, "one witness per step count")
        seen.add(k)
        ctx.check(f[1] in by.get(k, ()), "the witness halts after that many steps")
    ctx.check(seen == steps, "every step count has its witness")


def cases(tier):
    q = tier == "quick"
    cpp.module(*H)
    cs = []

    def add(f, name, need=(), **k):
        cs.append(Case(f, k, name=name, need=list(need), path_s=120))
    for Q, S, l in ((2, 2, 2), (2, 2, 3), (1, 2, 6), (2, 1, 6), (1, 1, 3)) if q else ((2, 2, 5), (1, 2, 6), (2, 1, 6), (1, 1, 3), (1, 3, 9), (3, 1, 9), (3, 2, 2), (2, 3, 2)):
        add("lr", "lr_%d%d_0_%d" % (Q, S, l), Q=Q, S=S, n=0, limit=l, need=["halt"])
        add("lb", "lb_%d%d_0_%d" % (Q, S, l), Q=Q, S=S, n=0, limit=l, need=["halt"])
    add("lr", "lr_22_3", Q=2, S=2, n=3, limit=12, need=["halt", "inf"])
    add("lr", "lr_22_2", Q=2, S=2, n=2, limit=20 if q else 60, need=["halt", "inf"])
    add("lr", "lr_22_1", Q=2, S=2, n=1, limit=3, need=["halt", "inf", "unknown"])
    add("lr", "lr_32_4", Q=3, S=2, n=4, limit=9 if q else 12, allow=0, need=["halt", "inf", "unknown"])
    add("lr", "lr_23_3", Q=2, S=3, n=3, limit=9 if q else 12, allow=0, need=["halt", "inf", "unknown"])
    add("lr", "lr_32_1", Q=3, S=2, n=1, limit=3, allow=0, need=["halt", "unknown"])
    add("lb", "lb_22_3", Q=2, S=2, n=3, limit=12, need=["halt"])
    add("lb", "lb_22_2", Q=2, S=2, n=2, limit=9, roots=2, need=["halt", "run"])
    add("lb", "lb_22_1", Q=2, S=2, n=1, limit=9, need=["halt", "run"])
    add("lb", "lb_32_2", Q=3, S=2, n=2, limit=4 if q else 9, need=["halt", "run"])
    add("lb", "lb_32_4", Q=3, S=2, n=4, limit=7, need=["halt", "run"])
    return cs
