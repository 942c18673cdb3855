"""C++ LinRecurDetect (from LLVM IR of the current source): verdicts against an
independent run of the machine."""
from bbv.runner import Case
from bbv import cpp
from bbv.cpptm import Table, Run, parse, recurs

H = ("hx_lin",)
INFO = {
    "functions": ["busy_beaver::LinRecurDetect", "are_half_tapes_equal", "are_sections_equal", "DirectSimulator", "Tape"],
    "bounds": "every 2x2 machine with step limits 0, 1, 2, 3, 9, 30 (thorough 0-39), every 3x2 and 2x3 machine in tree normal form "
              "with limit 8 (thorough 24), recurrent machines with two cells open and limit 100 (thorough 1000)",
    "outside": "larger machines; recurrences found after the step limit (there is no claim then)",
    "assumptions": ["clang -O1 IR of the sources means what the sources mean; C++ library containers are executed "
                    "from their headers' IR, operator new never fails"],
}


def edge(ctx, walks, backs, limit):
    """A run that fills the tape up to the edge of its allocation, goes back a few cells
    and then does anything with one state."""
    K = walks[ctx.choice("K", len(walks))]
    J = backs[ctx.choice("J", len(backs))]
    f = 1 - 2 * ctx.choice("mirror", 2)
    P = K + J + 1
    fixed = {}
    for q in range(K + 1):
        fixed[q, 0] = [1, f, q + 1, 0] if q < K else [1, -f, q + 1, 0]
        fixed[q, 1] = [1, 1, -1, 1]
    for q in range(K + 1, P):
        fixed[q, 0] = [1, 1, -1, 1]
        fixed[q, 1] = [1, -f, q + 1, 0]
    for q, s in ((P, 0), (P, 1)):
        fixed[q, s] = [ctx.choice("w%d" % s, 2), ctx.choice("m%d" % s, 2) * 2 - 1,
                       P if ctx.choice("q%d" % s, 2) else -1, 0]
    detect(ctx, P + 1, 2, limit, fixed=fixed)


def detect(ctx, Q, S, limit, tnf=0, fixed=None):
    tab = Table(ctx, Q, S, parse(fixed)[2] if isinstance(fixed, str) else fixed, undecided=False)
    if isinstance(limit, list):
        limit = limit[ctx.choice("max", len(limit))]
    if tnf:
        Run(ctx, tab, True).to(limit)
    r = cpp.call(ctx, H, "lin", tab.args() + [limit])
    if any(isinstance(v, str) for v in r):
        ctx.fail("part of the result is uninitialised")
    r = [ctx.concrete(v) for v in r]
    halted, rec, start, period, offset, lq, ls, ref, steps = r
    h = Run(ctx, tab)
    ctx.check(not (halted and rec), "one verdict")
    if rec:
        if period <= 0 or start < 0:
            ctx.fail("the period is positive")
        if not h.to(start + 3 * period):
            ctx.fail("a machine that halts is said to recur")
        off = recurs(h, start, period)
        if off is None:
            ctx.fail("the machine is not in translated recurrence from the reported start")
        ctx.check(off == offset, "the reported offset")
        ctx.check(steps == start + period, "steps run")
        for t in range(start, start + 2 * period):
            a, b = h.read[t], h.read[t + period]
            ctx.check(a[:2] == b[:2] and b[2] - a[2] == off, "every cycle repeats the previous one")
        ctx.note("R" if off > 0 else "L" if off < 0 else "0")
    elif halted:
        h.to(steps + 1)
        ctx.check(h.end == steps, "halting step")
        ctx.check(h.last == (lq, ls), "cell that halts")
        ctx.note("halt")
    else:
        ctx.check(steps >= limit, "gives up only when the step limit is reached")
        ctx.check(limit < 2 or h.to(steps), "a halt within the steps run is reported")
        k = (limit - 1) // 2
        if k > 0:
            h.to(2 * k)
            ctx.check(all(recurs(h, k, p) is None for p in range(1, k + 1)),
                      "a recurrence that starts and repeats within half the limit is found")
        ctx.note("unknown")


LR = ["1RB1LA_0RC0RB_1LA1RC", "1RB0LA_0RC1LA_1RC1LB", "1RB2LB1RA_1LA2RA0LB", "1RB1LA_0LA1RC_0RA1LC",
      "1RB0RA_1LB1LA", "1RB1LB_1LC0RA_1RC1LC", "1RB1RC_1LC1RD_1RA1LD_0RD0LB"]


def cases(tier):
    q = tier == "quick"
    cpp.module(*H)
    cs = []

    def add(name, need=(), **k):
        cs.append(Case("detect", k, name=name, need=list(need), path_s=20))
    add("all_22", Q=2, S=2, limit=[0, 1, 2, 3, 9, 30] if q else list(range(40)), need=["halt", "unknown", "R", "L", "0"])
    add("tnf_32", Q=3, S=2, limit=8 if q else 24, tnf=1, need=["halt", "R", "L", "0"])
    add("tnf_23", Q=2, S=3, limit=8 if q else 24, tnf=1, need=["halt", "R", "L", "0"])
    add("all_12", Q=1, S=2, limit=list(range(31)))
    for k in [48, 49, 50] if q else [47, 48, 49, 50, 51, 52]:
        cs.append(Case("edge", dict(walks=[k], backs=[6] if q else [2, 6, 11], limit=100), name="edge_%d" % k,
                       need=["halt"], path_s=20))
    for tm in LR:
        rows = [[r[3 * j:3 * j + 3] for j in range(len(r) // 3)] for r in tm.split("_")]
        cells = [(i, j) for i, r in enumerate(rows) for j in range(len(r))][1:]
        for x in range(len(cells)):
            for y in range(x + 1, len(cells)):
                if q and (y > x + 2 or (len(cells) > 5 and y > x + 1)):
                    continue
                g = [list(r) for r in rows]
                for i, j in (cells[x], cells[y]):
                    g[i][j] = "???"
                g = "_".join("".join(r) for r in g)
                Q, S, _ = parse(g)
                add("open_" + g, Q=Q, S=S, limit=100 if q else 1000, fixed=g)
    return cs
