"""C++ DirectSimulator and Tape (from LLVM IR of the current source) against an
independent Turing machine."""
from bbv.runner import Case
from bbv import cpp
from bbv.cpptm import Table, Run, parse

H = ("hx_sim",)
INFO = {
    "functions": ["busy_beaver::Tape (constructor, copy, read, read(pos), write, move, position, in_range)",
                  "busy_beaver::DirectSimulator (constructor, Step, Seek, is_halted, state, step_num, last_state, "
                  "last_symbol)", "TuringMachine(table), Lookup", "std::vector of the tape and table"],
    "bounds": "every 1x2, 2x1, 2x2 machine for 70 steps, every 2x3 and 3x2 machine in tree normal form for 9 and 12 steps "
              "(thorough 18, 20), sweeping machines with one or two cells open for 900 steps (tape grown on both "
              "sides), driven by Step() and by Seek() to two symbolic goals; bare tape: three groups of moves of "
              "either direction around every allocation edge (0, 50, 100, 150, 200, 250) with symbolic symbols",
    "outside": "larger machines, longer runs, tapes of more than 2**31 cells, Tape::print",
    "assumptions": ["clang -O1 IR of the sources means what the sources mean; C++ library containers are executed "
                    "from their headers' IR, operator new never fails"],
}


def sim(ctx, Q, S, steps, tnf=0, fixed=None, goals=None, lo=-6, hi=6):
    tab = Table(ctx, Q, S, parse(fixed)[2] if fixed else None, undecided=False)
    h = Run(ctx, tab, tnf)
    if goals == "sym":
        a = ctx.int("g1", 0, steps)
        b = ctx.int("g2", 0, steps)
        g = [a, -1, b]
    else:
        g = goals or [steps]
    if tnf:
        h.to(steps)
        h = Run(ctx, tab)
    out = cpp.call(ctx, H, "sim", tab.args() + [len(g)] + g + [lo, hi])
    k = 7 + hi - lo + 1
    ctx.check(len(out) == k * len(g), "number of results")
    t = 0
    for i, x in enumerate(g):
        r = out[k * i:k * i + k]
        if cpp.UNINIT in [v for v in r if isinstance(v, str)]:
            ctx.fail("a result of the simulator is uninitialised")
        x = ctx.concrete(x)
        h.to(h.t + 1 if x < 0 else x)
        ctx.check(r[1] == h.t, "number of steps")
        ctx.check(r[0] == h.state, "state")
        ctx.check(ctx.Or(ctx.And(r[2] == 1, h.end is not None), ctx.And(r[2] == 0, h.end is None)), "halted flag")
        ctx.check(r[3] == h.pos, "position")
        if h.t:
            ctx.check(r[4] == h.last[0], "state of the last step")
            ctx.check(r[5] == h.last[1], "symbol read by the last step")
        ctx.check(r[6] == h.tape.get(h.pos, 0), "symbol under the head")
        for p in range(lo, hi + 1):
            ctx.check(r[7 + p - lo] == h.tape.get(p, 0), "tape cell %d" % p)
        ctx.note("halt" if h.end else "run")
        if h.end and x > h.end:
            ctx.note("sought past a halt")
    if h.tape and (min(h.tape) < -50 or max(h.tape) > 50):
        ctx.note("grown")


def tape(ctx, edges, groups, lo, hi):
    args, pos, cells, want = [], 0, {}, []
    for i in range(groups):
        d = 1 if ctx.bool("d%d" % i) else -1
        n = ctx.concrete(ctx.int("e%d" % i, 0, len(edges) - 1))
        n = max(0, edges[n] + ctx.concrete(ctx.int("o%d" % i, -1, 1)))
        w = ctx.int("w%d" % i, 0, 9)
        args += [d, n, w]
        pos += d * n
        want.append((pos, cells.get(pos, 0), w))
        cells[pos] = w
    out = cpp.call(ctx, H, "tape", [groups] + args + [lo, hi])
    if any(isinstance(v, str) for v in out):
        ctx.fail("uninitialised cell")
    for i, (p, c, w) in enumerate(want):
        ctx.check(out[3 * i] == p, "position")
        ctx.check(out[3 * i + 1] == c, "cell is blank or what was written last")
        ctx.check(out[3 * i + 2] == w, "written cell")
    r = out[3 * groups:]
    n = hi - lo + 1
    for p in range(lo, hi + 1):
        ctx.check(r[p - lo] == cells.get(p, 0), "cell of the tape (writing to a copy changes nothing)")
        v = 7 if p == pos else 8 if p == pos + 1 else cells.get(p, 0)
        ctx.check(r[n + p - lo] == v, "cell of the copy")
        ctx.check(ctx.Or(r[2 * n + p - lo] != 0, r[p - lo] == 0), "a cell out of range is blank")
    ctx.note("tape")


def cases(tier):
    q = tier == "quick"
    cpp.module(*H)
    cs = []

    def add(name, need=(), **k):
        cs.append(Case("sim", k, name=name, need=list(need)))
    add("all_22", Q=2, S=2, steps=70, goals=[3, -1, 7, 7, 70], need=["halt", "run", "sought past a halt", "grown"])
    add("goals_22", Q=2, S=2, steps=6, goals="sym", need=["halt", "run", "sought past a halt"])
    add("all_12", Q=1, S=2, steps=150, need=["halt", "run", "grown"])
    add("all_21", Q=2, S=1, steps=150, need=["halt", "run", "grown"])
    add("tnf_32", Q=3, S=2, steps=9 if q else 18, tnf=1, need=["halt", "run"])
    add("tnf_23", Q=2, S=3, steps=12 if q else 20, tnf=1, need=["halt", "run"])
    for f in ("1RB1LB_1LA1RA", "1RB1RA_0LB1LA", "1LB2LA_1RA2RB", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA"):
        cells = [(i, j) for i, r in enumerate(f.split("_")) for j in range(len(r) // 3)]
        for x in range(len(cells)):
            rows = [[r[3 * j:3 * j + 3] for j in range(len(r) // 3)] for r in f.split("_")]
            rows[cells[x][0]][cells[x][1]] = "???"
            if not q:
                y = cells[(x + 1) % len(cells)]
                rows[y[0]][y[1]] = "???"
            g = "_".join("".join(r) for r in rows)
            Q, S, _ = parse(g)
            add("open_" + g, Q=Q, S=S, steps=900, fixed=g, goals=[450, 900], lo=-8, hi=8)
    cs.append(Case("tape", dict(edges=[0, 50] if q else [0, 50, 100], groups=3, lo=-160, hi=160),
                   name="tape", need=["tape"]))
    cs.append(Case("tape", dict(edges=[50, 100, 150, 250], groups=2, lo=-260, hi=260), name="tape_far", need=["tape"]))
    return cs
