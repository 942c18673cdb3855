"""Run-length tape (Code/Macro/Tape.py) against the uncompressed tape."""
from bbv.runner import Case
from bbv import shim

INFO = {
    "functions": ["Tape.Chain_Tape.init/apply_single_move/apply_chain_move/"
                  "get_nonzeros/get_top_symbol/get_top_block/copy/compressed_size"],
    "bounds": "arbitrary tape with 0..3 finite runs per side (thorough 0..4) over the blank end, "
              "every run length >= 1 (unbounded), 3 symbols (tuples of 2 for block symbols), "
              "either facing; one arbitrary operation, and histories of 3 operations; "
              "contents compared at an arbitrary (unbounded) cell index",
    "outside": "tapes with more runs per side (operations only touch the two top runs)",
}


class Opt:
    html_format = False
    full_reps = False


def at(ctx, runs, blank, i):
    """Symbol at distance i from the head on one side; runs nearest first."""
    r = blank
    acc = 0
    spans = []
    for sym, num in runs:
        spans.append((acc, sym))
        acc = acc + num
    # from far to near
    ends = []
    a = 0
    for sym, num in runs:
        a = a + num
        ends.append((a, sym))
    for end, sym in reversed(ends):
        r = ctx.ite(i < end, sym, r)
    return r


def snap(ctx, tape, T, blank):
    """Runs of both sides, nearest first, from the real tape object; checks the
    representation while at it."""
    out = []
    for side in tape.tape:
        ctx.check(len(side) >= 1, "each side keeps its blank end")
        ctx.check(side[0].symbol == blank, "the ends of the tape are blank")
        ctx.check(side[0].num is T.INF or side[0].num == T.INF,
                  "the ends of the tape are infinite")
        runs = []
        for b in list(side)[:0:-1]:
            ctx.check(b.num >= 1, "no empty or negative run")
            runs.append((b.symbol, b.num))
        out.append(runs)
    return out


def mk_tape(ctx, T, nl, nr, nsym, d, tag=""):
    tape = T.Chain_Tape()
    tape.init(0, d, Opt)
    for side, n in ((0, nl), (1, nr)):
        prev = 0
        for j in range(n):
            s = ctx.int("%ss%d_%d" % (tag, side, j), 0, nsym - 1)
            ctx.assume(s != prev)   # the tape keeps neighbouring runs distinct
            prev = s
            num = ctx.int("%sn%d_%d" % (tag, side, j), 1)
            tape.tape[side].append(T.Repeated_Symbol(s, num))
    return tape


def contents(ctx, tape, T, blank, i, j):
    l, r = snap(ctx, tape, T, blank)
    return at(ctx, l, blank, i), at(ctx, r, blank, j)


def op(ctx, nl, nr, nsym, ops):
    T = shim.load("Macro.Tape")
    d = ctx.choice("dir", 2)
    tape = mk_tape(ctx, T, nl, nr, nsym, d)
    i = ctx.int("i", 0)
    for k in range(ops):
        before = snap(ctx, tape, T, 0)
        cp = tape.copy()
        kind = ctx.choice("op%d" % k, 2)
        w = ctx.int("w%d" % k, 0, nsym - 1)
        top = before[d][0] if before[d] else (0, None)
        ctx.check(tape.get_top_symbol() == top[0], "symbol under the head")
        if kind == 0:
            nd = ctx.choice("nd%d" % k, 2)
            tape.apply_single_move(w, nd)
            after = snap(ctx, tape, T, 0)
            # new contents in terms of the old ones, at an arbitrary index
            for side in (0, 1):
                new = at(ctx, after[side], 0, i)
                if d == nd:
                    if side == d:
                        exp = at(ctx, before[side], 0, i + 1)
                    else:
                        exp = ctx.ite(i == 0, w, at(ctx, before[side], 0, i - 1))
                else:
                    if side == d:
                        exp = ctx.ite(i == 0, w, at(ctx, before[side], 0, i))
                    else:
                        exp = at(ctx, before[side], 0, i)
                ctx.check(new == exp, "contents after a single move")
            ctx.check(tape.dir == nd, "facing after a single move")
            d = nd
            ctx.note("single")
        else:
            num = tape.apply_chain_move(w)
            after = snap(ctx, tape, T, 0)
            if not before[d]:
                ctx.check(num == T.INF, "chain over the blank end is infinite")
                n = 0
                ctx.note("inf")
            else:
                n = top[1]
                ctx.check(num == n, "chain move reports the length of the run")
                ctx.note("chain")
            for side in (0, 1):
                new = at(ctx, after[side], 0, i)
                if side == d:
                    exp = at(ctx, before[side], 0, i + n)
                else:
                    exp = ctx.ite(i < n, w, at(ctx, before[side], 0, i - n))
                ctx.check(new == exp, "contents after a chain move")
            ctx.check(tape.dir == d, "facing after a chain move")
        # the copy made before still has the old contents
        for side in (0, 1):
            c = snap(ctx, cp, T, 0)[side]
            ctx.check(at(ctx, c, 0, i) == at(ctx, before[side], 0, i),
                      "a copy is independent of its original")
        nz = 5
        for side in after:
            for s, m in side:
                nz = nz + ctx.ite(s != 0, m, 0)
        ev = lambda s: ctx.ite(s != 0, 1, 0)
        ctx.check(tape.get_nonzeros(ev, 5) == nz, "non-blank count")
        ctx.check(tape.compressed_size() == len(after[0]) + len(after[1]) + 2,
                  "compressed size counts the runs")
    # mutating the copy leaves the tape alone
    final = snap(ctx, tape, T, 0)
    cp = tape.copy()
    ctx.check(cp == tape, "a copy equals its original")
    cp.apply_single_move(1, 1 - d)
    cp.apply_chain_move(1)
    for side in (0, 1):
        ctx.check(at(ctx, snap(ctx, tape, T, 0)[side], 0, i)
                  == at(ctx, final[side], 0, i), "changing a copy leaves the original")


def cases(tier):
    q = tier == "quick"
    m = 3 if q else 4
    cs = []
    for nl in range(m + 1):
        for nr in range(m + 1):
            cs.append(Case("op", {"nl": nl, "nr": nr, "nsym": 3, "ops": 1}))
    for nl in range(3):
        for nr in range(3):
            cs.append(Case("op", {"nl": nl, "nr": nr, "nsym": 2, "ops": 2 if q else 3}))
    return cs
