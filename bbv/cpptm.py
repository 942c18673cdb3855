"""Symbolic transition tables for the C++ harnesses and an independent Turing machine."""


class Table:
    """Cells: [symbol, move, state, undecided]; state -1 is a halt."""

    def __init__(self, ctx, Q, S, fixed=None, halts=True, undecided=True, n="t"):
        self.ctx, self.Q, self.S = ctx, Q, S
        self.c = {}
        for q in range(Q):
            for s in range(S):
                f = (fixed or {}).get((q, s))
                if f is not None:
                    self.c[q, s] = list(f)
                    continue
                k = "%s%d%d" % (n, q, s)
                sym = ctx.int(k + "w", 0, S - 1)
                mv = ctx.int(k + "m", 0, 1) * 2 - 1
                st = ctx.int(k + "q", -1 if halts or undecided else 0, Q - 1)
                und = 0
                if undecided:
                    und = ctx.int(k + "u", 0, 1)
                    # the only undecided cell there is: {1, +1, halt, true}
                    one = min(1, S - 1)
                    ctx.assume(ctx.Or(und == 0, ctx.And(st == -1, mv == 1, sym == one)))
                    if not halts:
                        ctx.assume(ctx.Or(und == 1, st >= 0))
                self.c[q, s] = [sym, mv, st, und]

    def args(self):
        out = [self.Q, self.S]
        for q in range(self.Q):
            for s in range(self.S):
                out += self.c[q, s]
        return out


def parse(text):
    """Table of a standard text; '?' cells are open (left to the solver)."""
    out = {}
    rows = text.split("_")
    for q, r in enumerate(rows):
        for s in range(len(r) // 3):
            x = r[3 * s:3 * s + 3]
            if x == "???":
                continue
            if x == "---":
                out[q, s] = [1, 1, -1, 1]
            else:
                out[q, s] = [int(x[0]), 1 if x[1] == "R" else -1, -1 if x[2] == "Z" else ord(x[2]) - 65, 0]
    return len(rows), len(rows[0]) // 3, out


class Run:
    """Reference run.  With tnf, tables outside tree normal form are assumed away."""

    def __init__(self, ctx, tab, tnf=False):
        self.ctx, self.tab, self.tnf = ctx, tab, tnf
        self.tape = {}
        self.pos = self.state = self.t = 0
        self.last = None
        self.end = None
        self.seen = set()
        self.top = [0, 0]
        self.read = []           # (state, symbol, position) per step
        self.writes = []         # (position, symbol) per step

    def step(self):
        if self.end is not None:
            return False
        ctx = self.ctx
        q, p = self.state, self.pos
        c = ctx.concrete(self.tape.get(p, 0))
        w, m, nq, _ = self.tab.c[q, c]
        new = (q, c) not in self.seen
        self.seen.add((q, c))
        if new and self.tnf:
            if not self.seen - {(0, 0)}:
                ctx.assume(m == 1)
            ctx.assume(nq <= self.top[0] + 1)
            ctx.assume(w <= self.top[1] + 1)
        m, nq = ctx.concrete(m), ctx.concrete(nq)
        if new and self.tnf:
            w = ctx.concrete(w)
            self.top = [max(self.top[0], nq), max(self.top[1], w)]
        self.read.append((q, c, p))
        self.writes.append((p, w))
        self.last = (q, c)
        self.tape[p] = w
        self.pos = p + m
        self.state = nq
        self.t += 1
        if nq == -1:
            self.end = self.t
        return True

    def to(self, t):
        while self.t < t and self.step():
            pass
        return self.end is None

    def config(self, t):
        tape = {}
        for p, w in self.writes[:t]:
            tape[p] = self.ctx.concrete(w)
        return tape

    def at(self, t):
        """(state, position) before step t"""
        if t < len(self.read):
            return self.read[t][0], self.read[t][2]
        assert t == self.t
        return self.state, self.pos


def recurs(h, start, period):
    """Offset of the translated recurrence from `start` with `period`, or None."""
    a, b = h.config(start), h.config(start + period)
    (qa, pa), (qb, pb) = h.at(start), h.at(start + period)
    if qa != qb:
        return None
    ps = [h.read[t][2] for t in range(start, start + period)]
    off = pb - pa
    lo, hi = min(ps), max(ps)
    if off > 0:
        hi = max(list(a) + list(b) + [hi]) + abs(off) + 1
    elif off < 0:
        lo = min(list(a) + list(b) + [lo]) - abs(off) - 1
    for p in range(lo, hi + 1):
        if a.get(p, 0) != b.get(p + off, 0):
            return None
    return off
