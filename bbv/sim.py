"""Oracle run of a symbolic Turing machine from the blank tape, and the meaning
of a (macro) simulator configuration in terms of base cells."""
from . import shim
from .tm import TMSpec, RUN, HALT, UNDEF, LEFT, RIGHT


def tnf_assume(ctx, spec):
    """Only machines in tree normal form order are considered: the table is
    restricted as cells are first read (see OracleRun)."""
    spec.tnf = True


class OracleRun:
    """Plain machine, advanced on demand.  self.hist[t] = (pos, state) before
    step t; self.end = number of steps after which it halted (the halting step
    included), or None."""

    def __init__(self, ctx, spec, tnf=False, tape=None):
        self.ctx, self.spec, self.tnf = ctx, spec, tnf
        self.tape = dict(tape or {})
        self.pos, self.state, self.t = 0, 0, 0
        self.last = {}
        self.end = None
        self.cell = None
        self.maxs, self.maxc = 0, 0
        self.seen = set()

    def step(self):
        if self.end is not None:
            return False
        ctx = self.ctx
        c = self.tape.get(self.pos, 0)
        if not self.tnf and type(c) is int:
            self.seen.add((self.state, c))
        if self.tnf:
            c = ctx.concrete(c)
            if (self.state, c) not in self.seen:
                self.seen.add((self.state, c))
                k, w, d, n = self.spec.cells[self.state, c]
                if ctx.concrete(k) == RUN:
                    # normal form: new names are introduced in order, the first
                    # step goes right
                    ctx.assume(n <= self.maxs + 1)
                    ctx.assume(w <= self.maxc + 1)
                    if self.t == 0:
                        ctx.assume(d == RIGHT)
                    self.maxs = max(self.maxs, ctx.concrete(n))
                    self.maxc = max(self.maxc, ctx.concrete(w))
                else:
                    # how a halting cell writes and moves is irrelevant
                    if ctx.concrete(k) == HALT:
                        ctx.assume(d == RIGHT)
                        ctx.assume(w == 1)
        k, w, d, n = self.spec.get(self.state, c)
        self.last[self.state] = self.t
        self.tape[self.pos] = w
        if k != RUN:
            self.end = self.t + 1
            self.kind = k
            self.cell = (c, self.state)
        self.pos += 1 if d == RIGHT else -1
        self.dir = d
        self.state = n
        self.t += 1
        return True

    def to(self, t):
        """Advance to exactly t steps.  False when it halted before."""
        while self.t < t:
            if not self.step():
                return False
        return True

    def span(self):
        ks = list(self.tape) + [self.pos]
        return min(ks), max(ks)

    def cells(self):
        lo, hi = self.span()
        return [self.tape.get(i, 0) for i in range(lo, hi + 1)]


def trim(xs):
    a, b = 0, len(xs)
    while a < b and xs[a] == 0:
        a += 1
    while b > a and xs[b - 1] == 0:
        b -= 1
    return xs[a:b]


def flat(sym):
    if isinstance(sym, tuple):
        return list(sym)
    return [sym]


def sides(sim, backsym):
    """Finite parts of both sides, each nearest cell first, blanks beyond."""
    T = shim.load("Macro.Turing_Machine")
    out = []
    for side in (0, 1):
        cells = []
        for b in reversed(sim.tape.tape[side][1:]):
            c = flat(b.symbol)
            if side == 0:
                c = c[::-1]
            cells += c * b.num
        out.append(cells)
    if backsym:
        c = flat(sim.state.back_symbol)
        if sim.dir == RIGHT:
            out[0] = c[::-1] + out[0]
        else:
            out[1] = c + out[1]
    return out


def base_state(sim, backsym):
    return sim.state.base_state if backsym else sim.state


def same(ctx, xs, ys, msg):
    n = max(len(xs), len(ys))
    if all(type(x) is int for x in xs) and all(type(x) is int for x in ys):
        z = [0] * n
        ctx.check((xs + z)[:n] == (ys + z)[:n], msg)
        return
    for i in range(n):
        a = xs[i] if i < len(xs) else 0
        b = ys[i] if i < len(ys) else 0
        ctx.check(a == b, msg)


def compare(ctx, sim, run, backsym):
    """sim (still running) against run at the same number of steps."""
    L, R = sides(sim, backsym)
    lo, hi = run.span()
    if sim.dir == RIGHT:
        ol = [run.tape.get(i, 0) for i in range(run.pos - 1, lo - 1, -1)]
        orr = [run.tape.get(i, 0) for i in range(run.pos, hi + 1)]
    else:
        ol = [run.tape.get(i, 0) for i in range(run.pos, lo - 1, -1)]
        orr = [run.tape.get(i, 0) for i in range(run.pos + 1, hi + 1)]
    same(ctx, L, ol, "tape left of the head")
    same(ctx, R, orr, "tape right of the head")
    ctx.check(base_state(sim, backsym) == run.state, "state")


def nonzeros(ctx, run):
    vs = list(run.tape.values())
    if all(type(v) is int for v in vs):
        return len(vs) - vs.count(0)
    n = 0
    for v in vs:
        n = n + ctx.ite(v != 0, 1, 0)
    return n


def make_machine(spec, block, backsym, offset):
    T = shim.load("Macro.Turing_Machine")
    m = spec.build()
    if block > 1 or offset:
        m = T.Block_Macro_Machine(m, block, offset or None)
    if backsym:
        m = T.Backsymbol_Macro_Machine(m)
    return m
