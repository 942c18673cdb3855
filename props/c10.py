"""Lin_Recur_Detect.filter: verdicts against an independent run of the machine."""
from bbv.runner import Case
from bbv import shim, sim as S
from bbv.tm import TMSpec, decode, size, holes, RUN, HALT, UNDEF

INFO = {
    "functions": ["Lin_Recur_Detect.filter/lin_detect_not_min/check_recur/period_search/are_half_tapes_equal/"
                  "are_sections_equal", "Halting_Lib.set_inf_recur/set_halting/set_not_halting",
                  "Direct_Simulator"],
    "bounds": "every 2x2 machine (limit 24 steps), every 3x2 and 2x3 machine in tree normal form (limit 16; "
              "thorough 40), known recurrent machines with one or two cells open (limit 200-2000), every "
              "symbolic cell having every symbol, direction, next state, or being a halt or undefined; with "
              "and without the search for the earliest start",
    "outside": "larger machines, recurrences found after the step limit (there is no claim then)",
}


class Hist:
    """Configurations of the machine, all kept."""

    def __init__(self, ctx, spec, tnf):
        self.o = S.OracleRun(ctx, spec, tnf=tnf)
        self.read = []          # (state, symbol, pos) of step t
        self.writes = []

    def to(self, t):
        o = self.o
        while o.t < t:
            if o.end is not None:
                return False
            p, s = o.pos, o.state
            c = o.ctx.concrete(o.tape.get(p, 0))
            o.tape[p] = c
            o.step()
            self.read.append((s, c, p))
            self.writes.append((p, o.ctx.concrete(o.tape[p])))
            o.tape[p] = self.writes[-1][1]
        return True

    def config(self, t):
        tape = {}
        for p, w in self.writes[:t]:
            tape[p] = w
        return tape

    def pos(self, t):
        return self.read[t][2] if t < len(self.read) else self.o.pos

    def state(self, t):
        return self.read[t][0] if t < len(self.read) else self.o.state


def recurs(h, start, period):
    """Translated recurrence from `start` with `period`; offset or None."""
    a, b = h.config(start), h.config(start + period)
    if h.state(start) != h.state(start + period):
        return None
    ps = [h.read[t][2] for t in range(start, start + period)]
    off = h.pos(start + period) - h.pos(start)
    lo, hi = min(ps), max(ps)
    if off > 0:
        hi = max(list(a) + list(b) + [hi]) + abs(off) + 1
    elif off < 0:
        lo = min(list(a) + list(b) + [lo]) - abs(off) - 1
    for p in range(lo, hi + 1):
        if a.get(p, 0) != b.get(p + off, 0):
            return None
    return off


def detect(ctx, Q, S_, max_steps, tnf, fixed=None, kinds=(RUN, HALT, UNDEF)):
    L = shim.load("Lin_Recur_Detect")
    H = shim.load("Halting_Lib")
    pb = shim.load("io_pb2")
    spec = TMSpec(ctx, Q, S_, symbolic_write=False, kinds=kinds, fixed=decode(fixed) if fixed else None)
    if isinstance(max_steps, list):
        max_steps = max_steps[ctx.choice("max", len(max_steps))]
    mn = ctx.bool("min")
    h = Hist(ctx, spec, tnf)
    if tnf:
        h.to(max_steps)
    m = spec.build()
    info = pb.LinRecurFilterInfo()
    info.parameters.max_steps = max_steps
    info.parameters.find_min_start_step = True if mn else False
    st = pb.BBStatus()
    L.filter(m, info, st)
    r = info.result
    hs, qs = st.halt_status, st.quasihalt_status
    if r.success:
        ctx.note("recur")
        s, p = r.start_step, r.period
        if not h.to(s + 3 * p):
            ctx.fail("a machine that halts is said to recur")
        ctx.check(p > 0, "the period is positive")
        off = recurs(h, s, p)
        if off is None:
            ctx.fail("the machine is not in translated recurrence from the reported start")
        ctx.check(off == r.offset, "the reported offset")
        for t in range(s, s + 2 * p):
            a, b = h.read[t], h.read[t + p]
            ctx.check(a[:2] == b[:2] and b[2] - a[2] == off, "every cycle repeats the previous one")
        if mn:
            for t in range(s):
                if recurs(h, t, p) is not None:
                    ctx.fail("recurrence starts earlier than the start said to be the earliest")
            ctx.note("min")
        ctx.check(hs.is_decided and not hs.is_halting and hs.inf_reason == pb.INF_LIN_RECUR,
                  "recorded as running forever by recurrence")
        cyc = {h.read[t][0] for t in range(s, s + p)}
        last = {}
        for t in range(s + p):
            last[h.read[t][0]] = t
        out = [(t, q) for q, t in last.items() if q not in cyc]
        ctx.check(qs.is_decided, "quasihalting is decided")
        ctx.check(bool(qs.is_quasihalting) == bool(out), "quasihalts iff some visited state is left for good")
        if out:
            ctx.note("quasi")
            t, q = max(out)
            ctx.check(H.get_big_int(qs.quasihalt_steps) == t + 1, "quasihalting step")
            ctx.check(qs.quasihalt_state == q, "quasihalting state")
        ctx.note("R" if off > 0 else "L" if off < 0 else "0")
    elif hs.is_decided:
        if not hs.is_halting:
            ctx.fail("non-halting claimed without a recurrence")
        n = H.get_big_int(hs.halt_steps)
        h.to(n)
        ctx.check(h.o.end == n, "halting step")
        ctx.check(H.get_big_int(hs.halt_score) == S.nonzeros(ctx, h.o), "score at the halt")
        ctx.check((hs.from_symbol, hs.from_state) == h.o.cell, "cell that halts")
        ctx.check(qs.is_decided and not qs.is_quasihalting, "a halting machine is recorded as not quasihalting")
        ctx.note("halt")
    else:
        ctx.check(max_steps < 2 or h.to(max_steps), "a halt within the step limit is reported")
        ctx.check(not qs.is_decided, "nothing recorded without a verdict")
        ctx.note("unknown")


LR = ["1RB1LB_0LC0RB_1LA---", "1RB1LA_0RC0RB_1LA1RC", "1RB1RC_1LC1RD_1RA1LD_0RD0LB", "1RB0LA_0RC1LA_1RC1LB",
      "1RB2LB1RA_1LA2RA0LB", "1RB1LA_0LA1RC_0RA1LC", "1RB0RA_1LB1LA", "1RB1LB_1LC0RA_1RC1LC"]


def cases(tier):
    q = tier == "quick"
    cs = []
    def add(name, need=(), **k):
        cs.append(Case("detect", k, name=name, need=list(need)))
    add("all_22", Q=2, S_=2, max_steps=[1, 2, 3, 10, 24], tnf=0, need=["recur", "halt", "unknown", "min", "quasi", "R", "L", "0"])
    add("tnf_32", Q=3, S_=2, max_steps=16 if q else 40, tnf=1, need=["recur", "halt", "quasi", "R", "L"])
    add("tnf_23", Q=2, S_=3, max_steps=16 if q else 40, tnf=1, need=["recur", "halt", "R", "L"])
    if not q:
        add("tnf_42", Q=4, S_=2, max_steps=16, tnf=1, need=["recur", "halt", "R", "L"])
    for tm in LR:
        if len({len(r) for r in tm.split("_")}) != 1:
            continue
        Q, S_ = size(tm)
        cells = [(s, c) for s in range(Q) for c in range(S_)][1:]
        for x in range(len(cells)):
            for y in range(x + 1, len(cells)):
                if q and y > x + 2:
                    continue
                f = holes(tm, [cells[x], cells[y]])
                add("hole_" + f, Q=Q, S_=S_, max_steps=150 if q else 1000, tnf=0, fixed=f)
    return cs
