"""Direct simulator = Turing machine semantics (Code/Direct_Simulator.py)."""
from bbv.runner import Case
from bbv import shim
from bbv.tm import TMSpec, step_oracle, RUN, HALT, UNDEF

INFO = {
    "functions": ["Direct_Simulator.DirectSimulator.step/seek/copy",
                  "Direct_Simulator.DirectTape.*",
                  "Turing_Machine.Simple_Machine.get_trans_object"],
    "bounds": "all machines with 2x2, 3x2, 2x3, 2x4 cells (every write symbol, "
              "direction, next state, halt/undefined choice symbolic); every "
              "initial tape window of 4 cells and every seek schedule of 3 seeks "
              "within 7 steps (quick), 12 (thorough)",
    "outside": "machines with a 'stay' direction; runs longer than the bound "
               "(the step function is the same for every step)",
}


def run(ctx, Q, S, steps, window):
    D = shim.load("Direct_Simulator")
    spec = TMSpec(ctx, Q, S)
    sim = D.DirectSimulator(spec.build())
    tape = {}
    for i in range(window):
        v = ctx.int("tape%d" % i, 0, S - 1)
        p = i - window // 2
        sim.tape.write_pos(v, p)
        tape[p] = v
    pos, state, n, halted = 0, 0, 0, False
    lo = hi = 0
    t1 = (0, 1, steps // 2)[ctx.choice("seek1", 3)]
    t2 = steps - 2  # forwards or (after a short run) where it already is
    frozen = None
    for i, target in enumerate((t1, t2, 0, steps)):
        if i == 2:
            # a step that has passed
            calls = []
            m = sim.tm

            class Guard:
                def __getattr__(self, k):
                    calls.append(k)
                    if len(calls) > 3:
                        ctx.fail("seeking a step that has passed does not stop")
                    return getattr(m, k)
            sim.tm = Guard()
            try:
                sim.seek(n - 1 if n else 0)
            finally:
                sim.tm = m
            ctx.check(sim.step_num == n, "seeking a step that has passed changes nothing")
            target = n
        else:
            sim.seek(target)
        hs = None
        while not halted and n < target:
            sym = tape.get(pos, 0)
            k, npos, ns = step_oracle(spec, tape, pos, state)
            n += 1
            if k != RUN:
                halted = True
                hs = (state, sym)
            pos, state = npos, ns
            lo, hi = min(lo, pos), max(hi, pos)
        ctx.check(sim.step_num == n, "step count")
        ctx.check(bool(sim.halted) == halted, "halted exactly when a halting "
                  "transition was taken")
        ctx.check(sim.tape.position == pos, "head position")
        ctx.check(sim.state == state, "state")
        same = [sim.tape.read_pos(p) == tape.get(p, 0)
                for p in range(lo - 3 - window, hi + 4 + window)]
        ctx.check(ctx.And(*same), "tape contents")
        ctx.check(sim.tape.read() == tape.get(pos, 0), "symbol under the head")
        if hs is not None:
            ctx.note("halted")
            nz = sum(ctx.ite(v != 0, 1, 0) for v in tape.values())
            ctx.check(sim.halt_score == nz, "score = number of non-blank cells")
            ctx.check(ctx.And(sim.halt_from_state == hs[0],
                              sim.halt_from_symbol == hs[1]),
                      "which cell halted the machine")
        if i == 0:
            frozen = (sim, dict(tape), n, state, pos, halted, lo, hi)
            sim = sim.copy()
    # the original of the copy is unaffected
    o, t, n0, s0, p0, h0, lo0, hi0 = frozen
    ctx.check(ctx.And(o.step_num == n0, o.state == s0, o.tape.position == p0,
                      bool(o.halted) == h0,
                      *[o.tape.read_pos(p) == t.get(p, 0)
                        for p in range(lo - 2, hi + 3)]),
              "a copied simulator is independent of the original")
    ctx.check(ctx.And(*[o.tape.pos_leftmost() <= p for p in t]
                      + [o.tape.pos_rightmost() >= p for p in t]),
              "extent covers every touched cell")
    ctx.note("done")


def cases(tier):
    q = tier == "quick"
    n = 6 if q else 9
    return [Case("run", {"Q": Q, "S": S, "steps": n, "window": w}, need=["halted", "done"])
            for Q, S, w in ((2, 2, 4), (3, 2, 0), (2, 3, 0), (2, 2, 0))]
