"""Backtracking_Filter: a machine it discards never halts."""
from types import SimpleNamespace
from bbv.runner import Case
from bbv import shim, sim as S
from bbv.tm import TMSpec, decode, size, holes, RUN, HALT, UNDEF

INFO = {
    "functions": ["Backtracking_Filter.backtrack/backtrack_ttable/backtrack_single_halt/get_info/"
                  "is_init_config/is_possible_config", "Partial_Config", "BacktrackResult.merge"],
    "bounds": "every machine of 2x2, 3x2 and 2x3 cells (thorough: 4x2, 2x4, 3x3 too) that halts within 8..25 steps "
              "in tree normal form, its other cells halting or undefined or (few cells) anything; depth limit 0..6 "
              "(thorough 12), width limit 1..10, symbolic choice. Machines reported to halt are run forwards",
    "outside": "halting runs longer than the bound, deeper searches, larger machines",
}


def sound(ctx, Q, S_, steps, tnf, depth, width, rest="any", bound=99, fixed=None, only_halting=True):
    F = shim.load("Backtracking_Filter")
    pb = shim.load("io_pb2")
    spec = TMSpec(ctx, Q, S_, symbolic_write=False, fixed=decode(fixed) if fixed else None)
    o = S.OracleRun(ctx, spec, tnf=tnf)
    o.to(steps)
    halts = o.end is not None
    if only_halting:
        ctx.assume(halts)
    spec.unmet(o.seen, rest, bound, decode(fixed) if fixed else ())
    m = spec.build()
    d = depth[ctx.choice("depth", len(depth))]
    w = width[ctx.choice("width", len(width))]
    rec = SimpleNamespace(tm=lambda: m, proto=pb.TMRecord())
    ret = F.backtrack(rec, d, w)
    info = rec.proto.filter.backtrack
    says = info.result.success
    st = rec.proto.status
    ctx.check(bool(ret) == bool(says), "the answer is the one recorded")
    ctx.check(info.parameters.num_steps == d and info.parameters.max_width == w, "limits recorded")
    table = [[(t.symbol_out, t.dir_out, t.state_out) for t in row] for row in m.trans_table]
    r = F.backtrack_ttable(table, d, w)
    ctx.check(bool(r.success) == bool(says), "same answer again")
    if says:
        ctx.note("discarded")
        if halts:
            ctx.fail("a machine that halts is discarded")
        ctx.check(st.halt_status.is_decided and not st.halt_status.is_halting
                  and st.halt_status.inf_reason == pb.INF_BACKTRACK, "recorded as running forever")
        ctx.check(not r.halted, "not both")
    else:
        ctx.check(not st.halt_status.is_decided, "nothing is recorded without a proof")
    if r.halted:
        ctx.note("halting")
        o.to(r.max_steps + 1)
        ctx.check(o.end == r.max_steps + 1, "a machine said to halt after so many steps does")
    ctx.note("halts" if halts else "runs")


MACHINES = ["1RB1LC_1RC1RB_1RD0LE_1LA1LD_---0LA", "1RB1LB_1LA0LC_---1LD_1RD0RA", "1RB1RA_1LC0RD_0LA---_1RC1LA",
            "1RB2LB---_2LA2RB1LB", "1RB2LA1RA1RA_1LB1LA3RB---"]


def cases(tier):
    q = tier == "quick"
    cs = []
    D, W = ([0, 1, 3, 6], [1, 2, 10]) if q else ([0, 1, 2, 4, 8, 12], [1, 2, 4, 10, 100])
    def add(name, need=(), **k):
        k.setdefault("depth", D)
        k.setdefault("width", W)
        cs.append(Case("sound", k, name=name, need=list(need)))
    add("all_22", Q=2, S_=2, steps=8, tnf=0, only_halting=False, need=["discarded", "halts", "runs", "halting"],
        depth=[0, 1, 6] if q else D, width=[1, 10] if q else W)
    add("halting_32", Q=3, S_=2, steps=10 if q else 25, tnf=1, bound=1 if q else 4, need=["halts"], depth=[3, 6], width=[10])
    add("halting_23", Q=2, S_=3, steps=10 if q else 40, tnf=1, bound=1 if q else 4, need=["halts"], depth=[3, 6], width=[10])
    for r in ("stop", "run"):
        for Q, S_ in ((3, 2), (2, 3), (4, 2), (2, 4)) if q else ((3, 2), (2, 3), (4, 2), (2, 4), (3, 3)):
            add("halting_%d%d_%s" % (Q, S_, r), Q=Q, S_=S_, steps=(18 if Q * S_ == 6 else 6) if q else 20,
                tnf=1, rest=r, need=["halts"], depth=[2, 5], width=[10])
    for tm in MACHINES:
        Q, S_ = size(tm)
        cells = [(s, c) for s in range(Q) for c in range(S_)][1:]
        for x in range(len(cells)):
            y = (x + 2) % len(cells)
            f = holes(tm, [cells[x], cells[y]])
            add("hole_" + f, Q=Q, S_=S_, steps=60, tnf=0, fixed=f, only_halting=False,
                depth=[2, 6] if q else D, width=[10] if q else W)
    return cs
