"""Closed position sets (CPS): a machine with a proof never halts and the set covers its run."""
from types import SimpleNamespace
from bbv.runner import Case
from bbv import shim, sim as S
from bbv.tm import TMSpec, decode, size, holes, RUN, HALT, UNDEF, LEFT, RIGHT

INFO = {
    "functions": ["CPS.filter", "CPS.ClosedGraphSim.run/sim_config/update_set/add_edge/add_config", "CPS.Config",
                  "CPS_Filter.filter/filter_all", "Turing_Machine.sim_limited"],
    "bounds": "every 2x2, 3x2 and 2x3 machine in tree normal form over its first 12..40 steps, cells the run does "
              "not meet open (forked only where the filter looks at them); machines with one cell open; blocks "
              "1..3, windows 2..7 (also not multiples of the block), limits on steps, iterations, configurations "
              "and edges small and large",
    "outside": "halting runs longer than the bound, larger machines and windows",
}


def covered(ctx, spec, tape0, graph, block, window, steps, Config):
    """Every position of the real run appears in the closed set."""
    tape, pos, st, d = {}, 0, 0, RIGHT
    lo = block - window             # left end of the window
    t = 0
    def here():
        w = tuple(tape.get(lo + i, 0) for i in range(window))
        return Config(st, d, w, block)
    confs = set(graph.transitions)
    while True:
        if here() not in confs:
            ctx.fail("a position of the real run is missing from the closed set")
        ctx.note("covered")
        while lo <= pos < lo + window:
            if t >= steps:
                return
            c = ctx.concrete(tape.get(pos, 0))
            k, w, d, n = spec.get(st, c)
            if k != RUN:
                return
            tape[pos] = ctx.concrete(w)
            pos += 1 if d == RIGHT else -1
            st = n
            t += 1
        lo += block if d == RIGHT else -block


def sound(ctx, Q, S_, steps, tnf, sizes, limits, only_halting=True, fixed=None, cover=30, through=False):
    C = shim.load("CPS")
    F = shim.load("CPS_Filter")
    pb = shim.load("io_pb2")
    fx = decode(fixed) if fixed else {}
    spec = TMSpec(ctx, Q, S_, symbolic_write=False, fixed=fx)
    o = S.OracleRun(ctx, spec, tnf=tnf)
    o.to(steps)
    halts = o.end is not None
    if only_halting:
        ctx.assume(halts)
    spec.unmet(o.seen, "any", 99, fx)
    spec.lazy = False
    block, window = sizes[ctx.choice("size", len(sizes))]
    lim = limits[ctx.choice("limit", len(limits))]
    m = spec.build()
    if through:
        rec = SimpleNamespace(tm=lambda: m, proto=pb.TMRecord())
        rec.clear_proto = rec.proto.Clear
        args = SimpleNamespace(min_block_size=1, max_block_size=block, max_window_size=window if window > 2 else None,
                               max_steps=lim[0], max_iters=lim[1], max_configs=lim[2], max_edges=lim[3])
        F.filter_all(rec, args)
        res, st, graph = rec.proto.filter.closed_graph.result, rec.proto.status, None
    else:
        res, st = pb.ClosedGraphFilterResult(), pb.BBStatus()
        graph = C.filter(m, block, window, *lim, res, st)
    if res.success:
        ctx.note("proof")
        if halts:
            ctx.fail("a machine that halts has a closed position set")
        ctx.check(st.halt_status.is_decided and not st.halt_status.is_halting
                  and st.halt_status.inf_reason == pb.INF_CLOSED_GRAPH, "recorded as running forever")
        if hasattr(graph, "transitions") and hasattr(C, "Config"):
            covered(ctx, spec, None, graph, block, window, cover, C.Config)
    else:
        ctx.check(not st.halt_status.is_decided, "nothing is recorded without a proof")
        ctx.note("no proof")
    ctx.note("halts" if halts else "runs")


BIG = (100000, 100, 500, 500)
MACHINES = ["1RB0LA_1LC0RB_1RA1LC", "1RB1LA_0LA0RB", "1RB2LB1LA_2LA2RB0RA", "1RB0LB_1LA1RC_0RA---",
            "1RB1LC_1LB1LA_1RA0RC", "1RB0RA_1LC0LA_1LA1LB", "1RB1LB_0RC1LB_1RD0LA_1LD0LC"]


def cases(tier):
    q = tier == "quick"
    cs = []
    def add(name, need=(), **k):
        cs.append(Case("sound", k, name=name, need=list(need)))
    Z = [(1, 2), (1, 3), (2, 4), (2, 5), (2, 6), (3, 6)] + ([] if q else [(1, 4), (3, 7), (3, 9), (1, 5)])
    LIM = [BIG, (60, 100, 500, 500), (2, 100, 500, 500), (7, 100, 500, 500), (15, 100, 500, 500), (100000, 2, 500, 500), (100000, 100, 4, 500), (100000, 100, 500, 3)]
    add("all_22", Q=2, S_=2, steps=8, tnf=1, sizes=Z, limits=LIM, only_halting=False,
        need=["proof", "no proof", "halts", "runs", "covered"])
    add("through_22", Q=2, S_=2, steps=8, tnf=1, sizes=[(1, 2), (2, 2), (1, 4)], limits=[BIG], only_halting=False, through=True,
        need=["proof", "no proof", "halts", "runs"])
    for Q, S_ in ((3, 2), (2, 3)):
        add("runs_%d%d" % (Q, S_), Q=Q, S_=S_, steps=8 if q else 14, tnf=1, sizes=Z[:3] if q else Z, limits=[BIG],
            only_halting=False, need=["proof", "halts", "covered"])
        add("halting_%d%d" % (Q, S_), Q=Q, S_=S_, steps=11 if q else 22, tnf=1, sizes=[(1, 3), (2, 5)] if q else Z,
            limits=[BIG] if q else LIM, need=["halts"])
    for tm in MACHINES:
        Q, S_ = size(tm)
        cells = [(s, c) for s in range(Q) for c in range(S_)][1:]
        for x in range(len(cells)):
            f = holes(tm, [cells[x], cells[(x + 1) % len(cells)]])
            add("hole_" + f, Q=Q, S_=S_, steps=60, tnf=0, fixed=f, sizes=[(1, 2), (1, 3), (2, 5), (3, 6)] if q else Z, limits=[BIG],
                only_halting=False, cover=120)
    return cs
