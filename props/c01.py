"""Macro machine transitions = base machine inside the block."""
from bbv.runner import Case
from bbv import shim
from bbv.tm import TMSpec, decode, size, holes, RUN, HALT, UNDEF, RIGHT

INFO = {
    "functions": ["Turing_Machine.sim_limited",
                  "Turing_Machine.Block_Macro_Machine.get_trans_object/eval_trans",
                  "Turing_Machine.Backsymbol_Macro_Machine.get_trans_object/eval_trans",
                  "OffsetStartState handling"],
    "bounds": "base machines 2x2 (all), 3x2 and 2x3 (quick: no explicit halt cells, entry state A); "
              "blocks of 1-3 cells (thorough 4), every contents, entry side, state and start offset; "
              "back-symbol over the base machine and over 1-blocks (thorough 2-blocks); "
              "default step limits and small ones that force a give-up",
    "outside": "larger machines and blocks; which states a repeat-in-place visits forever",
}


def oracle(ctx, spec, cells, pos, state, limit):
    """Run the base machine inside cells until it leaves, halts or repeats."""
    tape = list(cells)
    n = 0
    last = {}
    seen = set()
    while True:
        cfg = (state, pos, tuple(ctx.concrete(c) for c in tape))
        if cfg in seen:
            return "inf", tape, pos, state, None, n, last
        seen.add(cfg)
        k, w, d, nx = spec.get(state, cfg[2][pos])
        tape[pos] = w
        last[state] = n
        n += 1
        pos += 1 if d == RIGHT else -1
        state = nx
        if k == HALT:
            return "halt", tape, pos, state, d, n, last
        if k == UNDEF:
            return "undef", tape, pos, state, d, n, last
        if not 0 <= pos < len(tape):
            return "run", tape, pos, state, d, n, last


def compare(ctx, T, res, got, flat, limit=None):
    kind, tape, pos, state, d, n, last = res
    want = {"inf": T.INF_REPEAT, "halt": T.HALT, "undef": T.UNDEFINED,
            "run": T.RUNNING}[kind]
    ctx.note(kind)
    if n > 300 and kind == "run":
        ctx.note("long")
    if got.condition == T.GAVE_UP:
        ctx.note("gave_up")
        ctx.check(limit is not None or n > 450,
                  "short runs inside a block are decided with the default limits")
        return
    ctx.check(got.condition == want, "condition: %s" % kind)
    if kind == "inf":
        return
    ctx.check(ctx.And(len(flat) == len(tape), *[a == b for a, b in zip(flat, tape)]),
              "contents of the block")
    ctx.check(got.dir_out == d, "exit side")
    st = got.state_out
    st = getattr(st, "base_state", st)
    ctx.check(st == state, "exit state")
    ctx.check(got.num_base_steps == n, "base step count")
    ctx.check(set(got.states_last_seen) == set(last), "states used")
    for s in last:
        ctx.check(got.states_last_seen[s] == last[s], "last use of state")


def block(ctx, Q, S, B, limit, offset, full=True, fixed=None):
    T = shim.load("Macro.Turing_Machine")
    # full=False: entry state 0 (states are interchangeable) and no explicit halts
    spec = TMSpec(ctx, Q, S, symbolic_write=False,
                  kinds=(RUN, HALT, UNDEF) if full else (RUN, UNDEF),
                  fixed=decode(fixed) if fixed else None)
    kw = {} if limit is None else {"max_sim_steps_per_symbol": limit}
    m = T.Block_Macro_Machine(spec.build(), B, offset, **kw)
    if offset:
        st, q0, d, pos = m.init_state, 0, 1, offset
    else:
        q0 = ctx.choice("q", Q) if full else 0
        st = T.Simple_Machine_State(q0)
        d = ctx.choice("d", 2)
        pos = 0 if d == RIGHT else B - 1
    cells = [ctx.int("c%d" % i, 0, S - 1) for i in range(B)]
    got = m.get_trans_object(T.Block_Symbol(cells), st, d)
    res = oracle(ctx, spec, cells, pos, q0, limit)
    compare(ctx, T, res, got, list(got.symbol_out), limit)
    # asking again (memo table) gives the same answer
    again = m.get_trans_object(T.Block_Symbol(cells), st, d)
    compare(ctx, T, res, again, list(again.symbol_out), limit)
    ctx.check(m.init_symbol == (0,) * B, "initial block is blank")
    nz = sum(ctx.ite(c != 0, 1, 0) for c in cells)
    ctx.check(m.eval_symbol(T.Block_Symbol(cells)) == nz, "score of a block")


def backsymbol(ctx, Q, S, B, limit, full=True, dirs=2, fixed=None):
    """Back-symbol machine on the base machine (B == 0) or on B-blocks."""
    T = shim.load("Macro.Turing_Machine")
    # full=False: entry state 0 (states are interchangeable) and no explicit halts
    spec = TMSpec(ctx, Q, S, symbolic_write=False,
                  kinds=(RUN, HALT, UNDEF) if full else (RUN, UNDEF),
                  fixed=decode(fixed) if fixed else None)
    base = spec.build()
    W = max(B, 1)
    if B:
        base = T.Block_Macro_Machine(base, B)
    kw = {} if limit is None else {"max_sim_steps_per_symbol": limit}
    m = T.Backsymbol_Macro_Machine(base, **kw)
    q0 = ctx.choice("q", Q) if full else 0
    d = ctx.choice("d", 2) if dirs == 2 else 1
    cells = [ctx.int("c%d" % i, 0, S - 1) for i in range(2 * W)]
    left, right = cells[:W], cells[W:]
    wrap = (lambda x: T.Block_Symbol(x)) if B else (lambda x: x[0])
    back, front = (left, right) if d == RIGHT else (right, left)
    st = T.Backsymbol_Macro_Machine_State(T.Simple_Machine_State(q0), wrap(back))
    got = m.get_trans_object(wrap(front), st, d)
    pos = W if d == RIGHT else W - 1
    res = oracle(ctx, spec, cells, pos, q0, limit)
    so, bs = got.symbol_out, got.state_out.back_symbol
    if not B:
        so, bs = [so], [bs]
    flat = list(so) + list(bs) if got.dir_out == RIGHT else list(bs) + list(so)
    compare(ctx, T, res, got, flat, limit)
    again = m.get_trans_object(wrap(front), st, d)
    ctx.check(again.condition == got.condition and again.num_base_steps == got.num_base_steps,
              "same question, same answer")
    nz = sum(ctx.ite(c != 0, 1, 0) for c in back)
    ctx.check(m.eval_state(st) == nz, "score of a back-symbol state")


def memo(ctx, Q, S, B, back, some=False):
    """Several questions to one machine with a tiny transition table: a -> b -> a."""
    T = shim.load("Macro.Turing_Machine")
    spec = TMSpec(ctx, Q, S, symbolic_write=False, kinds=(RUN, UNDEF),
                  fixed={(0, 0): (RUN, 1, RIGHT, 1)} if some else None)
    m = base = spec.build()
    if B:
        m = T.Block_Macro_Machine(m, B)
        m.max_cells = 1
    W = max(B, 1)
    if back:
        m = T.Backsymbol_Macro_Machine(m)
        m.max_cells = ctx.choice("cells", 2) + 1
    wrap = (lambda x: T.Block_Symbol(x)) if B else (lambda x: x[0])
    asked = []
    for j in range(2):
        cells = [ctx.concrete(ctx.int("c%d_%d" % (j, i), 0, S - 1)) for i in range(2 * W if back else W)]
        asked.append((ctx.choice("q%d" % j, Q), ctx.choice("d%d" % j, 2), cells))
    for q0, d, cells in asked + asked[:1]:
        if back:
            left, right = cells[:W], cells[W:]
            bk, front = (left, right) if d == RIGHT else (right, left)
            got = m.get_trans_object(wrap(front), T.Backsymbol_Macro_Machine_State(T.Simple_Machine_State(q0), wrap(bk)), d)
            so, bs = got.symbol_out, got.state_out.back_symbol
            if not B:
                so, bs = [so], [bs]
            flat = list(so) + list(bs) if got.dir_out == RIGHT else list(bs) + list(so)
            pos = W if d == RIGHT else W - 1
        else:
            got = m.get_trans_object(wrap(cells), T.Simple_Machine_State(q0), d)
            flat = list(got.symbol_out)
            pos = 0 if d == RIGHT else W - 1
        compare(ctx, T, oracle(ctx, spec, cells, pos, q0, None), got, flat)


LONG = ["0RB0LA_1LA1RC_0LC1RB", "1RB0LA_0LB1RC_1LB0RC"]
FAMOUS = ["1RB1LB_1LA0LC_1RZ1LD_1RD0RA", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA",
          "1RB2LA1RA_1LB1LA2RC_1RZ1LC2RB", "1RB2LA1RA1RA_1LB1LA3RB1RZ"]


def cases(tier):
    q = tier == "quick"
    cs = []

    def b(Q, S, B, limit=None, offset=None, full=True, need=()):
        cs.append(Case("block", {"Q": Q, "S": S, "B": B, "limit": limit,
                                 "offset": offset, "full": full}, need=need))

    def k(Q, S, B, limit=None, full=True, dirs=2, need=()):
        cs.append(Case("backsymbol", {"Q": Q, "S": S, "B": B, "limit": limit,
                                      "full": full, "dirs": dirs}, need=need))
    b(2, 2, 1, need=["run", "halt", "undef"])
    every = ["run", "halt", "undef", "inf"]
    for B in (2, 3) if q else (2, 3, 4):
        b(2, 2, B, need=every)
        for o in range(1, B):
            b(2, 2, B, offset=o)
    b(3, 2, 2, full=not q)
    b(2, 3, 2, offset=1, full=not q)
    b(2, 2, 3, limit=4, need=["gave_up"])
    k(2, 2, 0, need=every)
    for B, back in ((1, False), (2, False), (0, True)) + (() if q else ((1, True),)):
        cs.append(Case("memo", dict(Q=2, S=2, B=B, back=back, some=q and (B, back) != (1, False)), need=["run", "undef"]))
    k(2, 2, 1, need=every)
    k(3, 2, 0, full=not q)
    k(2, 3, 0, full=False, dirs=1 if q else 2)
    k(2, 2, 0, limit=3, need=["gave_up"])
    # counters and champions: long runs inside a block, with all cells given or
    # one cell open, every contents and entry
    for tm in LONG:
        Q, S = size(tm)
        for B in (7, 9) if q else (7, 8, 9, 10):
            cs.append(Case("block", dict(Q=Q, S=S, B=B, limit=None, offset=None, full=True, fixed=tm),
                           name="long_%s_%d" % (tm, B), need=["long"] if B > 8 else []))
    for i, tm in enumerate(FAMOUS):
        Q, S = size(tm)
        open_ = [(s, c) for s in range(Q) for c in range(S)]
        for j, x in enumerate(open_):
            if q and j % 4 != i % 4:
                continue
            f = holes(tm, [x])
            for B in (2, 3) if not q else (2,):
                cs.append(Case("backsymbol", dict(Q=Q, S=S, B=B, limit=None, full=True, dirs=2, fixed=f),
                               name="two_level_%s_%d" % (f, B)))
            B = 4 if S == 2 else 3
            cs.append(Case("block", dict(Q=Q, S=S, B=B, limit=None, offset=None, full=True, fixed=f),
                           name="famous_%s_%d" % (f, B)))
    if not q:
        b(2, 3, 2)
        b(3, 2, 3, full=False)
        k(2, 2, 2)
    return cs
