"""Closed-tape-language filters: a machine with a proof never halts."""
from types import SimpleNamespace
from bbv.runner import Case
from bbv import shim, sim as S
from bbv.tm import TMSpec, decode, size, holes, RUN, HALT, UNDEF, LEFT, RIGHT

INFO = {
    "functions": ["CTL_Filter.filter/get_module/get_proto", "CTL1..CTL4: CTL, test_CTL", "Simulator.seek",
                  "Block_Macro_Machine", "Backsymbol_Macro_Machine"],
    "bounds": "(a) every 2x2, 3x2 and 2x3 machine in tree normal form that halts within 8..20 steps, cells the run "
              "does not meet open (lazily), all four filters, cutoff 0..12 simulator loops, blocks 1..3, every "
              "offset, with and without back-symbol; (b) machines that first write a word of three runs (lengths "
              "1..3, three symbols, either direction), then sweep over it in at most 4 states, every choice of the "
              "sweep's next states and halting cell; (c) machines that write a word of 1..3 symbols and then move over it in "
              "either direction with up to 3 states for at most 6 (10) steps before halting",
    "outside": "halting runs longer than the bound; larger machines; the time limit of CTL1/CTL2",
}

TYPES = ["CTL1", "CTL2", "CTL3", "CTL4"]


def ask(ctx, spec, typ, block, offset, cutoff, backsym, halts, halt_cells=False):
    F = shim.load("CTL_Filter")
    for t in TYPES:
        shim.load(t)
    pb = shim.load("io_pb2")
    m = spec.build()
    rec = SimpleNamespace(tm=lambda: m, proto=pb.TMRecord())
    ret = F.filter(rec, typ, block, offset, cutoff, backsym)
    st = rec.proto.status
    info = F.get_proto(typ, rec)
    ctx.check(bool(ret) == bool(info.result.success), "the answer is the one recorded")
    if ret:
        ctx.note("proof")
        ctx.note(typ)
        if halts:
            ctx.fail("a machine that halts has a closed-tape-language proof")
        ctx.check(st.halt_status.is_decided and not st.halt_status.is_halting
                  and st.halt_status.inf_reason == pb.INF_CTL, "recorded as running forever")
        ctx.check(info.parameters.block_size == block and info.parameters.offset == offset
                  and info.parameters.cutoff == cutoff, "parameters recorded")
        others = [F.get_proto(t, rec).result.success for t in TYPES if t != typ]
        ctx.check(not any(others), "only this filter is recorded")
    else:
        ctx.check(not st.halt_status.is_decided, "nothing is recorded without a proof")
    ctx.note("halts" if halts else "runs")


def blank(ctx, Q, S_, steps, tnf, typ, cutoffs, blocks, only_halting=True, fixed=None):
    spec = TMSpec(ctx, Q, S_, symbolic_write=False, fixed=decode(fixed) if fixed else None)
    o = S.OracleRun(ctx, spec, tnf=tnf)
    o.to(steps)
    halts = o.end is not None
    if only_halting:
        ctx.assume(halts)
    spec.unmet(o.seen, "any", 99, decode(fixed) if fixed else ())
    spec.lazy = False
    block, offset, bs = blocks[ctx.choice("block", len(blocks))]
    ask(ctx, spec, typ, block, offset, cutoffs[ctx.choice("cutoff", len(cutoffs))], bs, halts)


def word(ctx, typ, Q, after, mirror, lens, block=1, backsym=False):
    """Write a word of three runs, then sweep back over it."""
    S_ = 3
    syms = [(1, 2, 0), (1, 0, 2), (2, 1, 0), (1, 2, 1), (2, 0, 1)][ctx.choice("syms", 5)]
    w = []
    for i, s in enumerate(syms):
        w += [s] * lens[i][ctx.choice("n%d" % i, len(lens[i]))]
    F, B = (LEFT, RIGHT) if mirror else (RIGHT, LEFT)
    fixed = {}
    L = len(w)
    for i, s in enumerate(w):
        for c in range(S_):
            fixed[i, c] = (UNDEF, 0, 0, 0)
        fixed[i, 0] = (RUN, s, F, i + 1)
    for c in range(S_):
        fixed[L, c] = (UNDEF, 0, 0, 0)
    fixed[L, 0] = (RUN, 0, B, L + 1)
    # the sweep keeps what it reads and never goes back
    for st in range(L + 1, L + 1 + Q):
        for c in range(S_):
            fixed[st, c] = (ctx.int("k_%d_%d" % (st - L, c), RUN, HALT), c, B,
                            ctx.int("n_%d_%d" % (st - L, c), 1, Q))
    # the run; new states are entered in order
    tape = dict((i if F == RIGHT else -i, s) for i, s in enumerate(w))
    pos, st, top, met, halts = (L - 1 if F == RIGHT else 1 - L), L + 1, 1, set(), False
    for _ in range(L + 2):
        c = tape.get(pos, 0)
        k, _, _, n = fixed[st, c]
        if (st, c) not in met:
            met.add((st, c))
            k = ctx.concrete(k)
            if k == RUN:
                ctx.assume(n <= top + 1)
                n = ctx.concrete(n)
                top = max(top, n)
            fixed[st, c] = (k, c, B, n)
        if k == HALT:
            halts = True
            break
        st = L + n
        pos += 1 if B == RIGHT else -1
    ctx.assume(halts)
    for (st, c), (k, a, d, n) in fixed.items():
        if st > L:
            if (st, c) not in met:      # unmet cells: keep going in the same state
                k, n = RUN, st - L
            fixed[st, c] = (k, a, d, n if k == HALT else L + n)
    spec = TMSpec(ctx, L + 1 + Q, S_, symbolic_write=False, kinds=(RUN, HALT), fixed=fixed)
    cut = L + after[ctx.choice("cut", len(after))]
    ask(ctx, spec, typ, block, 0, cut, backsym, halts)


def turn(ctx, typ, Q, steps, mirror, cuts, W, block=1, backsym=False):
    """Write a short word, then move over it in either direction until halting; new
    states are entered in order, the later states keep what they read (or add one)."""
    S_ = 3
    ws = [w for w in WORDS if len(w) == W]
    w = ws[ctx.choice("word", len(ws))]
    F, B = (LEFT, RIGHT) if mirror else (RIGHT, LEFT)
    fixed = {}
    for i, s in enumerate(w):
        for c in range(S_):
            fixed[i, c] = (UNDEF, 0, 0, 0)
        fixed[i, 0] = (RUN, s, F, i + 1)
    fixed[W, 0] = None
    tape = dict((i if F == RIGHT else -i, s) for i, s in enumerate(w))
    pos, st, top, met, halts = (W if F == RIGHT else -W), W, W, {}, False
    for i in range(steps):
        c = tape.get(pos, 0)
        if (st, c) not in met:
            t = "%d_%d" % (st - W, c)
            if i == steps - 1 or ctx.choice("k_" + t, 2):
                met[st, c] = (HALT, c, B, 0)
            else:
                n = W + ctx.choice("n_" + t, min(top - W + 2, Q))
                top = max(top, n)
                a = (c + ctx.choice("w_" + t, 2)) % S_ if st == W else c
                met[st, c] = (RUN, a, (F, B)[ctx.choice("d_" + t, 2)], n)
        k, a, d, n = met[st, c]
        if k == HALT:
            halts = True
            break
        tape[pos] = a
        pos += 1 if d == RIGHT else -1
        st = n
    ctx.assume(halts)
    for st in range(W, W + Q):
        for c in range(S_):             # unmet cells: keep going
            fixed[st, c] = met.get((st, c), (RUN, c, B, st))
    spec = TMSpec(ctx, W + Q, S_, symbolic_write=False, kinds=(RUN, HALT), fixed=fixed)
    ask(ctx, spec, typ, block, 0, W + cuts[ctx.choice("cut", len(cuts))], backsym, halts)


WORDS = [(1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (2, 0, 1)]


def known(ctx, fixed, typ, block, offset, cutoff, backsym):
    """Machines known to be provable: the filters do give proofs."""
    Q, S_ = size(fixed)
    spec = TMSpec(ctx, Q, S_, symbolic_write=False, fixed=decode(fixed))
    ask(ctx, spec, typ, block, offset, cutoff, backsym, False)


def cases(tier):
    q = tier == "quick"
    cs = []
    def add(h, name, need=(), **k):
        cs.append(Case(h, k, name=name, need=list(need)))
    B = [(1, 0, False), (1, 0, True), (2, 0, False), (2, 1, True)] + ([] if q else [(3, 1, True), (3, 2, False), (4, 0, True)])
    for t in TYPES:
        add("blank", "all_22_" + t, Q=2, S_=2, steps=8, tnf=1, typ=t, cutoffs=[0, 1, 3, 10], blocks=B, only_halting=False,
            need=["proof", "halts", "runs"])
        add("blank", "halting_32_" + t, Q=3, S_=2, steps=9 if q else 22, tnf=1, typ=t, cutoffs=[2, 5] if q else [0, 1, 2, 4, 8, 12],
            blocks=B[:2] if q else B, need=["halts"])
        add("blank", "halting_23_" + t, Q=2, S_=3, steps=9 if q else 30, tnf=1, typ=t, cutoffs=[2, 5] if q else [0, 1, 2, 4, 8, 12],
            blocks=B[:2] if q else B, need=["halts"])
        for mir in (0, 1):
            add("word", "word_%s_%d" % (t, mir), typ=t, Q=4, after=[1] if q else [0, 1, 2, 3], mirror=mir,
                lens=[[1, 3], [1, 2], [0, 1]] if q else [[1, 2, 3, 4], [1, 2, 3], [0, 1, 2]], need=["halts"])
        for mir in (0, 1):
            for W in (1, 2, 3):
                add("turn", "turn_%s_%d_w%d" % (t, mir, W), typ=t, Q=3, steps=6 if q else 10, mirror=mir,
                    cuts=[1] if q else [0, 1, 2, 3], W=W, need=["halts"])
    return cs
