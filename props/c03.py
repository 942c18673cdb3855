"""Accelerated simulator (Code/Macro/Simulator.py) against plain simulation."""
import math
from bbv.runner import Case
from bbv import shim
from bbv.tm import decode, holes, TMSpec, RUN, HALT, UNDEF, LEFT, RIGHT
from bbv import sim as S

INFO = {
    "functions": ["Simulator.Simulator.__init__/step/seek/loop_seek/get_nonzeros",
                  "Tape.Chain_Tape.*", "Turing_Machine.sim_limited",
                  "Turing_Machine.Block_Macro_Machine", "Turing_Machine.Backsymbol_Macro_Machine",
                  "Proof_System.Proof_System.log_and_apply and the rules it proves and applies"],
    "bounds": "(a) one accelerated step from an arbitrary compressed tape (<= 2 finite runs per "
              "side, run lengths unbounded) with an arbitrary transition (symbol, state, side, "
              "step count >= 1, last-use steps unbounded); (b) whole runs from the blank tape of "
              "every machine with 2 states/2 symbols, and of every machine in normal-form order "
              "with 3/2 and 2/3, block sizes 1..3, both back-symbol settings, every offset, "
              "prover off / on / recursive, up to 110 base steps (more than any halting machine of "
              "these sizes runs, so a claim to run forever is checked exactly); quick uses fewer "
              "option sets for 3/2 and 2/3",
    "outside": "larger machines, longer runs, and --exp-linear-rules runs end to end (their rule "
               "application is decided under C04/C06)",
}


def mk_mock(ctx, T, trans, init):
    class Mock(T.Turing_Machine):
        num_states, num_symbols = 3, 3
        init_symbol, init_dir = 0, RIGHT
        init_state = T.Simple_Machine_State(0)
        trans_table = {}

        def get_trans_object(self, sym, state, dir):
            self.asked = (sym, state, dir)
            return trans

        def eval_symbol(self, s):
            return ctx.ite(s != 0, 1, 0)

        def eval_state(self, s):
            return 0

        def list_base_states(self):
            return [0, 1, 2]
    return Mock()


def step(ctx, nl, nr):
    """One Simulator.step() with an arbitrary transition, prover off."""
    import props.c02 as c02
    T = shim.load("Macro.Turing_Machine")
    Tp = shim.load("Macro.Tape")
    Sm = shim.load("Macro.Simulator")
    cond = (T.RUNNING, T.HALT, T.UNDEFINED, T.GAVE_UP, T.INF_REPEAT)[
        ctx.choice("cond", 5)]
    st = ctx.choice("state", 2)
    st_out = ctx.choice("state_out", 2) if cond != T.HALT else -1
    d = ctx.choice("dir", 2)
    d_out = ctx.choice("dir_out", 2)
    w = ctx.int("w", 0, 2)
    k = ctx.int("k", 1)
    seen = {}
    for s in range(2):
        if ctx.choice("saw%d" % s, 2):
            seen[s] = ctx.int("seen%d" % s, 0)
            ctx.assume(seen[s] < k)
    trans = T.Transition(condition=cond, symbol_out=w,
                         state_out=T.Simple_Machine_State(st_out), dir_out=d_out,
                         num_base_steps=k, states_last_seen=dict(seen),
                         condition_details=[(0, 0)])
    opt = Sm.create_default_options()
    opt.prover = False
    m = mk_mock(ctx, T, trans, st)
    sim = Sm.Simulator(m, opt)
    sim.state = T.Simple_Machine_State(st)
    sim.dir = d
    sim.tape = c02.mk_tape(ctx, Tp, nl, nr, 3, d)
    t0 = ctx.int("t0", 0)
    sim.step_num = t0
    old = {s: ctx.int("old%d" % s, 0) for s in range(3)}
    for s in old:
        ctx.assume(old[s] <= t0)
    sim.states_last_seen = dict(old)
    before = c02.snap(ctx, sim.tape, Tp, 0)
    i = ctx.int("i", 0)
    sim.step()
    after = c02.snap(ctx, sim.tape, Tp, 0)
    top = before[d][0] if before[d] else (0, None)
    ctx.check(m.asked[0] == top[0], "the symbol under the head is looked up")
    ctx.check(m.asked[1] == st and m.asked[2] == d, "in the current state and direction")
    ctx.check(sim.num_loops == 1, "one loop counted")
    at = c02.at
    chain = cond == T.RUNNING and st == st_out and d == d_out
    if chain and not before[d]:
        ctx.check(sim.op_state == T.INF_REPEAT, "runs over the blank end forever")
        ctx.note("chain_inf")
        return
    ctx.check(sim.op_state == cond, "condition")
    if cond in (T.INF_REPEAT, T.GAVE_UP):
        ctx.check(sim.step_num == t0, "no step counted")
        for s in old:
            ctx.check(sim.states_last_seen[s] == old[s], "no state counted as used")
        for side in (0, 1):
            ctx.check(at(ctx, after[side], 0, i) == at(ctx, before[side], 0, i),
                      "tape untouched")
        ctx.note("stop")
        return
    n = top[1] if chain else 1
    ctx.check(sim.step_num == t0 + k * n, "number of base steps")
    for s in old:
        if s in seen:
            ctx.check(sim.states_last_seen[s] == t0 + k * (n - 1) + seen[s],
                      "last use of a state the transition uses")
        else:
            ctx.check(sim.states_last_seen[s] == old[s],
                      "last use of another state")
    ctx.check(sim.state == st_out and sim.dir == d_out and sim.tape.dir == d_out,
              "state and direction")
    for side in (0, 1):
        new = at(ctx, after[side], 0, i)
        if d == d_out:
            if side == d:
                exp = at(ctx, before[side], 0, i + n)
            else:
                exp = ctx.ite(i < n, w, at(ctx, before[side], 0, i - n))
        else:
            exp = at(ctx, before[side], 0, i)
            if side == d:
                exp = ctx.ite(i == 0, w, exp)
        ctx.check(new == exp, "tape contents")
    nz = 0
    for side in after:
        for s, c in side:
            nz = nz + ctx.ite(s != 0, c, 0)
    ctx.check(sim.get_nonzeros() == nz, "non-blank count")
    ctx.note("chain" if chain else "single")


OPTS = {
    "plain": dict(prover=False),
    "prover": dict(prover=True),
    "recursive": dict(prover=True, recursive=True),
    "limited": dict(prover=True, limited_rules=True),
    "nosteps": dict(prover=True, compute_steps=False),
    "linear": dict(prover=True, recursive=True, exp_linear_rules=True,
                   exp_meta_linear_rules=True),
}


def run(ctx, Q, S_, block, backsym, offset, opts, limit, loops, tnf, fixed=None,
        kinds=(RUN, HALT, UNDEF)):
    T = shim.load("Macro.Turing_Machine")
    Sm = shim.load("Macro.Simulator")
    spec = TMSpec(ctx, Q, S_, kinds=tuple(kinds), symbolic_write=False,
                  fixed=decode(fixed) if fixed else None)
    orun = S.OracleRun(ctx, spec, tnf=tnf)
    m = S.make_machine(spec, block, backsym, offset)
    o = Sm.create_default_options()
    for k, v in OPTS[opts].items():
        setattr(o, k, v)
    if tnf:
        # fix the whole (bounded) behaviour first, so that the normal form
        # restriction sees the cells in the order of the run
        orun.to(limit)
        full = orun
        orun = S.OracleRun(ctx, spec)
    sim = Sm.Simulator(m, o)
    follow(ctx, T, sim, orun, spec, backsym, limit, loops)


def follow(ctx, T, sim, orun, spec, backsym, limit, loops):
    for _ in range(loops):
        sim.step()
        if sim.op_state == T.INF_REPEAT:
            orun.to(limit)
            ctx.check(orun.end is None, "reported as running forever but halts")
            ctx.note("inf")
            return
        if sim.op_state == T.GAVE_UP:
            ctx.note("gave_up")
            return
        steps = sim.compute_steps
        if steps:
            if sim.step_num > limit:
                ctx.note("limit")
                return
            n = sim.step_num
            if not orun.to(n):
                ctx.fail("the machine halts before the step the simulator is at")
        if sim.op_state == T.RUNNING:
            if not steps:
                continue
            ctx.check(orun.end is None, "the machine has halted but is reported running")
            S.compare(ctx, sim, orun, backsym)
        else:
            if not steps:
                orun.to(limit)
            ctx.check(orun.end is not None, "reported to halt, but runs")
            ctx.check((sim.op_state == T.UNDEFINED) == (orun.kind == UNDEF),
                      "undefined and halting transitions told apart")
            c, s = orun.cell
            ctx.check(sim.op_details[0][0] == c and sim.op_details[0][1] == s,
                      "the cell that halted")
            L, R = S.sides(sim, backsym)
            S.same(ctx, S.trim(L[::-1] + R), S.trim(orun.cells()),
                   "tape contents at the halt")
        if steps:
            if sim.states_last_seen is not None:
                ctx.check(set(sim.states_last_seen) == set(orun.last),
                          "the states used so far")
                for s, t in orun.last.items():
                    ctx.check(sim.states_last_seen[s] == t, "last use of a state")
        ctx.check(sim.get_nonzeros() == S.nonzeros(ctx, orun) if steps or
                  sim.op_state != T.RUNNING else True, "non-blank count")
        if sim.op_state != T.RUNNING:
            ctx.note("halt")
            return
    ctx.note("loops")


# Machines rich in rules (busy beaver champions and the like); each case leaves
# one or two cells of one of them open.
FAMOUS = [
    "1RB1LB_1LA0LC_1RZ1LD_1RD0RA",
    "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA",
    "1RB2LB1RZ_2LA2RB1LB",
    "1RB2LA1RA1RA_1LB1LA3RB1RZ",
    "1RB1RC_1LC1RZ_1RA0LD_1LA0LB",
    "1RB2LA1RA_1LB1LA2RC_1RZ1LC2RB",
    "1RB1RZ_1LC0RD_1LA1LB_0RE0RD_1RB0RC",
    "1RB0LD_1LC0RE_1LA1LD_0LC1RZ_1RA0RE",
]


def cases(tier):
    q = tier == "quick"
    cs = []
    for nl in range(3):
        for nr in range(3):
            cs.append(Case("step", {"nl": nl, "nr": nr}, name="step_%d_%d" % (nl, nr)))
    confs = [(1, False, 0), (1, True, 0), (2, False, 0), (2, False, 1), (2, True, 0),
             (2, True, 1), (3, False, 0), (3, False, 1), (3, True, 0), (3, True, 1),
             (3, False, 2), (3, True, 2)]
    def add(Q, S_, b, bs, off, o, limit, loops, tnf, **k):
        cs.append(Case("run", dict(Q=Q, S_=S_, block=b, backsym=bs, offset=off, opts=o,
                                   limit=limit, loops=loops, tnf=tnf, **k),
                       name="run_%d%d_b%d%s_o%d_%s%s" % (
                           Q, S_, b, "bs" if bs else "", off, o,
                           "_" + k["fixed"] if "fixed" in k else "")))
    for b, bs, off in confs:
        for o in ("plain", "prover", "recursive"):
            if q and o == "recursive" and b == 3:
                continue
            add(2, 2, b, bs, off, o, 40, 60, False)
    big = [(1, False, 0, "recursive"), (1, True, 0, "recursive"),
           (2, False, 1, "prover"), (2, True, 0, "prover")]
    if not q:
        big += [(3, True, 1, "prover"), (1, False, 0, "limited"),
                (1, False, 0, "linear"), (2, True, 1, "recursive"),
                (1, True, 0, "nosteps"), (1, False, 0, "plain"), (3, False, 0, "linear")]
    for i, (b, bs, off, o) in enumerate(big):
        if not q or i in (0, 3):
            add(3, 2, b, bs, off, o, 110, 80, True)
        if not q or i in (1, 2):
            add(2, 3, b, bs, off, o, 110, 80, True)
    for tm in FAMOUS:
        rows = tm.split("_")
        Q, S_ = len(rows), len(rows[0]) // 3
        cells = [(s, c) for s in range(Q) for c in range(S_)]
        for b, bs, off, o in ((1, False, 0, "recursive"), (1, True, 0, "prover"),
                              (2, False, 0, "recursive"), (3, True, 1, "recursive")):
            for i, x in enumerate(cells):
                if x == (0, 0):
                    continue
                open_ = [x]
                if not q:
                    open_.append(cells[(i + 1) % len(cells)])
                add(Q, S_, b, bs, off, o, 400 if q else 3000, 200 if q else 600, False,
                    fixed=holes(tm, open_))
    return cs
