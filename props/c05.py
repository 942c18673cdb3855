"""Every rule the prover accepts is true: run the machine from the rule's start."""
import math
from bbv.runner import Case
from bbv import shim, sim as S
from bbv.tm import TMSpec, decode, size, holes, RUN, HALT, UNDEF, LEFT, RIGHT
from props.c03 import OPTS, FAMOUS

INFO = {
    "functions": ["Proof_System.log_and_apply/prove_rule/add_rule/strip_config", "Past_Config.log_config",
                  "Simulator.step (symbolic run lengths)", "Chain_Tape", "Algebraic_Expression",
                  "Block_Macro_Machine", "Backsymbol_Macro_Machine"],
    "bounds": "machines: all 2-state 2-symbol ones, 3x2 and 2x3 in tree normal form, champions "
              "and counters with one (thorough: two) cells open; blocks 1..3, back-symbol on and "
              "off; options default, recursive, limited, linear. Every rule proven in the first "
              "80-200 loops is checked for every run length at or above its minimum (unbounded, symbolic) "
              "when it is a basic rule, and for lengths minimum..minimum+2 of each run when it was proven "
              "with other rules (its number of steps is then unbounded)",
    "outside": "rules first proven later, larger machines; rules found on runs longer than 2^20",
}


def norm(half):
    """Runs of a half tape (blank end first): empty runs dropped, equal neighbours joined."""
    out = []
    for s, n in half:
        if n != 0:
            if out and out[-1][0] == s:
                m = out[-1][1]
                out[-1] = (s, m if type(m) is float else n if type(n) is float else m + n)
            else:
                out.append((s, n))
    return out


def runs(h):
    return [(b.symbol, b.num) for b in h]


def verify(ctx, rule, state, dir, machine, opts, delta, limit, PS, A, TP, Sm, T, boundary=False):
    atmin = False
    if isinstance(rule, (PS.Diff_Rule, PS.Limited_Diff_Rule)):
        meta = getattr(rule, "is_meta_rule", False)
        init = [[(b.symbol, b.num) for b in h] for h in rule.initial_tape.tape]
        diff = [[b.num for b in h] for h in rule.diff_tape.tape]
        sub, start, end = {}, [[], []], [[], []]
        i = 0
        for side in (0, 1):
            for (s, n), d in zip(init[side], diff[side]):
                if isinstance(n, A.Expression):
                    x = n.variable_restricted()
                    v = ctx.choice("x%d" % i, delta) if meta else ctx.int("x%d" % i, 0)
                    i += 1
                    sub[x] = v
                    n = n.const + v
                start[side].append((s, n))
                end[side].append((s, n if type(n) is float else n + d))
        if isinstance(rule, PS.Limited_Diff_Rule):
            for side in (0, 1):
                # whatever lies further out
                if type(start[side][0][1]) is not float:
                    out = [s for s in ctx_symbols(machine, start) if s != start[side][0][0]]
                    s = out[ctx.choice("o%d" % side, len(out))] if out else machine.init_symbol
                    k = ctx.int("ok%d" % side, 1)
                    blank = machine.init_symbol
                    pre = [(blank, math.inf), (s, k)] if s != blank else [(blank, math.inf)]
                    start[side] = pre + start[side]
                    end[side] = pre + end[side]
            ctx.note("limited")
    else:
        # what is proven with the help of other rules takes an unbounded number
        # of simulator steps
        meta = True
        sub, start, end = {}, [[], []], [[], []]
        g = getattr(rule, "gen_rule", rule)
        vals = []
        for i, (var, mn, s) in enumerate(zip(rule.var_list, g.min_list, rule.block_list)):
            if var is not None:
                k = ctx.choice("x%d" % i, delta)
                atmin = atmin or k == 0
                v = mn + k
                sub[var] = v
                vals.append(v)
            else:
                vals.append(mn)
        for i, (s, v, e) in enumerate(zip(rule.block_list, vals, g.result_list)):
            side = 0 if i < rule.left_size else 1
            start[side].append((s, v))
            end[side].append((s, v if type(v) is float else A.substitute(e, sub)))
    # the real simulator, no prover
    o = Sm.create_default_options()
    for k, v in opts.items():
        setattr(o, k, v)
    o.prover = False
    sim = Sm.Simulator(machine, o)
    t = TP.Chain_Tape()
    t.init(machine.init_symbol, dir, o)
    for side in (0, 1):
        t.tape[side] = [TP.Repeated_Symbol(s, n) for s, n in norm(start[side])]
    sim.tape, sim.state, sim.dir = t, state, dir
    target = A.substitute(rule.num_steps, sub)
    if not meta:
        ctx.check(target > 0, "a rule takes at least one step")
    n = 0
    while sim.step_num < target:
        sim.step()
        if sim.op_state != T.RUNNING:
            ctx.fail("the machine stops on the way through an accepted rule")
        n += 1
        if n > limit:
            ctx.note("long")
            return
    ctx.check(sim.step_num == target, "the rule's number of steps")
    ctx.check(sim.dir == dir and sim.tape.dir == dir, "direction after the rule")
    ctx.check(sim.state == state, "state after the rule")
    for side in (0, 1):
        a, b = norm(runs(sim.tape.tape[side])), norm(end[side])
        if [x[0] for x in a] != [x[0] for x in b]:
            ctx.fail("the tape after the rule")
        for (_, p), (_, q) in zip(a, b):
            ctx.check(p == q, "run length after the rule")
    # last use: with the runs at the very minimum of a rule proven with the help
    # of other rules it can be wrong (see known_findings.json, case boundary_*)
    if rule.states_last_seen and (not atmin or boundary or isinstance(rule, (PS.Diff_Rule, PS.Limited_Diff_Rule))):
        ctx.check(set(sim.states_last_seen) == set(rule.states_last_seen), "states used by the rule")
        for s, e in rule.states_last_seen.items():
            ctx.check(sim.states_last_seen[s] == A.substitute(e, sub), "last use of a state")
    ctx.note("meta" if meta else "basic")
    ctx.note(type(rule).__name__)


def ctx_symbols(machine, start):
    """All (macro) symbols that can lie outside: the base machine's symbols or
    those on the tape and the blank."""
    out = [machine.init_symbol]
    for h in start:
        for s, _ in h:
            if s not in out:
                out.append(s)
    return out


def rules(ctx, Q, S_, block, backsym, opts, loops, tnf, fixed=None, delta=3, limit=3000, maxrules=12, boundary=False):
    T = shim.load("Macro.Turing_Machine")
    Sm = shim.load("Macro.Simulator")
    PS = shim.load("Macro.Proof_System")
    A = shim.load("Algebraic_Expression")
    TP = shim.load("Macro.Tape")
    spec = TMSpec(ctx, Q, S_, symbolic_write=False, kinds=(RUN, UNDEF),
                  fixed=decode(fixed) if fixed else None)
    if tnf:
        S.OracleRun(ctx, spec, tnf=True).to(tnf)
    m = S.make_machine(spec, block, backsym, 0)
    o = Sm.create_default_options()
    for k, v in OPTS[opts].items():
        setattr(o, k, v)
    sim = Sm.Simulator(m, o)
    for _ in range(loops):
        sim.step()
        if sim.op_state != T.RUNNING or not sim.compute_steps:
            break
    found = []
    for key, r in sim.prover.rules.items():
        if isinstance(r, list):
            found += [(x, key[1], key[2]) for x in r if key[0] == 0]
        else:
            found.append((r, key[0], key[1]))
    if not found:
        ctx.note("none")
        return
    found = found[-maxrules:]
    rule, state, dir = found[ctx.choice("rule", len(found))]
    verify(ctx, rule, state, dir, m, OPTS[opts], delta, limit, PS, A, TP, Sm, T, boundary)


# more machines whose behaviour is governed by rules of several kinds
EXTRA = [
    "1RB0LA_1LC0RB_1RA1LC",
    "1RB1LA_0LA0RB",
    "1RB2LB1LA_2LA2RB0RA",
    "1RB0LB_1LA1RC_0RA---",
    "1RB1LE_1LC1RD_1LB1RC_1LA1RZ_0RB0LE",
    "1RB1RF_0LC1LE_1RD0LB_1LB0RC_1RA0LA_---0RB",
]


# (machine, block, back-symbol, options, loops until rules of further kinds appear)
META = [
    ("1RB1LA_1RC0LE_1RD1LC_1LA0RF_1RD0LA_1RZ0RE", 1, True, "linear", 160),
    ("1RB0RA_1LC0LA_1LA1LB", 1, False, "linear", 40),
    ("1RB1RB_1LC1LE_1LA1LB_1RE1LD_1RZ0RA", 1, False, "recursive", 45),
    ("1RB0LC_0LC1RA_1RA1LB_1LB1RZ", 1, False, "linear", 45),
    ("1RB1RC_0RC1RZ_0RD0LA_1LC1LD", 1, True, "recursive", 45),
    ("1RB1LA_1LC0RA_1LA1LD_1LB0LE_1RZ0LA", 1, False, "linear", 45),
    ("1RB1RC_1LC0LB_1RA0RB", 1, False, "recursive", 45),
    ("1RB1RA_1LC1LB_1RA0LD_1LA1LC", 2, False, "recursive", 55),
    ("1RB---_1RC1LC_0RD1LC_1LD0LB", 1, True, "recursive", 60),
    ("1RB0RD_1LC0LA_1LD1LB_1RA0LC", 2, True, "recursive", 60),
    ("1RB1LA1RZ_2LA2LB1RB", 1, True, "linear", 60),
    ("1RB0LE_1LC1RA_1LD1LC_1RE1RZ_1RD1LA", 2, True, "linear", 60),
    ("1RB2LA1RA_2LA1RZ2RB", 1, True, "linear", 65),
    ("1RB0LB_0RC1RB_1LD1RC_1LA1LD", 1, True, "recursive", 65),
    ("1RB0LC_1RC0LB_1RD1RZ_0LB0RA", 1, False, "recursive", 30),
    ("1RB1LA_1RC1LB_1LA0LD_1RZ0RB", 1, True, "linear", 30),
    ("1RB0LB_1LC1LB_0RD1RC_1LA0RD_1RZ0RA", 1, True, "linear", 30),
    ("1RB1LC_1LB1LA_1RA0RC", 1, True, "linear", 30),
    ("1RB1LD_0RC0RB_1LD1RB_1LE1RZ_0RB1LE", 1, False, "recursive", 30),
    ("1RB1RC_1LC1LB_0RD0LC_1RA0RD", 2, False, "recursive", 60),
]


def cases(tier):
    q = tier == "quick"
    cs = []
    def add(name, **k):
        cs.append(Case("rules", k, name=name))
    for b, bs in ((1, False), (1, True), (2, False), (2, True)) if q else \
            ((1, False), (1, True), (2, False), (2, True), (3, False), (3, True)):
        for o in ("prover", "recursive", "limited"):
            add("all_22_b%d%s_%s" % (b, "bs" if bs else "", o), Q=2, S_=2, block=b, backsym=bs, opts=o, loops=60,
                tnf=0)
            if b == 1 or not q and not bs:
                add("tnf_32_b%d%s_%s" % (b, "bs" if bs else "", o), Q=3, S_=2, block=b, backsym=bs, opts=o,
                    loops=80, tnf=60)
                add("tnf_23_b%d%s_%s" % (b, "bs" if bs else "", o), Q=2, S_=3, block=b, backsym=bs, opts=o,
                    loops=80, tnf=60)
    ms = FAMOUS + EXTRA
    for j, tm in enumerate(ms):
        Q, S_ = size(tm)
        cells = [(s, c) for s in range(Q) for c in range(S_)][1:]
        confs = [(1, False, "recursive"), (1, True, "recursive"), (2, True, "linear"), (3, False, "recursive"),
                 (1, False, "limited"), (2, False, "limited")]
        for i, (b, bs, o) in enumerate(confs):
            add("full_%s_b%d%s_%s" % (tm, b, "bs" if bs else "", o), Q=Q, S_=S_, block=b, backsym=bs, opts=o,
                loops=400 if q else 2000, tnf=0, fixed=tm)
            for x in range(len(cells)):
                f = holes(tm, [cells[x]] if q else [cells[x], cells[(x + 3) % len(cells)]])
                add("hole_%s_b%d%s_%s" % (f, b, "bs" if bs else "", o), Q=Q, S_=S_, block=b, backsym=bs, opts=o,
                    loops=150 if q else 300, tnf=0, fixed=f)
    for j, (tm, b, bs, o, n) in enumerate(META):
        Q, S_ = size(tm)
        cells = [(s, c) for s in range(Q) for c in range(S_)][1:]
        add("meta_%s_b%d%s_%s" % (tm, b, "bs" if bs else "", o), Q=Q, S_=S_, block=b, backsym=bs, opts=o,
            loops=n + 10 if q else 8 * n, tnf=0, fixed=tm, delta=3 if q else 5, limit=4000 if q else 20000)
        for x in range(len(cells)):
            f = holes(tm, [cells[x]] if q else [cells[x], cells[(x + 2) % len(cells)]])
            add("mhole_%s_b%d%s_%s" % (f, b, "bs" if bs else "", o), Q=Q, S_=S_, block=b, backsym=bs, opts=o,
                loops=n + 10 if q else 3 * n, tnf=0, fixed=f, delta=2 if q else 3)
    tm = "1RB1LB_1LC1RZ_0LD0LC_1RC0LE_1RE1RF_1LD0RA"
    add("boundary_" + tm, Q=6, S_=2, block=1, backsym=False, opts="linear", loops=180, tnf=0, fixed=tm, delta=3,
        maxrules=1, boundary=True)
    return cs
