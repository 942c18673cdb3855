"""What is recorded about a machine, and that it cannot be torn or stale."""
import contextlib
import io
import sys
import types

from bbv.runner import Case
from bbv import shim, sim as S
from bbv.proto import message, hex_
from bbv.shim import patched
from bbv.tm import TMSpec, decode, holes, RUN, HALT, UNDEF

INFO = {
    "functions": ["Halting_Lib.set_halting/set_not_halting/set_not_quasihalting/set_inf_recur/set_big_int/get_big_int",
                  "IO.TM_Record.TM_Record.is_*", "Macro_Simulator.run_timer/run_options/simulate_machine",
                  "Lin_Recur_Detect.filter, Reverse_Engineer_Filter, CTL_Filter.filter, CTL2 as run by run_options",
                  "IO_Categorize.categorize_record", "Enumerate.Enumerator.add_result/check_max_steps"],
    "bounds": "facts: every integer as steps and score, every state and symbol, given or not; recurrence: up to 4 states "
              "with every last-seen step, every set of recurrent states; histories of 2 recordings; simulator outcome: "
              "up to 3 loops (thorough 5), every loop and tape limit, every outcome and tape size after each loop; time-out: "
              "before every line of Macro_Simulator, Halting_Lib and the recording part of Lin_Recur_Detect and CTL_Filter, for machines "
              "of every verdict; run_options: every 2x2 machine and 3x2/2x3 machines in tree normal form at small limits, against an "
              "independent run",
    "outside": "elapsed times; a time-out inside a C call; whether the quasihalting of a repeat inside a macro step is exact "
               "(documented as approximate in the source)",
}


def sym(x):
    return type(x).__name__ in ("SymInt", "SymBool")


def record(ctx, pb):
    R = shim.load("IO.TM_Record")
    rec = R.TM_Record(proto=pb.TMRecord())
    if ctx.symbolic:
        try:
            rec.proto = message(ctx, pb.TMRecord)
        except AttributeError:
            object.__setattr__(rec, "proto", message(ctx, pb.TMRecord))
    return rec


def opt_int(ctx, name, lo, hi):
    return ctx.int(name, lo, hi) if ctx.bool(name + "_given") else None


BIG = 2**64 - 1


def facts(ctx, kind):
    """One recording (possibly over an earlier one), then what the record says."""
    H = shim.load("Halting_Lib")
    pb = shim.load("io_pb2")
    with patched(ctx, H, hex=hex_):
        rec = record(ctx, pb)
        st = rec.proto.status
        ctx.check(rec.is_unknown_halting() and rec.is_unknown_quasihalting(), "a fresh record is undecided")
        if kind == "halt":
            steps, score = ctx.int("steps"), None
            if ctx.bool("score_given"):
                score = ctx.int("score")
            q, c = opt_int(ctx, "q", 0, BIG), opt_int(ctx, "c", 0, BIG)
            H.set_halting(st, steps, score, q, c)
            hs = st.halt_status
            ctx.check(not rec.is_unknown_halting() and rec.is_halting(), "recorded as halting")
            ctx.check(H.get_big_int(hs.halt_steps) == steps, "steps of the halt")
            got = H.get_big_int(hs.halt_score)
            ctx.check((got is None) == (score is None), "score given or not")
            if score is not None:
                ctx.check(got == score, "score of the halt")
            ctx.check(hs.from_state == (0 if q is None else q), "halting state")
            ctx.check(hs.from_symbol == (0 if c is None else c), "halting symbol")
            ctx.check(not rec.is_unknown_quasihalting() and not rec.is_quasihalting(), "not quasihalting")
            ctx.note("halt")
        else:
            reason = ctx.int("reason", 0, 8)
            first = ctx.bool("recur_first")
            seen, ign = recur_args(ctx)
            if first:
                H.set_inf_recur(st, ign, seen)
                H.set_not_halting(st, reason)
            else:
                H.set_not_halting(st, reason)
                H.set_inf_recur(st, ign, seen)
            ctx.check(not rec.is_unknown_halting() and not rec.is_halting(), "recorded as running forever")
            ctx.check(st.halt_status.inf_reason == reason, "reason")
            ctx.check(H.get_big_int(st.halt_status.halt_steps) is None, "no halting steps for a machine that does not halt")
            quasi(ctx, H, rec, seen, ign)
        category(ctx, H, rec)


def recur_args(ctx):
    n = ctx.choice("nstates", 4)
    seen = {}
    # the states in the order they were first used
    for q in [range(n), range(n - 1, -1, -1)][ctx.choice("order", 2)]:
        if ctx.bool("seen%d" % q):
            seen[q] = ctx.int("t%d" % q, 0)
    ign = [q for q in range(n) if ctx.bool("in_cycle%d" % q)]
    t = ctx.choice("container", 3)
    ign = [ign, set(ign), tuple(ign)][t]
    none = ctx.choice("missing", 3)
    return (None if none == 1 else seen), (None if none == 2 else ign)


def quasi(ctx, H, rec, seen, ign):
    qs = rec.proto.status.quasihalt_status
    if seen is None or ign is None:
        ctx.check(rec.is_unknown_quasihalting(), "quasihalting unknown without the data")
        ctx.note("unk")
        return
    out = {q: t for q, t in seen.items() if q not in ign}
    ctx.check(not rec.is_unknown_quasihalting(), "quasihalting is decided")
    ctx.check(rec.is_quasihalting() == bool(out), "quasihalts iff some state is left for good")
    if out:
        got, q = H.get_big_int(qs.quasihalt_steps), ctx.concrete(qs.quasihalt_state)
        ctx.check(q in out, "the quasihalting state is left for good")
        ctx.check(got == out[q] + 1, "quasihalting step")
        for t in out.values():
            ctx.check(got >= t + 1, "the last state to be left")
        ctx.note("quasi")
    else:
        ctx.check(H.get_big_int(qs.quasihalt_steps) is None, "no quasihalting step")
        ctx.note("noquasi")


def category(ctx, H, rec):
    """Consumers of the status agree with it."""
    C = shim.load("IO_Categorize")
    st = rec.proto.status
    w = [v for k, v in vars(C).items() if isinstance(v, type) and hasattr(v, "categorize_record")]
    if w:
        obj = w[0].__new__(w[0])
        for n in ("num_written", "num_unknown", "num_halt_small", "num_halt_large", "num_halt_unk", "num_qhalt_small",
                  "num_qhalt_large", "num_qhalt_unk", "num_infinite"):
            setattr(obj, n, 0)
        got = obj.categorize_record(rec.proto)
        if not st.halt_status.is_decided:
            want = "unknown"
        elif st.halt_status.is_halting:
            want = size_name("halt", H.get_big_int(st.halt_status.halt_steps))
        elif st.quasihalt_status.is_quasihalting:
            want = size_name("qhalt", H.get_big_int(st.quasihalt_status.quasihalt_steps))
        else:
            want = "infinite"
        ctx.check(got == want, "category of the record")
        ctx.check(sum(v for k, v in vars(obj).items() if k.startswith("num_") and isinstance(v, int)) == 1, "counted once")
    E = shim.load("Enumerate")
    en = [v for k, v in vars(E).items() if isinstance(v, type) and hasattr(v, "add_result")]
    if en:
        obj = en[0].__new__(en[0])
        names = ("num_unknown", "num_halt", "num_inf_quasi_unknown", "num_quasihalt", "num_infinite")
        for n in names + ("tm_num",):
            setattr(obj, n, 0)
        obj.writer = types.SimpleNamespace(write_record=lambda r: obj.out.append(r))
        obj.out, obj.pushed = [], []
        obj.expand_undefined_transition = obj.pushed.append
        r2 = types.SimpleNamespace(proto=rec.proto, standardize_halt_trans=lambda: None,
                                   **{n: getattr(rec, n) for n in ("is_unknown_halting", "is_halting", "is_unknown_quasihalting",
                                                                   "is_quasihalting")})
        obj.add_result(r2)
        h, q = st.halt_status, st.quasihalt_status
        want = ("num_unknown" if not h.is_decided else "num_halt" if h.is_halting else "num_inf_quasi_unknown" if not q.is_decided
                else "num_quasihalt" if q.is_quasihalting else "num_infinite")
        ctx.check(all(getattr(obj, n) == (n == want) for n in names), "counted under its status")
        ctx.check(len(obj.out) == 1 and obj.tm_num == 1, "written once")
        ctx.check(bool(obj.pushed) == (want == "num_halt"), "exactly halting machines are expanded")


def size_name(p, n):
    if n is None:
        return p + ".unk"
    return p + (".small" if n < 1000 else ".large")


# -- the simulator's outcome ------------------------------------------------------

@contextlib.contextmanager
def swapped(*triples):
    """Replace attributes in both modes."""
    old = []
    try:
        for o, n, v in triples:
            old.append((o, n, o.__dict__[n]))
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old):
            setattr(o, n, v)


STEPS = [0, 1, 12345678901, 2**63 - 1, 2**63, 10**40]


def options(M, args):
    from optparse import OptionParser
    p = OptionParser()
    M.add_option_group(p)
    o, _ = p.parse_args(args)
    return o


def outcome(ctx, loops, args):
    """simulate_machine for every way a run of the simulator can go."""
    M = shim.load("Macro_Simulator")
    H = shim.load("Halting_Lib")
    T = shim.load("Macro.Turing_Machine")
    Sim = shim.load("Macro.Simulator")
    Tape = shim.load("Macro.Tape")
    pb = shim.load("io_pb2")
    R = shim.load("IO.TM_Record")
    opts = options(M, args)
    opts.max_loops = ctx.int("max_loops", 0)
    opts.tape_limit = ctx.int("tape_limit", 0, 2**40)
    ctx.assume(opts.max_loops <= loops)
    OPS = [T.RUNNING, T.HALT, T.UNDEFINED, T.GAVE_UP, T.INF_REPEAT]
    plan = []
    for i in range(loops):
        op = ctx.choice("op%d" % i, len(OPS))
        plan.append((op, ctx.int("size%d" % i, 0, 2**40)))
    size0 = ctx.int("size", 0, 2**40)
    ctx.assume(ctx.Or(opts.max_loops != 0, any(p[0] for p in plan), size0 > opts.tape_limit, *[p[1] > opts.tape_limit for p in plan]))
    nsteps = STEPS[ctx.choice("steps", len(STEPS))]
    score = ctx.int("score", 0, 2**70)
    q, c = ctx.int("q", 0, 5), ctx.int("c", 0, 5)
    reason = [pb.INF_MACRO_STEP, pb.INF_CHAIN_STEP, pb.INF_PROOF_SYSTEM][ctx.choice("reason", 3)]
    lose = ctx.bool("steps_lost")
    seen, ign = {0: 3, 1: 8}, [0]
    tracked = ctx.bool("tracked")
    state = {"i": 0}

    def step(self):
        i = state["i"]
        if i >= loops:
            ctx.fail("the simulation stops when it should")
        op = OPS[plan[i][0]]
        state["i"] = i + 1
        self.num_loops += 1
        self.op_state = op
        if self.compute_steps:
            self.step_num = nsteps
        if lose:
            # what a rule without a step count does to the simulator
            self.compute_steps = False
        if op == T.INF_REPEAT:
            self.inf_reason, self.inf_recur_states = reason, ign
        if op in (T.HALT, T.UNDEFINED):
            self.op_details = ((c, q),)
        self.states_last_seen = dict(seen) if tracked and self.compute_steps else None

    def csize(self):
        return size0 if state["i"] == 0 else plan[state["i"] - 1][1]
    machine = R.parse_tm("1RB1LB_1LA1RZ")
    si, st = message(ctx, pb.SimulatorInfo), message(ctx, pb.BBStatus)
    with swapped((Sim.Simulator, "step", step), (Sim.Simulator, "get_nonzeros", lambda self: score),
                 (Tape.Chain_Tape, "compressed_size", csize)), patched(ctx, H, hex=hex_):
        M.simulate_machine(machine, opts, si, st)
        n = state["i"]
        # when should it have stopped?
        for i in range(n + 1):
            size = size0 if i == 0 else plan[i - 1][1]
            go = ctx.And(ctx.Or(opts.max_loops == 0, i < opts.max_loops), i == 0 or plan[i - 1][0] == 0, size <= opts.tape_limit)
            if i < n:
                ctx.check(go, "the limits stop the simulation")
            else:
                ctx.check(ctx.Not(go), "the simulation goes on until a limit or an outcome")
        op = OPS[plan[n - 1][0]] if n else T.RUNNING
        size = size0 if n == 0 else plan[n - 1][1]
        hs, qs, u = st.halt_status, st.quasihalt_status, si.result
        over = size > opts.tape_limit
        ctx.check(si.result.num_loops == n, "loops counted")
        if op in (T.RUNNING, T.GAVE_UP):
            ctx.check(ctx.And(ctx.Not(hs.is_decided), ctx.Not(qs.is_decided)), "a run cut short is undecided")
            ctx.check(u.WhichOneof("exit_condition") == "unknown_info", "recorded as unknown")
            why = u.unknown_info.WhichOneof("reason")
            if over:
                ctx.check(why == "over_tape" or op == T.GAVE_UP, "over the tape limit")
                ctx.note("tape")
            elif op == T.RUNNING:
                ctx.check(why == "over_loops", "over the loop limit")
                ctx.note("loops")
            else:
                ctx.check(why == "over_steps_in_macro", "gave up in a macro step")
                ctx.note("gave_up")
            return
        if over and not hs.is_decided:
            ctx.check(ctx.Not(qs.is_decided), "a run cut short is undecided")
            ctx.check(u.unknown_info.WhichOneof("reason") == "over_tape", "over the tape limit")
            return
        ctx.check(hs.is_decided, "the outcome is recorded")
        have_steps = opts.compute_steps and not lose
        if op == T.INF_REPEAT:
            ctx.check(ctx.And(ctx.Not(hs.is_halting), hs.inf_reason == reason), "recorded as running forever")
            ctx.check(u.WhichOneof("exit_condition") == "infinite_info", "recorded as infinite")
            if tracked and have_steps:
                ctx.check(ctx.And(qs.is_decided, qs.is_quasihalting, qs.quasihalt_state == 1), "quasihalting state")
                ctx.check(H.get_big_int(qs.quasihalt_steps) == 9, "quasihalting step")
            else:
                ctx.check(ctx.Not(qs.is_decided), "quasihalting is unknown when the steps were not tracked")
            ctx.note("inf")
        else:
            ctx.check(hs.is_halting, "recorded as halting")
            ctx.check(u.WhichOneof("exit_condition") == "halt_info", "recorded as halting")
            got = H.get_big_int(hs.halt_steps)
            if have_steps:
                ctx.check(got == nsteps, "steps of the halt")
            else:
                ctx.check(got is None or got == 0, "no step count is recorded when the steps were not counted")
            ctx.check(H.get_big_int(hs.halt_score) == score, "score of the halt")
            ctx.check(ctx.And(hs.from_state == q, hs.from_symbol == c), "cell of the halt")
            ctx.note("halt")


def rules(ctx, n):
    """The real Simulator.step with every kind of answer of the proof system."""
    M = shim.load("Macro_Simulator")
    H = shim.load("Halting_Lib")
    P = shim.load("Macro.Proof_System")
    pb = shim.load("io_pb2")
    R = shim.load("IO.TM_Record")
    opts = options(M, ["--block-size=1"])
    plan = []
    for i in range(n):
        k = ctx.choice("answer%d" % i, 4)
        plan.append((k, ctx.int("steps%d" % i, 1, 10**6) if k == 1 else None,
                     ctx.bool("seen%d" % i) if k in (1, 3) else False, ctx.int("last%d" % i, 0, 10**6)))
        if k == 1:
            ctx.assume(plan[-1][3] < plan[-1][1])
    at = [0]

    def answer(self, tape, state, step_num, loop_num):
        i = at[0]
        at[0] += 1
        k, steps, seen, last = plan[i] if i < n else (0, None, False, 0)
        if k == 0:
            return P.ProverResult(P.NOTHING_TO_DO)
        if k == 3:
            return P.ProverResult(P.INF_REPEAT, states_last_seen={2: float("inf")} if seen else None)
        return P.ProverResult(P.APPLY_RULE, new_tape=tape.copy(), num_base_steps=steps, states_last_seen={0: last} if seen else None)
    machine = R.parse_tm("1RB1RZ_1RC1RZ_0RD1RZ_1RZ1RZ")
    si, st = message(ctx, pb.SimulatorInfo), message(ctx, pb.BBStatus)
    fake_math = types.SimpleNamespace(**{k: v for k, v in vars(__import__("math")).items() if not k.startswith("_")})
    fake_math.log10 = lambda x: 0 if sym(x) else __import__("math").log10(x)
    with swapped((P.Proof_System, "log_and_apply", answer)), patched(ctx, H, hex=hex_), patched(ctx, M, math=fake_math):
        M.simulate_machine(machine, opts, si, st)
        counted, tracked = True, True
        total, last, state = 0, {}, 0
        out = None
        for i in range(n + 5):
            k, steps, seen, l = plan[i] if i < n else (0, None, False, 0)
            if k == 3:
                out = seen
                break
            if k == 0:
                last[state] = total
                total = total + 1
                if state == 3:
                    break
                state += 1
            elif k == 1:
                if seen:
                    last[0] = total + l
                else:
                    tracked = False
                total = total + steps
            else:
                counted = tracked = False
        hs, qs = st.halt_status, st.quasihalt_status
        ctx.check(hs.is_decided, "the outcome is recorded")
        if out is None:
            ctx.check(hs.is_halting, "recorded as halting")
            got = H.get_big_int(hs.halt_steps)
            if counted:
                ctx.check(got == total, "steps of the halt")
            else:
                ctx.check(got is None or got == 0, "no step count is recorded when the steps were not counted")
            ctx.check(ctx.And(hs.from_state == 3, hs.from_symbol == 0), "cell of the halt")
            ctx.check(H.get_big_int(hs.halt_score) == 3, "score of the halt")
            ctx.note("halt" if counted else "nosteps")
        else:
            ctx.check(ctx.And(ctx.Not(hs.is_halting), hs.inf_reason == pb.INF_PROOF_SYSTEM), "recorded as running forever")
            if out and tracked:
                ctx.check(qs.is_decided, "quasihalting is decided")
                left = {q: t for q, t in last.items() if q != 2}
                ctx.check(bool(qs.is_quasihalting) == bool(left), "quasihalts iff a state is left for good")
                if left:
                    q = ctx.concrete(qs.quasihalt_state)
                    got = H.get_big_int(qs.quasihalt_steps)
                    ctx.check(q in left and got == left[q] + 1, "quasihalting step")
                    for t in left.values():
                        ctx.check(got >= t + 1, "the last state to be left")
                    ctx.note("quasi")
            else:
                ctx.check(ctx.Not(qs.is_decided), "quasihalting is unknown when the steps were not tracked")
                ctx.note("untracked")


# -- time-outs -------------------------------------------------------------------------

def truth(tm, limit=3000):
    """(halts, steps) by plain simulation; machines below are chosen so that the
    limit is far beyond their halting step."""
    table = decode(tm)
    tape, pos, q = {}, 0, 0
    for t in range(1, limit):
        k, w, d, n = table[q, tape.get(pos, 0)]
        if k != RUN:
            return True, t, (q, tape.get(pos, 0))
        tape[pos] = w
        pos += 1 if d else -1
        q = n
    return False, None, None


def alarm(ctx, tm, args, files):
    """run_timer with the alarm going off before any line of `files`."""
    M = shim.load("Macro_Simulator")
    A = shim.load("Alarm")
    H = shim.load("Halting_Lib")
    R = shim.load("IO.TM_Record")
    opts = options(M, args)
    rec = R.TM_Record(tm=R.parse_tm(tm)) if "tm" in R.TM_Record.__init__.__code__.co_varnames else None
    if rec is None:
        E = shim.load("TM_Enum")
        rec = R.TM_Record(tm_enum=E.TM_Enum(R.parse_tm(tm), allow_no_halt=False))
    k = ctx.int("at", 0)
    n = [0]
    fired = [False]
    on = [False]
    paths = tuple(shim.load(f).__file__ for f in files)

    def tick():
        if on[0] and not fired[0]:
            i = n[0]
            n[0] += 1
            if k == i:
                fired[0] = True
                raise A.AlarmException("Timeout!")

    def local(frame, event, arg):
        if event == "line":
            tick()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename in paths:
            return local(frame, "line", None) and local
        return None

    def set_alarm(self, t):
        on[0] = True

    def cancel(self):
        on[0] = False
    old = sys.gettrace()
    with swapped((A.Alarm, "set_alarm", set_alarm), (A.Alarm, "cancel_alarm", cancel)), contextlib.redirect_stdout(io.StringIO()):
        sys.settrace(tracer)
        try:
            M.run_timer(rec, opts, 15)
        finally:
            sys.settrace(old)
    if not fired[0]:
        ctx.note("all")     # every line was passed
        ctx.assume(k == n[0])
    halts, steps, cell = truth(tm)
    st = rec.proto.status
    if not rec.is_unknown_halting():
        ctx.check(bool(rec.is_halting()) == halts, "a time-out never changes the verdict")
        if halts:
            ctx.check(H.get_big_int(st.halt_status.halt_steps) == steps, "steps of the halt")
            ctx.check((st.halt_status.from_state, st.halt_status.from_symbol) == cell, "cell of the halt")
            if not rec.is_unknown_quasihalting():
                ctx.check(not rec.is_quasihalting(), "a halting machine is not quasihalting")
        else:
            ctx.check(st.halt_status.inf_reason != 0, "reason of an infinite machine")
        ctx.check(rec.proto.filter.simulator.result.WhichOneof("exit_condition") != "unknown_info",
                  "a decided machine is not recorded as timed out")
        ctx.note("decided")
    else:
        ctx.check(fired[0], "decided without a time-out")
        ctx.check(rec.proto.filter.simulator.result.unknown_info.WhichOneof("reason") == "over_time", "recorded as timed out")
        ctx.note("over_time")
    if not rec.is_unknown_quasihalting() and rec.is_quasihalting():
        ctx.check(H.get_big_int(st.quasihalt_status.quasihalt_steps) is not None, "quasihalting step recorded")


# -- the whole pipeline ---------------------------------------------------------------

def whole(ctx, Q, S_, args, tnf, limit, fixed=None, kinds=(RUN, UNDEF)):
    """run_options on every machine of a size, against a plain run."""
    M = shim.load("Macro_Simulator")
    H = shim.load("Halting_Lib")
    R = shim.load("IO.TM_Record")
    pb = shim.load("io_pb2")
    spec = TMSpec(ctx, Q, S_, symbolic_write=False, kinds=kinds, fixed=decode(fixed) if fixed else None)
    o = S.OracleRun(ctx, spec, tnf=tnf)
    if tnf:
        o.to(limit)
        spec.unmet(o.seen, "stop")
    m = spec.build()
    rec = types.SimpleNamespace(tm=lambda: m, proto=pb.TMRecord())
    opts = options(M, args)
    with contextlib.redirect_stdout(io.StringIO()):
        M.run_options(rec, opts)
    hs, qs = rec.proto.status.halt_status, rec.proto.status.quasihalt_status
    if not hs.is_decided:
        ctx.check(not qs.is_decided, "nothing recorded without a verdict")
        ctx.note("unknown")
        return
    if hs.is_halting:
        n = H.get_big_int(hs.halt_steps)
        o.to(n)
        ctx.check(o.end == n, "halting step")
        ctx.check(H.get_big_int(hs.halt_score) == S.nonzeros(ctx, o), "score at the halt")
        ctx.check((hs.from_symbol, hs.from_state) == o.cell, "cell that halts")
        ctx.check(qs.is_decided and not qs.is_quasihalting, "a halting machine is recorded as not quasihalting")
        ctx.note("halt")
        return
    ctx.note(str(hs.inf_reason))
    ctx.check(o.to(limit), "a machine that halts is recorded as running forever")
    if qs.is_decided and qs.is_quasihalting and hs.inf_reason != pb.INF_MACRO_STEP:
        n, q = H.get_big_int(qs.quasihalt_steps), qs.quasihalt_state
        if n <= limit:
            ctx.check(o.last.get(q) == n - 1, "the state is last seen just before the quasihalting step")
        ctx.note("quasi")


MACHINES = {
    "halt": "1RB1LB_1LA1RZ", "halt5": "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", "halt3": "1RB1RZ_0RC1RB_1LC1LA",
    "lr": "1RB0LA_0RC1LA_1RC1LB", "rev": "1RB1LB_1LA0RA", "ctl": "1RB0RB_1LC1RZ_0LA1RC", "quasi": "1RB0LB_1LA0RB",
}


def cases(tier):
    q = tier == "quick"
    cs = [Case("facts", {"kind": "halt"}, name="facts.halt", need=["halt"]),
          Case("facts", {"kind": "inf"}, name="facts.inf", need=["quasi", "noquasi", "unk"])]
    for nm, a in (("", []), (".no_steps", ["--no-steps"]), (".no_prover", ["--no-prover"]), (".exp", ["--exp-linear-rules", "--recursive"])):
        cs.append(Case("outcome", {"loops": (2 if a or q else 3), "args": a}, name="outcome" + nm,
                       need=["halt", "inf", "loops", "tape", "gave_up"]))
    cs.append(Case("rules", {"n": 4 if q else 5}, name="rules", need=["halt", "nosteps", "quasi", "untracked"]))
    files = ["Macro_Simulator", "Halting_Lib"]
    sim_only = ["--lin-steps=0", "--no-ctl", "--no-reverse-engineer", "--block-size=1", "--max-loops=60"]
    for nm, tm, a, fs in (
            ("sim_halt", "1RB1LB_1LA1RZ", sim_only, files),
            ("sim_halt3", "1RB1RZ_0RC1RB_1LC1LA", sim_only, files),
            ("sim_inf", "1RB1RZ_1LB0LA", sim_only, files),
            ("lin_halt", "1RB1LB_1LA1RZ", [], files + ["Lin_Recur_Detect"]),
            ("lin_inf", "1RB0LA_0RC1LA_1RC1RZ", ["--no-reverse-engineer", "--lin-steps=15"], files + ["Lin_Recur_Detect"]),
            ("rev", "1RB1LB_1LA0RA", [], files),
            ("ctl", "1RB1RZ_1LB0LA", ["--no-reverse-engineer", "--lin-steps=0", "--block-size=1", "--max-loops=200"], files + ["CTL_Filter"])):
        cs.append(Case("alarm", {"tm": tm, "args": a, "files": fs}, name="alarm." + nm, need=["decided", "over_time", "all"]))
    W = lambda nm, Q, S_, a, need, **k: cs.append(Case("whole", dict(Q=Q, S_=S_, args=a, **k), name="whole." + nm, need=need))
    W("22", 2, 2, ["--lin-steps=6", "--max-loops=40", "--block-size=1"], ["halt"], tnf=0, limit=60)
    W("22h", 2, 2, ["--max-loops=100"], ["halt"], tnf=0, limit=60, kinds=(RUN, HALT))
    W("22b", 2, 2, ["--lin-steps=0", "--no-ctl", "--max-loops=30", "--no-backsymbol", "--block-size=1"], ["halt"], tnf=0, limit=60)
    W("32", 3, 2, ["--lin-steps=7", "--max-loops=40", "--block-size=2"], ["halt"], tnf=1, limit=20)
    W("32s", 3, 2, ["--lin-steps=0", "--no-ctl", "--no-reverse-engineer", "--max-loops=25", "--block-size=1"], ["halt"], tnf=1, limit=20)
    W("23", 2, 3, ["--lin-steps=7", "--max-loops=200"], ["halt"], tnf=1, limit=20)
    return cs
