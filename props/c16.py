"""TM_Enum.enum_children and the enumeration loop: children of a partial machine
are exactly its fills up to renaming of unused names; a run of the enumerator
writes exactly one record standing for each machine."""
import io
import os
import tempfile
import types

from bbv.runner import Case
from bbv import shim
from bbv.tm import TMSpec, RUN, HALT, UNDEF, LEFT, RIGHT

INFO = {
    "functions": ["TM_Enum.blank_tm_enum/TM_Enum.enum_children/set_trans/set_halt_trans",
                  "Enumerate.Enumerator.continue_enum/add_result/expand_undefined_transition/enum_initial_tms",
                  "TM_Record.update_tm/write_tm/read_tm/standardize_halt_trans",
                  "Work_Queue.Basic_LIFO_Work_Queue/Basic_FIFO_Work_Queue"],
    "bounds": "fill: every partial machine of sizes up to 3x3 and 4x2, 5x2, 2x4 (thorough 7x2, 2x7, 4x3) whose used names "
              "are a prefix, every reachable undefined cell, every fill, both halting policies; tree: every "
              "normal-form target machine of 2x2, 3x2, 2x3, 4x2, 3x3 for a bounded number of steps, with and "
              "without the fixed first step, stack, queue and random order, with and without a limit on the number of "
              "machines run",
    "outside": "larger machines; the verdict given to a node by the simulator (C11, C21), replaced in the tree "
               "cases by a plain bounded run; output files",
}


def eager(ctx, cells, Q, S):
    """A Simple_Machine with symbolic fields (kinds are concrete)."""
    T = shim.load("Macro.Turing_Machine")
    q = []
    m = T.tm_from_quintuples([(s, c, 0, 1, 0) for (s, c), v in cells.items() if v[0] == RUN]
                             + [(s, c, 1, 1, -1) for (s, c), v in cells.items() if v[0] == HALT],
                             list(range(Q)), list(range(S)))
    for (s, c), (k, w, d, n) in cells.items():
        if k == RUN:
            t = m.trans_table[s][c]
            t.symbol_out, t.dir_out, t.state_out = w, d, T.Simple_Machine_State(n) if isinstance(n, int) and not ctx.symbolic else n
    return m


def fill(ctx, Q, S, halves=None):
    E = shim.load("TM_Enum")
    T = shim.load("Macro.Turing_Machine")
    allow = ctx.bool("allow")
    allow = True if allow else False
    cells = {}
    s0, c0 = ctx.choice("s0", Q), ctx.choice("c0", S)
    nund = 0
    order = [(s, c) for s in range(Q) for c in range(S)]
    # which cells are defined: all subsets for small sizes; for larger ones a
    # prefix in one of two orders
    if halves is None:
        for x in order:
            if x == (s0, c0):
                k = UNDEF
            else:
                k = RUN if ctx.bool("k_%d_%d" % x) else UNDEF
            nund += k == UNDEF
            cells[x] = k
    else:
        rest = [x for x in order if x != (s0, c0)]
        if ctx.bool("rev"):
            rest.reverse()
        j = ctx.choice("ndef", len(rest) + 1)
        for i, x in enumerate(rest):
            cells[x] = RUN if i < j else UNDEF
        cells[s0, c0] = UNDEF
        nund = len(rest) - j + 1
    M = ctx.int("M", 0, Q - 1)
    K = ctx.int("K", 0, S - 1)
    full = {}
    ns, ws = [0], [0]
    for x, k in cells.items():
        if k == UNDEF:
            full[x] = (UNDEF, 0, 0, 0)
            continue
        p = "t_%d_%d" % x
        w, d, n = ctx.int(p + "_w", 0, S - 1), ctx.int(p + "_d", 0, 1), ctx.int(p + "_n", 0, Q - 1)
        ctx.assume(ctx.And(w <= K, n <= M))
        full[x] = (RUN, w, d, n)
        ns.append(n)
        ws.append(w)
    # the names in use are exactly 0..M and 0..K
    for v in range(Q):
        ctx.assume(ctx.implies(M >= v, ctx.Or(*[n == v for n in ns])))
    for v in range(S):
        ctx.assume(ctx.implies(K >= v, ctx.Or(*[w == v for w in ws])))
    ctx.assume(ctx.And(s0 <= M, c0 <= K))
    first = nund == Q * S
    if first:
        ctx.assume(s0 == 0)
        ctx.assume(c0 == 0)
    P = eager(ctx, full, Q, S)
    parent = E.TM_Enum(P, allow_no_halt=allow)
    kids = list(parent.enum_children(s0, c0))
    # an arbitrary fill, and its normal form
    fw, fd, fn = ctx.int("fw", 0, S - 1), ctx.int("fd", 0, 1), ctx.int("fn", 0, Q - 1)
    hits = 0
    w1 = ctx.ite(fw > K, K + 1, fw)
    n1 = ctx.ite(fn > M, M + 1, fn)
    d1 = RIGHT if first else fd
    for kid in kids:
        ctx.check(kid is not parent and kid.tm is not P, "children are new machines")
        ctx.check(kid.allow_no_halt == allow, "the halting policy is inherited")
        ctx.check(kid.tm.num_states == Q and kid.tm.num_symbols == S, "size of a child")
        for x in order:
            t = kid.tm.trans_table[x[0]][x[1]]
            o = P.trans_table[x[0]][x[1]]
            ctx.check(t is not o, "children do not share cells with the parent")
            if x == (s0, c0):
                ctx.check(t.condition == T.RUNNING, "the cell is filled")
                ctx.check(t.num_base_steps == 1 and list(t.states_last_seen.items()) == [(s0, 0)],
                          "cost of the filled cell")
                continue
            k, w, d, n = full[x]
            ctx.check(t.condition == (T.RUNNING if k == RUN else T.UNDEFINED), "other cells keep their kind")
            if k == RUN:
                ctx.check(ctx.And(t.symbol_out == w, t.dir_out == d, t.state_out == n),
                          "other cells are unchanged")
        t = kid.tm.get_trans_object(state_in=s0, symbol_in=c0)
        hits = hits + ctx.ite(ctx.And(t.symbol_out == w1, t.dir_out == d1, t.state_out == n1), 1, 0)
        # every child is in normal form
        ctx.check(ctx.And(t.symbol_out >= 0, t.symbol_out < S, t.state_out >= 0, t.state_out < Q,
                          t.symbol_out <= K + 1, t.state_out <= M + 1), "a child introduces names in order")
        if first:
            ctx.check(t.dir_out == RIGHT, "the first step goes right")
    if nund == 1 and not allow:
        ctx.check(len(kids) == 0, "the last cell must halt")
        ctx.note("last")
    else:
        ctx.check(hits == 1, "exactly one child stands for the fill")
        ctx.note("fill")
    # the parent is as it was
    for x in order:
        o = P.trans_table[x[0]][x[1]]
        k, w, d, n = full[x]
        ctx.check(o.condition == (T.RUNNING if k == RUN else T.UNDEFINED), "the parent's cells keep their kind")
        if k == RUN:
            ctx.check(ctx.And(o.symbol_out == w, o.dir_out == d, o.state_out == n), "the parent is unchanged")
    if kids and not ctx.symbolic:
        pass


class Target:
    """The target machine, met cell by cell in normal-form order."""

    def __init__(self, ctx, spec, allow):
        self.ctx, self.spec, self.allow = ctx, spec, allow
        self.maxs = self.maxc = 0
        self.seen = {}

    def cell(self, s, c):
        ctx = self.ctx
        if (s, c) not in self.seen:
            k, w, d, n = self.spec.cells[s, c]
            if ctx.concrete(k) == RUN:
                ctx.assume(ctx.And(n <= self.maxs + 1, w <= self.maxc + 1))
                if not self.seen:
                    ctx.assume(d == RIGHT)
                w, d, n = ctx.concrete(w), ctx.concrete(d), ctx.concrete(n)
                self.maxs, self.maxc = max(self.maxs, n), max(self.maxc, w)
                self.seen[s, c] = (RUN, w, d, n)
            else:
                self.seen[s, c] = (HALT, 1, RIGHT, -1)
        return self.seen[s, c]


def stands(T, tgt, node, steps):
    """'no': the node is not the target up to renaming on this run; 'undef': it is
    and its run meets an undefined cell; 'halt': both halt; 'run': neither stops."""
    smap, cmap = {0: 0}, {0: 0}          # target name -> node name
    tape, pos, s = {}, 0, 0              # of the target
    mir = None
    for _ in range(steps):
        c = tape.get(pos, 0)
        t = node.trans_table[smap[s]][cmap[c]]
        if t.condition == T.UNDEFINED:
            return "undef", smap[s], cmap[c]
        k, w, d, n = tgt.cell(s, c)
        if t.condition == T.HALT:
            return ("halt" if k == HALT else "no"), smap[s], cmap[c]
        if k == HALT:
            return "no", None, None
        if mir is None:
            mir = t.dir_out != d
        if (t.dir_out != d) != mir:
            return "no", None, None
        for a, b, m in ((w, t.symbol_out, cmap), (n, int(t.state_out), smap)):
            if a in m:
                if m[a] != b:
                    return "no", None, None
            elif b in m.values():
                return "no", None, None
            else:
                m[a] = b
        tape[pos] = w
        pos += 1 if d == RIGHT else -1
        s = n
    return "run", None, None


def plain(T, node, steps):
    tape, pos, s = {}, 0, 0
    for _ in range(steps):
        c = tape.get(pos, 0)
        t = node.trans_table[s][c]
        if t.condition != T.RUNNING:
            return s, c
        tape[pos] = t.symbol_out
        pos += 1 if t.dir_out == RIGHT else -1
        s = int(t.state_out)
    return None


class Sink:
    def __init__(self):
        self.out = []

    def write_record(self, r):
        import io_pb2
        p = io_pb2.TMRecord()
        p.ParseFromString(r.proto.SerializeToString())
        self.out.append(p)

    def flush(self):
        pass


# (machines without a halt too, fixed first step, queue order, limit on machines, random order, continued from a file)
MODES = [(False, True, False, 0, 0, 0), (True, False, True, 0, 0, 0), (False, False, False, 2, 0, 0),
         (True, True, True, 2, 0, 0), (False, False, False, 2, 1, 1), (True, True, False, 3, 0, 1)]


def tree(ctx, Q, S, steps, modes=(0, 1, 2, 3)):
    En = shim.load("Enumerate")
    T = shim.load("Macro.Turing_Machine")
    W = shim.load("Work_Queue")
    H = shim.load("Halting_Lib")
    R = shim.load("IO.TM_Record")
    IO = shim.load("IO")
    allow, first, fifo, num, rnd, cont = MODES[modes[ctx.choice("mode", len(modes))]]
    spec = TMSpec(ctx, Q, S, kinds=(RUN, HALT), symbolic_write=False)
    ks = [v[0] for v in spec.cells.values()]
    if not allow:
        ctx.assume(ctx.Or(*[k == HALT for k in ks]))
    if first:
        k, w, d, n = spec.cells[0, 0]
        ctx.assume(ctx.And(k == RUN, w != 0, n != 0))
    tgt = Target(ctx, spec, allow)
    opts = types.SimpleNamespace(save_freq=1000, randomize=bool(rnd), seed=7, num_enum=num, debug_print_current=False,
                                 infilename=None, states=Q, symbols=S, first_1rb=first, allow_no_halt=allow,
                                 time=0)
    base = W.Basic_FIFO_Work_Queue if fifo else W.Basic_LIFO_Work_Queue

    class Queue(base):
        def push_jobs(self, jobs):
            # only the branch of the target is followed
            super().push_jobs([j for j in jobs if stands(T, tgt, j.tm(), steps)[0] != "no"])

    sink = Sink()

    class Enum(En.Enumerator):
        def run(self, rec):
            at = plain(T, rec.tm(), steps)
            if at is not None:
                H.set_halting(rec.proto.status, steps, 0, at[0], at[1])

        def save(self):
            pass

    def go():
        e = Enum(opts, Queue(), sink, None if fifo else io.StringIO())
        for rec in En.enum_initial_tms(opts):
            e.stack.push_job(rec)
            e.continue_enum()
        return e
    e = go()
    if cont:
        # the machines left over are the input of a second run
        ctx.check(e.tm_num == len(sink.out), "machines are counted as written")
        done, left = [], []
        for p in sink.out:
            (left if R.TM_Record(proto=p).is_unknown_halting() else done).append(p)
        with tempfile.TemporaryDirectory(prefix="bbv") as d:
            f = os.path.join(d, "in.pb")
            with IO.Proto.Writer(f) as w:
                for p in left:
                    w.write_record(R.TM_Record(proto=p))
            opts.infilename, opts.num_enum = f, 0
            sink.out = []
            e = go()
        ctx.check(e.tm_num == len(sink.out), "machines are counted as written")
        ctx.note("continued")
        sink.out = done + sink.out
        e.tm_num = len(sink.out)
    mine = []
    for p in sink.out:
        m = R.TM_Record(proto=p)
        if not m.is_unknown_halting():
            ctx.check(m.is_halting(), "verdict of a record")
            r = stands(T, tgt, m.tm(), steps + 1)
            ctx.check(r[0] != "undef", "a halting record halts explicitly")
            if r[0] == "halt":
                mine.append(p)
                ctx.note("halt")
        else:
            r = stands(T, tgt, m.tm(), steps)
            if r[0] != "no":
                mine.append(p)
                ctx.note("rest")
    ctx.check(len(mine) == 1, "exactly one written record stands for each machine")
    ctx.check(e.tm_num == len(sink.out), "machines are counted as written")


def cases(tier):
    q = tier == "quick"
    cs = []
    for Q, S in [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3)]:
        if Q * S <= 8 and not q or Q * S <= 6:
            cs.append(Case("fill", dict(Q=Q, S=S), name="fill_%d%d" % (Q, S), need=["fill", "last"]))
    for Q, S in [(4, 2), (3, 3), (2, 4), (5, 2)] + ([] if q else [(4, 3), (7, 2), (2, 7), (6, 2)]):
        cs.append(Case("fill", dict(Q=Q, S=S, halves=1), name="fillp_%d%d" % (Q, S), need=["fill", "last"]))
    for Q, S, n in ([(2, 2, 10), (3, 2, 6), (2, 3, 6), (4, 2, 4), (3, 3, 4)] if q else
                    [(2, 2, 30), (3, 2, 16), (2, 3, 14), (4, 2, 10), (3, 3, 8), (5, 2, 8)]):
        cs.append(Case("tree", dict(Q=Q, S=S, steps=n), name="tree_%d%d" % (Q, S), need=["halt", "rest"]))
    for Q, S, n in [(2, 2, 10), (3, 2, 5), (2, 3, 5)] if q else [(2, 2, 30), (3, 2, 12), (2, 3, 10), (4, 2, 8), (3, 3, 7)]:
        cs.append(Case("tree", dict(Q=Q, S=S, steps=n, modes=[4, 5]), name="cont_%d%d" % (Q, S),
                       need=["halt", "rest", "continued"]))
    return cs
