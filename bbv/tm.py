"""Symbolic Turing machines.

A TMSpec declares, for every cell (state, symbol) of a transition table, a kind
(run / halt / undefined), a written symbol, a direction and a next state, all of
them inputs of the harness.  build() makes a real Simple_Machine out of it: in
concrete mode with the repo's own constructor from quintuples, in symbolic mode
with a table whose cells fork lazily, when the code under test looks at them.
"""
from . import shim

RUN, HALT, UNDEF = 0, 1, 2
LEFT, RIGHT = 0, 1


class TMSpec:
    def __init__(self, ctx, nstates, nsyms, kinds=(RUN, HALT, UNDEF), name="t",
                 symbolic_write=True, fixed=None, a0_runs_right=False):
        """fixed: {(s, c): (kind, w, d, n)} concrete cells."""
        self.ctx = ctx
        self.Q, self.S = nstates, nsyms
        self.symbolic_write = symbolic_write
        self.cells = {}
        fixed = fixed or {}
        self.kinds = kinds
        for s in range(nstates):
            for c in range(nsyms):
                if (s, c) in fixed:
                    self.cells[s, c] = tuple(fixed[s, c])
                    continue
                p = "%s_%d_%d" % (name, s, c)
                if len(kinds) == 1:
                    k = kinds[0]
                else:
                    k = ctx.int(p + "_k", 0, 2)
                    for bad in (RUN, HALT, UNDEF):
                        if bad not in kinds:
                            ctx.assume(k != bad)
                self.cells[s, c] = (k, ctx.int(p + "_w", 0, nsyms - 1),
                                    ctx.int(p + "_d", 0, 1),
                                    ctx.int(p + "_n", 0, nstates - 1))
        self.lazy = False   # fields of unmet cells fork one by one
        self._eff = {}
        self._got = {}

    def unmet(self, seen, rest, bound=99, fixed=()):
        """Restrict the cells a run did not meet: halting cells are 1RZ or
        undefined (alternating); 'stop': all of them halt, 'run': all of them
        run in one way, 'any': no further restriction when at most `bound` of
        them are open."""
        ctx = self.ctx
        self.lazy = True
        cells = [x for x in self.cells if x not in seen and x not in fixed]
        for i, (s, c) in enumerate(cells):
            k, w, d, n = self.cells[s, c]
            ctx.assume(k != (HALT if (s + c) % 2 else UNDEF))
            ctx.assume(ctx.implies(k == HALT, ctx.And(w == 1, d == RIGHT)))
            if rest == "stop" or rest == "any" and i >= bound:
                ctx.assume(k != RUN)
            elif rest == "run":
                ctx.assume(ctx.And(k == RUN, n == self.Q - 1 - s, w == 0))

    # -- oracle view -------------------------------------------------------
    def cell(self, s, c):
        """Effective (kind, write, dir, next) of a concrete cell; halting and
        undefined cells have next == -1, undefined ones act as 1RH."""
        if (s, c) not in self._eff:
            k, w, d, n = self.cells[s, c]
            k = self.ctx.concrete(k)
            if k == UNDEF:
                r = (k, 1, RIGHT, -1)
            elif k == HALT:
                r = (k, w, d, -1)
            else:
                r = (k, w, d, n)
            self._eff[s, c] = r
        return self._eff[s, c]

    def get(self, s, c):
        """Oracle lookup with a possibly symbolic symbol: kind, dir and next are
        concrete ints (forked), write may be symbolic."""
        ctx = self.ctx
        c = ctx.known(c) if self.symbolic_write else ctx.concrete(c)
        if isinstance(c, int):
            r = self._got.get((s, c))
            if r is None:
                k, w, d, n = self.cell(s, c)
                r = self._got[s, c] = (k, w, ctx.concrete(d), ctx.concrete(n))
            return r
        def sel(i):
            r = None
            for v in range(self.S):
                k, w, d, n = self.cells[s, v]
                x = (k, ctx.ite(k == UNDEF, 1, w),
                     ctx.ite(k == UNDEF, RIGHT, d), ctx.ite(k == RUN, n, -1))[i]
                r = x if r is None else ctx.ite(c == v, x, r)
            return r
        k = ctx.concrete(sel(0))
        return k, sel(1), ctx.concrete(sel(2)), ctx.concrete(sel(3))

    # -- the real machine ----------------------------------------------------
    def build(self):
        T = shim.load("Macro.Turing_Machine")
        states = list(range(self.Q))
        syms = list(range(self.S))
        if not self.ctx.symbolic:
            quints = []
            for (s, c), (k, w, d, n) in self.cells.items():
                if k == RUN:
                    quints.append((s, c, w, d, n))
                elif k == HALT:
                    quints.append((s, c, w, d, -1))
            return T.tm_from_quintuples(quints, states, syms)
        Lazy, Row = _classes(T)
        table = [Row([Lazy(self, s, c) for c in syms], self, s) for s in states]
        return T.Simple_Machine(table, states, syms)

    def quint_str(self):
        """Standard text of the (concrete) machine."""
        rows = []
        for s in range(self.Q):
            r = ""
            for c in range(self.S):
                k, w, d, n = self.cells[s, c]
                if k == UNDEF:
                    r += "---"
                elif k == HALT:
                    r += "%d%sZ" % (w, "LR"[d])
                else:
                    r += "%d%s%s" % (w, "LR"[d], "ABCDEFGHIJ"[n])
            rows.append(r)
        return "_".join(rows)


_cache = {}


def _classes(T):
    if id(T) in _cache:
        return _cache[id(T)]
    conds = None

    class LazyTrans(T.Transition):
        """A Transition whose fields fork when first read."""

        def __init__(self, spec, s, c):
            object.__setattr__(self, "_spec", spec)
            object.__setattr__(self, "_at", (s, c))

        def __deepcopy__(self, memo):
            t = LazyTrans(*((object.__getattribute__(self, "_spec"),) + object.__getattribute__(self, "_at")))
            for k, v in self.__dict__.items():
                if k not in ("_spec", "_at"):
                    object.__setattr__(t, k, dict(v) if type(v) is dict else list(v) if type(v) is list else v)
            return t

        def __getattr__(self, name):
            spec = object.__getattribute__(self, "_spec")
            s, c = object.__getattribute__(self, "_at")
            if spec.lazy and name in ("condition", "symbol_out", "dir_out", "state_out"):
                # each field on its own, the direction left symbolic
                k, w, d, n = spec.cell(s, c)
                if name == "condition":
                    v = {RUN: T.RUNNING, HALT: T.HALT, UNDEF: T.UNDEFINED}[k]
                elif name == "symbol_out":
                    v = spec.ctx.concrete(w)
                elif name == "state_out":
                    v = T.Simple_Machine_State(spec.ctx.concrete(n))
                else:
                    v = spec.ctx.known(d)
                object.__setattr__(self, name, v)
                return v
            k, w, d, n = spec.get(s, c)
            if not spec.symbolic_write:
                w = spec.ctx.concrete(w)
            if name == "condition":
                v = {RUN: T.RUNNING, HALT: T.HALT, UNDEF: T.UNDEFINED}[k]
            elif name == "condition_details":
                v = [] if k == RUN else [(c, s)]
            elif name == "symbol_out":
                v = w
            elif name == "dir_out":
                v = d
            elif name == "state_out":
                v = T.Simple_Machine_State(n)
            elif name == "num_base_steps":
                v = 1
            elif name == "states_last_seen":
                v = {s: 0}
            else:
                raise AttributeError(name)
            object.__setattr__(self, name, v)
            return v

    class Row(list):
        def __init__(self, cells, spec, s):
            super().__init__(cells)
            self._spec, self._s = spec, s

        def __deepcopy__(self, memo):
            import copy
            return Row([copy.deepcopy(t, memo) for t in self], self._spec, self._s)

        def __getitem__(self, i):
            from .engine import SymInt
            if type(i) is SymInt:
                i = (self._spec.ctx.known(i) if self._spec.symbolic_write
                     else int(i))
            if type(i) is SymInt:
                return LazyTrans(self._spec, self._s, i)
            return super().__getitem__(i)

    _cache[id(T)] = (LazyTrans, Row)
    return LazyTrans, Row


def step_oracle(spec, tape, pos, state):
    """One step on a dict tape (missing cells are blank).  Returns
    (kind, pos, state)."""
    k, w, d, n = spec.get(state, tape.get(pos, 0))
    tape[pos] = w
    return k, pos + (1 if d == RIGHT else -1), n


def decode(s):
    """Fixed cells of a machine in standard text; '???' cells are left open."""
    fixed = {}
    for st, row in enumerate(s.split("_")):
        for c in range(len(row) // 3):
            t = row[3 * c:3 * c + 3]
            if t == "???":
                continue
            if t == "---":
                fixed[st, c] = (UNDEF, 0, 0, 0)
            elif t[2] in "ZH":
                fixed[st, c] = (HALT, int(t[0]), "LR".index(t[1]), 0)
            else:
                fixed[st, c] = (RUN, int(t[0]), "LR".index(t[1]), ord(t[2]) - 65)
    return fixed


def size(s):
    rows = s.split("_")
    return len(rows), len(rows[0]) // 3


def holes(tm, cells):
    rows = [[r[i:i + 3] for i in range(0, len(r), 3)] for r in tm.split("_")]
    for s, c in cells:
        rows[s][c] = "???"
    return "_".join("".join(r) for r in rows)
