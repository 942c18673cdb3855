"""Saving and loading machines and integers."""
import io
import os
import shutil
import tempfile
import types
import zipfile

from bbv.runner import Case
from bbv import shim
from bbv.proto import message
from bbv.shim import patched
from bbv.tm import RUN, HALT, UNDEF, LEFT, RIGHT
from props.c16 import eager

INFO = {
    "functions": ["TM_Record.pack_trans_ints/unpack_trans_ints/pack_trans/pack_tm/unpack_tm/tm_to_list/tm_from_list/"
                  "write_tm/read_tm/parse_tm", "TM_Record.TM_Record (update_tm, tm_enum, standardize_halt_trans)",
                  "Turing_Machine.tm_from_quintuples/ttable_str/to_ttable_str", "StdText.Writer/Reader",
                  "Proto.Writer/Reader", "OldText.display_ttable", "Morphett.Writer/Reader", "BBC.unpack_tm/Reader",
                  "Halting_Lib.set_big_int/get_big_int/serialize_exp_int/parse_exp_int"],
    "bounds": "records: every size from 1x2 to 7x7, and 8x2, 9x3, 2x8, 3x9, 26x2, 2x12, 30x4: every symbol and next "
              "state in every running or halting cell at once (directions open in two cells), ten patterns of undefined and halting cells; text, Morphett and "
              "files: sizes up to 24x9, one cell of each at a time over all its contents; bbchallenge bytes: every "
              "machine by patterns of kinds; integers: every integer, formula integers up to two levels and two terms",
    "outside": "the serialization inside the protobuf, pickle, gzip and zip libraries (in the symbolic record cases the "
               "message is replaced by one that keeps its fields and refuses values outside their range; "
               "replays and the file cases use the real one); sizes the text format cannot write (25 states or 10 symbols and more)",
}


# -- stand-ins for protobuf messages ---------------------------------------------

class Bad(Exception):
    pass


class SList(list):
    """list(range(n)) whose index() accepts symbolic integers."""

    def index(self, x, *a):
        if type(x).__name__ == "SymInt":
            if (x >= 0) & (x < len(self)):
                return x
            raise ValueError("not in list")
        return list.index(self, x, *a)


def slist(*a):
    r = list(*a)
    return SList(r) if r == list(range(len(r))) else r


class SBytes(list):
    def __init__(self, x=()):
        if isinstance(x, int):
            x = [0] * x
        super().__init__(x)
        for v in self:
            self._chk(v)

    @staticmethod
    def _chk(v):
        if not ((v >= 0) & (v < 256) if type(v).__name__ == "SymInt" else 0 <= v < 256):
            raise ValueError("byte must be in range(0, 256)")

    def __setitem__(self, i, v):
        self._chk(v)
        list.__setitem__(self, i, v)


class Ints(list):
    """A repeated sint32 field."""

    def append(self, v):
        if not ((v >= -2**31) & (v < 2**31) if type(v).__name__ == "SymInt" else -2**31 <= v < 2**31):
            raise ValueError("out of range")
        list.append(self, v)


class FakeList:
    def __init__(self, owner):
        self.owner = owner
        self.Clear()

    def Clear(self):
        self.num_states = self.num_symbols = 0
        self.ttable_list = Ints()

    def __setattr__(self, k, v):
        if k in ("num_states", "num_symbols") and v:
            self.owner._set("ttable_list")
        object.__setattr__(self, k, v)


class FakeTM:
    """message TuringMachine"""

    def __init__(self):
        self._which = None
        self.allow_no_halt = False

    def _set(self, k):
        if self._which != k:
            self.__dict__.pop("ttable_packed", None)
            self._which = k

    def WhichOneof(self, name):
        assert name == "ttable"
        return self._which

    @property
    def ttable_list(self):
        if self._which != "ttable_list":
            self.__dict__["_list"] = FakeList(self)
        return self._list

    def __setattr__(self, k, v):
        if k in ("ttable_packed", "ttable_str"):
            self._set(k)
        object.__setattr__(self, k, v)


class FakeRecord:
    def __init__(self):
        self.tm = FakeTM()
        h = types.SimpleNamespace(is_decided=False, is_halting=False, from_state=0, from_symbol=0)
        self.status = types.SimpleNamespace(halt_status=h)


def same(ctx, m, full, Q, S, what):
    T = shim.load("Macro.Turing_Machine")
    ctx.check((m.num_states, m.num_symbols) == (Q, S), what + ": size")
    ctx.check(len(m.trans_table) == Q and all(len(r) == S for r in m.trans_table), what + ": shape of the table")
    for (s, c), (k, w, d, n) in full.items():
        t = m.trans_table[s][c]
        kind = {T.RUNNING: RUN, T.HALT: HALT, T.UNDEFINED: UNDEF}.get(t.condition)
        ctx.check(kind == k, what + ": kind of a cell")
        if k == RUN:
            ctx.check(ctx.And(t.symbol_out == w, t.dir_out == d, t.state_out == n), what + ": a running cell")
        elif k == HALT:
            ctx.check(ctx.And(t.symbol_out == w, t.dir_out == d, t.state_out == -1), what + ": a halting cell")
        else:
            ctx.check(ctx.And(t.symbol_out == 1, t.dir_out == RIGHT, t.state_out == -1), what + ": an undefined cell")
        if k != RUN:
            ctx.check(list(t.condition_details) == [(c, s)], what + ": the cell a halt is reported from")
        ctx.check(t.num_base_steps == 1, what + ": a step counts once")


def pattern(p, s, c, Q, S):
    """Kind of a cell in pattern p."""
    last = (s, c) == (Q - 1, S - 1)
    return [RUN, UNDEF, RUN if not last else HALT, HALT if s == 0 else RUN, UNDEF if s == Q - 1 else RUN,
            UNDEF if c == 0 else RUN, UNDEF if c == S - 1 else HALT, (s + c) % 3, (2 * s + c + 1) % 3,
            UNDEF if s == 0 else RUN if (s * S + c) % 2 else HALT][p]


NPAT = 10


def sym_machine(ctx, Q, S, p):
    full = {}
    for s in range(Q):
        for c in range(S):
            k = pattern(p, s, c, Q, S)
            if k == UNDEF:
                full[s, c] = (UNDEF, 1, RIGHT, -1)
                continue
            x = "t_%d_%d" % (s, c)
            # membership tests on the direction fork: only some cells leave it open
            d = (s + c + p) % 2 if (s, c) not in ((0, S - 1), (Q - 1, 0)) else ctx.int(x + "_d", 0, 1)
            full[s, c] = (k, ctx.int(x + "_w", 0, S - 1), d,
                          ctx.int(x + "_n", 0, Q - 1) if k == RUN else -1)
    m = eager(ctx, full, Q, S)
    for (s, c), (k, w, d, n) in full.items():
        if k == HALT:
            m.trans_table[s][c].symbol_out, m.trans_table[s][c].dir_out = w, d
    return full, m


def record(ctx, sizes):
    R = shim.load("IO.TM_Record")
    T = shim.load("Macro.Turing_Machine")
    E = shim.load("TM_Enum")
    Q, S = sizes[ctx.choice("size", len(sizes))]
    p = ctx.choice("pattern", NPAT)
    allow = True if ctx.bool("allow") else False
    twice = True if ctx.bool("twice") else False
    full, m = sym_machine(ctx, Q, S, p)
    pb = R.io_pb2
    fake = types.SimpleNamespace(TMRecord=FakeRecord, TMList=None, TuringMachine=FakeTM)
    real_state = T.Simple_Machine_State

    def state(x):
        return x if type(x).__name__ == "SymInt" else real_state(x)

    with patched(ctx, R, bytearray=SBytes, bytes=lambda x: x if type(x) is SBytes else SBytes(x), list=slist,
                 io_pb2=fake), patched(ctx, T, Simple_Machine_State=state):
        rec = R.TM_Record(tm_enum=E.TM_Enum(m, allow_no_halt=allow))
        if twice:
            rec.update_tm(rec.tm_enum())
        same(ctx, m, full, Q, S, "the machine that was saved")
        same(ctx, reread(ctx, R, rec).tm(), full, Q, S, "read back")
        ctx.check(bool(reread(ctx, R, rec).tm_enum().allow_no_halt) == allow, "whether machines without a halt are allowed")
        ctx.note("rec")
        und = [x for x in full if full[x][0] == UNDEF]
        if und:
            # halting at an undefined cell, then saved as an explicit halt
            s, c = und[-1 if twice else 0]
            rec2 = reread(ctx, R, rec) if twice else rec
            h = rec2.proto.status.halt_status
            h.is_decided = h.is_halting = True
            h.from_state, h.from_symbol = s, c
            rec2.standardize_halt_trans()
            full[s, c] = (HALT, 1, RIGHT, -1)
            if S > 1:
                same(ctx, reread(ctx, R, rec2).tm(), full, Q, S, "with the halting cell made explicit")
                ctx.note("halt")


def reread(ctx, R, rec):
    if ctx.symbolic:
        r = R.TM_Record(proto=rec.proto)
        return r
    p = R.io_pb2.TMRecord()
    p.ParseFromString(rec.proto.SerializeToString())
    return R.TM_Record(proto=p)


def trans(ctx):
    R = shim.load("IO.TM_Record")
    w, n = ctx.int("w", -1, 6), ctx.int("n", -1, 6)
    d, nr = ctx.int("d", 0, 1), ctx.int("new", 0, 1)
    b = R.pack_trans_ints(w, d, n, nr)
    ctx.check(ctx.And(b >= 0, b < 256), "fits a byte")
    w2, d2, n2, nr2 = R.unpack_trans_ints(b)
    ctx.check(ctx.And(w2 == w, d2 == d, n2 == n), "cell read back")
    ctx.check((1 if nr2 else 0) == nr, "row mark read back")
    # two different cells never get the same byte
    w3, n3, d3, r3 = ctx.int("w3", -1, 6), ctx.int("n3", -1, 6), ctx.int("d3", 0, 1), ctx.int("new3", 0, 1)
    b3 = R.pack_trans_ints(w3, d3, n3, r3)
    ctx.check(ctx.implies(b == b3, ctx.And(w == w3, n == n3, d == d3, nr == r3)), "different cells get different bytes")


# -- text ------------------------------------------------------------------------

def open_cell(ctx, Q, S, p):
    """A concrete machine but for one cell with every content."""
    full = {}
    cells = [(s, c) for s in range(Q) for c in range(S)]
    at = sorted({0, len(cells) - 1, len(cells) // 2, S - 1})
    at = cells[at[ctx.choice("at", len(at))]]
    for s, c in cells:
        k = pattern(p, s, c, Q, S)
        w, d, n = (s * 3 + c * 5 + p) % S, (s + c + p) % 2, (s * 5 + c * 7 + p) % Q
        if (s, c) == at:
            k = ctx.concrete(ctx.int("k", 0, 2))
            if k != UNDEF:
                w, d = ctx.concrete(ctx.int("w", 0, S - 1)), ctx.concrete(ctx.int("d", 0, 1))
            if k == RUN:
                n = ctx.concrete(ctx.int("n", 0, Q - 1))
        full[s, c] = (k, w, d, n) if k == RUN else (HALT, w, d, -1) if k == HALT else (UNDEF, 1, RIGHT, -1)
    return full


def build(full, Q, S):
    T = shim.load("Macro.Turing_Machine")
    return T.tm_from_quintuples([(s, c, w, d, n) for (s, c), (k, w, d, n) in full.items() if k != UNDEF],
                                list(range(Q)), list(range(S)))


def oracle_text(full, Q, S, sep="", row="_"):
    def cell(k, w, d, n):
        return "---" if k == UNDEF else "%d%s%s" % (w, "LR"[d], "Z" if k == HALT else chr(65 + n))
    return row.join(sep.join(cell(*full[s, c]) for c in range(S)) for s in range(Q))


def text(ctx, sizes):
    R = shim.load("IO.TM_Record")
    IO = shim.load("IO")
    E = shim.load("TM_Enum")
    O = shim.load("IO.OldText")
    Q, S = sizes[ctx.choice("size", len(sizes))]
    p = ctx.choice("pattern", NPAT)
    full = open_cell(ctx, Q, S, p)
    m = build(full, Q, S)
    same(ctx, m, full, Q, S, "built")
    want = oracle_text(full, Q, S)
    ctx.check(m.ttable_str() == want, "standard text of a machine")
    same(ctx, R.parse_tm(want), full, Q, S, "parsed")
    ctx.check(O.display_ttable(m) == oracle_text(full, Q, S, " ", "  "), "old text of a machine")
    # a stream of machines
    f = io.StringIO()
    other = build({x: (RUN, 0, LEFT, 0) if v[0] == UNDEF else (UNDEF, 1, RIGHT, -1) for x, v in full.items()}, Q, S)
    with IO.StdText.Writer(f) as w:
        w.write_tm(m)
        w.write_record(R.TM_Record(tm_enum=E.TM_Enum(other, allow_no_halt=False)))
        rec = R.TM_Record(tm_enum=E.TM_Enum(m, allow_no_halt=True))
        H = shim.load("Halting_Lib")
        H.set_halting(rec.proto.status, 10 ** 12, 7, 0, 0)
        w.write_record(rec)
    f.seek(0)
    with IO.StdText.Reader(f) as r:
        out = list(r)
    ctx.check(len(out) == 3, "as many machines are read as were written")
    same(ctx, out[0].tm(), full, Q, S, "first of a stream")
    ctx.check(out[1].tm().ttable_str() == other.ttable_str(), "second of a stream")
    same(ctx, out[2].tm(), full, Q, S, "third of a stream")
    ctx.note("text")


def files(ctx, sizes, kind):
    """Through real files."""
    R = shim.load("IO.TM_Record")
    IO = shim.load("IO")
    E = shim.load("TM_Enum")
    Q, S = sizes[ctx.choice("size", len(sizes))]
    p = ctx.choice("pattern", NPAT)
    full = open_cell(ctx, Q, S, p)
    m = build(full, Q, S)
    syms = list(m.symbols)
    d = tempfile.mkdtemp(prefix="bbv_c19_")
    try:
        fn = os.path.join(d, "x" + kind)
        allow = bool(p % 2)
        rec = R.TM_Record(tm_enum=E.TM_Enum(m, allow_no_halt=allow))
        n = 1 if "morphett" in kind else 3
        if "morphett" in kind and not any(v[0] != UNDEF for v in full.values()):
            return
        with IO.Writer(fn) as w:
            for _ in range(n):
                w.write_record(rec)
            w.flush()
        ctx.check(list(m.symbols) == syms, "writing leaves the machine as it was")
        same(ctx, m, full, Q, S, "after writing")
        with IO.Reader(fn) as r:
            out = list(r)
        ctx.check(len(out) == n, "as many machines are read as were written")
        for o in out:
            if "morphett" in kind:
                equivalent(ctx, o.tm(), full, Q, S)
            else:
                same(ctx, o.tm(), full, Q, S, "read from the file")
            if ".pb" in kind:
                ctx.check(bool(o.tm_enum().allow_no_halt) == allow, "flag read from the file")
        if "morphett" not in kind:
            same(ctx, IO.load_tm(fn, n - 1), full, Q, S, "last record of the file")
            same(ctx, IO.get_tm("%s:%d" % (fn, n - 1)), full, Q, S, "last record by name")
            same(ctx, IO.get_tm(fn), full, Q, S, "first record by name")
            if Q < 26 and S < 10:
                same(ctx, IO.get_tm(oracle_text(full, Q, S)), full, Q, S, "machine given literally")
        if kind == ".txt":
            with open(fn) as f, IO.Reader(f) as r:
                out = list(r)
            ctx.check(len(out) == n, "as many machines are read from an open file")
            for o in out:
                same(ctx, o.tm(), full, Q, S, "read from an open file")
        if ".pb" in kind:
            pb = shim.load("io_pb2").TuringMachine()
            pb.ttable_str = oracle_text(full, Q, S)
            same(ctx, R.read_tm(pb), full, Q, S, "a machine stored as text in a record")
        ctx.note("file")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def equivalent(ctx, m, full, Q, S):
    """The machine up to names of states and symbols that are used; names are kept
    by the machine read."""
    T = shim.load("Macro.Turing_Machine")
    want = {}
    for (s, c), (k, w, d, n) in full.items():
        if k != UNDEF:
            want[str(s), "_" if c == 0 else str(c)] = ("_" if w == 0 else str(w), d, None if k == HALT else str(n))
    got = {}
    for s in range(m.num_states):
        for c in range(m.num_symbols):
            t = m.trans_table[s][c]
            if t.condition != T.UNDEFINED:
                got[m.states[s], m.symbols[c]] = (m.symbols[t.symbol_out], t.dir_out,
                                                  None if t.condition == T.HALT else m.states[t.state_out])
    ctx.check(got == want, "the same named transitions")
    ctx.check(m.symbols[0] == "_", "the blank stays the blank")
    if any(v[0] != UNDEF for x, v in full.items() if x[0] == 0):
        ctx.check(m.states[0] == "0", "the start state stays the start state")


# -- bbchallenge -----------------------------------------------------------------

def bbc(ctx):
    B = shim.load("IO.BBC")
    T = shim.load("Macro.Turing_Machine")
    p = ctx.choice("pattern", NPAT)
    full, data = {}, []
    for s in range(5):
        for c in range(2):
            k = pattern(p, s, c, 5, 2)
            x = "t_%d_%d" % (s, c)
            if k == UNDEF:
                full[s, c] = (UNDEF, 1, RIGHT, -1)
                data += [0, 0, 0]
                continue
            w, d = ctx.int(x + "_w", 0, 1), ctx.int(x + "_d", 0, 1)
            n = ctx.int(x + "_n", 0, 4) if k == RUN else -1
            if k == HALT:
                ctx.assume(w == 1)
            full[s, c] = (k, w, d, n)
            data += [w, 1 - d, n + 1]
    real_state = T.Simple_Machine_State

    def state(x):
        return x if type(x).__name__ == "SymInt" else real_state(x)
    if not ctx.symbolic:
        data = bytes(data)
    with patched(ctx, B, list=slist), patched(ctx, T, Simple_Machine_State=state):
        same(ctx, B.unpack_tm(data), full, 5, 2, "bbchallenge bytes")


def bbcfile(ctx):
    """A small database file: reading, skipping, random access, indexes."""
    B = shim.load("IO.BBC")
    n = ctx.concrete(ctx.int("n", 0, 4))
    d = tempfile.mkdtemp(prefix="bbv_c19_")
    try:
        recs, body = [], b""
        for i in range(n):
            full = {(s, c): (RUN, (i + s) % 2, (s + c) % 2, (i + s + c) % 5) for s in range(5) for c in range(2)}
            full[i % 5, 1] = (UNDEF, 1, RIGHT, -1)
            full[(i + 2) % 5, 0] = (HALT, 1, i % 2, -1)
            recs.append(full)
            for s in range(5):
                for c in range(2):
                    k, w, dd, q = full[s, c]
                    body += bytes([0, 0, 0] if k == UNDEF else [w, 1 - dd, q + 1])
        fn = os.path.join(d, "db.zip")
        with zipfile.ZipFile(fn, "w") as z:
            z.writestr("db", bytes(30) + body)
        with B.Reader(fn) as r:
            out = list(r)
        ctx.check(len(out) == n, "every record of the database is read")
        for o, f in zip(out, recs):
            same(ctx, o.tm(), f, 5, 2, "record of the database")
        with B.Reader(fn) as r:
            k = 0
            while r.skip_record():
                k += 1
                ctx.check(k <= n, "skipping ends")
        ctx.check(k == n, "skipping counts the records")
        if n == 0:
            return
        i = ctx.concrete(ctx.int("i", 0, n - 1))
        same(ctx, B.load_record(fn, i).tm(), recs[i], 5, 2, "record by number")
        j = ctx.concrete(ctx.int("j", 0, n - 1))
        with open(os.path.join(d, "ix"), "wb") as f:
            f.write(i.to_bytes(4, "big") + j.to_bytes(4, "big"))
        with open(os.path.join(d, "ix.txt"), "w") as f:
            f.write("%d\n%d\n" % (i, j))
        for cls, nm in ((B.IndexReader, "ix"), (B.TextIndexReader, "ix.txt")):
            with cls(fn, os.path.join(d, nm)) as r:
                out = list(r)
            ctx.check(len(out) == 2, "every indexed record is read")
            same(ctx, out[0].tm(), recs[i], 5, 2, "first indexed record")
            same(ctx, out[1].tm(), recs[j], 5, 2, "second indexed record")
        ctx.note("db")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- integers --------------------------------------------------------------------

class Hex(str):
    """hex() of a symbolic integer."""

    def __new__(cls, v):
        r = str.__new__(cls, "0x?")
        r.v = v
        return r

    def _bbv_int(self, base=10):
        if base not in (0, 16):
            raise ValueError("not base 16")
        return self.v


class FakeBig:
    LIM = {"int": (-2**63, 2**63 - 1), "uint_old": (0, 2**64 - 1)}

    def __init__(self):
        object.__setattr__(self, "_which", None)

    def Clear(self):
        for k in list(self.__dict__):
            if k != "_which":
                del self.__dict__[k]
        object.__setattr__(self, "_which", None)

    def WhichOneof(self, n):
        assert n == "big_int"
        return self._which

    def __setattr__(self, k, v):
        if k in self.LIM:
            lo, hi = self.LIM[k]
            if not ((v >= lo) & (v <= hi) if type(v).__name__ == "SymInt" else lo <= v <= hi):
                raise ValueError("Value out of range: %s" % k)
        elif k not in ("hex_str", "exp_int_pickle"):
            raise AttributeError(k)
        self.Clear()
        object.__setattr__(self, k, v)
        object.__setattr__(self, "_which", k)


class FakeTerm:
    def __init__(self):
        self.base, self.coef, self.exponent = 0, FakeBig(), FakeBig()

    def HasField(self, n):
        return getattr(self, n)._which is not None


class FakeTerms(list):
    def add(self):
        self.append(FakeTerm())
        return self[-1]


class FakeExp:
    def __init__(self):
        self.const, self.denom, self.terms = FakeBig(), 0, FakeTerms()

    def HasField(self, n):
        return getattr(self, n)._which is not None


def bigint(ctx):
    H = shim.load("Halting_Lib")
    v = ctx.int("v")
    old = ctx.int("old")
    f = FakeBig() if ctx.symbolic else H.io_pb2.BigInt()
    ctx.check(H.get_big_int(f) is None, "nothing stored, nothing read")
    with patched(ctx, H, hex=lambda x: Hex(x) if type(x).__name__ == "SymInt" else hex(x)):
        H.set_big_int(f, old)
        ctx.check(H.get_big_int(f) == old, "an integer is read back")
        H.set_big_int(f, v)
        ctx.check(H.get_big_int(f) == v, "an integer stored over another is read back")
    if not ctx.symbolic:
        g = H.io_pb2.BigInt()
        g.ParseFromString(f.SerializeToString())
        ctx.check(H.get_big_int(g) == v, "an integer is read back from bytes")


def deprecated(ctx):
    """Numbers stored by earlier versions."""
    H, X = shim.load("Halting_Lib"), shim.load("Exp_Int")
    pb = shim.load("io_pb2")
    f = message(ctx, pb.BigInt) if ctx.symbolic else pb.BigInt()
    v = ctx.int("v", 0, 2**64 - 1)
    f.uint_old = v
    ctx.check(H.get_big_int(f) == v, "an integer stored by an earlier version is read")
    x = pb.ExpInt()
    c, k = ctx.concrete(ctx.int("c", -2, 2)), ctx.concrete(ctx.int("k", 1, 3))
    d, e = ctx.concrete(ctx.int("d", 1, 2)), 10 ** 6 + ctx.concrete(ctx.int("e", 0, 2))
    x.const_old, x.denom = c, d
    t = x.terms.add()
    t.base, t.coef_old = 3, k
    H.set_big_int(t.exponent, e)
    eq(ctx, X, H.parse_exp_int(x), X.ExpInt([X.ExpTerm(3, k, e)], c, d), "a formula integer stored by an earlier version is read")
    ctx.note("old")


def expint(ctx, base, levels, nterms):
    H = shim.load("Halting_Lib")
    X = shim.load("Exp_Int")

    def make(lv, nm):
        terms = []
        for i in range(nterms):
            c = ctx.concrete(ctx.int("%s_c%d" % (nm, i), -2, 2))
            ctx.assume(c != 0)
            e = (10 ** (5 + i) + ctx.concrete(ctx.int("%s_e%d" % (nm, i), 0, 2))) if lv == 1 else make(lv - 1, nm + str(i))
            terms.append(X.ExpTerm(base, abs(c) if lv < levels else c, e))
        k = ctx.concrete(ctx.int(nm + "_k", 0 if lv < levels else -1, 1))
        return X.ExpInt(terms, k * (1 if lv == 1 else 2 ** 70), ctx.concrete(ctx.int(nm + "_d", 1, 2)) if lv == levels else 1)
    x = make(levels, "x")
    f = H.io_pb2.BigInt()
    H.set_big_int(f, x)
    g = H.io_pb2.BigInt()
    g.ParseFromString(f.SerializeToString())
    eq(ctx, X, H.get_big_int(g), x, "a formula integer is read back")
    if levels == 1:
        p = H.io_pb2.ExpInt()
        H.serialize_exp_int(x, p)
        p2 = H.io_pb2.ExpInt()
        p2.ParseFromString(p.SerializeToString())
        eq(ctx, X, H.parse_exp_int(p2), x, "a formula integer is read back from its message")
        b = H.io_pb2.BigInt()
        b.exp_int.CopyFrom(p2)
        eq(ctx, X, H.get_big_int(b), x, "a formula integer stored as message is read back")
    ctx.note("exp")


def eq(ctx, X, a, b, msg):
    if isinstance(b, X.ExpInt):
        ctx.check(isinstance(a, X.ExpInt) and len(a.terms) == len(b.terms), msg)
        ctx.check(a.const == b.const and a.denom == b.denom, msg)
        ctx.check((a.sign, a.tower_value, a.formula_str, a.depth) == (b.sign, b.tower_value, b.formula_str, b.depth), msg)
        for s, t in zip(a.terms, b.terms):
            ctx.check(s.base == t.base and s.coef == t.coef, msg)
            eq(ctx, X, s.exponent, t.exponent, msg)
    else:
        ctx.check(type(a) is type(b) and a == b, msg)


def cases(tier):
    q = tier == "quick"
    small = [(Q, S) for Q in range(1, 8) for S in range(2, 8)]
    cs = [Case("trans", {}, name="trans"), Case("bbc", {}, name="bbc"), Case("bigint", {}, name="bigint"),
          Case("deprecated", {}, name="deprecated", need=["old"]), Case("bbcfile", {}, name="bbcfile", need=["db"])]
    for Q in range(1, 8):
        cs.append(Case("record", dict(sizes=[z for z in small if z[0] == Q]), name="record_%d" % Q, need=["rec", "halt"]))
    cs.append(Case("record", dict(sizes=[(8, 2), (2, 8), (9, 3), (3, 9), (26, 2), (2, 12), (30, 4), (7, 8), (8, 7)]),
                   name="record_big", need=["rec", "halt"]))
    cs.append(Case("text", dict(sizes=[(2, 2), (3, 2), (2, 3), (5, 2), (1, 2)]), name="text_small", need=["text"]))
    cs.append(Case("text", dict(sizes=[(24, 2), (2, 9), (24, 9), (7, 7), (23, 3)] if not q else [(24, 2), (2, 9), (7, 7)]),
                   name="text_big", need=["text"]))
    for kind in (".pb", ".pb.gz", ".txt", ".txt.gz", ".morphett", ".morphett.gz"):
        z = [(2, 2), (3, 3)] if q else [(2, 2), (3, 2), (2, 3), (7, 7), (8, 2), (2, 8)]
        cs.append(Case("files", dict(sizes=z, kind=kind), name="file" + kind, need=["file"]))
    for base in (2, 3, 10):
        for lv, nt in ((1, 1), (1, 2), (2, 1)) + (() if q else ((2, 2),)):
            cs.append(Case("expint", dict(base=base, levels=lv, nterms=nt), name="exp_%d_%d_%d" % (base, lv, nt), need=["exp"]))
    return cs
