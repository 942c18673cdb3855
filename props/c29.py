"""Tools that move, select or tally records: none lost, doubled or misfiled."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
from fractions import Fraction

from bbv.runner import Case
from bbv import shim
from bbv.proto import message, hex_
from bbv.shim import patched
from bbv.tm import TMSpec, RUN, HALT, UNDEF

INFO = {
    "functions": ["IO_Categorize.filter", "IO_Sort.sort", "IO_Sample.sample", "Zero_Reflexive.main/is_zero_reflexive", "IO_Convert.main",
                  "IO_Count.main", "IO_Find.main", "Find_Record.find", "TM_Analyze.main/TMStats", "Adjacent.adjacent",
                  "main of CPS_Filter, CTL_Filter, Backtracking_Filter, Reverse_Engineer_Filter"],
    "bounds": "up to 3 records (sample 4; thorough 4, 5) in up to 2 files, each file whole or cut short after its last complete record; categorise, sort: every "
              "status and every step count and score up to 2^200; sample: every size 0 to 3 and every outcome of the random numbers, and the exact "
              "probability of every record; zero-reflexive, adjacent: every 2x2 machine (adjacent: some cells fixed; thorough zero-reflexive also 2x3, 3x2); convert: every pair of formats "
              "given by suffix or option; count, analyse, find and the filters' drivers: every choice of record contents from a list and every order",
    "outside": "the encodings of the files (C19, C20) and, in the symbolic run, the file system (stand-ins hand over whole records; the replay "
               "uses real files); whether a decider decides right (C09-C15); elapsed times and the other averages printed by TM_Analyze",
}

TMS = ["1RB1LB_1LA1RZ", "1RB0LA_1LA---", "1RA1LB_0LA1RB", "0RB1RZ_1LB1LA", "1LB1RB_1RA0LA"]


TOOLS = ["IO_Categorize", "IO_Sort", "IO_Sample", "Zero_Reflexive", "IO_Convert", "IO_Count", "IO_Find", "Find_Record", "TM_Analyze",
         "CPS_Filter", "CTL_Filter", "Backtracking_Filter", "Reverse_Engineer_Filter", "IO.General", "IO"]


class U:
    """A symbolic number in [0, 1)."""

    def __init__(self, n, d):
        self.n, self.d = n, d

    def _c(op):
        def f(self, o):
            if isinstance(o, U):
                a, b = self.n * o.d, o.n * self.d
            else:
                o = Fraction(o)
                a, b = self.n * o.denominator, o.numerator * self.d
            return op(a, b)
        return f
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)

    def __mul__(self, o):
        o = Fraction(o)
        return U(self.n * o.numerator, self.d * o.denominator)
    __rmul__ = __mul__

    def __int__(self):
        return int(self.n // self.d)
    __floor__ = __trunc__ = __int__


class Unsupported(Exception):
    """The code uses random numbers in a way the stand-in does not follow."""


def _no(self, *a):
    raise Unsupported("arithmetic on a random number")


OTHER = ("add", "radd", "sub", "rsub", "truediv", "rtruediv", "floordiv", "pow", "rpow", "float", "round", "neg", "mod", "bool", "ceil", "eq", "ne")
for _n in OTHER:
    setattr(U, "__%s__" % _n, _no)
U.__hash__ = None


class World:
    """Files of records: stand-ins in the symbolic run, real files otherwise."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.files, self.torn, self.out, self.open = {}, {}, {}, set()
        self.dir = tempfile.mkdtemp(prefix="bbv29-") if not ctx.symbolic else "/nonexistent/bbv29"

    def path(self, name):
        return os.path.join(self.dir, name)

    def add(self, name, recs, torn=False, mod="IO.Proto"):
        p = self.path(name)
        if self.ctx.symbolic:
            self.files[p], self.torn[p] = recs, torn
            return p
        m = shim.load(mod)
        with m.Writer(p) as w:
            for r in recs:
                w.write_record(r)
        if torn:
            with open(p, "ab") as f:
                f.write(b"\x20\0\0\0abc")
        return p

    def read(self, name, mod="IO.Proto"):
        p = self.path(name)
        if self.ctx.symbolic:
            self.ctx.check(p not in self.open, "the output file is closed")
            got = self.out.get(p)
            return None if got is None else [r for _, r in got]
        if not os.path.exists(p):
            return None
        with shim.load(mod).Reader(p) as f:
            return list(f)

    def names(self):
        if self.ctx.symbolic:
            return sorted(os.path.relpath(p, self.dir) for p in self.out)
        return sorted(os.path.relpath(os.path.join(a, x), self.dir) for a, _, c in os.walk(self.dir) for x in c)

    def __enter__(self):
        self.stack = contextlib.ExitStack()
        if self.ctx.symbolic:
            users = [shim.load(n) for n in TOOLS]
            for n in ("IO.Proto", "IO.StdText", "IO.Morphett", "IO.OldText", "IO.BBC"):
                m = shim.load(n)
                kw = {k: v for k, v in stand_ins(self, n).items() if hasattr(m, k)}
                for u in users:
                    same = {a: kw[k] for a, v in vars(u).items() for k in kw if v is vars(m)[k]}
                    if same:
                        self.stack.enter_context(patched(self.ctx, u, **same))
                self.stack.enter_context(patched(self.ctx, m, **kw))
        return self

    def __exit__(self, *a):
        self.stack.close()
        if not self.ctx.symbolic:
            shutil.rmtree(self.dir, ignore_errors=True)


def stand_ins(world, mod):
    P = shim.load("IO.Proto")
    Err = P.IO_Error

    class Reader:
        def __init__(self, name, *more):
            self.p = str(more[-1] if more else name)
            if self.p not in world.files:
                raise FileNotFoundError(self.p)
            self.i, self.on = 0, False

        def __enter__(self):
            self.i, self.on = 0, True
            return self

        def __exit__(self, *a):
            self.on = False

        def read_record(self):
            if not self.on:
                raise ValueError("read of closed file")
            f = world.files[self.p]
            if self.i < len(f):
                self.i += 1
                return f[self.i - 1]
            if world.torn[self.p]:
                raise Err("Unexpected EOF")
            return None

        def skip_record(self):
            return self.read_record() is not None

        def __iter__(self):
            while (r := self.read_record()) is not None:
                yield r

    class Writer:
        def __init__(self, name):
            self.p, self.on = str(name), False

        def __enter__(self):
            self.on = True
            world.out[self.p] = []
            world.open.add(self.p)
            return self

        def __exit__(self, *a):
            self.on = False
            world.open.discard(self.p)

        def flush(self):
            pass

        def write_record(self, r):
            if not self.on:
                raise ValueError("write to closed file")
            world.out[self.p].append((mod, r))

    return dict(Reader=Reader, Writer=Writer, IndexReader=Reader, TextIndexReader=Reader)


def make(ctx, i, fake=True):
    """Record number i, of its own machine, undecided."""
    R, pb = shim.load("IO.TM_Record"), shim.load("io_pb2")
    rec = R.TM_Record(proto=pb.TMRecord())
    rec.proto.tm.ttable_packed = R.pack_tm(R.parse_tm(TMS[i]))
    if ctx.symbolic and fake:
        m = message(ctx, pb.TMRecord)
        m.tm.ttable_packed = rec.proto.tm.ttable_packed
        try:
            rec.proto = m
        except AttributeError:
            object.__setattr__(rec, "proto", m)
    return rec


def which(rec):
    R = shim.load("IO.TM_Record")
    b = bytes(rec.proto.tm.ttable_packed)
    for i, t in enumerate(TMS):
        if b == R.pack_tm(R.parse_tm(t)):
            return i
    for i, t in enumerate(TMS):
        if rec.tm().ttable_str() == t:
            return i


def layout(ctx, recs, world, torn_ok, suffix=".pb", mod="IO.Proto"):
    """The records spread over one or two files."""
    k = ctx.choice("split", len(recs) + 1)
    names = []
    for j, part in enumerate([recs[:k], recs[k:]] if k else [recs]):
        t = ctx.bool("torn%d" % j) if torn_ok else False
        names.append(world.add("in%d%s" % (j, suffix), part, t, mod))
    return names


def quiet(f, *a):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        f(*a)
    return o.getvalue()


def run_main(mod, args, pass_argv=False):
    old = sys.argv
    sys.argv = [mod] + [str(x) for x in args]
    try:
        m = shim.load(mod)
        return quiet(m.main, sys.argv) if pass_argv else quiet(m.main)
    finally:
        sys.argv = old


def paths(xs):
    from pathlib import Path
    return [Path(x) for x in xs]


# -- categorise, sort ---------------------------------------------------------------

def status(ctx, H, rec, i):
    """Any verdict; returns the name of its category."""
    st = rec.proto.status
    k = ctx.choice("kind%d" % i, 4)
    n = ctx.int("n%d" % i, 0, 2**200)
    given = ctx.bool("given%d" % i)
    size = "unk" if not given else None
    if k == 0:
        return "unknown"
    if k == 1:
        st.halt_status.is_decided = st.halt_status.is_halting = True
        st.quasihalt_status.is_decided = True
        if given:
            H.set_big_int(st.halt_status.halt_steps, n)
        return "halt." + (size or ("small" if n < 1000 else "large"))
    st.halt_status.is_decided = True
    st.quasihalt_status.is_decided = ctx.bool("qdec%d" % i)
    if k == 2 and st.quasihalt_status.is_decided:
        st.quasihalt_status.is_quasihalting = True
        if given:
            H.set_big_int(st.quasihalt_status.quasihalt_steps, n)
        return "qhalt." + (size or ("small" if n < 1000 else "large"))
    return "infinite"


KINDS = ["halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite", "unknown"]


def categorize(ctx, K):
    C, H = shim.load("IO_Categorize"), shim.load("Halting_Lib")
    with patched(ctx, H, hex=hex_), World(ctx) as w:
        recs = [make(ctx, i) for i in range(K)]
        want = {k: [] for k in KINDS}
        for i, r in enumerate(recs):
            want[status(ctx, H, r, i)].append(i)
        names = layout(ctx, recs, w, False)
        out = quiet(C.filter, paths(names), paths([w.dir])[0])
        for k in KINDS:
            got = w.read(k + ".pb")
            ctx.check(got is not None, "there is a file for every category")
            ctx.check([which(r) for r in got] == want[k], "every record is in the file of its category, once and in order")
        m = re.findall(r"Categorized ([\d_]+) records total", out)
        if m:
            ctx.check(int(m[-1]) == K, "total reported")
        for k in KINDS:
            m = re.findall(r"Categorized ([\d_]+) %s records" % k.replace(".", "."), out)
            if m:
                ctx.check(int(m[-1]) == len(want[k]), "tally reported")
        ctx.note("cat")


def sort(ctx, K):
    C, H = shim.load("IO_Sort"), shim.load("Halting_Lib")
    with patched(ctx, H, hex=hex_), World(ctx) as w:
        recs = [make(ctx, i) for i in range(K)]
        score = {}
        for i, r in enumerate(recs):
            h = r.proto.status.halt_status
            if ctx.bool("halts%d" % i):
                h.is_decided = h.is_halting = True
                score[i] = ctx.int("score%d" % i, 0, 2**200)
                H.set_big_int(h.halt_score, score[i])
            else:
                score[i] = 0
        torn = ctx.bool("torn")
        p = w.add("in.pb", recs, torn)
        quiet(C.sort, paths([p])[0], paths([w.path("out.pb")])[0])
        got = [which(r) for r in w.read("out.pb")]
        ctx.check(sorted(got) == list(range(K)), "every complete record is kept, once")
        for a, b in zip(got, got[1:]):
            ctx.check(score[a] >= score[b], "highest score first")
        for r in w.read("out.pb"):
            s = H.get_big_int(r.proto.status.halt_status.halt_score)
            ctx.check((0 if s is None else s) == score[which(r)], "the record is unchanged")
        ctx.note("sort")


# -- sample ----------------------------------------------------------------------

class Rand:
    """The random module, with every outcome an input."""

    def __init__(self, ctx):
        self.ctx, self.k = ctx, 0

    def _n(self):
        self.k += 1
        return "r%d" % self.k

    def random(self):
        n = self.ctx.int(self._n(), 0, 2**53 - 1)
        return U(n, 2**53) if self.ctx.symbolic else n / 2**53

    def randrange(self, a, b=None):
        lo, hi = (0, a) if b is None else (a, b)
        if lo >= hi:
            raise ValueError("empty range for randrange()")
        return lo + self.ctx.choice(self._n(), hi - lo)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, s):
        return s[self.randrange(len(s))]

    def shuffle(self, x):
        # reversing or not is enough to tell that the order is not relied on
        if len(x) > 1 and self.ctx.bool(self._n()):
            x.reverse()

    def sample(self, s, k):
        s = list(s)
        return [s.pop(self.randrange(len(s))) for _ in range(k)]

    def uniform(self, a, b):
        raise Unsupported("uniform")


FN = ("random", "randrange", "randint", "choice", "shuffle", "sample", "uniform")


@contextlib.contextmanager
def randomness(mod, src):
    import random
    old = {n: getattr(random, n) for n in FN}
    bound = [(k, n) for k, v in list(vars(mod).items()) for n in FN if v is old[n] or getattr(v, "__func__", v) is old[n]]
    for n in FN:
        setattr(random, n, getattr(src, n))
    for k, n in bound:
        setattr(mod, k, getattr(src, n))
    try:
        yield
    finally:
        for n in FN:
            setattr(random, n, old[n])
        for k, n in bound:
            setattr(mod, k, old[n])


def sample(ctx, K):
    C = shim.load("IO_Sample")
    with World(ctx) as w:
        recs = [make(ctx, i, False) for i in range(K)]
        n = ctx.choice("size", 4)
        names = layout(ctx, recs, w, True)
        try:
            with randomness(C, Rand(ctx)):
                quiet(C.sample, paths(names), paths([w.path("out.pb")])[0], n)
        except Unsupported:
            return
        got = [which(r) for r in w.read("out.pb")]
        ctx.check(len(got) == min(n, K), "size of the sample")
        ctx.check(len(set(got)) == len(got) and None not in got, "the records of a sample are distinct records of the input")
        ctx.note("sample")


class Coin(Rand):
    """Follows one branch of the tree of random outcomes, with its probability."""

    def __init__(self, plan):
        self.plan, self.i, self.p, self.more = plan, 0, Fraction(1), []

    def pick(self, weights):
        i = self.i
        self.i += 1
        if i == len(self.plan):
            self.plan.append(0)
            for j in range(1, len(weights)):
                self.more.append(self.plan[:i] + [j])
        self.p *= weights[self.plan[i]]
        return self.plan[i]

    def random(self):
        c = self

        class V:
            def __init__(self, scale=Fraction(1)):
                self.scale = scale

            def __lt__(self, x):
                f = (Fraction(x) / self.scale).limit_denominator(10**6)
                return f >= 1 or f > 0 and c.pick([1 - f, f]) == 1
            __le__ = __lt__

            def __ge__(self, x):
                return not self < x
            __gt__ = __ge__

            def __mul__(self, k):
                return V(self.scale * Fraction(k))
            __rmul__ = __mul__

            def __int__(self):
                if self.scale.denominator != 1:
                    raise Unsupported("int")
                k = int(self.scale)
                return c.pick([Fraction(1, k)] * k)
            __floor__ = __trunc__ = __int__
        for n in OTHER:
            setattr(V, "__%s__" % n, _no)
        V.__hash__ = None
        return V()

    def randrange(self, a, b=None):
        lo, hi = (0, a) if b is None else (a, b)
        return lo + self.pick([Fraction(1, hi - lo)] * (hi - lo))

    def shuffle(self, x):
        pass


def fair(ctx, K, n):
    """The probability of every record, over the whole tree of random outcomes."""
    C = shim.load("IO_Sample")
    split = ctx.choice("split", K + 1)
    share = [Fraction(0)] * K
    todo, count = [[]], 0
    while todo:
        coin = Coin(todo.pop())
        with World(ctx) as w:
            recs = [make(ctx, i, False) for i in range(K)]
            names = [w.add("in0.pb", recs[:split]), w.add("in1.pb", recs[split:])]
            try:
                with randomness(C, coin):
                    quiet(C.sample, paths(names), paths([w.path("out.pb")])[0], n)
            except Unsupported:
                return
            if coin.i == 0 and n < K:
                return      # random numbers from elsewhere
            for r in w.read("out.pb"):
                share[which(r)] += coin.p
        todo += coin.more
        count += 1
        if count > 3000:
            return
    ctx.check(all(s == Fraction(n, K) for s in share), "every record is in the sample with the same probability")
    ctx.note("fair")


# -- machines ------------------------------------------------------------------------

class OfTM:
    def __init__(self, i, tm, proto):
        self.i, self._tm, self.proto = i, tm, proto

    def tm(self):
        return self._tm

    def ttable_str(self):
        return self._tm.ttable_str()


def zero_reflexive(ctx, Q, S):
    """Split of two records: one of any machine, one of a known machine."""
    R, pb = shim.load("IO.TM_Record"), shim.load("io_pb2")
    spec = TMSpec(ctx, Q, S)
    tm = spec.build()
    want = ctx.concrete(ctx.Or(*[ctx.Or(spec.cells[s, 0][0] == UNDEF,
                                        ctx.And(spec.cells[s, 0][0] == RUN, spec.cells[s, 0][3] == s)) for s in range(Q)]))
    with World(ctx) as w:
        if ctx.symbolic:
            one = OfTM(0, tm, pb.TMRecord())
        else:
            one = R.TM_Record(proto=pb.TMRecord())
            one.proto.tm.ttable_packed = R.pack_tm(tm)
        one.proto.elapsed_time_us = 7
        two = make(ctx, [0, 2][ctx.choice("other", 2)], False)
        two.proto.elapsed_time_us = 8
        wz = which(two) == 2
        recs = [one, two] if ctx.bool("first") else [two, one]
        p = w.add("in.pb", recs)
        run_main("Zero_Reflexive", [p, w.path("zr.pb"), w.path("no.pb")])
        zr = [r.proto.elapsed_time_us for r in w.read("zr.pb")]
        no = [r.proto.elapsed_time_us for r in w.read("no.pb")]
        exp = [(7, want), (8, wz)] if recs[0] is one else [(8, wz), (7, want)]
        ctx.check(zr == [i for i, z in exp if z], "the zero-reflexive machines, once and in order")
        ctx.check(no == [i for i, z in exp if not z], "the other machines, once and in order")
    ctx.note("zr")


def adjacent(ctx, Q, S, fixed=None):
    A, T = shim.load("Adjacent"), shim.load("Macro.Turing_Machine")
    spec = TMSpec(ctx, Q, S, fixed=fixed)
    cells = {x: tuple(ctx.concrete(v) for v in c) for x, c in spec.cells.items()}
    fix = TMSpec(ctx, Q, S, fixed=cells)
    tm = fix.build()

    def table(m):
        r = {}
        for s in range(Q):
            for c in range(S):
                t = m.get_trans_object(state_in=s, symbol_in=c)
                if t.condition == T.RUNNING:
                    r[s, c] = (RUN, int(t.symbol_out), int(t.dir_out), int(t.state_out))
                else:
                    r[s, c] = ("stop", t.condition)
        return r
    before = table(tm)
    got = [table(m) for m in A.adjacent(tm)]
    ctx.check(table(tm) == before, "the machine itself is left alone")
    seen = set()
    for g in got:
        d = [x for x in before if before[x] != g[x]]
        ctx.check(len(d) == 1, "a neighbour differs in exactly one cell")
        ctx.check(before[d[0]][0] == RUN and g[d[0]][0] == RUN, "that cell goes on running")
        seen.add((d[0], g[d[0]]))
    ctx.check(len(seen) == len(got), "no neighbour is listed twice")
    running = sum(1 for c in before.values() if c[0] == RUN)
    ctx.check(len(got) == running * (Q * S * 2 - 1), "every neighbour is listed")
    ctx.note("adj")


# -- convert, count, find, analyse, drivers -----------------------------------------------

FMT = [("proto", ".pb", "IO.Proto"), ("proto", ".pb.gz", "IO.Proto"), ("text", ".txt", "IO.StdText"), ("text", "", "IO.StdText"),
       ("morphett", ".morphett", "IO.Morphett"), ("text_old", ".old.txt", "IO.OldText"), ("bbc_db", ".db", "IO.BBC"),
       ("bbc_index", ".index", "IO.BBC"), ("bbc_index_text", ".index.txt", "IO.BBC")]


def convert(ctx, K):
    fi, fo = FMT[ctx.choice("in", len(FMT))], FMT[ctx.choice("out", len(FMT))]
    # which formats can be read and written at all, as the help lists
    if fi[0] == "text_old" or fo[0].startswith("bbc_index"):
        ctx.assume(False)
    if not ctx.symbolic and ("bbc" in fi[0] or "bbc" in fo[0] or fi[0] == "morphett" or fo[0] in ("morphett", "text_old")):
        # replayed with the stand-ins: these files cannot hold these machines or be read back
        return convert_(ctx, K, fi, fo, True)
    convert_(ctx, K, fi, fo, False)


def convert_(ctx, K, fi, fo, faked):
    real = None
    if faked:
        ctx.symbolic, real = True, ctx.symbolic
    try:
        with World(ctx) as w:
            recs = [make(ctx, i, False) for i in range(K)]
            # the suffix gives the format, or an option does
            args, si, so = [], fi[1], fo[1]
            if ctx.bool("in_option"):
                args += ["--informat", fi[0]]
                si = [".pb", ".txt"][ctx.choice("in_suffix", 2)]
            if ctx.bool("out_option"):
                args += ["--outformat", fo[0]]
                so = [".pb", ".txt"][ctx.choice("out_suffix", 2)]
            p = w.add("in" + si, recs, False, fi[2])
            run_main("IO_Convert", [p, w.path("out" + so)] + args)
            got = w.read("out" + so, fo[2])
            ctx.check([r.tm().ttable_str() for r in got] == TMS[:K], "every record is converted, once and in order")
            if ctx.symbolic:
                ctx.check(all(m == fo[2] for m, _ in w.out[w.path("out" + so)]), "written in the format asked for")
    finally:
        if faked:
            ctx.symbolic = real
    ctx.note("convert")


def count(ctx, K):
    with World(ctx) as w:
        recs = [make(ctx, i, False) for i in range(K)]
        names = layout(ctx, recs, w, True)
        opt = [[], ["--summary"], ["--print-freq", "1"]][ctx.choice("opt", 3)]
        out = run_main("IO_Count", names + opt)
        m = re.findall(r"Total # TMs: ([\d_]+)", out)
        ctx.check(m and int(m[-1]) == K, "every complete record is counted, once")
        ctx.note("count")


def find(ctx, K, mod):
    """The record of a machine, wherever it is."""
    with World(ctx) as w:
        pickd = [ctx.choice("m%d" % i, 3) for i in range(K)]
        recs = []
        for j, m in enumerate(pickd):
            r = make(ctx, m, False)
            r.proto.elapsed_time_us = 1000001 + j
            recs.append(r)
        q = ctx.choice("query", 3)
        if mod == "IO_Find":
            names = layout(ctx, recs, w, False)
            out = run_main(mod, [TMS[q]] + names)
        else:
            out = run_main(mod, [TMS[q], w.add("in.pb", recs)])
        hit = [j for j, m in enumerate(pickd) if m == q]
        shown = [int(x) - 1000001 for x in re.findall(r"elapsed_time_us: (\d+)", out)]
        ctx.check(shown == hit[:1], "the first record of the machine is shown, and no other")
        if hit:
            ctx.check(TMS[q] in out, "with its machine")
            if mod == "Find_Record":
                ctx.check(out.split()[0] == str(hit[0]), "and its number")
        ctx.note("find")


def analyze(ctx, K):
    H = shim.load("Halting_Lib")
    VALS = [None, 1, 999, 12345678901234567890123]
    with World(ctx) as w:
        recs, kinds, best = [], [], {"halt": 0, "score": 0, "q": 0}
        for i in range(K):
            r = make(ctx, i, False)
            k = ctx.choice("kind%d" % i, 4)
            st = r.proto.status
            v = VALS[ctx.choice("v%d" % i, len(VALS))]
            if k:
                st.halt_status.is_decided = True
            if k == 1:
                st.halt_status.is_halting = True
                if v is not None:
                    H.set_big_int(st.halt_status.halt_steps, v)
                    H.set_big_int(st.halt_status.halt_score, v + 1)
                    best["halt"] = max(best["halt"], v)
                    best["score"] = max(best["score"], v + 1)
            if k == 3:
                st.quasihalt_status.is_decided = st.quasihalt_status.is_quasihalting = True
                if v is not None:
                    H.set_big_int(st.quasihalt_status.quasihalt_steps, v)
                    best["q"] = max(best["q"], v)
            if i == 0 and ctx.bool("simulated"):
                r.proto.filter.simulator.result.log10_num_steps = 7
            kinds.append(k)
            recs.append(r)
        names = layout(ctx, recs, w, True)
        out = run_main("TM_Analyze", names + (["--print-freq", "1"] if ctx.bool("freq") else []))
        last = out[out.rfind("Total:"):] if "Total:" in out else ""

        def num(label):
            m = re.findall(r"^ *%s: ([\d_]+)" % label, last, re.M)
            return int(m[-1]) if m else 0
        ctx.check(num("Total") == K, "records counted")
        ctx.check(num("Unknown") == kinds.count(0), "unknown machines counted")
        ctx.check(num("Halt") == kinds.count(1), "halting machines counted")
        ctx.check(num("Infinite") == kinds.count(2) + kinds.count(3), "infinite machines counted")
        ctx.check(num("Quasihalt") == kinds.count(3), "quasihalting machines counted")
        for label, sect in (("halt", "Halt"), ("q", "Quasihalt")):
            m = re.search(r"^%s: .*\n +- Steps: Max (.*)$" % sect, last, re.M)
            if m and best[label]:
                ctx.check(H.big_int_approx_and_full_str(best[label]) == m.group(1).strip(), "largest step count")
        ctx.note("analyze")


DRIVERS = {
    "CPS_Filter": [["--max-block-size", "1", "--max-iters", "5"], ["--block-size", "1"], ["--max-window-size", "3", "--max-iters", "4"],
                   ["--min-block-size", "1", "--max-block-size", "2", "--max-configs", "30"]],
    "CTL_Filter": [["--type", t, "--cutoff", "5"] + o for t in ("CTL1", "CTL2", "CTL3", "CTL4")
                   for o in (["--block-size", "1"], ["--max-block-size", "2", "--all-offsets"], ["--block-size", "2", "--offset", "1", "--no-backsymbol"])],
    "Backtracking_Filter": [["--steps", "2"], ["--steps", "3", "--max-width", "1"]],
    "Reverse_Engineer_Filter": [[]],
}
CTL = {"CTL1": "ctl_as", "CTL2": "ctl_as_b", "CTL3": "ctl_a_bs", "CTL4": "ctl_as_b_c"}


def halts(text, limit=200):
    rows = [[r[i:i + 3] for i in range(0, len(r), 3)] for r in text.split("_")]
    tape, pos, st = {}, 0, 0
    for _ in range(limit):
        c = rows[st][tape.get(pos, 0)]
        if c == "---" or c[2] == "Z":
            return True
        tape[pos] = int(c[0])
        pos += 1 if c[1] == "R" else -1
        st = ord(c[2]) - 65
    return False


def driver(ctx, mod, K):
    """A decider run over a file: the same machines come out, with what was decided."""
    with World(ctx) as w:
        left, order = list(range(len(TMS))), []
        for i in range(K):
            order.append(left.pop(ctx.choice("m%d" % i, len(left))))
        recs = [make(ctx, i, False) for i in order]
        suffix, m = [(".pb", "IO.Proto"), (".txt", "IO.StdText")][ctx.choice("format", 2)]
        args = DRIVERS[mod][ctx.choice("args", len(DRIVERS[mod]))]
        p = w.add("in" + suffix, recs, False, m)
        run_main(mod, ["--infile", p, "--outfile", w.path("out.pb")] + args, mod == "Backtracking_Filter")
        got = w.read("out.pb")
        ctx.check([which(r) for r in got] == order, "every machine comes out, once and in order")
        for r in got:
            st = r.proto.status.halt_status
            if halts(TMS[which(r)]):
                ctx.check(not st.is_decided or st.is_halting, "a machine that halts is not recorded as infinite")
            if mod == "CTL_Filter":
                mine = CTL[args[1]]
                ctl = r.proto.filter.ctl
                sub = {k: getattr(ctl, k) for k in CTL.values()}
                ctx.check(all(not x.result.success or k == mine for k, x in sub.items()), "a proof is filed under its own filter")
                ctx.check(bool(sub[mine].result.success) == bool(st.is_decided), "decided exactly when the filter found a proof")
                if st.is_decided:
                    ctx.note("decided")
        ctx.note("driver")


FIX = {"a": {(0, 0): (RUN, 1, 1, 1), (1, 1): (HALT, 1, 1, 0)}, "b": {(0, 1): (UNDEF, 0, 0, 0), (1, 0): (RUN, 0, 0, 0)},
       "c": {(0, 0): (RUN, 1, 1, 1)}}


def near(ctx, Q, S, fix=None):
    adjacent(ctx, Q, S, FIX.get(fix))


def cases(tier):
    t = tier == "thorough"
    out = []
    N = 4 if t else 3

    def c(h, need, **p):
        out.append(Case(h, p, need=[need]))
    for k in range(4):
        if k:
            c("categorize", "cat", K=k)
    for k in range(N + 2):
        c("sample", "sample", K=k)
    for k in range(N + 1):
        c("sort", "sort", K=k)
        c("count", "count", K=k)
        for n in range(1, k + 1):
            c("fair", "fair", K=k, n=n)
    for Q, S in [(2, 2)] + ([(2, 3), (3, 2)] if t else []):
        c("zero_reflexive", "zr", Q=Q, S=S)
    c("near", "adj", Q=1, S=2)
    for f in "abc":
        c("near", "adj", Q=2, S=2, fix=f)
    for k in (1, 2):
        c("convert", "convert", K=k)
        for m in ("IO_Find", "Find_Record"):
            c("find", "find", K=k + 1, mod=m)
        c("analyze", "analyze", K=k + (1 if t else 0))
    for m in DRIVERS:
        for k in range(N + 1 if m == "Reverse_Engineer_Filter" or t else N):
            c("driver", "driver", K=k, mod=m)
    return out
