"""C++ text form of machines (from LLVM IR of the current source): writer against the
standard format, reader against the writer's text."""
import os
from bbv.runner import Case
from bbv import cpp
from bbv.cpptm import Table

H = ("hx_text",)
INFO = {
    "functions": ["WriteTuringMachine", "ReadTuringMachine(istream)", "ReadTuringMachine(filename, line)",
                  "TuringMachine(table, name)", "std::string, std::vector"],
    "bounds": "machines of every size up to 25x9 with one symbolic cell at a symbolic place (quick: one of 30 places of 25x9; sizes 1x1, 1x9, 2x2, 3x3, "
              "5x2, 2x5, 6x2, 25x1, 25x9 and, thorough, more), every 2x2, 1x2 and 2x1 machine; cells undecided, "
              "halting or running; the line ended by the end of the file, a newline, or one of the separators and "
              "up to 3 arbitrary bytes; one to three machines per stream; files read by line number",
    "outside": "text that is not a machine, more than 25 states or 9 symbols (the writer refuses them), streams that "
               "fail",
    "assumptions": ["clang -O1 IR of the sources means what the sources mean; std::string and std::vector are executed "
                    "from their headers' IR; streams and getline are modelled",
                    "the standard text is the one C19 checks the Python tools against"],
}
SPARSE = os.environ.get("VERIF_TIER", "quick") == "quick"
SEP = " \t,#|"


def filler(Q, S, salt=0):
    """A concrete table with every kind of cell."""
    out = {}
    for q in range(Q):
        for s in range(S):
            x = (q * 7 + s * 3 + salt) % 11
            if x == 0:
                out[q, s] = [min(1, S - 1), 1, -1, 1]
            elif x == 1:
                out[q, s] = [(q + s) % S, 1, -1, 0]
            else:
                out[q, s] = [(q + 2 * s + x) % S, 1 if x % 2 else -1, (q + x) % Q, 0]
    return out


def make(ctx, Q, S, open_, n="t", salt=0):
    if open_ == "none":
        return Table(ctx, Q, S, filler(Q, S, salt), n=n)
    if open_ == "all":
        return Table(ctx, Q, S, n=n)
    f = filler(Q, S, salt)
    ks = sorted(f)
    if len(ks) > 40 and SPARSE:
        ks = ks[::len(ks) // 30 + 1] + ks[-1:]
    k = ks[ctx.choice(n + "cell", len(ks))]
    del f[k]
    return Table(ctx, Q, S, f, n=n)


def text(ctx, tab):
    """Standard text: list of bytes (symbolic where the table is)."""
    out = []
    for q in range(tab.Q):
        if q:
            out.append(ord("_"))
        for s in range(tab.S):
            w, m, st, u = tab.c[q, s]
            if ctx.concrete(u):
                out += [ord("-")] * 3
            else:
                out += [w + 48, ctx.ite(m == 1, ord("R"), ord("L")), ctx.ite(st == -1, ord("Z"), st + 65)]
    return out


def write(ctx, Q, S, open_):
    tab = make(ctx, Q, S, open_)
    out = cpp.call(ctx, H, "write", tab.args())
    want = text(ctx, tab)
    ctx.check(len(want) == ctx.concrete(out[0]), "length of the text")
    for i, (a, b) in enumerate(zip(out[1:], want)):
        if isinstance(a, str):
            ctx.fail("uninitialised character")
        ctx.check(a == b, "character %d" % i)
    ctx.note("written")


def compare(ctx, got, i, tab):
    ctx.check(ctx.And(got[i] == tab.Q, got[i + 1] == tab.S), "size of the machine read")
    if ctx.concrete(got[i]) != tab.Q or ctx.concrete(got[i + 1]) != tab.S:
        return None
    i += 6
    for q in range(tab.Q):
        for s in range(tab.S):
            w, m, st, u = tab.c[q, s]
            g = got[i:i + 4]
            if any(isinstance(v, str) for v in g):
                ctx.fail("uninitialised cell")
            ctx.check(g[3] == u, "cell %d,%d undecided" % (q, s))
            ctx.check(g[2] == st, "cell %d,%d: next state" % (q, s))
            ctx.check(ctx.Or(u == 1, ctx.And(g[0] == w, g[1] == m)), "cell %d,%d: symbol and move" % (q, s))
            i += 4
    return i


def read(ctx, Q, S, open_, tails=1, lines=1, by_line=False):
    tabs = [make(ctx, Q, S, open_ if i == 0 else "none", "t%d" % i, i) for i in range(lines)]
    data = []
    for i, tab in enumerate(tabs):
        data += text(ctx, tab)
        k = ctx.choice("tail%d" % i, tails + 1) if tails else 0
        if k:
            c = ctx.choice("sep%d" % i, len(SEP))
            data.append(ord(SEP[c]))
            for j in range(k - 1):
                b = ctx.int("b%d%d" % (i, j), 1, 127)
                ctx.assume(b != 10)
                data.append(b)
            ctx.note("tail")
        if i < lines - 1 or ctx.bool("nl"):
            data.append(10)
    args = [len(data)] + data
    if by_line:
        n = ctx.choice("line", lines + 2)
        got = cpp.call(ctx, H, "line", args + [n])
        want = [tabs[max(n, 1) - 1]] if n <= lines else []
        reads = 1
    else:
        reads = lines + 1
        got = cpp.call(ctx, H, "read", args + [reads])
        want = tabs
    i = 0
    for j in range(reads):
        if j < len(want):
            if ctx.concrete(got[i]) != 1:
                ctx.fail("machine %d is not read" % j)
            i = compare(ctx, got, i + 1, want[j])
            if i is None:
                return
        else:
            ctx.check(got[i] == 0, "no machine after the last")
            ctx.note("end")
            i += 1
    ctx.check(i == len(got), "nothing else is read")
    ctx.note("read")


def cases(tier):
    q = tier == "quick"
    cpp.module(*H)
    cs = []
    for Q, S in [(1, 1), (1, 2), (2, 1), (2, 2)]:
        cs.append(Case("write", dict(Q=Q, S=S, open_="all"), name="write_all_%dx%d" % (Q, S), need=["written"]))
        cs.append(Case("read", dict(Q=Q, S=S, open_="all", tails=0), name="read_all_%dx%d" % (Q, S), need=["read"]))
    sizes = [(1, 9), (3, 3), (5, 2), (2, 5), (6, 2), (25, 1), (25, 9)]
    if not q:
        sizes += [(4, 4), (10, 3), (3, 9), (24, 9), (25, 8)]
    for Q, S in sizes:
        cs.append(Case("write", dict(Q=Q, S=S, open_="one"), name="write_%dx%d" % (Q, S), need=["written"]))
        cs.append(Case("read", dict(Q=Q, S=S, open_="one", tails=0), name="read_%dx%d" % (Q, S), need=["read", "end"]))
    cs.append(Case("read", dict(Q=2, S=2, open_="one", tails=3 if q else 4), name="tails_2x2", need=["read", "tail"]))
    cs.append(Case("read", dict(Q=2, S=3, open_="one", tails=1, lines=3 if not q else 2), name="lines_2x3", need=["read", "end"]))
    cs.append(Case("read", dict(Q=2, S=2, open_="one", tails=0, lines=3, by_line=True), name="file_2x2", need=["read", "end"]))
    return cs
