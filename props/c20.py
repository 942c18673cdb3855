"""Record files that end anywhere: reading, skipping and counting."""
import gzip
import os
import shutil
import struct
import tempfile
import types
import zlib

from bbv.runner import Case
from bbv import shim
from bbv.shim import patched

INFO = {
    "functions": ["Proto.Writer.write_record", "Proto.Reader._read_message_len/read_record/skip_record/__iter__",
                  "Proto.load_record", "StdText.Reader/Writer", "General.Reader/Writer"],
    "bounds": "sym: up to 4 records, every length of each (0 to 2^32-1), every cut position, every sequence of reads and "
              "skips; bytes: up to 3 real records of several sizes in a real file cut at every byte, plain and gzip, read, skipped, "
              "iterated, loaded by number; text: up to 3 lines, cut at every byte",
    "outside": "damage other than a cut; the protobuf and gzip libraries (stand-ins in the sym cases); whether "
               "a partial last line of a text file is a machine (the format cannot tell)",
}


def sym(x):
    return type(x).__name__ in ("SymInt", "SymBool")


class SData:
    """A slice of a file: symbolic start and length."""

    def __init__(self, chunks, start, length):
        self.chunks, self.start, self.n = chunks, start, length

    def __bool__(self):
        return bool(self.n != 0)

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step is not None:
            raise Bad("single bytes")
        lo = 0 if i.start is None else i.start
        hi = self.n if i.stop is None else i.stop
        if lo < 0:
            lo = self.n + lo
        if hi < 0:
            hi = self.n + hi
        if lo < 0:
            lo = 0
        if hi > self.n:
            hi = self.n
        if hi < lo:
            hi = lo
        return SData(self.chunks, self.start + lo, hi - lo)

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)) and len(o) == 0:
            return self.n == 0
        return self is o

    def _from_bytes(self, order="big", signed=False):
        return self.length(self, order)


class Chunks(list):
    """Written data put together."""

    def __add__(self, o):
        return Chunks(list(self) + ([o] if isinstance(o, Chunk) else list(o)))

    def __radd__(self, o):
        return Chunks(([o] if isinstance(o, Chunk) else list(o)) + list(self))


class Chunk:
    """What was written: a length field or a message."""

    def __init__(self, kind, value, n):
        self.kind, self.value, self.n = kind, value, n

    def __add__(self, o):
        return Chunks([self]) + o

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)) and len(o) == 0:
            return self
        return Chunks(o) + self


class SFile:
    def __init__(self, ctx):
        self.ctx, self.chunks, self.total, self.pos, self.cut = ctx, [], 0, 0, None
        self.writing = True

    def write(self, c):
        if isinstance(c, Chunks):
            return sum([self.write(x) for x in c])
        if type(c) is not Chunk:
            raise TypeError("unexpected data")
        c.at = self.total
        self.chunks.append(c)
        self.total = self.total + c.n
        return c.n

    def flush(self):
        pass

    def close(self):
        pass

    def read(self, n=None):
        left = self.cut - self.pos
        if left < 0:
            left = 0
        if n is None or n < 0 or n > left:
            n = left
        r = SData(self.chunks, self.pos, n)
        self.pos = self.pos + n
        return r

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else self.cut + off
        return self.pos

    def tell(self):
        return self.pos


def identify(ctx, d, kind):
    """The chunk a slice is exactly, or None."""
    for c in d.chunks:
        if c.kind == kind and ctx.must(ctx.And(d.start == c.at, d.n == c.n)):
            return c
    return None


class FakeMsg:
    def __init__(self, ctx, token=None, n=None):
        self.ctx, self.token, self.n = ctx, token, n

    def SerializeToString(self):
        return Chunk("msg", self.token, self.n)

    def ParseFromString(self, d):
        c = identify(self.ctx, d, "msg")
        if c is None:
            self.ctx.fail("bytes that are not one whole record are taken for one")
        self.token = c.value
        return c.n

    @classmethod
    def of(cls, ctx):
        return lambda: cls(ctx)


def slen(x):
    if isinstance(x, (SData, Chunk)):
        return x.n
    if isinstance(x, Chunks):
        return sum(c.n for c in x)
    return len(x)


def stream(ctx, K, ops):
    """K records, cut anywhere, then `ops` reads or skips."""
    P = shim.load("IO.Proto")
    if not ctx.symbolic:
        return stream_real(ctx, P, K, ops)
    out = SFile(ctx)
    lens = [ctx.int("L%d" % i, 0, 2**32 - 1) for i in range(K)]
    w = P.Writer("/nonexistent/x.pb")
    w.outfile = out

    def pack(fmt, v):
        if fmt not in ("<L", "<I"):
            raise Bad("format " + str(fmt))
        if v < 0 or v > 2**32 - 1:
            raise struct.error("argument out of range")
        return Chunk("len", v, 4)

    def unpack(fmt, d):
        if fmt not in ("<L", "<I"):
            raise Bad("format " + fmt)
        if d.n != 4:
            raise struct.error("unpack requires a buffer of 4 bytes")
        c = identify(ctx, d, "len")
        if c is None:
            ctx.fail("bytes that are not a length field are taken for one")
        return (c.value,)

    def to_bytes(v, n=1, order="big", *, signed=False):
        if n != 4 or order != "little":
            raise Bad("format")
        if v < 0 or v > 2**32 - 1:
            raise OverflowError("int too big to convert")
        return Chunk("len", v, 4)

    def length(d, order):
        if order != "little":
            raise Bad("format")
        if d.n == 0:
            return 0
        return unpack("<L", d)[0]

    class Struct:
        def __init__(self, fmt):
            self.format, self.size = fmt, 4

        def pack(self, v):
            return pack(self.format, v)

        def unpack(self, d):
            return unpack(self.format, d)
    SData.length = staticmethod(length)
    if ctx.symbolic:
        from bbv import engine
        engine.TO_BYTES = to_bytes
    fake = types.SimpleNamespace(pack=pack, unpack=unpack, error=struct.error, Struct=Struct,
                                 calcsize=lambda fmt: struct.calcsize(fmt))
    with patched(ctx, P, struct=fake, len=slen, io_pb2=types.SimpleNamespace(TMRecord=FakeMsg.of(ctx))):
        for i in range(K):
            w.write_record(types.SimpleNamespace(proto=FakeMsg(ctx, i, lens[i])))
        ctx.check(out.total == 4 * K + sum(lens), "size of the file")
        cut = ctx.int("cut", 0)
        ctx.assume(cut <= out.total)
        out.cut = cut
        r = P.Reader("/nonexistent/x.pb")
        r.infile = out
        judge(ctx, P, r, cut, lens, ops, lambda rec: rec.proto.token)


class Bad(Exception):
    pass


def judge(ctx, P, r, cut, lens, ops, token):
    ends, e = [], 0
    for n in lens:
        e = e + 4 + n
        ends.append(e)
    for j in range(ops):
        skip = ctx.bool("skip%d" % j)
        start = 0 if j == 0 else ends[j - 1] if j <= len(lens) else None
        whole = ctx.And(j < len(lens), ends[j] <= cut) if j < len(lens) else False
        err = None
        try:
            if skip:
                got = r.skip_record()
            else:
                got = r.read_record()
        except (P.IO_Error, EOFError) as x:
            err = x
        if err is not None:
            ctx.check(ctx.Not(whole), "a complete record is read without error")
            ctx.check(cut > start, "a file that ends between records ends without error")
            ctx.note("error")
            return
        if skip:
            done = not got
        else:
            done = got is None
            if not done:
                ctx.check(token(got) == j, "records come back unchanged and in order")
        if done:
            ctx.check(ctx.Not(whole), "no complete record is missed")
            ctx.note("end")
            return
        ctx.check(whole, "only complete records are counted")
        ctx.note("skip" if skip else "read")


def make_records(P, sizes):
    R = shim.load("IO.TM_Record")
    E = shim.load("TM_Enum")
    pb = shim.load("io_pb2")
    recs = []
    for i, n in enumerate(sizes):
        rec = R.TM_Record(proto=pb.TMRecord())
        rec.proto.elapsed_time_us = 0
        fill(rec.proto, i, n)
        recs.append(rec)
    return recs


def fill(proto, i, n):
    """Make the message n bytes long where possible (n = 0 or n >= 4)."""
    if n == 0:
        return
    b = max(0, n - 4)
    proto.tm.ttable_packed = bytes((i * 37 + k) % 256 for k in range(b))
    k = 0
    while proto.ByteSize() < n and k < 20:
        b += 1
        k += 1
        proto.tm.ttable_packed = bytes((i * 37 + j) % 256 for j in range(b))


def stream_real(ctx, P, K, ops):
    """Replay of a symbolic counterexample with real records of the same lengths (big ones shortened)."""
    lens = [ctx.int("L%d" % i, 0, 2**32 - 1) for i in range(K)]
    cut = ctx.int("cut", 0)
    d = tempfile.mkdtemp(prefix="bbv_c20_")
    try:
        # keep the place of the cut relative to the fields
        real, c2, e, done = [], 0, 0, False
        recs = make_records(P, [min(n, 300) for n in lens])
        real = [x.proto.ByteSize() for x in recs]
        for n, m in zip(lens, real):
            if done:
                break
            if cut >= e + 4 + n:
                c2 += 4 + m
            elif cut >= e + 4:
                c2 += 4 + min(cut - e - 4, max(m - 1, 0))
                done = True
            else:
                c2 += max(0, cut - e)
                done = True
            e += 4 + n
        fn = os.path.join(d, "x.pb")
        with P.Writer(fn) as w:
            for x in recs:
                w.write_record(x)
        with open(fn, "r+b") as f:
            f.truncate(c2)
        with P.Reader(fn) as r:
            judge(ctx, P, r, c2, real, ops, lambda got: [x.proto for x in recs].index(got.proto))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cutfile(ctx, kind, sizes):
    """Real files."""
    P = shim.load("IO.Proto")
    R = shim.load("IO.TM_Record")
    IO = shim.load("IO")
    sizes = sizes[ctx.choice("sizes", len(sizes))]
    recs = make_records(P, sizes)
    lens = [x.proto.ByteSize() for x in recs]
    raw = [x.proto.SerializeToString() for x in recs]
    d = tempfile.mkdtemp(prefix="bbv_c20_")
    try:
        fn = os.path.join(d, "x" + kind)
        with P.Writer(fn) as w:
            for x in recs:
                w.write_record(x)
                w.flush()
        size = os.path.getsize(fn)
        if kind == ".pb":
            ctx.check(size == sum(4 + n for n in lens), "size of the file")
        cut = ctx.concrete(ctx.int("cut", 0, size))
        with open(fn, "r+b") as f:
            f.truncate(cut)
        whole = 0
        while whole < len(lens) and sum(4 + n for n in lens[:whole + 1]) <= cut:
            whole += 1
        exact = cut == sum(4 + n for n in lens[:whole])
        gz = kind != ".pb"
        # iteration
        got, err = [], None
        try:
            with P.Reader(fn) as r:
                for x in r:
                    got.append(x.proto.SerializeToString())
        except (P.IO_Error, EOFError, gzip.BadGzipFile, zlib.error) as e:
            err = e
        ctx.check(got == raw[:len(got)], "records come back unchanged and in order")
        if not gz:
            ctx.check(len(got) == whole, "exactly the complete records are read")
            ctx.check((err is None) == exact, "a cut inside a record is reported")
        else:
            # a cut gzip file ends in an error; nothing is invented
            ctx.check(len(got) <= len(recs) and (cut != size or (err is None and len(got) == len(recs))),
                      "a whole compressed file is read whole")
            ctx.check(cut == size or cut == 0 or err is not None, "a cut compressed file ends in an error")
        # skipping
        n, err2 = 0, None
        try:
            with P.Reader(fn) as r:
                while r.skip_record():
                    n += 1
                    ctx.check(n <= len(recs), "skipping ends")
        except (P.IO_Error, EOFError, gzip.BadGzipFile, zlib.error) as e:
            err2 = e
        ctx.check(n == len(got), "skipping counts what reading reads")
        ctx.check((err2 is None) == (err is None), "skipping reports what reading reports")
        # by number
        i = ctx.choice("i", len(recs) + 1)
        try:
            x = P.load_record(fn, i)
            ctx.check(i < len(got) and x.proto.SerializeToString() == raw[i], "a record by number")
            ctx.note("load")
        except (P.IO_Error, EOFError, gzip.BadGzipFile, zlib.error, IO.Common.RecordLocateError):
            ctx.check(i >= len(got), "a complete record can be loaded by number")
    finally:
        shutil.rmtree(d, ignore_errors=True)


LINES = ["1RB1LB_1LA1RZ", "1RB---_0LA1RA", "1RB2LA1RZ_2LB1RA0RA"]


def textcut(ctx):
    IO = shim.load("IO")
    R = shim.load("IO.TM_Record")
    n = ctx.concrete(ctx.int("n", 0, 3))
    d = tempfile.mkdtemp(prefix="bbv_c20_")
    try:
        fn = os.path.join(d, "x.txt")
        with IO.StdText.Writer(fn) as w:
            for t in LINES[:n]:
                w.write_tm(R.parse_tm(t))
                w.flush()
        with open(fn) as f:
            ctx.check(f.read() == "".join(t + "\n" for t in LINES[:n]), "one line per machine")
        size = os.path.getsize(fn)
        cut = ctx.concrete(ctx.int("cut", 0, size))
        with open(fn, "r+b") as f:
            f.truncate(cut)
        whole = 0
        while whole < n and sum(len(t) + 1 for t in LINES[:whole + 1]) <= cut:
            whole += 1
        got = []
        try:
            with IO.StdText.Reader(fn) as r:
                for x in r:
                    got.append(x.ttable_str())
        except (AssertionError, ValueError):
            pass
        ctx.check(got[:whole] == LINES[:whole], "every complete line is read, in order")
        ctx.check(len(got) <= whole + 1, "at most the cut line follows")
        if cut == sum(len(t) + 1 for t in LINES[:whole]):
            ctx.check(len(got) == whole, "nothing is invented")
            k = 0
            with IO.StdText.Reader(fn) as r:
                while r.skip_record():
                    k += 1
            ctx.check(k == whole, "skipping counts the lines")
        for i in range(whole):
            ctx.check(IO.StdText.load_record(fn, i).ttable_str() == LINES[i], "a line by number")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cases(tier):
    q = tier == "quick"
    cs = []
    for K in range(0, 4 if q else 6):
        need = ["end"] + (["read", "skip", "error"] if K else [])
        cs.append(Case("stream", dict(K=K, ops=K + 1), name="stream_%d" % K, need=need))
    z = [[], [0], [6], [0, 0, 7], [20, 5, 0], [9, 30, 8]] + ([] if q else [[300, 4, 260], [128, 127, 129], [0, 700]])
    for kind in (".pb", ".pb.gz"):
        cs.append(Case("cutfile", dict(kind=kind, sizes=z), name="cut" + kind, need=["load"]))
    cs.append(Case("textcut", {}, name="text"))
    return cs
