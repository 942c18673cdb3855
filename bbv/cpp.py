"""Run a C++ harness of /verif/cpp on the C++ sources of the repository: symbolically
(from LLVM IR made from the current source) or natively (replay, with sanitizers and
valgrind)."""
import atexit
import os
import re
import shutil
import subprocess
import tempfile
from . import shim
from .cppfault import CppFault

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "cpp")
UNINIT = "uninitialised"


def src_dir():
    return os.path.join(os.path.dirname(shim.CODE), "cpp", "src")


def sources():
    out = []
    d = src_dir()
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp"):
            with open(os.path.join(d, f)) as h:
                if not re.search(r"\bint\s+main\s*\(", h.read()):
                    out.append(os.path.join(d, f))
    return out


class BuildError(Exception):
    pass


def sh(cmds, cwd):
    ps = [(c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)) for c in cmds]
    for c, p in ps:
        o = p.communicate()[0]
        if p.returncode:
            raise BuildError("%s\n%s" % (" ".join(c), o[-3000:]))


_modules = {}


def module(*harness):
    """IR module of the repository's C++ code plus the named harnesses."""
    m = _modules.get(harness)
    if m is not None:
        return m
    from . import llir
    d = tempfile.mkdtemp(prefix="bbv_ll_")
    try:
        flags = ["-std=c++17", "-O1", "-fno-rtti", "-fno-unroll-loops", "-fno-vectorize",
                 "-fno-slp-vectorize", "-fno-strict-aliasing", "-D_GLIBCXX_ASSERTIONS",
                 "-fno-discard-value-names", "-w", "-include", os.path.join(HERE, "prelude.h"),
                 "-I" + src_dir(), "-I" + HERE, "-emit-llvm", "-c"]
        srcs = sources() + [os.path.join(HERE, h + ".cpp") for h in harness + ("model",)]

        def build(extra):
            objs, cmds = [], []
            for i, s in enumerate(srcs):
                o = os.path.join(d, "%d.bc" % i)
                objs.append(o)
                cmds.append(["clang++"] + flags + extra + [s, "-o", o])
            sh(cmds, d)
            sh([["llvm-link"] + objs + ["-S", "-o", os.path.join(d, "all.ll")]], d)
        try:
            build(["-fno-exceptions"])
        except BuildError:
            build([])
        with open(os.path.join(d, "all.ll")) as f:
            m = llir.Module(f.read())
    finally:
        shutil.rmtree(d)
    m.ext_global = ext_global
    _modules[harness] = m
    return m


# ---------------------------------------------------------------------------
# models of the library

VTT = {"_ZTTSt14basic_ofstream": 248, "_ZTTSt14basic_ifstream": 256,
       "_ZTTSt13basic_fstream": 264}
VTB = {"_ZTVSt14basic_ofstream": 248, "_ZTVSt14basic_ifstream": 256}


def vtable(mem, ios):
    a = mem.new(64, "vtable")
    c = mem.objs[a >> 40].cells
    c[-24] = (8, ios)
    c[0] = (8, mem.m.addr("@bb_vt_d1"))
    c[8] = (8, mem.m.addr("@bb_vt_d0"))
    return a


def ext_global(mem, g, o):
    g = g[1:]
    if g in ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog"):
        o.size = 280
        setup_stream(mem, o, 0, 8)
        return True
    for k, ios in VTT.items():
        if g.startswith(k):
            v = vtable(mem, ios)
            for i in range(0, o.size, 8):
                o.cells[i] = (8, v)
            return True
    for k, ios in VTB.items():
        if g.startswith(k):
            o.fills = [(0, o.size, 0)]
            o.cells[0] = (8, ios)
            o.cells[24] = (8, mem.m.addr("@bb_vt_d1"))
            o.cells[32] = (8, mem.m.addr("@bb_vt_d0"))
            return True
    if g.startswith("_ZTV") or g.startswith("_ZTI"):
        o.fills = [(0, max(o.size, 64), 0)]
        return True
    return False


def ctype(mem):
    a = mem.new(576, "ctype")
    o = mem.objs[a >> 40]
    o.cells[56] = (1, 1)
    for c in range(256):
        o.cells[57 + c] = (1, c - 256 if c > 127 else c)
    return a


def setup_ios(mem, o, b):
    o.cells[b + 8] = (8, 6)
    o.cells[b + 16] = (8, 0)
    o.cells[b + 24] = (4, 4098)
    o.cells[b + 28] = (4, 0)
    o.cells[b + 32] = (4, 0)
    o.cells[b + 216] = (8, 0)
    o.cells[b + 224] = (1, 32)
    o.cells[b + 225] = (1, 1)
    o.cells[b + 232] = (8, 0)
    o.cells[b + 240] = (8, ctype(mem))


def setup_stream(mem, o, off, ios):
    o.cells[off] = (8, vtable(mem, ios))
    setup_ios(mem, o, off + ios)


def ios_of(R, s):
    v = R.mem.load(s, 8)
    return s + R.mem.load(v - 24, 8)


def state(R, s, v):
    R.mem.store(ios_of(R, s) + 32, v, 4)


class Lib:
    def __init__(self):
        self.f = {}

    def get(self, name):
        return self.f.get(name)

    def find(self, name):
        from . import llir
        for pre, f in PREFIX:
            if name.startswith(pre):
                self.f[name] = f
                return f
        return None


LIB = Lib()
PREFIX = []


def lib(*names):
    def g(f):
        for n in names:
            LIB.f[n] = f
        return f
    return g


def pre(*names):
    def g(f):
        for n in names:
            PREFIX.append((n, f))
        return f
    return g


@lib("_Znwm", "_Znam", "malloc")
def _new(R, n):
    n = int(n)
    if n < 0 or n > 1 << 30:
        raise CppFault("allocation of %d bytes" % n)
    return R.mem.new(n)


@lib("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free")
def _del(R, p, *a):
    R.mem.free(p)


@pre("_ZSt20__throw", "_ZSt2", "_ZSt1")
def _throw(R, *a):
    raise CppFault("the library throws")


@lib("_ZSt21__glibcxx_assert_failPKciS0_S0_")
def _assert(R, f, line, fn, cond):
    raise CppFault("library assertion fails: " + text_at(R, cond))


@lib("exit", "_exit", "quick_exit")
def _exit(R, c):
    raise CppFault("exit(%s)" % c)


@lib("abort", "llvm.trap", "__cxa_pure_virtual", "_ZSt9terminatev", "__clang_call_terminate")
def _abort(R, *a):
    raise CppFault("abort")


def text_at(R, p):
    out = ""
    while True:
        c = R.mem.load(p, 1)
        if not isinstance(c, int) or c == 0:
            return out
        out += chr(c & 255)
        p += 1


@pre("llvm.memset.")
def _memset(R, p, b, n, *a):
    R.mem.memset(p, b, n)


@pre("llvm.memcpy.", "llvm.memmove.")
def _memcpy(R, d, s, n, *a):
    R.mem.memcpy(d, s, n)


@lib("memset")
def _memset2(R, p, b, n):
    R.mem.memset(p, b, n)
    return p


@lib("memcpy", "memmove")
def _memcpy2(R, d, s, n):
    R.mem.memcpy(d, s, n)
    return d


@lib("memchr")
def _memchr(R, p, c, n):
    from . import llir
    c = llir.wrap(c, 8)
    r = 0
    for i in reversed(range(int(n))):
        r = llir.select(R.mem.load(p + i, 1) == c, p + i, r)
    return r


@lib("memcmp", "bcmp")
def _memcmp(R, p, q, n):
    for i in range(int(n)):
        a, b = R.mem.load(p + i, 1), R.mem.load(q + i, 1)
        if a != b:
            from . import llir
            return -1 if llir.uns(a, 8) < llir.uns(b, 8) else 1
    return 0


@lib("strlen")
def _strlen(R, p):
    i = 0
    while R.mem.load(p + i, 1) != 0:
        i += 1
    return i


def _minmax(name):
    m = re.fullmatch(r"llvm\.([us])(max|min)\.i(\d+)", name)
    from . import llir
    sg, op, bits = m.group(1), m.group(2), int(m.group(3))

    def f(R, a, b):
        lt = (a < b) if sg == "s" else llir.ult(a, b, bits)
        return llir.select(lt, b, a) if op == "max" else llir.select(lt, a, b)
    return f


for _n in ["llvm.%s%s.i%d" % (s, o, b) for s in "us" for o in ("max", "min")
           for b in (8, 16, 32, 64)]:
    def _late(R, a, b, _n=_n):
        f = _minmax(_n)
        LIB.f[_n] = f
        return f(R, a, b)
    LIB.f[_n] = _late


@pre("llvm.abs.")
def _abs(R, a, p):
    from . import llir
    return llir.select(a < 0, -a, a)


@pre("llvm.usub.sat.")
def _usubsat(R, a, b):
    from . import llir
    return llir.select(llir.ult(a, b, 64), 0, a - b)


@pre("llvm.umul.with.overflow.i64")
def _umulo(R, a, b):
    from . import llir
    v = llir.uns(a, 64) * llir.uns(b, 64)
    return (llir.wrap(v, 64), v >= (1 << 64))


@pre("llvm.expect.")
def _expect(R, a, b):
    return a


@pre("llvm.objectsize.")
def _objsize(R, *a):
    return -1


@lib("__cxa_atexit", "__cxa_begin_catch", "__cxa_end_catch", "_ZNSt8ios_base4InitC1Ev")
def _noop0(R, *a):
    return 0


# -- streams -------------------------------------------------------------------

def put(R, s, chars):
    R.out.setdefault(s, []).extend(chars)
    return s


def put_int(R, s, v):
    from . import llir
    from .engine import SymInt
    if type(v) is llir.Cat:
        v = v.full()
    if v is llir.UNDEF:
        raise CppFault("an uninitialised value is printed")
    if type(v) is SymInt:
        l, h = llir.bnd(v)
        if l is not None and l >= 0 and h is not None and h <= 9:
            return put(R, s, [v + 48])
        v = int(v)
    return put(R, s, [ord(c) for c in str(v)])


@lib("_ZNSolsEi", "_ZNSolsEl", "_ZNSolsEs", "_ZNSo9_M_insertIlEERSoT_", "_ZNSolsEx",
     "_ZNSo9_M_insertIxEERSoT_")
def _put_i(R, s, v):
    return put_int(R, s, v)


@lib("_ZNSolsEm", "_ZNSolsEj", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIyEERSoT_")
def _put_u(R, s, v):
    from . import llir
    return put_int(R, s, llir.uns(v, 64))


@lib("_ZNSo9_M_insertIbEERSoT_", "_ZNSolsEb")
def _put_b(R, s, v):
    from . import llir
    return put_int(R, s, llir.zext(v, 1, 64))


@lib("_ZNSo9_M_insertIdEERSoT_", "_ZNSolsEd")
def _put_d(R, s, v):
    return put(R, s, [ord("?")])


@lib("_ZNSo3putEc", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c")
def _put_c(R, s, c):
    from . import llir
    if c is llir.UNDEF:
        raise CppFault("an uninitialised character is printed")
    return put(R, s, [c])


@lib("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
def _put_s(R, s, p):
    out = []
    while True:
        c = R.mem.load(p, 1)
        if c == 0:
            return put(R, s, out)
        out.append(c)
        p += 1


@lib("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l",
     "_ZNSo5writeEPKcl")
def _put_n(R, s, p, n):
    from . import llir
    out = [R.mem.load(p + i, 1) for i in range(int(n))]
    if any(c is llir.UNDEF for c in out):
        raise CppFault("an uninitialised character is printed")
    return put(R, s, out)


@lib("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_"
     "RKNSt7__cxx1112basic_stringIS4_S5_T1_EE")
def _put_str(R, s, x):
    return _put_n(R, s, R.mem.load(x, 8), R.mem.load(x + 8, 8))


@lib("_ZNSo5flushEv", "_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")
def _flush(R, s):
    return s


@lib("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")
def _endl(R, s):
    return put(R, s, [10])


@lib("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate")
def _clear(R, ios, st):
    R.mem.store(ios + 32, st, 4)


@lib("_ZNSt8ios_baseC2Ev", "_ZNSt8ios_baseD2Ev", "_ZNSt6localeD1Ev", "_ZNSt6localeC1Ev",
     "_ZNSt12__basic_fileIcED1Ev", "_ZNSt13basic_filebufIcSt11char_traitsIcEEC1Ev",
     "_ZNSt13basic_filebufIcSt11char_traitsIcEED1Ev", "_ZNSt13basic_filebufIcSt11char_traitsIcEED2Ev",
     "_ZNSt15basic_streambufIcSt11char_traitsIcEED2Ev")
def _noop(R, *a):
    pass


@lib("_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E")
def _init(R, ios, sb):
    o, off = R.mem.locate(ios, 8, True)
    setup_ios(R.mem, o, off)


@lib("_ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode")
def _open(R, fb, name, mode):
    R.opened[text_at(R, name)] = fb - 8
    return fb


@lib("_ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv")
def _close(R, fb):
    return fb


@lib("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode",
     "_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC2ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode")
def _ofs(R, s, name, mode):
    o, off = R.mem.locate(s, 512, True)
    setup_stream(R.mem, o, off, 248)
    R.opened[text_at(R, R.mem.load(name, 8))] = s


@lib("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode")
def _ofs2(R, s, name, mode):
    o, off = R.mem.locate(s, 512, True)
    setup_stream(R.mem, o, off, 248)
    R.opened[text_at(R, name)] = s


@lib("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv",
     "_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev", "_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev",
     "_ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv",
     "_ZNSt14basic_ofstreamIcSt11char_traitsIcEED2Ev", "_ZNSt14basic_ifstreamIcSt11char_traitsIcEED2Ev")
def _noop2(R, *a):
    pass


@lib("bb_vt_d1")
def _vt_d1(R, s):
    pass


@lib("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED0Ev", "bb_vt_d0")
def _ofs_del(R, s):
    R.mem.free(s)


@lib("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode",
     "_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode")
def _ifs(R, s, name, mode):
    o, off = R.mem.locate(s, 520, True)
    setup_stream(R.mem, o, off, 256)
    R.ins[s] = list(R.file)


def getline(R, s, string, delim=10):
    chars = R.ins[s]
    ios = ios_of(R, s)
    st = R.mem.load(ios + 32, 4)
    if st != 0:
        R.mem.store(ios + 32, st | 4, 4)
        return s
    line = []
    st = 2
    while chars:
        c = chars.pop(0)
        if c == delim:
            st = 0
            break
        line.append(c)
    if st == 2 and not line:
        st = 6
    buf = R.mem.new(8 * len(line) + 8)
    for i, c in enumerate(line):
        R.mem.store(buf + 8 * i, c, 8)
    R.fn("@bb_string_set")(R, string, buf, len(line))
    R.mem.free(buf)
    R.mem.store(ios + 32, st, 4)
    return s


@lib("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE")
def _getline(R, s, string):
    return getline(R, s, string)


@lib("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_")
def _getline3(R, s, string, d):
    return getline(R, s, string, d)


@lib("_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv")
def _now(R):
    return 0


# -- the harness' runtime ---------------------------------------------------------

@lib("bb_ostream")
def _bb_os(R):
    a = R.mem.new(280, "stream")
    setup_stream(R.mem, R.mem.objs[a >> 40], 0, 8)
    return a


@lib("bb_istream")
def _bb_is(R, p, n):
    a = R.mem.new(280, "stream")
    setup_stream(R.mem, R.mem.objs[a >> 40], 0, 16)
    R.ins[a] = [R.mem.load(p + 8 * i, 8) for i in range(int(n))]
    return a


@lib("bb_text")
def _bb_text(R, s, out):
    t = R.out.get(s, [])
    R.mem.store(out, len(t), 8)
    for i, c in enumerate(t):
        R.mem.store(out + 8 + 8 * i, c, 8)


@lib("bb_file")
def _bb_file(R, p, n):
    R.file = [R.mem.load(p + 8 * i, 8) for i in range(int(n))]
    return cstr(R, "in")


def cstr(R, s):
    a = R.mem.new(len(s) + 1)
    for i, c in enumerate(s):
        R.mem.store(a + i, ord(c), 1)
    R.mem.store(a + len(s), 0, 1)
    return a


@lib("bb_outfile")
def _bb_outfile(R, k):
    return cstr(R, "out%d" % k)


@lib("bb_outtext")
def _bb_outtext(R, k, out):
    _bb_text(R, R.opened.get("out%d" % k), out)


# ---------------------------------------------------------------------------

def call(ctx, harness, name, args):
    """Outputs of hx_<name>(args); an output that was never initialised is UNINIT."""
    if ctx.symbolic:
        return _symbolic(harness, name, args)
    return _native(harness, name, args)


def _symbolic(harness, name, args):
    from . import llir
    m = module(*harness)
    R = llir.Run(m, LIB)
    R.opened = {}
    R.file = []
    mem = R.mem
    inp = mem.new(8 * max(1, len(args)))
    for i, v in enumerate(args):
        mem.store(inp + 8 * i, v, 8)
    out = mem.new(8 * 65536)
    n = int(R.fn("@hx_" + name)(R, inp, out))
    res = []
    for i in range(n):
        v = mem.load(out + 8 * i, 8)
        if type(v) is llir.Cat:
            v = v.full()
        res.append(UNINIT if v is llir.UNDEF else v)
    call.last = R
    return res


_native_dir = None


def _die_with_parent():
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def _native(harness, name, args):
    d = tempfile.mkdtemp(prefix="bbv_nat_")
    try:
        srcs = sources() + [os.path.join(HERE, h + ".cpp") for h in harness + ("native",)]
        variants = {
            "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
            "plain": ["-O0"],
        }
        cmds = []
        for v, fl in variants.items():
            for i, s in enumerate(srcs):
                cmds.append(["clang++", "-std=c++17", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS"] + fl +
                            ["-I" + src_dir(), "-I" + HERE, "-c", s, "-o", "%s%d.o" % (v, i)])
        sh(cmds, d)
        sh([["clang++", "-rdynamic"] + fl + ["%s%d.o" % (v, i) for i in range(len(srcs))] +
            ["-o", v, "-ldl"] for v, fl in variants.items()], d)
        line = "%s %d %s\n" % (name, len(args), " ".join(str(int(a)) for a in args))
        res = []
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        for cmd in (["./asan", d], ["valgrind", "-q", "--error-exitcode=0", "./plain", d]):
            p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, preexec_fn=_die_with_parent, env=env)
            try:
                o, e = p.communicate(line.encode(), timeout=10)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise CppFault("the code did not finish within 10 s")
            o, e = o.decode("latin-1"), e.decode("latin-1")
            m = re.search(r"^RESULT (\d+)(.*)$", o, re.M)
            if p.returncode or not m:
                if p.returncode in (90, 91):
                    raise RuntimeError("native harness: %d" % p.returncode)
                raise CppFault("%s: exit %s %s" % (cmd[0], p.returncode, e[-600:]))
            bad = [l for l in e.splitlines() if re.search(
                r"Invalid (read|write|free)|depends on uninitialised|Mismatched free", l)]
            if bad:
                raise CppFault("valgrind: " + bad[0])
            res.append([UNINIT if x == "U" else int(x) for x in m.group(2).split()])
        a, v = res
        if len(a) != len(v):
            raise CppFault("results differ between builds")
        return [y if y == UNINIT else x for x, y in zip(a, v)]
    finally:
        shutil.rmtree(d)
