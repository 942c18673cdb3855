"""Work queues: plain ones, and the distributed one under every schedule."""
import ast
import contextlib
import io
import sys
import threading
import types

from bbv.runner import Case
from bbv import shim
from bbv.shim import patched

INFO = {
    "functions": ["Work_Queue.Basic_LIFO_Work_Queue/Basic_FIFO_Work_Queue", "MPI_Work_Queue.Master.run_master",
                  "MPI_Work_Queue.MPI_Worker_Work_Queue.pop_job/push_job/push_jobs/_send_extra/_update_max_queue_size/_report_queue_size"],
    "bounds": "plain: every history of up to 6 operations (thorough 8), batches of 0-3; worker: 4 operations with every batch size up "
              "to 10^6 and every limit the master can send; master: 2-3 workers, every number of jobs up to 80 (thorough 150) "
              "arriving in up to 3 messages, to the end; together: 1 master and 2 workers (thorough 3) with small limits, up to 3 first jobs and "
              "3 children, every order of actions and every delay of messages (per sender in order), with and without size updates",
    "outside": "the MPI library (stand-in with ordered, lossless channels and arbitrary delays), failing processes, more workers or jobs",
}


# -- plain queues -----------------------------------------------------------------

def plain(ctx, kind, n):
    W = shim.load("Work_Queue")
    q = W.Basic_LIFO_Work_Queue() if kind == "lifo" else W.Basic_FIFO_Work_Queue()
    ctx.check(isinstance(q, W.Work_Queue), "is a work queue")
    model, nxt = [], 0
    falsy = [0, "", False, (), 0.0]

    def new():
        nonlocal nxt
        nxt += 1
        # jobs may be any objects, empty ones too
        return falsy[nxt // 3] if nxt % 3 == 0 and nxt // 3 < len(falsy) else ("job", ctx.int("payload%d" % nxt))
    sizes = [0]
    for i in range(n):
        op = ctx.choice("op%d" % i, 4 if kind == "lifo" else 3)
        if op == 0:
            got = q.pop_job()
            if not model:
                ctx.check(got is None, "an empty queue gives nothing")
                ctx.note("empty")
            else:
                want = model.pop() if kind == "lifo" else model.pop(0)
                ctx.check(got is want, "jobs come out in order")
                ctx.note("pop")
        elif op == 1:
            j = new()
            q.push_job(j)
            model.append(j)
        elif op == 2:
            k = ctx.choice("batch%d" % i, 4)
            js = [new() for _ in range(k)]
            copy = list(js)
            q.push_jobs(js)
            js.append("later")      # the caller's list stays the caller's
            model.extend(copy)
        else:
            size, mn, mx = q.get_stats()
            ctx.check(mn <= size <= mx, "statistics are ordered")
    q.print_stats()
    while True:
        got = q.pop_job()
        if not model:
            ctx.check(got is None, "nothing is left over")
            return
        want = model.pop() if kind == "lifo" else model.pop(0)
        ctx.check(got is want, "no job is lost")


# -- symbolic lists ---------------------------------------------------------------

class Seg:
    """jobs name[start .. start+n)"""

    def __init__(self, name, start, n):
        self.name, self.start, self.n = name, start, n


class SegList:
    def __init__(self, ctx, segs=()):
        self.ctx, self.segs = ctx, list(segs)

    def size(self):
        return sum((s.n for s in self.segs), 0)

    def __bool__(self):
        return bool(self.size() != 0)

    def _of(self, o):
        if isinstance(o, SegList):
            return list(o.segs)
        if isinstance(o, (list, tuple)):
            r = []
            for x in o:
                if not isinstance(x, Seg):
                    raise TypeError("not a job: %r" % (x,))
                r.append(Seg(x.name, x.start, 1))
            return r
        raise TypeError("can only concatenate lists")

    def __add__(self, o):
        return SegList(self.ctx, self.segs + self._of(o))

    def __radd__(self, o):
        return SegList(self.ctx, self._of(o) + self.segs)

    def __iadd__(self, o):
        self.segs += self._of(o)
        return self

    def extend(self, o):
        self.segs += self._of(o)

    def append(self, x):
        self.segs += self._of([x])

    def copy(self):
        return SegList(self.ctx, self.segs)

    def clear(self):
        self.segs = []

    def pop(self, i=-1):
        if i not in (-1, 0):
            raise NotImplementedError
        while self.segs:
            s = self.segs[i]
            if s.n == 0:
                self.segs.pop(i)
                continue
            if i == -1:
                self.segs[i] = Seg(s.name, s.start, s.n - 1)
                return Seg(s.name, s.start + s.n - 1, 1)
            self.segs[i] = Seg(s.name, s.start + 1, s.n - 1)
            return Seg(s.name, s.start, 1)
        raise IndexError("pop from empty list")

    def _cut(self, i):
        """Number of whole segments before position i >= 0, and what is left of i."""
        k = 0
        while k < len(self.segs):
            n = self.segs[k].n
            if i < n:
                break
            i = i - n
            k += 1
        return k, i

    def _idx(self, i, default):
        n = self.size()
        if i is None:
            return default
        if type(i).__name__ not in ("SymInt", "int"):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if i < 0:
            i = i + n
            if i < 0:
                i = 0
        if i > n:
            i = n
        return i

    def __getitem__(self, s):
        if not isinstance(s, slice):
            if type(s).__name__ == "int" and s in (0, -1):
                return self.copy().pop(s)
            raise NotImplementedError
        if s.step is not None:
            raise NotImplementedError
        a, b = self._idx(s.start, 0), self._idx(s.stop, self.size())
        if b <= a:
            return SegList(self.ctx)
        return self._from(a)._upto(b - a)

    def _from(self, a):
        k, r = self._cut(a)
        out = self.segs[k:]
        if out:
            f = out[0]
            out = [Seg(f.name, f.start + r, f.n - r)] + out[1:]
        return SegList(self.ctx, out)

    def _upto(self, b):
        k, r = self._cut(b)
        out = self.segs[:k]
        if k < len(self.segs):
            f = self.segs[k]
            out = out + [Seg(f.name, f.start, r)]
        return SegList(self.ctx, out)

    def __delitem__(self, s):
        if not isinstance(s, slice) or s.step is not None:
            raise NotImplementedError
        a, b = self._idx(s.start, 0), self._idx(s.stop, self.size())
        if b < a:
            b = a
        self.segs = (self._upto(a) + self._from(b)).segs

    def __iter__(self):
        raise NotImplementedError("iteration over a symbolic list")


def slen(x):
    return x.size() if isinstance(x, SegList) else len(x)


class Empty(ast.NodeTransformer):
    """[] and list() make symbolic lists."""

    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("_bbv_list", ast.Load()), [], []), n)
        return n


def build_run(ctx, name, n):
    """A batch of n jobs."""
    if ctx.symbolic:
        return SegList(ctx, [Seg(name, 0, n)])
    return [(name, i) for i in range(n)]


def account(ctx, given, lists, msg):
    """The jobs in `lists` are exactly the jobs given: {name: n}."""
    if not ctx.symbolic:
        flat = sorted(x for l in lists for x in l)
        ctx.check(flat == sorted((k, i) for k, n in given.items() for i in range(n)), msg)
        return
    segs = {}
    for l in lists:
        for s in (l.segs if isinstance(l, SegList) else SegList(ctx)._of(l)):
            segs.setdefault(s.name, []).append(s)
    for name, n in given.items():
        ss = segs.pop(name, [])
        ctx.check(sum((s.n for s in ss), 0) == n, msg)
        for i, s in enumerate(ss):
            ctx.check(ctx.Or(s.n == 0, ctx.And(s.n > 0, s.start >= 0, s.start + s.n <= n)), msg)
            for t in ss[:i]:
                ctx.check(ctx.Or(s.n == 0, t.n == 0, s.start + s.n <= t.start, t.start + t.n <= s.start), msg)
    ctx.check(not segs, msg)


# -- MPI stand-in -------------------------------------------------------------------

class Dead(BaseException):
    """Unwinds a thread whose run is over."""


class Comm:
    """Ordered lossless channels.  The harness decides when sent messages arrive."""

    def __init__(self):
        self.world = None

    def Get_rank(self):
        return self.world.me() if self.world else 0

    def Get_size(self):
        return self.world.size if self.world else 2
    rank = property(Get_rank)
    size = property(Get_size)

    def send(self, obj, dest, tag=0):
        self.world.send(obj, dest, tag)

    def isend(self, obj, dest, tag=0):
        return self.world.send(obj, dest, tag, True)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return self.world.recv(source, tag, status)

    def Iprobe(self, source=-1, tag=-1, status=None):
        return self.world.iprobe(source, tag, status)
    iprobe = Iprobe

    def Probe(self, source=-1, tag=-1, status=None):
        return self.world.probe(source, tag, status)
    probe = Probe


class Status:
    def __init__(self):
        self.source, self.tag = None, None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def set(self, m):
        if self is not None:
            self.source, self.tag = m.src, m.tag


class Message:
    def __init__(self, src, dest, tag, obj):
        self.src, self.dest, self.tag, self.obj = src, dest, tag, obj
        self.gone = False

    # request of an isend
    def Cancel(self):
        if not self.taken():
            self.gone = True

    def taken(self):
        return self.gone

    def Wait(self, status=None):
        return True
    wait = Wait
    cancel = Cancel

    def Test(self, status=None):
        return True


COMM = Comm()
MPI = types.SimpleNamespace(COMM_WORLD=COMM, ANY_SOURCE=-1, ANY_TAG=-1, Status=Status)
_mod = {}


def module(symbolic_lists):
    m = sys.modules.get("mpi4py")
    if m is None or getattr(m, "MPI", None) is not MPI:
        m = types.ModuleType("mpi4py")
        m.MPI = MPI
        sys.modules["mpi4py"] = m
        sys.modules["mpi4py.MPI"] = types.ModuleType("mpi4py.MPI")
        vars(sys.modules["mpi4py.MPI"]).update(vars(MPI))
    if not symbolic_lists:
        return shim.load("MPI_Work_Queue")
    if "seg" not in _mod:
        base = shim.load("MPI_Work_Queue")
        src = open(base.__file__).read()
        tree = ast.fix_missing_locations(Empty().visit(ast.parse(src)))
        m = types.ModuleType("MPI_Work_Queue_sym")
        m.__file__ = base.__file__
        sys.modules[m.__name__] = m
        m._bbv_list = lambda: SegList(None)
        m.len = slen
        exec(compile(tree, base.__file__, "exec"), m.__dict__)
        if shim.PATCH is not None:
            shim.PATCH()
        m.len = slen
        _mod["seg"] = m
    return _mod["seg"]


class Clock:
    def __init__(self):
        self.now = 1000.0

    def time(self):
        return self.now

    monotonic = perf_counter = time

    def sleep(self, s):
        self.now += s


@contextlib.contextmanager
def setting(M, world, clock, **consts):
    names = dict(consts)
    names["num_proc"] = world.size
    if "time" in vars(M):
        names["time"] = clock
    old = {k: vars(M)[k] for k in names if k in vars(M)}
    try:
        for k in old:
            setattr(M, k, names[k])
        COMM.world = world
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        COMM.world = None
        for k, v in old.items():
            setattr(M, k, v)


# -- one worker, batches of any size ---------------------------------------------------

class WorkerWorld:
    """A worker alone: what it sends is kept, the harness answers."""
    size = 2

    def __init__(self, ctx, tags):
        self.ctx, self.tags = ctx, tags
        self.sent, self.reports, self.inbox, self.answers = [], [], [], []
        self.waiting = 0

    def me(self):
        return 1

    def send(self, obj, dest, tag, req=False):
        self.ctx.check(dest == 0, "workers talk to the master")
        if tag == self.tags["PUSH_JOBS"]:
            self.sent.append(obj.copy())
        elif tag == self.tags["WAITING_FOR_POP"]:
            self.waiting += 1
        elif tag != self.tags["REPORT_QUEUE_SIZE"]:
            self.ctx.fail("a message the master does not know")

    def iprobe(self, source, tag, status):
        return bool(self.inbox) and tag in (-1, self.tags["UPDATE_MAX_QUEUE_SIZE"])

    def recv(self, source, tag, status):
        if tag == self.tags["UPDATE_MAX_QUEUE_SIZE"]:
            return self.inbox.pop(0)
        if tag == self.tags["POP_JOBS"]:
            if self.waiting != 1:
                self.ctx.fail("a worker waits for jobs without saying so")
            self.waiting = 0
            return self.answers.pop(0)
        self.ctx.fail("a message no master sends")


TAGS = ("PUSH_JOBS", "WAITING_FOR_POP", "POP_JOBS", "REPORT_QUEUE_SIZE", "UPDATE_MAX_QUEUE_SIZE")


def tags(M):
    t = {k: getattr(M, k) for k in TAGS}
    return t


def worker(ctx, ops, big):
    M = module(ctx.symbolic)
    T = tags(M)
    ctx.check(len(set(T.values())) == len(T), "tags are distinct")
    w = WorkerWorld(ctx, T)
    clock = Clock()
    given, popped = {}, []
    nxt = 0

    def batch(lo=0):
        nonlocal nxt
        nxt += 1
        n = ctx.int("n%d" % nxt, lo, big)
        given["b%d" % nxt] = n
        return build_run(ctx, "b%d" % nxt, n)
    with setting(M, w, clock):
        q = M.MPI_Worker_Work_Queue(master_proc_num=0, pout=io.StringIO())
        for i in range(ops):
            op = ctx.choice("op%d" % i, 3)
            if ctx.bool("late%d" % i):
                clock.now += 100
            if op == 0:
                ans = batch()
                w.answers.append(ans)
                size = given["b%d" % nxt]
                j = q.pop_job()
                asked = not w.answers
                if not asked:
                    w.answers.pop()
                    given["b%d" % nxt] = 0
                if j is None:
                    ctx.check(asked, "a worker gives up only after the master")
                    ctx.check(size == 0, "a worker gives up only when told so")
                    ctx.note("end")
                    break
                popped.append([j])
                ctx.note("pop")
            elif op == 1:
                q.push_jobs(batch())
                ctx.note("push")
            else:
                # the master never sends less than its batch size
                w.inbox.append(ctx.int("max%d" % i, M.MAX_NUM_JOBS_PER_BATCH if hasattr(M, "MAX_NUM_JOBS_PER_BATCH") else 25, big))
                ctx.note("update")
        if w.sent:
            ctx.note("sent")
        kept = [v for v in vars(q).values() if isinstance(v, (SegList, list))]
        account(ctx, given, w.sent + popped + kept, "every job is kept, handed out or sent back, once")


# -- the master, jobs in any number ----------------------------------------------------

class MasterWorld:
    """The master with workers that finish what they get at once."""

    def __init__(self, ctx, tags, W, firsts):
        self.ctx, self.tags, self.size = ctx, tags, W + 1
        self.queue, self.got, self.done = [], [], set()
        for r, jobs in enumerate(firsts, 1):
            if jobs is not None:
                self.queue.append(Message(r, 0, tags["PUSH_JOBS"], jobs))
            self.queue.append(Message(r, 0, tags["WAITING_FOR_POP"], None))
        self.busy = set()
        self.late = []

    def me(self):
        return 0

    def find(self, source, tag):
        for m in self.queue:
            if source in (-1, m.src) and tag in (-1, m.tag):
                return m
        return None

    def probe(self, source, tag, status):
        if self.find(source, tag) is None:
            self.queue += self.late
            self.late = []
        m = self.find(source, tag)
        if m is None:
            self.ctx.fail("the master waits for ever")
        if status is not None:
            status.set(m)
        return True

    def iprobe(self, source, tag, status):
        m = self.find(source, tag)
        if m is not None and status is not None:
            status.set(m)
        return m is not None

    def recv(self, source, tag, status):
        m = self.find(source, tag)
        if m is None:
            self.ctx.fail("the master waits for ever")
        self.queue.remove(m)
        if m.tag == self.tags["WAITING_FOR_POP"]:
            self.busy.discard(m.src)
            self.asking = getattr(self, "asking", set()) | {m.src}
        if status is not None:
            status.set(m)
        return m.obj

    def send(self, obj, dest, tag, req=False):
        if tag == self.tags["UPDATE_MAX_QUEUE_SIZE"]:
            self.ctx.check(obj >= 1, "a queue size that leaves room")
            return Message(0, dest, tag, obj)
        if tag != self.tags["POP_JOBS"]:
            self.ctx.fail("a message no worker knows")
        asking = getattr(self, "asking", set())
        if dest not in asking or dest in self.done:
            self.ctx.fail("jobs for a worker that did not ask")
        asking.discard(dest)
        if not obj:
            self.done.add(dest)
            self.ctx.check(not self.queue and not self.late or all(m.tag != self.tags["PUSH_JOBS"] for m in self.queue),
                           "the end is announced when no job is left")
            return None
        if self.done:
            self.ctx.fail("jobs are sent after the end")
        self.got.append(obj.copy())
        if len(self.got) > 60:
            self.ctx.fail("does not end")
        self.late.append(Message(dest, 0, self.tags["WAITING_FOR_POP"], None))


def master(ctx, W, total, late=False):
    M = module(ctx.symbolic)
    T = tags(M)
    clock = Clock()
    firsts, given = [], {}
    for r in range(1, W + 1):
        if ctx.bool("pushes%d" % r):
            n = ctx.int("n%d" % r, 0, total)
            given["b%d" % r] = n
            firsts.append(build_run(ctx, "b%d" % r, n))
        else:
            firsts.append(None)
    ctx.assume(sum(given.values(), 0) <= total)
    w = MasterWorld(ctx, T, W, firsts)
    if not late:
        clock.now = 0.0
    with setting(M, w, clock):
        m = M.Master(pout=io.StringIO())
        k = ctx.choice("own", 3)
        given["own"] = k
        for x in (SegList(ctx, [Seg("own", i, 1)]).pop() if ctx.symbolic else ("own", i) for i in range(k)):
            m.push_job(x)
        if late:
            clock.now += 500
        ok = m.run_master()
        ctx.check(ok is True, "the run ends well")
        ctx.check(w.done == set(range(1, W + 1)), "every worker is told that it is over")
        account(ctx, given, w.got, "every job is handed out once")
        ctx.note("done")
        if len(w.got) > W:
            ctx.note("rounds")


# -- everything together ------------------------------------------------------------------

class World:
    """Master (this thread) and workers (threads, one running at a time).  A worker
    runs up to its next message and stops there; what was stopped is let through
    when the master looks for messages, in every order that is possible."""

    def __init__(self, ctx, tags, W):
        self.ctx, self.tags, self.size = ctx, tags, W + 1
        self.cur = 0
        self.arrived = []           # for the master
        self.boxes = {r: [] for r in range(1, W + 1)}
        self.held = {r: None for r in range(1, W + 1)}      # next message of a worker
        self.state = {r: "new" for r in range(1, W + 1)}
        self.go = {r: threading.Semaphore(0) for r in range(0, W + 1)}
        self.error = None
        self.over = False
        self.n = 0
        self.threads = {}
        self.sent_after_end = False

    def me(self):
        return self.cur

    def pick(self, n):
        self.n += 1
        return self.ctx.choice("s%d" % self.n, n)

    def maybe(self):
        self.n += 1
        return bool(self.ctx.bool("s%d" % self.n))

    # worker side
    def start(self, r, f):
        def run():
            self.go[r].acquire()
            try:
                if not self.over:
                    f()
                self.state[r] = "end"
            except Dead:
                self.state[r] = "end"
            except BaseException as e:
                self.error = e
                self.state[r] = "end"
            self.cur = 0
            self.go[0].release()
        t = threading.Thread(target=run, daemon=True)
        self.threads[r] = t
        t.start()

    def resume(self, r):
        self.cur = r
        self.go[r].release()
        self.go[0].acquire()
        self.cur = 0
        if self.error is not None:
            e, self.error = self.error, None
            raise e

    def pause(self):
        r = self.cur
        self.cur = 0
        self.go[0].release()
        self.go[r].acquire()
        if self.over:
            raise Dead()
        self.cur = r

    def run_to_message(self, r):
        """Run worker r until it wants to send, waits or ends."""
        while self.held[r] is None and self.state[r] != "end":
            if self.state[r] == "wait" and not self.has_jobs(r):
                return
            self.resume(r)

    def has_jobs(self, r):
        return any(m.tag == self.tags["POP_JOBS"] for m in self.boxes[r])

    def let(self, r):
        self.arrived.append(self.held[r])
        self.held[r] = None

    # both sides
    def send(self, obj, dest, tag, req=False):
        m = Message(self.cur, dest, tag, list(obj) if isinstance(obj, list) else obj)
        if self.cur == 0:
            if dest not in self.boxes:
                self.ctx.fail("a message to nobody")
            self.boxes[dest].append(m)
            if self.state[dest] == "end" and tag == self.tags["POP_JOBS"] and obj:
                self.ctx.fail("jobs for a worker that has ended")
            return m
        self.held[self.cur] = m
        self.state[self.cur] = "send"
        self.pause()
        return m

    def recv(self, source, tag, status):
        if self.cur == 0:
            for m in self.arrived:
                if source in (-1, m.src) and tag in (-1, m.tag):
                    self.arrived.remove(m)
                    if status is not None:
                        status.set(m)
                    return m.obj
            self.ctx.fail("the master waits for a message nobody sends")
        r = self.cur
        while True:
            for m in self.boxes[r]:
                if not m.gone and tag in (-1, m.tag) and source in (-1, m.src):
                    self.boxes[r].remove(m)
                    m.gone = True
                    self.state[r] = "run"
                    return m.obj
            self.state[r] = "wait"
            self.pause()

    def iprobe(self, source, tag, status):
        if self.cur != 0:
            r = self.cur
            return any(not m.gone and m.tag == tag for m in self.boxes[r]) and self.maybe()
        # let workers whose next messages lead to one with this tag go on
        for r in self.boxes:
            self.run_to_message(r)
            while self.held[r] is not None:
                t = self.held[r].tag
                if t == tag or tag == -1:
                    if not self.maybe():
                        break
                    self.let(r)
                    self.run_to_message(r)
                elif t == self.tags["WAITING_FOR_POP"]:
                    break       # nothing can follow it
                else:
                    # an earlier message of another kind: let through only with one that matters
                    if not self.maybe():
                        break
                    self.let(r)
                    self.run_to_message(r)
        return any(source in (-1, m.src) and tag in (-1, m.tag) for m in self.arrived)

    def probe(self, source, tag, status):
        if self.cur != 0:
            self.ctx.fail("a worker that waits for any message")
        self.rounds = getattr(self, "rounds", 0) + 1
        if self.rounds > 80:
            self.ctx.fail("does not end")
        self.tick()
        for r in self.boxes:
            self.run_to_message(r)
        if not any(source in (-1, m.src) and tag in (-1, m.tag) for m in self.arrived):
            can = [r for r in self.boxes if self.held[r] is not None]
            if not can:
                self.ctx.fail("master and workers wait for each other")
            r = can[self.pick(len(can))] if len(can) > 1 else can[0]
            self.let(r)
        return True

    def finish(self):
        for r in self.boxes:
            self.run_to_message(r)
            if self.held[r] is not None:
                self.ctx.fail("a worker still talks after the end")

    def kill(self):
        self.over = True
        for r, t in self.threads.items():
            k = 0
            while t.is_alive() and k < 5:
                self.go[r].release()
                t.join(1)
                k += 1


def together(ctx, W, first, children, clockwork, consts):
    M = module(False)
    T = tags(M)
    clock = Clock()
    clock.now = 0.0
    w = World(ctx, T, W)
    budget = [children]
    log, handed = [], []

    def tick():
        if clockwork and w.maybe():
            clock.now += 1000
    w.tick = tick
    with setting(M, w, clock, **consts):
        n = first if isinstance(first, int) else ctx.choice("first", first[0] + 1)
        m = M.Master(pout=io.StringIO())
        for i in range(n):
            m.push_job(i)
            log.append(i)

        def work():
            q = M.MPI_Worker_Work_Queue(master_proc_num=0, pout=io.StringIO())
            while True:
                j = q.pop_job()
                if j is None:
                    return
                handed.append(j)
                if len(handed) > len(log):
                    ctx.fail("a job is handed out twice")
                if budget[0] > 0:
                    k = w.pick(min(budget[0], 2) + 1)
                    if k == budget[0] == children and k > 1 and w.maybe():
                        for _ in range(k):
                            log.append(len(log))
                            q.push_job(log[-1])
                        k = 0
                    else:
                        new = list(range(len(log), len(log) + k))
                        log.extend(new)
                        q.push_jobs(new)
                    budget[0] -= k
        for r in range(1, W + 1):
            w.start(r, work)
        try:
            ok = m.run_master()
            w.finish()
            ctx.check(ok is True, "the run ends well")
            ctx.check(all(s == "end" for s in w.state.values()), "every worker ends")
            ctx.check(sorted(handed) == sorted(log), "every job is handed out exactly once before the end")
            ctx.note("done")
        finally:
            w.kill()


def cases(tier):
    q = tier == "quick"
    cs = []
    for k in ("lifo", "fifo"):
        cs.append(Case("plain", {"kind": k, "n": 5 if q else 7}, name="plain." + k, need=["pop", "empty"]))
    cs.append(Case("worker", {"ops": 4 if q else 5, "big": 10**6}, name="worker", need=["push", "pop", "sent", "update"]))
    for W in (1, 2, 3):
        cs.append(Case("master", {"W": W, "total": 80 if q else 150}, name="master%d" % W, need=["done", "rounds"]))
    cs.append(Case("master", {"W": 2, "total": 60, "late": True}, name="master_late", need=["done"]))
    small = dict(MIN_NUM_JOBS_PER_BATCH=1, MAX_NUM_JOBS_PER_BATCH=2, DEFAULT_MAX_LOCAL_JOBS=2, DEFAULT_TARGET_LOCAL_JOBS=1)
    for W, first, ch, cl in ((1, [2], 3, True), (2, [3], 1, False), (2, 1, 4, False), (2, 1, 1, True)) if q else \
            ((1, [3], 4, True), (2, [3], 2, False), (2, 1, 5, False), (2, 1, 2, True), (3, 2, 1, False)):
        cs.append(Case("together", {"W": W, "first": first, "children": ch, "clockwork": cl, "consts": small},
                       name="together_%d_%s_%d%s" % (W, first, ch, "_t" if cl else ""), need=["done"]))
    return cs
