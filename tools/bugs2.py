import runpy, os
B1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
HEAD, SIMH = B1["HEAD"], B1["SIMH"]
RAND = HEAD + '''
import random, IO, io_pb2
from types import SimpleNamespace
def machines(seed, n, Q, S, limit, stop=0.15):
  """random machines (fixed seed) with their halting step within the limit, or None"""
  r = random.Random(seed)
  for _ in range(n):
    cells = [["1RZ" if r.random() < stop else "%d%s%s" % (r.randrange(S), r.choice("LR"), chr(65 + r.randrange(Q))) for c in range(S)] for q in range(Q)]
    tape, pos, st, t = {}, 0, 0, 0
    while t < limit and st >= 0:
      c = cells[st][tape.get(pos, 0)]
      tape[pos] = int(c[0]); pos += 1 if c[1] == "R" else -1; st = -1 if c[2] == "Z" else ord(c[2]) - 65; t += 1
    yield "_".join("".join(x) for x in cells), (t if st < 0 else None)
'''
CPP = '''import os, subprocess, sys, tempfile
SRC = r"""%s"""
with tempfile.TemporaryDirectory() as d:
  open(d + "/demo.cpp", "w").write(SRC)
  s = "/repo/cpp/src"
  srcs = [os.path.join(s, f) for f in sorted(os.listdir(s)) if f.endswith(".cpp") and "int main(" not in open(os.path.join(s, f)).read()]
  p = []
  for i, f in enumerate(srcs + [d + "/demo.cpp"]):
    p.append(subprocess.Popen(["g++", "-std=c++17", "-O1", "-w", "-I" + s, "-c", f, "-o", "%%s/%%d.o" %% (d, i)]))
  for x in p:
    if x.wait(): sys.exit(3)
  subprocess.check_call(["g++"] + ["%%s/%%d.o" %% (d, i) for i in range(len(p))] + ["-o", d + "/demo"])
  sys.exit(subprocess.call([d + "/demo"], cwd=d, stdout=subprocess.DEVNULL))
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include "turing_machine.h"
#include "simulator.h"
#include "lin_recur.h"
#include "enumerator.h"
#include "lin_recur_enumerator.h"
#include "lazy_beaver_enumerator.h"
using namespace busy_beaver;
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s line %d\\n", #x, __LINE__); exit(1); } } while (0)
static TuringMachine* tm(const std::string& s) { std::istringstream in(s); return ReadTuringMachine(&in, ""); }
static std::string str(const TuringMachine& t) { std::ostringstream o; WriteTuringMachine(t, &o); return o.str(); }
'''
BUGS = [
 dict(id="c23_grow", property="C23",
  edits=[("cpp/src/simulator.cpp", "    tape_.insert(tape_.begin(), unit_size_, BlankSymbol);\n    index_ += unit_size_;\n    index_start_ += unit_size_;",
    "    // Double the tape, so that long runs do not copy it too often.\n    const long extra = tape_.size();\n    tape_.insert(tape_.begin(), extra, BlankSymbol);\n    index_ += extra;\n    index_start_ += unit_size_;")],
  needs="a run that extends the tape to the left after the tape was extended before (on either side)",
  breaks="the start of the tape is not moved by as much as the tape grew, so positions and cells read by position are wrong",
  demo=CPP % (PRE + '''
int main() {
  Tape t;
  long pos = 0;
  std::map<long, int> want;
  for (int leg = 0; leg < 4; ++leg)
    for (int i = 0; i < 70 * (leg + 1); ++i) {
      t.write(1 + leg); want[pos] = 1 + leg;
      t.move(leg % 2 ? -1 : 1); pos += leg % 2 ? -1 : 1;
      CHECK(t.position() == pos);
      CHECK(t.read() == (want.count(pos) ? want[pos] : 0));
    }
  for (auto& x : want) CHECK(t.read(x.first) == x.second);
}
''')),
 dict(id="c24_next_state", property="C24",
  edits=[("cpp/src/turing_machine.cpp", "  max_next_state_ = std::max(old_tm.max_next_state_,\n                             std::min(num_states_ - 1, next_trans.state + 1));",
    "  max_next_state_ = std::min(num_states_ - 1,\n                             std::max(old_tm.max_next_state_, next_trans.state) + 1);")],
  needs="at least four states: an expansion that does not go to a new state, followed by another expansion",
  breaks="every expansion allows one more state, so children outside tree normal form (renamings of others) are produced",
  demo=CPP % (PRE + '''
int main() {
  TuringMachine a(5, 2);
  CHECK(a.max_next_state() == 1);
  TuringMachine b(a, 0, 0, {1, 1, 1}, 0);   // 1RB
  CHECK(b.max_next_state() == 2);
  TuringMachine c(b, 1, 0, {1, -1, 0}, 0);  // 1LA
  CHECK(c.max_next_state() == 2);
  TuringMachine d(c, 0, 1, {0, -1, 2}, 0);
  CHECK(d.max_next_state() == 3);
}
''')),
 dict(id="c25_extent", property="C25",
  edits=[("cpp/src/lin_recur.cpp", "      most_left_pos = std::min(most_left_pos, sim.tape().position());\n      most_right_pos = std::max(most_right_pos, sim.tape().position());\n      if (sim.state() == init_state) {\n",
   "      if (sim.state() == init_state) {\n        most_left_pos = std::min(most_left_pos, sim.tape().position());\n        most_right_pos = std::max(most_right_pos, sim.tape().position());\n")],
  needs="a machine whose extreme cells are visited in another state than the one compared, and differ from the previous time",
  breaks="the section compared is too small, so machines that halt (or never recur) are reported as recurrent",
  demo=CPP % (PRE + '''
int main() {
  // every 2x3 and 3x2 machine of a fixed sample that halts within 200 steps must not be called recurrent
  unsigned x = 12345;
  auto rnd = [&](int n) { x = x * 1103515245u + 12345u; return (int)((x >> 16) % n); };
  int seen = 0;
  for (int i = 0; i < 300000; ++i) {
    int Q = 2 + rnd(3), S = 2 + rnd(2);
    std::vector<std::vector<TuringMachine::LookupResult>> t(Q);
    for (auto& r : t)
      for (int s = 0; s < S; ++s) {
        bool h = rnd(7) == 0;
        TuringMachine::LookupResult c = {rnd(S), rnd(2) * 2 - 1, h ? -1 : rnd(Q)};
        r.push_back(c);
      }
    TuringMachine m(t, "");
    DirectSimulator sim(m);
    sim.Seek(300);
    if (!sim.is_halted() || sim.step_num() < 6) continue;
    ++seen;
    auto r = LinRecurDetect(m, 300);
    CHECK(!r.is_lin_recurrent);
    CHECK(r.is_halted && r.steps_run == sim.step_num());
  }
  CHECK(seen > 1000);
}
''')),
 dict(id="c26_letter_h", property="C26",
  edits=[("cpp/src/turing_machine.cpp", "          if (state_char == 'Z') {", "          if (state_char == 'Z' || state_char == 'H') {")],
  needs="a machine with at least eight states that goes to the eighth one",
  breaks="transitions to state H are read as halting",
  demo=CPP % (PRE + '''
int main() {
  for (int q = 1; q < 26; ++q) {
    std::string s;
    for (int i = 0; i < q; ++i) s += (i ? "_" : "") + std::string("1R") + char('A' + (i + 1) % q) + "0LA";
    TuringMachine* m = tm(s);
    CHECK(str(*m) == s);
    delete m;
  }
}
''')),
 dict(id="c28_limit", property="C28",
  edits=[("cpp/src/lazy_beaver_enumerator.cpp", "  if (sim.is_halted()) {\n    num_tms_halt_ += 1;", "  if (sim.is_halted() && sim.step_num() < max_steps_) {\n    num_tms_halt_ += 1;")],
  needs="a machine of the tree that halts exactly at the step limit",
  breaks="a machine that halts within the limit is listed as not halting and its step count is reported as missing",
  demo=CPP % (PRE + '''
int main() {
  for (long limit = 1; limit <= 7; ++limit) {
    std::set<long> steps;
    {
      LazyBeaverEnum e(limit, "wit", "non", "p");
      e.enumerate(new TuringMachine(2, 2));
    }
    std::ifstream in("non");
    while (TuringMachine* m = ReadTuringMachine(&in, "")) {
      DirectSimulator sim(*m);
      sim.Seek(limit);
      CHECK(!sim.is_halted());
      delete m;
    }
  }
}
''')),
 dict(id="c10_min", property="C10",
  edits=[("Code/Lin_Recur_Detect.py", "  low = -1          # Largest unsuccessful start of recurrence\n", "  low = 0           # Largest unsuccessful start of recurrence\n")],
  needs="a machine that is recurrent from its first configuration on",
  breaks="the start reported is 1 where the recurrence starts at step 0",
  demo=RAND + '''
import Lin_Recur_Detect as L
i, st = io_pb2.LinRecurFilterInfo(), io_pb2.BBStatus()
i.parameters.max_steps = 100
i.parameters.find_min_start_step = True
L.filter(IO.parse_tm("1RB---_1RA---"), i, st)
assert i.result.success and i.result.start_step == 0 and i.result.period == 2, i
'''),
 dict(id="c13_beam", property="C13",
  edits=[("Code/Backtracking_Filter.py", "    elif max_width_seen > max_width_allowed:\n      break\n", "    elif max_width_seen > max_width_allowed:\n      # Too many configurations: go on with the first ones.\n      pos_configs = pos_configs[:max_width_allowed]\n")],
  needs="a backwards search that gets wider than the limit and whose first branches all die",
  breaks="branches that are dropped are not searched, so machines that halt are discarded as running forever",
  demo=RAND + '''
import Backtracking_Filter as B
seen = 0
for Q, S in ((2, 2), (3, 2), (2, 3), (4, 2)):
  for s, t in machines(3, 5000, Q, S, 200):
    if t is None or t < 2: continue
    seen += 1
    tab = [[(x.symbol_out, x.dir_out, x.state_out) for x in row] for row in IO.parse_tm(s).trans_table]
    for w in (1, 2):
      assert not B.backtrack_ttable(tab, 8, w).success, (s, t, w)
assert seen > 500, seen
'''),
 dict(id="c15_gave_up", property="C15",
  edits=[("Code/CPS.py", "          elif sim_condition != INF_REPEAT:\n", "          elif sim_condition in (HALT, UNDEFINED):\n")],
  needs="a step limit that is used up before the set is closed",
  breaks="configurations the filter gave up on count as closed, so machines that halt get a proof",
  demo=RAND + '''
import CPS
seen = 0
for Q, S in ((2, 2), (3, 2), (2, 3)):
  for s, t in machines(5, 2500, Q, S, 200):
    if t is None or t < 3: continue
    seen += 1
    for lim in (2, 5, 9, 20):
      r, st = io_pb2.ClosedGraphFilterResult(), io_pb2.BBStatus()
      CPS.filter(IO.parse_tm(s), 1, 3, lim, 100, 100, 100, r, st)
      assert not r.success, (s, t, lim)
assert seen > 150, seen
'''),
 dict(id="c16_no_halt", property="C16",
  edits=[("Code/TM_Enum.py", "    if self.allow_no_halt or num_undefined_transitions > 1:\n", "    if num_undefined_transitions > 1 or (self.allow_no_halt and num_states == max_state + 1):\n")],
  needs="machines without a halt allowed, and a last undefined cell that is met before the last state is used",
  breaks="the machines that use their last state only from the last cell are never enumerated",
  demo=HEAD + '''
import IO, TM_Enum
tm = IO.parse_tm("1RB1LA_1LA---_0LA0LA")
kids = list(TM_Enum.TM_Enum(tm, allow_no_halt=True).enum_children(1, 1))
assert len(kids) == 3 * 2 * 2, len(kids)
assert len({k.tm.ttable_str() for k in kids}) == 12
assert list(TM_Enum.TM_Enum(tm, allow_no_halt=False).enum_children(1, 1)) == []
'''),
 dict(id="c19_list_halt", property="C19",
  edits=[("Code/IO/TM_Record.py", "      if trans.condition == Turing_Machine.UNDEFINED:\n        symbol_out = -1\n", "      if trans.condition != Turing_Machine.RUNNING:\n        symbol_out = -1\n")],
  needs="a machine of more than seven states or symbols with an explicit halting cell",
  breaks="the halting cell is read back as undefined",
  demo=HEAD + '''
import IO, io_pb2
from IO.TM_Record import TM_Record, parse_tm
import TM_Enum
s = "_".join("1R%s0L%s" % (chr(65 + (i + 1) % 8), chr(65 + i)) for i in range(7)) + "_1RZ---"
r = TM_Record(tm_enum=TM_Enum.TM_Enum(parse_tm(s), allow_no_halt=False))
p = io_pb2.TMRecord(); p.ParseFromString(r.proto.SerializeToString())
assert TM_Record(proto=p).tm().ttable_str() == s, TM_Record(proto=p).tm().ttable_str()
'''),
 dict(id="c21_empty", property="C21",
  edits=[("Code/Halting_Lib.py", "  if states_last_seen is None or states_to_ignore is None:\n", "  if not states_last_seen or not states_to_ignore:\n")],
  needs="recorded recurrence in which no state is used again (an empty collection, as opposed to missing data)",
  breaks="a machine whose quasihalting was decided is recorded as undecided",
  demo=HEAD + '''
import Halting_Lib as H, io_pb2
for ign in ([], set(), ()):
  st = io_pb2.BBStatus()
  H.set_inf_recur(st, ign, {0: 5, 1: 3})
  q = st.quasihalt_status
  assert q.is_decided and q.is_quasihalting and q.quasihalt_state == 0 and H.get_big_int(q.quasihalt_steps) == 6, q
st = io_pb2.BBStatus()
H.set_inf_recur(st, None, {0: 5})
assert not st.quasihalt_status.is_decided
'''),
 dict(id="c22_keep", property="C22",
  edits=[("Code/MPI_Work_Queue.py", "      extra_jobs = self.local_queue[:-self.target_queue_size]\n", "      extra_jobs = self.local_queue[:self.max_queue_size - self.target_queue_size]\n")],
  needs="a worker whose queue passes its limit by more than one job at a time (a batch is pushed)",
  breaks="the jobs in the middle are neither kept nor sent back",
  demo='''import sys, types
sent = []
class Comm:
  def Get_rank(self): return 1
  def Get_size(self): return 2
  def Iprobe(self, **k): return False
  def send(self, x, dest, tag): sent.append((tag, x))
  def recv(self, **k): return []
mpi = types.SimpleNamespace(COMM_WORLD=Comm(), ANY_SOURCE=-1, ANY_TAG=-1, Status=object)
sys.modules["mpi4py"] = types.SimpleNamespace(MPI=mpi)
sys.path.insert(0, "/repo/Code")
import io
import MPI_Work_Queue as W
for batches in ([31], [20, 11], [29, 2], [29, 8], [5, 40]):
  del sent[:]
  q = W.MPI_Worker_Work_Queue(0, io.StringIO())
  n = 0
  for b in batches:
    q.push_jobs(list(range(n, n + b))); n += b
  got = [x for t, l in sent if t == W.PUSH_JOBS for x in l]
  while True:
    j = q.pop_job()
    if j is None: break
    got.append(j)
  assert sorted(got) == list(range(n)), (batches, sorted(got))
'''),
]
