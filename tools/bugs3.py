import runpy, os
B2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
HEAD, RAND = B2["HEAD"], B2["RAND"]
FILES = HEAD + '''
import contextlib, io, random, tempfile, IO, Halting_Lib, io_pb2
from IO.TM_Record import TM_Record, parse_tm, pack_tm
from pathlib import Path
def record(text, score=None):
  r = TM_Record(proto=io_pb2.TMRecord())
  r.proto.tm.ttable_packed = pack_tm(parse_tm(text))
  if score is not None:
    h = r.proto.status.halt_status
    h.is_decided = h.is_halting = True
    Halting_Lib.set_big_int(h.halt_score, score)
  return r
def write(p, recs):
  with IO.Proto.Writer(p) as w:
    for r in recs: w.write_record(r)
def read(p):
  with IO.Proto.Reader(p) as f: return list(f)
def quiet(f, *a):
  with contextlib.redirect_stdout(io.StringIO()): return f(*a)
'''
BUGS = [
 dict(id="c03_last_halt", property="C03",
  edits=[("Code/Macro/Simulator.py", "      self.num_macro_moves += 1\n      if self.compute_steps:\n        if self.states_last_seen is not None:\n",
    "      self.num_macro_moves += 1\n      if self.compute_steps:\n        if self.states_last_seen is not None and self.op_state == Turing_Machine.RUNNING:\n")],
  needs="a run that halts; only the last-use steps of the states at the halt are wrong",
  breaks="the states used in the last macro step before the halt keep an older last-use step (or none)",
  demo=RAND + '''
from Macro import Turing_Machine, Simulator
n = 0
for text, halt in machines(3, 400, 2, 2, 60):
  if halt is None: continue
  tm = IO.parse_tm(text)
  o = Simulator.create_default_options(); o.prover = False; o.compute_steps = True
  s = Simulator.Simulator(tm, o)
  s.loop_seek(200)
  if s.op_state != Turing_Machine.HALT: continue
  cells = [[r[i:i+3] for i in range(0, len(r), 3)] for r in text.split("_")]
  tape, pos, st, seen = {}, 0, 0, {}
  for t in range(halt):
    seen[st] = t
    c = cells[st][tape.get(pos, 0)]
    tape[pos] = int(c[0]); pos += 1 if c[1] == "R" else -1; st = ord(c[2]) - 65
  got = {int(q if isinstance(q, int) else q): v for q, v in s.states_last_seen.items()}
  n += 1
  if got != seen: sys.exit(1)
sys.exit(0 if n > 20 else 3)
'''),
 dict(id="c18_perm", property="C18",
  edits=[("Code/Permute.py", "  for new_start_state in range(tm.num_states):\n    state_order = list(range(tm.num_states))\n",
    "  state_order = list(range(tm.num_states))\n  for new_start_state in range(tm.num_states):\n")],
  needs="permuting the start state of a machine with three or more states",
  breaks="the order left by the previous start state is reused, so two states are merged and the machine behaves differently",
  demo=HEAD + '''
import IO, Permute
for text in ("1RB1LC_1LA0RB_0LB1RA", "0RB1RC_1LC1RA_1LA0LD_1RB0RD"):
  tm = IO.parse_tm(text)
  cells = [[r[i:i+3] for i in range(0, len(r), 3)] for r in text.split("_")]
  def run(cells, st):
    tape, pos, out = {}, 0, []
    for t in range(40):
      x = cells[st][tape.get(pos, 0)]
      tape[pos] = int(x[0]); pos += 1 if x[1] == "R" else -1; st = ord(x[2]) - 65
      out.append((x[0], x[1]))
    return out
  flip = lambda o: [(w, "LR"["RL".index(d)]) for w, d in o]
  try: got = [p.ttable_str() for p in Permute.permute_start_state(tm, 0)]
  except KeyError: sys.exit(1)
  for q, g in enumerate(got):
    o = run([[r[i:i+3] for i in range(0, len(r), 3)] for r in g.split("_")], 0)
    if o not in (run(cells, q), flip(run(cells, q))): sys.exit(1)
'''),
 dict(id="c20_zero", property="C20",
  edits=[("Code/IO/Proto.py", "    pb_len = self._read_message_len()\n    if pb_len != None:\n      # Read protobuf bytes", "    pb_len = self._read_message_len()\n    if pb_len:\n      # Read protobuf bytes")],
  needs="a file with a record whose message is empty, before other records",
  breaks="an empty record is taken for the end of the file, and the records after it are not read",
  demo=FILES + '''
with tempfile.TemporaryDirectory() as d:
  p = Path(d, "x.pb")
  recs = [record("1RB1LB_1LA1RZ"), TM_Record(proto=io_pb2.TMRecord()), record("1RB0LA_1LA1RZ")]
  recs[1].proto.Clear()
  write(p, recs)
  got = read(p)
  sys.exit([r.proto for r in got] != [r.proto for r in recs])
'''),
 dict(id="c29_reservoir", property="C29",
  edits=[("Code/IO_Sample.py", "  num_records = 1\n", "  num_records = 0\n")],
  needs="more records than the sample size, and many samples: only the probabilities are wrong",
  breaks="the first record after the sample is full is always taken, so records are not equally likely",
  demo=FILES + '''
import IO_Sample
with tempfile.TemporaryDirectory() as d:
  p, o = Path(d, "x.pb"), Path(d, "o.pb")
  A, B = "1RB1LB_1LA1RZ", "1RB0LA_1LA1RZ"
  write(p, [record(A), record(B)])
  n = 0
  for s in range(200):
    random.seed(s)
    quiet(IO_Sample.sample, [p], o, 1)
    n += read(o)[0].tm().ttable_str() == A
  sys.exit(not 60 < n < 140)
'''),
 dict(id="c29_adjacent", property="C29",
  edits=[("Code/Adjacent.py", "              state_in, symbol_in) -> Iterator[Turing_Machine.Simple_Machine]:\n", "              new_tm : Turing_Machine.Simple_Machine,\n              state_in, symbol_in) -> Iterator[Turing_Machine.Simple_Machine]:\n"),
         ("Code/Adjacent.py", "  new_tm = copy.deepcopy(old_tm)\n  for state_out", "  for state_out"),
         ("Code/Adjacent.py", "  # All TMs which differ in only one cell are adjacent.\n", "  # All TMs which differ in only one cell are adjacent.\n  new_tm = copy.deepcopy(tm)\n"),
         ("Code/Adjacent.py", "enum_cell(tm, state_in, symbol_in)", "enum_cell(tm, new_tm, state_in, symbol_in)")],
  needs="a machine with at least two running cells",
  breaks="cells changed earlier are not restored, so listed machines differ in several cells",
  demo=HEAD + '''
import IO, Adjacent
text = "1RB1LB_1LA1RZ"
cells = lambda t: [r[i:i+3] for r in t.split("_") for i in range(0, len(r), 3)]
got = [m.ttable_str() for m in Adjacent.adjacent(IO.parse_tm(text))]
ok = len(got) == 21 and len(set(got)) == 21 and all(sum(a != b for a, b in zip(cells(g), cells(text))) == 1 for g in got)
sys.exit(not ok)
'''),
 dict(id="c29_sort", property="C29",
  edits=[("Code/IO_Sort.py", "import argparse\n", "import argparse\nimport math\n"),
         ("Code/IO_Sort.py", "  else:\n    return val\n", "  else:\n    # Comparing huge integers is slow.\n    return math.log2(val) + 1\n")],
  needs="two records with large scores that differ by little",
  breaks="scores that round to the same logarithm keep the order of the input instead of highest first",
  demo=FILES + '''
import IO_Sort
with tempfile.TemporaryDirectory() as d:
  p, o = Path(d, "x.pb"), Path(d, "o.pb")
  scores = [7, 10**18, 10**18 + 1, 0, 3]
  write(p, [record("1RB1LB_1LA1RZ", s) for s in scores])
  quiet(IO_Sort.sort, p, o)
  got = [Halting_Lib.get_big_int(r.proto.status.halt_status.halt_score) for r in read(o)]
  sys.exit(got != sorted(scores, reverse=True))
'''),
]
