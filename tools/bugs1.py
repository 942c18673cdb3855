HEAD = '''import sys
sys.path.insert(0, "/repo/Code")
'''
SIMH = HEAD + '''
import argparse, optparse
from optparse import OptionParser
import IO
from Macro import Turing_Machine as TM, Simulator, Tape, Proof_System as PS, Rule_Func
import Algebraic_Expression as A
import Exp_Int as E
def options(**k):
  parser = OptionParser()
  Simulator.add_option_group(parser)
  o, _ = parser.parse_args([])
  for a, b in k.items(): setattr(o, a, b)
  return o
def plain(ttable, n):
  """plain run: after n steps (tape, pos, state, steps, last seen)."""
  rows = [[r[i:i+3] for i in range(0, len(r), 3)] for r in ttable.split("_")]
  tape, pos, st, last = {}, 0, 0, {}
  for t in range(n):
    c = rows[st][tape.get(pos, 0)]
    last[st] = t
    if c[2] in "-Z": return tape, pos, -1, t + 1, last
    tape[pos] = int(c[0]); pos += 1 if c[1] == "R" else -1; st = ord(c[2]) - 65
  return tape, pos, st, n, last
'''
BUGS = [
 dict(id="c01_alias", property="C01",
  edits=[("Code/Macro/Turing_Machine.py", "old_config = (state, dir, pos, list(tape))", "old_config = (state, dir, pos, tape)")],
  needs="a block in which the base machine runs for more than 128 steps and comes back to the same cell in the same state with different contents, then leaves",
  breaks="the saved configuration shares the live tape, so a block transition is reported as repeating forever although the machine leaves the block",
  demo=SIMH + '''
tm = IO.parse_tm("0RB0LA_1LA1RC_0LC1RB")
m = TM.Block_Macro_Machine(tm, 8)
t = m.get_trans_object(m.init_symbol, m.init_state, 1)
# plain run inside the block
tape, pos, st, n = [0]*8, 0, 0, 0
while 0 <= pos < 8 and st >= 0:
  x = tm.get_trans_object(tape[pos], st)
  tape[pos] = x.symbol_out; pos += 1 if x.dir_out else -1; st = x.state_out; n += 1
assert n > 128
assert (t.condition, t.num_base_steps, list(t.symbol_out)) == (TM.RUNNING, n, tape), (t.condition, t.num_base_steps, n)
'''),
 dict(id="c01_nested_seen", property="C01",
  edits=[("Code/Macro/Turing_Machine.py", "states_last_seen[state] = num_base_steps + base_last_seen", "states_last_seen[state] = num_base_steps")],
  needs="a back-symbol machine on top of a block machine (two levels), where a state is last used in the middle of an inner transition",
  breaks="the last step at which a state was used inside a macro transition is too early",
  demo=SIMH + '''
s = "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA"
m = TM.Backsymbol_Macro_Machine(TM.Block_Macro_Machine(IO.parse_tm(s), 3))
sim = Simulator.Simulator(m, options(prover=False))
for _ in range(30):
  sim.step()
  p = plain(s, sim.step_num)
  assert {int(k): v for k, v in sim.states_last_seen.items()} == p[4], (sim.step_num, sim.states_last_seen, p[4])
'''),
 dict(id="c04_last_assign", property="C04",
  edits=[("Code/Macro/Proof_System.py", "substitute(diff_steps - last_seen_ago, last_assignment)", "substitute(diff_steps - last_seen_ago, assignment or last_assignment)")],
  needs="a general rule stopped by the repetition limit whose step count depends on a run length",
  breaks="the last-use step of a state is computed from the run lengths after the last repetition",
  demo=SIMH + '''
import math
x, y = A.Variable(), A.Variable()
X, Y = A.VariableToExpression(x), A.VariableToExpression(y)
o = options(max_num_reps=2); o.compute_steps = True
ps = PS.Proof_System(None, o, "")
def tape(l, r):
  t = Tape.Chain_Tape(); t.init(0, 1, o)
  t.tape[0].append(Tape.Repeated_Symbol(1, l)); t.tape[1].append(Tape.Repeated_Symbol(2, r)); return t
rule = PS.General_Rule([None, x, None, y], [math.inf, 1, math.inf, 1], tape(Y + 1, X - 1), 3*X + 5, 1, 0, {"A": X})
ok, (res, _) = ps.apply_rule(rule, ("A", tape(10, 7), 0, 0))
# (10,7) -35-> (8,9) -29-> (10,7); last seen: 35 + 8
assert res.condition == PS.INF_REPEAT or res.states_last_seen["A"] == 35 + 8, res.states_last_seen
ok, (res, _) = ps.apply_rule(rule, ("A", tape(20, 7), 0, 0))
assert res.states_last_seen["A"] == 65 + 8, res.states_last_seen
'''),
 dict(id="c06_ceil", property="C06",
  edits=[("Code/Macro/Rule_Func.py", "  return ((a-1) // b) + 1\n", "  return a // b\n")],
  needs="an affine update with a negative constant that is not a multiple of (coefficient - 1)",
  breaks="the reported minimum is one too small, so the update decreases there and a linear rule is taken to repeat forever",
  demo=SIMH + '''
f = Rule_Func.Mult_Func(A.Variable(), 1, 3, -5)
for x in range(f.min, f.min + 5): assert 3*x - 5 >= x, (f.min, x)
'''),
 dict(id="c07_minval", property="C07",
  edits=[("Code/Algebraic_Expression.py", "      if min_val(term.coef) < 0:\n", "      if min_val(term.coef) < 0 and len(term.vars) == 1:\n")],
  needs="an expression with a negative coefficient on a product of two variables",
  breaks="an expression is reported to be at least a bound although it is unbounded below",
  demo=SIMH + '''
x, y = A.NewVariableExpression(), A.NewVariableExpression()
e = x + 5 - x*y
assert not A.always_ge(e, 0)
assert not A.always_gt(e, 3)
'''),
 dict(id="c08_cancel", property="C08",
  edits=[("Code/Exp_Int.py", "        return (ns * self.const + no * other.const) // new_denom\n", "        return (ns * self.const + no * other.const) // self.denom\n")],
  needs="a sum of two formulas with different denominators whose powers cancel",
  breaks="the sum of two formulas is the wrong integer",
  demo=SIMH + '''
x = (E.exp_int(2, 5) + 1) / 3          # 11
y = (E.exp_int(2, 6) * -1 - 2) / 6     # -11
assert x + y == 0
x = (E.exp_int(2, 1001) + 1) / 3
y = (E.exp_int(2, 1002) * -1 - 2) / 6 + 4
assert x + y == 4, x + y
'''),
 dict(id="c11_copy", property="C11",
  edits=[("Code/Direct_Simulator.py", "    new_sim.halted = self.halted\n", "    new_sim.halted = False\n")],
  needs="a simulator that is copied after it halted and then advanced",
  breaks="a copy of a halted simulator goes on running",
  demo=HEAD + '''
import IO, Direct_Simulator as D
s = D.DirectSimulator(IO.parse_tm("1RB1LB_1LA0LC_1RZ1LD_1RD0RA"))
s.seek(200)
c = s.copy()
c.seek(300)
assert c.halted and c.step_num == 107 and c.tape.count_nonzero() == 13
'''),
]
