#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Macro-machine transitions equal the base machine run inside the block",
  "For every base machine, block size, block contents, entry state and entry side, the transition a block or back-symbol macro machine reports equals running the base machine inside that block: same contents, exit side, state, base-step count and last step at which each state was used. A block transition is reported as halting or undefined exactly when the base machine halts or meets an undefined cell inside the block, and as repeating forever only when the base machine never leaves the block.",
  ["programs", "inputs"], "every base machine, block, entry state and direction",
  "Tests run a handful of known machines with one block size; a wrong exit or step count for a rare block is invisible.",
  ["Code/Macro/Turing_Machine.py"], [("sim_limited", "Code/Macro/Turing_Machine.py"), ("Block_Macro_Machine / Backsymbol_Macro_Machine", "Code/Macro/Turing_Machine.py")])
p("C02", "The run-length tape always denotes the same tape as an uncompressed one",
  "For every compressed tape, with any run lengths however large, a single move or a whole-run (chain) move changes exactly the cells the uncompressed tape would change, leaves all others, and faces the right way. The number of symbols a chain move reports is the length of the run it replaced (infinite for the blank ends, with the tape untouched), the non-blank count is the number of non-blank cells, and a copied tape is independent of its original.",
  ["inputs", "histories"], "every compressed tape content, run length and operation",
  "Run lengths are unbounded integers and the interesting cases (merging into a neighbour, exhausting a run, blank ends) are boundary cases of the top runs.",
  ["Code/Macro/Tape.py"], [("apply_single_move, apply_chain_move, get_nonzeros, copy", "Code/Macro/Tape.py")])
p("C03", "The accelerated simulator agrees with step-by-step simulation",
  "For every machine, block size, back-symbol setting and starting offset, after any number of accelerated steps from the blank tape the simulator's tape contents, head side, state, step count, non-blank count and per-state last-use step equal those of the plain machine after exactly that many base steps, including at the halt. It reports a halt or an undefined transition exactly when the machine meets one, and never reports a machine that halts as running forever.",
  ["programs", "configurations", "histories"], "every machine within the bound, every option combination, every point of the run",
  "The tests pin final step counts of some tens of known machines with one option set each.",
  ["Code/Macro/Simulator.py", "Code/Macro/Tape.py", "Code/Macro/Turing_Machine.py", "Code/Macro/Proof_System.py"],
  [("Simulator.step", "Code/Macro/Simulator.py"), ("Simulator.seek / loop_seek", "Code/Macro/Simulator.py")])
p("C04", "Applying a proven rule n times equals n single applications",
  "For every rule and every tape it matches, with run lengths of any size, the accelerated result equals applying the rule one repetition at a time: same final run lengths, same total number of base steps, same last-use step for each state, never below a run's required minimum, and stopping as late as the rule remains applicable. A rule is declared to repeat forever only if no repetition can ever make it inapplicable.",
  ["inputs", "configurations"], "every rule shape and every run-length vector",
  "Step totals are closed-form sums (including nested rules) over unbounded integers; tests look at a few final step counts.",
  ["Code/Macro/Proof_System.py", "Code/Macro/Rule_Func.py"],
  [("apply_rule / apply_diff_rule / apply_linear_rule / apply_general_rule", "Code/Macro/Proof_System.py"), ("series_sum", "Code/Macro/Proof_System.py")])
p("C05", "Every rule the prover accepts is true for all run lengths",
  "Whenever the prover accepts a rule, then for every assignment of run lengths that the rule says it applies to, running the machine from the rule's starting configuration does reach the configuration it claims, in exactly the number of steps it claims, without halting on the way. Rules accepted as self-repeating on a machine are never accepted for a machine that halts.",
  ["inputs", "programs"], "every assignment of run lengths of every rule the prover accepts",
  "A rule is a statement about infinitely many tapes; running the machine checks only the tape at hand.",
  ["Code/Macro/Proof_System.py"], [("prove_rule / prove_new_rule", "Code/Macro/Proof_System.py"), ("minimum value bookkeeping", "Code/Macro/Proof_System.py")])
p("C06", "Closed-form repetition of an update function equals iterating it",
  "For each kind of update (subtract, add, affine, exponential) and every start value and repetition count, the value reported after n repetitions equals applying the update n times. The reported maximum number of repetitions of a decreasing update is the number of times it can be applied while the value is at least the required minimum, with the right remainder, and from the reported minimum on a non-decreasing update never decreases.",
  ["inputs"], "every start value, coefficient, constant, minimum and repetition count",
  "Closed forms over unbounded integers; off-by-one errors show only at exact boundaries.",
  ["Code/Macro/Rule_Func.py"], [("Subtract_Func, Add_Func, Mult_Func, Pow_Func", "Code/Macro/Rule_Func.py")])
p("C07", "Symbolic expression arithmetic commutes with evaluation",
  "For all symbolic expressions and all integer values of their variables, evaluating the sum, difference, product, negation, exact quotient or substitution of expressions gives the same integer as doing the operation on the evaluated operands; equality of expressions implies equality of values. Whenever an expression is reported to be at least (or more than) a bound for all admissible values, it is.",
  ["inputs"], "every expression of the bounded shape, every value of its variables and coefficients",
  "Polynomial identities over all integers; the tests evaluate a few expressions.",
  ["Code/Algebraic_Expression.py"], [("Expression operators, substitute, always_greater_than", "Code/Algebraic_Expression.py")])
p("C08", "Formula integers behave exactly like the integers they denote",
  "For every formula integer and integer operand, addition, subtraction, multiplication, exact division, remainder, negation and exponent shifting give the formula of the exact result, the remainder is the true remainder, and comparisons and signs agree with the true values wherever the value is small enough to be evaluated.",
  ["inputs"], "every formula of the bounded shape and every operand",
  "Coefficients and exponents are unbounded; normalisation bugs need particular cancellations.",
  ["Code/Exp_Int.py"], [("ExpInt / ExpTerm arithmetic", "Code/Exp_Int.py")])
p("C09", "Number-theory helpers return exact answers",
  "The greatest common divisor divides both arguments and no larger integer does, the least common multiple is a multiple of both and the smallest positive one for positive arguments, the prime factorisation multiplies back to its argument, and modular exponentiation equals the true residue of the power for every exponent no matter how large.",
  ["inputs"], "every argument within the bounds, every exponent",
  "Tests try a few values; exponent reduction is wrong only at particular exponent/modulus combinations.",
  ["Code/Math.py"], [("gcd, lcm, prime_factor, carmichael, exp_mod", "Code/Math.py")])
p("C10", "Lin-recurrence verdicts are true, in both directions",
  "When the Python recurrence detector reports success, the machine really is in translated recurrence from the reported start with the reported period and offset, never halts, and, if asked for, the start is the earliest one for that period; the reported quasihalting data match the states used infinitely often. When it reports a halt, the machine halts at that step with that score from that cell.",
  ["programs", "inputs"], "every machine within the bound and every step limit",
  "Tests cover a few known recurrences; a wrong tape comparison is a false non-halting proof on rare machines only.",
  ["Code/Lin_Recur_Detect.py", "Code/Halting_Lib.py"], [("lin_detect_not_min, check_recur, period_search", "Code/Lin_Recur_Detect.py")])
p("C11", "The direct simulator implements Turing-machine semantics",
  "For every machine, initial tape and number of steps, the direct simulator's tape, head position, state and step count are those of the Turing machine, it stops exactly when a halting or undefined transition is taken, and it then reports the number of non-blank cells and the cell that halted. A copied simulator evolves independently of its original.",
  ["programs", "inputs", "histories"], "every machine within the bound, initial tape and seek schedule",
  "Tests run a few named machines from blank tape.",
  ["Code/Direct_Simulator.py"], [("DirectTape, DirectSimulator.step", "Code/Direct_Simulator.py")])
p("C12", "The reverse-engineering filter only discards machines that never halt",
  "Whenever the reverse-engineering filter claims a machine cannot halt, the machine started on the blank tape does not halt; halting and undefined transitions both count as halting.",
  ["programs"], "every machine within the bound",
  "No test exercises the filter; a wrong claim silently drops a halting machine.",
  ["Code/Reverse_Engineer_Filter.py"], [("cannot_reach_halt / test", "Code/Reverse_Engineer_Filter.py")])
p("C13", "The backtracking filter only discards machines that never halt",
  "Whenever backtracking from the halting transitions claims that no halting configuration is reachable within its search, the machine started on the blank tape does not halt, for every machine and every depth and width limit.",
  ["programs", "configurations"], "every machine within the bound and every search limit",
  "The five existing tests do not even run at this commit.",
  ["Code/Backtracking_Filter.py"], [("backtrack_single_halt, backtrack", "Code/Backtracking_Filter.py")])
p("C14", "Closed-tape-language proofs are sound",
  "Whenever any of the closed-tape-language filters claims a proof for a machine from a configuration, the machine does not halt from the blank tape, for every machine, block size, start configuration and limit.",
  ["programs", "configurations"], "every machine within the bound and every filter setting",
  "No tests exist for these filters; an unsound closure step gives a false non-halting proof.",
  ["Code/CTL1.py", "Code/CTL2.py", "Code/CTL3.py", "Code/CTL4.py"], [("CTL / test_CTL / test_from_config", "Code/CTL1.py")])
p("C15", "Closed-position-set proofs are sound",
  "Whenever the closed-position-set filter claims a machine runs forever, the machine does not halt from the blank tape, and every configuration the machine actually passes through is covered by the computed closed set, for every machine, window size and limit.",
  ["programs", "configurations"], "every machine within the bound, every window size and every limit",
  "No tests exist; dropping one continuation makes a false proof for rare machines.",
  ["Code/CPS.py"], [("Closed position set closure", "Code/CPS.py")])
p("C16", "Tree-normal-form enumeration misses no machine and repeats none",
  "Expanding an undefined cell yields, for every way of filling that cell, exactly one child that is that machine up to renaming unused states and symbols (halting fills are represented by the one halting child); distinct children are never isomorphic. Machines reached by repeated expansion therefore cover every machine of the size exactly once.",
  ["programs", "histories"], "every partial machine within the bound and every fill of the undefined cell",
  "Gold files compare totals for one size; a hole in the tree is invisible unless the missing machine is known.",
  ["Code/TM_Enum.py", "Code/Enumerate.py"], [("TM_Enum.enum_children, max state/symbol tracking", "Code/TM_Enum.py")])
p("C17", "Machine counts are exact and conserved by expansion",
  "The number of complete machines a partial machine stands for equals the sum over its children plus its halting child, at every node; the number for the root equals the count for the whole class.",
  ["programs"], "every partial machine within the bound",
  "Only totals of specific runs are looked at by hand.",
  ["Code/Count.py", "Code/TM_Enum.py"], [("count", "Code/Count.py")])
p("C18", "Renaming to normal form preserves behaviour and is canonical",
  "Converting a machine to tree normal form or lexical normal form, or permuting its states and symbols, yields that machine with its states and symbols renamed and possibly its directions swapped (halting cells become the standard 1RZ, nothing else changes), so it behaves the same from the blank tape, step for step. In tree normal form names appear in the order they are first used (states entered, symbols written) and the first step goes right. Any two machines that differ only by renaming and mirroring get the same normal form, and normalising twice changes nothing.",
  ["programs"], "every machine within the bound and every renaming",
  "Tests convert two machines.",
  ["Code/TNF.py", "Code/LNF.py", "Code/Permute.py"], [("to_TNF / permute_table", "Code/TNF.py"), ("to_LNF", "Code/LNF.py"), ("permute", "Code/Permute.py")])
p("C19", "Saving a machine and loading it back gives the same machine",
  "For every machine, writing it as standard text, packed record, list record or database bytes and reading that back gives a machine with the same states, symbols and transitions (including undefined and halting cells; records also keep the halt/no-halt flag), for every supported number of states and symbols; formula integers and big integers stored in records are read back unchanged.",
  ["inputs", "programs"], "every machine of every supported size and every storable integer",
  "Tests round-trip a couple of small machines; field widths overflow only at the largest symbols/states.",
  ["Code/IO/StdText.py", "Code/IO/TM_Record.py", "Code/IO/BBC.py", "Code/IO/OldText.py", "Code/Halting_Lib.py", "Code/Exp_Int.py"],
  [("parse_tm / ttable_str", "Code/IO/StdText.py"), ("pack_tm / unpack_tm", "Code/IO/TM_Record.py"), ("set_big_int / get_big_int", "Code/Halting_Lib.py")])
p("C20", "A record file cut at any byte yields exactly the complete records",
  "For any sequence of records written to a protobuf record file, if the file is cut at an arbitrary byte (crash while writing) then reading returns exactly the records that were completely written, unchanged and in order, and then stops (end of file or an explicit error) without inventing a record; skipping and counting records agrees with reading them. (A text file has no record lengths: every line that was completely written is read, in order.)",
  ["crash_points", "inputs", "histories"], "every record size sequence within the bound and every cut position",
  "No test truncates a file.",
  ["Code/IO/Proto.py", "Code/IO/StdText.py"], [("Writer.write_record / Reader.read_record", "Code/IO/Proto.py")])
p("C21", "Recorded verdicts match what the analyses found and never conflict",
  "Recording a halt stores exactly the steps, score and halting cell it was given; recording non-halting or recurrence stores the right reason and quasihalting data; and a machine's category (halt, infinite, unknown) follows from its stored status for every combination of recorded facts. A simulation that is cut short by a limit is recorded as undecided; a time-out that fires at any moment leaves the record undecided or with the true verdict, never with a wrong one. Step counts and quasihalting data are recorded only if every step was counted (0 stands for not counted).",
  ["inputs", "histories"], "every combination of recorded facts, state sets and step values",
  "Tests record two statuses.",
  ["Code/Halting_Lib.py", "Code/Macro_Simulator.py"], [("set_halting, set_not_halting, set_inf_recur", "Code/Halting_Lib.py"), ("simulate_machine", "Code/Macro_Simulator.py")])
p("C22", "Work queues neither lose nor duplicate a job under any schedule",
  "For every interleaving of pushes and pops, and for the distributed queue every interleaving of the master and the workers and every message order the channel allows, each pushed job is handed out exactly once before the queue reports it is finished; the plain queues hand jobs out in stack or queue order, and the distributed run terminates.",
  ["schedules", "histories"], "every push/pop history and every interleaving of master and workers within the bound",
  "The only distributed test needs mpirun and exercises one schedule (and fails at this commit).",
  ["Code/Work_Queue.py", "Code/MPI_Work_Queue.py"], [("Single_Process_Work_Queue", "Code/Work_Queue.py"), ("Master / MPI_Worker_Work_Queue", "Code/MPI_Work_Queue.py")])
p("C23", "The C++ direct simulator implements Turing-machine semantics",
  "For every machine and number of steps from the blank tape, the C++ simulator's tape contents, head position, state, step count, halted flag and the state and symbol of the last step equal those of the Turing machine, whether it is driven one step at a time or by seeking a step number; the tape reads blank wherever nothing was written and wherever it says a position is out of range, a copied tape is equal to and independent of its original, and no access falls outside the memory the tape allocated, however often the tape is extended.",
  ["programs", "inputs"], "every machine and run within the bound",
  "The C++ code has no tests; the tape grows at particular positions on either side only.",
  ["cpp/src/simulator.cpp", "cpp/src/simulator.h"], [("Tape, DirectSimulator::Step/Seek", "cpp/src/simulator.cpp")])
p("C24", "The C++ enumerator expands a cell to exactly the normal-form children",
  "For every partial machine (no explicit halt cells) and undecided cell, the C++ expansion produces exactly the tree-normal-form children (every allowed written symbol, direction and next state once, in a machine that may still halt unless machines without a halt are allowed), each equal to its parent in all other cells and with the right bookkeeping of the states and symbols used and of the cells left undecided, and expansion stops at a machine whose last cell has to stay the halt.",
  ["programs"], "every partial machine within the bound",
  "The C++ code has no tests.",
  ["cpp/src/enumerator.cpp", "cpp/src/turing_machine.cpp"], [("expand_tm", "cpp/src/enumerator.cpp"), ("TuringMachine constructors", "cpp/src/turing_machine.cpp")])
p("C25", "C++ Lin-recurrence verdicts are true",
  "When the C++ recurrence detector reports that a machine recurs, the machine really is in translated recurrence with the reported start, period and offset and never halts; when it reports a halt the machine halts at that step with that last state and symbol; when it reports neither, the machine has not halted within the limit and has no recurrence whose start and period are both below half the limit.",
  ["programs", "inputs"], "every machine within the bound and every step limit",
  "The C++ code has no tests.",
  ["cpp/src/lin_recur.cpp"], [("LinRecurDetect", "cpp/src/lin_recur.cpp"), ("are_half_tapes_equal / are_sections_equal", "cpp/src/lin_recur.cpp")])
p("C26", "C++ text form of a machine round-trips",
  "For every machine, writing it and reading it back in the C++ tools gives the same machine, the text is the standard one that the Python tools read as the same machine, and reading one machine of a file by its line number or several from a stream gives exactly the machines on those lines, whatever follows them on the line.",
  ["programs", "inputs"], "every machine of every supported size",
  "The C++ code has no tests.",
  ["cpp/src/turing_machine.cpp"], [("ReadTuringMachine", "cpp/src/turing_machine.cpp"), ("WriteTuringMachine", "cpp/src/turing_machine.cpp")])
p("C27", "The Rust rule validator accepts only true rules",
  "Every rule file the validator accepts contains only rules that hold for all values of their variables.",
  ["inputs", "programs"], "every rule file",
  "Rule soundness is a statement about all variable values.",
  ["rust"], [("validator", "rust")])
p("C28", "C++ enumerations list every machine of the tree once, under its true verdict",
  "For every root machine, step limit and option, the C++ enumerators visit every machine of the tree below it exactly once. LinRecurEnum writes each to the file of its true verdict (halting machines with their step count, infinite ones with a true recurrence, those decided neither way within the limit as unknown; only the unknown ones when asked) and continues exactly below the halting ones that still have cells to fill; LazyBeaverEnum records a true witness for each halting step count it claims, reports as smallest missing step count one that no machine of the tree reached, and lists as not halting only machines that did not halt within the limit.",
  ["programs", "configurations"], "every root machine, step limit and option within the bound",
  "The C++ code has no tests; a machine missing from a file or listed under the wrong verdict is invisible in an output of millions.",
  ["cpp/src/lin_recur_enumerator.cpp", "cpp/src/lazy_beaver_enumerator.cpp", "cpp/src/enumerator.cpp"], [("filter_tm", "cpp/src/lin_recur_enumerator.cpp"), ("filter_tm, min_missing", "cpp/src/lazy_beaver_enumerator.cpp"), ("enumerate", "cpp/src/enumerator.cpp")])
p("C29", "Record tools lose, double, alter or misfile no record",
  "For any input files, the tools that move or tally records treat every complete record exactly once: categorising writes it, in order, to the one file of its verdict and size (and reports matching totals); sorting keeps all of them, highest score first; sampling n of N records yields min(n, N) distinct ones, each equally likely; the zero-reflexive split, format conversion and the file drivers of the deciders pass every record through, once and in order, to the right file and format; counting and analysing report the true numbers; finding shows the first record of the machine asked for and no other; and the machines adjacent to a given one are exactly those that differ from it in one running cell, each listed once. An input file cut short counts with its complete records where the tool says it moves on.",
  ["inputs", "configurations", "histories"], "every number of records, verdict, score, random outcome, order and format within the bound",
  "The tools have no tests, and a record dropped or misfiled among millions goes unnoticed.",
  ["Code/IO_Categorize.py", "Code/IO_Sort.py", "Code/IO_Sample.py", "Code/Zero_Reflexive.py", "Code/IO_Convert.py", "Code/IO_Count.py", "Code/IO_Find.py", "Code/Find_Record.py", "Code/TM_Analyze.py", "Code/Adjacent.py", "Code/CPS_Filter.py", "Code/CTL_Filter.py", "Code/Backtracking_Filter.py", "Code/Reverse_Engineer_Filter.py"],
  [("OutputFiles, filter", "Code/IO_Categorize.py"), ("sort", "Code/IO_Sort.py"), ("sample", "Code/IO_Sample.py"), ("main loops", "Code/IO_Convert.py"), ("adjacent", "Code/Adjacent.py")])
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
