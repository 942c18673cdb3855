how("C01", "Every cell of the base machine, every cell of the block, entry state and side are symbolic; the real macro machine computes one transition, an independent loop runs the base machine inside the block. Compared: symbols left, state, side, step count, last-use steps of each state, and the verdicts halt / undefined / infinite / gave up (a claim to run forever needs a repeated configuration in the oracle).", "about 20 s")
how("C02", "The tape is an arbitrary list of runs whose lengths are unbounded symbolic integers; after an operation (or a history of three) the symbol at an arbitrary symbolic cell index is computed from the runs before and after and compared by the solver, so all tapes are covered at once. The invariants (no zero run, neighbours differ where merged, infinite ends) and the independence of copies are asserted too.", "about 2 s")
how("C03", "(a) One accelerated step over symbolic run lengths against the definition of a chain step, cell by cell at an unbounded index, with step counts and last-use as polynomials. (b) Whole runs of the real simulator with all options against the plain run at each loop: tape, position, state, steps, score, verdict.", "about 55 s")
how("C04", "A rule with symbolic polynomial step counts is applied by the real code at once; equality with one repetition followed by an application to the rest is decided for unbounded run lengths, which by induction covers every number of repetitions; the number of repetitions is compared with the most the rule's minimum allows. General, linear and exponential rules are compared with the rule's definition, one repetition at a time.", "about 100 s")
how("C05", "The real prover runs on symbolic machines; every rule it stores is taken as a theorem: its start configuration is instantiated with *symbolic* run lengths at or above the claimed minimum and the machine is run from there by the plain simulator (compressed, symbolic lengths); the configuration reached, the steps as a polynomial and the last-use steps must be those of the rule.", "about 80 s")
how("C06", "The closed forms are compared with iterating the function, inductively over one repetition where the start value is unbounded; minimums are decided as 'at every value at or above the function does not decrease and below some value it does' with the solver choosing the value.", "about 16 s")
how("C07", "Each operation of the real class runs on expressions with symbolic coefficients; the result, evaluated at symbolic values of its variables by an independent evaluator, must equal the operation on the evaluated operands (polynomial identities over unbounded integers); always_ge/always_gt/min_val claims are refuted by any symbolic point at or above the minimums.", "about 36 s")
how("C08", "Formulas with symbolic coefficients and constants over concrete exponent lists; results are evaluated exactly by an independent evaluator (the powers are big integers, everything else stays symbolic) and compared as linear integer terms; residues, quotients, signs, order and substitution likewise.", "about 84 s")
how("C09", "gcd, lcm, factorisation and modular powers on symbolic arguments: the defining property is asserted (divides, no larger divisor, product, congruence with the power computed by repeated multiplication up to the period, which the solver extends to every exponent).", "about 20 s")
how("C10", "The real detector runs on a symbolic machine; an independent run keeps the history; a success is checked by replaying one period from the reported start and comparing the relevant half tape, the earliest start by trying all smaller ones, the quasihalting data from the states of the period and the history. Halts are compared with the run.", "about 20 s")
how("C11", "The simulator and an independent one run side by side on a symbolic machine and initial tape over a symbolic schedule of seeks (also backwards), with a copy made in between that has to stay behind.", "about 63 s")
how("C12", "The oracle runs the symbolic machine; on the paths where it halts, the filter is asked with the cells not met left symbolic and must not claim a proof.", "about 37 s")
how("C13", "As C12, with symbolic depth and width limits; a claim of the filter that the machine halts is checked by the forward run as well.", "about 56 s")
how("C14", "(a) As C12 for the four CTL filters over all settings. (b) A family of machines that first writes a word chosen by the solver and then sweeps over it, so that the start language contains several runs of each kind, with a halting cell chosen by the solver.", "about 37 s")
how("C15", "As C12; in addition the closed set of a proof is checked to cover each configuration of the run (window contents and both side edges).", "about 28 s")
how("C16", "fill: a symbolic partial machine, an undefined cell and an arbitrary fill; the children the real code yields are compared with the fill up to renaming names not used before: exactly one matches, no two are equal, max state/symbol bookkeeping right. tree: a symbolic *target* machine is followed through a real run of the Enumerator: exactly one record written stands for it, whatever the order of the queue and also when the run is stopped and continued from its file.", "about 40 s")
how("C17", "Symbolic partial machine; the count of the node equals the sum over the real children plus the halting child, and the independent product formula; the root equals the number computed independently.", "about 9 s")
how("C18", "Symbolic machine, symbolic renaming and mirror: the normal form of the renamed machine equals that of the machine; names of the result appear in order along an independent run; the result is among the renamings of the input; idempotence.", "about 65 s")
how("C19", "Each writer/reader pair runs on machines with all cells symbolic at once (records, lists, bytes) or one open cell at a time (text, files); the machine read is compared cell by cell. Integers: every integer, formulas with symbolic coefficients.", "about 16 s")
how("C20", "sym: record lengths and the cut position are symbolic over a file that is a list of symbolic segments; the real Reader/Writer run over it. bytes: real files, real messages, the cut position symbolic and forked over all bytes.", "about 3 s")
how("C21", "Recorded facts are symbolic; a stand-in simulator with symbolic outcomes drives the real recording code; the time-out is a symbolic line number at which the exception is raised. Whole `run_options` runs on symbolic machines are compared with the independent run.", "about 31 s")
how("C22", "Plain queues: symbolic histories against a list. Distributed: master and workers run as threads of which one moves at a time; which one, and whether a sent message is visible yet, are solver variables, so all interleavings within the bound are explored; jobs are counted at the end, and a state in which nobody can move is a deadlock.", "about 18 s")
how("C23", "IR of Tape and DirectSimulator executed on symbolic tables; compared after each step and after seeks with an independent machine; the bare tape is moved and written at symbolic positions around every point where it is reallocated.", "about 36 s")
how("C24", "IR of expand_tm on symbolic partial machines; the children are compared as a set with the definition, and their bookkeeping by what the next expansion yields.", "about 52 s")
how("C25", "IR of LinRecurDetect on symbolic machines against an independent history, both directions, including the completeness that Brent's scheme guarantees below half the limit.", "about 79 s")
how("C26", "IR of the writer and the reader with symbolic cells and symbolic bytes after the machine, against the standard format.", "about 20 s")
how("C27", "Not applicable. The crate in `/repo/rust` cannot be compiled here: its dependencies (enum-map, thiserror, ...) are not in the offline cargo cache, so neither Kani nor a MIR dump can be made from the current source, and a hand-made translation would not be the real code.", "")
how("C28", "IR of both enumerators on symbolic roots, with streams that record what is written; the lines are compared with an independent enumeration and simulation of the tree.", "about 91 s")
how("C29", "The real tools (their main or entry function) run on symbolic records behind stand-ins for the record readers and writers; scores, step counts, verdicts, random numbers, order, splitting over files and truncation are inputs; the oracle is what each tool is documented to do with one record. The replay uses real files in a scratch folder. The fairness of sampling is the exact sum over the tree of random outcomes.", "about 20 s")
