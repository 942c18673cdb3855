# More behaviour-preserving edits (C++, closed tape languages, counts, text formats).
R = [
 ("r_cpp_sim", ["C23", "C25", "C28"], [
  ("cpp/src/simulator.cpp", '''  long index = pos + index_start_;
  if (0 <= index && index < tape_.size()) {
    return tape_[index];
  } else {
    return BlankSymbol;
  }
''', '''  const long index = index_start_ + pos;
  const long size = static_cast<long>(tape_.size());
  if (index < 0 || index >= size) {
    return BlankSymbol;
  }
  return tape_[index];
'''),
  ("cpp/src/simulator.cpp", '''  index_ += move_dir;
  // Extend tape if necessary.
  if (index_ < 0) {
    tape_.insert(tape_.begin(), unit_size_, BlankSymbol);
    index_ += unit_size_;
    index_start_ += unit_size_;
  } else if (index_ >= tape_.size()) {
    tape_.insert(tape_.end(), unit_size_, BlankSymbol);
  }
''', '''  index_ = index_ + move_dir;
  // Extend tape if necessary.
  if (index_ >= 0) {
    if (index_ >= static_cast<long>(tape_.size())) {
      tape_.resize(tape_.size() + unit_size_, BlankSymbol);
    }
  } else {
    std::vector<Symbol> bigger(unit_size_, BlankSymbol);
    bigger.insert(bigger.end(), tape_.begin(), tape_.end());
    tape_ = bigger;
    index_start_ += unit_size_;
    index_ += unit_size_;
  }
'''),
  ("cpp/src/simulator.cpp", '''  last_state_ = state_;
  last_symbol_ = tape_.read();
  auto lookup_res = tm_.Lookup(last_state_, last_symbol_);

  tape_.write(lookup_res.symbol);
  tape_.move(lookup_res.move);
  state_ = lookup_res.state;
  step_num_ += 1;
''', '''  last_symbol_ = tape_.read();
  last_state_ = state_;
  const auto next = tm_.Lookup(state_, last_symbol_);
  ++step_num_;
  state_ = next.state;
  tape_.write(next.symbol);
  tape_.move(next.move);
'''),
  ("cpp/src/simulator.cpp", '''  while (!is_halted() && step_num_ < step_goal) {
    StepSafe();
  }
''', '''  for (; step_num_ < step_goal; ) {
    if (is_halted()) {
      return;
    }
    StepSafe();
  }
'''),
 ]),
 ("r_cpp_enum", ["C24", "C28"], [
  ("cpp/src/enumerator.cpp", '''  if (allow_no_halt_ || tm.num_halts() > 1) {
    int order = 0;
    for (State next_state = 0; next_state <= tm.max_next_state(); ++next_state) {
      for (Symbol next_symbol = 0; next_symbol <= tm.max_next_symbol(); ++next_symbol) {
        for (int next_move : {+1, -1}) {
          if (next_move == +1 || tm.next_move_left_ok()) {
            const TuringMachine::LookupResult next = {
              next_symbol, next_move, next_state};
            todos->push(new TuringMachine(tm, result.last_state, result.last_symbol,
                                          next, order));
            order += 1;
          }
        }
      }
    }
  }
''', '''  if (!allow_no_halt_ && tm.num_halts() <= 1) {
    return;
  }
  const int lowest_move = tm.next_move_left_ok() ? -1 : +1;
  int order = 0;
  for (State next_state = 0; next_state <= tm.max_next_state(); ++next_state) {
    for (Symbol next_symbol = 0; next_symbol <= tm.max_next_symbol(); ++next_symbol) {
      for (int next_move = +1; next_move >= lowest_move; next_move -= 2) {
        TuringMachine::LookupResult next;
        next.symbol = next_symbol;
        next.move = next_move;
        next.state = next_state;
        todos->push(new TuringMachine(tm, result.last_state, result.last_symbol,
                                      next, order++));
      }
    }
  }
'''),
  ("cpp/src/turing_machine.cpp", '''  transitions_.resize(num_states_);
  for (State state = 0; state < num_states_; ++state) {
    transitions_[state].resize(num_symbols_);
    for (Symbol symbol = 0; symbol < num_symbols_; ++symbol) {
      transitions_[state][symbol] = old_tm.transitions_[state][symbol];
    }
  }
''', '''  transitions_ = old_tm.transitions_;
'''),
  ("cpp/src/turing_machine.cpp", '''  max_next_state_ = std::max(old_tm.max_next_state_,
                             std::min(num_states_ - 1, next_trans.state + 1));
  max_next_symbol_ = std::max(old_tm.max_next_symbol_,
                             std::min(num_symbols_ - 1, next_trans.symbol + 1));
''', '''  max_next_state_ = old_tm.max_next_state_;
  if (next_trans.state == max_next_state_ && max_next_state_ < num_states_ - 1) {
    max_next_state_ += 1;
  }
  max_next_symbol_ = old_tm.max_next_symbol_;
  if (next_trans.symbol == max_next_symbol_ && max_next_symbol_ < num_symbols_ - 1) {
    max_next_symbol_ += 1;
  }
'''),
 ]),
 ("r_cpp_lr", ["C25", "C28"], [
  ("cpp/src/lin_recur.cpp", '''        long offset = sim.tape().position() - init_pos;
        bool success = false;
        if (offset > 0) {  // Right
          if (are_half_tapes_equal(init_tape, most_left_pos,
                                   sim.tape(), most_left_pos + offset,
                                   +1)) {
            success = true;
          }
        } else if (offset < 0) {  // Left
          if (are_half_tapes_equal(init_tape, most_right_pos,
                                   sim.tape(), most_right_pos + offset,
                                   -1)) {
            success = true;
          }
        } else {  // In place
          if (are_sections_equal(init_tape, sim.tape(),
                                 most_left_pos, most_right_pos)) {
            success = true;
          }
        }

        if (success) {
''', '''        const long offset = sim.tape().position() - init_pos;
        if (is_repeat(init_tape, sim.tape(), most_left_pos, most_right_pos, offset)) {
'''),
  ("cpp/src/lin_recur.cpp", '''}  // namespace

LinRecurResult''', '''bool is_repeat(const Tape& start_tape, const Tape& end_tape,
               const long most_left_pos, const long most_right_pos,
               const long offset) {
  if (offset == 0) {
    return are_sections_equal(start_tape, end_tape, most_left_pos, most_right_pos);
  }
  const bool right = offset > 0;
  const long start = right ? most_left_pos : most_right_pos;
  return are_half_tapes_equal(start_tape, start, end_tape, start + offset,
                              right ? +1 : -1);
}

}  // namespace

LinRecurResult'''),
  ("cpp/src/lin_recur.cpp", '''  long pos1 = start_pos1;
  long pos2 = start_pos2;
  while (tape1.in_range(pos1) || tape2.in_range(pos2)) {
    if (tape1.read(pos1) != tape2.read(pos2)) {
      return false;
    }
    pos1 += dir_offset;
    pos2 += dir_offset;
  }
  // Entire half-tapes are equal!
  return true;
''', '''  for (long delta = 0;; delta += dir_offset) {
    const long pos1 = start_pos1 + delta;
    const long pos2 = start_pos2 + delta;
    if (!tape1.in_range(pos1) && !tape2.in_range(pos2)) {
      // Entire half-tapes are equal!
      return true;
    }
    if (tape1.read(pos1) != tape2.read(pos2)) {
      return false;
    }
  }
'''),
  ("cpp/src/lin_recur.cpp", '''      most_left_pos = std::min(most_left_pos, sim.tape().position());
      most_right_pos = std::max(most_right_pos, sim.tape().position());
''', '''      const long position = sim.tape().position();
      if (position < most_left_pos) {
        most_left_pos = position;
      } else if (position > most_right_pos) {
        most_right_pos = position;
      }
'''),
 ]),
 ("r_cpp_text", ["C26", "C28"], [
  ("cpp/src/turing_machine.cpp", '''        *outstream << trans.symbol;
        if (trans.move == +1) {
          *outstream << "R";
        } else {
          ASSERT(trans.move == -1);
          *outstream << "L";
        }
        char out_state_char;
        if (trans.state >= 0) {
          // 0 -> 'A', 1 -> 'B', ...
          out_state_char = trans.state + 'A';
        } else {
          out_state_char = 'Z';
        }
        *outstream << out_state_char;
''', '''        ASSERT(trans.move == +1 || trans.move == -1);
        const char dir_char = (trans.move == +1) ? 'R' : 'L';
        const char state_char =
            (trans.state < 0) ? 'Z' : static_cast<char>('A' + trans.state);
        *outstream << trans.symbol << dir_char << state_char;
'''),
  ("cpp/src/turing_machine.cpp", '''          char state_char = line[i+2];
          if (state_char == 'Z') {
            trans.state = -1;
          } else {
            // 'A' -> 0, 'B' -> 1, ...
            trans.state = state_char - 'A';
            ASSERT(0 <= trans.state && trans.state < 26);
          }
''', '''          // 'A' -> 0, 'B' -> 1, ... and 'Z' -> halt
          trans.state = line[i+2] - 'A';
          ASSERT(0 <= trans.state && trans.state < 26);
          if (line[i+2] == 'Z') {
            trans.state = HaltState;
          }
'''),
 ]),
 ("r_cpp_lazy", ["C28"], [
  ("cpp/src/lazy_beaver_enumerator.cpp", '''  for (long i = 1;; ++i) {
    if (steps_realized_.count(i) == 0) {
      return i;
    }
  }
''', '''  long i = 1;
  while (steps_realized_.find(i) != steps_realized_.end()) {
    ++i;
  }
  return i;
'''),
  ("cpp/src/lazy_beaver_enumerator.cpp", '''    if (steps_realized_.count(sim.step_num()) == 0) {
      // Log this TM
      steps_realized_.insert(sim.step_num());

      // Write witness''', '''    if (steps_realized_.insert(sim.step_num()).second) {
      // Write witness'''),
  ("cpp/src/lin_recur_enumerator.cpp", '''  num_tms_total_ += 1;
  if (result.is_halted) {
    num_tms_halt_ += 1;
    
    if (!only_unknown) {
''', '''  ++num_tms_total_;
  if (result.is_halted) {
    ++num_tms_halt_;
    if (only_unknown == false) {
'''),
 ]),
 ("r_ctl1", ["C14"], [
  ("Code/CTL1.py", '''    for state, dir in table:
      # We could be looking at any of these symbols
      for symb in table[state, dir][dir]:
        trans = machine.get_trans_object(symb, state, dir)
        if trans.condition != Turing_Machine.RUNNING:
          return False, num_iters
''', '''    for (state, dir), sides in list(table.items()):
      # We could be looking at any of these symbols
      for symb in sides[dir]:
        trans = machine.get_trans_object(symb, state, dir)
        if not trans.condition == Turing_Machine.RUNNING:
          return False, num_iters
'''),
  ("Code/CTL1.py", '''        for d in range(2):
          new_table[trans.state_out, trans.dir_out][d].update(table[state, dir][d])
        new_table[trans.state_out, trans.dir_out][not trans.dir_out].add(
          trans.symbol_out)
''', '''        entry = new_table[trans.state_out, trans.dir_out]
        entry[0].update(sides[0])
        entry[1].update(sides[1])
        entry[1 - trans.dir_out].add(trans.symbol_out)
'''),
  ("Code/CTL1.py", '''    # Make new_table complete by unioning it with table
    for x in table:
      for d in range(2):
        new_table[x][d].update(table[x][d])
''', '''    # Make new_table complete by unioning it with table
    for key, (left, right) in table.items():
      new_table[key][0].update(left)
      new_table[key][1].update(right)
'''),
 ]),
 ("r_ctl2", ["C14"], [
  ("Code/CTL2.py", '''        for s in range(2):
          new_table[trans.state_out, trans.dir_out][not dir][s].update(table[state, dir][not dir][s])
        if trans.dir_out == dir:
          # Ex: (3) (1|5)* A> (1) -> (3) (1|5)* 2 B>
          new_table[trans.state_out, trans.dir_out][not trans.dir_out][0].add(trans.symbol_out)
          new_table[trans.state_out, trans.dir_out][trans.dir_out][1].add(machine.init_symbol)
        else: # trans.dir_out != dir
          # Ex: (3) (1|5)* A> (1) -> (3) (1|5)* <B 2
          new_table[trans.state_out, trans.dir_out][not trans.dir_out][1].add(trans.symbol_out)
''', '''        entry = new_table[trans.state_out, trans.dir_out]
        behind = 1 - dir
        entry[behind][0].update(table[state, dir][behind][0])
        entry[behind][1].update(table[state, dir][behind][1])
        if trans.dir_out != dir:
          # Ex: (3) (1|5)* A> (1) -> (3) (1|5)* <B 2
          entry[dir][1].add(trans.symbol_out)
        else:
          # Ex: (3) (1|5)* A> (1) -> (3) (1|5)* 2 B>
          entry[behind][0].add(trans.symbol_out)
          entry[dir][1].add(machine.init_symbol)
'''),
 ]),
 ("r_count", ["C17"], [
  ("Code/Count.py", '''  if n == m:
    return 1
  else:
    return n*fact2(n-1, m)
''', '''  result = 1
  for i in range(m + 1, n + 1):
    result *= i
  return result
'''),
  ("Code/Count.py", '''  if has_halt:
    # All possible assignments of trans for each undefined transition.
    # num_dirs * num_states * num_symbols for each trans.
    num_tms *= (2*tm.num_states*tm.num_symbols)**num_undefs
  else:
    this_mult = 0
    if num_undefs >= 1:
      # Count with 1 halt added.
      this_mult += num_undefs * (2*tm.num_states*tm.num_symbols)**(num_undefs - 1)
    if allow_no_halt:
      # Count with 0 halts added.
      this_mult += (2*tm.num_states*tm.num_symbols)**num_undefs
    num_tms *= this_mult
  return num_tms
''', '''  # num_dirs * num_states * num_symbols for each trans.
  choices = tm.num_symbols * tm.num_states * 2
  if has_halt:
    # All possible assignments of trans for each undefined transition.
    return num_tms * choices**num_undefs
  # Count with 0 halts added.
  assignments = choices**num_undefs if allow_no_halt else 0
  if num_undefs > 0:
    # Count with 1 halt added.
    assignments += num_undefs * choices**(num_undefs - 1)
  return num_tms * assignments
'''),
 ]),
 ("r_text", ["C19"], [
  ("Code/IO/StdText.py", '''    line = self.infile.readline()
    line = line.strip()
    if line:
      tm = parse_tm(line.split()[0])
      tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt = False)
      tm_record = TM_Record.TM_Record(tm_enum = tm_enum)
      return tm_record
''', '''    words = self.infile.readline().split()
    if not words:
      return None
    tm = parse_tm(words[0])
    return TM_Record.TM_Record(tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt = False))
'''),
  ("Code/IO/BBC.py", '''  symbol = int(trans_bytes[0])
  dir_int = int(trans_bytes[1])
  # BBC uses state 0 for Halt. We use state -1 for Halt.
  state = int(trans_bytes[2]) - 1
''', '''  symbol, dir_int, state_int = (int(b) for b in trans_bytes)
  # BBC uses state 0 for Halt. We use state -1 for Halt.
  state = state_int - 1
'''),
  ("Code/IO/OldText.py", '''  s = ""
  for state_in in range(tm.num_states):
    for symbol_in in range(tm.num_symbols):
      trans = tm.get_trans_object(symbol_in, state_in)
      if trans.condition == Turing_Machine.UNDEFINED:
        s += "--- "
      else:
        symbol = SYMBOLS_DISPLAY[trans.symbol_out]
        dir = DIRS_DISPLAY[trans.dir_out]
        state = STATES_DISPLAY[trans.state_out] if trans.state_out >= 0 else "Z"
        s += "%c%c%c " % (symbol, dir, state)
    s += " "
  return s.strip()
''', '''  def cell(trans):
    if trans.condition == Turing_Machine.UNDEFINED:
      return "---"
    state = "Z" if trans.state_out < 0 else STATES_DISPLAY[trans.state_out]
    return SYMBOLS_DISPLAY[trans.symbol_out] + DIRS_DISPLAY[trans.dir_out] + state
  return "  ".join(" ".join(cell(tm.get_trans_object(symbol_in, state_in))
                            for symbol_in in range(tm.num_symbols))
                   for state_in in range(tm.num_states))
'''),
  ("Code/Macro/Turing_Machine.py", '''      row_strs = []
      for row in self.trans_table:
        row_strs.append("".join(trans.to_ttable_str()
                                 for trans in row))
      return "_".join(row_strs)
''', '''      result = ""
      for i, row in enumerate(self.trans_table):
        if i > 0:
          result += "_"
        for trans in row:
          result += trans.to_ttable_str()
      return result
'''),
  ("Code/Macro/Turing_Machine.py", '''      symbol = string.digits[self.symbol_out]
      dir = "LRS"[self.dir_out]
      if self.condition == HALT:
        state = "Z"
      else:
        state = string.ascii_uppercase[self.state_out]
      return "%c%c%c" % (symbol, dir, state)
''', '''      letters = "Z" if self.condition == HALT else string.ascii_uppercase[self.state_out]
      return f"{string.digits[self.symbol_out]}{'LRS'[self.dir_out]}{letters}"
'''),
 ]),
]
