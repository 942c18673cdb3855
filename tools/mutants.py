# (name, property, file, old, new[, occurrence])
M = [
 # C10
 ("c10_no_left", "C10", "Code/Lin_Recur_Detect.py", "      most_left_pos = min(most_left_pos, sim.tape.position)\n      most_right_pos = max(most_right_pos, sim.tape.position)\n      if sim.state == init_state:", "      if sim.state == init_state:\n        most_left_pos = min(most_left_pos, sim.tape.position)\n        most_right_pos = max(most_right_pos, sim.tape.position)"),
 ("c10_or_and", "C10", "Code/Lin_Recur_Detect.py", "in_range(tape1, pos1) or in_range(tape2, pos2)", "in_range(tape1, pos1) and in_range(tape2, pos2)"),
 ("c10_sections", "C10", "Code/Lin_Recur_Detect.py", "range(most_left_pos, most_right_pos + 1)", "range(most_left_pos, most_right_pos)"),
 ("c10_range", "C10", "Code/Lin_Recur_Detect.py", "tape.pos_leftmost() <= pos <= tape.pos_rightmost()", "tape.pos_leftmost() <= pos < tape.pos_rightmost()"),
 ("c10_states_used", "C10", "Code/Lin_Recur_Detect.py", "    states_used = set()\n", ""),
 ("c10_ps", "C10", "Code/Lin_Recur_Detect.py", "  low = -1          #", "  low = 0          #"),
 ("c10_reset", "C10", "Code/Lin_Recur_Detect.py", "    init_tape = sim.tape.copy()\n    states_used", "    init_tape = sim.tape.copy() if sim.step_num < 4 else sim.tape\n    states_used"),
 ("c10_check", "C10", "Code/Lin_Recur_Detect.py", "  # Run `period` steps (keeping track of range visited).\n  for _ in range(period):\n    sim.step()\n    most_left_pos = min(most_left_pos, sim.tape.position)", "  # Run `period` steps (keeping track of range visited).\n  for _ in range(period):\n    sim.step()"),
 # C11
 ("c11_expand", "C11", "Code/Direct_Simulator.py", "self.tape.extend([self.init_symbol] * (new_index - len(self.tape) + 1))", "self.tape.extend([self.init_symbol] * max(1, new_index - len(self.tape)))"),
 ("c11_copyhalt", "C11", "Code/Direct_Simulator.py", "new_sim.halted = self.halted", "new_sim.halted = False"),
 ("c11_seek", "C11", "Code/Direct_Simulator.py", "while not self.halted and self.step_num < target_step_num", "while not self.halted and self.step_num != target_step_num"),
 # C12
 ("c12_halts", "C12", "Code/Reverse_Engineer_Filter.py", "if trans.condition in [Turing_Machine.HALT, Turing_Machine.UNDEFINED]:\n        halts.append((state, symbol))", "if trans.condition in [Turing_Machine.HALT, Turing_Machine.UNDEFINED]:\n        if trans.condition == Turing_Machine.HALT or symbol != 0 or state == 0: halts.append((state, symbol))"),
 ("c12_dir", "C12", "Code/Reverse_Engineer_Filter.py", "    for _, trans in to_symbol[halt_symbol]:\n      if trans.dir_out != prehalt_dir:\n        return False\n", "    for (st, _), trans in to_symbol[halt_symbol]:\n      if trans.dir_out != prehalt_dir and st != halt_state:\n        return False\n"),
 ("c12_a0", "C12", "Code/Reverse_Engineer_Filter.py", "and (halt_state, halt_symbol) != (0, 0)", "and halt_state != 0 or halt_symbol == 0 and len(to_state[halt_state]) == 0 and halt_state != 0"),
 ("c12_sym0", "C12", "Code/Reverse_Engineer_Filter.py", "  if halt_symbol != 0:\n", "  if halt_symbol != 0 or len(to_symbol[0]) == 0:\n"),
 # C13
 ("c13_zero", "C13", "Code/Backtracking_Filter.py", "  dir_to_symbol[0] = [True, True]", "  dir_to_symbol[0] = [True, False]"),
 ("c13_notdir", "C13", "Code/Backtracking_Filter.py", "dir_to_symbol[symbol_out][not dir_out] = True", "dir_to_symbol[symbol_out][dir_out] = True"),
 ("c13_applies", "C13", "Code/Backtracking_Filter.py", "return len(self.dir[not dir_out]) == 0 or \\\n           self.dir[not dir_out][0] == symbol_out", "return (len(self.dir[not dir_out]) == 0 and len(self.dir[dir_out]) < 6) or \\\n           (len(self.dir[not dir_out]) > 0 and self.dir[not dir_out][0] == symbol_out)"),
 ("c13_width", "C13", "Code/Backtracking_Filter.py", "    elif max_width_seen > max_width_allowed:\n      break\n", "    elif max_width_seen > max_width_allowed:\n      pos_configs = pos_configs[:max_width_allowed]\n"),
 ("c13_possible", "C13", "Code/Backtracking_Filter.py", "    for symbol in config.dir[dir]:\n      if not dir_to_symbol", "    for symbol in config.dir[dir] + [config.current]:\n      if not dir_to_symbol"),
 ("c13_merge", "C13", "Code/Backtracking_Filter.py", "    if not result.success:\n      return result\n", "    if result.halted:\n      return result\n"),
 ("c13_init", "C13", "Code/Backtracking_Filter.py", "if config.current != 0 or config.state != 0:", "if config.state != 0:"),
 # C14
 ("c14_1blank", "C14", "Code/CTL1.py", "      new_table[trans.state_out, trans.dir_out][not dir].update(table[state, dir][not dir])\n      new", "      new_table[trans.state_out, trans.dir_out][not trans.dir_out].update(table[state, dir][not trans.dir_out])\n      new"),
 ("c14_1cond", "C14", "Code/CTL1.py", "        if trans.condition != Turing_Machine.RUNNING:\n          return False, num_iters\n        if verbose", "        if trans.condition == Turing_Machine.HALT:\n          return False, num_iters\n        if verbose"),
 ("c14_1end", "C14", "Code/CTL1.py", "if end_time and time.time() >= end_time:\n      return False, num_iters", "if end_time and time.time() >= end_time:\n      break"),
 ("c14_2b", "C14", "Code/CTL2.py", "          new_table[trans.state_out, trans.dir_out][trans.dir_out][1].add(machine.init_symbol)\n", "          new_table[trans.state_out, trans.dir_out][trans.dir_out][1].update(table[state, dir][dir][1])\n"),
 ("c14_2init", "C14", "Code/CTL2.py", "for symb in config.tape[d][:-1]:", "for symb in config.tape[d][1:-1]:"),
 ("c14_3d", "C14", "Code/CTL3.py", "          new_sets[not new_dir][1].update(old_sets[not new_dir][0])\n          new_sets[not new_dir][1].update(old_sets[not new_dir][1])", "          new_sets[not new_dir][1].update(old_sets[not new_dir][1] or old_sets[not new_dir][0])"),
 ("c14_3a", "C14", "Code/CTL3.py", "          new_sets[new_dir][0].add(machine.init_symbol)\n", "          if not old_sets[new_dir][1]: new_sets[new_dir][0].add(machine.init_symbol)\n"),
 ("c14_4c", "C14", "Code/CTL4.py", "          new_table[new_state, new_dir][new_dir][2].add(machine.init_symbol)\n", "          new_table[new_state, new_dir][new_dir][2].update(table[state, dir][new_dir][2])\n"),
 ("c14_4s", "C14", "Code/CTL4.py", "        for s in range(3):\n          new_table[new_state, new_dir][not dir]", "        for s in range(2):\n          new_table[new_state, new_dir][not dir]"),
 ("c14_4num", "C14", "Code/CTL4.py", "        if sim.tape.tape[d][1].num > 2:", "        if sim.tape.tape[d][1].num > 3:"),
 ("c14_4b", "C14", "Code/CTL4.py", "        if sim.tape.tape[d][-3].num > 1:", "        if sim.tape.tape[d][-1].num > 1:"),
 ("c14_filter", "C14", "Code/CTL_Filter.py", "    if success:\n", "    if success or num_iters > 6:\n"),
 # C15
 ("c15_edge1", "C15", "Code/CPS.py", "      if self.add_edge(behind_dir, new_behind_second_furthest, new_behind_furthest):\n        was_modified = True", "      self.add_edge(behind_dir, new_behind_second_furthest, new_behind_furthest)"),
 ("c15_edge2", "C15", "Code/CPS.py", "        if self.add_edge(behind_dir, new_behind_furthest, dst):\n          was_modified = True", "        if dst != old_behind_furthest and self.add_edge(behind_dir, new_behind_furthest, dst):\n          was_modified = True"),
 ("c15_cfg", "C15", "Code/CPS.py", "        if self.add_config(next_config):\n          was_modified = True", "        self.add_config(next_config)"),
 ("c15_front", "C15", "Code/CPS.py", "      old_front = old_config.get_block(trans.dir_out, 0)", "      old_front = new_config.get_block(trans.dir_out, 0)"),
 ("c15_order", "C15", "Code/CPS.py", "      if not was_modified:\n", "      if not was_modified or self.result.num_edges >= self.max_edges:\n"),
 ("c15_gave", "C15", "Code/CPS.py", "elif sim_condition != INF_REPEAT:", "elif sim_condition in (HALT, UNDEFINED):"),
 ("c15_eq", "C15", "Code/CPS.py", "self.window == other.window and self.pos == other.pos)", "self.window == other.window)"),
 ("c15_dir", "C15", "Code/CPS.py", "return (self.state == other.state and self.dir == other.dir and", "return (self.state == other.state and"),
 ("c15_hash", "C15", "Code/CPS.py", "if config not in self.transitions and config not in self.todo_configs:", "if config.window not in [c.window for c in self.transitions if c.state == config.state] and config not in self.todo_configs:"),
 # C16
 ("c16_max", "C16", "Code/TM_Enum.py", "max_symbol = max(max_symbol, trans.symbol_out)", "max_symbol = max(max_symbol, trans.symbol_out) if trans.dir_out else max_symbol"),
 ("c16_undef", "C16", "Code/TM_Enum.py", "num_undefined_transitions > 1:", "num_undefined_transitions > 1 and max_state + 1 <= self.tm.num_states and num_undefined_transitions != 2 * self.tm.num_states - 4:"),
 ("c16_copy", "C16", "Code/TM_Enum.py", "new_tm_enum = copy.deepcopy(self)", "new_tm_enum = copy.copy(self)"),
 ("c16_dirs", "C16", "Code/TM_Enum.py", "    if is_a_trans_defined:\n", "    if is_a_trans_defined or symbol_in:\n"),
 ("c16_allow", "C16", "Code/TM_Enum.py", "if self.allow_no_halt or num_undefined_transitions > 1:", "if num_undefined_transitions > 1 or self.allow_no_halt and max_state == self.tm.num_states - 1:"),
 ("c16_expand", "C16", "Code/Enumerate.py", "      self.expand_undefined_transition(tm_record)\n      # Modify this TM to explicitly halt on this transition so that when we\n      # save it as halting below the ttable reflects that.\n      tm_record.standardize_halt_trans()", "      tm_record.standardize_halt_trans()\n      self.expand_undefined_transition(tm_record)"),
 ("c16_numenum", "C16", "Code/Enumerate.py", "      while tm_record:\n        # Empty", "      while tm_record and not self.randomize:\n        # Empty"),
 ("c16_save", "C16", "Code/Enumerate.py", "        tm_record.proto.ClearField(\"status\")\n", ""),
 # C17
 ("c17_1", "C17", "Code/Zero_Reflexive.py", None, None),
 # C18
 ("c18_swap", "C18", "Code/TNF.py", "          new_dir = Turing_Machine.other_dir(old_trans.dir_out)", "          new_dir = Turing_Machine.other_dir(old_trans.dir_out) if old_trans.state_out != old_state else old_trans.dir_out"),
 ("c18_left", "C18", "Code/TNF.py", "    if len(unordered_states) == 1:\n      state_order.append(unordered_states.pop())", "    if len(unordered_states) == 1 and sim.step_num > 1:\n      state_order.append(unordered_states.pop())"),
 ("c18_cond", "C18", "Code/TNF.py", "          condition = old_trans.condition,\n          symbol_out = 1", "          condition = Turing_Machine.HALT,\n          symbol_out = 1"),
 ("c18_perm", "C18", "Code/Permute.py", "    state_order[old_start_state] = new_start_state\n", "    state_order[old_start_state] = new_start_state\n    if new_start_state > 2: state_order[1], state_order[2] = state_order[2], state_order[1]; symbol_order = symbol_order[:1] + symbol_order[:0:-1]\n"),
 ("c18_steps", "C18", "Code/TNF.py", "if sim.step_num > max_steps or sim.halted:", "if sim.step_num > max_steps:"),
 ("c18_lnf", "C18", "Code/LNF.py", "for swap_dirs in (False, True):", "for swap_dirs in (False, old_tm.num_symbols > 2 or old_tm.num_states > 2):"),
 ("c18_lnfinit", "C18", "Code/LNF.py", "  perm_tm.init_symbol = new_start_symb\n", ""),
 # C19
 ("c19_pack7", "C19", "Code/IO/TM_Record.py", "symbol = (byte_int & 0b111) - 1", "symbol = ((byte_int & 0b111) - 1) % 6 if byte_int & 0b111 else -1"),
 ("c19_write", "C19", "Code/IO/TM_Record.py", "if tm.num_states <= 7 and tm.num_symbols <= 7:", "if tm.num_states <= 7 or tm.num_symbols <= 7:"),
 ("c19_list", "C19", "Code/IO/TM_Record.py", "      if trans.condition == Turing_Machine.UNDEFINED:\n        symbol_out = -1\n", "      if trans.condition != Turing_Machine.RUNNING:\n        symbol_out = -1\n"),
 ("c19_big", "C19", "Code/Halting_Lib.py", "    if abs(value) <= _BIG_INT_MAX:", "    if abs(value) < _BIG_INT_MAX // 2 or value < 0:"),
 ("c19_hex", "C19", "Code/Halting_Lib.py", "      field.hex_str = hex(value)", "      field.hex_str = hex(abs(value))"),
 ("c19_bbc", "C19", "Code/IO/BBC.py", "if state == -1 and symbol == 0:", "if state == -1:"),
 ("c19_parse", "C19", "Code/IO/TM_Record.py", "        if state_out >= num_states:\n          state_out = -1\n", "        if state_out > num_states:\n          state_out = -1\n"),
 ("c19_maxsym", "C19", "Code/IO/TM_Record.py", "      max_symbol = max(max_symbol, symbol_in)\n", "      max_symbol = max(max_symbol, symbol_in if row[i:i+3] != '---' else 0)\n"),
 ("c19_expterm", "C19", "Code/Halting_Lib.py", "  if field.HasField(\"coef\"):", "  if field.HasField(\"coef\") and field.coef.int:"),
 ("c19_idx", "C19", "Code/IO/BBC.py", "struct.unpack(\">L\", n_bytes)", "struct.unpack(\">l\", n_bytes)"),
 # C20
 ("c20_skip", "C20", "Code/IO/Proto.py", "      raise IO_Error(\"Unexpected EOF while reading length block \"\n                       f\"(expected 4 bytes, got {len(len_bytes)}).\")", "      return None"),
 ("c20_len", "C20", "Code/IO/Proto.py", "      if len(pb_bytes) != pb_len:\n        raise IO_Error(\"Unexpected EOF while reading data", "      if pb_len and not pb_bytes:\n        raise IO_Error(\"Unexpected EOF while reading data"),
 ("c20_bbc", "C20", "Code/IO/BBC.py", "    elif len(tm_bytes) != _BYTES_PER_RECORD:\n      raise", "    elif len(tm_bytes) < _BYTES_PER_RECORD - 3:\n      raise"),
 ("c20_std", "C20", "Code/IO/StdText.py", "    line = self.infile.readline()\n    return line != \"\"", "    line = self.infile.readline()\n    return bool(line.strip())"),
 ("c20_load", "C20", "Code/IO/Proto.py", "    for _ in range(record_num):\n      reader.skip_record()", "    for _ in range(record_num):\n      if not reader.skip_record(): break"),
 # C21
 ("c21_inf", "C21", "Code/Halting_Lib.py", "      if last_seen > q_last_seen:", "      if last_seen >= q_last_seen + 1 and (q_state is None or state > q_state):"),
 ("c21_plus", "C21", "Code/Halting_Lib.py", "quasihalt_steps, q_last_seen + 1)", "quasihalt_steps, q_last_seen)"),
 ("c21_none", "C21", "Code/Halting_Lib.py", "if states_last_seen is None or states_to_ignore is None:", "if not states_last_seen or not states_to_ignore:"),
 ("c21_sym", "C21", "Code/Macro_Simulator.py", "from_symbol, from_state = sim.op_details[0][:2]", "from_symbol, from_state = sim.op_details[-1][:2]"),
 ("c21_tape", "C21", "Code/Macro_Simulator.py", "if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:", "if sim.tape.compressed_size() >= sim_info.parameters.max_tape_blocks:"),
 # C22
 ("c22_extra", "C22", "Code/MPI_Work_Queue.py", "extra_jobs = self.local_queue[:-self.target_queue_size]", "extra_jobs = self.local_queue[:len(self.local_queue) - self.target_queue_size - 1]"),
 ("c22_quit", "C22", "Code/MPI_Work_Queue.py", "if not self.master_queue and True not in worker_state:", "if not self.master_queue and worker_state.count(True) <= 1 and worker_state[-1] is False and worker_state.count(False) == num_proc - 1 - (num_proc > 4):"),
 ("c22_order", "C22", "Code/MPI_Work_Queue.py", "      # Update worker state.\n      while comm.Iprobe", "      # Collect\n      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=PUSH_JOBS):\n        self.master_queue += comm.recv(source=MPI.ANY_SOURCE, tag=PUSH_JOBS)\n      # Update worker state.\n      while comm.Iprobe", "first+drop"),
 ("c22_batch", "C22", "Code/MPI_Work_Queue.py", "          jobs_block = self.master_queue[:num_jobs_per_batch]\n          self.master_queue = self.master_queue[num_jobs_per_batch:]", "          jobs_block = self.master_queue[:num_jobs_per_batch]\n          if count + 1 == increase_count:\n            num_jobs_per_batch += 1\n          self.master_queue = self.master_queue[num_jobs_per_batch:]"),
 ("c22_iprobe", "C22", "Code/MPI_Work_Queue.py", "      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=PUSH_JOBS):\n        self.master_queue += comm.recv(source=MPI.ANY_SOURCE, tag=PUSH_JOBS)", "      if comm.Iprobe(source=MPI.ANY_SOURCE, tag=PUSH_JOBS):\n        self.master_queue += comm.recv(source=MPI.ANY_SOURCE, tag=PUSH_JOBS)"),
 ("c22_fifo", "C22", "Code/Work_Queue.py", "      return self.queue.popleft()", "      return self.queue.popleft() if len(self.queue) < 5 else self.queue.pop()"),
 ("c22_recv", "C22", "Code/MPI_Work_Queue.py", "self.local_queue += comm.recv(source=self.master, tag=POP_JOBS)", "self.local_queue = comm.recv(source=self.master, tag=POP_JOBS)[:self.max_queue_size]"),
]
