# Behaviour-preserving edits: the checks have to stay quiet on them.
# (name, [properties], [(file, old, new), ...])
R = [
 ("r_mpi_master", ["C22"], [
  ("Code/MPI_Work_Queue.py", "      # Update worker state.\n      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=WAITING_FOR_POP):\n        status = MPI.Status()\n        # We ignore the actual message contents.\n        comm.recv(source=MPI.ANY_SOURCE, tag=WAITING_FOR_POP, status=status)\n        rank_waiting = status.Get_source()\n        worker_state[rank_waiting] = False\n        worker_queue_size[rank_waiting] = 0\n",
   "      # Update worker state.\n      for rank_waiting, _ in self._drain(WAITING_FOR_POP):\n        worker_queue_size[rank_waiting] = 0\n        worker_state[rank_waiting] = False\n"),
  ("Code/MPI_Work_Queue.py", "      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=REPORT_QUEUE_SIZE):\n        status = MPI.Status()\n        size = comm.recv(source=MPI.ANY_SOURCE, tag=REPORT_QUEUE_SIZE,\n                         status=status)\n        rank = status.Get_source()\n        worker_queue_size[rank] = size\n",
   "      for rank, size in self._drain(REPORT_QUEUE_SIZE):\n        worker_queue_size[rank] = size\n"),
  ("Code/MPI_Work_Queue.py", "  def run_master(self):\n", "  def _drain(self, tag):\n    \"\"\"All messages with this tag that have arrived, with their senders.\"\"\"\n    while True:\n      if not comm.Iprobe(source=MPI.ANY_SOURCE, tag=tag):\n        return\n      st = MPI.Status()\n      message = comm.recv(source=MPI.ANY_SOURCE, tag=tag, status=st)\n      yield st.Get_source(), message\n\n  def run_master(self):\n"),
  ("Code/MPI_Work_Queue.py", "          jobs_block = self.master_queue[:num_jobs_per_batch]\n          self.master_queue = self.master_queue[num_jobs_per_batch:]\n          rank_waiting = worker_state.index(False)\n",
   "          rank_waiting = worker_state.index(False)\n          jobs_block = self.master_queue[:num_jobs_per_batch]\n          del self.master_queue[:num_jobs_per_batch]\n"),
 ]),
 ("r_mpi_worker", ["C22"], [
  ("Code/MPI_Work_Queue.py", "    if self.local_queue:\n      self._report_queue_size()\n      # Perform all jobs in the local queue first.\n      self.jobs_popped += 1\n      return self.local_queue.pop()\n    else:\n",
   "    if len(self.local_queue) > 0:\n      self._report_queue_size()\n      return self._take()\n    else:\n"),
  ("Code/MPI_Work_Queue.py", "        self.jobs_popped += 1\n        return self.local_queue.pop()\n      else:\n", "        return self._take()\n      else:\n"),
  ("Code/MPI_Work_Queue.py", "  def push_job(self, job):\n    self.push_jobs([job])\n", "  def _take(self):\n    job = self.local_queue.pop()\n    self.jobs_popped += 1\n    return job\n\n  def push_job(self, job):\n    self.push_jobs((job,))\n"),
  ("Code/MPI_Work_Queue.py", "      self.local_queue += comm.recv(source=self.master, tag=POP_JOBS)\n", "      received = comm.recv(source=self.master, tag=POP_JOBS)\n      self.local_queue.extend(received)\n"),
  ("Code/MPI_Work_Queue.py", "      extra_jobs = self.local_queue[:-self.target_queue_size]\n      self.local_queue = self.local_queue[-self.target_queue_size:]\n      comm.send(extra_jobs,", "      keep_from = len(self.local_queue) - self.target_queue_size\n      extra_jobs, self.local_queue = self.local_queue[:keep_from], self.local_queue[keep_from:]\n      comm.send(extra_jobs,"),
 ]),
 ("r_queues", ["C22", "C16"], [
  ("Code/Work_Queue.py", "    self.save_stats()\n\n    return self.queue.extend(jobs)\n", "    for job in jobs:\n      self.push_job(job)\n"),
  ("Code/Work_Queue.py", "    if self.queue:\n      return self.queue.popleft()\n    else:\n      return None\n", "    try:\n      return self.queue.popleft()\n    except IndexError:\n      return None\n"),
  ("Code/Work_Queue.py", "    return self.queue.extend(jobs)\n", "    self.queue += jobs\n"),
 ]),
 ("r_halting", ["C21", "C19", "C10"], [
  ("Code/Halting_Lib.py", "  tm_status.halt_status.is_halting = True\n  set_big_int(tm_status.halt_status.halt_steps, halt_steps)\n  if halt_score is not None:\n    set_big_int(tm_status.halt_status.halt_score, halt_score)\n  if from_state is not None:\n    tm_status.halt_status.from_state = from_state\n  if from_symbol is not None:\n    tm_status.halt_status.from_symbol = from_symbol\n  tm_status.halt_status.is_decided = True\n",
   "  halt = tm_status.halt_status\n  if from_symbol is not None:\n    halt.from_symbol = from_symbol\n  if from_state is not None:\n    halt.from_state = from_state\n  if halt_score is not None:\n    set_big_int(halt.halt_score, halt_score)\n  set_big_int(halt.halt_steps, halt_steps)\n  halt.is_halting = True\n  halt.is_decided = True\n"),
  ("Code/Halting_Lib.py", "  q_state = None\n  q_last_seen = -1\n  for state, last_seen in states_last_seen.items():\n    if state not in states_to_ignore:\n      if last_seen > q_last_seen:\n        q_state = state\n        q_last_seen = states_last_seen[state]\n",
   "  q_state = None\n  q_last_seen = -1\n  for state in states_last_seen:\n    if state in states_to_ignore:\n      continue\n    last_seen = states_last_seen[state]\n    if q_last_seen < last_seen:\n      q_last_seen, q_state = last_seen, state\n"),
  ("Code/Halting_Lib.py", "    if abs(value) <= _BIG_INT_MAX:\n", "    if -_BIG_INT_MAX <= value <= _BIG_INT_MAX:\n"),
  ("Code/Halting_Lib.py", "  type = field.WhichOneof(\"big_int\")\n  if type == \"int\":\n    return field.int\n  elif type == \"uint_old\":\n    return field.uint_old\n", "  type = field.WhichOneof(\"big_int\")\n  if type in (\"int\", \"uint_old\"):\n    return getattr(field, type)\n"),
 ]),
 ("r_macro_sim", ["C21"], [
  ("Code/Macro_Simulator.py", "    try:\n      while ((sim_info.parameters.max_loops == 0 or\n              sim.num_loops < sim_info.parameters.max_loops) and\n             sim.op_state == Turing_Machine.RUNNING and\n             sim.tape.compressed_size() <= sim_info.parameters.max_tape_blocks):\n        sim.step()\n",
   "    max_loops = sim_info.parameters.max_loops\n    try:\n      while True:\n        if max_loops and sim.num_loops >= max_loops:\n          break\n        if sim.op_state != Turing_Machine.RUNNING:\n          break\n        if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:\n          break\n        sim.step()\n"),
  ("Code/Macro_Simulator.py", "      if sim.states_last_seen is None:\n        bb_status.quasihalt_status.is_decided = False\n      else:\n        Halting_Lib.set_inf_recur(bb_status,\n                                  states_to_ignore=sim.inf_recur_states,\n                                  states_last_seen=sim.states_last_seen)\n",
   "      Halting_Lib.set_inf_recur(bb_status,\n                                states_to_ignore=sim.inf_recur_states,\n                                states_last_seen=sim.states_last_seen)\n"),
  ("Code/Macro_Simulator.py", "def run_options(tm_record : TM_Record, options) -> None:\n", "def try_reverse_engineer(tm_record, base_tm) -> bool:\n  with IO.Timer(tm_record.proto.filter.reverse_engineer):\n    info = tm_record.proto.filter.reverse_engineer\n    info.tested = True\n    info.success = Reverse_Engineer_Filter.is_infinite(base_tm)\n    if info.success:\n      Halting_Lib.set_not_halting(tm_record.proto.status, io_pb2.INF_REVERSE_ENGINEER)\n      # Note: quasihalting result is not computable when using Reverse_Engineer filter.\n      tm_record.proto.status.quasihalt_status.is_decided = False\n    return info.success\n\ndef run_options(tm_record : TM_Record, options) -> None:\n"),
  ("Code/Macro_Simulator.py", "      with IO.Timer(tm_record.proto.filter.reverse_engineer):\n        tm_record.proto.filter.reverse_engineer.tested = True\n        if Reverse_Engineer_Filter.is_infinite(base_tm):\n          tm_record.proto.filter.reverse_engineer.success = True\n          Halting_Lib.set_not_halting(tm_record.proto.status, io_pb2.INF_REVERSE_ENGINEER)\n          # Note: quasihalting result is not computable when using Reverse_Engineer filter.\n          tm_record.proto.status.quasihalt_status.is_decided = False\n          return\n        else:\n          tm_record.proto.filter.reverse_engineer.success = False\n",
   "      if try_reverse_engineer(tm_record, base_tm):\n        return\n"),
  ("Code/Macro_Simulator.py", "      from_symbol, from_state = sim.op_details[0][:2]\n", "      details = sim.op_details[0]\n      from_symbol, from_state = details[0], details[1]\n"),
 ]),
 ("r_proto", ["C20", "C19"], [
  ("Code/IO/Proto.py", "    len_bytes = struct.pack(\"<L\", len(pb_bytes))\n\n    # Write size followed by message\n    self.outfile.write(len_bytes)\n    self.outfile.write(pb_bytes)\n", "    # Write size followed by message\n    self.outfile.write(struct.pack(\"<L\", len(pb_bytes)) + pb_bytes)\n"),
  ("Code/IO/Proto.py", "    pb_len = self._read_message_len()\n    if pb_len != None:\n      # Read protobuf bytes\n      pb_bytes = self.infile.read(pb_len)\n      if len(pb_bytes) != pb_len:\n        raise IO_Error(\"Unexpected EOF while reading data block \"\n                       f\"(expected {pb_len}, got {len(pb_bytes)})\")\n\n", "    pb_bytes = self._read_block()\n    if pb_bytes is not None:\n"),
  ("Code/IO/Proto.py", "    pb_len = self._read_message_len()\n    if pb_len != None:\n      # Skip ahead pb_len bytes. (Note: seek() would not notice EOF.)\n      pb_bytes = self.infile.read(pb_len)\n      if len(pb_bytes) != pb_len:\n        raise IO_Error(\"Unexpected EOF while skipping data block \"\n                       f\"(expected {pb_len}, got {len(pb_bytes)})\")\n      return True\n    return False\n", "    return self._read_block() is not None\n"),
  ("Code/IO/Proto.py", "  def read_record(self) -> TM_Record:\n", "  def _read_block(self):\n    pb_len = self._read_message_len()\n    if pb_len is None:\n      return None\n    pb_bytes = self.infile.read(pb_len)\n    if len(pb_bytes) < pb_len:\n      raise IO_Error(\"Unexpected EOF while reading data block \"\n                     f\"(expected {pb_len}, got {len(pb_bytes)})\")\n    return pb_bytes\n\n  def read_record(self) -> TM_Record:\n"),
  ("Code/IO/Proto.py", "    tm_record = self.read_record()\n    while tm_record != None:\n      yield tm_record\n      tm_record = self.read_record()\n", "    while True:\n      tm_record = self.read_record()\n      if tm_record is None:\n        return\n      yield tm_record\n"),
 ]),
 ("r_proto_varbytes", ["C20"], [
  ("Code/IO/Proto.py", "      return struct.unpack(\"<L\", len_bytes)[0]\n", "      return int.from_bytes(len_bytes, \"little\")\n"),
  ("Code/IO/Proto.py", "    len_bytes = struct.pack(\"<L\", len(pb_bytes))\n", "    len_bytes = len(pb_bytes).to_bytes(4, \"little\")\n"),
  ("Code/IO/Proto.py", "    for _ in range(record_num):\n      reader.skip_record()\n    rec = reader.read_record()\n", "    skipped = 0\n    while skipped < record_num:\n      if not reader.skip_record():\n        break\n      skipped += 1\n    rec = reader.read_record()\n"),
 ]),
 ("r_record", ["C19", "C16"], [
  ("Code/IO/TM_Record.py", "  byte_int =  (symbol + 1) | ((state + 1) << 3) | (dir << 6) | (is_newrow << 7)\n", "  byte_int = (symbol + 1) + 8 * (state + 1) + 64 * dir + (128 if is_newrow else 0)\n"),
  ("Code/IO/TM_Record.py", "  symbol = (byte_int & 0b111) - 1\n  state = ((byte_int >> 3) & 0b111) - 1\n  dir = (byte_int >> 6) & 0b1\n  is_newrow = bool((byte_int >> 7) & 0b1)\n", "  rest, symbol = divmod(byte_int, 8)\n  rest, state = divmod(rest, 8)\n  is_newrow, dir = divmod(rest, 2)\n  symbol -= 1\n  state -= 1\n  is_newrow = bool(is_newrow)\n"),
  ("Code/IO/TM_Record.py", "  pack = bytearray(tm.num_states * tm.num_symbols)\n  i = 0\n  for row in tm.trans_table:\n    is_newrow = True\n    for trans in row:\n      pack[i] = pack_trans(trans, is_newrow)\n      is_newrow = False\n      i += 1\n  return bytes(pack)\n", "  return bytes([pack_trans(trans, is_newrow = (i == 0))\n                for row in tm.trans_table\n                for i, trans in enumerate(row)])\n"),
  ("Code/IO/TM_Record.py", "      tm_list.ttable_list.append(symbol_out)\n      tm_list.ttable_list.append(trans.dir_out)\n      tm_list.ttable_list.append(trans.state_out)\n", "      tm_list.ttable_list.extend([symbol_out, trans.dir_out, trans.state_out])\n"),
  ("Code/IO/TM_Record.py", "      symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]\n", "      symbol_out = tm_list.ttable_list[i]\n      dir_out = tm_list.ttable_list[i + 1]\n      state_out = tm_list.ttable_list[i + 2]\n"),
  ("Code/IO/TM_Record.py", "        if state_out >= num_states:\n          state_out = -1\n", "        state_out = state_out if state_out < num_states else -1\n"),
 ]),
 ("r_tm_enum", ["C16", "C17", "C19"], [
  ("Code/TM_Enum.py", "    max_state = 0\n    max_symbol = 0\n    num_undefined_transitions = 0\n    is_a_trans_defined = False\n    for state in range(self.tm.num_states):\n      for symbol in range(self.tm.num_symbols):\n        trans = self.tm.get_trans_object(state_in = state,\n                                         symbol_in = symbol)\n        if trans.condition == Turing_Machine.UNDEFINED:\n          num_undefined_transitions += 1\n        else:  # RUNNING or HALT\n          is_a_trans_defined = True\n          max_state = max(max_state, trans.state_out)\n          max_symbol = max(max_symbol, trans.symbol_out)\n",
   "    all_trans = [trans for row in self.tm.trans_table for trans in row]\n    defined = [trans for trans in all_trans\n               if trans.condition != Turing_Machine.UNDEFINED]\n    num_undefined_transitions = len(all_trans) - len(defined)\n    is_a_trans_defined = bool(defined)\n    max_state = max([0] + [trans.state_out for trans in defined])\n    max_symbol = max([0] + [trans.symbol_out for trans in defined])\n"),
  ("Code/TM_Enum.py", "            new_tm_enum = copy.deepcopy(self)\n            new_tm_enum.set_trans(\n              state_in = state_in, symbol_in = symbol_in,\n              symbol_out = symbol_out, dir_out = dir_out, state_out = state_out)\n            yield new_tm_enum\n", "            yield self.child(state_in, symbol_in, symbol_out, dir_out, state_out)\n"),
  ("Code/TM_Enum.py", "  def enum_children(self, state_in, symbol_in):\n", "  def child(self, state_in, symbol_in, symbol_out, dir_out, state_out):\n    child = copy.deepcopy(self)\n    child.set_trans(state_in = state_in, symbol_in = symbol_in,\n                    symbol_out = symbol_out, dir_out = dir_out,\n                    state_out = state_out)\n    return child\n\n  def enum_children(self, state_in, symbol_in):\n"),
 ]),
 ("r_tm_enum2", ["C16", "C17"], [
  ("Code/TM_Enum.py", "    if self.allow_no_halt or num_undefined_transitions > 1:\n      for state_out in range(num_states):\n        for symbol_out in range(num_symbols):\n          # If only one dir available, default to RIGHT.\n          for dir_out in range(2 - num_dirs, 2):\n", "    if not self.allow_no_halt and num_undefined_transitions <= 1:\n      return\n    for dir_out in ((0, 1) if num_dirs == 2 else (1,)):\n      for symbol_out in range(num_symbols):\n          for state_out in range(num_states):\n"),
 ]),
 ("r_enumerate", ["C16"], [
  ("Code/Enumerate.py", "    if self.options.num_enum:\n      tm_record = self.stack.pop_job()\n      while tm_record:\n        # Empty tm_record (no filter results) indicates that the TM hasn't been run.\n        self.add_result(tm_record)\n        tm_record = self.stack.pop_job()\n", "    if self.options.num_enum:\n      while True:\n        tm_record = self.stack.pop_job()\n        if not tm_record:\n          break\n        # Empty tm_record (no filter results) indicates that the TM hasn't been run.\n        self.add_result(tm_record)\n"),
  ("Code/Enumerate.py", "    new_tms = [TM_Record(tm_enum = tm_enum) for tm_enum in\n               old_tm_record.tm_enum().enum_children(state_in, symbol_in)]\n", "    new_tms = []\n    for tm_enum in old_tm_record.tm_enum().enum_children(state_in, symbol_in):\n      new_tms.append(TM_Record(tm_enum = tm_enum))\n"),
  ("Code/Enumerate.py", "        tm_record.proto.ClearField(\"status\")\n        tm_record.proto.ClearField(\"filter\")\n        yield tm_record\n", "        for field in (\"filter\", \"status\"):\n          tm_record.proto.ClearField(field)\n        yield tm_record\n"),
 ]),
 ("r_cps", ["C15"], [
  ("Code/CPS.py", "          sim_condition = self.sim_config(config)\n          if sim_condition == RUNNING:\n            # Update self.todo_configs and self.continuations\n            self.update_set(config)\n\n          elif sim_condition != INF_REPEAT:\n", "          sim_condition = self.sim_config(config)\n          if sim_condition == INF_REPEAT:\n            continue\n          if sim_condition == RUNNING:\n            # Update self.todo_configs and self.continuations\n            self.update_set(config)\n          else:\n"),
  ("Code/CPS.py", "      was_modified = False\n      configs = frozenset(self.transitions.keys())\n      for config in configs:\n        if self.update_set(config):\n          was_modified = True\n", "      was_modified = any([self.update_set(config)\n                          for config in list(self.transitions)])\n"),
  ("Code/CPS.py", "    if trans.condition == RUNNING:\n      # new_pos is outside the window, because we ran off the edge of it.\n      if trans.dir_out == LEFT:\n        new_pos = -1\n      else:\n        assert trans.dir_out == RIGHT\n        new_pos = len(trans.symbol_out)\n      new_config = Config(trans.state_out, trans.dir_out, trans.symbol_out,\n                          self.block_size, new_pos)\n    else:\n      new_config = None\n", "    new_config = None\n    if trans.condition == RUNNING:\n      # new_pos is outside the window, because we ran off the edge of it.\n      new_pos = -1 if trans.dir_out == LEFT else len(trans.symbol_out)\n      new_config = Config(trans.state_out, trans.dir_out, trans.symbol_out,\n                          self.block_size, new_pos)\n"),
  ("Code/CPS.py", "      for dst in self.continuations[behind_dir][old_behind_furthest]:\n        if self.add_edge(behind_dir, new_behind_furthest, dst):\n          was_modified = True\n", "      for dst in list(self.continuations[behind_dir][old_behind_furthest]):\n        was_modified |= self.add_edge(behind_dir, new_behind_furthest, dst)\n"),
 ]),
 ("r_backtrack", ["C13"], [
  ("Code/Backtracking_Filter.py", "    return len(self.dir[not dir_out]) == 0 or \\\n           self.dir[not dir_out][0] == symbol_out\n", "    behind = self.dir[1 - dir_out]\n    if not behind:\n      return True\n    return behind[0] == symbol_out\n"),
  ("Code/Backtracking_Filter.py", "    new_config = copy.deepcopy(self)\n    # Back away from the current symbol.\n    new_config.dir[dir_out].insert(0, new_config.current)\n    # Step onto the symbol we came from.\n    if len(new_config.dir[not dir_out]) != 0:\n      del new_config.dir[not dir_out][0]\n    # Set the symbol and state to what they must have been to apply this\n    # transition.\n    new_config.current = symbol_in\n    new_config.state = state_in\n    return new_config\n", "    new_config = Partial_Config(state_in, symbol_in)\n    ahead = [self.current] + self.dir[dir_out]\n    behind = self.dir[not dir_out][1:]\n    new_config.dir = (behind, ahead) if dir_out else (ahead, behind)\n    return new_config\n"),
  ("Code/Backtracking_Filter.py", "  if config.current != 0 or config.state != 0:\n    return False\n  for side in config.dir:\n    for symbol in side:\n      if symbol != 0:\n        return False\n  return True\n", "  return (config.state == 0 and config.current == 0\n          and all(symbol == 0 for side in config.dir for symbol in side))\n"),
  ("Code/Backtracking_Filter.py", "    self.success = self.success and other.success\n    self.halted = self.halted or other.halted\n", "    if not other.success:\n      self.success = False\n    if other.halted:\n      self.halted = True\n"),
 ]),
 ("r_reverse", ["C12", "C21"], [
  ("Code/Reverse_Engineer_Filter.py", "    _, trans = to_state[halt_state][0]\n    prehalt_dir = trans.dir_out\n    for _, trans in to_state[halt_state]:\n      if trans.dir_out != prehalt_dir:\n        return False\n    for _, trans in to_symbol[halt_symbol]:\n      if trans.dir_out != prehalt_dir:\n        return False\n    # If all trans in the same direction, then we cannot reach this halt.\n    return True\n", "    dirs = {trans.dir_out for _, trans in to_state[halt_state] + to_symbol[halt_symbol]}\n    # If all trans in the same direction, then we cannot reach this halt.\n    return len(dirs) == 1\n"),
  ("Code/Reverse_Engineer_Filter.py", "  for halt in halts:\n    if not cannot_reach_halt(*halt, to_state, to_symbol):\n      # This halt transition is reachable. We cannot prove that this TM\n      # is infinite.\n      return False\n  # No halt transitions can be reached -> proven infinite!\n  return True\n", "  return all(cannot_reach_halt(state, symbol, to_state, to_symbol)\n             for (state, symbol) in halts)\n"),
 ]),
 ("r_direct", ["C11", "C10", "C18"], [
  ("Code/Direct_Simulator.py", "    if dir:  # Right\n      self.position += 1\n      self.index += 1\n    else:  # Left\n      self.position -= 1\n      self.index -= 1\n", "    delta = 1 if dir else -1\n    self.position += delta\n    self.index += delta\n"),
  ("Code/Direct_Simulator.py", "    new_index = self._index_default(new_pos)\n    if new_index < 0:\n      self.tape.extendleft([self.init_symbol] * -new_index)\n      # Position does not change, but we must update index since extendleft changes the indexing.\n      self.index += -new_index\n    elif new_index >= len(self.tape):\n      self.tape.extend([self.init_symbol] * (new_index - len(self.tape) + 1))\n", "    while self._index_default(new_pos) < 0:\n      self.tape.appendleft(self.init_symbol)\n      # Position does not change, but we must update index since appendleft changes the indexing.\n      self.index += 1\n    while self._index_default(new_pos) >= len(self.tape):\n      self.tape.append(self.init_symbol)\n"),
  ("Code/Direct_Simulator.py", "    if not self.halted:\n      state_in = self.state\n      symbol_in = self.tape.read()\n      trans = self.tm.get_trans_object(symbol_in, state_in)\n\n      self.tape.write(trans.symbol_out)\n      self.tape.move(trans.dir_out)\n      self.state = trans.state_out\n      if self.state == Common.HALT_STATE:\n        self.halted = True\n        self.halt_score = self.tape.count_nonzero()\n        # Record which (state, symbol) -> Halt. Useful while enumerating TMs.\n        self.halt_from_state = state_in\n        self.halt_from_symbol = symbol_in\n\n      self.step_num += 1\n", "    if self.halted:\n      return\n    state_in, symbol_in = self.state, self.tape.read()\n    trans = self.tm.get_trans_object(symbol_in, state_in)\n    self.step_num += 1\n    self.state = trans.state_out\n    self.tape.write(trans.symbol_out)\n    self.tape.move(trans.dir_out)\n    if trans.state_out == Common.HALT_STATE:\n      self._note_halt(state_in, symbol_in)\n\n  def _note_halt(self, state_in, symbol_in):\n    self.halted = True\n    # Record which (state, symbol) -> Halt. Useful while enumerating TMs.\n    self.halt_from_state = state_in\n    self.halt_from_symbol = symbol_in\n    self.halt_score = self.tape.count_nonzero()\n"),
  ("Code/Direct_Simulator.py", "    return sum(1 for symb in self.tape if symb != self.init_symbol)\n", "    return len(self.tape) - self.tape.count(self.init_symbol)\n"),
 ]),
 ("r_lin", ["C10", "C21"], [
  ("Code/Lin_Recur_Detect.py", "      if sim.state == init_state:\n        offset = sim.tape.position - init_pos\n        if offset > 0:  # Right\n          if are_half_tapes_equal(init_tape, most_left_pos,\n                                  sim.tape, most_left_pos + offset, dir_offset=+1):\n            result.success = True\n        elif offset < 0:  # Left\n          if are_half_tapes_equal(init_tape, most_right_pos,\n                                  sim.tape, most_right_pos + offset, dir_offset=-1):\n            result.success = True\n        else:  # In place\n          if are_sections_equal(init_tape, sim.tape,\n                                most_left_pos, most_right_pos, offset):\n            result.success = True\n", "      if sim.state == init_state:\n        offset = sim.tape.position - init_pos\n        if is_repeat(init_tape, sim.tape, most_left_pos, most_right_pos, offset):\n          result.success = True\n"),
  ("Code/Lin_Recur_Detect.py", "  if sim.state == init_state:\n    offset = sim.tape.position - init_pos\n    if offset > 0:  # Right\n      if are_half_tapes_equal(init_tape, most_left_pos,\n                              sim.tape, most_left_pos + offset, dir_offset=+1):\n        return True\n    elif offset < 0:  # Left\n      if are_half_tapes_equal(init_tape, most_right_pos,\n                              sim.tape, most_right_pos + offset, dir_offset=-1):\n        return True\n    else:  # In place\n      if are_sections_equal(init_tape, sim.tape,\n                            most_left_pos, most_right_pos, offset):\n        return True\n\n  # Either states were not equal or \"half-tape\" was not equal, so recurrence\n  # has not started yet.\n  return False\n", "  # If states are not equal or \"half-tape\" is not equal, recurrence\n  # has not started yet.\n  return (sim.state == init_state\n          and is_repeat(init_tape, sim.tape, most_left_pos, most_right_pos,\n                        sim.tape.position - init_pos))\n"),
  ("Code/Lin_Recur_Detect.py", "def lin_detect_not_min(", "def is_repeat(init_tape, tape, most_left_pos, most_right_pos, offset):\n  if offset == 0:\n    return are_sections_equal(init_tape, tape, most_left_pos, most_right_pos, 0)\n  if offset > 0:\n    start, step = most_left_pos, 1\n  else:\n    start, step = most_right_pos, -1\n  return are_half_tapes_equal(init_tape, start, tape, start + offset, step)\n\ndef lin_detect_not_min("),
  ("Code/Lin_Recur_Detect.py", "  low = -1          # Largest unsuccessful start of recurrence\n  high = init_step  # Smallest successful start of recurrence\n  while high - low > 1:\n    mid = (high + low) // 2\n    # print \"period_search\", low, mid, high\n    if check_recur(tm, mid, period):\n      high = mid\n    else:\n      low = mid\n  return high\n", "  lo, hi = 0, init_step\n  while lo < hi:\n    mid = lo + (hi - lo) // 2\n    if check_recur(tm, mid, period):\n      hi = mid\n    else:\n      lo = mid + 1\n  return lo\n"),
 ]),
 ("r_tnf", ["C18"], [
  ("Code/TNF.py", "    if sim.state in unordered_states:\n      state_order.append(sim.state)\n      unordered_states.remove(sim.state)\n", "    for state in [s for s in unordered_states if s == sim.state]:\n      unordered_states.discard(state)\n      state_order.append(state)\n"),
  ("Code/TNF.py", "        if swap_dirs:\n          new_dir = Turing_Machine.other_dir(old_trans.dir_out)\n        else:\n          new_dir = old_trans.dir_out\n", "        new_dir = old_trans.dir_out\n        if swap_dirs:\n          new_dir = Turing_Machine.other_dir(new_dir)\n"),
  ("Code/LNF.py", "  if len(xs) <= 1:\n    yield xs\n  else:\n    for i, x in enumerate(xs):\n      for sub in iter_perms(xs[:i] + xs[i+1:]):\n        yield [x] + sub\n", "  import itertools\n  for perm in itertools.permutations(xs):\n    yield list(perm)\n"),
  ("Code/LNF.py", "        if best_key is None or perm_key < best_key:\n          best_key = perm_key\n          best_tm = perm_tm\n", "        if best_key is not None and best_key <= perm_key:\n          continue\n        best_key, best_tm = perm_key, perm_tm\n"),
 ]),
]
