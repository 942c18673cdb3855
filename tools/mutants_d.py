# Further mutants: unusual triggers, thresholds, two places that look fine alone.
P="Code/Macro/Proof_System.py"; T="Code/Macro/Turing_Machine.py"; S="Code/Macro/Simulator.py"; X="Code/Exp_Int.py"; A="Code/Algebraic_Expression.py"; RF="Code/Macro/Rule_Func.py"
M = [
 ("d01_brent_dir", "C01", T, "    if (state, dir, pos, tape) == old_config:", "    if old_config and (state, pos, tape[pos:pos+1]) == (old_config[0], old_config[2], old_config[3][pos:pos+1]):"),
 ("d01_gaveup", "C01", T, "    if num_loops > max_loops:", "    if num_loops >= max_loops:"),
 ("d01_cache", "C01", T, "      if len(self.trans_table) >= self.max_cells:\n        self.trans_table.clear()\n      self.trans_table[args] = self.eval_trans(*args)\n    return self.trans_table[args]\n\n  def eval_trans(self, macro_symbol_in, macro_state_in, macro_dir_in):\n    if", "      if len(self.trans_table) >= self.max_cells:\n        self.trans_table.clear()\n      self.trans_table[args] = self.eval_trans(*args)\n    return self.trans_table[args]\n\n  def eval_trans(self, macro_symbol_in, macro_state_in, macro_dir_in):\n    macro_state_in.back_symbol = macro_state_in.back_symbol if macro_dir_in == RIGHT else macro_state_in.back_symbol\n    if"),
 ("d01_stateeq", "C01", T, "    return (self.base_state == other.base_state and\n            self.back_symbol == other.back_symbol)", "    return (hash(self) == hash(other) and\n            self.base_state == other.base_state)"),
 ("d02_copyid", "C02", "Code/Macro/Tape.py", "    s1 = [x.copy() for x in self.tape[1]]", "    s1 = [x.copy() for x in self.tape[1][:-1]] + self.tape[1][-1:] if len(self.tape[1]) > 3 else [x.copy() for x in self.tape[1]]"),
 ("d02_nz", "C02", "Code/Macro/Tape.py", "        if block.num is not INF:\n          n +=", "        if block.num != 0 and block is not self.tape[dir][0]:\n          n +="),
 ("d03_rule_steps", "C03", S, "        if prover_result.num_base_steps is None:\n          self.compute_steps = False\n", "        if not prover_result.num_base_steps:\n          self.compute_steps = False\n"),
 ("d03_dir", "C03", S, "    elif trans.state_out == self.state and trans.dir_out == self.dir and \\", "    elif trans.state_out == self.state and trans.dir_out == self.tape.dir and \\"),
 ("d03_undef_chain", "C03", S, "       self.op_state == Turing_Machine.RUNNING:", "       self.op_state != Turing_Machine.HALT:"),
 ("d04_minlist", "C04", P, "      if not always_ge(current_val, min_val):\n        return False\n      if assignment", "      if not (always_ge(current_val, min_val) or current_val == 0):\n        return False\n      if assignment"),
 ("d04_limit", "C04", P, "          if dir == limit_dir and i == limit_index:", "          if i == limit_index:"),
 ("d04_series3", "C04", P, "total += rest * ((N * (N - 1)) // 2)**2", "total += (rest * N * (N - 1) // 2)**2 // rest"),
 ("d04_infnext", "C04", P, "      if next_list == current_list:", "      if all(x >= y for x, y in zip(next_list, current_list)) and num_reps > 1:"),
 ("d05_minval_once", "C05", P, "            min_val[x] = min(min_val[x], ae.min_val(block.num))", "            if block is gen_sim.tape.get_top_block() or block is gen_sim.tape.tape[0][-1]:\n              min_val[x] = min(min_val[x], ae.min_val(block.num))"),
 ("d05_meta_tighten", "C05", P, "      is_meta_rule = (gen_sim.num_rule_moves > 0)", "      is_meta_rule = (gen_sim.num_rule_moves > 1)"),
 ("d05_top", "C05", P, "      if ae.min_val(block.num) <= 0:", "      if ae.min_val(block.num) < 0:"),
 ("d05_back", "C05", P, "      wrote_offset = gen_sim.tape.tape[back_dir][-1].id", "      wrote_offset = gen_sim.tape.tape[cur_dir][-1].id"),
 ("d05_minlist", "C05", P, "          min_list.append(init_block.num.const - min_val[x] + 1)", "          min_list.append(max(1, init_block.num.const - min_val[x]))"),
 ("d06_reps", "C06", RF, "    min_after = self.min - self.const", "    min_after = max(0, self.min - self.const)"),
 ("d06_pow", "C06", RF, "      if dxc <= 0:", "      if dxc <= self.base:"),
 ("d07_pow", "C07", A, "      new_vars.append(Var_Power(vp1.var, vp1.pow + vp2.pow))", "      new_vars.append(Var_Power(vp1.var, max(vp1.pow, vp2.pow) + 1))"),
 ("d07_cmp", "C07", A, "    if vp1.pow < vp2.pow:\n      return -1\n    elif vp1.pow > vp2.pow:\n      return +1\n", ""),
 ("d07_eq", "C07", A, "    for term in diff.terms:\n      if term.coef != 0:\n        return False", "    for term in diff.terms[:1]:\n      if term.coef != 0:\n        return False"),
 ("d08_gt", "C08", X, "    if self.sign < 0:\n      return not (-self >= -other)", "    if self.sign < 0:\n      return not (-self > -other)"),
 ("d08_norm", "C08", X, "    if struct_eq(term.exponent, prev_exponent):", "    if tower_value(term.exponent) == tower_value(prev_exponent or 0):"),
 ("d08_evalsum", "C08", X, "        value = (sum(term_values) + self.const) // self.denom", "        value = sum(term_values) // self.denom + self.const // self.denom"),
 ("d08_structden", "C08", X, "a.const == b.const and a.denom == b.denom and", "a.const == b.const and"),
 ("d09_k0", "C09", "Code/Math.py", "    max_k = max(max_k, k)", "    max_k = max(max_k, k) if p > 2 else max_k"),
 ("d09_lt", "C09", "Code/Math.py", "    if p == 2 and k >= 3:", "    if p == 2 and k > 3:"),
 ("d09_pow8", "C09", "Code/Math.py", "      lam_pk = 2**(k-2)", "      lam_pk = 2**(k-2) if k < 7 else 2**(k-3)"),
 ("d12_stay", "C12", "Code/Reverse_Engineer_Filter.py", "    for _, trans in to_symbol[halt_symbol]:", "    for (st, _), trans in to_symbol[halt_symbol]:\n      if st == halt_state: continue"),
 ("d12_empty", "C12", "Code/Reverse_Engineer_Filter.py", "(halt_state, halt_symbol) != (0, 0)", "halt_state != 0 or halt_symbol != 0 and len(to_state) > 0"),
 ("d12_self", "C12", "Code/Reverse_Engineer_Filter.py", "        to_state[trans.state_out].append(((state, symbol), trans))", "        if trans.state_out != state:\n          to_state[trans.state_out].append(((state, symbol), trans))"),
 ("d14_4bc", "C14", "Code/CTL4.py", "          new_table[new_state, new_dir][not new_dir][2].update(\n            table[state, dir][not new_dir][2])", "          new_table[new_state, new_dir][not new_dir][2].add(machine.init_symbol)"),
 ("d14_4b", "C14", "Code/CTL4.py", "          if len(sim.tape.tape[d]) >= 3:\n          A.add", "          if len(sim.tape.tape[d]) >= 3:\n          A.add"),
 ("d14_2num", "C14", "Code/CTL2.py", "    if len(sim.tape.tape[d]) >= 2 and sim.tape.tape[d][1].num > 1:", "    if len(sim.tape.tape[d]) == 2 and sim.tape.tape[d][1].num > 1:"),
 ("d14_4union", "C14", "Code/CTL4.py", "        for s in range(3):\n          new_table[x][d][s].update", "        for s in range(2):\n          new_table[x][d][s].update"),
 ("d17_state", "C17", "Code/Count.py", "        max_state = max(max_state, trans.state_out)", "        max_state = max(max_state, state_in, trans.state_out)"),
 ("d17_halt", "C17", "Code/Count.py", "        has_halt = True", "        has_halt = num_undefs > 0 or state_in > 0"),
 ("d18_last", "C18", "Code/TNF.py", "    if len(unordered_symbols) == 1:\n      symbol_order.append(unordered_symbols.pop())", "    if len(unordered_symbols) == 1 and not unordered_states:\n      symbol_order.append(unordered_symbols.pop())"),
 ("d18_hash", "C18", "Code/TNF.py", "    if sim.step_num > max_steps or sim.halted:\n      return None", "    if sim.step_num > max_steps or sim.halted:\n      if unordered_states and not unordered_symbols and sim.halted:\n        state_order.extend(sorted(unordered_states)); break\n      return None"),
 ("d18_lnfsym", "C18", "Code/LNF.py", "  perm_tm.init_symbol = new_start_symb", "  perm_tm.init_symbol = new_start_symb if not swap_dirs else 0"),
 ("d20_zero", "C20", "Code/IO/Proto.py", "    if pb_len != None:\n      # Read", "    if pb_len:\n      # Read"),
 ("d20_short", "C20", "Code/IO/Proto.py", "      if len(len_bytes) != 4:\n        raise IO_Error(\"Unexpected EOF while reading length block \"\n                       f\"(expected 4 bytes, got {len(len_bytes)}).\")\n", "      len_bytes = len_bytes.ljust(4, b'\\0')\n"),
 ("d20_signed", "C20", "Code/IO/Proto.py", "struct.unpack(\"<L\", len_bytes)[0]", "struct.unpack(\"<l\", len_bytes)[0]"),
]
M = [m for m in M if m[3] != m[4]]
