# More behaviour-preserving edits (macro simulator, prover, arithmetic).
R = [
 ("r_tape", ["C02", "C03", "C04", "C05"], [
  ("Code/Macro/Tape.py", '''    ## Delete old symbol
    half_tape = self.tape[self.dir]
    top = half_tape[-1]
    if top.num is not INF:  # Don't decriment infinity
      # If not infinity, decrement (delete one symbol)
      top.num -= 1
      # If there are none left, remove from the tape
      if top.num == 0:
        half_tape.pop()
    ## Push new symbol
    half_tape = self.tape[not new_dir]
    top = half_tape[-1]
    # If it is identical to the top symbol, combine them.
    if top.symbol == new_symbol:
      if top.num is not INF:
        top.num += 1
    # Otherwise, just add it seperately.
    else:
      half_tape.append(Repeated_Symbol(new_symbol, 1))
    # Update direction
    self.dir = new_dir
''', '''    self._remove_one()
    self._push(1 - new_dir, new_symbol, 1)
    self.dir = new_dir

  def _remove_one(self):
    """Delete the symbol the head is looking at."""
    half_tape = self.tape[self.dir]
    block = half_tape[-1]
    if block.num is INF:
      return
    block.num = block.num - 1
    if block.num == 0:
      del half_tape[-1]

  def _push(self, side, symbol, count):
    """Put `count` copies of symbol on top of that half of the tape."""
    half_tape = self.tape[side]
    block = half_tape[-1]
    if block.symbol != symbol:
      half_tape.append(Repeated_Symbol(symbol, count))
    elif block.num is not INF:
      block.num = block.num + count
'''),
  ("Code/Macro/Tape.py", '''    # Pop off old sequence
    num = self.tape[self.dir][-1].num
    # Can't pop off infinite symbols, TM will never halt
    if num is INF:
      return INF
    self.tape[self.dir].pop()
    # Push on new one behind us
    half_tape = self.tape[not self.dir]
    top = half_tape[-1]
    if top.symbol == new_symbol:
      if top.num is not INF:
        top.num += num
    else:
      half_tape.append(Repeated_Symbol(new_symbol, num))
    return num
''', '''    front = self.tape[self.dir]
    count = front[-1].num
    if count is not INF:
      front.pop()
      self._push(1 - self.dir, new_symbol, count)
    return count
'''),
  ("Code/Macro/Tape.py", '''    n = state_value
    for dir in range(2):
      for block in self.tape[dir]:
        if block.num is not INF:
          n += eval_symbol(block.symbol)*block.num
    return n
''', '''    left, right = self.tape
    return state_value + sum(eval_symbol(block.symbol) * block.num
                             for block in left + right if block.num is not INF)
'''),
  ("Code/Macro/Tape.py", '''    s0 = [x.copy() for x in self.tape[0]]
    s1 = [x.copy() for x in self.tape[1]]
    new.tape = [s0, s1]
''', '''    new.tape = [[block.copy() for block in half] for half in self.tape]
'''),
 ]),
 ("r_sim_limited", ["C01", "C03"], [
  ("Code/Macro/Turing_Machine.py", '''    for state, base_last_seen in trans.states_last_seen.items():
      states_last_seen[state] = num_base_steps + base_last_seen
    num_base_steps += trans.num_base_steps
    num_loops += 1
    tape[pos] = trans.symbol_out
    state = trans.state_out
    dir = trans.dir_out
    if dir == RIGHT:
      pos += 1
    elif dir == LEFT:
      pos -= 1

    if (state, dir, pos, tape) == old_config:
''', '''    states_last_seen.update({seen: num_base_steps + when
                             for seen, when in trans.states_last_seen.items()})
    num_loops += 1
    num_base_steps += trans.num_base_steps
    tape[pos], state, dir = trans.symbol_out, trans.state_out, trans.dir_out
    pos += {RIGHT: 1, LEFT: -1}.get(dir, 0)

    if old_config is not None and (state, dir, pos, tape) == old_config:
'''),
  ("Code/Macro/Turing_Machine.py", '''    if not (0 <= pos < len(tape)):
      # We ran off one end of the macro symbol. We're done.
''', '''    if pos < 0 or pos >= len(tape):
      # We ran off one end of the macro symbol. We're done.
'''),
 ]),
 ("r_macro_machines", ["C01", "C03"], [
  ("Code/Macro/Turing_Machine.py", '''    if args not in self.trans_table:
      if len(self.trans_table) >= self.max_cells:
        self.trans_table.clear()
      self.trans_table[args] = self.eval_trans(*args)
    return self.trans_table[args]

  def eval_trans(self, macro_symbol_in, macro_state_in, macro_dir_in):
    # One-off check for dealing with initial offset.
    if isinstance(macro_state_in, OffsetStartState):
      pos = macro_state_in.offset
      macro_state_in = macro_state_in.state

    elif macro_dir_in == RIGHT:
      pos = 0
    else:
      assert macro_dir_in == LEFT, macro_dir_in
      pos = self.block_size - 1
''', '''    trans = self.trans_table.get(args)
    if trans is None:
      trans = self.eval_trans(*args)
      if len(self.trans_table) >= self.max_cells:
        self.trans_table = {}
      self.trans_table[args] = trans
    return trans

  def eval_trans(self, macro_symbol_in, macro_state_in, macro_dir_in):
    pos = 0 if macro_dir_in == RIGHT else self.block_size - 1
    # One-off check for dealing with initial offset.
    if isinstance(macro_state_in, OffsetStartState):
      pos, macro_state_in = macro_state_in.offset, macro_state_in.state
'''),
  ("Code/Macro/Turing_Machine.py", '''    if macro_dir_in == RIGHT:
      tape = [macro_state_in.back_symbol, macro_symbol_in]
      pos = 1
    else:
      assert macro_dir_in == LEFT, macro_dir_in
      tape = [macro_symbol_in, macro_state_in.back_symbol]
      pos = 0
''', '''    tape = [macro_symbol_in, macro_state_in.back_symbol]
    pos = 0
    if macro_dir_in == RIGHT:
      tape.reverse()
      pos = 1
'''),
  ("Code/Macro/Turing_Machine.py", '''    final_tape = trans.symbol_out

    if trans.dir_out == RIGHT:
      # [0, 1], A, RIGHT -> 0 (1)A>
      symbol_out, backsymbol = final_tape
    else:
      # [0, 1], A, LEFT -> <A(0) 1
      assert trans.dir_out == LEFT, trans.dir_out
      backsymbol, symbol_out = final_tape

    # Update symbol_out and state_out to be backsymbol-style.
    trans.symbol_out = symbol_out
    trans.state_out = Backsymbol_Macro_Machine_State(trans.state_out,
                                                     backsymbol)

    return trans
''', '''    left, right = trans.symbol_out
    behind, printed = (right, left) if trans.dir_out == RIGHT else (left, right)
    return Transition(
      condition=trans.condition, condition_details=trans.condition_details,
      symbol_out=printed,
      state_out=Backsymbol_Macro_Machine_State(trans.state_out, behind),
      dir_out=trans.dir_out,
      num_base_steps=trans.num_base_steps,
      states_last_seen=trans.states_last_seen)
'''),
 ]),
 ("r_simulator", ["C03", "C21", "C05"], [
  ("Code/Macro/Simulator.py", '''    if self.compute_steps:
      self.old_step_num = self.step_num
    # Note: We increment the number of loops early''', '''    if self.compute_steps:
      self.old_step_num = self.step_num
    # Note: we increment the number of loops early'''),
  ("Code/Macro/Simulator.py", '''      # Don't need to change state or direction
      self.num_chain_moves += 1
      if self.compute_steps:
        if self.states_last_seen is not None:
          for state, trans_last_seen in trans.states_last_seen.items():
            self.states_last_seen[state] = (
              # Within the last iteration of the chain step.
              self.step_num + trans.num_base_steps * (num_reps - 1)
              + trans_last_seen)
        self.step_num += trans.num_base_steps * num_reps
        self.steps_from_chain += trans.num_base_steps * num_reps
''', '''      # Don't need to change state or direction
      self.num_chain_moves += 1
      if self.compute_steps:
        delta = trans.num_base_steps * num_reps
        # The states were last seen within the last iteration of the chain step.
        self._saw_states(self.step_num + delta - trans.num_base_steps,
                         trans.states_last_seen)
        self.step_num += delta
        self.steps_from_chain += delta
'''),
  ("Code/Macro/Simulator.py", '''      if self.compute_steps:
        if self.states_last_seen is not None:
          for state, trans_last_seen in trans.states_last_seen.items():
            self.states_last_seen[state] = self.step_num + trans_last_seen
        self.step_num += trans.num_base_steps
''', '''      if self.compute_steps:
        self._saw_states(self.step_num, trans.states_last_seen)
        self.step_num += trans.num_base_steps
'''),
  ("Code/Macro/Simulator.py", '''  def get_nonzeros(self):
''', '''  def _saw_states(self, start, seen):
    """Record that each state was last visited `seen` steps after `start`."""
    if self.states_last_seen is None:
      return
    for state, when in seen.items():
      self.states_last_seen[state] = start + when

  def get_nonzeros(self):
'''),
 ]),
 ("r_prover_apply", ["C04", "C05"], [
  ("Code/Macro/Proof_System.py", '''  """Does `current_list` attain the minimum values (in `min_list`)?
  sets `assignment` along the way."""
  for var, min_val, current_val in zip(var_list, min_list, current_list):
    if var:
      if not always_ge(current_val, min_val):
        return False
      if assignment != None:
        assignment[var] = current_val
  return True
''', '''  """Does `current_list` attain the minimum values (in `min_list`)?
  sets `assignment` along the way."""
  fits = all(always_ge(current_val, min_val)
             for var, min_val, current_val in zip(var_list, min_list, current_list)
             if var)
  if fits and assignment is not None:
    assignment.update((var, value) for var, value in zip(var_list, current_list) if var)
  return fits
'''),
  ("Code/Macro/Proof_System.py", '''      for state, last_seen in rule.states_last_seen.items():
        # After the rule is applied, how many steps before that did we last see
        # `state`.
        last_seen_ago = rule.num_steps - last_seen
        states_last_seen[state] = substitute(diff_steps - last_seen_ago, last_value)

    else:
''', '''      steps_before_last = diff_steps - substitute(rule.num_steps, last_value)
      for state, last_seen in rule.states_last_seen.items():
        states_last_seen[state] = steps_before_last + substitute(last_seen, last_value)

    else:
'''),
  ("Code/Macro/Proof_System.py", '''    return_tape = new_tape.copy()
    for dir in range(2):
      for i, (diff_block, return_block) in enumerate(zip(
        rule.diff_tape.tape[dir], return_tape.tape[dir])):
        if return_block.num is not math.inf:
          if dir == limit_dir and i == limit_index:
            return_block.num = limit_final
          else:
            return_block.num += num_reps * diff_block.num
          if (isinstance(return_block.num, Algebraic_Expression) and
              return_block.num.is_const):
            return_block.num = return_block.num.const
      return_tape.tape[dir] = [x for x in return_tape.tape[dir] if x.num != 0]
''', '''    return_tape = new_tape.copy()
    for dir in range(2):
      diffs = rule.diff_tape.tape[dir]
      for i in range(min(len(diffs), len(return_tape.tape[dir]))):
        block = return_tape.tape[dir][i]
        if block.num is math.inf:
          continue
        if (dir, i) == (limit_dir, limit_index):
          value = limit_final
        else:
          value = block.num + num_reps * diffs[i].num
        if isinstance(value, Algebraic_Expression) and value.is_const:
          value = value.const
        block.num = value
    for dir in range(2):
      return_tape.tape[dir] = [x for x in return_tape.tape[dir] if x.num != 0]
'''),
  ("Code/Macro/Proof_System.py", '''  total = expr.const * N
  for term in expr.terms:
    k_pow, rest = factor_var(term, k)
    if k_pow == 0:
      total += rest * N
    elif k_pow == 1:
      # sum_{k=0}^{N-1}(coef * k) = coef * N(N-1)/2
      total += (rest * N * (N - 1)) // 2
    elif k_pow == 2:
      # sum_{k=0}^{N-1}(coef * k^2) = coef * N(N-1)(2N-1)/6
      total += (rest * N * (N - 1) * (2 * N - 1)) // 6
''', '''  total = N * expr.const
  pairs = N * (N - 1)
  for term in expr.terms:
    k_pow, rest = factor_var(term, k)
    if k_pow == 0:
      total += N * rest
    elif k_pow == 1:
      # sum_{k=0}^{N-1}(coef * k) = coef * N(N-1)/2
      total += (pairs * rest) // 2
    elif k_pow == 2:
      # sum_{k=0}^{N-1}(coef * k^2) = coef * N(N-1)(2N-1)/6
      total += (pairs * (2 * N - 1) * rest) // 6
'''),
 ]),
 ("r_prover_prove", ["C05", "C03"], [
  ("Code/Macro/Proof_System.py", '''      # Update min_val for each expression.
      # TODO: We only need to update for the blocks on each side of head.
      # TODO: Better yet, build these checks into the data type!
      for dir in range(2):
        for block in gen_sim.tape.tape[dir]:
          vars = variables(block.num)
          if len(vars) > 1:
            if self.verbose:
              print()
              self.print_this("** Failed: Multiple vars in one term **")
              self.print_this(gen_sim.tape)
              print()
            return False
          elif len(vars) == 1:
            x = list(vars)[0]
            min_val[x] = min(min_val[x], ae.min_val(block.num))
''', '''      if not self._lower_min_vals(gen_sim.tape, min_val):
        if self.verbose:
          print()
          self.print_this("** Failed: Multiple vars in one term **")
          self.print_this(gen_sim.tape)
          print()
        return False
'''),
  ("Code/Macro/Proof_System.py", '''  def apply_rule(self, rule, start_config):
''', '''  def _lower_min_vals(self, tape, min_val):
    """Lower min_val to the smallest value each variable's block has had.
    False if a block depends on more than one variable."""
    for block in tape.tape[0] + tape.tape[1]:
      block_vars = variables(block.num)
      if not block_vars:
        continue
      if len(block_vars) != 1:
        return False
      (x,) = block_vars
      low = ae.min_val(block.num)
      if low < min_val[x]:
        min_val[x] = low
    return True

  def apply_rule(self, rule, start_config):
'''),
 ]),
 ("r_rule_func", ["C06", "C04"], [
  ("Code/Macro/Rule_Func.py", '''    # If start == self.min we can still apply_rep one more time.
    min_after = self.min - self.const
    num_reps, r = divmod(start - min_after, self.const)
    final_count = r + min_after
    return (num_reps, final_count)
''', '''    # If start == self.min we can still apply_rep one more time.
    spare, r = divmod(start - self.min, self.const)
    return (spare + 1, r + self.min - self.const)
'''),
  ("Code/Macro/Rule_Func.py", '''  return ((a-1) // b) + 1
''', '''  return -((-a) // b)
'''),
  ("Code/Macro/Rule_Func.py", '''    if self.const >= 0:
      return min
    else:
      min_no_decr = ceil_div(-self.const, self.coef - 1)
      return max(min, min_no_decr)
''', '''    if self.const < 0:
      min_no_decr = ceil_div(-self.const, self.coef - 1)
      if min_no_decr > min:
        return min_no_decr
    return min
'''),
  ("Code/Macro/Rule_Func.py", '''    m_n = exp_int(base = self.coef, exponent = num_reps)
    numer = ((a*m + self.const) * m_n - self.const)
''', '''    growth = exp_int(self.coef, num_reps)
    numer = growth * (self.const + m * a) - self.const
'''),
  ("Code/Macro/Rule_Func.py", '''    while True:
      dxc = self.denom * min - self.const_base
      if dxc <= 0:
        return min
      else:
        x_bound = (math.log(dxc, self.base) - av) / self.coef_exp
        if min >= x_bound:
          return min
        else:
          # TODO: Add tests that actually use this logic.
          min = math.ceil(x_bound)
''', '''    dxc = self.denom * min - self.const_base
    while dxc > 0:
      x_bound = (math.log(dxc, self.base) - av) / self.coef_exp
      if x_bound <= min:
        break
      min = math.ceil(x_bound)
      dxc = self.denom * min - self.const_base
    return min
'''),
 ]),
 ("r_alg_expr", ["C07", "C08", "C04", "C06"], [
  ("Code/Algebraic_Expression.py", '''  new_terms = []
  i = j = 0
  while i < len(terms1) and j < len(terms2):
    t1, t2 = terms1[i], terms2[j]
    c = compare_terms(t1, t2)
    if c == 0:  # if t1 == t2
      if t1.coef + t2.coef != 0:
        new_terms.append(Term(t1.vars, t1.coef + t2.coef))
      i += 1
      j += 1
    elif c < 0: # if t1 < t2
      new_terms.append(t1)
      i += 1
    else:       # if t1 > t2
      new_terms.append(t2)
      j += 1
  # Append the rest of the terms in the only remaining list
  new_terms.extend(terms1[i:])
  new_terms.extend(terms2[j:])
  return new_terms
''', '''  result = []
  rest1, rest2 = list(terms1), list(terms2)
  while rest1 and rest2:
    c = compare_terms(rest1[0], rest2[0])
    if c < 0:
      result.append(rest1.pop(0))
    elif c > 0:
      result.append(rest2.pop(0))
    else:
      t1, t2 = rest1.pop(0), rest2.pop(0)
      coef = t1.coef + t2.coef
      if coef != 0:
        result.append(Term(t1.vars, coef))
  # Only one of these has anything left
  return result + rest1 + rest2
'''),
  ("Code/Algebraic_Expression.py", '''  new_expr = Expression([], 0)
  for t1 in e1.terms:
    for t2 in e2.terms:
      new_term = Term(vars_prod(t1.vars, t2.vars), t1.coef*t2.coef)
      new_expr += Expression([new_term], 0)
    new_expr += Expression([t1], 0)*e2.const
  new_expr += (e2*e1.const)
  return new_expr
''', '''  product = e2 * e1.const
  for t1 in e1.terms:
    product = product + Expression([t1], 0) * e2.const
    for t2 in e2.terms:
      term = Term(vars_prod(t1.vars, t2.vars), t2.coef * t1.coef)
      product = product + Expression([term], 0)
  return product
'''),
  ("Code/Algebraic_Expression.py", '''    prod = 1
    for _ in range(power):
      prod *= self
    return prod
''', '''    return reduce(operator.mul, [self] * power, 1)
'''),
  ("Code/Algebraic_Expression.py", '''    diff = self - other
    if diff.const != 0:
      return False
    for term in diff.terms:
      if term.coef != 0:
        return False
    # diff = 0 x + 0 y z + ... + 0 = 0
    return True
''', '''    diff = self - other
    return diff.const == 0 and all(term.coef == 0 for term in diff.terms)
'''),
  ("Code/Algebraic_Expression.py", '''    for term in self.terms:
      if min_val(term.coef) < 0:
        return -math.inf
    return min_val(self.const)
''', '''    if any(min_val(term.coef) < 0 for term in self.terms):
      return -math.inf
    else:
      return min_val(self.const)
'''),
  ("Code/Algebraic_Expression.py", '''    val = sum([t.substitute(subs) for t in self.terms]) + self.const
    return simp_frac(val)
''', '''    val = self.const
    for term in self.terms:
      val = term.substitute(subs) + val
    return simp_frac(val)
'''),
 ]),
 ("r_exp_int", ["C08", "C06"], [
  ("Code/Exp_Int.py", '''    m = self.denom * other_int
    terms_rem = sum(term.mod(m) for term in self.terms) % m
    rd = (terms_rem + self.const) % m
    r, rdr = divmod(rd, self.denom)
    assert rdr == 0, f"ExpInt is not an integer: {self}"
    return r % other_int
''', '''    m = other_int * self.denom
    rd = self.const % m
    for term in self.terms:
      rd = (rd + term.mod(m)) % m
    assert rd % self.denom == 0, f"ExpInt is not an integer: {self}"
    return (rd // self.denom) % other_int
'''),
  ("Code/Exp_Int.py", '''  new_terms = []
  prev_exponent = None
  prev_coef = None
  prev_base = None
  for term in sorted(terms, key=lambda t: tower_value(t.exponent), reverse=True):
    if struct_eq(term.exponent, prev_exponent):
      assert term.base == prev_base
      prev_coef += term.coef
    else:
      if prev_coef:
        # Don't add term if coef == 0 (or None)
        new_terms.append(ExpTerm(prev_base, prev_coef, prev_exponent))
      prev_base = term.base
      prev_coef = term.coef
      prev_exponent = term.exponent
  if prev_coef:
    new_terms.append(ExpTerm(prev_base, prev_coef, prev_exponent))
  return new_terms
''', '''  # Groups of [coef, base, exponent] with (structurally) equal exponents.
  groups = []
  for term in sorted(terms, key=lambda t: tower_value(t.exponent), reverse=True):
    if groups and struct_eq(term.exponent, groups[-1][2]):
      groups[-1][0] += term.coef
    else:
      groups.append([term.coef, term.base, term.exponent])
  # Don't add term if coef == 0
  return [ExpTerm(base, coef, exponent) for (coef, base, exponent) in groups if coef]
'''),
  ("Code/Exp_Int.py", '''        new_terms = []
        for term_s in self.terms:
          if other.const:
            new_terms.append(term_s.mul_int(other.const))
          for term_o in other.terms:
            new_terms.append(term_s.mul_term(term_o))
        if self.const:
          for term_o in other.terms:
            new_terms.append(term_o.mul_int(self.const))
''', '''        new_terms = [term_s.mul_term(term_o)
                     for term_s in self.terms for term_o in other.terms]
        if other.const:
          new_terms += [term.mul_int(other.const) for term in self.terms]
        if self.const:
          new_terms += [term.mul_int(self.const) for term in other.terms]
'''),
  ("Code/Exp_Int.py", '''    common = gcd(self.const, self.denom)
    assert isinstance(common, int), (common, repr(self.denom))
    if common != 1:
      for term in self.terms:
        common = gcd(common, term.coef)
        assert isinstance(common, int), (common, repr(term.coef))
    # Force denominator to be postitive
    common *= sign(self.denom)
''', '''    common = gcd(self.const, self.denom)
    for term in self.terms:
      if common == 1:
        break
      common = gcd(common, term.coef)
    assert isinstance(common, int), (common, repr(self.denom))
    if self.denom < 0:
      # Force denominator to be postitive
      common = -common
'''),
 ]),
 ("r_math", ["C09", "C08"], [
  ("Code/Math.py", '''  a = abs(a)
  b = abs(b)
  if b > a:
    a, b = b, a
  while b > 0:
    _, r = divmod(a, b)
    a, b = b, r
  return a
''', '''  a, b = abs(a), abs(b)
  while b:
    a, b = b, a % b
  return a
'''),
  ("Code/Math.py", '''  return a * b // gcd(a, b)
''', '''  return a // gcd(a, b) * b
'''),
  ("Code/Math.py", '''    k = 0
    while n % p == 0:
      k += 1
      n //= p
    if k:
      res.append((p, k))
''', '''    k = 0
    q, r = divmod(n, p)
    while r == 0:
      k += 1
      n = q
      q, r = divmod(n, p)
    if k > 0:
      res.append((p, k))
'''),
  ("Code/Math.py", '''  a = gcd(b, m)
  kp, k0 = carmichael(m)
  # for all kn >= k0: b^kn = b^{kp+kn} (mod m)
  #   See: https://en.wikipedia.org/wiki/Carmichael_function#Exponential_cycle_length
  if k < k0:
    return pow(b, k, m)
  else:
    kn = (k - k0) % kp + k0
    # b^k = b^kn (mod m)
    return pow(b, kn, m)
''', '''  period, start = carmichael(m)
  # for all kn >= start: b^kn = b^{period+kn} (mod m)
  #   See: https://en.wikipedia.org/wiki/Carmichael_function#Exponential_cycle_length
  if k >= start:
    k = start + (k - start) % period
  return pow(b, k, m)
'''),
 ]),
 ("r_math_lib", ["C09", "C08"], [
  ("Code/Math.py", '''  a = abs(a)
  b = abs(b)
  if b > a:
    a, b = b, a
  while b > 0:
    _, r = divmod(a, b)
    a, b = b, r
  return a
''', '''  return math.gcd(a, b)
'''),
  ("Code/Math.py", '''  return a * b // gcd(a, b)
''', '''  return (a * b) // math.gcd(a, b)
'''),
 ]),
]
