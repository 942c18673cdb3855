S="cpp/src/simulator.cpp"; T="cpp/src/turing_machine.cpp"; L="cpp/src/lin_recur.cpp"; E="cpp/src/enumerator.cpp"
R="cpp/src/lin_recur_enumerator.cpp"; B="cpp/src/lazy_beaver_enumerator.cpp"; SH="cpp/src/simulator.h"
M=[
("x23_start","C23",S,"    index_start_ += unit_size_;\n",""),
("x23_read0","C23",S,"if (0 <= index && index < tape_.size()) {\n    return tape_","if (0 < index && index < tape_.size()) {\n    return tape_"),
("x23_seek","C23",S,"step_num_ < step_goal","step_num_ <= step_goal"),
("x23_ext","C23",S,"index_ >= tape_.size()","index_ > tape_.size()"),
("x23_lastsym","C23",S,"  tape_.write(lookup_res.symbol);\n  tape_.move","  tape_.write(lookup_res.symbol);\n  last_symbol_ = tape_.read();\n  tape_.move"),
("x23_insert","C23",S,"tape_.insert(tape_.begin(), unit_size_","tape_.insert(tape_.begin(), unit_size_ - 1"),
("x23_end","C23",S,"tape_.insert(tape_.end(), unit_size_, BlankSymbol)","tape_.insert(tape_.end(), unit_size_, tape_.back())"),
("x23_endpos","C23",S,"tape_.insert(tape_.end(), unit_size_, BlankSymbol)","tape_.insert(tape_.end() - 1, unit_size_, BlankSymbol)"),
("x23_range","C23",SH,"(0 <= index && index < tape_.size())","(0 <= index && index + 1 < tape_.size())"),
("x23_laststate","C23",S,"  last_state_ = state_;\n",""),
("x24_sym","C24",T,"std::min(num_symbols_ - 1, next_trans.symbol + 1)","std::min(num_symbols_ - 1, next_trans.state + 1)"),
("x24_halts","C24",E,"tm.num_halts() > 1","tm.num_halts() >= 1"),
("x24_max","C24",T,"std::max(old_tm.max_next_state_,\n                             std::min(num_states_ - 1, next_trans.state + 1))","std::min(num_states_ - 1, next_trans.state + 1)"),
("x24_left","C24",E,"next_move == +1 || tm.next_move_left_ok()","next_move == +1 || tm.next_move_left_ok() && tm.num_halts() > 2"),
("x24_tstate","C24",T,"max_next_state_ = std::min(max_state + 1, num_states_ - 1)","max_next_state_ = std::min(max_state + 1, num_states_ - 2)"),
("x24_tcount","C24",T,"      if (trans.state < 0) {","      if (trans.undecided && trans.symbol == 0) {"),
("x24_loop","C24",E,"next_symbol <= tm.max_next_symbol()","next_symbol <= tm.max_next_state()"),
("x24_und","C24",T,"next_move_left_ok_(true), num_halts_(old_tm.num_halts_ - 1)","next_move_left_ok_(old_tm.next_move_left_ok_), num_halts_(old_tm.num_halts_ - 1)"),
("x25_and","C25",L,"tape1.in_range(pos1) || tape2.in_range(pos2)","tape1.in_range(pos1) && tape2.in_range(pos2)"),
("x25_or1","C25",L,"tape1.in_range(pos1) || tape2.in_range(pos2)","tape1.in_range(pos1)"),
("x25_ml","C25",L,"      most_left_pos = std::min(most_left_pos, sim.tape().position());\n",""),
("x25_mr","C25",L,"      most_right_pos = std::max(most_right_pos, sim.tape().position());\n",""),
("x25_mlzero","C25",L,"long most_left_pos = init_pos","long most_left_pos = std::max(init_pos, 0L)"),
("x25_sect","C25",L,"pos <= most_right_pos","pos < most_right_pos"),
("x25_sect0","C25",L,"long pos = most_left_pos;","long pos = most_left_pos + 1;"),
("x25_dir","C25",L,"most_right_pos + offset,\n                                   -1","most_right_pos + offset,\n                                   +1"),
("x25_period","C25",L,"period = sim.step_num() - init_step_num","period = sim.step_num() - init_step_num + 1"),
("x25_hs","C25",L,"0, 0, 0, sim.last_state(), sim.last_symbol(),","0, 0, 0, sim.last_state(), sim.tape().read(),"),
("x25_posupd","C25",L,"sim.Step();\n      if (sim.is_halted())","most_left_pos = std::min(most_left_pos, sim.tape().position());\n      sim.Step();\n      if (sim.is_halted())"),
("x26_sep","C26",T,'" \\n\\t,#|"','" \\n\\t,#"'),
("x26_z","C26",T,"trans.state < 26","trans.state < 24"),
("x26_line","C26",T,"i > 1; i -= 1","i > 0; i -= 1"),
("x26_asc","C26",T,"tm.num_symbols() < 10","tm.num_symbols() < 9"),
("x26_hz","C26",T,"if (trans.undecided) {\n        // Und","if (trans.undecided || (trans.state < 0 && trans.symbol == 0)) {\n        // Und"),
("x26_und","C26",T,"trans = {1, +1, HaltState, true};\n        } else","trans = {0, +1, HaltState, true};\n        } else"),
("x26_l","C26",T,"            trans.move = -1;","            trans.move = 0;"),
("x28_wit","C28",B,"    if (steps_realized_.count(sim.step_num()) == 0) {\n      // Log","    if (steps_realized_.count(sim.step_num() - 1) == 0) {\n      // Log"),
("x28_min","C28",B,"long i = 1;;","long i = 2;;"),
("x28_step","C28",B,"{sim.is_halted(), sim.last_state(), sim.last_symbol()}","{sim.is_halted(), sim.last_state(), sim.tape().read()}"),
("x28_lim","C28",B,"sim.Seek(max_steps_)","sim.Seek(max_steps_ - 1)"),
("x28_unk","C28",R,"  } else if (result.is_lin_recurrent) {","  } else if (result.is_lin_recurrent && result.lr_offset) {"),
("x28_fld","C28",R,'result.lr_offset << " <" << result.lr_start_step','result.lr_offset << " <" << result.steps_run'),
("x28_only","C28",R,"    if (!only_unknown) {\n      // Write","    {\n      // Write"),
("x28_stack","C28",E,"if (result.reached_undecided)","if (result.reached_undecided && tm->num_halts() != 2)"),
("x28_exp","C28",R,"return {result.is_halted, result.last_state","return {result.is_halted && result.steps_run > 1, result.last_state"),
]
