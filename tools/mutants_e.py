P="Code/Macro/Proof_System.py"
M=[("e_tight_all","C05",P,"      if not is_meta_rule:\n        # Tighten","      if True:\n        # Tighten"),
("e_meta_false","C05",P,"      is_meta_rule = (gen_sim.num_rule_moves > 0)","      is_meta_rule = False"),
("e_lim_meta","C05",P,"if self.options.limited_rules and not is_meta_rule:","if self.options.limited_rules:"),
]
