From 4d5ca08a4a60ced0fe584d067b89c5543378ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:16 +0000
Subject: [PATCH 01/38] fix: ExpTerm.mod with a small formula exponent raised
 TypeError

---
 Code/Exp_Int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e412781..0aada4b 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -202,7 +202,7 @@ class ExpTerm:
     return new_coef * exp_int(self.base, new_exp)
 
   def mod(self, m : int) -> int:
-    return (exp_mod(self.base, self.exponent, m) * self.coef) % m
+    return (exp_mod(self.base, try_simplify(self.exponent), m) * self.coef) % m
 
   def mul_int(self, n : int):
     assert isinstance(n, int), n
-- 
2.43.0


From 305c529afc28478a3724c19a9ba0ce3803620fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:16 +0000
Subject: [PATCH 02/38] fix: ExpInt could not be divided by a negative integer

---
 Code/Exp_Int.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 0aada4b..269c5e0 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -279,13 +279,13 @@ class ExpInt:
 
   def normalize(self):
     common = gcd(self.const, self.denom)
-    # Force denominator to be postitive
-    common = abs(common) * sign(self.denom)
     assert isinstance(common, int), (common, repr(self.denom))
     if common != 1:
       for term in self.terms:
         common = gcd(common, term.coef)
         assert isinstance(common, int), (common, repr(term.coef))
+    # Force denominator to be postitive
+    common *= sign(self.denom)
     if common != 1:
       self.const //= common
       self.denom //= common
-- 
2.43.0


From 669546db5d3b32df304c1a0e048d4e85db4eb15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 03/38] fix: ExpInt with a variable exponent of minimum 0
 raised AssertionError

---
 Code/Exp_Int.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 269c5e0..0ec3bff 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -331,8 +331,11 @@ class ExpInt:
       if -math.inf in min_terms:
         self.min_value = -math.inf
       else:
-        min_terms = sum(min_terms)
-        self.min_value = (min_terms + min_val(self.const)) / self.denom
+        min_numer = sum(min_terms) + min_val(self.const)
+        if isinstance(min_numer, int):
+          self.min_value = min_numer // self.denom
+        else:
+          self.min_value = min_numer / self.denom
         assert isinstance(self.min_value, (ExpInt, int)), self
       self.vars = set(variables(self.const) | variables(self.denom))
       for term in self.terms:
-- 
2.43.0


From 2c2f8613ea9f441c433f02cc5df9e5b46a62682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 04/38] fix: ExpTerm whose exponent evaluates to 0 was treated
 as too large to evaluate

---
 Code/Exp_Int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 0ec3bff..45a4188 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -160,7 +160,7 @@ class ExpTerm:
     if self.is_const:
       exp_as_int = try_eval(self.exponent)
 
-      if not exp_as_int:
+      if exp_as_int is None:
         assert isinstance(self.exponent, ExpInt), self.exponent
         # For large enough exponent, the coeficient and even base don't have much effect.
         (height, top) = self.exponent.tower_value
-- 
2.43.0


From 5ae121126e204de1590c7c411e066f84d9a2e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 05/38] fix: series_sum squared the coefficient of cubic terms

---
 Code/Macro/Proof_System.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 588f2e6..d9227ec 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -1477,7 +1477,7 @@ def series_sum(expr : Algebraic_Expression, k : Variable, N):
     elif k_pow == 3:
       # sum_{k=0}^{N-1}(coef * k^3) = coef * (N(N-1)/2)^2
       # https://proofwiki.org/wiki/Sum_of_Sequence_of_Cubes
-      total += ((rest * N * (N - 1)) // 2)**2
+      total += rest * ((N * (N - 1)) // 2)**2
     else:
       raise NotImplementedError(f"Cannot series sum {term} over {k}")
   return total
-- 
2.43.0


From bcba188ded0433b8b3d6a2c94b537117c00159ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:23 +0000
Subject: [PATCH 06/38] fix: Mult_Func.apply_rep raised AssertionError at the
 function's fixed point

---
 Code/Macro/Rule_Func.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index c7cca12..2dae744 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -91,6 +91,9 @@ class Mult_Func(Func):
     # be very large!
     m_n = exp_int(base = self.coef, exponent = num_reps)
     numer = ((a*m + self.const) * m_n - self.const)
+    if isinstance(numer, int):
+      # `a` is the fixed point of this function, `m_n` cancelled out.
+      return numer // m
     assert isinstance(numer, (ExpInt, Expression)), numer
     return numer / m
 
-- 
2.43.0


From aa07e3ba0a4b279e6c39683e63ab1030faa8158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:53 +0000
Subject: [PATCH 07/38] fix: Pow_Func.compute_min looped forever when the
 minimum is a fixed point

---
 Code/Macro/Rule_Func.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index 2dae744..d400a65 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -122,10 +122,10 @@ class Pow_Func(Func):
   __str__ = __repr__
 
   def compute_min(self, min):
-    # Increase min enough to guarantee that this is an increasing function.
-    #   (a b^{u x + v} + c)/d > x
-    #   ux + v > log_b(dx-c) - log_b(a)
-    #   x > (log_b(dx-c) - log_b(a) - v) / u
+    # Increase min enough to guarantee that this is a non-decreasing function.
+    #   (a b^{u x + v} + c)/d >= x
+    #   ux + v >= log_b(dx-c) - log_b(a)
+    #   x >= (log_b(dx-c) - log_b(a) - v) / u
     av = self.const_exp + math.log(self.coef_base, self.base)
     while True:
       dxc = self.denom * min - self.const_base
@@ -133,7 +133,7 @@ class Pow_Func(Func):
         return min
       else:
         x_bound = (math.log(dxc, self.base) - av) / self.coef_exp
-        if min > x_bound:
+        if min >= x_bound:
           return min
         else:
           # TODO: Add tests that actually use this logic.
-- 
2.43.0


From 5df5f335c91c29438bc2ca78d8a01cbbff8fd5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:51 +0000
Subject: [PATCH 08/38] fix: Backtracking_Filter.backtrack called a function
 that does not exist

IO.parse_ttable is gone, so the filter failed on every machine. Build the
table from the machine's transitions instead.
---
 Code/Backtracking_Filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 95fa922..1957e98 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -185,7 +185,8 @@ def backtrack_ttable(TTable, steps, max_width):
 def backtrack(tm_record, num_steps, max_width):
   info = tm_record.proto.filter.backtrack
   with IO.Timer(info.result):
-    TTable = IO.parse_ttable(tm_record.tm().ttable_str())
+    TTable = [[(trans.symbol_out, trans.dir_out, trans.state_out) for trans in row]
+              for row in tm_record.tm().trans_table]
     # Run the simulator/filter on this machine
     result = backtrack_ttable(TTable, num_steps, max_width)
 
-- 
2.43.0


From 6e35ac34d5fe386ca138f05b9ea6dfe275fd920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:51 +0000
Subject: [PATCH 09/38] fix: Backtracking_Filter must not discard machines that
 halt on the first step

Only predecessors of a halting configuration were compared with the initial
configuration. With A0 halting and no transition to A, the filter claimed the
machine never halts.
---
 Code/Backtracking_Filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 1957e98..d4ec541 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -119,6 +119,11 @@ def backtrack_single_halt(halt_state, halt_symbol,
   pos_configs = [Partial_Config(halt_state, halt_symbol)]
   max_width_seen = len(pos_configs)
   num_nodes = 0
+  if is_init_config(pos_configs[0]):
+    # The very first transition halts.
+    return BacktrackResult(success = False, halted = True,
+                           max_steps = 0, max_width = max_width_seen,
+                           num_nodes = num_nodes)
   for i in range(steps):
     # All configurations that could lead to pos_configs in one step.
     prev_configs = []
-- 
2.43.0


From 319203d74642901b87eed5c29a36f94f20cf2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:51 +0000
Subject: [PATCH 10/38] fix: Backtracking_Filter failed for machines without
 halting cells and for 0 steps

---
 Code/Backtracking_Filter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index d4ec541..e09caef 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -124,6 +124,7 @@ def backtrack_single_halt(halt_state, halt_symbol,
     return BacktrackResult(success = False, halted = True,
                            max_steps = 0, max_width = max_width_seen,
                            num_nodes = num_nodes)
+  i = -1
   for i in range(steps):
     # All configurations that could lead to pos_configs in one step.
     prev_configs = []
@@ -159,7 +160,9 @@ def backtrack_ttable(TTable, steps, max_width):
   giving up if there are more than |max_width| possible configs."""
   # Get initial ttable info.
   halts, to_state, dir_to_symbol = get_info(TTable)
-  combined_result = None
+  # With no halting cell at all, there is nothing to backtrack from.
+  combined_result = BacktrackResult(success = True, halted = False,
+                                    max_steps = 0, max_width = 0, num_nodes = 0)
   # See if all halts cannot be reached
   for halt_state, halt_symbol in halts:
     for symbol_out, dir_out, state_out in TTable[halt_state]:
@@ -179,10 +182,7 @@ def backtrack_ttable(TTable, steps, max_width):
     if not result.success:
       return result
 
-    if combined_result:
-      combined_result.merge(result)
-    else:
-      combined_result = result
+    combined_result.merge(result)
 
   # If all halt states cannot be reached, we have succeeded!
   return combined_result
-- 
2.43.0


From 03a70624a8fc7f988ba787c8f33a0d2080c515be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:51 +0000
Subject: [PATCH 11/38] fix: lin_detect_not_min failed with max_steps = 1

---
 Code/Lin_Recur_Detect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Lin_Recur_Detect.py b/Code/Lin_Recur_Detect.py
index e816422..f4ded59 100644
--- a/Code/Lin_Recur_Detect.py
+++ b/Code/Lin_Recur_Detect.py
@@ -45,6 +45,7 @@ def lin_detect_not_min(tm : Turing_Machine.Simple_Machine,
   sim = Direct_Simulator.DirectSimulator(tm)
   states_last_seen = {sim.state: sim.step_num}
   sim.step()
+  steps_reset = sim.step_num
 
   while (not max_steps or sim.step_num < max_steps) and not result.success:
     # Brent's algorithm for loop detection:
-- 
2.43.0


From 524a4fba7996e3504fd72018f8438f1b1981d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:13 +0000
Subject: [PATCH 12/38] fix: CTL4 dropped symbols of the outermost run from its
 start language

With three or more runs on a side, the length of the wrong run was tested, so
for (1)^3 2 0 the language was (2|0)* 1 1, which does not contain the tape. A
halting machine could get a proof.
---
 Code/CTL4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/CTL4.py b/Code/CTL4.py
index 24f4419..7b6e189 100755
--- a/Code/CTL4.py
+++ b/Code/CTL4.py
@@ -114,7 +114,7 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
         B = set([sim.tape.tape[d][1].symbol])
         if len(sim.tape.tape[d]) >= 3:
           A.add(sim.tape.tape[d][2].symbol)
-        if sim.tape.tape[d][-2].num > 2:
+        if sim.tape.tape[d][1].num > 2:
           A.add(sim.tape.tape[d][1].symbol)
       else:
         B = set([sim.tape.tape[d][2].symbol])
-- 
2.43.0


From 46d35dbb57780e53d6fba104c8a227c451c43430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:21 +0000
Subject: [PATCH 13/38] fix: Enumerate --num-enum with --no-output crashed
 before writing the remaining machines

---
 Code/Enumerate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index d161d41..0b1d638 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -83,7 +83,8 @@ class Enumerator(object):
     """
     while True:
       if self.options.num_enum and self.tm_num >= self.options.num_enum:
-        self.pout.write("Ran requested number of TMs...\n")
+        if self.pout:
+          self.pout.write("Ran requested number of TMs...\n")
         break
 
       # While we have machines to run, pop one off the stack ...
-- 
2.43.0


From 72a140cecf85cbd836ae768e19d573c7de0e8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 14/38] fix: to_TNF numbered symbols in the order they are
 read, which is not tree normal form

---
 Code/TNF.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Code/TNF.py b/Code/TNF.py
index 777d178..cb23bb7 100755
--- a/Code/TNF.py
+++ b/Code/TNF.py
@@ -65,15 +65,17 @@ def to_TNF(tm : Turing_Machine.Simple_Machine, max_steps : int) -> Turing_Machin
     if sim.step_num > max_steps or sim.halted:
       return None
 
+    trans = tm.get_trans_object(sim.tape.read(), sim.state)
     sim.step()
 
     if sim.state in unordered_states:
       state_order.append(sim.state)
       unordered_states.remove(sim.state)
-    cur_symb = sim.tape.read()
-    if cur_symb in unordered_symbols:
-      symbol_order.append(cur_symb)
-      unordered_symbols.remove(cur_symb)
+    # Symbols are numbered in the order they are first written.
+    if (trans.condition == Turing_Machine.RUNNING
+        and trans.symbol_out in unordered_symbols):
+      symbol_order.append(trans.symbol_out)
+      unordered_symbols.remove(trans.symbol_out)
 
     if len(unordered_states) == 1:
       state_order.append(unordered_states.pop())
-- 
2.43.0


From 84114582e2ffb60fdd01622cedd045fb30110631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:28 +0000
Subject: [PATCH 15/38] fix: LNF picked the mirror image by the wrong cell and
 kept the input table as a candidate, so equivalent TMs got different forms

---
 Code/LNF.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Code/LNF.py b/Code/LNF.py
index bc53e52..0ab94b7 100644
--- a/Code/LNF.py
+++ b/Code/LNF.py
@@ -10,9 +10,7 @@ from Macro import Turing_Machine
 import TNF
 
 
-def permute(old_tm, state_order, symbol_order):
-  # L < R
-  swap_dirs = (old_tm.trans_table[state_order[0]][0].dir_out == Turing_Machine.RIGHT)
+def permute(old_tm, state_order, symbol_order, swap_dirs):
   perm_tm = TNF.permute_table(old_tm, state_order, symbol_order, swap_dirs)
 
   # Find new state number corresponding to start state (old 0) and symbol.
@@ -38,16 +36,18 @@ def iter_perms(xs):
 
 def brute_lnf(old_tm):
   """Calculate LNF using brute-force method."""
-  best_str = old_tm.ttable_str()
-  best_tm = old_tm
+  best_key = None
+  best_tm = None
   for state_order in iter_perms(list(range(old_tm.num_states))):
     for symbol_order in iter_perms(list(range(old_tm.num_symbols))):
-      perm_tm = permute(old_tm, state_order, symbol_order)
-      perm_str = perm_tm.ttable_str()
-      # print(f" Debug: {state_order} / {perm_str}")
-      if perm_str < best_str:
-        best_str = perm_str
-        best_tm = perm_tm
+      for swap_dirs in (False, True):
+        perm_tm = permute(old_tm, state_order, symbol_order, swap_dirs)
+        # Break ties (symmetric TMs) by start position.
+        perm_key = (perm_tm.ttable_str(), perm_tm.init_state, perm_tm.init_symbol)
+        # print(f" Debug: {state_order} / {perm_key}")
+        if best_key is None or perm_key < best_key:
+          best_key = perm_key
+          best_tm = perm_tm
   return best_tm
 
 
-- 
2.43.0


From af7c448b53da1bd9445358bad2d77e97470d2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 16/38] fix: tm_from_list read the first transition for every
 cell

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 025d812..fe5c140 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -110,6 +110,7 @@ def tm_from_list(tm_list : io_pb2.TMList) -> Turing_Machine.Simple_Machine:
       symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
       if symbol_out != -1:
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
+      i += 3
   return Turing_Machine.tm_from_quintuples(quints,
                                            states = list(range(tm_list.num_states)),
                                            symbols = list(range(tm_list.num_symbols)))
-- 
2.43.0


From 56542551b6287d95dfdb8fadd68294ba29aa9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 17/38] fix: tm_to_list changed the undefined transitions of
 the TM it wrote and appended to an older list

---
 Code/IO/TM_Record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index fe5c140..1d2cc91 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -91,14 +91,16 @@ def unpack_tm(pack : bytes) -> Turing_Machine.Simple_Machine:
                                            symbols = list(range(symbol_in)))
 
 def tm_to_list(tm : Turing_Machine.Simple_Machine, tm_list : io_pb2.TMList) -> None:
+  tm_list.Clear()
   tm_list.num_states = tm.num_states
   tm_list.num_symbols = tm.num_symbols
   for state in range(tm.num_states):
     for symbol in range(tm.num_symbols):
       trans = tm.get_trans_object(symbol, state)
+      symbol_out = trans.symbol_out
       if trans.condition == Turing_Machine.UNDEFINED:
-        trans.symbol_out = -1
-      tm_list.ttable_list.append(trans.symbol_out)
+        symbol_out = -1
+      tm_list.ttable_list.append(symbol_out)
       tm_list.ttable_list.append(trans.dir_out)
       tm_list.ttable_list.append(trans.state_out)
 
-- 
2.43.0


From 31c350fd301e7b4b89fd40881ea23e3117970af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 18/38] fix: 8 symbol TMs do not fit the packed format

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 1d2cc91..bd2833a 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -129,7 +129,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
     raise NotImplementedError(f"Unexpected ttable type: {type}")
 
 def write_tm(tm : Turing_Machine.Simple_Machine, proto_tm : io_pb2.TuringMachine):
-  if tm.num_states <= 7 and tm.num_symbols <= 8:
+  if tm.num_states <= 7 and tm.num_symbols <= 7:
     proto_tm.ttable_packed = pack_tm(tm)
   else:
     tm_to_list(tm, proto_tm.ttable_list)
-- 
2.43.0


From b75a81d8ab03b9822534908be1a74b635afdf0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 19/38] fix: reading a TM stored as text used a module that is
 not imported

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index bd2833a..e6ba769 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -122,7 +122,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
   if type == "ttable_packed":
     return unpack_tm(proto_tm.ttable_packed)
   elif type == "ttable_str":
-    return IO.StdText.parse_tm(proto_tm.ttable_str)
+    return parse_tm(proto_tm.ttable_str)
   elif type == "ttable_list":
     return tm_from_list(proto_tm.ttable_list)
   else:
-- 
2.43.0


From ff707390c33028793e1b80af70c128729d0bb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 20/38] fix: standardize_halt_trans failed for large TMs and
 for records read from a file

---
 Code/IO/TM_Record.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index e6ba769..7904770 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -177,10 +177,10 @@ class TM_Record:
     undefined transition. In that case, edit the transition to be a standard
     halt transition."""
     assert self.is_halting()
-    self.tme.set_halt_trans(
+    self.tm_enum().set_halt_trans(
       state_in = self.proto.status.halt_status.from_state,
       symbol_in = self.proto.status.halt_status.from_symbol)
-    self.proto.tm.ttable_packed = pack_tm(self.tme.tm)
+    write_tm(self.tme.tm, self.proto.tm)
 
 
   def is_unknown_halting(self):
-- 
2.43.0


From 83d06d46f7650fcb024ee65c42d4c196716c83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 21/38] fix: allow_no_halt was not saved in TM records

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 7904770..a7e211c 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -153,6 +153,7 @@ class TM_Record:
   def update_tm(self, tm_enum : TM_Enum.TM_Enum) -> None:
     self.tme = tm_enum
     write_tm(self.tme.tm, self.proto.tm)
+    self.proto.tm.allow_no_halt = self.tme.allow_no_halt
 
   def tm_enum(self):
     if not self.tme:
-- 
2.43.0


From aac2c5258a9decd1246b7c5ee991afbe3758f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 22/38] fix: standard text could not be written to or read from
 gzip files

---
 Code/IO/StdText.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index b5b3c37..5ad55d7 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -36,7 +36,7 @@ class Writer:
   def __enter__(self):
     if self.outfilename:
       if ".gz" in self.outfilename.suffixes:
-        self.outfile = gzip.open(self.outfilename, "w")
+        self.outfile = gzip.open(self.outfilename, "wt")
       else:
         self.outfile = open(self.outfilename, "w")
     return self
@@ -80,7 +80,7 @@ class Reader:
   def __enter__(self):
     if self.infilename:
       if ".gz" in self.infilename.suffixes:
-        self.infile = gzip.open(self.infilename, "r")
+        self.infile = gzip.open(self.infilename, "rt")
       else:
         self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From 92357d79a9be158cfc76d23c165f0bc13c79c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 23/38] fix: Morphett text could not be written to or read from
 gzip files

---
 Code/IO/Morphett.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 31ab454..9a9f15f 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -21,7 +21,7 @@ class Writer:
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
-      self.outfile = gzip.open(self.outfilename, "w")
+      self.outfile = gzip.open(self.outfilename, "wt")
     else:
       self.outfile = open(self.outfilename, "w")
     return self
@@ -59,7 +59,7 @@ class Reader:
 
   def __enter__(self):
     if ".gz" in self.infilename.suffixes:
-      self.infile = gzip.open(self.infilename, "r")
+      self.infile = gzip.open(self.infilename, "rt")
     else:
       self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From 289929da10893e1ff1bd1bc24c5850a2fb431209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 24/38] fix: Morphett reader failed on states and symbols
 without transitions

---
 Code/IO/Morphett.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 9a9f15f..1bcff6a 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -87,6 +87,12 @@ class Reader:
           states.append(state_in)
         if symbol_in not in symbols:
           symbols.append(symbol_in)
+    # States and symbols may also only appear as outputs.
+    for (_, _, symbol_out, _, state_out) in quints:
+      if state_out != -1 and state_out not in states:
+        states.append(state_out)
+      if symbol_out not in symbols:
+        symbols.append(symbol_out)
     tm = Turing_Machine.tm_from_quintuples(quints, states, symbols)
     tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt = False)
     tm_record = TM_Record.TM_Record(tm_enum = tm_enum)
-- 
2.43.0


From 25b571888952a8769e816c3c5406994199650b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 25/38] fix: Morphett writer changed the symbols of the TM it
 wrote

---
 Code/IO/Morphett.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 1bcff6a..8c66840 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -33,7 +33,7 @@ class Writer:
   def write_record(self, tm_record : TM_Record) -> None:
     tm = tm_record.tm()
     # Morphett uses _ for blank symbol.
-    tm.symbols[0] = "_"
+    symbols = ["_"] + tm.symbols[1:]
     for state_in in range(tm.num_states):
       for symbol_in in range(tm.num_symbols):
         trans = tm.get_trans_object(symbol_in, state_in)
@@ -43,8 +43,8 @@ class Writer:
           else:
             state_out = tm.states[trans.state_out]
           # Write out one quintuple per line.
-          print(tm.states[state_in], tm.symbols[symbol_in],
-                tm.symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
+          print(tm.states[state_in], symbols[symbol_in],
+                symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
                 file=self.outfile)
 
   def flush(self):
-- 
2.43.0


From ab43e9ddc391c797e4682fb4910904f406dbff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 26/38] fix: Proto.skip_record counted a record that is cut off

---
 Code/IO/Proto.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/IO/Proto.py b/Code/IO/Proto.py
index 9f0317a..4745690 100644
--- a/Code/IO/Proto.py
+++ b/Code/IO/Proto.py
@@ -107,8 +107,11 @@ class Reader:
     """Skip ahead 1 record. Return False if no records left in file."""
     pb_len = self._read_message_len()
     if pb_len != None:
-      # Skip ahead pb_len bytes.
-      pb_bytes = self.infile.seek(pb_len, 1)
+      # Skip ahead pb_len bytes. (Note: seek() would not notice EOF.)
+      pb_bytes = self.infile.read(pb_len)
+      if len(pb_bytes) != pb_len:
+        raise IO_Error("Unexpected EOF while skipping data block "
+                       f"(expected {pb_len}, got {len(pb_bytes)})")
       return True
     return False
 
-- 
2.43.0


From cd18bd3e9f78185913001a136cce185607a97640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 27/38] fix: BBC.skip_record reported every record as missing

---
 Code/IO/BBC.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index a08720b..7564f03 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -107,9 +107,8 @@ class Reader:
 
   def skip_record(self) -> bool:
     """Skip ahead 1 record. Return False if no records left in file."""
-    # whence = 1 means (from current position).
-    pb_bytes = self.infile.seek(_BYTES_PER_RECORD, 1)
-    return pb_bytes == _BYTES_PER_RECORD
+    tm_bytes = self.infile.read(_BYTES_PER_RECORD)
+    return len(tm_bytes) == _BYTES_PER_RECORD
 
   def get_tm(self, tm_num) -> TM_Record:
     # whence = 0 means (from the start).
-- 
2.43.0


From 48fb8b210ef98cefb2eedcd7b867bf47ccc950d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 28/38] fix: BBC index readers could not be used in a with
 statement

---
 Code/IO/BBC.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index 7564f03..0dde688 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -146,6 +146,7 @@ class IndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "rb")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
@@ -163,7 +164,7 @@ class IndexReader:
         return
       elif len(n_bytes) != 4:
         raise IO_Error("Unexpected EOF while reading block "
-                       f"(expected 4 bytes, got {len(len_bytes)}).")
+                       f"(expected 4 bytes, got {len(n_bytes)}).")
       # Big Endian (>), 4 bytes (L).
       yield struct.unpack(">L", n_bytes)[0]
 
@@ -177,6 +178,7 @@ class TextIndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "r")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
-- 
2.43.0


From 10d14878770c09abe865d6caadf47e036b7e9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 29/38] fix: old text writer failed for TMs that are not stored
 packed

---
 Code/IO/OldText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/OldText.py b/Code/IO/OldText.py
index 8865f50..8951967 100644
--- a/Code/IO/OldText.py
+++ b/Code/IO/OldText.py
@@ -118,7 +118,7 @@ class ReaderWriter(object):
     io_record = Record()
     if self.log_number is not None:
       io_record.log_number = self.log_number
-    io_record.tm = TM_Record.unpack_tm(tm_record.proto.tm.ttable_packed)
+    io_record.tm = tm_record.tm()
 
     if tm_record.is_unknown_halting():
       io_record.category = Exit_Condition.UNKNOWN
-- 
2.43.0


From 768b6de282394fc9000a3602e1d9b2e3c5bba342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 30/38] fix: a timeout while a result was being recorded could
 turn a halting machine into an infinite one

---
 Code/Halting_Lib.py     | 11 ++++++-----
 Code/Macro_Simulator.py |  6 ++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/Code/Halting_Lib.py b/Code/Halting_Lib.py
index e3fef50..694fe72 100644
--- a/Code/Halting_Lib.py
+++ b/Code/Halting_Lib.py
@@ -137,7 +137,7 @@ def set_halting(tm_status  : io_pb2.BBStatus,
                 from_state  : Optional[int],
                 from_symbol : Optional[int]):
   """Specify that we know that this machine halts."""
-  tm_status.halt_status.is_decided = True
+  # NOTE: `is_decided` is set last, a timeout (Alarm) may be raised anywhere in here.
   tm_status.halt_status.is_halting = True
   set_big_int(tm_status.halt_status.halt_steps, halt_steps)
   if halt_score is not None:
@@ -146,6 +146,7 @@ def set_halting(tm_status  : io_pb2.BBStatus,
     tm_status.halt_status.from_state = from_state
   if from_symbol is not None:
     tm_status.halt_status.from_symbol = from_symbol
+  tm_status.halt_status.is_decided = True
 
   # NOTE: We are treating Halting machines as Not Quasihalting.
   # Technically, Aaronson's definition calls Halting machines Quasihalting also.
@@ -154,14 +155,14 @@ def set_halting(tm_status  : io_pb2.BBStatus,
 def set_not_halting(tm_status  : io_pb2.BBStatus,
                     inf_reason : io_pb2.InfReason):
   """Specify that we know that this machine does not halt."""
-  tm_status.halt_status.is_decided = True
   tm_status.halt_status.is_halting = False
   tm_status.halt_status.inf_reason = inf_reason
+  tm_status.halt_status.is_decided = True
 
 def set_not_quasihalting(tm_status : io_pb2.BBStatus):
   """Specify that we know that this machine does not quasihalt."""
-  tm_status.quasihalt_status.is_decided = True
   tm_status.quasihalt_status.is_quasihalting = False
+  tm_status.quasihalt_status.is_decided = True
 
 
 def set_inf_recur(tm_status : io_pb2.BBStatus,
@@ -185,8 +186,6 @@ def set_inf_recur(tm_status : io_pb2.BBStatus,
         q_state = state
         q_last_seen = states_last_seen[state]
 
-  # Either way, we have made a conclusive decision.
-  tm_status.quasihalt_status.is_decided = True
   if q_state == None:
     # We can definitively say that this machine does NOT quasihalt.
     # Instead it enters Lin Recurrence cycling through all states forever.
@@ -199,3 +198,5 @@ def set_inf_recur(tm_status : io_pb2.BBStatus,
     # Note: A TM may quasihalt at different times with respect to different
     # states. This is guaranteed to be the final quasihalt (max steps).
     tm_status.quasihalt_status.quasihalt_state = q_state
+  # Either way, we have made a conclusive decision.
+  tm_status.quasihalt_status.is_decided = True
diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index ed3573a..626a41d 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -64,8 +64,10 @@ def run_timer(tm_record : TM_Record, options,
 
   except Alarm.AlarmException:
     Alarm.ALARM.cancel_alarm()
-    tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = (
-      time.time() - start_time)
+    # If the timeout was raised after the machine was decided, that result stands.
+    if tm_record.is_unknown_halting():
+      tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = (
+        time.time() - start_time)
 
 def run_options(tm_record : TM_Record, options) -> None:
   """Run the Accelerated Turing Machine Simulator, running a few simple filters
-- 
2.43.0


From da980f19b2b136ad560df1218aa8f4e7e9c22dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 31/38] fix: simulate_machine failed with --no-prover

---
 Code/Macro_Simulator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index 626a41d..77a0425 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -177,13 +177,14 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       if sim.step_num > 0:
         sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
 
-      sim_info.result.num_rules_proven = sim.prover.num_rules
-      sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
-      sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
-      sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
-      sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
-      sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
-      sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
+      if sim.prover:
+        sim_info.result.num_rules_proven = sim.prover.num_rules
+        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
+        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
+        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
+        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
+        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
+        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
 
     # Various Unknown conditions
     if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
-- 
2.43.0


From 633c71a5dde9a4bcc46015a3db0fe7bed95f3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:01 +0000
Subject: [PATCH 32/38] fix: partial step counts were recorded as the steps of
 a halt when some steps were not counted

---
 Code/Macro/Simulator.py | 1 +
 Code/Macro_Simulator.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Code/Macro/Simulator.py b/Code/Macro/Simulator.py
index fbc64c0..bad77ce 100644
--- a/Code/Macro/Simulator.py
+++ b/Code/Macro/Simulator.py
@@ -160,6 +160,7 @@ class Simulator(object):
         self.num_rule_moves += 1
         if prover_result.num_base_steps is None:
           self.compute_steps = False
+          self.states_last_seen = None
         if self.compute_steps:
           if self.states_last_seen is not None and prover_result.states_last_seen:
             for state, prover_last_seen in prover_result.states_last_seen.items():
diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index 77a0425..7c3ba71 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -234,10 +234,11 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       from_symbol, from_state = sim.op_details[0][:2]
       halt_info = sim_info.result.halt_info.is_halting = True
       Halting_Lib.set_halting(bb_status,
-                              halt_steps = sim.step_num,
+                              # 0 means not counted. A partial count would be wrong.
+                              halt_steps = sim.step_num if sim.compute_steps else 0,
                               halt_score = sim.get_nonzeros(),
                               from_state = from_state,
                               from_symbol = from_symbol)
 
     else:
-      raise Exception(sim.op_state, tm.ttable_str(), sim)
+      raise Exception(sim.op_state, machine, sim)
-- 
2.43.0


From 087cbffecd324b314b19a8d337041f12dc7f89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 33/38] fix: MPI work queue sizes were floats and could not be
 used as slice indices

---
 Code/MPI_Work_Queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/MPI_Work_Queue.py b/Code/MPI_Work_Queue.py
index d0ebed7..ae675ce 100644
--- a/Code/MPI_Work_Queue.py
+++ b/Code/MPI_Work_Queue.py
@@ -131,7 +131,7 @@ class MPI_Worker_Work_Queue(Work_Queue.Work_Queue):
     while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
       self.max_queue_size = comm.recv(source=self.master,
                                       tag=UPDATE_MAX_QUEUE_SIZE)
-      self.target_queue_size = self.max_queue_size * 3 / 4
+      self.target_queue_size = self.max_queue_size * 3 // 4
     self.update_max_queue_size_time += self.time_diff()
 
   def _send_extra(self):
@@ -261,7 +261,7 @@ class Master(object):
       worker_queue_size[0] = len(self.master_queue)
       max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size),
                            MAX_NUM_JOBS_PER_BATCH)
-      target_queue_size = max_queue_size * 3 / 4
+      target_queue_size = max_queue_size * 3 // 4
       if time.time() - self.last_update_time > self.update_interval:
         for rank in range(1, num_proc):
           if update_requests[rank]:
-- 
2.43.0


From f5e763411e1dfea3049157342e112b2344d03ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:07 +0000
Subject: [PATCH 34/38] fix: LinRecurDetect returned an uninitialised reference
 step when the limit leaves no configuration to compare

---
 cpp/src/lin_recur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/lin_recur.cpp b/cpp/src/lin_recur.cpp
index 54e2bcd..30c6162 100644
--- a/cpp/src/lin_recur.cpp
+++ b/cpp/src/lin_recur.cpp
@@ -45,7 +45,7 @@ LinRecurResult LinRecurDetect(const TuringMachine& tm, const long max_steps) {
   // TODO: Consider Seek(1024) or something like this to avoid lots of early copies.
   sim.Step();
 
-  long init_step_num;
+  long init_step_num = 0;
   while (sim.step_num() < max_steps) {
     init_step_num = sim.step_num();
     const long steps_reset = 2 * init_step_num;
-- 
2.43.0


From 5b721b75d87a8999248cc0172ad440acfeab56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:55 +0000
Subject: [PATCH 35/38] fix: enumeration of machines with one state or one
 symbol used a state or symbol they do not have

---
 cpp/src/turing_machine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 443fe8a..1013e56 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -10,7 +10,8 @@ namespace busy_beaver {
 // Empty TM
 TuringMachine::TuringMachine(int num_states, int num_symbols)
     : num_states_(num_states), num_symbols_(num_symbols),
-      max_next_state_(1), max_next_symbol_(1),
+      max_next_state_(std::min(1, num_states - 1)),
+      max_next_symbol_(std::min(1, num_symbols - 1)),
       next_move_left_ok_(false), num_halts_(num_states * num_symbols),
       hereditary_name_() {
   const LookupResult empty_trans = {1, +1, HaltState, true};
-- 
2.43.0


From 13e42d634c15f338388c0c15095b97cfe210851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:06 +0000
Subject: [PATCH 36/38] fix: undecided cells of a table that is read counted as
 writing symbol 1, so continued enumerations left tree normal form

---
 cpp/src/turing_machine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 1013e56..ca8c068 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -32,7 +32,10 @@ TuringMachine::TuringMachine(
   for (const auto& row : transitions_) {
     for (const LookupResult& trans : row) {
       max_state = std::max(max_state, trans.state);
-      max_symbol = std::max(max_symbol, trans.symbol);
+      if (!trans.undecided) {
+        // The symbol of an undecided transition is only a placeholder.
+        max_symbol = std::max(max_symbol, trans.symbol);
+      }
       if (trans.state < 0) {
         num_halts += 1;
       }
-- 
2.43.0


From cb8de9f3152305b60404e33ce0bf225d9429da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:58 +0000
Subject: [PATCH 37/38] fix: only_unknown was left uninitialised when built
 without Boost

---
 cpp/src/lin_recur_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 7cc0ffc..42c5db8 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -35,6 +35,8 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     max_steps_(max_steps),
     proc_id_(proc_id)
 {
+  only_unknown = only_unknown_in;
+
 #ifdef BOOST_FOUND
   std::string file_suffix = "";
 
@@ -42,8 +44,6 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     file_suffix = ".gz";
   }
 
-  only_unknown = only_unknown_in;
-
   out_halt_stream_2_   .open(out_halt_filename    + file_suffix, std::ios::out | std::ios::binary);
   out_inf_stream_2_    .open(out_inf_filename     + file_suffix, std::ios::out | std::ios::binary);
   out_unknown_stream_2_.open(out_unknown_filename + file_suffix, std::ios::out | std::ios::binary);
-- 
2.43.0


From 498e14be7002336a86f2fd4ceee7e3d7d327264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:14 +0000
Subject: [PATCH 38/38] fix: TM_Analyze crashed on files in which no record has
 a simulated step count

The minimum of an empty statistic is math.inf, which cannot be formatted
with 'd', so analysing a file of records never simulated (for example ones
converted from text or only run through a filter) raised ValueError instead
of printing the tallies.
---
 Code/TM_Analyze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/TM_Analyze.py b/Code/TM_Analyze.py
index 389860f..d9a8a7e 100755
--- a/Code/TM_Analyze.py
+++ b/Code/TM_Analyze.py
@@ -217,7 +217,7 @@ class TMStats:
     print(f"  - num_loops         : Mean {self.sim_num_loops.mean():9_.0f}  Max {self.sim_num_loops.max_value:9_d}")
     # self.print_hist(self.sim_num_loops.log_hist)
     # print()
-    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_d}")
+    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value if self.sim_log10_num_steps.count else 0:9_d}")
     print(f"  - num_rules_proven  : Mean {self.sim_num_rules_proven.mean():9_.0f}  Max {self.sim_num_rules_proven.max_value:9_d}  (Set in {self.sim_num_rules_proven.count / self.count:7.2%})")
     print(f"  - num_linear_rules  : Mean {self.sim_num_linear_rules_proven.mean():9_.0f}  Max {self.sim_num_linear_rules_proven.max_value:9_d}  (Set in {self.sim_num_linear_rules_proven.count / self.count:7.2%})")
     print(f"  - num_exponential_rules  : Mean {self.sim_num_exponential_rules_proven.mean():9_.0f}  Max {self.sim_num_exponential_rules_proven.max_value:9_d}  (Set in {self.sim_num_exponential_rules_proven.count / self.count:7.2%})")
-- 
2.43.0

