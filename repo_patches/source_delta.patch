From 41c223b4ed34607bb81b2e54a87a9a77d7ff9d28 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 01/19] fix: keep every bit of a value that straddles two words
 of a BitQueue

---
 semantic_codec/architecture/bits.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/architecture/bits.py b/semantic_codec/architecture/bits.py
index 5638551..54ebecf 100644
--- a/semantic_codec/architecture/bits.py
+++ b/semantic_codec/architecture/bits.py
@@ -18,16 +18,17 @@ class BitQueue(object):
         Bits.check_range(0, from_bit)
 
         if self._eq_bit + self.word_size - 1 > BitQueue.WORD_SIZE - 1:
-            w = max(0, BitQueue.WORD_SIZE - self._eq_bit - 1)
+            # Fill the current word with the first bits of the value
+            w = BitQueue.WORD_SIZE - self._eq_bit
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+                                                        from_bit, from_bit + w - 1, self._eq_bit)
             self._eq_word += 1
             self._bytes.append(0)
 
-            w = max(0, self._eq_bit + self.word_size - BitQueue.WORD_SIZE - 1)
-            self._eq_bit = 0
-            self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+            # The bits that did not fit start the next word
+            self._bytes[self._eq_word] = Bits.copy_bits(value >> (from_bit + w), self._bytes[self._eq_word],
+                                                        0, self.word_size - w - 1, 0)
+            self._eq_bit -= BitQueue.WORD_SIZE
         else:
             w = max(0, from_bit + self.word_size - 1)
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
@@ -55,9 +56,13 @@ class BitQueue(object):
             self._bytes.pop(0)
             self._eq_word -= 1
 
+            # The rest of the bits follow the ones already copied, those past the end of the value are dropped
+            to_bit += w
             w = self._dq_bit + self.word_size - BitQueue.WORD_SIZE
             self._dq_bit = 0
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            last = min(w, BitQueue.WORD_SIZE - to_bit) - 1
+            if last >= 0:
+                value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + last, to_bit)
         else:
             w = self.word_size
             value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
-- 
2.43.0


From 67bb2390a93edeeaf9011dfbc41c52f19c038377 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 02/19] fix: deinterleave until every received packet is
 consumed

---
 semantic_codec/interleaver/interleaver2d.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index bafd194..2946f6f 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -195,20 +195,14 @@ def deinterleave(packets, interleave_order, word_size=8):
     :param word_size: Size of the arrays word size
     :return: Data and the error list
     """
-    k = len(interleave_order) - 1
-    while k > -1 and packets[interleave_order[k]] is None:
-        k -= 1
-
-    last_queue = None
-    if k == 0:
+    received = [packets[p] for p in interleave_order if p in packets and packets[p] is not None]
+    if len(received) == 0:
         raise RuntimeError('All packets are lost')
-    else:
-        last_queue = packets[interleave_order[k]]
 
     errors = []
 
     data = BitQueue(word_size)
-    while not last_queue.empty():
+    while not all(q.empty() for q in received):
         for p in interleave_order:
             a = 0
             if not p in packets or packets[p] is None:
-- 
2.43.0


From dad3cfdf5c0b0a5902f0f941547c1628dbd20364 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 03/19] fix: predict the losses of every lost packet, not only
 until the first one ends

---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 43d5e9e..9f3bb2b 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -245,7 +245,7 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while b[0] < total_bits:
+    while any(x < total_bits for x in b):
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
-- 
2.43.0


From 1c714367027c6550650d0a40ecf59f22f7850144 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 04/19] fix: corrupt_bits must flip every subset of the
 selected bits

---
 semantic_codec/corruption/corruption.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 9f3bb2b..ececdd1 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -101,10 +101,9 @@ def corrupt_bits(hi, lo, amount, instruction):
             bits.append(x)
 
     for i in range(1, 2 ** amount):
-        noise, j, m = 0, 1, math.log(i, 2) + 1
-        while j <= m:
-            noise += Bits.on(bits[j - 1]) if j & i else 0
-            j <<= 1
+        noise = 0
+        for j in range(0, amount):
+            noise += Bits.on(bits[j]) if Bits.is_on(i, j) else 0
         noised = instruction ^ noise
         if noised not in result:
             result.append(noised)
-- 
2.43.0


From 6c6f3eac7bc3a97ac65fb71da8554ae6e1fb0004 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 05/19] fix: the number of solutions is the product of the
 candidates per address

---
 semantic_codec/solution/solution_quality.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d45f28f..386c55d 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -68,10 +68,9 @@ class SolutionQuality(object):
             else:
                 bins[k] = 1
 
-        i = 1
-        amount = 0
+        amount = 1
         for i in bins.keys():
-            amount += i ** bins[i]
+            amount *= i ** bins[i]
 
         self._solution_count = amount
         self._solution_count_bins = bins
@@ -82,7 +81,7 @@ class SolutionQuality(object):
                 self._solution_size += (log(k, 2)) * bins[k]
 
     def evaluate(self):
-        self._solution_count = self._count_solutions(self._program)
+        self._count_solutions(self._program)
 
         # Change the probabilistic function to one more continous
         self._highest_depth = 0
-- 
2.43.0


From 79a98628b472c552bcff01fe97033f06b328b8c0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 06/19] fix: reserve enough bits to encode the index of any
 candidate

---
 semantic_codec/solution/solution_builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index be581f1..34a718a 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -251,7 +251,8 @@ class ForwardConstraintSolutionBuilder(AbstractForwardConstraintSolutionBuilder)
         :return:
         """
         if index is not None:
-            size = int(log(ln, 2)) if ln > 1 else 0
+            # Bits needed to tell apart the ln candidates
+            size = (ln - 1).bit_length()
             # Compute the size of the solution
             self._solution_size += size
             # Enqueue some bits to the solution
-- 
2.43.0


From 41086d3fac438199590b737e14389777c9b85259 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 07/19] fix: remove also the first group of lost bits

---
 semantic_codec/compressor/shiftcompressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 46366e9..010b67c 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -30,7 +30,7 @@ class ShiftCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             k = r[0] * BitQueue.WORD_SIZE + r[1]
             del a[k:k + self._shift_count]
@@ -53,7 +53,7 @@ class SwapCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             if len(r) > 2:
                 continue
-- 
2.43.0


From 0d5df51d1873471afd456efc969e8ea83d4f735e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 08/19] fix: ignore unreachable predecessors when building the
 dominator tree

---
 semantic_codec/static_analysis/dominators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index ab8e497..42d86f7 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -24,6 +24,9 @@ def build_dominator_tree(graph, root):
     """
     # Initialization
     vertex = dominator_tree_dfs(graph, root, [])
+    # Control can only arrive from the nodes reachable from the root
+    for w in vertex:
+        w.predecessors = [p for p in w.predecessors if p in vertex]
 
     for i in range(len(vertex) - 1, 0, -1):
         w = vertex[i]
-- 
2.43.0


From 49b58e56324715e19cbca25679671c72e66d949e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 09/19] fix: roll back the names a block defined when leaving
 it in the SSA renaming

---
 semantic_codec/static_analysis/ssa.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 6708f3e..efc3620 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -195,16 +195,15 @@ class SSAFormBuilder(object):
                 val.append((var, stack[var][0]))
 
         # Continue the renaming process in the successors
-        for n in n.dom_successors:
-            self._rename_node(n, counter, stack)
+        for s in n.dom_successors:
+            self._rename_node(s, counter, stack)
 
         # Roll back the indexing
         for phi in n.phi_functions:
-            var = phi[0]
-            for inst in n.instructions:
-                if var in inst.storages_written():
-                    stack[var].pop()
-            stack[var].pop()
+            stack[phi[0]].pop(0)
+        for inst in n.instructions:
+            for w in inst.storages_written():
+                stack[w].pop(0)
 
     def _remove_dead_phi(self):
         """
-- 
2.43.0


From 8b4857487459fcc5ba47690dc7da6210375245c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 10/19] fix: a loss that reaches no bit of the program leaves
 it unchanged

---
 semantic_codec/corruption/corruptors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9e452f2..08bd85a 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -85,7 +85,7 @@ class PacketCorruptor(Corruptor):
         errors.sort(key=lambda x: x[0] * vv + x[1])
 
         # Corrupt the program
-        k, tuples, e = 0, [], errors[0]
+        k, tuples, e = 0, [], errors[0] if errors else (0, 0)
         current = e[0]
 
         # Create a nice progress bar. TODO: Factor this out so other widgets can be used as well.
@@ -93,7 +93,7 @@ class PacketCorruptor(Corruptor):
                                        prefix='Corrupting:',
                                        decimals=0, bar_length=50, print_dist=4)
 
-        while k <= len(errors):
+        while len(errors) > 0 and k <= len(errors):
             if current != e[0] or k == len(errors):
                 if len(tuples) != 0 and current < len(addresses):
                     address = addresses[current]
-- 
2.43.0


From f4df415b1223c07e79e0521802747abcc18b3fae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 11/19] fix: do not repeat the candidates of an address when
 predicted losses overlap

---
 semantic_codec/corruption/corruptors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 08bd85a..88df8e0 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -54,12 +54,13 @@ class PacketCorruptor(Corruptor):
         self.corrupted_program_path = save_corrupted_path
 
     def _corrupt_address(self, tuples, address, program):
-        corrupted = []
+        corrupted, encodings = [], set()
         for inst in program[address]:
             for c_inst in corrupt_all_bits_tuples(tuples, inst.encoding):
-                arm_inst = CAPSInstruction(c_inst, program[address][0].address)
-                if not arm_inst in corrupted:
-                    corrupted.append(arm_inst)
+                # Instructions are only equal to themselves, so compare the encodings
+                if c_inst not in encodings:
+                    encodings.add(c_inst)
+                    corrupted.append(CAPSInstruction(c_inst, program[address][0].address))
         program[address] = corrupted
 
     def corrupt(self, program):
-- 
2.43.0


From bab473b023d9ce596f61a6b3824e12e6e6595b32 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 12/19] fix: hide a candidate only once when several of its
 values are exhausted

---
 semantic_codec/solution/solution_builders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index 34a718a..be2b96c 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -61,6 +61,7 @@ class ExactFieldSumConstraint(Constraint):
                             for v in vv:
                                 if not v in exactsum or sum[v] + 1 > exactsum[v]:
                                     domain.hideValue(value)
+                                    break
                     if not domain:
                         return False
         if missing:
-- 
2.43.0


From 05356c563aae0eedc6fd016b85f8179fc8ecfb47 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 13/19] fix: sort the candidates by score also when one of them
 has encoding zero

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index 386c55d..96cc316 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -97,7 +97,7 @@ class SolutionQuality(object):
             for inst in v:
                 if inst.encoding < min_encoding:
                     min_encoding = inst.encoding
-            v.sort(key=lambda x: 0 if min_encoding == 0 else (x.score() * 1000000000 + min_encoding/ x.encoding), reverse=True)
+            v.sort(key=lambda x: x.score() * 1000000000 + (min_encoding / x.encoding if x.encoding != 0 else 1), reverse=True)
             #v.sort(key=lambda x: x.score(), reverse=True)# * 1000000000 + x.encoding / max_encoding, reverse=True)
 
             # Count the depth bin
-- 
2.43.0


From 9d868db999611b71952316fab705237a9a7e9700 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 14/19] fix: evaluate a solution with an address that has no
 candidate left

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index 96cc316..6e5af45 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -110,8 +110,8 @@ class SolutionQuality(object):
             if not ln in self._highest_depth_bin:
                 self._highest_depth_bin[ln] = 0
 
-            r = (i+1) / ln
             if ln > 0:
+                r = (i+1) / ln
                 if r > self._highest_depth_bin[ln]:
                     self._highest_depth_bin[ln] = r
                     max_addr_bin[ln] = addr
-- 
2.43.0


From 44a26bf20b0c1940fd998bee5543ba130bc8399b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 15/19] fix: a branch that changes the condition ends its basic
 block

---
 semantic_codec/static_analysis/cfg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 806d0ca..8905b3d 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -281,7 +281,10 @@ class ARMControlFlowGraph(digraph):
                 #  created node and the last conditional the current inst conditional
                 cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
                 if inst.is_branch:
-                    self._branch_instruction(None, cb, inst, end)
+                    # Only a branch with link comes back. In any case the next instruction starts another block
+                    returns_to = self._branch_instruction(None, cb, inst, end)
+                    cb = returns_to if returns_to is not None else cb
+                    last_cond_field = None
 
         if not r.has_edge((cb, end)):
             r.add_edge((cb, end))
-- 
2.43.0


From e4aa432f6a98cb68ac5e58a7b52eed3d906a1513 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 16/19] fix: give branches forwards the edge to their target

---
 semantic_codec/static_analysis/cfg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 8905b3d..0a77374 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -131,6 +131,8 @@ class ARMControlFlowGraph(digraph):
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
                 r.add_edge((last_conditional, b))
 
+            self._add_multiple_edges(b, self._pending_jumps.get(inst, []))
+
             # There no need for a last conditional node since the last block was not conditionally executed
             return b, None
 
@@ -161,6 +163,7 @@ class ARMControlFlowGraph(digraph):
         # Create the node with the explicit branch
         if branch is None:
             branch = self._add_node(CFGBlock([inst]))
+            self._add_multiple_edges(branch, self._pending_jumps.get(inst, []))
         if cb is not None:
             r.add_edge((cb, branch))
 
@@ -187,7 +190,7 @@ class ARMControlFlowGraph(digraph):
             to_node = self._get_node_with_inst(instruction_to_branch)
             if to_node is None:
                 # the node is not built yet
-                self._add_pending_jump(inst, branch)
+                self._add_pending_jump(instruction_to_branch, branch)
             elif to_node.kind == CFGBlock.COND:
                 # the node is a conditional
                 self.add_edge(branch, to_node)
-- 
2.43.0


From c57e6c97c8d7b0582a8b0d0feb9656709ee86139 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:35:14 +0000
Subject: [PATCH 17/19] fix: score a push whose function ends in an undefined
 instruction

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 38f1bdf..e43047c 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -261,7 +261,7 @@ class ProbabilisticRecuperator(Recuperator):
                                 break
                         if a:
                             reg_equals_inst = True
-        p1 = c / t
+        p1 = c / t if t > 0 else 0
         return p1, reg_equals_inst
 
     def _compute_push_pop(self, inst, cpmd, addr, current_fn):
-- 
2.43.0


From 176b36ee3ad75ad17eb33c632d0e8f1cdd3396d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:35:14 +0000
Subject: [PATCH 18/19] fix: do not exclude an instruction because it has no
 register score

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index e43047c..1587d6a 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -123,7 +123,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
 
     hi = max(pc, po, pr)
     # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From 9131a8c9230ceec41bf5461efb5c75756ce353db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:43:54 +0000
Subject: [PATCH 19/19] fix: keep the target of a decoded branch in the 32-bit
 address space

Capstone reports branch immediates as signed numbers, so a branch to the upper half of the address
space, or one that wraps below zero, got a negative target that no instruction has as its address.
---
 semantic_codec/architecture/capstone_instruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 5fb5176..86ae8f7 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -172,7 +172,7 @@ class CAPSInstruction(Instruction):
             if self._jumping_address is None:
                 for op in self._cap.operands:
                     if op.type == ARM_OP_IMM:
-                        self._jumping_address = op.value.imm
+                        self._jumping_address = op.value.imm & 0xffffffff
                         break
                 # On the other hand, one can compute the jumping address
                 #address = self.encoding & Bits.set(23, 0)
-- 
2.43.0

