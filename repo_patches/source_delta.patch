From bb78c73cec63ef34773f3e44e5c5a7b055de533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 01/81] fix: is_diso_ss checks the whole stack under damage
 tolerance rule 1

---
 src/guidelines/disorientation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/guidelines/disorientation.py b/src/guidelines/disorientation.py
index a2f0763..4f9218c 100644
--- a/src/guidelines/disorientation.py
+++ b/src/guidelines/disorientation.py
@@ -90,6 +90,10 @@ def is_diso_ss(ss, delta_angle, dam_tol=False,
             for ind_ply in range(ss.size - 3):
                 if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
                     return False
+        else:
+            for ind_ply in range(ss.size - 1):
+                if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
+                    return False
         if dam_tol_rule is None and n_plies_dam_tol is None:
             raise Exception('Not enough input arugments!')
     else:
-- 
2.43.0


From e2125a5d83ec9b750396c0228824178109a645e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 02/81] fix: 10% rule of a partial symmetric stack counts its
 middle ply

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index bfe351f..992c503 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -139,7 +139,7 @@ def is_ten_percent_rule(
             percent_135 = 2 * (
                 sum(stack[:stack.size // 2] == -45) + ply_queue.count(-45))
             if stack.size % 2:
-                mid_ply_angle = stack[stack.size % 2]
+                mid_ply_angle = stack[stack.size // 2]
                 if mid_ply_angle == 0:
                     percent_0 += 1
                 if mid_ply_angle == 90:
-- 
2.43.0


From dc834295547f5a7dc0da3eb6d4374e67c184213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 03/81] fix: LAYLA constraints define the attributes the 10%
 rule checks read

---
 src/LAYLA_V02/constraints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index 164c95a..b3f0096 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -63,6 +63,9 @@ Choose either:
         if not isinstance(rule_10_percent, bool):
             raise ConstraintDefinitionError("""
 Attention, rule_10_percent must be a boolean!""")
+        # LAYLA restricts ply percentages only (no restrictions of LPs)
+        self.rule_10_Abdalla = False
+        self.percent_Abdalla = 0
         # set the limit percentages for the 10% rule
         self.set_percentages(
             percent_0, percent_45, percent_90, percent_135, percent_45_135)
-- 
2.43.0


From 1572d67c8ee13a98c63d8a338ebaa99b52f237a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 04/81] fix: 10% rule on ply counts tolerates rounding as it
 does on stacks

---
 src/guidelines/ten_percent_rule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 992c503..660b90b 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -114,11 +114,11 @@ def is_ten_percent_rule(
             percent_45 = n_plies_per_angle[constraints.index45] / n_total
             percent_90 = n_plies_per_angle[constraints.index90] / n_total
             percent_135 = n_plies_per_angle[constraints.index135] / n_total
-            if percent_0 < constraints.percent_0 \
-            or percent_45 < constraints.percent_45 \
-            or percent_90 < constraints.percent_90 \
-            or percent_135 < constraints.percent_135 \
-            or percent_45 + percent_135 < constraints.percent_45_135:
+            if percent_0 + 1e-15 < constraints.percent_0 \
+            or percent_45 + 1e-15 < constraints.percent_45 \
+            or percent_90 + 1e-15 < constraints.percent_90 \
+            or percent_135 + 1e-15 < constraints.percent_135 \
+            or percent_45 + percent_135 + 1e-15 < constraints.percent_45_135:
                 return False
         return True
 
-- 
2.43.0


From 38156cb6673b9d866e85fe9e4a6530e5f639c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/81] fix: orthotropy penalties can be calculated when
 parameters are given

---
 src/guidelines/ipo_oopo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index a398171..fcbdf7d 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -243,8 +243,7 @@ def calc_penalty_ipo_oopo_mp(
     - cummul_sec_mom_areas: sum of the second moments of areas of the plies
     retrieved so far + the current plies
     """
-    if parameters is None:
-        calculate_penalty = True
+    calculate_penalty = True
 
     n_panels = lampam.shape[0]
     penalties_ipo = np.zeros((n_panels,), dtype=float)
-- 
2.43.0


From 3ea020674b3d3b301d626ce756b19f49789ae6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/81] fix: 10% rule penalty of a list of stacks when the rule
 is inactive

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 660b90b..6abab6d 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -235,7 +235,7 @@ def calc_penalty_10_ss(ss, constraints, LPs=None, mp=False):
 
     if not mp:
         return 0
-    return np.zeros((ss.shape[0],))
+    return np.zeros((len(ss),))
 
 
 def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
-- 
2.43.0


From 4c1eee8bfe91878369239c7e0c7428e9e97b226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 07/81] fix: ten_percent_rule imports numpy.matlib, which it
 uses

---
 src/guidelines/ten_percent_rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 6abab6d..f35fead 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -24,6 +24,7 @@ __author__ = 'Noemie Fedon'
 
 import sys
 import numpy as np
+import numpy.matlib
 import math
 
 sys.path.append(r'C:\BELLA')
-- 
2.43.0


From 52823d8dc63f6314a441b30c464b2a780b515d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 08/81] fix: distance to the 10% rule region of Abdalla uses
 the boundary of that region

---
 src/guidelines/ten_percent_rule_Abdalla.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/guidelines/ten_percent_rule_Abdalla.py b/src/guidelines/ten_percent_rule_Abdalla.py
index 2ebb91b..27b38a8 100644
--- a/src/guidelines/ten_percent_rule_Abdalla.py
+++ b/src/guidelines/ten_percent_rule_Abdalla.py
@@ -73,11 +73,11 @@ def calc_distance_Abdalla(LPs, constraints, num=10000):
         and 1 - 4 * constraints.percent_Abdalla - LPs[1] + 1e-15 > 0:
             return 0
 
-        LP1_max = math.sqrt(1 - 4 * constraints.percent_Abdalla)
+        LP1_max = 1 - 4 * constraints.percent_Abdalla
         LP1_min = - LP1_max
 
         def point_parabola_Abdalla(LP1, constraints):
-            LP2 = 2 * (LP1 / (1 - 4 * constraints.percent_Abdalla)) **2 \
+            LP2 = 2 * LP1**2 / (1 - 4 * constraints.percent_Abdalla) \
             - (1 - 4 * constraints.percent_Abdalla)
             return np.array([LP1, LP2])
 
-- 
2.43.0


From c8776caab65544408961690101323609c76a16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 09/81] fix: external_contig filters the second sublaminate as
 the first

---
 src/guidelines/external_contig.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/guidelines/external_contig.py b/src/guidelines/external_contig.py
index b6ba1aa..1ed53e1 100644
--- a/src/guidelines/external_contig.py
+++ b/src/guidelines/external_contig.py
@@ -389,6 +389,7 @@ sublaminate
                             if  angle[ii, 0] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 3:
@@ -401,6 +402,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -414,6 +416,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -428,6 +431,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1]\
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -443,6 +447,7 @@ sublaminate
                             and angle[ii, 4] == ss_before[-1] \
                             and angle[ii, 5] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -458,6 +463,7 @@ sublaminate
                         if  angle[ii, 0] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-2]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 3:
@@ -470,6 +476,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -483,6 +490,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
 
@@ -498,6 +506,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -513,6 +522,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1] \
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -532,6 +542,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 4:
@@ -545,6 +556,7 @@ sublaminate
                             and ss_before[-3] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -559,6 +571,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -574,6 +587,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1]  \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -597,6 +611,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 5:
@@ -611,6 +626,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -626,6 +642,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
                 else:
                     raise Exception(
@@ -652,6 +669,7 @@ sublaminate
                         and ss_before[-2] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 6:
@@ -667,6 +685,7 @@ sublaminate
                             and angle[ii, 0] == ss_before[-5] \
                             and angle[ii, 1] == ss_before[-5]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -698,6 +717,7 @@ sublaminate
                         and angle[ii, 0] == ss_before[-5]  \
                         and ss_before[-6] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 else:
-- 
2.43.0


From 851c2113266d0d7a3d60d621769d5027cba38597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 10/81] fix: contiguity pruning of the innermost ply looks at
 all placed plies

---
 src/BELLA/pruning.py     |  6 +++---
 src/LAYLA_V02/pruning.py | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index b55f88d..04a0b8a 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -179,7 +179,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with no middle ply
             if constraints.sym and not has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -192,7 +192,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with middle ply
             elif constraints.sym and has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -203,7 +203,7 @@ def pruning_diso_contig_damtol(
 
             else: # not symmetric
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index f2faa78..621db97 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -206,11 +206,11 @@ def pruning_diso_contig_damtol(
         and level == targets.n_plies // 2 + targets.n_plies % 2 - 1:
 
             ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
+                max(0, mother_ss_bot.size - constraints.n_contig):]
             if ss_before.size < constraints.n_contig:
                 ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
+                    ss_bot_simp[max(0, ss_bot_simp.size \
+                                    - constraints.n_contig + ss_before.size):],
                     ss_before))
 
             if targets.n_plies % 2 == 0: # no middle ply
@@ -237,11 +237,11 @@ def pruning_diso_contig_damtol(
         elif not constraints.sym and level == targets.n_plies - 1:
 
             ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
+                max(0, mother_ss_bot.size - constraints.n_contig):]
             if ss_before.size < constraints.n_contig:
                 ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
+                    ss_bot_simp[max(0, ss_bot_simp.size \
+                                    - constraints.n_contig + ss_before.size):],
                     ss_before))
 
             ss_after = mother_ss_top[:constraints.n_contig]
-- 
2.43.0


From 52f334475b9a6ce582ee4cb3e3ad8fde59c13b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 11/81] fix: constraints can be created with 0 and 90 deg plies
 only

---
 src/BELLA/constraints.py     | 2 +-
 src/LAYLA_V02/constraints.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 1059678..fa6ae93 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -339,7 +339,7 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
             elem,
             self.ind_angles_dict[elem],
             self.ind_angles_dict[-elem]
-            ] for elem in angles_bal])
+            ] for elem in angles_bal]).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index b3f0096..0f2c18d 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -270,7 +270,8 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
         self.angles_bal = np.array([[
             elem,
             self.ind_angles_dict[elem],
-            self.ind_angles_dict[-elem]] for elem in angles_bal])
+            self.ind_angles_dict[-elem]] for elem in angles_bal]).reshape(
+                (-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From 6eaf76c2ca45da938ef90b9c559191e867f88192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 12/81] fix: covering rule check looks at all the plies it
 rules

---
 src/guidelines/one_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index 789876a..68e12bc 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -81,7 +81,9 @@ def check_ply_drop_rules(reduced_sst, multipanel, constraints, reduced=True):
     reduced = True if the function is applied to the blending strip
     """
     if constraints.covering:
-        if (reduced_sst[:, 0] == -1).any() or (reduced_sst[:, -1] == -1).any():
+        n_cov = constraints.n_covering
+        if (reduced_sst[:, :n_cov] == -1).any() \
+        or (reduced_sst[:, -n_cov:] == -1).any():
             raise Exception("Covering constraint not satisfied")
 
     if  constraints.pdl_spacing:
-- 
2.43.0


From 09c647b28b29fda1e2061de441e55ab993bb0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 13/81] fix: boundary weights given in any panel order and
 equal to zero

---
 src/BELLA/multipanels.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/BELLA/multipanels.py b/src/BELLA/multipanels.py
index 0ba76b4..07dabad 100644
--- a/src/BELLA/multipanels.py
+++ b/src/BELLA/multipanels.py
@@ -182,20 +182,15 @@ The panels of the multipanel-component are not all connected!""")
                 ind_panel1_mod, ind_panel2_mod = sorted((ind_panel1_mod,
                                                          ind_panel2_mod))
                 weight = boundary_weights.get((ind_panel1, ind_panel2), None)
-                if weight:
-                    self.boundary_weights_in_IDs[
-                        (ind_panel1, ind_panel2)] = weight
-                    self.boundary_weights[
-                        (ind_panel1_mod, ind_panel2_mod)] = weight
-                else:
+                if weight is None:
                     weight = boundary_weights.get(
                         (ind_panel2, ind_panel1), None)
-                    if not weight:
+                    if weight is None:
                         raise Exception('Missing boundary weightings.')
-                    self.boundary_weights_in_IDs[
-                        (ind_panel2, ind_panel1)] = weight
-                    self.boundary_weights[
-                        (ind_panel2_mod, ind_panel1_mod)] = weight
+                self.boundary_weights_in_IDs[
+                    (ind_panel1, ind_panel2)] = weight
+                self.boundary_weights[
+                    (ind_panel1_mod, ind_panel2_mod)] = weight
 
         else:  # all boundary weightings set to one
             for ind_panel1, ind_panel2 in self.boundaries_in_IDs:
-- 
2.43.0


From 03f454e72093e518cc87d235abad0f8dd45ff465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 14/81] fix: weightings of the blending strip aggregate those
 of all panels

---
 src/BELLA/reduced_multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/reduced_multipanels.py b/src/BELLA/reduced_multipanels.py
index c5dfcf1..40b5d17 100644
--- a/src/BELLA/reduced_multipanels.py
+++ b/src/BELLA/reduced_multipanels.py
@@ -158,7 +158,7 @@ The panel ply counts are not compatible with guide-based blending (middle ply)""
         parameters are aggregated
         """
         self.actual_panel_weightings = np.zeros((self.n_panels,))
-        for ind_panel, panel in enumerate(self.panels):
+        for ind_panel, panel in enumerate(multipanel.panels):
             self.actual_panel_weightings[
                 self.ind_panels_guide[ind_panel]] += panel.weighting
 
-- 
2.43.0


From 89f4cfe4657e4312a74baaa53fc829db22a5617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 15/81] fix: all ply moduli must be positive, default volumic
 density not zero

---
 src/BELLA/materials.py     | 6 +++---
 src/LAYLA_V02/materials.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index a467770..c7f426a 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index a467770..c7f426a 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
-- 
2.43.0


From 768ea2c924a5494de10622cf485a2db2ffb06800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 16/81] fix: in-plane orthotropy penalty of LAYLA keeps the
 weighting of V11

---
 src/LAYLA_V02/parameters.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index 93d4f32..6ca2b7a 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -344,7 +344,6 @@ Attention, the elements of lampam_to_be_optimised must be either 0 or 1!
         elif constraints.ipo and self.penalty_ipo_switch:
             if set(constraints.set_of_angles) == set([0, 45, -45, 90]):
                 sensitivities[2] = s*coeff_bal_ipo
-                sensitivities[10] = s*coeff_oopo
             else:
                 sensitivities[2] = s*coeff_bal_ipo
                 sensitivities[3] = s*coeff_bal_ipo
-- 
2.43.0


From 01d844c28c3ee33a05b8fa6d14dd8c7c69a0c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 17/81] fix: panels validate their weightings and filter
 integer ones as real numbers

---
 src/BELLA/panels.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index d490fd7..8588de3 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -105,9 +105,8 @@ The panel weighting in the multi-panel objective function must be positive!
 """)
 
         # lamination-parameter weightings in panel objective function
-        if not(isinstance(lampam_weightings, np.ndarray)) \
-        and lampam_weightings.size == 12 \
-        and lampam_weightings.dtype == float:
+        if not isinstance(lampam_weightings, np.ndarray) \
+        or lampam_weightings.size != 12:
             raise PanelDefinitionError("""
 Attention, lampam_weightings must be a vector with 12 float components!
 """)
@@ -148,7 +147,7 @@ Attention, the elements of lampam_weightings must be positive!
         lampam_weightings: for all other blending steps (contain penalty for
             out-of-plane orthotropy and does not contain penalty for balance)
         """
-        lampam_weightings = np.copy(self.lampam_weightings_ini)
+        lampam_weightings = np.array(self.lampam_weightings_ini, float)
 
         # filter for zero lamination parameters factors
         if constraints.sym:
-- 
2.43.0


From a42003e1f3ec534c890c73321cf0552e30310c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 18/81] fix: first plies of the thickest panel's groups come
 after its covering plies

---
 src/BELLA/divide_panels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index 38a4807..878a964 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -231,7 +231,8 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
     # number of plies per group for thickest laminates
     multipanel.reduced.n_plies_per_group = n_plies_in_groups
     # position of the group first plies for thickest laminates
-    multipanel.reduced.n_first_plies = pos_first_ply_groups
+    multipanel.reduced.n_first_plies = \
+    pos_first_ply_groups + constraints.n_covering
     # number of groups
     multipanel.reduced.n_groups = n_groups
     # percent_ of the laminate thickness associated to each group
-- 
2.43.0


From cec0f436d82a4ec612fad10b8152956dfbdb9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 19/81] fix: the middle ply of a ply-drop layout covers the
 panels that have one

---
 src/BELLA/pdl_group.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index d7f2f94..c50997d 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -167,14 +167,6 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
-        if last_group and has_middle_ply:
-            middle = -(middle_ply_indices[:-1] != 0).astype(int)
-#            print('middle', middle)
-            middle = middle.reshape((new_pdl.shape[0], 1))
-#            print('middle', middle)
-            new_pdl = np.hstack((new_pdl, middle))
-
-
         # Formatting the ply drop layout so that a ply drop scheme is
         # associated to each panel boundary
         new_pdl = ply_drops_at_each_boundaries(
@@ -183,6 +175,14 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
+        # the middle ply only covers the panels that have one
+        if last_group and has_middle_ply:
+            middle = np.where(np.array(middle_ply_indices) == 0, -1, n_max)
+#            print('middle', middle)
+            middle = middle.reshape((new_pdl.shape[0], 1))
+#            print('middle', middle)
+            new_pdl = np.hstack((new_pdl, middle))
+
         # Application ply drop spacing and stacking rules:
         #   - Ply drops should be separated by at least min_drop plies
 
-- 
2.43.0


From 09dc1e94a30539297fefc0935bb13d3a8d060c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 20/81] fix: a better imperfect ply-drop layout replaces the
 worst one kept

---
 src/BELLA/pdl_group.py | 2 +-
 src/BELLA/pdl_ini.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index c50997d..5fac0b7 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -250,7 +250,7 @@ def randomly_pdl_guide(
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_spacing_imperfect)
+                    indexx = np.argmax(p_spacing_imperfect)
                     pdl_imperfect[indexx] = new_pdl
                     p_spacing_imperfect[indexx] = p_spacing
             else:
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index a4b7142..122b56c 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -160,7 +160,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_pdls_imperfect)
+                    indexx = np.argmax(p_pdls_imperfect)
                     pdls_imperfect[indexx] = new_pdl
                     p_pdls_imperfect[indexx] = new_penalty_spacing
             else:
-- 
2.43.0


From 5f9207457229afe401dafa20bc9b0f5e302f5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 21/81] fix: at the time limit, only the ply-drop layouts found
 are returned, once each

---
 src/BELLA/optimiser.py | 5 +++--
 src/BELLA/pdl_group.py | 5 +++--
 src/BELLA/pdl_ini.py   | 7 ++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index b8d152e..4146b0e 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -72,11 +72,12 @@ def BELLA_optimiser(
     else:
         # read initial ply-drop layouts
         pdls_ini = read_pdls_excel(filename_initial_pdls)
-        # number of initial ply drops to be tested
-        parameters.n_ini_ply_drops = len(pdls_ini)
         # check the correct number of plies and panels in the ply drop layouts
         check_pdls_ini(multipanel, pdls_ini)
 
+    # number of initial ply drops to be tested
+    parameters.n_ini_ply_drops = len(pdls_ini)
+
     ### preparation of the step 3 of BELLA
 
     # division of the plies of the panels into one ply group
diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index 5fac0b7..7755524 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -291,11 +291,12 @@ Too many ply drops between two adjacent panels.""")
 
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, n_pdl_max):
+        n_pdl = min(n_pdl, ind_perfect + ind_imperfect)
+        for ind in range(ind_perfect, n_pdl):
             indexx = np.argmin(p_spacing_imperfect)
             pdl_perfect[ind] = pdl_imperfect[indexx]
             p_spacing_imperfect[indexx] = 10e6
 
-        return pdl_perfect
+        return pdl_perfect[:n_pdl]
     # if enough manufacturable ply drop layouts have been found
     return pdl_perfect
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 122b56c..506ef7f 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -194,17 +194,18 @@ No conform ply drop layout can be generated.
 Too many ply drops between two adjacent panels.""")
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, parameters.n_ini_ply_drops):
+        n_pdls = min(parameters.n_ini_ply_drops, ind_perfect + ind_imperfect)
+        for ind in range(ind_perfect, n_pdls):
             indexx = np.argmin(p_pdls_imperfect)
             pdls_perfect[ind] = pdls_imperfect[indexx]
             p_pdls_imperfect[indexx] = 10e6
 
         print('    ' + str(ind_perfect) \
           + ' feasible intial ply-drop layouts generated.')
-        print('    ' + str(parameters.n_ini_ply_drops - ind_perfect) \
+        print('    ' + str(n_pdls - ind_perfect) \
           + ' infeasible intial ply-drop layouts generated.')
 
-        return pdls_perfect
+        return pdls_perfect[:n_pdls]
 
     # if enough manufacturable ply drop layouts have been found
     print('    ' + str(parameters.n_ini_ply_drops) \
-- 
2.43.0


From 0427ae856556492bc6479e7e5882e59707339548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 22/81] fix: pdl_tools imports numpy.matlib, which it uses

---
 src/BELLA/pdl_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index adea881..5100c79 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -29,6 +29,7 @@ Guidelines:
 """
 import sys
 import numpy as np
+import numpy.matlib
 
 sys.path.append(r'C:\BELLA')
 from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss
-- 
2.43.0


From 7a96071b70e54dc09bae7f5cf0d9b73244948443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 23/81] fix: the last initial ply-drop layout of a file is read
 once

---
 src/BELLA/pdl_ini.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 506ef7f..42f5e44 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -50,13 +50,12 @@ def read_pdls_excel(filename):
             pdl = pd.read_excel(
                 filename, sheet_name='pdl' + str(ind_pdl), dtype='int',
                 header=None, )
-        except:
+        except ValueError:
+            # no more sheet
             break
-        finally:
-            ind_pdl += 1
-            pdls.append(np.array(pdl))
-    ind_pdl -= 2
-    print('    ' + str(ind_pdl) + ' intial ply-drop layouts read.')
+        ind_pdl += 1
+        pdls.append(np.array(pdl))
+    print('    ' + str(len(pdls)) + ' intial ply-drop layouts read.')
     return pdls
 
 
-- 
2.43.0


From d7b677dd1faf12aea71d34b304ac9d460fcd7afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 24/81] fix: ply-drop layout of a symmetric stacking sequence
 table with a middle ply

---
 src/BELLA/pdl_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index 5100c79..db3a6f9 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -263,6 +263,8 @@ def input_pdl_from_sst(sst, multipanel, constraints):
     sst_to_mod = np.copy(sst)
 
     if constraints.sym:
+        # number of columns up to the mid-plane, middle ply included
+        n_half = sst.shape[1] // 2 + sst.shape[1] % 2
         pdl_before_cummul = [None] * 2
         for index_pdl in range(len(pdl_before_cummul)):
             pdl_before_cummul[index_pdl] = None
@@ -270,13 +272,13 @@ def input_pdl_from_sst(sst, multipanel, constraints):
         if constraints.n_covering == 1:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 1:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 1:n_half]
         elif constraints.n_covering == 2:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0, 1], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 2:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 2:n_half]
         else:
-            sst_to_mod = sst_to_mod[:, :sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, :n_half]
 
         for ind_panel in range(sst_to_mod.shape[0]):
             counter = 0
-- 
2.43.0


From 33d90aaa106a9dc097d8f83e376033dc151cced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 25/81] fix: ply-drop spacing penalty of a group of one ply is
 not left out

---
 src/guidelines/ply_drop_spacing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/ply_drop_spacing.py b/src/guidelines/ply_drop_spacing.py
index d8fdd5e..18db612 100644
--- a/src/guidelines/ply_drop_spacing.py
+++ b/src/guidelines/ply_drop_spacing.py
@@ -53,8 +53,10 @@ def calc_penalty_spacing(
 
         for ind_panel1, ind_panel2 in multipanel.reduced.boundaries:
 
+            # panels not designed yet
             if pdl[ind_panel1] is None or pdl[ind_panel2] is None \
-            or pdl[ind_panel1].size == 1 or pdl[ind_panel2].size == 1:
+            or np.ndim(pdl[ind_panel1]) == 0 \
+            or np.ndim(pdl[ind_panel2]) == 0:
                 continue
 
             # stack the ply drop layouts before/current/after
-- 
2.43.0


From 8377421949245018e9876ec642d23b2f541296e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 26/81] fix: ply-drop spacing penalty where no ply covers a
 boundary

---
 src/guidelines/ply_drop_spacing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/guidelines/ply_drop_spacing.py b/src/guidelines/ply_drop_spacing.py
index 18db612..5a8e89d 100644
--- a/src/guidelines/ply_drop_spacing.py
+++ b/src/guidelines/ply_drop_spacing.py
@@ -133,6 +133,9 @@ def calc_penalty_spacing_1ss(ss, min_drop):
     - min_drop: minimum number of continuous plies required between two block
     of dropped plies
     """
+    if ss.size == 0:
+        # no ply covers any of the two panels
+        return 0
     penal = 0
     # indentify index of the successive -1 elements in the array
     index1 = 0
-- 
2.43.0


From da20f82cc7f3133c0494a4d463f5fe1adc4bdeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 27/81] fix: buckling_factor uses the second out-of-plane
 lamination parameter in D66

---
 src/buckling/buckling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buckling/buckling.py b/src/buckling/buckling.py
index aae1013..c9ba6a0 100644
--- a/src/buckling/buckling.py
+++ b/src/buckling/buckling.py
@@ -79,7 +79,7 @@ def buckling_factor(
         D11 = a * (mat.U1 + mat.U2*lampam[0] + mat.U3*lampam[1])
         D12 = a *(-mat.U3*lampam[1] + mat.U4)
         D22 = a *(mat.U1 - mat.U2*lampam[0] + mat.U3*lampam[1])
-        D66 = a *(-mat.U3*lampam[0] + mat.U5)
+        D66 = a *(-mat.U3*lampam[1] + mat.U5)
     for mode_m in range(n_modes):
         for mode_n in range(n_modes):
             buck[mode_m, mode_n] = buckling_factor_m_n(
-- 
2.43.0


From 191246df4e74e4540bc08d13e1a5fcfa9f0d7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 28/81] fix: repair for the 10% rule and balance counts the
 middle ply of symmetric laminates

---
 src/RELAY/repair_10_bal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 90b1f7a..bceced5 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -354,6 +354,11 @@ def repair_10_bal_2(ss_ini, mini_10, constraints):
         ind_plies[1::2] = beginning
 #    print('ind_plies', list(ind_plies))
 
+    if constraints.sym and ss.size % 2:
+        # the middle ply counts as half a ply in half a laminate
+        mini_10 = np.copy(mini_10)
+        mini_10[0 if ss[ss.size // 2] == 0 else 1] -= 1/2
+
     ply_queue = []
     if constraints.rule_10_percent:
         for elem in range(ma.ceil(mini_10[0])):
-- 
2.43.0


From 44fa2a253c0ce4b9af4eedd28c87c7a1c802952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 29/81] fix: repair for the 10% rule of Abdalla stops when no
 change of plies improves the laminate

---
 src/RELAY/repair_10_bal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index bceced5..fef0b3a 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -83,7 +83,7 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 
 
-    while dist_10 > 1e-10:
+    while np.min(dist_10_options) + 1e-20 < dist_10 and dist_10 > 1e-10:
 #        print('dist_10', dist_10)
 #        print('dist_10_options', dist_10_options)
 
@@ -267,7 +267,7 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 #    print('dist_10_options', dist_10_options)
 
-    while dist_10 > 1e-10:
+    while np.min(dist_10_options) + 1e-20 < dist_10 and dist_10 > 1e-10:
         # attempts at modifying a couple of angled plies
         ind_angle1, ind_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
-- 
2.43.0


From 0a2238a0f7fc3ddc313957e7d1d4c17ca6785845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 30/81] fix: repair for membrane properties modifies no ply
 outside the inner p_A % of the laminate

---
 src/RELAY/repair_10_bal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index fef0b3a..87b5d60 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -561,8 +561,7 @@ def calc_ind_plies(ss, n_plies, ply_queue, constraints, p_A=100):
         inner part of laminate representing p_A %
         of the overall laminate thickness.
     """
-    ind_min = ma.floor(
-        (1 - p_A/100)*(n_plies/2))
+    ind_min = ma.floor((100 - p_A)*n_plies/200)
 #    print('ind_min', ind_min)
     if constraints.sym:
         if constraints.dam_tol:
-- 
2.43.0


From 14f32b9684916f9dcf5bdd9259a6296f9f7778d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 31/81] fix: repair for membrane properties imports the
 functions it uses (every repair raised NameError)

---
 src/RELAY/repair_membrane_1_ipo.py    | 1 +
 src/RELAY/repair_membrane_1_no_ipo.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index aa88414..2bc48af 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -23,6 +23,7 @@ from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_membrane_1_no_ipo import calc_excess_10
 from src.RELAY.repair_10_bal import calc_ind_plies
 from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_1
 from src.guidelines.ten_percent_rule import is_ten_percent_rule
 
 def repair_membrane_1_ipo(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 8094363..3bcdfb5 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -22,6 +22,9 @@ from src.LAYLA_V02.constraints import Constraints
 from src.divers.pretty_print import print_ss
 from src.CLA.lampam_functions import calc_lampam
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import calc_ind_plies
+from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_3
 from src.RELAY.repair_tools import RepairError
 
 def repair_membrane_1_no_ipo(
-- 
2.43.0


From 8b8faa59850610189aefaf9c388fbfe09c96d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 32/81] fix: lamination parameters returned with the unrepaired
 laminate are its own

---
 src/RELAY/repair_membrane_1_ipo.py            | 2 +-
 src/RELAY/repair_membrane_1_ipo_Abdalla.py    | 2 +-
 src/RELAY/repair_membrane_1_no_ipo.py         | 2 +-
 src/RELAY/repair_membrane_1_no_ipo_Abdalla.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 2bc48af..15cd71b 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -79,7 +79,7 @@ def repair_membrane_1_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 9f07780..d0fbfb1 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -63,7 +63,7 @@ def repair_membrane_1_ipo_Abdalla(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     indices_1, indices_per_angle = calc_ind_plies(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 3bcdfb5..a19db8f 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -68,7 +68,7 @@ def repair_membrane_1_no_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
index a44095b..4953861 100644
--- a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
@@ -51,7 +51,7 @@ def repair_membrane_1_no_ipo_Abdalla(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     indices_1, indices_per_angle = calc_ind_plies(
-- 
2.43.0


From 229377f1d24c60095a22ce5f3f6fbf4ffd3d9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 33/81] fix: repair for membrane properties rejects the change
 that breaks the 10% rule of Abdalla (endless loop or IndexError)

---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index d0fbfb1..6b87e69 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -113,7 +113,7 @@ def repair_membrane_1_ipo_Abdalla(
         LPs = lampamA + lampamA_options[ind_pos_angle2] - lampamA_options[
             ind_pos_angle1]
         if calc_distance_Abdalla(LPs, constraints) > 1e-10:
-            objA_options[ind_angle1, ind_angle2] = 1e10
+            objA_options[ind_pos_angle1, ind_pos_angle2] = 1e10
             continue
 
 #        print('objA_options after clean', objA_options)
-- 
2.43.0


From df224cd493956c7e473af1aa05d3a66bb4ed1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 34/81] fix: repair for membrane properties keeps the 10% rule
 for the combined +-45 plies of laminates not balanced

---
 src/RELAY/repair_membrane_1_no_ipo.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index a19db8f..056cba4 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -116,12 +116,20 @@ def repair_membrane_1_no_ipo(
             if excess_10[2] < 1:
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
+            if angle2 != -45 and excess_10[4] < 1:
+                objA_options[ind_angle1, ind_angle2] = 1e10
+                continue
             excess_10[2] -= 1
+            excess_10[4] -= 1
         elif angle1 == -45:
             if excess_10[3] < 1:
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
+            if angle2 != 45 and excess_10[4] < 1:
+                objA_options[ind_angle1, ind_angle2] = 1e10
+                continue
             excess_10[3] -= 1
+            excess_10[4] -= 1
 
 #        print(angle1, ' plies changed into ', angle2, 'plies')
 #        print('ind_angle1', ind_angle1, 'ind_angle2', ind_angle2)
@@ -134,8 +142,10 @@ def repair_membrane_1_no_ipo(
             excess_10[1] += 1
         elif angle2 == 45:
             excess_10[2] += 1
+            excess_10[4] += 1
         elif angle2 == -45:
             excess_10[3] += 1
+            excess_10[4] += 1
 
         lampamA += lampamA_options[ind_angle2] - lampamA_options[ind_angle1]
         objA = objA_options[ind_angle1, ind_angle2]
-- 
2.43.0


From db07005a77f8ede4e15b55446f39ae9d91e70e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 35/81] fix: repair for disorientation and contiguity checks
 all the plies next to the last permuted plies of symmetric laminates

---
 src/RELAY/repair_from_outside_sym.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index 394d164..9a88b09 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -67,7 +67,7 @@ def repair_diso_contig_from_outside_sym(
                     and constraints.dam_tol_rule in {2, 3}:
                         mini = max(1,
                                    stack_test.size - constraints.n_contig - 1)
-                    if not hasattr(constraints, 'dam_tol_rule') and \
+                    elif not hasattr(constraints, 'dam_tol_rule') and \
                     constraints.n_plies_dam_tol == 2:
                         mini = max(1,
                                    stack_test.size - constraints.n_contig - 1)
@@ -102,7 +102,7 @@ def repair_diso_contig_from_outside_sym(
                         and constraints.dam_tol_rule in {2, 3}:
                             mini = max(1,
                                        stack_test.size - constraints.n_contig - 1)
-                        if not hasattr(constraints, 'dam_tol_rule') and \
+                        elif not hasattr(constraints, 'dam_tol_rule') and \
                         constraints.n_plies_dam_tol == 2:
                             mini = max(1,
                                        stack_test.size - constraints.n_contig - 1)
@@ -159,14 +159,14 @@ def repair_diso_contig_from_outside_sym(
     if constraints.dam_tol:
         if hasattr(constraints, 'dam_tol_rule') \
         and constraints.dam_tol_rule in {2, 3}:
-            mini = max(1, stack.size - real_n_D1 - 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
+            mini = 1
+        elif not hasattr(constraints, 'dam_tol_rule') and \
         constraints.n_plies_dam_tol == 2:
-            mini = max(1, stack.size - real_n_D1 - 1)
+            mini = 1
         else:
-            mini = max(0, stack.size - real_n_D1 - 1)
+            mini = 0
     else:
-        mini = max(0, stack.size - real_n_D1 - 1)
+        mini = 0
 
     for elem in itertools.permutations(
         range(real_n_D1)):
@@ -176,11 +176,11 @@ def repair_diso_contig_from_outside_sym(
         if ss.size % 2:
             stack_test = np.hstack((
                 stack_test, ss[ss.size // 2],
-                np.flip(stack_test[-real_n_D1:])))
+                np.flip(stack_test)))
         else:
             stack_test = np.hstack((
                 stack_test,
-                np.flip(stack_test[-real_n_D1:])))
+                np.flip(stack_test)))
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
-- 
2.43.0


From 8c74ecf41118f301a9fbd412c07e9053a313924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 36/81] fix: repair for disorientation and contiguity checks
 all the plies next to the last permuted plies of laminates not symmetric

---
 src/RELAY/repair_from_outside_asym.py | 41 +++++++++++++--------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index eb35f68..c322e96 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -44,6 +44,18 @@ def repair_diso_contig_from_outside_asym(
 #    print('ind_1', ind_1)
 #    print('ind_2', ind_2)
 
+    if constraints.dam_tol:
+        if hasattr(constraints, 'dam_tol_rule') \
+        and constraints.dam_tol_rule in {2, 3}:
+            mini = 1
+        elif not hasattr(constraints, 'dam_tol_rule') and \
+        constraints.n_plies_dam_tol == 2:
+            mini = 1
+        else:
+            mini = 0
+    else:
+        mini = 0
+
     ind_step = -1
     for ind_step, ind_ply_1 in enumerate(ind_1):
         ind_2_mod = modify_indices(ind_2, ind_ply_1, bottom=ind_step % 2 == 0)
@@ -64,7 +76,7 @@ def repair_diso_contig_from_outside_asym(
                             constraints.delta_angle):
                         continue
                     if constraints.contig and not is_contig(
-                            stack_test[:2*constraints.n_contig],
+                            stack_test[:stack_test.size - mini],
                             constraints.n_contig):
                         continue
                     stack_bottom = stack_test
@@ -78,7 +90,7 @@ def repair_diso_contig_from_outside_asym(
                             constraints.delta_angle):
                         continue
                     if constraints.contig and not is_contig(
-                            stack_test[-2*constraints.n_contig:],
+                            stack_test[mini:],
                             constraints.n_contig):
                         continue
                     stack_top = stack_test
@@ -101,7 +113,7 @@ def repair_diso_contig_from_outside_asym(
                                 constraints.delta_angle):
                             continue
                         if constraints.contig and not is_contig(
-                                stack_test[:2*constraints.n_contig],
+                                stack_test[:stack_test.size - mini],
                                 constraints.n_contig):
                             continue
                         stack_bottom = stack_test
@@ -123,7 +135,7 @@ def repair_diso_contig_from_outside_asym(
                                 constraints.delta_angle):
                             continue
                         if constraints.contig and not is_contig(
-                                stack_test[-2*constraints.n_contig:],
+                                stack_test[mini:],
                                 constraints.n_contig):
                             continue
                         stack_top = stack_test
@@ -159,6 +171,7 @@ def repair_diso_contig_from_outside_asym(
 #    print_ss(stack_top)
 
     # plies at the centre all designed simultaneously
+    ind_2 = np.sort(ind_2)
     good_permut = []
     real_n_D1 = ind_2.size
     remaining_plies = np.empty((real_n_D1,), int)
@@ -170,29 +183,13 @@ def repair_diso_contig_from_outside_asym(
 #    print('remaining_plies', remaining_plies)
 
 
-    if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule') \
-        and constraints.dam_tol_rule in {2, 3}:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
-        constraints.n_plies_dam_tol == 2:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        else:
-            mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size, real_n_D1 + 1)
-    else:
-        mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-        mini_top = min(stack_bottom.size, real_n_D1 + 1)
-
-    ind_2 = np.sort(ind_2)
     for elem in itertools.permutations(
         range(real_n_D1)):
 #        print('elem', elem)
         ss_group = remaining_plies[np.array(elem, int)]
         stack_test = np.hstack((
-            stack_top[mini_bottom:], ss_group, stack_bottom[:mini_top]))
+            stack_top[mini:], ss_group,
+            stack_bottom[:stack_bottom.size - mini]))
 #        print('stack_test', stack_test)
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
-- 
2.43.0


From 709cf044f89cc22541a825a5042484b2ec623e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 37/81] fix: outward repair of laminates not symmetric checks
 the whole laminate

---
 src/RELAY/repair_from_inside_asym.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/RELAY/repair_from_inside_asym.py b/src/RELAY/repair_from_inside_asym.py
index 4aaff64..f314098 100644
--- a/src/RELAY/repair_from_inside_asym.py
+++ b/src/RELAY/repair_from_inside_asym.py
@@ -188,24 +188,12 @@ def repair_diso_contig_from_inside_asym(
                 stack,
                 ss_group[real_n_D1//2:]))
 #        print('stack_test', stack_test)
-        stack_test_1 = stack_test[
-            :3 + real_n_D1 + constraints.n_contig]
         if constraints.diso and not is_diso_ss(
-                stack_test_1, constraints.delta_angle, dam_tol=False):
+                stack_test, constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
-                stack_test_1, constraints.n_contig_c):
+                stack_test, constraints.n_contig_c):
             continue
-        number = stack_test.size - 4 - real_n_D1 \
-        - constraints.n_contig
-        if number > 0:
-            stack_test_2 = stack_test[number:]
-            if constraints.diso and not is_diso_ss(
-                    stack_test_2, constraints.delta_angle, dam_tol=False):
-                continue
-            if constraints.contig and not is_contig(
-                    stack_test_2, constraints.n_contig_c):
-                continue
         good_permut.append(np.array(elem, int))
 #    print('good_permut', good_permut)
 
-- 
2.43.0


From 96016146f37e8b42104a3d247f72f4ecafffbdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 38/81] fix: repair for disorientation and contiguity checks
 the contiguity of the outermost plies too

---
 src/RELAY/repair_from_inside_asym.py  | 23 +++++++--------
 src/RELAY/repair_from_inside_sym.py   | 12 ++++----
 src/RELAY/repair_from_outside_asym.py | 40 +++++++++++++--------------
 src/RELAY/repair_from_outside_sym.py  | 35 ++++-------------------
 4 files changed, 39 insertions(+), 71 deletions(-)

diff --git a/src/RELAY/repair_from_inside_asym.py b/src/RELAY/repair_from_inside_asym.py
index f314098..6defb6b 100644
--- a/src/RELAY/repair_from_inside_asym.py
+++ b/src/RELAY/repair_from_inside_asym.py
@@ -175,21 +175,18 @@ def repair_diso_contig_from_inside_asym(
         range(real_n_D1)):
 #        print('elem', elem)
         ss_group = remaining_plies[np.array(elem, int)]
-        if constraints.dam_tol:
-            stack_test = np.hstack((
-                stack_top[-1],
-                ss_group[:real_n_D1//2],
-                stack,
-                ss_group[real_n_D1//2:],
-                stack_bottom[0]))
-        else:
-            stack_test = np.hstack((
-                ss_group[:real_n_D1//2],
-                stack,
-                ss_group[real_n_D1//2:]))
+        stack_test = np.hstack((
+            stack_top,
+            ss_group[:real_n_D1//2],
+            stack,
+            ss_group[real_n_D1//2:],
+            stack_bottom)).astype(int)
 #        print('stack_test', stack_test)
+        # disorientation not checked between the plies kept for damage tolerance
+        mini = max(0, stack_top.size - 1)
         if constraints.diso and not is_diso_ss(
-                stack_test, constraints.delta_angle, dam_tol=False):
+                stack_test[mini:stack_test.size - mini],
+                constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
diff --git a/src/RELAY/repair_from_inside_sym.py b/src/RELAY/repair_from_inside_sym.py
index ee50bc0..b55931a 100644
--- a/src/RELAY/repair_from_inside_sym.py
+++ b/src/RELAY/repair_from_inside_sym.py
@@ -126,16 +126,14 @@ def repair_diso_contig_from_inside_sym(
     for elem in itertools.permutations(
         range(real_n_D1)):
         ss_group = remaining_plies[np.array(elem, int)]
-        if constraints.dam_tol:
-            stack_test = np.hstack((stack_dam_tol[-1], ss_group))
-        else:
-            stack_test = ss_group
+        stack_test = np.hstack((stack_dam_tol, ss_group)).astype(int)
         stack_test = np.hstack((stack_test, stack, np.flip(stack_test)))
-        stack_test = stack_test[:2 + 2 * constraints.n_contig \
-                                + real_n_D1]
 #        print('stack_test', stack_test)
+        # disorientation not checked between the plies kept for damage tolerance
+        mini = max(0, stack_dam_tol.size - 1)
         if constraints.diso and not is_diso_ss(
-                stack_test, constraints.delta_angle, dam_tol=False):
+                stack_test[mini:stack_test.size - mini],
+                constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index c322e96..99c04bc 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -44,18 +44,6 @@ def repair_diso_contig_from_outside_asym(
 #    print('ind_1', ind_1)
 #    print('ind_2', ind_2)
 
-    if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule') \
-        and constraints.dam_tol_rule in {2, 3}:
-            mini = 1
-        elif not hasattr(constraints, 'dam_tol_rule') and \
-        constraints.n_plies_dam_tol == 2:
-            mini = 1
-        else:
-            mini = 0
-    else:
-        mini = 0
-
     ind_step = -1
     for ind_step, ind_ply_1 in enumerate(ind_1):
         ind_2_mod = modify_indices(ind_2, ind_ply_1, bottom=ind_step % 2 == 0)
@@ -76,7 +64,7 @@ def repair_diso_contig_from_outside_asym(
                             constraints.delta_angle):
                         continue
                     if constraints.contig and not is_contig(
-                            stack_test[:stack_test.size - mini],
+                            stack_test,
                             constraints.n_contig):
                         continue
                     stack_bottom = stack_test
@@ -90,7 +78,7 @@ def repair_diso_contig_from_outside_asym(
                             constraints.delta_angle):
                         continue
                     if constraints.contig and not is_contig(
-                            stack_test[mini:],
+                            stack_test,
                             constraints.n_contig):
                         continue
                     stack_top = stack_test
@@ -113,7 +101,7 @@ def repair_diso_contig_from_outside_asym(
                                 constraints.delta_angle):
                             continue
                         if constraints.contig and not is_contig(
-                                stack_test[:stack_test.size - mini],
+                                stack_test,
                                 constraints.n_contig):
                             continue
                         stack_bottom = stack_test
@@ -135,7 +123,7 @@ def repair_diso_contig_from_outside_asym(
                                 constraints.delta_angle):
                             continue
                         if constraints.contig and not is_contig(
-                                stack_test[mini:],
+                                stack_test,
                                 constraints.n_contig):
                             continue
                         stack_top = stack_test
@@ -183,16 +171,26 @@ def repair_diso_contig_from_outside_asym(
 #    print('remaining_plies', remaining_plies)
 
 
+    if constraints.dam_tol:
+        if hasattr(constraints, 'dam_tol_rule') \
+        and constraints.dam_tol_rule in {2, 3}:
+            mini = 1
+        elif not hasattr(constraints, 'dam_tol_rule') and \
+        constraints.n_plies_dam_tol == 2:
+            mini = 1
+        else:
+            mini = 0
+    else:
+        mini = 0
+
     for elem in itertools.permutations(
         range(real_n_D1)):
 #        print('elem', elem)
         ss_group = remaining_plies[np.array(elem, int)]
-        stack_test = np.hstack((
-            stack_top[mini:], ss_group,
-            stack_bottom[:stack_bottom.size - mini]))
-#        print('stack_test', stack_test)
+        stack_test = np.hstack((stack_top, ss_group, stack_bottom))
         if constraints.diso and not is_diso_ss(
-                stack_test, constraints.delta_angle, dam_tol=False):
+                stack_test[mini:stack_test.size - mini],
+                constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index 9a88b09..f6cf1df 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -62,20 +62,7 @@ def repair_diso_contig_from_outside_sym(
                         constraints.delta_angle):
                     continue
 
-                if constraints.dam_tol:
-                    if hasattr(constraints, 'dam_tol_rule') \
-                    and constraints.dam_tol_rule in {2, 3}:
-                        mini = max(1,
-                                   stack_test.size - constraints.n_contig - 1)
-                    elif not hasattr(constraints, 'dam_tol_rule') and \
-                    constraints.n_plies_dam_tol == 2:
-                        mini = max(1,
-                                   stack_test.size - constraints.n_contig - 1)
-                    else:
-                        mini = max(0,
-                                   stack_test.size - constraints.n_contig - 1)
-                else:
-                    mini = max(0, stack_test.size - constraints.n_contig - 1)
+                mini = max(0, stack_test.size - constraints.n_contig - 1)
 
                 if constraints.contig and not is_contig(
                         stack_test[mini:], constraints.n_contig):
@@ -97,20 +84,7 @@ def repair_diso_contig_from_outside_sym(
                             constraints.delta_angle):
                         continue
 
-                    if constraints.dam_tol:
-                        if hasattr(constraints, 'dam_tol_rule') \
-                        and constraints.dam_tol_rule in {2, 3}:
-                            mini = max(1,
-                                       stack_test.size - constraints.n_contig - 1)
-                        elif not hasattr(constraints, 'dam_tol_rule') and \
-                        constraints.n_plies_dam_tol == 2:
-                            mini = max(1,
-                                       stack_test.size - constraints.n_contig - 1)
-                        else:
-                            mini = max(0,
-                                       stack_test.size - constraints.n_contig - 1)
-                    else:
-                        mini = max(0, stack_test.size - constraints.n_contig - 1)
+                    mini = max(0, stack_test.size - constraints.n_contig - 1)
 
                     if constraints.contig and not is_contig(
                             stack_test[mini:], constraints.n_contig):
@@ -172,7 +146,7 @@ def repair_diso_contig_from_outside_sym(
         range(real_n_D1)):
         ss_group = remaining_plies[np.array(elem, int)]
 
-        stack_test = np.hstack((stack[mini:], ss_group))
+        stack_test = np.hstack((stack, ss_group))
         if ss.size % 2:
             stack_test = np.hstack((
                 stack_test, ss[ss.size // 2],
@@ -182,7 +156,8 @@ def repair_diso_contig_from_outside_sym(
                 stack_test,
                 np.flip(stack_test)))
         if constraints.diso and not is_diso_ss(
-                stack_test, constraints.delta_angle, dam_tol=False):
+                stack_test[mini:stack_test.size - mini],
+                constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
-- 
2.43.0


From fc5dd1a10f3bcb632ec8e0d52d27e71fe395ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 39/81] fix: repair for flexural properties never swaps the
 plies kept for damage tolerance

---
 src/RELAY/repair_flexural_1.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 999c430..6b37cd4 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -74,14 +74,18 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
     # out-of-plane properties
     for index_block_1 in range(len(list_blocks[:-1])):
         block_1 = list_blocks[index_block_1]
-        if status_dam_tol[block_1.first_ply_pos]:
+        if status_dam_tol[
+                block_1.first_ply_pos:
+                block_1.first_ply_pos + block_1.n_block_of_plies].any():
             continue
 #        if block_1.distance_middle < 0.5:
 #            break
         ind_possible_swap = []
         for index_block_2, block_2 \
         in enumerate(list_blocks[index_block_1 + 1:]):
-            if status_dam_tol[list_blocks[index_block_2].first_ply_pos]:
+            if status_dam_tol[
+                    block_2.first_ply_pos:
+                    block_2.first_ply_pos + block_2.n_block_of_plies].any():
                 continue
             if block_1.n_block_of_plies == block_2.n_block_of_plies \
             and block_2.angle in block_1.possible_angles \
-- 
2.43.0


From cc147062e8603b82ba74a1fdc695f0873241ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 40/81] fix: repair for flexural properties evaluates the swaps
 of blocks at their actual positions

---
 src/RELAY/repair_flexural_1.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 6b37cd4..5df8faa 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -102,8 +102,9 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
                 new_lampamDs[index] = lampamD + calc_delta_lampamD_swap_1(
                     angle_first=block_1.angle,
                     angle_second=list_blocks[index_block_2].angle,
-                    n_first_ply=block_1.first_ply_pos,
-                    n_second_ply=list_blocks[index_block_2].first_ply_pos,
+                    n_first_ply=block_1.first_ply_pos + 1,
+                    n_second_ply=\
+                    list_blocks[index_block_2].first_ply_pos + 1,
                     n_plies_group=block_1.n_block_of_plies,
                     n_plies=n_plies,
                     constraints=constraints)
-- 
2.43.0


From 5aa3377dd452b18533ac76949b259b96c1fa8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 41/81] fix: repair for flexural properties keeps the plies
 next to the middle ply compliant

---
 src/RELAY/repair_flexural_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index de48154..30cc8de 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -311,6 +311,8 @@ class Block():
                     if block2.ID == block1.ID + 1 \
                     or block2.ID == block1.ID - 1:
                         block1.neighbour_angles.append(block2.angle)
+                if block1.ID == 0 and midply is not None:
+                    block1.neighbour_angles.append(midply)
                 block1.calc_possible_angles(constraints)
             # update the block / ID - 1
             if block1.ID == self.ID - 1:
@@ -319,6 +321,8 @@ class Block():
                     if block2.ID == block1.ID + 1 \
                     or block2.ID == block1.ID - 1:
                         block1.neighbour_angles.append(block2.angle)
+                if block1.ID == 0 and midply is not None:
+                    block1.neighbour_angles.append(midply)
                 block1.calc_possible_angles(constraints)
 
 
-- 
2.43.0


From 7cba3882250befb7706c96da4802879648533a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 42/81] fix: repair for flexural properties of laminates with
 all plies alike and a middle ply

---
 src/RELAY/repair_flexural_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index 30cc8de..4e047ed 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -345,8 +345,11 @@ def find_list_blocks(ss_ref, n_plies, constraints):
     if constraints.sym:
         if n_plies % 2:
             ind_start = n_plies // 2 - 1
-            while ss_ref[ind_start] == ss_ref[n_plies // 2]:
+            while ind_start >= 0 \
+            and ss_ref[ind_start] == ss_ref[n_plies // 2]:
                 ind_start -= 1
+            if ind_start < 0:
+                return [] # all plies have the orientation of the middle ply
         else:
             ind_start = n_plies // 2 - 1
     else:
-- 
2.43.0


From 6b7328b706c02946a9f2125db560587539f849f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 43/81] fix: repair for flexural properties tests n_D2 ply
 shifts at each step (ValueError if one)

---
 src/RELAY/repair_flexural_2.py | 4 ++--
 src/RELAY/repair_flexural_3.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_flexural_2.py b/src/RELAY/repair_flexural_2.py
index 646a77b..f5e35f5 100644
--- a/src/RELAY/repair_flexural_2.py
+++ b/src/RELAY/repair_flexural_2.py
@@ -110,10 +110,10 @@ def repair_flexural_2(
     for index, ind_ply_1 in enumerate(ind_2[:-1]):
 #        print('ind_ply_1', ind_ply_1)
 
-        objD = 1e10 * np.ones((parameters.n_D2 - 1,), float)
+        objD = 1e10 * np.ones((parameters.n_D2,), float)
 
         for ind_loc, ind_ply_2 \
-        in enumerate(ind_2[index + 1:index + parameters.n_D2]):
+        in enumerate(ind_2[index + 1:index + 1 + parameters.n_D2]):
 
 #            print('    ind_ply_2', ind_ply_2)
 
diff --git a/src/RELAY/repair_flexural_3.py b/src/RELAY/repair_flexural_3.py
index 626ee26..f460d46 100644
--- a/src/RELAY/repair_flexural_3.py
+++ b/src/RELAY/repair_flexural_3.py
@@ -113,7 +113,7 @@ def repair_flexural_3(
         objD = 1e10*np.ones((ind_2[index + 1:].size,), float)
 
         for ind_loc, ind_ply_2 \
-        in enumerate(ind_2[index + 1:index + 2 + parameters.n_D2]):
+        in enumerate(ind_2[index + 1:index + 1 + parameters.n_D2]):
 
 #            print('    ind_ply_2', ind_ply_2)
 
-- 
2.43.0


From 64bc7e791ee57a2799818a731fa61d916b4a2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 44/81] fix: repair_ss returns the objective of the repaired
 laminate (TypeError)

---
 src/RELAY/repair_ss.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/RELAY/repair_ss.py b/src/RELAY/repair_ss.py
index 5a13d91..75f1855 100644
--- a/src/RELAY/repair_ss.py
+++ b/src/RELAY/repair_ss.py
@@ -21,6 +21,7 @@ sys.path.append(r'C:\BELLA')
 from src.LAYLA_V02.parameters import Parameters
 from src.LAYLA_V02.constraints import Constraints
 from src.LAYLA_V02.objectives import objectives
+from src.LAYLA_V02.targets import Targets
 from src.divers.pretty_print import print_ss, print_list_ss
 from src.RELAY.repair_10_bal import repair_10_bal
 from src.RELAY.repair_10_bal import calc_mini_10
@@ -139,16 +140,16 @@ def repair_ss(
     #--------------------------------------------------------------------------
     # step 5 /
     #--------------------------------------------------------------------------
-    obj_no_constraints = objectives(
+    objective = objectives(
         lampam=calc_lampam(ss, constraints),
-        lampam_target=lampam_target,
+        targets=Targets(n_plies=ss.size, lampam=lampam_target),
         lampam_weightings=parameters.lampam_weightings_final,
         constraints=constraints,
         parameters=parameters)
     if count_obj:
-        return ss, True, 1e10, n_obj_func_D_calls
+        return ss, True, objective, n_obj_func_D_calls
     else:
-        return ss, True, 1e10
+        return ss, True, objective
 
 if __name__ == "__main__":
     print('\n*** Test for the function repair_ss ***')
-- 
2.43.0


From 850f6bb2eded0c890f2286e19f67f83f98eeb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 45/81] fix: repair for disorientation and contiguity positions
 the outermost plies when undetermined (KeyError)

---
 src/RELAY/repair_diso_contig.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index e3203ef..abf313a 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -69,6 +69,28 @@ def repair_diso_contig(
 #    print('constraints.sym', constraints.sym)
 #    print('n_D1', n_D1)
 
+    # outermost plies still to be positioned
+    for ind_ply in (0,) if constraints.sym else (0, ss.size - 1):
+        if ss[ind_ply] == 666:
+            first_result = None
+            for ind_queue, angle in enumerate(ply_queue):
+                if angle in ply_queue[:ind_queue]:
+                    continue
+                ss_test = np.copy(ss)
+                ss_test[ind_ply] = angle
+                if constraints.sym:
+                    ss_test[ss.size - 1 - ind_ply] = angle
+                result = repair_diso_contig(
+                    ss_test,
+                    list(ply_queue[:ind_queue]) \
+                    + list(ply_queue[ind_queue + 1:]),
+                    constraints, n_D1)
+                if result[1] or result[2]:
+                    return result
+                if first_result is None:
+                    first_result = result
+            return first_result
+
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
             ss, ply_queue, constraints, n_D1)
-- 
2.43.0


From 348758f0a3d32e47226bf2f0bf999a82db3fdcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 46/81] fix: thick-to-thin and thin-to-thick repairs keep the
 tables of the ply-drop layouts and of their objectives in the same order

---
 src/RELAY/thick_to_thin.py | 14 +++++++-------
 src/RELAY/thin_to_thick.py | 10 +++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 78b66fb..d3ba479 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -405,14 +405,14 @@ def repair_thick_to_thin(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
-                tab_child_penalty_diso.append(child_penalty_diso)
+                tab_child_penalty_diso.insert(0, child_penalty_diso)
                 # tab_child_penalty_contig.append(child_penalty_contig)
                 # tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
@@ -635,8 +635,8 @@ def repair_thick_to_thin(
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(
         reduced_ss[0: multipanel.reduced.ind_ref], constraints)
-    if not abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
-               - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
+                - reduced_lampam_test) < 1e-10).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 70ae860..f88a042 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -458,14 +458,14 @@ def repair_thin_to_thick(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
 #                tab_child_penalty_diso.append(child_penalty_diso)
 #                tab_child_penalty_contig.append(child_penalty_contig)
 #                tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
@@ -664,7 +664,7 @@ def repair_thin_to_thick(
 
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(reduced_ss, constraints)
-    if not abs(reduced_lampam - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam - reduced_lampam_test) < 1e-10).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
-- 
2.43.0


From 3890e9649e0df6d64de0b810c0c950638523caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 47/81] fix: thin-to-thick repair tests the fibre orientations
 of the added plies (TypeError)

---
 src/RELAY/thin_to_thick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index f88a042..71266d9 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -211,7 +211,7 @@ def repair_thin_to_thick(
                 # print('one_pd_index', one_pd_index)
 
                 ### branching for ply orientation of new ply
-                child_angle = np.copy(constraints.set_of_angles, int)
+                child_angle = np.copy(constraints.set_of_angles)
 
                 ### pruning for balance
                 if constraints.bal:
-- 
2.43.0


From d30a8211d04dd9dc1a717797005bbec5b8bcbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 48/81] fix: thin-to-thick repair uses its own node limits

---
 src/RELAY/thin_to_thick.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 71266d9..a778a53 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -305,9 +305,9 @@ def repair_thin_to_thick(
             indices_to_keep = []
             tab_penalty_spacing_for_pruning = np.copy(tab_penalty_spacing)
             if len(tab_penalty_spacing_for_pruning) \
-            > parameters.local_node_limit2:
+            > parameters.local_node_limit3:
 
-                while len(indices_to_keep) < parameters.local_node_limit2:
+                while len(indices_to_keep) < parameters.local_node_limit3:
 
                     min_value = min(tab_penalty_spacing_for_pruning)
                     indices_to_add = np.where(
@@ -476,9 +476,9 @@ def repair_thin_to_thick(
             = np.copy(tab_child_obj_constraints)
             if ind_step != n_steps - 1 \
             and len(tab_child_obj_constraints_for_pruning) \
-            > parameters.local_node_limit2:
+            > parameters.local_node_limit3:
 
-                while len(indices_to_keep) < parameters.local_node_limit2:
+                while len(indices_to_keep) < parameters.local_node_limit3:
                     
                     min_value = min(tab_child_obj_constraints_for_pruning)
                     index_to_add = np.where(
@@ -564,9 +564,9 @@ def repair_thin_to_thick(
         penalty_spacing_tab_for_pruning = np.copy(penalty_spacing_tab)
         if ind_step != n_steps - 1 \
         and len(penalty_spacing_tab_for_pruning) \
-        > parameters.global_node_limit2:
+        > parameters.global_node_limit3:
 
-            while len(indices_to_keep) < parameters.global_node_limit2:
+            while len(indices_to_keep) < parameters.global_node_limit3:
 
                 min_value = min(penalty_spacing_tab_for_pruning)
                 indices_to_add = np.where(
@@ -607,9 +607,9 @@ def repair_thin_to_thick(
 
         if ind_step != n_steps - 1 \
         and len(tab_child_obj_constraints_for_pruning) \
-        > parameters.global_node_limit2:
+        > parameters.global_node_limit3:
 
-            while len(indices_to_keep) < parameters.global_node_limit2:
+            while len(indices_to_keep) < parameters.global_node_limit3:
 
                 min_value = min(tab_child_obj_constraints_for_pruning)
                 index_to_add = np.where(
-- 
2.43.0


From 202b67e44f3ee3ac795425a6dc7a39eabe474d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 49/81] fix: thick-to-thin repair penalises disorientation with
 the coefficient of the objective function

---
 src/RELAY/thick_to_thin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index d3ba479..b7e703c 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -401,6 +401,7 @@ def repair_thick_to_thin(
                     penalty_10=None,
                     penalty_bal_ipo=None,
                     penalty_weight=None,
+                    coeff_diso=obj_func_param.coeff_diso,
                     with_Nones=True)
 #                print('child_obj_constraints', child_obj_constraints)
 
-- 
2.43.0


From a097679da6149a5b9f392b3195e43bdfc72bf056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 50/81] fix: multi-panel repair returns the ply drop layout and
 stacking sequence table of the stacks it returns

---
 src/BELLA/format_pdl.py    | 10 ++++++++++
 src/RELAY/repair_mp.py     |  6 +++++-
 src/RELAY/thin_to_thick.py |  9 ++++++---
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/format_pdl.py b/src/BELLA/format_pdl.py
index ecc614a..d4d279c 100644
--- a/src/BELLA/format_pdl.py
+++ b/src/BELLA/format_pdl.py
@@ -16,6 +16,9 @@
     retrieves a stacking sequence table from a guide stacking sequence and the
     ply drop layout scheme
 
+- convert_sst_to_pdl
+    retrieves the ply drop layout of a stacking sequence table
+
 - reduce_for_guide_based_blending
     returns smaller data structures for a structure with guide-based blending,
     either a reduced stacking sequence table, a reduced list of stacking
@@ -190,6 +193,13 @@ def convert_ss_to_sst(ss, pdl):
     return convert_ss_guide_to_sst(ss[-1], pdl)
 
 
+def convert_sst_to_pdl(sst):
+    """
+    retrieves the ply drop layout of a stacking sequence table
+    """
+    sst = np.array(sst)
+    return np.where(sst != -1, np.arange(sst.shape[1]), -1)
+
 def reduce_for_guide_based_blending(multipanel, data):
     """
     returns smaller data structures for a structure with guide-based blending,
diff --git a/src/RELAY/repair_mp.py b/src/RELAY/repair_mp.py
index 66818c6..6c86ee0 100644
--- a/src/RELAY/repair_mp.py
+++ b/src/RELAY/repair_mp.py
@@ -11,6 +11,7 @@ import numpy as np
 sys.path.append(r'C:\BELLA')
 #from src.divers.pretty_print import print_lampam, print_ss, print_list_ss
 from src.BELLA.format_pdl import convert_ss_to_sst
+from src.BELLA.format_pdl import convert_sst_to_pdl
 from src.RELAY.thick_to_thin import repair_thick_to_thin
 from src.RELAY.thin_to_thick import repair_thin_to_thick
 from src.RELAY.repair_reference_panel import repair_reference_panel
@@ -86,7 +87,7 @@ Reference stacking sequence modified during blending step 4.2""")
         parameters, obj_func_param, constraints, mat=mat)
     if not success:
         print('Blending step 4.3 unsuccessful')
-        reduced_sst = convert_ss_to_sst(reduced_ss, reduced_pdl)
+        reduced_pdl = convert_sst_to_pdl(reduced_sst)
         return False, reduced_ss, reduced_sst, reduced_pdl, 3
 
     # check that the reference panel stacking sequence has not been changed
@@ -104,5 +105,8 @@ Reference stacking sequence modified during blending step 4.3""")
         if reduced_ss[ind_panel].size != panel.n_plies:
             raise Exception("""Wrong ply counts in the laminate.""")
 
+    # ply drop layout of the redesigned panels
+    reduced_pdl = convert_sst_to_pdl(reduced_sst)
+
 #    print('Blending step 4 successful')
     return True, reduced_ss, reduced_sst, reduced_pdl, 4
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index a778a53..eacc075 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -62,6 +62,9 @@ def repair_thin_to_thick(
     n_plies = multipanel.reduced.n_plies_ref_panel
 #    print_list_ss(reduced_sst)
 
+    # stacking sequence table returned when the repair is unsuccessful
+    initial_sst = reduced_sst
+
     # clean pdl by removing plies to be redesigned
     for ind in range(reduced_sst.shape[1])[::-1]:
         if reduced_sst[multipanel.reduced.ind_ref, ind] == -1:
@@ -160,7 +163,7 @@ def repair_thin_to_thick(
 #        print('------------------------\n')
 
         if len(obj_constraints_tab) == 0:
-            return False, reduced_sst, reduced_lampam, reduced_ss
+            return False, initial_sst, reduced_lampam, reduced_ss
 
         for node in range(len(obj_constraints_tab)):
             
@@ -643,11 +646,11 @@ def repair_thin_to_thick(
                                       for index in indices_to_keep]
 
     if len(obj_constraints_tab) == 0:
-        return False, reduced_sst, reduced_lampam, reduced_ss
+        return False, initial_sst, reduced_lampam, reduced_ss
 
     # select best repaired solution
     index = np.argmin(obj_constraints_tab)
-    reduced_sst = pdls_tab[index]
+    reduced_sst = np.array(pdls_tab[index])
     reduced_lampam = lampam_tab[index]
     reduced_ss = convert_sst_to_ss(reduced_sst)
 
-- 
2.43.0


From de0b897cc4abd055b449ffbad35822c5efce35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 51/81] fix: the best design of a ply drop layout is returned
 with its own stacks and ply counts (ValueError, or another design's under
 save_success_rate)

---
 src/BELLA/optimiser_with_one_pdl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index e8fd032..c438e58 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -499,8 +499,6 @@ beam search with no solutions !
 # =============================================================================
 # select best result
 # =============================================================================
-    ss_bot_tab = np.copy(ss_final)
-
     if parameters.save_success_rate:
         to_keep = np.array([ind for ind in range(len(obj_constraints_tab))\
                             if obj_constraints_tab[ind] < 1e10])
@@ -508,6 +506,7 @@ beam search with no solutions !
                            if ind not in to_keep])
         if to_keep.size:
             ss_final = [ss_final[ind] for ind in to_keep]
+            n_plies_per_angle_tab = n_plies_per_angle_tab[to_keep]
             sst_final = [sst_final[ind] for ind in to_keep]
             pdl_final = [pdl_final[ind] for ind in to_keep]
             penalty_diso_final = [penalty_diso_final[ind] for ind in to_keep]
@@ -532,7 +531,7 @@ beam search with no solutions !
         return None
 
     index = np.argmin(obj_constraints_tab)
-    ss = ss_bot_tab[index]
+    ss = ss_final[index]
     lampam = lampam_tab[index]
     n_plies_per_angle = n_plies_per_angle_tab[index]
     obj_no_constraints = obj_no_constraints_tab[index]
-- 
2.43.0


From 8135cca5499db48a63a715dd7d83b4b6e0d17fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 52/81] fix: tables are added to Excel files with pandas 2
 (AttributeError)

---
 src/divers/excel.py | 50 +++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/src/divers/excel.py b/src/divers/excel.py
index e4419a0..0d3bd85 100644
--- a/src/divers/excel.py
+++ b/src/divers/excel.py
@@ -28,14 +28,13 @@ def autofit_column_widths(filename):
     """
     autofits the column widths in an excel file
     """
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    writer.book = load_workbook(filename)
-    sheetnames = writer.book.sheetnames
+    book = load_workbook(filename)
+    sheetnames = book.sheetnames
 
 #    for worksheet in writer.book[sheetnames]: # NO !
 
     for ind_sheet in range(len(sheetnames)):
-        worksheet = writer.book[sheetnames[ind_sheet]]
+        worksheet = book[sheetnames[ind_sheet]]
 
         for col in worksheet.columns:
             max_length = 0
@@ -52,7 +51,7 @@ def autofit_column_widths(filename):
             adjusted_width = (max_length + 2)
             worksheet.column_dimensions[column].width = adjusted_width
 
-    writer.save()
+    book.save(filename)
     return 0
 
 
@@ -102,38 +101,31 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
     # ignore [engine] parameter if it was passed
     if 'engine' in to_excel_kwargs:
         to_excel_kwargs.pop('engine')
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    # Python 2.x: define [FileNotFoundError] exception if it doesn't exist
-    try:
-        FileNotFoundError
-    except NameError:
-        FileNotFoundError = IOError
-    try:
-        # try to open an existing workbook
-        writer.book = load_workbook(filename)
+    mode = {}
+    if os.path.exists(filename):
+        # open the existing workbook
+        book = load_workbook(filename)
         # get the last row in the existing Excel sheet
         # if it was not specified explicitly
-        if startrow is None and sheet_name in writer.book.sheetnames:
-            startrow = writer.book[sheet_name].max_row
+        if startrow is None and sheet_name in book.sheetnames:
+            startrow = book[sheet_name].max_row
         # truncate sheet
-        if truncate_sheet and sheet_name in writer.book.sheetnames:
+        if truncate_sheet and sheet_name in book.sheetnames:
             # index of [sheet_name] sheet
-            idx = writer.book.sheetnames.index(sheet_name)
+            idx = book.sheetnames.index(sheet_name)
             # remove [sheet_name]
-            writer.book.remove(writer.book.worksheets[idx])
+            book.remove(book.worksheets[idx])
             # create an empty sheet [sheet_name] using old index
-            writer.book.create_sheet(sheet_name, idx)
-        # copy existing sheets
-        writer.sheets = {ws.title:ws for ws in writer.book.worksheets}
-    except FileNotFoundError:
-        # file does not exist yet, we will create it
-        pass
+            book.create_sheet(sheet_name, idx)
+            book.save(filename)
+        # keep the existing sheets
+        mode = {'mode': 'a', 'if_sheet_exists': 'overlay'}
     if startrow is None:
         startrow = 0
-    # write out the new sheet
-    dataf.to_excel(writer, sheet_name, startrow=startrow, **to_excel_kwargs)
-    # save the workbook
-    writer.save()
+    # write out the new sheet and save the workbook
+    with pd.ExcelWriter(filename, engine='openpyxl', **mode) as writer:
+        dataf.to_excel(writer, sheet_name=sheet_name, startrow=startrow,
+                       **to_excel_kwargs)
 
 if __name__ == "__main__":
     print('When two pages are saved successively, the first page is lost')
-- 
2.43.0


From 7a5a2e32ff0a5c8e15d0e96617e63e8bba37de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 53/81] fix: each row of the saved results describes the design
 of its own ply drop layout

---
 src/BELLA/save_result.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 5bb058a..24d4a32 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -28,10 +28,13 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
     """
     saves the results for the design of a multipanel structure
     """
+    # index of the ply-drop layout of the best result
+    ind_mini = getattr(output, 'ind_mini', 0)
+
     if only_best:
         table_res = pd.DataFrame()
         if hasattr(output, 'time'):
-            table_res.loc[0, 'time (s)'] = output.time
+            table_res.loc[ind_mini, 'time (s)'] = output.time
         table_res = save_result_BELLA_one_pdl(
             table_res,
             multipanel,
@@ -40,7 +43,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
             obj_func_param,
             output,
             None,
-            0,
+            ind_mini,
             mat)
         append_df_to_excel(
             filename, table_res, 'Best Result', index=False, header=True)
@@ -63,7 +66,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
             filename, table_res, 'Results', index=False, header=True)
     # to save best result
     table_res = pd.DataFrame()
-    table_res.loc[0, 'time (s)'] = output.time
+    table_res.loc[ind_mini, 'time (s)'] = output.time
     table_res = save_result_BELLA_one_pdl(
         table_res,
         multipanel,
@@ -71,8 +74,8 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
         parameters,
         obj_func_param,
         output,
-        pdl[output.ind_mini],
-        0,
+        pdl[ind_mini],
+        ind_mini,
         mat)
     append_df_to_excel(
         filename, table_res, 'Best Result', index=False, header=True)
@@ -113,7 +116,8 @@ def save_result_BELLA_one_pdl(
 
     table_res.loc[ind, 'penalty_spacing'] = output.penalty_spacing_tab[ind]
 
-    ss = output.ss
+    ss = output.ss_tab[ind]
+    sst = output.ss_tab_tab[ind]
 
     norm_diso_contig = np.array(
         [panel.n_plies for panel in multipanel.panels])
@@ -158,16 +162,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(output.sst[ind_p] == 0) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 0) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(output.sst[ind_p] == 90) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 90) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(output.sst[ind_p] == 45) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 45) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(output.sst[ind_p] == -45) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == -45) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
-        = (sum(output.sst[ind_p] == 45) + sum(output.sst[ind_p] == -45)) \
-        / (output.sst[ind_p].size)
+        = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
+        / (sst[ind_p].size)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
@@ -180,7 +184,7 @@ def save_result_BELLA_one_pdl(
             table_res.loc[ind + ind_p, 'lambda buckling'] = buckling_factor(
                 lampam=lampam[ind_p],
                 mat=mat,
-                n_plies=output.ss[ind_p].size,
+                n_plies=ss[ind_p].size,
                 N_x=panel.N_x,
                 N_y=panel.N_y,
                 length_x=panel.length_x,
@@ -189,7 +193,7 @@ def save_result_BELLA_one_pdl(
 
         for angle in constraints.set_of_angles:
             table_res.loc[ind + ind_p, 'n_' + str(angle) + 'plies'] \
-            = sum(output.sst[ind_p] == angle)
+            = sum(sst[ind_p] == angle)
 
         for ind_lp in range(12):
             table_res.loc[
@@ -210,11 +214,11 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'gamma'] = abs(D_16/(( (D_11**3) * D_22 )**(1/4)))
         table_res.loc[ind + ind_p, 'delta'] = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
             
-        stack = ' '.join(np.array(output.sst[ind_p], dtype=str))
+        stack = ' '.join(np.array(sst[ind_p], dtype=str))
         table_res.loc[
             ind + ind_p, 'stacking sequences with ply drops included'] = stack
 
-        stack = ' '.join(np.array(output.ss[ind_p], dtype=str))
+        stack = ' '.join(np.array(ss[ind_p], dtype=str))
         table_res.loc[ind + ind_p, 'stacking sequences'] = stack
 
         if pdl is not None:
-- 
2.43.0


From 644ff6a96957a6f490aa1335d84d0391105d5a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 54/81] fix: percentages of plies saved for a panel are those
 of its own plies

---
 src/BELLA/save_result.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 24d4a32..7b6b025 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -162,16 +162,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(sst[ind_p] == 0) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 0) / ss[ind_p].size
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(sst[ind_p] == 90) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 90) / ss[ind_p].size
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(sst[ind_p] == 45) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 45) / ss[ind_p].size
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(sst[ind_p] == -45) / (sst[ind_p].size)
+        = sum(sst[ind_p] == -45) / ss[ind_p].size
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
         = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
-        / (sst[ind_p].size)
+        / ss[ind_p].size
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
-- 
2.43.0


From 4983c525b9ab5f8f403a256331f0054dc41e5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 55/81] fix: penalties of panels with different ply counts are
 saved (ValueError)

---
 src/BELLA/save_set_up.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index ffcff80..f172c21 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -141,7 +141,7 @@ def save_multipanel(
             = panel.lampam_weightings[ind]
 
     if calc_penalties:
-        ss = np.array(convert_sst_to_ss(sst))
+        ss = convert_sst_to_ss(sst)
 
         norm_diso_contig = np.array(
                 [panel.n_plies for panel in multipanel.panels])
@@ -163,7 +163,8 @@ def save_multipanel(
         if constraints.rule_10_percent and constraints.rule_10_Abdalla:
             penalty_10 = calc_penalty_10_ss(ss, constraints, lampam, mp=True)
         else:
-            penalty_10 = calc_penalty_10_ss(ss, constraints, LPs=None)
+            penalty_10 = calc_penalty_10_ss(
+                ss, constraints, LPs=None, mp=True)
 
         penalty_ipo, penalty_oopo = calc_penalty_ipo_oopo_mp(
             lampam, constraints)
-- 
2.43.0


From b22bc61a6541d9f11a661330377ef4c39e8b51b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 56/81] fix: weight of the structure saved with the results

---
 src/BELLA/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 4146b0e..532fb43 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -141,7 +141,7 @@ def BELLA_optimiser(
         save_materials(filename, mat)
     save_parameters_BELLA(filename, parameters)
     save_objective_function_BELLA(filename, obj_func_param)
-    save_multipanel(filename, multipanel, obj_func_param, mat)
+    save_multipanel(filename, multipanel, obj_func_param, mat=mat)
 
     pdls = np.zeros((len(pdls_ini),
                      multipanel.n_panels,
-- 
2.43.0


From 356d8742a7d3868b60c2283954427bffd211031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 57/81] fix: a layout whose designs all fail the repair no
 longer stops the optimisation (Exception)

---
 src/BELLA/optimiser_with_one_pdl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index c438e58..c285fee 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -612,7 +612,9 @@ Objective function value not matching the stacking sequences.""")
         coeff_10=obj_func_param.coeff_10,
         coeff_bal_ipo=obj_func_param.coeff_bal_ipo)
 
-    if abs(obj_constraints_test - obj_constraints > 1e-10).any():
+    # (1e10 is the objective function value of the designs not repaired)
+    if obj_constraints < 1e10 \
+    and abs(obj_constraints_test - obj_constraints > 1e-10).any():
         print('obj_constraints_test', obj_constraints_test)
         print('obj_constraints', obj_constraints)
         pass
-- 
2.43.0


From ec1523e1ec891cdaa978c6a9f07bf8041c8b05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 58/81] fix: the best design is chosen among the layouts with a
 design (NaN objectives were selected)

---
 src/BELLA/optimiser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 532fb43..9f3fc53 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -124,7 +124,11 @@ def BELLA_optimiser(
         outer_step += 1
 
     # To determine the best solution
-    ind_mini = np.argmin(results.obj_constraints_tab)
+    if np.isnan(results.obj_constraints_tab).all():
+        # no design with any of the initial ply drop layouts
+        ind_mini = 0
+    else:
+        ind_mini = np.nanargmin(results.obj_constraints_tab)
 
     results.ss = results.ss_tab[ind_mini]
     results.sst = results.ss_tab_tab[ind_mini]
-- 
2.43.0


From 507b254bd5ac5774595b982d0974da1afd29450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 59/81] fix: the search stops at the first layout with a
 negligible objective (was at exactly zero only)

---
 src/BELLA/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 9f3fc53..d4bbae7 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -117,7 +117,7 @@ def BELLA_optimiser(
 
         ## === If the stacking sequence is good enough, exit the loop
         if results_one_pdl is not None:
-            if abs(results_one_pdl.obj_constraints).all() < 1e-10:
+            if abs(results_one_pdl.obj_constraints) < 1e-10:
                 print(f"""Low objective for the outer step {outer_step}.""")
                 break
 
-- 
2.43.0


From faf4086a80d69450bad970516e4311618d898245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 60/81] fix: the area of the structure is saved in the row
 'Area' of the sheet Multipanel (was the area of all patches)

---
 src/BELLA/save_set_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index f172c21..12cde97 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -84,7 +84,7 @@ def save_multipanel(
     table_mp = pd.DataFrame()
     table_mp.loc[0, 'Number of panels'] = multipanel.n_panels
     table_mp.loc[0, 'Number of plies max'] = multipanel.n_plies_max
-    table_mp.loc[0, 'Area'] = multipanel.area_patches
+    table_mp.loc[0, 'Area'] = multipanel.area
     table_mp.loc[0, 'Area of all patches'] = multipanel.area_patches
     if mat is not None:
         table_mp.loc[0, 'Weight'] = multipanel.calc_weight(mat.density_area)
-- 
2.43.0


From 546a2c670d7176682a8b54227df19865fe7ecebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 61/81] fix: the balance coefficient of the input file is used
 by the run scripts (it was ignored)

---
 run_BELLA_from_input_file_SST_1.py     | 2 ++
 run_BELLA_from_input_file_horseshoe.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index 02447b9..b1c04bd 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -198,6 +198,7 @@ data_objective = pd.read_excel(filename_input, sheet_name='Objective function',
 coeff_10 = data_objective["coeff_10"].iloc[0]
 coeff_contig = data_objective["coeff_contig"].iloc[0]
 coeff_diso = data_objective["coeff_diso"].iloc[0]
+coeff_bal_ipo = data_objective["coeff_bal_ipo"].iloc[0]
 coeff_oopo = data_objective["coeff_oopo"].iloc[0]
 coeff_spacing = data_objective["coeff_spacing"].iloc[0]
 
@@ -206,6 +207,7 @@ obj_func_param = ObjFunction(
     coeff_contig=coeff_contig,
     coeff_diso=coeff_diso,
     coeff_10=coeff_10,
+    coeff_bal_ipo=coeff_bal_ipo,
     coeff_oopo=coeff_oopo,
     coeff_spacing=coeff_spacing)
 
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index f94b0df..53fbe49 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -198,6 +198,7 @@ data_objective = pd.read_excel(filename_input, sheet_name='Objective function',
 coeff_10 = data_objective["coeff_10"].iloc[0]
 coeff_contig = data_objective["coeff_contig"].iloc[0]
 coeff_diso = data_objective["coeff_diso"].iloc[0]
+coeff_bal_ipo = data_objective["coeff_bal_ipo"].iloc[0]
 coeff_oopo = data_objective["coeff_oopo"].iloc[0]
 coeff_spacing = data_objective["coeff_spacing"].iloc[0]
 
@@ -206,6 +207,7 @@ obj_func_param = ObjFunction(
     coeff_contig=coeff_contig,
     coeff_diso=coeff_diso,
     coeff_10=coeff_10,
+    coeff_bal_ipo=coeff_bal_ipo,
     coeff_oopo=coeff_oopo,
     coeff_spacing=coeff_spacing)
 
-- 
2.43.0


From 7f7c17d1700c5cbfb9321f5d7dbc57a92e604e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:37 +0000
Subject: [PATCH 62/81] fix: the run scripts read structures whose panels have
 a single neighbour each (AttributeError)

---
 run_BELLA_from_input_file_SST_1.py     | 4 ++--
 run_BELLA_from_input_file_horseshoe.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index b1c04bd..2b586a5 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -236,8 +236,8 @@ for ind_panel in range(data_panels.shape[0]):
         n_plies=int(data_panels["Number of plies"].iloc[ind_panel]),
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
-        neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+        neighbour_panels=np.array(str(data_panels[
+            "Neighbour panel IDs"].iloc[ind_panel]).split(" "), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index 53fbe49..3aa63d3 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -236,8 +236,8 @@ for ind_panel in range(data_panels.shape[0]):
         n_plies=int(data_panels["Number of plies"].iloc[ind_panel]),
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
-        neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+        neighbour_panels=np.array(str(data_panels[
+            "Neighbour panel IDs"].iloc[ind_panel]).split(" "), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
-- 
2.43.0


From f99fa26fba7f614ccb1f7e69fc7765bf6249c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 63/81] fix: the orthotropy penalties of single laminates LAYLA
 needs are defined (its optimiser could not be imported)

---
 src/guidelines/ipo_oopo.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index fcbdf7d..132d069 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -261,6 +261,33 @@ def calc_penalty_ipo_oopo_mp(
     return cummul_areas * penalties_ipo, cummul_sec_mom_areas * penalties_oopo
 
 
+def calc_penalty_ipo_oopo_ss(
+        lampam,
+        constraints,
+        parameters=None,
+        cummul_areas=1,
+        cummul_sec_mom_areas=1):
+    """
+    calculates penalties for in-plane and out-of plane orthotropy based
+    lamination parameters for a single-panel structure
+
+    INPUTS
+
+    - lampam: lamination parameters of a laminate or of several laminates
+    - constraints: design and maufacturing constraints
+    - parameters: optimiser parameters
+    - cummul_areas: sum of the areas of the plies retrieved so far + the
+    current plies
+    - cummul_sec_mom_areas: sum of the second moments of areas of the plies
+    retrieved so far + the current plies
+    """
+    penalties_ipo = 0 * calc_penalty_ipo(lampam)
+    if constraints.ipo \
+    and (parameters is None or parameters.penalty_ipo_switch):
+        penalties_ipo = calc_penalty_ipo(lampam, cummul_areas)
+    return penalties_ipo, calc_penalty_oopo_ss(
+        lampam, constraints, cummul_sec_mom_areas)
+
 
 def calc_penalty_oopo_ss(lampam, constraints, cummul_sec_mom_areas=1):
     """
-- 
2.43.0


From 32a5c6ba725c4da22d23c04afbadd7a30ac6300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 64/81] fix: LAYLA reads the penalty switches from the
 parameters (AttributeError for in-plane orthotropic laminates)

---
 src/LAYLA_V02/outer_step_asym.py | 4 ++--
 src/LAYLA_V02/outer_step_sym.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LAYLA_V02/outer_step_asym.py b/src/LAYLA_V02/outer_step_asym.py
index 3249583..4f8f0cd 100644
--- a/src/LAYLA_V02/outer_step_asym.py
+++ b/src/LAYLA_V02/outer_step_asym.py
@@ -189,9 +189,9 @@ def outer_step_asym(
     # if repair failed
     if ((constraints.rule_10_percent and penalty_10)\
     or (constraints.ipo and penalty_ipo_lampam \
-        and constraints.penalty_ipo_switch) \
+        and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
-        and constraints.penalty_bal_switch)):
+        and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
 #    print('outer_step_result.ss_best', result.ss_best)
diff --git a/src/LAYLA_V02/outer_step_sym.py b/src/LAYLA_V02/outer_step_sym.py
index 59057ac..74fc467 100644
--- a/src/LAYLA_V02/outer_step_sym.py
+++ b/src/LAYLA_V02/outer_step_sym.py
@@ -189,9 +189,9 @@ def outer_step_sym(
     # If repair failed
     if ((constraints.rule_10_percent and penalty_10)\
     or (constraints.ipo and penalty_ipo_lampam \
-        and constraints.penalty_ipo_switch) \
+        and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
-        and constraints.penalty_bal_switch)):
+        and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
 #    print('outer_step_result.ss_best', result.ss_best)
-- 
2.43.0


From e375590314f655d21b13823216a6e1dcdee17337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 65/81] fix: LAYLA pairs the moments of areas of asymmetric
 laminates with their plies (lamination parameters were wrong)

---
 src/LAYLA_V02/optimiser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LAYLA_V02/optimiser.py b/src/LAYLA_V02/optimiser.py
index a6a8e6b..89312d8 100644
--- a/src/LAYLA_V02/optimiser.py
+++ b/src/LAYLA_V02/optimiser.py
@@ -108,13 +108,13 @@ laminates""")
     else:
         delta_lampams = np.empty((
             targets.n_plies, constraints.n_set_of_angles, 12), float)
-        for ind in range(lampam_weightings.shape[0]):
+        for ind, ind_ply in enumerate(ply_order):
             delta_lampams[
-                ind, :, 0:4] = mom_areas[ind, 0] * constraints.cos_sin
+                ind_ply, :, 0:4] = mom_areas[ind, 0] * constraints.cos_sin
             delta_lampams[
-                ind, :, 4:8] = mom_areas[ind, 1] * constraints.cos_sin
+                ind_ply, :, 4:8] = mom_areas[ind, 1] * constraints.cos_sin
             delta_lampams[
-                ind, :, 8:12] = mom_areas[ind, 2] * constraints.cos_sin
+                ind_ply, :, 8:12] = mom_areas[ind, 2] * constraints.cos_sin
 
     # asummed lamination parameters for ech ply groups
     lampam_assumed = np.zeros((n_groups, 12), float)
-- 
2.43.0


From c382d9cbbb1c19f4d565128043eead4029511f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 66/81] fix: LAYLA no longer discards compliant laminates for
 penalties that are rounding errors

---
 src/LAYLA_V02/outer_step_asym.py | 6 +++---
 src/LAYLA_V02/outer_step_sym.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LAYLA_V02/outer_step_asym.py b/src/LAYLA_V02/outer_step_asym.py
index 4f8f0cd..75b04c5 100644
--- a/src/LAYLA_V02/outer_step_asym.py
+++ b/src/LAYLA_V02/outer_step_asym.py
@@ -187,10 +187,10 @@ def outer_step_asym(
         coeff_oopo=parameters.coeff_oopo)
 
     # if repair failed
-    if ((constraints.rule_10_percent and penalty_10)\
-    or (constraints.ipo and penalty_ipo_lampam \
+    if ((constraints.rule_10_percent and penalty_10 > 1e-10)\
+    or (constraints.ipo and penalty_ipo_lampam > 1e-10 \
         and parameters.penalty_ipo_switch) \
-    or (constraints.ipo and penalty_ipo_pc \
+    or (constraints.ipo and penalty_ipo_pc > 1e-10 \
         and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
diff --git a/src/LAYLA_V02/outer_step_sym.py b/src/LAYLA_V02/outer_step_sym.py
index 74fc467..552c0fa 100644
--- a/src/LAYLA_V02/outer_step_sym.py
+++ b/src/LAYLA_V02/outer_step_sym.py
@@ -187,10 +187,10 @@ def outer_step_sym(
         coeff_oopo=parameters.coeff_oopo)
 
     # If repair failed
-    if ((constraints.rule_10_percent and penalty_10)\
-    or (constraints.ipo and penalty_ipo_lampam \
+    if ((constraints.rule_10_percent and penalty_10 > 1e-10)\
+    or (constraints.ipo and penalty_ipo_lampam > 1e-10 \
         and parameters.penalty_ipo_switch) \
-    or (constraints.ipo and penalty_ipo_pc \
+    or (constraints.ipo and penalty_ipo_pc > 1e-10 \
         and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
-- 
2.43.0


From 172c0ccd3bc6c2af12a0b0b6ce87b5c3906ca534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 67/81] fix: LAYLA prunes the plies of asymmetric laminates
 against their actual neighbours (IndexError, TypeError)

---
 src/LAYLA_V02/pruning.py | 113 ++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 73 deletions(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index 621db97..72a6349 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -39,6 +39,16 @@ def pruning_diso_contig_damtol(
     - constraints: lay-up design guidelines
     - targets.n_plies: laminate target ply counts
     '''
+    # plies already known below and above the new ply
+    ss_below = np.hstack((ss_bot_simp, mother_ss_bot))
+    if constraints.sym:
+        bottom = True
+        last_ply = level == targets.n_plies // 2 + targets.n_plies % 2 - 1
+    else:
+        ss_above = np.hstack((mother_ss_top, ss_top_simp))
+        # the plies are optimised from the laminate surfaces to its middle
+        bottom = level < targets.n_plies // 2 + targets.n_plies % 2
+        last_ply = level == targets.n_plies // 2
 # =============================================================================
 #       pruning for middle ply symmetry
 # =============================================================================
@@ -74,7 +84,7 @@ def pruning_diso_contig_damtol(
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-                        if child_ss[ind] != - mother_ss_bot[0]:
+                        if child_ss[ind] != - ss_below[0]:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
                 elif constraints.dam_tol_rule == 3:
@@ -85,7 +95,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_bot[0]:
+                            if child_ss[ind] != - ss_below[0]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
@@ -97,7 +107,7 @@ def pruning_diso_contig_damtol(
 
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-                        if child_ss[ind] != - mother_ss_top[-1]:
+                        if child_ss[ind] != - ss_above[-1]:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
                 elif constraints.dam_tol_rule == 3:
@@ -108,7 +118,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_top[-1]:
+                            if child_ss[ind] != - ss_above[-1]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
@@ -120,46 +130,20 @@ def pruning_diso_contig_damtol(
 #       pruning for disorientation
 # =============================================================================
     if constraints.diso:
-        if constraints.sym or level % 2: # plies at the laminate bottom part
-            #   externally with ss_bot_simp
-            if ss_bot_simp.size > 0 and mother_ss_bot.size == 0:
-                for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], ss_bot_simp[-1],
-                                   constraints.delta_angle):
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-            #   internally
-            elif mother_ss_bot.size > 0:
-                for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_bot[-1],
-                                   constraints.delta_angle):
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-
-        else: # asymetric laminate top part
-            #   externally with ss_top_simp
-            if ss_top_simp.size > 0 and mother_ss_top.size == 0:
-                for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], ss_top_simp[0],
-                                   constraints.delta_angle):
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-            #   internally
-            if mother_ss_top.size > 0:
-                for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_top[0],
-                                   constraints.delta_angle):
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-
-        if not constraints.sym and level == targets.n_plies - 1:
-            # last ply asymmetric laminates
-            if not level % 2: # check compatibility with laminate bottom part
-                for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_bot[-1],
-                                   constraints.delta_angle):
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-            else: # check compatibility with laminate top part
-                for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_top[0],
-                                   constraints.delta_angle):
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
+        # plies at the laminate bottom part & last ply
+        if bottom or last_ply:
+            for ind in range(child_ss.size)[:: -1]:
+                if ss_below.size > 0 \
+                and not is_diso(child_ss[ind], ss_below[-1],
+                                constraints.delta_angle):
+                    child_ss = np.delete(child_ss, np.s_[ind], axis=0)
+        # plies at the top part of asymmetric laminates & last ply
+        if not constraints.sym and (not bottom or last_ply):
+            for ind in range(child_ss.size)[:: -1]:
+                if ss_above.size > 0 \
+                and not is_diso(child_ss[ind], ss_above[0],
+                                constraints.delta_angle):
+                    child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
         if child_ss.size == 0:
             return None
@@ -169,9 +153,7 @@ def pruning_diso_contig_damtol(
     if constraints.contig:
 
         # laminate bottom part but not last ply
-        if (constraints.sym \
-            and not level == targets.n_plies // 2 + targets.n_plies % 2 - 1)\
-        or (not constraints.sym and not level == targets.n_plies - 1):
+        if bottom and not last_ply:
 
             for ind in range(child_ss.size)[:: -1]:
                 #   externally with ss_bot_simp
@@ -179,14 +161,13 @@ def pruning_diso_contig_damtol(
                     angle=np.array((child_ss[ind],)),
                     n_plies_group=1,
                     constraints=constraints,
-                    ss_before=np.hstack((ss_bot_simp, mother_ss_bot)))
+                    ss_before=ss_below)
                 if test.size == 0:
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
                     continue
 
-        # plies at the laminate bottom part but not last ply
-        elif not constraints.sym and not level % 2 \
-        and not level == targets.n_plies - 1:
+        # plies at the laminate top part but not last ply
+        elif not last_ply:
 
             for ind in range(child_ss.size)[:: -1]:
 
@@ -195,15 +176,13 @@ def pruning_diso_contig_damtol(
                     angle=np.array((child_ss[ind],)),
                     n_plies_group=1,
                     constraints=constraints,
-                    ss_before=np.flip(
-                        np.hstack((mother_ss_top, ss_top_simp)), axis=0))
+                    ss_before=np.flip(ss_above, axis=0))
                 if test.size == 0:
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
                     continue
 
         # last ply of symmetric laminate
-        elif constraints.sym \
-        and level == targets.n_plies // 2 + targets.n_plies % 2 - 1:
+        elif constraints.sym:
 
             ss_before = mother_ss_bot[
                 max(0, mother_ss_bot.size - constraints.n_contig):]
@@ -233,28 +212,16 @@ def pruning_diso_contig_damtol(
                     if not internal_contig2(new_stack, constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        # plies at the laminate bottom part and not last ply
-        elif not constraints.sym and level == targets.n_plies - 1:
-
-            ss_before = mother_ss_bot[
-                max(0, mother_ss_bot.size - constraints.n_contig):]
-            if ss_before.size < constraints.n_contig:
-                ss_before = np.hstack((
-                    ss_bot_simp[max(0, ss_bot_simp.size \
-                                    - constraints.n_contig + ss_before.size):],
-                    ss_before))
+        # last ply of asymmetric laminates
+        else:
 
-            ss_after = mother_ss_top[:constraints.n_contig]
-            if ss_after.size < constraints.n_contig:
-                ss_after = np.hstack((
-                    ss_after,
-                    ss_top_simp[:constraints.n_contig - ss_after.size:]))
+            ss_before = ss_below[max(0, ss_below.size - constraints.n_contig):]
+            ss_after = ss_above[:constraints.n_contig]
 
             for ind in range(child_ss.size)[:: -1]:
                 if not internal_contig2(
-                        new_stack=np.hstack((
-                            ss_before, child_ss[ind], ss_after)),
-                        constraints=constraints):
+                        np.hstack((ss_before, child_ss[ind], ss_after)),
+                        constraints):
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
         if child_ss.size == 0:
-- 
2.43.0


From 8965d41e47b76e3dc86c0bb67a3baf8f75f3de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 68/81] fix: LAYLA weights the objectives of asymmetric
 laminates by search level (the ply index was used)

---
 src/LAYLA_V02/beam_search.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 36267fc..2ba24e4 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -119,6 +119,10 @@ def beam_search(
     for local_level in range(group_size):
 
         level = levels[local_level]
+        # number of plies of the laminate known before this level
+        n_known = ss_bot.size + local_level
+        if not constraints.sym:
+            n_known += ss_top.size
 #        print('********************************')
 #        print('level', level)
 
@@ -260,7 +264,7 @@ def beam_search(
             obj_no_constraints = objectives(
                 lampam=lampam_tab[lampam_tab.shape[0] - n_solution:],
                 targets=targets,
-                lampam_weightings=lampam_weightings[level],
+                lampam_weightings=lampam_weightings[n_known],
                 constraints=constraints,
                 parameters=parameters,
                 mat_prop=mat_prop)
@@ -310,7 +314,7 @@ def beam_search(
                             lampam=calc_lampam_from_delta_lp_matrix(
                                 ss, constraints, delta_lampams),
                             targets=targets,
-                            lampam_weightings=lampam_weightings[level],
+                            lampam_weightings=lampam_weightings[n_known],
                             constraints=constraints,
                             parameters=parameters,
                             mat_prop=mat_prop)
@@ -330,8 +334,8 @@ def beam_search(
                 lampam_tab[lampam_tab.shape[0] - n_solution:],
                 constraints=constraints,
                 parameters=parameters,
-                cummul_areas=cummul_mom_areas[level, 0],
-                cummul_sec_mom_areas=cummul_mom_areas[level, 2])
+                cummul_areas=cummul_mom_areas[n_known, 0],
+                cummul_sec_mom_areas=cummul_mom_areas[n_known, 2])
 #            print('penalty_ipo_lampam', penalty_ipo_lampam.shape)
 #            print('penalty_oopo', penalty_oopo.shape)
 
@@ -342,7 +346,7 @@ def beam_search(
                 penalty_ipo_pc = calc_penalty_bal(
                     ply_counts,
                     constraints=constraints,
-                    cummul_areas=cummul_mom_areas[level, 0])
+                    cummul_areas=cummul_mom_areas[n_known, 0])
 #                print('penalty_ipo_pc', penalty_ipo_pc.shape)
 
             penalty_bal_ipo = max_arrays(penalty_ipo_pc, penalty_ipo_lampam)
-- 
2.43.0


From ab1d3843d766def8d3eda23a031323b58be2e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 69/81] fix: LAYLA adds plies to the side of asymmetric
 laminates they belong to (wrong after groups with an odd ply count)

---
 src/LAYLA_V02/beam_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 2ba24e4..2752c29 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -235,7 +235,7 @@ def beam_search(
                     new_stack_bot = np.copy(mother_ss_bot)
                     new_stack_top = np.copy(mother_ss_top)
 
-                    if local_level % 2:
+                    if level >= targets.n_plies // 2 + targets.n_plies % 2:
                         new_stack_top = np.hstack((
                             child_ss[indd], new_stack_top))
                     else:
-- 
2.43.0


From b0ecc1cd95864512e8468c3149dd767f8558cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 70/81] fix: LAYLA penalises the balance of each laminate with
 its own ply counts (those of the last one were used)

---
 src/LAYLA_V02/beam_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 2752c29..f5e35dd 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -344,7 +344,7 @@ def beam_search(
             penalty_ipo_pc = np.zeros((n_solution,))
             if constraints.ipo and parameters.penalty_bal_switch:
                 penalty_ipo_pc = calc_penalty_bal(
-                    ply_counts,
+                    ply_counts_tab[ply_counts_tab.shape[0] - n_solution:],
                     constraints=constraints,
                     cummul_areas=cummul_mom_areas[n_known, 0])
 #                print('penalty_ipo_pc', penalty_ipo_pc.shape)
-- 
2.43.0


From c71dd810c0da4012cba3abb34c5a776a83cf2bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 71/81] fix: the 10% rule repair does not count +-45 plies as a
 negative number of missing plies (too few free plies were left)

---
 src/RELAY/repair_10_bal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 87b5d60..9162c65 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -372,8 +372,8 @@ def repair_10_bal_2(ss_ini, mini_10, constraints):
 #    print('initial ply queue', ply_queue)
 
     if constraints.rule_10_percent and constraints.percent_45_135:
-        missing_extra_45_135 = ma.ceil(mini_10[4]) \
-        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3])
+        missing_extra_45_135 = max(0, ma.ceil(mini_10[4]) \
+        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3]))
     else:
         missing_extra_45_135 = 0
 
@@ -712,8 +712,8 @@ if __name__ == "__main__":
     n_135 = ma.ceil(mini_10[3])
     n_45_135 = ma.ceil(mini_10[4])
     if constraints.rule_10_percent and constraints.percent_45_135:
-        missing_extra_45_135 = ma.ceil(mini_10[4]) \
-        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3])
+        missing_extra_45_135 = max(0, ma.ceil(mini_10[4]) \
+        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3]))
     else:
         missing_extra_45_135 = 0
     print('n_45', n_45)
-- 
2.43.0


From 03f6cd550c64694bc15098505fd10889b188541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 72/81] fix: the results of LAYLA hold the best laminate under
 the names its display uses (TypeError)

---
 src/LAYLA_V02/optimiser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LAYLA_V02/optimiser.py b/src/LAYLA_V02/optimiser.py
index 89312d8..c649ca9 100644
--- a/src/LAYLA_V02/optimiser.py
+++ b/src/LAYLA_V02/optimiser.py
@@ -223,6 +223,8 @@ laminates""")
     results.objective = results.obj_tab[ind_mini]
     results.ss = results.ss_tab[ind_mini]
     results.lampam = results.lampam_tab_tab[ind_mini]
+    results.ss_best = results.ss
+    results.lampam_best = results.lampam
     results.completed = True
 
     return results
\ No newline at end of file
-- 
2.43.0


From c14c828284a6db4f67c064621ddadb9555d16603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:44 +0000
Subject: [PATCH 73/81] fix: count each contiguity violation once as plies are
 added

---
 src/guidelines/contiguity.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/guidelines/contiguity.py b/src/guidelines/contiguity.py
index 12dbe7f..0346f65 100644
--- a/src/guidelines/contiguity.py
+++ b/src/guidelines/contiguity.py
@@ -177,7 +177,7 @@ def calc_n_viola_contig(
                 if pdl[ind_panel, level] >= 0:
                     new_stack = np.hstack((
                         mother_ss_bot[ind_panel][-constraints.n_contig:],
-                        np.array([child_ss]),
+                        np.array([child_ss[0]]),
                         np.flip(mother_ss_bot[
                             ind_panel][-constraints.n_contig:], axis=0)))
                 else:
@@ -196,8 +196,8 @@ def calc_n_viola_contig(
                 if pdl[ind_panel, level] >= 0:
                     new_stack = np.hstack((
                         mother_ss_bot[ind_panel][-constraints.n_contig:],
-                        np.array([child_ss]),
-                        np.array([child_ss]),
+                        np.array([child_ss[0]]),
+                        np.array([child_ss[0]]),
                         np.flip(mother_ss_bot[
                             ind_panel][-constraints.n_contig:], axis=0)))
                 else:
@@ -222,9 +222,6 @@ def calc_n_viola_contig(
                         else:
                             n_viola_contig[ind_panel] += 1
 
-                vector = calc_contig_vector(new_stack, constraints.n_contig)
-                n_viola_contig[ind_panel] += np.sum(vector)
-
     else: ### top
         for ind_panel in range(n_panels):
             if pdl[ind_panel, level] >= 0 \
@@ -232,7 +229,6 @@ def calc_n_viola_contig(
                 new_stack = np.hstack((
                     np.array([child_ss[0]]),
                     mother_ss_top[ind_panel][:constraints.n_contig]))
-                vector = calc_contig_vector(new_stack, constraints.n_contig)
                 if not is_contig(new_stack, constraints.n_contig):
                     n_viola_contig[ind_panel] += 1
 
-- 
2.43.0


From 6b406be7e496565777d2ca1146c58e17659b74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:52 +0000
Subject: [PATCH 74/81] fix: the scripts formatting the FXI results read
 structures whose panels have a single neighbour each (AttributeError)

---
 FXI-results/format_restults_FXI_SST_1.py     | 4 ++--
 FXI-results/format_restults_FXI_horseshoe.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 684af34..befd6de 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -156,8 +156,8 @@ for ind_panel in range(data_panels.shape[0]):
         n_plies=int(data_panels["Number of plies"].iloc[ind_panel]),
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
-        neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+        neighbour_panels=np.array(str(data_panels[
+            "Neighbour panel IDs"].iloc[ind_panel]).split(" "), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index bb2fa56..b83e0c0 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -154,8 +154,8 @@ for ind_panel in range(data_panels.shape[0]):
         n_plies=int(data_panels["Number of plies"].iloc[ind_panel]),
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
-        neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+        neighbour_panels=np.array(str(data_panels[
+            "Neighbour panel IDs"].iloc[ind_panel]).split(" "), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
-- 
2.43.0


From c33797c718d4d8f056d8e07208e91e134f601c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 75/81] fix: the scripts formatting the FXI results count the
 plies of each panel for the 10% rule (AttributeError without ply drop
 spacing)

---
 FXI-results/format_restults_FXI_SST_1.py     | 3 +--
 FXI-results/format_restults_FXI_horseshoe.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index befd6de..73e044f 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -209,8 +209,7 @@ else:
 if constraints.rule_10_percent and constraints.rule_10_Abdalla:
     penalty_10 = calc_penalty_10_ss(ss, constraints, lampam, mp=True)
 else:
-    penalty_10 = calc_penalty_10_pc(
-        calc_ply_counts(multipanel, ss, constraints), constraints)
+    penalty_10 = calc_penalty_10_ss(ss, constraints, LPs=None, mp=True)
 
 # balance
 penalty_bal_ipo = calc_penalty_ipo(lampam)
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index b83e0c0..556f57f 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -211,8 +211,7 @@ else:
 if constraints.rule_10_percent and constraints.rule_10_Abdalla:
     penalty_10 = calc_penalty_10_ss(ss, constraints, lampam, mp=True)
 else:
-    penalty_10 = calc_penalty_10_pc(
-        calc_ply_counts(multipanel, ss, constraints), constraints)
+    penalty_10 = calc_penalty_10_ss(ss, constraints, LPs=None, mp=True)
 
 # balance
 penalty_bal_ipo = calc_penalty_ipo(lampam)
-- 
2.43.0


From b00fb9e5780ff83b3fb7c731f23c10cf02658483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:50 +0000
Subject: [PATCH 76/81] fix: the balance coefficient of the input file is kept
 by the scripts formatting the FXI results (it was ignored)

---
 FXI-results/format_restults_FXI_SST_1.py     | 2 ++
 FXI-results/format_restults_FXI_horseshoe.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 73e044f..0fdfc46 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -119,6 +119,7 @@ data_objective = pd.read_excel(filename_input, sheet_name='Objective function',
 coeff_10 = data_objective["coeff_10"].iloc[0]
 coeff_contig = data_objective["coeff_contig"].iloc[0]
 coeff_diso = data_objective["coeff_diso"].iloc[0]
+coeff_bal_ipo = data_objective["coeff_bal_ipo"].iloc[0]
 coeff_oopo = data_objective["coeff_oopo"].iloc[0]
 coeff_spacing = data_objective["coeff_spacing"].iloc[0]
 
@@ -127,6 +128,7 @@ obj_func_param = ObjFunction(
     coeff_contig=coeff_contig,
     coeff_diso=coeff_diso,
     coeff_10=coeff_10,
+    coeff_bal_ipo=coeff_bal_ipo,
     coeff_oopo=coeff_oopo,
     coeff_spacing=coeff_spacing)
 
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index 556f57f..2997c11 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -118,6 +118,7 @@ data_objective = pd.read_excel(filename_input, sheet_name='Objective function',
 coeff_10 = data_objective["coeff_10"].iloc[0]
 coeff_contig = data_objective["coeff_contig"].iloc[0]
 coeff_diso = data_objective["coeff_diso"].iloc[0]
+coeff_bal_ipo = data_objective["coeff_bal_ipo"].iloc[0]
 coeff_oopo = data_objective["coeff_oopo"].iloc[0]
 coeff_spacing = data_objective["coeff_spacing"].iloc[0]
 
@@ -126,6 +127,7 @@ obj_func_param = ObjFunction(
     coeff_contig=coeff_contig,
     coeff_diso=coeff_diso,
     coeff_10=coeff_10,
+    coeff_bal_ipo=coeff_bal_ipo,
     coeff_oopo=coeff_oopo,
     coeff_spacing=coeff_spacing)
 
-- 
2.43.0


From 1ba475b2cae81dc987ce7b153bb2a1b7639536cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:08 +0000
Subject: [PATCH 77/81] fix: LAYLA run scripts stopped before their results
 were written (ExcelWriter.save no longer exists)

---
 src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py | 2 +-
 src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py  | 2 +-
 src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py b/src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py
index 62a6cb0..a36eb13 100644
--- a/src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py
+++ b/src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py
@@ -855,7 +855,7 @@ for i in range(len(data.index)):
 ### Write results in a excell sheet
 writer = pd.ExcelWriter(result_filename)
 table_result.to_excel(writer, 'results')
-writer.save()
+writer.close()
 save_constraints_LAYLA(result_filename, constraints)
 save_parameters_LAYLA_V02(result_filename, parameters)
 save_materials(result_filename, mat_prop)
diff --git a/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py b/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
index 15026ea..3301f46 100644
--- a/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
+++ b/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
@@ -730,7 +730,7 @@ while n_plies_lam < ending + step:
 ### Write results in a excell sheet
 writer = pd.ExcelWriter(result_filename)
 table_result.to_excel(writer, 'results')
-writer.save()
+writer.close()
 save_constraints_LAYLA(result_filename, constraints)
 save_parameters_LAYLA_V02(result_filename, parameters)
 save_materials(result_filename, mat_prop)
diff --git a/src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py b/src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py
index 38945ce..1df26ae 100644
--- a/src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py
+++ b/src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py
@@ -762,7 +762,7 @@ for i in range(len(data.index)):
 ### Write results in a excell sheet
 writer = pd.ExcelWriter(result_filename)
 table_result.to_excel(writer, 'results')
-writer.save()
+writer.close()
 save_constraints_LAYLA(result_filename, constraints)
 save_parameters_LAYLA_V02(result_filename, parameters)
 save_materials(result_filename, mat_prop)
-- 
2.43.0


From 8be68f410b6dd601edb9eb6ec5ff1581a77586bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:08 +0000
Subject: [PATCH 78/81] fix: ply counts of laminates without a design were
 saved in a second column

---
 src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py | 2 +-
 src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py  | 2 +-
 src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py b/src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py
index a36eb13..c65009e 100644
--- a/src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py
+++ b/src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py
@@ -379,7 +379,7 @@ for i in range(len(data.index)):
     if not result.completed:
 
         # Laminate ply count
-        table_result.loc[i, 'ply count'] = n_plies_lam
+        table_result.loc[i, 'Ply count'] = n_plies_lam
 
         # number of the outer loop with the best results
         table_result.loc[i, 'best outer loop'] = np.NaN
diff --git a/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py b/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
index 3301f46..269f2e4 100644
--- a/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
+++ b/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
@@ -345,7 +345,7 @@ while n_plies_lam < ending + step:
     if not result.completed:
 
         # Laminate ply count
-        table_result.loc[i, 'ply count'] = n_plies_lam
+        table_result.loc[i, 'Ply count'] = n_plies_lam
 
         # number of the outer loop with the best results
         table_result.loc[i, 'best outer loop'] = np.NaN
diff --git a/src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py b/src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py
index 1df26ae..89acecc 100644
--- a/src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py
+++ b/src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py
@@ -381,7 +381,7 @@ for i in range(len(data.index)):
     if not result.completed:
 
         # Laminate ply count
-        table_result.loc[i, 'ply count'] = n_plies_lam
+        table_result.loc[i, 'Ply count'] = n_plies_lam
 
         # number of the outer loop with the best results
         table_result.loc[i, 'best outer loop'] = np.NaN
-- 
2.43.0


From 06b71d3601c0ea2c631ed5b5a027f8570401c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:08 +0000
Subject: [PATCH 79/81] fix: run_LAYLA_V02_loop.py stopped at the first
 laminate without a design (a stack instead of its text in a cell)

---
 src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py b/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
index 269f2e4..69ac84b 100644
--- a/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
+++ b/src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py
@@ -413,7 +413,7 @@ while n_plies_lam < ending + step:
 
         # Target stacking sequence
         ss_flatten = np.array(ss_target, dtype=str)
-        #ss_flatten = ' '.join(ss_flatten)
+        ss_flatten = ' '.join(ss_flatten)
         table_result.loc[i, 'ss target'] = ss_flatten
 
 #        # Ply counts
-- 
2.43.0


From 5175bacac473725ed0746abfc5d14cefae2e371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:06 +0000
Subject: [PATCH 80/81] fix: subset_sum_count and subset_sum_find stopped
 (np.bool no longer exists)

---
 src/divers/subset_sum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index 5fc0e91..b1d3cb1 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -153,7 +153,7 @@ def subset_next_test ( ):
 
   print ( '' )
   n = 5
-  t = np.zeros ( n, dtype = np.bool )
+  t = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
@@ -216,7 +216,7 @@ def subset_sum_count ( n, w, t ):
 
   count = 0
 
-  s = np.zeros ( n, dtype = np.bool )
+  s = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
@@ -413,8 +413,8 @@ def subset_sum_find ( n, w, t ):
   import numpy as np
   from sys import exit
 
-  s = np.zeros ( n, dtype = np.bool )
-  s2 = np.zeros ( n, dtype = np.bool )
+  s = np.zeros ( n, dtype = bool )
+  s2 = np.zeros ( n, dtype = bool )
   rank = -1
 
   while ( True ):
-- 
2.43.0


From 6567896465a16541bbacb860757c7c09da626e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:06 +0000
Subject: [PATCH 81/81] fix: subset_sum_table_to_list did not end when there is
 no solution

---
 src/divers/subset_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divers/subset_sum.py b/src/divers/subset_sum.py
index b1d3cb1..f6d1790 100644
--- a/src/divers/subset_sum.py
+++ b/src/divers/subset_sum.py
@@ -1063,7 +1063,7 @@ def subset_sum_table_to_list ( t, table ):
 
   m = 0
   i = t
-  while ( 0 < i ):
+  while ( 0 < i and table[i] != 0 ):
     index.append ( table[i] )
     i = i - table[i]
     m = m + 1
-- 
2.43.0

