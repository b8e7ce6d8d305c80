From 0a79e273acf406695d84b3ba31100af8041d3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:59 +0000
Subject: [PATCH 1/4] fix: cancel prefactors in first-seen order so output does
 not depend on the hash seed

_simplify_full_cc_python_prefactor rebuilt the numerator/denominator lists by
iterating a set of strings, so LaTeX for e.g. H=4, S=3 excited-state equations
differed between processes with different PYTHONHASHSEED.
---
 termfactory/code_full_cc.py  | 4 ++--
 termfactory/latex_eT_zhz.py  | 4 ++--
 termfactory/latex_full_cc.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index e0631fd..8f885ee 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -199,13 +199,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])  # keep first-seen order, not set order
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])  # keep first-seen order, not set order
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_eT_zhz.py b/termfactory/latex_eT_zhz.py
index 44a776d..1e37d72 100644
--- a/termfactory/latex_eT_zhz.py
+++ b/termfactory/latex_eT_zhz.py
@@ -1094,13 +1094,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):  # pra
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])  # keep first-seen order, not set order
     for string in numerator_list:
         numerator_dict[string] += 1
 
     log.debug('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])  # keep first-seen order, not set order
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index bcdec50..e1c82bb 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -970,13 +970,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])  # keep first-seen order, not set order
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])  # keep first-seen order, not set order
     for string in denominator_list:
         denominator_dict[string] += 1
 
-- 
2.43.0


From 792074ab851cf6d46ecb21ffcb3a424ebf2a1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:10 +0000
Subject: [PATCH 2/4] fix: regenerating the thermal W equations over an earlier
 output no longer corrupts it

The first 29 lines of whatever file already existed were kept as a 'header',
even when the file was this function's own (header-less) output, so a re-run
duplicated the equations. Keep a header only when the file has one.
---
 termfactory/latex_w_equations.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index 3a7eb93..fdc5044 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -252,16 +252,14 @@ def excited_state_w_equations_latex(max_w_order, path="./thermal_w_equations.tex
         with open(path, 'r') as fp:
             file_contents = fp.readlines()
 
-        # keep only the header
-        header = ''.join(file_contents[0:29])
+        # keep only the header (everything up to and including `\begin{document}`)
+        # a file without one, such as an earlier output of this function, has no header to keep
+        for i, line in enumerate(file_contents):
+            if line.strip() == r'\begin{document}':
+                latex_code = ''.join(file_contents[:i+1]) + latex_code + r'\end{document}'
+                break
 
-        # write the new header with latex code attached
-        with open(path, 'w') as fp:
-            fp.write(header + latex_code + r'\end{document}')
-
-    # otherwise write a new file
-    else: # pragma: no cover
-        with open(path, 'w') as fp:
-            fp.write(latex_code)
+    with open(path, 'w') as fp:
+        fp.write(latex_code)
 
     return
\ No newline at end of file
-- 
2.43.0


From 62b03680ff827c7549b0c486b473977ccce68317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:29 +0000
Subject: [PATCH 3/4] fix: verify truncations before saving them

save_trunc_to_JSON overwrote the saved record with values that
load_trunc_from_JSON then refuses (e.g. 'driver.py -t 7 1 1'), destroying the
previous record.
---
 termfactory/truncations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 612b526..98fcbdc 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -164,9 +164,14 @@ def _save_to_JSON(path, dictionary):
 
 def save_trunc_to_JSON(path, dictionary):
     """ wrapper for _save_to_JSON
-    calls verify_model_parameters() before calling _save_to_JSON()
+    verifies the truncations (as `_load_from_JSON` does) before calling _save_to_JSON()
     """
-    # verify_model_parameters(dictionary)  modify _verify_func
+    verify_functions = {
+        'fcc': _verify_fcc_truncations,
+        'eTz': _verify_eT_z_t_truncations,
+        'zhz': _verify_zhz_truncations,
+    }
+    verify_functions[tkeys.key_list_type(dictionary)](dictionary)
     # log.debug(f"Saving model to {path:s}")
     _save_to_JSON(path, dictionary)
     return
-- 
2.43.0


From bbb99a72d625da9234bfa6fe1f5f89b720803487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:20 +0000
Subject: [PATCH 4/4] fix: load_trunc_from_JSON fills a provided dictionary as
 documented

The record was not even read when a dictionary was passed: a missing or
damaged record was silently ignored and the old values were kept.
---
 termfactory/truncations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 98fcbdc..dfeb704 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -234,11 +234,9 @@ def load_trunc_from_JSON(path, dictionary=None):
         # verify_model_parameters(new_model_dict)
         return new_trunc_dict
 
-    # arrays were provided so fill them with the appropriate values
-    # else:
-        # verify_model_parameters(dictionary)
-        # _load_inplace_from_JSON(path, dictionary)
-        # check twice? might as well be cautious for the moment until test cases are written
-        # verify_model_parameters(dictionary)
+    # a dictionary was provided so overwrite its values (in place)
+    new_trunc_dict = _load_from_JSON(path)
+    dictionary.clear()
+    dictionary.update(new_trunc_dict)
 
     return
-- 
2.43.0

