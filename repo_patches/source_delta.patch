From a547c566243147ee9d1ea4f252b374683c6c2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:21 +0000
Subject: [PATCH 01/14] fix: residual equations of order 5 and 6 emit valid
 einsum labels and prefactors

The label pool only had four letters, so orders above 4 silently dropped
external labels, and the denominator of '1/(2*n!)' was read as 2.
---
 termfactory/code_residual_equations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index b7472c0..4d5548e 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -72,6 +72,9 @@ def extract_numerator_denominator_from_string(s):
     from a string (s) of a fraction w factorial in denominator part.
     """
 
+    if "/(2*" in s:  # the factor of 2 in the denominator is not part of the number we want
+        s = s.replace("/(2*", "/(")
+
     if "*" in s:  # we are only trying to get the first fraction
         s = s.split('*')[0]
 
@@ -343,14 +346,14 @@ w_dict = {
 }
 
 
-i_list = ['i', 'j', 'k', 'l']
+i_list = ['i', 'j', 'k', 'l', 'o', 'p', 'q', 'r']
 k_list = ['m', 'n']
 
 
 def _generate_einsum_h_indices(term):
     """Generate the indices for the h term in the residual's einsum equation
     upper or lower k's should map to the letters 'm' and 'n'
-    upper or lower i's should map to the letters 'ijkl'
+    upper or lower i's should map to the letters 'ijklopqr'
     """
     h_dims = 'ac'
     h_dims += ''.join(k_list[0:term.h.max_k])  # generate mn's
@@ -361,7 +364,7 @@ def _generate_einsum_h_indices(term):
 def _generate_einsum_w_indices(term):
     """Generate the indices for the W operator in the residual's einsum equation
     upper or lower k's should map to the letters 'm' and 'n'
-    upper or lower i's should map to the letters 'ijkl'
+    upper or lower i's should map to the letters 'ijklopqr'
     """
     w_dims = 'cb'
     w_dims += ''.join(k_list[0:term.w.max_k])  # generate mn's
-- 
2.43.0


From 90b1d96d4feb31ebd47b750f4473d17ccdb9feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:48 +0000
Subject: [PATCH 02/14] fix: name the sextic truncation level so that rank 6
 truncations generate

Rank 6 Hamiltonian and cluster operators are accepted by the truncation
validation but raised IndexError when the python code was written.
---
 termfactory/code_w_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_w_equations.py b/termfactory/code_w_equations.py
index b709241..e552dea 100644
--- a/termfactory/code_w_equations.py
+++ b/termfactory/code_w_equations.py
@@ -179,7 +179,7 @@ def _generate_w_operator_prefactor(tupl):
 
 num_tag = ["zero", "1st", "2nd", "3rd", "4th", "5th", "6th", "7th", "8th"]
 taylor_series_order_tag = ["", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples"]
-hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic"]
+hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic"]
 einsum_surface_tags = "acdefghi"
 tag_str = "ijklmnop"
 
-- 
2.43.0


From 4e20a7188c0d178f757cc918956bd051eb562bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 03/14] fix: enough summation labels for eT_z_t and z_t latex
 terms with more than five contractions

Terms with six or more contractions silently lost the labels beyond the fifth.
---
 termfactory/common_imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/common_imports.py b/termfactory/common_imports.py
index d13dfce..1b361ba 100644
--- a/termfactory/common_imports.py
+++ b/termfactory/common_imports.py
@@ -28,5 +28,5 @@ unlinked_indices = 'zyxwvuts'
 
 
 """ These are the indices used to label the h and z's in the generated latex"""
-z_summation_indices = 'klmno'
+z_summation_indices = 'klmnopqr'
 z_unlinked_indices = 'yxwvuts'
-- 
2.43.0


From faca00c1d76888826ad0002e712e214ec40676e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:58 +0000
Subject: [PATCH 04/14] fix: do not skip a free label in condensed linked
 disconnected terms of the full cc latex

---
 termfactory/latex_full_cc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index bcdec50..6f84d53 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -1194,6 +1194,9 @@ def _make_latex(rank, term_list, linked_condense=False, unlinked_condense=False,
         if linked_condense:
             linked_list_index, new_t_list, t_offset_dict = _linked_condensed_adjust_t_terms(common_linked_factor_list, h, t_list)
 
+            # both the offset above and `_build_t_term_latex_group` count the labels of h, count them only once
+            t_offset_dict['unlinked'] -= h.m_o + h.n_o
+
             # prepare the t-amplitude terms
             t_string_list = _build_t_term_latex_group(new_t_list, h, t_offset_dict)
 
-- 
2.43.0


From 2f118ad91270341bee55815caaebcfb0b8755ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:42 +0000
Subject: [PATCH 05/14] fix: full cc python keeps all terms that share a
 prefactor

---
 termfactory/code_full_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index e0631fd..b66b662 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -408,7 +408,7 @@ def _write_cc_einsum_python_from_list(truncations, t_term_list, opt_einsum=False
 
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         if permutations is None:
@@ -867,7 +867,7 @@ def _write_cc_optimized_paths_from_list(truncations, t_term_list, local_list_nam
         # we still need to account for output/omega permutations
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         for t in t_list:
-- 
2.43.0


From f62cc3524d2b638fbbd918684960fc28873a1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:16 +0000
Subject: [PATCH 06/14] fix: excited state w equations do not depend on the
 length of an existing file

---
 termfactory/latex_w_equations.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index 3a7eb93..dc2cb7e 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -245,17 +245,22 @@ def excited_state_w_equations_latex(max_w_order, path="./thermal_w_equations.tex
         latex_code = latex_code[:-3] + ")\\\\ \n\n"
     latex_code += "\\end{equation}\n"
 
+    header = ''
+
     # if file already exists then update it
     if os.path.isfile(path): # pragma: no cover
 
         # read the entire file contents
         with open(path, 'r') as fp:
-            file_contents = fp.readlines()
+            file_contents = fp.read()
 
-        # keep only the header
-        header = ''.join(file_contents[0:29])
+        # keep only the header (a file that was written by this function doesn't have one)
+        start_of_document = '\\begin{document}\n'
+        if start_of_document in file_contents:
+            header = file_contents[:file_contents.index(start_of_document) + len(start_of_document)]
 
-        # write the new header with latex code attached
+    # write the new header with latex code attached
+    if header != '': # pragma: no cover
         with open(path, 'w') as fp:
             fp.write(header + latex_code + r'\end{document}')
 
-- 
2.43.0


From cc707d6aef4d8c39698eb7dbc75948111fd22539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:46 +0000
Subject: [PATCH 07/14] fix: dt/dtau z terms of the z_t latex use the labels of
 the projection

---
 termfactory/latex_zhz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 2259974..44362f0 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1654,7 +1654,7 @@ def _build_fifth_z_term(LHS, Z):
         if z_m == 0:
             z_term_latex = f"\\hat{{{bold_z_latex}}}_{{0, \\gamma}}"
         else:
-            z_upper_label = f"{summation_indices[LHS.rank-z_m:LHS.rank]}"
+            z_upper_label = f"{summation_indices[LHS.n-z_m:LHS.n]}"
             z_term_latex = f"\\hat{{{bold_z_latex}}}^{{{z_upper_label}}}_{{\\gamma}}"
 
         # glue them together
-- 
2.43.0


From 63513bdf1471572da9adbdc33e8be8bcd8bfc60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:53 +0000
Subject: [PATCH 08/14] fix: z_t latex verifies its truncations like the other
 generators

---
 termfactory/latex_zhz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 44362f0..da0d6dc 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -12,7 +12,7 @@ from common_imports import tab, z_summation_indices, z_unlinked_indices, summati
 from latex_full_cc import generate_omega_operator, generate_full_cc_hamiltonian_operator, _omega_joining_with_itself, _h_joining_with_itself, disconnected_namedtuple
 from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple
 import reference_latex_headers as headers
-from truncations import _verify_fcc_truncations
+from truncations import _verify_zhz_truncations
 from truncation_keys import TruncationsKeys as tkeys
 import log_conf
 
@@ -1727,6 +1727,7 @@ def generate_z_t_symmetric_latex(truncations, **kwargs):
     path = kwargs['path']
 
     # unpack truncations
+    _verify_zhz_truncations(truncations)
     maximum_h_rank = truncations[tkeys.H]
     maximum_cc_rank = truncations[tkeys.CC]
     omega_max_order = truncations[tkeys.P]
-- 
2.43.0


From e5884200528a89488931327f0f5907f6aeebd864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:53 +0000
Subject: [PATCH 09/14] fix: rejecting an unknown eT_z_t truncation key does
 not raise AttributeError

---
 termfactory/truncations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 612b526..abd34f9 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -140,7 +140,7 @@ def _verify_eT_z_t_truncations(truncations):
     for key in truncations.keys():
         if key not in tkeys:
             raise Exception(
-                f"{key = } is not one of the valid keys for fcc.\n{tkeys.eT_key_list()}"
+                f"{key = } is not one of the valid keys for fcc.\n{tkeys.eTz_key_list()}"
             )
 
     # change in the future possibly? if we use enums for all lists?
-- 
2.43.0


From e2beec15e62216e46d9bdfd887713e6ef891d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:33 +0000
Subject: [PATCH 10/14] fix: load_trunc_from_JSON overwrites a provided
 dictionary as documented

---
 termfactory/truncations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index abd34f9..5462c17 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -229,11 +229,9 @@ def load_trunc_from_JSON(path, dictionary=None):
         # verify_model_parameters(new_model_dict)
         return new_trunc_dict
 
-    # arrays were provided so fill them with the appropriate values
-    # else:
-        # verify_model_parameters(dictionary)
-        # _load_inplace_from_JSON(path, dictionary)
-        # check twice? might as well be cautious for the moment until test cases are written
-        # verify_model_parameters(dictionary)
+    # a dictionary was provided so overwrite (in place) its contents
+    new_trunc_dict = _load_from_JSON(path)
+    dictionary.clear()
+    dictionary.update(new_trunc_dict)
 
     return
-- 
2.43.0


From d3557bc83a28fb136c57d4ced08b28dabf4bc44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:33 +0000
Subject: [PATCH 11/14] fix: -rf False does not remove the f terms

---
 termfactory/driver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/termfactory/driver.py b/termfactory/driver.py
index 512dae9..2ab6f73 100644
--- a/termfactory/driver.py
+++ b/termfactory/driver.py
@@ -15,6 +15,15 @@ def dump_all_stdout_to_devnull():
     sys.stdout = open(os.devnull, 'w')
 
 
+def _parse_bool(string):
+    """ The builtin `bool` is True for any non-empty string, including 'False'. """
+    if string.lower() in ('true', 't', 'yes', 'y', '1'):
+        return True
+    if string.lower() in ('false', 'f', 'no', 'n', '0', ''):
+        return False
+    raise argparse.ArgumentTypeError(f'{string!r} is not a boolean value')
+
+
 def prepare_parsed_arguments():
     """ Wrapper for argparser setup """
 
@@ -33,7 +42,7 @@ def prepare_parsed_arguments():
     parser.add_argument('-t', nargs='+', type=int, default=None, help="Provided Truncations, example: -t 2 2 2 2")
     parser.add_argument('-a', '--ansatz', type=str, default=None, help="Specify Ansatz")
     parser.add_argument('-es', '--excited_state', action='store_true', help="Only ground state?")
-    parser.add_argument('-rf', '--remove_f_terms', type=bool, default=False, help="Choose to remove f terms")
+    parser.add_argument('-rf', '--remove_f_terms', type=_parse_bool, default=False, help="Choose to remove f terms")
     parser.add_argument('-c', '--code', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
     parser.add_argument('-lhs', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
 
-- 
2.43.0


From 04470af072fe4fa6c2116fce002cdff0a6de66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:12 +0000
Subject: [PATCH 12/14] fix: refuse truncation values that are not integers
 (1.5, 2.0 passed the range check)

---
 termfactory/truncations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 5462c17..dc92e7e 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -91,6 +91,7 @@ def __verify_keys(truncations, key_list):
     """
     for key in key_list:
         assert key in truncations, f"Missing key, {key = :s} not in provided dictionary {truncations=:}"
+        assert isinstance(truncations[key], int), "Truncations need to be positive integers"
         assert truncations[key] >= 1, "Truncations need to be positive integers"
         assert truncations[key] <= truncation_maximums[key], f"Key {key} is over the maximum of {truncation_maximums[key]}"
 
-- 
2.43.0


From 9582a0914d1c86cfa22e90366abeee7344dd66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:26 +0000
Subject: [PATCH 13/14] fix: brace exponents of more than one digit in the W
 operator LaTeX

---
 termfactory/latex_w_equations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index dc2cb7e..e0586a5 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -51,6 +51,11 @@ def generate_w_prefactor(w_dict):
     return result
 
 
+def _power_latex(exponent):
+    """ An exponent of more than one digit has to be wrapped in braces, `^10` is typeset as `^{1}0`. """
+    return f"^{exponent}" if exponent < 10 else f"^{{{exponent}}}"
+
+
 def generate_labels_on_w(order, is_excited=True):
     """ x """
     start = list(range(1, order+1))
@@ -108,7 +113,7 @@ def ground_state_w_equations_latex(max_w_order, path="./ground_state_w_equations
                 if item_dict[n] == 1:
                     line += rf"\bt^{{{n}}}"
                 else:
-                    line += rf"(\bt^{{{n}}})^{item_dict[n]}"
+                    line += rf"(\bt^{{{n}}}){_power_latex(item_dict[n])}"
 
             terms.append(line)
 
@@ -232,7 +237,7 @@ def excited_state_w_equations_latex(max_w_order, path="./thermal_w_equations.tex
                     power = ""
                 else:
                     latex_code += "("
-                    power += f")^{item_dict[n]}"
+                    power += f"){_power_latex(item_dict[n])}"
 
                 if n[0] == 0:
                     latex_code += f"\\bt_{{{n[1]}}}"
-- 
2.43.0


From 455a8a982e6bbb94a0c7c18a3f4bd8dc9113bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 14/14] fix: full-CC prefactors print their factorials in an
 order that does not depend on the hash seed

---
 termfactory/code_full_cc.py  | 4 ++--
 termfactory/latex_full_cc.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index b66b662..3a13b18 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -199,13 +199,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index 6f84d53..706b109 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -970,13 +970,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
-- 
2.43.0

