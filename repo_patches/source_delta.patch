From b2f0b534ec7b9aa44254914c411fa3e546fbd555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 01/44] fix: avoid exp() overflow when converting channel LLRs
 to the eps format

For 2y/sigma^2 above about 709 exp() overflowed, the conversion gave NaN and
even a noiseless codeword was decoded to a wrong word. Use the equivalent
-tanh(y/2).
---
 formats/formats.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/formats/formats.h b/formats/formats.h
index bb90a32..e72d1d9 100644
--- a/formats/formats.h
+++ b/formats/formats.h
@@ -85,8 +85,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = -tanh(0.5 * (y[i])); \
       FORMAT_CLIP(e[i]); \
    } \
 }
@@ -95,10 +94,7 @@
 #ifndef FORMAT_USE_CLIPPING
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
-   for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
-   } \
+   for (i = 0; i < n; i++) e[i] = -tanh(0.5 * (y[i])); \
 }
 #endif // if not FORMAT_USE_CLIPPING
 
-- 
2.43.0


From 767cd2722ffb73f07ac5e589416fe06e8fa49a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 02/44] fix: clip strong inputs and bound the list in the
 first-order ML decoders

rm1_dec_sh() and rm1_dec_lst() converted their input without the clipping of
the format, so strong inputs gave infinite or NaN metrics and a wrong word;
rm1_dec_lst() clamped the list size only after filling its 4096 entry arrays.
---
 rm1_ml/rm1_ml.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/rm1_ml/rm1_ml.c b/rm1_ml/rm1_ml.c
index 0b53c69..7b7f1c3 100644
--- a/rm1_ml/rm1_ml.c
+++ b/rm1_ml/rm1_ml.c
@@ -53,10 +53,7 @@ int rm1_dec_sh(
 
 #ifdef FORMAT_EPS
    // Convert y_in to the epsilon format.
-   for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
-   }
+   VY_TO_FORMAT(y_in, ylist, c_n);
 #endif // FORMAT_EPS
 
 #ifdef FORMAT_GAMMA
@@ -158,10 +155,7 @@ int rm1_dec_lst(
 
 #ifdef FORMAT_EPS
    // Convert y_in to the epsilon format.
-   for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
-   }
+   VY_TO_FORMAT(y_in, ylist, c_n);
 #endif // FORMAT_EPS
 
 #ifdef FORMAT_GAMMA
@@ -219,6 +213,8 @@ int rm1_dec_lst(
    }
 
    // Last end node (0, 0).
+   if (lsiz > c_n) lsiz = c_n;
+   if (lsiz > 4096) lsiz = 4096;
    for (j = 0; j < lsiz; j++) {
       sa[j] = -1e300;
       ja[j] = 1000;
@@ -238,8 +234,6 @@ int rm1_dec_lst(
    }
 
    // "Unpack" ja[] to get information bits.
-   if (lsiz > c_n) lsiz = c_n;
-   if (lsiz > 4096) lsiz = 4096;
    for (j = 0; j < lsiz; j++) {
       for (i = (j + 1) * (c_m + 1) - 1; i >= j * (c_m + 1); i--) {
          x_dec[i] = ja[j] & 1;
-- 
2.43.0


From 0aef29d11a0609a508e0ec201fd95332c1e77561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 03/44] fix: dtrm0: do not overflow the fixed buffer of (m, m)
 nodes longer than 1024

The hard decisions of an (m, m) node are now encoded in place.
---
 dtrm/dtrm0.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f832d3..df5bf28 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -92,19 +92,18 @@ tri0_dec(
 
    // RM(m, m) case.
    if (r == m) {
-      int tmp[1024];
       (*x_dec_len) = n; // n information bits.
       for (i = 0; i < n; i++) {
          if (CHECK_EST0(y_in[i])) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = YLDEC0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = YLDEC1;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec);
       return 0;
    }
 
-- 
2.43.0


From 1b4b04ccf6ced3a1efa33f6f50dbb6aa700aa15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 04/44] fix: dtrm1: do not overflow the fixed 4096 entry buffer
 of long nodes

---
 dtrm/dtrm1.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 44577ea..5f66996 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -75,7 +75,7 @@ tri1_dec(
 )
 {
    int i, n2, cur_x_dec_len;
-   int tmp[4096];
+   int *tmp;
    double *y1, *y2, *y_dec1, *y_dec2;
 
    // RM(m, m) case.
@@ -85,15 +85,15 @@ tri1_dec(
 
       for (i = 0; i < n; i++) {
          if (y_in[i] > 0) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = 1.0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = -1.0;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec);
 
       return 0;
 
@@ -107,8 +107,11 @@ tri1_dec(
 #else
       if (rm1_dec_sh_finp(m, y_in, x_dec)) return 1;
 #endif
+      tmp = (int *)malloc(n * sizeof(int));
+      if (tmp == NULL) return 1;
       mrm_enc_bsc(m, r, x_dec, tmp);
       for (i = 0; i < n; i++) y_dec[i] = (double)(1 - (tmp[i] << 1));
+      free(tmp);
       return 0;
    } // if (r == 1).
 
-- 
2.43.0


From 0de35866ecef11efea634e7f089cb71d2059841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 05/44] fix: dtrm_glp: do not overflow fixed tables for long
 codes or many permutations

inf_coeff[2048] overflowed for RM codes with more than 2048 coefficients and
p_info[10000] for permutation sets of more than 10000 numbers.
---
 dtrm_glp/dtrm_glp_main.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ae9bf34..00c2924 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -96,7 +96,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -115,6 +115,13 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Permutations buffer. A number takes at least 2 characters with a separator.
+   p_info = (int *)malloc(SP_STR_MAX / 2 * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -227,6 +234,11 @@ cdc_init(
       py = dd->dc.pyarr;
       p1 = p_info;
    }
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
    i1 = 0;
@@ -260,6 +272,8 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -282,6 +296,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (p_info != NULL) free(p_info);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
-- 
2.43.0


From 85aa59ed4a1e84f19b27d7fc5a6db58f1677ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 06/44] fix: polar_scl: do not overflow the fixed coefficient
 tables for c_m >= 12

---
 polar_scl/ca_polar_scl_main.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d507819..5ee3a78 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -146,7 +146,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -165,6 +165,13 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Permutations buffer. A number takes at least 2 characters with a separator.
+   p_info = (int *)malloc(SP_STR_MAX / 2 * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -284,6 +291,11 @@ cdc_init(
       py = dd->dc.pyarr;
       p1 = p_info;
    }
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
    i1 = 0;
@@ -317,6 +329,8 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -339,6 +353,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (p_info != NULL) free(p_info);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
-- 
2.43.0


From de30ed0d449a854e3cbff026901234508f4be407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 07/44] fix: parameter files: includes at the end of a file and
 files ending in a comment

An include directive in the last line without a line end was silently dropped,
an included file ending in a comment had its last token glued to the next one,
an include directive without a file name crashed, and too long included files
were silently truncated.
---
 common/spf_par.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index a05f989..891f7a2 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -138,7 +138,10 @@ spf_read_preparse_ext(
    sp_str[0] = 0;
 
    // Remove comments from str1 and copy the result to str2.
+   // The final separator keeps an include directive in the last line working.
    str2_len = strcpy_strip_comments(str1, i1, 1, str2);
+   str2[str2_len++] = ' ';
+   str2[str2_len] = 0;
 
    // ----- Preparse parameters.
 
@@ -148,7 +151,7 @@ spf_read_preparse_ext(
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
-         if ((sp_file = fopen(token, "rb")) == NULL) {
+         if ((token == NULL) || ((sp_file = fopen(token, "rb")) == NULL)) {
             err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
             free(str1);
@@ -162,9 +165,15 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
+         if (i1 >= SP_STR_MAX - 1) {
+            err_msg("spf_read_preparse(): include file is too huge.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
+         }
+         i1 = strcpy_strip_comments(str1, i1, 0, str1);
          str1[i1++] = ' ';
          str1[i1] = 0;
-         i1 = strcpy_strip_comments(str1, i1, 1, str1);
          if (i1 + str2_len >= SP_STR_MAX) {
             err_msg("spf_read_preparse(): file is too huge.");
             free(sp_str);
-- 
2.43.0


From 5ce58f831e9804094da40329a422bf2c01d983a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 08/44] fix: parameter files: recognize the end of a single
 token group like {a}

---
 common/spf_par.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 891f7a2..b5b6413 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -194,13 +194,9 @@ spf_read_preparse_ext(
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
          sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
          sp_str[sp_str_len] = 0;
-         if (strlen(token) > 1) {
-            strcat(sp_str, token + 1);
-            sp_str_len += strlen(token) - 1;
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
-         }
-         token = strtok(NULL, token_seps);
+         // The rest of the token (if any) is processed as a separate token.
+         if (strlen(token) > 1) token++;
+         else token = strtok(NULL, token_seps);
          continue;
       }
 
-- 
2.43.0


From c9e0979b859704e74f0a3aac0e9a0b66b15348c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 09/44] fix: parameter files: do not overflow the prepared
 string with many brackets

---
 common/spf_par.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/spf_par.c b/common/spf_par.c
index b5b6413..4e76d34 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -148,6 +148,15 @@ spf_read_preparse_ext(
    token = strtok(str2, token_seps);
    while (token != NULL) {
 
+      // Separators are added around group brackets, so the prepared string
+      // may be longer than the file.
+      if (sp_str_len + strlen(token) + 4 >= SP_STR_MAX) {
+         err_msg("spf_read_preparse(): file is too huge.");
+         free(sp_str);
+         free(str1);
+         return RC_ERROR;
+      }
+
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
-- 
2.43.0


From d439d077dc1cff86dbbdc9f1585180480b106a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 10/44] fix: parameter files: report groups with too many
 values

A group with more values than fit (e.g. more than 50 SNR values) was silently
truncated and swallowed the parameter that followed it.
---
 common/spf_par.c    | 4 ++++
 common/spf_par.h    | 8 ++++++++
 simulators/sim_bg.c | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/common/spf_par.c b/common/spf_par.c
index 4e76d34..a8a56bb 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -276,6 +276,10 @@ int tryread_group_int_param(
         tk = strtok(NULL, tk_seps_prepared);
         i++;
       }
+      if (tk[0] != GROUP_CHAR_END) {
+        err_msg(erstr);
+        return RC_ERROR;
+      }
     }
     else {
       err_msg(erstr);
diff --git a/common/spf_par.h b/common/spf_par.h
index ce2e6a5..313f6e9 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -78,6 +78,10 @@
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
+         if ((tk)[0] != GROUP_CHAR_END) { \
+            err_msg(erstr); \
+            return 1; \
+         } \
       } \
       else { \
          err_msg(erstr); \
@@ -101,6 +105,10 @@
             (y)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
+         if ((tk)[0] != GROUP_CHAR_END) { \
+            err_msg(erstr); \
+            return 1; \
+         } \
       } \
       else { \
          err_msg(erstr); \
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e5d82a1..5126d25 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -239,6 +239,10 @@ int sim_init(
             sim->trn_req[i++] = atoi(token);
             token = strtok(NULL, tk_seps_prepared);
           }
+          if (token[0] != GROUP_CHAR_END) {
+            err_msg("sim_bg init error: too many SNR_val_trn values!");
+            return RC_ERROR;
+          }
         }
         else {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
-- 
2.43.0


From 017311b527c743dc170273dd64d66dc047d5137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 11/44] fix: parameter files: report truncated parameters
 instead of crashing

A parameter without a value or a group without its end at the end of the file
dereferenced a NULL token.
---
 common/spf_par.c              |  6 ++---
 common/spf_par.h              | 43 ++++++++++++++++++++++++-----------
 dtrm/dtrm0.c                  |  1 +
 dtrm/dtrm1.c                  |  1 +
 dtrm_glp/dtrm_glp_main.c      |  5 ++++
 polar_scl/ca_polar_scl_main.c |  6 +++++
 simulators/sim_bg.c           |  8 ++++---
 7 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index a8a56bb..37bed10 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -268,15 +268,15 @@ int tryread_group_int_param(
   if (strcmp(*inout_tk, param_key) == 0) {
     int i = 0;
     char *tk = strtok(NULL, tk_seps_prepared);
-    if (tk[0] == GROUP_CHAR_BEGIN) {
+    if ((tk != NULL) && (tk[0] == GROUP_CHAR_BEGIN)) {
       tk = strtok(NULL, tk_seps_prepared);
-      while ((tk[0] != GROUP_CHAR_END) && (i < max_n)) {
+      while ((tk != NULL) && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
         *x = atoi(tk);
         x = (int *)((unsigned char *)x + step_size);
         tk = strtok(NULL, tk_seps_prepared);
         i++;
       }
-      if (tk[0] != GROUP_CHAR_END) {
+      if ((tk == NULL) || (tk[0] != GROUP_CHAR_END)) {
         err_msg(erstr);
         return RC_ERROR;
       }
diff --git a/common/spf_par.h b/common/spf_par.h
index 313f6e9..4167a41 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -41,9 +41,23 @@
 
 #define RC_SPF_UNKNOWN (RC_CUSTOM + 1)
 
+// What to do in the macros below when a parameter cannot be read.
+// Redefine before including this file if some clean up is needed.
+#ifndef SPF_FAIL
+#define SPF_FAIL return 1
+#endif
+
+#define SPF_CHECK_VALUE(tk) { \
+   if ((tk) == NULL) { \
+      err_msg("parameter value is missing."); \
+      SPF_FAIL; \
+   } \
+}
+
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      SPF_CHECK_VALUE(tk); \
       (x) = atoi(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -53,6 +67,7 @@
 #define TRYGET_FLOAT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      SPF_CHECK_VALUE(tk); \
       (x) = atof(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -62,6 +77,7 @@
 #define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      SPF_CHECK_VALUE(tk); \
       (x) = (!strcmp(tk, switch_on_token)) ? 1 : 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -72,20 +88,20 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
-         if ((tk)[0] != GROUP_CHAR_END) { \
+         if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
             err_msg(erstr); \
-            return 1; \
+            SPF_FAIL; \
          } \
       } \
       else { \
          err_msg(erstr); \
-         return 1; \
+         SPF_FAIL; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -97,22 +113,23 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i] = atoi(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
+            SPF_CHECK_VALUE(tk); \
             (y)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
-         if ((tk)[0] != GROUP_CHAR_END) { \
+         if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
             err_msg(erstr); \
-            return 1; \
+            SPF_FAIL; \
          } \
       } \
       else { \
          err_msg(erstr); \
-         return 1; \
+         SPF_FAIL; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -122,12 +139,12 @@
 
 #define SPF_SKIP_UNKNOWN_PARAMETER(tk) { \
    (tk) = strtok(NULL, tk_seps_prepared); \
-   if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+   if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      while (((tk)[strlen(tk) - 1] != GROUP_CHAR_END) && ((tk) != NULL)) \
+      while (((tk) != NULL) && ((tk)[strlen(tk) - 1] != GROUP_CHAR_END)) \
          (tk) = strtok(NULL, tk_seps_prepared); \
    } \
-   (tk) = strtok(NULL, tk_seps_prepared); \
+   if ((tk) != NULL) (tk) = strtok(NULL, tk_seps_prepared); \
 }
 
 
diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index df5bf28..b3a3ec8 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -26,6 +26,7 @@
 #include <string.h>
 #include "../common/typedefs.h"
 #include "../interfaces/codec.h"
+#define SPF_FAIL goto ret_err // Parameters parsing failure.
 #include "../common/spf_par.h"
 #include "../interfaces/ui_utils.h"
 #include "../common/srm_utils.h"
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 5f66996..d541509 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -26,6 +26,7 @@
 #include <string.h>
 #include "../common/typedefs.h"
 #include "../interfaces/codec.h"
+#define SPF_FAIL goto ret_err // Parameters parsing failure.
 #include "../common/spf_par.h"
 #include "../interfaces/ui_utils.h"
 #include "../common/srm_utils.h"
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 00c2924..cc57e07 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -26,6 +26,7 @@
 #include "../common/typedefs.h"
 #include "../common/std_defs.h"
 #include "../interfaces/codec.h"
+#define SPF_FAIL goto ret_err // Parameters parsing failure.
 #include "../common/spf_par.h"
 #include "../interfaces/ui_utils.h"
 #include "../common/srm_utils.h"
@@ -132,6 +133,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "RM_r", c_r);
       if (strcmp(token, "border_node_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         SPF_CHECK_VALUE(token);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -145,6 +147,7 @@ cdc_init(
       }
       if (strcmp(token, "border_node_lsize") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         SPF_CHECK_VALUE(token);
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -155,8 +158,10 @@ cdc_init(
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
+         SPF_CHECK_VALUE(token);
          if (token[0] == GROUP_CHAR_BEGIN) {
             token = strtok(NULL, tk_seps_prepared);
+            SPF_CHECK_VALUE(token);
             i1 = 0;
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 5ee3a78..0245eb4 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -26,6 +26,7 @@
 #include "../common/typedefs.h"
 #include "../common/std_defs.h"
 #include "../interfaces/codec.h"
+#define SPF_FAIL goto ret_err // Parameters parsing failure.
 #include "../common/spf_par.h"
 #include "../interfaces/ui_utils.h"
 #include "../common/crc.h"
@@ -181,6 +182,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "c_m", c_m);
       if (strcmp(token, "info_bits_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         SPF_CHECK_VALUE(token);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -194,6 +196,7 @@ cdc_init(
       }
       if (strcmp(token, "ca_polar_crc") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         SPF_CHECK_VALUE(token);
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -207,6 +210,7 @@ cdc_init(
       }
       if (strcmp(token, "list_size") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         SPF_CHECK_VALUE(token);
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -218,8 +222,10 @@ cdc_init(
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
+         SPF_CHECK_VALUE(token);
          if (token[0] == GROUP_CHAR_BEGIN) {
             token = strtok(NULL, tk_seps_prepared);
+            SPF_CHECK_VALUE(token);
             i1 = 0;
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 5126d25..78220b3 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -219,6 +219,7 @@ int sim_init(
 
     if (strcmp(token, res_file_token) == 0) {
       token = strtok(NULL, tk_seps_prepared);
+      SPF_CHECK_VALUE(token);
       if (strlen(token) >= FN_LEN_MAX) {
         err_msg("sim_bg init error: output file name is too long.");
         return RC_ERROR;
@@ -231,15 +232,16 @@ int sim_init(
       if (strcmp(token, snr_val_trn_token) == 0) {
         int i = 0;
         token = strtok(NULL, tk_seps_prepared);
-        if (token[0] == GROUP_CHAR_BEGIN) {
+        if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
           token = strtok(NULL, tk_seps_prepared);
-          while ((token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
+          while ((token != NULL) && (token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
             sim->snr_db[i] = atof(token);
             token = strtok(NULL, tk_seps_prepared);
+            SPF_CHECK_VALUE(token);
             sim->trn_req[i++] = atoi(token);
             token = strtok(NULL, tk_seps_prepared);
           }
-          if (token[0] != GROUP_CHAR_END) {
+          if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
             err_msg("sim_bg init error: too many SNR_val_trn values!");
             return RC_ERROR;
           }
-- 
2.43.0


From abe3e55646cfc4e0c86ee6d8f3283c634571106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 12/44] fix: dtrm0, dtrm1: reject invalid RM_m and RM_r

RM_r > RM_m recursed until the stack overflowed, negative values and a too big
RM_m gave shifts and sizes out of range.
---
 dtrm/dtrm0.c | 7 +++++++
 dtrm/dtrm1.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index b3a3ec8..8a8753b 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -38,6 +38,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max RM m parameter.
+#define RM_M_MAX            24
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -188,6 +191,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m < 0) || (c_m > RM_M_MAX) || (c_r < 0) || (c_r > c_m)) {
+      err_msg("cdc_init: invalid RM_m or RM_r.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index d541509..173cd43 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -43,6 +43,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max RM m parameter.
+#define RM_M_MAX            24
+
 
 //-----------------------------------------------------------------------------
 // Internal typedefs.
@@ -199,6 +202,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m < 0) || (c_m > RM_M_MAX) || (c_r < 0) || (c_r > c_m)) {
+      err_msg("cdc_init: invalid RM_m or RM_r.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
-- 
2.43.0


From 5b6709745bebb85f057598fa3bd423a37a3e94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 13/44] fix: dtrm_glp: reject invalid codes, masks, list sizes
 and permutations

RM_r > RM_m, a too short border_node_mask, non-positive or huge list sizes,
stage list sizes above border_node_lsize and vectors that are not permutations
crashed or overran buffers. Permutations of a subcode (documented for pure RM
codes only) wrote past the decoded vector.
---
 dtrm_glp/dtrm_glp_main.c | 53 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index cc57e07..0d876ff 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -21,6 +21,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../common/typedefs.h"
@@ -38,6 +39,10 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max RM parameters.
+#define RM_M_MAX            24
+#define RM_R_MAX            15
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -62,9 +67,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
+size_t get_membuf_size(decoder_type *dd) {
    int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -99,6 +104,8 @@ cdc_init(
    int *p1, *px, *py;
    int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
+   int max_lsiz;
+   double node_num;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -166,7 +173,7 @@ cdc_init(
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
-                  p_info[i1++] = atoi(token);
+                  p_info[i1++] = (token[0] != GROUP_CHAR_END) ? atoi(token) : -1;
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
                      err_msg("cdc_init(): parameters file: permutations.");
@@ -201,10 +208,21 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m < 0) || (c_m > RM_M_MAX) || (c_r < 0) || (c_r > c_m) || (c_r > RM_R_MAX)) {
+      err_msg("cdc_init: invalid RM_m or RM_r.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No border nodes map.");
       goto ret_err;
    }
+   // The number of border nodes is {m \choose r}.
+   node_num = 1.0;
+   for (i = 1; i <= c_r; i++) node_num = node_num * (c_m - c_r + i) / i;
+   if (dd->dc.node_table_len < node_num) {
+      err_msg("cdc_init: border_node_mask is too short.");
+      goto ret_err;
+   }
    if (dd->dc.peak_lsiz == 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
@@ -213,12 +231,30 @@ cdc_init(
       err_msg("cdc_init: No distance_threshold.");
       goto ret_err;
    }
+   // Work buffers are allocated for the longest list.
+   max_lsiz = dd->dc.peak_lsiz;
+   if (dd->use_var_list != 0) {
+      for (i = 0; i < dd->dist_t_n; i++) {
+         if (dd->lsiz[i] < 1) max_lsiz = 0;
+         if (max_lsiz > 0) max_lsiz = MAX(max_lsiz, dd->lsiz[i]);
+      }
+   }
+   if ((dd->dc.peak_lsiz < 1) || (max_lsiz < 1)
+      || (MAX(max_lsiz, p_num) > INT_MAX / FLSIZ_MULT / (1 << c_m))) {
+      err_msg("cdc_init: invalid list size.");
+      goto ret_err;
+   }
+   dd->dc.peak_lsiz = max_lsiz;
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
    dd->c_k = dd->dc.c_k = c_k = calc_srm_k(c_m, c_r, dd->dc.node_table);
+   if (c_k < 1) {
+      err_msg("cdc_init: no information bits.");
+      goto ret_err;
+   }
 
    // Generate permutations.
    if (p_num == 0) {
@@ -255,6 +291,17 @@ cdc_init(
    }
    // Generate permutation arrays.
    for (pn = 0; pn < p_num; pn++) {
+      // Check that p1 is a permutation, which keeps the code (is trivial for a subcode).
+      i1 = 0;
+      for (j = 0; j < c_m; j++) {
+         if ((p1[j] < 0) || (p1[j] >= c_m)) break;
+         if ((c_k != calc_rm_k(c_m, c_r)) && (p1[j] != j)) break;
+         i1 |= 1 << p1[j];
+      }
+      if (i1 != c_n - 1) {
+         err_msg("cdc_init(): parameters file: invalid permutation.");
+         goto ret_err;
+      }
       // Next permutation for y.
       for (i = 0; i < c_n; i++) {
          i1 = 0;
-- 
2.43.0


From 784589ca486d791e0e0d45d1ad0c39b990b05d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 14/44] fix: polar_scl: reject invalid c_m, masks, list sizes,
 CRC lengths and permutations

A too short info_bits_mask, non-positive or huge list sizes, a CRC not shorter
than the number of unfrozen bits and non-trivial permutations crashed or
overran buffers. The CRC polynomial was leaked when initialization failed.
---
 polar_scl/ca_polar_scl_main.c | 36 +++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 0245eb4..aa46482 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -21,6 +21,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../common/typedefs.h"
@@ -41,6 +42,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max polar m parameter.
+#define C_M_MAX             24
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -64,9 +68,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
+size_t get_membuf_size(decoder_type *dd) {
    int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -230,7 +234,7 @@ cdc_init(
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
-                  p_info[i1++] = atoi(token);
+                  p_info[i1++] = (token[0] != GROUP_CHAR_END) ? atoi(token) : -1;
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
                      err_msg("cdc_init(): parameters file: permutations.");
@@ -260,19 +264,35 @@ cdc_init(
       err_msg("cdc_init: c_m is not specified.");
       goto ret_err;
    }
+   if ((c_m < 0) || (c_m > C_M_MAX)) {
+      err_msg("cdc_init: invalid c_m.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No info_bits_mask.");
       goto ret_err;
    }
+   if (dd->dc.node_table_len < (1 << c_m)) {
+      err_msg("cdc_init: info_bits_mask is too short.");
+      goto ret_err;
+   }
    if (dd->dc.peak_lsiz == 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
+   if ((dd->dc.peak_lsiz < 1) || (MAX(dd->dc.peak_lsiz, p_num) > INT_MAX / FLSIZ_MULT / (1 << c_m))) {
+      err_msg("cdc_init: invalid list size.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    dd->c_k = dd->dc.c_k = c_k = get_k_from_node_table(c_n, dd->dc.node_table);
    dd->eff_k = c_k - dd->crc_len;
+   if (dd->eff_k < 1) {
+      err_msg("cdc_init: no information bits.");
+      goto ret_err;
+   }
    dd->dc.ret_list = (dd->crc_len > 0) ? 1 : 0;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
@@ -313,6 +333,13 @@ cdc_init(
    }
    // Generate permutation arrays.
    for (pn = 0; pn < p_num; pn++) {
+      // Only trivial permutations keep a general polar code.
+      for (j = 0; j < c_m; j++) {
+         if (p1[j] != j) {
+            err_msg("cdc_init(): parameters file: invalid permutation.");
+            goto ret_err;
+         }
+      }
       // Next permutation for y.
       for (i = 0; i < c_n; i++) {
          i1 = 0;
@@ -366,6 +393,7 @@ ret_err:
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
       if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);
       if (dd->dc.node_table != NULL) free(dd->dc.node_table);
+      if (dd->crc != NULL) free(dd->crc);
       free(dd);
       (*cdc) = NULL;
    }
@@ -462,7 +490,7 @@ dec_bpsk(
    double *dec_input;
    int *x_candidates;
    uint8 *mem_buf, *mem_buf_ptr;
-   int mem_buf_size;
+   size_t mem_buf_size;
    int best_ind;
    int is_erasure = 0;
 
-- 
2.43.0


From 2fb619cb3970da870fe9273a2638ab849e1f99de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 15/44] fix: CRC of messages shorter than the CRC

calc_crc() returned a pointer before its buffer, so the CA-polar encoder and
the CRC check read memory out of bounds when crc_len exceeded the number of
information bits.
---
 common/crc.c                  |  6 ++++++
 common/crc.h                  |  6 +++---
 polar_scl/ca_polar_scl_main.c | 10 ++++++----
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/common/crc.c b/common/crc.c
index 9d819b1..3116388 100644
--- a/common/crc.c
+++ b/common/crc.c
@@ -27,6 +27,12 @@ int *calc_crc(
 ) {
   int i, j;
 
+  if (x_len < crc_len) {
+    // The message is shorter than CRC, it is the remainder itself.
+    memset(crc_buf, 0, (crc_len - x_len) * sizeof(int));
+    memcpy(crc_buf + crc_len - x_len, x, x_len * sizeof(int));
+    return crc_buf;
+  }
   memcpy(crc_buf, x, x_len * sizeof(int));
   for (i = 0; i < x_len - crc_len; i++) {
     if (crc_buf[i]) {
diff --git a/common/crc.h b/common/crc.h
index f0884a7..003f01e 100644
--- a/common/crc.h
+++ b/common/crc.h
@@ -20,8 +20,8 @@
 #define CRC_H
 
 /**
- * Lengths of crc_buf must be at least x_len.
- * CRC is calculated to crc_buf, starting at crc_buf + x_len - crc_len.
+ * Lengths of crc_buf must be at least max(x_len, crc_len).
+ * CRC is calculated to crc_buf, starting at crc_buf + max(x_len, crc_len) - crc_len.
  * @return pointer to the first bit of the calculated CRC in crc_buf.
  */
 int *calc_crc(
@@ -34,7 +34,7 @@ int *calc_crc(
 
 /**
  * x = (info_bits | crc), length is info_len + crc_len,
- * buf length must be at least info_len.
+ * buf length must be at least max(info_len, crc_len).
  * @return 0|1
  */
 int is_valid_crc(
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index aa46482..e0ffb23 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -111,7 +111,7 @@ int get_best_in_list(
   else {
     int sum_len = x_len + crc_len;
     int i;
-    int *tmp = (int *)malloc(x_len * sizeof(int));
+    int *tmp = (int *)malloc(MAX(x_len, crc_len) * sizeof(int));
     if (tmp == NULL) {
       return 0;
     }
@@ -458,18 +458,20 @@ enc_bpsk(
 )
 {
    cdc_inst_type *dd;
-   int *x_crc;
+   int *x_crc, *crc;
 
    dd = (cdc_inst_type *)cdc;
 
    if (dd->crc_len > 0) {
-      x_crc = (int *)malloc(dd->c_k * sizeof(int));
+      // The first part is for the word with CRC, the second is the CRC buffer.
+      x_crc = (int *)malloc((dd->c_k + MAX(dd->eff_k, dd->crc_len)) * sizeof(int));
       if (x_crc == NULL) {
          err_msg("enc_bpsk: Short of memory.");
          return RC_ERROR;
       }
-      calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->crc_len);
+      crc = calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->c_k);
       memcpy(x_crc, x, dd->eff_k * sizeof(int));
+      memcpy(x_crc + dd->eff_k, crc, dd->crc_len * sizeof(int));
       smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
       free(x_crc);
       return dd->eff_k;
-- 
2.43.0


From d5642ac146e8ad80136bcf67d554a19f315014de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 16/44] fix: dtrm_glp: list pruning could drop a path better
 than a kept one

qpartition() returned without partitioning when all but one of the elements
had to be kept (at the top level or in a recursive call).
---
 dtrm_glp/dtrm_glp_inner.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 2637f02..95fa704 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -188,13 +188,6 @@ void print_list(char rem[]) {
 static void qpartition(int *v, int len, int k) {
   int i, st, tmp;
 
-  if (k == len - 1) return;
-
-  if (len == 2) {
-    if (slist[v[0]] < slist[v[1]]) SWAP(0, 1)
-    return;
-  }
-
   for (st = i = 0; i < len - 1; i++) {
     if (slist[v[i]] < slist[v[len - 1]]) continue;
     SWAP(i, st);
-- 
2.43.0


From ae1d1a7fd035f4c19f53e28c161da326542fb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 17/44] fix: dtrm_glp: do not crash on codes whose root is a
 border node

For RM_r = 1 and RM_r = RM_m the decoder recursed to (m - 1, 0) or (m - 1, m)
and ran out of its buffers or the stack.
---
 dtrm_glp/dtrm_glp_inner.c | 32 ++++++++++++++++++++++----------
 dtrm_glp/dtrm_glp_inner.h |  3 +++
 dtrm_glp/dtrm_glp_main.c  |  6 ++++--
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 95fa704..e464379 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -62,8 +62,8 @@
 #endif // DBG2
 #define YLIST_RESET(i) { yfrindp[i] = 0; }
 
-#define YLISTP(i, j) ylist[(i) * dd->c_m + (j)]
-#define YLISTPP(i, j) (ylist + (i) * dd->c_m + (j))
+#define YLISTP(i, j) ylist[(i) * (dd->c_m + 1) + (j)]
+#define YLISTPP(i, j) (ylist + (i) * (dd->c_m + 1) + (j))
 
 
 //-----------------------------------------------------------------------------
@@ -307,7 +307,7 @@ void rm1_branch(
     cur_ind1 = lorder[i];
     cur_ind0 = parent[cur_ind1];
     if (cur_ind0 >= 0) {
-      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), dd->c_m * sizeof(ylitem *));
+      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), (dd->c_m + 1) * sizeof(ylitem *));
     }
   }
   for (i = 0; i < cur_lsiz; i++) {
@@ -442,7 +442,7 @@ void rm11_branch(
     cur_ind1 = lorder[i];
     cur_ind0 = parent[cur_ind1];
     if (cur_ind0 >= 0) {
-      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), dd->c_m * sizeof(ylitem *));
+      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), (dd->c_m + 1) * sizeof(ylitem *));
     }
     vgetx(cur_ind1, xtmp, 2);
     code_mm(2, xtmp, xtmp2);
@@ -578,7 +578,7 @@ void rmm_branch(
     cur_ind1 = lorder[i];
     cur_ind0 = parent[cur_ind1];
     if (cur_ind0 >= 0) {
-      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), dd->c_m * sizeof(ylitem *));
+      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), (dd->c_m + 1) * sizeof(ylitem *));
     }
     vgetx(cur_ind1, xtmp, n);
     code_mm(n, xtmp, xtmp2);
@@ -775,14 +775,14 @@ rm_dec(
 
   ylist = (ylitem **)mem_buf_ptr;
   //mem_buf_ptr += dd->c_m * MAX(dd->peak_lsiz, dd->p_num) * sizeof(ylitem *);
-  mem_buf_ptr += dd->c_m * flsiz * sizeof(ylitem *);
+  mem_buf_ptr += (dd->c_m + 1) * flsiz * sizeof(ylitem *);
 
   yitems = (ylitem **)mem_buf_ptr;
-  mem_buf_ptr += dd->c_m * sizeof(ylitem *);
+  mem_buf_ptr += (dd->c_m + 1) * sizeof(ylitem *);
 #ifdef DBG2
   printf("\nStart buffers: %ld\n", mem_buf_ptr - dd->mem_buf);
 #endif
-  for (i = 0; i < dd->c_m; i++) {
+  for (i = 0; i < dd->c_m + RM_IS_BORDER(c_m, c_r); i++) {
     yitems[i] = (ylitem *)mem_buf_ptr;
     mem_buf_ptr += (1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
 #ifdef DBG2
@@ -829,8 +829,14 @@ rm_dec(
     lorder[i] = i;
     lind2xl[i] = xlist;
     p1 = dd->pyarr + c_n * i;
-    vp = YLISTP(i, c_m - 1) = YLIST_POP(c_m - 1);
-    for (j = 0; j < n2; j++) vp[j] = XOR_EST(y_in[p1[j]], y_in[p1[j + n2]]);
+    if (RM_IS_BORDER(c_m, c_r)) {
+      vp = YLISTP(i, c_m) = YLIST_POP(c_m);
+      for (j = 0; j < c_n; j++) vp[j] = y_in[p1[j]];
+    }
+    else {
+      vp = YLISTP(i, c_m - 1) = YLIST_POP(c_m - 1);
+      for (j = 0; j < n2; j++) vp[j] = XOR_EST(y_in[p1[j]], y_in[p1[j + n2]]);
+    }
     plist[i] = i;
   }
   cur_lsiz = frindp = dd->p_num;
@@ -843,6 +849,11 @@ rm_dec(
   print_list("root a");
 #endif
 
+  if (RM_IS_BORDER(c_m, c_r)) {
+    rm_dec_inner(dd, c_m, c_r);
+    goto find_best;
+  }
+
   // Decode v.
   rm_dec_inner(dd, c_m - 1, c_r - 1);
 
@@ -865,6 +876,7 @@ rm_dec(
   // Decode u.
   rm_dec_inner(dd, c_m - 1, c_r);
 
+find_best:
   // Find the best.
   i1 = 0;
   for (i = 1; i < cur_lsiz; i++) {
diff --git a/dtrm_glp/dtrm_glp_inner.h b/dtrm_glp/dtrm_glp_inner.h
index 86c5f57..39826d4 100644
--- a/dtrm_glp/dtrm_glp_inner.h
+++ b/dtrm_glp/dtrm_glp_inner.h
@@ -25,6 +25,9 @@
 
 #define FLSIZ_MULT 4
 
+// The whole code is decoded as a border node or starting from it.
+#define RM_IS_BORDER(m, r) (((r) == 1) || ((r) == (m)))
+
 
 //-----------------------------------------------------------------------------
 // Includes.
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 0d876ff..8322e7f 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -76,8 +76,10 @@ size_t get_membuf_size(decoder_type *dd) {
    mem_buf_size += flsiz * sizeof(int); // lorder
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
-   mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += (dd->c_m + 1) * flsiz * sizeof(ylitem *); // ylist
+   mem_buf_size += (dd->c_m + 1) * sizeof(ylitem *); // yitems
+   mem_buf_size += (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
+   if (RM_IS_BORDER(dd->c_m, dd->c_r)) mem_buf_size += dd->c_n * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
-- 
2.43.0


From 621dc846aa7bd9f15a407dfad5079220149b8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 18/44] fix: simulate at least the requested number of trials
 at each SNR

While waiting for errors the estimate of the required number of trials could
drop below min_trials_per_snr or the number given in SNR_val_trn.
---
 simulators/sim_bg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 78220b3..0ddf3d9 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -91,6 +91,7 @@ typedef struct {
   int min_trn;
   int min_en_bl;
   int trn_req[SNR_NUM_MAX];
+  int trn_req_min[SNR_NUM_MAX]; // Requested in the parameters.
   int do_ml; // If 1 evaluate ML LB.
   int do_ml_hd; // If 1 evaluate ML LB for hard dec. decoder.
   sim_point pt[SNR_NUM_MAX];
@@ -299,6 +300,7 @@ int sim_init(
     if (sim->trn_req[i] < 1) {
       sim->trn_req[i] = sim->min_trn;
     }
+    sim->trn_req_min[i] = sim->trn_req[i];
   }
   sim->csnrn = 0;
   sim->ret_int = sp->ret_int;
@@ -332,12 +334,12 @@ static void update_trn_req(
     double estimate;
     if (sim->pt[csnrn].en_bl > MIN_EN_FOR_TRN_ESTIMATION) {
       estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;
-      sim->trn_req[csnrn] = (int)MAX(sim->min_trn, MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_req_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
       estimate = sim->pt[csnrn].trn * 1.5;
-      sim->trn_req[csnrn] = (int)MIN(estimate + 0.5, MAX_TRIALS_PER_SNR);
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_req_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
     }
   }
 }
-- 
2.43.0


From 610e24b82cb3c9f2aa3855eaf9be5ba5c7ea5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 19/44] fix: the limit of trials per SNR must fit int

The conversion of 1e10 to int overflowed and ended the SNR point early.
---
 simulators/sim_bg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 0ddf3d9..59fa90e 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -27,6 +27,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <limits.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -44,7 +45,7 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MAX_TRIALS_PER_SNR 1e10
+#define MAX_TRIALS_PER_SNR INT_MAX
 
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
-- 
2.43.0


From 129fc0367b9c1756c451c803b12c6302612b9910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 20/44] fix: results file lock: take it atomically, release it
 always and last

Checking for the .bsy file and creating it were separate steps, so two
processes could both take the lock and lose results. The lock was removed
before the buffered results reached the file and left behind on errors, which
blocked all the following saves. A long res_file name overflowed its buffer.
---
 simulators/sim_bg.c | 73 ++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 59fa90e..ec9e74b 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -27,6 +27,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <errno.h>
 #include <limits.h>
 #include <math.h>
 #include <stdio.h>
@@ -544,14 +545,12 @@ sim_cur_res_str(
   }
 }
 
-// Save simulation results.
-int
-sim_save_res(
-  void *inst // Simulation instance.
+// Merge simulation results to the results file. The busy flag must be set.
+static int
+merge_res(
+  sim_bg_inst *sim // Simulation instance.
 ) {
-  sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -565,29 +564,6 @@ sim_save_res(
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
   int i, j, n, snrs_to_save;
 
-  sim = (sim_bg_inst *)inst;
-
-  // Check if the file is busy.
-  strcpy(bsyfn, sim->rf_name);
-  strcat(bsyfn, ".bsy");
-  n = 0;
-  while ((fp = fopen(bsyfn, "r")) != NULL) {
-    fclose(fp);
-    if (n++ > 30) {
-      err_msg("sim_bg saving error: output file is busy too long.");
-      return RC_ERROR;
-    }
-    sleep(1000);
-  }
-
-  // Create the busy flag.
-  if ((fp = fopen(bsyfn, "w")) == NULL) {
-    err_msg("sim_bg saving error: cannot create busy flag file.");
-    return RC_ERROR;
-  }
-  fprintf(fp, "Busy");
-  fclose(fp);
-
   // Try to read and preparse old res file.
   if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
 
@@ -738,11 +714,46 @@ sim_save_res(
     );
   }
 
+  fclose(fp);
+  return RC_OK;
+}
+
+// Save simulation results.
+int
+sim_save_res(
+  void *inst // Simulation instance.
+) {
+  sim_bg_inst *sim;
+  FILE *fp;
+  char bsyfn[FN_LEN_MAX + 4]; // Busy flag file name.
+  int n, rc;
+
+  sim = (sim_bg_inst *)inst;
+
+  // Create the busy flag, wait if the file is busy.
+  strcpy(bsyfn, sim->rf_name);
+  strcat(bsyfn, ".bsy");
+  n = 0;
+  while ((fp = fopen(bsyfn, "wx")) == NULL) {
+    if (errno != EEXIST) {
+      err_msg("sim_bg saving error: cannot create busy flag file.");
+      return RC_ERROR;
+    }
+    if (n++ > 30) {
+      err_msg("sim_bg saving error: output file is busy too long.");
+      return RC_ERROR;
+    }
+    sleep(1000);
+  }
+  fprintf(fp, "Busy");
+  fclose(fp);
+
+  rc = merge_res(sim);
+
   // Delete busy flag file.
   remove(bsyfn);
 
-  fclose(fp);
-  return RC_OK;
+  return rc;
 }
 
 // Control simulation parameters "on the fly".
-- 
2.43.0


From 815a974187d143693bd9d4d4a2babe0d8502005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 21/44] fix: do not lose results when the results file cannot
 be read or written

An existing results file that could not be opened or parsed was overwritten as
if it did not exist, and counters were marked as saved even if saving failed.
---
 simulators/sim_bg.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index ec9e74b..10d8d7d 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -564,8 +564,23 @@ merge_res(
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
   int i, j, n, snrs_to_save;
 
-  // Try to read and preparse old res file.
-  if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
+  // Check if there is (not empty) old res file.
+  n = 0;
+  if ((fp = fopen(sim->rf_name, "rb")) != NULL) {
+    n = (fgetc(fp) != EOF) || ferror(fp);
+    fclose(fp);
+  }
+  else if (errno != ENOENT) {
+    err_msg("sim_bg saving error: cannot open old res file.");
+    return RC_ERROR;
+  }
+
+  // Read and preparse old res file.
+  if (n) {
+    if (spf_read_preparse(sim->rf_name, &str1) != RC_OK) {
+      err_msg(err_reading_str);
+      return RC_ERROR;
+    }
 
     // Get old data.
     token = strtok(str1, tk_seps_prepared);
@@ -647,9 +662,6 @@ merge_res(
       copy_sim_point(&pt_file[n], &sim->pt[n]);
     }
   }
-  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
-  }
 
   // Save updated data.
 
@@ -714,7 +726,16 @@ merge_res(
     );
   }
 
-  fclose(fp);
+  n = ferror(fp);
+  if ((fclose(fp) != 0) || n) {
+    err_msg("sim_bg saving error: cannot write results.");
+    return RC_ERROR;
+  }
+
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
+  }
+
   return RC_OK;
 }
 
-- 
2.43.0


From c6858248aa49e6a0e67bb7225b4901dcf869c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 22/44] fix: one record per SNR in the results file, in
 ascending order

SNR values given twice or not in ascending order gave several records for
one SNR, more than 50 merged SNR values overflowed the buffers, and SNR
values with more than 6 significant digits got a new record at each save.
---
 simulators/sim_bg.c | 58 +++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 10d8d7d..3276ec1 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -630,38 +630,40 @@ merge_res(
       return RC_ERROR;
     }
 
-    // Update the data.
-    for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-      if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
-      n = 0;
-      while ((snr_db[n] < sim->snr_db[i]) && (n < snr_num)) n++;
-      if ((snr_db[n] > sim->snr_db[i]) || (n >= snr_num)) {
-        // Make room for the new at n if required.
-        for (j = snr_num; j > n; j--) {
-          snr_db[j] = snr_db[j - 1];
-          copy_sim_point(&pt_file[j], &pt_file[j - 1]);
-        }
-        snr_num++;
-        // Add new at n.
-        snr_db[n] = sim->snr_db[i];
-        init_sim_point(&pt_file[n]);
-      }
-      // Update at n.
-      sim_point tmppt;
-      sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
-      add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
-    }
-    snrs_to_save = snr_num;
   }
   else {
+    // There is no old res file, everything is to be saved.
+    for (i = 0; i < sim->snr_num; i++) init_sim_point(&sim->pt_saved[i]);
+  }
 
-    // Assume there was no old res file.
-    snrs_to_save = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
-    for (n = 0; n < snrs_to_save; n++) {
-      snr_db[n] = sim->snr_db[n];
-      copy_sim_point(&pt_file[n], &sim->pt[n]);
+  // Update the data.
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+    n = 0;
+    while ((n < snr_num) && (snr_db[n] != sim->snr_db[i])) n++;
+    if (n >= snr_num) {
+      if (snr_num >= SNR_NUM_MAX) {
+        err_msg("sim_bg saving error: too many SNR values in the res file.");
+        return RC_ERROR;
+      }
+      n = 0;
+      while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
+      // Make room for the new at n if required.
+      for (j = snr_num; j > n; j--) {
+        snr_db[j] = snr_db[j - 1];
+        copy_sim_point(&pt_file[j], &pt_file[j - 1]);
+      }
+      snr_num++;
+      // Add new at n.
+      snr_db[n] = sim->snr_db[i];
+      init_sim_point(&pt_file[n]);
     }
+    // Update at n.
+    sim_point tmppt;
+    sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
+    add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
+  snrs_to_save = snr_num;
 
   // Save updated data.
 
@@ -674,7 +676,7 @@ merge_res(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.15g ", snr_db[n]);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0


From 42dbcdb2168a6069684c4d49a73c078b856bfcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 23/44] fix: bit error rate: int overflow of trials * code_k

---
 Octave/loadsrf.c    | 2 +-
 simulators/sim_bg.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 40a1736..455ec79 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -130,7 +130,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   mxArr = mxCreateDoubleMatrix(1, snr_num, mxREAL);
   d = mxGetPr(mxArr);
   for (n = 0; n < snr_num; n++) {
-    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / (trn[n] * c_k) : 0.0;
+    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / ((double)trn[n] * c_k) : 0.0;
   }
   mxSetFieldByNumber(res, 0, 3, mxArr);
 
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 3276ec1..196fb39 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -524,7 +524,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
         sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0
       );
@@ -537,7 +537,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn
       );
       strcat(ds, str1);
-- 
2.43.0


From 8a7034925c5db2ef3c5e9ee67c0bc40442d7a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 24/44] fix: reject simulation parameters without the required
 res_file

The simulation ran to the end and then all its results were lost.
---
 simulators/sim_bg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 196fb39..babfffe 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -282,6 +282,10 @@ int sim_init(
   sim->code_k = cdc_get_k(sim->dc_inst);
 
   // Check if all necessary parameters are specified.
+  if (sim->rf_name[0] == 0) {
+    err_msg("sim_bg init error: res_file is not specified.");
+    return RC_ERROR;
+  }
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
     return RC_ERROR;
-- 
2.43.0


From b14d804b9a0d62ab2a38027e975191d98152f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 25/44] fix: do not count the trial whose decoding failed as a
 correct one

---
 simulators/sim_bg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index babfffe..8395872 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -427,6 +427,11 @@ int sim_run(
       int rc = dec_bpsk(sim->dc_inst, c_out, x_dec);
       if (rc == RC_ERROR) {
         err_msg("sim_bg run error: error while decoding.");
+        sim->pt[csnrn].trn--;
+        free(c_out);
+        free(c_in);
+        free(x_dec);
+        free(x);
         return RC_ERROR;
       }
 
-- 
2.43.0


From af27336690fc63a23df3d8d1c4efac240461df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 26/44] fix: do not crash if -si or -ri is the last argument

---
 simulators/main_txt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 29387d7..533b67d 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -68,6 +68,10 @@ int main(int argc, char **argv) {
    sp.ret_int = DEFAULT_RET_INT;
 
    for (i = 2; i < argc; i++) {
+      if (((strcmp(argv[i], "-si") == 0) || (strcmp(argv[i], "-ri") == 0)) && (i + 1 >= argc)) {
+         err_msg("No value of the last option.");
+         return RC_ERROR;
+      }
       if (strcmp(argv[i], "-nr") == 0) sp.dont_randomize = 1;
       if (strcmp(argv[i], "-si") == 0) save_int = atoi(argv[++i]);
       if (strcmp(argv[i], "-ri") == 0) sp.ret_int = atoi(argv[++i]);
-- 
2.43.0


From 5361c7f97fa2983d90a68f4a9eebcceac8d73bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 27/44] fix: exit with an error if the simulation failed or its
 results are not saved

---
 simulators/main_txt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 533b67d..8d4d580 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -131,9 +131,9 @@ int main(int argc, char **argv) {
    sim_cur_res_str(sim_inst, msg_str);
    show_msg(msg_str);
 
-   sim_save_res(sim_inst);
+   if (sim_save_res(sim_inst) != RC_OK) rc = RC_ERROR;
 
    sim_close(sim_inst);
 
-   return RC_OK;
+   return (rc == RC_OK) ? RC_OK : RC_ERROR;
 }
\ No newline at end of file
-- 
2.43.0


From 23f2ce14e4b75ef6cc586bb44274c0626eb3ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 28/44] fix: do not hang on permutations after a negative RM_m
 or c_m

---
 dtrm_glp/dtrm_glp_main.c      | 2 +-
 polar_scl/ca_polar_scl_main.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 8322e7f..17f6c8e 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -162,7 +162,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "permutations") == 0) {
-         if (c_m == 0) {
+         if (c_m <= 0) {
             err_msg("cdc_init(): parameters file: RM_m must be specified before permutations.");
             goto ret_err;
          }
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index e0ffb23..2ab5a42 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -221,7 +221,7 @@ cdc_init(
       }
       if (strcmp(token, "permutations") == 0) {
          // TODO: Permutations that were used for RM codes are not usable with Polar, but let's leave it here for now.
-         if (c_m == 0) {
+         if (c_m <= 0) {
             err_msg("cdc_init(): parameters file: c_m must be specified before permutations.");
             goto ret_err;
          }
-- 
2.43.0


From cc9b4a50ff05833ddf7e49e272834696c99c1f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 29/44] fix: report truncated groups in loadsrf instead of
 crashing

---
 Octave/loadsrf.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 455ec79..6256b70 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -20,9 +20,12 @@
 // Includes.
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include "../interfaces/ui_utils.h"
 #include "../common/std_defs.h"
+// If a parameter cannot be read, free the text of the file and return nothing.
+#define SPF_FAIL { free(str1); return; }
 #include "../common/spf_par.h"
 #include "mex.h"
 
@@ -36,15 +39,16 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
          err_msg(erstr); \
+         SPF_FAIL; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -75,7 +79,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   int er_n_n = 0;
   int enml_bl_n = 0;
   int extr_mlb = 0;
-  int n;
+  int n, rc;
   const char *keys[] = {"n", "k", "EbNo", "BER", "WER", "ERR", "MLER"};
   char err_reading_msg[] = "Error reading SRF file.";
   mxArray *mxArr, *res;
@@ -99,12 +103,24 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
     TRYGET_INT_TOKEN(token, code_n_token, c_n)
     TRYGET_INT_TOKEN(token, code_k_token, c_k)
     MEX_TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SNR_NUM_MAX, err_reading_msg)
-    if (tryread_group_int_param(&token, tr_num_token, trn, sizeof(int), &trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, en_bit_token, en_bit, sizeof(int), &en_bit_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, en_bl_token, en_bl, sizeof(int), &en_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, er_n_token, er_n, sizeof(int), &er_n_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, ml_tr_num_token, ml_trn, sizeof(int), &ml_trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, enml_bl_token, enml_bl, sizeof(int), &enml_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
+    rc = tryread_group_int_param(&token, tr_num_token, trn, sizeof(int), &trn_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_FAIL;
+    rc = tryread_group_int_param(&token, en_bit_token, en_bit, sizeof(int), &en_bit_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_FAIL;
+    rc = tryread_group_int_param(&token, en_bl_token, en_bl, sizeof(int), &en_bl_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_FAIL;
+    rc = tryread_group_int_param(&token, er_n_token, er_n, sizeof(int), &er_n_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_FAIL;
+    rc = tryread_group_int_param(&token, ml_tr_num_token, ml_trn, sizeof(int), &ml_trn_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_FAIL;
+    rc = tryread_group_int_param(&token, enml_bl_token, enml_bl, sizeof(int), &enml_bl_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_FAIL;
     SPF_SKIP_UNKNOWN_PARAMETER(token)
   }
   free(str1);
-- 
2.43.0


From f6d86c73c84cffbcb88a6a357b54b7ec1a6ca11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 30/44] fix: report lists of a results file which are not
 numbers

---
 Octave/loadsrf.c |  7 ++++++-
 common/spf_par.c | 12 +++++++++++-
 common/spf_par.h |  7 ++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 6256b70..a6a0c59 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -38,11 +38,16 @@
 #define MEX_TRYGET_GRDOUBLE_TOKEN(tk, tk_samp, x, n, nmax, erstr) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
+      char *end; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
          while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i++] = atof(tk); \
+            (x)[i++] = strtod(tk, &end); \
+            if ((*end != 0) || (end == (tk))) { \
+               err_msg(erstr); \
+               SPF_FAIL; \
+            } \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
diff --git a/common/spf_par.c b/common/spf_par.c
index 37bed10..f244b16 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -21,6 +21,8 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -271,7 +273,15 @@ int tryread_group_int_param(
     if ((tk != NULL) && (tk[0] == GROUP_CHAR_BEGIN)) {
       tk = strtok(NULL, tk_seps_prepared);
       while ((tk != NULL) && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
-        *x = atoi(tk);
+        char *end;
+        long val;
+        errno = 0;
+        val = strtol(tk, &end, 10);
+        if ((*end != 0) || (errno != 0) || (val < INT_MIN) || (val > INT_MAX)) {
+          err_msg(erstr);
+          return RC_ERROR;
+        }
+        *x = (int)val;
         x = (int *)((unsigned char *)x + step_size);
         tk = strtok(NULL, tk_seps_prepared);
         i++;
diff --git a/common/spf_par.h b/common/spf_par.h
index 4167a41..ace5a48 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -87,11 +87,16 @@
 #define TRYGET_GRDOUBLE_TOKEN(tk, tk_samp, x, n, nmax, erstr) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
+      char *end; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
          while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i++] = atof(tk); \
+            (x)[i++] = strtod(tk, &end); \
+            if ((*end != 0) || (end == (tk))) { \
+               err_msg(erstr); \
+               SPF_FAIL; \
+            } \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
          if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
-- 
2.43.0


From 6f2e79b781e50b044736c087e7ee503fb7859b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 31/44] fix: asking for more trials could overflow the
 requested number of trials

A point with more than 1431655765 requested trials got a negative number and
ended at once.
---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 8395872..c835414 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -801,7 +801,7 @@ void sim_control(
 
   switch (ctrl_code) {
     case SIM_CTRL_CUR_MORE :
-      sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;
+      sim->trn_req[csnrn] += MIN(sim->trn_req[csnrn] / 2, MAX_TRIALS_PER_SNR - sim->trn_req[csnrn]);
       break;
     case SIM_CTRL_CUR_LESS :
       sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;
-- 
2.43.0


From 5ef3325ba9f9f2afa92ec13e7eddcc4842fa945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:09 +0000
Subject: [PATCH 32/44] fix: free a mask or CRC which is given again in the
 parameters

---
 dtrm_glp/dtrm_glp_main.c      | 1 +
 polar_scl/ca_polar_scl_main.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 17f6c8e..488c204 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -144,6 +144,7 @@ cdc_init(
          token = strtok(NULL, tk_seps_prepared);
          SPF_CHECK_VALUE(token);
          dd->dc.node_table_len = strlen(token);
+         free(dd->dc.node_table);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
             err_msg("cdc_init: Short of memory.");
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 2ab5a42..0c5cb55 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -188,6 +188,7 @@ cdc_init(
          token = strtok(NULL, tk_seps_prepared);
          SPF_CHECK_VALUE(token);
          dd->dc.node_table_len = strlen(token);
+         free(dd->dc.node_table);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
             err_msg("cdc_init: Short of memory.");
@@ -202,6 +203,7 @@ cdc_init(
          token = strtok(NULL, tk_seps_prepared);
          SPF_CHECK_VALUE(token);
          dd->crc_len = strlen(token);
+         free(dd->crc);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
             err_msg("cdc_init: Short of memory.");
-- 
2.43.0


From ec1e6488362a111e4a9c962e4f0a07fac83bbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 33/44] fix: check that the memory for both permutation arrays
 is allocated

dtrm_glp used pyarr without a check, pxarr was checked twice.
---
 dtrm_glp/dtrm_glp_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 488c204..62476ca 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -270,7 +270,7 @@ cdc_init(
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-      if ((dd->dc.pxarr == NULL) || (dd->dc.pxarr == NULL)) {
+      if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
       }
-- 
2.43.0


From 5de44511f67c3f07f3b12c4bfc08882993c1d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 34/44] fix: report lack of memory in the (1, m) nodes of dtrm1

The decoder returned a wrong word with the code of a success.
---
 dtrm/dtrm1.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 173cd43..18091c0 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -130,10 +130,10 @@ tri1_dec(
    // Decode u1.
    // [x_dec1, y_dec1] = dtrm01_she(r - 1, m - 1, y1 .* y2);
    for (i = 0; i < n2; i++) aux_buf[i] = y1[i] * y2[i];
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r - 1, m - 1, n2,
       y_dec1, x_dec, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) = cur_x_dec_len;
 
    // Decode u2.
@@ -141,10 +141,10 @@ tri1_dec(
    for (i = 0; i < n2; i++) y1[i] *= y_dec1[i];
    VADD_EST(y1, y2, aux_buf, n2);
    // ADD_EST_EPS(y1, y2, aux_buf, n2);
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r, m - 1, n2,
       y_dec2, x_dec + cur_x_dec_len, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) += cur_x_dec_len;
 
    // y_dec = [y_dec1 .* y_dec2, y_dec2];
@@ -318,7 +318,11 @@ dec_bpsk(
    for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
    VY_TO_FORMAT(dec_input, dec_input, dd->c_n);
 
-   tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
+   if (tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf)) {
+      err_msg("dec_bpsk: Short of memory.");
+      free(mem_buf);
+      return -1;
+   }
 
    free(mem_buf);
 
-- 
2.43.0


From 622f07970ab57a41f1d0ff2205a9b488c1347620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 35/44] fix: return the result of the encoder of CA-Polar codes

With a CRC lack of memory was not reported, and a success had another code
than without.
---
 polar_scl/ca_polar_scl_main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 0c5cb55..0884151 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -461,6 +461,7 @@ enc_bpsk(
 {
    cdc_inst_type *dd;
    int *x_crc, *crc;
+   int rc;
 
    dd = (cdc_inst_type *)cdc;
 
@@ -474,9 +475,9 @@ enc_bpsk(
       crc = calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->c_k);
       memcpy(x_crc, x, dd->eff_k * sizeof(int));
       memcpy(x_crc + dd->eff_k, crc, dd->crc_len * sizeof(int));
-      smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
+      rc = smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
       free(x_crc);
-      return dd->eff_k;
+      return rc;
    }
    else {
       return smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x, y);
-- 
2.43.0


From 13022995f40c5d49a89d7de0720f2ec8f64f2826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 36/44] fix: report lack of memory when candidates are selected
 by their CRC

The first candidate was returned without a check of its CRC.
---
 polar_scl/ca_polar_scl_main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 0884151..4ff96e6 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -113,7 +113,7 @@ int get_best_in_list(
     int i;
     int *tmp = (int *)malloc(MAX(x_len, crc_len) * sizeof(int));
     if (tmp == NULL) {
-      return 0;
+      return -2; // short of memory
     }
     for (i = 0; i < lsiz; i++) {
       if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
@@ -529,6 +529,11 @@ dec_bpsk(
 #ifdef DBG
       printf("best_ind: %d\n", best_ind);
 #endif
+      if (best_ind == -2) {
+        err_msg("dec_bpsk: Short of memory.");
+        free(mem_buf);
+        return RC_ERROR;
+      }
       if (best_ind < 0) {
         is_erasure = 1;
         best_ind = 0;
-- 
2.43.0


From a10b842f8617eedc72edbe87984a0142cca624ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 37/44] fix: report lack of memory between the stages of
 dtrm_glp

The distance to an uninitialised word decided about the next stage.
---
 dtrm_glp/dtrm_glp_main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 62476ca..749a270 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -477,7 +477,10 @@ dec_bpsk(
          for (j = 0; j < dd->dc.node_table_len; j++)
             dd->dc.node_table[j] = (dd->dc.node_table[j] == 0) ? 0 : dd->lsiz[i];
          rm_dec(&(dd->dc), dec_input, x_dec, NULL);
-         enc_bpsk(cdc, x_dec, y_dec);
+         if (enc_bpsk(cdc, x_dec, y_dec)) {
+            free(mem_buf);
+            return -1;
+         }
          d1 = 0.0;
          // d1 <-- dist(dec_input, y_dec).
          for (j = 0; j < dd->c_n; j++)
-- 
2.43.0


From 1946378eb18ba825f8f0c8e68a1faad30964b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 38/44] fix: release the buffers which were allocated when
 memory is short

---
 simulators/sim_bg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index c835414..225b996 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -386,6 +386,10 @@ int sim_run(
   c_out = (double *)malloc(c_n * sizeof(double));
   if ((x == NULL) || (x_dec == NULL) || (c_in == NULL) || (c_out == NULL)) {
     err_msg("sim_bg run error: short of memory.");
+    free(c_out);
+    free(c_in);
+    free(x_dec);
+    free(x);
     return RC_ERROR;
   }
 
-- 
2.43.0


From 8d76b89b874d551d43466e49def5008a359d4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:52 +0000
Subject: [PATCH 39/44] fix: end the simulation with an error when a word
 cannot be encoded

The trial was counted with the previous word or with uninitialised values.
---
 simulators/sim_bg.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 225b996..3bfd32f 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -366,6 +366,7 @@ int sim_run(
   int *x_dec; // Decoded information vector.
   double *c_in; // Channel input.
   double *c_out; // Channel output.
+  sim_point pt_old; // Counters before the current trial.
   time_t start_time;
   int en = 0;
   int i;
@@ -410,12 +411,21 @@ int sim_run(
 
     while (sim->pt[csnrn].trn < sim->trn_req[csnrn]) {
 
+      copy_sim_point(&pt_old, &sim->pt[csnrn]);
       sim->pt[csnrn].trn++;
 
       // Generate random or zero code word.
       if (sim->use_rndcw) {
         for (i = 0; i < c_k; i++) x[i] = (RND > 0.5) ? 1 : 0;
-        enc_bpsk(sim->dc_inst, x, c_in);
+        if (enc_bpsk(sim->dc_inst, x, c_in)) {
+          err_msg("sim_bg run error: error while encoding.");
+          sim->pt[csnrn].trn--;
+          free(c_out);
+          free(c_in);
+          free(x_dec);
+          free(x);
+          return RC_ERROR;
+        }
       }
       else {
         for (i = 0; i < c_k; i++) x[i] = 0;
@@ -462,7 +472,15 @@ int sim_run(
         // d1 <-- dist(c_in, c_out).
         for (i = 0; i < c_n; i++) d1 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         // d2 <-- dist[encode(x_dec), c_out].
-        enc_bpsk(sim->dc_inst, x_dec, c_in);
+        if (enc_bpsk(sim->dc_inst, x_dec, c_in)) {
+          err_msg("sim_bg run error: error while encoding.");
+          copy_sim_point(&sim->pt[csnrn], &pt_old);
+          free(c_out);
+          free(c_in);
+          free(x_dec);
+          free(x);
+          return RC_ERROR;
+        }
         for (i = 0; i < c_n; i++) d2 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         if (d1 > d2) sim->pt[csnrn].enml_bl++;
       }
-- 
2.43.0


From cac30925de8ad89e81ee5b041be52e4d50ff5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:52 +0000
Subject: [PATCH 40/44] fix: release everything when a simulation or an old
 results file is invalid

The simulation, its codec and the parameters stayed allocated.
---
 simulators/sim_bg.c | 53 ++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 3bfd32f..f70d054 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -35,6 +35,7 @@
 #include <string.h>
 #include <time.h>
 #include "../common/std_defs.h"
+#define SPF_FAIL goto ret_err // Parameters parsing failure.
 #include "../common/spf_par.h"
 #include "../interfaces/simul.h"
 #include "../interfaces/codec.h"
@@ -192,9 +193,9 @@ int sim_init(
   void **inst // Simulation instance.
 ) {
   char *sp_str; // Simulation parameters string.
-  sim_bg_inst *sim; // Simulator instance.
+  sim_bg_inst *sim = NULL; // Simulator instance.
   // Temporary variables.
-  char *token, *str1;
+  char *token, *str1 = NULL;
 
   // Read and preparse simulation parameters.
   if (spf_read_preparse(sp->spf_name, &sp_str) != RC_OK) return RC_ERROR;
@@ -203,7 +204,7 @@ int sim_init(
   sim = (sim_bg_inst *)malloc(sizeof(sim_bg_inst));
   if (sim == NULL) {
     err_msg("sim_bg init error: short of memory!");
-    return RC_ERROR;
+    goto ret_err;
   }
   memset(sim, 0, sizeof(sim_bg_inst));
 
@@ -211,7 +212,7 @@ int sim_init(
   str1 = (char *)malloc(SP_STR_MAX);
   if (str1 == NULL) {
     err_msg("sim_bg init error: short of memory!");
-    return RC_ERROR;
+    goto ret_err;
   }
   str1[0] = 0;
 
@@ -225,7 +226,7 @@ int sim_init(
       SPF_CHECK_VALUE(token);
       if (strlen(token) >= FN_LEN_MAX) {
         err_msg("sim_bg init error: output file name is too long.");
-        return RC_ERROR;
+        goto ret_err;
       }
       strcpy(sim->rf_name, token);
       token = strtok(NULL, tk_seps_prepared);
@@ -246,12 +247,12 @@ int sim_init(
           }
           if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
             err_msg("sim_bg init error: too many SNR_val_trn values!");
-            return RC_ERROR;
+            goto ret_err;
           }
         }
         else {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
-          return RC_ERROR;
+          goto ret_err;
         }
         sim->snr_num = i;
         token = strtok(NULL, tk_seps_prepared);
@@ -275,7 +276,7 @@ int sim_init(
   strcpy(str1, sp_str);
   if (cdc_init(str1, &(sim->dc_inst))) {
     err_msg("sim_bg init error: cannot init codec.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   sim->code_n = cdc_get_n(sim->dc_inst);
@@ -284,11 +285,11 @@ int sim_init(
   // Check if all necessary parameters are specified.
   if (sim->rf_name[0] == 0) {
     err_msg("sim_bg init error: res_file is not specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
   if (sim->min_trn <= 0) {
     sim->min_trn = 1;
@@ -298,7 +299,7 @@ int sim_init(
   }
   if ((sim->code_n == 0) || (sim->code_k == 0)) {
     err_msg("sim_bg init error: code_n or code_k are not specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   // Assign other settings and init counters in the simulation instance.
@@ -319,6 +320,16 @@ int sim_init(
   (*inst) = sim;
 
   return RC_OK;
+
+ret_err:
+
+  if (sim != NULL) {
+    if (sim->dc_inst != NULL) cdc_close(sim->dc_inst);
+    free(sim);
+  }
+  free(sp_str);
+  free(str1);
+  return RC_ERROR;
 }
 
 // Delete simulation instance.
@@ -582,7 +593,7 @@ merge_res(
   sim_bg_inst *sim // Simulation instance.
 ) {
   FILE *fp;
-  char *str1, *token; // For old res file parsing.
+  char *str1 = NULL, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
   sim_point pt_file[SNR_NUM_MAX];
@@ -624,35 +635,36 @@ merge_res(
         &token, tr_num_token, &pt_file[0].trn, sizeof(sim_point), &trn_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, en_bit_token, &pt_file[0].en_bit, sizeof(sim_point), &en_bit_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, en_bl_token, &pt_file[0].en_bl, sizeof(sim_point), &en_bl_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, er_n_token, &pt_file[0].er_n, sizeof(sim_point), &er_n_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, ml_tr_num_token, &pt_file[0].trn_ml, sizeof(sim_point), &ml_trn_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, enml_bl_token, &pt_file[0].enml_bl, sizeof(sim_point), &enml_bl_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       SPF_SKIP_UNKNOWN_PARAMETER(token);
     }
     free(str1);
+    str1 = NULL;
 
     // Check validity of the data.
     if ((snr_num != trn_n) || (en_bit_n != trn_n) || (en_bl_n != trn_n) || (er_n_n != trn_n)
@@ -770,6 +782,11 @@ merge_res(
   }
 
   return RC_OK;
+
+ret_err:
+
+  free(str1);
+  return RC_ERROR;
 }
 
 // Save simulation results.
-- 
2.43.0


From 7eaa06de949919483c14a221186d9404ba8b22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:13 +0000
Subject: [PATCH 41/44] fix: print lists of any length in the builds with
 diagnostic output

Lists of more than 4096 bits were copied to an array of 4096.
---
 dtrm_glp/dtrm_glp_inner.c   | 4 +++-
 polar_scl/polar_scl_inner.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index e464379..f13e87f 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -160,7 +160,8 @@ int vgetx_all(int listInd, xlitem *res_x) {
 }
 void print_list(char rem[]) {
   int i, j, n;
-  xlitem tmp[4096];
+  xlitem *tmp = (xlitem *)malloc((next_xle_ptr - xlist) * sizeof(xlitem)); // No list is longer.
+  if (tmp == NULL) return;
   if (rem != NULL) {
     printf("%s: ", rem);
   }
@@ -172,6 +173,7 @@ void print_list(char rem[]) {
     }
     printf(" ");
   }
+  free(tmp);
   printf("\n");
 #ifdef DBG2
   printf("Y buffers: ");
diff --git a/polar_scl/polar_scl_inner.c b/polar_scl/polar_scl_inner.c
index 328377b..bbec767 100644
--- a/polar_scl/polar_scl_inner.c
+++ b/polar_scl/polar_scl_inner.c
@@ -135,7 +135,8 @@ int vgetx_all(int listInd, xlitem *res_x) {
 }
 void print_list(char rem[]) {
   int i, j, n;
-  xlitem tmp[4096];
+  xlitem *tmp = (xlitem *)malloc((next_xle_ptr - xlist) * sizeof(xlitem)); // No list is longer.
+  if (tmp == NULL) return;
   if (rem != NULL) {
     printf("%s: ", rem);
   }
@@ -147,6 +148,7 @@ void print_list(char rem[]) {
     }
     printf(" ");
   }
+  free(tmp);
   printf("\n");
 #ifdef DBG2
   printf("Y buffers: ");
-- 
2.43.0


From fe7d49d5fefbe85d3d0c6ca84bc0fe38e7ba1b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:12 +0000
Subject: [PATCH 42/44] fix: keep the old results until the new ones are
 completely written

The results file was rewritten in place: a process which ended while writing,
or a full disk, lost everything that was stored before.
---
 simulators/sim_bg.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index f70d054..95ecd68 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -604,6 +604,7 @@ merge_res(
   int er_n_n = 0;
   int enml_bl_n = 0;
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
+  char tmpfn[FN_LEN_MAX + 4]; // Temporary file name.
   int i, j, n, snrs_to_save;
 
   // Check if there is (not empty) old res file.
@@ -708,9 +709,11 @@ merge_res(
   }
   snrs_to_save = snr_num;
 
-  // Save updated data.
+  // Save updated data to a temporary file: old results are kept until the new ones are complete.
 
-  fp = fopen(sim->rf_name, "wt");
+  strcpy(tmpfn, sim->rf_name);
+  strcat(tmpfn, ".tmp");
+  fp = fopen(tmpfn, "wt");
   if (fp == NULL) {
     err_msg("sim_bg saving error: cannot open file to save results.");
     return RC_ERROR;
@@ -774,6 +777,15 @@ merge_res(
   n = ferror(fp);
   if ((fclose(fp) != 0) || n) {
     err_msg("sim_bg saving error: cannot write results.");
+    remove(tmpfn);
+    return RC_ERROR;
+  }
+#ifdef _WIN32
+  remove(sim->rf_name); // rename() does not replace files there.
+#endif
+  if (rename(tmpfn, sim->rf_name) != 0) {
+    err_msg("sim_bg saving error: cannot replace old res file.");
+    remove(tmpfn);
     return RC_ERROR;
   }
 
-- 
2.43.0


From 8620ad6a1a5af5dbb1c0cce798a26cc167c0dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:05 +0000
Subject: [PATCH 43/44] fix: cut lists of many equally likely paths in linear
 time and without deep recursion

---
 dtrm_glp/dtrm_glp_inner.c   | 13 +++++++++++--
 polar_scl/polar_scl_inner.c | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index f13e87f..6e96c0c 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -188,7 +188,7 @@ void print_list(char rem[]) {
 #define SWAP(a, b) { tmp = v[a]; v[a] = v[b]; v[b] = tmp; }
 
 static void qpartition(int *v, int len, int k) {
-  int i, st, tmp;
+  int i, st, eq, tmp;
 
   for (st = i = 0; i < len - 1; i++) {
     if (slist[v[i]] < slist[v[len - 1]]) continue;
@@ -199,7 +199,16 @@ static void qpartition(int *v, int len, int k) {
   SWAP(len - 1, st);
 
   if (k == st) return;
-  if (st > k) qpartition(v, st, k);
+  if (st > k) {
+    // Elements which are equal to v[st] need no further partition.
+    for (eq = i = 0; i < st; i++) {
+      if (slist[v[i]] > slist[v[st]]) {
+        SWAP(i, eq);
+        eq++;
+      }
+    }
+    if (k < eq) qpartition(v, eq, k);
+  }
   else qpartition(v + st, len - st, k - st);
 }
 
diff --git a/polar_scl/polar_scl_inner.c b/polar_scl/polar_scl_inner.c
index bbec767..76cfa20 100644
--- a/polar_scl/polar_scl_inner.c
+++ b/polar_scl/polar_scl_inner.c
@@ -163,7 +163,7 @@ void print_list(char rem[]) {
 #define SWAP(a, b) { tmp = v[a]; v[a] = v[b]; v[b] = tmp; }
 
 void qpartition(int *v, int len, int k) {
-  int i, st, tmp;
+  int i, st, eq, tmp;
 
   for (st = i = 0; i < len - 1; i++) {
     if (slist[v[i]] < slist[v[len - 1]]) continue;
@@ -174,7 +174,16 @@ void qpartition(int *v, int len, int k) {
   SWAP(len - 1, st);
 
   if (k == st) return;
-  if (st > k) qpartition(v, st, k);
+  if (st > k) {
+    // Elements which are equal to v[st] need no further partition.
+    for (eq = i = 0; i < st; i++) {
+      if (slist[v[i]] > slist[v[st]]) {
+        SWAP(i, eq);
+        eq++;
+      }
+    }
+    if (k < eq) qpartition(v, eq, k);
+  }
   else qpartition(v + st, len - st, k - st);
 }
 
-- 
2.43.0


From 3ec21b127ff73be281abffb44eab64e3bed7d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:45 +0000
Subject: [PATCH 44/44] fix: count and save more than 2^31 bit errors

---
 Octave/loadsrf.c    |  4 ++--
 common/spf_par.c    | 43 +++++++++++++++++++++++++++++++++++++++++++
 common/spf_par.h    | 11 +++++++++++
 simulators/sim_bg.c |  6 +++---
 4 files changed, 59 insertions(+), 5 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index a6a0c59..b80a3b2 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -73,7 +73,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   double snr_db[SNR_NUM_MAX];
   int trn[SNR_NUM_MAX];
   int ml_trn[SNR_NUM_MAX];
-  int en_bit[SNR_NUM_MAX];
+  long long en_bit[SNR_NUM_MAX];
   int en_bl[SNR_NUM_MAX];
   int er_n[SNR_NUM_MAX];
   int enml_bl[SNR_NUM_MAX];
@@ -111,7 +111,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
     rc = tryread_group_int_param(&token, tr_num_token, trn, sizeof(int), &trn_n, SNR_NUM_MAX, err_reading_msg);
     if (rc == RC_OK) continue;
     if (rc == RC_ERROR) SPF_FAIL;
-    rc = tryread_group_int_param(&token, en_bit_token, en_bit, sizeof(int), &en_bit_n, SNR_NUM_MAX, err_reading_msg);
+    rc = tryread_group_llong_param(&token, en_bit_token, en_bit, sizeof(en_bit[0]), &en_bit_n, SNR_NUM_MAX, err_reading_msg);
     if (rc == RC_OK) continue;
     if (rc == RC_ERROR) SPF_FAIL;
     rc = tryread_group_int_param(&token, en_bl_token, en_bl, sizeof(int), &en_bl_n, SNR_NUM_MAX, err_reading_msg);
diff --git a/common/spf_par.c b/common/spf_par.c
index f244b16..5073798 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -302,3 +302,46 @@ int tryread_group_int_param(
   return RC_SPF_UNKNOWN;
 }
 
+int tryread_group_llong_param(
+  char **inout_tk,
+  char *param_key,
+  long long *x,
+  size_t step_size,
+  int *n,
+  int max_n,
+  char *erstr
+) {
+  if (strcmp(*inout_tk, param_key) == 0) {
+    int i = 0;
+    char *tk = strtok(NULL, tk_seps_prepared);
+    if ((tk != NULL) && (tk[0] == GROUP_CHAR_BEGIN)) {
+      tk = strtok(NULL, tk_seps_prepared);
+      while ((tk != NULL) && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
+        char *end;
+        long long val;
+        errno = 0;
+        val = strtoll(tk, &end, 10);
+        if ((*end != 0) || (errno != 0)) {
+          err_msg(erstr);
+          return RC_ERROR;
+        }
+        *x = val;
+        x = (long long *)((unsigned char *)x + step_size);
+        tk = strtok(NULL, tk_seps_prepared);
+        i++;
+      }
+      if ((tk == NULL) || (tk[0] != GROUP_CHAR_END)) {
+        err_msg(erstr);
+        return RC_ERROR;
+      }
+    }
+    else {
+      err_msg(erstr);
+      return RC_ERROR;
+    }
+    *n = i;
+    *inout_tk = strtok(NULL, tk_seps_prepared);
+    return RC_OK;
+  }
+  return RC_SPF_UNKNOWN;
+}
diff --git a/common/spf_par.h b/common/spf_par.h
index ace5a48..7d881a6 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -233,4 +233,15 @@ int tryread_group_int_param(
   char *erstr
 );
 
+// The same for numbers that may not fit in int.
+int tryread_group_llong_param(
+  char **inout_tk,
+  char *param_key,
+  long long *x,
+  size_t step_size,
+  int *n,
+  int max_n,
+  char *erstr
+);
+
 #endif // #ifndef SPF_PAR_H
\ No newline at end of file
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 95ecd68..57cc45a 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -73,7 +73,7 @@
 
 typedef struct {
   int trn;
-  int en_bit;
+  long long en_bit;
   int en_bl;
   int er_n;
   int trn_ml;
@@ -637,7 +637,7 @@ merge_res(
       );
       if (rc == RC_OK) continue;
       if (rc == RC_ERROR) goto ret_err;
-      rc = tryread_group_int_param(
+      rc = tryread_group_llong_param(
         &token, en_bit_token, &pt_file[0].en_bit, sizeof(sim_point), &en_bit_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
@@ -730,7 +730,7 @@ merge_res(
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", en_bit_token);
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%d ", pt_file[n].en_bit);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%lld ", pt_file[n].en_bit);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", en_bl_token);
-- 
2.43.0

