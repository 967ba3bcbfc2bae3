From 6cd0c122ac0a87a989c09888ae66ca465dbf5a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 01/20] fix: keep reliabilities finite for very strong received
 symbols

exp(y) overflows for y > 709 and (1 - inf) / (1 + inf) is NaN, so one
strong symbol corrupted the decision of every decoder. -tanh(y / 2) is
the same function without the overflow.
---
 formats/formats.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/formats/formats.h b/formats/formats.h
index bb90a32..e72d1d9 100644
--- a/formats/formats.h
+++ b/formats/formats.h
@@ -85,8 +85,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = -tanh(0.5 * (y[i])); \
       FORMAT_CLIP(e[i]); \
    } \
 }
@@ -95,10 +94,7 @@
 #ifndef FORMAT_USE_CLIPPING
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
-   for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
-   } \
+   for (i = 0; i < n; i++) e[i] = -tanh(0.5 * (y[i])); \
 }
 #endif // if not FORMAT_USE_CLIPPING
 
-- 
2.43.0


From 12becedd7c34bf4a5126bd2b02d99699173e83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 02/20] fix: no fixed-size scratch arrays in the recursive
 decoders

An (m, m) end node longer than 1024 (dtrm0) or any end node longer than
4096 (dtrm1) overflowed the scratch array on the stack. The hard
decisions are transformed in place and the first-order word is encoded
straight into y_dec.
---
 dtrm/dtrm0.c |  7 +++----
 dtrm/dtrm1.c | 11 +++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f832d3..df5bf28 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -92,19 +92,18 @@ tri0_dec(
 
    // RM(m, m) case.
    if (r == m) {
-      int tmp[1024];
       (*x_dec_len) = n; // n information bits.
       for (i = 0; i < n; i++) {
          if (CHECK_EST0(y_in[i])) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = YLDEC0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = YLDEC1;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec);
       return 0;
    }
 
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 44577ea..1a43481 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -75,7 +75,6 @@ tri1_dec(
 )
 {
    int i, n2, cur_x_dec_len;
-   int tmp[4096];
    double *y1, *y2, *y_dec1, *y_dec2;
 
    // RM(m, m) case.
@@ -85,15 +84,15 @@ tri1_dec(
 
       for (i = 0; i < n; i++) {
          if (y_in[i] > 0) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = 1.0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = -1.0;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec);
 
       return 0;
 
@@ -107,8 +106,8 @@ tri1_dec(
 #else
       if (rm1_dec_sh_finp(m, y_in, x_dec)) return 1;
 #endif
-      mrm_enc_bsc(m, r, x_dec, tmp);
-      for (i = 0; i < n; i++) y_dec[i] = (double)(1 - (tmp[i] << 1));
+      if (mrm_enc_bpsk(m, r, x_dec, y_dec)) return 1;
+      for (i = 0; i < n; i++) y_dec[i] = -y_dec[i];
       return 0;
    } // if (r == 1).
 
-- 
2.43.0


From 1f281572f9c7aacfab56c770266bb2876e992be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 03/20] fix: dtrm1 reports a failed allocation instead of a
 made-up word

---
 dtrm/dtrm1.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 1a43481..1f16021 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -122,10 +122,10 @@ tri1_dec(
    // Decode u1.
    // [x_dec1, y_dec1] = dtrm01_she(r - 1, m - 1, y1 .* y2);
    for (i = 0; i < n2; i++) aux_buf[i] = y1[i] * y2[i];
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r - 1, m - 1, n2,
       y_dec1, x_dec, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) = cur_x_dec_len;
 
    // Decode u2.
@@ -133,10 +133,10 @@ tri1_dec(
    for (i = 0; i < n2; i++) y1[i] *= y_dec1[i];
    VADD_EST(y1, y2, aux_buf, n2);
    // ADD_EST_EPS(y1, y2, aux_buf, n2);
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r, m - 1, n2,
       y_dec2, x_dec + cur_x_dec_len, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) += cur_x_dec_len;
 
    // y_dec = [y_dec1 .* y_dec2, y_dec2];
@@ -306,7 +306,11 @@ dec_bpsk(
    for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
    VY_TO_FORMAT(dec_input, dec_input, dd->c_n);
 
-   tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
+   if (tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf)) {
+      err_msg("dec_bpsk: Short of memory.");
+      free(mem_buf);
+      return -1;
+   }
 
    free(mem_buf);
 
-- 
2.43.0


From 7ce9b7dcbe886b1a66a7b094bb7e763879ecfe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 04/20] fix: pruning one candidate drops the worst one

For k == len - 1 qpartition() returned without ordering anything, so the
last candidate was dropped whatever its metric.
---
 dtrm_glp/dtrm_glp_inner.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 2637f02..3e89407 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -188,8 +188,6 @@ void print_list(char rem[]) {
 static void qpartition(int *v, int len, int k) {
   int i, st, tmp;
 
-  if (k == len - 1) return;
-
   if (len == 2) {
     if (slist[v[0]] < slist[v[1]]) SWAP(0, 1)
     return;
-- 
2.43.0


From 01d6e5bee063d3f18cb0cc45a61092db665fe598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 05/20] fix: size the permutation tables by what they hold

inf_coeff[2048] and p_info[10000] on the stack overflowed for codes with
more than 2048 monomials and for long permutation lists.
---
 dtrm_glp/dtrm_glp_main.c      | 20 +++++++++++++++++++-
 polar_scl/ca_polar_scl_main.c | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ae9bf34..94df343 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -96,7 +96,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -115,6 +115,14 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Allocate temporary storage for permutations (an entry takes at least
+   // two characters of the parameter string).
+   p_info = (int *)malloc((strlen(param_str) + 32) * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -229,6 +237,11 @@ cdc_init(
    }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
       // i2 <-- weight(i);
@@ -261,6 +274,9 @@ cdc_init(
       p1 += c_m;
    }
 
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
+
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
       err_msg("cdc_init: error in dec_tables_init().");
@@ -282,6 +298,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (p_info != NULL) free(p_info);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d507819..5fa5697 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -146,7 +146,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -165,6 +165,14 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Allocate temporary storage for permutations (an entry takes at least
+   // two characters of the parameter string).
+   p_info = (int *)malloc((strlen(param_str) + 32) * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -286,6 +294,11 @@ cdc_init(
    }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
       // i2 <-- weight(i);
@@ -318,6 +331,9 @@ cdc_init(
       p1 += c_m;
    }
 
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
+
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
       err_msg("cdc_init: error in dec_tables_init().");
@@ -339,6 +355,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (p_info != NULL) free(p_info);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
-- 
2.43.0


From 8c64d5d80f401f0ab12ad5b5b036a90cf3bc8140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 06/20] fix: check the allocation of the position permutations

---
 dtrm_glp/dtrm_glp_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 94df343..ffafc6f 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -227,7 +227,7 @@ cdc_init(
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-      if ((dd->dc.pxarr == NULL) || (dd->dc.pxarr == NULL)) {
+      if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
       }
-- 
2.43.0


From 6dcf91ff7ca3fa94508677e6c753989c589cd4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 07/20] fix: size the decoder memory for the largest list of
 the schedule

With use_variable_list a schedule entry larger than border_node_lsize
made the decoder write past the end of its memory.
---
 dtrm_glp/dtrm_glp_main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ffafc6f..3745b17 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -284,6 +284,12 @@ cdc_init(
    }
 #endif // FORMAT_Q
 
+   // The list sizes of the schedule may exceed the border node list size.
+   if (dd->use_var_list != 0) {
+      for (i = 0; i < dd->dist_t_n; i++)
+         dd->dc.peak_lsiz = MAX(dd->dc.peak_lsiz, dd->lsiz[i]);
+   }
+
    // Allocate decoder memory buffer
    dd->dc.mem_buf = (uint8 *)malloc(get_membuf_size(&(dd->dc)));
    if (dd->dc.mem_buf == NULL) {
-- 
2.43.0


From 95ebc922cbbf35acf51dfe88a707a94ad1b30f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 08/20] fix: code_mm keeps a state for every level an int
 length can have

---
 dtrm_glp/dtrm_glp_inner.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 3e89407..b29272c 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -206,10 +206,9 @@ static void qpartition(int *v, int len, int k) {
   else qpartition(v + st, len - st, k - st);
 }
 
-// n <= 2^15.
 void code_mm(int n, xlitem *x, xlitem *y) {
   int cur_depth = 0;
-  int states[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
+  int states[32] = {0}; // One per level, n < 2^32.
   int i, n2;
 
   while (cur_depth >= 0) {
-- 
2.43.0


From 596f7bb0d47359f10645c49e1085eb43adc76a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 09/20] fix: the requested number of trials is never lowered
 and fits an int

---
 simulators/sim_bg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e5d82a1..306b7d6 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -44,7 +44,7 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MAX_TRIALS_PER_SNR 1e10
+#define MAX_TRIALS_PER_SNR 2e9 // Must fit an int.
 
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
@@ -326,12 +326,12 @@ static void update_trn_req(
     double estimate;
     if (sim->pt[csnrn].en_bl > MIN_EN_FOR_TRN_ESTIMATION) {
       estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;
-      sim->trn_req[csnrn] = (int)MAX(sim->min_trn, MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_req[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
       estimate = sim->pt[csnrn].trn * 1.5;
-      sim->trn_req[csnrn] = (int)MIN(estimate + 0.5, MAX_TRIALS_PER_SNR);
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_req[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
     }
   }
 }
-- 
2.43.0


From 97939e91f682246d30e8f2e88732897b2b036b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 10/20] fix: bit error rate shown does not overflow with many
 trials

---
 simulators/sim_bg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 306b7d6..0c0c43b 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -514,7 +514,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
         sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0
       );
@@ -527,7 +527,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn
       );
       strcat(ds, str1);
-- 
2.43.0


From 83570a5adca5ef5f588805ddd38aa3361d43d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 11/20] fix: room for the busy flag suffix after the longest
 results file name

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 0c0c43b..d180461 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -542,7 +542,7 @@ sim_save_res(
 ) {
   sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
+  char bsyfn[FN_LEN_MAX + 4]; // Busy flag file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
-- 
2.43.0


From 3f9e34d7f343baa3c0f3a4f344b9aa25419a2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 12/20] fix: merging results stays within the SNR table

---
 simulators/sim_bg.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index d180461..17d6c9b 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -634,8 +634,13 @@ sim_save_res(
     for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
       if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
       n = 0;
-      while ((snr_db[n] < sim->snr_db[i]) && (n < snr_num)) n++;
-      if ((snr_db[n] > sim->snr_db[i]) || (n >= snr_num)) {
+      while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
+      if ((n >= snr_num) || (snr_db[n] > sim->snr_db[i])) {
+        if (snr_num >= SNR_NUM_MAX) {
+          err_msg("sim_bg saving error: too many SNR values in the results file.");
+          remove(bsyfn);
+          return RC_ERROR;
+        }
         // Make room for the new at n if required.
         for (j = snr_num; j > n; j--) {
           snr_db[j] = snr_db[j - 1];
-- 
2.43.0


From d2d7829a3d00d302b4bfe9b7cddaa97d739bcb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 13/20] fix: the first save orders SNR values like the later
 ones

---
 simulators/sim_bg.c | 62 +++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 17d6c9b..01f150f 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -629,44 +629,40 @@ sim_save_res(
       err_msg("sim_bg saving error: invalid old res file.");
       return RC_ERROR;
     }
-
-    // Update the data.
-    for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-      if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
-      n = 0;
-      while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
-      if ((n >= snr_num) || (snr_db[n] > sim->snr_db[i])) {
-        if (snr_num >= SNR_NUM_MAX) {
-          err_msg("sim_bg saving error: too many SNR values in the results file.");
-          remove(bsyfn);
-          return RC_ERROR;
-        }
-        // Make room for the new at n if required.
-        for (j = snr_num; j > n; j--) {
-          snr_db[j] = snr_db[j - 1];
-          copy_sim_point(&pt_file[j], &pt_file[j - 1]);
-        }
-        snr_num++;
-        // Add new at n.
-        snr_db[n] = sim->snr_db[i];
-        init_sim_point(&pt_file[n]);
-      }
-      // Update at n.
-      sim_point tmppt;
-      sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
-      add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
-    }
-    snrs_to_save = snr_num;
   }
   else {
+    // Assume there was no old res file, so nothing has been saved to it.
+    memset(sim->pt_saved, 0, sizeof(sim->pt_saved));
+  }
 
-    // Assume there was no old res file.
-    snrs_to_save = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
-    for (n = 0; n < snrs_to_save; n++) {
-      snr_db[n] = sim->snr_db[n];
-      copy_sim_point(&pt_file[n], &sim->pt[n]);
+  // Update the data.
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+    n = 0;
+    while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
+    if ((n >= snr_num) || (snr_db[n] > sim->snr_db[i])) {
+      if (snr_num >= SNR_NUM_MAX) {
+        err_msg("sim_bg saving error: too many SNR values in the results file.");
+        remove(bsyfn);
+        return RC_ERROR;
+      }
+      // Make room for the new at n if required.
+      for (j = snr_num; j > n; j--) {
+        snr_db[j] = snr_db[j - 1];
+        copy_sim_point(&pt_file[j], &pt_file[j - 1]);
+      }
+      snr_num++;
+      // Add new at n.
+      snr_db[n] = sim->snr_db[i];
+      init_sim_point(&pt_file[n]);
     }
+    // Update at n.
+    sim_point tmppt;
+    sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
+    add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
+  snrs_to_save = snr_num;
+
   for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
     copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
   }
-- 
2.43.0


From e06544a2c0ae9322cf1531303658dbc07f8224b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 14/20] fix: trials count as saved only once the results file
 is open

---
 simulators/sim_bg.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 01f150f..bb53a05 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -663,18 +663,19 @@ sim_save_res(
   }
   snrs_to_save = snr_num;
 
-  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
-  }
-
   // Save updated data.
 
   fp = fopen(sim->rf_name, "wt");
   if (fp == NULL) {
     err_msg("sim_bg saving error: cannot open file to save results.");
+    remove(bsyfn);
     return RC_ERROR;
   }
 
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
+  }
+
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-- 
2.43.0


From 60cfe4adebffe5c7d5b9f5dcab66ac68cad27527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 15/20] fix: SNR values survive being written to the results
 file

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index bb53a05..33ed157 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -679,7 +679,7 @@ sim_save_res(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.15g ", snr_db[n]);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0


From fc095a14afb9535e58f8f56b05f4c08b904e5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 16/20] fix: a failed first save does not forget what was saved
 before

---
 simulators/sim_bg.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 33ed157..099a51e 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -547,6 +547,7 @@ sim_save_res(
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
   sim_point pt_file[SNR_NUM_MAX];
+  sim_point pt_base[SNR_NUM_MAX]; // Counts that the results file has already.
   int trn_n = 0;
   int ml_trn_n = 0;
   int en_bit_n = 0;
@@ -629,15 +630,16 @@ sim_save_res(
       err_msg("sim_bg saving error: invalid old res file.");
       return RC_ERROR;
     }
+    memcpy(pt_base, sim->pt_saved, sizeof(pt_base));
   }
   else {
     // Assume there was no old res file, so nothing has been saved to it.
-    memset(sim->pt_saved, 0, sizeof(sim->pt_saved));
+    memset(pt_base, 0, sizeof(pt_base));
   }
 
   // Update the data.
   for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+    if (sim->pt[i].trn == pt_base[i].trn) continue;
     n = 0;
     while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
     if ((n >= snr_num) || (snr_db[n] > sim->snr_db[i])) {
@@ -658,7 +660,7 @@ sim_save_res(
     }
     // Update at n.
     sim_point tmppt;
-    sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
+    sub_sim_points(&tmppt, &sim->pt[i], &pt_base[i]);
     add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
   snrs_to_save = snr_num;
-- 
2.43.0


From 5051a491112ce47794c2c4524ac8a22f3b78f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 17/20] fix: includes at the end of a file, ending in a comment
 or too large

---
 common/spf_par.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index a05f989..97e61ea 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -99,7 +99,7 @@ spf_read_preparse_ext(
 {
    FILE *sp_file; // Simulation parameters file.
    char *sp_str, *str1, *str2, *token;
-   int sp_str_len, str2_len, i1;
+   int sp_str_len, str2_len, i1, is_whole;
 
    // Read simulation parameters file to str1.
    if ((sp_file = fopen(spf_name, "rb")) == NULL) {
@@ -139,6 +139,9 @@ spf_read_preparse_ext(
 
    // Remove comments from str1 and copy the result to str2.
    str2_len = strcpy_strip_comments(str1, i1, 1, str2);
+   // The last token must be followed by a separator too.
+   str2[str2_len++] = ' ';
+   str2[str2_len] = 0;
 
    // ----- Preparse parameters.
 
@@ -148,7 +151,7 @@ spf_read_preparse_ext(
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
-         if ((sp_file = fopen(token, "rb")) == NULL) {
+         if ((token == NULL) || ((sp_file = fopen(token, "rb")) == NULL)) {
             err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
             free(str1);
@@ -162,10 +165,10 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
-         str1[i1++] = ' ';
-         str1[i1] = 0;
+         is_whole = (i1 < SP_STR_MAX - 1);
          i1 = strcpy_strip_comments(str1, i1, 1, str1);
-         if (i1 + str2_len >= SP_STR_MAX) {
+         str1[i1++] = ' ';
+         if (!is_whole || (i1 + str2_len >= SP_STR_MAX)) {
             err_msg("spf_read_preparse(): file is too huge.");
             free(sp_str);
             free(str1);
-- 
2.43.0


From c68e7b5e1f91d284ac2b9817f83cae9ce11db46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 18/20] fix: every group brace is a token and the prepared text
 fits its buffer

---
 common/spf_par.c | 45 +++++++++++++--------------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 97e61ea..2abeb8a 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -33,6 +33,7 @@
 
 char token_seps[] = " ,\t\n\r";
 char tk_seps_prepared[] = {TOKEN_SEP_CHAR, 0};
+char group_chars[] = {GROUP_CHAR_BEGIN, GROUP_CHAR_END, 0};
 
 char include_token[] = "include";
 char switch_on_token[] = "on";
@@ -183,43 +184,23 @@ spf_read_preparse_ext(
          continue;
       }
       
-      // Group begins.
-      if (token[0] == GROUP_CHAR_BEGIN) {
-         sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
-         sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-         sp_str[sp_str_len] = 0;
-         if (strlen(token) > 1) {
-            strcat(sp_str, token + 1);
-            sp_str_len += strlen(token) - 1;
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
-         }
-         token = strtok(NULL, token_seps);
-         continue;
-      }
-
-      // Group ends.
-      if (token[strlen(token) - 1] == GROUP_CHAR_END) {
-         if (strlen(token) > 1) {
-            token[strlen(token) - 1] = 0;
-            strcat(sp_str, token);
-            sp_str_len += strlen(token);
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
+      // Group begins and ends are tokens of their own.
+      while (token[0] != 0) {
+         i1 = strcspn(token, group_chars);
+         if (i1 == 0) i1 = 1;
+         if (sp_str_len + i1 + 1 >= SP_STR_MAX) {
+            err_msg("spf_read_preparse(): file is too huge.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
          }
-         sp_str[sp_str_len++] = GROUP_CHAR_END;
+         memcpy(sp_str + sp_str_len, token, i1);
+         sp_str_len += i1;
          sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
          sp_str[sp_str_len] = 0;
-         token = strtok(NULL, token_seps);
-         continue;
+         token += i1;
       }
 
-      // All other tokens.
-      strcat(sp_str, token);
-      sp_str_len += strlen(token);
-      sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-      sp_str[sp_str_len] = 0;
-      
       token = strtok(NULL, token_seps);
    }
 
-- 
2.43.0


From 21b7176b4c7e6e739f0b7dbf196a89a6e4d53980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 19/20] fix: asking for more trials repeatedly does not
 overflow the requested number

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 099a51e..a1ba83d 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -753,7 +753,7 @@ void sim_control(
 
   switch (ctrl_code) {
     case SIM_CTRL_CUR_MORE :
-      sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_req[csnrn], MIN(sim->trn_req[csnrn] * 1.5, MAX_TRIALS_PER_SNR));
       break;
     case SIM_CTRL_CUR_LESS :
       sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;
-- 
2.43.0


From 4ee054884d97a577306fb4631075637c6775a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 20/20] fix: a candidate whose CRC could not be checked is not
 reported as success

---
 polar_scl/ca_polar_scl_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 5fa5697..9191eb9 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -108,7 +108,7 @@ int get_best_in_list(
     int i;
     int *tmp = (int *)malloc(x_len * sizeof(int));
     if (tmp == NULL) {
-      return 0;
+      return -1; // the CRC cannot be checked
     }
     for (i = 0; i < lsiz; i++) {
       if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
-- 
2.43.0

