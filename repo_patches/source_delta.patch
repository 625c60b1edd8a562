From 15a465dee3a09e3d22c3974c2cfc16785bce47a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:16 +0000
Subject: [PATCH 01/23] fix: normal forms must use exact linear algebra in
 concurrent threads

core_nf() called the global pointer linear_algebra, which another thread
working on another prime may have switched to a probabilistic variant in
between; the normal forms are then wrong and the lifting does not converge.
---
 src/neogb/nf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index c470579..6425a71 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -83,8 +83,9 @@ bs_t *core_nf(
     convert_hashes_to_columns(mat, md, md->ht);
     sort_matrix_rows_decreasing(mat->rr, mat->nru);
 
-    /* linear algebra, depending on choice, see set_function_pointers() */
-    linear_algebra(mat, tbr, bs, md);
+    /* exact linear algebra: do not use the global pointer linear_algebra here,
+     * another thread may have reset it to a probabilistic variant meanwhile */
+    exact_linear_algebra(mat, tbr, bs, md);
     /* columns indices are mapped back to exponent hashes */
     return_normal_forms_to_basis(
             mat, tbr, bht, md->ht, md->hcm, md);
-- 
2.43.0


From 25f0e78e8f2ff2e9d04aa7392b69b0bd8fe27a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:17 +0000
Subject: [PATCH 02/23] fix: make deg private in parallel row conversion

With an elimination order the degree bound of an element was computed in a
variable shared by all threads.
---
 src/neogb/convert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/convert.c b/src/neogb/convert.c
index 7c4bb64..6ad9685 100644
--- a/src/neogb/convert.c
+++ b/src/neogb/convert.c
@@ -655,7 +655,7 @@ static void convert_sparse_matrix_rows_to_basis_elements(
     deg_t pairs_deg = sht->hd[hcm[0]].deg;
     switch_hcm_data_to_basis_hash_table(hcm, bht, mat, sht);
 #pragma omp parallel for num_threads(st->nthrds) \
-    private(i, j, k)
+    private(i, j, k, deg)
     for (k = 0; k < np; ++k) {
         /* We first insert the highest leading monomial element to the basis
          * for a better Gebauer-Moeller application when updating the pair
-- 
2.43.0


From 1621f6ce032bc13d8d460987156d20d52025f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:17 +0000
Subject: [PATCH 03/23] fix: one error flag per prime in the parallel modular
 steps

The flag was shared by all threads of the parallel loop over the primes.
---
 src/msolve/msolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index f94692e..2d6653d 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1705,7 +1705,6 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
     double rt = realtime();
     /* tracing phase */
     len_t i;
-    int32_t error = 0;
 
     /* F4 and FGLM are run using a single thread */
     /* st->nthrds is reset to its original value afterwards */
@@ -1717,6 +1716,8 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
 #pragma omp parallel for num_threads(nthrds)  \
     private(i) schedule(static)
     for (i = 0; i < st->nprimes; ++i){
+      /* one error flag per prime, primes are handled concurrently */
+      int32_t error = 0;
       if (trace_det->mat_lifted < 2 || trace_det->lin_lifted < 2) {
         bs[i] = core_gba(bs_qq, st, &error, lp->p[i]);
         *stf4 = realtime()-rt;
-- 
2.43.0


From a91b9055a3ce449431c03b820c5edd5814dfe5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 04/23] fix: generators are separated by commata, not by line
 ends

The number of generators was the number of non-empty lines, so a polynomial
over several lines (README: polynomials may be multiline) crashed and the
second of two polynomials on one line was silently dropped.
---
 src/msolve/iofiles.c | 72 ++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 43 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 3c5bea0..0e1b66b 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -387,27 +387,34 @@ static int32_t get_nvars(const char *fn)
 }
 
 /**
- * Checks if a null-terminated string is just empty
- * ("only whitespaces" counts as empty)
+ * Reads the next generator. Generators are separated by commata and may span
+ * several lines. Whitespace and the trailing comma are removed, empty
+ * generators (e.g. after a last comma) are skipped.
  *
- * \return 1 if the line is empty, else 0
+ * \return 1 if there is a generator, 0 at the end of the file
  */
-static inline int is_line_empty(const char *line)
+static int get_next_generator(char **linep, size_t *len, FILE *fh)
 {
-    while (*line != '\0')
+    ssize_t read;
+    while ((read = getdelim(linep, len, ',', fh)) != -1)
     {
-        if (!isspace(*line))
-            return 0;
-        line++;
+        char *line = *linep;
+        ssize_t j, k;
+        for (k = 0, j = 0; j < read; ++j)
+            if (!isspace((unsigned char)line[j]) && line[j] != ',')
+                line[k++] = line[j];
+        line[k] = '\0';
+        if (k > 0)
+            return 1;
     }
-    return 1;
+    return 0;
 }
 
 static int32_t get_ngenerators(char *fn)
 {
     int32_t ngens = 0;
     char *line  = NULL;
-    size_t len;
+    size_t len = 0;
     FILE *fh  = fopen(fn,"r");
 
     /* 1st and 2nd lines are ignored; still check all went fine */
@@ -415,11 +422,10 @@ static int32_t get_ngenerators(char *fn)
         || getline(&line, &len, fh) == -1)
         ngens = -1;
 
-    /* go through subsequent lines, not counting empty ones */
+    /* go through the generators */
     else
-        while(getline(&line, &len, fh) != -1)
-            if (! is_line_empty(line))
-                ngens++;
+        while (get_next_generator(&line, &len, fh))
+            ngens++;
 
     free(line);
     fclose(fh);
@@ -553,18 +559,12 @@ static void get_nterms_and_all_nterms(FILE *fh, char **linep,
                                       int32_t *nr_gens, nelts_t *nterms, nelts_t *all_nterms){
 
     char *line  = *linep;
-    int32_t i = 0, j = 0, k = 0;
-    size_t len = 0;
-    while(getdelim(&line, &len, ',', fh) != -1) {
-        for (k = 0, j = 0; j < len; ++j) {
-            if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                line[k++] = line[j];
-            }
-        }
+    int32_t i = 0;
+    size_t len = max_line_size;
+    while(get_next_generator(&line, &len, fh)) {
         *nterms  = get_number_of_terms(line);
         gens->lens[i] = *nterms;
         *all_nterms += *nterms;
-        len = 0;
         i++;
     }
     *linep  = line;
@@ -815,17 +815,10 @@ static void get_coeffs_and_exponents_ff32(FILE *fh, char **linep, nelts_t all_nt
 
     gens->cfs = (int32_t *)(malloc(sizeof(int32_t) * all_nterms));
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
+        if (!get_next_generator(&line, &len, fh)) {
+            break;
         }
         if(get_coefficient_ff_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
@@ -860,17 +853,10 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
     }
 
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
+        if (!get_next_generator(&line, &len, fh)) {
+            break;
         }
         if(get_coefficient_mpz_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
-- 
2.43.0


From 6613d4b6846f1d3781599336d4d2b2f304a141a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:38 +0000
Subject: [PATCH 05/23] fix: read coefficients modulo the characteristic
 exactly

Over prime fields the first coefficient was truncated to 32 bit, the
coefficient 0 was read as 1 and rational coefficients lost their denominator.
---
 src/msolve/iofiles.c | 83 +++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 0e1b66b..b2d64d7 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -653,56 +653,59 @@ static inline void get_term(const char *line, char **prev_pos,
 }
 
 
-/*assumes that coeffs in file fit in word size */
+/* reads the digits at the beginning of str modulo field_char, end is set to the
+ * first character which is not a digit */
+static int64_t get_residue(const char *str, const char **end, int32_t field_char){
+  int64_t c = 0;
+  for (; isdigit((unsigned char)*str); ++str) {
+    c = (10 * c + (*str - '0')) % field_char;
+  }
+  *end = str;
+  return c;
+}
+
+/* coefficient of a term, possibly negative, rational or missing (i.e. one) */
+static int32_t get_coefficient_ff(const char *term, int32_t field_char){
+  const int neg = (*term == '-');
+  if (*term == '-' || *term == '+') {
+    ++term;
+  }
+  int64_t c = 1;
+  if (isdigit((unsigned char)*term)) {
+    c = get_residue(term, &term, field_char);
+    if (*term == '/') {
+      int64_t d = get_residue(term + 1, &term, field_char);
+      if (d == 0) {
+        fprintf(stderr, "Denominator is zero in characteristic %d, exit...\n",
+                field_char);
+        exit(1);
+      }
+      /* c <- c * d^(field_char - 2) */
+      for (int32_t e = field_char - 2; e > 0; e >>= 1) {
+        if (e & 1) {
+          c = (c * d) % field_char;
+        }
+        d = (d * d) % field_char;
+      }
+    }
+  }
+  c = c % field_char;
+  return (int32_t)((neg && c != 0) ? field_char - c : c);
+}
+
 static int get_coefficient_ff_and_term_from_line(char *line, int32_t nterms,
                                           int32_t field_char,
                                           data_gens_ff_t *gens, int32_t pos){
   char *prev_pos = NULL;
   size_t term_size = 50000;
   char *term  = (char *)malloc(term_size * sizeof(char));
-  int64_t cf_tmp  = 0; /** temp for coefficient value, possibly coeff is negative. */
 
   prev_pos = line;
-  get_term(line, &prev_pos, &term, &term_size);
   if(term != NULL){
-    int32_t iv_tmp  = (int32_t)strtol(term, NULL, 10);
-    if (iv_tmp == 0) {
-      switch (term[0]) {
-          case '0':
-            iv_tmp = 0;
-            break;
-          case '-':
-            iv_tmp = -1;
-            break;
-          default:
-            iv_tmp = 1;
-            break;
-      }
-    }
-    while (iv_tmp < 0) {
-      iv_tmp  +=  field_char; //MS change int -> long int
-    }
-    gens->cfs[pos]  = (int32_t)iv_tmp;
-    store_exponent(term, gens, pos*gens->nvars);
-    for(int j = 1; j < nterms; j++){
+    for(int j = 0; j < nterms; j++){
       get_term(line, &prev_pos, &term, &term_size);
-      if (term != NULL) {
-        cf_tmp  = (int64_t)strtol(term, NULL, 10);
-
-        if (cf_tmp == 0) {
-          if (term[0] == '-') {
-            cf_tmp = -1;
-          } else {
-            cf_tmp = 1;
-          }
-        }
-        while (cf_tmp < 0) {
-          cf_tmp  += field_char;
-        }
-        gens->cfs[pos+j] = (int32_t)(cf_tmp % field_char);
-        store_exponent(term, gens, (pos+j)*gens->nvars);
-      }
-      //      store_exponent(term, basis, ht);
+      gens->cfs[pos+j] = get_coefficient_ff(term, field_char);
+      store_exponent(term, gens, (pos+j)*gens->nvars);
     }
     free(term);
     return 0;
-- 
2.43.0


From 468113439053bcc4b1cb99e76e7dc8f88199d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:38 +0000
Subject: [PATCH 06/23] fix: add up the exponents of a variable repeated in a
 monomial

x*x was read as x.
---
 src/msolve/iofiles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index b2d64d7..2092892 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -51,7 +51,7 @@ static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_
             }
             for (k = 0; k < gens->nvars; ++k) {
                 if (strcmp(gens->vnames[k], var) == 0) {
-                    ((gens->exps) + pos)[k] = strtol(ev, NULL, 10);
+                    ((gens->exps) + pos)[k] += strtol(ev, NULL, 10);
                     break;
                 }
             }
-- 
2.43.0


From 11bdb685a66e90a2c6a6cf548b0e9e488bec3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 07/23] fix: add up equal monomials and drop zero terms of the
 input

x+x was not merged (wrong bases), a single term with coefficient zero made
msolve drop the whole polynomial, and over prime fields such terms could
lead to wrong bases or an endless loop.
---
 src/msolve/iofiles.c | 92 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 92 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 2092892..4ef32e8 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -18,6 +18,8 @@
  * Christian Eder
  * Mohab Safey El Din */
 
+#include "../neogb/sort_r.h"
+
 static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_t pos)
 {
     len_t i, j, k;
@@ -900,6 +902,95 @@ static int duplicate_vnames(char **vnames, int32_t nvars) {
   return 0;
 }
 
+static int cmp_exponents(const void *a, const void *b, void *arg)
+{
+  const data_gens_ff_t *gens = (const data_gens_ff_t *)arg;
+  const int32_t i = *(const int32_t *)a, j = *(const int32_t *)b;
+  const int32_t * const ea = gens->exps + (int64_t)i * gens->nvars;
+  const int32_t * const eb = gens->exps + (int64_t)j * gens->nvars;
+  for (int32_t k = 0; k < gens->nvars; ++k) {
+    if (ea[k] != eb[k]) {
+      return ea[k] < eb[k] ? -1 : 1;
+    }
+  }
+  return (i > j) - (i < j);
+}
+
+static inline int is_zero_cf(const data_gens_ff_t *gens, int32_t i)
+{
+  return gens->field_char ?
+    gens->cfs[i] == 0 : mpz_sgn(*(gens->mpz_cfs[2*i])) == 0;
+}
+
+/* adds the coefficient of term j to the one of term i, sets that of j to 0 */
+static void merge_terms(data_gens_ff_t *gens, int32_t i, int32_t j)
+{
+  if (gens->field_char) {
+    gens->cfs[i] = (int32_t)(((int64_t)gens->cfs[i] + gens->cfs[j]) % gens->field_char);
+    gens->cfs[j] = 0;
+  } else {
+    mpz_t *n = gens->mpz_cfs[2*i], *d = gens->mpz_cfs[2*i+1];
+    mpz_mul(*n, *n, *(gens->mpz_cfs[2*j+1]));
+    mpz_addmul(*n, *d, *(gens->mpz_cfs[2*j]));
+    mpz_mul(*d, *d, *(gens->mpz_cfs[2*j+1]));
+    mpz_set_ui(*(gens->mpz_cfs[2*j]), 0);
+  }
+}
+
+/* Adds up terms with the same monomial and removes terms with coefficient zero,
+ * the zero polynomial is kept as a single term. */
+static void normalize_generators(data_gens_ff_t *gens)
+{
+  int32_t pos = 0, npos = 0;
+  int32_t *idx = (int32_t *)malloc(sizeof(int32_t) * gens->nterms);
+
+  for (int32_t i = 0; i < gens->ngens; ++i) {
+    const int32_t len = gens->lens[i];
+    for (int32_t j = 0; j < len; ++j) {
+      idx[j] = pos + j;
+    }
+    sort_r(idx, (unsigned long)len, sizeof(int32_t), cmp_exponents, gens);
+    for (int32_t j = 0, k = 1; k < len; ++k) {
+      if (memcmp(gens->exps + (int64_t)idx[j] * gens->nvars,
+                 gens->exps + (int64_t)idx[k] * gens->nvars,
+                 gens->nvars * sizeof(int32_t)) == 0) {
+        merge_terms(gens, idx[j], idx[k]);
+      } else {
+        j = k;
+      }
+    }
+    int32_t nlen = 0;
+    for (int32_t j = pos; j < pos + len; ++j) {
+      if (is_zero_cf(gens, j) && !(nlen == 0 && j == pos + len - 1)) {
+        continue;
+      }
+      if (j != npos + nlen) {
+        memcpy(gens->exps + (int64_t)(npos + nlen) * gens->nvars,
+               gens->exps + (int64_t)j * gens->nvars,
+               gens->nvars * sizeof(int32_t));
+        if (gens->field_char) {
+          gens->cfs[npos + nlen] = gens->cfs[j];
+        } else {
+          mpz_swap(*(gens->mpz_cfs[2*(npos+nlen)]), *(gens->mpz_cfs[2*j]));
+          mpz_swap(*(gens->mpz_cfs[2*(npos+nlen)+1]), *(gens->mpz_cfs[2*j+1]));
+        }
+      }
+      ++nlen;
+    }
+    gens->lens[i] = nlen;
+    pos  += len;
+    npos += nlen;
+  }
+  free(idx);
+  if (!gens->field_char) {
+    for (int32_t j = 2*npos; j < 2*pos; ++j) {
+      mpz_clear(*(gens->mpz_cfs[j]));
+      free(gens->mpz_cfs[j]);
+    }
+  }
+  gens->nterms = npos;
+}
+
 //nr_gens is a pointer to the number of generators
 static inline void get_data_from_file(char *fn, int32_t *nr_vars,
                                       int32_t *field_char,
@@ -942,6 +1033,7 @@ static inline void get_data_from_file(char *fn, int32_t *nr_vars,
   else{
     get_coeffs_and_exponents_mpz(fh, &line, all_nterms, nr_gens, gens);
   }
+  normalize_generators(gens);
 
   free(line);
   fclose(fh);
-- 
2.43.0


From dae28c77ebd2b2667e59d25265284b5ae7a46a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:26 +0000
Subject: [PATCH 08/23] fix: print the leading monomial 1

Over prime fields the leading ideal of the unit ideal was printed as [].
---
 src/msolve/iofiles.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 4ef32e8..2907f6c 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -241,6 +241,9 @@ static void print_msolve_polynomials_ff(
                     }
                     k++;
                 }
+                if (ctr == 0) {
+                    fprintf(file, "1");
+                }
                 for (;k < nv; ++k) {
                     if (ht->ev[hm[0]][evi[k]] > 0) {
                         fprintf(file, "*%s^%u",vnames[k], ht->ev[hm[0]][evi[k]]);
-- 
2.43.0


From c7f473c647cc42186a815966a18972acfecfa272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:40 +0000
Subject: [PATCH 09/23] fix: trace F4 only where the linear algebra records
 traces

With -l 1 over the rationals the learned trace held no rows, so every
prime after the first one was rejected and the computation stopped.
---
 src/neogb/f4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neogb/f4.c b/src/neogb/f4.c
index 2237798..a16be93 100644
--- a/src/neogb/f4.c
+++ b/src/neogb/f4.c
@@ -360,7 +360,8 @@ static int32_t initialize_f4(
     if (gmd->fc != fc) {
         reset_function_pointers(fc, md->laopt);
         bs = copy_basis_mod_p(gbs, md);
-        if (md->laopt < 40) {
+        /* only the exact sparse linear algebra records traces */
+        if (md->laopt == 2) {
             if (md->trace_level != APPLY_TRACER) {
                 md->trace_level = LEARN_TRACER;
             }
-- 
2.43.0


From 5fd0786472cc6c399579cca35f7a92f42bc04127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:25 +0000
Subject: [PATCH 10/23] fix: skip bad primes in the multi-modular
 parametrization

An image at a bad prime was still handed to FGLM, and the parametrization
of its thread was lost, so that the next good prime dereferenced NULL.
---
 src/msolve/msolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 2d6653d..6cea9fe 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1728,7 +1728,6 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
                 free(bs[i]);
                 bs[i] = NULL;
             }
-            nmod_params[i] = NULL;
             bad_primes[i] = 1;
             continue;
         }
@@ -1786,6 +1785,8 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
         }
         else{
             bad_primes[i] = 1;
+            free_basis_and_only_local_hash_table_data(&(bs[i]));
+            continue;
             }
      }
         if(nmod_fglm_compute_apply_trace_data(bmatrix[i], lp->p[i],
-- 
2.43.0


From b6476ab3f05dc79b6962f6e38a9b535a92a72797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:25 +0000
Subject: [PATCH 11/23] fix: recover from bad primes when lifting a Groebner
 basis

The bad prime flag was never cleared nor set for a wrong number of
elements, and the restart drew the very same primes from the same seed
and applied the old trace.
---
 src/msolve/lifting-gb.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 07ebb22..1d502e1 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -742,7 +742,7 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
   /* F4 and FGLM are run using a single thread */
   /* st->nthrds is reset to its original value afterwards */
   /*at the moment multi-threading is not supprted here*/
-  memset(bad_primes, 0, (unsigned long)st->nprimes * sizeof(int));
+  bad_primes[0] = 0;
 
   bs_t *bs = NULL;
   int32_t error = 0;
@@ -769,6 +769,7 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
       if (bs != NULL) {
         free_basis_and_only_local_hash_table_data(&bs);
       }
+      bad_primes[0] = 1;
       return;
   }
 
@@ -1177,7 +1178,6 @@ gb_modpoly_t *core_groebner_qq(
   uint32_t prime = 0;
   uint32_t primeinit = 0;
   uint32_t lprime = 1303905299;
-  srand(time(0));
 
   prime = next_prime(rand() % (1303905301 - (1<<30) + 1) + (1<<30));
   while(fc == 0 && is_lucky_prime_ui(prime, msd->bs_qq)){
@@ -1414,6 +1414,9 @@ gb_modpoly_t *core_groebner_qq(
         if(info_level){
           fprintf(stderr, "Too many bad primes, computation will restart\n");
         }
+        /* learn a new trace, the old one may come from a bad prime */
+        free_trace(&(st->tr));
+        st->trace_level = LEARN_TRACER;
         if(dlinit){
           data_lift_clear(dlift);
         }
@@ -1649,6 +1652,7 @@ gb_modpoly_t *groebner_qq(
   int err = 0;
 
   gb_modpoly_t *modgbsp = malloc(sizeof(gb_modpoly_t));
+  srand(time(0));
   modgbsp = core_groebner_qq(modgbsp, bs, msd, md, &err, field_char, print_gb);
   if (err) {
       printf("Problem with groebner_qq, stopped computation (%d).\n", err);
@@ -1824,6 +1828,7 @@ int64_t export_groebner_qq(
     int err = 0;
 
     gb_modpoly_t *modgbsp = malloc(sizeof(gb_modpoly_t));
+    srand(time(0));
     modgbsp = core_groebner_qq(modgbsp, bs, msd, md, &err, field_char, 
             2/* if set to 1, only the LM of the Gbs are correct */);
     if (err) {
-- 
2.43.0


From ae1de497d8500972b04862e6147c785aaee5e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 12/23] fix: read a generator that begins with a plus sign

---
 src/msolve/iofiles.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 2907f6c..d558218 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -393,7 +393,7 @@ static int32_t get_nvars(const char *fn)
 
 /**
  * Reads the next generator. Generators are separated by commata and may span
- * several lines. Whitespace and the trailing comma are removed, empty
+ * several lines. Whitespace, a leading plus sign and the trailing comma are removed, empty
  * generators (e.g. after a last comma) are skipped.
  *
  * \return 1 if there is a generator, 0 at the end of the file
@@ -409,7 +409,10 @@ static int get_next_generator(char **linep, size_t *len, FILE *fh)
             if (!isspace((unsigned char)line[j]) && line[j] != ',')
                 line[k++] = line[j];
         line[k] = '\0';
-        if (k > 0)
+        /* a leading plus sign says nothing */
+        if (line[0] == '+')
+            memmove(line, line+1, k);
+        if (line[0] != '\0')
             return 1;
     }
     return 0;
-- 
2.43.0


From 1a44f33d142642ed80e0675d14caa389626d749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 13/23] fix: free the reconstruction data once when there are
 too many bad primes

---
 src/msolve/msolve.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 6cea9fe..7630c58 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2435,7 +2435,6 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
           free_rrec_data(recdata);
           mpz_clear(prod_crt);
           trace_det_clear(trace_det);
-          free_rrec_data(recdata);
           fprintf(stderr, "Many other data should be cleaned\n");
           return -4;
         }
-- 
2.43.0


From ad95bbcbf9475d4681a95b75cb129ec642349c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 14/23] fix: restart the lifting of a Groebner basis when most
 primes are bad

---
 src/msolve/lifting-gb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 1d502e1..2fca1de 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1410,13 +1410,16 @@ gb_modpoly_t *core_groebner_qq(
         }
       }
 
-      if(nbadprimes == nprimes){
+      /* most primes bad: the one the trace was learnt with is */
+      if(2 * nbadprimes > (uint32_t)nprimes){
         if(info_level){
           fprintf(stderr, "Too many bad primes, computation will restart\n");
         }
         /* learn a new trace, the old one may come from a bad prime */
         free_trace(&(st->tr));
         st->trace_level = LEARN_TRACER;
+        mpz_set_ui(msd->mod_p, 1);
+        mpz_set_ui(msd->prod_p, 1);
         if(dlinit){
           data_lift_clear(dlift);
         }
-- 
2.43.0


From 47788ab022ab14b2052fcd4b0ddf5f477f8a5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 15/23] fix: let the restart of the lifting choose whether to
 trace

With -l 1 the restarted computation believed it held a trace, found no rows
in it and restarted for ever.
---
 src/msolve/lifting-gb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 2fca1de..bba03ec 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1417,7 +1417,7 @@ gb_modpoly_t *core_groebner_qq(
         }
         /* learn a new trace, the old one may come from a bad prime */
         free_trace(&(st->tr));
-        st->trace_level = LEARN_TRACER;
+        st->trace_level = NO_TRACER;
         mpz_set_ui(msd->mod_p, 1);
         mpz_set_ui(msd->prod_p, 1);
         if(dlinit){
-- 
2.43.0


From 655199e84567f6105673c0e5641d3b3af97aca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:21 +0000
Subject: [PATCH 16/23] fix: refine a real root until its coordinates are
 known, too

With a linear form of the variables as parameter and a large degree, only the
sign of the denominator stopped the refinement, and the boxes of the
coordinates could be as wide as 10^83 and contain all the solutions.
---
 src/msolve/msolve.c | 177 ++++++++++++++++++++++++--------------------
 1 file changed, 97 insertions(+), 80 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 7630c58..6e41c50 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2928,6 +2928,99 @@ int newvalue_denom(mpz_t *denom, long deg, mpz_t r, long k, mpz_t *xdo,
   return (boo || (mpz_sgn(den_do)==0) || (mpz_sgn(den_up)==0));
 }
 
+/* Bounds the coordinates, but for the last one, over the interval rt.
+   Returns 0 if one of them is not known up to a quarter of prec bits, else 1. */
+static int interval_coordinates(mpz_param_t param, interval *rt, mpz_t *xdo,
+                                mpz_t *xup, mpz_t den_do, mpz_t den_up,
+                                mpz_t val_do, mpz_t val_up, mpz_t tmp,
+                                real_point_t pt, long prec, long corr) {
+  int narrow = 1;
+  mpz_t v1, v2;
+  mpz_init(v1);
+  mpz_init(v2);
+
+  for (long nv = 0; nv < param->nvars - 1; nv++) {
+
+    mpz_scalar_product_interval(param->coords[nv]->coeffs,
+                                param->coords[nv]->length - 1, rt->k, xdo, xup,
+                                tmp, val_do, val_up, corr);
+    mpz_neg(val_do, val_do);
+    mpz_neg(val_up, val_up);
+    mpz_swap(val_up, val_do);
+
+    long dec = prec;
+
+    long nbits = mpz_sizeinbase(val_up, 2) - mpz_sizeinbase(den_up, 2) - mpz_sizeinbase(param->cfs[nv], 2);
+    if(nbits <= 0){
+        dec = prec - nbits;
+    }
+
+    mpz_mul_2exp(val_up, val_up, dec);
+    mpz_mul_2exp(val_do, val_do, dec);
+
+    if (rt->isexact==0 && mpz_cmp(val_do, val_up) > 0) {
+      fprintf(stderr, "BUG in real root extractor(2)\n");
+      exit(1);
+    }
+
+    if (mpz_sgn(den_do) >= 0 && mpz_sgn(den_up) >= 0) {
+      if (mpz_sgn(val_do) >= 0 && mpz_sgn(val_up) >= 0) {
+        mpz_mul(tmp, den_up, param->cfs[nv]);
+        mpz_fdiv_q(v1, val_do, tmp);
+        mpz_mul(tmp, den_do, param->cfs[nv]);
+        mpz_cdiv_q(v2, val_up, tmp);
+        
+      }
+      if (mpz_sgn(val_do) <= 0 && mpz_sgn(val_up) >= 0) {
+        mpz_mul(tmp, den_do, param->cfs[nv]);
+        mpz_fdiv_q(v1, val_do, tmp);
+        mpz_cdiv_q(v2, val_up, tmp);
+      }
+      if (mpz_sgn(val_do) <= 0 && mpz_sgn(val_up) <= 0) {
+        mpz_mul(tmp, den_do, param->cfs[nv]);
+        mpz_fdiv_q(v1, val_do, tmp);
+        mpz_mul(tmp, den_up, param->cfs[nv]);
+        mpz_cdiv_q(v2, val_up, tmp);
+      }
+    } else {
+      if (mpz_sgn(val_do) >= 0 && mpz_sgn(val_up) >= 0) {
+        mpz_mul(tmp, den_up, param->cfs[nv]);
+        mpz_fdiv_q(v1, val_up, tmp);
+        mpz_mul(tmp, den_do, param->cfs[nv]);
+        mpz_cdiv_q(v2, val_do, tmp);
+      }
+      if (mpz_sgn(val_do) <= 0 && mpz_sgn(val_up) >= 0) {
+        mpz_mul(tmp, den_up, param->cfs[nv]);
+        mpz_fdiv_q(v1, val_up, tmp);
+        mpz_cdiv_q(v2, val_do, tmp);
+      }
+      if (mpz_sgn(val_do) <= 0 && mpz_sgn(val_up) <= 0) {
+        mpz_mul(tmp, den_do, param->cfs[nv]);
+        mpz_fdiv_q(v1, val_up, tmp);
+        mpz_mul(tmp, den_up, param->cfs[nv]);
+        mpz_cdiv_q(v2, val_do, tmp);
+      }
+    }
+    mpz_set(val_do, v1);
+    mpz_set(val_up, v2);
+
+    mpz_set(pt->coords[nv]->val_up, val_up);
+    mpz_set(pt->coords[nv]->val_do, val_do);
+
+    pt->coords[nv]->k_up = dec;
+    pt->coords[nv]->k_do = dec;
+    pt->coords[nv]->isexact = 0;
+
+    mpz_sub(tmp, val_up, val_do);
+    if ((long)mpz_sizeinbase(tmp, 2) > dec - prec / 4 + 2) {
+      narrow = 0;
+    }
+  }
+  mpz_clear(v1);
+  mpz_clear(v2);
+  return narrow;
+}
+
 void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
                                  interval *rt, long nb, interval *pos_root,
                                  mpz_t *xdo, mpz_t *xup, mpz_t den_up,
@@ -2951,9 +3044,11 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
 
   generate_table_values_full(rt, c, ns, b, corr, xdo, xup);
   while (rt->isexact == 0 && 
-          newvalue_denom(param->denom->coeffs, param->denom->length - 1,
+          (newvalue_denom(param->denom->coeffs, param->denom->length - 1,
                         rt->numer, rt->k, xdo, xup, tmp, den_do, den_up, corr,
-                        s)) {
+                        s)
+           || !interval_coordinates(param, rt, xdo, xup, den_do, den_up,
+                        val_do, val_up, tmp, pt, prec, corr))) {
 
     /* root is positive */
     if (mpz_sgn(rt->numer) >= 0) {
@@ -3026,82 +3121,6 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
     return;
   }
 
-  mpz_t v1, v2;
-  mpz_init(v1);
-  mpz_init(v2);
-
-  for (long nv = 0; nv < param->nvars - 1; nv++) {
-
-    mpz_scalar_product_interval(param->coords[nv]->coeffs,
-                                param->coords[nv]->length - 1, rt->k, xdo, xup,
-                                tmp, val_do, val_up, corr);
-    mpz_neg(val_do, val_do);
-    mpz_neg(val_up, val_up);
-    mpz_swap(val_up, val_do);
-
-    long dec = prec;
-
-    long nbits = mpz_sizeinbase(val_up, 2) - mpz_sizeinbase(den_up, 2) - mpz_sizeinbase(param->cfs[nv], 2);
-    if(nbits <= 0){
-        dec = prec - nbits;
-    }
-
-    mpz_mul_2exp(val_up, val_up, dec);
-    mpz_mul_2exp(val_do, val_do, dec);
-
-    if (rt->isexact==0 && mpz_cmp(val_do, val_up) > 0) {
-      fprintf(stderr, "BUG in real root extractor(2)\n");
-      exit(1);
-    }
-
-    if (mpz_sgn(den_do) >= 0 && mpz_sgn(den_up) >= 0) {
-      if (mpz_sgn(val_do) >= 0 && mpz_sgn(val_up) >= 0) {
-        mpz_mul(tmp, den_up, param->cfs[nv]);
-        mpz_fdiv_q(v1, val_do, tmp);
-        mpz_mul(tmp, den_do, param->cfs[nv]);
-        mpz_cdiv_q(v2, val_up, tmp);
-        
-      }
-      if (mpz_sgn(val_do) <= 0 && mpz_sgn(val_up) >= 0) {
-        mpz_mul(tmp, den_do, param->cfs[nv]);
-        mpz_fdiv_q(v1, val_do, tmp);
-        mpz_cdiv_q(v2, val_up, tmp);
-      }
-      if (mpz_sgn(val_do) <= 0 && mpz_sgn(val_up) <= 0) {
-        mpz_mul(tmp, den_do, param->cfs[nv]);
-        mpz_fdiv_q(v1, val_do, tmp);
-        mpz_mul(tmp, den_up, param->cfs[nv]);
-        mpz_cdiv_q(v2, val_up, tmp);
-      }
-    } else {
-      if (mpz_sgn(val_do) >= 0 && mpz_sgn(val_up) >= 0) {
-        mpz_mul(tmp, den_up, param->cfs[nv]);
-        mpz_fdiv_q(v1, val_up, tmp);
-        mpz_mul(tmp, den_do, param->cfs[nv]);
-        mpz_cdiv_q(v2, val_do, tmp);
-      }
-      if (mpz_sgn(val_do) <= 0 && mpz_sgn(val_up) >= 0) {
-        mpz_mul(tmp, den_up, param->cfs[nv]);
-        mpz_fdiv_q(v1, val_up, tmp);
-        mpz_cdiv_q(v2, val_do, tmp);
-      }
-      if (mpz_sgn(val_do) <= 0 && mpz_sgn(val_up) <= 0) {
-        mpz_mul(tmp, den_do, param->cfs[nv]);
-        mpz_fdiv_q(v1, val_up, tmp);
-        mpz_mul(tmp, den_up, param->cfs[nv]);
-        mpz_cdiv_q(v2, val_do, tmp);
-      }
-    }
-    mpz_set(val_do, v1);
-    mpz_set(val_up, v2);
-
-    mpz_set(pt->coords[nv]->val_up, val_up);
-    mpz_set(pt->coords[nv]->val_do, val_do);
-
-    pt->coords[nv]->k_up = dec;
-    pt->coords[nv]->k_do = dec;
-    pt->coords[nv]->isexact = 0;
-  }
   mpz_set(pt->coords[param->nvars - 1]->val_do, rt->numer);
   mpz_set(pt->coords[param->nvars - 1]->val_up, rt->numer);
   mpz_add_ui(pt->coords[param->nvars - 1]->val_up,
@@ -3110,8 +3129,6 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
   pt->coords[param->nvars - 1]->k_do = rt->k;
   pt->coords[param->nvars - 1]->isexact = 0;
 
-  mpz_clear(v1);
-  mpz_clear(v2);
 }
 
 void normalize_points(real_point_t *pts, int64_t nb, int32_t nv) {
-- 
2.43.0


From 36c1d9530eb8db08b7c3ad2e500abe71f60acd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 17/23] fix: sort the terms of input polynomials downwards for
 the lexicographical order

---
 src/neogb/order.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/order.c b/src/neogb/order.c
index 0f114bd..0dc8a96 100644
--- a/src/neogb/order.c
+++ b/src/neogb/order.c
@@ -263,7 +263,7 @@ static int initial_gens_cmp_lex(
     while(i < evl-1 && ea[i] == eb[i]) {
         ++i;
     }
-    return ea[i] - eb[i];
+    return eb[i] - ea[i];
 }
 
 static int monomial_cmp_pivots_lex(
-- 
2.43.0


From 7380d5ed608ea8ca41f766000b2065db950221d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 18/23] fix: no probabilistic linear algebra in export_nf over
 small fields

---
 src/neogb/nf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index 6425a71..bde5b10 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -154,7 +154,7 @@ int64_t export_nf(
     success = initialize_gba_input_data(&bs, &bht, &md,
             bs_lens, bs_exps, bs_cfs, field_char, mon_order, elim_block_len,
             nr_vars, nr_bs_gens, 0, 17,
-            nr_threads, 0, 0, 44, 0,
+            nr_threads, 0, 0, field_char < (1 << 15) ? 2 : 44, 0,
             1, 0, 0, info_level);
 
     /* all input generators are invalid */
-- 
2.43.0


From d27b1809bfc676f573d76dc7680f095af0e07dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 19/23] fix: allocate the terminating zero of the names in
 msolve_julia

---
 src/msolve/msolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 6e41c50..2710087 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -5030,7 +5030,7 @@ void msolve_julia(
     /* gens->vnames                = var_names; */
     gens->vnames  = (char **)malloc((unsigned long)nr_vars * sizeof(char *));
     for (i = 0; i < nr_vars; ++i) {
-        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]), sizeof(char));
+        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]) + 1, sizeof(char));
         memcpy(gens->vnames[i], var_names[i], (unsigned long)strlen(var_names[i]) * sizeof(char));
     }
     /* gens->lens                  = lens; */
-- 
2.43.0


From f02a6b30f13e698c3ce197edea48897423256211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 20/23] fix: enlarge a full hash table before multipliers are
 stored, too

---
 src/neogb/symbol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/neogb/symbol.c b/src/neogb/symbol.c
index 62d069f..d02c946 100644
--- a/src/neogb/symbol.c
+++ b/src/neogb/symbol.c
@@ -121,7 +121,7 @@ static void select_all_spairs(
         /* track trace information ? */
         if (tht != NULL) { 
            rrows[nrr][BINDEX]  = prev;
-            if (tht->eld == tht->esz-1) {
+            if (tht->eld >= tht->esz-1) {
                 enlarge_hash_table(tht);
             }
             rrows[nrr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -157,7 +157,7 @@ static void select_all_spairs(
             /* track trace information ? */
             if (tht != NULL) {
                 trows[ntr][BINDEX]  = prev;
-                if (tht->eld == tht->esz-1) {
+                if (tht->eld >= tht->esz-1) {
                     enlarge_hash_table(tht);
                 }
                 trows[ntr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -326,7 +326,7 @@ static int32_t select_spairs_by_minimal_degree(
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) { 
            rrows[nrr][BINDEX]  = prev;
-            if (bs->ht->eld == bs->ht->esz-1) {
+            if (bs->ht->eld >= bs->ht->esz-1) {
                 enlarge_hash_table(bs->ht);
             }
 #if PARALLEL_HASHING
@@ -361,7 +361,7 @@ static int32_t select_spairs_by_minimal_degree(
             /* track trace information ? */
             if (md->trace_level == LEARN_TRACER) {
                 trows[ntr][BINDEX]  = prev;
-                if (bs->ht->eld == bs->ht->esz-1) {
+                if (bs->ht->eld >= bs->ht->esz-1) {
                     enlarge_hash_table(bs->ht);
                 }
 #if PARALLEL_HASHING
@@ -539,7 +539,7 @@ start:
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) {
             rows[rr][BINDEX]  = lmps[i];
-            if (bht->eld == bht->esz-1) {
+            if (bht->eld >= bht->esz-1) {
                 enlarge_hash_table(bht);
             }
 #if PARALLEL_HASHING
-- 
2.43.0


From 71afd57a18c22290b2d2fe6c59d739d82ace65ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 21/23] fix: read names of variables of any length

---
 src/msolve/iofiles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index d558218..6f8c5ad 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -446,7 +446,7 @@ static inline char *get_variable_name(const char *line, char **prev_pos)
 {
   const char comma_splicer  = ',';
 
-  char *tmp_var   = (char *)malloc(50 * sizeof(char));
+  char *tmp_var   = (char *)malloc((strlen(line) + 1) * sizeof(char));
   char *curr_pos  = strchr(*prev_pos, comma_splicer);
   if (curr_pos != NULL) {
     size_t var_diff   = (size_t)(curr_pos - *prev_pos);
-- 
2.43.0


From aa33c9fee8dd90a2b42941626560fef010b7a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:43 +0000
Subject: [PATCH 22/23] fix: write as many exponents for a zero polynomial as
 there are variables

With an elimination order the exponent vector holds two degrees, so
export_data() wrote one exponent too many for each zero polynomial: the
exponents of all polynomials after it were shifted and the last ones
written behind the end of the array.
---
 src/neogb/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/io.c b/src/neogb/io.c
index e20805b..58327e0 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -540,7 +540,7 @@ static int64_t export_data(
             } else {
                 ((int32_t *)cf+cc)[0] = (int32_t)0;
             }
-            for (k = 1; k < evl; ++k) {
+            for (k = 0; k < nv; ++k) {
                 exp[ce++] = (int32_t)0;
             }
             cc += 1;
-- 
2.43.0


From 818686dc74506329a975ca076cfcefd8b8088155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:59 +0000
Subject: [PATCH 23/23] fix: make room in the hash table before normal forms
 are stored

---
 src/neogb/convert.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neogb/convert.c b/src/neogb/convert.c
index 6ad9685..706f312 100644
--- a/src/neogb/convert.c
+++ b/src/neogb/convert.c
@@ -577,6 +577,9 @@ static void return_normal_forms_to_basis(
     /* only for 32 bit at the moment */
     for (i = 0; i < np; ++i) {
         if (rows[i] != NULL) {
+            while (bht->esz - bht->eld < rows[i][LENGTH]) {
+                enlarge_hash_table(bht);
+            }
             insert_in_basis_hash_table_pivots(rows[i], bht, sht, hcm, st);
             switch (st->ff_bits) {
                 case 0:
-- 
2.43.0

