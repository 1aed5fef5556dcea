From 7d07c8c42839747759042acdd7e1a3386fcad6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 01/19] fix: mzd_slice_rescale_row scales row 0 of its one-row
 copy

The function converts row r into a stand-alone 1 x n matrix but then asked
mzed_rescale_row() for row r of it, reading and writing out of bounds for
every r > 0.
---
 src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.h b/src/conversion.h
index 81068bc..bda003b 100644
--- a/src/conversion.h
+++ b/src/conversion.h
@@ -287,7 +287,7 @@ static inline void mzd_slice_rescale_row(mzd_slice_t *A, rci_t r, rci_t c, word
   mzd_slice_t *A_w = mzd_slice_init_window(A, r, 0, r+1, A->ncols);
   mzed_t *A_we = mzed_cling(NULL, A_w);
 
-  mzed_rescale_row(A_we, r, c, x);
+  mzed_rescale_row(A_we, 0, c, x);
 
   mzed_slice(A_w, A_we);
   mzed_free(A_we);
-- 
2.43.0


From 6cfd2fc029430c9e2496e196efafe1f5090e08d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 02/19] fix: mzed_mul_strassen and mzed_addmul_strassen choose
 a cutoff when asked to

Both document 'or 0 for heuristic choice' but passed 0 on, which recurses
down to empty windows and overwrites memory next to the destination.
---
 src/strassen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strassen.c b/src/strassen.c
index c36520b..31815ab 100644
--- a/src/strassen.c
+++ b/src/strassen.c
@@ -32,11 +32,15 @@
 
 mzed_t *mzed_mul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, TRUE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
 }
 
 mzed_t *mzed_addmul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, FALSE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_addmul_strassen(C, A, B, cutoff);
 }
 
-- 
2.43.0


From e47e26c10a8acf68e03b5977e44b9e3a5719b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 03/19] fix: release the temporaries used to build bilinear
 maps

_crt_modred_mat() leaked f and t, _blm_finish_polymult() leaked DT.
---
 src/blm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blm.c b/src/blm.c
index 1cff88b..9e98de0 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -375,6 +375,8 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
     for(deg_t j=0; j<= ii; j++) 
       mzd_write_bit(A, j, i, (f->rows[0][j/m4ri_radix]>>(j%m4ri_radix)) & 0x1);
   }
+  mzd_free(f);
+  mzd_free(t);
   return A;
 }
 
@@ -468,6 +470,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   }
   mzd_free(a);
   mzd_free(b);
+  mzd_free(DT);
   mzd_free(pivots);
 
   if (ff == NULL) {
-- 
2.43.0


From 18ac1560ebb2c44acbe1af93d7daff1fcc5e0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 04/19] fix: blm_free accepts maps without compiled programs

blm_init_crt(..., djb=0) leaves f, g and h NULL; blm_free() then
dereferenced them.
---
 src/blm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 9e98de0..83e275b 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -615,10 +615,12 @@ void blm_free(blm_t *f) {
   mzd_free(f->F);
   mzd_free(f->G);
   mzd_free(f->H);
-  if (f->f != f->g)
+  if (f->g && f->f != f->g)
     djb_free(f->g);
-  djb_free(f->f);
-  djb_free(f->h);
+  if (f->f)
+    djb_free(f->f);
+  if (f->h)
+    djb_free(f->h);
 
   m4ri_mm_free(f);
 }
-- 
2.43.0


From f4ad797a8a0a83769fe9b24cd714b50418d8df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 05/19] fix: build Chinese-remainder bilinear maps for every
 pair of lengths

_blm_finish_polymult() looked for m linearly independent products, which do
not exist for e.g. 4 x 4 or 2 x 8 (endless loop), and indexed out of range
for f_len > g_len.  Solve for H instead, which needs no full rank.
crt_init() returned an empty choice when no map beats f_len*g_len products
(e.g. 1 x 1, 1 x 2), and points at infinity beyond the length were written
out of bounds.
---
 src/blm.c | 99 +++++++++++++------------------------------------------
 1 file changed, 22 insertions(+), 77 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 83e275b..d6000eb 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <m4ri/djb.h>
 #include <m4rie/blm.h>
 #include <m4rie/mzd_ptr.h>
@@ -104,7 +105,7 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
 int *crt_init(const deg_t f_len, const deg_t g_len) {
   int *p_best = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
-  int  c_best = f_len * g_len;
+  int  c_best = INT_MAX;
 
   int *p = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
 
@@ -344,7 +345,7 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
 
   /* (x-infinity)^d */
   if (poly == 0) {
-    for(deg_t i=0; i<d; i++) 
+    for(deg_t i=0; i<MIN(d, length); i++)
       mzd_write_bit(A, i, length-i-1, 1);
     return A;
   }
@@ -386,92 +387,36 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   const rci_t m = f->F->nrows;
   const rci_t c_nrows = f->F->ncols + f->G->ncols - 1;
 
-  mzd_t *H = mzd_init(c_nrows, m);
+  const rci_t n = f->F->ncols * f->G->ncols;
 
   mzd_t *F_T = mzd_transpose(NULL, f->F);
   mzd_t *G_T = mzd_transpose(NULL, f->G);
 
-  mzd_t *C = mzd_init(m, m);
-
-  /* we find a full rank matrix */
-
-  word v = 0;
-  word w = 0;
-  rci_t r = 0;
-  rci_t rank = 0;
-
-  mzd_t *pivots = mzd_init(m, m4ri_radix*2);
-
-  mzp_t *P = mzp_init(m);
-  mzp_t *Q = mzp_init(m);
-
-  while(rank < m) {
-    /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
-    for(wi_t j=0; j< C->width; j++)
-      C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
-
-    pivots->rows[r][0] = v;
-    pivots->rows[r][1] = w;
-
-    w++;
-    if (w == (word)f->G->ncols) {
-      v++;
-      if (v == (word)f->F->ncols)
-        v = 0;
-      w = v;
-    }
-    r++;
-    if (r == C->nrows) {
-      mzd_t *D = mzd_copy(NULL, C);
-      rank = mzd_ple(D, P, Q, 0);
-      mzd_apply_p_left(pivots, P);
-      mzd_apply_p_left(C, P);
-      mzd_free(D);
-
-      if (rank < m)
-        r = rank;
+  /* We solve C * H^T = E where C holds the products for all pairs (x^v, x^w) and E the polynomials
+     x^(v+w) they have to be mapped to. These products do not have to span the whole space. */
+  mzd_t *C = mzd_init(n, m);
+  mzd_t *E = mzd_init(MAX(n, m), c_nrows);
+
+  for(rci_t v=0; v<f->F->ncols; v++) {
+    for(rci_t w=0; w<f->G->ncols; w++) {
+      /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
+      const rci_t r = v*f->G->ncols + w;
+      for(wi_t j=0; j< C->width; j++)
+        C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
+      mzd_write_bit(E, r, v+w, 1);
     }
   }
-  mzp_free(P);
-  mzp_free(Q);
-
-  for(r=0; r<m; r++) {
-    /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
-    v = pivots->rows[r][0];
-    w = pivots->rows[r][1];
-    for(wi_t j=0; j< C->width; j++)
-      C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
-  }
   mzd_free(F_T);
   mzd_free(G_T);
 
-  // This should be replaced by TRSM calls
-  mzd_t *D = mzd_inv_m4ri(NULL, C, 0); 
+  if (mzd_solve_left(C, E, 0, TRUE) != 0)
+    m4ri_die("_blm_finish_polymult: the maps do not determine the product.\n");
   mzd_free(C);
-  mzd_t *DT = mzd_transpose(NULL, D);
-  mzd_free(D);
-
-  mzd_t *a = mzd_init(1, m);
-  mzd_t *b = mzd_init(1, H->ncols);
-
-  for(rci_t i=0; i<H->nrows; i++) {
-    mzd_set_ui(a, 0);
-    for(rci_t j=0; j<m; j++) {
-      v = pivots->rows[j][0];
-      w = pivots->rows[j][1];
-      if ((v+w) == (word)i)
-        mzd_write_bit(a, 0, j, 1);
-    }
-    mzd_mul(b, a, DT, 0);
 
-    /* copy result to H */
-    for(rci_t j=0; j<H->ncols; j++)
-      mzd_write_bit(H, i, j, mzd_read_bit(b, 0, j ));
-  }
-  mzd_free(a);
-  mzd_free(b);
-  mzd_free(DT);
-  mzd_free(pivots);
+  mzd_t *H_T = mzd_submatrix(NULL, E, 0, 0, m, c_nrows);
+  mzd_free(E);
+  mzd_t *H = mzd_transpose(NULL, H_T);
+  mzd_free(H_T);
 
   if (ff == NULL) {
     f->H = H;
-- 
2.43.0


From a53bb752e5e32415e48491d197ae4b9c65feebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 06/19] fix: _mzd_poly_addmul_ext1 checks its allocation

A failing calloc() was dereferenced; use the checked allocator.
---
 src/mzd_poly.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0cd0815..0ea632c 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -18,7 +18,7 @@ mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
 
   mzd_slice_t  *a = mzd_slice_init(ff, A->nrows, A->ncols);
   mzd_slice_t  *b = mzd_slice_init(ff, B->nrows, B->ncols);
-  mzd_slice_t **c = (mzd_slice_t**)calloc(sizeof(mzd_slice_t*),d);
+  mzd_slice_t **c = (mzd_slice_t**)m4ri_mm_calloc(sizeof(mzd_slice_t*),d);
 
   mzed_t *Phi = mzed_init(ff, d, d);
   mzed_t *Rho = mzed_init(ff, d, d);
@@ -70,7 +70,7 @@ mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   for(int i=0; i<d; i++) {
     mzd_slice_free(c[i]);
   }
-  free(c);
+  m4ri_mm_free(c);
 
   mzed_free(Phi);
   mzed_free(Rho);
-- 
2.43.0


From f635b374408d19997d61b3f43beb0c8627f0bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 07/19] fix: _mzd_poly_addmul_ext1 works for products of length
 1 and 2

Length 2 asked for the unsupported field GF(2), length 1 evaluated at a point
the 1 x 1 system does not have.
---
 src/mzd_poly.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0ea632c..21f7dca 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -11,7 +11,12 @@ static inline mzd_slice_t * mzd_slice_addmul_mzd(mzd_slice_t *C, const word a, c
 
 mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   const int d = A->depth + B->depth-1;
-  const int log2d = (int)ceil(log2( (double)d ));
+  if (d == 1) {
+    /* constant polynomials, there is only one point to evaluate at */
+    mzd_addmul(C->x[0], A->x[0], B->x[0], 0);
+    return C;
+  }
+  const int log2d = MAX(2, (int)ceil(log2( (double)d ))); /* the smallest supported field is GF(2^2) */
   assert(log2d <= 16);
 
   gf2e *ff = gf2e_init(irreducible_polynomials[log2d][1]);
-- 
2.43.0


From b704f36d2a81eeb618501c1785ea676254bd4ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 08/19] fix: _mzd_poly_addmul_blm adds the product to C instead
 of overwriting C

---
 src/mzd_poly.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4736c0d..ba24cbe 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -210,10 +210,16 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
   assert(f!=NULL);
   assert(f->F->ncols == A->depth && f->G->ncols == B->depth);
 
+  /* applying f may overwrite its target, hence we need a temporary to add */
+  mzd_poly_t *T = mzd_poly_init(A->depth+B->depth-1, A->nrows, B->ncols);
+  _mzd_ptr_apply_blm(T->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+
   if (C == NULL)
-    C = mzd_poly_init(A->depth+B->depth-1, A->nrows, B->ncols);
+    return T;
 
-  _mzd_ptr_apply_blm(C->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  for(int i=0; i<A->depth+B->depth-1; i++)
+    mzd_add(C->x[i], C->x[i], T->x[i]);
+  mzd_poly_free(T);
   return C;
 }
 
-- 
2.43.0


From 58067199be6a33fd646e7a00cfa865718b5b8962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 09/19] fix: _mzd_poly_addmul_crt returns the polynomial it
 creates

---
 src/mzd_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index ba24cbe..7b1be15 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -231,7 +231,7 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
 static inline mzd_poly_t *_mzd_poly_addmul_crt(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   int *p = crt_init(A->depth, B->depth);
   blm_t *f = blm_init_crt(NULL, A->depth, B->depth, p, 1);
-  _mzd_poly_addmul_blm(C, A, B, f);
+  C = _mzd_poly_addmul_blm(C, A, B, f);
   blm_free(f);
   m4ri_mm_free(p);
   return C;
-- 
2.43.0


From 2eb16275a2f5a2d42d132d555bd8b8ca216c2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 10/19] fix: _mzd_poly_adapt_depth grows the coefficient array

---
 src/mzd_poly.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 7b1be15..100efe0 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -130,7 +130,12 @@ static inline mzd_poly_t *_mzd_poly_adapt_depth(mzd_poly_t *A, const deg_t new_d
       mzd_free(A->x[i]);
       A->x[i] = NULL;
     }
-  } else {
+  } else if (new_depth > A->depth) {
+    mzd_t **x = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*new_depth);
+    for(int i=0; i<A->depth; i++)
+      x[i] = A->x[i];
+    m4ri_mm_free(A->x);
+    A->x = x;
     for(int i=A->depth; i<new_depth; i++) {
       A->x[i] = mzd_init(A->nrows,A->ncols);
     }
-- 
2.43.0


From 9a8b2ff4399e721dd2c5930d6ac1502571664ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 11/19] fix: TRSM does not split matrices of at most one word

---
 src/trsm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trsm.inl b/src/trsm.inl
index 2e8d154..9c3004a 100644
--- a/src/trsm.inl
+++ b/src/trsm.inl
@@ -9,7 +9,7 @@
 void _matrix_trsm_lower_left(const matrix_t *L, matrix_t *B, const rci_t cutoff) {
   assert((L->finite_field == B->finite_field) && (L->nrows == L->ncols) && (B->nrows == L->ncols));
 
-  if (L->nrows <= cutoff || B->ncols <= cutoff) {
+  if (L->nrows <= cutoff || B->ncols <= cutoff || L->nrows <= m4ri_radix) {
     matrix_trsm_lower_left_newton_john(L,B);
     return;
   }
@@ -53,7 +53,7 @@ void _matrix_trsm_lower_left(const matrix_t *L, matrix_t *B, const rci_t cutoff)
 void _matrix_trsm_upper_left(matrix_t const *U, matrix_t *B, const rci_t cutoff) {
   assert((U->finite_field == B->finite_field) && (U->nrows == U->ncols) && (B->nrows == U->ncols));
 
-  if (U->nrows <= cutoff || B->ncols <= cutoff) {
+  if (U->nrows <= cutoff || B->ncols <= cutoff || U->nrows <= m4ri_radix) {
     matrix_trsm_upper_left_newton_john(U,B);
     return;
   }
-- 
2.43.0


From 141a31a5e097bd0e6ae247c5caec6f8a1b7d8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 12/19] fix: gf2e_init rejects minimal polynomials of
 unsupported degree

---
 src/gf2e.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gf2e.c b/src/gf2e.c
index 677f770..c1a4cbd 100644
--- a/src/gf2e.c
+++ b/src/gf2e.c
@@ -2,6 +2,9 @@
 #include "gf2e.h"
 
 gf2e *gf2e_init(const word minpoly) {
+  if (minpoly >> (M4RIE_MAX_DEGREE+1))
+    m4ri_die("gf2e_init: degrees > %d unsupported.\n", M4RIE_MAX_DEGREE);
+
   gf2e *ff = (gf2e*)m4ri_mm_calloc(1, sizeof(gf2e));
 
   for(int i=0; i<=M4RIE_MAX_DEGREE; i++)
-- 
2.43.0


From 8689bbaa3c601f313e3d8487bb362c2425d54272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 13/19] fix: concat, stack and submatrix respect windows which
 share words with their parent

---
 src/m4ri_functions.h | 30 ++++++++++++++++++++++++++++++
 src/mzd_slice.h      | 14 +++++++++++---
 src/mzed.h           | 14 +++++++++++---
 3 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/m4ri_functions.h b/src/m4ri_functions.h
index 7e399db..2ab7ddb 100644
--- a/src/m4ri_functions.h
+++ b/src/m4ri_functions.h
@@ -66,6 +66,36 @@ static inline void __mzd_clear_bits(const mzd_t *M, const rci_t x, const rci_t y
   M->rows[x][block] &= ~(values << spot);
 }
 
+/**
+ * \brief Copy A[lowr..highr-1,lowc..highc-1] to C starting at (r,c).
+ *
+ * In contrast to mzd_concat, mzd_stack and mzd_submatrix only those bits are read and written,
+ * hence A and C may be windows whose last word is shared with the matrix they point into.
+ *
+ * \param C Target matrix
+ * \param r Target row
+ * \param c Target column
+ * \param A Source matrix
+ * \param lowr Start row
+ * \param lowc Start column
+ * \param highr Stop row (this row is \em not included)
+ * \param highc Stop column (this column is \em not included)
+ *
+ * \ingroup Utility
+ */
+
+static inline void _mzd_copy_block(mzd_t *C, const rci_t r, const rci_t c, const mzd_t *A,
+                                   const rci_t lowr, const rci_t lowc, const rci_t highr, const rci_t highc) {
+  for(rci_t i = 0; i < highr - lowr; i++) {
+    for(rci_t j = 0; j < highc - lowc; j += m4ri_radix) {
+      const int n = MIN(m4ri_radix, highc - lowc - j);
+      const word bits = mzd_read_bits(A, lowr + i, lowc + j, n);
+      mzd_clear_bits(C, r + i, c + j, n);
+      mzd_xor_bits(C, r + i, c + j, n, bits);
+    }
+  }
+}
+
 /**
  * \brief Add n elements to A
  *
diff --git a/src/mzd_slice.h b/src/mzd_slice.h
index 592dbba..e007ebe 100644
--- a/src/mzd_slice.h
+++ b/src/mzd_slice.h
@@ -397,9 +397,12 @@ static inline void _mzd_slice_compress_l(mzd_slice_t *A, const rci_t r1, const r
 static inline mzd_slice_t *mzd_slice_concat(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) {
   if(C == NULL)
     C = mzd_slice_init(A->finite_field, A->nrows, A->ncols + B->ncols);
+  if(A->nrows != B->nrows || C->nrows != A->nrows || C->ncols != A->ncols + B->ncols)
+    m4ri_die("mzd_slice_concat: rows and columns must match.\n");
 
   for(int i=0; i<A->depth; i++) {
-    mzd_concat(C->x[i], A->x[i], B->x[i]);
+    _mzd_copy_block(C->x[i], 0, 0, A->x[i], 0, 0, A->nrows, A->ncols);
+    _mzd_copy_block(C->x[i], 0, A->ncols, B->x[i], 0, 0, B->nrows, B->ncols);
   }
   return C;
 }
@@ -424,9 +427,12 @@ static inline mzd_slice_t *mzd_slice_concat(mzd_slice_t *C, const mzd_slice_t *A
 static inline mzd_slice_t *mzd_slice_stack(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) {
   if(C == NULL)
     C = mzd_slice_init(A->finite_field, A->nrows + B->nrows, A->ncols);
+  if(A->ncols != B->ncols || C->ncols != A->ncols || C->nrows != A->nrows + B->nrows)
+    m4ri_die("mzd_slice_stack: rows and columns must match.\n");
 
   for(int i=0; i<A->depth; i++) {
-    mzd_stack(C->x[i], A->x[i], B->x[i]);
+    _mzd_copy_block(C->x[i], 0, 0, A->x[i], 0, 0, A->nrows, A->ncols);
+    _mzd_copy_block(C->x[i], A->nrows, 0, B->x[i], 0, 0, B->nrows, B->ncols);
   }
   return C;
 }
@@ -448,9 +454,11 @@ static inline mzd_slice_t *mzd_slice_submatrix(mzd_slice_t *S, const mzd_slice_t
                                                const size_t lowr, const size_t lowc, const size_t highr, const size_t highc) {
   if(S==NULL)
     S = mzd_slice_init(A->finite_field, highr - lowr, highc - lowc);
+  if((size_t)S->nrows < highr - lowr || (size_t)S->ncols < highc - lowc)
+    m4ri_die("mzd_slice_submatrix: got S with dimension %d x %d but expected %d x %d.\n", S->nrows, S->ncols, (rci_t)(highr - lowr), (rci_t)(highc - lowc));
 
   for(int i=0; i<A->depth; i++) {
-    mzd_submatrix(S->x[i], A->x[i], lowr, lowc, highr, highc);
+    _mzd_copy_block(S->x[i], 0, 0, A->x[i], lowr, lowc, highr, highc);
   }
   return S;
 }
diff --git a/src/mzed.h b/src/mzed.h
index 282297b..e703a97 100644
--- a/src/mzed.h
+++ b/src/mzed.h
@@ -111,7 +111,10 @@ void mzed_free(mzed_t *A);
 static inline mzed_t *mzed_concat(mzed_t *C, const mzed_t *A, const mzed_t *B) {
   if(C==NULL)
     C = mzed_init(A->finite_field, A->nrows, A->ncols + B->ncols);
-  mzd_concat(C->x, A->x, B->x);
+  if(A->nrows != B->nrows || C->nrows != A->nrows || C->ncols != A->ncols + B->ncols)
+    m4ri_die("mzed_concat: rows and columns must match.\n");
+  _mzd_copy_block(C->x, 0, 0, A->x, 0, 0, A->x->nrows, A->x->ncols);
+  _mzd_copy_block(C->x, 0, A->x->ncols, B->x, 0, 0, B->x->nrows, B->x->ncols);
   return C;
 }
 
@@ -135,7 +138,10 @@ static inline mzed_t *mzed_concat(mzed_t *C, const mzed_t *A, const mzed_t *B) {
 static inline mzed_t *mzed_stack(mzed_t *C, const mzed_t *A, const mzed_t *B) {
   if(C==NULL)
     C = mzed_init(A->finite_field, A->nrows + B->nrows, A->ncols);
-  mzd_stack(C->x, A->x, B->x);
+  if(A->ncols != B->ncols || C->ncols != A->ncols || C->nrows != A->nrows + B->nrows)
+    m4ri_die("mzed_stack: rows and columns must match.\n");
+  _mzd_copy_block(C->x, 0, 0, A->x, 0, 0, A->x->nrows, A->x->ncols);
+  _mzd_copy_block(C->x, A->x->nrows, 0, B->x, 0, 0, B->x->nrows, B->x->ncols);
   return C;
 }
 
@@ -158,7 +164,9 @@ static inline mzed_t *mzed_submatrix(mzed_t *S, const mzed_t *M, const rci_t low
   if(S==NULL)
     S = mzed_init(M->finite_field, highr - lowr, highc - lowc);
 
-  mzd_submatrix(S->x, M->x, lowr, lowc*M->w, highr, highc*M->w);
+  if(S->nrows < highr - lowr || S->ncols < highc - lowc)
+    m4ri_die("mzed_submatrix: got S with dimension %d x %d but expected %d x %d.\n", S->nrows, S->ncols, highr - lowr, highc - lowc);
+  _mzd_copy_block(S->x, 0, 0, M->x, lowr, lowc*M->w, highr, highc*M->w);
   return S;
 }
 
-- 
2.43.0


From 27b53518b121098474666fa082fc8074f764d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 14/19] fix: multiply into windows which start at an odd word

---
 src/newton_john.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/newton_john.c b/src/newton_john.c
index 606a2bc..7787e15 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -44,6 +44,19 @@ void njt_mzed_free(njt_mzed_t *T) {
   m4ri_mm_free(T);
 }
 
+/**
+ * Compute c[i] += sum(t[j][i], 0 <= j < n) for 0 <= i < wide
+ *
+ * _mzd_combine_4 and _mzd_combine_8 assume that c is aligned like t[j], which does not hold if c
+ * is a row of a window which starts at an odd word.
+ */
+
+static inline void _combine_unaligned(word *c, const word **t, const int n, const wi_t wide) {
+  for(int j=0; j<n; j++)
+    for(wi_t i=0; i<wide; i++)
+      c[i] ^= t[j][i];
+}
+
 /**
  * Compute C[rc,i] = C[rc,i] + T0[r0,i] + ... + T3[r3,i] for 0 <= i < ncols
  *
@@ -62,7 +75,10 @@ void njt_mzed_free(njt_mzed_t *T) {
 static inline void mzed_combine4(mzed_t *C, rci_t rc, 
                                  mzed_t *T0, rci_t r0, mzed_t *T1, rci_t r1, mzed_t *T2, rci_t r2, mzed_t *T3, rci_t r3) {
   const word *t[4] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3]};
-  _mzd_combine_4(C->x->rows[rc], t, C->x->width);
+  if (__M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16))
+    _combine_unaligned(C->x->rows[rc], t, 4, C->x->width);
+  else
+    _mzd_combine_4(C->x->rows[rc], t, C->x->width);
 }
 
 /**
@@ -93,7 +109,10 @@ static inline void mzed_combine8(mzed_t *C, rci_t rc,
                                  mzed_t *T4, rci_t r4, mzed_t *T5, rci_t r5, mzed_t *T6, rci_t r6, mzed_t *T7, rci_t r7) {
   const word *t[8] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3], 
                       T4->x->rows[r4], T5->x->rows[r5], T6->x->rows[r6], T7->x->rows[r7]};
-  _mzd_combine_8(C->x->rows[rc], t, C->x->width);
+  if (__M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16))
+    _combine_unaligned(C->x->rows[rc], t, 8, C->x->width);
+  else
+    _mzd_combine_8(C->x->rows[rc], t, C->x->width);
 }
 
 
-- 
2.43.0


From c815f28dbc576e7b1727dc6c0210c1f64374c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 15/19] fix: mzed_first_zero_row ignores bits outside of a
 window

---
 src/mzed.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mzed.h b/src/mzed.h
index e703a97..85c3ce6 100644
--- a/src/mzed.h
+++ b/src/mzed.h
@@ -996,7 +996,11 @@ static inline void mzed_row_add(mzed_t *M, const rci_t sourcerow, const rci_t de
  */
 
 static inline rci_t mzed_first_zero_row(mzed_t *A) {
-  return mzd_first_zero_row(A->x);
+  for(rci_t i = A->nrows; i > 0; i--)
+    for(rci_t j = 0; j < A->x->ncols; j += m4ri_radix)
+      if (mzd_read_bits(A->x, i-1, j, MIN(m4ri_radix, A->x->ncols - j)))
+        return i;
+  return 0;
 }
 
 
-- 
2.43.0


From ca2014817af58002c3a2fa93e567e190af947eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 16/19] fix: eliminate in windows which start at an odd word

---
 src/newton_john.h | 51 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/newton_john.h b/src/newton_john.h
index b1e41e3..34aadb8 100644
--- a/src/newton_john.h
+++ b/src/newton_john.h
@@ -228,6 +228,32 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
   mzd_process_rows(M->x, startrow, endrow, startcol*M->w, M->w, T->T->x, T->L);
 }
 
+/**
+ * \brief Same as mzed_process_rows but works with n Newton-John tables for matrices where the rows
+ * of M are not aligned like the rows of the tables.
+ *
+ * M4RI's functions for two or more tables assume that M is aligned to 16 bytes, which does not
+ * hold for windows which start at an odd word.
+ */
+
+static inline void _mzed_process_rows_unaligned(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
+                                                const njt_mzed_t **T, const int n) {
+  const wi_t block = startcol*M->w/m4ri_radix;
+  for(rci_t r=startrow; r<endrow; r++) {
+    const word *t[6];
+    for(int j=0; j<n; j++)
+      t[j] = T[j]->T->x->rows[T[j]->L[mzed_read_elem(M, r, startcol+j)]];
+    word *m = M->x->rows[r];
+    for(int j=0; j<n; j++)
+      for(wi_t i=block; i<M->x->width; i++)
+        m[i] ^= t[j][i];
+  }
+}
+
+static inline int _mzed_rows_unaligned(const mzed_t *M) {
+  return M->nrows > 0 && __M4RI_ALIGNMENT(M->x->rows[0], 16) != 0;
+}
+
 /**
  * \brief Same as mzed_process_rows but works with two Newton-John tables
  * in parallel.
@@ -244,6 +270,11 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
 
 static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol, 
                                       const njt_mzed_t *T0, const njt_mzed_t *T1) {
+  if (_mzed_rows_unaligned(M)) {
+    const njt_mzed_t *T[2] = {T0, T1};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 2);
+    return;
+  }
   mzd_process_rows2(M->x, startrow, endrow, startcol*M->w, 2*M->w, T0->T->x, T0->L, T1->T->x, T1->L);
 }
 
@@ -264,6 +295,11 @@ static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2) {
+  if (_mzed_rows_unaligned(M)) {
+    const njt_mzed_t *T[3] = {T0, T1, T2};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 3);
+    return;
+  }
   mzd_process_rows3(M->x, startrow, endrow, startcol*M->w, 3*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L);
 }
 
@@ -285,6 +321,11 @@ static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3) {
+  if (_mzed_rows_unaligned(M)) {
+    const njt_mzed_t *T[4] = {T0, T1, T2, T3};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 4);
+    return;
+  }
   mzd_process_rows4(M->x, startrow, endrow, startcol*M->w, 4*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L);
 }
 
@@ -307,6 +348,11 @@ static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3, const njt_mzed_t *T4) {
+  if (_mzed_rows_unaligned(M)) {
+    const njt_mzed_t *T[5] = {T0, T1, T2, T3, T4};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 5);
+    return;
+  }
   mzd_process_rows5(M->x, startrow, endrow, startcol*M->w, 5*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L);
 }
 
@@ -332,6 +378,11 @@ static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci
 static inline void mzed_process_rows6(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2,
                                       const njt_mzed_t *T3, const njt_mzed_t *T4, const njt_mzed_t *T5) {
+  if (_mzed_rows_unaligned(M)) {
+    const njt_mzed_t *T[6] = {T0, T1, T2, T3, T4, T5};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 6);
+    return;
+  }
   mzd_process_rows6(M->x, startrow, endrow, startcol*M->w, 6*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L, T5->T->x, T5->L);
 }
 
-- 
2.43.0


From 0a2953d89638938691fcb67e7a204e8b1b49d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 17/19] fix: gf2e_t16_init does not read beyond the
 multiplication table

---
 src/gf2e.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf2e.h b/src/gf2e.h
index a6a8542..b5daa61 100644
--- a/src/gf2e.h
+++ b/src/gf2e.h
@@ -167,7 +167,8 @@ static inline word *gf2e_t16_init(const gf2e *ff, const word a) {
   word *mul = (word*)m4ri_mm_calloc(1<<16, sizeof(word));
 
   const deg_t w = gf2e_degree_to_w(ff);
-  const word mask_w = (1<<w)-1;
+  /* entries are field elements of ff->degree <= w bits, there are no products for anything larger */
+  const word mask_w = __M4RI_TWOPOW(ff->degree)-1;
 
   /**
    * @todo: this is a bit of overkill, we could do better
-- 
2.43.0


From abbb77e444536c6b43c37c6130e208756a5fdb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 18/19] fix: PLE decomposition of a slice window leaves its
 parent alone

---
 src/mzd_slice.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mzd_slice.h b/src/mzd_slice.h
index e007ebe..fee9ac0 100644
--- a/src/mzd_slice.h
+++ b/src/mzd_slice.h
@@ -372,8 +372,27 @@ void mzd_slice_print(const mzd_slice_t *A);
  */
 
 static inline void _mzd_slice_compress_l(mzd_slice_t *A, const rci_t r1, const rci_t n1, const rci_t r2) {
-  for(int i=0; i<A->depth; i++)
-    _mzd_compress_l(A->x[i], r1, n1, r2);
+  if (r1 == n1)
+    return;
+
+  /* _mzd_compress_l may write past the last column which would modify the parent of a window */
+  for(int k=0; k<A->depth; k++) {
+    mzd_t *X = A->x[k];
+
+    for(rci_t i=r1, j=n1; i<r1+r2; i++, j++)
+      mzd_col_swap_in_rows(X, i, j, i, r1+r2);
+
+    for(rci_t i=r1+r2; i<X->nrows; i++) {
+      for(rci_t j=0; j<r2; j+=m4ri_radix) {
+        const int n = MIN(m4ri_radix, r2-j);
+        const word bits = mzd_read_bits(X, i, n1+j, n);
+        mzd_clear_bits(X, i, r1+j, n);
+        mzd_xor_bits(X, i, r1+j, n, bits);
+      }
+      for(rci_t j=r1+r2; j<n1+r2; j+=m4ri_radix)
+        mzd_clear_bits(X, i, j, MIN(m4ri_radix, n1+r2-j));
+    }
+  }
 }
 
 /**
-- 
2.43.0


From c819f98ebad2051142d41f84bc2a9c1da60589bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:17 +0000
Subject: [PATCH 19/19] fix: conversion to packed form is linear in the rows
 for degree 13 to 16

The second pass of _mzed_cling16 walks over all rows by itself, but sat
inside the row loop of the first pass, so it was repeated once per row.
---
 src/conversion_cling16.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion_cling16.c b/src/conversion_cling16.c
index 89a81a5..422c2c4 100644
--- a/src/conversion_cling16.c
+++ b/src/conversion_cling16.c
@@ -326,6 +326,7 @@ mzed_t *_mzed_cling16(mzed_t *T, const mzd_slice_t *F) {
         m4ri_die("impossible");
       }
       t[T->x->width-1] = (t[T->x->width-1] & bitmask_end) | (tmp & ~bitmask_end);
+    }
 
       switch(T->finite_field->degree) {
       case 13: {
@@ -535,7 +536,6 @@ mzed_t *_mzed_cling16(mzed_t *T, const mzd_slice_t *F) {
       }
         break;
       }
-    }
   }
   return T;
 }
-- 
2.43.0

