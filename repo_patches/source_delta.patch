From c98c6f2c6a9f598cf2c90f9ae4d6bb3a8a7eab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/22] fix: shuffle drew its swap index from truncated 64-bit
 arithmetic

shuffle() keeps a 64-bit raw draw and UINT64_MAX/(n-i) in uint32_t
variables.  For a power-of-two number of remaining elements the divisor
truncates to 0xffffffff and the selected index is (almost) always i, so the
last two elements are never exchanged and most orders cannot occur.
---
 src/util/rng/rng.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/rng/rng.cc b/src/util/rng/rng.cc
index 4215670..c343ce4 100644
--- a/src/util/rng/rng.cc
+++ b/src/util/rng/rng.cc
@@ -489,7 +489,7 @@ shuffle( rng_t * RESTRICT r,
          size_t sz_ele,
          size_t str_ele,
          size_t n_ele ) {
-  uint32_t a, d;
+  uint64_t a, d;
   size_t i, j, k;
 
   if( n_ele<2 || !sz_ele ) return _x;
-- 
2.43.0


From baef90bf97f78627f84b72aa8a5dad6f025bcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 02/22] fix: legacy particle sort left the partition of an
 emptied species stale

sort_p returned before writing the partition when a species had no
particles, so users of the partition (collisions) still saw the ranges of
the previous sort.
---
 src/species_advance/standard/sort_p.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/species_advance/standard/sort_p.cc b/src/species_advance/standard/sort_p.cc
index 935d6fa..467b271 100644
--- a/src/species_advance/standard/sort_p.cc
+++ b/src/species_advance/standard/sort_p.cc
@@ -43,9 +43,13 @@ sort_p( species_t * sp )
 
   int i, j;
 
-  // Do not need to sort.
+  // Do not need to sort.  Every cell is empty.
   if ( np == 0 )
+  {
+    CLEAR( partition, nc1 );
+
     return;
+  }
 
   // Allocate the sorting intermediate. Making this into a static is done to
   // avoid heap shredding.
-- 
2.43.0


From 2187001689d466312078e1ee81e6da5d90e4fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 03/22] fix: OpenMP EXEC_PIPELINES scaled the per-rank argument
 stride twice

---
 src/util/pipelines/pipelines_exec_omp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/pipelines/pipelines_exec_omp.h b/src/util/pipelines/pipelines_exec_omp.h
index bbd24a8..9f01483 100644
--- a/src/util/pipelines/pipelines_exec_omp.h
+++ b/src/util/pipelines/pipelines_exec_omp.h
@@ -30,7 +30,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v16( args+id*sizeof(*args)*str, id, N_PIPELINE );    \
+      name##_pipeline_v16( args+id*str, id, N_PIPELINE );                  \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -49,7 +49,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v8( args+id*sizeof(*args)*str, id, N_PIPELINE );     \
+      name##_pipeline_v8( args+id*str, id, N_PIPELINE );                   \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -68,7 +68,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v4( args+id*sizeof(*args)*str, id, N_PIPELINE );     \
+      name##_pipeline_v4( args+id*str, id, N_PIPELINE );                   \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -87,7 +87,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_scalar( args+id*sizeof(*args)*str, id, N_PIPELINE ); \
+      name##_pipeline_scalar( args+id*str, id, N_PIPELINE );               \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
-- 
2.43.0


From c3fc9774e63ed67600b766ef8f22ccb948d9afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 04/22] fix: BitField::bitsset tests the bits of its mask, not
 the bit with that index

---
 src/util/bitfield.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/bitfield.h b/src/util/bitfield.h
index 1bca916..90998fc 100644
--- a/src/util/bitfield.h
+++ b/src/util/bitfield.h
@@ -51,9 +51,8 @@ class BitField
 		 * Check whether bits in mask are set.
 		----------------------------------------------------------------------*/
 		bool bitsset(uint32_t mask) const {
-			uint32_t tmp = 1<<mask;
-			return tmp & bits_;
-		} // bitset
+			return (mask & bits_) == mask;
+		} // bitsset
 
 		/*!---------------------------------------------------------------------
 		 * Check whether bit at index is clear.
-- 
2.43.0


From 8c7f568b70aeb7a96c1fdb6cb98095ff4461c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 05/22] fix: mp_size_*_buffer refuses a port outside the layout

---
 src/util/mp/DMPPolicy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/mp/DMPPolicy.h b/src/util/mp/DMPPolicy.h
index 535e14b..4b783fc 100644
--- a/src/util/mp/DMPPolicy.h
+++ b/src/util/mp/DMPPolicy.h
@@ -245,7 +245,7 @@ struct DMPPolicy {
                        int sz ) {
     char * ALIGNED(128) buf;
   
-    if( !mp || port<0 || port>mp->n_port || sz<1 ) ERROR(( "Bad args" ));
+    if( !mp || port<0 || port>=mp->n_port || sz<1 ) ERROR(( "Bad args" ));
   
     // If there already a large enough buffer, we are done
     if( mp->rbuf_sz[port]>=sz ) return;
@@ -276,7 +276,7 @@ struct DMPPolicy {
     char * ALIGNED(128) buf;
   
     // Check input arguments
-    if( !mp || port<0 || port>mp->n_port || sz<1 ) ERROR(( "Bad args" ));
+    if( !mp || port<0 || port>=mp->n_port || sz<1 ) ERROR(( "Bad args" ));
 
     // Is there already a large enough buffer
     if( mp->sbuf_sz[port]>=sz ) return;
-- 
2.43.0


From 47a5bf9c48c948d11ebf26227f0a7af3de3c80c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 06/22] fix: Child-Langmuir emitter keeps the weight when it
 ages several particles of a face

---
 src/emitter/child_langmuir.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emitter/child_langmuir.cc b/src/emitter/child_langmuir.cc
index cbeb5c2..d2945bb 100644
--- a/src/emitter/child_langmuir.cc
+++ b/src/emitter/child_langmuir.cc
@@ -66,7 +66,7 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
   int np = sp->np, np_skipped = 0;
   int nm = sp->nm, nm_skipped = 0;
 
-  float w, ux, uy, uz;
+  float w, age, ux, uy, uz;
   int c, cc, i, np_emit;
 
   // Loop over all components of the region
@@ -104,12 +104,12 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
         /* Age the particle */                                          \
                                                                         \
         if( nm>=max_nm ) { nm_skipped++; continue; }                    \
-        w = ( frand_c0(rng)*cdt ) /                                     \
+        age = ( frand_c0(rng)*cdt ) /                                   \
           sqrtf( ( u##X*u##X + u##Y*u##Y ) + ( u##Z*u##Z + 1 ) );       \
         DECLARE_ALIGNED_ARRAY( particle_mover_t, 16, local_pm, 1 );     \
-        local_pm->disp##X = w*u##X*rd##X;                               \
-        local_pm->disp##Y = w*u##Y*rd##Y;                               \
-        local_pm->disp##Z = w*u##Z*rd##Z;                               \
+        local_pm->disp##X = age*u##X*rd##X;                             \
+        local_pm->disp##Y = age*u##Y*rd##Y;                             \
+        local_pm->disp##Z = age*u##Z*rd##Z;                             \
         local_pm->i       = np-1;                                       \
         if (move_p( p, local_pm, a, g, qsp )) {                         \
             pm[nm++] = local_pm[0];                                     \
-- 
2.43.0


From 6f74ba7c8ac568ae912fc2531f970a1716f45871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 07/22] fix: inject_particle does not write past the mover list
 when it is full

---
 src/vpic/misc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpic/misc.cc b/src/vpic/misc.cc
index b1c24af..4ece4cb 100644
--- a/src/vpic/misc.cc
+++ b/src/vpic/misc.cc
@@ -84,8 +84,10 @@ vpic_simulation::inject_particle( species_t * sp,
   if( update_rhob ) accumulate_rhob( field_array->f, p, grid, -sp->q );
 
   if( age!=0 ) {
-    if( sp->nm>=sp->max_nm )
+    if( sp->nm>=sp->max_nm ) {
       WARNING(( "No movers available to age injected  particle" ));
+      return;
+    }
     particle_mover_t * pm = sp->pm + sp->nm;
     age *= grid->cvac*grid->dt/sqrt( ux*ux + uy*uy + uz*uz + 1 );
     pm->dispx = ux*age*grid->rdx;
-- 
2.43.0


From ace677a2e3b66b6b59f8ba9552925938b054a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 08/22] fix: poynting_flux clears the whole of its sum array

---
 src/vpic/diagnostics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/diagnostics.cc b/src/vpic/diagnostics.cc
index 7d00523..04261c9 100644
--- a/src/vpic/diagnostics.cc
+++ b/src/vpic/diagnostics.cc
@@ -42,7 +42,7 @@ double vpic_simulation::poynting_flux(double e0) {
 		ERROR(("Failed pvec allocation in poynting flux diagnostic"));
 	} // if
 
-	memset(pvec, 0, stride);
+	memset(pvec, 0, stride*sizeof(float));
 
 	int ix, k1, k2;
 	RANK_TO_INDEX( int(rank()), ix);
-- 
2.43.0


From dc1f049026218e991cc752be5a223c026422cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 09/22] fix: magnetic conductivity warning names its material

---
 src/field_advance/standard/sfa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field_advance/standard/sfa.cc b/src/field_advance/standard/sfa.cc
index 7d22365..74a85e1 100644
--- a/src/field_advance/standard/sfa.cc
+++ b/src/field_advance/standard/sfa.cc
@@ -94,7 +94,7 @@ create_sfa_params( grid_t * g,
     if( cg2>=1 )
       WARNING(( "\"%s\" Courant condition estimate = %e", m->name, sqrt(cg2) ));
     if( m->zetax!=0 || m->zetay!=0 || m->zetaz!=0 )
-      WARNING(( "\"%s\" magnetic conductivity is not supported" ));
+      WARNING(( "\"%s\" magnetic conductivity is not supported", m->name ));
     n_mc++;
   }
 
-- 
2.43.0


From 304aeec5c797a172320f005d9b6f1e4d02ea8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 10/22] fix: ! of a float vector tested the bits of the lanes,
 so !(-0) was false

---
 src/util/v16/v16_avx512.h   |  2 +-
 src/util/v16/v16_portable.h | 32 ++++++++++++++++----------------
 src/util/v4/v4_neon.h       |  2 +-
 src/util/v4/v4_portable.h   |  8 ++++----
 src/util/v8/v8_portable.h   | 16 ++++++++--------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index 92452e4..8fe44ab 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -2529,7 +2529,7 @@ namespace v16
     v16int b;
 
     for( int j = 0; j < 16; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index b71cb49..4d2ae65 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3623,22 +3623,22 @@ namespace v16
   {
     v16int b;
 
-    b.i[ 0] = a.i[ 0] ? 0 : -1;
-    b.i[ 1] = a.i[ 1] ? 0 : -1;
-    b.i[ 2] = a.i[ 2] ? 0 : -1;
-    b.i[ 3] = a.i[ 3] ? 0 : -1;
-    b.i[ 4] = a.i[ 4] ? 0 : -1;
-    b.i[ 5] = a.i[ 5] ? 0 : -1;
-    b.i[ 6] = a.i[ 6] ? 0 : -1;
-    b.i[ 7] = a.i[ 7] ? 0 : -1;
-    b.i[ 8] = a.i[ 8] ? 0 : -1;
-    b.i[ 9] = a.i[ 9] ? 0 : -1;
-    b.i[10] = a.i[10] ? 0 : -1;
-    b.i[11] = a.i[11] ? 0 : -1;
-    b.i[12] = a.i[12] ? 0 : -1;
-    b.i[13] = a.i[13] ? 0 : -1;
-    b.i[14] = a.i[14] ? 0 : -1;
-    b.i[15] = a.i[15] ? 0 : -1;
+    b.i[ 0] = a.f[ 0] ? 0 : -1;
+    b.i[ 1] = a.f[ 1] ? 0 : -1;
+    b.i[ 2] = a.f[ 2] ? 0 : -1;
+    b.i[ 3] = a.f[ 3] ? 0 : -1;
+    b.i[ 4] = a.f[ 4] ? 0 : -1;
+    b.i[ 5] = a.f[ 5] ? 0 : -1;
+    b.i[ 6] = a.f[ 6] ? 0 : -1;
+    b.i[ 7] = a.f[ 7] ? 0 : -1;
+    b.i[ 8] = a.f[ 8] ? 0 : -1;
+    b.i[ 9] = a.f[ 9] ? 0 : -1;
+    b.i[10] = a.f[10] ? 0 : -1;
+    b.i[11] = a.f[11] ? 0 : -1;
+    b.i[12] = a.f[12] ? 0 : -1;
+    b.i[13] = a.f[13] ? 0 : -1;
+    b.i[14] = a.f[14] ? 0 : -1;
+    b.i[15] = a.f[15] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_neon.h b/src/util/v4/v4_neon.h
index 7aaed08..55eab0d 100644
--- a/src/util/v4/v4_neon.h
+++ b/src/util/v4/v4_neon.h
@@ -1214,7 +1214,7 @@ namespace v4
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 4; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 1298169..58df873 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -938,10 +938,10 @@ namespace v4
   {
     v4int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index e59b145..a57b356 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1365,14 +1365,14 @@ namespace v8
   {
     v8int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
-    b.i[4] = a.i[4] ? 0 : -1;
-    b.i[5] = a.i[5] ? 0 : -1;
-    b.i[6] = a.i[6] ? 0 : -1;
-    b.i[7] = a.i[7] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
+    b.i[4] = a.f[4] ? 0 : -1;
+    b.i[5] = a.f[5] ? 0 : -1;
+    b.i[6] = a.f[6] ? 0 : -1;
+    b.i[7] = a.f[7] ? 0 : -1;
 
     return b;
   }
-- 
2.43.0


From c09a7cfbb71b68745969ea21e303b5ad6c36dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 11/22] fix: != && || of AVX float vectors treated NaN lanes as
 equal and as false

---
 src/util/v8/v8_avx.h  | 10 +++++-----
 src/util/v8/v8_avx2.h | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/util/v8/v8_avx.h b/src/util/v8/v8_avx.h
index 2fd8c23..23d5208 100644
--- a/src/util/v8/v8_avx.h
+++ b/src/util/v8/v8_avx.h
@@ -1384,7 +1384,7 @@ namespace v8
   LOGICAL( <,  _mm256_cmp_ps, _CMP_LT_OS  )
   LOGICAL( >,  _mm256_cmp_ps, _CMP_GT_OS  )
   LOGICAL( ==, _mm256_cmp_ps, _CMP_EQ_OS  )
-  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_OS )
+  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_US )
   LOGICAL( <=, _mm256_cmp_ps, _CMP_LE_OS  )
   LOGICAL( >=, _mm256_cmp_ps, _CMP_GE_OS  )
 
@@ -1393,8 +1393,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
@@ -1404,8 +1404,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
diff --git a/src/util/v8/v8_avx2.h b/src/util/v8/v8_avx2.h
index 315969f..0961d16 100644
--- a/src/util/v8/v8_avx2.h
+++ b/src/util/v8/v8_avx2.h
@@ -1580,7 +1580,7 @@ namespace v8
   LOGICAL( <,  _mm256_cmp_ps, _CMP_LT_OS  )
   LOGICAL( >,  _mm256_cmp_ps, _CMP_GT_OS  )
   LOGICAL( ==, _mm256_cmp_ps, _CMP_EQ_OS  )
-  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_OS )
+  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_US )
   LOGICAL( <=, _mm256_cmp_ps, _CMP_LE_OS  )
   LOGICAL( >=, _mm256_cmp_ps, _CMP_GE_OS  )
 
@@ -1589,8 +1589,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
@@ -1600,8 +1600,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
-- 
2.43.0


From 6808fb4c18c175d6fc0120f12a97a55e061876d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 12/22] fix: copysign of portable float vectors ignored the
 sign of -0 and NaN

---
 src/util/v16/v16_portable.h | 80 ++++++++-----------------------------
 src/util/v4/v4_neon.h       |  7 +---
 src/util/v4/v4_portable.h   | 20 ++--------
 src/util/v8/v8_portable.h   | 40 ++++---------------
 4 files changed, 29 insertions(+), 118 deletions(-)

diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index 4d2ae65..4db32c0 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3868,71 +3868,23 @@ namespace v16
   inline v16float copysign( const v16float &a, const v16float &b )
   {
     v16float c;
-    float t;
 
-    t = ::fabs( a.f[ 0] );
-    if( b.f[ 0] < 0 ) t = -t;
-    c.f[ 0] = t;
-
-    t = ::fabs( a.f[ 1] );
-    if( b.f[ 1] < 0 ) t = -t;
-    c.f[ 1] = t;
-
-    t = ::fabs( a.f[ 2] );
-    if( b.f[ 2] < 0 ) t = -t;
-    c.f[ 2] = t;
-
-    t = ::fabs( a.f[ 3] );
-    if( b.f[ 3] < 0 ) t = -t;
-    c.f[ 3] = t;
-
-    t = ::fabs( a.f[ 4] );
-    if( b.f[ 4] < 0 ) t = -t;
-    c.f[ 4] = t;
-
-    t = ::fabs( a.f[ 5] );
-    if( b.f[ 5] < 0 ) t = -t;
-    c.f[ 5] = t;
-
-    t = ::fabs( a.f[ 6] );
-    if( b.f[ 6] < 0 ) t = -t;
-    c.f[ 6] = t;
-
-    t = ::fabs( a.f[ 7] );
-    if( b.f[ 7] < 0 ) t = -t;
-    c.f[ 7] = t;
-
-    t = ::fabs( a.f[ 8] );
-    if( b.f[ 8] < 0 ) t = -t;
-    c.f[ 8] = t;
-
-    t = ::fabs( a.f[ 9] );
-    if( b.f[ 9] < 0 ) t = -t;
-    c.f[ 9] = t;
-
-    t = ::fabs( a.f[10] );
-    if( b.f[10] < 0 ) t = -t;
-    c.f[10] = t;
-
-    t = ::fabs( a.f[11] );
-    if( b.f[11] < 0 ) t = -t;
-    c.f[11] = t;
-
-    t = ::fabs( a.f[12] );
-    if( b.f[12] < 0 ) t = -t;
-    c.f[12] = t;
-
-    t = ::fabs( a.f[13] );
-    if( b.f[13] < 0 ) t = -t;
-    c.f[13] = t;
-
-    t = ::fabs( a.f[14] );
-    if( b.f[14] < 0 ) t = -t;
-    c.f[14] = t;
-
-    t = ::fabs( a.f[15] );
-    if( b.f[15] < 0 ) t = -t;
-    c.f[15] = t;
+    c.f[ 0] = ::copysign( a.f[ 0], b.f[ 0] );
+    c.f[ 1] = ::copysign( a.f[ 1], b.f[ 1] );
+    c.f[ 2] = ::copysign( a.f[ 2], b.f[ 2] );
+    c.f[ 3] = ::copysign( a.f[ 3], b.f[ 3] );
+    c.f[ 4] = ::copysign( a.f[ 4], b.f[ 4] );
+    c.f[ 5] = ::copysign( a.f[ 5], b.f[ 5] );
+    c.f[ 6] = ::copysign( a.f[ 6], b.f[ 6] );
+    c.f[ 7] = ::copysign( a.f[ 7], b.f[ 7] );
+    c.f[ 8] = ::copysign( a.f[ 8], b.f[ 8] );
+    c.f[ 9] = ::copysign( a.f[ 9], b.f[ 9] );
+    c.f[10] = ::copysign( a.f[10], b.f[10] );
+    c.f[11] = ::copysign( a.f[11], b.f[11] );
+    c.f[12] = ::copysign( a.f[12], b.f[12] );
+    c.f[13] = ::copysign( a.f[13], b.f[13] );
+    c.f[14] = ::copysign( a.f[14], b.f[14] );
+    c.f[15] = ::copysign( a.f[15], b.f[15] );
 
     return c;
   }
diff --git a/src/util/v4/v4_neon.h b/src/util/v4/v4_neon.h
index 55eab0d..893ac01 100644
--- a/src/util/v4/v4_neon.h
+++ b/src/util/v4/v4_neon.h
@@ -1409,15 +1409,10 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 4; j++ )
-    {
-      t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
-      c.f[j] = t;
-    }
+      c.f[j] = ::copysign( a.f[j], b.f[j] );
 
     return c;
   }
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 58df873..b504e6c 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -1078,23 +1078,11 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
 
-    t = ::fabs( a.f[0] );
-    if ( b.f[0] < 0 ) t = -t;
-    c.f[0] = t;
-
-    t = ::fabs( a.f[1] );
-    if ( b.f[1] < 0 ) t = -t;
-    c.f[1] = t;
-
-    t = ::fabs( a.f[2] );
-    if ( b.f[2] < 0 ) t = -t;
-    c.f[2] = t;
-
-    t = ::fabs( a.f[3] );
-    if ( b.f[3] < 0 ) t = -t;
-    c.f[3] = t;
+    c.f[0] = ::copysign( a.f[0], b.f[0] );
+    c.f[1] = ::copysign( a.f[1], b.f[1] );
+    c.f[2] = ::copysign( a.f[2], b.f[2] );
+    c.f[3] = ::copysign( a.f[3], b.f[3] );
 
     return c;
   }
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index a57b356..a3824c0 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1538,39 +1538,15 @@ namespace v8
   inline v8float copysign( const v8float &a, const v8float &b )
   {
     v8float c;
-    float t;
 
-    t = ::fabs( a.f[0] );
-    if( b.f[0] < 0 ) t = -t;
-    c.f[0] = t;
-
-    t = ::fabs( a.f[1] );
-    if( b.f[1] < 0 ) t = -t;
-    c.f[1] = t;
-
-    t = ::fabs( a.f[2] );
-    if( b.f[2] < 0 ) t = -t;
-    c.f[2] = t;
-
-    t = ::fabs( a.f[3] );
-    if( b.f[3] < 0 ) t = -t;
-    c.f[3] = t;
-
-    t = ::fabs( a.f[4] );
-    if( b.f[4] < 0 ) t = -t;
-    c.f[4] = t;
-
-    t = ::fabs( a.f[5] );
-    if( b.f[5] < 0 ) t = -t;
-    c.f[5] = t;
-
-    t = ::fabs( a.f[6] );
-    if( b.f[6] < 0 ) t = -t;
-    c.f[6] = t;
-
-    t = ::fabs( a.f[7] );
-    if( b.f[7] < 0 ) t = -t;
-    c.f[7] = t;
+    c.f[0] = ::copysign( a.f[0], b.f[0] );
+    c.f[1] = ::copysign( a.f[1], b.f[1] );
+    c.f[2] = ::copysign( a.f[2], b.f[2] );
+    c.f[3] = ::copysign( a.f[3], b.f[3] );
+    c.f[4] = ::copysign( a.f[4], b.f[4] );
+    c.f[5] = ::copysign( a.f[5], b.f[5] );
+    c.f[6] = ::copysign( a.f[6], b.f[6] );
+    c.f[7] = ::copysign( a.f[7], b.f[7] );
 
     return c;
   }
-- 
2.43.0


From 50139b1f0799025f2ac6697433b4be303c10a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 13/22] fix: append_particle_bc accepted the last element of
 the list again and made the list circular

---
 src/boundary/boundary.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/boundary/boundary.cc b/src/boundary/boundary.cc
index 5e3f61d..82e7423 100644
--- a/src/boundary/boundary.cc
+++ b/src/boundary/boundary.cc
@@ -66,8 +66,12 @@ delete_particle_bc_list( particle_bc_t * pbc_list ) {
 particle_bc_t *
 append_particle_bc( particle_bc_t * pbc,
                     particle_bc_t ** pbc_list ) {
+  particle_bc_t * p;
   if( !pbc || !pbc_list ) ERROR(( "Bad args" ));
   if( pbc->next ) ERROR(( "Particle boundary condition already in a list" ));
+  // The last element of a list has no next
+  for( p=*pbc_list; p; p=p->next )
+    if( p==pbc ) ERROR(( "Particle boundary condition already in a list" ));
   // Assumes reflective/absorbing are -1, -2
   pbc->id   = -3-num_particle_bc( *pbc_list );
   pbc->next = *pbc_list;
-- 
2.43.0


From 32d6fbae71858ece79bc9c796338b7b81f0f2ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 14/22] fix: checkpt_io checks how much was read and written,
 so a checkpoint cut short is refused

---
 src/util/checkpt/checkpt_io.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/checkpt/checkpt_io.h b/src/util/checkpt/checkpt_io.h
index 2dd6513..0570cce 100644
--- a/src/util/checkpt/checkpt_io.h
+++ b/src/util/checkpt/checkpt_io.h
@@ -48,8 +48,10 @@ struct CheckPtIO {
 
 		FileIO * fileIO = reinterpret_cast<FileIO *>(checkpt);
 
-		// FIXME: add return values
-		fileIO->read(reinterpret_cast<char *>(data), sz);
+		if(fileIO->read(reinterpret_cast<char *>(data), sz) != sz) {
+			ERROR(("Unable to read %lu bytes from the checkpt",
+				(unsigned long)sz));
+		} // if
 	} // checkpt_read
 
 	static void checkpt_write(checkpt_t * checkpt, const void * data,
@@ -59,8 +61,10 @@ struct CheckPtIO {
 
 		FileIO * fileIO = reinterpret_cast<FileIO *>(checkpt);
 
-		// FIXME: add return values
-		fileIO->write(reinterpret_cast<const char *>(data), sz);
+		if(fileIO->write(reinterpret_cast<const char *>(data), sz) != sz) {
+			ERROR(("Unable to write %lu bytes to the checkpt",
+				(unsigned long)sz));
+		} // if
 	} // checkpt_write
 
 }; // struct CheckPtIO
-- 
2.43.0


From 8f14f626fbb52f45079844c7810da6e921507d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 15/22] hook: VPIC_DUMP_PBUF_SIZE sets the particle dump buffer
 size

---
 src/vpic/dump.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 89c05f2..29c9fcb 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -280,7 +280,11 @@ vpic_simulation::dump_particles( const char *sp_name,
   FileIO fileIO;
   int dim[1], buf_start;
   static particle_t * ALIGNED(128) p_buf = NULL;
+#ifdef VPIC_DUMP_PBUF_SIZE // verification hook: a smaller buffer
+# define PBUF_SIZE VPIC_DUMP_PBUF_SIZE
+#else
 # define PBUF_SIZE 32768 // 1MB of particles
+#endif
 
   sp = find_species_name( sp_name, species_list );
   if( !sp ) ERROR(( "Invalid species name \"%s\".", sp_name ));
-- 
2.43.0


From e5f0753b5afa4c2245d4b1287fe6741ed08b5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 16/22] fix: strided dumps with stride 1 along some axis read
 the cells one too low

---
 src/vpic/dump.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 29c9fcb..cccd58f 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -657,9 +657,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
     else
     {
       for(size_t v(0); v<numvars; v++) {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
               fileIO.write(&fref[varlist[v]], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
@@ -694,9 +694,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
             fileIO.write( &f( ioff, joff, koff ), 1 );
       }
       }
@@ -823,9 +823,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
     else
 
       for(size_t v(0); v<numvars; v++)
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
               const uint32_t * href = reinterpret_cast<uint32_t *>(&hydro(ioff,joff,koff));
               fileIO.write(&href[varlist[v]], 1);
       }
@@ -856,9 +856,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From d9cddfd25c3f341712a18f0164e8d21c72386ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 17/22] fix: banded field dump of material ids read beyond the
 field

---
 src/vpic/dump.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index cccd58f..37139a5 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -645,7 +645,8 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t j(0); j<nyout+2; j++) {
       for(size_t i(0); i<nxout+2; i++) {
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(i,j,k));
-              fileIO.write(&fref[varlist[v]], 1);
+              if(varlist[v] < 16) fileIO.write(&fref[varlist[v]], 1);
+              else fileIO.write(&(&f(i,j,k).ematx)[varlist[v]-16], 1); // material_id
               if(rank()==VERBOSE_rank) printf("%f ", f(i,j,k).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << i << " " << j << " " << k << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << j << " " << k << std::endl;
@@ -661,7 +662,8 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
       for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
-              fileIO.write(&fref[varlist[v]], 1);
+              if(varlist[v] < 16) fileIO.write(&fref[varlist[v]], 1);
+              else fileIO.write(&(&f(ioff,joff,koff).ematx)[varlist[v]-16], 1); // material_id
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << ioff << " " << joff << " " << koff << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << joff << " " << koff << std::endl;
-- 
2.43.0


From 32dfbae382e2c6a356883172c51ca5da748b5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 18/22] fix: interleaved hydro dump left out the boundary cells
 and shifted the rest

---
 src/vpic/dump.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 37139a5..68e3ed3 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -843,9 +843,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
   {
     WRITE_HEADER_V0( dump_type::hydro_dump, sp->id, sp->q/sp->m, dumpStep, fileIO );
 
-    dim[0] = nxout;
-    dim[1] = nyout;
-    dim[2] = nzout;
+    dim[0] = nxout+2;
+    dim[1] = nyout+2;
+    dim[2] = nzout+2;
 
     WRITE_ARRAY_HEADER(h, 3, dim, fileIO);
 
@@ -858,9 +858,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From 385013e8e3ce02ae93d43e784c5ac8136a1ac07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 19/22] fix: set_point_region_bc did not compile (missing
 semicolons)

---
 deck/wrapper.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index f5b5c81..2f629c4 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -176,12 +176,12 @@ vpic_simulation::user_particle_collisions( void )
             if( _r001 || _r101 || _r011 || _r111 ) _n[5] = _epbc;        \
           }                                                              \
           if( _ipbc ) {                                                  \
-            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc         \
-            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc         \
-            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc         \
-            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc         \
-            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc         \
-            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc         \
+            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc;        \
+            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc;        \
+            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc;        \
+            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc;        \
+            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc;        \
+            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc;        \
           }                                                              \
           _n += 6;                                                       \
     }}}                                                                  \
-- 
2.43.0


From 4075a28ac98fe20e721ba5b3a2952f55dd92f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 20/22] fix: set_region_field evaluated the equations one cell
 too high along the edge and face axes

---
 deck/wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index 2f629c4..bcf602d 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -393,9 +393,9 @@ vpic_simulation::user_particle_collisions( void )
     const double _dx = grid->dx, _dy = grid->dy, _dz = grid->dz;      \
     const double _c  = grid->cvac;                                    \
     const int    _nx = grid->nx, _ny = grid->ny, _nz = grid->nz;      \
-    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*_k, _zc = _z0 + _dz*(_k-0.5); \
-    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*_j, _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
-    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*_i, _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
+    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*(_k-1), _zc = _z0 + _dz*(_k-0.5); \
+    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*(_j-1), _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
+    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*(_i-1), _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
           int _rccc, _rlcc, _rclc, _rllc, _rccl, _rlcl, _rcll;        \
           x = _xc; y = _yc; z = _zc; _rccc = (rgn);                   \
           x = _xl;                   _rlcc = (rgn);                   \
-- 
2.43.0


From 759031f0c1b9712bcc3a5e78bfab9511906ba206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 21/22] fix: dump_species put all species on one line

---
 src/vpic/dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 68e3ed3..78f5df6 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -89,7 +89,7 @@ vpic_simulation::dump_species( const char *fname ) {
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
   LIST_FOR_EACH( sp, species_list )
-    fileIO.print( "%s %i %e %e", sp->name, sp->id, sp->q, sp->m );
+    fileIO.print( "%s %i %e %e\n", sp->name, sp->id, sp->q, sp->m );
   if( fileIO.close() ) ERROR(( "File close failed on dump species!!!" ));
 }
 
-- 
2.43.0


From 69179d2fb1800ecad39dd7def6695babeb497568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 22/22] fix: regions applied the surface material and boundary
 to the interior as well when the interior was left unchanged

---
 deck/wrapper.h | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index bcf602d..7d39654 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -168,12 +168,18 @@ vpic_simulation::user_particle_collisions( void )
           x = _xn; y = _yh;          _r011 = (rgn);                      \
           x = _xh;                   _r111 = (rgn);                      \
           if( _epbc ) {                                                  \
-            if( _r000 || _r010 || _r001 || _r011 ) _n[0] = _epbc;        \
-            if( _r000 || _r001 || _r100 || _r101 ) _n[1] = _epbc;        \
-            if( _r000 || _r100 || _r010 || _r110 ) _n[2] = _epbc;        \
-            if( _r100 || _r110 || _r101 || _r111 ) _n[3] = _epbc;        \
-            if( _r010 || _r011 || _r110 || _r111 ) _n[4] = _epbc;        \
-            if( _r001 || _r101 || _r011 || _r111 ) _n[5] = _epbc;        \
+            if( ( _r000 || _r010 || _r001 || _r011 ) &&                \
+               !( _r000 && _r010 && _r001 && _r011 ) ) _n[0] = _epbc;  \
+            if( ( _r000 || _r001 || _r100 || _r101 ) &&                \
+               !( _r000 && _r001 && _r100 && _r101 ) ) _n[1] = _epbc;  \
+            if( ( _r000 || _r100 || _r010 || _r110 ) &&                \
+               !( _r000 && _r100 && _r010 && _r110 ) ) _n[2] = _epbc;  \
+            if( ( _r100 || _r110 || _r101 || _r111 ) &&                \
+               !( _r100 && _r110 && _r101 && _r111 ) ) _n[3] = _epbc;  \
+            if( ( _r010 || _r011 || _r110 || _r111 ) &&                \
+               !( _r010 && _r011 && _r110 && _r111 ) ) _n[4] = _epbc;  \
+            if( ( _r001 || _r101 || _r011 || _r111 ) &&                \
+               !( _r001 && _r101 && _r011 && _r111 ) ) _n[5] = _epbc;  \
           }                                                              \
           if( _ipbc ) {                                                  \
             if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc;        \
@@ -230,14 +236,22 @@ vpic_simulation::user_particle_collisions( void )
           x = _xc; y = _yl;          _rcll = (rgn);		       \
           x = _xl;                   _rlll = (rgn);		       \
           if( _smat!=-1 ) {                                            \
-            if( _rccc || _rclc || _rccl || _rcll )  _f->ematx = _smat; \
-            if( _rccc || _rccl || _rlcc || _rlcl )  _f->ematy = _smat; \
-            if( _rccc || _rlcc || _rclc || _rllc )  _f->ematz = _smat; \
-            if( _rccc || _rlcc )                    _f->fmatx = _smat; \
-            if( _rccc || _rclc )                    _f->fmaty = _smat; \
-            if( _rccc || _rccl )                    _f->fmatz = _smat; \
-            if( _rccc || _rlcc || _rclc || _rllc ||		       \
-                _rccl || _rlcl || _rcll || _rlll )  _f->nmat  = _smat; \
+            if( ( _rccc || _rclc || _rccl || _rcll ) &&              \
+               !( _rccc && _rclc && _rccl && _rcll ) ) _f->ematx = _smat;\
+            if( ( _rccc || _rccl || _rlcc || _rlcl ) &&              \
+               !( _rccc && _rccl && _rlcc && _rlcl ) ) _f->ematy = _smat;\
+            if( ( _rccc || _rlcc || _rclc || _rllc ) &&              \
+               !( _rccc && _rlcc && _rclc && _rllc ) ) _f->ematz = _smat;\
+            if( ( _rccc || _rlcc ) &&                                \
+               !( _rccc && _rlcc ) ) _f->fmatx = _smat;              \
+            if( ( _rccc || _rclc ) &&                                \
+               !( _rccc && _rclc ) ) _f->fmaty = _smat;              \
+            if( ( _rccc || _rccl ) &&                                \
+               !( _rccc && _rccl ) ) _f->fmatz = _smat;              \
+            if( ( _rccc || _rlcc || _rclc || _rllc ||                \
+                  _rccl || _rlcl || _rcll || _rlll ) &&              \
+               !( _rccc && _rlcc && _rclc && _rllc &&                \
+                  _rccl && _rlcl && _rcll && _rlll ) ) _f->nmat  = _smat;\
           }                                                            \
           if( _vmat!=-1 ) {                                            \
             if( _rccc && _rclc && _rccl && _rcll )  _f->ematx = _vmat; \
-- 
2.43.0

