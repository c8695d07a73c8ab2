From 92845e8ec673632c918adb0db4d94a4fcf0b2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 01/21] fix: mean absolute percentage error divides by the
 magnitude of the target

With a negative target the denominator collapsed to epsilon, in the metric as
well as in the loss gradient, giving values around 1e9.
---
 src/loss.c    | 2 +-
 src/metrics.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loss.c b/src/loss.c
index 880d253..0983cc1 100644
--- a/src/loss.c
+++ b/src/loss.c
@@ -76,7 +76,7 @@ static void mean_absolute_error( unsigned int n, const float *y_pred, const floa
 static void mean_absolute_percentage_error( unsigned int n, const float *y_pred, const float *y_real, float *loss )
 {
     for( unsigned int i = 0; i < n; i++ )
-        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmax(y_real[i], 1e-7f) * (float) n);
+        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmaxf( fabsf( y_real[i] ), 1e-7f) * (float) n);
 }
 
 static void categorical_crossentropy( unsigned int n, const float *y_pred, const float *y_real, float *loss )
diff --git a/src/metrics.c b/src/metrics.c
index d1b286e..b3cbf57 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -87,7 +87,7 @@ static float mean_absolute_percentage_error(const int n, const float *y_pred, co
 {
     float diff = 0.0f;
     for( int i = 0; i < n; i++ )
-        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( y_real[i], epsilon ));
+        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( fabsf( y_real[i] ), epsilon ));
 
     return 100.0f * diff / (float) n;
 }
-- 
2.43.0


From c4b3638204388229072be9b88ca271450fd4c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:27 +0000
Subject: [PATCH 02/21] fix: unaligned SIMD access where rows and caller
 buffers have no alignment

---
 src/activation.c        | 32 ++++++++++++++++----------------
 src/matrix_operations.c | 24 ++++++++++++------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 90effd3..e507f60 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -548,8 +548,8 @@ static void tanh_act( const int n, float *y )
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(y + i);
-        YMM1 = _mm256_load_ps(y + i + 8);
+        YMM0 = _mm256_loadu_ps(y + i);
+        YMM1 = _mm256_loadu_ps(y + i + 8);
         YMM0 = _mm256_mul_ps(neg_two, YMM0);
         YMM1 = _mm256_mul_ps(neg_two, YMM1);
         YMM2 = _mm256_add_ps(one, exp256_ps(YMM0));
@@ -558,8 +558,8 @@ static void tanh_act( const int n, float *y )
         YMM3 = _mm256_div_ps(two, YMM3);
         YMM2 = _mm256_add_ps(neg_one, YMM2);
         YMM3 = _mm256_add_ps(neg_one, YMM3);
-        _mm256_store_ps(y + i, YMM2);
-        _mm256_store_ps(y + i + 8, YMM3);
+        _mm256_storeu_ps(y + i, YMM2);
+        _mm256_storeu_ps(y + i + 8, YMM3);
     }
 #endif  /* __AVX2__ */
     for( ; i < n; i++ )
@@ -660,11 +660,11 @@ static void relu_derivative        ( const int n, const float *activation, float
         YMM0 = _mm256_blendv_ps( ones, zero, YMM0);
         YMM1 = _mm256_blendv_ps( ones, zero, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -690,11 +690,11 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
         YMM0 = _mm256_mul_ps(YMM0, YMM2);
         YMM1 = _mm256_mul_ps(YMM1, YMM3);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -719,11 +719,11 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
         YMM0 = _mm256_sub_ps(ones, YMM0);
         YMM1 = _mm256_sub_ps(ones, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for( ; i < n; i++ )
diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ea4be..a2ee8e1 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -49,9 +49,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m512 sums = _mm512_setzero_ps ();
         for (; j <= ((n_cols)-16); j += 16, m_ptr += 16, v_ptr += 16){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr), sums);
+            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr), sums);
 #else
-            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr)));
+            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr)));
 #endif
         }
         y[i] = _mm512_reduce_add_ps( sums );
@@ -60,9 +60,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m256 sum = _mm256_setzero_ps ();
         for (; j <= ((n_cols)-8); j += 8, m_ptr += 8, v_ptr += 8){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr), sum);
+            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr), sum);
 #else
-            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr)));
+            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr)));
 #endif
         }
         y[i] += horizontalsum_avx( sum );
@@ -128,12 +128,12 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 
 #ifdef __AVX512F__
     for (; i <= ((m)-16) ; i += 16, bias_ptr +=16, y_ptr +=16 ){
-        _mm512_store_ps( y_ptr, _mm512_load_ps( bias_ptr ));
+        _mm512_storeu_ps( y_ptr, _mm512_load_ps( bias_ptr ));
     }
 #endif
 #ifdef __AVX__
     for (; i <= ((m)-8) ; i += 8, bias_ptr +=8, y_ptr +=8 ){
-        _mm256_store_ps( y_ptr, _mm256_load_ps( bias_ptr ));
+        _mm256_storeu_ps( y_ptr, _mm256_load_ps( bias_ptr ));
     }
 #endif
     for( ; i < m; i++ ){
@@ -149,11 +149,11 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 int j = 0;
 #ifdef __AVX512F__
                 for (; j <= ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16) 
-                    _mm512_store_ps(y_ptr, _mm512_add_ps (_mm512_load_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps (_mm512_loadu_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
 #endif /*  __AVX512F__ */
 #ifdef __AVX__
                 for (; j <= ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8) 
-                    _mm256_store_ps(y_ptr, _mm256_add_ps (_mm256_load_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps (_mm256_loadu_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
 #endif /*  __AVX__ */
                 for( ; j < m; j++ )
                     *y_ptr++ += *weight_ptr++;
@@ -162,9 +162,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 #ifdef __AVX512F__
                 for (; j < ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16){
 #if defined(__FMA__)
-                    _mm512_store_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_load_ps(y_ptr)));
+                    _mm512_storeu_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_loadu_ps(y_ptr)));
 #else
-                    _mm512_store_ps(y_ptr, _mm512_add_ps(_mm512_load_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps(_mm512_loadu_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
 #endif  
                 }
 #endif
@@ -172,9 +172,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 __m256 scalevec = _mm256_set1_ps(inp);
                 for (; j < ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8){
 #if defined(__FMA__)
-                    _mm256_store_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_load_ps(y_ptr)));
+                    _mm256_storeu_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_loadu_ps(y_ptr)));
 #else
-                    _mm256_store_ps(y_ptr, _mm256_add_ps(_mm256_load_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps(_mm256_loadu_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
 #endif  
                 }
 #endif
-- 
2.43.0


From b4b7315e53ff9413414b1c58cf8ca488366d020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:26 +0000
Subject: [PATCH 03/21] fix: batch gradient reduction covers exactly the
 parameters, not a padded tail past the buffer

---
 src/optimizer.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 4494ebc..3df147a 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -65,19 +65,6 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    /* There is a bug in OpenMP -- if using reduction on an aligned array, there will be threaded
-       copies of the arrays in each thread. These copies will not necesarrily be aligned, but rather
-       follow the previous in memory. Solving this can be done by padding. I've not seen this documented
-       but it seems to work. Hence this padding. */
-#ifdef __AVX__
-#define PADDING_SIZE 16
-    /* Hmmm.... maybe it doesn't work after all? it doesn't work with PADDING_SIZE=32, but
-       it works with PADDING_SIZE=16... why? Is this really a stable solution? */
-    const unsigned int n_param_padding = n_parameters + (PADDING_SIZE - n_parameters % PADDING_SIZE);
-    assert( (n_param_padding % PADDING_SIZE) == 0);
-#else
-    const unsigned int n_param_padding __attribute__((unused))  = n_parameters;
-#endif
     memset( batchgrad, 0, n_parameters * sizeof(float));  /* Clear the batch grad */
 
     const int n_input  = nn->layer[0].n_input;
@@ -85,7 +72,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_param_padding])
+#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-- 
2.43.0


From 414de7bdc183ba1943e187f62bdde4468c906a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 04/21] fix: the shuffle pivot belongs to its optimizer instead
 of a function static

A second optimizer trained on the same number of samples kept a NULL pivot.
---
 src/optimizer.c | 19 +++++++++++--------
 src/optimizer.h |  2 ++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 3df147a..a9a1c41 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -13,25 +13,27 @@
 #include <time.h>
 #include <assert.h>
 
-static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
+static bool prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
-    static unsigned int _n_sample = 0;
-    if ( n_train_samples != _n_sample ){
-        _n_sample = n_train_samples;
-        opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
-        if ( !opt->pivot ){
+    if ( n_train_samples != opt->n_pivot ){
+        unsigned int *pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
+        if ( !pivot && n_train_samples > 0 ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
-            return;
+            return false;
         }
+        opt->pivot   = pivot;
+        opt->n_pivot = n_train_samples;
         for ( unsigned int i = 0; i < n_train_samples; i++ )
             opt->pivot[i] = i;
 
         srand( time (NULL ) );
     }
+    return true;
 }
 
 static void fisher_yates_shuffle( unsigned int *arr, unsigned int n )
 {
+    if ( n < 2 ) return;
     for ( unsigned int i = n-1; i > 0; i-- ){
         unsigned int j = rand() % (i+1);
         unsigned int tmp = arr[j];
@@ -90,7 +92,8 @@ void optimizer_run_epoch( optimizer_t *self,
         const unsigned int n_valid_samples, const float *valid_X, const float *valid_Y, float *results )
 {
     /* Setup some stuff */
-    prepare_shuffle_pivot( self, n_train_samples );
+    if( !prepare_shuffle_pivot( self, n_train_samples ) )
+        return;
     if( self->shuffle )
         fisher_yates_shuffle( self->pivot, n_train_samples );
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 7de3202..347b480 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    unsigned int n_pivot;   /* Don't touch! Number of samples in pivot */
 };
 
 #if defined(__GNUC__)
@@ -68,6 +69,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
     newopt->opt.metrics    = optconf.metrics;   \
     \
     newopt->opt.pivot      = NULL; /* This will be allocated in the main loop */ \
+    newopt->opt.n_pivot    = 0;    \
     \
     __VA_ARGS__ ; \
     optimizer_check_sanity( OPTIMIZER(newopt) ); \
-- 
2.43.0


From 165a453d5524d8bb371623bf502fe7443050a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 05/21] fix: default metrics are stored per optimizer, a new
 optimizer no longer changes an older one's metric

---
 src/optimizer.c | 8 +++-----
 src/optimizer.h | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index a9a1c41..d6cb350 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -51,12 +51,10 @@ void optimizer_check_sanity( optimizer_t * opt)
     assert( opt->batchsize > 0 );
 
     /* If the metrics is set to NULL - add the metric function corresponding to the loss */
-    static metric_func static_metrics[2];
-    static_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
-    static_metrics[1] = NULL;
-
     if( opt->metrics == NULL ){
-        opt->metrics = static_metrics;
+        opt->default_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
+        opt->default_metrics[1] = NULL;
+        opt->metrics = opt->default_metrics;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 347b480..1236c64 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    metric_func  default_metrics[2];  /* used when no metrics are given */
     unsigned int n_pivot;   /* Don't touch! Number of samples in pivot */
 };
 
-- 
2.43.0


From 3d6863724c3da8960ac9adf620d369e06ca212da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 06/21] fix: adam bias correction powers belong to the
 optimizer instead of a function static

---
 src/adam.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/adam.c b/src/adam.c
index be59be0..e341370 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -25,6 +25,8 @@ struct _adam_t
     /* private stuff - don't touch! */
     float *r;
     float *s;
+    float beta_1_corrected;  /* beta_1 to the power of the number of updates */
+    float beta_2_corrected;
 };
 
 static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
@@ -44,6 +46,9 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
     assert( adam->s );
     memset( adam->r, 0, n_param * sizeof(float));
     memset( adam->s, 0, n_param * sizeof(float));
+
+    adam->beta_1_corrected = 1.0f;
+    adam->beta_2_corrected = 1.0f;
 }
 
 static void adam_optimizer_free( optimizer_t *opt )
@@ -155,9 +160,6 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    static float beta_1_corrected = 1.0f;
-    static float beta_2_corrected = 1.0f;
-
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
@@ -165,8 +167,8 @@ void adam_run_epoch( optimizer_t *opt,
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
-        beta_1_corrected *= adam->beta_1;
-        beta_2_corrected *= adam->beta_2;
+        adam->beta_1_corrected *= adam->beta_1;
+        adam->beta_2_corrected *= adam->beta_2;
 
         #pragma omp parallel sections
         {
@@ -176,7 +178,7 @@ void adam_run_epoch( optimizer_t *opt,
             update_biased_second_moment( n_parameters, adam->r, g, adam->beta_2 );
         }
 
-        compute_update_adam( n_parameters, g, adam->s, adam->r, beta_1_corrected, beta_2_corrected, adam->learning_rate );
+        compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
             float SIMD_ALIGN(weights[n_parameters]);
-- 
2.43.0


From e7fbfc53045e7403befc23b28a1223008645b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 07/21] fix: early stopping and checkpoint keep their best
 score per instance instead of in function statics

---
 src/earlystopping.c   | 21 +++++++++++----------
 src/modelcheckpoint.c | 16 ++++++++--------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 5ef91b3..19d0fcc 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -14,6 +14,8 @@ struct _earlystopping_t
     int   monitor_idx;
     bool  greater_is_better;
     bool  early_stopping_flag;
+    float best_so_far;
+    int   epochs_since_improvement;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -23,15 +25,14 @@ CALLBACK_DEFINE(earlystopping,
         newcb->monitor_idx         = cfg->monitor_idx;
         newcb->greater_is_better   = cfg->greater_is_better;
         newcb->early_stopping_flag = false;
+        newcb->best_so_far         = FLT_MAX;
+        newcb->epochs_since_improvement = 0;
 );
 
 void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     earlystopping_t *es = (earlystopping_t*) cb;
 
-    static float best_so_far = FLT_MAX; 
-    static int epochs_since_improvement = 0;
-
     bool improvement = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -42,24 +43,24 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
 
     float score = epoch_results[idx];
     if (es->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > es->best_so_far || es->best_so_far == FLT_MAX ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < es->best_so_far ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     }
 
     if( improvement ){
-        epochs_since_improvement = 0;
+        es->epochs_since_improvement = 0;
         return;
     }
 
-    epochs_since_improvement++;
-    if ( epochs_since_improvement > es->patience ){
+    es->epochs_since_improvement++;
+    if ( es->epochs_since_improvement > es->patience ){
         es->early_stopping_flag = true;
     }
 
diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 7b470bf..1b9233b 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -18,6 +18,7 @@ struct _modelcheckpoint_t
     int monitor_idx;
     bool greater_is_better;
     bool verbose;
+    float best_so_far;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -27,14 +28,13 @@ CALLBACK_DEFINE(modelcheckpoint,
         newcb->monitor_idx           = cfg->monitor_idx;
         newcb->greater_is_better     = cfg->greater_is_better;
         newcb->verbose               = cfg->verbose;
+        newcb->best_so_far           = FLT_MAX;
 );
 
 void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     modelcheckpoint_t *mcp = (modelcheckpoint_t*) cb;
 
-    static float best_so_far = FLT_MAX; /* This will fail for greater_is_better */
-
     bool do_save = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -45,18 +45,18 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
 
     float score = epoch_results[idx];
     if (mcp->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > mcp->best_so_far || mcp->best_so_far == FLT_MAX ){
             if( mcp->verbose )  /* BUG: This gives bullshit the first time */
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < mcp->best_so_far ){
             if( mcp->verbose )
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     }
 
-- 
2.43.0


From ca1aad2a1d7e91e854a103707ebcbb22b43e49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 08/21] fix: the checkpoint file name is not a format string

---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 1b9233b..5d2e767 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -61,7 +61,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     }
 
     if( do_save )
-        neuralnet_save( opt->nn, mcp->filename ? mcp->filename : "checkpoint.npz");
+        neuralnet_save( opt->nn, "%s", mcp->filename ? mcp->filename : "checkpoint.npz");
     return;
 }
 
-- 
2.43.0


From 7c946c822be7646c88024c0ee446714ff8da91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:16 +0000
Subject: [PATCH 09/21] fix: npy header length for many or large dimensions,
 empty dimensions and failing close when saving

---
 npy_array/npy_array.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b8f3cf9..b722b58 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -97,7 +97,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     char *ptr = shape;
 
     for( int i = 0; i < m->ndim; i++)
-        ptr += sprintf(ptr, "%d,", (int) m->shape[i]);
+        ptr += sprintf(ptr, "%zu,", m->shape[i]);
     assert( ptr - shape < NPY_ARRAY_SHAPE_BUFSIZE );
 
     /* Potential bug? There are some additional whitespaces after the dictionaries saved from
@@ -108,10 +108,11 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
        It is terminated by a newline (\n) and padded with spaces (\x20) to make the total of:
        len(magic string) + 2 + len(length) + HEADER_LEN be evenly divisible by 64 for alignment purposes.
 
-       ... which sounds smart enough for me, and with some reverse engineering it looks like HEADER_LEN is 108.
+       ... which sounds smart enough for me. A header of a usual array is hence 128 bytes in total.
 
      */
-#define HEADER_LEN 108
+#define HEADER_ALIGN 64
+#define MIN_HEADER_LEN 128
     /* WARNING: This code looks inocent and simple, but it was really a struggle. Do not touch unless you like pain! */
     size_t len = sprintf(dict, "{'descr': '%c%c%zu', 'fortran_order': %s, 'shape': (%s), }",
             _guess_endianness( m ),
@@ -120,8 +121,12 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
             m->fortran_order ? "True": "False",
             shape );
 
-    assert( len < HEADER_LEN ); /* FIXME: This can go wrong for really big arrays with a lot of dimensions */
-    len += sprintf( dict + len, "%*s\n", (int) (HEADER_LEN - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
+    /* At least one space and the newline has to fit after the dictionary. */
+    size_t total_len = NPY_ARRAY_PREHEADER_LENGTH + len + 2;
+    total_len = (total_len + HEADER_ALIGN - 1) / HEADER_ALIGN * HEADER_ALIGN;
+    if( total_len < MIN_HEADER_LEN )
+        total_len = MIN_HEADER_LEN;
+    len += sprintf( dict + len, "%*s\n", (int) (total_len - NPY_ARRAY_PREHEADER_LENGTH - len - 1), " " );
 
     const uint16_t _len = (uint16_t) (len);
     memcpy( p, &_len, sizeof(uint16_t));
@@ -129,14 +134,15 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     memcpy( p, dict, len);
 
     return len + NPY_ARRAY_PREHEADER_LENGTH;
-#undef HEADER_LEN
+#undef HEADER_ALIGN
+#undef MIN_HEADER_LEN
 }
 
 size_t npy_array_calculate_datasize( const npy_array_t *m )
 {
     size_t n_elements = 1;
     int idx = 0;
-    while ( m->shape[ idx ] > 0 && (idx < m->ndim) )
+    while ( idx < m->ndim )
         n_elements *= m->shape[ idx++ ];
     return n_elements * m->elem_size;
 }
@@ -372,7 +378,8 @@ void npy_array_save( const char *filename, const npy_array_t *m )
     if( chk != datasize){
         fprintf(stderr, "Could not write all data.\n");
     }
-    fclose(fp);
+    if( fclose(fp) != 0 )
+        fprintf(stderr, "Could not write all data to '%s'.\n", filename );
 }
 
 void npy_array_free( npy_array_t *m )
-- 
2.43.0


From bf264978d71333b899d00e4facd6452402568141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 10/21] fix: reading a malformed or truncated npy file fails
 instead of aborting or reading out of bounds

---
 npy_array/npy_array.c | 77 +++++++++++++++++++++++++++----------------
 npy_array/npy_array.h |  1 +
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b722b58..e7cf092 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -185,8 +185,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME! This may fail for version 2 and it may also fail on big endian systems.... */
     uint16_t header_length = 0;
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
     
     char header[header_length + 1];
     chk = read_func( fp, header, header_length );
@@ -206,7 +206,10 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     char *descr   = find_header_item("'descr': '", header);
-    assert(descr);
+    if( !descr || !descr[0] || !descr[1] ){
+        fprintf(stderr, "No array type found in header.\n");
+        goto header_error;
+    }
     if ( strchr("<>|", descr[0] ) ){
         m->endianness = descr[0];
         if( descr[0] != '|' && ( descr[0] != endianness())){
@@ -220,12 +223,19 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->typechar = descr[1];
 
     /* FIXME: Check the **endptr (second argument which is still NULL here)*/
-    m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    assert( m->elem_size > 0 );
+    long long elem_size = strtoll( &descr[2], NULL, 10);
+    if( elem_size <= 0 ){
+        fprintf(stderr, "Bad element size in header.\n");
+        goto header_error;
+    }
+    m->elem_size = (size_t) elem_size;
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *fortran = find_header_item("'fortran_order': ", header);
-    assert( fortran );
+    if( !fortran ){
+        fprintf(stderr, "No matrix order found in header.\n");
+        goto header_error;
+    }
 
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
@@ -236,48 +246,65 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *shape   = find_header_item("'shape': ", header);
-    assert(shape);
+    if( !shape || !strchr( shape, ')' )){
+        fprintf(stderr, "No shape found in header.\n");
+        goto header_error;
+    }
     while (*shape != ')' ) {
-        if( !isdigit( (int) *shape ) ){
+        if( !isdigit( (unsigned char) *shape ) ){
             shape++;
             continue;
         }
+        if( m->ndim >= NPY_ARRAY_MAX_DIMENSIONS ){
+            fprintf(stderr, "Too many dimensions in header.\n");
+            goto header_error;
+        }
         m->shape[m->ndim] = strtol( shape, &shape, 10);
         m->ndim++;
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
     }
 
-    size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 )
-        n_elements *= m->shape[ idx++ ];
+    size_t datasize = m->elem_size;
+    for( int i = 0; i < m->ndim; i++ )
+        if( __builtin_mul_overflow( datasize, m->shape[i], &datasize )){
+            fprintf(stderr, "The array is too big.\n");
+            goto header_error;
+        }
 
 #if VERBOSE
-    printf("Number of elements: %llu\n", (unsigned long long) n_elements );
+    printf("Number of elements: %llu\n", (unsigned long long) (datasize / m->elem_size) );
 #endif
     m->map_addr = NULL;
     if( read_func == read_mapped ){
         map_handler_t *mh = (map_handler_t*) fp;
+        if( mh->length - (mh->current_pos - mh->start_pos) < datasize ){
+            fprintf(stderr, "Could not map all data.\n");
+            goto header_error;
+        }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
+        m->map_length = mh->length;
         return m;
     }
 
-    m->data = malloc( n_elements * m->elem_size );
+    m->data = malloc( datasize > 0 ? datasize : 1 );
     if ( !m->data ){
         fprintf(stderr, "Cannot allocate memory for matrix data.\n");
         free( m );
         return NULL;
     }
 
-    chk = read_func( fp, m->data, m->elem_size * n_elements ); /* Can the multiplication overflow? */ 
-    if( chk != m->elem_size * n_elements){
+    chk = read_func( fp, m->data, datasize );
+    if( chk != datasize ){
         fprintf(stderr, "Could not read all data.\n");
         free( m->data );
         free( m );
         return NULL;
     }
     return m;
+
+header_error:
+    free( m );
+    return NULL;
 }
 
 npy_array_t * npy_array_load( const char *filename )
@@ -305,7 +332,7 @@ static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes )
     size_t bytes_to_read = bytes_left > nbytes ? nbytes : bytes_left;
     memcpy( buffer, mh->current_pos, bytes_to_read );
     mh->current_pos += bytes_to_read;
-    return (int64_t) nbytes;
+    return (int64_t) bytes_to_read;
 }
 
 npy_array_t * npy_array_mmap( const char *filename )
@@ -389,17 +416,9 @@ void npy_array_free( npy_array_t *m )
         return;
     }
 
-    if( m->map_addr ){
-        /* We need the length of the data mapped. We are mapping the whole file, so we have to
-           recalculate the size.  */
-        uint16_t header_length = 0;
-        char *preheader = m->map_addr;
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
-
-        size_t len = NPY_ARRAY_PREHEADER_LENGTH + header_length + npy_array_calculate_datasize(m);
-        munmap( m->map_addr, len );
-    } else
+    if( m->map_addr )
+        munmap( m->map_addr, m->map_length ); /* The whole file is mapped. */
+    else
         free( m->data );
 
     free( m );
diff --git a/npy_array/npy_array.h b/npy_array/npy_array.h
index 3c02e01..307543a 100644
--- a/npy_array/npy_array.h
+++ b/npy_array/npy_array.h
@@ -55,6 +55,7 @@ typedef struct _npy_array_t {
     bool              fortran_order;
     /* Consider map_addr as a private member. Do modify this pointer! Used for unmap() */
     void             *map_addr;      /* pointer to the map if array is mmap()'ed -- else NULL */
+    size_t            map_length;    /* length of the map, private as well */
 } npy_array_t;
 
 
-- 
2.43.0


From 3b8e6e1a2225a1f9d4683ca7ce44bb01d5c292e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 11/21] fix: failing to save an archive is reported to the
 caller instead of aborting or passing as success

---
 npy_array/npy_array_list.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 73663fa..b332d0e 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -76,13 +76,13 @@ static char * _va_args_filename( const char *filename, va_list ap1 )
      
     va_copy( ap2, ap1); 
     len = vsnprintf( NULL, 0, filename, ap1 );
-    va_end( ap1 );
 
     if( len > MAX_FILENAME_LEN ){
         /* If someone is trying to cook up a special filename that can contain executable code, I think it is wise
            to limit the length of the filename */
         fprintf( stderr, "Warning: Cannot save numpy array. Your filename is too long."
                 " Please limit the filename to %d characters.\n", MAX_FILENAME_LEN );
+        va_end( ap2 );
         return NULL;
     }
 
@@ -123,8 +123,7 @@ npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t
 \
     va_list ap1; \
     va_start( ap1, filename ); \
-    new_list->filename = _va_args_filename( filename, ap1 ); \
-    assert( new_list->filename ); \
+    new_list->filename = _va_args_filename( filename, ap1 ); /* NULL gives a default name when saving */ \
     va_end( ap1 ); \
 \
     return _list_ ##oper ( list, new_list ); \
@@ -155,13 +154,13 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     /* FIXME: Better test */
     zip_t *zip = zip_open( filename, ZIP_CREATE | ZIP_TRUNCATE, NULL );
-    assert( zip );
+    if( !zip ){
+        fprintf(stderr, "Cannot open '%s' for writing.\n", filename );
+        return 0;
+    }
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
-        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
-            /* what is wrong? */
-        }
         /* if the filename is not set, set one. However.. if the list was created with append and prepend,
          * this will never be true. */
         if(!iter->filename)
@@ -175,17 +174,30 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         size_t datasize = npy_array_calculate_datasize( m );
 
         char *matrix_npy_format = malloc( hlen + datasize );
-        assert( matrix_npy_format );
+        if( !matrix_npy_format ){
+            fprintf( stderr, "Warning: Cannot allocate memory for '%s'.\n", iter->filename );
+            continue;
+        }
         memcpy( matrix_npy_format, header, hlen );
         memcpy( matrix_npy_format + hlen, m->data, datasize );
 
-        /* FIXME: Check for error */
         zip_source_t *s = zip_source_buffer_create( matrix_npy_format, hlen + datasize, 1, NULL);
-        assert(s); 
+        if( !s ){
+            fprintf( stderr, "Warning: Cannot create archive entry '%s'.\n", iter->filename );
+            free( matrix_npy_format );
+            continue;
+        }
 
-        int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
+        zip_int64_t idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
+        if( idx < 0 ){
+            fprintf( stderr, "Warning: Cannot add '%s' to archive: %s\n", iter->filename, zip_strerror( zip ));
+            zip_source_free( s );   /* (this frees the buffer as well) */
+            continue;
+        }
         if( idx != n )
             fprintf( stderr, "Warning: Index and counter mismatch.");
+        if( zip_set_file_compression( zip, idx, comp, comp_flags ) < 0 )
+            fprintf( stderr, "Warning: Cannot set compression of '%s': %s\n", iter->filename, zip_strerror( zip ));
 
         // fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
         
@@ -194,6 +206,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     if ( zip_close( zip ) < 0 ){
         fprintf(stderr, "What? no close?\n");
         fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+        zip_discard( zip );
+        return 0;
     }
     return n;
 }
-- 
2.43.0


From c7c799415793ed9d21efb05f66ddc2bf930ca5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 12/21] fix: archive entry names are data when loading, not
 format strings, and have any length

---
 npy_array/npy_array_list.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index b332d0e..019b950 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -234,7 +234,18 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             fprintf(stderr, "Warning: Cannot read matrix.\n");
             continue;
         }
-        list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));
+        npy_array_list_t *elem = npy_array_list_new();
+        if( !elem ){
+            fprintf(stderr, "Warning: Cannot allocate memory for list element.\n");
+            npy_array_free( arr );
+            continue;
+        }
+        /* The name is data from the file. It is not a format, and it has any length. */
+        const char *name = zip_get_name( zip, i, 0 );
+        elem->array    = arr;
+        if( name && (elem->filename = malloc( strlen( name ) + 1 )))
+            strcpy( elem->filename, name );
+        list = _list_append( list, elem );
     }
 
     zip_close(zip);
-- 
2.43.0


From 52a8f2865f7a56b7d36e18ccd6e3c5e95ec26a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 13/21] fix: networks with more parameters than an int counts
 are refused; failed allocation frees no garbage pointers

---
 src/neuralnet.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0106850..4461f75 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -18,6 +18,7 @@
 #include <stdarg.h>
 #include <stdbool.h>
 #include <math.h>
+#include <limits.h>
 #include <assert.h>
 
 #if defined(VERBOSE) 
@@ -66,11 +67,18 @@ static void _weights_memory_free( neuralnet_t *nn )
 
 static bool _weights_memory_allocate( neuralnet_t *nn )
 {
+    size_t n_parameters = 0;
     for ( int i = 0; i < nn->n_layers; i++ ){
         if( (nn->layer[i].n_input < 1) || nn->layer[i].n_output < 1){
             fprintf( stderr, "Bad neural network dimensions. Can't allocate memory\n" );
             return false;
         }
+        /* Parameters are counted and indexed with 'int' all over the library. */
+        n_parameters += ((size_t) nn->layer[i].n_input + 1) * (size_t) nn->layer[i].n_output;
+        if( n_parameters > INT_MAX ){
+            fprintf( stderr, "The neural network has too many parameters. Can't allocate memory\n" );
+            return false;
+        }
     }
 
     for ( int i = 0; i < nn->n_layers; i++ ){
@@ -647,7 +655,7 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
 
     nn->n_layers = n_layers;
     /* The layers vector is also nice to do unaligned */
-    nn->layer = malloc( n_layers * sizeof( layer_t ));
+    nn->layer = calloc( n_layers, sizeof( layer_t ));
     if ( !(nn->layer)){
         fprintf( stderr, "Cannot allocate memory for neural neworks layers.\n");
         free( nn );
-- 
2.43.0


From 1576a637e721f3b66403a357a9990b0e16b207af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 14/21] fix: loading a network validates the arrays of the file
 before using them

---
 src/neuralnet.c | 80 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 4461f75..26c7803 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -103,9 +103,13 @@ weight_alloc_error:
 static char ** _activation_names_from_npy( npy_array_t *m )
 {
     char ** ret = calloc( m->shape[0], sizeof( char* ));
-    assert( ret );
+    if( !ret )
+        return NULL;
     ret[0] = calloc( m->shape[0] * (m->elem_size + 1), sizeof(char) );  /* sizeof(char) is always 1! */
-    assert( ret[0] );
+    if( !ret[0] ){
+        free( ret );
+        return NULL;
+    }
 
     for( unsigned int i = 1; i < m->shape[0]; i++ )
         ret[i] = ret[0] + i * (m->elem_size + 1);
@@ -116,6 +120,19 @@ static char ** _activation_names_from_npy( npy_array_t *m )
     return ret;
 }
 
+/* The arrays in a file can be anything. These are the ones that can be copied to a layer. */
+static bool _is_parameter_array( const npy_array_t *m, int ndim )
+{
+    const int one = 1;
+    const char foreign_endian = *(const char*) &one == 1 ? '>' : '<';
+    if( m->ndim != ndim || m->elem_size != sizeof(float) || m->fortran_order || m->endianness == foreign_endian )
+        return false;
+    for( int i = 0; i < ndim; i++ )
+        if( m->shape[i] < 1 || m->shape[i] > INT_MAX )
+            return false;
+    return true;
+}
+
 /**
   @brief Create a new neural network based on specifications in file.
   @param filename Filename to neural network file.
@@ -127,6 +144,7 @@ neuralnet_t *neuralnet_load( const char *filename)
     npy_array_t      **weights_and_biases  = NULL;
     char             **activation_funcs    = NULL;
     int                wb_idx              = 0;
+    size_t             n_activations       = 0;
     neuralnet_t       *nn                  = NULL;
 
     /* Start with copying data from the 'npy' file into an other array for weights and biases,
@@ -149,17 +167,47 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *m = iter->array;
         if( m->typechar == 'f' )
             weights_and_biases[wb_idx++] = m;
-        else if( m->typechar == 'S' )
-            activation_funcs = _activation_names_from_npy( m );
-        else {
+        else if( m->typechar == 'S' ){
+            if( activation_funcs || m->ndim != 1 || m->shape[0] < 1 ){
+                fprintf( stderr, "There should be one array of activation names in file '%s'.\n", filename );
+                goto load_error;
+            }
+            if( !(activation_funcs = _activation_names_from_npy( m ))){
+                fprintf( stderr, "Cannot allocate memory for activation names.\n" );
+                goto load_error;
+            }
+            n_activations = m->shape[0];
+        } else {
             fprintf( stderr, "Element type of numpy array is neither 'float32' or ascii charaters. Cannot open file '%s'.\n", filename );
             goto load_error;
         }
     }
 
-    assert( (wb_idx % 2) == 0 );  /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
-
+    /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
     int n_layers = wb_idx / 2;
+    if( wb_idx == 0 || (wb_idx % 2) != 0 || n_activations != (size_t) n_layers ){
+        fprintf( stderr, "Weights, biases and activations do not match in file '%s'. (%d arrays of parameters and %zu activations)\n",
+                filename, wb_idx, n_activations );
+        goto load_error;
+    }
+
+    for( int i = 0; i < n_layers; i++ ){
+        const npy_array_t *weights = weights_and_biases[i*2];
+        const npy_array_t *bias    = weights_and_biases[i*2+1];
+        if( !_is_parameter_array( weights, 2 ) || !_is_parameter_array( bias, 1 )){
+            fprintf( stderr, "Weight or bias in layer %d is not a C ordered float32 array of 2 (weight) or 1 (bias) dimensions.\n", i );
+            goto load_error;
+        }
+        if( weights->shape[1] != bias->shape[0] ){
+            fprintf( stderr, "Bias size does not match weight size in layer %d. Weight: (%zu,%zu) Bias (%zu)\n",
+                    i, weights->shape[0], weights->shape[1], bias->shape[0] );
+            goto load_error;
+        }
+        if( i > 0 && weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
+            fprintf( stderr, "Weight size mismatch between layer %d and %d.\n", (i-1), i );
+            goto load_error;
+        }
+    }
     {  /* An added scope to please 'goto' */
         int sizearray[ n_layers + 1 ];
         sizearray[0] = weights_and_biases[0]->shape[0];
@@ -181,22 +229,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *weights   = weights_and_biases[i*2];
         npy_array_t *bias      = weights_and_biases[i*2+1];
 
-        /* Some basic checks, but just warnings. */
-        if( weights->ndim != 2 )
-            fprintf(stderr, "WARNING: weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
-        if( bias->ndim != 1 )
-            fprintf(stderr, "WARNING: bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
-        if( weights->shape[1] != bias->shape[0] )
-            fprintf(stderr, "WARNING: bias size does not match weight size in layer %d. Weight: (%ld,%ld) Bias (%ld)\n",
-                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
-        if( i > 0 ){
-            if( weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
-                fprintf( stderr, "WARNING: weight size mismatch between layer %d and %d.", (i-1), i );
-                fprintf( stderr, "* Prev layer output size: %ld\n", weights_and_biases[(i-1)*2]->shape[1] ); 
-                fprintf( stderr, "* This layer  input size: %ld\n", weights->shape[0] ); 
-            }
-        }
-
         memcpy( nn->layer[i].weight, weights->data, weights->shape[0] * weights->shape[1] * sizeof(float));
         /* Debug 
         print_matrix( weights->shape[0], weights->shape[1], (float*) weights->data );
@@ -206,8 +238,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));
         /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
          * such feature belong in npy_array? */ 
-        assert( weights->fortran_order == false );
-        assert( bias->fortran_order == false );
     }
 
 load_error:
-- 
2.43.0


From d00450f1a2c6b38bbfadc414c28a5e992cdf4b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 15/21] fix: the normal random generator rejects a zero radius
 which gave NaN weights

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 26c7803..a0bea6b 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -744,7 +744,7 @@ static float random_normal()
             v = random_uniform();  /* from -1 to +1 */
 
             S = u*u + v*v;
-        } while (S >= 1.0f);
+        } while (S >= 1.0f || S == 0.0f);
 
         fac = sqrtf( -2.0f * logf(S) / S );
         Z = u * fac;
-- 
2.43.0


From 83f1acc65764c7e57506c7349b99264f9c85ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 16/21] fix: va_end on the too-long filename path of
 neuralnet_save

---
 src/neuralnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index a0bea6b..5164732 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -371,6 +371,7 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
            to limit the length of the filename */
         fprintf( stderr, "Warning: Cannot save neural network. Your filename is too long."
                 " Please limit the filename to %d characters.\n", _MAX_FILENAME_LEN );
+        va_end( ap2 );
         return;
     }
 
-- 
2.43.0


From 29cb56f7a2e01b3b8e3be6a9d1fa6c143dea28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 17/21] fix: freeing a long list does not recurse once per
 element

---
 npy_array/npy_array_list.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 019b950..9fadeac 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -58,15 +58,15 @@ static npy_array_list_t * npy_array_list_new()
 
 void npy_array_list_free( npy_array_list_t *list )
 {
-    if( !list )
-        return;
-    if( list->array )
-        npy_array_free( list->array );
-    if( list->filename )
-        free( list->filename );
-    if( list->next )
-        npy_array_list_free( list->next );
-    free( list );
+    while( list ){   /* not recursive: an archive can have more entries than the stack has frames */
+        npy_array_list_t *next = list->next;
+        if( list->array )
+            npy_array_free( list->array );
+        if( list->filename )
+            free( list->filename );
+        free( list );
+        list = next;
+    }
 }
 
 static char * _va_args_filename( const char *filename, va_list ap1 )
-- 
2.43.0


From b5eefbff47aa05b5f2da8d02585a783860dd1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 18/21] fix: long dynamic activation names overran a buffer;
 failed registration returned a closed library's function and leaked

---
 src/activation.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index e507f60..21da035 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -123,13 +123,11 @@ static activation_func get_activation_func_dynamic( const char *name )
         return NULL;
     }
     activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[256];
-    sprintf(derivative_symbol, "%s_derivative", symbol );
-    free( file_and_symbol_name );
     char * error_message = dlerror();
     if( error_message )
     {
         fprintf( stderr, "dlsym(): %s\n", error_message );
+        free( file_and_symbol_name );
         dlclose( handle );
         return NULL;
     }
@@ -137,8 +135,9 @@ static activation_func get_activation_func_dynamic( const char *name )
     activation_record_t *rec = malloc( sizeof(activation_record_t) );
     if ( !rec ){
         perror( "Cannot allocate memory for dynamic loaded activation function record.\n" );
+        free( file_and_symbol_name );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
 
     /* Need to strdup again ... (Or maybe I can reuse if I re-insert the @ ?) */
@@ -146,11 +145,19 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->activation_name = malloc( len );
     if ( !rec->activation_name ){
         perror("Cannot allocate memory for dynamic loaded activation function name.\n" );
+        free( rec );
+        free( file_and_symbol_name );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
     memcpy( rec->activation_name, name, len);
 
+    const char derivative_suffix[] = "_derivative";
+    size_t symbol_len = strlen( symbol );
+    char derivative_symbol[ symbol_len + sizeof( derivative_suffix ) ];
+    memcpy( derivative_symbol, symbol, symbol_len );
+    memcpy( derivative_symbol + symbol_len, derivative_suffix, sizeof( derivative_suffix ));
+    free( file_and_symbol_name );
     rec->deriv_ptr = dlsym( handle, derivative_symbol);
     error_message = dlerror();
     if( error_message )
-- 
2.43.0


From b6e2d5412238fff14bb481649dc4182a1799d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 19/21] fix: the logger resumes the epoch count from any file
 without reading outside its buffer

---
 src/logger.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 07fb869..689e3cf 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -9,6 +9,7 @@
 #include <time.h>
 #include <assert.h>
 #include <string.h>
+#include <limits.h>
 #include <unistd.h>
 
 struct _logger_t 
@@ -43,21 +44,20 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         FILE *fp = fopen( logger->filename, "r");
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
+        /* Scan all lines, and remember the epoch of the last line that has one. A line of many metrics can be
+         * long, but the epoch is found in the beginning. */
         char buf[MAX_BUFFER + 1];
-        fseek( fp, -MAX_BUFFER, SEEK_END );
-        size_t len=fread( buf, 1, MAX_BUFFER, fp );
-        fclose(fp);  /* Hurry up and close it */
-        buf[len] = '\0';
-        if( buf[len-1] == '\n' )  /* Dirty trick if the last line is terminated by newline (which it usually is) */
-            buf[len-1] = '\0';
-        char *last_newline = strrchr( buf, '\n' );
-        if ( !last_newline )
-            return logger->epoch_count;
-        char *last_line = last_newline + 1;
-        if( buf[len-1] == '\0' ) /* Fixing up the dirty trick */
-            buf[len-1] = '\n';   /* we are working on a buffer copy anyway so this is not a big deal */
-        char *e_counter = strstr( last_line, EPOCH_STR) + strlen(EPOCH_STR);
-        return atoi( e_counter ) + 1;
+        int  epoch_count   = logger->epoch_count;
+        bool start_of_line = true;
+        while( fgets( buf, sizeof(buf), fp )){
+            char *e_counter = start_of_line ? strstr( buf, EPOCH_STR " " ) : NULL;
+            int epoch;
+            if( e_counter && sscanf( e_counter + strlen(EPOCH_STR), "%d", &epoch ) == 1 && epoch >= 0 && epoch < INT_MAX )
+                epoch_count = epoch + 1;
+            start_of_line = strchr( buf, '\n' ) != NULL;
+        }
+        fclose(fp);
+        return epoch_count;
     }
     return logger->epoch_count;
 }
-- 
2.43.0


From 8cd0c2ea4604c3e5a08656b7187903ae0ee501d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 20/21] fix: a log line of many metrics or a large value is
 written directly, not through a fixed buffer

---
 src/logger.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 689e3cf..4f353b3 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -7,7 +7,6 @@
 
 #include <stdio.h>
 #include <time.h>
-#include <assert.h>
 #include <string.h>
 #include <limits.h>
 #include <unistd.h>
@@ -62,46 +61,49 @@ static int find_last_epoch_from_logfile( logger_t *logger )
     return logger->epoch_count;
 }
 
-void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+static void write_log_line( FILE *fp, const struct tm *timeinfo, int epoch, const optimizer_t *opt,
+        const float *epoch_results, bool validation_set_given )
 {
-    logger_t *log = (logger_t*) cb;
-
-    char buffer[MAX_BUFFER + 1];
-    char *ptr = buffer;
-    time_t rawtime;
-    struct tm * timeinfo;
-
-    time ( &rawtime );
-    timeinfo = localtime ( &rawtime );
-
     /* First the time, let's settle for the time of day, there will be other evidence to se the date and year.*/
-    ptr += sprintf ( ptr, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
+    fprintf( fp, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
 
     /* Then the epoch count. The count is only stored in log. It is not in the optimizer */
-    ptr += sprintf ( ptr, EPOCH_STR " %3d ", log->epoch_count++ );
+    fprintf( fp, EPOCH_STR " %3d ", epoch );
 
     /* Now the metric values */
     int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
     for( int phase = 0; phase <= ((int) validation_set_given); phase++ ){  /* phase 0 -> train error / phase 1: validation error */
         for ( int i = 0; i < n_metrics; i++ ){
-            ptr += sprintf ( ptr, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
+            fprintf( fp, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
                     epoch_results[i + (phase * n_metrics)] );
         }
     }
 
-    ptr += sprintf(ptr, "\n" );
-    assert( ptr - buffer < MAX_BUFFER );
+    fprintf( fp, "\n" );
+}
+
+void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+{
+    logger_t *log = (logger_t*) cb;
+
+    time_t rawtime;
+    struct tm * timeinfo;
+
+    time ( &rawtime );
+    timeinfo = localtime ( &rawtime );
+
+    const int epoch = log->epoch_count++;
 
     /* Print it out */
     if ( !log->no_stdout )
-        fprintf( stdout, "%s", buffer ); 
+        write_log_line( stdout, timeinfo, epoch, opt, epoch_results, validation_set_given );
 
     FILE *fp = NULL;
     if ( log->filename )
         fp = fopen( log->filename, "a" );
 
     if ( fp ){
-        fprintf( fp, "%s", buffer );
+        write_log_line( fp, timeinfo, epoch, opt, epoch_results, validation_set_given );
         fclose( fp );
     }
     return;
-- 
2.43.0


From 476dde9795d529a0bf874eb4434d386fb814469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 21/21] fix: neuralnet_save leaked an array when there was no
 memory to append it to the list

---
 src/neuralnet.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 5164732..09fd3c3 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -330,6 +330,16 @@ void neuralnet_predict( const neuralnet_t *nn, const float *input, float *out )
 }
 
 #ifndef PREDICTION_ONLY
+/* The array belongs to the list, unless there was no memory to append it. */
+static npy_array_list_t * _free_if_not_appended( npy_array_list_t *list, npy_array_t *m )
+{
+    for( npy_array_list_t *iter = list; iter; iter = iter->next )
+        if( iter->array == m )
+            return list;
+    free( m );
+    return list;
+}
+
 #define _MAX_FILENAME_LEN 128
 /**
   @brief: Saves a neural network to the specified filename.
@@ -390,7 +400,7 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
                     SHAPE( nn->layer[i].n_input, nn->layer[i].n_output),
                     NPY_DTYPE_FLOAT32),
                 sizeof(npy_array_t));
-        save = npy_array_list_append( save, w, "weight_%d", i );
+        save = _free_if_not_appended( npy_array_list_append( save, w, "weight_%d", i ), w );
         /* bias */
         npy_array_t *b = calloc( 1, sizeof( npy_array_t ));
         assert( b );
@@ -399,7 +409,7 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
                 SHAPE( nn->layer[i].n_output), NPY_DTYPE_FLOAT32),
                 sizeof(npy_array_t));
 
-        save = npy_array_list_append( save, b, "bias_%d", i );
+        save = _free_if_not_appended( npy_array_list_append( save, b, "bias_%d", i ), b );
         /* Note: The npy_arrays have to be allocated and copied.
            They are automatic stack allocated and they go out of scope
            when leaving the for-loop */
@@ -427,7 +437,7 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
     npy_array_t *a = malloc( sizeof(npy_array_t));
     assert( a );
     memcpy( a, NPY_ARRAY_BUILDER( data, SHAPE( nn->n_layers ), .typechar='S', .elem_size = (size_t) longest_name ), sizeof(npy_array_t));
-    save = npy_array_list_append( save, a, "activations" );
+    save = _free_if_not_appended( npy_array_list_append( save, a, "activations" ), a );
     /* (The above npy_array doesn't go out of any scope. heap allocating and copying is unnecessary, however ...
         Then I cannot free this array in the same way as the others. I need to treat it different when freeing!
         I therefore allocate on heap anyway...)  */
-- 
2.43.0

