From 56eadbed0f7baf7a4e30afc8466f4a3d9f4c5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 01/37] fix: snowflake symmetry wrote past the bounding box
 array when it could not be enlarged

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b19c4dd..9834472 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -763,7 +763,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             for (int dab_count = 0; dab_count < symm.num_lines; dab_count++) {
                 // If the number of bboxes cannot fit all snowflake dabs, use half for the rotational dabs
                 // and the other half for the reflected dabs. This is not always optimal, but seldom bad.
-                const int bbox_idx = offset + MIN(roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
+                const int bbox_idx = MIN(offset + roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
                 mypaint_transform_point(&matrices[base_idx + dab_count], x, y, &x_out, &y_out);
                 DDI(x_out, y_out, base_angle - dab_count * rot_angle, bbox_idx);
             }
-- 
2.43.0


From c53ef7024d92ff61e4895d7cd85531f7ca604976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 02/37] fix: an invisible last dab, or switching symmetry off,
 dropped damage of the same transaction

---
 mypaint-tiled-surface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 9834472..f3ecf20 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -794,7 +794,8 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             break;
         }
     }
-    self->num_bboxes_dirtied = MIN(self->num_bboxes, num_bboxes_used);
+    // Boxes dirtied by earlier dabs in the same transaction must still be reported
+    self->num_bboxes_dirtied = MAX(self->num_bboxes_dirtied, MIN(self->num_bboxes, num_bboxes_used));
     return surface_modified;
 #undef DDI
 }
@@ -949,6 +950,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->threadsafe_tile_requests = FALSE;
 
     self->num_bboxes = NUM_BBOXES_DEFAULT;
+    self->num_bboxes_dirtied = 0;
     self->bboxes = self->default_bboxes;
     memset(self->bboxes, 0, sizeof(MyPaintRectangle) * NUM_BBOXES_DEFAULT);
 
-- 
2.43.0


From 9ca3c3ea17d0c1a296c678afaa00d006471f6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 03/37] fix: a failed tile request leaked an operation and left
 the tile undrawable

---
 mypaint-tiled-surface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index f3ecf20..441ab47 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -579,6 +579,12 @@ process_tile(MyPaintTiledSurface *self, int tx, int ty)
     uint16_t * rgba_p = request_data.buffer;
     if (!rgba_p) {
         printf("Warning: Unable to get tile!\n");
+        // Drop the pending operations: a partly emptied queue would keep the tile
+        // from being marked as dirty again, and would later be applied incompletely.
+        while (op) {
+            free(op);
+            op = operation_queue_pop(self->operation_queue, tile_index);
+        }
         return;
     }
 
-- 
2.43.0


From a0d98d89aa5d115958aa28e0f83ccd2c7e050f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 04/37] fix: picking up colour aborted when no tile was
 available

---
 mypaint-tiled-surface.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 441ab47..d0cee75 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -828,6 +828,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
     *color_r = 0.0f;
     *color_g = 1.0f;
     *color_b = 0.0f;
+    *color_a = 0.0f;
 
     // WARNING: some code duplication with draw_dab
 
@@ -904,7 +905,11 @@ void get_color (MyPaintSurface *surface, float x, float y,
       }
     }
 
-    assert(sum_weight > 0.0f);
+    // Nothing could be sampled (no tile was available)
+    if (!(sum_weight > 0.0f)) {
+        return;
+    }
+
     sum_a /= sum_weight;
 
     // For legacy sampling, we need to divide
-- 
2.43.0


From 257ea5f812d8e4fc53f2bc9be8e042617ee19c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 05/37] fix: drawing aborted when every tile of the map was
 dirty and one had been flushed

---
 operationqueue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operationqueue.c b/operationqueue.c
index 7cbe890..3936198 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -199,8 +199,10 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            // Prune duplicate tiles that cause us to almost exceed max
            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
        }
-       assert(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2);
-       self->dirty_tiles[self->dirty_tiles_n++] = index;
+       // If the list is still full it contains every tile in the map, including this one
+       if (self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2) {
+           self->dirty_tiles[self->dirty_tiles_n++] = index;
+       }
     }
     fifo_push(op_queue, (void *)op);
 }
-- 
2.43.0


From 8675a005d7709d5e2cc5bc6e25e7a2393f084f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 06/37] fix: operations still queued when a surface is
 destroyed were leaked

---
 fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fifo.c b/fifo.c
index 1d71ab7..3eb365f 100644
--- a/fifo.c
+++ b/fifo.c
@@ -59,7 +59,8 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
     while ((item = queue->first) != NULL)
     {
         queue->first = item->next;
-        user_free(item);
+        user_free(item->payload);
+        free(item);
     }
     free(queue);
 }
-- 
2.43.0


From 5adac08fd611e3f02b9bc34188d365b24453dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 07/37] fix: brushes on different threads shared a static
 colour buffer when smudging

---
 helpers.c       | 10 +++++-----
 helpers.h       |  2 +-
 mypaint-brush.c |  6 ++++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/helpers.c b/helpers.c
index d0a227c..63dfc31 100644
--- a/helpers.c
+++ b/helpers.c
@@ -561,10 +561,12 @@ spectral_to_rgb (float *spectral, float *rgb_) {
 
 //function to make it easy to blend two spectral colors via weighted geometric mean
 //a is the current smudge state, b is the get_color or brush color
-float * mix_colors(float *a, float *b, float fac, float paint_mode)
+void mix_colors(const float *a, const float *b, float fac, float paint_mode, float *result)
 {
-  static float result[4] = {0};  
-  
+  for (int i=0; i < 4; i++) {
+    result[i] = 0.0f;
+  }
+
   float opa_a = fac;
   float opa_b = 1.0-opa_a;
   result[3] = CLAMP(opa_a * a[3] + opa_b * b[3], 0.0f, 1.0f);
@@ -601,8 +603,6 @@ float * mix_colors(float *a, float *b, float fac, float paint_mode)
       result[i] = result[i] * paint_mode + (1-paint_mode) * (a[i] * opa_a + b[i] * opa_b);
     }
   }
-
-  return result;
 }
 
 #endif //HELPERS_C
diff --git a/helpers.h b/helpers.h
index 0cb252c..667df4c 100644
--- a/helpers.h
+++ b/helpers.h
@@ -41,7 +41,7 @@ float mod_arith(float a, float N);
 
 float smallest_angular_difference(float angleA, float angleB);
 
-float * mix_colors(float *a, float *b, float fac, float paint_mode);
+void mix_colors(const float *a, const float *b, float fac, float paint_mode, float *result);
 
 void
 rgb_to_spectral (float r, float g, float b, float *spectral_);
diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9533265..e3eb3f2 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -983,7 +983,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
                                         smudge_bucket[SMUDGE_A]};
           float sampled_color[4] = {r, g, b, a};
 
-          float* smudge_new = mix_colors(prev_smudge_color, sampled_color, update_factor, paint_factor);
+          float smudge_new[4];
+          mix_colors(prev_smudge_color, sampled_color, update_factor, paint_factor, smudge_new);
           smudge_bucket[SMUDGE_R] = smudge_new[SMUDGE_R];
           smudge_bucket[SMUDGE_G] = smudge_new[SMUDGE_G];
           smudge_bucket[SMUDGE_B] = smudge_new[SMUDGE_B];
@@ -1019,7 +1020,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
               float smudge_color[4] = {smudge_bucket[SMUDGE_R], smudge_bucket[SMUDGE_G], smudge_bucket[SMUDGE_B],
                                        smudge_bucket[SMUDGE_A]};
               float brush_color[4] = {*color_r, *color_g, *color_b, 1.0};
-              float* color_new = mix_colors(smudge_color, brush_color, smudge_factor, paint_factor);
+              float color_new[4];
+              mix_colors(smudge_color, brush_color, smudge_factor, paint_factor, color_new);
               *color_r = color_new[SMUDGE_R];
               *color_g = color_new[SMUDGE_G];
               *color_b = color_new[SMUDGE_B];
-- 
2.43.0


From fcc7b982a64132fc14121ae717346b707adb79ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 08/37] fix: smudge bucket access and clearing used float
 offsets instead of bucket offsets, negative indexes were accepted

---
 mypaint-brush.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index e3eb3f2..c79f691 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -159,7 +159,7 @@ brush_reset(MyPaintBrush *self)
       if (min_index != -1) {
         int max_index = self->max_bucket_used;
         size_t num_bytes = (max_index - min_index + 1) * sizeof(self->smudge_buckets[0]) * SMUDGE_BUCKET_SIZE;
-        memset(self->smudge_buckets + min_index, 0, num_bytes);
+        memset(self->smudge_buckets + min_index * SMUDGE_BUCKET_SIZE, 0, num_bytes);
         self->min_bucket_used = -1;
         self->max_bucket_used = -1;
       }
@@ -208,6 +208,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     } else {
       self->smudge_buckets = NULL;
       self->num_buckets = 0;
+      self->min_bucket_used = -1;
+      self->max_bucket_used = -1;
     }
 
     self->refcount = 1;
@@ -443,6 +445,19 @@ mypaint_brush_set_state(MyPaintBrush *self, MyPaintBrushState i, float value)
     assert (i < MYPAINT_BRUSH_STATES_COUNT);
     self->states[i] = value;
 }
+
+// Keep track of the range of buckets that have to be cleared on reset
+static void
+mark_bucket_used(MyPaintBrush *self, int bucket_index)
+{
+  if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
+    self->min_bucket_used = bucket_index;
+  }
+  if (self->max_bucket_used < bucket_index) {
+    self->max_bucket_used = bucket_index;
+  }
+}
+
 /**
  * mypaint_brush_set_smudge_bucket_state: (skip)
  *
@@ -459,8 +474,9 @@ mypaint_brush_set_smudge_bucket_state(
     float prev_r, float prev_g, float prev_b, float prev_a,
     float prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    mark_bucket_used(self, bucket_index);
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     bucket[SMUDGE_R] = r;
     bucket[SMUDGE_G] = g;
     bucket[SMUDGE_B] = b;
@@ -491,8 +507,8 @@ mypaint_brush_get_smudge_bucket_state(
     float* prev_r, float* prev_g, float* prev_b, float* prev_a,
     float* prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     *r = bucket[SMUDGE_R];
     *g = bucket[SMUDGE_G];
     *b = bucket[SMUDGE_B];
@@ -908,12 +924,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
       return &STATE(self, SMUDGE_RA);
     }
     const int bucket_index = CLAMP(roundf(SETTING(self, SMUDGE_BUCKET)), 0, self->num_buckets - 1);
-    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
-      self->min_bucket_used = bucket_index;
-    }
-    if (self->max_bucket_used < bucket_index) {
-      self->max_bucket_used = bucket_index;
-    }
+    mark_bucket_used(self, bucket_index);
     return &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
   }
 
-- 
2.43.0


From c114da66490316f313635eb46b2c2added12a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 09/37] fix: the first update of a new brush read uninitialised
 setting values, and of a reset brush stale ones

---
 mypaint-brush.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index c79f691..3d8ecc2 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -150,6 +150,10 @@ brush_reset(MyPaintBrush *self)
     self->skipped_dtime = 0;
     // Clear states
     memset(self->states, 0, sizeof(self->states));
+    // Until the first update, settings have their base value
+    for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
+      self->settings_value[i] = mypaint_mapping_get_base_value(self->settings[i]);
+    }
     // Set the flip state such that it will be at "1" for the first
     // dab, and then switch between -1 and 1 for the subsequent dabs.
     STATE(self, FLIP) = -1;
-- 
2.43.0


From 38bda171b3b7a931fd9cffeb894dcb2379f645e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 10/37] fix: malformed brush documents (mapping points, inputs
 or settings of the wrong shape) crashed the loader

---
 mypaint-brush.c | 62 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 3d8ecc2..8deb5b4 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1578,6 +1578,35 @@ obj_get(json_object *self, const gchar *key, json_object **obj_out) {
 #endif
 }
 
+#define MAX_MAPPING_POINTS 64
+
+// Read and validate the control points of a mapping.
+// Returns the number of points, or -1 if they cannot be used.
+static int
+mapping_points_from_json_array(json_object *array, float *x_values, float *y_values)
+{
+    const int n = json_object_array_length(array);
+    // A linear mapping cannot be built with only one point
+    if (n == 1 || n > MAX_MAPPING_POINTS) {
+        return -1;
+    }
+    for (int i = 0; i < n; i++) {
+        json_object *point = json_object_array_get_idx(array, i);
+        if (!json_object_is_type(point, json_type_array) || json_object_array_length(point) < 2) {
+            return -1;
+        }
+        x_values[i] = json_object_get_double(json_object_array_get_idx(point, 0));
+        y_values[i] = json_object_get_double(json_object_array_get_idx(point, 1));
+        if (!isfinite(x_values[i]) || !isfinite(y_values[i])) {
+            return -1;
+        }
+        if (i > 0 && x_values[i] < x_values[i - 1]) {
+            return -1;
+        }
+    }
+    return n;
+}
+
 static gboolean
 update_brush_setting_from_json_object(MyPaintBrush *self,
                                       char *setting_name,
@@ -1602,7 +1631,11 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'base_value' field for setting: %s\n", setting_name);
         return FALSE;
     }
-    const double base_value = json_object_get_double(base_value_obj);
+    const float base_value = json_object_get_double(base_value_obj);
+    if (!isfinite(base_value)) {
+        fprintf(stderr, "Warning: Invalid 'base_value' for setting: %s\n", setting_name);
+        return FALSE;
+    }
     mypaint_brush_set_base_value(self, setting_id, base_value);
 
     // Inputs
@@ -1611,6 +1644,10 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'inputs' field for setting: %s\n", setting_name);
         return FALSE;
     }
+    if (!json_object_is_type(inputs, json_type_object)) {
+        fprintf(stderr, "Warning: Wrong 'inputs' type for setting: %s\n", setting_name);
+        return FALSE;
+    }
     json_object_object_foreach(inputs, input_name, input_obj) {
         MyPaintBrushInput input_id = mypaint_brush_input_from_cname(input_name);
 
@@ -1625,19 +1662,20 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
             return FALSE;
         }
 
-        const int number_of_mapping_points = json_object_array_length(input_obj);
+        float x_values[MAX_MAPPING_POINTS];
+        float y_values[MAX_MAPPING_POINTS];
+        const int number_of_mapping_points = mapping_points_from_json_array(input_obj, x_values, y_values);
+
+        if (number_of_mapping_points < 0) {
+            fprintf(stderr, "Warning: Invalid mapping points for input: %s of setting: %s\n",
+                    input_name, setting_name);
+            return FALSE;
+        }
 
         mypaint_brush_set_mapping_n(self, setting_id, input_id, number_of_mapping_points);
 
         for (int i=0; i<number_of_mapping_points; i++) {
-            json_object *mapping_point = json_object_array_get_idx(input_obj, i);
-
-            json_object *x_obj = json_object_array_get_idx(mapping_point, 0);
-            const float x = json_object_get_double(x_obj);
-            json_object *y_obj = json_object_array_get_idx(mapping_point, 1);
-            const float y = json_object_get_double(y_obj);
-
-            mypaint_brush_set_mapping_point(self, setting_id, input_id, i, x, y);
+            mypaint_brush_set_mapping_point(self, setting_id, input_id, i, x_values[i], y_values[i]);
         }
     }
 
@@ -1665,6 +1703,10 @@ update_brush_from_json_object(MyPaintBrush *self)
         fprintf(stderr, "Error: No 'settings' field for brush\n");
         return FALSE;
     }
+    if (!json_object_is_type(settings, json_type_object)) {
+        fprintf(stderr, "Error: Wrong type of 'settings' field for brush\n");
+        return FALSE;
+    }
 
     gboolean updated_any = FALSE;
     json_object_object_foreach(settings, setting_name, setting_obj) {
-- 
2.43.0


From 2921cd042176ccc1f9c0c6453aeaed218246c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 11/37] fix: after failing to allocate matrices, symmetry
 stayed off even with its previous geometry

---
 mypaint-symmetry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mypaint-symmetry.c b/mypaint-symmetry.c
index 76c870e..6fc9981 100644
--- a/mypaint-symmetry.c
+++ b/mypaint-symmetry.c
@@ -18,8 +18,8 @@ allocate_symmetry_matrices(MyPaintSymmetryData* data, int num_matrices)
     int bytes = num_matrices * sizeof(MyPaintTransform);
     void* allocated = realloc(data->symmetry_matrices, bytes);
     if (!allocated) {
+        // The previously allocated matrices are still valid
         allocation_failure_warning(num_matrices);
-        data->num_symmetry_matrices = 0;
         return FALSE;
     } else {
         data->symmetry_matrices = allocated;
@@ -128,7 +128,7 @@ mypaint_default_symmetry_data()
         .state_pending = symmetry_state_default(),
         .pending_changes = TRUE,
         .active = FALSE,
-        .num_symmetry_matrices = DEFAULT_NUM_MATRICES,
+        .num_symmetry_matrices = 0,
         .symmetry_matrices = NULL,
     };
     if (allocate_symmetry_matrices(&symm_data, DEFAULT_NUM_MATRICES)) {
-- 
2.43.0


From d326c23d4a671fc99f1eeec079c771223be0e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 12/37] fix: stroke events with insane coordinates were not
 ignored but painted to the origin with zero zoom

---
 mypaint-brush.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 8deb5b4..641a5a2 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1347,12 +1347,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         (x > 1e10 || y > 1e10 || x < -1e10 || y < -1e10)) {
       // workaround attempt for https://gna.org/bugs/?14372
       printf("Warning: ignoring brush::stroke_to with insane inputs (x = %f, y = %f)\n", (double)x, (double)y);
-      x = 0.0;
-      y = 0.0;
-      pressure = 0.0;
-      viewzoom = 0.0;
-      viewrotation = 0.0;
-      barrel_rotation = 0.0;
+      return FALSE;
     }
     // the assertion below is better than out-of-memory later at save time
     assert(x < 1e8 && y < 1e8 && x > -1e8 && y > -1e8);
-- 
2.43.0


From 80b1a201420860fe3ec9da4582b70040fd0a4067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 13/37] fix: slow tracking pulled the first event after a reset
 towards the forgotten position

---
 mypaint-brush.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 641a5a2..13ac22b 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1402,7 +1402,9 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         }
       }
 
-      const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
+      // A reset makes the previous position irrelevant
+      const gboolean resetting = dtime > max_dtime || self->reset_requested;
+      const float fac = resetting ? 1.0 : 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
       x = STATE(self, X) + (x - STATE(self, X)) * fac;
       y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
     }
-- 
2.43.0


From b04d0c10911246b97a955ef9b1baa3429c4cd5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 14/37] fix: fixed tiled surface construction crashed or leaked
 when memory ran out

---
 mypaint-fixed-tiled-surface.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 287e324..8d5cbdd 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -101,6 +101,10 @@ mypaint_fixed_tiled_surface_new(int width, int height)
 
     MyPaintFixedTiledSurface *self = (MyPaintFixedTiledSurface *)malloc(sizeof(MyPaintFixedTiledSurface));
 
+    if (!self) {
+        return NULL;
+    }
+
     mypaint_tiled_surface_init(&self->parent, tile_request_start, tile_request_end);
 
     const int tile_size_pixels = self->parent.tile_size;
@@ -118,8 +122,12 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     assert(buffer_size >= width*height*4*sizeof(uint16_t));
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
-    if (!buffer) {
+    uint16_t * null_tile = (uint16_t *)malloc(tile_size);
+    if (!buffer || !null_tile) {
         fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", buffer_size);
+        mypaint_tiled_surface_destroy(&self->parent);
+        free(buffer);
+        free(null_tile);
         free(self);
         return NULL;
     }
@@ -127,7 +135,7 @@ mypaint_fixed_tiled_surface_new(int width, int height)
 
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
-    self->null_tile = (uint16_t *)malloc(tile_size);
+    self->null_tile = null_tile;
     self->tiles_width = tiles_width;
     self->tiles_height = tiles_height;
     self->height = height;
-- 
2.43.0


From 2864b44e4c6f5a88384c46f4bcea93f7f17a3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 15/37] fix: posterizing translucent pixels raised colour above
 alpha, and colorizing those divided by zero

---
 brushmodes.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index f0c68b6..9edfdb6 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -149,7 +149,12 @@ void draw_dab_pixels_BlendMode_Posterize (uint16_t * mask,
       uint32_t post_r = (1<<15) * ROUND(r * posterize_num) / posterize_num;
       uint32_t post_g = (1<<15) * ROUND(g * posterize_num) / posterize_num;
       uint32_t post_b = (1<<15) * ROUND(b * posterize_num) / posterize_num;
-      
+
+      // premultiplied color must not exceed alpha
+      post_r = MIN(post_r, rgba[3]);
+      post_g = MIN(post_g, rgba[3]);
+      post_b = MIN(post_b, rgba[3]);
+
       uint32_t opa_a = mask[0]*(uint32_t)opacity/(1<<15); // topAlpha
       uint32_t opa_b = (1<<15)-opa_a; // bottomAlpha
       rgba[0] = (opa_a*post_r + opa_b*rgba[0])/(1<<15);
-- 
2.43.0


From c984b06c774173382ecc5160c3665b45b762d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:46 +0000
Subject: [PATCH 16/37] fix: colorizing white with black divided by zero

---
 brushmodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index 9edfdb6..22aa7ea 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -214,7 +214,7 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // temporary representation inflation.
     const uint16_t botlum = LUMA(*botr, *botg, *botb) / (1<<15);
     const uint16_t toplum = LUMA(topr, topg, topb) / (1<<15);
-    const int16_t diff = botlum - toplum;
+    const int32_t diff = botlum - toplum;
     int32_t r = topr + diff;
     int32_t g = topg + diff;
     int32_t b = topb + diff;
-- 
2.43.0


From 8412700d5e21d5e50c1b965fbc79f84750878d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 17/37] fix: running out of memory while queueing dabs crashed

---
 fifo.c                        | 11 ++++--
 fifo.h                        |  2 +-
 mypaint-fixed-tiled-surface.c |  2 +-
 mypaint-tiled-surface.c       |  3 ++
 operationqueue.c              | 68 ++++++++++++++++++++++++++++-------
 tilemap.c                     |  7 ++++
 6 files changed, 76 insertions(+), 17 deletions(-)

diff --git a/fifo.c b/fifo.c
index 3eb365f..a0ea58a 100644
--- a/fifo.c
+++ b/fifo.c
@@ -41,6 +41,9 @@ struct fifo
 struct fifo* fifo_new(void)
 {
     struct fifo *ret = (struct fifo *) malloc(sizeof(struct fifo));
+    if (!ret) {
+        return NULL;
+    }
     ret->first = NULL;
     ret->last = NULL;
     ret->item_count = 0;
@@ -68,11 +71,14 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
 /*
  * fifo_push:
  *
- * Add item to queue.
+ * Add item to queue. Returns 0 if there is not enough memory.
  */
-void fifo_push(struct fifo* queue, void* data)
+int fifo_push(struct fifo* queue, void* data)
 {
     struct fifo_item *item = (struct fifo_item*) malloc(sizeof(struct fifo_item));
+    if (!item) {
+        return 0;
+    }
     item->next = NULL;
     item->payload = data;
     if (!queue->last)
@@ -80,6 +86,7 @@ void fifo_push(struct fifo* queue, void* data)
     else
         queue->last->next = item;
     queue->last = item;
+    return 1;
 }
 
 /*
diff --git a/fifo.h b/fifo.h
index 1ed9709..432ee51 100644
--- a/fifo.h
+++ b/fifo.h
@@ -7,7 +7,7 @@ typedef void (*FifoUserFreeFunction) (void *item_data);
 Fifo* fifo_new(void);
 void fifo_free(Fifo* self, FifoUserFreeFunction data_free);
 
-void fifo_push(Fifo* self, void* data);
+int fifo_push(Fifo* self, void* data);
 void* fifo_pop(Fifo* self);
 
 void* fifo_peek_first(Fifo *queue);
diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 8d5cbdd..b4a7aa1 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -123,7 +123,7 @@ mypaint_fixed_tiled_surface_new(int width, int height)
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
     uint16_t * null_tile = (uint16_t *)malloc(tile_size);
-    if (!buffer || !null_tile) {
+    if (!buffer || !null_tile || !self->parent.operation_queue) {
         fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", buffer_size);
         mypaint_tiled_surface_destroy(&self->parent);
         free(buffer);
diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index d0cee75..b804c91 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -681,6 +681,9 @@ gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
         for (int tx = tx1; tx <= tx2; tx++) {
             const TileIndex tile_index = {tx, ty};
             OperationDataDrawDab *op_copy = (OperationDataDrawDab *)malloc(sizeof(OperationDataDrawDab));
+            if (!op_copy) {
+                continue;
+            }
             *op_copy = *op;
             operation_queue_add(self->operation_queue, tile_index, op_copy);
         }
diff --git a/operationqueue.c b/operationqueue.c
index 3936198..fecebff 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -28,6 +28,12 @@
 #include "operationqueue.h"
 #include "fifo.h"
 
+#ifdef HEAVY_DEBUG
+#define INITIAL_MAP_SIZE 1
+#else
+#define INITIAL_MAP_SIZE 10
+#endif
+
 struct OperationQueue {
     TileMap *tile_map;
 
@@ -52,6 +58,7 @@ free_fifo(void *item) {
     }
 }
 
+/* Returns FALSE (leaving the queue as it was) if there is not enough memory */
 gboolean
 operation_queue_resize(OperationQueue *self, int new_size)
 {
@@ -71,6 +78,14 @@ operation_queue_resize(OperationQueue *self, int new_size)
         const int new_map_size = new_size*2*new_size*2;
         TileIndex *new_dirty_tiles = (TileIndex *)malloc(new_map_size*sizeof(TileIndex));
 
+        if (!new_tile_map || !new_dirty_tiles) {
+            if (new_tile_map) {
+                tile_map_free(new_tile_map, FALSE);
+            }
+            free(new_dirty_tiles);
+            return FALSE;
+        }
+
         if (self->tile_map) {
             tile_map_copy_to(self->tile_map, new_tile_map);
             for(int i = 0; i < self->dirty_tiles_n; i++) {
@@ -84,7 +99,7 @@ operation_queue_resize(OperationQueue *self, int new_size)
         self->tile_map = new_tile_map;
         self->dirty_tiles = new_dirty_tiles;
 
-        return FALSE;
+        return TRUE;
     }
 }
 
@@ -92,16 +107,16 @@ OperationQueue *
 operation_queue_new(void)
 {
     OperationQueue *self = (OperationQueue *)malloc(sizeof(OperationQueue));
+    if (!self) {
+        return NULL;
+    }
 
     self->tile_map = NULL;
     self->dirty_tiles_n = 0;
     self->dirty_tiles = NULL;
 
-#ifdef HEAVY_DEBUG
-    operation_queue_resize(self, 1);
-#else
-    operation_queue_resize(self, 10);
-#endif
+    // If there is not enough memory, this is tried again when adding operations
+    operation_queue_resize(self, INITIAL_MAP_SIZE);
 
     return self;
 }
@@ -109,6 +124,10 @@ operation_queue_new(void)
 void
 operation_queue_free(OperationQueue *self)
 {
+    if (!self) {
+        return;
+    }
+
     operation_queue_resize(self, 0); // free the tile map data
 
     free(self);
@@ -152,6 +171,11 @@ remove_duplicate_tiles(TileIndex *array, size_t length)
 int
 operation_queue_get_dirty_tiles(OperationQueue *self, TileIndex** tiles_out)
 {
+    if (!self) {
+        *tiles_out = NULL;
+        return 0;
+    }
+
     self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
 
     *tiles_out = self->dirty_tiles;
@@ -166,22 +190,34 @@ void
 operation_queue_clear_dirty_tiles(OperationQueue *self)
 {
     // operation_queue_add will overwrite the invalid tiles as new dirty tiles comes in
-    self->dirty_tiles_n = 0;
+    if (self) {
+        self->dirty_tiles_n = 0;
+    }
 }
 
 /* Add an operation to the queue for tile @index
+ * The queue takes over @op, and drops it if there is not enough memory.
  * Note: if an operation affects more than one tile, it must be added once per tile.
  *
  * Concurrency: This function is not thread-safe on the same @self instance. */
 void
 operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab *op)
 {
+    if (!self || (!self->tile_map && !operation_queue_resize(self, INITIAL_MAP_SIZE))) {
+        free(op);
+        return;
+    }
+
     while (!tile_map_contains(self->tile_map, index)) {
 #ifdef HEAVY_DEBUG
-        operation_queue_resize(self, self->tile_map->size+1);
+        const int new_size = self->tile_map->size+1;
 #else
-        operation_queue_resize(self, self->tile_map->size*2);
+        const int new_size = self->tile_map->size*2;
 #endif
+        if (!operation_queue_resize(self, new_size)) {
+            free(op);
+            return;
+        }
     }
 
     Fifo **queue_pointer = (Fifo **)tile_map_get(self->tile_map, index);
@@ -190,6 +226,10 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
     if (op_queue == NULL) {
         // Lazy initialization
         op_queue = fifo_new();
+        if (!op_queue) {
+            free(op);
+            return;
+        }
         *queue_pointer = op_queue;
     }
 
@@ -204,7 +244,9 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            self->dirty_tiles[self->dirty_tiles_n++] = index;
        }
     }
-    fifo_push(op_queue, (void *)op);
+    if (!fifo_push(op_queue, (void *)op)) {
+        free(op);
+    }
 }
 
 /* Pop an operation off the queue for tile @index
@@ -216,7 +258,7 @@ operation_queue_pop(OperationQueue *self, TileIndex index)
 {
     OperationDataDrawDab *op = NULL;
 
-    if (!tile_map_contains(self->tile_map, index)) {
+    if (!self || !self->tile_map || !tile_map_contains(self->tile_map, index)) {
         return NULL;
     }
 
@@ -238,7 +280,7 @@ operation_queue_pop(OperationQueue *self, TileIndex index)
 
 OperationDataDrawDab *
 operation_queue_peek_first(OperationQueue *self, TileIndex index) {
-    if (!tile_map_contains(self->tile_map, index)) {
+    if (!self || !self->tile_map || !tile_map_contains(self->tile_map, index)) {
         return NULL;
     }
 
@@ -248,7 +290,7 @@ operation_queue_peek_first(OperationQueue *self, TileIndex index) {
 
 OperationDataDrawDab *
 operation_queue_peek_last(OperationQueue *self, TileIndex index) {
-    if (!tile_map_contains(self->tile_map, index)) {
+    if (!self || !self->tile_map || !tile_map_contains(self->tile_map, index)) {
         return NULL;
     }
 
diff --git a/tilemap.c b/tilemap.c
index efc29a0..84b2074 100644
--- a/tilemap.c
+++ b/tilemap.c
@@ -25,12 +25,19 @@ TileMap *
 tile_map_new(int size, size_t item_size, TileMapItemFreeFunc item_free_func)
 {
     TileMap *self = (TileMap *)malloc(sizeof(TileMap));
+    if (!self) {
+        return NULL;
+    }
 
     self->size = size;
     self->item_size = item_size;
     self->item_free_func = item_free_func;
     const int map_size = 2*self->size*2*self->size;
     self->map = malloc(map_size*self->item_size);
+    if (!self->map) {
+        free(self);
+        return NULL;
+    }
     for(int i = 0; i < map_size; i++) {
         self->map[i] = NULL;
     }
-- 
2.43.0


From ef2902d9d20abf67ff838fa2885bffb03d5147a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 18/37] fix: running out of memory while creating a brush
 crashed

---
 mypaint-brush.c   | 10 +++++++++-
 mypaint-mapping.c | 10 ++++++++++
 rng-double.c      |  3 +++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 13ac22b..4d24656 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -137,6 +137,7 @@ struct MyPaintBrush {
 #define INPUT(input_name) (inputs[MYPAINT_BRUSH_INPUT_##input_name])
 
 void settings_base_values_have_changed (MyPaintBrush *self);
+void brush_free(MyPaintBrush *self);
 
 
 #include "glib/mypaint-brush.c"
@@ -217,10 +218,17 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     }
 
     self->refcount = 1;
+    self->brush_json = NULL;
+    self->rng = rng_double_new(1000);
+    gboolean out_of_memory = !self->rng;
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
       self->settings[i] = mypaint_mapping_new(MYPAINT_BRUSH_INPUTS_COUNT);
+      out_of_memory |= !self->settings[i];
+    }
+    if (out_of_memory) {
+      brush_free(self);
+      return NULL;
     }
-    self->rng = rng_double_new(1000);
     self->random_input = 0;
     self->print_inputs = FALSE;
 
diff --git a/mypaint-mapping.c b/mypaint-mapping.c
index 347d0fe..b7f5abf 100644
--- a/mypaint-mapping.c
+++ b/mypaint-mapping.c
@@ -54,9 +54,16 @@ MyPaintMapping *
 mypaint_mapping_new(int inputs_)
 {
     MyPaintMapping *self = (MyPaintMapping *)malloc(sizeof(MyPaintMapping));
+    if (!self) {
+        return NULL;
+    }
 
     self->inputs = inputs_;
     self->pointsList = (ControlPoints *)malloc(sizeof(ControlPoints)*self->inputs);
+    if (!self->pointsList) {
+        free(self);
+        return NULL;
+    }
     int i = 0;
     for (i=0; i<self->inputs; i++) self->pointsList[i].n = 0;
 
@@ -69,6 +76,9 @@ mypaint_mapping_new(int inputs_)
 void
 mypaint_mapping_free(MyPaintMapping *self)
 {
+    if (!self) {
+        return;
+    }
     free(self->pointsList);
     free(self);
 }
diff --git a/rng-double.c b/rng-double.c
index be79683..bcdea76 100644
--- a/rng-double.c
+++ b/rng-double.c
@@ -72,6 +72,9 @@ RngDouble *
 rng_double_new(long seed)
 {
   RngDouble *self = (RngDouble *)malloc(sizeof(RngDouble));
+  if (!self) {
+    return NULL;
+  }
 
   self->ranf_arr_ptr=(double *)&ranf_arr_dummy;
 
-- 
2.43.0


From c2672182b1b0f68dade8b4f6ee419aa551a3a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 19/37] fix: colorizing white with grey could divide by zero

---
 brushmodes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index 22aa7ea..4eb5402 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -221,7 +221,8 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
 
     // Spec: ClipColor()
     // Clip out of band values
-    int32_t lum = LUMA(r, g, b) / (1<<15);
+    // Rounding must not put the luminance itself out of band
+    int32_t lum = CLAMP(LUMA(r, g, b) / (1<<15), 0, 1<<15);
     int32_t cmin = MIN3(r, g, b);
     int32_t cmax = MAX3(r, g, b);
     if (cmin < 0) {
-- 
2.43.0


From cefec4af8c04eb092ea001590035a5ba1d06d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 20/37] fix: a reset takes the new position without rounding
 against the old one

---
 mypaint-brush.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 4d24656..0e21a06 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1411,10 +1411,11 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       }
 
       // A reset makes the previous position irrelevant
-      const gboolean resetting = dtime > max_dtime || self->reset_requested;
-      const float fac = resetting ? 1.0 : 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
-      x = STATE(self, X) + (x - STATE(self, X)) * fac;
-      y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
+      if (!(dtime > max_dtime || self->reset_requested)) {
+        const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
+        x = STATE(self, X) + (x - STATE(self, X)) * fac;
+        y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
+      }
     }
 
     if (dtime > max_dtime || self->reset_requested) {
-- 
2.43.0


From 38c71871cb2511aa7a1aaf288593e0913928b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 21/37] fix: smudging with a negative paint mode blew up colors

---
 helpers.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers.c b/helpers.c
index 63dfc31..1c3d90a 100644
--- a/helpers.c
+++ b/helpers.c
@@ -598,6 +598,9 @@ void mix_colors(const float *a, const float *b, float fac, float paint_mode, flo
     }
   }
   
+  // Dynamics can move the setting outside of its range
+  paint_mode = CLAMP(paint_mode, 0.0f, 1.0f);
+
   if (paint_mode < 1.0) {
     for (int i=0; i<3; i++) {
       result[i] = result[i] * paint_mode + (1-paint_mode) * (a[i] * opa_a + b[i] * opa_b);
-- 
2.43.0


From 600a8d9e070e07750267401f8271678b6488f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 22/37] fix: extreme grid map scales made dab parameters NaN

---
 mypaint-brush.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 0e21a06..c49353a 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -762,7 +762,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
         const float scale = expf(SETTING(self, GRIDMAP_SCALE));
         const float scale_x = SETTING(self, GRIDMAP_SCALE_X);
         const float scale_y = SETTING(self, GRIDMAP_SCALE_Y);
-        const float scaled_size = scale * GRID_SIZE;
+        // Sanity check - it is easy to reach zero or infinite scales w. logarithmic parameters
+        const float scaled_size = CLAMP(scale * GRID_SIZE, 1e-20f, 1e20f);
         STATE(self, GRIDMAP_X) = mod_arith(fabsf(x * scale_x), scaled_size) / scaled_size * GRID_SIZE;
         STATE(self, GRIDMAP_Y) = mod_arith(fabsf(y * scale_y), scaled_size) / scaled_size * GRID_SIZE;
         if (x < 0.0) {
-- 
2.43.0


From 72626a3305a38cc8d0b7cb902e455df8055d3b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:09 +0000
Subject: [PATCH 23/37] fix: picking up colour with a radius above 9362 divided
 by zero

---
 mypaint-tiled-surface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b804c91..b954df4 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -863,7 +863,8 @@ void get_color (MyPaintSurface *surface, float x, float y,
     //
     // For really small radii we'll sample every pixel
     // in the dab to avoid biasing.
-    const int sample_interval = radius <= 2.0f ? 1 : (int)(radius * 7);
+    // (limited to what the sampling counter can hold)
+    const int sample_interval = radius <= 2.0f ? 1 : (int)MIN(radius * 7, UINT16_MAX);
     const float random_sample_rate = 1.0f / (7 * radius);
 
     #pragma omp parallel for schedule(static) if(self->threadsafe_tile_requests && tiles_n > 3)
-- 
2.43.0


From aa4182ac993891c91a1db233fd39ec072116525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 24/37] fix: creating a GEGL surface crashed when out of memory

---
 gegl/mypaint-gegl-surface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 0057d42..338e439 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -213,6 +213,9 @@ MyPaintGeglTiledSurface *
 mypaint_gegl_tiled_surface_new(void)
 {
     MyPaintGeglTiledSurface *self = (MyPaintGeglTiledSurface *)malloc(sizeof(MyPaintGeglTiledSurface));
+    if (!self) {
+        return NULL;
+    }
 
     mypaint_tiled_surface_init(&self->parent, tile_request_start, tile_request_end);
 
-- 
2.43.0


From 4abcbe816b1d9005b5cf336c54f4c354b88ed505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 25/37] fix: painting on a GEGL buffer with content cut the
 buffer down to the painted tiles

---
 gegl/mypaint-gegl-surface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 338e439..dbf872e 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -194,6 +194,8 @@ mypaint_gegl_tiled_surface_set_buffer(MyPaintGeglTiledSurface *self, GeglBuffer
         g_return_if_fail(GEGL_IS_BUFFER(buffer));
         g_object_ref(buffer);
         self->buffer = buffer;
+        // Painting must only ever extend the buffer
+        self->extent_rect = *gegl_buffer_get_extent(buffer);
     } else {
         // Using GeglBuffer with aligned tiles for zero-copy access
         self->buffer = GEGL_BUFFER(g_object_new(GEGL_TYPE_BUFFER,
-- 
2.43.0


From d3888ed251b5a9de4e0cbb36487c506825f39b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 26/37] fix: read-only tile requests wrote converted pixels
 back to GEGL buffers

---
 gegl/mypaint-gegl-surface.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index dbf872e..c751c8f 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -133,14 +133,16 @@ tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request
             request->context = NULL;
         }
     } else {
-        // Push our linear buffer back into the GeglBuffer
-        const int tile_size = tiled_surface->tile_size;
-        GeglRectangle tile_bbox;
-
         g_assert(request->buffer);
-        gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
-        gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
-                        request->buffer, GEGL_AUTO_ROWSTRIDE);
+        if (!request->readonly) {
+            // Push our linear buffer back into the GeglBuffer
+            const int tile_size = tiled_surface->tile_size;
+            GeglRectangle tile_bbox;
+
+            gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
+            gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
+                            request->buffer, GEGL_AUTO_ROWSTRIDE);
+        }
         gegl_free(request->buffer);
     }
 
-- 
2.43.0


From 00ad67474ee1a31a6172d39c8352af7ad6c194ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 27/37] fix: worker threads raced on the extent of GEGL
 surfaces

---
 gegl/mypaint-gegl-surface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index c751c8f..92cb350 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -31,6 +31,7 @@
 struct MyPaintGeglTiledSurface {
     MyPaintTiledSurface parent;
 
+    GMutex request_mutex; // protects the extent, tiles can be requested by several threads
     GeglRectangle extent_rect; // TODO: remove, just use the extent of the buffer
     GeglBuffer *buffer;
     const Babl *format;
@@ -71,6 +72,8 @@ tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *reque
 
     int read_write_flags;
 
+    g_mutex_lock(&self->request_mutex);
+
     if (request->readonly) {
         read_write_flags = GEGL_BUFFER_READ;
     } else {
@@ -118,6 +121,8 @@ tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *reque
                         request->buffer, GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE);
         g_assert(request->buffer);
     }
+
+    g_mutex_unlock(&self->request_mutex);
 }
 
 static void
@@ -222,6 +227,7 @@ mypaint_gegl_tiled_surface_new(void)
     }
 
     mypaint_tiled_surface_init(&self->parent, tile_request_start, tile_request_end);
+    g_mutex_init(&self->request_mutex);
 
     // MyPaintSurface vfuncs
     self->parent.parent.destroy = free_gegl_tiledsurf;
@@ -249,6 +255,7 @@ void free_gegl_tiledsurf(MyPaintSurface *surface)
 
     mypaint_tiled_surface_destroy(&self->parent);
     g_object_unref(self->buffer);
+    g_mutex_clear(&self->request_mutex);
 
     free(self);
 }
-- 
2.43.0


From 00b0cce26a3a0202825788c249eac5c37a176ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 28/37] fix: GEGL buffers whose tiles are shifted need
 converted access

A buffer with the surface's format and tile size, but with a shift that is
no multiple of the tile size (a translated or cropped view, for instance),
gave no tile aligned access: nothing could be painted and iterators leaked.
---
 gegl/mypaint-gegl-surface.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 92cb350..a714ff4 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -45,14 +45,20 @@ buffer_is_native(MyPaintGeglTiledSurface *self) {
 
     int tile_height = -1;
     int tile_width = -1;
-    g_object_get(self->buffer, "tile-width", &tile_width, "tile-height", &tile_height, NULL);
+    int shift_x = 0;
+    int shift_y = 0;
+    g_object_get(self->buffer, "tile-width", &tile_width, "tile-height", &tile_height,
+                 "shift-x", &shift_x, "shift-y", &shift_y, NULL);
     g_assert(tile_height != -1);
     g_assert(tile_width != -1);
 
     const gboolean correct_format = gegl_buffer_get_format(self->buffer) == self->format;
     const gboolean correct_tile_size = tile_height == tile_size && tile_width == tile_size;
 
-    return correct_format && correct_tile_size;
+    // The tiles of a shifted buffer may lie across those of the surface
+    const gboolean aligned_tiles = shift_x % tile_size == 0 && shift_y % tile_size == 0;
+
+    return correct_format && correct_tile_size && aligned_tiles;
 }
 
 void *
-- 
2.43.0


From dd479cd0073efddaa2f8c7b7e3e059d35036d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 29/37] fix: return the copy from the boxed copy functions

g_boxed_copy(), and with it every GValue or introspection binding that
holds a brush or surface, got an undefined pointer back because the
registered functions return void.
---
 glib/mypaint-brush.c     | 21 ++++++++++++++++++---
 glib/mypaint-gegl-glib.c | 10 +++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/glib/mypaint-brush.c b/glib/mypaint-brush.c
index d351c68..89c63a1 100644
--- a/glib/mypaint-brush.c
+++ b/glib/mypaint-brush.c
@@ -3,6 +3,21 @@
 
 #include <glib-object.h>
 
+/* A GBoxedCopyFunc has to return the copy; the ref functions return nothing. */
+static gpointer
+brush_boxed_copy(gpointer boxed)
+{
+    mypaint_brush_ref((MyPaintBrush *)boxed);
+    return boxed;
+}
+
+static gpointer
+surface_boxed_copy(gpointer boxed)
+{
+    mypaint_surface_ref((MyPaintSurface *)boxed);
+    return boxed;
+}
+
 GType
 mypaint_brush_get_type (void)
 {
@@ -10,7 +25,7 @@ mypaint_brush_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintBrush",
-                                            (GBoxedCopyFunc) mypaint_brush_ref,
+                                            brush_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_brush_unref);
     }
 
@@ -24,7 +39,7 @@ mypaint_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
@@ -38,7 +53,7 @@ mypaint_fixed_tiled_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintFixedTiledSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
diff --git a/glib/mypaint-gegl-glib.c b/glib/mypaint-gegl-glib.c
index 09ac3cb..92ecd0c 100644
--- a/glib/mypaint-gegl-glib.c
+++ b/glib/mypaint-gegl-glib.c
@@ -8,6 +8,14 @@
 
 #include "mypaint-surface.h"
 
+/* A GBoxedCopyFunc has to return the copy; the ref function returns nothing. */
+static gpointer
+surface_boxed_copy(gpointer boxed)
+{
+    mypaint_surface_ref((MyPaintSurface *)boxed);
+    return boxed;
+}
+
 GType
 mypaint_gegl_tiled_surface_get_type (void)
 {
@@ -15,7 +23,7 @@ mypaint_gegl_tiled_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintGeglTiledSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
-- 
2.43.0


From 2aae15c3ea43ea4f357dc8c909234a374f903702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:49 +0000
Subject: [PATCH 30/37] fix: register the GLib types once when threads race for
 it

Two threads that asked for a type at the same time read and wrote the
static variable without synchronisation and could both register it.
---
 glib/mypaint-brush.c     | 44 ++++++++++++++++++++++------------------
 glib/mypaint-gegl-glib.c | 11 +++++-----
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/glib/mypaint-brush.c b/glib/mypaint-brush.c
index 89c63a1..4639912 100644
--- a/glib/mypaint-brush.c
+++ b/glib/mypaint-brush.c
@@ -21,12 +21,13 @@ surface_boxed_copy(gpointer boxed)
 GType
 mypaint_brush_get_type (void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintBrush",
-                                            brush_boxed_copy,
-                                            (GBoxedFreeFunc) mypaint_brush_unref);
+    if (g_once_init_enter(&type)) {
+        GType new_type = g_boxed_type_register_static("MyPaintBrush",
+                                                      brush_boxed_copy,
+                                                      (GBoxedFreeFunc) mypaint_brush_unref);
+        g_once_init_leave(&type, new_type);
     }
 
     return type;
@@ -35,12 +36,13 @@ mypaint_brush_get_type (void)
 GType
 mypaint_surface_get_type (void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintSurface",
-                                            surface_boxed_copy,
-                                            (GBoxedFreeFunc) mypaint_surface_unref);
+    if (g_once_init_enter(&type)) {
+        GType new_type = g_boxed_type_register_static("MyPaintSurface",
+                                                      surface_boxed_copy,
+                                                      (GBoxedFreeFunc) mypaint_surface_unref);
+        g_once_init_leave(&type, new_type);
     }
 
     return type;
@@ -49,12 +51,13 @@ mypaint_surface_get_type (void)
 GType
 mypaint_fixed_tiled_surface_get_type (void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintFixedTiledSurface",
-                                            surface_boxed_copy,
-                                            (GBoxedFreeFunc) mypaint_surface_unref);
+    if (g_once_init_enter(&type)) {
+        GType new_type = g_boxed_type_register_static("MyPaintFixedTiledSurface",
+                                                      surface_boxed_copy,
+                                                      (GBoxedFreeFunc) mypaint_surface_unref);
+        g_once_init_leave(&type, new_type);
     }
 
     return type;
@@ -63,12 +66,13 @@ mypaint_fixed_tiled_surface_get_type (void)
 GType
 mypaint_rectangle_get_type(void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintRectangle",
-                                            (GBoxedCopyFunc) mypaint_rectangle_copy,
-                                            (GBoxedFreeFunc) free);
+    if (g_once_init_enter(&type)) {
+        GType new_type = g_boxed_type_register_static("MyPaintRectangle",
+                                                      (GBoxedCopyFunc) mypaint_rectangle_copy,
+                                                      (GBoxedFreeFunc) free);
+        g_once_init_leave(&type, new_type);
     }
 
     return type;
diff --git a/glib/mypaint-gegl-glib.c b/glib/mypaint-gegl-glib.c
index 92ecd0c..f76037c 100644
--- a/glib/mypaint-gegl-glib.c
+++ b/glib/mypaint-gegl-glib.c
@@ -19,12 +19,13 @@ surface_boxed_copy(gpointer boxed)
 GType
 mypaint_gegl_tiled_surface_get_type (void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintGeglTiledSurface",
-                                            surface_boxed_copy,
-                                            (GBoxedFreeFunc) mypaint_surface_unref);
+    if (g_once_init_enter(&type)) {
+        GType new_type = g_boxed_type_register_static("MyPaintGeglTiledSurface",
+                                                      surface_boxed_copy,
+                                                      (GBoxedFreeFunc) mypaint_surface_unref);
+        g_once_init_leave(&type, new_type);
     }
 
     return type;
-- 
2.43.0


From 00a59b53fcdbd2a5bdd1cd1bdd5631d83f35ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 31/37] fix: finish strokes far from the origin

Where the coordinates are so large that one interpolation step is below the
resolution of a float, the position never changed and mypaint_brush_stroke_to()
placed dabs for ever. Move by at least one representable step.
---
 mypaint-brush.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index c49353a..b5c3d0a 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -19,6 +19,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <float.h>
 #include <math.h>
 #include <assert.h>
 
@@ -1464,6 +1465,15 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         frac = step_ddab / dabs_todo;
         step_dx        = frac * (x - STATE(self, X));
         step_dy        = frac * (y - STATE(self, Y));
+        // Far from the origin the step can be smaller than what a float can
+        // resolve. Move at least that far, or we would never arrive.
+        if (fabsf(x - STATE(self, X)) >= fabsf(y - STATE(self, Y))) {
+          if (fabsf(step_dx) < 0.5f * FLT_EPSILON * fabsf(STATE(self, X)))
+            step_dx = nextafterf(STATE(self, X), x) - STATE(self, X);
+        } else {
+          if (fabsf(step_dy) < 0.5f * FLT_EPSILON * fabsf(STATE(self, Y)))
+            step_dy = nextafterf(STATE(self, Y), y) - STATE(self, Y);
+        }
         step_dpressure = frac * (pressure - STATE(self, PRESSURE));
         step_dtime     = frac * (dtime_left - 0.0);
         // Though it looks different, time is interpolated exactly like x/y/pressure.
-- 
2.43.0


From 60df3dc8b53f1ac24788cb653c091b1f8bbe3090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:01 +0000
Subject: [PATCH 32/37] fix: report barrel rotation within its limits

The input is documented to range from -180 to 180 degrees, with negative
values for counterclockwise rotation. A pen twisted counterclockwise was
reported with 180 to 360 degrees instead.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index b5c3d0a..e2b98a3 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -839,7 +839,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     INPUT(TILT_DECLINATIONY) = STATE(self, DECLINATIONY);
 
     INPUT(CUSTOM) = STATE(self, CUSTOM_INPUT);
-    INPUT(BARREL_ROTATION) = mod_arith(STATE(self, BARREL_ROTATION), 360);
+    INPUT(BARREL_ROTATION) = mod_arith(STATE(self, BARREL_ROTATION) + 180.0, 360.0) - 180.0;
 
     if (self->print_inputs) {
         print_inputs(self, inputs);
-- 
2.43.0


From e1fb6e34e9e270e342abe18a1a564e88d68cc292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:01 +0000
Subject: [PATCH 33/37] fix: report no tilt along x and y for an upright pen

These inputs are 0 when the pen is perpendicular to the tablet, and 60
at most. Devices without tilt, and pens that are held upright for one
event, got 90 instead.
---
 mypaint-brush.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index e2b98a3..7a2194b 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1332,8 +1332,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
 
     float tilt_ascension = 0.0;
     float tilt_declination = 90.0;
-    float tilt_declinationx = 90.0;
-    float tilt_declinationy = 90.0;
+    float tilt_declinationx = 0.0;
+    float tilt_declinationy = 0.0;
     if (xtilt != 0 || ytilt != 0) {
       // shield us from insane tilt input
       xtilt = CLAMP(xtilt, -1.0, 1.0);
-- 
2.43.0


From eaab27553e43872488242a99900f584d05cb0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:01 +0000
Subject: [PATCH 34/37] fix: keep the tilt when the pen is pressed after a
 pause

The event that is made up before it carried a fixed tilt, from a time when
the arguments were declination and ascension. Strokes started tilted all the
way to one side, wherever the pen pointed.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 7a2194b..a62bb13 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1368,7 +1368,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0) {
       // Workaround for tablets that don't report motion events without pressure.
       // This is to avoid linear interpolation of the pressure between two events.
-      mypaint_brush_stroke_to (self, surface, x, y, 0.0, 90.0, 0.0, dtime-0.0001, viewzoom, viewrotation, 0.0, linear);
+      mypaint_brush_stroke_to (self, surface, x, y, 0.0, xtilt, ytilt, dtime-0.0001, viewzoom, viewrotation, barrel_rotation, linear);
       dtime = 0.0001;
     }
 
-- 
2.43.0


From d65344f08c5da01ac03436458eb928240b8bf147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:14 +0000
Subject: [PATCH 35/37] fix: smudge with the colour at the dab left of and
 above the origin

The position of the pickup was rounded towards the origin there, so it
was off by up to one and a half pixels.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index a62bb13..d41a6be 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1152,7 +1152,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         (SETTING(self, SMUDGE) != 0.0 || !mypaint_mapping_is_constant(self->settings[MYPAINT_BRUSH_SETTING_SMUDGE]))) {
         float* const bucket = fetch_smudge_bucket(self);
         gboolean return_early = update_smudge_color(
-            self, surface, bucket, smudge_length, ROUND(x), ROUND(y), radius, legacy_smudge, paint_factor);
+            self, surface, bucket, smudge_length, roundf(x), roundf(y), radius, legacy_smudge, paint_factor);
         if (return_early) {
           return FALSE;
         }
-- 
2.43.0


From f1d3e4eaa8464066feaeb14a23207f16a6485c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:14 +0000
Subject: [PATCH 36/37] fix: do not smudge with colours that the transparency
 limit refused

A refused pickup was marked as recent. With a smudge length multiplier
the next dabs were then drawn with an older colour, or with none at all,
which erases, although nothing is to be drawn until a pickup is accepted.
---
 mypaint-brush.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index d41a6be..a1b5203 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -960,7 +960,6 @@ void print_inputs(MyPaintBrush *self, float* inputs)
       const float smudge_length_log = SETTING(self, SMUDGE_LENGTH_LOG);
 
       const float recentness = smudge_bucket[PREV_COL_RECENTNESS] * update_factor;
-      smudge_bucket[PREV_COL_RECENTNESS] = recentness;
 
       const float margin = 0.0000000000000001;
       if (recentness < MIN(1.0, powf(0.5 * update_factor, smudge_length_log) + margin)) {
@@ -968,7 +967,6 @@ void print_inputs(MyPaintBrush *self, float* inputs)
               // first initialization of smudge color (initiate with color sampled from canvas)
               update_factor = 0.0;
           }
-          smudge_bucket[PREV_COL_RECENTNESS] = 1.0;
 
           const float radius_log = SETTING(self, SMUDGE_RADIUS_LOG);
           const float smudge_radius = CLAMP(radius * expf(radius_log), ACTUAL_RADIUS_MIN, ACTUAL_RADIUS_MAX);
@@ -985,11 +983,14 @@ void print_inputs(MyPaintBrush *self, float* inputs)
           if ((smudge_op_lim > 0.0 && a < smudge_op_lim) || (smudge_op_lim < 0.0 && a > -smudge_op_lim)) {
               return TRUE; // signals the caller to return early
           }
+          // Only now: a color that was refused must not be taken for the previous one
+          smudge_bucket[PREV_COL_RECENTNESS] = 1.0;
           smudge_bucket[PREV_COL_R] = r;
           smudge_bucket[PREV_COL_G] = g;
           smudge_bucket[PREV_COL_B] = b;
           smudge_bucket[PREV_COL_A] = a;
       } else {
+          smudge_bucket[PREV_COL_RECENTNESS] = recentness;
           r = smudge_bucket[PREV_COL_R];
           g = smudge_bucket[PREV_COL_G];
           b = smudge_bucket[PREV_COL_B];
-- 
2.43.0


From 11e5b9d3641214f8eb6f361aae90842983820d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:39 +0000
Subject: [PATCH 37/37] fix: antialias both sides of small rotated dabs alike

The side of the dab's axis that a pixel lies on was taken relative to a
point off the axis unless the angle was a multiple of 90 degrees, so the
antialiasing of dabs with a radius below 3 looked inwards on one side and
dabs came out lopsided, by up to two thirds of full opacity.
---
 mypaint-tiled-surface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b954df4..1c21637 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -251,7 +251,7 @@ calculate_rr(int xp, int yp, float x, float y, float aspect_ratio,
 static inline float
 sign_point_in_line( float px, float py, float vx, float vy )
 {
-    return (px - vx) * (-vy) - (vx) * (py - vy);
+    return px * vy - py * vx;
 }
 
 static inline void
@@ -317,7 +317,7 @@ calculate_rr_antialiased(int xp, int yp, float x, float y, float aspect_ratio,
         return rr_near;
 
     // check on which side of the dab's line is the pixel center
-    float center_sign = sign_point_in_line( pixel_center_x, pixel_center_y, cs, -sn );
+    float center_sign = sign_point_in_line( pixel_center_x, pixel_center_y, cs, sn );
 
     // radius of a circle with area=1
     //   A = pi * r * r
-- 
2.43.0

