From 6460916bec6b55fbbea2cf9137d16e19696c4ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 01/29] fix: glms_aabb2d_radius calls an undeclared function,
 so struct/aabb2d.h does not compile

---
 include/cglm/struct/aabb2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index 9077069..d7c13f1 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -168,7 +168,7 @@ glms_aabb2d_(sizev)(vec2s aabb[2]) {
 CGLM_INLINE
 float
 glms_aabb2d_(radius)(vec2s aabb[2]) {
-  return glms_aabb2d_(size)(aabb) * 0.5f;
+  return glms_aabb2d_(diag)(aabb) * 0.5f;
 }
 
 /*!
-- 
2.43.0


From 5d4657d56117ce2451ca25b69e28da9ed29aa5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 02/29] fix: struct/handed/euler_to_quat headers include a file
 that does not exist

---
 include/cglm/struct/handed/euler_to_quat_lh.h | 4 +++-
 include/cglm/struct/handed/euler_to_quat_rh.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/handed/euler_to_quat_lh.h b/include/cglm/struct/handed/euler_to_quat_lh.h
index 3964e51..f895d93 100644
--- a/include/cglm/struct/handed/euler_to_quat_lh.h
+++ b/include/cglm/struct/handed/euler_to_quat_lh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_lh_h
 #define cglms_euler_to_quat_lh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_lh.h"
 
 
 /*!
diff --git a/include/cglm/struct/handed/euler_to_quat_rh.h b/include/cglm/struct/handed/euler_to_quat_rh.h
index 6c7f400..d1a7967 100644
--- a/include/cglm/struct/handed/euler_to_quat_rh.h
+++ b/include/cglm/struct/handed/euler_to_quat_rh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_rh_h
 #define cglms_euler_to_quat_rh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_rh.h"
 
 
 /*!
-- 
2.43.0


From 7e42635c87a5c22b03a8e23974e7fef6acc42faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 03/29] fix: glm_vec4_normalize SIMD paths compare the squared
 norm with FLT_EPSILON

---
 include/cglm/vec4.h | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index ded09c9..56bef19 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -909,34 +909,33 @@ CGLM_INLINE
 void
 glm_vec4_normalize_to(vec4 v, vec4 dest) {
 #if defined(__wasm__) && defined(__wasm_simd128__)
-  glmm_128 xdot, x0;
-  float  dot;
+  glmm_128 xnorm, x0;
+  float  norm;
 
-  x0   = glmm_load(v);
-  xdot = glmm_vdot(x0, x0);
-  /* dot  = _mm_cvtss_f32(xdot); */
-  dot  = wasm_f32x4_extract_lane(xdot, 0);
+  x0    = glmm_load(v);
+  xnorm = wasm_f32x4_sqrt(glmm_vdot(x0, x0));
+  norm  = wasm_f32x4_extract_lane(xnorm, 0);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
     glmm_store(dest, wasm_f32x4_const_splat(0.f));
     return;
   }
 
-  glmm_store(dest, glmm_div(x0, wasm_f32x4_sqrt(xdot)));
+  glmm_store(dest, glmm_div(x0, xnorm));
 #elif defined( __SSE__ ) || defined( __SSE2__ )
-  __m128 xdot, x0;
-  float  dot;
+  __m128 xnorm, x0;
+  float  norm;
 
-  x0   = glmm_load(v);
-  xdot = glmm_vdot(x0, x0);
-  dot  = _mm_cvtss_f32(xdot);
+  x0    = glmm_load(v);
+  xnorm = _mm_sqrt_ps(glmm_vdot(x0, x0));
+  norm  = _mm_cvtss_f32(xnorm);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
     glmm_store(dest, _mm_setzero_ps());
     return;
   }
 
-  glmm_store(dest, glmm_div(x0, _mm_sqrt_ps(xdot)));
+  glmm_store(dest, glmm_div(x0, xnorm));
 #else
   float norm;
 
-- 
2.43.0


From a10bf6c4045d7ef67da4cad1d984f91ce9136888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 04/29] fix: glm_vec4_reflect in place does not keep the w
 component

---
 include/cglm/vec4.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index 56bef19..f71a5d2 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -1298,13 +1298,16 @@ glm_vec4_make(const float * __restrict src, vec4 dest) {
 CGLM_INLINE
 void
 glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
-  vec4 temp;
+  vec4  temp;
+  float w;
+
+  w = v[3];
 
   /* TODO: direct simd touch */
   glm_vec4_scale(n, 2.0f * glm_vec4_dot(v, n), temp);
   glm_vec4_sub(v, temp, dest);
 
-  dest[3] = v[3];
+  dest[3] = w;
 }
 
 /*!
-- 
2.43.0


From b38edc2e3d31f2571d1960fe29f77bef22bb327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 05/29] fix: glm_mat2_mulv gives a wrong result when dest is v

---
 include/cglm/mat2.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 5bec482..9d1990d 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -181,8 +181,10 @@ glm_mat2_mul(mat2 m1, mat2 m2, mat2 dest) {
 CGLM_INLINE
 void
 glm_mat2_mulv(mat2 m, vec2 v, vec2 dest) {
-  dest[0] = m[0][0] * v[0] + m[1][0] * v[1];
-  dest[1] = m[0][1] * v[0] + m[1][1] * v[1];
+  float v0 = v[0], v1 = v[1];
+
+  dest[0] = m[0][0] * v0 + m[1][0] * v1;
+  dest[1] = m[0][1] * v0 + m[1][1] * v1;
 }
 
 /*!
-- 
2.43.0


From d32e14f57d9da2de1fdc06ff71aa084bf7ec063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 06/29] fix: glm_rotated_at rotates around -pivot instead of
 pivot

---
 include/cglm/affine-post.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index 3e297e6..4ce8c82 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -222,9 +222,9 @@ glm_rotated_at(mat4 m, vec3 pivot, float angle, vec3 axis) {
 
   glm_vec3_negate_to(pivot, pivotInv);
 
-  glm_translated(m, pivot);
-  glm_rotated(m, angle, axis);
   glm_translated(m, pivotInv);
+  glm_rotated(m, angle, axis);
+  glm_translated(m, pivot);
 }
 
 /*!
-- 
2.43.0


From 43624bb0e15e3a73383b517d36dfc282deabcbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 07/29] fix: glm_spin moves the transform instead of only
 rotating it around itself

---
 include/cglm/affine-pre.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/affine-pre.h b/include/cglm/affine-pre.h
index 2fa77f7..232fa45 100644
--- a/include/cglm/affine-pre.h
+++ b/include/cglm/affine-pre.h
@@ -297,7 +297,7 @@ CGLM_INLINE
 void
 glm_spin(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
-  glm_rotate_atm(rot, m[3], angle, axis);
+  glm_rotate_make(rot, angle, axis);
   glm_mat4_mul(m, rot, m);
 }
 
-- 
2.43.0


From 35303a9a721ab3a880eb27625069611197e76c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 08/29] fix: glm_rotated* drop the translation of the transform
 they are applied to

---
 include/cglm/affine-post.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index 4ce8c82..f312618 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -130,7 +130,7 @@ glm_rotated_x(mat4 m, float angle, mat4 dest) {
   t[2][1] = -s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -157,7 +157,7 @@ glm_rotated_y(mat4 m, float angle, mat4 dest) {
   t[2][0] =  s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -184,7 +184,7 @@ glm_rotated_z(mat4 m, float angle, mat4 dest) {
   t[1][0] = -s;
   t[1][1] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -201,7 +201,7 @@ void
 glm_rotated(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
   glm_rotate_make(rot, angle, axis);
-  glm_mul_rot(rot, m, m);
+  glm_mul(rot, m, m);
 }
 
 /*!
-- 
2.43.0


From 5828a3bd37b091cd769772c32ad47d3fe1fa427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 09/29] fix: glm_quat_mat* scale by the norm instead of the
 squared norm, so only unit quaternions give rotations

---
 include/cglm/quat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cf1f325..02da3ae 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -487,7 +487,7 @@ glm_quat_mat4(versor q, mat4 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q);
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -534,7 +534,7 @@ glm_quat_mat4t(versor q, mat4 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q);
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -581,7 +581,7 @@ glm_quat_mat3(versor q, mat3 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q);
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -620,7 +620,7 @@ glm_quat_mat3t(versor q, mat3 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q);
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
-- 
2.43.0


From 0c17c9a70ad3847989595d5fa827c434477a0630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 10/29] fix: glm_quat_slerp falls back to lerp without the sign
 flip for nearly opposite quaternions

---
 include/cglm/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index 02da3ae..cb2ba69 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -730,7 +730,7 @@ glm_quat_slerp(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
-- 
2.43.0


From ccf4cc32c8d2e44dde95833e2a01db66adac8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/29] fix: glm_persp_decomp_x/y_lh_zo divide by the zero
 corner of the projection

---
 include/cglm/clipspace/persp_lh_zo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index de89643..339bc0f 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -250,7 +250,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   m00 = proj[0][0];
   m20 = proj[2][0];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *left   = nearZ * (m20 - 1.0f) / m00;
   *right  = nearZ * (m20 + 1.0f) / m00;
 }
@@ -275,7 +275,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
   m21 = proj[2][1];
   m11 = proj[1][1];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *bottom = nearZ * (m21 - 1) / m11;
   *top    = nearZ * (m21 + 1) / m11;
 }
-- 
2.43.0


From 91a759e7ec65de73264e96be2b0efdb69be730be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 12/29] fix: left-handed glm_frustum shifts an off-centre
 frustum the wrong way (and glm_persp_decomp mirrors it)

---
 include/cglm/clipspace/persp_lh_no.h | 12 ++++++------
 include/cglm/clipspace/persp_lh_zo.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_no.h b/include/cglm/clipspace/persp_lh_no.h
index d28923a..632ca0f 100644
--- a/include/cglm/clipspace/persp_lh_no.h
+++ b/include/cglm/clipspace/persp_lh_no.h
@@ -79,8 +79,8 @@ glm_frustum_lh_no(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-(farZ + nearZ) * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nv * fn;
@@ -201,8 +201,8 @@ glm_persp_decomp_lh_no(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -254,7 +254,7 @@ glm_persp_decomp_x_lh_no(mat4 proj,
   float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
   m22 =-proj[2][2];
 
   nearZ = proj[3][2] / (m22 - 1.0f);
@@ -279,7 +279,7 @@ glm_persp_decomp_y_lh_no(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11, m22;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
   m22 =-proj[2][2];
 
diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index 339bc0f..36ecb36 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -78,8 +78,8 @@ glm_frustum_lh_zo(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-farZ * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nearZ * fn;
@@ -197,8 +197,8 @@ glm_persp_decomp_lh_zo(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -248,7 +248,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   float nearZ, m20, m00;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
 
   nearZ = proj[3][2] / -proj[2][2];
   *left   = nearZ * (m20 - 1.0f) / m00;
@@ -272,7 +272,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
 
   nearZ = proj[3][2] / -proj[2][2];
-- 
2.43.0


From 70c20921b0a8f4439124fe84811afbc7d076598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 13/29] fix: left-handed glm_ortho_aabb* use the right-handed
 depth range of the box

---
 include/cglm/clipspace/ortho_lh_no.h | 6 +++---
 include/cglm/clipspace/ortho_lh_zo.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cglm/clipspace/ortho_lh_no.h b/include/cglm/clipspace/ortho_lh_no.h
index 76c7a94..9e9b8cf 100644
--- a/include/cglm/clipspace/ortho_lh_no.h
+++ b/include/cglm/clipspace/ortho_lh_no.h
@@ -83,7 +83,7 @@ void
 glm_ortho_aabb_lh_no(vec3 box[2], mat4 dest) {
   glm_ortho_lh_no(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                 box[0][2], box[1][2],
                   dest);
 }
 
@@ -103,7 +103,7 @@ void
 glm_ortho_aabb_p_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                box[0][2] - padding, box[1][2] + padding,
                   dest);
 }
 
@@ -123,7 +123,7 @@ void
 glm_ortho_aabb_pz_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                box[0][2] - padding, box[1][2] + padding,
                   dest);
 }
 
diff --git a/include/cglm/clipspace/ortho_lh_zo.h b/include/cglm/clipspace/ortho_lh_zo.h
index e45530d..e5c205a 100644
--- a/include/cglm/clipspace/ortho_lh_zo.h
+++ b/include/cglm/clipspace/ortho_lh_zo.h
@@ -81,7 +81,7 @@ void
 glm_ortho_aabb_lh_zo(vec3 box[2], mat4 dest) {
   glm_ortho_lh_zo(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                 box[0][2], box[1][2],
                   dest);
 }
 
@@ -100,7 +100,7 @@ void
 glm_ortho_aabb_p_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                box[0][2] - padding, box[1][2] + padding,
                   dest);
 }
 
@@ -119,7 +119,7 @@ void
 glm_ortho_aabb_pz_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                box[0][2] - padding, box[1][2] + padding,
                   dest);
 }
 
-- 
2.43.0


From 304506c7b52142b5ccd4d63ec543c77d0eef016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 14/29] fix: glm_aabb_sphere and glm_aabb2d_circle measure from
 the far face when the centre is below the box

---
 include/cglm/aabb2d.h | 4 ++--
 include/cglm/box.h    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 6369d08..03c6773 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -235,8 +235,8 @@ glm_aabb2d_circle(vec2 aabb[2], vec3 c) {
   a = (c[0] < aabb[0][0]) + (c[0] > aabb[1][0]);
   b = (c[1] < aabb[0][1]) + (c[1] > aabb[1][1]);
 
-  dmin  = glm_pow2((c[0] - aabb[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((c[1] - aabb[!(b - 1)][1]) * (b != 0));
+  dmin  = glm_pow2((c[0] - aabb[c[0] > aabb[1][0]][0]) * (a != 0))
+        + glm_pow2((c[1] - aabb[c[1] > aabb[1][1]][1]) * (b != 0));
 
   return dmin <= glm_pow2(c[2]);
 }
diff --git a/include/cglm/box.h b/include/cglm/box.h
index 8bba678..a56909b 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -243,9 +243,9 @@ glm_aabb_sphere(vec3 box[2], vec4 s) {
   b = (s[1] < box[0][1]) + (s[1] > box[1][1]);
   c = (s[2] < box[0][2]) + (s[2] > box[1][2]);
 
-  dmin  = glm_pow2((s[0] - box[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((s[1] - box[!(b - 1)][1]) * (b != 0))
-        + glm_pow2((s[2] - box[!(c - 1)][2]) * (c != 0));
+  dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))
+        + glm_pow2((s[1] - box[s[1] > box[1][1]][1]) * (b != 0))
+        + glm_pow2((s[2] - box[s[2] > box[1][2]][2]) * (c != 0));
 
   return dmin <= glm_pow2(s[3]);
 }
-- 
2.43.0


From 6d21d89253f347d7873fa997127fbade4510b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 15/29] fix: glm_ray_sphere gives NaN for a ray that starts on
 the sphere and only touches it

---
 include/cglm/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ray.h b/include/cglm/ray.h
index d7831bc..21decd9 100644
--- a/include/cglm/ray.h
+++ b/include/cglm/ray.h
@@ -134,7 +134,7 @@ glm_ray_sphere(vec3 origin,
      "Numerical Recipes in C," Cambridge University Press, 1992.
    */
   _t1 = q;
-  _t2 = (dpp - r2) / q;
+  _t2 = q != 0.0f ? (dpp - r2) / q : 0.0f;
 
   /* adjust t1 and t2 to ensure t1 is the closer intersection */
   if (_t1 > _t2) {
-- 
2.43.0


From 2c2e4c9b37ff721f8feef06ef4da9ddc4cf9d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 16/29] fix: glm_aabb_crop_until overwrites the clamp box
 before reading it when dest is clampBox

---
 include/cglm/aabb2d.h | 6 ++++--
 include/cglm/box.h    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 03c6773..1a2bdf7 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -131,8 +131,10 @@ glm_aabb2d_crop_until(vec2 aabb[2],
                       vec2 cropAabb[2],
                       vec2 clampAabb[2],
                       vec2 dest[2]) {
-  glm_aabb2d_crop(aabb, cropAabb, dest);
-  glm_aabb2d_merge(clampAabb, dest, dest);
+  vec2 cropped[2];
+
+  glm_aabb2d_crop(aabb, cropAabb, cropped);
+  glm_aabb2d_merge(clampAabb, cropped, dest);
 }
 
 /*!
diff --git a/include/cglm/box.h b/include/cglm/box.h
index a56909b..00d26c4 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -113,8 +113,10 @@ glm_aabb_crop_until(vec3 box[2],
                     vec3 cropBox[2],
                     vec3 clampBox[2],
                     vec3 dest[2]) {
-  glm_aabb_crop(box, cropBox, dest);
-  glm_aabb_merge(clampBox, dest, dest);
+  vec3 cropped[2];
+
+  glm_aabb_crop(box, cropBox, cropped);
+  glm_aabb_merge(clampBox, cropped, dest);
 }
 
 /*!
-- 
2.43.0


From c2500bcc97d3a36b600fb7401283010dc7ccdf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 17/29] fix: glm_ease_bounce_inout starts at 0.5 and jumps at t
 = 0.5

---
 include/cglm/ease.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ease.h b/include/cglm/ease.h
index e26b48c..a833341 100644
--- a/include/cglm/ease.h
+++ b/include/cglm/ease.h
@@ -309,7 +309,7 @@ CGLM_INLINE
 float
 glm_ease_bounce_inout(float t) {
   if (t < 0.5f)
-    return 0.5f * (1.0f - glm_ease_bounce_out(t * 2.0f));
+    return 0.5f * (1.0f - glm_ease_bounce_out(1.0f - t * 2.0f));
 
   return 0.5f * glm_ease_bounce_out(t * 2.0f - 1.0f) + 0.5f;
 }
-- 
2.43.0


From 957d928121fc5e730a9cc96fb8dc56bcce1c958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 18/29] fix: glm_mat*_transpose_to in place (dest is m, as
 documented) is wrong in the paths without SIMD

---
 include/cglm/mat2.h |  6 ++++--
 include/cglm/mat3.h | 16 ++++++++++------
 include/cglm/mat4.h | 21 +++++++++++++--------
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 9d1990d..4f7e69a 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -201,9 +201,11 @@ glm_mat2_transpose_to(mat2 mat, mat2 dest) {
 #elif defined( __SSE__ ) || defined( __SSE2__ )
   glm_mat2_transp_sse2(mat, dest);
 #else
+  float a01 = mat[0][1], a10 = mat[1][0];
+
   dest[0][0] = mat[0][0];
-  dest[0][1] = mat[1][0];
-  dest[1][0] = mat[0][1];
+  dest[0][1] = a10;
+  dest[1][0] = a01;
   dest[1][1] = mat[1][1];
 #endif
 }
diff --git a/include/cglm/mat3.h b/include/cglm/mat3.h
index 10b373e..3c1f7ac 100644
--- a/include/cglm/mat3.h
+++ b/include/cglm/mat3.h
@@ -190,14 +190,18 @@ glm_mat3_mul(mat3 m1, mat3 m2, mat3 dest) {
 CGLM_INLINE
 void
 glm_mat3_transpose_to(mat3 m, mat3 dest) {
+  float a01 = m[0][1], a02 = m[0][2],
+        a10 = m[1][0], a12 = m[1][2],
+        a20 = m[2][0], a21 = m[2][1];
+
   dest[0][0] = m[0][0];
-  dest[0][1] = m[1][0];
-  dest[0][2] = m[2][0];
-  dest[1][0] = m[0][1];
+  dest[0][1] = a10;
+  dest[0][2] = a20;
+  dest[1][0] = a01;
   dest[1][1] = m[1][1];
-  dest[1][2] = m[2][1];
-  dest[2][0] = m[0][2];
-  dest[2][1] = m[1][2];
+  dest[1][2] = a21;
+  dest[2][0] = a02;
+  dest[2][1] = a12;
   dest[2][2] = m[2][2];
 }
 
diff --git a/include/cglm/mat4.h b/include/cglm/mat4.h
index c3fe7fd..2fdb350 100644
--- a/include/cglm/mat4.h
+++ b/include/cglm/mat4.h
@@ -528,14 +528,19 @@ glm_mat4_transpose_to(mat4 m, mat4 dest) {
 #elif defined(CGLM_NEON_FP)
   glm_mat4_transp_neon(m, dest);
 #else
-  dest[0][0] = m[0][0]; dest[1][0] = m[0][1];
-  dest[0][1] = m[1][0]; dest[1][1] = m[1][1];
-  dest[0][2] = m[2][0]; dest[1][2] = m[2][1];
-  dest[0][3] = m[3][0]; dest[1][3] = m[3][1];
-  dest[2][0] = m[0][2]; dest[3][0] = m[0][3];
-  dest[2][1] = m[1][2]; dest[3][1] = m[1][3];
-  dest[2][2] = m[2][2]; dest[3][2] = m[2][3];
-  dest[2][3] = m[3][2]; dest[3][3] = m[3][3];
+  float a01 = m[0][1], a02 = m[0][2], a03 = m[0][3],
+        a10 = m[1][0], a12 = m[1][2], a13 = m[1][3],
+        a20 = m[2][0], a21 = m[2][1], a23 = m[2][3],
+        a30 = m[3][0], a31 = m[3][1], a32 = m[3][2];
+
+  dest[0][0] = m[0][0]; dest[1][0] = a01;
+  dest[0][1] = a10;     dest[1][1] = m[1][1];
+  dest[0][2] = a20;     dest[1][2] = a21;
+  dest[0][3] = a30;     dest[1][3] = a31;
+  dest[2][0] = a02;     dest[3][0] = a03;
+  dest[2][1] = a12;     dest[3][1] = a13;
+  dest[2][2] = m[2][2]; dest[3][2] = a23;
+  dest[2][3] = a32;     dest[3][3] = m[3][3];
 #endif
 }
 
-- 
2.43.0


From a2deac54c32e8d548d58b6806c77c39d501496f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 19/29] fix: glm_quat_mul in place is wrong in builds without
 SIMD

---
 include/cglm/quat.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cb2ba69..191f435 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -466,10 +466,17 @@ glm_quat_mul(versor p, versor q, versor dest) {
 #elif defined(CGLM_NEON_FP)
   glm_quat_mul_neon(p, q, dest);
 #else
-  dest[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
-  dest[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
-  dest[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
-  dest[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+  float x, y, z, w;
+
+  x = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
+  y = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
+  z = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
+  w = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+
+  dest[0] = x;
+  dest[1] = y;
+  dest[2] = z;
+  dest[3] = w;
 #endif
 }
 
-- 
2.43.0


From 57e2e2d7ce3df8245847c3ddce8d208e48842a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 20/29] fix: glm_vec3_ortho returns the zero vector for some
 nonzero vectors, e.g. (1, 0, 2)

---
 include/cglm/vec3.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cglm/vec3.h b/include/cglm/vec3.h
index 1350818..765ee23 100644
--- a/include/cglm/vec3.h
+++ b/include/cglm/vec3.h
@@ -922,9 +922,15 @@ glm_vec3_minv(vec3 a, vec3 b, vec3 dest) {
 CGLM_INLINE
 void
 glm_vec3_ortho(vec3 v, vec3 dest) {
-  float ignore;
-  float f      = modff(fabsf(v[0]) + 0.5f, &ignore);
-  vec3  result = {-v[1], v[0] - f * v[2], f * v[1]};
+  vec3 result = {0.0f, -v[2], v[1]};
+
+  /* drop the smaller one of x and z, the result is zero only if v is zero */
+  if (fabsf(v[0]) > fabsf(v[2])) {
+    result[0] = -v[1];
+    result[1] =  v[0];
+    result[2] =  0.0f;
+  }
+
   glm_vec3_copy(result, dest);
 }
 
-- 
2.43.0


From 8b1389cc431ef3bc4c3ea2bf2debaccf618779a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 21/29] fix: glms_pickmatrix returns an uninitialised matrix
 for an empty pick region

---
 include/cglm/struct/project.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/project.h b/include/cglm/struct/project.h
index 8383c77..2e423a9 100644
--- a/include/cglm/struct/project.h
+++ b/include/cglm/struct/project.h
@@ -154,7 +154,7 @@ glms_project_z(vec3s v, mat4s m) {
 CGLM_INLINE
 mat4s
 glms_pickmatrix(vec2s center, vec2s size, vec4s vp) {
-  mat4s res;
+  mat4s res = GLMS_MAT4_IDENTITY_INIT;
   glm_pickmatrix(center.raw, size.raw, vp.raw, res.raw);
   return res;
 }
-- 
2.43.0


From df55228f08aa9de8219dba76417bbae69967d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 22/29] fix: matrix print helpers choose the format of an
 element by the magnitude of its transpose

---
 include/cglm/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index baa80f1..33c5d31 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -143,7 +143,7 @@ glm_mat4_print(mat4              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -186,7 +186,7 @@ glm_mat3_print(mat3              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -228,7 +228,7 @@ glm_mat2_print(mat2              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
-- 
2.43.0


From c11060b065cd7debd5a7d7b27c09bbc2236e704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 23/29] fix: glms_vec2_min, glms_vec2_isvalid and the step_uni
 names ignore the struct API namespace options

---
 include/cglm/struct/vec2-ext.h | 4 ++--
 include/cglm/struct/vec3.h     | 2 +-
 include/cglm/struct/vec4.h     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/struct/vec2-ext.h b/include/cglm/struct/vec2-ext.h
index 246132f..12c62ff 100644
--- a/include/cglm/struct/vec2-ext.h
+++ b/include/cglm/struct/vec2-ext.h
@@ -134,7 +134,7 @@ glms_vec2_(max)(vec2s v) {
  */
 CGLM_INLINE
 float
-glms_vec2_min(vec2s v) {
+glms_vec2_(min)(vec2s v) {
   return glm_vec2_min(v.raw);
 }
 
@@ -170,7 +170,7 @@ glms_vec2_(isinf)(vec2s v) {
  */
 CGLM_INLINE
 bool
-glms_vec2_isvalid(vec2s v) {
+glms_vec2_(isvalid)(vec2s v) {
   return glm_vec2_isvalid(v.raw);
 }
 
diff --git a/include/cglm/struct/vec3.h b/include/cglm/struct/vec3.h
index a1d901e..b94bbe2 100644
--- a/include/cglm/struct/vec3.h
+++ b/include/cglm/struct/vec3.h
@@ -98,7 +98,7 @@
 #include "vec3-ext.h"
 
 /* DEPRECATED! */
-#define glms_vec3_step_uni(edge, x) glms_vec3_steps(edge, x)
+#define glms_vec3_step_uni(edge, x) glms_vec3_(steps)(edge, x)
 
 #define GLMS_VEC3_ONE_INIT   {GLM_VEC3_ONE_INIT}
 #define GLMS_VEC3_ZERO_INIT  {GLM_VEC3_ZERO_INIT}
diff --git a/include/cglm/struct/vec4.h b/include/cglm/struct/vec4.h
index a64c1a3..7b973db 100644
--- a/include/cglm/struct/vec4.h
+++ b/include/cglm/struct/vec4.h
@@ -83,7 +83,7 @@
 #include "vec4-ext.h"
 
 /* DEPRECATED! */
-#define glms_vec4_step_uni(edge, x) glms_vec4_steps(edge, x)
+#define glms_vec4_step_uni(edge, x) glms_vec4_(steps)(edge, x)
 
 #define GLMS_VEC4_ONE_INIT   {GLM_VEC4_ONE_INIT}
 #define GLMS_VEC4_BLACK_INIT {GLM_VEC4_BLACK_INIT}
-- 
2.43.0


From 6b2162b08176b46c145c9465cf51a091a30e43f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 24/29] fix: glmc_vec3_step_uni expands to two statements

---
 include/cglm/call/vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/call/vec3.h b/include/cglm/call/vec3.h
index 640fac7..a66d1fb 100644
--- a/include/cglm/call/vec3.h
+++ b/include/cglm/call/vec3.h
@@ -19,7 +19,7 @@ extern "C" {
 #define glmc_vec3_flipsign_to(v, dest) glmc_vec3_negate_to(v, dest)
 #define glmc_vec3_inv(v)               glmc_vec3_negate(v)
 #define glmc_vec3_inv_to(v, dest)      glmc_vec3_negate_to(v, dest)
-#define glmc_vec3_step_uni(edge, x, dest) glmc_vec3_steps(edge, x, dest);
+#define glmc_vec3_step_uni(edge, x, dest) glmc_vec3_steps(edge, x, dest)
 
 CGLM_EXPORT
 void
-- 
2.43.0


From 414e4f1fb773aea7557b05e21f9fdd4a651398e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 25/29] fix: mat4 and mat4s stay over-aligned under
 CGLM_ALL_UNALIGNED

---
 include/cglm/types-struct.h | 2 +-
 include/cglm/types.h        | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cglm/types-struct.h b/include/cglm/types-struct.h
index d93152e..06cd4c6 100644
--- a/include/cglm/types-struct.h
+++ b/include/cglm/types-struct.h
@@ -261,7 +261,7 @@ typedef union mat3x4s {
 #endif
 } mat3x4s;
 
-typedef union CGLM_ALIGN_MAT mat4s {
+typedef union CGLM_ALIGN_MAT_IF mat4s {
   mat4  raw;
   vec4s col[4];
 #if CGLM_USE_ANONYMOUS_STRUCT
diff --git a/include/cglm/types.h b/include/cglm/types.h
index 7a482c0..78eea17 100644
--- a/include/cglm/types.h
+++ b/include/cglm/types.h
@@ -37,6 +37,12 @@
 #  define CGLM_ALIGN_MAT CGLM_ALIGN(16)
 #endif
 
+#ifndef CGLM_ALL_UNALIGNED
+#  define CGLM_ALIGN_MAT_IF CGLM_ALIGN_MAT
+#else
+#  define CGLM_ALIGN_MAT_IF /* no alignment */
+#endif
+
 #ifndef CGLM_HAVE_BUILTIN_ASSUME_ALIGNED
 
 #  if defined(__has_builtin)
@@ -87,7 +93,7 @@ typedef vec4                    mat3x4[3];  /* [col (3), row (4)] */
 typedef CGLM_ALIGN_IF(16) vec2  mat2[2];
 typedef vec3                    mat2x3[2];  /* [col (2), row (3)] */
 typedef vec4                    mat2x4[2];  /* [col (2), row (4)] */
-typedef CGLM_ALIGN_MAT    vec4  mat4[4];
+typedef CGLM_ALIGN_MAT_IF vec4  mat4[4];
 typedef vec2                    mat4x2[4];  /* [col (4), row (2)] */
 typedef vec3                    mat4x3[4];  /* [col (4), row (3)] */
 
-- 
2.43.0


From 64a6fad0a1fef6e25f78b2fc3b5f2b0cd3f5995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:29 +0000
Subject: [PATCH 26/29] fix: GLM_2_SQRTTAUf is sqrt(tau) instead of 2/sqrt(tau)

---
 include/cglm/types.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cglm/types.h b/include/cglm/types.h
index 78eea17..48ebaa2 100644
--- a/include/cglm/types.h
+++ b/include/cglm/types.h
@@ -118,6 +118,7 @@ typedef vec3                    mat4x3[4];  /* [col (4), row (3)] */
 #define GLM_1_TAU     0.159154943091895335768883763372514362  /* 1/tau       */
 #define GLM_2_TAU     0.318309886183790671537767526745028724  /* 2/tau       */
 #define GLM_2_SQRTPI  1.12837916709551257389615890312154517   /* 2/sqrt(pi)  */
+#define GLM_2_SQRTTAU 0.797884560802865355879892119868763737  /* 2/sqrt(tau) */
 #define GLM_SQRTTAU   2.506628274631000502415765284811045253  /* sqrt(tau)   */
 #define GLM_SQRT2     1.41421356237309504880168872420969808   /* sqrt(2)     */
 #define GLM_SQRT1_2   0.707106781186547524400844362104849039  /* 1/sqrt(2)   */
@@ -138,7 +139,8 @@ typedef vec3                    mat4x3[4];  /* [col (4), row (3)] */
 #define GLM_1_TAUf     ((float)GLM_1_TAU)
 #define GLM_2_TAUf     ((float)GLM_2_TAU)
 #define GLM_2_SQRTPIf  ((float)GLM_2_SQRTPI)
-#define GLM_2_SQRTTAUf ((float)GLM_SQRTTAU)
+#define GLM_2_SQRTTAUf ((float)GLM_2_SQRTTAU)
+#define GLM_SQRTTAUf   ((float)GLM_SQRTTAU)
 #define GLM_SQRT2f     ((float)GLM_SQRT2)
 #define GLM_SQRT1_2f   ((float)GLM_SQRT1_2)
 
-- 
2.43.0


From 79d61600d2808001aea586ff379aafbf88aa0211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:27 +0000
Subject: [PATCH 27/29] fix: glmm_load3 and glmm_store3 do not claim an
 alignment a vec3 lacks

A float[3] is only aligned as a float, but both told the compiler
(__builtin_assume_aligned) that it is aligned as __m128i or __m64.
The instructions used need no alignment.
---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index 2410d0f..1106adf 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -252,7 +252,7 @@ glmm_load3(float v[3]) {
   __m128i xy;
   __m128  z;
 
-  xy = _mm_loadl_epi64(CGLM_CASTPTR_ASSUME_ALIGNED(v, const __m128i));
+  xy = _mm_loadl_epi64((const __m128i *)(const void *)v);
   z  = _mm_load_ss(&v[2]);
 
   return _mm_movelh_ps(_mm_castsi128_ps(xy), z);
@@ -261,7 +261,7 @@ glmm_load3(float v[3]) {
 static inline
 void
 glmm_store3(float v[3], __m128 vx) {
-  _mm_storel_pi(CGLM_CASTPTR_ASSUME_ALIGNED(v, __m64), vx);
+  _mm_storel_pi((__m64 *)(void *)v, vx);
   _mm_store_ss(&v[2], glmm_shuff1(vx, 2, 2, 2, 2));
 }
 #endif
-- 
2.43.0


From 01082abf6f8c342aaade638ad3e8629a9d719933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:27 +0000
Subject: [PATCH 28/29] fix: glmm256_fnmsub computes -(a * b) - c

With FMA it returned a * b - c, without it c - a * b; the 128-bit
glmm_fnmsub of every instruction set returns -(a * b) - c.
---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index 1106adf..d68757c 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -353,9 +353,9 @@ static inline
 __m256
 glmm256_fnmsub(__m256 a, __m256 b, __m256 c) {
 #ifdef __FMA__
-  return _mm256_fmsub_ps(a, b, c);
+  return _mm256_fnmsub_ps(a, b, c);
 #else
-  return _mm256_xor_ps(_mm256_sub_ps(_mm256_mul_ps(a, b), c),
+  return _mm256_xor_ps(_mm256_add_ps(_mm256_mul_ps(a, b), c),
                        glmm_float32x8_SIGNMASK_NEG);
 #endif
 }
-- 
2.43.0


From d084add5cdfb536b44696b77223cfcf8397744cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 29/29] fix: glm_sign of INT_MIN is -1

-val overflowed (undefined behaviour, in practice the result was 0).
---
 include/cglm/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/util.h b/include/cglm/util.h
index 8c5f2cb..96a1988 100644
--- a/include/cglm/util.h
+++ b/include/cglm/util.h
@@ -48,7 +48,7 @@
 CGLM_INLINE
 int
 glm_sign(int val) {
-  return ((val >> 31) - (-val >> 31));
+  return (val > 0) - (val < 0);
 }
 
 /*!
-- 
2.43.0

