From 3b5c82b154b576f141db1ae3077d28cdcf9905c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 01/16] fix: t2mat modified the caller's row axes and refused
 tuples

With an integer c_axis, t2mat appended to the r_axis list it was given, so a
second call with the same list failed; and the tuples mul documents for its
axes raised TypeError.
---
 tensorD/base/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 1e22183..fcb9f83 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -151,7 +151,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies = [r_axis]
             row_size = tensor.get_shape()[r_axis].value
         else:
-            indies = r_axis
+            indies = list(r_axis)
             row_size = np.prod([tensor.get_shape()[i].value for i in r_axis])
         if c_axis == -1:
             c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]
@@ -159,7 +159,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies.append(c_axis)
             col_size = tensor.get_shape()[c_axis].value
         else:
-            indies = indies + c_axis
+            indies = indies + list(c_axis)
             col_size = np.prod([tensor.get_shape()[i].value for i in c_axis])
         return tf.reshape(tf.transpose(tensor, indies), (int(row_size), int(col_size)))
 
-- 
2.43.0


From 2e2b0fe04ac5f5d9c645de47636c87c3a291314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 02/16] fix: KTensor weights take the element type of the
 factors

Numpy factors become float32 while weights kept their own type, and default
weights were float32 whatever the factors, so extract() raised TypeError.
---
 tensorD/base/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 155403d..7e3dbac 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -140,7 +140,7 @@ class KTensor(object):
         # Note that the shape of lambdas must be (x, 1).
         # The dimension of "1" should not be ignored!!
         if lambdas is None:
-            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=tf.float32)
+            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=self.U[0].dtype.base_dtype)
         else:
             if isinstance(lambdas, np.ndarray):
                 self.lambdas = tf.constant(lambdas)
@@ -148,6 +148,7 @@ class KTensor(object):
                 self.lambdas = lambdas
             if self.lambdas.get_shape().ndims == 1:
                 self.lambdas = tf.expand_dims(self.lambdas, -1)
+            self.lambdas = tf.cast(self.lambdas, self.U[0].dtype.base_dtype)
 
 
         self.order = len(self.U)
-- 
2.43.0


From 2228fb60482047acf88764a1ff6ed488af2a0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 03/16] fix: DTensor.unfold returned the first unfolded mode
 for every later mode

The cached unfolding was returned whatever mode was asked for.
---
 tensorD/base/type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 7e3dbac..232a2ab 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -48,8 +48,7 @@ class DTensor(object):
         return DTensor(ops.mul(self.T, tensor.T, a_axis, b_axis))
 
     def unfold(self, mode=0):
-        if self.unfold_T is None:
-            self.unfold_T = ops.unfold(self.T, mode)
+        self.unfold_T = ops.unfold(self.T, mode)
         return DTensor(self.unfold_T)
 
     def t2mat(self, r_axis, c_axis):
-- 
2.43.0


From 388e2365bd0f23b26fbe73c35f1d2a3e3e61d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 04/16] fix: predict raised ValueError on every trained CP, NCP
 and NTucker model

'not' of an array with several elements is ambiguous.
---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 6d58305..54b2500 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -44,7 +44,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = None
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f67095e..70cc8cc 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -41,7 +41,7 @@ class NCP_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 00d3548..09ec454 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -42,7 +42,7 @@ class NTUCKER_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
-- 
2.43.0


From 91bb890ae26d3935a387a904f52d7dd651504a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 05/16] fix: predict of untrained HOSVD and HOOI raises
 TensorErr like the other models

---
 tensorD/factorization/tucker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 3d2a49a..7a14333 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -85,6 +85,8 @@ class HOSVD(BaseFact):
         self._is_train_finish = True
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
@@ -190,6 +192,8 @@ class HOOI(BaseFact):
         return self._full_tensor
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
-- 
2.43.0


From 0e7446e473ec76a6072cf9acbb6934f30ef2a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 06/16] fix: full tensor was stale when training stopped at a
 step that is not reported

---
 tensorD/factorization/cp.py      | 4 ++--
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 4 ++--
 tensorD/factorization/tucker.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 54b2500..84b76f3 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -155,8 +155,8 @@ class CP_ALS(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._lambdas, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, loss_op, obj_op, rel_res_op],
-                                                                feed_dict=self._feed_dict)
+                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res = sess.run(
+                    [factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 70cc8cc..5140844 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -207,8 +207,8 @@ class NCP_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 09ec454..f66aac1 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -242,8 +242,8 @@ class NTUCKER_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 7a14333..37d40cd 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -238,8 +238,8 @@ class HOOI(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._core, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, loss_op, obj_op, rel_res_op],
-                                                             feed_dict=self._feed_dict)
+                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run(
+                    [full_op, factor_update_op, core_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
-- 
2.43.0


From e6e33ecde50578c0527032f44c7ef106c923245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 07/16] fix: CP_ALS and HOOI compared every objective with the
 one of the first step

---
 tensorD/factorization/cp.py     | 1 +
 tensorD/factorization/tucker.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 84b76f3..8b6f030 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -170,6 +170,7 @@ class CP_ALS(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
 
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 37d40cd..2469f07 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -253,6 +253,7 @@ class HOOI(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
-- 
2.43.0


From ca0fc801125ef78b054f952d82ab0bf0e983abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 08/16] fix: HOOI kept train_finish set while it was trained
 again

---
 tensorD/factorization/tucker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 2469f07..8a5c981 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -209,6 +209,7 @@ class HOOI(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
         sess = self._env.sess
         args = self._args
 
-- 
2.43.0


From 4bd13e0ed0e2f5a2c8cd1210d522c1fa2be25e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 09/16] fix: PITF shrink multiplied by V instead of its
 transpose

---
 tensorD/base/pitf_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 6d3e7fa..8711b5e 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -650,14 +650,14 @@ def shrink(mat, tao, mode='normal'):
     # print('shrink s2d done.')
     if mode == 'normal':
         print('shrink normal')
-        return tf.matmul(tf.matmul(u, sm), v)
+        return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
         vecr1 = tf.ones((shape[0], 1))
         vecr2 = tf.ones((shape[1], 1))
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
-        tmp1 = tf.matmul(tf.matmul(u, sm), v)
+        tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
                 +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
-- 
2.43.0


From d9c99a53fdb5fa05509efff7e703b7a3e75cbbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 10/16] fix: PITF adjoint_operator failed for dim=2

---
 tensorD/base/pitf_ops.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 8711b5e..01459a1 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -414,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         indices = tf.cast(indices, dtype=tf.int64)
         values = tf.cast(values, dtype=sample_vec.dtype)
         shape_t = tf.cast(shape, dtype=tf.int64)
-        shape_t_re = shape_t[::-1]
-        mat_shape = shape_t_re[0:3:2]
+        mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         delta = tf.SparseTensor(indices, values, mat_shape)
         dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
-- 
2.43.0


From 476c4810320505f64a7889a17bed58c4e1160d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 11/16] fix: PITF cone_projection_operator used tensors as
 Python booleans

---
 tensorD/base/pitf_ops.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 01459a1..5e750a1 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -545,13 +545,13 @@ def cone_projection_operator(x, t):
     >>> tf.Session().run(t1)
     """
     norm_x = tf.norm(x, ord='euclidean')
-    if norm_x <= t:
-        return x, t
-    if t <= tf.negative(norm_x):
-        return 0, 0
-    if t >= tf.negative(norm_x) and t <= norm_x:
-        tmp = (norm_x + t)/(2 * norm_x)
-        return tmp*x, tmp*norm_x
+    t = tf.cast(t, dtype=norm_x.dtype)
+    tmp = (norm_x + t)/(2 * norm_x)
+    inside = norm_x <= t
+    polar = t <= tf.negative(norm_x)
+    new_x = tf.where(inside, x, tf.where(polar, tf.zeros_like(x), tmp*x))
+    new_t = tf.where(inside, t, tf.where(polar, tf.zeros_like(t), tmp*norm_x))
+    return new_x, new_t
 
 
 def SVT(mat, tao):
-- 
2.43.0


From 5cc3f36f6c3713ed7c9b428980274ddb3e94baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 12/16] fix: PITF drew a new sample at every training step

---
 tensorD/factorization/pitf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 1273ce8..fa4921f 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -45,7 +45,8 @@ class PITF(BaseFact):
                           name='tao')
         y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')
         a, b, c = pitf_ops.sample3D_rule(shape, spn)  # sample list
-        spl = [a, b, c]
+        # hold one sample for the whole training, the random ops draw anew in each run
+        spl = [tf.Variable(idx, trainable=False) for idx in (a, b, c)]
         # # degree pf freedom
         # fd = r*(shape[0]+shape[1]-r)+r*(shape[1]+shape[2]-r) + \
         #      r*(shape[2]+shape[0]-r)
-- 
2.43.0


From c0db074e2c065a775d9333d0209e463720170b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 13/16] fix: training a model evaluated the summaries of every
 model in the graph

---
 tensorD/factorization/cp.py      |  7 ++++---
 tensorD/factorization/ncp.py     |  7 ++++---
 tensorD/factorization/ntucker.py |  7 ++++---
 tensorD/factorization/pitf.py    |  7 ++++---
 tensorD/factorization/tucker.py  | 12 +++++++-----
 5 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 8b6f030..a25c1e9 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -106,8 +106,8 @@ class CP_ALS(BaseFact):
         with tf.name_scope('objective-value') as scope:
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -115,6 +115,7 @@ class CP_ALS(BaseFact):
         self._init_op = init_op
         self._lambda_op = lambda_op
         self._full_op = full_op
+        self._sum_op = sum_op
         self._factor_update_op = assign_op
         self._loss_op = loss_op
         self._obj_op = obj_op
@@ -137,7 +138,7 @@ class CP_ALS(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 5140844..95d1201 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -152,8 +152,8 @@ class NCP_BCU(BaseFact):
             with tf.control_dependencies([Am_update_op1[order - 1]]):
                 t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -165,6 +165,7 @@ class NCP_BCU(BaseFact):
         self._train_op2 = tf.group(*Am_update_op2)
         self._factor_update_op = A_update_op
         self._full_op = full_op
+        self._sum_op = sum_op
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
@@ -187,7 +188,7 @@ class NCP_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index f66aac1..cff255b 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -181,8 +181,8 @@ class NTUCKER_BCU(BaseFact):
         with tf.control_dependencies([Am_update_op1[order - 1]]):
             t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -197,6 +197,7 @@ class NTUCKER_BCU(BaseFact):
                                    t0_update_op1)
         self._train_op2 = tf.group(*Am_update_op2, gm_update_op2)
         self._full_op = full_op
+        self._sum_op = sum_op
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
@@ -221,7 +222,7 @@ class NTUCKER_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index fa4921f..a45f896 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -93,14 +93,15 @@ class PITF(BaseFact):
             y_new = y + delt*e
             sample_vector_update_op = y.assign(y_new)
 
-        tf.summary.scalar('error rate', erate_op)
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('error rate', erate_op),
+                                   tf.summary.scalar('loss', loss_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
         self._erate_op = erate_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._sample_vector_update_op = sample_vector_update_op
         self._init_op = init_op
         self._e = e
@@ -124,7 +125,7 @@ class PITF(BaseFact):
         e1 = self._e1
         e2 = self._e2
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 8a5c981..37bb3d8 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -44,11 +44,12 @@ class HOSVD(BaseFact):
         with tf.name_scope('loss') as scope:
             loss_op = rmse_ignore_zero(input_data, full_op)
 
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op)])
 
         self._args = args
         self._init_op = init_op
         self._full_op = full_op
+        self._sum_op = sum_op
         self._factor_update_op = A
         self._core_op = g
         self._loss_op = loss_op
@@ -67,7 +68,7 @@ class HOSVD(BaseFact):
         self._is_train_finish = False
         sess = self._env.sess
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
@@ -175,12 +176,13 @@ class HOOI(BaseFact):
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         self._args = args
         self._init_op = init_op
         self._full_op = full_op
+        self._sum_op = sum_op
         self._factor_update_op = assign_op
         self._core_op = g
         self._loss_op = loss_op
@@ -222,7 +224,7 @@ class HOOI(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
-- 
2.43.0


From 0931e2a9cb0182f82ee9e1e324e53730c9b0346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 14/16] fix: first step of NCP and NTucker was rejected when
 the objective exceeds 2^24

---
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 95d1201..6d9b5d4 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -212,7 +212,7 @@ class NCP_BCU(BaseFact):
                     [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
-                obj0 = obj + 1
+                obj0 = np.float64(obj) + 1
             hist.append([loss_v, rel_res])
 
             relerr1 = abs(obj - obj0) / (obj0 + 1)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index cff255b..b39c932 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -247,7 +247,7 @@ class NTUCKER_BCU(BaseFact):
                     [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
-                obj0 = obj + 1
+                obj0 = np.float64(obj) + 1
 
             relerr1 = abs(obj - obj0) / (obj0 + 1)
             relerr2 = rel_res
-- 
2.43.0


From b4d2ea3d522617f26789e208a0aef4ff20e38c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 15/16] fix: rmse_ignore_zero was NaN when the hypothesis held
 an infinity or NaN at an ignored position

---
 tensorD/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/loss.py b/tensorD/loss.py
index 1568e12..ee096cb 100644
--- a/tensorD/loss.py
+++ b/tensorD/loss.py
@@ -83,6 +83,6 @@ def rmse_ignore_zero(A, B):
     with tf.name_scope('RMSE-ignore-zero') as scope:
         if A.get_shape() != B.get_shape():
             raise TensorErr('the shape of tensor A and B must be equal')
-        B = B * tf.cast(tf.not_equal(A, 0), B.dtype)
+        B = tf.where(tf.not_equal(A, 0), B, tf.zeros_like(B))
         diff_tensor = tf.subtract(A, B)
         return tf.sqrt(tf.reduce_sum(tf.square(diff_tensor)) / tf.reduce_sum(tf.cast(tf.not_equal(A, 0), B.dtype)))
-- 
2.43.0


From f09d2130a9399974595f90e4fb43f12efea6be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:35 +0000
Subject: [PATCH 16/16] fix: accept a numpy array as the full shape of a reader

---
 tensorD/dataproc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/dataproc/reader.py b/tensorD/dataproc/reader.py
index 43afc39..10b8605 100644
--- a/tensorD/dataproc/reader.py
+++ b/tensorD/dataproc/reader.py
@@ -49,7 +49,7 @@ class TensorReader(object):
             idx[row] = np.array([int(entry[mode]) for mode in range(order)])
             value[row] = float(entry[-1])
 
-        if full_shape==None:
+        if full_shape is None:
             max_dim = np.max(idx, axis=0) + np.ones(order).astype(int)
         else:
             max_dim = full_shape
-- 
2.43.0

