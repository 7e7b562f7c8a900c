From a8bf32c85181789a0d816224810f001c7edd32dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:30 +0000
Subject: [PATCH 01/49] fix: use the builtin int instead of the removed np.int
 alias in initializers

numpy 1.24 removed np.int, so every initializer that takes a TT-rank argument
raised AttributeError.
---
 t3f/initializers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 4d7cb71..0a84c82 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -84,7 +84,7 @@ def tensor_ones(shape, dtype=tf.float32, name='t3f_tensor_ones'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -110,7 +110,7 @@ def tensor_zeros(shape, dtype=tf.float32, name='t3f_tensor_zeros'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
   tt_cores = num_dims * [None]
   with tf.name_scope(name):
     for i in range(num_dims):
@@ -138,7 +138,7 @@ def eye(shape, dtype=tf.float32, name='t3f_eye'):
   _validate_input_parameters(is_tensor=True, shape=shape)
 
   num_dims = shape.size
-  tt_ranks = np.ones(num_dims + 1, dtype=np.int)
+  tt_ranks = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -182,7 +182,7 @@ def matrix_ones(shape, dtype=tf.float32, name='t3f_matrix_ones'):
   _validate_input_parameters(is_tensor=False, shape=shape)
 
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -224,7 +224,7 @@ def matrix_zeros(shape, dtype=tf.float32, name='t3f_matrix_zeros'):
 
   _validate_input_parameters(is_tensor=False, shape=shape)
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -261,7 +261,7 @@ def tensor_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
   _validate_input_parameters(is_tensor=True, shape=shape, tt_rank=tt_rank)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -304,7 +304,7 @@ def tensor_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -359,7 +359,7 @@ def matrix_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -417,7 +417,7 @@ def matrix_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
   shape = shape.astype(int)
   tt_rank = tt_rank.astype(int)
@@ -522,7 +522,7 @@ def random_tensor(shape, tt_rank=2, mean=0., stddev=1., dtype=tf.float32,
 
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -580,7 +580,7 @@ def random_tensor_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -647,7 +647,7 @@ def random_matrix(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -718,7 +718,7 @@ def random_matrix_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   shape = shape.astype(int)
-- 
2.43.0


From 502384a1020808bb45635e213248b96db94f1f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:28 +0000
Subject: [PATCH 02/49] fix: support adding a single TT-object to a batch on
 the right

---
 t3f/ops.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86be42e..ae56bf5 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -579,14 +579,14 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
@@ -651,14 +651,14 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
-- 
2.43.0


From 2a1bca512f7633533d56f31dc1d69618b26a592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:28 +0000
Subject: [PATCH 03/49] fix: add one-dimensional TT-objects core-wise instead
 of concatenating ranks

---
 t3f/ops.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index ae56bf5..e014219 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -553,7 +553,9 @@ def _add_tensor_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=2)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -595,7 +597,9 @@ def _add_batch_tensor_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
@@ -625,7 +629,9 @@ def _add_matrix_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -667,7 +673,9 @@ def _add_batch_matrix_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=4)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
-- 
2.43.0


From bc58df1849ddf96cf00cd4674750f3f76706ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:41 +0000
Subject: [PATCH 04/49] fix: check the right operand for being a batch in
 bilinear_form

---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index e014219..0a0d0f4 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1091,7 +1091,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
 
   b_is_batch = isinstance(b, TensorTrainBatch)
-  c_is_batch = isinstance(b, TensorTrainBatch)
+  c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
   c_bs_str = 'p' if c_is_batch else ''
   out_bs_str = 'p' if b_is_batch or c_is_batch else ''
-- 
2.43.0


From a8f34ea2ec35b2db489fb216bbefa05e9f25fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:41 +0000
Subject: [PATCH 05/49] fix: support batches of vectors in
 bilinear_form_two_mat

---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 0a0d0f4..1ba9b5e 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1156,10 +1156,10 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
       raise ValueError('The arguments should be a TT-matrix.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
-  y_is_batch = isinstance(x, TensorTrainBatch)
-  x_bs_str = 'p' if x_is_batch else ''
-  y_bs_str = 'p' if y_is_batch else ''
-  out_bs_str = 'p' if x_is_batch or y_is_batch else ''
+  y_is_batch = isinstance(y, TensorTrainBatch)
+  x_bs_str = 'q' if x_is_batch else ''
+  y_bs_str = 'q' if y_is_batch else ''
+  out_bs_str = 'q' if x_is_batch or y_is_batch else ''
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
-- 
2.43.0


From c3dca43b32a703cd1246595309996ca6c243fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:41 +0000
Subject: [PATCH 06/49] fix: keep one-element batch dimensions in
 pairwise_flat_inner

---
 t3f/batch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index f062e0e..c384f89 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -232,4 +232,4 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
 
     # Squeeze to make the result of size batch_size x batch_size instead of
     # batch_size x batch_size x 1 x 1.
-    return tf.squeeze(res)
+    return tf.squeeze(res, axis=list(range(2, len(res.shape))))
-- 
2.43.0


From 4af95618cd96964f929d5d20e3c3c231b69e203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:29:03 +0000
Subject: [PATCH 07/49] fix: return the elements when every axis is indexed by
 an integer

---
 t3f/tensor_train.py       | 3 +++
 t3f/tensor_train_batch.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 7980700..46f3bf3 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -134,6 +134,9 @@ class TensorTrain(TensorTrainBase):
             remainder = None
           new_tt_cores.append(sliced_core)
 
+    if not new_tt_cores:
+      # All the axes are collapsed, remainder is a 1 x 1 matrix.
+      return remainder[0, 0]
     if remainder is not None:
       # The reminder obtained from collapsing the last cores.
       new_tt_cores[-1] = tf.einsum('aib,bd->aid', new_tt_cores[-1], remainder)
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 976582a..bf665df 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -218,6 +218,9 @@ class TensorTrainBatch(TensorTrainBase):
             remainder = None
           new_tt_cores.append(sliced_core)
 
+    if not new_tt_cores:
+      # All the axes are collapsed, remainder is a (batch of) 1 x 1 matrix.
+      return remainder[..., 0, 0]
     if remainder is not None:
       # The reminder obtained from collapsing the last cores.
       if do_collapse_batch_dim:
-- 
2.43.0


From e603461bc933516c8dd75c75e6b110d637ed8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:29:03 +0000
Subject: [PATCH 08/49] fix: accept a one-element tuple when indexing the batch
 dimension

---
 t3f/tensor_train_batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index bf665df..388167f 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -268,6 +268,8 @@ class TensorTrainBatch(TensorTrainBase):
 
     if slice_only_batch_dim:
       # Indexing only for the batch_size axis, e.g. a[1:3].
+      if isinstance(slice_spec, tuple):
+        slice_spec = slice_spec[0]
       return self._batch_dim_getitem(slice_spec)
     elif len(slice_spec) == self.ndims() + 1:
       return self._full_getitem(slice_spec)
-- 
2.43.0


From c8741cc3f1c9509a4b83e790f00973b20d7d9e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:58 +0000
Subject: [PATCH 09/49] fix: keep the row structure of one-dimensional shapes

Cleaning the shape of an object with a single core squeezed away the
only axis, so building such an object from an explicit shape failed.
---
 t3f/shapes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index de13d94..ec99153 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -220,7 +220,6 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     else:
       np_shape = np.array(shape)
       # Make sure that the shape is 2-d array both for tensors and TT-matrices.
-      np_shape = np.squeeze(np_shape)
       if len(np_shape.shape) == 1:
         # A tensor.
         np_shape = [np_shape]
-- 
2.43.0


From 8dec1b646574da8ca0638ba50342dfd16e7f1cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:17 +0000
Subject: [PATCH 10/49] fix: accept a list of rank bounds when rounding a batch

The bound was tested as a scalar, so a per-position list raised
'truth value of an array is ambiguous' for batches only.
---
 t3f/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 4d6b026..c139450 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -323,7 +323,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   """
   ndims = tt.ndims()
   max_tt_rank = np.array(max_tt_rank).astype(np.int32)
-  if max_tt_rank < 1:
+  if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
     raise ValueError('Epsilon should be non-negative.')
-- 
2.43.0


From ebe055deea7bc5064d0f887c6cc1b7933fd4f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:31 +0000
Subject: [PATCH 11/49] fix: accept an unrestricted TT-rank bound

np.inf, which the documentation gives as the way to leave the ranks
unrestricted, overflowed to a negative integer and was rejected.  The
default bound of round could not be used at all.
---
 t3f/decompositions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index c139450..0b2bbdd 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -5,6 +5,9 @@ from t3f.tensor_train import TensorTrain
 from t3f.tensor_train_batch import TensorTrainBatch
 from t3f import shapes
 
+# Stands for an unrestricted TT-rank (np.inf is not an integer).
+MAX_RANK = np.iinfo(np.int32).max
+
 
 def to_tt_matrix(mat, shape, max_tt_rank=10, epsilon=None,
                  name='t3f_to_tt_matrix'):
@@ -143,7 +146,7 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     dynamic_shape = tf.shape(tens)
     # Raises ValueError if ndims is not defined.
     d = static_shape.__len__()
-    max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+    max_tt_rank = np.minimum(max_tt_rank, MAX_RANK).astype(np.int32)
     if np.any(max_tt_rank < 1):
       raise ValueError('Maximum TT-rank should be greater or equal to 1.')
     if epsilon is not None and epsilon < 0:
@@ -235,6 +238,8 @@ def round(tt, max_tt_rank=None, epsilon=None, name='t3f_round'):
   """
   # TODO: add epsilon to the name_scope dependencies.
   with tf.name_scope(name):
+    if max_tt_rank is None:
+      max_tt_rank = np.inf
     if isinstance(tt, TensorTrainBatch):
       return _round_batch_tt(tt, max_tt_rank, epsilon)
     else:
@@ -247,7 +252,7 @@ def _round_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = np.minimum(max_tt_rank, MAX_RANK).astype(np.int32)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
@@ -322,7 +327,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = np.minimum(max_tt_rank, MAX_RANK).astype(np.int32)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
-- 
2.43.0


From c324b3213d7cd3c82e907c8bc7cf957d262e9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:10:54 +0000
Subject: [PATCH 12/49] fix: support a single TT-object in project_matmul

---
 t3f/riemannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 649d353..ae19975 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -423,7 +423,6 @@ def project_matmul(what, where, matrix):
   ndims = where.ndims()
   dtype = where.dtype
   raw_shape = shapes.lazy_raw_shape(where)
-  batch_size = shapes.lazy_batch_size(what)
   right_tangent_tt_ranks = shapes.lazy_tt_ranks(right_tangent_space_tens)
   left_tangent_tt_ranks = shapes.lazy_tt_ranks(left_tangent_space_tens)
 
@@ -436,6 +435,7 @@ def project_matmul(what, where, matrix):
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
+  batch_size = shapes.lazy_batch_size(what)
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
@@ -482,6 +482,8 @@ def project_matmul(what, where, matrix):
       # but we could have done the opposite -- sum e and leave d.
       proj_core = tf.einsum('sabc,bijd,scjke->saike', lhs[core_idx], matrix_core,
                             tens_core)
+    if not output_is_batch:
+      proj_core = tf.squeeze(proj_core, axis=0)
 
     if output_is_batch:
       # Add batch dimension of size output_batch_size to left_tang_core and
-- 
2.43.0


From 1b582ab58e3d1c77bc956ee711197f3e8078b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:10:54 +0000
Subject: [PATCH 13/49] fix: accept weights with a single output in project_sum

---
 t3f/riemannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index ae19975..7bddaed 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -79,7 +79,7 @@ def project_sum(what, where, weights=None):
   left_rank_dim = where.left_tt_rank_dim
   if weights is not None:
     weights_shape = weights.get_shape()
-    output_is_batch = len(weights_shape) > 1 and weights_shape[1] > 1
+    output_is_batch = len(weights_shape) > 1
   else:
     output_is_batch = False
   output_batch_str = 'o' if output_is_batch else ''
-- 
2.43.0


From daa8e891af2317c25f3cd15312b8fc27494f3796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:18:05 +0000
Subject: [PATCH 14/49] fix: accept zero function values in the Riemannian
 autodiff check

---
 t3f/autodiff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 4e2ee30..ba8eada 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -58,12 +58,13 @@ def _is_invariant_to_input_transforms(f_value_1, f_value_2,
         'makes things a bit slower. It is advisable to keep runtime_check=True '
         'untill actuall production usage, since runtime check does help to '
         'catch bugs.')
-  rel_diff = tf.abs((f_value_1 - f_value_2) / f_value_1)
+  abs_diff = tf.abs(f_value_1 - f_value_2)
   err_msg = "The function passed to Riemannian autodiff returns different " \
             "values for two different versions of the same tensor. " \
             "The function values are"
-  assert_op = tf.Assert(rel_diff < 1e-5, [err_msg, f_value_1, f_value_2],
-                        name=name)
+  # Not a ratio, since the value of the function can be zero.
+  assert_op = tf.Assert(abs_diff <= 1e-5 * tf.abs(f_value_1),
+                        [err_msg, f_value_1, f_value_2], name=name)
   return assert_op
 
 
-- 
2.43.0


From 54f86fc47cdb9955143cd6afe5cdb4f7d944d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:23:03 +0000
Subject: [PATCH 15/49] fix: sum batches of one-dimensional TT-objects in
 reduce_sum_batch

---
 t3f/approximate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t3f/approximate.py b/t3f/approximate.py
index cafbee0..bee9ad7 100644
--- a/t3f/approximate.py
+++ b/t3f/approximate.py
@@ -160,7 +160,10 @@ def reduce_sum_batch(tt_batch, max_tt_rank, coef=None,
           b_core_shape = np.delete(b_core_shape, 1)
           b_core = tf.reshape(b_core, b_core_shape)
 
-        if core_idx == 0:
+        if ndims == 1:
+          # There are no TT-ranks to stack along.
+          curr_sum_core = a_core + b_core
+        elif core_idx == 0:
           curr_sum_core = tf.concat((a_core, b_core), axis=right_tt_rank_dim)
         elif core_idx == ndims - 1:
           curr_sum_core = tf.concat((a_core, b_core), axis=left_tt_rank_dim)
-- 
2.43.0


From 4d94781e6a3b22b7b40625e13b2799599c8f4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:06 +0000
Subject: [PATCH 16/49] fix: register the variables of KerasDense with Keras so
 that they are trained

---
 t3f/nn.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index fa45eaf..4f084a8 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -58,12 +58,25 @@ class KerasDense(Layer):
       raise ValueError('Unknown kernel_initializer "%s", only "glorot",'
                        '"he", and "lecun"  are supported'
                        % self.kernel_initializer)
-    self.matrix = t3f.get_variable('matrix', initializer=initializer)
+    super(KerasDense, self).__init__(name=name, **kwargs)
+    cores = [self._add_variable('core_%d' % i, core)
+             for i, core in enumerate(initializer.tt_cores)]
+    self.matrix = t3f.TensorTrain(cores, initializer.get_raw_shape(),
+                                  initializer.get_tt_ranks(),
+                                  convert_to_tensors=False)
     self._tt_cores = self.matrix.tt_cores
     self.b = None
     if self.use_bias:
-      self.b = tf.Variable(self.bias_initializer * tf.ones((self.output_dim,)))
-    super(KerasDense, self).__init__(name=name, **kwargs)
+      self.b = self._add_variable(
+          'bias', self.bias_initializer * tf.ones((self.output_dim,)))
+
+  def _add_variable(self, name, value):
+    """Creates a variable that Keras knows about and therefore trains."""
+    weight = self.add_weight(name=name, shape=value.shape, dtype=value.dtype,
+                             initializer=lambda shape, dtype=None: value,
+                             autocast=False)
+    # Starting from Keras 3 add_weight returns a wrapper around tf.Variable.
+    return weight if isinstance(weight, tf.Variable) else weight.value
 
   def call(self, x):
     res = t3f.matmul(x, self.matrix)
-- 
2.43.0


From d212149312a2d96aff9bccd7f545ea14c46e0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:06 +0000
Subject: [PATCH 17/49] fix: make the regularizers usable with TensorFlow 2

---
 t3f/regularizers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 6bfd87c..645fbba 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -25,12 +25,12 @@ def l2_regularizer(scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.compat.v1.logging.info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def l2(tt):
     """Applies l2 regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       return tf.multiply(my_scale, ops.frobenius_norm_squared(tt), name=name)
 
@@ -60,12 +60,12 @@ def cores_regularizer(core_regularizer, scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.compat.v1.logging.info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def regularizer(tt):
     """Applies the regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       penalty = 0.0
       for i in range(tt.ndims()):
-- 
2.43.0


From 15d223d3e9584565efa69b60af3602dc2f65f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:06 +0000
Subject: [PATCH 18/49] fix: allow regularizers for TT-variables in eager mode

---
 t3f/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 061a568..0594fd5 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -107,8 +107,8 @@ def get_variable(name,
       with tf.name_scope(name + "/Regularizer/"):
         loss = regularizer(v)
       if loss is not None:
-        tf.logging.vlog(1, "Applied regularizer to %s and added the result %s "
-                        "to REGULARIZATION_LOSSES.", v.name, loss.name)
+        tf.logging.vlog(1, "Applied regularizer to %s and added the result "
+                        "to REGULARIZATION_LOSSES.", v.name)
         tf.add_to_collection(tf.GraphKeys.REGULARIZATION_LOSSES, loss)
     return v
 
-- 
2.43.0


From c53e3852cd6c637a57defc3c144d0b459fc96cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:06 +0000
Subject: [PATCH 19/49] fix: raise ValueError for a TT-variable without
 initializer in eager mode

---
 t3f/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 0594fd5..5edbbe9 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -52,7 +52,7 @@ def get_variable(name,
   # TODO: add validate ranks flag.
 
   reuse = tf.get_variable_scope().reuse
-  if not reuse and initializer is None:
+  if initializer is None and (not reuse or utils.in_eager_mode()):
     raise ValueError('Scope reuse is False and initializer is not provided.')
 
   variable_cores = []
-- 
2.43.0


From 1898eb2fda3e14a32eda7d9f056e62da42defc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:35 +0000
Subject: [PATCH 20/49] fix: reject TT-cores with different batch sizes

---
 t3f/tensor_train_batch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 388167f..e63715b 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -304,7 +304,10 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
         # Shapes are inconsistent.
         return False
-      if batch_size is not None and curr_core_shape[0] is not None:
+      if curr_core_shape[0] is not None:
+        if batch_size is None:
+          # All the other TT-cores have to have the same batch_size.
+          batch_size = curr_core_shape[0]
         if curr_core_shape[0] != batch_size:
           # The TT-cores are not aligned with the given batch_size.
           return False
-- 
2.43.0


From 0c245499f97d5751da44feb3a825ad016a38c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:38:14 +0000
Subject: [PATCH 21/49] fix: reject TT-cores whose number contradicts the given
 shape or TT-ranks

---
 t3f/tensor_train.py       | 8 ++++++++
 t3f/tensor_train_batch.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 46f3bf3..1c92dd9 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -163,6 +163,11 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
   for core_idx in range(1, num_dims):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
+  if shape is not None and any(len(s) != num_dims for s in shape):
+    # The number of TT-cores differs from the number of dimensions.
+    return False
+  if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
+    return False
   try:
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].get_shape()
@@ -170,6 +175,9 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
         # Shapes are inconsistent.
         return False
       if shape is not None:
+        if len(shape) != len(curr_core_shape) - 2:
+          # TT-tensor cores with a TT-matrix shape or vice versa.
+          return False
         for i in range(len(shape)):
           if curr_core_shape[i + 1] != shape[i][core_idx]:
             # The TT-cores are not aligned with the given shape.
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index e63715b..a017766 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -298,6 +298,11 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
   for core_idx in range(1, num_dims):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
+  if shape is not None and any(len(s) != num_dims for s in shape):
+    # The number of TT-cores differs from the number of dimensions.
+    return False
+  if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
+    return False
   try:
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].shape.as_list()
@@ -312,6 +317,9 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
           # The TT-cores are not aligned with the given batch_size.
           return False
       if shape is not None:
+        if len(shape) != len(curr_core_shape) - 3:
+          # TT-tensor cores with a TT-matrix shape or vice versa.
+          return False
         for i in range(len(shape)):
           dim_a, dim_b = curr_core_shape[i + 2], shape[i][core_idx]
           if dim_a is not None and dim_b is not None and dim_a != dim_b:
-- 
2.43.0


From 64c0d708d1bbaaf5810627ae235634599b2da7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:38:49 +0000
Subject: [PATCH 22/49] fix: accept TT-cores with statically unknown dimensions

---
 t3f/tensor_train.py       | 16 +++++++++++-----
 t3f/tensor_train_batch.py | 13 +++++++------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 1c92dd9..c52120d 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -145,6 +145,11 @@ class TensorTrain(TensorTrainBase):
     return TensorTrain(new_tt_cores)
 
 
+def _do_differ(dim_a, dim_b):
+  """Returns True if both dimensions are known and they are different."""
+  return dim_a is not None and dim_b is not None and dim_a != dim_b
+
+
 def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
   """Check if dimensions of the TT-cores are consistent and the dtypes coincide.
 
@@ -179,22 +184,23 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
           # TT-tensor cores with a TT-matrix shape or vice versa.
           return False
         for i in range(len(shape)):
-          if curr_core_shape[i + 1] != shape[i][core_idx]:
+          if _do_differ(curr_core_shape[i + 1], shape[i][core_idx]):
             # The TT-cores are not aligned with the given shape.
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[0] != prev_core_shape[-1]:
+        if _do_differ(curr_core_shape[0], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[0] != tt_ranks[core_idx]:
+        if _do_differ(curr_core_shape[0], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if _do_differ(curr_core_shape[-1], tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[0] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (_do_differ(tt_cores[0].get_shape()[0], 1) or
+        _do_differ(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index a017766..3d08631 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -3,6 +3,7 @@ import tensorflow as tf
 
 from t3f.tensor_train_base import TensorTrainBase
 from t3f.tensor_train import TensorTrain
+from t3f.tensor_train import _do_differ
 from t3f import shapes
 
 
@@ -321,23 +322,23 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
           # TT-tensor cores with a TT-matrix shape or vice versa.
           return False
         for i in range(len(shape)):
-          dim_a, dim_b = curr_core_shape[i + 2], shape[i][core_idx]
-          if dim_a is not None and dim_b is not None and dim_a != dim_b:
+          if _do_differ(curr_core_shape[i + 2], shape[i][core_idx]):
             # The TT-cores are not aligned with the given shape.
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[1] != prev_core_shape[-1]:
+        if _do_differ(curr_core_shape[1], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[1] != tt_ranks[core_idx]:
+        if _do_differ(curr_core_shape[1], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if _do_differ(curr_core_shape[-1], tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[1] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (_do_differ(tt_cores[0].get_shape()[1], 1) or
+        _do_differ(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
-- 
2.43.0


From b6fe71a18571e25f2c0e41fdd8694caa7caa5a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:07 +0000
Subject: [PATCH 23/49] fix: raise ValueError for TT-matrices that cannot be
 multiplied

matmul documents ValueError for inappropriate sizes, but the inner shapes
were never compared and the caller got an InvalidArgumentError from einsum.
---
 t3f/ops.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 1ba9b5e..9d642b6 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -137,6 +137,13 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_matrix_b.ndims()))
 
+  a_columns = tt_matrix_a.get_raw_shape()[1]
+  b_rows = tt_matrix_b.get_raw_shape()[0]
+  if not a_columns.is_compatible_with(b_rows):
+    raise ValueError('The column shape of the first argument should coincide '
+                     'with the row shape of the second one, got %s and %s '
+                     'instead.' % (a_columns, b_rows))
+
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_matrix_a = shapes.squeeze_batch_dim(tt_matrix_a)
   tt_matrix_b = shapes.squeeze_batch_dim(tt_matrix_b)
-- 
2.43.0


From 33d2144120afad89f0f53bededf5a24b92c0b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:07 +0000
Subject: [PATCH 24/49] fix: raise ValueError for a dense matrix of the wrong
 size

The error message formatted shapes with %d, so a TypeError was raised instead
of the intended ValueError.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 9d642b6..f3091a3 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -210,7 +210,7 @@ def tt_dense_matmul(tt_matrix_a, matrix_b):
   b_rows = matrix_b.get_shape().as_list()[0]
   if a_columns is not None and b_rows is not None:
     if a_columns != b_rows:
-      raise ValueError('Arguments shapes should align got %d and %d instead.' %
+      raise ValueError('Arguments shapes should align got %s and %s instead.' %
                        (tt_matrix_a.get_shape(), matrix_b.get_shape()))
 
   a_shape = shapes.lazy_shape(tt_matrix_a)
-- 
2.43.0


From ace35e3695f9c317e7a67339b2fb1348da182fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:07 +0000
Subject: [PATCH 25/49] fix: raise ValueError for flat_inner of different
 shapes

The documentation promises ValueError when the underlying shapes differ, but
they were not compared.
---
 t3f/ops.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index f3091a3..8812471 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -373,6 +373,11 @@ def tt_tt_flat_inner(tt_a, tt_b):
   if tt_b.ndims() != ndims:
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_b.ndims()))
+  for a_shape, b_shape in zip(tt_a.get_raw_shape(), tt_b.get_raw_shape()):
+    if not a_shape.is_compatible_with(b_shape):
+      raise ValueError('Arguments should have the same shape, got %s and %s '
+                       'instead.' % (tt_a.get_raw_shape(),
+                                     tt_b.get_raw_shape()))
 
   axes_str = 'ij' if are_both_matrices else 'i'
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
-- 
2.43.0


From 62c83265d02dcca994302c7ae20dd6e823353b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:07 +0000
Subject: [PATCH 26/49] fix: raise ValueError for bilinear forms with
 inconsistent shapes

bilinear_form and bilinear_form_two_mat ignored the shapes of the arguments.
Vectors with more TT-cores than the matrix even produced a meaningless value.
---
 t3f/ops.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 8812471..ea102fa 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1063,6 +1063,25 @@ def quadratic_form(A, b, c, name='t3f_bilinear_form'):
   return bilinear_form(A, b, c)
 
 
+def _check_bilinear_form_shapes(left, matrices, right):
+  """Raises ValueError if left^t matrices[0] matrices[1] ... right is undefined."""
+  rows = left.get_raw_shape()[0]
+  for matrix in matrices:
+    if not rows.is_compatible_with(matrix.get_raw_shape()[0]):
+      raise ValueError('The shapes of the arguments are not consistent: %s and '
+                       '%s.' % (rows, matrix.get_raw_shape()[0]))
+    rows = matrix.get_raw_shape()[1]
+  if not rows.is_compatible_with(right.get_raw_shape()[0]):
+    raise ValueError('The shapes of the arguments are not consistent: %s and '
+                     '%s.' % (rows, right.get_raw_shape()[0]))
+  if not left.get_raw_shape()[1].is_compatible_with(right.get_raw_shape()[1]):
+    raise ValueError('The vectors should have the same number of columns.')
+  if isinstance(left, TensorTrainBatch) and isinstance(right, TensorTrainBatch):
+    if None not in (left.batch_size, right.batch_size):
+      if left.batch_size != right.batch_size:
+        raise ValueError('The batch sizes of the vectors are different.')
+
+
 def bilinear_form(A, b, c, name='t3f_bilinear_form'):
   """Bilinear form b^t A c; A is a TT-matrix, b and c can be batches.
 
@@ -1102,6 +1121,8 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
   if not isinstance(c, TensorTrainBase) or not c.is_tt_matrix():
     raise ValueError('The arguments should be a TT-matrix.')
 
+  _check_bilinear_form_shapes(b, [A], c)
+
   b_is_batch = isinstance(b, TensorTrainBatch)
   c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
@@ -1167,6 +1188,8 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     if not isinstance(vec, TensorTrainBase) or not vec.is_tt_matrix():
       raise ValueError('The arguments should be a TT-matrix.')
 
+  _check_bilinear_form_shapes(x, [A, B], y)
+
   x_is_batch = isinstance(x, TensorTrainBatch)
   y_is_batch = isinstance(y, TensorTrainBatch)
   x_bs_str = 'q' if x_is_batch else ''
-- 
2.43.0


From 6c5bbb2e8f4bbf64a373337bce2a3c7eb4958391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:07 +0000
Subject: [PATCH 27/49] fix: raise ValueError when casting something that is
 not a TT-object

The type was only checked after the cores had been read, so the documented
ValueError was unreachable.
---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index ea102fa..54b4f8c 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1242,6 +1242,9 @@ def cast(tt, dtype, name='t3f_cast'):
     TypeError: If `tt` cannot be cast to the `dtype`.
     ValueError: If `tt` is not a `TensorTrain` or `TensorTrainBatch`.
   """
+  if not isinstance(tt, TensorTrainBase):
+    raise ValueError('Unsupported type of input "%s", should be TensorTrain '
+                     'or TensorTrainBatch.' % tt)
   with tf.name_scope(name):
     res_cores = []
     cores = tt.tt_cores
@@ -1251,11 +1254,8 @@ def cast(tt, dtype, name='t3f_cast'):
     res_ranks = tt.get_tt_ranks()
     if isinstance(tt, TensorTrain):
       return TensorTrain(res_cores, res_shape, res_ranks)
-    elif isinstance(tt, TensorTrainBatch):
-      return TensorTrainBatch(res_cores, res_shape, res_ranks, tt.batch_size)
     else:
-      raise ValueError('Unsupported type of input "%s", should be TensorTrain '
-                       'or TensorTrainBatch.' % tt)
+      return TensorTrainBatch(res_cores, res_shape, res_ranks, tt.batch_size)
 
 
 def gather_nd(tt, indices, name='t3f_gather_nd'):
-- 
2.43.0


From bb91d2865811cb77507ca233bc8fe423dde58ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:39 +0000
Subject: [PATCH 28/49] fix: support indices with more than two dimensions in
 gather_nd

The documentation allows indices with 2 or more dimensions, but everything
except a matrix of indices failed inside the slicing.
---
 t3f/ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 54b4f8c..900d612 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1300,6 +1300,8 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         raise ValueError('The last dimension of indices (%d) should have '
                          'the same size as the number of dimensions in the tt '
                          'object (%d).' % (indices.get_shape()[-1], tt.ndims()))
+    res_shape = tf.shape(indices)[:-1]
+    indices = tf.reshape(indices, (-1, indices.get_shape()[-1]))
     tt_elements = tf.ones(tf.shape(indices)[:-1], dtype=tt.dtype)
     tt_elements = tf.reshape(tt_elements, (-1, 1, 1))
     for core_idx in range(tt.ndims()):
@@ -1312,7 +1314,7 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         curr_core = tf.transpose(curr_core, (1, 0, 2))
         core_slices = tf.gather(curr_core, indices[:, core_idx])
       tt_elements = tf.matmul(tt_elements, core_slices)
-    tt_elements = tf.reshape(tt_elements, tf.shape(indices)[:-1])
+    tt_elements = tf.reshape(tt_elements, res_shape)
     return tt_elements
 
 
-- 
2.43.0


From 3bca29f02765a127bcadcf565e009704b3effab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:39 +0000
Subject: [PATCH 29/49] fix: support indexing TT-objects with a single index

a[1] and a[:] raised TypeError instead of returning the element of a
one-dimensional TT-tensor or reporting the wrong number of indices.
---
 t3f/tensor_train.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index c52120d..6693bee 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -109,6 +109,9 @@ class TensorTrain(TensorTrainBase):
       >>> a[1:2, :, :]
       is a 3D TensorTrain 1 x 3 x 4
     """
+    if not isinstance(slice_spec, (tuple, list)):
+      # A single index, e.g. a[1] or a[1:3].
+      slice_spec = (slice_spec,)
     if len(slice_spec) != self.ndims():
       raise ValueError('Expected %d indices, got %d' % (self.ndims(),
                                                         len(slice_spec)))
-- 
2.43.0


From 9d7f9e1c5dc31fc24ab91b14eadbf1db1a1d58c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:39 +0000
Subject: [PATCH 30/49] fix: reject operands of different shapes in batch
 operations

multiply_along_batch_dim broadcast a single weight over the whole batch and
pairwise_flat_inner ignored the cores the second argument has in addition to
the ones of the first. Both raise ValueError now.
---
 t3f/batch_ops.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index c384f89..1f37abb 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -69,6 +69,10 @@ def multiply_along_batch_dim(batch_tt, weights,
   """
   with tf.name_scope(name):
     weights = tf.convert_to_tensor(weights, dtype=batch_tt.dtype)
+    if not weights.get_shape().is_compatible_with([batch_tt.batch_size]):
+      raise ValueError('The weights should be a vector with one number per batch '
+                       'element, got shape %s (batch size is %s).' %
+                       (weights.get_shape(), batch_tt.batch_size))
     tt_cores = list(batch_tt.tt_cores)
     if batch_tt.is_tt_matrix():
       weights = weights[:, tf.newaxis, tf.newaxis, tf.newaxis, tf.newaxis]
@@ -164,6 +168,11 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
   with tf.name_scope(name):
     ndims = tt_1.ndims()
     if matrix is None:
+      shape_1, shape_2 = tt_1.get_raw_shape(), tt_2.get_raw_shape()
+      if len(shape_1) != len(shape_2) or not all(
+          s_1.is_compatible_with(s_2) for s_1, s_2 in zip(shape_1, shape_2)):
+        raise ValueError('The shapes of the arguments should coincide, got %s '
+                         'and %s' % (shape_1, shape_2))
       curr_core_1 = tt_1.tt_cores[0]
       curr_core_2 = tt_2.tt_cores[0]
       mode_string = 'ij' if tt_1.is_tt_matrix() else 'i'
-- 
2.43.0


From db61e0d0b0af4fbebd4a4728c42fc42841c1b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:39 +0000
Subject: [PATCH 31/49] fix: reject a wrong number of coefficients in
 add_n_projected

Superfluous coefficients were silently ignored.
---
 t3f/riemannian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 7bddaed..1a9c194 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -664,6 +664,10 @@ def add_n_projected(tt_objects, coef=None):
                                                               projection_on))
   if coef is not None:
     coef = tf.convert_to_tensor(coef, dtype=tt_objects[0].dtype)
+    if coef.get_shape().as_list()[0] not in (None, len(tt_objects)):
+      raise ValueError('The number of coefficients (%d) should coincide with '
+                       'the number of TT-objects (%d).' %
+                       (coef.get_shape().as_list()[0], len(tt_objects)))
     if coef.get_shape().ndims > 1:
       # In batch case we will need to multiply each core by this coefficients
       # along the first axis. To do it need to reshape the coefs to match
-- 
2.43.0


From bf70a08cf9a82c187087e29f5f622f07d2d22c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:46:06 +0000
Subject: [PATCH 32/49] fix: reject a sparse tensor of another shape in
 flat_inner

The documentation requires the shapes to coincide, but they were not compared
and the sparse elements were looked up at unrelated positions.
---
 t3f/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 900d612..d1d4875 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -441,6 +441,9 @@ def tt_sparse_flat_inner(tt_a, sparse_b):
     a number
     sum of products of all the elements of tt_a and sparse_b
   """
+  if not tt_a.get_shape().is_compatible_with(sparse_b.get_shape()):
+    raise ValueError('The arguments should have the same shape, got %s and %s '
+                     'instead.' % (tt_a.get_shape(), sparse_b.get_shape()))
   if sparse_b.indices.get_shape().is_fully_defined():
     num_elements = sparse_b.indices.get_shape()[0]
   else:
-- 
2.43.0


From 1f84741190300fb5faf985e87af5f4f79cc4f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:16 +0000
Subject: [PATCH 33/49] fix: accept batches whose size is unknown while tracing

add, matmul and flat_inner rejected two batches of unknown size (e.g. inside
tf.function) although the operations only need them to be equal at run time.
---
 t3f/shapes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index ec99153..b0e250e 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -235,8 +235,8 @@ def is_batch_broadcasting_possible(tt_a, tt_b):
 
   Returns true if the batch sizes are the same or if one of them is 1.
 
-  If the batch size that is supposed to be 1 is not known on compilation stage,
-  broadcasting is not allowed.
+  If a batch size is not known on compilation stage, the batch sizes are assumed
+  to be the same (the batch size that is supposed to be 1 has to be known).
 
   Args:
     tt_a: TensorTrain or TensorTrainBatch
@@ -246,10 +246,10 @@ def is_batch_broadcasting_possible(tt_a, tt_b):
     Bool
   """
   try:
-    if tt_a.batch_size is None and tt_b.batch_size is None:
-      # If both batch sizes are not available on the compilation stage,
-      # we cannot say if broadcasting is possible so we will not allow it.
-      return False
+    if tt_a.batch_size is None or tt_b.batch_size is None:
+      # If a batch size is not available on the compilation stage, different
+      # batch sizes are only found out when running the operation.
+      return True
     if tt_a.batch_size == tt_b.batch_size:
       return True
     if tt_a.batch_size == 1 or tt_b.batch_size == 1:
-- 
2.43.0


From f21303467e6b50627207dd44f1f3d8b078946b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:16 +0000
Subject: [PATCH 34/49] fix: do not store a dynamic batch size in
 TensorTrainBatch

Operations pass the dynamic batch size as a tensor when it is unknown while
tracing. batch_size is documented to be None then, and get_shape() failed on
such objects.
---
 t3f/tensor_train_batch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 3d08631..8438b7f 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -42,6 +42,9 @@ class TensorTrainBatch(TensorTrainBase):
         the provided shape.
     """
     tt_cores = list(tt_cores)
+    if tf.is_tensor(batch_size):
+      # None if the batch size is only known when running the operation.
+      batch_size = tf.get_static_value(batch_size)
     if convert_to_tensors:
       with tf.name_scope(name):
         for i in range(len(tt_cores)):
-- 
2.43.0


From a9c4a0df1dad4be408fcfb1e28e1a8a2756d84b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:16 +0000
Subject: [PATCH 35/49] fix: renormalize batches whose size is unknown while
 tracing

---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index d1d4875..e2cb496 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1356,7 +1356,7 @@ def renormalize_tt_cores(tt, epsilon=1e-8, name='t3f_renormalize_tt_cores'):
 
         return TensorTrain(new_cores)
       else:
-        sz = (tt.batch_size,) + (len(tt.tt_cores[0].shape) - 1) * (1,)
+        sz = (shapes.lazy_batch_size(tt),) + (len(tt.tt_cores[0].shape) - 1) * (1,)
         running_core_log_norms = tf.zeros(sz, dtype=tt.dtype)
         ax = np.arange(len(tt.tt_cores[0].shape))[1:]
         fact_list = []
-- 
2.43.0


From fe522cd4c619c7a4f73d9c1bcbce1902d515c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:16 +0000
Subject: [PATCH 36/49] fix: project batches whose size is unknown while
 tracing

The static batch size (None) was used to tile the cores of the tangent space.
---
 t3f/riemannian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 1a9c194..b147185 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -87,6 +87,8 @@ def project_sum(what, where, weights=None):
     right_rank_dim += 1
     left_rank_dim += 1
     output_batch_size = weights.get_shape().as_list()[1]
+    if output_batch_size is None:
+      output_batch_size = tf.shape(weights)[1]
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
@@ -260,7 +262,7 @@ def project(what, where):
   left_rank_dim = what.left_tt_rank_dim
   output_is_batch = isinstance(what, TensorTrainBatch)
   if output_is_batch:
-    output_batch_size = what.batch_size
+    output_batch_size = shapes.lazy_batch_size(what)
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
@@ -431,7 +433,7 @@ def project_matmul(what, where, matrix):
   left_rank_dim = what.left_tt_rank_dim
   output_is_batch = isinstance(what, TensorTrainBatch)
   if output_is_batch:
-    output_batch_size = what.batch_size
+    output_batch_size = shapes.lazy_batch_size(what)
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
@@ -853,6 +855,8 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
       right_rank_dim += 1
       left_rank_dim += 1
       batch_size = deltas[0].shape.as_list()[0]
+      if batch_size is None:
+        batch_size = tf.shape(deltas[0])[0]
     for i in range(num_dims):
       left_tt_core = left.tt_cores[i]
       right_tt_core = right.tt_cores[i]
-- 
2.43.0


From 71523e066b34f8f8c9ab00088cb27f60aab270e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:16 +0000
Subject: [PATCH 37/49] fix: use the ranks of the right orthogonal cores in
 deltas_to_tangent_space

---
 t3f/riemannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index b147185..81ffc70 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -846,7 +846,7 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
     if right is None:
       right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     left_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
-    right_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
+    right_tangent_tt_ranks = shapes.lazy_tt_ranks(right)
     raw_shape = shapes.lazy_raw_shape(left)
     right_rank_dim = left.right_tt_rank_dim
     left_rank_dim = left.left_tt_rank_dim
-- 
2.43.0


From 9be264a05d503d6358e5c2cf0a04ff52aef34555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:23 +0000
Subject: [PATCH 38/49] fix: support unknown batch and mode sizes in the
 Kronecker operations

With an unknown batch size the operations called a function that does not
exist (ops.raw_shape). The static mode sizes are used whenever they are
known, and the dynamic ones otherwise.
---
 t3f/kronecker.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index e1f4e2d..14ac2ed 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -2,7 +2,7 @@ import tensorflow as tf
 
 from t3f.tensor_train import TensorTrain
 from t3f.tensor_train_batch import TensorTrainBatch
-from t3f import ops
+from t3f import shapes
 
 
 def determinant(kron_a, name='t3f_kronecker_determinant'):
@@ -28,13 +28,13 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
     raise ValueError('The argument should be a Kronecker product (tt-ranks '
                      'should be 1)')
 
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = ops.raw_shape(kron_a)[0].as_list()
-    j_shapes = ops.raw_shape(kron_a)[1].as_list()
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -52,7 +52,7 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
         core_det = tf.linalg.det(core[:, 0, :, :, 0])
       else:
         core_det = tf.linalg.det(core[0, :, :, 0])
-      core_pow = pows / i_shapes[core_idx]
+      core_pow = pows / tf.cast(i_shapes[core_idx], kron_a.dtype)
 
       det *= tf.pow(core_det, core_pow)
     return det
@@ -81,13 +81,13 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
  
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = ops.raw_shape(kron_a)[0].as_list()
-    j_shapes = ops.raw_shape(kron_a)[1].as_list()
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -108,7 +108,7 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
         core_det = tf.linalg.det(core[0, :, :, 0])
       core_abs_det = tf.abs(core_det)
       core_det_sign = tf.sign(core_det)
-      core_pow = pows / i_shapes[core_idx]
+      core_pow = pows / tf.cast(i_shapes[core_idx], kron_a.dtype)
       logdet += tf.math.log(core_abs_det) * core_pow
       det_sign *= core_det_sign**(core_pow)
     return det_sign, logdet
@@ -137,13 +137,13 @@ def inv(kron_a, name='t3f_kronecker_inv'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
   else:
-    i_shapes = ops.raw_shape(kron_a)[0]
-    j_shapes = ops.raw_shape(kron_a)[1]
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -195,13 +195,13 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
   else:
-    i_shapes = ops.raw_shape(kron_a)[0]
-    j_shapes = ops.raw_shape(kron_a)[1]
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
-- 
2.43.0


From 5620c1be12b14ab6165d1b8b37762e2a1c44ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:32 +0000
Subject: [PATCH 39/49] fix: raise ValueError for a batch of unknown size in
 reduce_sum_batch

The number of additions depends on the batch size, so it has to be known while
tracing; comparing None with a number raised a TypeError.
---
 t3f/approximate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/t3f/approximate.py b/t3f/approximate.py
index bee9ad7..03d0869 100644
--- a/t3f/approximate.py
+++ b/t3f/approximate.py
@@ -68,9 +68,15 @@ def reduce_sum_batch(tt_batch, max_tt_rank, coef=None,
       the objects in the batch, weighted if coef is provided.
     If coefficients is a matrix, returns `TensorTrainBatch`.
 
+  Raises:
+    ValueError if the batch size is not known on compilation stage or if the
+      shape of coef is not appropriate.
+
   See Also:
     t3f.approximate.add_n
   """
+  if tt_batch.batch_size is None:
+    raise ValueError('The batch size has to be known on compilation stage.')
   ndims = tt_batch.ndims()
   left_tt_rank_dim = tt_batch.left_tt_rank_dim
   right_tt_rank_dim = tt_batch.right_tt_rank_dim
-- 
2.43.0


From 7b8151646d27bd01398a26484bc136f72c2bf6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:03:43 +0000
Subject: [PATCH 40/49] fix: return the static raw shape of a batch of unknown
 size

The raw shape does not include the batch size, but lazy_raw_shape returned a
tensor if only the batch size was unknown, which made ones_like and zeros_like
fail while tracing.
---
 t3f/shapes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index b0e250e..f84f068 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -169,11 +169,10 @@ def lazy_raw_shape(tt, name='t3f_lazy_raw_shape'):
   Returns:
     A 2-D numpy array or `tf.Tensor` of size 1 x ndims() or 2 x ndims()
   """
-  # If get_shape is fully defined, it guaranties that all elements of raw shape
-  # are defined.
   with tf.name_scope(name):
-    if tt.get_shape().is_fully_defined():
-      return np.array([s.as_list() for s in tt.get_raw_shape()])
+    static_raw_shape = tt.get_raw_shape()
+    if all(s.is_fully_defined() for s in static_raw_shape):
+      return np.array([s.as_list() for s in static_raw_shape])
     else:
       return raw_shape(tt)
 
-- 
2.43.0


From 7b40988485dcc8bfc99c27bb290d133cf384ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:03:43 +0000
Subject: [PATCH 41/49] fix: accept coefficients of unknown size in
 add_n_projected

---
 t3f/riemannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 81ffc70..c06fbf7 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -676,8 +676,8 @@ def add_n_projected(tt_objects, coef=None):
       # the TT-cores number of dimensions.
       some_core = tt_objects[0].tt_cores[0]
       dim_array = [1] * (some_core.get_shape().ndims + 1)
-      dim_array[0] = coef.get_shape().as_list()[0]
-      dim_array[1] = coef.get_shape().as_list()[1]
+      dim_array[0] = len(tt_objects)
+      dim_array[1] = -1
       coef = tf.reshape(coef, dim_array)
 
   ndims = tt_objects[0].ndims()
-- 
2.43.0


From 48418c625dc4fec333f66c1925e6470a0dad1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:05:55 +0000
Subject: [PATCH 42/49] fix: return an unknown size in get_shape of a TT-matrix
 of unknown shape

Multiplying the unknown factors raised a TypeError.
---
 t3f/tensor_train_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index f4c25b7..be37ac2 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -32,8 +32,9 @@ class TensorTrainBase(object):
     raw_shape = self.get_raw_shape()
     if self.is_tt_matrix():
       # Use python prod instead of np.prod to avoid overflows.
-      prod_f = lambda arr: reduce(lambda x, y: x*y, arr)
-      # TODO: as list is not available if shape is partly known.
+      # The size is unknown if any of the factors is.
+      prod_f = lambda arr: (None if None in arr
+                            else reduce(lambda x, y: x*y, arr))
       m = prod_f(raw_shape[0].as_list())
       n = prod_f(raw_shape[1].as_list())
       return tf.TensorShape((m, n))
-- 
2.43.0


From 315a74370fc4029c7bb1a655cdb685d7845c9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:05:55 +0000
Subject: [PATCH 43/49] fix: support TT-objects with unknown TT-ranks in add,
 multiply and matmul

The dynamic ranks are used to build the cores, but the static ranks of the
result were computed from unknown ones, which raised a TypeError.
---
 t3f/ops.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index e2cb496..28a34ec 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -185,7 +185,9 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   res_shape = (tt_matrix_a.get_raw_shape()[0], tt_matrix_b.get_raw_shape()[1])
   static_a_ranks = tt_matrix_a.get_tt_ranks()
   static_b_ranks = tt_matrix_b.get_tt_ranks()
-  out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
+  out_ranks = None
+  if static_a_ranks.is_fully_defined() and static_b_ranks.is_fully_defined():
+    out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
   else:
@@ -756,12 +758,14 @@ def add(tt_a, tt_b, name='t3f_add'):
       else:
         tt_cores = _add_tensor_cores(tt_a, tt_b)
 
-    out_ranks = [1]
+    out_ranks = None
     static_a_ranks = tt_a.get_tt_ranks()
     static_b_ranks = tt_b.get_tt_ranks()
-    for core_idx in range(1, ndims):
-      out_ranks.append(static_a_ranks[core_idx] + static_b_ranks[core_idx])
-    out_ranks.append(1)
+    if static_a_ranks.is_fully_defined() and static_b_ranks.is_fully_defined():
+      out_ranks = [1]
+      for core_idx in range(1, ndims):
+        out_ranks.append(static_a_ranks[core_idx] + static_b_ranks[core_idx])
+      out_ranks.append(1)
     if is_batch_case:
       return TensorTrainBatch(tt_cores, tt_a.get_raw_shape(), out_ranks,
                               batch_size)
@@ -933,8 +937,11 @@ def multiply(tt_left, right, name='t3f_multiply'):
 
         tt_cores.append(curr_core)
 
-      combined_ranks = zip(tt_left.get_tt_ranks(), right.get_tt_ranks())
-      out_ranks = [a * b for a, b in combined_ranks]
+      out_ranks = None
+      if (tt_left.get_tt_ranks().is_fully_defined() and
+          right.get_tt_ranks().is_fully_defined()):
+        combined_ranks = zip(tt_left.get_tt_ranks(), right.get_tt_ranks())
+        out_ranks = [a * b for a, b in combined_ranks]
 
   if not is_batch_case:
     return TensorTrain(tt_cores, tt_left.get_raw_shape(), out_ranks)
-- 
2.43.0


From ea92e352295fea296031d38dc4678ba64891ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:48 +0000
Subject: [PATCH 44/49] fix: do not round a Python float to float32 in multiply

Multiplying a float64 TT-object by a Python float went through a float32
tensor, so the result only had single precision.
---
 t3f/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 28a34ec..7c449fd 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -810,6 +810,9 @@ def multiply(tt_left, right, name='t3f_multiply'):
       # and raise to the power 1/ndims. First TT-core is multiplied by the sign
       # of right.
       tt_cores = list(tt_left.tt_cores)
+      if isinstance(right, float):
+        # Otherwise tf.abs would round right to float32.
+        right = tf.convert_to_tensor(right, dtype=tt_left.dtype)
       fact = tf.pow(tf.cast(tf.abs(right), tt_left.dtype), 1.0 / ndims)
       sign = tf.cast(tf.sign(right), tt_left.dtype)
       for i in range(len(tt_cores)):
-- 
2.43.0


From bfcdc9ed43ad99609610a5355e6ffe20189d1867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:13:11 +0000
Subject: [PATCH 45/49] fix: do not overflow int32 in the Kronecker
 determinants

The matrix size was multiplied out in int32, so the determinant and the
logarithm of the determinant were wrong for matrices with 2^31 rows or
more.
---
 t3f/kronecker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index 14ac2ed..e059160 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -43,7 +43,7 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
       
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
+    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     cores = kron_a.tt_cores
     det = 1
     for core_idx in range(kron_a.ndims()):
@@ -96,7 +96,7 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
 
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
+    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     logdet = 0.
     det_sign = 1.
 
-- 
2.43.0


From be6489f6e8ed352b8746270d31a7a512c8abd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:49:34 +0000
Subject: [PATCH 46/49] fix: look up the default session where TensorFlow 2
 keeps it in eval

---
 t3f/tensor_train_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index be37ac2..1031c7e 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -123,7 +123,7 @@ class TensorTrainBase(object):
     """
     # TODO: implement feed_dict
     if session is None:
-      session = tf.get_default_session()
+      session = tf.compat.v1.get_default_session()
     session.run(self.tt_cores)
 
   # TODO: do we need this?
-- 
2.43.0


From 4b0d69c566ef78ab61e7b19adbd4f3e7e88e1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:02:40 +0000
Subject: [PATCH 47/49] fix: accept every call form of the native SVD in the
 NumPy replacement

---
 t3f/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t3f/utils.py b/t3f/utils.py
index 906664a..1b6dbd6 100644
--- a/t3f/utils.py
+++ b/t3f/utils.py
@@ -22,8 +22,10 @@ def replace_tf_svd_with_np_svd():
     return
   tf.original_svd = tf.linalg.svd
 
-  def my_svd(tensor, full_matrices=False, compute_uv=True):
+  def my_svd(tensor, full_matrices=False, compute_uv=True, name=None):
     dtype = tensor.dtype
+    if not compute_uv:
+      return tf.constant(np.linalg.svd(tensor, full_matrices, compute_uv))
     u, s, v = np.linalg.svd(tensor, full_matrices, compute_uv)
     # Converting numpy order of v dims to TF order.
     order = list(range(tensor.get_shape().ndims))
-- 
2.43.0


From e4eaf338c7237b162e9bdb7f08f07c9e4fcd59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:03:31 +0000
Subject: [PATCH 48/49] fix: describe TT-matrices whose size is unknown

---
 t3f/tensor_train.py       | 2 +-
 t3f/tensor_train_batch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 6693bee..c801b80 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -91,7 +91,7 @@ class TensorTrain(TensorTrainBase):
     variable_str = ' variable' if self.is_variable() else ''
     if self.is_tt_matrix():
       raw_shape = self.get_raw_shape()
-      return "A TT-Matrix%s of size %d x %d, underlying tensor " \
+      return "A TT-Matrix%s of size %s x %s, underlying tensor " \
              "shape: %s x %s, TT-ranks: %s" % (variable_str, shape[0], shape[1],
                                                raw_shape[0], raw_shape[1],
                                                tt_ranks)
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 8438b7f..f18d84d 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -128,7 +128,7 @@ class TensorTrainBatch(TensorTrainBase):
       raw_shape = self.get_raw_shape()
       type_str = 'TT-matrix variables' if self.is_variable() else 'TT-matrices'
 
-      return "A %s element batch of %s of size %d x %d, underlying tensor " \
+      return "A %s element batch of %s of size %s x %s, underlying tensor " \
              "shape: %s x %s, TT-ranks: %s" % (batch_size_str, type_str,
                                                shape[1], shape[2],
                                                raw_shape[0], raw_shape[1],
-- 
2.43.0


From 4cbc8d7ae88586525e36b3362ce2743495dbddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:55:22 +0000
Subject: [PATCH 49/49] fix: compute the fan of large TT-matrices without
 integer overflow

The Glorot, He and LeCun initialisers multiplied the mode sizes as 64-bit
integers, so matrices with 2^63 or more rows got a wrong or NaN scale.
---
 t3f/initializers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 0a84c82..e86c29a 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -772,8 +772,8 @@ def glorot_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
-  n_out = np.prod(shape[1])
+  n_in = np.prod(shape[0], dtype=float)
+  n_out = np.prod(shape[1], dtype=float)
   lamb = 2.0 / (n_in + n_out)
 
   with tf.name_scope(name):
@@ -814,7 +814,7 @@ def he_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 2.0 / n_in
 
   with tf.name_scope(name):
@@ -855,7 +855,7 @@ def lecun_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 1.0 / n_in
   with tf.name_scope(name):
     return random_matrix(shape, tt_rank=tt_rank, stddev=np.sqrt(lamb),
-- 
2.43.0

