From 050f0e5236b0f7acfcd8b9f909140773b4c68d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:32 +0000
Subject: [PATCH 01/22] fix: replace removed np.int alias in initializers

np.int was removed in numpy 1.24, so every initializer raised
AttributeError.  Use the builtin int, which is what the alias meant.
---
 t3f/initializers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 4d7cb71..0a84c82 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -84,7 +84,7 @@ def tensor_ones(shape, dtype=tf.float32, name='t3f_tensor_ones'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -110,7 +110,7 @@ def tensor_zeros(shape, dtype=tf.float32, name='t3f_tensor_zeros'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
   tt_cores = num_dims * [None]
   with tf.name_scope(name):
     for i in range(num_dims):
@@ -138,7 +138,7 @@ def eye(shape, dtype=tf.float32, name='t3f_eye'):
   _validate_input_parameters(is_tensor=True, shape=shape)
 
   num_dims = shape.size
-  tt_ranks = np.ones(num_dims + 1, dtype=np.int)
+  tt_ranks = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -182,7 +182,7 @@ def matrix_ones(shape, dtype=tf.float32, name='t3f_matrix_ones'):
   _validate_input_parameters(is_tensor=False, shape=shape)
 
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -224,7 +224,7 @@ def matrix_zeros(shape, dtype=tf.float32, name='t3f_matrix_zeros'):
 
   _validate_input_parameters(is_tensor=False, shape=shape)
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -261,7 +261,7 @@ def tensor_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
   _validate_input_parameters(is_tensor=True, shape=shape, tt_rank=tt_rank)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -304,7 +304,7 @@ def tensor_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -359,7 +359,7 @@ def matrix_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -417,7 +417,7 @@ def matrix_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
   shape = shape.astype(int)
   tt_rank = tt_rank.astype(int)
@@ -522,7 +522,7 @@ def random_tensor(shape, tt_rank=2, mean=0., stddev=1., dtype=tf.float32,
 
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -580,7 +580,7 @@ def random_tensor_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -647,7 +647,7 @@ def random_matrix(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -718,7 +718,7 @@ def random_matrix_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   shape = shape.astype(int)
-- 
2.43.0


From 913d8f41fc6d79405ab53a3059f5e7bc0fe826f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:09 +0000
Subject: [PATCH 02/22] fix: support adding a TensorTrainBatch to a TensorTrain

add(TensorTrain, TensorTrainBatch) asked the single TensorTrain for its
batch size and raised ValueError, and adding a TensorTrain to a batch of
one element asked the TensorTrain as well.
---
 t3f/ops.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86be42e..56768be 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -579,8 +579,9 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
-    # We add 1 element batch tt_a to a batch_size element batch tt_b to get
+  if not isinstance(tt_a, TensorTrainBatch) or (
+      isinstance(tt_b, TensorTrainBatch) and tt_a.batch_size == 1):
+    # We add 1 element tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
@@ -651,8 +652,9 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
-    # We add 1 element batch tt_a to a batch_size element batch tt_b to get
+  if not isinstance(tt_a, TensorTrainBatch) or (
+      isinstance(tt_b, TensorTrainBatch) and tt_a.batch_size == 1):
+    # We add 1 element tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
-- 
2.43.0


From 2305fa85d6f06fe485d06703faf621cb0d0a0c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:09 +0000
Subject: [PATCH 03/22] fix: detect a batch in the second vector of
 bilinear_form

The check looked at the first vector twice, so mixing a TensorTrain and a
TensorTrainBatch failed in einsum.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 56768be..075ae5e 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1085,7 +1085,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
 
   b_is_batch = isinstance(b, TensorTrainBatch)
-  c_is_batch = isinstance(b, TensorTrainBatch)
+  c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
   c_bs_str = 'p' if c_is_batch else ''
   out_bs_str = 'p' if b_is_batch or c_is_batch else ''
-- 
2.43.0


From 5b7e246a314bd421a6dd337bd48401811f0b2efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:09 +0000
Subject: [PATCH 04/22] fix: make bilinear_form_two_mat work with batches

The batch index shared the einsum letter with a mode index, and the second
vector was never checked for being a batch.
---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 075ae5e..ee2439c 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1150,10 +1150,10 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
       raise ValueError('The arguments should be a TT-matrix.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
-  y_is_batch = isinstance(x, TensorTrainBatch)
-  x_bs_str = 'p' if x_is_batch else ''
-  y_bs_str = 'p' if y_is_batch else ''
-  out_bs_str = 'p' if x_is_batch or y_is_batch else ''
+  y_is_batch = isinstance(y, TensorTrainBatch)
+  x_bs_str = 's' if x_is_batch else ''
+  y_bs_str = 's' if y_is_batch else ''
+  out_bs_str = 's' if x_is_batch or y_is_batch else ''
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
-- 
2.43.0


From 0d66a4bd131083b375c53ee43cfa313fe2e95586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:09 +0000
Subject: [PATCH 05/22] fix: gather_nd with indices of more than two dimensions

The docstring allows any number of leading dimensions, but the columns were
taken along the second dimension instead of the last one.
---
 t3f/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index ee2439c..a4b71ef 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1259,7 +1259,9 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         raise ValueError('The last dimension of indices (%d) should have '
                          'the same size as the number of dimensions in the tt '
                          'object (%d).' % (indices.get_shape()[-1], tt.ndims()))
-    tt_elements = tf.ones(tf.shape(indices)[:-1], dtype=tt.dtype)
+    out_shape = tf.shape(indices)[:-1]
+    indices = tf.reshape(indices, (-1, indices.get_shape()[-1]))
+    tt_elements = tf.ones(out_shape, dtype=tt.dtype)
     tt_elements = tf.reshape(tt_elements, (-1, 1, 1))
     for core_idx in range(tt.ndims()):
       curr_core = tt.tt_cores[core_idx]
@@ -1271,7 +1273,7 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         curr_core = tf.transpose(curr_core, (1, 0, 2))
         core_slices = tf.gather(curr_core, indices[:, core_idx])
       tt_elements = tf.matmul(tt_elements, core_slices)
-    tt_elements = tf.reshape(tt_elements, tf.shape(indices)[:-1])
+    tt_elements = tf.reshape(tt_elements, out_shape)
     return tt_elements
 
 
-- 
2.43.0


From 923b5681e0bb6099d39ebcebcdc312d1d0dcea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:41 +0000
Subject: [PATCH 06/22] fix: error message of tt_dense_matmul for mismatched
 shapes

Formatting a TensorShape with %d raised TypeError instead of the intended
ValueError.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index a4b71ef..b8d070e 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -203,7 +203,7 @@ def tt_dense_matmul(tt_matrix_a, matrix_b):
   b_rows = matrix_b.get_shape().as_list()[0]
   if a_columns is not None and b_rows is not None:
     if a_columns != b_rows:
-      raise ValueError('Arguments shapes should align got %d and %d instead.' %
+      raise ValueError('Arguments shapes should align got %s and %s instead.' %
                        (tt_matrix_a.get_shape(), matrix_b.get_shape()))
 
   a_shape = shapes.lazy_shape(tt_matrix_a)
-- 
2.43.0


From f0e7745c27bafc7ec22433a95ef22a56cfdcbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:41 +0000
Subject: [PATCH 07/22] fix: add for objects with a single TT-core

The first core was concatenated along the right rank even when it is also
the last one, which produced a core with boundary rank 2 and an error.
---
 t3f/ops.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index b8d070e..bbae9a1 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -553,7 +553,9 @@ def _add_tensor_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=2)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -596,7 +598,9 @@ def _add_batch_tensor_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
@@ -626,7 +630,9 @@ def _add_matrix_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -669,7 +675,9 @@ def _add_batch_matrix_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=4)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
-- 
2.43.0


From 31642b4f39a70a20d178e9ee1435e5fc0a2d0e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:41 +0000
Subject: [PATCH 08/22] fix: keep shapes of objects with a single TT-core
 intact

Squeezing the shape turned [5] into a scalar (TypeError) and the 2 x 1 shape
of a one-core TT-matrix into the shape of a two-dimensional tensor.
---
 t3f/shapes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index de13d94..ec99153 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -220,7 +220,6 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     else:
       np_shape = np.array(shape)
       # Make sure that the shape is 2-d array both for tensors and TT-matrices.
-      np_shape = np.squeeze(np_shape)
       if len(np_shape.shape) == 1:
         # A tensor.
         np_shape = [np_shape]
-- 
2.43.0


From 61512dcc632e378df4f1e34486085ae380c4fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:41 +0000
Subject: [PATCH 09/22] fix: reject shapes and ranks inconsistent with the
 number of TT-cores

The constructors only compared the entries that exist for every core, so a
shape that is too long, a TT-matrix shape for tensor cores (and vice versa),
cores with a wrong number of dimensions, and cores with different batch
sizes were silently accepted, and too few TT-ranks raised IndexError.
---
 t3f/tensor_train.py       | 11 +++++++++++
 t3f/tensor_train_batch.py | 16 ++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 7980700..3fc9386 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -161,6 +161,17 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    num_core_dims = len(tt_cores[0].get_shape())
+    if num_core_dims not in (3, 4):
+      # TT-cores should be 3d (TT-tensor) or 4d (TT-matrix).
+      return False
+    if shape is not None:
+      if len(shape) != num_core_dims - 2:
+        return False
+      if any(len(curr_shape) != num_dims for curr_shape in shape):
+        return False
+    if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
+      return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].get_shape()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 976582a..ac7899f 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -294,11 +294,27 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    num_core_dims = len(tt_cores[0].get_shape())
+    if num_core_dims not in (4, 5):
+      # TT-cores should be 4d (TT-tensors) or 5d (TT-matrices).
+      return False
+    if shape is not None:
+      if len(shape) != num_core_dims - 3:
+        return False
+      if any(len(curr_shape) != num_dims for curr_shape in shape):
+        return False
+    if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
+      return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].shape.as_list()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
         # Shapes are inconsistent.
         return False
+      first_batch_size = tt_cores[0].shape.as_list()[0]
+      if curr_core_shape[0] is not None and first_batch_size is not None:
+        if curr_core_shape[0] != first_batch_size:
+          # The TT-cores have different batch sizes.
+          return False
       if batch_size is not None and curr_core_shape[0] is not None:
         if curr_core_shape[0] != batch_size:
           # The TT-cores are not aligned with the given batch_size.
-- 
2.43.0


From 8fa512dbdbea3f0b81568b122a2c93a83bdc772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:03 +0000
Subject: [PATCH 10/22] fix: support unrestricted TT-ranks in round and
 to_tt_tensor

Both functions document max_tt_rank=np.inf, and round uses None as the
default value, but infinity overflowed to a negative number (ValueError)
and None could not be converted at all (TypeError).
---
 t3f/decompositions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 4d6b026..a2ba623 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -143,7 +143,7 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     dynamic_shape = tf.shape(tens)
     # Raises ValueError if ndims is not defined.
     d = static_shape.__len__()
-    max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+    max_tt_rank = _clean_max_tt_rank(max_tt_rank)
     if np.any(max_tt_rank < 1):
       raise ValueError('Maximum TT-rank should be greater or equal to 1.')
     if epsilon is not None and epsilon < 0:
@@ -194,6 +194,13 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     return TensorTrain(tt_cores, static_shape, ranks)
 
 
+def _clean_max_tt_rank(max_tt_rank):
+  """Converts max_tt_rank to an int array; None and np.inf mean no restriction."""
+  if max_tt_rank is None:
+    max_tt_rank = np.inf
+  return np.minimum(max_tt_rank, np.iinfo(np.int32).max).astype(np.int32)
+
+
 # TODO: rename round so not to shadow python.round?
 def round(tt, max_tt_rank=None, epsilon=None, name='t3f_round'):
   """TT-rounding procedure, returns a TT object with smaller TT-ranks.
@@ -247,7 +254,7 @@ def _round_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _clean_max_tt_rank(max_tt_rank)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
@@ -322,7 +329,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _clean_max_tt_rank(max_tt_rank)
   if max_tt_rank < 1:
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
-- 
2.43.0


From d4829dd0f2b23d4b99b3fcaa2ca262406a20e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:03 +0000
Subject: [PATCH 11/22] fix: accept a list of max_tt_rank when rounding a batch

The validity check compared the whole array in a boolean context.
---
 t3f/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index a2ba623..5b95b51 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -330,7 +330,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   """
   ndims = tt.ndims()
   max_tt_rank = _clean_max_tt_rank(max_tt_rank)
-  if max_tt_rank < 1:
+  if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
     raise ValueError('Epsilon should be non-negative.')
-- 
2.43.0


From a15536ec23e2b7a28d33743bb69f01f6eb5bad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:03 +0000
Subject: [PATCH 12/22] fix: use ranks of the right orthogonal cores in
 deltas_to_tangent_space

The zero block was built with the ranks of the left orthogonal cores, which
fails when the two differ.
---
 t3f/riemannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 649d353..4228e2f 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -838,7 +838,7 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
     if right is None:
       right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     left_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
-    right_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
+    right_tangent_tt_ranks = shapes.lazy_tt_ranks(right)
     raw_shape = shapes.lazy_raw_shape(left)
     right_rank_dim = left.right_tt_rank_dim
     left_rank_dim = left.left_tt_rank_dim
-- 
2.43.0


From 6d8cf9f446646ec818abbd309c3faa63c66c3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:03 +0000
Subject: [PATCH 13/22] fix: project_matmul with a single TensorTrain

The docstring allows what to be a TensorTrain, but its batch size was
requested before expanding it to a batch, and the batch dimension was never
removed from the resulting cores.
---
 t3f/riemannian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 4228e2f..77fb3b0 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -423,7 +423,6 @@ def project_matmul(what, where, matrix):
   ndims = where.ndims()
   dtype = where.dtype
   raw_shape = shapes.lazy_raw_shape(where)
-  batch_size = shapes.lazy_batch_size(what)
   right_tangent_tt_ranks = shapes.lazy_tt_ranks(right_tangent_space_tens)
   left_tangent_tt_ranks = shapes.lazy_tt_ranks(left_tangent_space_tens)
 
@@ -436,6 +435,7 @@ def project_matmul(what, where, matrix):
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
+  batch_size = shapes.lazy_batch_size(what)
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
@@ -493,6 +493,7 @@ def project_matmul(what, where, matrix):
       extended_right_tang_core = tf.tile(extended_right_tang_core,
                                          [output_batch_size, 1, 1, 1, 1])
     else:
+      proj_core = tf.squeeze(proj_core, axis=0)
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-- 
2.43.0


From 6c48df9093e9e46bdf45ddfb11b5e815158742e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:03 +0000
Subject: [PATCH 14/22] fix: regularizers with TensorFlow 2

tf.name_scope with a default name and tf.logging only exist in the
compatibility module, so both regularizers failed.
---
 t3f/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 6bfd87c..67e9e9f 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -1,6 +1,6 @@
 import numbers
 
-import tensorflow as tf
+import tensorflow.compat.v1 as tf
 
 from t3f import ops
 
-- 
2.43.0


From 67891f73b1043fd1cc932e39ccc727281cb32ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:03 +0000
Subject: [PATCH 15/22] fix: keep batch dimensions of size one in batch inner
 products

Squeezing every unit dimension turned the 1 x N matrix of pairwise products
into a vector and dropped the batch dimension of bilinear forms.
---
 t3f/batch_ops.py | 2 +-
 t3f/ops.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index f062e0e..864cc29 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -232,4 +232,4 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
 
     # Squeeze to make the result of size batch_size x batch_size instead of
     # batch_size x batch_size x 1 x 1.
-    return tf.squeeze(res)
+    return tf.squeeze(res, list(range(2, len(res.get_shape()))))
diff --git a/t3f/ops.py b/t3f/ops.py
index bbae9a1..0737143 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1125,7 +1125,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2, -3])
 
 
 def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
@@ -1194,7 +1194,7 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2, -3, -4])
 
 
 def cast(tt, dtype, name='t3f_cast'):
-- 
2.43.0


From 68dd7b4045e1a42ab2500ab3722732d0d8b1d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:30 +0000
Subject: [PATCH 16/22] fix: project_sum with a single column of weights

A batch_size x 1 matrix of weights selects the non-batch output, but the
weights kept their second dimension and einsum failed.
---
 t3f/riemannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 77fb3b0..6d02ea1 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -80,6 +80,8 @@ def project_sum(what, where, weights=None):
   if weights is not None:
     weights_shape = weights.get_shape()
     output_is_batch = len(weights_shape) > 1 and weights_shape[1] > 1
+    if len(weights_shape) > 1 and not output_is_batch:
+      weights = tf.squeeze(weights, axis=1)
   else:
     output_is_batch = False
   output_batch_str = 'o' if output_is_batch else ''
-- 
2.43.0


From 6266ff19afc4e29c6e5ea34a51195d187370d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:30 +0000
Subject: [PATCH 17/22] fix: accept TT-cores with partly unknown static shapes

In TensorFlow 2 an unknown dimension is None, and comparing it with a number
made the constructors reject valid cores inside tf.function.
---
 t3f/shapes.py             |  5 +++++
 t3f/tensor_train.py       | 13 ++++++++-----
 t3f/tensor_train_batch.py | 10 ++++++----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index ec99153..93de242 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -230,6 +230,11 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     return shape
 
 
+def are_dims_different(dim_a, dim_b):
+  """Check that two static dimensions are both known and different."""
+  return dim_a is not None and dim_b is not None and dim_a != dim_b
+
+
 def is_batch_broadcasting_possible(tt_a, tt_b):
   """Check that the batch broadcasting possible for the given batch sizes.
 
diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 3fc9386..d51dbd3 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -179,22 +179,25 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
         return False
       if shape is not None:
         for i in range(len(shape)):
-          if curr_core_shape[i + 1] != shape[i][core_idx]:
+          if shapes.are_dims_different(curr_core_shape[i + 1],
+                                       shape[i][core_idx]):
             # The TT-cores are not aligned with the given shape.
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[0] != prev_core_shape[-1]:
+        if shapes.are_dims_different(curr_core_shape[0], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[0] != tt_ranks[core_idx]:
+        if shapes.are_dims_different(curr_core_shape[0], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if shapes.are_dims_different(curr_core_shape[-1],
+                                     tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[0] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (shapes.are_dims_different(tt_cores[0].get_shape()[0], 1) or
+        shapes.are_dims_different(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index ac7899f..245fe20 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -327,17 +327,19 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[1] != prev_core_shape[-1]:
+        if shapes.are_dims_different(curr_core_shape[1], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[1] != tt_ranks[core_idx]:
+        if shapes.are_dims_different(curr_core_shape[1], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if shapes.are_dims_different(curr_core_shape[-1],
+                                     tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[1] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (shapes.are_dims_different(tt_cores[0].get_shape()[1], 1) or
+        shapes.are_dims_different(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
-- 
2.43.0


From 527ff215632a603c347329d1d50423b604b64319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:31:01 +0000
Subject: [PATCH 18/22] fix: reduce_sum_batch for objects with a single TT-core

---
 t3f/approximate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t3f/approximate.py b/t3f/approximate.py
index cafbee0..e7f86d2 100644
--- a/t3f/approximate.py
+++ b/t3f/approximate.py
@@ -160,7 +160,9 @@ def reduce_sum_batch(tt_batch, max_tt_rank, coef=None,
           b_core_shape = np.delete(b_core_shape, 1)
           b_core = tf.reshape(b_core, b_core_shape)
 
-        if core_idx == 0:
+        if ndims == 1:
+          curr_sum_core = a_core + b_core
+        elif core_idx == 0:
           curr_sum_core = tf.concat((a_core, b_core), axis=right_tt_rank_dim)
         elif core_idx == ndims - 1:
           curr_sum_core = tf.concat((a_core, b_core), axis=left_tt_rank_dim)
-- 
2.43.0


From 0e0aed18774897013861574df4e872ef0990c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:41:51 +0000
Subject: [PATCH 19/22] fix: runtime check of Riemannian autodiff for functions
 equal to zero

The check divided by the value of the function, so a function that is
exactly zero at x (e.g. a squared norm at zero) failed with NaN.
---
 t3f/autodiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 4e2ee30..8aff79b 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -58,11 +58,11 @@ def _is_invariant_to_input_transforms(f_value_1, f_value_2,
         'makes things a bit slower. It is advisable to keep runtime_check=True '
         'untill actuall production usage, since runtime check does help to '
         'catch bugs.')
-  rel_diff = tf.abs((f_value_1 - f_value_2) / f_value_1)
+  diff = tf.abs(f_value_1 - f_value_2)
   err_msg = "The function passed to Riemannian autodiff returns different " \
             "values for two different versions of the same tensor. " \
             "The function values are"
-  assert_op = tf.Assert(rel_diff < 1e-5, [err_msg, f_value_1, f_value_2],
+  assert_op = tf.Assert(diff <= 1e-5 * tf.abs(f_value_1), [err_msg, f_value_1, f_value_2],
                         name=name)
   return assert_op
 
-- 
2.43.0


From e1187072ea0f934a593d029f550af93b8ac2d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:05:47 +0000
Subject: [PATCH 20/22] fix: keep determinants of large Kronecker products
 finite and correctly signed

The product of the factor sizes was computed in int32 and overflowed for
matrices with 2^31 rows or more.  In float32 the exponents were also inexact
from 2^24 rows on, which turned negative factors into NaN.  Multiply the sizes
as floats and take the sign from the parity of the exponent.
---
 t3f/kronecker.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index e1f4e2d..c0218da 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -1,3 +1,4 @@
+import numpy as np
 import tensorflow as tf
 
 from t3f.tensor_train import TensorTrain
@@ -43,7 +44,6 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
       
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
     cores = kron_a.tt_cores
     det = 1
     for core_idx in range(kron_a.ndims()):
@@ -52,7 +52,9 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
         core_det = tf.linalg.det(core[:, 0, :, :, 0])
       else:
         core_det = tf.linalg.det(core[0, :, :, 0])
-      core_pow = pows / i_shapes[core_idx]
+      other_sizes = i_shapes[:core_idx] + i_shapes[core_idx + 1:]
+      # The product can be too large for integers.
+      core_pow = tf.cast(np.prod(other_sizes, dtype=np.float64), kron_a.dtype)
 
       det *= tf.pow(core_det, core_pow)
     return det
@@ -96,7 +98,6 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
 
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
     logdet = 0.
     det_sign = 1.
 
@@ -108,9 +109,13 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
         core_det = tf.linalg.det(core[0, :, :, 0])
       core_abs_det = tf.abs(core_det)
       core_det_sign = tf.sign(core_det)
-      core_pow = pows / i_shapes[core_idx]
+      other_sizes = i_shapes[:core_idx] + i_shapes[core_idx + 1:]
+      # The product can be too large for integers.
+      core_pow = tf.cast(np.prod(other_sizes, dtype=np.float64), kron_a.dtype)
       logdet += tf.math.log(core_abs_det) * core_pow
-      det_sign *= core_det_sign**(core_pow)
+      # Large powers are not exact in floating point, use only the parity.
+      is_pow_odd = all(size % 2 == 1 for size in other_sizes)
+      det_sign *= core_det_sign if is_pow_odd else core_det_sign**2
     return det_sign, logdet
 
 
-- 
2.43.0


From 73534092bc666ab16494b65852f6d5d7be36fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:06:41 +0000
Subject: [PATCH 21/22] fix: avoid integer overflow in the layer initializers
 of very large matrices

The numbers of rows and columns were multiplied as int64, so matrices with
2^63 rows or more got a zero or negative variance and NaN entries.
---
 t3f/initializers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 0a84c82..1fe0a4a 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -772,8 +772,8 @@ def glorot_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
-  n_out = np.prod(shape[1])
+  n_in = np.prod(shape[0], dtype=np.float64)
+  n_out = np.prod(shape[1], dtype=np.float64)
   lamb = 2.0 / (n_in + n_out)
 
   with tf.name_scope(name):
@@ -814,7 +814,7 @@ def he_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=np.float64)
   lamb = 2.0 / n_in
 
   with tf.name_scope(name):
@@ -855,7 +855,7 @@ def lecun_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=np.float64)
   lamb = 1.0 / n_in
   with tf.name_scope(name):
     return random_matrix(shape, tt_rank=tt_rank, stddev=np.sqrt(lamb),
-- 
2.43.0


From 87c1b0d1cf16576935ac208b3efa6da599633f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:06:41 +0000
Subject: [PATCH 22/22] fix: multiply by Python numbers in the precision of the
 tensor

TensorFlow turned a Python number into float32 before it was cast to the dtype
of the TT-object, so float64 results were only accurate to eight digits.
---
 t3f/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 0737143..7df794a 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -793,6 +793,9 @@ def multiply(tt_left, right, name='t3f_multiply'):
       # and raise to the power 1/ndims. First TT-core is multiplied by the sign
       # of right.
       tt_cores = list(tt_left.tt_cores)
+      if isinstance(right, (int, float)):
+        # Otherwise TensorFlow would round it to float32 first.
+        right = tf.constant(right, tt_left.dtype)
       fact = tf.pow(tf.cast(tf.abs(right), tt_left.dtype), 1.0 / ndims)
       sign = tf.cast(tf.sign(right), tt_left.dtype)
       for i in range(len(tt_cores)):
-- 
2.43.0

