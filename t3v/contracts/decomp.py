"""Orthogonalization, rounding and conversion of dense tensors."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS


def gram_of_core(B, c, axis_kept, batch):
  """Gram matrix of the unfolding of a core along one rank axis."""
  n = c.ndim
  lab = ['x%d' % i for i in range(n)]
  k = n - 1 if axis_kept == 'right' else (1 if batch else 0)
  a, b = list(lab), list(lab)
  a[k], b[k] = 'p', 'q'
  out = ([lab[0]] if batch else []) + ['p', 'q']
  return B.contract([a, b], [c, c], out)


def identity(B, size, batch):
  e = B.eye(size)
  return e if batch is None else B.expand(e, 0) * B.ones([batch, 1, 1])


def orthogonal(B, name, x, side, skip):
  """Every core except `skip` has an orthonormal unfolding."""
  bat = x.batch_size if B.is_batch(x) else None
  for k, c in enumerate(B.cores_of(x)):
    if k == skip:
      continue
    g = gram_of_core(B, c, side, bat is not None)
    B.eq('%s/core-%d' % (name, k), g, identity(B, g.shape[-1], bat))


@contract('C10', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P'], left=[True]) +
          grid(d=[1, 2, 3], kind=KINDS, batch=[None], left=[False]) +
          grid(d=[2], kind=KINDS, batch=[None], left=[True, False], dtype=['float32']),
          grid(d=[4], kind=KINDS, batch=[None, 'P'], left=[True]) + grid(d=[4], kind=KINDS, batch=[None], left=[False]),
          functions=['decompositions.orthogonalize_tt_cores', 'decompositions._orthogonalize_tt_cores_left_to_right',
                     'decompositions._orthogonalize_batch_tt_cores_left_to_right',
                     'decompositions._orthogonalize_tt_cores_right_to_left'])
def orthogonalize(B, d, kind, batch, left):
  a = B.tt('a', d, kind, batch)
  r = B.t3f.orthogonalize_tt_cores(a, left_to_right=left)
  B.true('kind', B.is_batch(r) == (batch is not None))
  if not B.wf('result', r):
    B.stop('malformed')
  B.eq('same-value', B.den(r), B.den(a))
  if left:
    orthogonal(B, 'orthonormal', r, 'right', d - 1)
  else:
    orthogonal(B, 'orthonormal', r, 'left', 0)
  if d > 1:
    for k, (x, y) in enumerate(zip(r.get_tt_ranks(), a.get_tt_ranks())):
      B.le('rank-not-increased-%d' % k, x, y)
  attainable(B, a, r, d, 'left' if left else 'right')


def attainable(B, a, r, d, side):
  """Each rank is at most the next one (from the given side) times the size of
  the mode between them: by induction no rank exceeds the size of the unfolding."""
  sizes = [B.prod(x) for x in zip(*[list(s) for s in a.get_raw_shape()])]
  rs = list(r.get_tt_ranks())
  for k in range(1, d):
    if side == 'left':
      B.le('rank-attainable-%d' % k, rs[k], rs[k - 1] * sizes[k - 1])
    else:
      B.le('rank-attainable-%d' % k, rs[k], rs[k + 1] * sizes[k])


@contract('C10', grid(d=[2, 3], kind=KINDS), grid(d=[4], kind=KINDS), functions=['decompositions.orthogonalize_tt_cores'])
def both_sweeps(B, d, kind):
  """A left sweep followed by a right sweep: as used for tangent spaces."""
  a = B.tt('a', d, kind)
  l = B.t3f.orthogonalize_tt_cores(a)
  r = B.t3f.orthogonalize_tt_cores(l, left_to_right=False)
  B.wf('result', r)
  B.eq('same-value', B.den(r), B.den(a))
  orthogonal(B, 'orthonormal', r, 'left', 0)
  attainable(B, a, r, d, 'right')


def split(B, v, k, d, kind, batch):
  """Matrix unfolding [b?, rows, cols] of a value after the first k modes."""
  o = 1 if batch is not None else 0
  if kind == 'matrix':
    perm = list(range(o)) + [o + i + j * d for i in range(d) for j in (0, 1)]
    v = B.transpose(v, perm)
    k = 2 * k
  sh = list(v.shape)
  return B.reshape(v, sh[:o] + [B.prod(sh[o:o + k]), B.prod(sh[o + k:])])


@contract('C11', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P'], cap=['none', 'inf', 'big', 'biglist']),
          grid(d=[4], kind=KINDS, batch=[None], cap=['none']),
          functions=['decompositions.round', 'decompositions._round_tt', 'decompositions._round_batch_tt',
                     'decompositions._clean_max_tt_rank'])
def unrestricted(B, d, kind, batch, cap):
  """Rounding without an effective rank limit keeps the value."""
  a = B.tt('a', d, kind, batch)
  if cap == 'none':
    r = B.t3f.round(a)
  elif cap == 'inf':
    r = B.t3f.round(a, B.np.inf)
  elif cap == 'biglist':
    caps = [1] + [B.dim('cap%d' % k) for k in range(1, d)] + [1]
    for k in range(1, d):
      B.require('<=', a.get_tt_ranks()[k], caps[k])
    r = B.t3f.round(a, caps)
  else:
    cap = B.dim('cap')
    for k in range(1, d):
      B.require('<=', a.get_tt_ranks()[k], cap)
    r = B.t3f.round(a, cap)
  B.true('kind', B.is_batch(r) == (batch is not None))
  if not B.wf('result', r):
    B.stop('malformed')
  B.eq('same-value', B.den(r), B.den(a))
  for k in range(1, d):
    B.le('rank-not-increased-%d' % k, r.get_tt_ranks()[k], a.get_tt_ranks()[k])
  attainable(B, a, r, d, 'right')


@contract('C11', grid(d=[2, 3], kind=KINDS, batch=[None, 'P'], cap=['one', 'number', 'list']),
          grid(d=[4], kind=KINDS, batch=[None], cap=['one', 'number', 'list']),
          deep=(4,), functions=['decompositions.round', 'decompositions._round_tt', 'decompositions._round_batch_tt'])
def restricted(B, d, kind, batch, cap):
  """Ranks respect the limit; the result is the orthogonal projection of the
  argument on what remains (so the error is orthogonal to the result)."""
  a = B.tt('a', d, kind, batch)
  if cap == 'one':
    caps, arg = [1] * (d + 1), 1
  elif cap == 'number':
    arg = B.dim('cap')
    caps = [arg] * (d + 1)
  else:
    caps = [1] + [B.dim('cap%d' % k) for k in range(1, d)] + [1]
    arg = list(caps)
  r = B.t3f.round(a, arg)
  B.true('kind', B.is_batch(r) == (batch is not None))
  if not B.wf('result', r):
    B.stop('malformed')
  for k in range(1, d):
    B.le('rank-limit-%d' % k, r.get_tt_ranks()[k], caps[k])
    B.le('rank-not-increased-%d' % k, r.get_tt_ranks()[k], a.get_tt_ranks()[k])
  attainable(B, a, r, d, 'right')
  va, vr = B.den(a), B.den(r)
  B.eq('error-orthogonal-to-result', B.inner(va, vr, batch is not None), B.inner(vr, vr, batch is not None))


@contract('C11', grid(d=[2, 3], kind=KINDS, batch=[None, 'P'], cap=[1, 2, 3, 'list']), grid(d=[4, 5], kind=['tensor'], batch=[None], cap=[2]),
          functions=['decompositions.round'], replay_only=True,
          domain='sampled: quasi-optimality needs singular values')
def near_best(B, d, kind, batch, cap):
  """The error is at most sqrt(sum of best truncation errors per unfolding) and
  at least each of them; limits above the true ranks lose nothing."""
  a = B.tt('a', d, kind, batch)
  caps = [cap] * (d + 1) if cap != 'list' else [1] + [1 + k % 2 for k in range(d - 1)] + [1]
  r = B.t3f.round(a, caps if cap == 'list' else cap)
  va, vr = B.den(a), B.den(r)
  np = B.np
  bs = [None] if batch is None else list(range(va.shape[0]))
  for b in bs:
    x, y = (va, vr) if b is None else (va[b], vr[b])
    err2 = np.sum((x - y) ** 2)
    tails = []
    for k in range(1, d):
      s = np.linalg.svd(split(B, x, k, d, kind, None), compute_uv=False)
      tails.append(np.sum(s[int(caps[k]):] ** 2))
    scale = 1e-10 * np.sum(x ** 2) * (1 if B.dtype == B.tf.float64 else 1e7)
    B.true('not-worse-than-quasi-optimal', err2 <= sum(tails) + scale)
    B.true('not-better-than-possible', err2 + scale >= max(tails))


@contract('C11', [dict(d=d, kind=k, batch=b, cap=c, r=r) for d in (2, 3, 4) for k in KINDS for b in (None, 'P')
                  for c in (None, 1, 2, 9) for r in (None, 8)],
          functions=['decompositions.round'], replay_only=True, large=False,
          domain='sampled: products of mode sizes')
def attainable_ranks(B, d, kind, batch, cap, r):
  a = B.tt('a', d, kind, batch, r=None if r is None else [1] + [r] * (d - 1) + [1])
  x = B.t3f.round(a, cap) if cap else B.t3f.round(a)
  sizes = [B.prod(s) for s in zip(*[list(s) for s in a.get_raw_shape()])]
  for k in range(1, d):
    for i, limit in enumerate([B.prod(sizes[:k]), B.prod(sizes[k:]), a.get_tt_ranks()[k], cap or 10 ** 9]):
      B.le('rank-%d-%d' % (k, i), x.get_tt_ranks()[k], limit)


@contract('C12', grid(d=[1, 2, 3], cap=['inf', 'none', 'big', 'biglist', 'default']), grid(d=[4], cap=['inf']),
          deep=(4, 5), functions=['decompositions.to_tt_tensor', 'decompositions._clean_max_tt_rank'])
def tensor_exact(B, d, cap):
  ns = B.modes('n', d)
  x = B.tensor('x', ns)
  if cap == 'inf':
    r = B.t3f.to_tt_tensor(x, max_tt_rank=B.np.inf)
  elif cap == 'none':
    r = B.t3f.to_tt_tensor(x, max_tt_rank=None)
  elif cap == 'default':
    for k in range(1, d):
      B.require('<=', B.prod(ns[:k]), 10)
    r = B.t3f.to_tt_tensor(x)
  elif cap == 'biglist':
    caps = [1] + [B.dim('cap%d' % k) for k in range(1, d)] + [1]
    for k in range(1, d):
      B.require('<=', B.prod(ns[:k]), caps[k])
    r = B.t3f.to_tt_tensor(x, max_tt_rank=caps)
  else:
    c = B.dim('cap')
    for k in range(1, d):
      B.require('<=', B.prod(ns[:k]), c)
    r = B.t3f.to_tt_tensor(x, max_tt_rank=c)
  B.true('kind', not B.is_batch(r) and not B.is_matrix(r))
  if not B.wf('result', r, shape=[ns]):
    B.stop('malformed')
  B.eq('same-value', B.den(r), B.val(x))


@contract('C12', grid(d=[1, 2, 3], form=['both', 'row', 'col'], cap=['inf']) + grid(d=[2, 3], form=['both'], cap=['biglist']),
          grid(d=[4], form=['both'], cap=['inf']),
          functions=['decompositions.to_tt_matrix', 'decompositions.to_tt_tensor'])
def matrix_exact(B, d, form, cap):
  ns = B.modes('n', d) if form != 'row' else [1] * d
  ms = B.modes('m', d) if form != 'col' else [1] * d
  x = B.tensor('x', [B.prod(ns), B.prod(ms)])
  shape = {'both': (list(ns), list(ms)), 'row': (None, list(ms)), 'col': (list(ns), None)}[form]
  caps = B.np.inf
  if cap == 'biglist':
    caps = [1] + [B.dim('cap%d' % k) for k in range(1, d)] + [1]
    for k in range(1, d):
      B.require('<=', B.prod(ns[:k] + ms[:k]), caps[k])
  r = B.t3f.to_tt_matrix(x, shape, max_tt_rank=caps)
  B.true('kind', not B.is_batch(r) and B.is_matrix(r))
  if not B.wf('result', r, shape=[ns, ms]):
    B.stop('malformed')
  B.eq('same-value', B.dense(r), B.val(x))


@contract('C12', grid(d=[2, 3], kind=KINDS, cap=['one', 'number', 'list']), grid(d=[4], kind=['tensor'], cap=['number']),
          deep=(4,), functions=['decompositions.to_tt_tensor', 'decompositions.to_tt_matrix'])
def truncated(B, d, kind, cap):
  ns = B.modes('n', d)
  ms = B.modes('m', d) if kind == 'matrix' else None
  if cap == 'one':
    caps, arg = [1] * (d + 1), 1
  elif cap == 'number':
    arg = B.dim('cap')
    caps = [arg] * (d + 1)
  else:
    caps = [1] + [B.dim('cap%d' % k) for k in range(1, d)] + [1]
    arg = list(caps)
  if kind == 'tensor':
    x = B.tensor('x', ns)
    r = B.t3f.to_tt_tensor(x, max_tt_rank=arg)
  else:
    x = B.tensor('x', [B.prod(ns), B.prod(ms)])
    r = B.t3f.to_tt_matrix(x, (list(ns), list(ms)), max_tt_rank=arg)
  if not B.wf('result', r, shape=[ns] if ms is None else [ns, ms]):
    B.stop('malformed')
  for k in range(1, d):
    B.le('rank-limit-%d' % k, r.get_tt_ranks()[k], caps[k])
  v, w = B.val(x), B.dense(r)
  B.eq('error-orthogonal-to-result', B.inner(v, w), B.inner(w, w))


@contract('C12', grid(d=[2, 3, 4], kind=KINDS, cap=[1, 2, 'list']), replay_only=True,
          functions=['decompositions.to_tt_tensor', 'decompositions.to_tt_matrix'],
          domain='sampled: quasi-optimality needs singular values')
def truncated_near_best(B, d, kind, cap):
  np = B.np
  ns = B.modes('n', d)
  ms = B.modes('m', d) if kind == 'matrix' else None
  caps = [cap] * (d + 1) if cap != 'list' else [1] + [1 + k % 2 for k in range(d - 1)] + [1]
  arg = caps if cap == 'list' else cap
  if kind == 'tensor':
    x = B.tensor('x', ns)
    r = B.t3f.to_tt_tensor(x, max_tt_rank=arg)
    v = B.val(x)
  else:
    x = B.tensor('x', [B.prod(ns), B.prod(ms)])
    r = B.t3f.to_tt_matrix(x, (list(ns), list(ms)), max_tt_rank=arg)
    v = B.reshape(B.val(x), list(ns) + list(ms))
  w = B.den(r)
  err2 = np.sum((v - w) ** 2)
  tails = []
  for k in range(1, d):
    s = np.linalg.svd(split(B, v, k, d, kind, None), compute_uv=False)
    tails.append(np.sum(s[int(caps[k]):] ** 2))
  scale = 1e-10 * np.sum(v ** 2)
  B.true('not-worse-than-quasi-optimal', err2 <= sum(tails) + scale)
  B.true('not-better-than-possible', err2 + scale >= max(tails))


@contract('C10', grid(d=[1, 2, 3], kind=KINDS), functions=['decompositions.orthogonalize_tt_cores'])
def batch_right_to_left(B, d, kind):
  """If batches can be orthogonalized from right to left, the result is such."""
  a = B.tt('a', d, kind, 'P')
  try:
    r = B.t3f.orthogonalize_tt_cores(a, left_to_right=False)
  except NotImplementedError:
    return
  if not B.wf('result', r):
    B.stop('malformed')
  B.eq('same-value', B.den(r), B.den(a))
  orthogonal(B, 'orthonormal', r, 'left', 0)


@contract('C11', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P'], epsilon=[0., 1e-3]), deep=(),
          functions=['decompositions.round', 'decompositions._round_tt', 'decompositions._round_batch_tt'])
def accuracy(B, d, kind, batch, epsilon):
  """Without a rank limit the result is within the accuracy asked for (decided
  here for results that keep the value)."""
  a = B.tt('a', d, kind, batch)
  r = B.t3f.round(a, max_tt_rank=B.np.inf, epsilon=epsilon)
  B.true('kind', B.is_batch(r) == (batch is not None))
  if not B.wf('result', r):
    B.stop('malformed')
  B.near('within-accuracy', B.den(r), B.den(a), epsilon)


@contract('C12', grid(d=[1, 2, 3], kind=KINDS, epsilon=[0., 1e-3]), deep=(),
          functions=['decompositions.to_tt_tensor', 'decompositions.to_tt_matrix'])
def dense_accuracy(B, d, kind, epsilon):
  ns = B.modes('n', d)
  ms = B.modes('m', d) if kind == 'matrix' else None
  if kind == 'tensor':
    x = B.tensor('x', ns)
    r = B.t3f.to_tt_tensor(x, max_tt_rank=B.np.inf, epsilon=epsilon)
  else:
    x = B.tensor('x', [B.prod(ns), B.prod(ms)])
    r = B.t3f.to_tt_matrix(x, (list(ns), list(ms)), max_tt_rank=B.np.inf, epsilon=epsilon)
  if not B.wf('result', r, shape=[ns] if ms is None else [ns, ms]):
    B.stop('malformed')
  B.near('within-accuracy', B.dense(r), B.val(x), epsilon)


@contract('C12', grid(d=[1, 2, 3], kind=KINDS), deep=(),
          functions=['decompositions.to_tt_tensor', 'decompositions.to_tt_matrix'])
def from_arrays(B, d, kind):
  """Dense arguments that are not TensorFlow tensors yet."""
  ns = B.modes('n', d)
  ms = B.modes('m', d) if kind == 'matrix' else None
  x = B.tensor('x', ns if ms is None else [B.prod(ns), B.prod(ms)])
  if ms is None:
    r = B.t3f.to_tt_tensor(B.plain(x), max_tt_rank=B.np.inf)
  else:
    r = B.t3f.to_tt_matrix(B.plain(x), (list(ns), list(ms)), max_tt_rank=B.np.inf)
  B.same('dtype', r.dtype, B.dtype)
  if not B.wf('result', r, shape=[ns] if ms is None else [ns, ms]):
    B.stop('malformed')
  B.eq('same-value', B.dense(r), B.val(x))


@contract('C12', grid(d=[2, 3]), deep=(), functions=['utils.replace_tf_svd_with_np_svd', 'decompositions.to_tt_tensor'])
def numpy_svd(B, d):
  """The singular value decomposition by numpy stands in for TensorFlow's."""
  tf = B.tf
  had, orig = hasattr(tf, 'original_svd'), tf.linalg.svd
  ns = B.modes('n', d)
  x = B.tensor('x', ns)
  y = B.tensor('y', [B.dim('P'), B.dim('p'), B.dim('q')])
  replace = B.t3f.utils.replace_tf_svd_with_np_svd
  try:
    replace()
    new = tf.linalg.svd
    replace()
    B.true('replaced-once', tf.linalg.svd is new and new is not orig)
    s, u, v = tf.linalg.svd(y)
    B.eq('factorization', B.contract([['b', 'i', 'k'], ['b', 'k'], ['b', 'j', 'k']], [u, s, v], ['b', 'i', 'j']), B.val(y))
    r = B.t3f.to_tt_tensor(x, max_tt_rank=B.np.inf)
  finally:
    tf.linalg.svd = orig
    if not had and hasattr(tf, 'original_svd'):
      del tf.original_svd
  if not B.wf('result', r, shape=[ns]):
    B.stop('malformed')
  B.eq('same-value', B.den(r), B.val(x))
