"""Graphs built without knowing some of the sizes (tf.function with an input
signature, tf.Module with dynamic ranks): values and run-time shapes are those
of the same call with known sizes."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS
from t3v.contracts.decomp import orthogonal
from t3v.contracts.products import as_batch, flat, mat, vec, _bilinear
from t3v.contracts.batch import gram
from t3v.contracts.tangent import Frame

# Sizes that may be unknown per kind of object: mode sizes of TT-matrices have to
# be known, and so have mode sizes of batches.
ANY = ([dict(kind='tensor', batch=None, hide=h) for h in ('ranks', 'modes', 'ranks,modes')] +
       [dict(kind='tensor', batch='P', hide='ranks'), dict(kind='matrix', batch=None, hide='ranks'),
        dict(kind='matrix', batch='P', hide='ranks')])
BATCH = [dict(kind=k, batch='P', hide=h) for k in KINDS for h in ('batch', 'ranks,batch')]
PLAIN = [c for c in ANY if c['batch'] is None]


def over(d, cfgs):
  return [dict(c, d=k) for k in d for c in cfgs]


def hidden(hide):
  return tuple(hide.split(','))


@contract('C24', over((1, 2, 3), ANY + BATCH), over((4,), ANY + BATCH), deep=(4, 5),
          functions=['ops.full', 'ops._full_tt', 'ops._full_tt_batch', 'shapes.lazy_tt_ranks', 'shapes.lazy_shape',
                     'shapes.lazy_raw_shape', 'shapes.lazy_batch_size', 'shapes.tt_ranks', 'shapes.shape',
                     'shapes.raw_shape', 'shapes.batch_size'])
def full(B, d, kind, batch, hide):
  a = B.tt('a', d, kind, batch)
  B.eq('value', B.graph('full', hidden(hide), B.t3f.full, a), B.dense(a))


@contract('C24', over((1, 2, 3), ANY + BATCH), over((4,), ANY + BATCH), deep=(4, 5),
          functions=['shapes.tt_ranks', 'shapes.shape', 'shapes.raw_shape', 'shapes.batch_size', 'shapes.lazy_tt_ranks',
                     'shapes.lazy_shape', 'shapes.lazy_raw_shape', 'shapes.lazy_batch_size'])
def sizes(B, d, kind, batch, hide):
  a = B.tt('a', d, kind, batch)
  S = B.t3f.shapes
  tf = B.tf
  raw, rk, bs = B.static_sizes(a)
  v = B.dense(a)

  def ask(x):
    out = [S.tt_ranks(x), S.raw_shape(x), S.shape(x), tf.convert_to_tensor(S.lazy_tt_ranks(x)),
           tf.convert_to_tensor(S.lazy_raw_shape(x)), tf.convert_to_tensor(S.lazy_shape(x))]
    if batch is not None:
      out += [S.batch_size(x), tf.convert_to_tensor(S.lazy_batch_size(x))]
    return out
  want = [rk, raw, list(v.shape)] * 2 + [bs, bs]
  for n, g, w in zip(('ranks', 'raw-shape', 'shape', 'lazy-ranks', 'lazy-raw-shape', 'lazy-shape', 'batch-size',
                      'lazy-batch-size'), B.graph('sizes', hidden(hide), ask, a), want):
    B.same(n, B.ints(g), w)


@contract('C24', over((1, 2, 3), ANY + BATCH), over((4,), ANY), deep=(),
          functions=['ops.multiply', 'tensor_train_base.__mul__', 'ops.frobenius_norm', 'ops.frobenius_norm_squared',
                     'ops.cast'])
def scaled(B, d, kind, batch, hide):
  """Multiples and norms of one object."""
  a = B.tt('a', d, kind, batch)
  v = as_batch(B, a)
  n2 = B.inner(v, v, batch=True)
  if batch is None:
    n2 = B.squeeze(n2, 0)
  t3f = B.t3f
  r, sq, nr = B.graph('scaled', hidden(hide), lambda x: (
      x * 3., t3f.frobenius_norm_squared(x), t3f.frobenius_norm(x, epsilon=0.)), a)
  B.same_tt('multiple', r, B.den(a) * 3.)
  if batch is not None and len(list(sq.shape)) == 0:
    B.same('single-value', B.dim('P'), 1)
    n2 = B.squeeze(n2, 0)
  B.eq('squared-norm', sq, n2)
  B.eq('norm', nr, B.sqrt(n2))


@contract('C24', over((1, 2, 3), ANY), over((4,), ANY), deep=(),
          functions=['ops.frobenius_norm', 'ops.frobenius_norm_squared'])
def differentiable_norm(B, d, kind, batch, hide):
  a = B.tt('a', d, kind, batch)
  v = as_batch(B, a)
  n2 = B.inner(v, v, batch=True)
  sq = B.graph('norm', hidden(hide), lambda x: B.t3f.frobenius_norm_squared(x, differentiable=True), a)
  if len(list(sq.shape)) == 0:
    if batch is not None:
      B.same('single-value', B.dim('P'), 1)
    n2 = B.squeeze(n2, 0)
  B.eq('squared-norm', sq, n2)


@contract('C24', over((1, 2, 3), ANY), over((4,), ANY), deep=(), functions=['ops.flat_inner', 'ops.tt_tt_flat_inner'])
def inner(B, d, kind, batch, hide):
  a, b = B.tt('a', d, kind, batch), B.tt('b', d, kind, batch)
  want = B.inner(as_batch(B, a), as_batch(B, b), batch=True)
  r = B.graph('inner', hidden(hide), B.t3f.flat_inner, a, b)
  if len(list(r.shape)) == 0:
    if batch is not None:
      B.same('single-value', B.dim('P'), 1)
    want = B.squeeze(want, 0)
  B.eq('value', r, want)


@contract('C24', over((1, 2, 3), [dict(kind=k, hide='batch') for k in KINDS]),
          over((4,), [dict(kind=k, hide='batch') for k in KINDS]), deep=(), functions=['ops.multiply'])
def batch_product(B, d, kind, hide):
  """Elementwise products of batches of unknown sizes."""
  a, b = B.tt('a', d, kind, 'P'), B.tt('b', d, kind, 'P')
  B.require('<=', 2, B.dim('P'))
  r = B.graph('product', hidden(hide), B.t3f.multiply, a, b)
  B.same_tt('product', r, B.den(a) * B.den(b))


@contract('C24', over((1, 2, 3), [dict(kind=k, first=f) for k in KINDS for f in (True, False)]), deep=(4,),
          functions=['ops.multiply'])
def batch_of_one(B, d, kind, first):
  """A batch of unknown size times a batch that is known to have one element."""
  a, b = B.tt('a', d, kind, 'P'), B.tt('b', d, kind, 1)
  B.require('<=', 2, B.dim('P'))
  mul = B.t3f.multiply
  r = B.graph('product', ('batch',), (lambda x: mul(x, b)) if first else (lambda x: mul(b, x)), a)
  B.same_tt('product', r, B.den(a) * B.den(b))


@contract('C24', over((1, 2, 3), [dict(kind=k, first=f) for k in KINDS for f in (True, False)]), deep=(), replay_only=True,
          functions=['ops.multiply'], domain='sampled: one symbol cannot be known and unknown')
def half_known_batches(B, d, kind, first):
  """Two batches of the same size that is known statically for one of them."""
  a, b = B.tt('a', d, kind, 'P'), B.tt('b', d, kind, 'P')
  B.require('<=', 2, B.dim('P'))
  mul = B.t3f.multiply
  r = B.graph('product', ('batch',), (lambda x: mul(x, b)) if first else (lambda x: mul(b, x)), a)
  B.same_tt('product', r, B.den(a) * B.den(b))


@contract('C24', over((1, 2, 3), [c for c in ANY if c['batch'] is None]), over((4,), PLAIN), deep=(),
          functions=['decompositions.orthogonalize_tt_cores', 'decompositions._orthogonalize_tt_cores_left_to_right',
                     'decompositions._orthogonalize_tt_cores_right_to_left'])
def orthogonalize(B, d, kind, batch, hide):
  a = B.tt('a', d, kind, batch)
  for left in (True, False):
    tag = 'left-to-right' if left else 'right-to-left'
    r = B.graph(tag, hidden(hide), lambda x: B.t3f.orthogonalize_tt_cores(x, left_to_right=left), a)
    if not B.wf(tag, r):
      B.stop('malformed')
    B.eq(tag + '/same-value', B.den(r), B.den(a))
    orthogonal(B, tag + '/orthonormal', r, 'right' if left else 'left', d - 1 if left else 0)


@contract('C24', over((1, 2, 3), [c for c in ANY if c['batch'] is not None]), deep=(),
          functions=['decompositions.orthogonalize_tt_cores', 'decompositions._orthogonalize_batch_tt_cores_left_to_right'])
def orthogonalize_batch(B, d, kind, batch, hide):
  a = B.tt('a', d, kind, batch)
  r = B.graph('sweep', hidden(hide), B.t3f.orthogonalize_tt_cores, a)
  if not B.wf('sweep', r):
    B.stop('malformed')
  B.eq('same-value', B.den(r), B.den(a))
  orthogonal(B, 'orthonormal', r, 'right', d - 1)


@contract('C24', [dict(c, cap=p) for c in over((1, 2, 3), ANY) for p in ('none', 'number', 'list')], deep=(),
          functions=['decompositions.round', 'decompositions._round_tt', 'decompositions._round_batch_tt'])
def rounded(B, d, kind, batch, hide, cap):
  a = B.tt('a', d, kind, batch)
  caps = None
  if cap == 'none':
    arg = None
  elif cap == 'number':
    arg = B.dim('cap')
    caps = [arg] * (d + 1)
  else:
    caps = [1] + [B.dim('cap%d' % k) for k in range(1, d)] + [1]
    arg = list(caps)
  r = B.graph('round', hidden(hide), lambda x: B.t3f.round(x, arg), a)
  if not B.wf('result', r):
    B.stop('malformed')
  va, vr = B.den(a), B.den(r)
  for k in range(1, d):
    B.le('rank-not-increased-%d' % k, r.get_tt_ranks()[k], a.get_tt_ranks()[k])
    if caps is not None:
      B.le('rank-limit-%d' % k, r.get_tt_ranks()[k], caps[k])
  if caps is None:
    B.eq('same-value', vr, va)
  else:
    B.eq('error-orthogonal-to-result', B.inner(va, vr, batch is not None), B.inner(vr, vr, batch is not None))


@contract('C24', over((1, 2, 3), [dict(cap=c) for c in ('inf', 'number', 'list')]), deep=(4,),
          functions=['decompositions.to_tt_tensor'])
def from_dense(B, d, cap):
  """Dense tensors of unknown shape."""
  ns = B.modes('n', d)
  x = B.tensor('x', ns)
  caps = None
  if cap == 'inf':
    arg = B.np.inf
  elif cap == 'number':
    arg = B.dim('cap')
    caps = [arg] * (d + 1)
  else:
    caps = [1] + [B.dim('cap%d' % k) for k in range(1, d)] + [1]
    arg = list(caps)
  r = B.graph('to-tt', ('dense',), lambda y: B.t3f.to_tt_tensor(y, max_tt_rank=arg), x)
  if not B.wf('result', r, shape=[ns]):
    B.stop('malformed')
  v, w = B.val(x), B.dense(r)
  if caps is None:
    B.eq('same-value', w, v)
  else:
    for k in range(1, d):
      B.le('rank-limit-%d' % k, r.get_tt_ranks()[k], caps[k])
    B.eq('error-orthogonal-to-result', B.inner(v, w), B.inner(w, w))


@contract('C24', over((1, 2, 3), [dict(batch=b, hide=h) for b, h in ((None, 'ranks'), ('P', 'ranks'), ('P', 'batch'))]),
          deep=(4, 5), functions=['ops.transpose'])
def transposed(B, d, batch, hide):
  a = mat(B, 'a', d, 'i', 'j', batch)
  o = 1 if batch else 0
  perm = list(range(o)) + [o + d + k for k in range(d)] + [o + k for k in range(d)]
  B.same_tt('transposed', B.graph('transpose', hidden(hide), B.t3f.transpose, a), B.transpose(B.den(a), perm))


@contract('C24', over((2, 3), PLAIN), over((4,), PLAIN), deep=(), functions=['riemannian.project'])
def project(B, d, kind, batch, hide):
  z, x = B.tt('z', d, kind), B.tt('x', d, kind)
  r = B.graph('projection', hidden(hide), B.t3f.project, z, x)
  if not B.wf('projection', r):
    B.stop('malformed')
  B.eq('value', B.den(r), Frame(B, x).project(B.den(z)))


@contract('C24', over((1, 2, 3), [dict(kind=k, hide=h) for k in KINDS for h in ('ranks', 'batch', 'ranks,batch')]),
          deep=(4,), functions=['batch_ops.pairwise_flat_inner', 'batch_ops.gram_matrix'])
def pairwise(B, d, kind, hide):
  a, b = B.tt('a', d, kind, 'P'), B.tt('b', d, kind, 'Q')
  B.eq('all-scalar-products', B.graph('pairwise', hidden(hide), B.t3f.pairwise_flat_inner, a, b),
       gram(B, B.den(a), B.den(b)))


@contract('C24', over((1, 2, 3), [dict(hide='ranks')]), deep=(4,), functions=['ops.bilinear_form'])
def bilinear(B, d, hide):
  A = mat(B, 'A', d, 'i', 'j')
  b, c = vec(B, 'b', d, 'i'), vec(B, 'c', d, 'j')
  r = B.graph('form', hidden(hide), B.t3f.bilinear_form, A, b, c)
  want = _bilinear(B, as_batch(B, A), flat(B, b, d), flat(B, c, d), d)
  B.eq('value', r, B.squeeze(want, 0))


@contract('C24', over((1, 2, 3), [dict(hide=h) for h in ('ranks', 'ranks,modes')]), deep=(4, 5),
          functions=['ops.gather_nd'])
def elements(B, d, hide):
  a = B.tt('a', d)
  v = B.den(a)
  idx = B.index_tensor('ix', [B.dim('z')], list(v.shape))
  B.eq('elements', B.graph('elements', hidden(hide), lambda x: B.t3f.gather_nd(x, idx), a),
       B.gather_multi(v, 0, B.columns(idx)))


@contract('C24', over((1, 2, 3), [dict(side=s, hide=h) for s in ('right', 'left') for h in ('ranks', 'dense', 'ranks,dense')]),
          deep=(4,), functions=['ops.matmul', 'ops.tt_dense_matmul', 'ops.dense_tt_matmul'])
def tt_dense(B, d, side, hide):
  a = mat(B, 'a', d, 'i', 'j')
  av = B.dense(a)
  p = B.dim('p')
  if side == 'right':
    x = B.tensor('x', [av.shape[1], p])
    r = B.graph('product', hidden(hide), B.t3f.matmul, a, x)
    want = B.einsum('ij,jp->ip', av, x)
  else:
    x = B.tensor('x', [p, av.shape[0]])
    r = B.graph('product', hidden(hide), B.t3f.matmul, x, a)
    want = B.einsum('pi,ij->pj', x, av)
  B.eq('product', r, want)


@contract('C24', over((1, 2, 3), [dict(kind=k, hide=h) for k in KINDS for h in ('ranks', 'rows', 'ranks,rows')]),
          deep=(4,), functions=['ops.flat_inner', 'ops.tt_sparse_flat_inner', 'ops.gather_nd', 'utils.unravel_index'])
def sparse_inner(B, d, kind, hide):
  a = B.tt('a', d, kind)
  nnz = B.dim('z')
  v = B.dense(a)
  raw = [list(s) for s in a.get_raw_shape()]
  idx = B.index_tensor('ix', [nnz], raw if kind == 'matrix' else raw[0])
  vals = B.tensor('v', [nnz])
  shape = list(v.shape)
  r = B.graph('inner', hidden(hide), lambda x, i, w: B.t3f.flat_inner(x, B.sparse(i, w, shape)), a, idx, vals)
  B.eq('inner-product', r, B.einsum('z,z->', B.gather_multi(v, 0, B.columns(idx)), vals))


@contract('C24', over((1, 2, 3), [dict(kind=k, batch=None, hide='ranks') for k in KINDS]), deep=(4,),
          functions=['decompositions.round', 'ops.renormalize_tt_cores', 'ops.full'])
def renormalized(B, d, kind, batch, hide):
  a = B.tt('a', d, kind)
  r = B.graph('renormalize', hidden(hide), B.t3f.renormalize_tt_cores, a)
  B.wf('result', r)
  B.eq('same-value', B.den(r), B.den(a))


@contract('C24', [dict(spec=s, hide=h) for s in ('i:', ':i', ':i:', 'ii:', ':ii', 'i::', 's:s', 'i:i')
                  for h in ('ranks', 'ranks,modes')], deep=(), functions=['tensor_train.__getitem__'])
def slices(B, spec, hide):
  d = len(spec)
  a = B.tt('a', d)
  for k, s in enumerate(spec):
    B.require('<=', 2, B.dim('n%d' % (k + 1)))
  ix = tuple({'i': 1, ':': slice(None), 's': slice(1, None)}[s] for s in spec)
  B.same_tt('part', B.graph('slice', hidden(hide), lambda x: x[ix], a), B.getitem(B.den(a), ix))
