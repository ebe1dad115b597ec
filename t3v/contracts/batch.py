"""Operations that pair, join or weight the members of batches."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS
from t3v.contracts.products import mat, vec, flat


def gram(B, x, y):
  """[p, ...], [q, ...] -> [p, q] scalar products."""
  lab = ['a%d' % i for i in range(x.ndim - 1)]
  return B.contract([['p'] + lab, ['q'] + lab], [x, y], ['p', 'q'])


@contract('C08', grid(d=[1, 2, 3], kind=KINDS) + grid(d=[2], kind=KINDS, dtype=['float32']), grid(d=[4, 5], kind=KINDS),
          functions=['batch_ops.pairwise_flat_inner'])
def pairwise(B, d, kind):
  a, b = B.tt('a', d, kind, 'P'), B.tt('b', d, kind, 'Q')
  r = B.t3f.pairwise_flat_inner(a, b)
  B.same('dtype', r.dtype, B.dtype)
  B.eq('all-scalar-products', r, gram(B, B.den(a), B.den(b)))


@contract('C08', grid(d=[1, 2, 3], kind=KINDS), large=False,
          functions=['batch_ops.pairwise_flat_inner', 'batch_ops.concat_along_batch_dim'])
def related(B, d, kind):
  """The same batch twice, and batches that share cores."""
  a = B.tt('a', d, kind, 'P', r='r')
  other = B.tt('b', d, kind, 'P', r='r')
  shared = type(a)([other.tt_cores[k] if k == d - 1 else a.tt_cores[k] for k in range(d)])
  va, vs = B.den(a), B.den(shared)
  B.eq('with-itself', B.t3f.pairwise_flat_inner(a, a), gram(B, va, va))
  B.eq('shared-cores', B.t3f.pairwise_flat_inner(a, shared), gram(B, va, vs))
  B.eq('shared-cores-2', B.t3f.pairwise_flat_inner(shared, a), gram(B, vs, va))
  B.same_tt('joined', B.t3f.concat_along_batch_dim([a, shared, a]), B.concat([va, vs, va], 0))


@contract('C08', grid(d=[1, 2, 3], kind=KINDS), grid(d=[4], kind=KINDS), functions=['batch_ops.gram_matrix'])
def gram_matrix(B, d, kind):
  a = B.tt('a', d, kind, 'P')
  B.eq('gram', B.t3f.gram_matrix(a), gram(B, B.den(a), B.den(a)))


@contract('C08', grid(d=[1, 2, 3]), grid(d=[4]), functions=['batch_ops.pairwise_flat_inner'])
def pairwise_matrix(B, d):
  """With a matrix between the two batches of column vectors."""
  A = mat(B, 'A', d, 'i', 'j')
  a, b = vec(B, 'a', d, 'i', 'P'), vec(B, 'b', d, 'j', 'Q')
  r = B.t3f.pairwise_flat_inner(a, b, A)
  i = [('i', k) for k in range(d)]
  j = [('j', k) for k in range(d)]
  want = B.contract([['p'] + i, i + j, ['q'] + j], [flat(B, a, d), B.den(A), flat(B, b, d)], ['p', 'q'])
  B.eq('x^T A y', r, want)


@contract('C08', grid(d=[1, 2, 3]), grid(d=[4]), functions=['batch_ops.gram_matrix'])
def gram_with_matrix(B, d):
  A = mat(B, 'A', d, 'i', 'i')
  a = vec(B, 'a', d, 'i', 'P')
  r = B.t3f.gram_matrix(a, A)
  v = flat(B, a, d)
  i = [('i', k) for k in range(d)]
  j = [('j', k) for k in range(d)]
  B.eq('x^T A x', r, B.contract([['p'] + i, i + j, ['q'] + j], [v, B.den(A), v], ['p', 'q']))


@contract('C08', [dict(d=d, kind=k, sizes=s) for d in (1, 2, 3) for k in KINDS
                  for s in (('P',), ('P', 'Q'), ('P', 1), (1, 'P'), ('P', 'Q', 'S'))],
          functions=['batch_ops.concat_along_batch_dim'])
def concat(B, d, kind, sizes):
  xs = [B.tt('x%d' % i, d, kind, s, r='r') for i, s in enumerate(sizes)]
  r = B.t3f.concat_along_batch_dim(xs)
  want = B.concat([B.den(x) for x in xs], 0)
  B.true('is-batch', B.is_batch(r))
  B.same_tt('joined', r, want)


@contract('C08', grid(d=[1, 2, 3], kind=KINDS, how=['tensor', 'list']) +
          grid(d=[2], kind=KINDS, how=['tensor'], dtype=['float32']),
          functions=['batch_ops.multiply_along_batch_dim'])
def weights(B, d, kind, how):
  if how == 'tensor':
    a = B.tt('a', d, kind, 'P')
    w = B.tensor('w', [B.dim('P')])
    wv = B.val(w)
  else:
    a = B.tt('a', d, kind, 3)
    w = [2., -1., 0.5]
    wv = B.stack([B.ones([]) * c for c in w], 0)
  r = B.t3f.multiply_along_batch_dim(a, w)
  v = B.den(a)
  lab = ['a%d' % i for i in range(v.ndim - 1)]
  B.true('is-batch', B.is_batch(r))
  B.same_tt('weighted', r, B.contract([['p'] + lab, ['p']], [v, wv], ['p'] + lab))


@contract('C08', grid(d=[1, 2, 3], kind=KINDS, i=[0, 1, 2]), functions=['batch_ops.concat_along_batch_dim',
                                                               'tensor_train_batch.__getitem__'])
def members(B, d, kind, i):
  """Joining single objects and taking one back is the identity."""
  xs = [B.tt('x%d' % j, d, kind, r='r') for j in range(3)]
  r = B.t3f.concat_along_batch_dim([B.t3f.expand_batch_dim(x) for x in xs])
  B.same('size', r.batch_size, 3)
  B.same_tt('member', r[i], B.den(xs[i]))
