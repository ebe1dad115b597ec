"""Operands that do not fit together are refused instead of giving a number."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS
from t3v.contracts.products import mat, vec

REFUSED = (ValueError, TypeError)


def other_shape(B, d, kind, k, which=0):
  """Sizes that differ from the n's (or m's) in position k."""
  ns, ms = B.modes('n', d), B.modes('m', d)
  x = B.dim('x')
  if which == 0:
    B.require('!=', x, ns[k])
    ns = ns[:k] + [x] + ns[k + 1:]
  else:
    B.require('!=', x, ms[k])
    ms = ms[:k] + [x] + ms[k + 1:]
  return ns, ms


PAIRWISE = ('add', 'multiply')


@contract('C22', [dict(op=o, d=d, kind=k, at=a, which=w, b1=b[0], b2=b[1])
                  for o in PAIRWISE for d in (1, 2, 3, 4, 5) for k in KINDS for a in range(d)
                  for w in ((0, 1) if k == 'matrix' else (0,))
                  for b in ((None, None), ('B', None), ('B', 'B')) if d < 3 or b == (None, None)],
          functions=['ops.add', 'ops.multiply'])
def different_shapes(B, op, d, kind, at, which, b1, b2):
  ns, ms = other_shape(B, d, kind, at, which)
  a, b = B.tt('a', d, kind, b1), B.tt('b', d, kind, b2, n=ns, m=ms)
  f = getattr(B.t3f, op)
  B.raises('refused', ValueError, lambda: f(a, b))
  B.raises('refused-swapped', ValueError, lambda: f(b, a))


@contract('C22', [dict(op=o, d=d, b1=b[0], b2=b[1]) for o in ('add', 'multiply', 'flat_inner') for d in (1, 2)
                  for b in ((None, None), ('B', None), ('B', 'B'))],
          functions=['ops.add', 'ops.multiply', 'ops.flat_inner'])
def tensor_with_matrix(B, op, d, b1, b2):
  a, b = B.tt('a', d, 'tensor', b1), B.tt('b', d, 'matrix', b2)
  f = getattr(B.t3f, op)
  B.raises('refused', ValueError, lambda: f(a, b))
  B.raises('refused-swapped', ValueError, lambda: f(b, a))


@contract('C22', [dict(op=o, d=d, kind=k) for o in ('add', 'multiply', 'flat_inner', 'matmul') for d in (1, 2, 3)
                  for k in KINDS if not (o == 'matmul' and k == 'tensor')],
          functions=['ops.add', 'ops.multiply', 'ops.flat_inner', 'ops.matmul', 'shapes.is_batch_broadcasting_possible'])
def different_batches(B, op, d, kind):
  """Batch sizes must agree unless one of them is one."""
  P, Q = B.dim('P'), B.dim('Q')
  B.require('!=', P, Q)
  B.require('<', 1, P)
  B.require('<', 1, Q)
  kw = dict(n='n', m='n') if op == 'matmul' else {}
  a, b = B.tt('a', d, kind, 'P', **kw), B.tt('b', d, kind, 'Q', **kw)
  f = getattr(B.t3f, op)
  B.true('predicate', not B.t3f.is_batch_broadcasting_possible(a, b))
  B.raises('refused', ValueError, lambda: f(a, b))


@contract('C22', [dict(op=o, d=d, kind=k) for o in ('flat_inner', 'matmul', 'add', 'multiply') for d in (1, 2, 3)
                  for k in KINDS if not (o == 'matmul' and k == 'tensor')],
          functions=['ops.flat_inner', 'ops.matmul', 'ops.add', 'ops.multiply'])
def different_number_of_cores(B, op, d, kind):
  kw = dict(m='n') if op == 'matmul' else {}
  a, b = B.tt('a', d, kind, **kw), B.tt('b', d + 1, kind, **kw)
  f = getattr(B.t3f, op)
  B.raises('refused', ValueError, lambda: f(a, b))
  B.raises('refused-swapped', ValueError, lambda: f(b, a))


@contract('C22', [dict(op=o, d=d, at=a) for o in ('matmul', 'flat_inner') for d in (1, 2, 3, 4, 5) for a in range(d)],
          functions=['ops.tt_tt_matmul', 'ops.tt_tt_flat_inner'])
def misaligned(B, op, d, at):
  """Inner sizes that do not match never produce a value."""
  ns = B.modes('i', d)
  x = B.dim('x')
  B.require('!=', x, ns[at])
  B.require('<', 1, x)
  B.require('<', 1, ns[at])
  ms = ns[:at] + [x] + ns[at + 1:]
  err = (ValueError, B.InvalidArgumentError)
  if op == 'matmul':
    a, b = B.tt('a', d, 'matrix', n='o', m=ns), B.tt('b', d, 'matrix', n=ms, m='p')
    B.raises('refused', err, lambda: B.t3f.matmul(a, b))
  else:
    for kind in KINDS:
      a = B.tt('a' + kind, d, kind, n=ns)
      b = B.tt('b' + kind, d, kind, n=ms)
      B.raises('refused-' + kind, err, lambda: B.t3f.flat_inner(a, b))


@contract('C22', [dict(d=d, side=s) for d in (1, 2) for s in ('right', 'left')],
          functions=['ops.tt_dense_matmul', 'ops.dense_tt_matmul'])
def dense_misaligned(B, d, side):
  a = mat(B, 'a', d, 'i', 'j')
  x, p = B.dim('x'), B.dim('p')
  size = B.dense(a).shape[1 if side == 'right' else 0]
  B.require('!=', x, size)
  if side == 'right':
    w = B.tensor('w', [x, p])
    B.raises('refused', ValueError, lambda: B.t3f.matmul(a, w))
  else:
    w = B.tensor('w', [p, x])
    B.raises('refused', ValueError, lambda: B.t3f.matmul(w, a))


@contract('C22', [dict(d=d) for d in (1, 2)],
          functions=['ops.matmul', 'ops.transpose', 'ops.bilinear_form', 'ops.bilinear_form_two_mat',
                     'batch_ops.pairwise_flat_inner'])
def tensors_where_matrices_are_needed(B, d):
  t, m = B.tt('t', d, 'tensor'), B.tt('m', d, 'matrix', m='n')
  f = B.t3f
  B.raises('matmul', ValueError, lambda: f.matmul(t, m))
  B.raises('matmul-right', ValueError, lambda: f.matmul(m, t))
  B.raises('matmul-dense', ValueError, lambda: f.matmul(t, B.tensor('w', [B.dim('n1'), 2])))
  B.raises('transpose', ValueError, lambda: f.transpose(t))
  v = vec(B, 'v', d, 'n')
  B.raises('bilinear-matrix', ValueError, lambda: f.bilinear_form(t, v, v))
  B.raises('bilinear-first', ValueError, lambda: f.bilinear_form(m, t, v))
  B.raises('bilinear-second', ValueError, lambda: f.bilinear_form(m, v, t))
  two = f.ops.bilinear_form_two_mat
  B.raises('two-x', ValueError, lambda: two(t, m, m, v))
  B.raises('two-A', ValueError, lambda: two(v, t, m, v))
  B.raises('two-B', ValueError, lambda: two(v, m, t, v))
  B.raises('two-y', ValueError, lambda: two(v, m, m, t))
  tb = B.tt('tb', d, 'tensor', 'P')
  vb = vec(B, 'vb', d, 'n', 'P')
  B.raises('pairwise', ValueError, lambda: f.pairwise_flat_inner(tb, tb, m))
  B.raises('pairwise-first', ValueError, lambda: f.pairwise_flat_inner(tb, vb, m))
  B.raises('pairwise-second', ValueError, lambda: f.pairwise_flat_inner(vb, tb, m))
  B.raises('pairwise-matrix', ValueError, lambda: f.pairwise_flat_inner(vb, vb, t))
  B.raises('nonsense', ValueError, lambda: f.matmul(1., m))
  B.raises('nonsense-inner', ValueError, lambda: f.flat_inner(m, 1.))


@contract('C22', [dict(d=d, kind=k) for d in (1, 2, 3) for k in KINDS], functions=['tensor_train.__getitem__', 'tensor_train_batch.__getitem__', 'ops.gather_nd'])
def bad_indices(B, d, kind):
  a, b = B.tt('a', d, kind), B.tt('b', d, kind, 'P')
  err = ValueError if kind == 'tensor' else (ValueError, NotImplementedError)
  B.raises('too-many', err, lambda: a[(slice(None),) * (d + 1)])
  if d > 1:
    B.raises('too-few', err, lambda: a[(slice(None),) * (d - 1)])
  if d > 1:
    B.raises('batch-too-few', err, lambda: b[(slice(None),) * d])
  B.raises('batch-too-many', err, lambda: b[(slice(None),) * (d + 2)])
  if kind == 'tensor':
    z = B.dim('z')
    i = B.index_tensor('ix', [z], [B.dim('n%d' % (k + 1)) for k in range(d)] + [1])
    B.raises('gather', ValueError, lambda: B.t3f.gather_nd(a, i))
    j = B.index_tensor('jx', [z], [B.dim('n%d' % (k + 1)) for k in range(d)])
    B.raises('gather-batch', ValueError, lambda: B.t3f.gather_nd(b, j))


@contract('C22', [dict(kind=k, at=a) for k in KINDS for a in (0, 1)], functions=['riemannian.project', 'riemannian.project_sum', 'riemannian.project_matmul'])
def projection_shapes(B, kind, at):
  ns, ms = other_shape(B, 2, kind, at)
  x, z = B.tt('x', 2, kind), B.tt('z', 2, kind, n=ns, m=ms)
  f = B.t3f
  B.raises('project', ValueError, lambda: f.project(z, x))
  B.raises('project-sum', ValueError, lambda: f.project_sum(z, x))
  xb = B.tt('xb', 2, kind, 'P')
  y = B.tt('y', 2, kind)
  B.raises('batch-point', ValueError, lambda: f.project(y, xb))
  B.raises('batch-point-sum', ValueError, lambda: f.project_sum(y, xb))
  if kind == 'matrix':
    m = B.tt('m', 2, 'matrix', m='n')
    B.raises('project-matmul', ValueError, lambda: f.project_matmul(z, x, m))
    B.raises('batch-point-matmul', ValueError, lambda: f.project_matmul(y, xb, m))
  B.raises('inner-needs-projections', ValueError, lambda: f.pairwise_flat_inner_projected(x, y))
  B.raises('sum-needs-projections', ValueError, lambda: f.add_n_projected([x, y]))
  B.raises('deltas-need-projections', ValueError, lambda: f.tangent_space_to_deltas(x))


@contract('C22', [dict(kind=k, batch=b) for k in KINDS for b in (None, 'P')],
          functions=['riemannian.pairwise_flat_inner_projected', 'riemannian.add_n_projected'])
def different_tangent_spaces(B, kind, batch):
  """Vectors of different tangent spaces are never combined."""
  x, y = B.tt('x', 2, kind), B.tt('y', 2, kind)
  z = B.tt('z', 2, kind, batch)
  f = B.t3f
  p, q = f.project(z, x), f.project(z, y)
  B.raises('inner', ValueError, lambda: f.pairwise_flat_inner_projected(p, q))
  B.raises('sum', ValueError, lambda: f.add_n_projected([p, q]))


@contract('C22', [dict(kind=k) for k in KINDS], functions=['batch_ops.concat_along_batch_dim'])
def concat_mismatch(B, kind):
  ns, ms = other_shape(B, 2, kind, 0)
  a, b = B.tt('a', 2, kind, 'P', r='r'), B.tt('b', 2, kind, 'Q', n=ns, m=ms, r='r')
  f = B.t3f.concat_along_batch_dim
  B.raises('shape', ValueError, lambda: f([a, b]))
  q = B.dim('q')
  B.require('!=', q, B.dim('r1'))
  c = B.tt('c', 2, kind, 'Q', r=[1, q, 1])
  B.raises('ranks', ValueError, lambda: f([a, c]))
  t = B.tt('t', 2, kind, r='r')
  B.raises('not-a-batch', ValueError, lambda: f([a, t]))


@contract('C22', [dict(op=o, kind=k, batch=b) for o in ('round',) for k in KINDS for b in (None, 'P')] +
          [dict(op='to_tt', kind='tensor', batch=None)],
          functions=['decompositions.round', 'decompositions.to_tt_tensor'])
def bad_rank_limits(B, op, kind, batch):
  if op == 'round':
    a = B.tt('a', 3, kind, batch)
    f = lambda *s, **k: B.t3f.round(a, *s, **k)
  else:
    x = B.tensor('x', B.modes('n', 3))
    f = lambda *s, **k: B.t3f.to_tt_tensor(x, *s, **k)
  B.raises('zero', ValueError, lambda: f(0))
  B.raises('negative', ValueError, lambda: f(-1))
  B.raises('zero-in-list', ValueError, lambda: f([1, 2, 0, 1]))
  B.raises('negative-in-list', ValueError, lambda: f([1, 2, -1, 1]))
  B.raises('negative-in-array', ValueError, lambda: f(B.np.array([1, -2, 2, 1])))
  B.raises('short-list', ValueError, lambda: f([1, 2, 1]))
  B.raises('long-list', ValueError, lambda: f([1, 2, 2, 2, 1]))
  B.raises('negative-epsilon', ValueError, lambda: f(2, epsilon=-0.5))


INITS = ('tensor_ones', 'tensor_zeros', 'eye', 'matrix_ones', 'matrix_zeros', 'tensor_with_random_cores',
         'tensor_batch_with_random_cores', 'matrix_with_random_cores', 'matrix_batch_with_random_cores',
         'random_tensor', 'random_tensor_batch', 'random_matrix', 'random_matrix_batch', 'glorot_initializer',
         'he_initializer', 'lecun_initializer')


@contract('C22', [dict(f=f) for f in INITS], functions=['initializers._validate_input_parameters'])
def bad_initializer_arguments(B, f):
  g = getattr(B.t3f, f)
  mat_ = 'matrix' in f or f.endswith('initializer')
  ok = [[2, 3], [3, 2]] if mat_ else [2, 3]
  B.raises('zero-size', ValueError, lambda: g([[2, 0], [3, 2]] if mat_ else [2, 0]))
  B.raises('negative-size', ValueError, lambda: g([[2, 3], [-3, 2]] if mat_ else [-2, 3]))
  B.raises('fractional-size', ValueError, lambda: g([[2.5, 3], [3, 2]] if mat_ else [2.5, 3]))
  B.raises('wrong-nesting', ValueError, lambda: g([[[2, 3], [3, 2]]] * 2 if mat_ else [[2, 3], [3, 2]]))
  if 'ones' in f or 'zeros' in f or f == 'eye':
    return
  B.raises('zero-rank', ValueError, lambda: g(ok, tt_rank=0))
  B.raises('negative-rank', ValueError, lambda: g(ok, tt_rank=-1))
  B.raises('fractional-rank', ValueError, lambda: g(ok, tt_rank=1.5))
  B.raises('fractional-ranks', ValueError, lambda: g(ok, tt_rank=[1, 2.5, 1]))
  B.raises('rank-list-length', ValueError, lambda: g(ok, tt_rank=[1, 1]))
  B.raises('zero-in-ranks', ValueError, lambda: g(ok, tt_rank=[1, 0, 1]))
  if 'batch' in f:
    B.raises('zero-batch', ValueError, lambda: g(ok, batch_size=0))
    B.raises('fractional-batch', ValueError, lambda: g(ok, batch_size=1.5))


@contract('C22', [dict(kind=k, d=d) for k in KINDS for d in (1, 2)], functions=['approximate.reduce_sum_batch'])
def bad_coefficients(B, kind, d):
  """Weights of a sum have to belong to the members of the batch."""
  a = B.tt('a', d, kind, 4)
  f = lambda c: B.t3f.approximate.reduce_sum_batch(a, 3, c)
  for k in (1, 2, 3, 5, 8):
    B.raises('matrix-rows-%d' % k, ValueError, lambda: f(B.tensor('c%d' % k, [k, 2])))
    B.raises('square-%d' % k, ValueError, lambda: f(B.tensor('s%d' % k, [k, 4])))
  B.raises('three-axes', ValueError, lambda: f(B.tensor('t', [4, 2, 2])))


@contract('C22', [dict(d=d, at=a) for d in (1, 2, 3) for a in range(d)], functions=['batch_ops.pairwise_flat_inner', 'batch_ops.gram_matrix'])
def forms_of_misfits(B, d, at):
  """Batches of vectors around a matrix: every mode has to fit."""
  A = mat(B, 'A', d, 'i', 'j')
  a, b = vec(B, 'a', d, 'i', 'P'), vec(B, 'b', d, 'j', 'Q')
  x = B.dim('x')
  f = B.t3f.pairwise_flat_inner
  ns, js = B.modes('i', d), B.modes('j', d)
  B.require('!=', x, ns[at])
  B.require('!=', x, js[at])
  c = B.tt('c', d, 'matrix', 'P', n=ns[:at] + [x] + ns[at + 1:], m=[1] * d)
  e = B.tt('e', d, 'matrix', 'Q', n=js[:at] + [x] + js[at + 1:], m=[1] * d)
  B.raises('first', ValueError, lambda: f(c, b, A))
  B.raises('second', ValueError, lambda: f(a, e, A))
  y = B.dim('y')
  B.require('<', 1, y)
  ones = [1] * d
  g = B.tt('g', d, 'matrix', 'P', n=ns, m=ones[:at] + [y] + ones[at + 1:])
  h = B.tt('h', d, 'matrix', 'Q', n=js, m=ones[:at] + [y] + ones[at + 1:])
  for n in ns + js:
    B.require('<', 1, n)
  B.raises('first-not-vectors', ValueError, lambda: f(g, b, A))
  B.raises('second-not-vectors', ValueError, lambda: f(a, h, A))


@contract('C22', [dict(kind=k, batch=b) for k in KINDS for b in (None, 'P')],
          functions=['ops.add', 'ops.renormalize_tt_cores', 'initializers.ones_like', 'initializers.zeros_like',
                     'shapes.batch_size', 'shapes.lazy_batch_size', 'ops.transpose'])
def not_tensor_trains(B, kind, batch):
  a = B.tt('a', 2, kind, batch)
  x = B.tensor('x', [2, 3])
  f = B.t3f
  B.raises('add-dense', REFUSED + (AttributeError,), lambda: f.add(a, x))
  B.raises('add-to-dense', REFUSED + (AttributeError,), lambda: f.add(x, a))
  B.raises('renormalize', REFUSED + (AttributeError,), lambda: f.renormalize_tt_cores(x))
  B.raises('ones-like', REFUSED + (AttributeError,), lambda: f.ones_like(x))
  B.raises('zeros-like', REFUSED + (AttributeError,), lambda: f.zeros_like(x))
  B.raises('transpose', REFUSED + (AttributeError,), lambda: f.transpose(x))
  if batch is None:
    B.raises('batch-size', ValueError, lambda: f.batch_size(a))
    B.raises('lazy-batch-size', ValueError, lambda: f.lazy_batch_size(a))


@contract('C22', [dict(kind=k, batch=b) for k in KINDS for b in (None, 'P')],
          functions=['riemannian.project', 'riemannian.project_sum', 'riemannian.project_matmul'])
def different_dtypes(B, kind, batch):
  """Projections do not mix precisions."""
  tf = B.tf
  z, x = B.tt('z', 2, kind, batch, m='n', dtype=tf.float32), B.tt('x', 2, kind, m='n', dtype=tf.float64)
  f = B.t3f
  B.raises('project', ValueError, lambda: f.project(z, x))
  B.raises('project-sum', ValueError, lambda: f.project_sum(z, x))
  if kind == 'matrix':
    m = B.tt('m', 2, 'matrix', m='n', dtype=tf.float64)
    B.raises('project-matmul', ValueError, lambda: f.project_matmul(z, x, m))


@contract('C22', [dict(d=d, at=a) for d in (3, 4, 5) for a in range(1, d - 1)], functions=['riemannian.tangent_space_to_deltas'])
def odd_ranks(B, d, at):
  """Objects whose ranks are not those of a projection have no deltas."""
  x = B.tt('x', d, r=[1] + [2] * (d - 1) + [1])
  z = B.tt('z', d, r=[1] + [4 if k != at else 3 for k in range(1, d)] + [1])
  z.projection_on = x
  B.raises('refused', ValueError, lambda: B.t3f.tangent_space_to_deltas(z))
